"""C17: tensor utilities against plain index sums and their defining equations, over every small shape."""
import itertools
import numpy as np
from mc import dense as dn

PROP, LEVEL = 'C17', 'model_checking'
BOUNDS = ('ncon: every network of up to 4 tensors with up to 6 legs (thorough 7), every set of contracted pairs (traces, multiple and disconnected edges), '
          'every contraction order of up to 3 edges, every order of up to 3 open legs, explicit and default; every labelling of small networks with '
          '{-2,-1,1,2}, valid ones equal the sum, others are refused. Legs: every permutation and partition of up to 4 legs, 5 in thorough. Matrices: every shape up to 4x4 '
          '(thorough 6x6), real and complex, every rank. Partial traces: every dimension list of up to 4 factors of 1..3, every kept subset. '
          'Padding: every pair of bond tuples up to 3 on 3 sites')
ASSUMPTIONS = ['numpy einsum, svd and scipy expm are the oracle', 'eigenmatrix solvers are asked about transfer matrices (positive maps)',
               'partial traces: kept factors are listed in increasing order']
TOL = 1e-9
DIMS = (2, 3, 1, 2, 3, 2, 2)


def compositions(n, k, lo=1):
    if k == 1:
        if n >= lo:
            yield (n,)
        return
    for i in range(lo, n + 1):
        for r in compositions(n - i, k - 1, lo):
            yield (i,) + r


def matchings(legs):
    """every set of disjoint pairs of legs"""
    if not legs:
        yield []
        return
    a, rest = legs[0], legs[1:]
    yield from matchings(rest)
    for i, b in enumerate(rest):
        for m in matchings(rest[:i] + rest[i + 1:]):
            yield [(a, b)] + m


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for n in range(1, (6 if lvl == 1 else 7) + 1):
        for k in range(1, 5):
            for c in compositions(n, k, 0 if n <= 4 else 1):
                cs.append(dict(group='ncon', legs=list(c), lvl=lvl, w=3**n))
    for c in ([1], [2], [3], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [1, 2, 1], [1, 1, 1, 1], [3, 1], [4], [2, 1, 1], [1, 0]):
        cs.append(dict(group='ncon-labels', legs=c, w=20))
    for n in range(1, 5 if lvl == 1 else 6):
        cs.append(dict(group='legs', n=n, w=3**n))
    N = 4 if lvl == 1 else 6
    for m in range(1, N + 1):
        for n in range(1, N + 1):
            cs.append(dict(group='matrix', m=m, n=n, w=m * n))
    for n in range(1, 5):
        for dims in itertools.product((1, 2, 3), repeat=n):
            if n < 4 or lvl == 2 or sorted(dims)[0] > 1 or dims[1] != 1:
                cs.append(dict(group='trace', dims=list(dims), w=n))
    cs += [dict(group='location', d=d) for d in (2, 3)]
    cs += [dict(group='eigenmatrix', d=d, K=K, tag=t) for d in (1, 2, 3) for K in (2, 3, 4) for t in range(3) if d > 1 or K < 4]
    cs += [dict(group='expm', n=n, kind=k) for n in (2, 3, 5, 8) for k in ('gen', 'herm', 'real')]
    bonds = list(itertools.product((1, 2, 3), repeat=2))
    cs += [dict(group='pad', a=list(a)) for a in bonds]
    cs += [dict(group='entropy', dims=list(x)) for x in itertools.product((1, 2, 3), (2, 3), (1, 2, 3), (1, 2, 3))]
    cs += [dict(group='disentangler', tag=t, dims=x, w=40) for t in range(2) for x in ([2, 2, 2, 2], [2, 2, 3, 2])]
    return cs


def run(case, out):
    globals()['g_' + case['group'].replace('-', '_')](case, out)
    out.sample(case)


def esum(AA, v, forder):
    """the sum over repeated labels, by einsum"""
    labs = {}
    args = []
    for A, x in zip(AA, v):
        args += [A, [labs.setdefault(i, len(labs)) for i in x]]
    return np.einsum(*args, [labs[i] for i in forder])


def g_ncon(case, out):
    from xmps.ncon import ncon
    legs = case['legs']
    pos = [(t, i) for t, n in enumerate(legs) for i in range(n)]
    for M in matchings(list(range(len(pos)))):
        opn = [x for x in range(len(pos)) if not any(x in p for p in M)]
        dim = {}
        for k, p in enumerate(M):
            dim[p[0]] = dim[p[1]] = DIMS[k]
        for k, x in enumerate(opn):
            dim[x] = (2, 3, 2, 1, 2, 3, 2)[k]
        AA, at = [], 0
        for t, n in enumerate(legs):
            AA.append(dn.gen(tuple(dim[at + i] for i in range(n)), ('nc', t), real=t == 1))
            at += n
        operms = list(itertools.permutations(range(len(opn)))) if len(opn) <= 3 else [tuple(range(len(opn))), tuple(range(len(opn)))[::-1]]
        cperms = list(itertools.permutations(range(len(M)))) if len(M) <= 3 else [tuple(range(len(M))), tuple(range(len(M)))[::-1]]
        for op in operms:
            lab = {x: -(op[k] + 1) for k, x in enumerate(opn)}
            num = [lambda k: 3 * k + 1, lambda k: k + 1, lambda k: 12 - 2 * k][(len(opn) + operms.index(op)) % 3]       # spaced, dense and falling labels
            for k, p in enumerate(M):
                lab[p[0]] = lab[p[1]] = num(k)
            v, at = [], 0
            for n in legs:
                v.append([lab[at + i] for i in range(n)])
                at += n
            fo = [-(i + 1) for i in range(len(opn))]
            want = esum(AA, v, fo)
            for ci, cp in enumerate(cperms):
                order = [num(k) for k in cp]
                for how in (('order', 'tuple', 'explicit') if ci or len(legs) > 1 else ('default', 'order', 'single', 'explicit')):
                    if how == 'tuple' and ci:
                        continue
                    o = list(order)
                    f = [fo[i] for i in op] if how == 'explicit' else None
                    vv = [list(x) for x in v]
                    A2 = [x.copy() for x in AA]
                    arg = (tuple(A2), tuple(tuple(x) for x in vv)) if how == 'tuple' else (A2[0], list(vv[0])) if how == 'single' and legs[0] else (A2, vv)
                    kw = {} if how in ('default', 'tuple', 'single') else dict(order=o) if how == 'order' else dict(order=o, forder=f)
                    w = want if f is None else esum(AA, v, f)
                    out.step()
                    for n in range(2):
                        ok, r = out.attempt('ncon:' + how, ncon, *arg, **kw)
                        if not ok:
                            break
                        out.check(np.shape(r) == w.shape and np.allclose(r, w, atol=TOL), 'ncon:%s%s' % (how, ':again' if n else ''),
                                  lambda: 'legs %s order %s forder %s shape %s want %s' % (v, kw.get('order'), f, np.shape(r), w.shape))
                    out.trace()
                    out.check(o == order and vv == v and len(A2) == len(AA) and all(x.shape == y.shape and (x == y).all() for x, y in zip(A2, AA)), 'ncon:arguments-changed', lambda: '%s %s' % (v, o))
        out.state((tuple(legs), tuple(M)))


def g_ncon_labels(case, out):
    from xmps.ncon import ncon
    legs = case['legs']
    n = sum(legs)
    for lab in itertools.product((-2, -1, 1, 2), repeat=n):
        for dims in itertools.product((2, 3), repeat=n) if n <= 3 else [(2,) * n, (2,) * (n - 1) + (3,)]:
            v, AA, at = [], [], 0
            for t, k in enumerate(legs):
                v.append(list(lab[at:at + k]))
                AA.append(dn.gen(tuple(dims[at:at + k]), ('nl', t)))
                at += k
            pos = [i for i in lab if i > 0]
            neg = [i for i in lab if i < 0]
            ok = all(pos.count(i) == 2 for i in pos) and all(neg.count(i) == 1 for i in neg)
            if ok:
                ok = all(len({dims[j] for j in range(n) if lab[j] == i}) == 1 for i in pos)
            out.step()
            out.state((lab, tuple(dims)))
            try:
                r = ncon(AA, v)
            except Exception as e:
                out.check(not ok, 'ncon:valid-network-refused', lambda: '%s %s: %r' % (v, dims, e))
                continue
            if not out.check(ok, 'ncon:invalid-network-accepted', lambda: '%s dims %s' % (v, dims)):
                continue
            w = esum(AA, v, sorted(neg, reverse=True))
            out.trace()
            out.check(np.shape(r) == w.shape and np.allclose(r, w, atol=TOL), 'ncon:labels', lambda: '%s dims %s' % (v, dims))
    # wrong counts of tensors / indices
    AA = [dn.gen((2,) * k, ('nl', t)) for t, k in enumerate(legs)]
    v = [list(range(-sum(legs[:t]) - 1, -sum(legs[:t]) - 1 - k, -1)) for t, k in enumerate(legs)]
    for bad in ([v[0] + [-9]] + v[1:], v + [[-9]], [v[0][:-1]] + v[1:]):
        out.step()
        try:
            ncon(AA, bad)
            out.check(False, 'ncon:wrong-index-count-accepted', '%s %s' % (legs, bad))
        except Exception:
            out.check(True, '')


def g_legs(case, out):
    from xmps.peps_tools import group_legs, ungroup_legs, inverse_transpose
    n = case['n']
    T = dn.gen((2, 3, 4, 2, 3)[:n], 'legs')
    for perm in itertools.permutations(range(n)):
        ok, inv = out.attempt('inverse_transpose', inverse_transpose, list(perm))
        if ok:
            out.check(list(inv) == list(np.argsort(perm)), 'inverse_transpose', str(perm))
        for k in range(1, n + 1):
            for c in compositions(n, k):
                at, legs = 0, []
                for x in c:
                    legs.append(list(perm[at:at + x]))
                    at += x
                out.step()
                T0 = T.copy()
                ok, r = out.attempt('group_legs', group_legs, T, legs)
                if not ok:
                    continue
                G, pipe = r
                W = T.transpose(perm).reshape([int(np.prod([T.shape[i] for i in g])) for g in legs])
                out.check(G.shape == W.shape and (G == W).all(), 'group_legs', str(legs))
                ok, B = out.attempt('ungroup_legs', ungroup_legs, G, pipe)
                if ok:
                    out.check(B.shape == T.shape and (B == T).all(), 'ungroup_legs', str(legs))
                out.check((T == T0).all(), 'group_legs:argument-changed')
                # a leg standing alone may have changed its dimension in between
                for j, g in enumerate(legs):
                    if len(g) == 1 and T.shape[g[0]] > 1:
                        sl = [slice(None)] * len(legs)
                        sl[j] = slice(0, 1)
                        ok, B = out.attempt('ungroup_legs:truncated', ungroup_legs, G[tuple(sl)], pipe)
                        if ok:
                            out.check(B.shape == np.take(T, [0], g[0]).shape and (B == np.take(T, [0], g[0])).all(), 'ungroup_legs:truncated', str(legs))
                if len(legs) < n:
                    try:
                        ungroup_legs(G[..., None], pipe)
                        out.check(False, 'ungroup_legs:wrong-rank-accepted')
                    except Exception:
                        out.check(True, '')
                out.trace()
                out.state((perm, c))


def iso(Q):
    return abs(Q.conj().T @ Q - np.eye(Q.shape[1])).max() < TOL


def g_matrix(case, out):
    from xmps import tensor as t
    m, n = case['m'], case['n']
    for real in (False, True):
        for rk in range(0, min(m, n) + 1):
            A = dn.gen((m, rk), ('mA', rk), real) @ dn.gen((rk, n), ('mB', rk), real) if rk < min(m, n) else dn.gen((m, n), 'mF', real)
            A = np.array(A)
            A0 = A.copy()
            det = lambda: '%dx%d rank %d real %s' % (m, n, rk, real)
            out.state((real, rk))
            k = min(m, n)
            # units and memory layout: the same matrix scaled far down and up, and column ordered, factors alike
            for c, lay in ((1., 'F'), (1e-9, 'C'), (1e9, 'C'), (1e-9, 'F'), (1e9, 'T')) if rk == k else ():
                B = np.array(c * A, order='F' if lay == 'F' else 'C') if lay != 'T' else np.ascontiguousarray(c * A.T).T
                B0 = B.copy()
                dt = lambda: det() + ' scale %g layout %s' % (c, lay)

                def cB(nm, *a, **kw):
                    out.step()
                    return out.attempt('scaled:' + nm, getattr(t, nm), *a, **kw)
                ok, r = cB('uqr', B)
                if ok:
                    Q, R = r[0], r[1] / c
                    out.check(np.allclose(Q @ R, A) and iso(Q) and np.allclose(np.tril(R, -1), 0) and (np.diag(R).real > -TOL).all(), 'scaled:uqr', dt)
                ok, r = cB('urq', B)
                if ok:
                    R, Q = r[0] / c, r[1]
                    out.check(np.allclose(R @ Q, A) and iso(Q.conj().T), 'scaled:urq', dt)
                sv = np.linalg.svd(A, compute_uv=False)
                for D in range(1, k + 1):
                    ok, r = cB('tr_svd', B, D)
                    if ok:
                        U, S, V = r
                        out.check(iso(U) and iso(V.conj().T) and np.allclose(np.diag(S) / c, sv[:D]) and abs(np.linalg.norm(U @ S @ V / c - A) - np.linalg.norm(sv[D:])) < 1e-7, 'scaled:tr_svd', dt)
                if m == n:
                    for tag, Hm in (('square', B @ B.conj().T / c), ('hermitian', B + B.conj().T)):
                        ok, r = cB('diagonalise', Hm)
                        if ok:
                            V, L = r
                            out.check(iso(V) and np.allclose(V @ L @ V.conj().T / c, Hm / c) and (np.diff(np.diag(L)) / c < TOL).all(), 'scaled:diagonalise', dt)
                        if abs(Hm[0, 0]) > 1e-3 * c:
                            ok, r = cB('rotate_to_hermitian', np.exp(.7j) * Hm)
                            if ok:
                                out.check(np.allclose(r / c, Hm / c) or np.allclose(-r / c, Hm / c), 'scaled:rotate_to_hermitian', dt)
                if m < n:
                    ok, N = cB('get_null_space', B)
                    if ok:
                        out.check(N.shape == (n, n - m) and np.allclose(A @ N, 0) and iso(N), 'scaled:get_null_space', dt)
                ok, U = cB('embed', B)
                if ok:
                    out.check(U.shape == (m * n, m * n) and iso(U) and np.allclose(U[:, 0], A.reshape(-1) / np.linalg.norm(A)), 'scaled:embed', dt)
                w = c * np.array([2., 1., .5, .1, .05, .01][:k])
                ok, r = cB('rank', np.diag(w))
                if ok:
                    out.check(r == k, 'scaled:rank', dt)
                for j in range(k):
                    w2 = w.copy()
                    w2[j + 1:] = 0
                    ok, r = cB('truncate_A', dn.gen((2, m, k), 'trA'), np.diag(w2), dn.gen((k, n), 'trV'), None)
                    if ok:
                        out.check(r[0].shape == (2, m, j + 1) and np.array_equal(r[1], np.diag(w2)[:j + 1, :j + 1]) and r[2].shape == (j + 1, n), 'scaled:truncate_A', dt)
                    ok, r = cB('truncate_B', dn.gen((m, k), 'trU'), np.diag(w2), dn.gen((2, k, n), 'trB'), None)
                    if ok:
                        out.check(r[0].shape == (m, j + 1) and np.array_equal(r[1], np.diag(w2)[:j + 1, :j + 1]) and r[2].shape == (2, j + 1, n), 'scaled:truncate_B', dt)
                out.check((B == B0).all(), 'scaled:argument-changed', dt)
                out.trace()

            def call(nm, *a):
                out.step()
                return out.attempt(nm, getattr(t, nm), *a)
            ok, r = call('uqr', A)
            if ok:
                Q, R = r
                out.check(Q.shape == (m, k) and R.shape == (k, n) and np.allclose(Q @ R, A) and iso(Q) and np.allclose(np.tril(R, -1), 0) and (np.diag(R).real > -TOL).all() and np.allclose(np.diag(R).imag, 0), 'uqr', det)
                if rk == n <= m:     # the triangular factor is unique: any other matrix with the same columns' Gram matrix has it
                    V = dn.unitary(m, 'uq', real)
                    ok, r2 = call('uqr', V @ A)
                    if ok:
                        out.check(np.allclose(r2[1], R, atol=1e-7), 'uqr:not-unique', det)
            ok, r = call('urq', A)
            if ok:
                R, Q = r
                out.check(R.shape == (m, k) and Q.shape == (k, n) and np.allclose(R @ Q, A) and iso(Q.conj().T), 'urq', det)
                if m <= n:
                    out.check(np.allclose(np.tril(R, -1), 0) and (np.diag(R).real > -TOL).all() and np.allclose(np.diag(R).imag, 0), 'urq:triangular', det)
                if rk == m <= n:
                    V = dn.unitary(n, 'uq', real)
                    ok, r2 = call('urq', A @ V)
                    if ok:
                        out.check(np.allclose(r2[0], R, atol=1e-7), 'urq:not-unique', det)
            s = np.linalg.svd(A, compute_uv=False)
            for D in range(1, k + 2):
                ok, r = call('tr_svd', A, D)
                if ok:
                    U, S, V = r
                    D_ = min(D, k)
                    out.check(U.shape == (m, D_) and S.shape == (D_, D_) and V.shape == (D_, n) and iso(U) and iso(V.conj().T) and
                              abs(np.linalg.norm(U @ S @ V - A) - np.linalg.norm(s[D_:])) < 1e-7, 'tr_svd', det)
                    out.check(np.allclose(np.diag(S), s[:D_]), 'tr_svd:values', det)
            if m == n:
                M = A @ A.conj().T
                M0 = M.copy()
                ok, r = call('diagonalise', M)
                if ok:
                    V, L = r
                    w = np.diag(L)
                    out.check(iso(V) and np.allclose(V @ L @ V.conj().T, M0) and np.allclose(L, np.diag(w)) and (np.diff(w) < TOL).all(), 'diagonalise', det)
                for M in (np.eye(n) * .5, np.diag([2., 1., 1., 0, 0, 0][:n]), A + A.conj().T):
                    ok, r = call('diagonalise', M)
                    if ok:
                        V, L = r
                        out.check(iso(V) and np.allclose(V @ L @ V.conj().T, M) and (np.diff(np.diag(L)) < TOL).all(), 'diagonalise:hermitian', det)
                Hm = A + A.conj().T
                if abs(Hm[0, 0]) > 1e-3:
                    for ph in (1, -1, 1j, np.exp(.7j), np.exp(2.8j), np.exp(-1.9j)):
                        ok, r = call('rotate_to_hermitian', ph * Hm)
                        if ok:
                            out.check(np.allclose(r, Hm) or np.allclose(r, -Hm), 'rotate_to_hermitian', det)
                        ok, r = out.attempt('rotate_to_hermitian', t.rotate_to_hermitian, ph * Hm, ret_phase=True)
                        if ok:
                            out.check(np.allclose(r[0] * r[1], ph * Hm) and abs(abs(r[0]) - 1) < TOL and np.allclose(r[1], r[1].conj().T), 'rotate_to_hermitian:phase', det)
                ok, r = call('eye_like', A)
                if ok:
                    out.check((r == np.eye(n)).all(), 'eye_like', det)
            if m < n and rk == m:
                ok, N = call('get_null_space', A)
                if ok:
                    out.check(N.shape == (n, n - m) and np.allclose(A @ N, 0) and iso(N), 'get_null_space', det)
            if rk == k:     # isometries
                Q = np.linalg.qr(A if m >= n else A.conj().T)[0]
                Q = Q if m >= n else Q.conj().T
                for D in [None] + list(range(max(m, n), max(m, n) + 3)):
                    ok, U = call('unitary_extension', Q, D)
                    if ok:
                        N = D or max(m, n)
                        out.check(U.shape == (N, N) and iso(U) and np.allclose(U[:m, :n], Q), 'unitary_extension', lambda: det() + ' D %s' % D)
                        if N > max(m, n):
                            k0 = max(m, n)
                            out.check(np.allclose(U[:k0, k0:], 0) and np.allclose(U[k0:, k0:], np.eye(N - k0)), 'unitary_extension:padding', det)
            if rk:
                ok, U = call('embed', A)
                if ok:
                    out.check(U.shape == (m * n, m * n) and iso(U) and np.allclose(U[:, 0], A.reshape(-1) / np.linalg.norm(A)), 'embed', det)
                    if m == n == 2:
                        ok, r = call('deembed', U)
                        if ok:
                            out.check(np.allclose(r, A / np.linalg.norm(A)), 'deembed', det)
            for p in range(1, 4):
                for q in range(1, 4):
                    B = dn.gen((p, q), 'ds', real)
                    ok, r = call('direct_sum', A, B)
                    if ok:
                        W = np.zeros((m + p, n + q), complex)
                        W[:m, :n] = A
                        W[m:, n:] = B
                        out.check(r.shape == W.shape and np.allclose(r, W), 'direct_sum', lambda: det() + ' %dx%d' % (p, q))
            X = dn.gen((2, m, n), 'stack', real)
            for nm, w in (('T', X.transpose(0, 2, 1)), ('H', X.conj().transpose(0, 2, 1)), ('C', X.conj())):
                ok, r = call(nm, X)
                if ok:
                    out.check(r.shape == w.shape and np.allclose(r, w), nm, det)
            Y = dn.gen((3, m), 'ldot', real)
            ok, r = call('ldot', Y, X)
            if ok:
                out.check(np.allclose(r, np.einsum('ab,sbc->sac', Y, X)), 'ldot', det)
            Y = dn.gen((n, 3), 'rdot', real)
            ok, r = call('rdot', X, Y)
            if ok:
                out.check(np.allclose(r, np.einsum('sab,bc->sac', X, Y)), 'rdot', det)
            w = np.array([2., 1., .5, .1, .05, .01][:k])
            w[rk:] = 0
            ok, r = call('rank', np.diag(w))
            if ok:
                out.check(r == rk, 'rank', det)
            for D in (None, 1, 2, k, k + 1):
                for minD in (True, False):
                    if rk == 0:
                        continue
                    e = D if D is not None else (rk if minD else k)
                    ok, r = call('truncate_A', dn.gen((2, m, k), 'trA'), np.diag(w), dn.gen((k, n), 'trV'), D, minD)
                    if ok:
                        out.check(np.array_equal(r[0], dn.gen((2, m, k), 'trA')[:, :, :e]) and np.array_equal(r[1], np.diag(w)[:e, :e]) and np.array_equal(r[2], dn.gen((k, n), 'trV')[:e]), 'truncate_A', det)
                    ok, r = call('truncate_B', dn.gen((m, k), 'trU'), np.diag(w), dn.gen((2, k, n), 'trB'), D, minD)
                    if ok:
                        out.check(np.array_equal(r[0], dn.gen((m, k), 'trU')[:, :e]) and np.array_equal(r[1], np.diag(w)[:e, :e]) and np.array_equal(r[2], dn.gen((2, k, n), 'trB')[:, :e]), 'truncate_B', det)
            out.check((A == A0).all(), 'argument-changed', det)
            out.trace()
    for sd in range(4):
        np.random.seed(sd)
        ok, U = out.attempt('haar_unitary', t.haar_unitary, m)
        if ok:
            out.check(U.shape == (m, m) and iso(U), 'haar_unitary', str(m))


def g_trace(case, out):
    from xmps import tensor as t
    dims = case['dims']
    N = int(np.prod(dims))
    n = len(dims)
    for real in (False, True):
        u = np.array(dn.gen((N,), 'ptu', real))
        rho = np.array(dn.gen((N, N), 'ptr', real))
        for k in range(1, n + 1):
            for keep in itertools.combinations(range(n), k):
                rest = [i for i in range(n) if i not in keep]
                K = int(np.prod([dims[i] for i in keep]))
                M = u.reshape(dims).transpose(list(keep) + rest).reshape(K, -1)
                wu = M @ M.conj().T
                R = rho.reshape(dims * 2).transpose(list(keep) + rest + [n + i for i in keep] + [n + i for i in rest]).reshape(K, N // K, K, N // K)
                wr = np.einsum('iaja->ij', R)
                for how in (list, tuple, np.array):
                    for opt in (False, True):
                        out.step()
                        ok, r = out.attempt('ρA:' + how.__name__, t.ρA, u.copy(), how(keep), how(dims), opt)
                        if ok:
                            out.check(r.shape == wu.shape and np.allclose(r, wu), 'ρA:' + how.__name__, lambda: '%s keep %s' % (dims, keep))
                        ok, r = out.attempt('partial_trace', t.partial_trace, rho.copy(), how(keep), how(dims), opt)
                        if ok:
                            out.check(r.shape == wr.shape and np.allclose(r, wr), 'partial_trace', lambda: '%s keep %s' % (dims, keep))
                        out.trace()
                        out.state((keep, real))


def g_location(case, out):
    from xmps import tensor as t
    d = case['d']
    idx = list(itertools.product(range(d), repeat=2))
    ok, b = out.attempt('basis_iterator', t.basis_iterator, d)
    out.check(ok and list(b) == list(itertools.product(idx, idx)), 'basis_iterator')
    ok, b = out.attempt('single_basis_iterator', t.single_basis_iterator, d)
    out.check(ok and list(b) == idx, 'single_basis_iterator')
    A, B, C = (dn.gen((d, d), ('loc', i)) for i in range(3))
    AB, ABC = np.kron(A, B), np.kron(np.kron(A, B), C)
    for st in idx:
        for uv in idx:
            out.step()
            for nm, f in (('loc', t.loc), ('p', t.p)):
                ok, r = out.attempt(nm, f, st, uv, d)
                if ok:
                    out.check(np.isclose(AB[tuple(r)], A[st] * B[uv]), nm, str((st, uv)))
            out.state((st, uv))
            for wx in idx:
                ok, r = out.attempt('loc_3', t.loc_3, st, uv, wx, d)
                if ok:
                    out.check(np.isclose(ABC[tuple(r)], A[st] * B[uv] * C[wx]), 'loc_3', str((st, uv, wx)))
    for p, q in itertools.product((1, 2, 3), repeat=2):
        M = dn.gen((p, q), 'locpq')
        AM = np.kron(A, M)
        for st in idx:
            for u in range(p):
                for v in range(q):
                    ok, r = out.attempt('loc(p,q)', t.loc, st, (u, v), None, p, q)
                    if ok:
                        out.check(np.isclose(AM[tuple(r)], A[st] * M[u, v]), 'loc(p,q)', str((st, u, v, p, q)))
    H = dn.gen((d * d, d * d), 'split')
    ok, h = out.attempt('split_up', t.split_up, H, d)
    if ok:
        out.check(np.allclose(h, H.reshape([d] * 4).transpose(1, 0, 3, 2)), 'split_up')
    H = dn.gen((d**3, d**3), 'split')
    ok, h = out.attempt('split_up_3', t.split_up_3, H, d)
    if ok:
        out.check(h.shape == (d,) * 6 and np.allclose(h, H.reshape([d] * 6).transpose(0, 3, 1, 4, 2, 5)), 'split_up_3')
    out.trace()


def g_eigenmatrix(case, out):
    from xmps import tensor as t
    d, K = case['d'], case['K']
    A = dn.gen((d, K, K), ('em', case['tag']), case['tag'] == 2)
    if d == 1:      # one operator: X -> A X A^+ with its dominant eigenvector
        return
    M = np.tensordot(A, A.conj(), [0, 0]).transpose(0, 2, 1, 3)
    lead = np.abs(np.linalg.eigvals(M.reshape(K * K, -1))).max()
    for n in range(3):
        out.step()
        if n == 2:      # a transfer matrix of an unnormalised state, far from 1
            for c in (1e-6, 1e6):
                for nm in ('r_eigenmatrix', 'l_eigenmatrix'):
                    ok, r = out.attempt('scaled:' + nm, getattr(t, nm), c * M)
                    if ok:
                        e, v = r[0] / c, r[1]
                        w = np.tensordot(M, v, [[2, 3], [0, 1]]) if nm[0] == 'r' else np.tensordot(v, M, [[0, 1], [0, 1]])
                        out.check(np.isclose(e, lead) and np.allclose(w, e * v, atol=1e-7) and np.linalg.norm(v) > .1 and (np.linalg.eigvalsh(v) > -1e-8).all(), 'scaled:' + nm, lambda: '%s %g' % (case, c))
        ok, r = out.attempt('r_eigenmatrix', t.r_eigenmatrix, M.copy())
        if ok:
            e, v = r
            out.check(np.isclose(e, lead) and v.shape == (K, K) and np.allclose(np.tensordot(M, v, [[2, 3], [0, 1]]), e * v, atol=1e-7) and np.linalg.norm(v) > .1
                      and np.allclose(v, v.conj().T, atol=1e-7) and (np.linalg.eigvalsh(v) > -1e-8).all(), 'r_eigenmatrix', str(case))
        ok, r = out.attempt('l_eigenmatrix', t.l_eigenmatrix, M.copy())
        if ok:
            e, v = r
            out.check(np.isclose(e, lead) and v.shape == (K, K) and np.allclose(np.tensordot(v, M, [[0, 1], [0, 1]]), e * v, atol=1e-7) and np.linalg.norm(v) > .1
                      and np.allclose(v, v.conj().T, atol=1e-7) and (np.linalg.eigvalsh(v) > -1e-8).all(), 'l_eigenmatrix', str(case))
        out.trace()
        out.state(n)


def g_expm(case, out):
    from xmps.tensor import lanczos_expm
    from scipy.linalg import expm
    from scipy.sparse.linalg import aslinearoperator
    n = case['n']
    M = {'gen': dn.gen((n, n), 'lx'), 'herm': dn.herm(n, 'lx'), 'real': dn.gen((n, n), 'lx', True)}[case['kind']]
    v = dn.gen((n,), 'lxv')
    for tt in (.1, -.7, 1.3, 0., .4j, -1j):
        for A in (aslinearoperator(M), M):
            out.step()
            ok, r = out.attempt('lanczos_expm', lanczos_expm, A, v.copy(), tt)
            if ok:
                out.trace()
                out.state((tt, A is M))
                out.check(np.allclose(r, expm(tt * M) @ v, atol=1e-7), 'lanczos_expm', lambda: '%s t=%s' % (case, tt))


def g_pad(case, out):
    from xmps.fMPS import fMPS
    from xmps.tensor import mps_pad
    for b in itertools.product((1, 2, 3), repeat=2):
        for real in (False, True):
            x, y = dn.mps_from_bonds([1] + case['a'] + [1], 2, 'p1', real), dn.mps_from_bonds([1] + list(b) + [1], 2, 'p2', real)
            vx, vy = dn.dense(x), dn.dense(y)
            out.step()
            ok, r = out.attempt('mps_pad', mps_pad, fMPS(x), fMPS(y))
            if ok:
                p, q = r
                out.trace()
                out.state(b)
                w = [max(i, j) for i, j in zip(case['a'], b)]
                w = list(zip([1] + w, w + [1]))
                out.check([tuple(z.shape[1:]) for z in p.data] == w == [tuple(z.shape[1:]) for z in q.data], 'mps_pad:structure', lambda: '%s %s' % (case, b))
                out.check(np.allclose(dn.dense(p.data), vx) and np.allclose(dn.dense(q.data), vy), 'mps_pad:state', lambda: '%s %s' % (case, b))


def g_entropy(case, out):
    from xmps import peps_tools as pt
    d1, d2, l, r = case['dims']
    th = dn.gen((d1, d2, l, r), 'th')
    th = th / np.linalg.norm(th)
    for k in range(2):
        U = (dn.unitary(d1 * d2, ('ren', k)) if k else np.eye(d1 * d2)).reshape(d1, d2, d1, d2)
        x = np.tensordot(U, th, [[2, 3], [0, 1]])
        s = np.linalg.svd(x.transpose(0, 2, 1, 3).reshape(d1 * l, d2 * r), compute_uv=False)
        out.step()
        ok, S = out.attempt('renyi', pt.renyi, U.copy(), th.copy())
        if ok:
            out.check(abs(S + np.log((s**4).sum())) < 1e-8, 'renyi', str(case))
        # E2 is the environment of U: the derivative of Tr rho^2 with respect to one U
        ok, E = out.attempt('E2', pt.E2, U.copy(), th.copy())
        if ok:
            V = dn.gen((d1, d2, d1, d2), 'E2V')
            y = np.tensordot(V, th, [[2, 3], [0, 1]])
            rho = np.einsum('abij,cbkj->aick', x, x.conj())
            mix = np.einsum('abij,cbkj->aick', y, x.conj())
            got = np.einsum('abcd,cdab->', V, E)
            out.check(abs(got - np.einsum('aick,ckai->', mix, rho)) < 1e-8, 'E2', str(case))
        out.trace()
        out.state(k)


def g_disentangler(case, out):
    from xmps import peps_tools as pt
    th = dn.gen(tuple(case['dims']), ('dis', case['tag']))
    th = th / np.linalg.norm(th)
    d = case['dims'][0] * case['dims'][1]
    out.step()
    ok, r = out.attempt('renyi_2_disentangler', pt.renyi_2_disentangler, th.copy())
    if ok:
        U, S = r
        out.trace()
        out.state(0)
        out.check(U.shape == (d, d) and iso(U), 'renyi_2_disentangler:not-unitary', str(case))
        out.check(abs(S[-1] - pt.renyi(U.reshape(case['dims'][:2] * 2), th)) < 1e-8, 'renyi_2_disentangler:entropy', str(case))
