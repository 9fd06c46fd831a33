"""C06: gates."""
import copy
import itertools
import numpy as np
from scipy.linalg import expm
from mc import dense as dn, states as st, fops
from mc.explore import explore

PROP, LEVEL = 'C06', 'model_checking'
BOUNDS = ('every initial state of the alphabet in every form (raw, right, left, mixed canonical) x every site / ordered site pair x both sides x {none, ample, small} D x '
          'swap truncation x {unitary, within 1e-5 of the identity, generic, singular, identity, swap} operators; all gate histories of depth 2 (thorough: 3) on L<=4; every shape of '
          'two-site block up to bond 3 for grouping and splitting')
ASSUMPTIONS = ['gates between distant sites are for spin-1/2 chains (the swap gate of the library is the two-qubit one)', 'both sites of a gate have the same local dimension']
TOL = 1e-7


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in st.finite_specs(lvl):
        if s['L'] <= 6 or lvl == 2:
            cs.append(dict(group='single', spec=s, lvl=lvl, w=s['L']**3))
        if s['L'] in (3, 4) and s.get('tag') in (2, 'over', 'd3b', None) and s['kind'] in ('bonds', 'ghz', 'basis'):
            cs.append(dict(group='histories', spec=s, depth=2 if lvl == 1 else 3, w=200))
    for d in (2, 3, 4):
        cs.append(dict(group='blocks', d=d, w=5))
    return cs


FORMS = {'raw': lambda m: m, 'rc': lambda m: m.right_canonicalise(), 'lc': lambda m: m.left_canonicalise(),
         'mc': lambda m: m.mixed_canonicalise(m.L // 2), 'mo': lambda m: m.mixed_orthogonalise(m.L - 1), 'norm-lost': lambda m: m.mul(3.3)}


def gates(d, lvl):
    S = np.zeros((d * d, d * d))
    for a, b in itertools.product(range(d), repeat=2):
        S[a * d + b, b * d + a] = 1
    g = [('nearly-identity', expm(-1e-5j * dn.herm(d * d, 'small'))), ('unitary', dn.unitary(d * d, 'U2')), ('generic', dn.gen((d * d, d * d), 'G2')), ('swap', S),
         ('projector', np.outer(dn.gen((d * d,), 'p'), dn.gen((d * d,), 'p').conj()) + 0j)]
    if lvl > 1:
        g += [('identity', np.eye(d * d)), ('product', np.kron(dn.unitary(d, 1), dn.unitary(d, 2))), ('real', dn.gen((d * d, d * d), 'R2', True))]
    return g


def run(case, out):
    return globals()[case['group']](case, out)


def single(case, out):
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    dims = [d] * L
    for fn, form in FORMS.items():
        try:
            base = form(fops.fresh(data))
        except Exception:
            continue
        v = dn.dense(base.data)
        # one site
        for s in range(L):
            for on, op in (('unitary', dn.unitary(d, 'U1')), ('generic', dn.gen((d, d), 'G1')), ('nearly-identity', expm(-1e-5j * dn.herm(d, 'small')))):
                want = dn.apply(op, [s], v, dims)
                for call in ('apply', 'apply_two_site-one', 'apply_two_site-one-r') if d == 2 else ('apply',):
                    m = copy.deepcopy(base)
                    out.step()
                    ok, r = out.attempt(call, (lambda: m.apply((op, s))) if call == 'apply' else (lambda: m.apply_two_site((op, (s,)), which=call[-1] if call[-1] == 'r' else 'l')))
                    if ok:
                        out.trace()
                        out.state((fn, s, on, call))
                        det = lambda: '%s form %s site %d op %s' % (spec, fn, s, on)
                        out.check(dn.close(dn.dense(r.data), want, TOL) and (on[0] != 'n' or dn.close((dn.dense(r.data) - v) / 1e-5, (want - v) / 1e-5, 1e-5)), 'vector:' + call, det)
                        out.check(dn.close(dn.dense(m.data), v, TOL), 'argument-modified:' + call, det)
                        out.check(r.L == L and r.d == d and r.D == fops.maxbond(r), 'sizes:' + call, det)
        # one-site operator addressed with a pair of sites
        if d == 2 and fn in ('raw', 'rc'):
            op = dn.gen((2, 2), 'G1')
            for i, j in itertools.combinations(range(L), 2):
                for which, s in (('l', i), ('r', j)):
                    m = copy.deepcopy(base)
                    ok, r = out.attempt('apply_two_site-pair', m.apply_two_site, (op, (i, j)), which)
                    if ok:
                        out.check(dn.close(dn.dense(r.data), dn.apply(op, [s], v, dims), TOL), 'vector:one-site-op-on-pair', lambda: '%s %s %s' % (spec, fn, (i, j, which)))
        # two sites
        pairs = [(i, j) for i, j in itertools.combinations(range(L), 2) if d == 2 or j == i + 1]
        if case['lvl'] == 1 and L > 4:
            pairs = [p for p in pairs if p in ((0, 1), (L - 2, L - 1), (0, L - 1), (1, L - 1), (0, 2), (1, 3))]
        for (i, j), (on, op), which in itertools.product(pairs, gates(d, case['lvl']), 'lr'):
            want = dn.apply(op, [i, j], v, dims)
            op = op.real if on == 'swap' else np.asfortranarray(op) if which == 'r' else op
            if np.linalg.norm(want) < 1e-9:
                continue
            for D, ts in ((None, False), (None, True), (64, False), (64, True), (2, False), (2, True), (1, True)):
                if (D is not None and D < 10 and on not in ('unitary', 'swap')) or (fn in ('mc', 'mo') and ts and D is None):
                    continue
                if spec.get('proj') and ts and D is not None and D < 10:
                    continue        # cutting a bond whose live direction lies behind dead ones can leave nothing at all
                m = copy.deepcopy(base)
                out.step()
                tag = 'apply_two_site(%s,%s,D=%s,truncate_swaps=%s)' % ('adjacent' if j == i + 1 else 'distant', which, D, ts)
                det = lambda: '%s form %s sites %s op %s' % (spec, fn, (i, j), on)
                ok, r = out.attempt(tag, m.apply_two_site, (op, (i, j)), which, D, ts)
                if not ok:
                    continue
                out.trace()
                out.state((fn, i, j, on, which, D, ts))
                w = dn.dense(r.data)
                if D is None:
                    out.check(dn.close(w, want, TOL), 'vector:' + tag, det)
                    if on == 'nearly-identity':
                        out.check(dn.close((w - v) / 1e-5, (want - v) / 1e-5, 1e-5), 'small-step:' + tag, det)
                elif D == 64:
                    out.check(dn.ray_dist(w, want) < 1e-6, 'ray:' + tag, det)
                else:
                    b = fops.bonds(r)
                    lim = [i + 1] if not ts else range(i + 1, j + 1)
                    if j == i + 1 or ts:
                        out.check(all(b[x] <= D for x in lim), 'bond-above-D:' + tag, lambda: det() + ' bonds %s' % b)
                    if not ts and j > i + 1 and on == 'unitary':
                        # only the bond of the gate is cut: step by step, with exact swaps, nothing else loses rank
                        try:
                            q = copy.deepcopy(base)
                            SW = dict(gates(2, 1))['swap']
                            for x in range(j - 1, i, -1):
                                q = q.apply_two_site((SW, (x, x + 1)), which)
                            q = q.apply_two_site((op, (i, i + 1)), which, D)
                            for x in range(i + 1, j):
                                q = q.apply_two_site((SW, (x, x + 1)), which)
                            wq = dn.dense(q.data)
                        except Exception:
                            wq = None
                        if wq is not None and np.linalg.norm(wq) > 1e-9 and out.check(np.linalg.norm(w) > 1e-12, 'vector-lost:' + tag, det):
                            for x in range(1, L):
                                sq, sw = dn.schmidt(wq / np.linalg.norm(wq), x, dims), dn.schmidt(w / np.linalg.norm(w), x, dims)
                                out.check((sw > 1e-9).sum() >= (sq > 1e-5).sum(), 'other-bond-cut:' + tag, lambda: det() + ' bond %d' % x)
                            if spec['kind'] == 'bonds' and not spec.get('proj'):
                                out.check(dn.ray_dist(w, wq) < 1e-5, 'cut-differs-from-step-by-step:' + tag, lambda: det() + ' %g' % dn.ray_dist(w, wq))
                out.check(len(r.data) == L and r.L == L, 'sizes:' + tag, det)
                if j == i + 1:
                    A = r.data[i if which == 'l' else j]
                    G = np.einsum('sab,sac->bc', A.conj(), A) if which == 'l' else np.einsum('sab,scb->ac', A, A.conj())
                    out.check(abs(G - np.eye(len(G))).max() < TOL, 'not-isometric:' + tag, det)
                if D is None and on == 'unitary':
                    # the state is usable afterwards: observables are those of the new vector
                    for s in {i, j, 0}:
                        o = dn.herm(d, 'o')
                        ok, e = out.attempt('E-after-gate', r.E, o, s)
                        if ok:
                            out.check(dn.close(e, dn.expect(o, [s], want, dims).real, 1e-6), 'E-after:' + tag, det)
    out.sample({'spec': spec})


def histories(case, out):
    data = st.build(case['spec'])
    L, d = len(data), data[0].shape[0]
    ops = fops.change_ops(L, d)
    ops = [o for o in ops if o[0].startswith('apply')]
    for i in range(L - 1):
        U = dn.unitary(d * d, ('h', i))
        ops.append(('unitary(%d)' % i, None, lambda m, v, i=i, U=U: (m.apply_two_site((U, (i, i + 1)), which='r'), dn.apply(U, [i, i + 1], v, [d] * L))))
    if d == 2:
        for i, j in itertools.combinations(range(L), 2):
            if j > i + 1:
                G = dn.gen((4, 4), ('hd', i, j))
                ops.append(('distant(%d,%d)' % (i, j), None, lambda m, v, i=i, j=j, G=G: (m.apply_two_site((G, (i, j))), dn.apply(G, [i, j], v, [d] * L))))
    for n, f in FORMS.items():
        if n != 'raw':
            def ga(m, v, f=f):
                m = f(m)
                w = dn.dense(m.data)
                return m, (w if dn.ray_dist(w, v) < 1e-6 else v)
            ops.append((n, None, ga))

    def visit(h, m, v):
        if not h:
            return True
        return out.check(dn.close(dn.dense(m.data), v, TOL), 'history:' + h[-1].split('(')[0], lambda: '%s %s' % (case['spec'], h))
    explore(out, (fops.fresh(data), dn.dense(data)), ops, lambda m, v: dn.digest(m.data), visit, case['depth'])
    out.sample({'spec': case['spec'], 'ops': [o[0] for o in ops]})


def blocks(case, out):
    from xmps import fMPS as F
    d = case['d']
    for a, m, b in itertools.product((1, 2, 3, 4), repeat=3):
        A, B = dn.gen((d, a, m), 'bA'), dn.gen((d, m, b), 'bB')
        blk = np.einsum('sak,tkb->stab', A, B).reshape(d * d, a, b)
        ok, g = out.attempt('group_tensors', F.group_tensors, [A.copy(), B.copy()])
        out.step()
        if ok:
            out.check(dn.close(g, blk), 'group_tensors', str((d, a, m, b)))
        for nm in ('svd', 'qr', 'rq'):
            f = getattr(F, 'separate_tensor_' + nm)
            ok, r = out.attempt('separate_tensor_' + nm, f, blk.copy())
            out.step()
            if ok:
                out.trace()
                out.state((nm, a, m, b))
                P, Q = r
                got = np.einsum('sak,tkb->stab', P, Q).reshape(d * d, a, b)
                want = blk / np.linalg.norm(blk) if nm == 'svd' else blk
                out.check(dn.close(got, want, TOL), 'separate_tensor_' + nm, str((d, a, m, b)))
                if nm in ('svd', 'qr'):
                    G = np.einsum('sak,sal->kl', P.conj(), P)
                else:
                    G = np.einsum('tkb,tlb->kl', Q, Q.conj())
                out.check(abs(G - np.eye(len(G))).max() < TOL, 'not-isometric:separate_tensor_' + nm, str((d, a, m, b)))
        U = dn.gen((d * d, d * d), 'bu')
        for w in 'lr':
            ok, r = out.attempt('apply_unitary', F.apply_unitary, [A.copy(), B.copy()], U, w)
            if ok:
                got = np.einsum('sak,tkb->stab', *r).reshape(d * d, a, b)
                out.check(dn.close(got, np.tensordot(U, blk, [1, 0]), TOL), 'apply_unitary', str((d, a, m, b, w)))
        for k in (1, 2, d):
            V = dn.gen((k, d * d), 'iso')
            ok, r = out.attempt('apply_isometry', F.apply_isometry, [A.copy(), B.copy()], V)
            if ok:
                out.check(dn.close(r, np.tensordot(V, blk, [1, 0]), TOL), 'apply_isometry', str((d, a, m, b, k)))
    out.sample({'d': d})
