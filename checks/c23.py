"""C23: environments, transfers and null projectors equal their explicit contractions."""
import itertools
import numpy as np
from mc import dense as dn, states as st, fops

PROP, LEVEL = 'C23', 'model_checking'
BOUNDS = ('index lists for the whole chain and for every range of sites, with and without an operator; every initial state of the alphabet x canonical form (left, right, truncated, after gates, along histories of questions and changes on one object) x every site x every site range i<=j x carried operators with 0..3 (thorough: 4) extra legs, generic and Hermitian; '
          'infinite: d=2,3, D=1..3 (thorough: 5), both forms')
ASSUMPTIONS = ['site ranges and leg order as documented: (u, d, ...) for left transfers, (..., u, d) for right transfers, u on the ket']
TOL = 1e-7


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = [dict(group='finite', spec=s, lvl=lvl, w=s['L']**2) for s in st.finite_specs(lvl)]
    for L, D, sc in itertools.product((2, 3, 4), (2, 4), (1e-7, 1e-5, 1e5)):     # far from normalised
        cs.append(dict(group='finite', spec=dict(kind='bonds', d=2, bonds=dn.std_bonds(L, 2, D), L=L, tag='unit', scale=sc), lvl=lvl, w=L**2))
    for d in (2, 3):
        for D in range(1, 4 if lvl == 1 else 6):
            cs.append(dict(group='infinite', d=d, D=D, lvl=lvl, w=2))
    return cs


def rel(a, b):
    return np.shape(a) == np.shape(b) and np.all(np.isfinite(a)) and abs(np.asarray(a) - b).max(initial=0) <= TOL * abs(b).max(initial=0)


def run(case, out):
    if case['group'] == 'infinite':
        return infinite(case, out)
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    mb = max(max(x.shape[1:]) for x in data)
    forms = {'raw': lambda m: m, 'lc': lambda m: m.left_canonicalise(), 'rc': lambda m: m.right_canonicalise(),
             'lc-rc': lambda m: m.left_canonicalise().right_canonicalise(),
             'lc(D)': lambda m: m.left_canonicalise(max(1, mb - 1)), 'rc(D)': lambda m: m.right_canonicalise(max(1, mb - 1)),
             'gate-lc': lambda m: m.right_canonicalise().apply_two_site((dn.unitary(d * d, 'g23'), (0, 1))).left_canonicalise()}
    for fn, f in forms.items():
        try:
            m = f(fops.fresh(data))
        except Exception:
            continue
        det = lambda: 'spec %s form %s' % (spec, fn)
        A = envs(out, m, det, d, L)
        if A is None:
            return
        transfers(out, m, A, d, det, L, case['lvl'], lambda M: abs(M).max() or 1)
        if fn in ('raw', 'rc') and L <= 5 and d**(2 * L) <= 4096:
            links(out, m, A, d, det, L)
        out.check(all(np.array_equal(x, y) for x, y in zip(m.data, A)), 'state-changed', det)
    lives(out, spec, data, d, L)
    out.sample({'spec': spec})


def envs(out, m, det, d, L, null=True):
    """environments and null projectors of the state as it is now"""
    A = [np.array(x) for x in m.data]
    out.state(dn.digest(A))
    ls = [np.ones((1, 1), dtype=complex)]
    for a in A:
        ls.append(np.einsum('xy,sxa,syb->ab', ls[-1], a.conj(), a))
    rs = [np.ones((1, 1), dtype=complex)]
    for a in A[::-1]:
        rs.append(np.einsum('sax,xy,sby->ab', a, rs[-1], a.conj()))
    rs = rs[::-1]
    sc = lambda M: abs(M).max() or 1
    if np.all(np.isfinite(dn.dense(A))) and max(abs(x).max() for x in A) < 1e7:
        for stored in (False, True):
            out.step()
            ok, lr = out.attempt('get_envs', m.get_envs, stored)
            if not ok:
                return None
            out.trace()
            l, r = lr
            for n in range(-1, L):
                out.check(np.shape(l(n)) == ls[n + 1].shape and rel(l(n), ls[n + 1]), 'env:l', lambda: det() + ' site %d' % n)
                out.check(np.shape(r(n)) == rs[n + 1].shape and rel(r(n), rs[n + 1]), 'env:r', lambda: det() + ' site %d' % n)
            if stored:
                out.check(all(np.array_equal(m.l(n), l(n)) and np.array_equal(m.r(n), r(n)) for n in range(L)), 'env:stored', det)
        if null:
            nulls(out, m, A, ls, rs, d, det, L)
    return A


def lives(out, spec, data, d, L):
    """environments asked for, the state changed, environments asked for again: from the same object"""
    if L > 5:
        return

    def item(m, k):
        m[k] = 1.3 * np.asarray(m[k])[::-1] + .1

    def entry(m, k):
        m.data[k] = np.array(m.data[k], dtype=complex)
        m.data[k][0, 0, 0] += .7

    def inplace(m, k):
        m.data[k] *= 1.5

    def larger(m, k):
        o = dn.mps_from_bonds([1] + [max(a.shape[1:]) + 1 for a in m.data][:L - 1] + [1], d, 'lives')
        for i in range(L):
            m[i] = o[i]
    changes = dict(item=item, entry=entry, inplace=inplace, larger=larger, none=lambda m, k: None,
                   data=lambda m, k: setattr(m, 'data', [2 * a for a in m.data]),
                   apply=lambda m, k: m.apply((dn.gen((d, d), 'lv'), k)),
                   gate=lambda m, k: m.apply_two_site((dn.unitary(d * d, 'lv'), (min(k, L - 2), min(k, L - 2) + 1))),
                   scaled=lambda m, k: m.mul(.3 + 1j), lc=lambda m, k: m.left_canonicalise(), rc=lambda m, k: m.right_canonicalise(),
                   cut=lambda m, k: m.right_canonicalise(1), expand=lambda m, k: m.expand(max(max(a.shape[1:]) for a in m.data) + 1),
                   orth=lambda m, k: m.mixed_orthogonalise(k))
    asks = dict(store=lambda m, k: m.get_envs(True), plain=lambda m, k: m.get_envs(),
                left=lambda m, k: m.left_null_projector(k, store_envs=True), right=lambda m, k: m.right_null_projector(k, store_envs=True),
                both=lambda m, k: (m.left_transfer(np.eye(m.data[-1].shape[2]), 0, L), m.get_envs(True)))
    for form, f in (('raw', lambda m: m), ('lc', lambda m: m.left_canonicalise())):
        for an, ask in asks.items():
            for cn, change in changes.items():
                for k in sorted({0, L // 2, L - 1}):
                    try:
                        m = fops.fresh([np.array(a, dtype=complex) for a in data])
                        m = f(m)
                        try:
                            ask(m, k)
                        except Exception:       # no null space there
                            pass
                        r = change(m, k)
                        m = r if hasattr(r, 'data') else m
                    except Exception:
                        continue
                    if not all(np.all(np.isfinite(a)) for a in m.data):
                        continue
                    for again in range(2):
                        if envs(out, m, lambda: 'spec %s form %s asked %s then %s at %d' % (spec, form, an, cn, k), d, L, null=not again and k == L // 2) is None:
                            return
                        inplace(m, k)


def links(out, m, A, d, det, L):
    """the index lists handed out for contracting the whole chain, or its first sites, with and without an operator"""
    v = dn.dense(A)
    sc = max(1e-300, np.linalg.norm(v)**2)

    def con(tensors, idx):
        return np.einsum(*[z for t, i in zip(tensors, idx) for z in (t, i)], [])
    ok, idx = out.attempt('links(op=False)', m.links, None, False)
    if ok:
        out.step(), out.trace()
        out.check(abs(con([a.conj() for a in A] + A, idx) - sc) < TOL * sc, 'links:norm', det)
    for op in (dn.herm(d**L, 'lk'), dn.gen((d**L, d**L), 'lk')):
        ok, idx = out.attempt('links', m.links)
        if ok:
            out.step(), out.trace()
            e = con([a.conj() for a in A] + [op.reshape([d] * 2 * L)] + A, idx)
            out.check(abs(e - np.vdot(v, op @ v)) < TOL * sc * d**L, 'links:expectation', lambda: det() + ' %s' % e)
    # k neighbouring sites: the bonds at the ends are closed on themselves
    for k in range(1, L + 1):
        for o in range(L - k + 1):
            B = A[o:o + k]
            op = dn.gen((d**k, d**k), ('lk', k))
            ok, idx = out.attempt('links(k)', m.links, k)
            if ok:
                out.step()
                n, r = len(B), [d] * 2 * k
                want = segment(B, op, d, k)
                e = con([a.conj() for a in B] + [op.reshape(r)] + B, idx)
                out.check(abs(e - want) < TOL * max(1, abs(want)) * d**k, 'links:segment', lambda: det() + ' sites %d-%d %s %s' % (o, o + k, e, want))
            ok, idx = out.attempt('links(k, op=False)', m.links, k, False)
            if ok:
                want = segment(B, np.eye(d**k), d, k)
                e = con([a.conj() for a in B] + B, idx)
                out.check(abs(e - want) < TOL * max(1, abs(want)), 'links:segment-norm', lambda: det() + ' sites %d-%d %s %s' % (o, o + k, e, want))
            out.state(('links', k, o))


def segment(B, op, d, k):
    """sum over the outer bonds of <B_xy| op |B_xy>"""
    M = np.eye(B[0].shape[1])[None]
    for b in B:
        M = np.einsum('nxy,syz->nsxz', M, b).reshape(-1, M.shape[1], b.shape[2])
    M = M.reshape(d**k, -1)
    return np.einsum('nx,nm,mx->', M.conj(), op, M)


def transfers(out, m, A, d, det, L, lvl, sc):
    sites = range(L + 1) if L <= 6 else (0, 1, L - 2, L - 1, L)
    for extra in ((), (2,), (2, 3), (2, 1, 3)) + (((2, 3, 1, 2),) if lvl > 1 else ()):
        for i in sites:
            Dl = A[i].shape[1] if i < L else 1
            op = dn.gen((Dl, Dl) + extra, ('tr', i)) * (1, 1, 1e-8)[(i + len(extra)) % 3]       # also weak ones
            if not extra:
                op = dn.herm(Dl, ('trh', i)) if i % 2 else op
            cur, want = op, {i: op}
            for n in range(i - 1, -1, -1):
                cur = np.einsum('sab,scd,bd...->ac...', A[n], A[n].conj(), cur)
                want[n] = cur
            for j in range(i + 1):
                out.step()
                ok, f = out.attempt('left_transfer', m.left_transfer, op.copy(), j, i)
                if ok:
                    out.trace()
                    for n in range(j, i + 1):
                        out.check(np.shape(f(n)) == want[n].shape and abs(f(n) - want[n]).max() < TOL * sc(want[n]), 'left_transfer:rank%d' % op.ndim,
                                  lambda: det() + ' from %d to %d at %d' % (i, j, n))
                ok, x = out.attempt('left_transfer(last)', m.left_transfer, op.copy(), j, i, False)
                if ok:
                    out.check(np.shape(x) == want[j].shape and abs(x - want[j]).max() < TOL * sc(want[j]), 'left_transfer:last:rank%d' % op.ndim, lambda: det() + ' %d %d' % (i, j))
            if i == L:
                continue
            # right transfers: op sits on the right of site i
            Dr = A[i].shape[2]
            op = dn.gen(extra + (Dr, Dr), ('trr', i)) * (1, 1, 1e-8)[(i + len(extra)) % 3]
            cur, want = op, {i + 1: op}
            for n in range(i + 1, L):
                cur = np.einsum('...bd,sba,sdc->...ac', cur, A[n], A[n].conj())
                want[n + 1] = cur
            for j in range(i + 1, L + 1):
                out.step()
                jj = min(j, L - 1)
                ok, f = out.attempt('right_transfer', m.right_transfer, op.copy(), i, jj)
                if ok:
                    out.trace()
                    for n in range(i + 1, j + 1):
                        out.check(np.shape(f(n)) == want[n].shape and abs(f(n) - want[n]).max() < TOL * sc(want[n]), 'right_transfer:rank%d' % op.ndim,
                                  lambda: det() + ' from %d to %d at %d' % (i, jj, n))
                if j < L:
                    ok, x = out.attempt('right_transfer(last)', m.right_transfer, op.copy(), i, j, False)
                    if ok:
                        out.check(np.shape(x) == want[j].shape and abs(x - want[j]).max() < TOL * sc(want[j]), 'right_transfer:last:rank%d' % op.ndim, lambda: det() + ' %d %d' % (i, j))
            out.state((i, extra))


def check_left(out, key, pr, vL, A, l, d, det):
    Dl, Dr = A.shape[1:]
    k = d * Dl - Dr
    sv = np.linalg.svd(A.reshape(d * Dl, Dr), compute_uv=False)
    if min(sv, default=0) < 1e-6 * min(1, max(sv, default=1)):     # rank deficient bond: the complement is larger
        return
    if not out.check(np.shape(vL) == (d, Dl, k), key + ':shape', lambda: det() + ' %s' % (np.shape(vL),)):
        return
    V = vL.reshape(d * Dl, k)
    sq = np.linalg.cholesky(l)
    W = np.einsum('xy,syr->sxr', sq.conj().T, A).reshape(d * Dl, Dr)
    out.check(abs(V.conj().T @ V - np.eye(k)).max(initial=0) < TOL, key + ':not-orthonormal', det)
    out.check(abs(V.conj().T @ W).max(initial=0) < TOL * min(1, abs(W).max()), key + ':not-annihilated', det)
    Q = W @ np.linalg.inv(W.conj().T @ W) @ W.conj().T
    out.check(abs(V @ V.conj().T + Q - np.eye(d * Dl)).max() < TOL * 100, key + ':not-complete', det)
    il = np.linalg.inv(sq.conj().T)
    P = np.einsum('xy,syk->sxk', il, vL)
    want = np.einsum('sxk,tyk->sxty', P, P.conj())
    out.check(np.shape(pr) == want.shape and abs(pr - want).max() < TOL * max(1, abs(want).max()) * 100, key + ':projector', det)


def check_right(out, key, pr, vR, A, r, d, det):
    Dl, Dr = A.shape[1:]
    k = d * Dr - Dl
    sv = np.linalg.svd(np.swapaxes(A, 1, 2).reshape(d * Dr, Dl), compute_uv=False)
    if min(sv, default=0) < 1e-6 * min(1, max(sv, default=1)):
        return
    if not out.check(np.shape(vR) == (d, k, Dr), key + ':shape', lambda: det() + ' %s' % (np.shape(vR),)):
        return
    V = np.transpose(vR, (0, 2, 1)).reshape(d * Dr, k)
    sq = np.linalg.cholesky(r)
    W = np.einsum('slx,xy->syl', A, sq).reshape(d * Dr, Dl)
    out.check(abs(V.conj().T @ V - np.eye(k)).max(initial=0) < TOL, key + ':not-orthonormal', det)
    out.check(abs(V.conj().T @ W).max(initial=0) < TOL * min(1, abs(W).max()), key + ':not-annihilated', det)
    Q = W @ np.linalg.inv(W.conj().T @ W) @ W.conj().T
    out.check(abs(V @ V.conj().T + Q - np.eye(d * Dr)).max() < TOL * 100, key + ':not-complete', det)
    P = np.einsum('skx,xy->sky', vR, np.linalg.inv(sq))
    want = np.einsum('sky,tkz->sytz', P, P.conj())
    out.check(np.shape(pr) == want.shape and abs(pr - want).max() < TOL * max(1, abs(want).max()) * 100, key + ':projector', det)


def nulls(out, m, A, ls, rs, d, det, L):
    for n in range(L):
        l, r = ls[n], rs[n + 1]
        dl = lambda: det() + ' site %d' % n
        if np.linalg.eigvalsh(l).min() > 1e-5 * min(1, abs(l).max()) and d * A[n].shape[1] >= A[n].shape[2]:
            for how, kw in (('', {}), ('given-l', dict(l=lambda q: ls[q + 1])), ('store', dict(store_envs=True))):
                out.step()
                ok, x = out.attempt('left_null_projector', m.left_null_projector, n, get_vL=True, **kw)
                if ok:
                    out.trace()
                    check_left(out, 'left-null' + how, x[0], x[1], A[n], l, d, dl)
                    ok, y = out.attempt('left_null_projector', m.left_null_projector, n, **kw)
                    if ok:
                        out.check(np.shape(y) == np.shape(x[0]) and abs(y - x[0]).max() < TOL * max(1, abs(y).max()), 'left-null:get_vL-changes-projector', dl)
                    if x[1].size:
                        U = dn.unitary(x[1].shape[2], 'rotv')
                        ok, y = out.attempt('left_null_projector(vL)', m.left_null_projector, n, vL=x[1] @ U)
                        if ok:
                            out.check(abs(y - x[0]).max() < 1e-5 * max(1, abs(y).max()), 'left-null:given-vL', dl)
        if np.linalg.eigvalsh(r).min() > 1e-5 * min(1, abs(r).max()) and d * A[n].shape[2] >= A[n].shape[1]:
            for how, kw in (('', {}), ('given-r', dict(r=lambda q: rs[q + 1])), ('store', dict(store_envs=True))):
                out.step()
                ok, x = out.attempt('right_null_projector', m.right_null_projector, n, get_vR=True, **kw)
                if ok:
                    out.trace()
                    check_right(out, 'right-null' + how, x[0], x[1], A[n], r, d, dl)
                    ok, y = out.attempt('right_null_projector', m.right_null_projector, n, **kw)
                    if ok:
                        out.check(np.shape(y) == np.shape(x[0]) and abs(y - x[0]).max() < TOL * max(1, abs(y).max()), 'right-null:get_vR-changes-projector', dl)


def infinite(case, out):
    from xmps.iMPS import iMPS
    d, D = case['d'], case['D']
    for tag in range(3):
        for form in ('l', 'r'):
            m = iMPS([dn.gen((d, D, D), ('in', tag))]).canonicalise(form)
            A = np.array(m[0])
            T = np.einsum('sab,scd->acbd', A, A.conj()).reshape(D * D, D * D)
            w, v = np.linalg.eig(T)
            r = v[:, np.argmax(abs(w))].reshape(D, D)
            r = r / np.trace(r)
            w, v = np.linalg.eig(T.T)
            l = v[:, np.argmax(abs(w))].reshape(D, D).T       # <bra| convention: l[b,a] a on the ket
            l = l / np.trace(l @ r)
            det = lambda: str((case, tag, form))
            out.state((tag, form))
            ok, x = out.attempt('imps-envs', m.get_envs)
            if ok:
                gl, gr = x
                out.check(dn.close(gl / np.trace(gl), l / np.trace(l), 1e-6) and dn.close(gr / np.trace(gr), r, 1e-6), 'imps-envs', det)
            for side, f, ck, e in (('left', m.left_null_projector, check_left, l), ('right', m.right_null_projector, check_right, r)):
                out.step()
                ok, x = out.attempt('imps-%s_null_projector' % side, f, True)
                if ok:
                    out.trace()
                    _, el, er = m.eigs()
                    ck(out, 'imps-%s-null' % side, x[0], x[1], A, el if side == 'left' else er, d, det)
    out.sample(case)
