"""C10: tangent-space coordinates, Jacobian, second derivatives, Christoffel symbols, in every query order."""
import copy, itertools
import numpy as np
from mc import dense as dn, states as st, fops
from checks.c09 import dense_h

PROP, LEVEL = 'C10', 'model_checking'
BOUNDS = ('every initial state of the alphabet with d^L <= 64 (thorough: 128) and well conditioned bonds, plus chains of 11 and 12 sites (bond 2) x left and right canonical form, all truncations x Hamiltonian terms (generic complex, real, single bond, 1e-8 of the size) x '
          'every pair / triple of sites; query orders with a shared memo id: forward, backward, and every ordered pair of queries for L<=3 (thorough: 4); Jacobian on objects which answered for another Hamiltonian or other tensors; Jacobian after every second-derivative history')
ASSUMPTIONS = ['second derivatives of a Hamiltonian given as a full matrix may be refused (they are, by an exception)', 'the null-space bases reported by left_null_projector define the coordinates; everything else is computed from the dense vector',
               'states with Schmidt values below 1e-3 are left out (inverse square roots)']
TOL = 1e-6


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    lim = 64 if lvl == 1 else 128
    for s in st.finite_specs(lvl):
        d = s.get('d', 2)
        if d**s['L'] <= lim and s.get('tag') not in ('sm', 'pad') and not (lvl == 1 and d**s['L'] > 32 and s['kind'] == 'bonds' and max(s['bonds']) > 3):
            cs.append(dict(group='chain', spec=s, lvl=lvl, w=d**s['L']))
    for b in ([1, 1, 2, 2, 1], [1, 2, 2, 4, 2, 1], [1, 2, 1, 2, 1, 1], [1, 1, 2, 4, 2, 1]):
        cs.append(dict(group='chain', spec=dict(kind='bonds', d=2, bonds=b, L=len(b) - 1, tag='null'), lvl=lvl, w=40))
    for b in ([1, 1, 3, 1], [1, 3, 9, 3, 1]) if lvl == 1 else ([1, 1, 3, 1], [1, 3, 9, 3, 1], [1, 3, 3, 3, 1]):
        cs.append(dict(group='chain', spec=dict(kind='bonds', d=3, bonds=b, L=len(b) - 1, tag='null3'), lvl=lvl, w=40))
    for L in (11, 12):
        cs.append(dict(group='long', spec=dict(kind='bonds', d=2, bonds=dn.std_bonds(L, 2, 2), L=L, tag='long'), lvl=lvl, w=500))
    return cs


def good(m, lo=1e-3):
    A = m.data
    d, L = A[0].shape[0], len(A)
    psi = dn.dense(A)
    if not np.all(np.isfinite(psi)) or abs(np.linalg.norm(psi) - 1) > 1e-7:
        return False
    b = fops.bonds(m)
    for i in range(1, L):
        s = dn.schmidt(psi, i, [d] * L)
        if len(s) < b[i] or s[b[i] - 1] < lo:
            return False
    return True


class Ref:
    """tangent basis and derivatives as dense vectors"""

    def __init__(self, m, prs, l, r):
        self.A = A = [np.array(x) for x in m.data]
        self.L, self.d = len(A), A[0].shape[0]
        ich = lambda x: np.linalg.inv(np.linalg.cholesky(np.asarray(x, dtype=complex)))
        L = self.L
        self.il, self.ir = [ich(l(n - 1)) for n in range(L)], [ich(r(n)) for n in range(L)]
        self.vL = [p[1] for p in prs]
        self.shape = [(self.vL[n].shape[2], A[n].shape[2]) for n in range(L)]
        self.psi = dn.dense(A)
        # basis tensors (d, Dl, Dr, a, b)
        self.B = [np.einsum('lx,sxa,br->slrab', self.il[n], self.vL[n], self.ir[n]) for n in range(L)]
        self.T = [self.one(n) for n in range(L)]
        self._two = {}

    def _contract(self, tens):
        """dense vector with open extra indices; tens: list of (d, Dl, Dr) or (d, Dl, Dr, a, b)"""
        v = np.ones((1, 1, 1), dtype=complex)           # phys, extra, bond
        for t in tens:
            e = t.reshape(t.shape[0], t.shape[1], t.shape[2], int(np.prod(t.shape[3:])))
            v = np.einsum('xel,slrf->xsefr', v, e)
            v = v.reshape(v.shape[0] * v.shape[1], v.shape[2] * v.shape[3], v.shape[4])
        return v[:, :, 0]

    def one(self, n, X=None):
        return self._contract([(self.B[n] if X is None else X) if m == n else A for m, A in enumerate(self.A)])

    def two(self, i, j):
        if i == j:
            return np.zeros((len(self.psi), int(np.prod(self.shape[i]))**2), dtype=complex)
        a, b = min(i, j), max(i, j)
        if (a, b) not in self._two:
            self._two[(a, b)] = self._contract([self.B[m] if m in (a, b) else A for m, A in enumerate(self.A)])
        v = self._two[(a, b)]
        if i > j:
            v = v.reshape(len(self.psi), int(np.prod(self.shape[a])), int(np.prod(self.shape[b]))).transpose(0, 2, 1).reshape(v.shape)
        return v


def hams(L, d):
    z = np.zeros((d * d,) * 2, dtype=complex)
    yield 'generic', [dn.herm(d * d, ('h', i)) for i in range(L - 1)]
    yield 'weak', [1e-8 * dn.herm(d * d, ('hw', i)) for i in range(L - 1)]
    yield 'real', [dn.herm(d * d, ('hr', i), True) for i in range(L - 1)]
    for b in range(L - 1):
        yield 'bond', [dn.herm(d * d, ('hb', i)) if i == b else z for i in range(L - 1)]


def pos(i, j):
    return 'diag' if i == j else ('adjacent' if abs(i - j) == 1 else 'far') + ('<' if i < j else '>')


def run(case, out):
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    if case['group'] == 'long':
        return long_chain(case, out, data)
    mb = max(max(x.shape[1:]) for x in data)
    forms = [('lc', lambda: fops.fresh(data).left_canonicalise()), ('rc', lambda: fops.fresh(data).right_canonicalise())]
    for D in range(1, mb):
        forms.append(('lc(D)', lambda D=D: fops.fresh(data).left_canonicalise(D)))
        if case['lvl'] > 1:
            forms.append(('rc(D)', lambda D=D: fops.fresh(data).right_canonicalise(D)))
    seen = set()
    for fn, mk in forms:
        try:
            m = mk()
        except Exception:
            continue
        if not good(m):
            continue
        k = dn.digest([np.array(x) for x in m.data])
        if k in seen:
            continue
        seen.add(k)
        out.state(k)
        one_state(case, out, m, fn, L, d)
    out.sample({'spec': spec, 'states': len(seen)})


def one_state(case, out, m, fn, L, d):
    spec = case['spec']
    A0 = [np.array(x) for x in m.data]
    l, r = m.get_envs()
    prs = [m.left_null_projector(n, l, get_vL=True) for n in range(L)]
    R = Ref(m, prs, l, r)
    dims = [int(np.prod(s)) for s in R.shape]
    det = lambda: 'spec %s form %s bonds %s' % (spec, fn, fops.bonds(m))
    # ---- coordinates
    shapes = m.tangent_space_dims()
    out.check([tuple(s) for s in shapes] == R.shape, 'tangent_space_dims', det)
    J = np.concatenate([t for t in R.T], 1)
    out.check(abs(J.conj().T @ J - np.eye(J.shape[1])).max(initial=0) < TOL, 'null-basis-not-isometric', det)
    out.check(abs(R.psi.conj() @ J).max(initial=0) < TOL, 'null-basis-not-orthogonal-to-state', det)
    n = J.shape[1]
    if n == 0:
        return
    for tag in ('a', 'b'):
        v = dn.gen((n,), ('tv', tag))
        ok, B = out.attempt('import_tangent_vector', m.import_tangent_vector, v.copy())
        out.step()
        if ok:
            out.trace()
            if out.check(len(B) == L and all(x.shape == y.shape for x, y in zip(B, A0)), 'import:shape', det):
                w = sum(dn.dense([B[q] if q == p else x for q, x in enumerate(A0)]) for p in range(L))
                out.check(np.linalg.norm(w - J @ v) < TOL * np.linalg.norm(v), 'import:wrong-tangent-vector', det)
                out.check(abs(np.linalg.norm(w) - np.linalg.norm(v)) < TOL * np.linalg.norm(v), 'import:not-isometric', det)
                ok, v2 = out.attempt('extract_tangent_vector', m.extract_tangent_vector, B)
                if ok:
                    out.check(v2.shape == v.shape and np.linalg.norm(v2 - v) < TOL * np.linalg.norm(v), 'round-trip', det)
    for p in range(L):
        if not dims[p]:
            continue
        x = dn.gen(R.shape[p], ('ts', p))
        for how, kw in (('', {}), ('envs', dict(envs=(l, r))), ('all', dict(envs=(l, r), vL=prs[p][1]))):
            ok, t = out.attempt('tangent_state', m.tangent_state, x.copy(), p, **kw)
            out.step()
            if ok:
                w = dn.dense([np.asarray(y) for y in t.data])
                out.check(np.linalg.norm(w - R.T[p] @ x.reshape(-1)) < TOL * np.linalg.norm(x), 'tangent_state', det)
    basis = m.tangent_space_basis('eye')
    out.check(basis.shape == (n, n) and abs(basis @ basis.conj().T - np.eye(n)).max() < TOL, 'tangent_space_basis(eye)', det)
    basis = m.tangent_space_basis('rand')
    out.check(basis.shape == (n, n) and abs(basis @ basis.conj().T - np.eye(n)).max() < TOL, 'tangent_space_basis(rand)', det)

    cr, cl = [np.linalg.cholesky(r(i)) for i in range(L)], [np.linalg.cholesky(l(i)) for i in range(L)]
    inv_envs = ([np.linalg.inv(x) for x in cr], [np.linalg.inv(x) for x in cl], cr, cl)
    kws = {'plain': {}, 'envs': dict(envs=(l, r)), 'all': dict(envs=(l, r), inv_envs=inv_envs, prs_vLs=prs)}
    nz = [i for i in range(L) if dims[i]]
    for hn, H in hams(L, d):
        M = dense_h(H, L, d)
        sc = (max(1, np.linalg.norm(M, 2)) if hn != 'weak' else np.linalg.norm(M, 2)) / min([1] + [min(np.diag(np.asarray(r(i)).real)) for i in range(L)] + [min(np.diag(np.asarray(l(i)).real)) for i in range(L)])
        want1 = {(i, j): R.T[i].conj().T @ M @ R.T[j] for i in range(L) for j in range(L)}
        want2 = {(i, j): (R.two(i, j).conj().T @ (M @ R.psi)).reshape(dims[i], dims[j]) for i in range(L) for j in range(L)}

        def ask(which, i, j, kw):
            want = (want1 if which == 'F1' else want2)[(i, j)]
            out.step()
            ok, G = out.attempt('%s:%s' % (which, pos(i, j)), getattr(m, which), i, j, [h.copy() for h in H], **kw)
            if not ok:
                return
            out.trace()
            sh = (*R.shape[i], *R.shape[j])
            if out.check(np.shape(G) == sh, 'shape:%s:%s' % (which, pos(i, j)), lambda: det() + ' %s %s' % (np.shape(G), sh)):
                out.check(abs(np.asarray(G).reshape(want.shape) - want).max(initial=0) < TOL * sc, 'value:%s:%s:%s' % (which, pos(i, j), hn),
                          lambda: det() + ' H %s sites %d,%d max error %.3g' % (hn, i, j, abs(np.asarray(G).reshape(want.shape) - want).max()))
        pairs = [(i, j) for i in range(L) for j in range(L)]
        for kn, kw in kws.items():
            if hn != 'generic' and kn != 'all':
                continue
            for i, j in pairs:
                for w in ('F1', 'F2'):
                    ask(w, i, j, kw)
        if hn == 'generic':
            for on, order in (('forward', pairs), ('backward', pairs[::-1])):
                for i, j in order:
                    ask('F1', i, j, dict(kws['all'], id='o' + on))
                    ask('F2', i, j, dict(kws['all'], id='o' + on))
            if L <= (3 if case['lvl'] == 1 else 4) and fn in ('lc', 'rc'):
                for p, q in itertools.product(pairs, pairs):
                    for w in ('F1', 'F2'):
                        kk = dict(kws['all'], id='p%s%s%s' % (w, p, q))
                        ask(w, *p, kk)
                        ask(w, *q, kk)
                        out.state((fn, w, p, q))
            # testing=True gives the same, in tensor form
            for i, j in pairs:
                for w in ('F1', 'F2'):
                    ok, G = out.attempt('%s(testing):%s' % (w, pos(i, j)), getattr(m, w), i, j, [h.copy() for h in H], testing=True)
                    if ok:
                        want = (want1 if w == 'F1' else want2)[(i, j)].reshape(*R.shape[i], *R.shape[j])
                        want = np.einsum('slrab,abcd,tmncd->slrtmn', R.B[i], want, R.B[j].conj() if w == 'F1' else R.B[j])
                        out.check(np.shape(G) == want.shape and abs(G - want).max(initial=0) < TOL * sc**2, 'value:%s(testing):%s' % (w, pos(i, j)), det)
            # a Hamiltonian given as a full matrix is refused, or gives the same
            for (i, j), w, kk in itertools.product(pairs, ('F1', 'F2'), ({}, dict(kws['all'], id='full'))):
                out.step()
                try:
                    G = getattr(m, w)(i, j, M.copy(), fullH=True, **kk)
                except Exception:
                    continue
                want = (want1 if w == 'F1' else want2)[(i, j)]
                out.check(np.size(G) == want.size and abs(np.reshape(G, want.shape) - want).max(initial=0) < TOL * sc, 'value:%s:full-matrix' % w, det)
        # ---- Jacobian
        if hn in ('generic', 'real', 'weak'):
            jac(case, out, m, R, M, H, hn, det, dims, l, r, sc, want1, want2)
    # ---- christoffel
    christ(case, out, m, R, det, l, r, dims, prs)
    out.check(all(np.array_equal(x, y) for x, y in zip(m.data, A0)), 'state-changed', det)


def follow(case, out, mm, M, H, hn, det):
    """the tangent basis carried from one state to the next: still a basis of the tangent space of the new state, turned as little as can be"""
    ok, _ = out.attempt('jac:basis-first', mm.jac, [h.copy() for h in H])
    if not ok:
        return
    old = [np.array(v) for v in mm.new_vL]
    for eps, rc in ((.002, False), (.15, False), (.002, True)):
        A0 = [np.array(x) for x in mm.data]
        f = fops.fresh([x + eps * dn.gen(x.shape, ('fol', q)) * abs(x).max() for q, x in enumerate(A0)])
        try:
            f = f.right_canonicalise() if rc else f.left_canonicalise()
            if fops.bonds(f) != fops.bonds(mm):
                continue
            f.match_gauge_to(mm)
        except Exception:
            continue
        if not good(f):
            continue
        for fix in (True, False):
            g = f.copy()
            g.old_vL = [v.copy() for v in old]
            out.step()
            k = 'followed' if fix else 'not-followed'
            ok, J3 = out.attempt('jac:' + k, g.jac, [h.copy() for h in H], real_matrix=False, fix_vLs=fix)
            if not ok:
                continue
            out.trace()
            out.state((hn, eps, rc, fix, dn.digest([np.array(x) for x in g.data])))
            new = [np.array(v) for v in g.new_vL]
            dd = lambda: det() + ' next state at %g' % eps
            if not out.check(len(new) == len(old) and all(x.shape == y.shape for x, y in zip(new, old)), 'jac:%s:shape' % k, dd):
                continue
            l, r = g.get_envs()
            R = Ref(g, [(None, v) for v in new], l, r)
            J = np.concatenate(R.T, 1)
            out.check(abs(J.conj().T @ J - np.eye(J.shape[1])).max(initial=0) < TOL, 'jac:%s:basis-not-isometric' % k, dd)
            out.check(abs(R.psi.conj() @ J).max(initial=0) < TOL, 'jac:%s:basis-not-orthogonal-to-state' % k, dd)
            dims = [int(np.prod(s)) for s in R.shape]
            sc = max(1, np.linalg.norm(M, 2)) / min([1] + [min(np.diag(np.asarray(r(i)).real)) for i in range(R.L)] + [min(np.diag(np.asarray(l(i)).real)) for i in range(R.L)])
            w1 = {(i, j): R.T[i].conj().T @ M @ R.T[j] for i in range(R.L) for j in range(R.L)}
            w2 = {(i, j): (R.two(i, j).conj().T @ (M @ R.psi)).reshape(dims[i], dims[j]) for i in range(R.L) for j in range(R.L)}
            for nm, a, b in zip(('J1', 'J2', 'christoffel'), J3, mats(R, M, dims, w1, w2)):
                out.check(a.shape == b.shape and abs(a - b).max(initial=0) < TOL * sc, 'jac:%s:%s:%s' % (k, nm, hn),
                          lambda: dd() + ' max error %.3g' % (abs(a - b).max() if a.shape == b.shape else -1))
            if fix:
                for q in range(R.L):
                    if dims[q]:
                        S = sum(x.conj().T @ y for x, y in zip(new[q], old[q]))
                        out.check(abs(S - S.conj().T).max() < 1e-7 and np.linalg.eigvalsh(S + S.conj().T).min() > -1e-7, 'jac:followed:not-nearest', dd)


def mats(R, M, dims, want1, want2):
    L, n = R.L, sum(dims)
    off = np.concatenate([[0], np.cumsum(dims)])
    J1, J2, G2 = (np.zeros((n, n), dtype=complex) for _ in range(3))
    J = np.concatenate(R.T, 1)
    v = J @ (J.conj().T @ (-1j * M @ R.psi))        # tdvp velocity
    for i in range(L):
        for j in range(L):
            s = np.s_[off[i]:off[i + 1], off[j]:off[j + 1]]
            J1[s] = -1j * want1[(i, j)]
            J2[s] = -1j * want2[(i, j)]
            G2[s] = -(R.two(i, j).conj().T @ v).reshape(dims[i], dims[j])
    return J1, J2, G2


def jac(case, out, m, R, M, H, hn, det, dims, l, r, sc, want1, want2):
    L = R.L
    n = sum(dims)
    if hn != 'weak':
        follow(case, out, m.copy(), M, H, hn, det)
    J1, J2, G2 = mats(R, M, dims, want1, want2)
    Hc = lambda: [h.copy() for h in H]
    mm = m.copy()
    out.step()
    ok, r3 = out.attempt('jac', mm.jac, Hc(), real_matrix=False)
    if ok:
        out.trace()
        for nm, a, b in zip(('J1', 'J2', 'christoffel'), r3, (J1, J2, G2)):
            out.check(a.shape == b.shape and abs(a - b).max(initial=0) < TOL * sc, 'jac:%s:%s' % (nm, hn),
                      lambda: det() + ' max error %.3g' % (abs(a - b).max() if a.shape == b.shape else -1))
    K = J2 + G2
    want = np.block([[J1.real + K.real, -J1.imag + K.imag], [J1.imag + K.imag, J1.real - K.real]])
    ok, Jr = out.attempt('jac-real', mm.jac, Hc())
    if ok:
        out.check(Jr.shape == want.shape and abs(Jr - want).max(initial=0) < TOL * sc, 'jac:real-matrix:%s' % hn, det)
        Om = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
        if Jr.shape == Om.shape:
            A = Om @ Jr
            out.check(abs(A - A.T).max() < TOL * sc, 'jac:not-hamiltonian:%s' % hn, det)
    if hn != 'weak':
        # an object which has answered for another Hamiltonian, or for other tensors, answers for these
        d = R.d
        for how in ('hamiltonian', 'tensors'):
            g = m.copy()
            for fix in (False, True):
                if how == 'hamiltonian':
                    ok, _ = out.attempt('jac:reused-first', g.jac, [2 * dn.herm(d * d, ('rj', q)) for q in range(L - 1)], real_matrix=False, fix_vLs=fix)
                else:
                    g.data = [x.copy() for x in m.data]
                    b = fops.fresh([x + .1 * dn.gen(x.shape, ('rj', q)) * abs(x).max() for q, x in enumerate(m.data)]).left_canonicalise()
                    if fops.bonds(b) != fops.bonds(m) or not good(b):
                        continue
                    g.data = [x.copy() for x in b.data]
                    ok, _ = out.attempt('jac:reused-first', g.jac, Hc(), real_matrix=False, fix_vLs=fix)
                    g.data = [x.copy() for x in m.data]
                if not ok:
                    continue
                out.step()
                ok, r4 = out.attempt('jac:reused', g.jac, Hc(), real_matrix=False, fix_vLs=fix)
                if ok:
                    out.trace()
                    out.state((hn, how, fix))
                    for nm, a, b in zip(('J1', 'J2', 'christoffel'), r4, (J1, J2, G2)):
                        out.check(a.shape == b.shape and abs(a - b).max(initial=0) < TOL * sc, 'jac:reused:%s:%s:%s' % (how, nm, hn), det)
    z = dn.gen((n,), 'ddz')
    try:
        w = mm.ddA_dt(z.copy(), M.copy(), fullH=True)
    except Exception:
        w = None
    wantz = J1 @ z + K @ z.conj()
    out.check(w is None or np.shape(w) == wantz.shape and np.linalg.norm(w - wantz) < TOL * sc * np.linalg.norm(z), 'ddA_dt:full-matrix:%s' % hn, det)
    ok, w = out.attempt('ddA_dt', mm.ddA_dt, z.copy(), Hc())
    if ok:
        wantz = J1 @ z + K @ z.conj()
        out.check(w.shape == wantz.shape and np.linalg.norm(w - wantz) < TOL * sc * np.linalg.norm(z), 'ddA_dt:%s' % hn,
                  lambda: det() + ' error %.3g of %.3g' % (np.linalg.norm(w - wantz) if w.shape == wantz.shape else -1, np.linalg.norm(wantz)))


def christ(case, out, m, R, det, l, r, dims, prs):
    L = R.L
    d = R.d
    rng = range(L)
    X = [dn.gen(R.A[n].shape, ('chx', n)) for n in rng]
    Y = [dn.gen(R.A[n].shape, ('chy', n)) for n in rng]
    cl = [np.linalg.inv(x) for x in R.il]
    cr = [np.linalg.inv(x) for x in R.ir]

    def coords(n, T):
        return np.einsum('sxa,xl,slr,rb->ab', R.vL[n].conj(), cl[n], T, cr[n]).reshape(-1)
    sc = 1 / min([1] + [min(np.diag(np.asarray(r(i)).real)) for i in rng] + [min(np.diag(np.asarray(l(i)).real)) for i in rng])
    w = lambda n, T: l(n - 1) @ T @ r(n)
    triples = [(i, j, k) for i in rng for j in rng for k in rng] if L <= 4 else [(i, j, k) for i in rng for j in rng for k in (min(i, j), max(i, j))]
    want = {}
    for (i, j, k) in triples:
        want[(i, j, k)] = -(R.two(i, j).conj().T @ R.T[k]).reshape(dims[i], dims[j], dims[k])
    cls = lambda i, j, k: pos(i, j) + (':k=min' if k == min(i, j) else ':k-other')
    for shared in (None, 'c1'):
        for (i, j, k) in triples if shared is None else triples[::-1]:
            xi, xj, xk = coords(i, X[i]).conj(), coords(j, Y[j]).conj(), coords(k, X[k])
            kw = {} if shared is None else dict(id=shared, envs=(l, r), prs_vLs=prs)
            full = np.einsum('abc,a,b,c', want[(i, j, k)], xi, xj, xk)
            wi, wj, wk = w(i, X[i]).conj(), w(j, Y[j]).conj(), w(k, X[k])
            tol = TOL * sc * 10 * max(1, np.prod([np.linalg.norm(t) for t in (xi, xj, xk)]))
            out.step()
            small = R.A[i].size * R.A[j].size * R.A[k].size <= 30000
            if small:
                ok, G = out.attempt('christoffel:open', m.christoffel, i, j, k, **kw)
                if ok:
                    got = np.tensordot(np.tensordot(np.tensordot(G, wk, 3), wj, 3), wi, 3)
                    out.trace()
                    out.check(abs(got - full) < tol, 'christoffel:open:' + cls(i, j, k), lambda: det() + ' %s got %s want %s' % ((i, j, k), got, full))
                ok, g = out.attempt('christoffel:closed', m.christoffel, i, j, k, closed=(wi, wj, wk), **kw)
                if ok:
                    out.check(abs(g - full) < tol, 'christoffel:closed:' + cls(i, j, k), lambda: det() + ' %s got %s want %s' % ((i, j, k), g, full))
                ok, g = out.attempt('christoffel:closed-i', m.christoffel, i, j, k, closed=(wi, None, None), **kw)
                if ok:
                    got = np.tensordot(np.tensordot(g, wk, 3), wj, 3)
                    out.check(abs(got - full) < tol, 'christoffel:closed-i:' + cls(i, j, k), lambda: det() + ' %s' % ((i, j, k),))
            ok, g = out.attempt('christoffel:closed-k', m.christoffel, i, j, k, closed=(None, None, wk), **kw)
            if ok:
                wantk = want[(i, j, k)] @ xk
                out.check(np.size(g) == wantk.size and abs(np.reshape(g, wantk.shape) - wantk).max(initial=0) < tol, 'christoffel:closed-k:' + cls(i, j, k),
                          lambda: det() + ' %s' % ((i, j, k),))
            out.state(('ch', shared, i, j, k, fops.bonds(m)))


def long_chain(case, out, data):
    """more than ten sites: every pair of sites, shared memo id"""
    L, d = len(data), 2
    m = fops.fresh(data).left_canonicalise()
    if not good(m, 1e-4):
        return
    l, r = m.get_envs()
    prs = [m.left_null_projector(n, l, get_vL=True) for n in range(L)]
    R = Ref(m, prs, l, r)
    H = [dn.herm(4, ('hl', i)) for i in range(L - 1)]

    def mul(X):
        Y = np.zeros_like(X)
        for i, h in enumerate(H):
            t = X.reshape(d**i, 4, -1)
            Y += np.einsum('ab,xbz->xaz', h, t).reshape(X.shape)
        return Y
    HT = [mul(t) for t in R.T]
    Hp = mul(R.psi[:, None])[:, 0]
    sc = 50 / min([1] + [min(np.diag(np.asarray(r(i)).real)) for i in range(L)])
    kw = dict(envs=(l, r), prs_vLs=prs, id='long')
    pairs = [(i, j) for i in range(L) for j in range(L)]
    for i, j in pairs if case['spec']['L'] % 2 else pairs[::-1]:
        for w in ('F1', 'F2'):
            want = R.T[i].conj().T @ HT[j] if w == 'F1' else (R.two(i, j).conj().T @ Hp).reshape(R.T[i].shape[1], R.T[j].shape[1])
            out.step()
            ok, G = out.attempt('%s:long' % w, getattr(m, w), i, j, H, **kw)
            if ok:
                out.trace()
                out.state((w, i, j))
                out.check(np.size(G) == want.size and abs(np.reshape(G, want.shape) - want).max(initial=0) < TOL * sc, 'value:%s:long' % w, '%d,%d' % (i, j))
        k = min(i, j)
        xk = dn.gen(R.A[k].shape, ('lk', k))
        c = np.einsum('sxa,xl,slr,rb->ab', R.vL[k].conj(), np.linalg.inv(R.il[k]), xk, np.linalg.inv(R.ir[k])).reshape(-1)
        want = -(R.two(i, j).conj().T @ (R.T[k] @ c)).reshape(R.T[i].shape[1], R.T[j].shape[1])
        ok, g = out.attempt('christoffel:long', m.christoffel, i, j, k, closed=(None, None, l(k - 1) @ xk @ r(k)), **kw)
        if ok:
            out.check(np.size(g) == want.size and abs(np.reshape(g, want.shape) - want).max(initial=0) < TOL * sc, 'christoffel:long', '%d,%d' % (i, j))
    out.sample(case)
