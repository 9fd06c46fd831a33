"""C20: thermofield doubles and Vidal forms represent the same physics as the states they come from."""
import itertools
import numpy as np
from mc import dense as dn, states as st, fops
from checks.c09 import tangent_projector, tangent_vector

PROP, LEVEL = 'C20', 'model_checking'
BOUNDS = ('doubles of every initial state of the alphabet with d^(2L) <= 729 (thorough 4096), prepared in every canonical form, queried on every site and half for a basis of Hermitian operators; doubles that are not products '
          '(symmetric and not); every history of up to 2 (thorough 3) operations on a double with the dense doubled vector carried along; evolution under every Hamiltonian of a set; local overlaps on every range of '
          'sites with product states; doubles of the class in xmps/projects likewise, without histories; Vidal conversion of every state of the alphabet with d^L <= 4096 from every preparation')
ASSUMPTIONS = ['a double carries its two copies as (first, second) factors of every site', 'evolution and null tensors are asked of doubles whose Schmidt values at their bonds are above 1e-4',
               'Vidal forms exist for states with Schmidt values above 1e-6 on the bonds they keep']
TOL = 1e-7


def specs(lvl):
    return st.finite_specs(lvl)


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in specs(lvl):
        d, L = s.get('d', 2), s['L']
        n = d**(2 * L)
        if d < 4 and n <= (729 if lvl == 1 else 4096) and max(s.get('bonds', [1])) <= 4:
            cs.append(dict(group='double', spec=s, lvl=lvl, w=n))
            cs.append(dict(group='local', spec=s, lvl=lvl, w=n / 4))
            if n <= 256 or lvl > 1 and n <= 729:
                cs.append(dict(group='seq', spec=s, lvl=lvl, depth=2 if lvl == 1 or n > 64 else 3, w=n * 3))
            if n <= 256:
                cs.append(dict(group='evolve', spec=s, lvl=lvl, w=n * 2))
        if d**L <= 4096:
            cs.append(dict(group='vidal', spec=s, lvl=lvl, w=d**L))
    for L, d, D in itertools.product((2, 3, 4), (2, 3), (1, 2, 3)):
        if d**(2 * L) <= 729:
            for kind in ('pure', 'mixed', 'plain', 'sym'):
                cs.append(dict(group='made', L=L, d=d, D=D, kind=kind, w=d**(2 * L)))
    # the same class as kept in xmps/projects
    return cs + [dict(c, proj=1) for c in cs if c['group'] in ('double', 'made', 'evolve') and c['w'] <= (600 if lvl == 1 else 1e9)]


def run(case, out):
    globals()['g_' + case['group']](case, out)


def interleave(a, b, L, d):
    """vector of the doubled chain: site n carries (s_n, t_n)"""
    t = np.multiply.outer(np.asarray(a).reshape([d] * L), np.asarray(b).reshape([d] * L))
    return t.transpose([i // 2 + (i % 2) * L for i in range(2 * L)]).reshape(-1)


def half(v, L, d, h):
    """vector -> matrix (half h, other half)"""
    t = np.asarray(v).reshape([d] * 2 * L).transpose([2 * i + h for i in range(L)] + [2 * i + 1 - h for i in range(L)])
    return t.reshape(d**L, d**L)


def swap(v, L, d):
    return np.asarray(v).reshape([d] * 2 * L).transpose([i ^ 1 for i in range(2 * L)]).reshape(-1)


def ev(v, L, d, op, site, h):
    M = half(v, L, d, h)
    O = dn.embed(op, [site], [d] * L)
    return np.vdot(M, O @ M) / np.vdot(M, M)


def double(case):
    if case.get('proj'):
        from xmps.projects.fTFD import fTFD
    else:
        from xmps.fMPS import fTFD
    return fTFD


def ops1(d):
    o = [dn.herm(d, 'a'), dn.herm(d, 'b', True)]
    if d == 2:
        o += [dn.X, dn.Y, dn.Z]
    return o


def preps(L):
    yield 'fresh', lambda m: m
    yield 'lc', lambda m: m.left_canonicalise()
    yield 'rc', lambda m: m.right_canonicalise()
    for k in sorted({0, L // 2, L - 1}):
        yield 'mixed%d' % k, lambda m, k=k: m.mixed_canonicalise(k)


def good(v):
    return np.all(np.isfinite(v)) and np.linalg.norm(v) > 1e-12


def queries(x, v, L, d, key, out, sites=None):
    """every local expectation value on both halves; the state may change its form only"""
    halves = (0, 1) if hasattr(x, 'symmetrise') else (0,)      # the class in projects/ asks the first half only
    for site in range(L) if sites is None else sites:
        for lr in halves:
            at = (site, lr) if len(halves) > 1 else (site,)
            for i, op in enumerate(ops1(d)):
                ok, e = out.attempt('E:%s' % key, lambda: x.E(op, *at))
                out.step()
                if ok:
                    out.check(abs(e - ev(v, L, d, op, site, lr).real) < TOL, 'E:%s:site%d:half%d:op%d' % (key, site, lr, i), lambda: '%s %s' % (e, ev(v, L, d, op, site, lr)))
            ok, es = out.attempt('Es:%s' % key, lambda: x.Es(ops1(d), *at))
            out.step()
            if ok:
                out.check(np.allclose(es, [ev(v, L, d, op, site, lr) for op in ops1(d)], atol=TOL), 'Es:%s:site%d:half%d' % (key, site, lr))
            for wk in (np.diag(np.arange(d) - 3), 1e-8 * dn.herm(d, 'w'), np.asfortranarray(dn.herm(d, 'f')) * 1e5):     # whole numbers, weak, strong and laid out by columns
                ok, e = out.attempt('E-units:%s' % key, lambda: x.E(wk, *at))
                if ok:
                    out.check(abs(e - ev(v, L, d, wk, site, lr).real) < TOL * abs(wk).max(), 'E-units:%s:site%d:half%d' % (key, site, lr), lambda: '%s %s' % (e, ev(v, L, d, wk, site, lr)))
            g = dn.gen((d, d), 'nonh')
            ok, es = out.attempt('Es-nonhermitian:%s' % key, lambda: x.Es([g], *at))
            if ok:
                out.check(np.allclose(es, [ev(v, L, d, g, site, lr)], atol=TOL), 'Es-nonhermitian:%s:site%d:half%d' % (key, site, lr))
        ok, e = out.attempt('E-default:%s' % key, lambda: x.E(ops1(d)[0], site))
        if ok:
            out.check(abs(e - ev(v, L, d, ops1(d)[0], site, 0).real) < TOL, 'E-default:%s:site%d' % (key, site))
    out.check(dn.ray_dist(dn.dense(x.data), v) < TOL, 'query-changed-state:' + key)


def g_double(case, out):
    from xmps.fMPS import fMPS
    fTFD = double(case)
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    nm = st.name(spec)
    for pn, prep in preps(L):
        m = fops.fresh(data)
        try:
            m = prep(m)
        except Exception:
            continue
        a = [np.array(t) for t in m.data]
        psi = dn.dense(a)
        if not good(psi):
            continue
        v = interleave(psi, psi, L, d)
        key = '%s:%s' % (nm, pn)
        ok, x = out.attempt('from_fMPS:' + key, lambda: fTFD().from_fMPS(m))
        out.step(), out.trace()
        if not ok:
            continue
        out.state(dn.digest([v]))
        out.check((x.L, x.d, x.D) == (L, d * d, m.D**2) and np.allclose(dn.dense(x.data), v, atol=1e-9 * max(1, abs(v).max())), 'from_fMPS:' + key)
        out.check(all(np.array_equal(s, t) for s, t in zip(m.data, a)), 'from_fMPS:input-changed:' + key)
        ok, y = out.attempt('symmetry:' + key, x.symmetry)
        if ok:
            out.check(y == x and np.allclose(dn.dense(y.data), v, atol=1e-9 * max(1, abs(v).max())), 'symmetry:' + key)
        str(x)
        for pn2, prep2 in preps(L) if pn in ('fresh', 'lc') else [('fresh', lambda m: m)]:
            x = fTFD().from_fMPS(fMPS([t.copy() for t in a]))
            ok, x = out.attempt('prepare:%s:%s' % (key, pn2), lambda: prep2(x))
            if ok:
                queries(x, v, L, d, key + ':' + pn2, out)
        # copies share nothing
        x = fTFD().from_fMPS(fMPS([t.copy() for t in a]))
        ok, c = out.attempt('copy:' + key, x.copy)
        if ok:
            queries(c, v, L, d, 'copy:' + key, out, [0])
            out.check(np.allclose(dn.dense(x.data), v, atol=1e-9 * max(1, abs(v).max())), 'copy-shares:' + key)
        # overlaps are fidelities
        for tag in ('p', 'q'):
            b = dn.mps_from_bonds([1] + [2] * (L - 1) + [1], d, tag)
            phi = dn.dense(b)
            z = fTFD().from_fMPS(fMPS([t.copy() for t in b]))
            for name, f in (('overlap', lambda: z.overlap(x)), ('full', lambda: z.full_overlap(x))):
                ok, o = out.attempt('%s:%s' % (name, key), f)
                out.step()
                if ok:
                    ref = abs(np.vdot(phi, psi))**2
                    out.check(abs(abs(o) - ref) < TOL * max(1, ref), 'fidelity:%s:%s' % (name, key), lambda: '%s %s' % (o, ref))
            if case.get('proj'):
                continue
            ok, s = out.attempt('add:' + key, lambda: x.add(z))
            if ok:
                w = v + interleave(phi, phi, L, d)
                out.check(np.allclose(dn.dense(s.data), w, atol=1e-9 * max(1, abs(w).max())) and isinstance(s, fTFD), 'add:' + key)
                if good(w) and tag == 'p':
                    queries(s, w, L, d, 'add:' + key, out, [L - 1])


def g_made(case, out):
    from xmps.fMPS import fMPS
    fTFD = double(case)
    L, d, D, kind = case['L'], case['d'], case['D'], case['kind']
    key = '%s:L%d:d%d:D%d' % (kind, L, d, D)
    if kind in ('pure', 'mixed'):
        ok, x = out.attempt('random:' + key, lambda: fTFD().random(L, d, D**2 if case.get('proj') and kind == 'mixed' else D, pure=kind == 'pure'))
        if not ok:
            return
        out.check(x.L == L and x.d == d * d and len(x.data) == L and max(max(t.shape[1:]) for t in x.data) <= D * D, 'random:attributes:' + key, lambda: '%s %s %s' % (x.L, x.d, x.structure))
        case.get('proj') and kind == 'mixed' or out.check(x == x.symmetry(), 'random:symmetric:' + key)
    else:
        b = [1] + [D * D] * (L - 1) + [1]
        x = fTFD([dn.gen((d * d, b[i], b[i + 1]), ('tfd', i)) for i in range(L)])
        ref = dn.dense(x.data)
        y = x.symmetry()
        out.check(np.allclose(dn.dense(y.data), swap(ref, L, d)), 'symmetry:halves:' + key)
        out.check(y.symmetry() == x, 'symmetry:involution:' + key)
        if kind == 'sym':
            data = [t.copy() for t in x.data]
            x = x.symmetrise() if not case.get('proj') else x + x.symmetry()
            out.check(x == x.symmetry() and all(np.allclose(t, s + u) for t, s, u in zip(x.data, data, y.data)), 'symmetrise:' + key)
    v = dn.dense(x.data)
    out.step(), out.trace(), out.state(dn.digest([v]))
    if not good(v):
        return
    F = fTFD
    for pn, prep in preps(L):
        z = F([np.array(t) for t in x.data])
        ok, z = out.attempt('prepare:%s:%s' % (key, pn), lambda: prep(z))
        if ok:
            queries(z, v, L, d, '%s:%s' % (key, pn), out)
    for c in (2., .5 - 1j):
        z = F([np.array(t) for t in x.data])
        for name, f, r in (('mul', lambda: z * c, c**L), ('rmul', lambda: c * z, c**L), ('div', lambda: z / c, c**-L)):
            ok, w = out.attempt('%s:%s' % (name, key), f)
            if ok:
                out.check(isinstance(w, F) and np.allclose(dn.dense(w.data), r * v), '%s:%s' % (name, key))
    z, o = F([np.array(t) for t in x.data]), F([dn.gen(t.shape, ('o', i)) for i, t in enumerate(x.data)])
    out.check(all(np.allclose(p, q + r) for p, q, r in zip((z + o).data, z.data, o.data)) and isinstance(z + o, F), 'itemwise+:' + key)
    out.check(all(np.allclose(p, q - r) for p, q, r in zip((z - o).data, z.data, o.data)) and isinstance(z - o, F), 'itemwise-:' + key)


def regular(A, tol=1e-4):
    v = dn.dense(A)
    if not good(v):
        return False
    v = v / np.linalg.norm(v)
    dims = [A[0].shape[0]] * len(A)
    return all(len(s) >= k and s[k - 1] > tol for s, k in ((dn.schmidt(v, i, dims), A[i].shape[1]) for i in range(1, len(A))))


def hams(L, d, lvl):
    n = L - 1
    yield 'generic', [dn.herm(d * d, ('h', i)) for i in range(n)]
    yield 'real', [dn.herm(d * d, ('hr', i), True) for i in range(n)]
    yield 'fields', [np.kron(dn.herm(d, ('f', i)), np.eye(d)) + (np.kron(np.eye(d), dn.herm(d, ('f', n))) if i == n - 1 else 0) for i in range(n)]
    for b in range(n):
        yield 'bond%d' % b, [dn.herm(d * d, ('hb', i)) if i == b else np.zeros((d * d, d * d), dtype=complex) for i in range(n)]


def g_evolve(case, out):
    """the derivative of a double is that of H on either half, projected on the tangent space"""
    from xmps.fMPS import fMPS
    fTFD = double(case)
    data = st.build(case['spec'])
    L, d = len(data), data[0].shape[0]
    nm = st.name(case['spec'])
    for pn, prep in preps(L):
        if pn not in ('lc', 'rc'):
            continue
        for how in ('double', 'generic'):
            try:
                if how == 'double':
                    x = fTFD().from_fMPS(prep(fops.fresh(data)))
                else:
                    b = [1] + [2] * (L - 1) + [1]
                    x = prep(fTFD([dn.gen((d * d, b[i], b[i + 1]), ('ev', i, nm)) for i in range(L)]))
            except Exception:
                continue
            A = [np.array(t) for t in x.data]
            if not regular(A):
                continue
            v = dn.dense(A)
            if abs(np.linalg.norm(v) - 1) > 1e-8:
                continue
            Q = tangent_projector(A)
            out.state(dn.digest([v]))
            for hn, H in hams(L, d, case['lvl']):
                M = sum(dn.embed(h, [i, i + 1], [d] * L) for i, h in enumerate(H))
                V = half(v, L, d, 0)
                w = M @ V + V @ M.T          # H on the first half plus H on the second
                w = w.reshape([d] * 2 * L).transpose([i // 2 + (i % 2) * L for i in range(2 * L)]).reshape(-1)
                ref = Q @ (Q.conj().T @ (-1j * w)) + 1j * v * np.vdot(v, w)     # no phase along the state itself
                key = '%s:%s:%s:%s' % (hn, how, pn, nm)
                for fullH in (False, True):
                    Hs = [h.copy() for h in H] if not fullH else M.copy()
                    x = fTFD([t.copy() for t in A])
                    ok, B = out.attempt('dA_dt:%s%s' % ('full:' if fullH else '', key), lambda: x.dA_dt(Hs, fullH=fullH) if fullH else x.dA_dt(Hs))
                    out.step(), out.trace()
                    if ok:
                        tv = tangent_vector(A, B.data)
                        out.check(np.linalg.norm(tv - ref) < 2e-6 * max(1, np.linalg.norm(ref)), 'dA_dt:%s%s' % ('full:' if fullH else '', key), lambda: '%.3e of %.3e' % (np.linalg.norm(tv - ref), np.linalg.norm(ref)))
                        out.check(all(np.allclose(s, t) for s, t in zip(x.data, A)), 'dA_dt:input-changed:' + key)
                if how == 'double' and not hn.startswith('bond'):
                    # one step: both halves keep reporting the same
                    x = fTFD([t.copy() for t in A])
                    ok, y = out.attempt('step:' + key, lambda: (x + x.dA_dt(H) * .05).left_canonicalise())
                    if ok:
                        w = dn.dense(y.data)
                        queries(y, w, L, d, 'step:' + key, out, [0, L - 1])
                        case.get('proj') or out.check(all(abs(y.E(op, s, 0) - y.E(op, s, 1)) < TOL for op in ops1(d) for s in range(L)), 'step:halves-differ:' + key)
            # null tensors
            x = fTFD([t.copy() for t in A])
            l, _ = x.get_envs(True)
            for n in range(L):
                for f in (lambda: x.left_null_projector(n, get_vL=True), lambda: x.left_null_projector(n, l, True), lambda: x.left_null_projector(n, store_envs=True, get_vL=True)):
                    ok, r = out.attempt('null:' + nm, f)
                    out.step()
                    if ok:
                        pr, vL = r
                        D = vL.shape[0] * vL.shape[1]
                        m = vL.reshape(D, -1)
                        ll = np.asarray(l(n - 1))
                        left = dn_env(A, n)
                        K = A[n].shape[2]
                        good_ = m.shape[1] == D - K and np.allclose(m.conj().T @ m, np.eye(m.shape[1]), atol=1e-8)
                        # P: tangent directions at this site orthogonal to the tensor, in the metric of the left environment
                        G = np.kron(np.eye(d * d), left)
                        P = pr.transpose(0, 1, 2, 3).reshape(D, D)
                        a = A[n].reshape(D, K)
                        good_ = good_ and np.allclose(P @ G.T @ P, P, atol=1e-6 * max(1, abs(P).max())) and np.allclose(a.conj().T @ G.T @ P, 0, atol=1e-6 * max(1, abs(P).max()))
                        out.check(good_, 'null:site%d:%s:%s:%s' % (n, how, pn, nm))
            if pn == 'lc' and all(int(round(t.shape[1]**.5))**2 == t.shape[1] for t in A):
                ok, vs = out.attempt('get_vL:' + nm, lambda: fTFD([t.copy() for t in A]).get_vL())
                if ok:
                    for n, (sy, an, M) in enumerate(vs):
                        f = lambda X: X.reshape((d, d) + X.shape[1:]).transpose(1, 0, 2, 3).reshape(X.shape)
                        out.check(np.allclose(M @ f(sy), sy) and np.allclose(M @ f(an), -an), 'get_vL:site%d:%s' % (n, nm))


def dn_env(A, n):
    """left environment of site n: [bra, ket]"""
    l = np.ones((1, 1), dtype=complex)
    for t in A[:n]:
        l = np.einsum('ab,sac,sbd->cd', l, t.conj(), t)
    return l.T


def g_local(case, out):
    """local overlaps with product states"""
    from xmps.fMPS import fTFD, fMPS
    data = st.build(case['spec'])
    L, d = len(data), data[0].shape[0]
    nm = st.name(case['spec'])
    for pn, prep in preps(L):
        if pn == 'fresh':
            continue
        for how in ('double', 'generic'):
            try:
                if how == 'double':
                    x = prep(fTFD().from_fMPS(fops.fresh(data)))
                else:
                    b = [1] + [2] * (L - 1) + [1]
                    x = prep(fTFD([dn.gen((d * d, b[i], b[i + 1]), ('ev', i, nm)) for i in range(L)]))
            except Exception:
                continue
            A = [np.array(t) for t in x.data]
            v = dn.dense(A)
            if not good(v):
                continue
            v = v / np.linalg.norm(v)
            p = [dn.gen((d,), ('pr', i)) for i in range(L)]
            p = [t / np.linalg.norm(t) for t in p]
            o = fMPS([t.reshape(d, 1, 1) for t in p])
            out.state(dn.digest([v]))
            vals = {}
            for i, j in itertools.combinations(range(L + 1), 2):
                sites = list(range(i, j))
                for double in (False, True):
                    ok, e = out.attempt('local_overlap:%s:%s' % (nm, pn), lambda: x.local_overlap(o, sites, double))
                    out.step(), out.trace()
                    if not ok:
                        continue
                    w = v.reshape([d * d] * L)
                    for s in sites:
                        r = np.outer(p[s], p[s].conj())
                        w = np.moveaxis(np.tensordot(np.kron(r if double else np.eye(d), r), w, [1, s]), 0, s)
                    ref = np.vdot(v, w).real
                    vals[i, j, double] = ref
                    out.check(abs(e - ref) < TOL, 'local_overlap:%d-%d:double%d:%s:%s:%s' % (i, j, double, how, pn, nm), lambda: '%s %s' % (e, ref))
            for k in range(1, L + 1):
                As = [list(range(i, i + k)) for i in range(L - k + 1)]
                for double in (False, True):
                    if all((a[0], a[-1] + 1, double) in vals for a in As):
                        ok, e = out.attempt('approx_overlap:' + nm, lambda: x.approx_overlap(o, As, double))
                        if ok:
                            out.check(abs(e - np.mean([vals[a[0], a[-1] + 1, double] for a in As])) < TOL, 'approx_overlap:%d:double%d:%s:%s:%s' % (k, double, how, pn, nm))
            # what it is not defined for is refused
            for bad, why in ((fMPS([dn.gen((d, 1 if i == 0 else 2, 1 if i == L - 1 else 2), i) for i in range(L)]), 'entangled'), (v, 'array')):
                out.step()
                try:
                    x.local_overlap(bad, [0])
                    out.bad('local_overlap:accepts-%s:%s' % (why, nm))
                except NotImplementedError:
                    pass
                except Exception as e:
                    out.bad('local_overlap:%s:raised:%s' % (why, type(e).__name__))


def g_vidal(case, out):
    from xmps.fMPS import vfMPS, fMPS
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    nm = st.name(spec)
    mb = max(max(t.shape[1:]) for t in data)

    def more():
        yield from preps(L)
        for D in range(1, mb):
            yield 'lc(D)%d' % D, lambda m, D=D: m.left_canonicalise(D)
            yield 'rc(D)%d' % D, lambda m, D=D: m.right_canonicalise(D)
            yield 'lc-rc(D)%d' % D, lambda m, D=D: m.left_canonicalise().right_canonicalise(D)
        yield 'gate', lambda m: m.right_canonicalise().apply_two_site((dn.unitary(d * d, 'g'), (0, 1)))
        yield 'setitem', _set
        yield 'copy', lambda m: m.right_canonicalise().copy()

    def _set(m):
        m = m.right_canonicalise()
        m[L - 1] = 1.7 * m[L - 1][::-1]
        return m
    for pn, prep in more():
        try:
            m = prep(fops.fresh(data))
        except Exception:
            continue
        v = dn.dense(m.data)
        if not good(v):
            continue
        s = [dn.schmidt(v / np.linalg.norm(v), i, [d] * L) for i in range(1, L)]
        if any(np.any((t > 1e-13) & (t < 1e-6)) for t in s):
            continue
        key = '%s:%s' % (pn, nm)
        ok, vf = out.attempt('to-vidal:' + key, lambda: vfMPS().from_fMPS(m))
        out.step(), out.trace()
        if not ok:
            continue
        out.state(dn.digest([v]))
        out.check(dn.ray_dist(dn.dense(m.data), v) < TOL, 'to-vidal:input-state-changed:' + key)
        ok, b = out.attempt('from-vidal:' + key, vf.to_fMPS)
        if ok:
            out.check(b.L == L and b.d == d and dn.ray_dist(dn.dense(b.data), v) < TOL, 'vidal-roundtrip:' + key, lambda: '%.2e' % dn.ray_dist(dn.dense(b.data), v))
            # weights of each bond: the density matrix spectrum of that bond (None kept on the leftmost one)
            for i in range(1, L):
                lam = np.diag(np.asarray(vf.data[i][0]))
                t = s[i - 1]**2
                k = min(len(lam), len(t))
                out.check(len(vf.data) == L and np.allclose(np.sort(lam.real)[::-1][:k], t[:k], atol=TOL), 'vidal-weights:bond%d:%s' % (i, key), lambda: '%s %s' % (lam, t))
            ok, vv = out.attempt('vidal-given:' + key, lambda: vfMPS([(np.array(x), np.array(y)) for x, y in vf.data], d))
            if ok:
                ok, b3 = out.attempt('from-vidal-given:' + key, vv.to_fMPS)
                out.check(vv.L == L and vv.d == d and vv.D == max(t.shape[1] for t in b.data), 'vidal-given-sizes:' + key, lambda: '%s' % vv.D)
                if ok:
                    out.check(len(b3.data) == L and all(np.allclose(x, y) for x, y in zip(b3.data, b.data)), 'vidal-given:' + key)
            # twice
            ok, b2 = out.attempt('vidal-twice:' + key, lambda: vfMPS().from_fMPS(b).to_fMPS())
            if ok:
                out.check(dn.ray_dist(dn.dense(b2.data), v) < TOL, 'vidal-twice:' + key)
            # queries of the state that came back
            O = dn.herm(d, 'vq')
            for site in range(L):
                ok, e = out.attempt('vidal-E:' + key, lambda: b.E(O, site))
                if ok:
                    ref = (np.vdot(v, dn.apply(O, [site], v, [d] * L)) / np.vdot(v, v)).real
                    out.check(abs(e - ref) < TOL, 'vidal-E:%d:%s' % (site, key))


def g_seq(case, out):
    """histories of operations on a double"""
    from xmps.fMPS import fTFD, fMPS
    data = st.build(case['spec'])
    L, d = len(data), data[0].shape[0]
    nm = st.name(case['spec'])
    psi = dn.dense(data)
    if not good(psi):
        return
    b = dn.mps_from_bonds([1] + [2] * (L - 1) + [1], d, 'seq')
    phi = dn.dense(b)
    wphi = interleave(phi, phi, L, d)
    other = lambda: fTFD().from_fMPS(fMPS([t.copy() for t in b]))
    O = dn.herm(d, 's')
    G = dn.gen((d, d), 'sg')

    def alphabet(x, v):
        for k in sorted({0, L - 1}):
            yield 'E%d' % k, lambda x: (x.E(O, k), x)[1], v
            yield 'Es%d-right' % k, lambda x: (x.Es([O], k, 1), x)[1], v
            yield 'mixed%d' % k, lambda x: x.mixed_canonicalise(k), v
            yield 'orth%d' % k, lambda x: (x.mixed_orthogonalise(k), x)[1], v

            def si(x, k=k):
                x[k] = np.tensordot(np.kron(G, np.eye(d)), x[k], [1, 0])
                return x
            w = half(v, L, d, 0)
            w = (dn.embed(G, [k], [d] * L) @ w).reshape([d] * 2 * L).transpose([i // 2 + (i % 2) * L for i in range(2 * L)]).reshape(-1)
            yield 'set%d' % k, si, w
        yield 'lc', lambda x: x.left_canonicalise(), v
        yield 'rc', lambda x: x.right_canonicalise(), v
        yield 'copy', lambda x: x.copy(), v
        if all(int(round(n**.5))**2 == n for t in x.data for n in t.shape):
            yield 'symmetry', lambda x: x.symmetry(), swap(v, L, d)
        if max(max(t.shape[1:]) for t in x.data) <= 9:
            yield 'add', lambda x: x.add(other()), v + wphi
        yield 'scale', lambda x: x * (.7 + .1j), (.7 + .1j)**L * v
        yield 'overlap', lambda x: (x.overlap(other()), x)[1], v
        yield 'entropy', lambda x: (x.left_canonicalise().entanglement_entropy(L - 1), x)[1], v

    def visit(word, depth):
        x, v = replay(word)
        for name, f, w in alphabet(x, v):
            y, _ = replay(word)
            wd = word + (name,)
            key = '%s:%s' % ('.'.join(wd), nm)
            ok, y = out.attempt('seq:' + key, lambda: f(y))
            out.step(), out.trace()
            if not ok or not good(w):
                continue
            out.state(dn.digest([w / np.linalg.norm(w)]))
            if not out.check(isinstance(y, fTFD) and dn.ray_dist(dn.dense(y.data), w) < TOL, 'seq:state:' + key):
                continue
            for site in sorted({0, L - 1}):
                for lr in (0, 1):
                    z, _ = replay(wd)
                    ok, e = out.attempt('seq:E:' + key, lambda: z.E(O, site, lr))
                    if ok:
                        out.check(abs(e - ev(w, L, d, O, site, lr).real) < TOL, 'seq:E:site%d:half%d:%s' % (site, lr, key))
                    z, _ = replay(wd)
                    ok, e = out.attempt('seq:Es:' + key, lambda: z.Es([O, G], site, lr))
                    if ok:
                        out.check(np.allclose(e, [ev(w, L, d, o, site, lr) for o in (O, G)], atol=TOL), 'seq:Es:site%d:half%d:%s' % (site, lr, key))
            if depth > 1:
                visit(wd, depth - 1)

    def replay(word):
        x, v = fTFD().from_fMPS(fops.fresh(data)), interleave(psi, psi, L, d)
        for nme in word:
            for name, f, w in alphabet(x, v):
                if name == nme:
                    x = f(x)
                    v = dn.dense(x.data)      # norm and phase are not followed by every operation
                    break
        return x, v
    visit((), case['depth'])
