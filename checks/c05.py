"""C05: conversions and state algebra against vector algebra."""
import itertools
import numpy as np
from mc import dense as dn, states as st, fops
from mc.explore import explore

PROP, LEVEL = 'C05', 'model_checking'
BOUNDS = ('all histories of add / scale / append / extend / post-select / gauge operations of depth 3 (thorough: 4) from each initial state; conversions of every '
          'alphabet vector (d=2,3,4, L<=6) with every single amplitude basis vector; random states for every (L, d, D) in range; the bond dimensions promised for every (L, d, D or none); random states of four energies of two Hamiltonians and two tolerances for every (L, d, D); itemwise arithmetic on every structure')
ASSUMPTIONS = ['conversions from a vector are compared up to norm and phase (they return normalised states)']
TOL = 1e-7


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in st.finite_specs(lvl):
        if s['L'] <= 4 and s.get('tag') != 'all':
            cs.append(dict(group='algebra', spec=s, depth=3 if s['L'] <= 3 and s.get('tag') in (2, 'over', 'd3', None, 0) or lvl == 2 else 2,
                           lvl=lvl, w=s['L']**3))
        if s['L'] <= 6 and s.get('tag') != 'all':
            cs.append(dict(group='convert', spec=s, w=1))
    for d in (2, 3, 4):
        for L in range(2, 7 if d == 2 else 5 if d == 3 else 4):
            cs.append(dict(group='basis', d=d, L=L, w=1))
    for L in range(2, 9):
        cs.append(dict(group='random', L=L, w=1))
    cs.append(dict(group='product', w=1))
    cs.append(dict(group='structure', w=1))
    for d in (2, 3):
        for L in range(2, 6 if d == 2 else 4):
            for D in sorted({1, 2, d**(L // 2)}):
                cs.append(dict(group='energy', d=d, L=L, D=D, w=60))
    return cs


def check_from_state(out, psi, d, L, what):
    from xmps.fMPS import fMPS
    for nm in ('left', 'right'):
        ok, m = out.attempt(nm + '_from_state', getattr(fMPS(), nm + '_from_state'), psi.reshape([d] * L).copy())
        out.step()
        if not ok:
            continue
        out.trace()
        out.check(m.L == L and m.d == d and len(m.data) == L and m.D == fops.maxbond(m), 'sizes:%s_from_state' % nm, what)
        v = dn.dense(m.data)
        out.check(dn.ray_dist(v, psi) < 1e-7 and abs(np.vdot(v, v) - 1) < TOL, 'vector:%s_from_state' % nm, what)
        for A in m.data:
            G = np.einsum('sab,sac->bc', A.conj(), A) if nm == 'left' else np.einsum('sab,scb->ac', A, A.conj())
            out.check(abs(G - np.eye(len(G))).max() < TOL, 'not-isometric:%s_from_state' % nm, what)
        ok, r = out.attempt('recombine', m.recombine)
        if ok:
            out.check(r.shape == (d,) * L and dn.close(r.reshape(-1), v, TOL), 'recombine', what)
        # the canonical flags it leaves are good enough for queries
        for s in range(L):
            op = dn.herm(d, 'fs')
            ok, e = out.attempt('E-after-from_state', m.E, op, s)
            if ok:
                out.check(dn.close(e, dn.expect(op, [s], psi, [d] * L).real, 1e-6), 'E-after-%s_from_state' % nm, what)
        out.state((nm, tuple(fops.bonds(m))))


def run(case, out):
    return globals()[case['group']](case, out)


def convert(case, out):
    data = st.build(case['spec'])
    psi = dn.dense(data)
    psi = psi / np.linalg.norm(psi)
    L, d = len(data), data[0].shape[0]
    check_from_state(out, psi, d, L, str(case['spec']))
    ok, r = out.attempt('recombine', fops.fresh(data).recombine)
    if ok:
        out.check(dn.close(r.reshape(-1), dn.dense(data), TOL), 'recombine', str(case['spec']))
    # itemwise arithmetic
    a = fops.fresh(data)
    b = fops.fresh([dn.gen(x.shape, ('it', i)) for i, x in enumerate(data)])
    c = 0.7 - 0.4j
    for nm, got, want in (('+', lambda: a + b, [x + y for x, y in zip(a.data, b.data)]), ('-', lambda: a - b, [x - y for x, y in zip(a.data, b.data)]),
                          ('*', lambda: a * c, [c * x for x in a.data]), ('r*', lambda: 2.5 * a, [2.5 * x for x in a.data]), ('/', lambda: a / c, [x / c for x in a.data])):
        ok, g = out.attempt('itemwise' + nm, got)
        if ok:
            out.check(len(g.data) == L and all(dn.close(x, y) for x, y in zip(g.data, want)), 'itemwise' + nm, str(case['spec']))
    eq = [a == a, not (a != a), not (a == b), a != b]
    out.check(all(eq), 'equality', '%s %s' % (case['spec'], eq))
    for i in range(L):
        out.check(a[i] is a.data[i] and a(i + 1) is a.data[i] and len(a) == L, 'indexing', str(case['spec']))


def basis(case, out):
    d, L = case['d'], case['L']
    for s in itertools.product(range(d), repeat=L):
        psi = np.zeros((d,) * L, dtype=complex)
        psi[s] = np.exp(0.3j)
        check_from_state(out, psi.reshape(-1), d, L, 'basis %s d=%d' % (s, d))


def random(case, out):
    from xmps.fMPS import fMPS
    L = case['L']
    for d in (2, 3, 4):
        for D in (1, 2, 3, 5, 8):
            for real in (False, True):
                np.random.seed(L * 1000 + d * 100 + D * 10 + real)
                what = 'random(%d,%d,%d,real=%s)' % (L, d, D, real)
                ok, m = out.attempt('random', fMPS().random, L, d, D, real) if real else out.attempt('random', fMPS().random, L, d, D)
                out.step()
                if not ok:
                    continue
                out.trace()
                out.state((d, D, real, tuple(fops.bonds(m))))
                out.check(m.L == L and m.d == d and len(m.data) == L and all(A.shape[0] == d for A in m.data), 'random-sizes', what)
                out.check(fops.bonds(m) == dn.std_bonds(L, d, D), 'random-bonds', lambda: '%s %s' % (what, fops.bonds(m)))
                out.check(m.D == fops.maxbond(m), 'random-D', what)
                v = dn.dense(m.data)
                out.check(np.all(np.isfinite(v)) and np.linalg.norm(v) > 0, 'random-vector', what)
                if real:
                    out.check(abs(v.imag).max() < 1e-12 * max(1, abs(v).max()), 'random-real', what)
                elif L <= 5:
                    out.check(abs(v.imag).max() > 0, 'random-not-complex', what)
                for s in (0, L - 1):
                    op = dn.herm(d, 'r')
                    ok, e = out.attempt('E-random', m.E, op, s)
                    if ok:
                        out.check(dn.close(e, dn.expect(op, [s], v, [d] * L).real, 1e-6), 'E-random', what)


def structure(case, out):
    """the bond dimensions promised for a random chain"""
    from xmps.fMPS import fMPS
    for d in (2, 3, 4):
        for L in range(2, 10):
            for D in (None,) + tuple(range(1, 18)):
                what = 'create_structure(%d,%d,%s)' % (L, d, D)
                ok, s = out.attempt('create_structure', fMPS().create_structure, L, d, D)
                out.step()
                if not ok:
                    continue
                out.trace()
                b = dn.std_bonds(L, d, d**L if D is None else D)
                out.check([tuple(x) for x in s] == list(zip(b[:-1], b[1:])), 'create_structure', lambda: '%s %s' % (what, s))
                out.state((d, L, D, tuple(b)))
                m = fMPS()
                m.d = d
                ok, s = out.attempt('create_structure-phys', m.create_structure, L, d, D, True)
                if ok:
                    out.check([tuple(x) for x in s] == [(d, x, y) for x, y in zip(b[:-1], b[1:])], 'create_structure-phys', what)


def energy(case, out):
    """random states of a given energy: either they have it or the search says so"""
    from xmps.fMPS import fMPS
    d, L, D = case['d'], case['L'], case['D']
    for hn in range(2):
        H = [dn.herm(d * d, ('h', hn, i), hn == 1) for i in range(L - 1)]
        M = sum(dn.embed(h, [i, i + 1], [d] * L) for i, h in enumerate(H))
        w = np.linalg.eigvalsh(M)
        for fr in (.2, .35, .5, .7):
            E = w[0] + fr * (w[-1] - w[0])
            for tol in (1e-4, 1e-10):
                what = 'random_with_energy_E(%.3f of the spectrum, L=%d, d=%d, D=%d, tol=%g)' % (fr, L, d, D, tol)
                np.random.seed(7)
                out.step()
                try:
                    m = fMPS().random_with_energy_E(E, [h.copy() for h in H], L, d, D, tol)
                except Exception as e:
                    # a bond dimension that is too small may not reach the energy, and then it says so
                    full = D >= d**(L // 2)
                    out.check(not full and str(e) in ('Too many iterations', 'local minimum'), 'energy-search-raised:D%d' % D, lambda: '%s %r' % (what, e))
                    continue
                out.trace()
                v = dn.dense(m.data)
                n = np.vdot(v, v).real
                out.state(dn.digest([v]))
                out.check(abs(n - 1) < 1e-9, 'energy-norm', lambda: '%s norm %s' % (what, n))
                out.check(abs(np.vdot(v, M @ v).real / n - E) < tol + 1e-9, 'energy-value', lambda: '%s %s wanted %s' % (what, np.vdot(v, M @ v).real / n, E))
                b = dn.std_bonds(L, d, D)
                out.check(m.L == L and m.d == d and len(m.data) == L and all(x <= y for x, y in zip(fops.bonds(m), b)), 'energy-sizes', lambda: '%s %s' % (what, fops.bonds(m)))


def product(case, out):
    from xmps.fMPS import fMPS
    for d in (2, 3):
        for L in (1, 2, 3, 5):
            vs = [dn.gen((L, d), ('pp', t)) for t in range(3)]
            ok, m = out.attempt('from_product_state', fMPS().from_product_state, vs[0])
            ok2, ms = out.attempt('from_product_states', fMPS().from_product_states, vs)
            out.step(2)
            if ok and ok2:
                out.trace(2)
                out.check(len(ms) == 3, 'from_product_states-length')
                for x, v in zip([m] + list(ms), [vs[0]] + vs):
                    want = dn.kronall([a.reshape(-1, 1) for a in v]).reshape(-1)
                    out.check(dn.close(dn.dense(x.data), want), 'from_product_state', 'd=%d L=%d' % (d, L))
                    out.check(x.L == L and x.d == d and x.D == 1, 'from_product_state-sizes', 'd=%d L=%d' % (d, L))
                    out.state((d, L))


def algebra(case, out):
    spec = case['spec']
    data = st.build(spec)
    d = data[0].shape[0]

    def g(name, f, en=None):
        return (name, en, f)
    ops = []

    def other(L, t=0):
        return dn.mps_from_bonds([1] + [2 if t == 0 else 1] * (L - 1) + [1], d, ('alg', t, L))

    def add(m, v):
        o = other(m.L)
        return m.add(fops.fresh(o)), v + dn.dense(o)

    def addself(m, v):
        return m.add(m), 2 * v

    def sub(m, v):
        o = other(m.L, 1)
        return m.add(fops.fresh(o).mul(-1)), v - dn.dense(o)

    def append(m, v):
        t = dn.gen((d, 1, 1), ('app', m.L))
        return m.append(t), np.kron(v, t.reshape(-1))

    def extend(m, v):
        o = other(2)
        return m.extend(fops.fresh(o)), np.kron(v, dn.dense(o))

    def selfext(m, v):
        return m.extend(m), np.kron(v, v)
    small = lambda m, v: m.L >= 2 and fops.maxbond(m) <= 12
    ops += [g('add', add, small), g('add-self', addself, small), g('add(mul(-1))', sub, small),
            g('mul(2j)', lambda m, v: (m.mul(2j), 2j * v)), g('mul(real)', lambda m, v: (m.mul(-0.5), -0.5 * v)),
            g('append', append, lambda m, v: m.L < 5), g('extend', extend, lambda m, v: m.L < 4), g('extend-self', selfext, lambda m, v: m.L <= 2)]
    for s in range(6):
        for w in range(d):
            def ps(m, v, s=s, w=w):
                r = m.post_select(s, w)
                return (m if r is None else r), np.take(v.reshape([d] * m_L(v, d)), w, axis=s).reshape(-1)
            ops.append(g('post_select(%d,%d)' % (s, w), ps,
                         lambda m, v, s=s, w=w: 2 <= m.L and s < m.L and np.linalg.norm(np.take(v.reshape([d] * m.L), w, axis=s)) > 1e-6 * np.linalg.norm(v)))
    ge = lambda m, v: m.L >= 1
    for n, f in (('rc()', lambda m: m.right_canonicalise()), ('lc()', lambda m: m.left_canonicalise()), ('mo(0)', lambda m: m.mixed_orthogonalise(0)),
                 ('mc(last)', lambda m: m.mixed_canonicalise(m.L - 1)), ('E', lambda m: m.E(dn.herm(d, 'a'), m.L // 2)), ('rho', lambda m: m.rho([0]))):
        def gauge(m, v, f=f):
            r = f(m)
            m = r if hasattr(r, 'data') and isinstance(r.data, list) else m
            w = dn.dense(m.data)
            return m, (w if dn.ray_dist(w, v) < 1e-6 else v)
        ops.append(g(n, gauge, lambda m, v: m.L >= 2 and np.linalg.norm(v) > 1e-9))

    def visit(hist, m, v):
        if not hist:
            return True
        op = hist[-1].split('(')[0]
        w = dn.dense(m.data)
        ok = out.check(dn.close(w, v, 1e-7), 'vector-wrong:' + op, lambda: '%s %s' % (spec, hist))
        L = m_L(v, d)
        ok &= out.check(m.L == L and len(m) == L and m.d == d, 'sizes-wrong:' + op, lambda: '%s %s L=%s' % (spec, hist, m.L))
        if op in ('add', 'add-self', 'append', 'extend', 'extend-self', 'mul'):
            ok &= out.check(m.D == fops.maxbond(m), 'D-wrong:' + op, lambda: '%s %s' % (spec, hist))
        if ok and L >= 2 and np.linalg.norm(v) > 1e-9:
            import copy
            for s in {0, L - 1}:
                mm = copy.deepcopy(m)
                o = dn.herm(d, 'b')
                k, e = out.attempt('E-after:' + op, mm.E, o, s)
                if k:
                    out.check(dn.close(e, dn.expect(o, [s], v, [d] * L).real, 1e-6), 'E-after:' + op, lambda: '%s %s' % (spec, hist))
            k, n = out.attempt('norm-after:' + op, m.norm)
            if k:
                out.check(dn.close(n, np.vdot(v, v), 1e-7), 'norm-after:' + op, lambda: '%s %s' % (spec, hist))
        return ok
    explore(out, (fops.fresh(data), dn.dense(data)), ops,
            lambda m, v: dn.digest(m.data) + bytes([255 if getattr(m, 'oc', None) is None else m.oc, int(m.canonical), int(m.orthogonal)]), visit, case['depth'])
    out.sample({'spec': spec, 'ops': [o[0] for o in ops]})


def m_L(v, d):
    return int(round(np.log(len(v)) / np.log(d)))
