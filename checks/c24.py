"""C24: named example states are the states they are named for, through every history."""
import itertools
import numpy as np
from mc import dense as dn, fops, infin as inf

PROP, LEVEL = 'C24', 'model_checking'
BOUNDS = ('every named state (bell 1-4, comp_z 1-4, comp_x 1-4, i_comp_z 1-2, i_cat on a grid of parameters, AKLT) x every history of gauge changes, queries, copies and construction of '
          'other named states up to depth 2 (thorough: depth 3 from one state of each family, two of bell; infinite states one more, i_cat(0.01) one less), every one- and two-site spin correlator after each; every pair of a family; every product state of up to 4 (thorough 6) qubits from {0,1,+,-,i}; every spin / neighbourhood of the AKLT state up to 4 sites')
ASSUMPTIONS = ['states are named up to a phase', 'comp_x is ordered like comp_z: (+,+), (+,-), (-,+), (-,-), as its tests have it']

Z, O, P, M = np.array([1, 0.]), np.array([0, 1.]), np.array([1, 1]) / 2**.5, np.array([1, -1]) / 2**.5
PL = [np.array(x, complex) for x in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]


def named():
    k = lambda a, b: np.kron(a, b)
    s = 2**-.5
    return {'bell': [s * (k(O, O) + k(Z, Z)), s * (k(O, O) - k(Z, Z)), s * (k(O, Z) + k(Z, O)), s * (k(O, Z) - k(Z, O))],
            'comp_z': [k(Z, Z), k(Z, O), k(O, Z), k(O, O)],
            'comp_x': [k(P, P), k(P, M), k(M, P), k(M, M)]}


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = [dict(group='finite', fam=f, i=i, depth=2, w=3) for f in named() for i in range(4)]
    if lvl > 1:             # depth 3, split over workers by the first operation
        cs += [dict(group='finite', fam=f, i=i, depth=3, part=p, w=5) for f in named() for i in (0, 3)[:1 + (f == 'bell')] for p in range(8)]
    cs += [dict(group='family', fam=f, w=1) for f in named()]
    cs += [dict(group='product', n=n, w=n) for n in range(1, 5 if lvl == 1 else 7)]
    cs += [dict(group='infinite', name=n, lvl=lvl, w=5) for n in ('z1', 'z2', 'aklt')]
    cs += [dict(group='infinite', name='cat', eps=e, lvl=lvl, w=5) for e in (None, 1e-2, .1, .3, .7)]
    cs += [dict(group='aklt', n=n, w=n) for n in (1, 2, 3, 4)]
    return cs


def make(name, i=None, eps=None):
    from xmps import mps_examples as ex
    if i is not None:
        return getattr(ex, name)(i + 1)
    if name == 'cat':
        return ex.i_cat() if eps is None else ex.i_cat(eps)
    return {'z1': lambda: ex.i_comp_z(1), 'z2': lambda: ex.i_comp_z(2), 'aklt': ex.AKLT}[name]()


def check_finite(m, v, out, key, det):
    w = dn.dense(m.data)
    r = abs(np.vdot(w, v)) / np.linalg.norm(w)
    out.check(abs(r - 1) < 1e-7, key + ':state', det)
    out.check(abs(np.linalg.norm(w) - 1) < 1e-7, key + ':norm', det)
    for a in range(3):
        for site in range(2):
            op = np.kron(PL[a], np.eye(2)) if site == 0 else np.kron(np.eye(2), PL[a])
            ok, g = out.attempt(key + ':E', m.E, PL[a], site)
            if ok:
                out.check(abs(g - np.vdot(v, op @ v)) < 1e-7, key + ':E', det)
        for b in range(3):
            ok, g = out.attempt(key + ':E_L', lambda: m.energy([np.kron(PL[a], PL[b])]))
            if ok:
                out.check(abs(g - np.vdot(v, np.kron(PL[a], PL[b]) @ v)) < 1e-7, key + ':correlator', det)


def run_finite(case, out):
    fam, i = case['fam'], case['i']
    v = named()[fam][i].astype(complex)
    depth = case['depth']
    ops = [(n, en, f) for n, en, f in fops.gauge_ops(2, 1) + fops.query_ops(2, 1)]
    ops += [('other:%s%d' % (o, j), None, lambda m, v, o=o, j=j: (make(o, j) and None, (m, v))[1]) for o in named() for j in (0, 3)]
    ops += [('copy', None, lambda m, v: (m.copy(), v))]
    front = [()]
    for dep in range(depth + 1):
        nxt = []
        for h in front:
            m, ok = make(fam, i), True
            for nm, f in h:
                ok, r = out.attempt('%s:%s' % (fam, nm), f, m, v)
                if not ok:
                    break
                m = r[0]
            if not ok:
                continue
            out.state((fam, i, tuple(x[0] for x in h)))
            out.step()
            out.trace()
            check_finite(m, v, out, fam, lambda: '%s(%d) after %s' % (fam, i + 1, [x[0] for x in h]))
            if dep < depth:
                for k, (nm, en, f) in enumerate(ops):
                    if dep == 0 and 'part' in case and k % 8 != case['part']:
                        continue
                    if en is None or en(m):
                        nxt.append(h + ((nm, f),))
        front = nxt
    out.sample({'state': '%s(%d)' % (fam, i + 1)})


def run_family(case, out):
    fam = case['fam']
    for i, j in itertools.product(range(4), repeat=2):
        out.state((fam, i, j))
        out.step()
        a, b = make(fam, i), make(fam, j)
        det = lambda: '%s(%d), %s(%d)' % (fam, i + 1, fam, j + 1)
        for nm in ('overlap', 'full_overlap', 'fidelity', 'distance', 'structured_overlap'):
            if not hasattr(a, nm):
                continue
            ok, g = out.attempt('%s:%s' % (fam, nm), getattr(a, nm), b)
            if ok and nm in ('overlap', 'full_overlap', 'fidelity'):
                out.check(abs(abs(g) - (i == j)) < 1e-7, '%s:%s' % (fam, nm), det)
        # tensors of one object are not those of the next
        a = make(fam, i)
        b = make(fam, i)
        a.data[0][...] = 0
        a.data[1][...] = 0
        out.check(abs(abs(np.vdot(dn.dense(b.data), named()[fam][i])) - 1) < 1e-7, '%s:shared' % fam, det)
        out.check(abs(abs(np.vdot(dn.dense(make(fam, i).data), named()[fam][i])) - 1) < 1e-7, '%s:shared-next' % fam, det)
    for i in (0, 3):
        for o, fo in itertools.product(range(4), named()):
            a, b = make(fam, i), make(fo, o)
            w = np.vdot(named()[fam][i], named()[fo][o])
            ok, g = out.attempt('between:overlap', a.overlap, b)
            if ok:
                out.check(abs(abs(g) - abs(w)) < 1e-7, 'between:overlap', lambda: '%s(%d), %s(%d)' % (fam, i + 1, fo, o + 1))
    out.trace()


def run_product(case, out):
    from xmps.fMPS import fMPS
    one = [Z.astype(complex), O.astype(complex), P.astype(complex), M.astype(complex), np.array([1, 1j]) / 2**.5]
    n = case['n']
    one = one if n < 5 else one[1:5:2]
    for s in itertools.product(range(len(one)), repeat=n):
        out.state(('product', s))
        out.step()
        L = [one[k] for k in s]
        v = L[0]
        for x in L[1:]:
            v = np.kron(v, x)
        det = lambda: 'product %s' % (s,)
        ok, m = out.attempt('product', fMPS().from_product_state, np.array(L))
        if ok:
            out.check(dn.close(dn.dense(m.data), v, 1e-9), 'product:state', det)
            for k in range(n):
                for a in range(3):
                    ok, g = out.attempt('product:E', m.E, PL[a], k)
                    if ok:
                        out.check(abs(g - np.vdot(L[k], PL[a] @ L[k])) < 1e-8, 'product:E', det)
            for t in (s, tuple(reversed(s)), (0,) * n):
                m = fMPS().from_product_state(np.array(L))
                ok, g = out.attempt('product:overlap', m.product_state_overlap, np.array([one[k] for k in t]))
                if ok:
                    w = np.prod([np.vdot(one[b], one[a]) for a, b in zip(s, t)])
                    out.check(abs(abs(g) - abs(w)) < 1e-8 and min(abs(g - w), abs(g - w.conj())) < 1e-8, 'product:overlap', det)
    ok, ms = out.attempt('products', fMPS().from_product_states, np.array([[one[k]] * n for k in range(len(one))]))
    if ok and out.check(len(ms) == len(one), 'products:length'):
        for k, m in enumerate(ms):
            v = one[k]
            for _ in range(n - 1):
                v = np.kron(v, one[k])
            out.check(dn.close(dn.dense(m.data), v, 1e-9), 'products:state')
    out.trace()


def inf_ops():
    def q(f):
        return lambda m: (f(m), m)[1]

    def g(f):
        return lambda m: (lambda r: m if r is None else r)(f(m))
    d = lambda m: m.data[0].shape[0]
    return [('rc', g(lambda m: m.right_canonicalise())), ('lc', g(lambda m: m.left_canonicalise())), ('mixed', lambda m: (m.mixed(), m)[1]), ('copy', g(lambda m: m.copy())),
            ('norm', q(lambda m: m.overlap(m))), ('E', q(lambda m: m.E(np.eye(d(m))))), ('energy', q(lambda m: m.energy([np.eye(d(m)**2)]))),
            ('eigs', q(lambda m: m.eigs())), ('others', q(lambda m: [make(n) for n in ('z1', 'z2', 'aklt', 'cat')]))]


def tensor_of(case):
    n = case['name']
    if n == 'aklt':
        return inf.build({'kind': 'aklt'})
    if n in ('z1', 'z2'):
        return np.array([[[1. * (n == 'z1')]], [[1. * (n == 'z2')]]], complex)
    e = 1e-2 if case['eps'] is None else case['eps']
    A = np.array([[[1, e], [e, e]], [[e, e], [e, 1]]], complex)
    return A / np.sqrt(inf.fixed(A)[0])


def run_infinite(case, out):
    from xmps.spin import spins
    A = tensor_of(case)
    d = A.shape[0]
    S = spins((d - 1) / 2)
    r1, r2 = inf.rdm(A, 1), inf.rdm(A, 2)
    ops = inf_ops()
    depth = 3 if case['lvl'] == 1 else 4
    if case['name'] == 'cat' and (case['eps'] or 0) < .1:
        depth -= 2          # long correlations: the iterations behind mixed() take seconds
    for dep in range(depth + 1):
        for h in itertools.product(range(len(ops)), repeat=dep):
            m, ok = make(case['name'], eps=case.get('eps')), True
            det = lambda: '%s eps %s after %s' % (case['name'], case.get('eps'), [ops[k][0] for k in h])
            for k in h:
                ok, m = out.attempt('%s:%s' % (case['name'], ops[k][0]), ops[k][1], m)
                if not ok:
                    break
            if not ok:
                continue
            out.state((case['name'], case.get('eps'), h))
            out.step()
            B = np.asarray(m.data[0])
            out.check(inf.phys_dist(A, B / np.sqrt(inf.fixed(B)[0])) < 1e-6, case['name'] + ':state', det)
            for s in S:
                ok, g = out.attempt(case['name'] + ':E', m.E, s)
                if ok:
                    out.check(abs(g - np.trace(r1 @ s)) < 1e-6, case['name'] + ':E', det)
            SS = sum(np.kron(s, s) for s in S)
            ok, g = out.attempt(case['name'] + ':energy', m.energy, [SS])
            if ok:
                out.check(abs(g - np.trace(r2 @ SS)) < 1e-6, case['name'] + ':energy', det)
            ok, g = out.attempt(case['name'] + ':norm', m.overlap, m)
            if ok:
                out.check(abs(abs(g) - 1) < 1e-6, case['name'] + ':overlap', det)
    out.trace()
    if case['name'] == 'cat':
        # unchanged by flipping every spin and by reflection
        F = A[::-1]
        B = np.asarray(make('cat', eps=case['eps']).data[0])
        out.check(inf.phys_dist(A, F) < 1e-9 and inf.phys_dist(B / np.sqrt(inf.fixed(B)[0]), A) < 1e-9, 'cat:symmetric')


def run_aklt(case, out):
    """no two neighbours of the AKLT state have total spin two; correlations fall as (-1/3)^n; hidden order -4/9"""
    n = case['n']
    from xmps.spin import spins
    S = spins(1)
    m = make('aklt')
    A = np.asarray(m.data[0])
    A = A / np.sqrt(inf.fixed(A)[0])
    rho = inf.rdm(A, n + 1)
    out.state(('aklt', n))
    for a in range(3):
        mid = np.eye(3**(n - 1))
        c = np.trace(rho @ np.kron(np.kron(S[a], mid), S[a]))
        out.check(abs(c - 4 / 3 * (-1 / 3)**n) < 1e-8, 'aklt:correlation', lambda: 'distance %d axis %d: %s' % (n, a, c))
        w, V = np.linalg.eigh(S[a])
        ph = V @ np.diag(np.exp(1j * np.pi * w)) @ V.conj().T
        mid = np.eye(1)
        for _ in range(n - 1):
            mid = np.kron(mid, ph)
        c = np.trace(rho @ np.kron(np.kron(S[a], mid), S[a]))
        out.check(abs(c + 4 / 9) < 1e-8, 'aklt:string', lambda: 'distance %d axis %d: %s' % (n, a, c))
    if n > 1:
        SS = sum(np.kron(s, s) for s in S)
        one = np.eye(9)
        P2 = (SS + one) @ (SS + 2 * one) / 6
        for k in range(n):
            op = np.kron(np.kron(np.eye(3**k), P2), np.eye(3**(n - 1 - k)))
            out.check(abs(np.trace(rho @ op)) < 1e-8, 'aklt:P2', lambda: 'bond %d of %d' % (k, n))
        out.check(np.linalg.matrix_rank(rho, 1e-9) == 4, 'aklt:rank')
    # the named Hamiltonian agrees
    SS = sum(np.kron(s, s) for s in S)
    ok, e = out.attempt('aklt:energy', m.energy, [SS + SS @ SS / 3])
    if ok:
        out.check(abs(e + 2 / 3) < 1e-8, 'aklt:energy', lambda: 'energy %s' % e)
    out.trace()


def run(case, out):
    globals()['run_' + case['group']](case, out)
