"""Operation alphabet on real fMPS objects, with the dense reference model of each operation.

An op is (name, enabled, apply). obj is a real xmps fMPS, model is the exact dense vector it represents
(dims all equal to obj.d). apply returns (obj, model); a ray-preserving op returns the vector it was given."""
import copy
import numpy as np
from . import dense as dn


def fresh(data, d=None):
    from xmps.fMPS import fMPS
    return fMPS([np.array(x) for x in data], d)


def maxbond(m):
    return max(max(x.shape[1:]) for x in m.data)


def bonds(m):
    return [m.data[0].shape[1]] + [x.shape[2] for x in m.data]


def d_of(m):
    return m.data[0].shape[0]


def _inplace(f):
    def g(m, v):
        r = f(m)
        return (m if r is None else r), v
    return g


def _query(f):
    def g(m, v):
        f(m)
        return m, v
    return g


def positions(L):
    return sorted({0, 1, L // 2, L - 1})


def gauge_ops(L, level=1):
    ops = []

    def a(name, f, en=None):
        ops.append((name, en, _inplace(f)))
    for side, nm in (('right', 'rc'), ('left', 'lc')):
        def call(m, _s=side, **k):
            return getattr(m, _s + '_canonicalise')(**k)
        a('%s()' % nm, lambda m, c=call: c(m))
        a('%s(minD=False)' % nm, lambda m, c=call: c(m, minD=False))
        a('%s(sweep_back=False)' % nm, lambda m, c=call: c(m, sweep_back=False))
        a('%s(testing=True)' % nm, lambda m, c=call: c(m, testing=True))
        a('%s(D=bond_dimension)' % nm, lambda m, c=call: c(m, D=maxbond(m)))
        if level > 1:
            a('%s(D=bond_dimension+3)' % nm, lambda m, c=call: c(m, D=maxbond(m) + 3))
            a('%s(D=bond_dimension,minD=False)' % nm, lambda m, c=call: c(m, D=maxbond(m), minD=False))
            a('%s(minD=False,sweep_back=False)' % nm, lambda m, c=call: c(m, minD=False, sweep_back=False))
    for oc in positions(L):
        a('mixed_canonicalise(%d)' % oc, lambda m, o=oc: m.mixed_canonicalise(o))
        a('mixed_orthogonalise(%d)' % oc, lambda m, o=oc: m.mixed_orthogonalise(o))
        if level > 1:
            a('mixed_canonicalise(%d,D=bond_dimension)' % oc, lambda m, o=oc: m.mixed_canonicalise(o, D=maxbond(m)))
            a('mixed_canonicalise(%d,testing,sweep_back=False)' % oc,
              lambda m, o=oc: m.mixed_canonicalise(o, testing=True, sweep_back=False))
    a('right_orthogonalise()', lambda m: m.right_orthogonalise())
    a('left_orthogonalise()', lambda m: m.left_orthogonalise())
    a('right_orthogonalise(fr=1)', lambda m: m.right_orthogonalise(fr=1))
    a('left_orthogonalise(to=L-1)', lambda m: m.left_orthogonalise(to=m.L - 1))
    if L > 2 and level > 1:
        a('right_orthogonalise(1,L-1)', lambda m: m.right_orthogonalise(1, m.L - 1))
        a('left_orthogonalise(1,L-1)', lambda m: m.left_orthogonalise(1, m.L - 1))

    def can_expand(m, v=None):
        d, b = d_of(m), bonds(m)
        return all(x <= y for x, y in zip(b, dn.std_bonds(L, d, maxbond(m) + 2))) and maxbond(m) <= 6

    def expand(m):
        return m.expand(maxbond(m) + 2)
    ops.append(('expand(D+2)', can_expand, _inplace(expand)))

    def match(m):
        return m.match_gauge_to(fresh([dn.gen(x.shape, ('mg', i)) for i, x in enumerate(m.data)]))
    a('match_gauge_to(generic)', match)
    a('copy()', lambda m: m.copy())
    a('deepcopy', lambda m: copy.deepcopy(m))
    return ops


def query_ops(L, level=1):
    """queries, as history steps: whatever they do to the gauge, they may not change the state"""
    ops = []

    def a(name, f, en=None):
        ops.append((name, en, _query(f)))
    for s in positions(L):
        a('E(op,%d)' % s, lambda m, s=s: m.E(dn.herm(d_of(m), 'q'), s))
        a('E_(op,%d)' % s, lambda m, s=s: m.E_(dn.herm(d_of(m), 'q'), s))
        if level > 1:
            a('Es(ops,%d)' % s, lambda m, s=s: m.Es([dn.herm(d_of(m), 'q')], s))
        a('entanglement_entropy(%d)' % s, lambda m, s=s: m.entanglement_entropy(s))
    for i in range(L - 1) if L < 5 else (0, L - 2):
        a('E_k(op,%d,%d)' % (i, i + 1), lambda m, i=i: m.E_k(dn.herm(d_of(m)**2, 'q2'), [i, i + 1]))
        a('rho(%d,%d)' % (i, i + 1), lambda m, i=i: m.rho([i, i + 1]))
    a('norm()', lambda m: m.norm())
    a('overlap(self)', lambda m: m.overlap(m))
    a('serialize()', lambda m: m.serialize())
    a('get_envs(store)', lambda m: m.get_envs(True))
    a('update_properties()', lambda m: m.update_properties())
    return ops


def change_ops(L, d, level=1):
    """operations that change the state; the model follows them exactly"""
    ops = []

    def a(name, f, en=None):
        ops.append((name, en, f))
    P = positions(L)
    dims = [d] * L

    for s in P:
        U = dn.gen((d, d), ('g1', s))

        def ap(m, v, s=s, U=U):
            return m.apply((U, s)), dn.apply(U, [s], v, dims)
        a('apply(op,%d)' % s, ap)

        def si(m, v, s=s):
            m[s] = 1.7 * m[s][::-1]
            F = 1.7 * np.eye(d)[::-1]
            return m, dn.apply(F, [s], v, dims)
        a('setitem(%d)' % s, si)
    for i in range(L - 1) if (L < 5) else (0, L - 2):
        for w in 'lr':
            G = dn.gen((d * d, d * d), ('g2', i, w))

            def ap2(m, v, i=i, w=w, G=G):
                return m.apply_two_site((G, (i, i + 1)), which=w), dn.apply(G, [i, i + 1], v, dims)
            a('apply_two_site(op,(%d,%d),%s)' % (i, i + 1, w), ap2)
    if d == 2 and L > 2:
        G = dn.gen((4, 4), 'gl')

        def apl(m, v):
            return m.apply_two_site((G, (0, L - 1))), dn.apply(G, [0, L - 1], v, dims)
        a('apply_two_site(op,(0,L-1))', apl)

    def add(m, v):
        o = dn.mps_from_bonds([1] + [2] * (L - 1) + [1], d, 'addend')
        return m.add(fresh(o)), v + dn.dense(o)
    a('add(generic)', add, lambda m, v: maxbond(m) <= 8)

    def refill(m, v):
        b = [1] + [min(x + 1, 4) for x in bonds(m)[1:-1]] + [1]
        o = dn.mps_from_bonds(b, d, 'refill')
        for i in range(L):
            m[i] = o[i]
        return m, dn.dense(o)
    a('setitem(all,larger)', refill)

    # the object used again for another state
    for D in (1, 2):
        def again(m, v, D=D):
            np.random.seed(17 + D)
            m = m.random(L, d, D)
            return m, dn.dense(m.data)
        a('random(again,%d)' % D, again)
    if d**L <= 243:
        w = dn.gen((d**L,), 'again')
        w = w / np.linalg.norm(w)
        for side in ('left', 'right'):
            def build(m, v, side=side):
                m = getattr(m, side + '_from_state')(w.reshape([d] * L).copy())
                z = dn.dense(m.data)
                return m, w * np.vdot(w, z)     # up to the phase of the decomposition
            a('%s_from_state(again)' % side, build)

    def mul(m, v):
        return m.mul(0.3 - 2j), (0.3 - 2j) * v
    a('mul(c)', mul)

    def imul(m, v):
        return m * (1.1 + 0.2j), (1.1 + 0.2j)**L * v
    a('itemwise*c', imul)
    return ops
