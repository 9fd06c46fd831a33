"""C08: copies and derived states are independent of the original."""
import copy
import numpy as np
from mc import dense as dn, states as st, fops

PROP, LEVEL = 'C08', 'model_checking'
BOUNDS = ('every initial state (finite: L<=4 alphabet; infinite: d=2,3, D=2,3) x every preparation x every derivation x every operation history of depth 1 (thorough: 2) on the derived object, '
          'then on the original: the state vector, tensors and flags of the other are compared bitwise before and after')
ASSUMPTIONS = ['objects built by the constructor share the list they were given; only the library\'s own copies and derivations are covered']


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in st.finite_specs(lvl):
        if s['L'] <= 4 and s.get('tag') != 'all':
            cs.append(dict(group='finite', spec=s, lvl=lvl, w=s['L']**2))
    for d in (2, 3):
        for D in (2, 3):
            cs.append(dict(group='infinite', d=d, D=D, w=3))
    return cs


def snap(m):
    return [np.array(x) for x in m.data]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


DERIVE = {
    'copy': lambda m: m.copy(),
    'apply': lambda m: m.apply((dn.unitary(fops.d_of(m), 'der'), 0)),
    'apply-last': lambda m: m.apply((dn.gen((fops.d_of(m),) * 2, 'der'), m.L - 1)),
    'add': lambda m: m.add(m),
    'mul': lambda m: m.mul(1),
    'itemwise*': lambda m: m * 1.0,
    'itemwise+': lambda m: m + m,
    'itemwise-': lambda m: m - 0.5 * m,
    'itemwise/': lambda m: m / 2.0,
    'append': lambda m: m.append(dn.gen((fops.d_of(m), 1, 1), 'ap')),
    'extend': lambda m: m.extend(m),
    'deserialize': lambda m: m.deserialize(m.serialize(), structure=[x.shape for x in m.data]),
    'from_product_state': None,
}


def later_ops(L, d, lvl):
    ops = [o for o in fops.gauge_ops(L, 1) + fops.query_ops(L, 1) + fops.change_ops(L, d) if 'copy' not in o[0]]
    for s in range(L):
        for w in range(d):
            ops.append(('post_select(%d,%d)' % (s, w), None, lambda m, v, s=s, w=w: (m.post_select(s, w), v)))

    def inplace(m, v):
        for i in range(len(m.data)):
            m[i] = m[i] * 0.5
        return m, v
    ops.append(('rescale-every-site', None, inplace))
    if d == 2:
        ops.append(('dA_dt', None, lambda m, v: (m.left_canonicalise().dA_dt([dn.herm(4, ('h', i)) for i in range(m.L - 1)]), v)))
    return ops


def run(case, out):
    if case['group'] == 'infinite':
        return infinite(case, out)
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    preps = {'raw': lambda m: m, 'rc': lambda m: m.right_canonicalise(), 'lc': lambda m: m.left_canonicalise(), 'mo': lambda m: m.mixed_orthogonalise(1)}
    for pn, prep in preps.items():
        for dn_, der in DERIVE.items():
            if der is None:
                continue
            m0 = prep(fops.fresh(data))
            ref = snap(m0)
            ok, c0 = out.attempt('derive:' + dn_, der, m0)
            out.step()
            if not ok:
                continue
            out.check(same(snap(m0), ref), 'derivation-changed-original:' + dn_, lambda: '%s %s' % (spec, pn))
            out.check(m0.L == L, 'derivation-changed-length:' + dn_, str(spec))
            v0 = dn.dense(m0.data)
            for name, en, f in later_ops(c0.L, d, 1):
                if 'post_select' in name and dn_ not in ('copy', 'mul', 'append', 'extend', 'deserialize', 'apply'):
                    continue
                # on the derived object
                m = prep(fops.fresh(data))
                try:
                    c = der(m)
                    if en is not None and not en(c, None):
                        continue
                    before = snap(m)
                    f(c, np.zeros(d**c.L, dtype=complex))
                except Exception:
                    continue
                out.step()
                out.trace()
                cls = name.split('(')[0]
                out.state((pn, dn_, name))
                det = lambda: '%s prepared %s derived by %s then %s' % (spec, pn, dn_, name)
                out.check(same(snap(m), before) and m.L == L, 'original-changed:%s:%s' % (dn_, cls), det)
                out.check(dn.close(m.norm(), np.vdot(v0, v0), 1e-7), 'original-norm-changed:%s:%s' % (dn_, cls), det)
                op = dn.herm(d, 'ind')
                s = L // 2
                ok, e = out.attempt('E-original', m.E, op, s)
                if ok:
                    out.check(dn.close(e, dn.expect(op, [s], v0, [d] * L).real, 1e-6), 'original-answers-changed:%s:%s' % (dn_, cls), det)
                # on the original
                if c0.L == L or name in ('rc()', 'lc()', 'rescale-every-site', 'right_orthogonalise()', 'left_orthogonalise()') or 'E(' in name:
                    m = prep(fops.fresh(data))
                    try:
                        c = der(m)
                        if en is not None and not en(m, None):
                            continue
                        before = snap(c)
                        f(m, np.zeros(d**L, dtype=complex))
                    except Exception:
                        continue
                    out.step()
                    out.check(same(snap(c), before), 'derived-changed:%s:%s' % (dn_, cls), det)
                    vc = dn.dense(before)
                    if c.L >= 2:
                        ok, e = out.attempt('E-derived', c.E, op, 0)
                        if ok:
                            out.check(dn.close(e, dn.expect(op, [0], vc, [d] * c.L).real, 1e-6), 'derived-answers-changed:%s:%s' % (dn_, cls), det)
                if case['lvl'] > 1 and dn_ == 'copy':
                    for n2, en2, f2 in later_ops(L, d, 1):
                        m = prep(fops.fresh(data))
                        try:
                            c = der(m)
                            before = snap(m)
                            c, _ = f(c, np.zeros(d**L, dtype=complex))
                            if en2 is not None and not en2(c, None):
                                continue
                            f2(c, np.zeros(d**c.L, dtype=complex))
                        except Exception:
                            continue
                        out.step()
                        out.state((pn, dn_, name, n2))
                        out.check(same(snap(m), before), 'original-changed:%s:%s+%s' % (dn_, cls, n2.split('(')[0]), det)
    out.sample({'spec': spec, 'derivations': list(DERIVE)})


def infinite(case, out):
    from xmps.iMPS import iMPS
    d, D = case['d'], case['D']
    H = [dn.herm(d * d, 'ih')]
    ops = {'lc': lambda m: m.left_canonicalise(), 'rc': lambda m: m.right_canonicalise(), 'm': lambda m: m.canonicalise('m'),
           'E': lambda m: m.E(dn.herm(d, 'e')), 'overlap': lambda m: m.overlap(iMPS([dn.gen((d, D, D), 'ov')])), 'energy': lambda m: m.energy(H),
           'mixed': lambda m: m.left_canonicalise().mixed(1e-8), 'setitem': lambda m: m.__setitem__(0, 2 * m[0]), 'serialize': lambda m: m.serialize()}
    der = {'copy': lambda m: m.copy(), '*': lambda m: m * 1.0, '+': lambda m: m + m, '-': lambda m: m - 0.5 * m, '/': lambda m: m / 2.0}
    pre = {'raw': lambda m: m, 'eigs': lambda m: (m.canonicalise('l'), m)[1]}
    for pn, p in pre.items():
        for dn_, g in der.items():
            for on, f in ops.items():
                for who in ('derived', 'original'):
                    m = p(iMPS([dn.gen((d, D, D), 'im')]))
                    ok, c = out.attempt('imps-' + dn_, g, m)
                    out.step()
                    if not ok:
                        continue
                    a, b = (c, m) if who == 'derived' else (m, c)
                    before = snap(b)
                    try:
                        f(a)
                    except Exception:
                        continue
                    out.trace()
                    out.state((pn, dn_, on, who))
                    out.check(same(snap(b), before), 'imps-other-changed:%s:%s' % (dn_, on), '%s %s on the %s' % (case, pn, who))
    out.sample(case)
