"""C01: every history of gauge operations and queries leaves the represented state alone (same ray)."""
from mc import dense as dn, states as st, fops
from mc.explore import explore

PROP, LEVEL = 'C01', 'model_checking'
BOUNDS = ('all histories of gauge operations, copies and queries: depth 2 from every initial state of the alphabet '
          '(generic, product, GHZ/W/Bell plain and locally rotated, rank deficient, zero padded, over-complete, scaled, '
          'd=2,3,4, every bond tuple <=3 at L=3, L up to 11); depth 3 (quick) / 4 (thorough) over the canonicalising '
          'operations from the small ones')
ASSUMPTIONS = ['numpy/scipy dense linear algebra is the oracle', 'states with norm 0 are outside the domain']


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in st.finite_specs(lvl):
        w = {2: 1, 3: 2, 4: 4, 5: 6, 6: 9}.get(s['L'], 20)
        depth = 2 if s['L'] <= 6 else 1
        cs.append(dict(group='histories', spec=s, depth=depth, lvl=lvl, ops='all', w=w))
        small = s['L'] in (2, 3) and s['kind'] in ('ghz', 'bell', 'w', 'dup', 'pad', 'product') or \
            s.get('tag') in ('over', 'var') and s['L'] <= 4
        if small:
            cs.append(dict(group='deep', spec=s, depth=3 if lvl == 1 else 4, lvl=1, ops='canon', w=15))
    return cs


def run(case, out):
    spec = case['spec']
    data = st.build(spec)
    L = len(data)
    ops = fops.gauge_ops(L, case['lvl'])
    if case['ops'] == 'all':
        ops = ops + fops.query_ops(L, case['lvl'])
    else:
        ops = [o for o in ops if 'copy' not in o[0] and 'testing' not in o[0]]
    psi = dn.dense(data)
    m = fops.fresh(data)

    def visit(hist, obj, model):
        if not hist:
            return True
        v = dn.dense(obj.data)
        e = dn.ray_dist(v, psi)
        ok = out.check(e < 1e-6, 'ray-changed:' + hist[-1], lambda: 'spec %s history %s distance %.3g' % (spec, hist, e))
        ok &= out.check(len(obj) == L and obj.L == L and obj.d == data[0].shape[0], 'size-changed:' + hist[-1], lambda: '%s %s' % (spec, hist))
        shapes = [x.shape for x in obj.data]
        ok &= out.check(all(p[2] == q[1] for p, q in zip(shapes, shapes[1:])) and shapes[0][1] == 1 and shapes[-1][2] == 1,
                        'bonds-inconsistent:' + hist[-1], lambda: '%s %s %s' % (spec, hist, shapes))
        return ok
    explore(out, (m, psi), ops, lambda o, v: dn.digest(o.data) + bytes([int(bool(getattr(o, 'canonical', 0))), int(bool(getattr(o, 'orthogonal', 0))), (getattr(o, 'oc', None) or 0) & 255]),
            visit, case['depth'])
    out.sample({'ops': [o[0] for o in ops][:6], 'norm_of_initial_state': float(abs(psi.conj() @ psi))})
