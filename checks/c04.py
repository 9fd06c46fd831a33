"""C04: after any history, every query equals the value computed from the dense state vector."""
import copy
import numpy as np
from mc import dense as dn, states as st, fops
from mc.explore import explore

PROP, LEVEL = 'C04', 'model_checking'
BOUNDS = ('histories of gauge operations, queries and state-changing operations (one/two-site gates, item assignment, addition, scaling, the object filled with another state) of depth 1 from '
          'every initial state and depth 2 from the small ones (thorough: depth 2 from all L<=4, depth 3 from three); in every distinct state reached, every '
          'query on every site / contiguous window up to 3 sites, each on a copy and all in sequence on one object')
ASSUMPTIONS = ['for bond dimension 1 the list of one-site density matrices is compared up to the normalisation of the tensors']
TOL = 1e-6


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in st.finite_specs(lvl):
        if s['L'] > 5 and lvl == 1 or s['L'] > 8:
            continue
        depth = 1
        if s['L'] <= 3 and s.get('tag') != 'all' and (s['kind'] in ('ghz', 'dup', 'pad', 'product') or s.get('tag') in (2, 'over', 'd3', 'sc')):
            depth = 2
        if lvl == 2 and s['L'] <= 4 and s.get('tag') != 'all':
            depth = 2
        cs.append(dict(group='histories', spec=s, depth=depth, lvl=lvl, w=s['L'] * depth**5))
        if lvl == 2 and s['L'] == 2 and s['kind'] in ('ghz', 'dup', 'product'):
            cs.append(dict(group='histories3', spec=s, depth=3, lvl=1, w=2000))
    prods = [dict(kind='product', L=L, tag=t) for L in (2, 3, 4) for t in (0, 1)]
    for i, a in enumerate(prods):
        for b in prods:
            if a['L'] == b['L']:
                cs.append(dict(group='product-pairs', a=a, b=b, w=1))
    gens = [dict(kind='bonds', L=4, d=2, bonds=[1, 2, 3, 2, 1], tag=t) for t in 'ab'] + [dict(kind='ghz', L=4, rot=1), dict(kind='product', L=4, tag=7)]
    for a in gens:
        for b in gens:
            cs.append(dict(group='local-overlap', a=a, b=b, w=1))
    return cs


def all_queries(L, d):
    """(class, label, ask(m) -> value, expected(v) -> value). v is the exact vector"""
    dims = [d] * L
    q = []
    opsl = [('herm', dn.herm(d, 'o1')), ('gen', dn.gen((d, d), 'o2'))]
    weak = 1e-8
    for s in range(L):
        for on, op in opsl:
            exp = lambda v, s=s, op=op: dn.expect(op, [s], v, dims).real
            q.append(('E', 'E(%s,%d)' % (on, s), lambda m, s=s, op=op: m.E(op, s), exp))
            q.append(('E_', 'E_(%s,%d)' % (on, s), lambda m, s=s, op=op: m.E_(op, s), exp))
        q.append(('E', 'E(weak,%d)' % s, lambda m, s=s: m.E(weak * opsl[0][1], s) / weak, lambda v, s=s: dn.expect(opsl[0][1], [s], v, dims).real))
        q.append(('E_', 'E_(weak,%d)' % s, lambda m, s=s: m.E_(weak * opsl[0][1], s) / weak, lambda v, s=s: dn.expect(opsl[0][1], [s], v, dims).real))
        q.append(('E', 'E(whole,%d)' % s, lambda m, s=s: m.E(np.diag(np.arange(d)), s), lambda v, s=s: dn.expect(np.diag(np.arange(d)), [s], v, dims).real))
        q.append(('E', 'E(reversed memory,%d)' % s, lambda m, s=s: m.E(np.asfortranarray(opsl[1][1]), s), lambda v, s=s: dn.expect(opsl[1][1], [s], v, dims).real))
        q.append(('Es', 'Es(%d)' % s, lambda m, s=s: m.Es([o for _, o in opsl], s),
                  lambda v, s=s: np.array([dn.expect(o, [s], v, dims).real for _, o in opsl])))
    for k in (1, 2, 3):
        if d**k > 30:
            continue
        for i in range(L - k + 1):
            w = list(range(i, i + k))
            op = dn.herm(d**k, ('ok', k))
            ops = [dn.gen((d, d), ('os', k, j)) for j in range(k)]
            q.append(('E_k', 'E_k(%s)' % w, lambda m, w=w, op=op: m.E_k(op, list(w)), lambda v, w=w, op=op: dn.expect(op, w, v, dims).real))
            if k < 3:
                q.append(('E_k', 'E_k(weak,%s)' % w, lambda m, w=w, op=op: m.E_k(np.asfortranarray(weak * op), list(w)) / weak, lambda v, w=w, op=op: dn.expect(op, w, v, dims).real))
            q.append(('E_k-string', 'E_k(%s,single_string)' % w, lambda m, w=w, ops=ops: m.E_k(list(ops), list(w), single_string=True),
                      lambda v, w=w, ops=ops: dn.expect(dn.kronall(ops), w, v, dims).real))
            q.append(('rho', 'rho(%s)' % w, lambda m, w=w: m.rho(list(w), single_string=False), lambda v, w=w: dn.rdm(v, w, dims)))

            def rho(m, w=w):
                r = m.rho(list(w))
                if isinstance(r, list):
                    r = dn.kronall(r)
                return r
            q.append(('rho-default', 'rho(%s) default' % w, rho, lambda v, w=w: dn.rdm(v, w, dims)))
    if d**L <= 32:
        op = dn.herm(d**L, 'oL')
        q.append(('E_L', 'E_L', lambda m: m.E_L(op), lambda v: np.vdot(v, op @ v).real))
        q.append(('energy-full', 'energy(fullH)', lambda m: m.energy(op, fullH=True), lambda v: np.vdot(v, op @ v).real))
    if d**L <= 128:
        q.append(('recombine', 'recombine', lambda m: m.recombine().reshape(-1), lambda v: v))
    other = dn.mps_from_bonds([1] + [2 + i % 2 for i in range(L - 1)] + [1], d, 'other')
    ov = dn.dense(other)
    q.append(('overlap', 'overlap(other)', lambda m: m.overlap(fops.fresh(other)), lambda v: np.vdot(ov, v)))
    q.append(('overlap', 'other.overlap', lambda m: fops.fresh(other).overlap(m), lambda v: np.vdot(v, ov)))
    if d**L <= 128:
        q.append(('full_overlap', 'full_overlap', lambda m: m.full_overlap(fops.fresh(other)), lambda v: np.vdot(v, ov)))
    ps = [dn.gen((d,), ('po', i)) for i in range(L)]
    pv = dn.kronall([p.reshape(-1, 1) for p in ps]).reshape(-1)
    q.append(('product_state_overlap', 'product_state_overlap', lambda m: m.product_state_overlap(ps), lambda v: np.vdot(pv, v)))
    q.append(('norm', 'norm', lambda m: m.norm(), lambda v: np.vdot(v, v)))
    q.append(('norm', 'norm of a faint copy', lambda m: m.mul(1e-5).norm() / 1e-10, lambda v: np.vdot(v, v)))
    q.append(('overlap', 'overlap with a faint state', lambda m: m.overlap(fops.fresh(other).mul(1e-9)) / 1e-9, lambda v: np.vdot(ov, v)))
    return q


def nn_terms(L, d):
    return [dn.herm(d * d, ('nn', i)) for i in range(L - 1)]


def canonical_queries(L, d):
    dims = [d] * L
    H = nn_terms(L, d)

    def exp(v):
        return sum(dn.expect(h, [i, i + 1], v, dims).real for i, h in enumerate(H))
    q = [('energy', 'energy(list) %s' % f, lambda m, f=f: getattr(m, f)().energy([h.copy() for h in H]), exp)
         for f in ('right_canonicalise', 'left_canonicalise')]
    q.append(('energy', 'energy(weak list)', lambda m: m.left_canonicalise().energy([1e-8 * h for h in H]) / 1e-8, exp))
    q.append(('energy-raw', 'energy(list) as it is', lambda m: m.energy([h.copy() for h in H]),
              lambda v: exp(v) * np.vdot(v, v).real))
    q.append(('energy', 'energy(list of 4 leg tensors)', lambda m: m.left_canonicalise().energy([h.reshape([d] * 4) for h in H]), exp))
    return q


def canon(o, v):
    return dn.digest(o.data) + bytes([int(bool(getattr(o, 'canonical', 0))), int(bool(getattr(o, 'orthogonal', 0))),
                                      (255 if getattr(o, 'oc', None) is None else o.oc) & 255])


def run(case, out):
    if case['group'] == 'product-pairs':
        return product_pairs(case, out)
    if case['group'] == 'local-overlap':
        return local_overlap(case, out)
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    ops = fops.gauge_ops(L, 1) + fops.query_ops(L, 1) + fops.change_ops(L, d)
    if case['depth'] == 2 and case['lvl'] == 1 or case['depth'] == 3:
        ops = [o for o in ops if not any(x in o[0] for x in ('testing', 'copy', 'serialize', 'norm()', 'overlap(', 'D=bond'))]
    Q = all_queries(L, d)
    CQ = canonical_queries(L, d)
    Q = Q + [q for q in CQ if q[0] == 'energy-raw']
    seen = set()

    def ask(m, q, v, hist, how):
        cls, label, f, exp = q
        ok, got = out.attempt('query:%s' % cls, f, m)
        if ok:
            want = exp(v)
            out.check(np.shape(got) == np.shape(want) and dn.close(got, want, TOL), '%s:%s' % (cls, how),
                      lambda: 'spec %s history %s %s: got %s, dense %s' % (spec, hist, label, str(got)[:200], str(want)[:200]))
        return ok, got

    def visit(hist, obj, v):
        w = dn.dense(obj.data)
        if hist:
            # the vector the history should have produced (gauge operations: up to norm and phase)
            e = dn.ray_dist(w, v)
            if not out.check(e < 1e-6, 'state-wrong-after:' + hist[-1].split('(')[0], lambda: '%s %s' % (spec, hist)):
                return False
        k = canon(obj, v)
        if k in seen:
            return True
        seen.add(k)
        for q in Q:
            if q[0] in ('E', 'E_k', 'rho', 'rho-default', 'E_k-string'):
                ask(copy.deepcopy(obj), q, w, hist, 'fresh')
        for q in CQ:
            ask(copy.deepcopy(obj), q, w, hist, 'fresh')
        m = copy.deepcopy(obj)
        for q in Q:
            before = dn.dense(m.data)
            ok, got = ask(m, q, before, hist, 'in-sequence')
        out.trace()
        # once more, in the opposite order: the answers that do not depend on the norm are the same
        for q in reversed(Q):
            if q[0] in ('E', 'rho', 'E_k'):
                ask(m, q, w, hist, 'again')
        return True

    def wrap(op):
        n, en, f = op

        def g(m, v):
            m, v = f(m, v)
            # keep the exact vector as the model once it is known to be the right ray
            w = dn.dense(m.data)
            return m, (w if dn.ray_dist(w, v) < 1e-6 else v)
        return n, en, g
    # state-changing operations act on the exact vector, so the model is re-read after gauge steps (which may drop the norm)
    explore(out, (fops.fresh(data), dn.dense(data)), [wrap(o) for o in ops], canon, visit, case['depth'])
    out.sample({'spec': spec, 'queries_per_state': len(Q) + len(CQ), 'distinct_states': len(seen)})


def product_pairs(case, out):
    """rho_proj of product states"""
    a, b = st.build(case['a']), st.build(case['b'])
    L, d = len(a), 2
    va, vb = dn.dense(a), dn.dense(b)
    import itertools
    for k in range(1, L + 1):
        for sites in itertools.combinations(range(L), k):
            rest = [i for i in range(L) if i not in sites]
            A = va.reshape([d] * L).transpose(list(sites) + rest).reshape(d**k, -1)
            B = vb.reshape([d] * L).transpose(list(sites) + rest).reshape(d**k, -1)
            want = A @ B.conj().T
            ok, got = out.attempt('rho_proj', fops.fresh(a).rho_proj, fops.fresh(b), list(sites))
            out.step()
            if ok:
                out.trace()
                out.state((k, sites))
                out.check(got is not None and dn.close(got, want, TOL), 'rho_proj', lambda: '%s sites %s' % (case, sites))


def local_overlap(case, out):
    a, b = st.build(case['a']), st.build(case['b'])
    L, d = len(a), a[0].shape[0]
    dims = [d] * L
    va, vb = dn.dense(a), dn.dense(b)

    def want(A):
        return np.trace(dn.rdm(va, A, dims) @ dn.rdm(vb, A, dims)).real
    def scaled(m):
        m[1] = 3j * m[1]
        return m
    preps = [lambda m: m, scaled, lambda m: m.right_canonicalise(), lambda m: m.left_canonicalise(), lambda m: m.mixed_canonicalise(1), lambda m: m.mixed_orthogonalise(2)]
    for i, p in enumerate(preps):
        for j, r in enumerate(preps):
            for k in (1, 2, 3):
                for s in range(L - k + 1):
                    A = list(range(s, s + k))
                    m, o = p(fops.fresh(a)), r(fops.fresh(b))
                    out.step()
                    ok, got = out.attempt('local_overlap', m.local_overlap, o, A)
                    if ok:
                        out.state((i, j, k, s))
                        out.check(dn.close(got, want(A), TOL), 'local_overlap', lambda: '%s %s preps %d %d got %s want %s' % (case, A, i, j, got, want(A)))
                m, o = p(fops.fresh(a)), r(fops.fresh(b))
                As = [list(range(s, s + k)) for s in range(L - k + 1)]
                w = np.mean([want(A) for A in As])
                ok, got = out.attempt('k_local_approx_overlap', m.k_local_approx_overlap, o, k)
                if ok:
                    out.trace()
                    out.check(dn.close(got, w, TOL), 'k_local_approx_overlap', lambda: '%s k=%d' % (case, k))
                ok, got = out.attempt('approx_overlap', m.approx_overlap, o, As[:2])
                if ok:
                    out.check(dn.close(got, np.mean([want(A) for A in As[:2]]), TOL), 'approx_overlap', lambda: '%s k=%d' % (case, k))
            m, o = p(fops.fresh(a)), r(fops.fresh(b))
            wv = np.vdot(dn.dense(o.data), dn.dense(m.data))
            ok, got = out.attempt('k_local_approx_overlap(None)', m.k_local_approx_overlap, o)
            if ok:
                out.check(dn.close(got, wv, TOL), 'k_local_approx_overlap(None)', lambda: '%s' % case)
