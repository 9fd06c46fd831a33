"""C07: serialise / store / load round trips."""
import copy
import os
import numpy as np
from mc import dense as dn, states as st, fops

PROP, LEVEL = 'C07', 'model_checking'
BOUNDS = ('every initial state of the alphabet x every single gauge / query / state-changing operation (thorough: pairs) x every format (complex or split vector, by sizes or by '
          'structure, file structured or not, each repeated twice); infinite MPS: d<=4, D<=5, unit cells <=3')
ASSUMPTIONS = ['the size-only formats (L, d, D) are for the standard open-chain bond structure, as documented', 'file names carry the .npy suffix']


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = [dict(group='finite', spec=s, lvl=lvl, w=s['L']) for s in st.finite_specs(lvl)]
    for d in (2, 3, 4):
        cs.append(dict(group='infinite', d=d, w=1))
    return cs


def same(a, b):
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x, dtype=complex), np.asarray(y, dtype=complex)) for x, y in zip(a, b))


def infinite(case, out):
    from xmps.iMPS import iMPS
    d = case['d']
    scratch = os.environ.get('MC_SCRATCH', '/tmp')
    for D in range(1, 6):
        for p in (1, 2, 3):
            data = [dn.gen((d, D, D), ('is', i)) for i in range(p)]
            fn = os.path.join(scratch, 'i%d_%d_%d_%d.npy' % (os.getpid(), d, D, p))
            ways = {'vector': lambda m: iMPS().deserialize(m.serialize(), d, D, p),
                    'real-vector': lambda m: iMPS().deserialize(m.serialize(real=True), d, D, p, real=True),
                    'file': lambda m: (m.store(fn), iMPS().load(fn))[1]}
            preps = [lambda m: m] + ([lambda m: m.left_canonicalise(), lambda m: m.canonicalise('m')] if p == 1 and D > 1 else [])
            for prep in preps:
                for w, f in ways.items():
                    m = prep(iMPS([x.copy() for x in data]))
                    ref = [x.copy() for x in m.data]
                    out.step()
                    ok, r = out.attempt('imps-' + w, f, m)
                    if ok:
                        out.trace()
                        out.state((D, p, w))
                        out.check(same(r.data, ref) and same(m.data, ref), 'imps-' + w, 'd=%d D=%d p=%d' % (d, D, p))
                        out.check((r.d, r.D, r.period) == (d, D, p), 'imps-sizes-' + w, 'd=%d D=%d p=%d' % (d, D, p))
            if os.path.exists(fn):
                os.remove(fn)
    out.sample({'d': d})


def run(case, out):
    if case['group'] == 'infinite':
        return infinite(case, out)
    from xmps.fMPS import fMPS
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    dims = [d] * L
    scratch = os.environ.get('MC_SCRATCH', '/tmp')
    fn = os.path.join(scratch, 'f%d.npy' % os.getpid())
    ops = [o for o in fops.gauge_ops(L, 1) + fops.query_ops(L, 1) if 'copy' not in o[0] and 'testing' not in o[0]] + fops.change_ops(L, d)
    objs = [((), fops.fresh(data))]
    # imaginary (real) parts which are small everywhere are parts of the state all the same
    for e in (1e-6, 1e-9, 1e-12, 1e-15):
        objs.append((('imag%g' % e,), fops.fresh([x.real + 1j * e * dn.gen(x.shape, ('si', q)).real for q, x in enumerate(data)])))
        objs.append((('real%g' % e,), fops.fresh([1j * x.real + e * dn.gen(x.shape, ('si', q)).real for q, x in enumerate(data)])))
    frontier = objs[:1]
    seen = {dn.digest(data)}
    for depth in range(1 if case['lvl'] == 1 or L > 4 else 2):
        nxt = []
        for h, m in frontier:
            for n, en, f in ops:
                m2 = copy.deepcopy(m)
                if en is not None and not en(m2, None):
                    continue
                try:
                    m2, _ = f(m2, np.zeros(d**L, dtype=complex))
                except Exception:
                    continue
                out.step()
                k = dn.digest(m2.data)
                if k not in seen:
                    seen.add(k)
                    nxt.append((h + (n,), m2))
        objs += nxt
        frontier = nxt
    for h, m in objs:
        ref = [np.array(x) for x in m.data]
        v = dn.dense(ref)
        struct = [x.shape for x in ref]
        b = fops.bonds(m)
        D = max(b)
        std = b == dn.std_bonds(L, d, D)
        ways = {
            'structure': lambda: fMPS().deserialize(m.serialize(), structure=struct),
            'structure-real': lambda: fMPS().deserialize(m.serialize(real=True), structure=struct, real=True),
            'file-structured': lambda: (m.store(fn, structured=True), fMPS().load(fn, structured=True))[1],
        }
        if std:
            ways.update({
                'sizes': lambda: fMPS().deserialize(m.serialize(), L, d, D),
                'sizes-real': lambda: fMPS().deserialize(m.serialize(real=True), L, d, D, real=True),
                'file': lambda: (m.store(fn), fMPS().load(fn))[1],
            })
        for w, f in ways.items():
            out.step()
            det = lambda: '%s history %s format %s' % (spec, h, w)
            ok, r = out.attempt(w, f)
            if not ok:
                continue
            out.trace()
            out.state((h, w))
            out.check(same(r.data, ref), 'tensors:' + w, det)
            out.check(same(m.data, ref), 'original-modified:' + w, det)
            if not same(r.data, ref):
                continue
            out.check((r.L, r.d, r.D) == (L, d, D), 'sizes:' + w, lambda: det() + ' L,d,D %s' % ((r.L, r.d, r.D),))
            out.check(dn.close(r.overlap(m), np.vdot(v, v), 1e-8), 'overlap:' + w, det)
            op = dn.herm(d, 'ser')
            for s in {0, L - 1}:
                r2 = copy.deepcopy(r)
                ok, e = out.attempt('E:' + w, r2.E, op, s)
                if ok:
                    out.check(dn.close(e, dn.expect(op, [s], v, dims).real, 1e-6), 'E:' + w, det)
            # twice is the same as once
            out.check(same([r.serialize()], [m.serialize()]), 'second-serialisation:' + w, det)
        vec, rvec = m.serialize(), m.serialize(real=True)
        out.check(vec.shape == (sum(x.size for x in ref),) and rvec.shape == (2 * len(vec),) and np.isrealobj(rvec), 'vector-shape', str(spec))
    if os.path.exists(fn):
        os.remove(fn)
    out.sample({'spec': spec, 'histories': len(objs)})
