"""C12: canonical forms of a uniform infinite MPS keep the state and satisfy their conditions."""
import copy, itertools, os, shutil, tempfile
import numpy as np
from mc import dense as dn, infin as inf, explore

PROP, LEVEL = 'C12', 'model_checking'
BOUNDS = ('every one-site infinite MPS of the alphabet (generic, real, re-gauged, rescaled, AKLT, cluster; d=2,3 (thorough 4), D=1..4 (thorough 6)) x every history of canonicalise(l/r/m), to_vidal+to_iMPS, mixed, copy, replacing the tensor by another state or another gauge, itemwise scaling, '
          'store/load, serialize/deserialize up to depth 3 (thorough 4), started from each; every pair of first guesses for the environments; states with correlation lengths of up to some hundred (thorough: thousand) sites: every form and tolerance once; Vidal-form states: every history of canonicalise up to depth 3')
ASSUMPTIONS = ['injective states (unique leading transfer eigenvalue, full-rank fixed points)', 'numpy/scipy eigen solvers']
TOL = 1e-6


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = [dict(group='uniform', spec=s, depth=3 if lvl == 1 else 4, w=s.get('D', 2)) for s in inf.specs(lvl)]
    for eps in (.05, .1, .2) if lvl == 1 else (.02, .03, .05, .1, .15, .2):
        for real in (0, 1):
            cs.append(dict(group='slow', eps=eps, real=real, w=8))
    for d in (2, 3):
        for D in range(2, 5 if lvl == 1 else 7):
            for tag in range(3):
                cs.append(dict(group='vidal', d=d, D=D, tag=tag, w=1))
                if lvl > 1 or D < 4:
                    cs.append(dict(group='guess', d=d, D=D, tag=tag, w=3))
    return cs


def iso(A, side):
    D = A.shape[1]
    M = np.einsum('sba,sbc->ac', A.conj(), A) if side == 'l' else np.einsum('sab,scb->ac', A, A.conj())
    return abs(M - np.eye(D)).max()


def form_ok(out, form, m, sch, det):
    """conditions of the declared form on the object"""
    A = np.array(m.data[0])
    D = A.shape[1]
    eta, l, r = inf.fixed(A)
    out.check(abs(eta - 1) < TOL, form + ':transfer-eigenvalue', lambda: det() + ' %r' % eta)
    if form in 'lr':
        out.check(iso(A, form) < TOL, form + ':not-isometric', det)
    L = np.array(m.L)
    out.check(L.shape == (D, D) and abs(L - np.diag(np.diag(L))).max() < TOL and (np.diag(L).real > 0).all() and abs((abs(L)**2).sum() - 1) < TOL,
              form + ':bond-matrix', det)
    if L.shape == (D, D):
        out.check(abs(np.sort(np.diag(L).real)[::-1] - sch).max() < 1e-5, form + ':schmidt-values', det)
        want = {'l': (np.eye(D), L @ L), 'r': (L @ L, np.eye(D)), 'm': (L, L)}[form]
        out.check(abs(l - want[0] / (want[0] * want[1]).sum() * np.trace(want[1])).max() < 1e-5 * max(1, abs(l).max()) and abs(r - want[1] / np.trace(want[1])).max() < 1e-5,
                  form + ':fixed-points', det)
    sl, sr = np.asarray(m.l), np.asarray(m.r)
    ok = sl.shape == sr.shape == (D, D)
    out.check(ok and abs(np.einsum('sxy,xa,sab->yb', A.conj(), sl, A) - sl).max() < 1e-5 and abs(np.einsum('sab,bc,sdc->ad', A, sr, A.conj()) - sr).max() < 1e-5
              and abs(np.trace(sl @ sr) - 1) < 1e-5, form + ':stored-environments', det)


def ops():
    from xmps.iMPS import iMPS

    def canon(h):
        def f(m, mod):
            r = m.canonicalise(h)
            assert r is m, 'canonicalise does not return its state'
            return m, (mod[0], h)
        return f

    def vidal(m, mod):
        v = m.canonicalise(to_vidal=True)
        G, L = v.data[0]
        mod = (mod[0], 'vidal', np.array(G), np.array(L))
        return v.to_iMPS(), mod

    def mixed(which):
        def f(m, mod):
            np.random.seed(3)
            AL, AR, C = m.mixed()
            res = AL if which == 'L' else AR
            return res, (mod[0], 'mixed', np.array(AL[0]), np.array(AR[0]), np.array(C))
        return f

    def cp(m, mod):
        c = m.copy()
        return c, mod[:2]

    def sl(m, mod):
        d = tempfile.mkdtemp()
        try:
            m.store(os.path.join(d, 'x'))
            return iMPS().load(os.path.join(d, 'x.npy')), (mod[0], None)
        finally:
            shutil.rmtree(d)

    def ser(real):
        def f(m, mod):
            return iMPS().deserialize(m.serialize(real), m.d, m.D, real=real), (mod[0], None)
        return f
    def seti(m, mod):
        # another state written into the same object: whatever was recorded about the old one is stale
        A = np.array(m.data[0])
        B = dn.gen(A.shape, 'iset') * .3 + .2
        m[0] = B
        return m, (B.copy(), None)

    def setg(m, mod):
        A = np.array(m.data[0])
        X = dn.gen((A.shape[1],) * 2, 'igauge') + 1.5 * np.eye(A.shape[1])
        m.data[0] = X @ A @ np.linalg.inv(X)
        return m, (mod[0], None)

    return [('setitem', None, seti), ('regauge', None, setg), ('itemwise*c', None, lambda m, mod: (m * (1.5 - .4j), (mod[0], None))),
            ('l', None, canon('l')), ('r', None, canon('r')), ('m', None, canon('m')),
            ('lc', None, lambda m, mod: (m.left_canonicalise(), (mod[0], 'l'))), ('rc', None, lambda m, mod: (m.right_canonicalise(), (mod[0], 'r'))),
            ('vidal', None, vidal), ('mixed(L)', None, mixed('L')), ('mixed(R)', None, mixed('R')), ('copy', None, cp), ('store', None, sl),
            ('serialize(0)', None, ser(False)), ('serialize(1)', None, ser(True))]


def run(case, out):
    from xmps.iMPS import iMPS, ivMPS
    if case['group'] != 'uniform':
        return globals()[case['group']](case, out)
    A0 = inf.build(case['spec'])

    def canon(m, mod):
        return dn.digest([np.asarray(x) for x in m.data]) + repr((mod[1], m.canonical)).encode()

    def visit(h, m, mod):
        det = lambda: 'spec %s history %s' % (case['spec'], list(h))
        A = np.array(m.data[0])
        last = h[-1].split('(')[0] if h else 'start'
        if not out.check(len(m.data) == 1 and A.shape == A0.shape and np.all(np.isfinite(A)), last + ':shape', det):
            return False
        out.check(m.d == A0.shape[0] and m.D == A0.shape[1] and m.period == 1, last + ':d-D-period', det)
        ref = A0 if mod[0] is None else mod[0]
        if not out.check(inf.phys_dist(A, ref) < TOL, last + ':state-changed', lambda: det() + ' %g' % inf.phys_dist(A, ref)):
            return False
        sch = inf.schmidt(ref)
        if mod[1] in ('l', 'r', 'm'):
            form_ok(out, mod[1], m, sch, det)
            out.check(m.canonical == mod[1], last + ':canonical-flag', det)
        elif mod[1] == 'vidal' and last == 'vidal':
            G, L = mod[2:]
            D = A.shape[1]
            out.check(iso(L @ G, 'l') < TOL and iso(G @ L, 'r') < TOL, 'vidal:conditions', det)
            out.check(abs(L - np.diag(np.diag(L))).max() < TOL and abs(np.sort(np.diag(L).real)[::-1] - sch).max() < 1e-5, 'vidal:schmidt', det)
        elif mod[1] == 'mixed' and last == 'mixed':
            AL, AR, C = mod[2:]
            out.check(iso(AL, 'l') < 1e-5 and iso(AR, 'r') < 1e-5, 'mixed:not-isometric', det)
            out.check(abs(AL @ C - C @ AR).max() < 1e-5, 'mixed:AL C = C AR', det)
            out.check(inf.phys_dist(AL, ref) < 1e-5 and inf.phys_dist(AR, ref) < 1e-5, 'mixed:state', det)
            s = np.linalg.svd(C, compute_uv=False)
            out.check(abs(s / np.linalg.norm(s) - sch).max() < 1e-4, 'mixed:schmidt', det)
        return True

    start = iMPS([A0.copy()])
    explore.explore(out, (start, (None, None)), ops(), canon, visit, case['depth'])
    out.sample({'spec': case['spec']})


def guess(case, out):
    """a guess for the environments is only where the iteration starts"""
    from xmps.iMPS import iMPS
    d, D, tag = case['d'], case['D'], case['tag']
    A0 = dn.gen((d, D, D), ('gu', tag), tag == 2)
    A0 = A0 / np.sqrt(inf.fixed(A0)[0])
    sch = inf.schmidt(A0)
    pos = lambda t: dn.herm(D, t) @ dn.herm(D, t) + .1 * np.eye(D)
    gs = {'eye': np.eye(D) + 0j, 'positive': pos('g1'), 'hermitian': dn.herm(D, 'g2'), 'any': dn.gen((D, D), 'g3'), 'real': np.eye(D), None: None}
    for f in 'lrm':
        for a, b in itertools.product(gs, gs):
            det = lambda: '%s hand %s guesses %s %s' % (case, f, a, b)
            m = iMPS([A0.copy()])
            out.step()
            out.state((f, a, b))
            ok, r = out.attempt('guess:canonicalise', m.canonicalise, f, gs[a], gs[b])
            if ok:
                out.trace()
                form_ok(out, f, m, sch, det)
                out.check(r is m and inf.phys_dist(np.array(m[0]), A0) < 1e-6, 'guess:state', det)
            ok, v = out.attempt('guess:to_vidal', iMPS([A0.copy()]).canonicalise, f, gs[a], gs[b], True)
            if ok:
                G, L = (np.array(x) for x in v.data[0])
                out.check(iso(L @ G, 'l') < 1e-6 and iso(G @ L, 'r') < 1e-6 and abs(np.sort(np.diag(L).real)[::-1] - sch).max() < 1e-5, 'guess:vidal', det)


def slow(case, out):
    """long correlation lengths: the iterations behind the forms need many rounds"""
    from xmps.iMPS import iMPS
    e = case['eps']
    A0 = np.array([[[1, e], [e, e]], [[e, e], [e, 1]]], complex)
    if not case['real']:
        A0 = A0 + 1j * e * dn.herm(2, 'slow') * .7 + e * .3 * dn.gen((2, 2, 2), 'slow2')
    A0 = A0 / np.sqrt(inf.fixed(A0)[0])
    sch = inf.schmidt(A0)
    det = lambda: str(case)
    out.state((e, case['real']))
    for k, tol in enumerate((None, 1e-14, 1e-12, 1e-10)):
        out.step()
        m = iMPS([A0.copy()])
        np.random.seed(k)
        ok, r = out.attempt('slow:mixed', m.mixed, *([] if tol is None else [tol]))
        if ok:
            AL, AR, C = np.array(r[0][0]), np.array(r[1][0]), np.array(r[2])
            t = 1e-8 if tol is None or tol < 1e-10 else 1e-5
            out.check(iso(AL, 'l') < 1e-8 and iso(AR, 'r') < 1e-8, 'slow:mixed:not-isometric', det)
            x, y = AL @ C, C @ AR
            out.check(abs(x - y).max() < t, 'slow:mixed:AL C = C AR', lambda: det() + ' %g' % abs(x - y).max())
            s = np.linalg.svd(C, compute_uv=False)
            out.check(abs(s / np.linalg.norm(s) - sch).max() < 10 * t, 'slow:mixed:schmidt', det)
            out.check(inf.phys_dist(AL, A0) < 1e-5 and inf.phys_dist(AR, A0) < 1e-5, 'slow:mixed:state', det)
    for f in 'lrm':
        out.step()
        m = iMPS([A0.copy()])
        ok, r = out.attempt('slow:canonicalise', m.canonicalise, f)
        if ok:
            form_ok(out, f, m, sch, det)
            out.check(inf.phys_dist(np.array(m[0]), A0) < 1e-5, 'slow:state', det)
    out.trace()


def vidal(case, out):
    from xmps.iMPS import ivMPS
    d, D, tag = case['d'], case['D'], case['tag']
    G = dn.gen((d, D, D), ('viG', tag))
    lam = np.sort(abs(dn.gen((D,), ('viL', tag), True)) + .1)[::-1]
    v = ivMPS([(G, np.diag(lam))])
    A0 = G @ np.diag(lam)
    sch = inf.schmidt(A0)
    for n in range(3):
        det = lambda: str((case, n))
        out.step()
        ok, r = out.attempt('ivMPS.canonicalise', v.canonicalise)
        if not ok:
            return
        out.trace()
        G, L = (np.array(x) for x in v.data[0])
        out.state(dn.digest([G, L]))
        out.check(iso(L @ G, 'l') < TOL and iso(G @ L, 'r') < TOL, 'ivMPS:conditions', det)
        out.check(abs(L - np.diag(np.diag(L))).max() < TOL and abs(np.sort(np.diag(L).real)[::-1] - sch).max() < 1e-5, 'ivMPS:schmidt', det)
        out.check(inf.phys_dist(np.array(v.to_iMPS()[0]), A0) < TOL, 'ivMPS:state-changed', det)
        rho = inf.rdm(A0, 1)
        for k in range(3):
            op = dn.gen((d, d), ('viop', k))
            ok, e = out.attempt('ivMPS.E', v.E, op)
            if ok:
                out.check(abs(e - np.trace(rho @ op)) < TOL, 'ivMPS:E', det)
    out.sample(case)
