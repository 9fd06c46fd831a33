"""C19: every placement of failures of LAPACK's fast SVD (gesdd reporting info > 0) in every operation."""
import copy, itertools, warnings
import numpy as np
from mc import dense as dn, states as st, fops

PROP, LEVEL = 'C19', 'fault_enumeration'
BOUNDS = ('wrapper: every shape up to 4x4 (thorough 6x6) x real/complex/single precision x rank x every option x {no failure, failure}. Operations: every gauge, query, state-changing, '
          'truncating and constructing operation of a finite MPS from each initial state, and short trajectories; with n decompositions in the undisturbed run: every single failing one, '
          'every pair (n<=8; thorough n<=14), every prefix, every suffix, all; double failure (both routines). Non-finite entries: every site x {nan, inf, -inf} x every operation')
ASSUMPTIONS = ['a failing gesdd destroys its input when it was allowed to overwrite it and returns garbage', 'scipy.linalg calls LAPACK through scipy.linalg._decomp_svd.get_lapack_funcs',
               'operations that decompose through scipy.linalg directly (null spaces, polar factors) may report the failure instead of recovering']
RULE = ('one execution per (operation, initial state, set of failing decompositions); non-trivial and distinct: the set is not empty, every failure in it was actually reached, and the '
        'triple was not executed before')
TOL = 1e-6


class Faults:
    """makes chosen calls of gesdd (and gesvd) fail the way LAPACK does"""

    def __init__(self, fast=(), slow=False):
        self.fast, self.slow, self.n, self.hit, self.slow_n = fast, slow, 0, 0, 0

    def __enter__(self):
        from scipy.linalg import _decomp_svd as ds
        self.ds, self.orig = ds, ds.get_lapack_funcs

        def get(names, *a, **k):
            fs = self.orig(names, *a, **k)
            if names[0] not in ('gesdd', 'gesvd'):
                return fs
            return [self.wrap(fs[0], names[0])] + list(fs[1:])
        ds.get_lapack_funcs = get
        return self

    def __exit__(self, *a):
        self.ds.get_lapack_funcs = self.orig

    def wrap(self, f, name):
        def g(a1, **k):
            if name == 'gesdd':
                i = self.n
                self.n += 1
                fail = self.fast == 'all' or i in self.fast
            else:
                self.slow_n += 1
                fail = self.slow
            if not fail:
                return f(a1, **k)
            self.hit += 1
            u, s, v, info = f(np.array(a1), **dict(k, overwrite_a=False))
            if k.get('overwrite_a') and isinstance(a1, np.ndarray) and a1.flags.writeable:
                a1[...] = -7.25          # destroyed
            return np.full_like(u, .5), np.full_like(s, .25), np.full_like(v, .5), 3
        return g


def fault_sets(n, lvl):
    seen = set()
    one = [(i,) for i in range(n)]
    pairs = list(itertools.combinations(range(n), 2)) if n <= (8 if lvl == 1 else 14) else []
    pre = [tuple(range(i)) for i in range(1, n + 1)]
    suf = [tuple(range(i, n)) for i in range(n)]
    alt = [tuple(range(0, n, 2)), tuple(range(1, n, 2))]
    for f in one + pairs + pre + suf + alt:
        if f and f not in seen:
            seen.add(f)
            yield f
    yield 'all'


def specs(lvl):
    keep = []
    for s in st.finite_specs(lvl):
        if s['L'] > 5:
            continue
        if s.get('tag') == 'all' and lvl == 1 and s['bonds'] not in ([1, 2, 3, 1], [1, 3, 1, 1], [1, 1, 3, 1]):
            continue
        if lvl == 1 and (s['L'] == 5 and s['kind'] != 'bonds' or s['kind'] == 'bell' and not s.get('rot')):
            continue
        keep.append(s)
    return keep


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    N = 4 if lvl == 1 else 6
    cs = [dict(group='wrapper', m=m, n=n, w=1) for m in range(1, N + 1) for n in range(1, N + 1)]
    cs += [dict(group='operations', spec=s, lvl=lvl, w=s['L']**2) for s in specs(lvl)]
    cs += [dict(group='nonfinite', spec=s, w=s['L']) for s in specs(1) if s['L'] <= 4 and s['kind'] in ('bonds', 'product', 'ghz') and s.get('tag') in (None, 2, 3, 'd3')]
    cs += [dict(group='trajectory', L=L, d=d, integ=i, lvl=lvl, w=30) for L, d in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3)) for i in ('edint', 'eulerint', 'rk4int')]
    return cs


def run(case, out):
    globals()['g_' + case['group']](case, out)
    out.sample(case)


def g_wrapper(case, out):
    from xmps import svd_robust as sr
    m, n = case['m'], case['n']
    k = min(m, n)
    mats = []
    for real in (True, False):
        for rk in range(0, k + 1):
            mats.append(('rank%d real%s' % (rk, real), np.array(dn.gen((m, rk), 'sA', real) @ dn.gen((rk, n), 'sB', real))))
        mats.append(('full real%s' % real, np.array(dn.gen((m, n), 'sF', real))))
        mats.append(('tiny real%s' % real, 1e-9 * np.array(dn.gen((m, n), 'sF', real))))
        mats.append(('graded real%s' % real, np.array(dn.gen((m, n), 'sF', real)) * 10.**-np.arange(0, 3 * n, 3)))
    mats.append(('eye', np.eye(m, n)))
    mats.append(('int', np.arange(m * n).reshape(m, n)))
    mats.append(('single', np.array(dn.gen((m, n), 'sF', True)).astype(np.float32)))
    mats.append(('csingle', np.array(dn.gen((m, n), 'sF')).astype(np.complex64)))
    mats.append(('fortran', np.asfortranarray(dn.gen((m, n), 'sF'))))
    for nm, A in mats:
        s0 = np.linalg.svd(np.array(A, dtype=complex), compute_uv=False)
        eps = 1e-5 if 'single' in nm else 1e-10
        scale = max(1e-12, s0[0])
        for full, uv, ov, fin, drv, fault, warn in itertools.product((True, False), (True, False), (True, False), (True, False), ('gesdd', 'gesvd'), (False, True), (True, False)):
            B = A.copy(order='K')
            tag = 'svd:%s:%s' % (drv, 'failing' if fault else 'fine')
            det = lambda: '%dx%d %s full=%s uv=%s overwrite=%s finite=%s warn=%s' % (m, n, nm, full, uv, ov, fin, warn)
            out.step()
            out.state((nm, full, uv, ov, fin, drv, fault, warn))
            with Faults('all' if fault else ()) as F, warnings.catch_warnings(record=True) as W:
                warnings.simplefilter('always')
                ok, r = out.attempt(tag, sr.svd, B, full_matrices=full, compute_uv=uv, overwrite_a=ov, check_finite=fin, lapack_driver=drv, warn=warn)
            if not ok:
                continue
            out.trace()
            out.check(F.hit == (1 if fault and drv == 'gesdd' else 0), tag + ':calls', lambda: det() + ' %d' % F.hit)
            W = [w for w in W if 'gesdd' in str(w.message)]
            out.check(len(W) == (1 if F.hit and warn else 0), tag + ':warning', det)
            if drv == 'gesdd' or not ov:
                out.check(np.array_equal(A, B), tag + ':input-changed', det)
            if uv:
                U, s, V = r
                if out.check(U.shape == ((m, m) if full else (m, k)) and V.shape == ((n, n) if full else (k, n)) and s.shape == (k,), tag + ':shapes', det):
                    out.check(abs(U.conj().T @ U - np.eye(U.shape[1])).max() < 1e-5 and abs(V @ V.conj().T - np.eye(len(V))).max() < 1e-5, tag + ':isometry', det)
                    out.check(abs((U[:, :k] * s) @ V[:k] - A).max() < eps * scale, tag + ':product', det)
            else:
                s = r
            out.check(np.shape(s) == (k,) and abs(s - s0).max() < eps * scale and (np.diff(s) <= 0).all() and (s >= 0).all(), tag + ':values', det)
        # both routines fail: reported, not hidden
        out.step()
        with Faults('all', slow=True):
            try:
                sr.svd(A.copy(), full_matrices=False, warn=False)
                out.check(False, 'svd:double-failure-hidden', nm)
            except np.linalg.LinAlgError:
                out.check(True, '')
        for bad in (np.nan, np.inf, -np.inf):
            for i in range(m):
                for j in range(n):
                    B = np.array(A, dtype=complex if np.iscomplexobj(A) else float)
                    B[i, j] = bad
                    for drv, fault in (('gesdd', False), ('gesdd', True), ('gesvd', False)):
                        out.step()
                        with Faults('all' if fault else ()):
                            try:
                                sr.svd(B, lapack_driver=drv)
                                out.check(False, 'svd:nonfinite-accepted', '%s %s' % (nm, bad))
                            except (ValueError, np.linalg.LinAlgError):
                                out.check(True, '')
    for bad in ('gesxx', '', None):
        try:
            sr.svd(np.eye(2), lapack_driver=bad)
            out.check(False, 'svd:unknown-driver-accepted', repr(bad))
        except Exception:
            out.check(True, '')


def truncations(L):
    ops = []

    def a(name, f):
        ops.append((name, None, f))
    for D in (1, 2):
        for side in ('right', 'left'):
            other = {'right': 'left', 'left': 'right'}[side]
            a('%s_canonicalise(D=%d)' % (side, D), lambda m, v, s=side, o=other, D=D: (getattr(getattr(m, o + '_canonicalise')(), s + '_canonicalise')(D=D), v))
        for i in (0, L - 2):
            a('apply_two_site(%d,D=%d)' % (i, D), lambda m, v, i=i, D=D: (m.mixed_canonicalise(i).apply_two_site((dn.unitary(m.d**2, 'U'), (i, i + 1)), 'l', D), v))
    return ops


def constructors(psi, L, d):
    from xmps.fMPS import fMPS
    t = lambda: psi.reshape([d] * L).copy()
    return [('left_from_state', None, lambda m, v: (fMPS().left_from_state(t()), v)), ('right_from_state', None, lambda m, v: (fMPS().right_from_state(t()), v))]


def via_scipy(e):
    """the failing decomposition was asked for by another routine of scipy (null_space, polar, ...)"""
    import traceback
    fs = traceback.extract_tb(e.__traceback__)
    k = [i for i, f in enumerate(fs) if f.name == 'svd' and 'scipy' in f.filename]
    return bool(k) and 'scipy' in fs[k[-1] - 1].filename


def g_operations(case, out):
    spec, lvl = case['spec'], case['lvl']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    psi = dn.dense(data)
    dead = any(data[i].shape[1] > (dn.schmidt(psi, i, [d] * L) > 1e-9).sum() for i in range(1, L))      # directions of no weight: which of them are dropped is up to rounding
    degenerate = spec['kind'] in ('ghz', 'bell', 'w', 'ghzraw', 'dup')
    ops = fops.gauge_ops(L, lvl) + fops.query_ops(L, 1) + fops.change_ops(L, d) + constructors(psi, L, d)
    if not degenerate:
        ops += truncations(L)
    herm = dn.herm(d, 'o')
    for name, en, f in ops:
        m0 = fops.fresh(data)
        if en is not None and not en(m0, psi):
            continue

        def go(faults, slow=False):
            m = fops.fresh(data)
            with Faults(faults, slow) as F:
                r, _ = f(m, psi)
            return F, r
        cls = name.split('(')[0]
        out.step()
        try:
            F, ref = go(())
        except Exception:
            continue            # other checks report operations that fail undisturbed
        n = F.n
        v0 = dn.dense(ref.data)
        ent0 = [dn.schmidt(v0, i, [d] * L) for i in range(1, L)]
        for fs in fault_sets(n, lvl) if n else ():
            out.step()
            try:
                F, m = go(fs)
            except np.linalg.LinAlgError as e:
                out.check(via_scipy(e), 'failure-not-recovered:' + cls, lambda: 'spec %s %s failing %s: %r' % (spec, name, fs, e))
                continue
            except Exception as e:
                out.bad('raised:%s:%s' % (cls, type(e).__name__), 'spec %s %s failing %s: %r' % (spec, name, fs, e))
                continue
            if F.hit:
                out.state((name, fs))
            out.trace()
            det = lambda: 'spec %s %s failing %s' % (spec, name, fs)
            v = dn.dense(m.data)
            if not out.check(np.isfinite(v).all() and v.shape == v0.shape and dn.ray_dist(v, v0) < TOL, 'state-differs:' + cls, det):
                continue
            out.check(abs(np.vdot(v, v) - np.vdot(v0, v0)) < TOL * max(1, abs(np.vdot(v0, v0))), 'norm-differs:' + cls, det)
            out.check(m.oc == ref.oc and m.canonical == ref.canonical and m.orthogonal == ref.orthogonal and (m.D == ref.D or dead) if hasattr(ref, 'oc') and hasattr(ref, 'canonical') else True, 'record-differs:' + cls, det)
            if getattr(ref, 'canonical', False) and hasattr(ref, 'Ls') and hasattr(m, 'Ls') and not degenerate:
                for a, b in zip(m.Ls, ref.Ls):
                    a, b = np.sort(np.abs(np.diag(a)))[::-1], np.sort(np.abs(np.diag(b)))[::-1]
                    k = min(len(a), len(b))
                    out.check(abs(a[:k] - b[:k]).max() < TOL, 'schmidt-values-differ:' + cls, det)
            for s in (0, L - 1):
                ok, e = out.attempt('E-after:' + cls, copy.deepcopy(m).E, herm, s)
                if ok:
                    out.check(abs(e - dn.expect(herm, [s], v0, [d] * L).real) < TOL * 10, 'observable-differs:' + cls, det)
        if n:       # both routines fail: an error comes out
            out.step()
            try:
                go('all', slow=True)
                out.check(False, 'double-failure-hidden:' + cls, lambda: '%s %s' % (spec, name))
            except np.linalg.LinAlgError:
                out.check(True, '')
            except Exception as e:
                out.bad('double-failure:%s:%s' % (cls, type(e).__name__), '%s %s' % (spec, name))


def g_nonfinite(case, out):
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    psi = dn.dense(data)
    # operations which discard the tensors they find have nothing to report
    ops = [o for o in fops.gauge_ops(L, 1) + fops.change_ops(L, d) + truncations(L)
           if not o[0].startswith(('setitem', 'random', 'left_from_state', 'right_from_state'))]
    for name, en, f in ops:
        for s in range(L):
            for bad in (np.nan, np.inf, -np.inf):
                for pos in (0, -1):
                    x = [a.copy() for a in data]
                    x[s].flat[pos] = bad
                    m = fops.fresh(x)
                    out.step()
                    try:
                        if en is not None and not en(m, psi):
                            continue
                        r, _ = f(m, psi)
                    except Exception:
                        out.check(True, '')
                        out.state((name, s, repr(bad), pos, 'reported'))
                        continue
                    out.state((name, s, repr(bad), pos, 'carried'))
                    out.trace()
                    with np.errstate(all='ignore'):
                        v = dn.dense(r.data)
                    out.check(not np.isfinite(v).all(), 'nonfinite-hidden:' + name.split('(')[0], lambda: '%s %s site %d %s' % (spec, name, s, bad))
    for s in range(d**L) if d**L <= 32 else (0, d**L - 1):
        for bad in (np.nan, np.inf):
            v = psi.copy()
            v[s] = bad
            for nm, _, f in constructors(v, L, d):
                out.step()
                try:
                    f(None, None)
                    out.check(False, 'nonfinite-accepted:' + nm, '%s' % spec)
                except Exception:
                    out.check(True, '')


def g_trajectory(case, out):
    from xmps.fTDVP import Trajectory
    from xmps.fMPS import fMPS
    L, d, integ, lvl = case['L'], case['d'], case['integ'], case['lvl']
    H = [dn.herm(d * d, ('h', i)) for i in range(L - 1)]
    data = dn.mps_from_bonds(dn.std_bonds(L, d, 2), d, 'traj')
    T = np.array([0., .05, .1])

    def go(faults):
        m = fMPS([x.copy() for x in data]).left_canonicalise()
        with Faults(faults) as F:
            # one decomposition may fail anywhere in the evolution
            tr = Trajectory(m, H=[h.copy() for h in H])
            getattr(tr, integ)(T)
            final = copy.deepcopy(tr.mps)
        return F, final
    ok, r = out.attempt('undisturbed:' + integ, go, ())
    if not ok:
        return
    F, ref = r
    v0 = dn.dense(ref.data)
    n = F.n
    sets = [f for f in fault_sets(n, lvl) if lvl > 1 or len(f) <= 2 or f == 'all' or n <= 12]
    if len(sets) > (160 if lvl == 1 else 2000):
        sets = [f for f in sets if len(f) == 1 or f == 'all']
    for fs in sets if n else ():
        out.step()
        try:
            F, m = go(fs)
        except np.linalg.LinAlgError as e:
            out.check(via_scipy(e), 'trajectory:failure-not-recovered:' + integ, lambda: '%s failing %s of %d: %r' % (case, fs, n, e))
            continue
        except Exception as e:
            out.bad('trajectory:%s:%s' % (integ, type(e).__name__), '%s failing %s of %d: %r' % (case, fs, n, e))
            continue
        out.trace()
        if F.hit:
            out.state(fs)
        v = dn.dense(m.data)
        out.check(dn.ray_dist(v, v0) < TOL and abs(np.vdot(v, v) - np.vdot(v0, v0)) < TOL, 'trajectory-differs:' + integ, lambda: '%s failing %s of %d' % (case, fs, n))
