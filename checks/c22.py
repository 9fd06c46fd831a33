"""C22: growing the bond dimension keeps the state and gains accuracy."""
import itertools
import numpy as np
from mc import dense as dn, states as st, fops
from checks.c09 import forms, hams, dense_h, tangent_projector

PROP, LEVEL = 'C22', 'model_checking'
BOUNDS = ('every initial state of the alphabet with d^L <= 256 (thorough: 1024) x canonical form (as in C09, plus off canonical form) x '
          '(padding to every dimension up to the largest meaningful one + 1; projection error for every Hamiltonian of the alphabet and three time steps; '
          'growing by one step to every dimension with thresholds none / just below / just above the error; repeated growth to every dimension; the trajectory wrappers; copies)')
ASSUMPTIONS = ['growing is only defined where the bond matrices are invertible: Schmidt values above 1e-4',
               'one time step is judged by its derivative at dt=0, extrapolated from steps of 1e-4 and 5e-5',
               'the projection error is dt^2 times the squared norm of the part of H|psi> outside the tangent space']
TOL = 1e-6


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in st.finite_specs(lvl):
        d = s.get('d', 2)
        if d**s['L'] <= (256 if lvl == 1 else 1024):
            cs.append(dict(group='step', spec=s, lvl=lvl, w=d**s['L']))
            cs.append(dict(group='pad', spec=s, lvl=lvl, w=d**s['L'] / 4))
    return cs


def pad(case, out):
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    full = d**(L // 2)
    for fn, mk in itertools.chain(forms(data, d), [('none', lambda: fops.fresh(data)), ('mc', lambda: fops.fresh(data).mixed_canonicalise(L // 2))]):
        try:
            m0 = mk()
        except Exception:
            continue
        if not np.all(np.isfinite(dn.dense(m0.data))) or np.linalg.norm(dn.dense(m0.data)) < 1e-8:
            continue
        psi = dn.dense(m0.data)
        b = fops.bonds(m0)
        for D in range(1, min(full + 1, 10) + 1):
            want = dn.std_bonds(L, d, D)
            if any(x > y for x, y in zip(b, want)):
                continue
            cls = fn.split('(')[0]
            for via in ('mps', 'trajectory'):
                m = m0.copy()
                other = m0.copy()
                out.step()
                det = lambda: 'spec %s form %s bonds %s D %d %s' % (spec, fn, b, D, via)
                if via == 'mps':
                    ok, r = out.attempt('expand', m.expand, D)
                    if ok:
                        out.check(r is m, 'expand:not-self', det)
                else:
                    from xmps.fTDVP import Trajectory
                    t = Trajectory(m)
                    ok, r = out.attempt('Trajectory.expand', t.expand, D)
                    m = t.mps
                    if ok:
                        out.check(r is t and t.Ds[-1] == D, 'Trajectory.expand:record', det)
                        out.check(all(np.array_equal(x, y) for x, y in zip(m0.data, t.mps_0.data)), 'Trajectory.expand:initial-state-changed', det)
                if not ok:
                    continue
                out.trace()
                out.state((fn, D, via))
                out.check(fops.bonds(m) == want, 'expand:bonds', lambda: det() + ' got %s' % fops.bonds(m))
                out.check(m.D == max(want) or m.D == D, 'expand:D', lambda: det() + ' got %s' % m.D)
                p = dn.dense(m.data)
                out.check(dn.ray_dist(p, psi) < TOL, 'expand:state', lambda: det() + ' %.3g' % dn.ray_dist(p, psi))
                out.check(abs(np.linalg.norm(p) - 1) < TOL, 'expand:norm', det)
                out.check(all(np.array_equal(x, y) for x, y in zip(other.data, m0.data)), 'expand:copy-changed', det)
                if D <= 3:
                    z = np.diag(np.arange(d)).astype(complex)
                    for n in range(L):
                        ok, e = out.attempt('E after expand', m.E, z, n)
                        if ok:
                            w = np.vdot(psi, dn.apply(z, [n], psi, [d] * L)).real / np.vdot(psi, psi).real
                            out.check(abs(e - w) < TOL, 'expand:query', lambda: det() + ' site %d %s %s' % (n, e, w))


def complements(A):
    """projectors on the left/right blocks of every bond"""
    left, right = [np.ones((1, 1), dtype=complex)], [np.ones((1, 1), dtype=complex)]
    for a in A:
        left.append(np.einsum('xl,slr->xsr', left[-1], a).reshape(-1, a.shape[2]))
    for a in A[::-1]:
        right.insert(0, np.einsum('slr,rx->sxl', a, right[0].T.T if False else right[0]).reshape(-1, a.shape[1]).T)
    PL, PR = [], []
    for x in left:
        q, _ = np.linalg.qr(x)
        PL.append(q @ q.conj().T)
    for x in right:
        q, _ = np.linalg.qr(x.T)
        PR.append(q @ q.conj().T)
    return PL, PR


def steps_defined(m, fresh_h, dt, D, full, dims):
    """all steps but the last of a repeated growth leave a state with invertible bond matrices"""
    c = m.copy()
    for _ in range(len(dims) + 2):
        x = fops.maxbond(c)
        if x >= min(D, full):
            return True
        p = dn.dense(c.data)
        for i, k in enumerate(fops.bonds(c)[1:-1]):
            s = dn.schmidt(p, i + 1, dims)
            if len(s) < k or s[k - 1] < 1e-5:
                return False
        before = fops.bonds(c)
        try:
            c.dynamical_expand(fresh_h(), dt, min(dims[0] * x, D), None)
        except Exception:
            return True         # grow has to answer for that
        if fops.bonds(c) == before:
            return True
    return True


def step(case, out):
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    dims = [d] * L
    seen = set()
    N = d**L
    lvl = case['lvl']
    for fn, mk in forms(data, d):
        try:
            m = mk()
        except Exception:
            continue
        A = [np.array(x) for x in m.data]
        psi = dn.dense(A)
        if not np.all(np.isfinite(psi)) or abs(np.linalg.norm(psi) - 1) > 1e-7:
            continue
        b = fops.bonds(m)
        lam = [dn.schmidt(psi, i, dims) for i in range(1, L)]
        if any(len(s) < k or s[k - 1] < 1e-4 for s, k in zip(lam, b[1:-1])):
            continue
        key = dn.digest(A)
        if key in seen:
            continue
        seen.add(key)
        out.state(key)
        Q = tangent_projector(A)
        PL, PR = complements(A)
        cond = 1 / min(s[k - 1] for s, k in zip(lam, b[1:-1]))
        full = max(dn.std_bonds(L, d, N))
        HS = hams(L, d, case['lvl'])
        for hn, H in HS:
            M = dense_h(H, L, d)
            v = -1j * (M @ psi)
            hnorm = max(1, np.linalg.norm(v))
            tang = Q @ (Q.conj().T @ v) - psi * np.vdot(psi, v)
            perp = v - Q @ (Q.conj().T @ v)
            parts, spectra = [], []
            for i in range(L - 1):
                x = v.reshape(d**(i + 1), -1)
                x = (np.kron(PL[i], np.eye(d)) - PL[i + 1]) @ x @ (np.kron(np.eye(d), PR[i + 2]) - PR[i + 1]).T
                parts.append(x)
                spectra.append(np.linalg.svd(x, compute_uv=False))
            if not np.linalg.norm(sum(x.ravel() for x in parts) - perp) < 1e-8 * hnorm * cond:
                raise AssertionError('oracle: the complement of the tangent space is not the sum over bonds')
            err = np.linalg.norm(perp)**2
            det0 = lambda: 'spec %s form %s H %s bonds %s' % (spec, fn, hn, b)
            cls = hn.rstrip('0123456789')
            fresh_h = lambda: [h.copy() for h in H]
            # the reported error
            for dt in (0.1, 0.01, 1e-3):
                out.step()
                ok, e = out.attempt('projection_error', m.projection_error, fresh_h(), dt)
                if ok:
                    out.trace()
                    t = TOL * max(err, 1e-6 * hnorm**2) * max(1, cond)
                    out.check(np.isreal(e) and abs(e / dt**2 - err) < t, 'projection_error:%s' % cls, lambda: det0() + ' dt %g got %.6g want %.6g' % (dt, e / dt**2, err))
                    for th in (0.9 * err * dt**2, 1.1 * err * dt**2):
                        if err > 1e-6:
                            ok, s = out.attempt('should_expand', m.should_expand, fresh_h(), dt, th)
                            if ok:
                                out.check(bool(s) == (err * dt**2 > th), 'should_expand', det0)
            out.check(all(np.array_equal(x, y) for x, y in zip(m.data, A)), 'projection_error:state-changed', det0)
            if hn == 'generic':
                ok, e = out.attempt('projection_error(tensors)', m.projection_error, [h.reshape([d] * 4) for h in H], 0.1)
                if ok:
                    out.check(abs(e / 0.01 - err) < TOL * max(err, 1e-6 * hnorm**2) * max(1, cond), 'projection_error:tensors', det0)

                # only H dt matters
                for g in (1e-5, 1e5):
                    out.step()
                    ok, e = out.attempt('projection_error(rescaled)', m.projection_error, [g * h for h in H], 0.1 / g)
                    if ok:
                        out.check(abs(e / 0.01 - err) < TOL * max(err, 1e-6 * hnorm**2) * max(1, cond), 'projection_error:units', lambda: det0() + ' x %g: %.6g want %.6g' % (g, e / 0.01, err))
                    for D in (max(b) + 1, full):
                        if any(0 < D - k < len(s) and s[D - k - 1] - s[D - k] < 1e-3 * s[0] for s, k in zip(spectra, b[1:-1])):
                            continue        # equally good directions: either may be kept
                        ok, r = out.attempt('dynamical_expand(rescaled)', (lambda c: c.dynamical_expand([g * h for h in H], 1e-2 / g, D, None)), m.copy())
                        if ok:
                            e = m.copy().dynamical_expand(fresh_h(), 1e-2, D, None)
                            out.check(fops.bonds(e) == fops.bonds(r) and np.linalg.norm(dn.dense(e.data) - dn.dense(r.data)) < 1e-7 * cond**2, 'dynamical_expand:units',
                                      lambda: det0() + ' D %d x %g: bonds %s %s, apart %.3g' % (D, g, fops.bonds(e), fops.bonds(r), dn.ray_dist(dn.dense(e.data), dn.dense(r.data))))

            # one step
            Ds = list(range(1, full + 2)) if hn in ('generic', 'uniform') else [max(b), max(b) + 1, full]
            Ds = [D for D in Ds if D <= 9 or D == full] if N <= 128 or lvl > 1 else [max(b), max(b) + 1, full]
            for D in sorted(set(Ds)):
                det = lambda: det0() + ' D %d' % D
                new, got = [], None
                res = []
                for dt in (1e-4, 5e-5):
                    c = m.copy()
                    out.step()
                    ok, r = out.attempt('dynamical_expand', c.dynamical_expand, fresh_h(), dt, D, None)
                    if not ok:
                        break
                    out.check(r is c, 'dynamical_expand:not-self', det)
                    res.append((dn.dense(c.data) - psi) / dt)
                    got = c
                if got is None or len(res) < 2:
                    continue
                out.trace()
                out.check(all(np.array_equal(x, y) for x, y in zip(m.data, A)), 'dynamical_expand:copy-changed', det)
                nb = fops.bonds(got)
                out.state((hn, D, tuple(nb)))
                out.check(all(x <= max(y, D) for x, y in zip(nb, b)), 'dynamical_expand:over-request', lambda: det() + ' got %s' % nb)
                out.check(all(x >= y for x, y in zip(nb, b)), 'dynamical_expand:shrinks', lambda: det() + ' got %s' % nb)
                out.check(all(nb[i] <= d * nb[i - 1] and nb[i] <= d * nb[i + 1] for i in range(1, L)), 'dynamical_expand:over-physical-limit', lambda: det() + ' got %s' % nb)
                out.check(got.D == max(nb), 'dynamical_expand:D', lambda: det() + ' got %s %s' % (got.D, nb))
                diff = 2 * res[1] - res[0]
                # the part in the tangent space is a step of the evolution, whatever was added
                tol = 2e-4 * hnorm * cond**2
                if tol > 0.2 * hnorm:
                    continue
                q = Q @ (Q.conj().T @ diff)
                out.check(np.linalg.norm(q - tang) < tol, 'dynamical_expand:not-a-step:%s' % cls,
                          lambda: det() + ' in the tangent space: got-want %.3g, want %.3g' % (np.linalg.norm(q - tang), np.linalg.norm(tang)))
                # the new directions hold the best part of the rest
                o = diff - q
                keep = [s[:max(D - k, 0)] for s, k in zip(spectra, b[1:-1])]
                want = np.sqrt(sum(np.sum(s**2) for s in keep))
                out.check(abs(np.linalg.norm(o) - want) < tol, 'dynamical_expand:outside:%s' % cls, lambda: det() + ' |outside| got %.6g want %.6g' % (np.linalg.norm(o), want))
                rest = np.sqrt(max(err - want**2, 0))
                out.check(abs(np.linalg.norm(o - perp) - rest) < tol, 'dynamical_expand:not-best:%s' % cls,
                          lambda: det() + ' missed %.6g want %.6g of %.6g' % (np.linalg.norm(o - perp), rest, np.sqrt(err)))
                # every bond gets the directions its own part needs
                for i, (s, k, n) in enumerate(zip(spectra, b[1:-1], nb[1:-1])):
                    r = int(np.sum(s > 1e-4 * hnorm))
                    out.check(n >= min(k + r, max(D, k)), 'dynamical_expand:directions-missing', lambda: det() + ' bond %d: %d -> %d, rank %d' % (i + 1, k, n, r))
                # thresholds
                if D == max(b) + 1 and err > 1e-5:
                    for f, moves in ((0.9, True), (1.1, False)):
                        c = m.copy()
                        ok, r = out.attempt('dynamical_expand(threshold)', c.dynamical_expand, fresh_h(), 1e-2, D, f * err * 1e-4)
                        if not ok:
                            continue
                        same = all(np.array_equal(x, y) for x, y in zip(c.data, A))
                        out.check(same != moves, 'dynamical_expand:threshold', lambda: det() + ' threshold %g x error' % f)
                        out.check(r is c, 'dynamical_expand:not-self', det)
                        if moves:
                            e = m.copy().dynamical_expand(fresh_h(), 1e-2, D, None)
                            out.check(fops.bonds(e) == fops.bonds(c) and np.linalg.norm(dn.dense(e.data) - dn.dense(c.data)) < 1e-8 * cond**2, 'dynamical_expand:threshold-changes-step', det)
                    # default threshold
                    c = m.copy()
                    ok, r = out.attempt('dynamical_expand(default)', c.dynamical_expand, fresh_h(), 1e-2, D)
                    if ok and not 0.5e-8 < err * 1e-4 < 2e-8:
                        same = all(np.array_equal(x, y) for x, y in zip(c.data, A))
                        out.check(same == (err * 1e-4 < 1e-8), 'dynamical_expand:default-threshold', det)
                    from xmps.fTDVP import Trajectory
                    for how in ('own', 'given'):
                        t = Trajectory(m, H=fresh_h() if how == 'own' else None)
                        try:
                            r = t.dynamical_expand(D, 1e-2) if how == 'own' else t.dynamical_expand(D, 1e-2, fresh_h())
                        except Exception as ex:
                            out.bad('Trajectory.dynamical_expand:raises:%s' % how, det() + ' %r' % ex)
                            continue
                        e = m.copy().dynamical_expand(fresh_h(), 1e-2, D, None)
                        out.check(r is t and fops.bonds(t.mps) == fops.bonds(e) and np.linalg.norm(dn.dense(e.data) - dn.dense(t.mps.data)) < 1e-8 * cond**2,
                                  'Trajectory.dynamical_expand', det)
                        out.check(all(np.array_equal(x, y) for x, y in zip(t.mps_0.data, A)), 'Trajectory.dynamical_expand:initial-state', det)
            # repeated growth
            ok, r = out.attempt('grow(None)', (lambda c: c.grow(fresh_h(), 0.1, None)), m.copy())
            if ok:
                out.check(all(np.array_equal(x, y) for x, y in zip(r.data, A)), 'grow:None-moves', det0)
            small = min(s[k - 1] for s, k in zip(lam, b[1:-1]))
            hop = np.linalg.norm(M, 2)
            for D in sorted(set(list(range(1, min(full, 8) + 2)) + [full])):
                k, x = 0, max(b)
                while x < min(D, full):
                    k, x = k + 1, min(d * x, D)
                if k > 2 or N > 128:
                    continue        # the new directions get smaller with every step: no third one
                for dt in (1e-1, 1e-2, 1e-3) if lvl > 1 or hn == 'generic' else (1e-2,):
                    if dt > small / 3:
                        continue
                    c = m.copy()
                    if not steps_defined(m, fresh_h, dt, D, full, dims):
                        continue
                    out.step()
                    ok, r = out.attempt('grow', c.grow, fresh_h(), dt, D)
                    if not ok:
                        continue
                    det = lambda: det0() + ' D %d dt %g' % (D, dt)
                    nb = fops.bonds(c)
                    out.check(r is c, 'grow:not-self', det)
                    out.check(all(x <= max(y, D) for x, y in zip(nb, b)), 'grow:over-request', lambda: det() + ' got %s' % nb)
                    out.check(all(x >= y for x, y in zip(nb, b)), 'grow:shrinks', lambda: det() + ' got %s' % nb)
                    out.check(all(nb[i] <= d * nb[i - 1] and nb[i] <= d * nb[i + 1] for i in range(1, L)), 'grow:over-physical-limit', lambda: det() + ' got %s' % nb)
                    out.check(c.D == max(nb), 'grow:D', lambda: det() + ' got %s %s' % (c.D, nb))
                    if D <= max(b):
                        out.check(all(np.array_equal(x, y) for x, y in zip(c.data, A)), 'grow:moves-without-need', det)
                    if hn in ('generic', 'uniform'):
                        out.check(max(nb) == max(max(b), min(D, full)), 'grow:does-not-reach', lambda: det() + ' got %s' % nb)
                    p = dn.dense(c.data)
                    ch = np.linalg.norm(p - psi) / max(dt * hop * max(k, 1), 1e-9)
                    out.check(ch < 3, 'grow:more-than-the-steps', lambda: det() + ' moved %.3g |H| dt per step' % ch)
                    if k == 1 and dt == 1e-2:
                        e = m.copy().dynamical_expand(fresh_h(), dt, min(d * max(b), D), None)
                        if fops.maxbond(e) >= min(D, full):
                            out.check(fops.bonds(e) == nb and np.linalg.norm(dn.dense(e.data) - p) < 1e-8 * cond**2, 'grow:not-the-step', det)
    out.sample({'spec': spec, 'forms': len(seen)})


def run(case, out):
    {'pad': pad, 'step': step}[case['group']](case, out)
