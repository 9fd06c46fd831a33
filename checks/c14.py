"""C14: infinite TDVP derivative, integrators and ground-state search follow their variational equations."""
import itertools
import numpy as np
from mc import dense as dn, infin as inf

PROP, LEVEL = 'C14', 'model_checking'
BOUNDS = ('every normalised one-site infinite MPS of the alphabet (d=2,3, D=1..3 (thorough 4), complex, real, in left, right, mixed and arbitrary gauges) x Hamiltonians (Ising, XXZ+field, generic complex Hermitian, product) '
          'x every tangent direction; integrators euler/rk4 x step sizes x every step of runs of up to 4 (thorough 8) steps; ground-state search x Hamiltonians x D x learning rate, every iterate')
ASSUMPTIONS = ['states normalised to unit transfer eigenvalue and injective', 'Krylov tolerance 1e-10 of the environment solver']
TASKS_PER_CHILD = 20


def hams(d, lvl):
    X, Y, Z, I = dn.X, dn.Y, dn.Z, dn.I2
    if d != 2:
        return dict(gen=dn.herm(d * d, 'hg'))
    k = np.kron
    hs = dict(ising=k(Z, Z) + .45 * (k(X, I) + k(I, X)), gen=dn.herm(4, 'hg'),
              xxz=.3 * (k(X, X) + k(Y, Y)) + .8 * k(Z, Z) + .2 * k(Z, I) + .1 * k(I, Y))
    if lvl > 1:
        hs.update(gen2=dn.herm(4, 'hg2'), real=dn.herm(4, 'hr', True) + 0j, dm=k(X, Y) - k(Y, X) + .3 * k(Z, I), field=k(X, I) + .2 * k(I, Z))
    return hs


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for d in (2, 3):
        for D in range(1, (4 if lvl == 1 else 5) if d == 2 else (3 if lvl == 1 else 4)):
            for h in hams(d, lvl):
                for tag in range(1 if lvl == 1 else 3):
                    for form in ('raw', 'l', 'r', 'm', 'g'):
                        cs.append(dict(group='derivative', d=d, D=D, tag=tag, h=h, form=form, lvl=lvl, w=d * D))
                    if D > 1 or h != 'field':
                        cs.append(dict(group='integrate', d=d, D=D, tag=tag, h=h, lvl=lvl, w=2 * d * D))
    for h in hams(2, lvl):
        for D in (1, 2, 3) if lvl == 1 else (1, 2, 3, 4):
            for eps in (1e-2, 5e-2) if lvl == 1 else (2e-3, 1e-2, 3e-2, 6e-2):
                cs.append(dict(group='optimise', D=D, h=h, eps=eps, lvl=lvl, w=20))
    return cs


def state(case):
    from xmps.iMPS import iMPS
    f = case.get('form', 'l')
    A = inf.build(dict(kind='gen', d=case['d'], D=case['D'], tag=('c14', case['tag']), real=f == 'raw' and case['tag'] == 1, gauge=f == 'g'))
    m = iMPS([A])
    return m.canonicalise(f) if f in 'lrm' else m


def energy(A, h):
    return float(np.real(np.trace(inf.rdm(A, 2) @ h)))


def gauge_basis(A, l):
    """orthonormal tensors X with sum_s A_s^dag l X_s = 0: l[ket, bra]"""
    d, D = A.shape[:2]
    M = np.einsum('sxy,ax,sc->ycsa', A.conj(), l, np.zeros((d, 1))) if False else None
    rows = []
    M = np.zeros((D * D, d * D * D), dtype=complex)
    for i in range(d * D * D):
        X = np.zeros(d * D * D, dtype=complex)
        X[i] = 1
        X = X.reshape(d, D, D)
        M[:, i] = np.einsum('sxy,ax,sab->yb', A.conj(), l, X).reshape(-1)
    u, s, v = np.linalg.svd(M)
    k = int((s > 1e-9 * s[0]).sum())
    return M, [x.reshape(d, D, D) for x in v[k:].conj()]


def run(case, out):
    return dict(derivative=derivative, integrate=integrate, optimise=optimise)[case['group']](case, out)


def derivative(case, out):
    m = state(case)
    h = hams(case['d'], case['lvl'])[case['h']]
    A = np.array(m[0])
    det = lambda: str(case)
    eta, l, r = inf.fixed(A)
    ok, x = out.attempt('dA_dt', m.dA_dt, [h.copy()])
    if not ok:
        return
    out.trace()
    B = np.array(x[0])
    out.check(np.array_equal(A, m[0]), 'dA_dt:changes-state', det)
    if not out.check(B.shape == A.shape and np.all(np.isfinite(B)), 'dA_dt:shape', det):
        return
    out.check(abs(complex(np.squeeze(m.e)) - energy(A, h)) < 1e-6, 'dA_dt:energy', det)
    for g in (1e-6, 1e6):
        ok, y = out.attempt('dA_dt', m.dA_dt, [g * h])
        if ok:
            out.step()
            out.check(abs(np.array(y[0]) / g - B).max() < 1e-6 * max(1, abs(B).max()), 'dA_dt:not-linear-in-the-hamiltonian', lambda: det() + ' scale %g: %.3g' % (g, abs(np.array(y[0]) / g - B).max()))
    M, basis = gauge_basis(A, l)
    sc = max(1, abs(B).max())
    out.check(abs(M @ B.reshape(-1)).max() < 1e-6 * sc, 'dA_dt:not-left-gauge', det)
    ip = lambda X, Y: np.einsum('sxy,ax,sab,by->', X.conj(), l, Y, r)
    e = 1e-4
    for k, X in enumerate(basis):
        for ph in (1, 1j):
            out.step()
            out.state((k, ph))
            V = ph * X
            f = lambda t: energy(A + t * V, h)
            de = (8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * e)
            # <V| -iH> : d e / d t = 2 Re <V|H psi>, B = -i P H
            got = 2 * np.real(ip(V, 1j * B))
            out.check(abs(de - got) < 2e-5 * max(1, abs(de)), 'dA_dt:not-the-projected-derivative', lambda: '%s direction %d %s: %g != %g' % (case, k, ph, got, de))
    # environments of the hamiltonian
    for name, f, kw in (('Lh', m.Lh, {}), ('Rh', m.Rh, {}), ('Lh', m.Lh, dict(method='hybr')), ('Lh', m.Lh, dict(testing=True)), ('Rh', m.Rh, dict(method='lm')),
                        ('Rh', m.Rh, dict(testing=True)), ('Lh', m.Lh, dict(tol=1e-12)), ('Lh', m.Lh, dict(method='hybr', testing=True))):
        ok, K = out.attempt(name, f, [h.copy()], **kw)
        if ok and kw.get('testing'):
            # the equation that is solved, the environments and the solution
            if not out.check(len(K) == 4, name + ':testing', det):
                continue
            O, lt, rt, K = K
            z = O(np.concatenate([K.real.reshape(-1), K.imag.reshape(-1)]))
            out.check(np.shape(z) == (2 * case['D']**2,) and abs(z).max() < 1e-5 * max(1, abs(K).max()), name + ':residual', det)
            far = O(np.concatenate([K.real.reshape(-1) + 1, K.imag.reshape(-1)]))
            out.check(abs(far).max() > 1e-4, name + ':residual-of-a-wrong-solution', det)
            out.check(abs(np.trace(lt @ rt) - 1) < 1e-6, name + ':testing-environments', det)
        if ok:
            D = case['D']
            T = inf.tm(A)
            hh = h.reshape([case['d']] * 4)
            C = np.einsum('stuv,uab,vbc->stac', hh, A, A)
            if name == 'Lh':      # K[bra, ket]
                rhs = np.einsum('ax,sxy,tyz,stab->bz', l, A.conj(), A.conj(), C)
                ee = (rhs * r).sum()
                rhs = rhs - l * ee
                want = np.linalg.solve((np.eye(D * D) - T + np.outer(r.reshape(-1), l.reshape(-1))).T, rhs.reshape(-1)).reshape(D, D).T
                sca = np.trace(K) if False else 1
                # l and r carry a free mutual scale: compare against the code's own left environment
                _, lc, rc = m.eigs()
                want = want * (np.trace(lc) / np.trace(l))
            else:
                rhs = np.einsum('stab,by,sxz,tzy->ax', C, r, A.conj(), A.conj())
                ee = (l * rhs).sum()
                rhs = rhs - r * ee
                want = np.linalg.solve(np.eye(D * D) - T + np.outer(r.reshape(-1), l.reshape(-1)), rhs.reshape(-1)).reshape(D, D)
                _, lc, rc = m.eigs()
                want = want * (np.trace(rc) / np.trace(r))
            out.check(np.shape(K) == (D, D) and abs(K - want).max() < 1e-5 * max(1, abs(want).max()), name, det)
    out.sample(case)


def integrate(case, out):
    from xmps.iTDVP import Trajectory
    from xmps.iMPS import iMPS
    case = dict(case, form='raw')
    d, D = case['d'], case['D']
    h = hams(d, case['lvl'])[case['h']]
    H = [h]
    det = lambda: str(case)

    def der(A):
        return np.array(iMPS([A]).dA_dt(H)[0])

    def norm(A):
        return A / np.sqrt(inf.fixed(A)[0])

    def euler(A, dt):
        return A + dt * der(A)

    def rk4(A, dt):
        k1 = der(A)
        k2 = der(A + dt / 2 * k1)
        k3 = der(A + dt / 2 * k2)
        k4 = der(A + dt * k3)
        return A + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    n = 4 if case['lvl'] == 1 else 8
    A0 = np.array(state(dict(case, form='l'))[0])
    for name, f in (('euler', euler), ('rk4', rk4)):
        drift = []
        for dt in (.02, .01) if case['lvl'] == 1 else (.05, .02, .01, .005):
            # single steps
            m = iMPS([A0.copy()])
            tr = Trajectory(m, H)
            out.step()
            ok, x = out.attempt(name, getattr(tr, name), m, dt)
            if not ok:
                return
            out.trace()
            out.check(np.array_equal(m[0], A0), name + ':changes-state', det)
            A = f(A0, dt)
            out.check(inf.phys_dist(np.array(x[0]), A) < 2e-6, name + ':step', lambda: det() + ' dt %g: %g' % (dt, inf.phys_dist(np.array(x[0]), A)))
            out.check(abs(inf.fixed(np.array(x[0]))[0] - 1) < 1e-6, name + ':norm', det)
            out.check(len(tr.mps_history) == 1, name + ':history', det)
            ok, x2 = out.attempt(name, getattr(tr, name), m, dt, H, False)
            if ok:
                out.check(len(tr.mps_history) == 1, name + ':stored-though-not-asked', det)
                out.check(inf.phys_dist(np.array(x2[0]), A) < 2e-6, name + ':step-hamiltonian-given', det)
            # a hamiltonian given for one step goes before the trajectory's own
            for H0 in (None, [dn.herm(d * d, 'other')]):
                t2 = Trajectory(m, H0)
                out.step()
                ok, x2 = out.attempt(name + ':other-hamiltonian', getattr(t2, name), m, dt, H=H)
                if ok:
                    out.trace()
                    out.check(inf.phys_dist(np.array(x2[0]), A) < 2e-6, name + ':step-hamiltonian-given', det)
                    out.check(len(t2.mps_history) == 1, name + ':history', det)
            # a weak hamiltonian for a long time is a strong one for a short time
            for g in (1e-6, 1e4):
                out.step()
                ok, x2 = out.attempt(name + ':rescaled', getattr(Trajectory(m, [g * h]), name), m, dt / g)
                if ok:
                    out.check(inf.phys_dist(np.array(x2[0]), A) < 2e-6, name + ':step-rescaled', lambda: det() + ' scale %g: %.3g' % (g, inf.phys_dist(np.array(x2[0]), A)))
            # whole runs
            T = np.arange(n) * dt
            m = iMPS([A0.copy()])
            tr = Trajectory(m, H)
            ok, x = out.attempt(name + 'int', getattr(tr, name + 'int'), T)
            if not ok:
                return
            out.trace()
            if not out.check(len(tr.mps_history) == n, name + 'int:history-length', det):
                return
            cur = A0
            es, ps = [], []
            for k in range(n):
                out.step()
                S = iMPS().deserialize(tr.mps_history[k], d, D, real=True)
                B = np.array(S[0])
                ps.append(B)
                out.state(dn.digest(B))
                out.check(inf.phys_dist(B, cur) < 1e-5, name + 'int:history', lambda: det() + ' step %d dt %g: %g' % (k, dt, inf.phys_dist(B, cur)))
                es.append(energy(B, h))
                c = iMPS([f(B, dt)]).left_canonicalise()
                cur = np.array(c[0])
            out.check(inf.phys_dist(np.array(tr.mps[0]), ps[-1]) < 1e-5 or inf.phys_dist(np.array(tr.mps[0]), cur) < 1e-5, name + 'int:final-state', det)
            drift.append(abs(es[-1] - es[0]) / (n * dt))
            # energy conserved to the order of the integrator (dimensionless bounds generous for |h| ~ 1)
            hn = max(1, np.linalg.norm(h, 2))
            bound = 30 * hn**3 * dt if name == 'euler' else 100 * hn**6 * dt**4 + 2e-6 / dt
            out.check(drift[-1] < bound, name + 'int:energy-drift', lambda: det() + ' dt %g drift %g' % (dt, drift[-1]))
            if name == 'rk4':
                ok, le = out.attempt('loschmidts', tr.loschmidts)
                if ok:
                    want = []
                    for B in ps:
                        w = abs(np.linalg.eigvals(inf.tm(B, ps[0]))).max()
                        want.append(-np.log(w**2 / inf.fixed(B)[0] / inf.fixed(ps[0])[0]))
                    out.check(np.shape(np.squeeze(le)) == (n,) and abs(np.squeeze(le) - want).max() < 1e-6, 'loschmidts', det)
    out.sample(case)


def optimise(case, out):
    from xmps import iOptimize
    h = hams(2, case['lvl'])[case['h']]
    det = lambda: str(case)
    n = 60 if case['lvl'] == 1 else 250
    X = dn.kronall
    N = 8
    Hn = sum(np.kron(np.kron(np.eye(2**i), h), np.eye(2**(N - 2 - i))) for i in range(N - 1))
    lower = np.linalg.eigvalsh(Hn)[0] / (N - 1)      # Anderson bound on the energy per site
    for sd in range(2):
        np.random.seed(sd + 11)
        ok, x = out.attempt('find_ground_state', iOptimize.find_ground_state, h, case['D'], case['eps'], n, 1e-7)
        if not ok:
            return
        out.trace()
        psi, es = x
        es = [complex(np.squeeze(e)) for e in es]
        out.step(len(es))
        for k, e in enumerate(es):
            out.state((sd, round(e.real, 6)))
            out.check(abs(e.imag) < 1e-7 and e.real > lower - 1e-9, 'find_ground_state:energy-out-of-range', lambda: '%s seed %d iteration %d: %s' % (case, sd, k, e))
            if k:
                out.check(e.real <= es[k - 1].real + 1e-7, 'find_ground_state:energy-rises', lambda: '%s seed %d iteration %d: %s after %s' % (case, sd, k, e, es[k - 1]))
        A = np.array(psi[0])
        out.check(A.shape == (2, case['D'], case['D']), 'find_ground_state:shape', det)
        ef = energy(A, h)
        out.check(ef <= es[-1].real + 1e-7 and ef > lower - 1e-9, 'find_ground_state:final-energy', lambda: det() + ' %g %s' % (ef, es[-1]))
        out.check(abs(inf.fixed(A)[0] - 1) < 1e-6, 'find_ground_state:norm', det)
        out.check(len(es) <= n, 'find_ground_state:iterations', det)
        if len(es) < n:
            out.check(np.linalg.norm(case['eps'] * np.array(psi.dA_dt([h])[0])) < 1.01e-7, 'find_ground_state:stopped-early', det)
    if case['D'] == 2 and case['eps'] > 1e-2:
        # default limits: stops where the step has fallen below 1e-3
        np.random.seed(5)
        ok, x = out.attempt('find_ground_state:defaults', iOptimize.find_ground_state, h, 2)
        if ok:
            psi, es = x
            out.trace()
            out.check(len(es) <= 5000 and (len(es) == 5000 or np.linalg.norm(1e-2 * np.array(psi.dA_dt([h])[0])) < 1.001e-3), 'find_ground_state:defaults', det)
    out.sample(case)
