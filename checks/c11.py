"""C11: finite trajectories integrate the TDVP flow and report what they visited."""
import os, tempfile
import numpy as np
from scipy.linalg import expm
from mc import dense as dn, states as st, fops, flow as fl

PROP, LEVEL = 'C11', 'model_checking'
BOUNDS = ('flow: every initial state of a finite alphabet (products, all inner bonds <= 2 for L=3, standard and non-standard bonds, Bell pairs, L=2..4 (thorough: 5), d=2,3; given raw or in canonical form) x Hamiltonian '
          '(generic terms, one bond, fields, full matrix) x integrator (euler, rk4, ed, odeint) x time grid (uniform and not, three refinements); '
          'histories: every sequence of up to 2 (thorough: 3) calls from {eulerint, rk4int, edint, odeint, contract, expand, clear, copy} with every query after each; '
          'lyapunov: every state of an alphabet x initial basis; stop/resume/save in a scratch directory')
ASSUMPTIONS = ['integrators that need the absent xmps.tdvp package (invfree*, mps_OTOC, ts_int, lyapunov with an MPO) cannot run here',
               'order of accuracy is read from three step sizes against a dense reference flow',
               'flow: initial states whose Schmidt values are above 0.02; histories: TDVP steps are taken from states whose Schmidt values at their bonds are above 1e-3']


def alphabet(lvl):
    S = [dict(kind='product', L=L) for L in (2, 3, 4)]
    S += [dict(kind='bell', L=L, rot=1) for L in (2, 4)]
    S += [dict(kind='w', L=3, rot=1), dict(kind='ghz', L=3, rot=1), dict(kind='ghz', L=3, rot=1, d=3)]
    for b in st.all_bonds(3, 2):
        S.append(dict(kind='bonds', d=2, bonds=b, L=3, tag='all'))
    S.append(dict(kind='bonds', d=2, bonds=[1, 2, 1], L=2, tag='a'))
    S.append(dict(kind='bonds', d=3, bonds=[1, 2, 1], L=2, tag='a'))
    S.append(dict(kind='bonds', d=3, bonds=[1, 3, 1], L=2, tag='a'))
    S.append(dict(kind='bonds', d=3, bonds=[1, 2, 2, 1], L=3, tag='a'))
    for D in (2, 3, 4):
        S.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(4, 2, D), L=4, tag=D))
    S.append(dict(kind='bonds', d=2, bonds=[1, 1, 2, 2, 1], L=4, tag='n'))
    S.append(dict(kind='bonds', d=2, bonds=[1, 2, 2, 1, 1], L=4, tag='n'))
    if lvl > 1:
        S.append(dict(kind='product', L=5))
        for D in (2, 3, 4):
            S.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(5, 2, D), L=5, tag=D))
        S.append(dict(kind='bonds', d=2, bonds=[1, 2, 1, 2, 1], L=4, tag='n'))
        S.append(dict(kind='bonds', d=2, bonds=[1, 2, 3, 2, 2, 1], L=5, tag='n'))
        S.append(dict(kind='bonds', d=3, bonds=[1, 3, 3, 1], L=3, tag='a'))
        S.append(dict(kind='bonds', d=4, bonds=[1, 3, 1], L=2, tag='a'))
        for b in st.all_bonds(4, 2):
            S.append(dict(kind='bonds', d=2, bonds=b, L=4, tag='all'))
    return S


def hams(L, d, lvl):
    n = L - 1
    yield 'generic', [dn.herm(d * d, ('h', i)) for i in range(n)]
    for b in sorted({0, n - 1}):
        yield 'bond', [dn.herm(d * d, ('hb', i)) * (i == b) for i in range(n)]
    yield 'fields', [np.kron(dn.herm(d, ('f', i)), np.eye(d)) + (np.kron(np.eye(d), dn.herm(d, ('f', n))) if i == n - 1 else 0) for i in range(n)]


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in alphabet(lvl):
        cs.append(dict(group='flow', spec=s, lvl=lvl, w=4 + s['L']**2))
    hist = [dict(kind='product', L=3), dict(kind='bell', L=4, rot=1), dict(kind='bonds', d=2, bonds=[1, 2, 2, 1], L=3, tag='all'),
            dict(kind='bonds', d=3, bonds=[1, 2, 2, 1], L=3, tag='a'), dict(kind='bonds', d=2, bonds=[1, 2, 4, 2, 1], L=4, tag=4)]
    for s in hist:
        for a in OPS:
            cs.append(dict(group='histories', spec=s, first=a, lvl=lvl, w=10))
    for s in [dict(kind='product', L=2), dict(kind='product', L=3), dict(kind='bonds', d=2, bonds=[1, 2, 2, 1], L=3, tag='all'),
              dict(kind='bonds', d=2, bonds=[1, 2, 1], L=2, tag='a'), dict(kind='bonds', d=2, bonds=[1, 2, 2, 2, 1], L=4, tag='a'),
              dict(kind='bonds', d=2, bonds=[1, 2, 4, 2, 1], L=4, tag=4), dict(kind='bonds', d=3, bonds=[1, 2, 1], L=2, tag='a')] + \
            ([dict(kind='product', L=4), dict(kind='bonds', d=2, bonds=dn.std_bonds(5, 2, 2), L=5, tag=2)] if lvl > 1 else []):
        cs.append(dict(group='lyapunov', spec=s, lvl=lvl, w=30))
    for s in hist:
        cs.append(dict(group='otoc', spec=s, lvl=lvl, w=2))
    return cs


def traj(m, H, **k):
    from xmps.fTDVP import Trajectory
    return Trajectory(m, [h.copy() for h in H] if isinstance(H, list) else H.copy(), **k)


def good(psi, dims, cut=0.02):
    s = [dn.schmidt(psi, i, dims) for i in range(1, len(dims))]
    return all(x[x > 1e-9].min() > cut for x in s)


def start(spec, form):
    data = st.build(spec)
    m = fops.fresh(data)
    if form == 'raw':
        m.data[0] = m.data[0] / np.linalg.norm(dn.dense(m.data))
        return m
    if form == 'norm-raw':
        return m
    return getattr(m, form + '_canonicalise')()


def run(case, out):
    globals()[case['group']](case, out)


# -- the flow --------------------------------------------------------------------------------------------------------
def flow(case, out):
    spec, lvl = case['spec'], case['lvl']
    d, L = spec.get('d', 2), spec['L']
    dims = [d] * L
    psi0 = dn.dense(st.build(spec))
    psi0 = psi0 / np.linalg.norm(psi0)
    if not good(psi0, dims):
        out.state('skipped')
        return
    tf = 0.32
    forms = ('raw', 'left', 'right') if lvl > 1 else ('raw', 'right')
    for hn, H in hams(L, d, lvl):
        M = fl.dense_h(H, d)
        H = [h * (0.8 / np.linalg.norm(M, 2)) * L for h in H]
        M = fl.dense_h(H, d)
        variants = [(hn, H, {})]
        if hn == 'generic':
            variants.append(('full', M, dict(fullH=True)))
        # grids: uniform, and one with three different steps; refined by halving
        grids = {'uniform': lambda n: np.linspace(0, tf, n + 1),
                 'uneven': lambda n: np.cumsum(np.r_[0.1, np.repeat([1, 2, 0.5], [n // 2, n // 4, n // 4]) * tf / n])}
        for gn, grid in grids.items():
            if lvl == 1 and gn == 'uneven' and hn not in ('generic', 'full'):
                continue
            ref = {}
            for n in (8, 16, 32):
                T = grid(n)
                ref[n] = (T, fl.flow(psi0, M, dims, T), [expm(-1j * M * (t - T[0])) @ psi0 for t in T])
            full = fl.ranks(psi0, dims) == [min(d**min(i, L - i), d**L) for i in range(1, L)]
            for vn, Hv, kw in variants:
                for form in forms:
                    if form != 'raw' and (gn == 'uneven' or vn != 'generic') and lvl == 1:
                        continue
                    for meth, orders in (('eulerint', (8, 16, 32)), ('rk4int', (8, 16)), ('edint', (8,)), ('odeint', (16,))):
                        key = '%s:%s:%s' % (meth, vn, gn)
                        errs = []
                        for n in orders:
                            T, want, exact = ref[n]
                            if meth == 'edint':
                                want = exact
                            t = traj(start(spec, form), Hv, **kw)
                            out.step()
                            ok, r = out.attempt(key, getattr(t, meth), T.copy())
                            if not ok:
                                return
                            out.trace(len(T))
                            out.state((form, meth, vn, gn, n))
                            det = lambda: 'spec %s form %s H %s grid %s n %d' % (spec, form, vn, gn, n)
                            out.check(r is t, 'returns-itself:' + meth, det)
                            ok, ms = out.attempt('mps_list:' + meth, t.mps_list)
                            if not ok:
                                return
                            if not out.check(len(ms) == len(T), 'one-state-per-time:' + meth, lambda: det() + ' %d of %d' % (len(ms), len(T))):
                                return
                            vs = [dn.dense(m.data) for m in ms]
                            if not out.check(all(v.shape == psi0.shape and np.all(np.isfinite(v)) for v in vs), 'history-shape:' + meth, det):
                                return
                            ntol = 2e-2 if meth == 'odeint' else 1e-8
                            out.check(all(abs(np.linalg.norm(v) - 1) < ntol for v in vs), 'normalised:' + meth, det)
                            out.check(dn.ray_dist(dn.dense(t.mps.data), vs[-1]) < 1e-7, 'final-state:' + meth, det)
                            out.check(dn.ray_dist(vs[0], psi0) < 1e-7, 'initial-state:' + meth, det)
                            mb = max(fl.ranks(psi0, dims))
                            if meth != 'edint':
                                out.check(all(max(fl.ranks(v, dims, 1e-6)) <= mb for v in vs), 'bond-dimension:' + meth, det)
                            errs.append(np.array([dn.ray_dist(v, w) for v, w in zip(vs, want)]))
                            if full and meth == 'rk4int' and n == 16:
                                e = max(dn.ray_dist(v, w) for v, w in zip(vs, exact))
                                out.check(e < 1e-4, 'exact-when-unrestricted:' + key, lambda: det() + ' error %.3g' % e)
                        if gn == 'uniform' and vn in ('generic', 'full') and form == 'raw':
                            # a weak Hamiltonian for a long time does what a strong one does in a short one
                            T, want, exact = ref[orders[0]]
                            for g in (1e-6, 1e5):
                                t = traj(start(spec, form), [g * h for h in Hv] if isinstance(Hv, list) else g * Hv, **kw)
                                out.step()
                                ok, r = out.attempt(key + ':rescaled', getattr(t, meth), T / g)
                                ok, ms = out.attempt('mps_list:' + meth, t.mps_list) if ok else (ok, None)
                                if ok and out.check(len(ms) == len(T), 'one-state-per-time:' + meth, det):
                                    e = np.array([dn.ray_dist(dn.dense(m.data), w) for m, w in zip(ms, exact if meth == 'edint' else want)])
                                    out.check(abs(e - errs[0]).max() < (2e-2 if meth == 'odeint' else 1e-6), 'depends-on-units:' + key, lambda: 'spec %s H %s x %g: %s %s' % (spec, vn, g, e, errs[0]))
                        E = [e.max() for e in errs]
                        edet = lambda: 'spec %s form %s H %s grid %s errors %s' % (spec, form, vn, gn, E)
                        if meth == 'edint':
                            out.check(E[0] < 1e-6, 'exact:' + key, edet)
                        elif meth == 'odeint':
                            out.check(E[0] < 2e-2, 'follows-flow:' + key, edet)
                        elif meth == 'eulerint':
                            # first order: every record within C dt of the flow, C from the coarsest step
                            out.check(E[0] < 0.6 and E[1] < E[0] / 1.5 + 1e-7 and E[2] < E[1] / 1.6 + 1e-7, 'order:' + key, edet)
                        else:
                            out.check(E[0] < 5e-2 and E[1] < E[0] / 9 + 2e-7, 'order:' + key, edet)
    out.sample({'spec': spec, 'final': [round(float(x.real), 5) for x in psi0[:4]]})


# -- histories of calls ----------------------------------------------------------------------------------------------
OPS = ('euler', 'rk4', 'ed', 'ode', 'contract', 'expand', 'clear', 'copy')
GRID = {'euler': np.array([0, 0.02, 0.05]), 'rk4': np.array([0.1, 0.13, 0.15, 0.2]), 'ed': np.array([0, 0.1, 0.15]), 'ode': np.linspace(0, 0.06, 4)}


class Model:
    """what a trajectory should hold: the states visited since the last clear, as dense vectors, and the current state"""

    def __init__(self, psi, d, L):
        self.psi0, self.psi, self.mps, self.ed = psi, psi, [], None
        self.d, self.L = d, L

    def clone(self):
        m = Model(self.psi0, self.d, self.L)
        m.psi, m.mps, m.ed = self.psi, list(self.mps), self.ed
        return m

    def records(self):
        return self.mps if self.mps else self.ed


def steps(t0, meth, T, H):
    """the records of a run, by single steps asked one at a time of a fresh trajectory from the same current state"""
    t = traj(t0.mps.copy(), H)
    m = t.mps.left_canonicalise()
    out = []
    for dt in list(np.diff(T)) + [None]:
        out.append(dn.dense(m.data))
        if dt is not None:
            m = getattr(t, meth)(m, dt, store=False)
    return out


def histories(case, out):
    spec, lvl = case['spec'], case['lvl']
    d, L = spec.get('d', 2), spec['L']
    dims = [d] * L
    H = [dn.herm(d * d, ('h', i)) / d for i in range(L - 1)]
    M = fl.dense_h(H, d)
    depth = 2 if lvl == 1 else 3
    seq0 = [case['first']]

    def apply(op, t, mod):
        """-> new trajectory, new model, or None when the call is not possible there"""
        key = 'history:' + op
        if op in GRID:
            T = GRID[op]
            b = fops.bonds(t.mps)
            if op != 'ed' and any(len(x) < k or x[k - 1] < 1e-3 for x, k in ((dn.schmidt(mod.psi, i, dims), b[i]) for i in range(1, L))):
                return None     # vanishing Schmidt values: the flow on that manifold is not defined
            if op == 'ed':
                want = [expm(-1j * M * (x - T[0])) @ mod.psi for x in T]
                tol = 1e-7
            elif op == 'ode':
                want = fl.flow(mod.psi, M, dims, T)
                tol = 1e-2
            else:
                want = steps(t, op, T, H)
                tol = 1e-6
            ok, _ = out.attempt(key, getattr(t, {'euler': 'eulerint', 'rk4': 'rk4int', 'ed': 'edint', 'ode': 'odeint'}[op]), T.copy())
            if not ok:
                return None
            if op == 'ed':
                got = list(t.ed_history)
                mod.ed = want
                out.check(len(got) == len(T), 'ed-history-length', str(spec))
            else:
                n = len(mod.mps)
                out.check(len(t.mps_history) == n + len(T), 'history-length:' + op, '%s %d' % (spec, len(t.mps_history)))
                got = [dn.dense(m.data) for m in t.mps_list()[n:]]
                mod.mps = mod.mps + [np.array(x) for x in got]
            e = [dn.ray_dist(a, b) for a, b in zip(got, want)]
            out.check(len(got) == len(want) and max(e) < tol, 'history-states:' + op, lambda: '%s %s %s' % (spec, seq, e))
            mod.psi = dn.dense(t.mps.data)
            out.check(dn.ray_dist(mod.psi, got[-1]) < 1e-7, 'current-state:' + op, lambda: '%s %s' % (spec, seq))
        elif op == 'contract':
            if max(fops.bonds(t.mps)) < 2:
                return None
            ok, _ = out.attempt(key, t.contract, max(fops.bonds(t.mps)) - 1)
            if not ok:
                return None
            mod.psi = dn.dense(t.mps.data)
            out.check(max(fops.bonds(t.mps)) == t.Ds[-1], 'contract-D', lambda: '%s %s %s' % (spec, seq, t.Ds))
        elif op == 'expand':
            D = max(fops.bonds(t.mps)) + 1
            b = dn.std_bonds(L, d, D)
            if any(x > y for x, y in zip(fops.bonds(t.mps), b)) or D > d**(L // 2):
                return None
            ok, _ = out.attempt(key, t.expand, D)
            if not ok:
                return None
            out.check(dn.ray_dist(dn.dense(t.mps.data), mod.psi) < 1e-7, 'expand-keeps-state', lambda: '%s %s' % (spec, seq))
            mod.psi = dn.dense(t.mps.data)
        elif op == 'clear':
            ok, _ = out.attempt(key, t.clear)
            if not ok:
                return None
            mod.mps, mod.ed, mod.psi = [], None, mod.psi0
            out.check(dn.ray_dist(dn.dense(t.mps.data), mod.psi0) < 1e-8, 'clear-restores-initial-state', lambda: '%s %s' % (spec, seq))
            out.check(len(t.mps_history) == 0 and list(t.Ds) == [t.mps.D], 'clear-forgets', lambda: '%s %s %s' % (spec, seq, t.Ds))
        elif op == 'copy':
            ok, c = out.attempt(key, t.copy)
            if not ok:
                return None
            # what happens to the copy does not reach the original, nor back
            before = [np.array(x) for x in t.mps_history], dn.dense(t.mps.data)
            out.attempt(key, c.eulerint, GRID['euler'].copy())
            out.check(len(before[0]) == len(t.mps_history) and all(np.array_equal(a, b) for a, b in zip(before[0], t.mps_history)) and
                      np.array_equal(before[1], dn.dense(t.mps.data)), 'copy-shares-state', lambda: '%s %s' % (spec, seq))
            out.check(len(c.mps_history) == len(before[0]) + 3, 'copy-keeps-history', lambda: '%s %s' % (spec, seq))
            return t, mod
        return t, mod

    def queries(t, mod, seq):
        det = lambda: '%s %s' % (spec, seq)
        rec = mod.records()
        out.check(dn.ray_dist(dn.dense(t.mps_0.data), mod.psi0) < 1e-8, 'initial-state-kept', det)
        if mod.ed:
            ops = [dn.embed(dn.herm(d, 'o'), [i], dims) for i in (0, L - 1)] + [dn.herm(d**L, 'full-o')]
            ok, e = out.attempt('ed_evs', t.ed_evs, ops)
            want = np.array([[np.vdot(p, o @ p).real for o in ops] for p in mod.ed])
            ok and out.check(dn.close(np.asarray(e), want, 1e-7), 'ed_evs', det)
            ok, e = out.attempt('ed_energies', t.ed_energies)
            want = np.array([[np.vdot(p, M @ p).real] for p in mod.ed])
            ok and out.check(dn.close(np.asarray(e).reshape(want.shape), want, 1e-7), 'ed_energies', det)
        if not rec:
            return
        before = [np.array(x) for x in t.mps_history], dn.dense(t.mps.data), [x.shape for x in t.mps.data]
        ok, ms = out.attempt('mps_list', t.mps_list)
        if ok:
            out.check(len(ms) == len(rec) and all(dn.ray_dist(dn.dense(m.data), p) < 1e-6 for m, p in zip(ms, rec)), 'mps_list', det)
        if mod.mps:
            ok, ms = out.attempt('deserialize', t.deserialize)
            ok and out.check(len(ms) == len(rec) and all(dn.ray_dist(dn.dense(m.data), p) < 1e-6 for m, p in zip(ms, rec)), 'deserialize', det)
        os_ = [dn.herm(d, 'o'), dn.herm(d, 'p')]
        for site in sorted({0, L // 2, L - 1}):
            ok, e = out.attempt('mps_evs', t.mps_evs, os_, site)
            want = np.array([[dn.expect(o, [site], p, dims).real for o in os_] for p in rec])
            ok and out.check(np.shape(e) == want.shape and dn.close(np.real(e), want, 1e-6), 'mps_evs', lambda: det() + ' site %d' % site)
        ok, e = out.attempt('mps_energies', t.mps_energies)
        want = np.array([np.vdot(p, M @ p).real / np.vdot(p, p).real for p in rec])
        ok and out.check(np.shape(e) == want.shape and dn.close(np.real(e), want, 1e-6), 'mps_energies', lambda: det() + ' %s %s' % (e, want))
        ok, e = out.attempt('loschmidt', t.loschmidt)
        want = np.array([abs(np.vdot(rec[0], p)) for p in rec])
        ok and out.check(np.shape(e) == want.shape and dn.close(np.real(e), want, 2e-2 if 'ode' in seq else 1e-6), 'loschmidt', lambda: det() + ' %s %s' % (e, want))
        ok, S = out.attempt('schmidts', t.schmidts)
        sp = [[dn.schmidt(p, i, dims)**2 for i in range(L + 1)] for p in rec]
        if ok:
            out.check(len(S) == len(rec), 'schmidts-length', det)
            for s, w in zip(S, sp):
                good_ = len(s) >= L
                for i in range(1, L):
                    x = np.sort(np.real(s[i]))[::-1]
                    w_ = np.zeros(max(len(x), len(w[i])))
                    x_ = w_.copy()
                    x_[:len(x)], w_[:len(w[i])] = x, w[i]
                    good_ = good_ and np.allclose(x_, w_, atol=1e-7)
                out.check(good_, 'schmidts', det)
        ent = lambda p: -sum(p[p > 1e-13] * np.log(p[p > 1e-13]))
        ok, e = out.attempt('von_neumann', t.von_neumann)
        want = np.array([max(ent(p) for p in P) for P in sp])
        ok and out.check(np.shape(e) == want.shape and dn.close(np.real(e), want, 1e-5), 'von_neumann', lambda: det() + ' %s %s' % (e, want))
        for i in range(1, L):
            ok, e = out.attempt('von_neumann(i)', t.von_neumann, i)
            want = np.array([ent(P[i]) for P in sp])
            ok and out.check(np.shape(e) == want.shape and dn.close(np.real(e), want, 1e-5), 'von_neumann(i)', lambda: det() + ' %s %s' % (e, want))
        for al in (2, 3):
            ok, e = out.attempt('renyi', t.renyi, al)
            want = np.array([max(np.log(sum(p**al)) / (1 - al) for p in P) for P in sp])
            ok and out.check(np.shape(e) == want.shape and dn.close(np.real(e), want, 1e-5), 'renyi', lambda: det() + ' %s %s' % (e, want))
        out.check(len(before[0]) == len(t.mps_history) and all(np.array_equal(a, b) for a, b in zip(before[0], t.mps_history)) and
                  dn.ray_dist(before[1], dn.dense(t.mps.data)) < 1e-9, 'query-changes-trajectory', det)
        # twice gives the same
        ok, e2 = out.attempt('von_neumann', t.von_neumann)
        ok and out.check(dn.close(np.real(e2), np.array([max(ent(p) for p in P) for P in sp]), 1e-5), 'asked-twice', det)

    import copy
    psi0 = dn.dense(start(spec, 'right').data)
    frontier = [([], traj(start(spec, 'right'), H), Model(psi0, d, L))]
    for k in range(depth):
        nxt = []
        for s, t, mod in frontier:
            for op in ([case['first']] if k == 0 else OPS):
                seq = s + [op]
                t2, m2 = copy.deepcopy(t), mod.clone()
                out.step()
                r = apply(op, t2, m2)
                if r is None:
                    continue
                out.trace()
                new = out.state((op, dn.digest(t2.mps.data), len(t2.mps_history), m2.ed is None))
                queries(copy.deepcopy(t2), m2, seq)
                if new or k + 1 < depth:
                    nxt.append((seq, t2, m2))
        frontier = nxt
    # one run in two pieces is the same run
    if case['first'] in ('euler', 'rk4'):
        T = np.array([0, 0.02, 0.05, 0.06, 0.1])
        meth = case['first'] + 'int'
        whole = traj(start(spec, 'left'), H)
        getattr(whole, meth)(T)
        vs = [dn.dense(m.data) for m in whole.mps_list()]
        for k in range(1, len(T) - 1):
            part = traj(start(spec, 'left'), H)
            getattr(getattr(part, meth)(T[:k + 1]), meth)(T[k:])
            out.step()
            out.trace()
            ps = [dn.dense(m.data) for m in part.mps_list()]
            e = [dn.ray_dist(a, b) for a, b in zip(ps, vs[:k + 1] + vs[k:])]
            out.check(len(ps) == len(T) + 1 and max(e) < 1e-6, 'split-run:' + meth, lambda: '%s %d %s' % (spec, k, e))
    out.sample({'spec': spec, 'first': case['first']})


# -- lyapunov --------------------------------------------------------------------------------------------------------
def lyapunov(case, out):
    spec, lvl = case['spec'], case['lvl']
    d, L = spec.get('d', 2), spec['L']
    dims = [d] * L
    H = [dn.herm(d * d, ('h', i)) for i in range(L - 1)]
    M = fl.dense_h(H, d)
    psi0 = dn.dense(start(spec, 'right').data)
    r = fl.ranks(psi0, dims)
    full = r == [d**min(i, L - i) for i in range(1, L)]
    Q0 = fl.tangent_basis(fl.retract(psi0, dims, r))
    n = 2 * (Q0.shape[1] - 1)
    det = lambda: str(spec)

    def go(T, **k):
        t = traj(start(spec, 'right'), H)
        q = k.pop('Q', None)
        if q is not None:
            t.Q = q
        out.step()
        ok, res = out.attempt('lyapunov', t.lyapunov, T, t_burn=0, thresh=None, **k)
        return (t, res) if ok else (None, None)
    T = np.linspace(0, 0.2, 11)
    for basis in ('F2', 'eye', 'rand'):
        t, res = go(T, initial_basis=basis)
        if t is None:
            return
        out.trace()
        out.state(('basis', basis))
        if not out.check(t.lys.shape == (len(T), n), 'lyapunov-shape', lambda: det() + ' %s expected %d' % (t.lys.shape, n)):
            return
        lys = np.real(t.lys)
        out.check(np.abs(lys.sum(1)).max() < 1e-7, 'volume-preserved', lambda: det() + ' %s' % lys.sum(1))
        if full:
            out.check(np.abs(lys).max() < 1e-6, 'exact-flow-has-no-exponents', lambda: det() + ' %.3g' % np.abs(lys).max())
        times, (exps, inst, *_ ) = res[0], res[1]
        out.check(len(times) == len(exps) == len(T), 'lyapunov-times', lambda: det() + ' %d %d' % (len(times), len(exps)))
        mean = np.cumsum(lys, 0) / np.arange(1, len(T) + 1)[:, None] / (T[1] - T[0])
        out.check(dn.close(np.real(exps), mean, 1e-6), 'running-mean', det)
        out.check(len(t.mps_history) == len(T), 'lyapunov-history', lambda: det() + ' %d' % len(t.mps_history))
        want = fl.flow(psi0, M, dims, T)
        e = [dn.ray_dist(dn.dense(m.data), w) for m, w in zip(t.mps_list(), want)]
        out.check(max(e) < 1e-3, 'lyapunov-follows-flow', lambda: det() + ' %s' % e)
    # only differences of times matter
    a, b = go(T)[0], go(T + .3)[0]
    if a is not None and b is not None:
        out.trace()
        out.check(np.shape(a.lys) == np.shape(b.lys) and abs(np.exp(a.lys) - np.exp(b.lys)).max() < 1e-7, 'shifted-times', det)
    # the growth of tangent vectors, summed over an orthonormal frame, is that of the linearised flow
    if n <= (14 if lvl == 1 else 30):
        def code(m):
            T = np.linspace(0, 0.24, m + 1)[:-1]
            tot = 0
            for i in range(n):
                t, _ = go(T, Q=np.roll(np.eye(n), i, 1))
                if t is None:
                    return None
                tot += np.exp(2 * np.real(t.lys)[:, 0].sum())
            return tot
        eps = 1e-4
        hor = Q0 - np.outer(psi0, psi0.conj() @ Q0)
        u, s, _ = np.linalg.svd(hor, full_matrices=False)
        B = u[:, s > 0.5]
        Tm = np.array([0, 0.24])
        ref = 0
        for b in list(B.T) + list(1j * B.T):
            e = [fl.flow(fl.project(psi0 + x * eps * b, dims, r), M, dims, Tm, r=r)[-1] for x in (1, -1)]
            c = fl.flow(psi0, M, dims, Tm, r=r)[-1]
            # same phase convention: parallel to the centre
            e = [x * np.exp(-1j * np.angle(np.vdot(c, x))) for x in e]
            dv = (e[0] - e[1]) / (2 * eps)
            dv = dv - c * np.vdot(c, dv)
            ref += np.linalg.norm(dv)**2
        a, b = code(8), code(16)
        if a is not None and b is not None:
            out.trace(2 * n)
            out.check(abs(b - ref) < 0.7 * abs(a - ref) + 1e-3 * n and abs(b - ref) < 0.05 * n, 'linearised-flow',
                      lambda: det() + ' frame growth %.6f (n=8) %.6f (n=16), linearised flow %.6f of %d' % (a, b, ref, n))
    # the leading exponent alone is the first column of the full run; skipping the first k times only drops them
    t, res = go(T, initial_basis='eye')
    u, _ = go(T, initial_basis='eye', just_max=True)
    if t is not None and u is not None:
        out.trace(2)
        out.check(np.shape(u.lys) == (len(T),) and dn.close(u.lys, np.real(t.lys)[:, 0], 1e-6), 'just_max', lambda: det() + ' %s %s' % (u.lys, t.lys[:, 0]))
        out.check(abs(np.linalg.norm(u.q) - 1) < 1e-9, 'just_max-vector', det)
        out.check(dn.ray_dist(dn.dense(u.mps.data), dn.dense(t.mps.data)) < 1e-7, 'just_max-state', det)
        for k in (1, 4):
            w, r2 = go(T, initial_basis='eye', k=k)
            if w is not None:
                out.trace()
                out.check(len(r2[0]) == len(T) - k and np.allclose(r2[0], T[k:]) and dn.close(np.real(r2[1][0]), np.real(res[1][0])[k:], 1e-6) and w.lys.shape == t.lys.shape,
                          'skipped-times', lambda: det() + ' k=%d %d' % (k, len(r2[0])))
        # the threshold only ends the run early: what is there is the beginning of the full run
        tt = traj(start(spec, 'right'), H)
        out.step()
        ok, r2 = out.attempt('lyapunov-thresh', tt.lyapunov, T, t_burn=0, thresh=1e3, initial_basis='eye')
        if ok:
            m = len(tt.lys)
            out.trace()
            out.check(m == 1 and len(r2[0]) == m and dn.close(np.real(tt.lys), np.real(t.lys)[:m], 1e-6), 'threshold', lambda: det() + ' %d' % m)
    # asked for a larger bond dimension, it grows the state, lets it settle and goes on from there
    if not full and L <= 4:
        for D in range(max(r) + 1, min(max(r) + 3, d**(L // 2) + 1)):
            g = traj(start(spec, 'right'), H)
            out.step()
            ok, res = out.attempt('lyapunov-grow', g.lyapunov, T[:3], D, t_burn=1, thresh=None)
            h = traj(start(spec, 'right'), H)
            h.mps = h.mps.grow(h.H, 0.1, D).right_canonicalise()
            h.rk4int(np.linspace(0, 1, 100))
            settled = dn.dense(h.mps.data)
            want = fl.flow(settled, M, dims, T[:4])
            if ok:
                out.trace()
                ms = g.mps_list()
                out.check(fops.maxbond(g.mps) <= D and dn.ray_dist(dn.dense(g.mps.data), want[-1]) < 1e-3, 'grown-run-state', lambda: det() + ' D=%d %.2e' % (D, dn.ray_dist(dn.dense(g.mps.data), want[-1])))
                out.check(np.abs(np.real(g.lys).sum(1)).max() < 1e-6, 'grown-run-volume', lambda: det() + ' D=%d %s' % (D, np.real(g.lys).sum(1)))
                out.check(len(g.lys) == 3, 'grown-run-length', det)
                # and once more goes on without growing again
                before = g.mps.copy()
                ok, res = out.attempt('lyapunov-grow-again', g.lyapunov, T[:3], D, t_burn=1, thresh=None)
                if ok:
                    w2 = fl.flow(dn.dense(before.data), M, dims, T[:4])      # it ends one step after the last time
                    out.check(len(g.lys) == 6 and dn.ray_dist(dn.dense(g.mps.data), w2[-1]) < 1e-3, 'grown-run-resumes', lambda: det() + ' D=%d' % D)
    # stop and resume, and saving
    t, _ = go(T[:4])
    with tempfile.TemporaryDirectory() as tmp:
        t.run_name = 'run'
        for k in range(1, 3):
            ok, where = out.attempt('stop', t.stop, tmp)
            if not ok:
                return
            out.check(os.path.samefile(where, os.path.join(tmp, 'run_%d' % k)), 'stop-directory', lambda: det() + where)
        from xmps.fTDVP import Trajectory
        for k in (None, 1):
            ok, s = out.attempt('resume', Trajectory().resume, 'run', tmp, k)
            if not ok or not out.check(s is not None, 'resume-returns', det):
                return
            out.trace()
            out.check(dn.ray_dist(dn.dense(s.mps.data), dn.dense(t.mps.data)) < 1e-10 and dn.ray_dist(dn.dense(s.mps_0.data), psi0) < 1e-8, 'resume-states', det)
            out.check(all(x.shape == y.shape and np.allclose(x, y) for x, y in zip(s.mps.data, t.mps.data)), 'resume-tensors', det)
            out.check(np.allclose(s.Q, t.Q) and np.allclose(s.lys, t.lys), 'resume-lyapunov', det)
            out.check(all(np.allclose(x, y) for x, y in zip(s.H, H)), 'resume-hamiltonian', det)
            import copy
            c = copy.deepcopy(t)
            T2 = T[3:7]
            ok, _ = out.attempt('resumed-run', s.lyapunov, T2, t_burn=0, thresh=None)
            ok2, _ = out.attempt('continued-run', c.lyapunov, T2, t_burn=0, thresh=None)
            if ok and ok2:
                out.check(s.lys.shape == c.lys.shape and np.allclose(s.lys, c.lys, atol=1e-6), 'resumed-run-continues', det)
                out.check(dn.ray_dist(dn.dense(s.mps.data), dn.dense(c.mps.data)) < 1e-7, 'resumed-run-state', det)
        os.makedirs(os.path.join(tmp, 'bases'))
        keep = np.array(t.lys), dn.dense(t.mps.data), np.array(t.Q)
        ok, _ = out.attempt('save', t.save, tmp + '/')
        if ok:
            out.check(np.allclose(np.load(os.path.join(tmp, t.id + '.npy')), keep[0]), 'saved-lyapunov', det)
            out.check(np.allclose(np.load(os.path.join(tmp, 'bases', t.id + '_basis.npy')), keep[2]), 'saved-basis', det)
            out.check(len(t.mps_history) == 0 and dn.ray_dist(dn.dense(t.mps.data), psi0) < 1e-8 and not hasattr(t, 'lys'), 'saved-and-cleared', det)
    out.sample({'spec': spec, 'exponents': [round(float(x), 6) for x in keep[0][-1].real[:6]]})


def otoc(case, out):
    spec, lvl = case['spec'], case['lvl']
    d, L = spec.get('d', 2), spec['L']
    dims = [d] * L
    psi = dn.dense(start(spec, 'right').data)
    M = dn.herm(d**L, 'H') / d
    T = np.linspace(0.1, 1, 4)
    for a in range(L):
        for b in range(L):
            V, W = dn.embed(dn.herm(d, 'V'), [a], dims), dn.embed(dn.herm(d, 'W'), [b], dims)
            t = traj(start(spec, 'right'), M, fullH=True)
            out.step()
            ok, got = out.attempt('ed_OTOC', t.ed_OTOC, T, (V, W))
            if not ok:
                return
            out.trace()
            out.state((a, b))
            want = []
            for x in T:
                U = expm(-1j * M * x)
                Wt = U.conj().T @ W @ U
                C = Wt @ V - V @ Wt
                want.append(np.linalg.norm(C @ psi)**2)
            out.check(dn.close(np.real(got), np.array(want), 1e-7), 'otoc', lambda: '%s %d %d %s %s' % (spec, a, b, got, want))
    out.sample({'spec': spec})
