"""C13: observables of a uniform infinite MPS against explicitly built transfer matrices, in every query order."""
import itertools
import numpy as np
from mc import dense as dn, infin as inf

PROP, LEVEL = 'C13', 'model_checking'
BOUNDS = ('every one-site infinite MPS of the alphabet (d=2,3 (thorough 4), D=1..4 (thorough 6), generic, real, re-gauged, rescaled, AKLT, cluster) x every history of gauge changes and queries '
          '(E/Es with and without declared form, energy, overlap both ways, eigs, environments, projectors, dA_dt, copy) up to depth 3, each answer compared; Map / TransferMatrix of every ordered pair of states of equal shape')
ASSUMPTIONS = ['injective states', 'one-site unit cells and pairs of equal bond dimension, the only ones the code supports', 'numpy/scipy eigen solvers']
TOL = 1e-6


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = [dict(group='query', spec=s, lvl=lvl, w=5 + s.get('D', 2)) for s in inf.specs(lvl)]
    by = {}
    for s in inf.specs(lvl):
        A = inf.build(s)
        by.setdefault(A.shape, []).append(s)
    for sh, ss in sorted(by.items()):
        cs.append(dict(group='pairs', specs=ss, w=len(ss)))
    return cs


def oracle(A0, spec):
    d = A0.shape[0]
    ops = [dn.herm(d, ('o', k)) for k in range(2)] + [dn.gen((d, d), 'onh'), np.eye(d), np.diag(np.arange(d)).astype(complex)]
    h = dn.herm(d * d, 'h2')
    hr = dn.herm(d * d, 'h2r', True)
    r1, r2 = inf.rdm(A0, 1), inf.rdm(A0, 2)
    others = [dn.gen(A0.shape, ('other', k)) for k in range(2)] + [2.5 * A0, np.swapaxes(A0, 1, 2)]
    ov = []
    for B in others:
        w = abs(np.linalg.eigvals(inf.tm(A0, B))).max()
        ov.append(w**2 / inf.fixed(A0)[0] / inf.fixed(B)[0])
    return dict(ops=ops, E=[np.trace(r1 @ o) for o in ops], h=[h, hr], e=[np.trace(r2 @ x).real for x in (h, hr)], others=others, ov=ov,
                eta=inf.fixed(A0)[0])


def actions(o):
    """name -> (is_query, f(m, out, det))"""
    from xmps.iMPS import iMPS

    def cmp(out, key, got, want, det):
        out.check(np.size(got) == 1 and abs(complex(np.squeeze(got)) - want) < TOL * max(1, abs(want)), key, lambda: det() + ' %s != %s' % (got, want))

    def E(m, out, det):
        for op, w in zip(o['ops'], o['E']):
            cmp(out, 'E', m.E(op), w, det)

    def Es(m, out, det):
        r = m.Es(o['ops'])
        if out.check(len(r) == len(o['ops']), 'Es:length', det):
            for x, w in zip(r, o['E']):
                cmp(out, 'Es', x, w, det)

    def declared(m, out, det):
        c = getattr(m, 'canonical', None)
        if c in ('l', 'r', 'm'):
            for op, w in zip(o['ops'], o['E']):
                cmp(out, 'E(declared)', m.E(op, c), w, det)
            for x, w in zip(m.Es(o['ops'], c), o['E']):
                cmp(out, 'Es(declared)', x, w, det)

    def weak(m, out, det):
        for op, w in zip(o['ops'], o['E']):
            cmp(out, 'E:weak', np.asarray(m.E(1e-8 * op)) / 1e-8, w, det)
            cmp(out, 'Es:weak', np.asarray(m.Es([np.asfortranarray(1e-8 * op)])[0]) / 1e-8, w, det)
        for h, w in zip(o['h'], o['e']):
            cmp(out, 'energy:weak', m.energy([1e-8 * h]) / 1e-8, w, det)

    def energy(m, out, det):
        for h, w in zip(o['h'], o['e']):
            cmp(out, 'energy', m.energy([h]), w, det)
            cmp(out, 'energy:e', m.e, w, det)

    def overlap(m, out, det):
        for B, w in zip(o['others'], o['ov']):
            cmp(out, 'overlap', m.overlap(iMPS([B.copy()])), w, det)
            b = iMPS([B.copy()])
            cmp(out, 'overlap:reverse', b.overlap(m), w, det)
            out.check(np.array_equal(b[0], B), 'overlap:changes-operand', det)
        cmp(out, 'overlap:self', m.overlap(m), 1, det)

    def eigs(m, out, det):
        A = np.array(m.data[0])
        eta, l, r = inf.fixed(A)
        for e, L, R in (m.eigs(), m.transfer_matrix().eigs()):
            cmp(out, 'eigs:eta', e, eta, det)
            out.check(abs(R / np.trace(R) - r).max() < TOL, 'eigs:r', det)
            out.check(abs(L.T / np.trace(L) - l / np.trace(l)).max() < TOL, 'eigs:l', det)
            cmp(out, 'eigs:normalisation', np.trace(L @ R), 1, det)
            out.check(np.linalg.eigvalsh((L + L.conj().T) / 2).min() > 0 and np.linalg.eigvalsh((R + R.conj().T) / 2).min() > 0, 'eigs:positive', det)

    def envs(m, out, det):
        l, r = m.get_envs()
        eta, l0, r0 = inf.fixed(np.array(m.data[0]))
        out.check(abs(r / np.trace(r) - r0).max() < TOL and abs(l.T / np.trace(l) - l0 / np.trace(l0)).max() < TOL, 'get_envs', det)

    def seed_eigs(m, out, det):
        """a starting vector must not matter"""
        D = m.D
        e, L, R = m.eigs(l0=dn.herm(D, 'l0') + 3 * np.eye(D), r0=np.eye(D) + 0j)
        eta, l, r = inf.fixed(np.array(m.data[0]))
        cmp(out, 'eigs(v0):eta', e, eta, det)
        out.check(abs(R / np.trace(R) - r).max() < TOL and abs(L.T / np.trace(L) - l / np.trace(l)).max() < TOL, 'eigs(v0):fixed-points', det)

    def shapes(m, out, det):
        out.check(m.shape == np.array(m.data[0]).shape and len(m) == 1 and np.array_equal(m(1), m[0]) and np.array_equal(m[0], m.data[0]) and m == m and not (m != m), 'accessors', det)

    q = dict(E=E, Es=Es, declared=declared, weak=weak, energy=energy, overlap=overlap, eigs=eigs, envs=envs, seed_eigs=seed_eigs, accessors=shapes)
    g = {h: (lambda m, out, det, h=h: m.canonicalise(h)) for h in 'lrm'}
    return q, g


def run(case, out):
    if case['group'] == 'pairs':
        return pairs(case, out)
    from xmps.iMPS import iMPS
    spec = case['spec']
    A0 = inf.build(spec)
    o = oracle(A0, spec)
    q, g = actions(o)
    names = list(q) + list(g)
    depth = 3
    hists = [h for n in range(1, depth + 1) for h in itertools.product(names, repeat=n)]
    if case['lvl'] == 1:      # histories that end in a query, every pair, and triples through a gauge change
        hists = [h for h in hists if h[-1] in q and (len(h) < 3 or h[0] in g)]
    else:
        hists = [h for h in hists if h[-1] in q]
    cache = {}
    for h in hists:
        m = iMPS([A0.copy()])
        det = lambda: 'spec %s history %s' % (spec, list(h))
        # prefix-closed: earlier queries of the history were judged in the shorter history; only the last one is judged here
        for i, n in enumerate(h):
            sink = out if i == len(h) - 1 else Sink()
            before = np.array(m.data[0])
            out.step()
            ok, _ = out.attempt(n, (q.get(n) or g.get(n)), m, sink, det)
            if not ok:
                return
            if n in q:
                out.check(np.array_equal(before, m.data[0]), 'query-changes-state:' + n, det)
        out.trace()
        out.state(dn.digest(np.array(m.data[0])) + h[-1].encode())
    out.sample({'spec': spec, 'histories': len(hists)})


class Sink:
    def check(self, *a):
        return True


def pairs(case, out):
    from xmps.iMPS import Map, TransferMatrix, iMPS, ivMPS
    data = [inf.build(s) for s in case['specs']]
    d, D = data[0].shape[:2]
    for (i, A), (j, B) in itertools.product(enumerate(data), repeat=2):
        det = lambda: 'pair %s %s' % (case['specs'][i], case['specs'][j])
        T = inf.tm(A, B)
        w = np.linalg.eigvals(T)
        mp = Map(A.copy(), B.copy())
        out.step()
        out.trace()
        out.state((i, j))
        for k in range(2):
            v = dn.gen((D * D,), ('v', k))
            out.check(dn.close(mp.mv(v), T @ v, TOL), 'Map.mv', det)
            out.check(dn.close(mp.mvr(v), T.conj().T @ v, TOL), 'Map.mvr', det)
            out.check(dn.close(mp.aslinearoperator() @ v, T @ v, TOL) and dn.close(mp.aslinearoperator().H @ v, T.conj().T @ v, TOL), 'Map.aslinearoperator', det)
        out.check(dn.close(mp.asmatrix(), T, TOL), 'Map.asmatrix', det)
        top = abs(w).max()
        out.step()
        ok, x = out.attempt('right_fixed_point', mp.right_fixed_point)
        if ok:
            e, r = x
            e = complex(np.squeeze(e))
            out.check(np.shape(r) == (D, D) and abs(abs(e) - top) < TOL * top and dn.close(T @ r.reshape(-1), e * r.reshape(-1), 1e-5), 'right_fixed_point', det)
            out.check(mp.is_right_eigenvector(r, 1 / e), 'is_right_eigenvector', det)
            out.check(not mp.is_right_eigenvector(r, 1.3 / e), 'is_right_eigenvector:wrong-value', det)
            if D > 1:
                out.check(not mp.is_right_eigenvector(dn.gen((D, D), 'ne'), 1 / e), 'is_right_eigenvector:generic', det)
        for kw in (dict(r0=dn.gen((D, D), 'r0')), dict(rotate=False), dict(tol=1e-12)):
            ok, x = out.attempt('right_fixed_point(%s)' % list(kw)[0], mp.right_fixed_point, **kw)
            if ok:
                e, r = complex(np.squeeze(x[0])), x[1]
                out.check(np.shape(r) == (D, D) and abs(abs(e) - top) < TOL * top and dn.close(T @ r.reshape(-1), e * r.reshape(-1), 1e-5), 'right_fixed_point(%s)' % list(kw)[0], det)
        ok, x = out.attempt('left_fixed_point', mp.left_fixed_point)
        if ok:
            e, l = x
            e = complex(np.squeeze(e))
            out.check(np.shape(l) == (D, D) and abs(abs(e) - top) < TOL * top and dn.close(T.conj().T @ l.reshape(-1), e * l.reshape(-1), 1e-5), 'left_fixed_point', det)
            out.check(abs(np.linalg.norm(l) - 1) < TOL, 'left_fixed_point:norm', det)
            out.check(mp.is_left_eigenvector(l, 1 / e), 'is_left_eigenvector', det)
            out.check(not mp.is_left_eigenvector(l, 1.3 / e), 'is_left_eigenvector:wrong-value', det)
            if D > 1:
                out.check(not mp.is_left_eigenvector(dn.gen((D, D), 'ne'), 1 / e), 'is_left_eigenvector:generic', det)
        for kw in (dict(l0=dn.gen((D, D), 'l0')), dict(tol=1e-12)):
            ok, x = out.attempt('left_fixed_point(%s)' % list(kw)[0], mp.left_fixed_point, **kw)
            if ok:
                e, l = complex(np.squeeze(x[0])), x[1]
                out.check(np.shape(l) == (D, D) and abs(abs(e) - top) < TOL * top and dn.close(T.conj().T @ l.reshape(-1), e * l.reshape(-1), 1e-5), 'left_fixed_point(%s)' % list(kw)[0], det)
        if i == j:
            # Vidal form tensors (Gamma, Lambda): the transfer matrix of Gamma Lambda
            lam = np.diag(np.linspace(1, .3, D))
            ok, x = out.attempt('ivMPS.transfer_matrix', lambda: ivMPS([(A.copy(), lam)]).transfer_matrix())
            if ok:
                out.check(dn.close(np.transpose(x, (0, 2, 1, 3)).reshape(D * D, D * D), inf.tm(A @ lam, A @ lam), TOL), 'ivMPS.transfer_matrix', det)
            ok, x = out.attempt('ivMPS.random', lambda: ivMPS().random(d, D))
            if ok:
                G, l_ = x.data[0]
                out.check(G.shape == (d, D, D) and l_.shape == (D, D) and np.all(np.diff(np.diag(l_)) <= 0) and np.all(np.diag(l_) >= 0), 'ivMPS.random', det)
            t = TransferMatrix(A.copy())
            for k in range(2):
                v = dn.gen((D * D,), ('v', k))
                out.check(dn.close(t.mv(v), T @ v, TOL) and dn.close(t.aslinearoperator() @ v, T @ v, TOL), 'TransferMatrix.mv', det)
                out.check(dn.close(t.mvr(v), T.conj().T @ v, TOL) and dn.close(t.aslinearoperator().H @ v, T.conj().T @ v, TOL), 'TransferMatrix.mvr', det)
            out.check(dn.close(t.asmatrix(), T, TOL), 'TransferMatrix.asmatrix', det)
        ok, x = out.attempt('overlap', iMPS([A.copy()]).overlap, iMPS([B.copy()]))
        if ok:
            out.check(abs(complex(np.squeeze(x)) - top**2 / inf.fixed(A)[0] / inf.fixed(B)[0]) < TOL, 'overlap', det)
    out.sample({'shape': list(data[0].shape), 'n': len(data)})
