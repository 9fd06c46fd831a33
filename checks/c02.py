"""C02: postconditions of the canonical forms, from every state and after every preceding gauge operation."""
import copy
import numpy as np
from mc import dense as dn, states as st, fops

PROP, LEVEL = 'C02', 'model_checking'
BOUNDS = ('every initial state of the alphabet x every single preceding gauge/query operation (every pair of a canonicalisation and another gauge operation from some; thorough: every pair) x every '
          'canonicalising call with every combination of its options')
ASSUMPTIONS = ['dense SVD is the oracle for the Schmidt spectra']

TOL = 1e-7


def iso_r(A):
    return np.einsum('sab,scb->ac', A, A.conj())


def iso_l(A):
    return np.einsum('sab,sac->bc', A.conj(), A)


def is_eye(G):
    return abs(G - np.eye(len(G))).max() < TOL


def spec_eq(a, b):
    a, b = np.sort(np.abs(a))[::-1], np.sort(np.abs(b))[::-1]
    k = max(len(a), len(b))
    return np.all(np.isfinite(a)) and np.abs(np.pad(a, (0, k - len(a))) - np.pad(b, (0, k - len(b)))).max() < TOL


FINAL = []
for nm in ('rc', 'lc'):
    for D in (None, 'max', 2, 1):
        for sb in (True, False):
            for minD in (True, False):
                FINAL.append((nm, D, sb, minD))


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in st.finite_specs(lvl):
        if s['L'] > 8 and lvl == 1:
            continue
        # histories in which the state changes between two canonicalisations, whatever was recorded by the first is stale
        if s['L'] in (3, 4) and (s['kind'] in ('ghz', 'product') or s.get('tag') in (2, 'd3', 'var')):
            cs.append(dict(group='stale', spec=s, pre=1, lvl=lvl, w=60 * s['L']))
            cs.append(dict(group='regauged', spec=s, pre=1, lvl=lvl, w=60 * s['L']))
        cs.append(dict(group='L%d' % s['L'], spec=s, pre=1 if s['L'] > 4 or lvl == 1 else 2, lvl=lvl, w=s['L']**2))
    return cs


def check_canonical(out, tag, m, nm, dims, full, detail):
    L = len(dims)
    v = dn.dense(m.data)
    b = fops.bonds(m)
    # a bond that carries directions of zero weight (exactly rank deficient state): isometric on the support
    deficient = any(dn.schmidt(v, i, dims)[b[i] - 1:b[i]].sum() < 1e-7 for i in range(1, L))
    for i, A in enumerate(m.data):
        G = iso_r(A) if nm == 'rc' else iso_l(A)
        if deficient and full:
            j = i if nm == 'rc' else i + 1
            w = np.sqrt(abs(np.diag(np.asarray(m.Ls[j])))) if len(m.Ls) == L + 1 else np.ones(1)
            ok = len(w) == len(G) and abs(w[:, None] * (G - np.eye(len(G))) * w).max() < TOL
        else:
            ok = is_eye(G)
        out.check(ok, 'not-isometric:' + tag, lambda: detail() + ' site %d' % i)
    out.check(abs(np.vdot(v, v) - 1) < TOL, 'norm-not-1:' + tag, lambda: detail() + ' norm %s' % np.vdot(v, v))
    out.check(m.oc == (0 if nm == 'rc' else L) and m.canonical and m.orthogonal, 'flags:' + tag, detail)
    out.check(m.D == fops.maxbond(m), 'D-wrong:' + tag, lambda: detail() + ' D=%s bonds=%s' % (m.D, fops.bonds(m)))
    if full:
        out.check(len(m.Ls) == L + 1, 'Ls-length:' + tag, detail)
        env = np.eye(1)
        for i in range(L + 1):
            lam = np.asarray(m.Ls[i])
            s2 = dn.schmidt(v, i, dims)**2
            out.check(abs(lam - np.diag(np.diag(lam))).max() < TOL and spec_eq(np.diag(lam), s2), 'Ls-not-schmidt:' + tag,
                      lambda: detail() + ' bond %d: Ls %s, squared Schmidt values %s' % (i, np.diag(lam), s2))
            out.check(lam.shape == (b[i], b[i]), 'Ls-shape:' + tag, lambda: detail() + ' bond %d' % i)
        # the opposite environment of the tensors is the stored diagonal
        if nm == 'rc':
            l = np.eye(1)
            for i, A in enumerate(m.data):
                l = np.einsum('sab,ac,scd->bd', A.conj(), l, A)
                out.check(dn.close(l, m.Ls[i + 1], TOL), 'env-not-Ls:' + tag, lambda: detail() + ' site %d' % i)
        else:
            r = np.eye(1)
            for i in reversed(range(L)):
                A = m.data[i]
                r = np.einsum('sab,bc,sdc->ad', A, r, A.conj())
                out.check(dn.close(r, m.Ls[i], TOL), 'env-not-Ls:' + tag, lambda: detail() + ' site %d' % i)


def run(case, out):
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    dims = [d] * L
    pres = [((), fops.fresh(data))]
    flags = lambda m: bytes([getattr(m, 'oc', None) is None, (getattr(m, 'oc', None) or 0) & 255, bool(getattr(m, 'canonical', 0)), bool(getattr(m, 'orthogonal', 0))]) + dn.digest([np.asarray(x) for x in getattr(m, 'Ls', [])])
    key = lambda m: dn.digest(m.data) + flags(m)
    seen = {key(pres[0][1])}
    ops = [o for o in fops.gauge_ops(L, 1) + fops.query_ops(L, 1) if 'copy' not in o[0]]
    frontier = pres
    stale = case['group'] == 'stale'
    levels = [ops] * case['pre']
    if stale:
        first = [o for o in ops if o[0].startswith(('rc(', 'lc(', 'mixed', 'entangl', 'get_envs', 'right_orth', 'left_orth')) and 'testing' not in o[0]]
        levels = [first, [o for o in fops.change_ops(L, d) if not o[0].startswith('mul')]]
    elif case['group'] == 'regauged':
        # two gauge operations in a row: what the first recorded does not stand for the form the second left
        first = [o for o in ops if o[0] in ('rc()', 'lc()') or o[0].startswith('mixed_canon')]
        levels = [first, [o for o in ops if o[0].startswith(('right_orth', 'left_orth', 'mixed_', 'expand', 'match', 'update', 'rho', 'entang'))]]
    for n in range(len(levels)):
        ops = levels[n]
        nxt = []
        for h, m in frontier:
            for name, en, f in ops:
                m2 = copy.deepcopy(m)
                if en is not None and not en(m2, None):
                    continue
                out.step()
                try:
                    m2, _ = f(m2, dn.dense(m2.data) if stale else None)
                except Exception:
                    continue        # C01 / C04 report failing operations
                k = key(m2)
                out.state(k)
                if k not in seen:
                    seen.add(k)
                    nxt.append((h + (name,), m2))
        pres = nxt if stale or case['group'] == 'regauged' else pres + nxt
        frontier = nxt
    for h, m0 in pres:
        psi = dn.dense(m0.data)
        mb = fops.maxbond(m0)
        rk = [int((dn.schmidt(psi, i, dims) > 1e-7).sum()) for i in range(L + 1)]
        for nm, D, sb, minD in FINAL:
            Dv = mb if D == 'max' else D
            m = copy.deepcopy(m0)
            tag = '%s(D=%s,sweep_back=%s,minD=%s)' % (nm, D, sb, minD)
            det = lambda: 'spec %s history %s then %s' % (spec, h, tag)
            out.step()
            ok, r = out.attempt(tag, getattr(m, 'right_canonicalise' if nm == 'rc' else 'left_canonicalise'), D=Dv, sweep_back=sb, minD=minD)
            if not ok:
                continue
            out.trace()
            out.check(r is m, 'returns-self:' + tag, det)
            full = sb and minD
            check_canonical(out, tag, m, nm, dims, full, det)
            # the entropy of a bond, asked of the object in this form
            for i in ((1, L - 1) if not stale else range(1, L)):
                m2 = copy.deepcopy(m)
                v2 = dn.dense(m2.data)
                ok, S = out.attempt('entanglement_entropy', m2.entanglement_entropy, i)
                if ok:
                    p = dn.schmidt(v2, i, dims)**2
                    p = p[p > 1e-14]
                    out.check(abs(S - (-(p * np.log(p)).sum())) < 1e-5, 'entropy-wrong:after ' + tag, lambda: det() + ' bond %d got %s' % (i, S))
            deficient = False
            if full and (D is None or D == 'max'):
                b = fops.bonds(m)
                lim = [min(d**(L - i) if nm == 'rc' else d**i, x) for i, x in enumerate(fops.bonds(m0))]
                out.check(all(x >= y for x, y in zip(b, rk)), 'bond-below-rank:' + tag, lambda: det() + ' bonds %s ranks %s' % (b, rk))
                out.check(all(x <= y for x, y in zip(b, lim)), 'bond-not-minimal:' + tag, lambda: det() + ' bonds %s limits %s' % (b, lim))
                deficient = b != rk
                if spec['kind'] == 'dup' and L == 3 and not h and nm == 'rc' and D is None:
                    out.check(b == rk, 'rank-not-reduced:%s:right_canonicalise()' % st.name(spec), lambda: det() + ' bonds %s ranks %s' % (b, rk))
            elif full:
                v = dn.dense(m.data)
                deficient = any(dn.schmidt(v, i, dims)[x - 1] < 1e-7 for i, x in enumerate(fops.bonds(m)))
            if full and not deficient:
                ok, _ = out.attempt('update_properties', m.update_properties)
                if ok:
                    side = 'right' if nm == 'rc' else 'left'
                    out.check(getattr(m, 'is_%s_canonical' % side) and getattr(m, 'is_%s_env_canonical' % side)
                              and m.is_full_rank and m.has_trace_1 and m.has_norm_1, 'self-check-disagrees:' + tag, det)
        # testing=True reports the outcome in .ok
        for side in ('right', 'left'):
            m = copy.deepcopy(m0)
            ok, r = out.attempt(side + '(testing)', getattr(m, side + '_canonicalise'), testing=True)
            if ok and fops.bonds(m) == rk:
                out.check(m.ok, 'testing-not-ok:' + side, lambda: '%s %s' % (spec, h))
        # mixed forms
        for oc in range(L) if L <= 5 else (0, L // 2, L - 1):
            for nm, kw in (('mixed_canonicalise', {}), ('mixed_canonicalise', {'sweep_back': False}),
                           ('mixed_canonicalise', {'D': mb}), ('mixed_canonicalise', {'D': 2}), ('mixed_orthogonalise', {})):
                m = copy.deepcopy(m0)
                tag = '%s(%s)' % (nm, kw if kw.get('D') != mb else 'D=bond')
                det = lambda: 'spec %s history %s then %s at %d' % (spec, h, tag, oc)
                out.step()
                ok, r = out.attempt(tag, getattr(m, nm), oc, **kw)
                if not ok:
                    continue
                out.trace()
                A = m.data
                out.check(all(is_eye(iso_l(A[i])) for i in range(oc)) and all(is_eye(iso_r(A[i])) for i in range(oc + 1, L)),
                          'not-mixed-canonical:' + tag, det)
                out.check(abs(np.linalg.norm(A[oc]) - 1) < TOL, 'centre-not-normalised:' + tag, det)
                out.check(m.oc == oc, 'oc:' + tag, det)
        # orthogonal forms
        for nm in ('right', 'left'):
            m = copy.deepcopy(m0)
            ok, r = out.attempt(nm + '_orthogonalise', getattr(m, nm + '_orthogonalise'))
            if ok:
                out.trace()
                out.check(all(is_eye((iso_r if nm == 'right' else iso_l)(A)) for A in m.data), 'not-orthogonal:' + nm, lambda: '%s %s' % (spec, h))
                out.check(m.oc == (0 if nm == 'right' else L), 'oc:' + nm, lambda: '%s %s' % (spec, h))
        # entropy of every bond
        for i in range(L):
            m = copy.deepcopy(m0)
            ok, S = out.attempt('entanglement_entropy', m.entanglement_entropy, i)
            if ok:
                p = dn.schmidt(psi, i, dims)**2
                p = p[p > 1e-14]
                out.check(abs(S - (-(p * np.log(p)).sum())) < 1e-5, 'entropy-wrong', lambda: '%s %s bond %d got %s' % (spec, h, i, S))
    out.sample({'spec': spec, 'preceding_histories': len(pres), 'final_calls': len(FINAL)})
