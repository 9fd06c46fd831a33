"""C03: truncation."""
import copy
import numpy as np
from mc import dense as dn, states as st, fops

PROP, LEVEL = 'C03', 'model_checking'
BOUNDS = ('every initial state of the alphabet x every preparation (raw, either canonical/orthogonal form, with and without sweep back) x '
          'every truncating call (right, left, mixed at every site, constructor, with all options) x every D from 1 to the bond dimension + 2; '
          'two-site splits: every d in 2..4, all bond shapes up to 3 (thorough: 5), every D, both sides, generic and rank deficient blocks')
ASSUMPTIONS = ['dense SVD is the oracle for the optimal truncation errors']
TOL = 1e-7

PREP = {
    'raw': lambda m: m,
    'lc': lambda m: m.left_canonicalise(),
    'lcn': lambda m: m.left_canonicalise(minD=False),
    'lcs': lambda m: m.left_canonicalise(sweep_back=False),
    'lo': lambda m: m.left_orthogonalise(),
    'rc': lambda m: m.right_canonicalise(),
    'rcn': lambda m: m.right_canonicalise(minD=False),
    'ro': lambda m: m.right_orthogonalise(),
    'rcs': lambda m: m.right_canonicalise(sweep_back=False),
    'mc': lambda m: m.mixed_canonicalise(m.L // 2),
}


def refilled(n, prep=None, items=True):
    """the tensors put one by one into an object that held a state of bond dimension n before"""
    def f(m):
        o = fops.fresh(dn.mps_from_bonds([1] + [n] * (m.L - 1) + [1], fops.d_of(m), 'refill'))
        if prep:
            o = PREP[prep](o)
        for i in range(m.L):
            if items:
                o[i] = m.data[i]
            else:
                o.data[i] = m.data[i]
        return o
    return f


PREP.update({'refill1': refilled(1), 'refill1lc': refilled(1, 'lc'), 'refill2rc': refilled(2, 'rc', False), 'refill6': refilled(6)})
OPPOSITE = {'r': ('lc', 'lcn', 'lcs', 'lo'), 'l': ('rc', 'rcn', 'ro', 'rcs')}


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = [dict(group='chain', spec=s, lvl=lvl, w=s['L']**2) for s in st.finite_specs(lvl)]
    n = 3 if lvl == 1 else 5
    for d in (2, 3, 4):
        for a in range(1, n + 1):
            cs.append(dict(group='two-site', d=d, a=a, n=n, w=3))
    return cs


def two_site(case, out):
    from xmps import fMPS as F
    d, a, n = case['d'], case['a'], case['n']
    for b in range(1, n + 1):
        for kind in ('generic', 'lowrank', 'real', 'unitary-product'):
            t = dn.gen((d * d, a, b), ('blk', kind), kind == 'real')
            mat = t.reshape(d, d, a, b).transpose(0, 2, 1, 3).reshape(d * a, d * b)
            if kind == 'lowrank':
                mat = np.outer(mat[:, 0], mat[0])
                t = mat.reshape(d, a, d, b).transpose(0, 2, 1, 3).reshape(d * d, a, b)
            if kind == 'unitary-product':     # degenerate spectrum
                mat = np.eye(d * a, d * b) + 0j
                t = mat.reshape(d, a, d, b).transpose(0, 2, 1, 3).reshape(d * d, a, b)
            u, s, v = np.linalg.svd(mat, full_matrices=False)
            for D in [None] + list(range(1, len(s) + 2)):
                for which in 'lr':
                    out.step()
                    tag = 'split(%s,%s)' % (which, 'None' if D is None else 'D')
                    det = lambda: 'd=%d shape %s kind %s D=%s which=%s' % (d, t.shape, kind, D, which)
                    if not s[:D].any():
                        continue
                    ok, r = out.attempt(tag, F.separate_tensor_svd, t.copy(), D, which)
                    if not ok:
                        continue
                    A, B = r
                    out.trace()
                    out.state(('2s', kind, b, D, which, A.shape, B.shape))
                    k = min(D or len(s), len(s))
                    if not out.check(A.shape == (d, a, k) and B.shape == (d, k, b), 'shape:' + tag, lambda: det() + str((A.shape, B.shape))):
                        continue
                    got = np.einsum('sak,tkb->satb', A, B).reshape(d * a, d * b)
                    kept = np.sqrt((s[:k]**2).sum())
                    gap = k == len(s) or s[k - 1] - s[k] > 1e-9 * s[0]
                    if gap:
                        want = (u[:, :k] * s[:k]) @ v[:k] / kept
                        out.check(abs(got - want).max() < TOL, 'not-best-approximation:' + tag, det)
                    else:       # degenerate: any optimal choice
                        out.check(abs(np.linalg.norm(got) - 1) < TOL, 'not-normalised:' + tag, det)
                        f = abs(np.vdot(got, mat))
                        out.check(abs(f - kept) < TOL * max(1, kept), 'not-optimal:' + tag, det)
                    G = np.einsum('sak,sal->kl', A.conj(), A) if which == 'l' else np.einsum('tkb,tlb->kl', B, B.conj())
                    out.check(abs(G - np.eye(k)).max() < TOL, 'not-isometric:' + tag, det)
                    # through the gate
                    U = dn.unitary(d * d, 'tsu')
                    if kind == 'generic' and D is not None:
                        T = [dn.gen((d, a, 2), 'x0'), dn.gen((d, 2, b), 'x1')]
                        blk = np.einsum('sak,tkb->stab', *T).reshape(d * d, a, b)
                        blk = np.tensordot(U, blk, [1, 0]).reshape(d, d, a, b).transpose(0, 2, 1, 3).reshape(d * a, d * b)
                        ok, r = out.attempt('apply_unitary', F.apply_unitary, [x.copy() for x in T], U, which, D)
                        if ok:
                            u2, s2, v2 = np.linalg.svd(blk, full_matrices=False)
                            k2 = min(D, len(s2))
                            want = (u2[:, :k2] * s2[:k2]) @ v2[:k2] / np.sqrt((s2[:k2]**2).sum())
                            got = np.einsum('sak,tkb->satb', *r).reshape(d * a, d * b)
                            out.check(got.shape == want.shape and abs(got - want).max() < TOL, 'gate-then-truncate', det)
    out.sample({'d': d, 'left_bond': a})


def run(case, out):
    if case['group'] == 'two-site':
        return two_site(case, out)
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    dims = [d] * L
    psi = dn.dense(data)
    psi = psi / np.linalg.norm(psi)
    sp = [dn.schmidt(psi, i, dims) for i in range(L + 1)]
    rk = [int((s > 1e-9).sum()) for s in sp]
    mb = max(fops.bonds(fops.fresh(data)))
    Ds = list(range(1, mb + 3)) if mb <= 5 or case['lvl'] > 1 else [1, 2, 3, mb - 1, mb, mb + 1]
    for pn in PREP:
        m0 = fops.fresh(data)
        try:
            m0 = PREP[pn](m0)
        except Exception:
            continue
        b0 = fops.bonds(m0)
        mb0 = max(b0)
        for D in Ds:
            disc = [(s[D:]**2).sum() for s in sp]
            cut = [i for i in range(L + 1) if rk[i] > D]
            calls = []
            for nm in 'rl':
                full = 'right_canonicalise' if nm == 'r' else 'left_canonicalise'
                for kw in ({}, {'sweep_back': False}, {'minD': False}, {'testing': True}):
                    calls.append((nm, full, (), kw))
            for oc in (range(L) if case['lvl'] > 1 else sorted({0, L // 2, L - 1})):
                calls.append(('r', 'mixed_canonicalise', (oc,), {}))
                calls.append(('r', 'mixed_canonicalise', (oc,), {'sweep_back': False}))
            if pn == 'raw':
                calls.append(('r', 'constructor', (), {}))
            for nm, full, args, kw in calls:
                out.step()
                tag = '%s(D%s)' % (full, ''.join(',%s=%s' % i for i in kw.items()))
                det = lambda: 'spec %s prepared %s then %s%s D=%d' % (spec, pn, full, args, D)
                if full == 'constructor':
                    from xmps.fMPS import fMPS
                    ok, m = out.attempt(tag, fMPS, [np.array(x) for x in data], D=D)
                else:
                    m = copy.deepcopy(m0)
                    ok, _ = out.attempt(tag, getattr(m, full), *args, D=D, **kw)
                if not ok:
                    continue
                out.trace()
                b = fops.bonds(m)
                out.state((pn, D, full, args, str(kw), tuple(b)))
                out.check(max(b) <= D, 'bond-above-D:' + tag, lambda: det() + ' bonds %s' % b)
                out.check(all(x <= y for x, y in zip(b, b0)) or full == 'constructor', 'bond-grew:' + tag, lambda: det() + ' bonds %s from %s' % (b, b0))
                out.check(m.D == max(b) and m.bond_dimension == max(b), 'D-misreported:' + tag, lambda: det() + ' D=%s bonds %s' % (m.D, b))
                v = dn.dense(m.data)
                out.check(abs(np.vdot(v, v) - 1) < TOL, 'not-normalised:' + tag, lambda: det() + ' %s' % np.vdot(v, v))
                F2 = abs(np.vdot(v, psi))**2
                if D >= mb0:
                    out.check(1 - F2 < 1e-9, 'changed-without-truncation:' + tag, lambda: det() + ' infidelity %.3g' % (1 - F2))
                if pn in OPPOSITE[nm]:
                    out.check(1 - F2 <= sum(disc) + 1e-9, 'error-above-discarded-weight:' + tag,
                              lambda: det() + ' infidelity %.6g discarded %.6g' % (1 - F2, sum(disc)))
                    if len(cut) == 1:
                        out.check(abs((1 - F2) - disc[cut[0]]) < 1e-8, 'single-cut-not-optimal:' + tag,
                                  lambda: det() + ' infidelity %.6g optimal %.6g' % (1 - F2, disc[cut[0]]))
    out.sample({'spec': spec, 'ranks': rk, 'D': Ds})
