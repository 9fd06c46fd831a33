"""C09: the TDVP derivative is the tangent-space projection of -iH|psi>."""
import copy
import numpy as np
from mc import dense as dn, states as st, fops

PROP, LEVEL = 'C09', 'model_checking'
BOUNDS = ('every initial state of the alphabet with d^L <= 256 (thorough: 1024) whose Schmidt values at its bonds are above 1e-4, plus every tuple of inner bonds <= 3 for L=3 (4) x '
          'canonical form (left, right, with truncation to every smaller D, after gates, after re-canonicalising from the other side, and off canonical form as inside a Runge-Kutta step) x Hamiltonian (generic terms, one term on each single bond, '
          'uniform, product terms, real, terms of strength 1e-6 alone and 1e-5 beside others, full matrix with and without structure) x call order (asked twice, after other Hamiltonians, after environments were stored)')
ASSUMPTIONS = ['the tangent space is the span of all one-tensor variations of the dense vector, by SVD with relative cutoff 1e-10',
               'states whose bond matrices are singular (Schmidt values below 1e-4) have no well-defined projection and are left out']
TOL = 2e-6


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for s in st.finite_specs(lvl):
        d = s.get('d', 2)
        if d**s['L'] <= (256 if lvl == 1 else 1024):
            cs.append(dict(group='chain', spec=s, lvl=lvl, w=d**s['L']))
    return cs


def tangent_projector(data):
    """orthonormal basis of the span of all one-site variations"""
    cols = []
    L = len(data)
    left = [np.ones((1, 1), dtype=complex)]
    for A in data:
        left.append(np.einsum('xl,slr->xsr', left[-1], A).reshape(-1, A.shape[2]))
    right = [np.ones((1, 1), dtype=complex)]
    for A in data[::-1]:
        right.insert(0, np.einsum('slr,rx->lsx', A, right[0]).reshape(A.shape[1], -1))
    for n, A in enumerate(data):
        d = A.shape[0]
        J = np.einsum('xl,st,ry->xsytlr', left[n], np.eye(d), right[n + 1])
        cols.append(J.reshape(-1, A.size))
    J = np.concatenate(cols, 1)
    u, s, _ = np.linalg.svd(J, full_matrices=False)
    return u[:, s > 1e-10 * s[0]]


def tangent_vector(data, B):
    v = 0
    for n in range(len(data)):
        v = v + dn.dense([B[m] if m == n else A for m, A in enumerate(data)])
    return v


def hams(L, d, lvl):
    n = L - 1
    out = [('generic', [dn.herm(d * d, ('h', i)) for i in range(n)])]
    out.append(('real', [dn.herm(d * d, ('hr', i), True).astype(complex) for i in range(n)]))
    out.append(('uniform', [dn.herm(d * d, 'hu')] * n))
    z = np.zeros((d * d, d * d), dtype=complex)
    for b in range(n) if lvl > 1 or L <= 4 else (0, n - 1):
        out.append(('bond%d' % b, [dn.herm(d * d, ('hb', i)) if i == b else z for i in range(n)]))
    out.append(('fields', [np.kron(dn.herm(d, ('f', i)), np.eye(d)) + (np.kron(np.eye(d), dn.herm(d, ('f', n))) if i == n - 1 else 0) for i in range(n)]))
    return out


def dense_h(H, L, d):
    n = d**L
    M = np.zeros((n, n), dtype=complex)
    for i, h in enumerate(H):
        M += np.kron(np.kron(np.eye(d**i), h.reshape(d * d, d * d)), np.eye(d**(L - i - 2)))
    return M


def forms(data, d):
    L = len(data)
    f = lambda: fops.fresh(data)
    mb = max(max(x.shape[1:]) for x in data)
    yield 'lc', lambda: f().left_canonicalise()
    yield 'rc', lambda: f().right_canonicalise()
    yield 'rc-lc', lambda: f().right_canonicalise().left_canonicalise()
    yield 'lc-rc', lambda: f().left_canonicalise().right_canonicalise()
    for D in range(1, mb):
        yield 'lc(D)%d' % D, lambda D=D: f().left_canonicalise(D)
        yield 'rc-lc(D)%d' % D, lambda D=D: f().right_canonicalise().left_canonicalise(D)
        yield 'rc(D)%d' % D, lambda D=D: f().right_canonicalise(D)
    yield 'gate-lc', lambda: f().right_canonicalise().apply_two_site((dn.unitary(d * d, 'g'), (0, 1))).left_canonicalise()
    yield 'gate-rc', lambda: f().right_canonicalise().apply_two_site((dn.unitary(d * d, 'g'), (L - 2, L - 1))).right_canonicalise()
    yield 'copy', lambda: f().left_canonicalise().copy()

    def off(g):
        # off canonical form, as inside a Runge-Kutta step
        m = g()
        m.data = [x + 0.1 * dn.gen(x.shape, ('off', i)) * (np.linalg.norm(x) / x.size**0.5) for i, x in enumerate(m.data)]
        m.data[0] = m.data[0] / np.linalg.norm(dn.dense(m.data))
        return fops.fresh(m.data)

    def raw():
        m = f()
        m.data[0] = m.data[0] / np.linalg.norm(dn.dense(m.data))
        return fops.fresh(m.data)
    yield 'off-lc', lambda: off(lambda: f().left_canonicalise())
    yield 'off-rc', lambda: off(lambda: f().right_canonicalise())
    yield 'raw', raw


def run(case, out):
    spec = case['spec']
    data = st.build(spec)
    L, d = len(data), data[0].shape[0]
    dims = [d] * L
    seen = set()
    for fn, mk in forms(data, d):
        try:
            m = mk()
        except Exception:
            continue        # canonicalising is other properties' business
        A = [np.array(x) for x in m.data]
        psi = dn.dense(A)
        if not np.all(np.isfinite(psi)) or abs(np.linalg.norm(psi) - 1) > 1e-7:
            continue
        b = fops.bonds(m)
        if any(len(s) < k or s[k - 1] < 1e-4 for s, k in ((dn.schmidt(psi, i, dims), b[i]) for i in range(1, L))):
            continue
        key = dn.digest(A)
        if key in seen:
            continue
        seen.add(key)
        out.state(key)
        Q = tangent_projector(A)

        def want(M):
            w = -1j * (M @ psi)
            return Q @ (Q.conj().T @ w) - psi * np.vdot(psi, w)

        cls = fn.split('(')[0].rstrip('0123456789')
        HS = hams(L, d, case['lvl'])
        scale = lambda M: max(1, np.linalg.norm(M @ psi)) / min(dn.schmidt(psi, i, dims)[b[i] - 1] for i in range(1, L))
        runs = []
        for hn, H in HS:
            M = dense_h(H, L, d)
            runs.append((hn.rstrip('0123456789'), H, M, {}))
            if hn in ('generic', 'bond0'):
                runs.append((hn + '-tensors', [h.reshape([d] * 4) for h in H], M, {}))
                runs.append((hn + '-full', M, M, dict(fullH=True)))
        G = dn.herm(d**L, 'full')
        runs.append(('full', G, G, dict(fullH=True)))
        runs.append(('generic-again', HS[0][1], dense_h(HS[0][1], L, d), {}))
        for hn, H, M, kw in runs:
            out.step()
            ok, B = out.attempt('dA_dt:%s' % hn, m.dA_dt, [h.copy() for h in H] if isinstance(H, list) else H.copy(), **kw)
            if not ok:
                continue
            out.trace()
            det = lambda: 'spec %s form %s H %s bonds %s' % (spec, fn, hn, b)
            if not out.check(len(B) == L and all(x.shape == y.shape for x, y in zip(B, A)), 'shape:' + hn, det):
                continue
            out.check(all(np.array_equal(x, y) for x, y in zip(m.data, A)), 'state-changed:' + hn, det)
            v = tangent_vector(A, B)
            w = want(M)
            sc = scale(M)
            out.check(np.linalg.norm(v - w) < TOL * sc, 'not-the-projection:%s' % hn,
                      lambda: det() + ' |got-want| %.3g |want| %.3g |got| %.3g' % (np.linalg.norm(v - w), np.linalg.norm(w), np.linalg.norm(v)))
            e = np.vdot(psi, M @ psi).real
            out.check(abs(2 * np.vdot(M @ psi, v).real) < TOL * sc * max(1, np.linalg.norm(M @ psi)), 'energy-not-conserved:%s' % hn, det)
            out.check(abs(np.vdot(psi, v)) < TOL * sc, 'norm-not-conserved:%s' % hn, det)
            if Q.shape[1] == d**L:
                out.check(np.linalg.norm(v - (-1j) * (M @ psi - e * psi)) < TOL * sc, 'not-exact-at-full-rank:%s' % hn, det)
            # weak terms count as much as strong ones: alone, and beside others
            if hn == 'generic':
                ok, Bw = out.attempt('dA_dt:weak', m.dA_dt, [h * 1e-6 for h in H])
                if ok:
                    out.check(np.linalg.norm(tangent_vector(A, Bw) / 1e-6 - w) < TOL * sc, 'not-the-projection:weak', det)
                for bd in sorted({0, L - 2}):
                    g = dn.herm(d * d, 'weak')
                    ok, Bw = out.attempt('dA_dt:weak', m.dA_dt, [h + (1e-5 * g if i == bd else 0) for i, h in enumerate(H)])
                    if ok:
                        out.step()
                        dw = want(dense_h([g if i == bd else 0 * g for i in range(L - 1)], L, d))
                        out.check(np.linalg.norm((tangent_vector(A, Bw) - v) / 1e-5 - dw) < 10 * TOL * sc, 'not-the-projection:weak-beside-strong',
                                  lambda: det() + ' bond %d %.3g' % (bd, np.linalg.norm((tangent_vector(A, Bw) - v) / 1e-5 - dw)))
            # does not depend on stored environments or on who asks
            if hn == 'generic':
                c = m.copy()
                c.get_envs(True)
                ok, B2 = out.attempt('dA_dt-copy', c.dA_dt, [h.copy() for h in H])
                if ok:
                    out.check(np.linalg.norm(tangent_vector(A, B2) - w) < TOL * sc, 'not-the-projection:copy', det)
                ok, B3 = out.attempt('dA_dt-given-projectors', m.dA_dt, [h.copy() for h in H], False, False,
                                     [m.left_null_projector(n, get_vL=True) for n in range(L)])
                if ok:
                    out.check(np.linalg.norm(tangent_vector(A, B3) - w) < TOL * sc, 'not-the-projection:given-projectors', det)
    out.sample({'spec': spec, 'forms': len(seen)})
