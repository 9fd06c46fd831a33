"""C15: Hamiltonian objects represent the operator that was written down."""
import itertools
import numpy as np
from mc import dense as dn

PROP, LEVEL = 'C15', 'model_checking'
BOUNDS = ('every set of up to 2 (thorough: 3) named terms out of X, Y, Z, the nine two-site products, the six one-sided fields and II, with coefficients from a list, on L=2..5 (thorough: 7) sites; '
          'every sequence of up to 2 (thorough: 3) conversions on one object; matrices of every Pauli string pair and generic Hermitian ones; local matrices over k=1..3 sites, d=2..5')
ASSUMPTIONS = ['a one-letter term is that field on every site; one-sided fields IX, XI act as written on the outer sites and as their mean inside, as to_matrices documents by construction',
               'matrix product operators are read with boundary vectors (first row, last column), for Heisenberg type terms only, as documented']
P = {'I': dn.I2, 'X': dn.X, 'Y': dn.Y, 'Z': dn.Z}
TWO = [a + b for a in 'XYZ' for b in 'XYZ']
SIDE = [a + 'I' for a in 'XYZ'] + ['I' + a for a in 'XYZ']
KEYS = list('XYZ') + TWO + SIDE + ['II']
COEF = [1.0, -0.75, 0.3]
WEAK = [3e-6, 1.0]       # a coupling much weaker than the others
TINY = [6.6e-34 * x for x in COEF]         # couplings in joule


def full(strings, L):
    """the operator on L sites"""
    M = np.zeros((2**L, 2**L), dtype=complex)
    a = {s: np.zeros(2) for s in 'XYZ'}
    two = {}
    for k, J in strings.items():
        if len(k) == 1:
            a[k] = a[k] + np.array([J, J])
        elif k[0] == 'I' and k != 'II':
            a[k[1]] = a[k[1]] + np.array([0, J])
        elif k[1] == 'I' and k != 'II':
            a[k[0]] = a[k[0]] + np.array([J, 0])
        else:
            two[k] = J
    for s, (l, r) in a.items():
        for i in range(L):
            c = l if i == 0 else r if i == L - 1 else (l + r) / 2
            M += c * dn.embed(P[s], [i], [2] * L)
    for k, J in two.items():
        for i in range(L - 1):
            M += J * dn.embed(np.kron(P[k[0]], P[k[1]]), [i, i + 1], [2] * L)
    return M


def local(strings):
    M = np.zeros((4, 4), dtype=complex)
    for k, J in strings.items():
        for s in ([k] if len(k) == 2 else ['I' + k, k + 'I']):
            M += J * np.kron(P[s[0]], P[s[1]])
    return M


def conflicts(ks):
    return any(len(k) == 1 and ('I' + k in ks or k + 'I' in ks) for k in ks)


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for k in KEYS:
        cs.append(dict(group='terms', first=k, n=2 if lvl == 1 else 3, L=5 if lvl == 1 else 7, lvl=lvl, w=10))
    for st in ({'ZZ': 1.0, 'X': 0.5}, {'XX': 1.0, 'YY': 0.5, 'ZZ': -0.7, 'Z': 0.3, 'X': 0.1}, {'XY': 1.0, 'YX': -1.0, 'IZ': 0.4}, {'XZ': 0.3}, {'Y': 1.0}):
        cs.append(dict(group='orders', strings=st, lvl=lvl, w=20))
    cs.append(dict(group='recover', lvl=lvl, w=20))
    for d in (2, 3, 4, 5):
        cs.append(dict(group='given', d=d, lvl=lvl, w=5))
    return cs


def rel(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and abs(a - b).max() <= 1e-10 * (abs(b).max() or 1)


def H(strings):
    from xmps.Hamiltonians import Hamiltonian
    return Hamiltonian(strings)


def heis(ks):
    return all(len(k) == 1 or (k[0] == k[1] and k != 'II') for k in ks)


def mpo_dense(W):
    L = len(W)
    v = None
    for w in W:
        w = np.asarray(w)
        v = w[0][None] if v is None else np.einsum('xapq,abrs->xbprqs', v, w).reshape(1, w.shape[1], v.shape[2] * 2, v.shape[3] * 2)
        if v.ndim == 4 and v.shape[1] != w.shape[1]:
            raise ValueError
    return v[0, -1]


def convs(strings, L, out, h, det, key=''):
    """every conversion of h for L sites against the written operator"""
    want = full(strings, L)
    out.step(3)
    ok, ms = out.attempt(key + 'to_matrices', h.to_matrices, L)
    if ok:
        out.trace()
        ok = out.check(len(ms) == L - 1 and all(np.shape(m) == (4, 4) for m in ms), key + 'to_matrices:number', lambda: det() + ' L=%d' % L)
        if ok:
            tot = sum(dn.embed(m, [i, i + 1], [2] * L) for i, m in enumerate(ms))
            out.check(rel(tot, want), key + 'to_matrices', lambda: det() + ' L=%d' % L)
    ok, f = out.attempt(key + 'to_full', h.to_full, L)
    if ok:
        out.trace()
        out.check(rel(f, want), key + 'to_full', lambda: det() + ' L=%d' % L)
    if heis(strings):
        ok, W = out.attempt(key + 'to_mpo', h.to_mpo, L)
        if ok:
            out.trace()
            out.check(len(W) == L and rel(mpo_dense(W), want), key + 'to_mpo', lambda: det() + ' L=%d' % L)


def run(case, out):
    globals()[case['group']](case, out)


def terms(case, out):
    first = case['first']
    rest = KEYS[KEYS.index(first) + 1:]
    for n in range(case['n']):
        for more in itertools.combinations(rest, n):
            ks = (first,) + more
            if conflicts(ks):
                continue
            for order, coef in itertools.product((1, -1) if n else (1,), (COEF, WEAK, TINY) if n < 2 else (COEF,)):
                st = {k: coef[i] for i, k in enumerate(ks)}
                st = dict(list(st.items())[::order])
                given = dict(st)
                det = lambda: str(given)
                ok, h = out.attempt('construct', H, st)
                if not ok:
                    return
                out.state(tuple(given.items()))
                out.check(st == given and list(st) == list(given), 'input-modified', det)
                ok, m = out.attempt('to_matrix', h.to_matrix)
                if ok:
                    out.step()
                    out.trace()
                    out.check(rel(m, local(given)), 'to_matrix', det)
                for L in range(2, case['L'] + 1 if n < 2 else 5):
                    convs(given, L, out, h, det)
                if not heis(given) and n < 2:
                    # what has no such operator is refused, not misrepresented
                    out.step()
                    try:
                        W = h.to_mpo(3)
                    except NotImplementedError:
                        pass
                    except Exception as e:
                        out.bad('to_mpo:raised:' + type(e).__name__, det())
                    else:
                        out.check(rel(mpo_dense(W), full(given, 3)), 'to_mpo:misrepresents', det)
                # the matrices handed out are the caller's
                ok, ms = out.attempt('to_matrix', h.to_matrix)
                if ok:
                    ms *= 0
                    ok, m = out.attempt('to_matrix', h.to_matrix)
                    ok and out.check(rel(m, local(given)), 'to_matrix:after-use', det)
    out.sample({'first': first})


def orders(case, out):
    st = case['strings']
    ops = [('matrix', lambda h: h.to_matrix())]
    for L in (2, 3, 5):
        ops.append(('matrices%d' % L, lambda h, L=L: h.to_matrices(L)))
        ops.append(('full%d' % L, lambda h, L=L: h.to_full(L)))
        if heis(st):
            ops.append(('mpo%d' % L, lambda h, L=L: h.to_mpo(L)))
    ops.append(('str', lambda h: str(h)))
    depth = 2 if case['lvl'] == 1 else 3
    for seq in itertools.product(ops, repeat=depth):
        h = H(dict(st))
        det = lambda: '%s after %s' % (st, [n for n, _ in seq])
        for n, f in seq:
            out.step()
            out.attempt(n.rstrip('0123456789'), f, h)
        out.trace()
        out.state(tuple(n for n, _ in seq))
        for L in (2, 3, 4):
            convs(st, L, out, h, det, 'history:')
        ok, m = out.attempt('history:to_matrix', h.to_matrix)
        ok and out.check(rel(m, local(st)), 'history:to_matrix', det)
    # two objects made from one dictionary do not share anything
    d0 = dict(st)
    a, b = H(d0), H(d0)
    a.strings['ZZ'] = 17.
    ok, m = out.attempt('shared', b.to_matrix)
    ok and out.check(rel(m, local(st)), 'objects-share-terms', str(st))
    out.sample({'strings': st})


def recover(case, out):
    from xmps.Hamiltonians import Hamiltonian
    mats = []
    S = [a + b for a in 'IXYZ' for b in 'IXYZ'][1:]
    for a, b in itertools.combinations_with_replacement(S, 2):
        mats.append(('%s+%s' % (a, b), {a: 1.0, b: 0.5} if a != b else {a: 1.0}))
    for (nm, st), h in itertools.product(mats, (None, 2e-6, -3e4, 6.6e-34)):
        h = h or dn.gen((1,), nm, True)[0]
        M = sum(c * np.kron(P[k[0]], P[k[1]]) for k, c in st.items()) * h
        for prior in (None, {'ZZ': 3.0}):
            out.step()
            ok, r = out.attempt('from_matrix', lambda: (Hamiltonian() if prior is None else Hamiltonian(dict(prior))).from_matrix(M.copy()))
            if not ok:
                return
            out.trace()
            out.state((nm, h, prior is None))
            got = {k: v for k, v in r.strings.items() if abs(v) > 1e-13 * abs(h)}
            out.check(set(got) == set(st) and all(abs(got[k] - st[k] * h) < 1e-12 * abs(h) for k in got), 'from_matrix:terms', lambda: '%s %s' % (st, got))
            ok, m = out.attempt('from_matrix:to_matrix', r.to_matrix)
            ok and out.check(abs(m - M).max() < 1e-10 * abs(h), 'from_matrix:round-trip', nm)
            for L in (2, 3, 4):
                ok, f = out.attempt('from_matrix:to_full', r.to_full, L)
                ok and out.check(rel(f / h, full(st, L)), 'from_matrix:to_full', lambda: '%s L=%d' % (nm, L))
    for t in range(8 if case['lvl'] == 1 else 40):
        M = dn.herm(4, ('rec', t))
        ok, r = out.attempt('from_matrix', Hamiltonian().from_matrix, M.copy())
        if not ok:
            return
        out.state(('herm', t))
        out.trace()
        ok, m = out.attempt('from_matrix:to_matrix', r.to_matrix)
        ok and out.check(rel(m, M - np.trace(M) / 4 * np.eye(4)), 'from_matrix:generic', 'tag %d' % t)
    out.sample({'matrices': len(mats)})


def given(case, out):
    from xmps.Hamiltonians import Hamiltonian
    d = case['d']
    for k in (1, 2, 3) + ((4, 5, 6) if d == 2 else ()) + ((5,) if d == 3 else ()):
        for n, sc in itertools.product(range(1, 5 if case['lvl'] == 1 else 7), (1, 1e-6, 1e4)):
            L = n + k - 1
            if d**L > (260 if case['lvl'] == 1 else 1100):
                continue
            ms = [dn.herm(d**k, ('g', i)) * (sc if i % 2 == 0 else 1) for i in range(n)]
            out.step()
            ok, h = out.attempt('given:construct', lambda: Hamiltonian(matrices=[m.copy() for m in ms], d=d))
            if not ok:
                return
            out.state((k, n, sc))
            ok, l = out.attempt('given:L', lambda: (h.k, h.L))
            ok and out.check(l == (k, L), 'given:L', lambda: 'd=%d k=%d n=%d %s' % (d, k, n, l))
            ok, f = out.attempt('given:to_full', h.to_full)
            if ok:
                out.trace()
                want = sum(np.kron(np.kron(np.eye(d**i), m), np.eye(d**(L - k - i))) for i, m in enumerate(ms))
                out.check(rel(f, want), 'given:to_full', lambda: 'd=%d k=%d n=%d' % (d, k, n))
    out.sample({'d': d})
