"""C16: spin operators, gates and Lie algebra generators satisfy their algebra."""
import itertools
import numpy as np
from scipy.linalg import expm
from mc import dense as dn

PROP, LEVEL = 'C16', 'model_checking'
BOUNDS = ('spins 1/2..4 (thorough: 8) on every site of chains up to dimension 4096, on and off the chain; n_body of every shape d=2..5, k=1..6 sites; su(N), N=2..8 (thorough: 12), every pair of generators, '
          'every generator with angles of a grid, every pair of generators for the two-site unitaries; every keep set (and order given ascending) of up to 4 subsystems of dimensions 1..3; model Hamiltonians for spins 1/2..3/2, 2..5 sites; every ordered pair of some 80 requests, the first result overwritten before the second is made')
ASSUMPTIONS = ['n_body with a local dimension numbers its first site from 0 and is given the number of bonds of the chain, as the time evolution and Hamiltonian code uses it',
               'the Hamiltonian classes give one term per bond; how fields are shared between the two terms at a site is not prescribed, the sum over the chain is']
ANG = [0.0, 1e-6, 0.3, -1.1, np.pi / 2, np.pi, 2.9]


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for twoS in range(1, 9 if lvl == 1 else 17):
        cs.append(dict(group='spin', twoS=twoS, lvl=lvl, w=twoS))
    for d in (2, 3, 4, 5):
        cs.append(dict(group='place', d=d, lvl=lvl, w=10))
    cs.append(dict(group='gates', lvl=lvl))
    for N in range(2, 9 if lvl == 1 else 13):
        cs.append(dict(group='algebra', N=N, lvl=lvl, w=N**3))
    for where in ('left', 'mid', 'right'):
        for N in (2, 4, 8)[:2 if lvl == 1 else 3]:
            cs.append(dict(group='embedding', N=N, where=where, lvl=lvl, w=N**3))
    cs.append(dict(group='two_site', lvl=lvl, w=50))
    cs.append(dict(group='logs', lvl=lvl, w=50))
    cs.append(dict(group='traces', lvl=lvl, w=50))
    cs.append(dict(group='spheres', lvl=lvl))
    for part in range(6):
        cs.append(dict(group='handed_out', part=part, lvl=lvl, w=30))
    for twoS in (1, 2, 3):
        for N in (2, 3, 4, 5):
            cs.append(dict(group='models', twoS=twoS, N=N, lvl=lvl, w=20))
    return cs


def run(case, out):
    globals()[case['group']](case, out)


def zero(x, tol):
    return bool(np.max(abs(np.asarray(x)), initial=0) <= tol)


def S_(S):
    """spin matrices, from the ladder recursion"""
    d = int(round(2 * S + 1))
    m = np.array([S - k for k in range(d)])
    sp = np.zeros((d, d))
    for k in range(d - 1):
        sp[k, k + 1] = np.sqrt(S * (S + 1) - m[k + 1] * (m[k + 1] + 1))
    return (sp + sp.T) / 2, (sp - sp.T) / 2j, np.diag(m)


def spin(case, out):
    from xmps import spin as sp
    S = case['twoS'] / 2
    d = case['twoS'] + 1
    want = S_(S)
    det = lambda: 'S=%s' % S
    ok, got = out.attempt('spins', sp.spins, S)
    if ok:
        out.step()
        out.trace()
        out.state(('spins', S))
        out.check(len(got) == 3 and all(dn.close(a, b, 1e-10) for a, b in zip(got, want)), 'spins', det)
        for a, b in itertools.product(range(3), repeat=2):
            e = np.array([[[(i - j) * (j - k) * (k - i) / 2 for k in range(3)] for j in range(3)] for i in range(3)])
            out.check(dn.close(got[a] @ got[b] - got[b] @ got[a], sum(1j * e[a, b, c] * got[c] for c in range(3)), 1e-9), 'spins:commutator', det)
        out.check(dn.close(sum(g @ g for g in got), S * (S + 1) * np.eye(d), 1e-9), 'spins:casimir', det)
        out.check(bool(sp.CR(*got)), 'CR:refuses-spins', det)
        for bad in (want[::-1], (want[0], want[1], -want[2]), (want[1], want[0], want[2]), tuple(2 * w for w in want)):
            out.check(not sp.CR(*bad), 'CR:accepts', det)
        out.check(bool(sp.pCR(*[2 * w for w in want])) and not sp.pCR(*want), 'pCR', det)
    ok, l = out.attempt('ladders', sp.ladders, S)
    if ok and out.check(len(l) == 2 and all(x is not None for x in l), 'ladders:given', det):
        out.step()
        out.check(dn.close(l[1], want[0] + 1j * want[1], 1e-10) and dn.close(l[0], want[0] - 1j * want[1], 1e-10), 'ladders', det)
    n = 2
    while d**n <= (600 if case['lvl'] == 1 else 4096):
        for i in range(1, n + 1):
            det = lambda: 'S=%s site %d of %d' % (S, i, n)
            out.step(2)
            out.state((S, i, n))
            ok, got = out.attempt('N_body_spins', sp.N_body_spins, S, i, n)
            ok and out.check(len(got) == 3 and all(dn.close(g, dn.embed(w, [i - 1], [d] * n), 1e-10) for g, w in zip(got, want)), 'N_body_spins', det)
            ok, got = out.attempt('N_body_ladders', sp.N_body_ladders, S, i, n)
            ok and out.check(dn.close(got[1], dn.embed(want[0] + 1j * want[1], [i - 1], [d] * n), 1e-10) and
                             dn.close(got[0], dn.embed(want[0] - 1j * want[1], [i - 1], [d] * n), 1e-10), 'N_body_ladders', det)
            if d == 2:
                ok, got = out.attempt('N_body_paulis', sp.N_body_paulis, S, i, n)
                ok and out.check(all(dn.close(g, dn.embed(2 * w, [i - 1], [d] * n), 1e-10) for g, w in zip(got, want)), 'N_body_paulis', det)
        n += 1
    out.trace()
    out.sample({'S': S})


def place(case, out):
    from xmps.spin import n_body
    d = case['d']
    top = 1100 if case['lvl'] == 1 else 4100
    # one site operators, sites counted from 1
    n = 1
    while d**n <= top:
        for i in range(-2, n + 3):
            for cplx in (False, True):
                A = dn.gen((d, d), 'c16-%d' % d, not cplx)
                det = lambda: 'd=%d site %d of %d' % (d, i, n)
                out.step()
                out.state((d, n, i))
                try:
                    got = n_body(A, i, n)
                except Exception as e:
                    out.check(not 1 <= i <= n, 'n_body:raised', lambda: det() + repr(e))
                    continue
                if out.check(1 <= i <= n, 'n_body:off-chain', det):
                    out.check(dn.close(got, dn.embed(A, [i - 1], [d] * n), 1e-12), 'n_body', det)
        n += 1
    out.trace()
    # operators on k sites, bonds counted from 0
    sites = 1
    while d**sites <= top:
        for k in range(1, min(sites, 6) + 1):
            A = dn.gen((d**k, d**k), 'c16k-%d-%d' % (d, k))
            for i in range(-2, sites + 3):
                det = lambda: 'd=%d k=%d first site %d of %d' % (d, k, i, sites)
                out.step()
                out.state((d, sites, k, i))
                try:
                    got = n_body(A, i, sites - 1, d=d)
                except Exception as e:
                    out.check(not 0 <= i <= sites - k, 'n_body-k:raised', lambda: det() + repr(e))
                    continue
                if out.check(0 <= i <= sites - k, 'n_body-k:off-chain', det):
                    out.check(np.shape(got) == (d**sites,) * 2 and dn.close(got, dn.embed(A, list(range(i, i + k)), [d] * sites), 1e-12), 'n_body-k', det)
        sites += 1
    out.trace()
    if d in (2, 3):
        from xmps.spin import tensor
        for n in (1, 2, 3, 4):
            ops = [dn.gen((d, d + j % 2), 'c16t-%d' % j) for j in range(n)]
            ok, t = out.attempt('tensor', tensor, ops)
            out.step()
            ok and out.check(dn.close(t, dn.kronall(ops), 1e-12), 'tensor', 'd=%d n=%d' % (d, n))


def unit(U):
    return dn.close(U @ U.conj().T, np.eye(len(U)), 1e-9)


def gates(case, out):
    from xmps import spin as sp
    E = np.eye(4)
    fixed = dict(swap=E[[0, 2, 1, 3]], CNOT=E[[0, 1, 3, 2]], CZ=np.diag([1, 1, 1, -1]))
    for n, W in fixed.items():
        out.step()
        ok, U = out.attempt(n, getattr(sp, n))
        if ok:
            out.check(dn.close(U, W, 1e-12), n)
            U *= 3            # what was handed out is the caller's
            out.check(dn.close(getattr(sp, n)(), W, 1e-12), n + ':shared')
    out.check(dn.close(sp.H, np.array([[1, 1], [1, -1]]) / np.sqrt(2), 1e-12), 'H')
    for a in ANG:
        ok, U = out.attempt('CRy', sp.CRy, a)
        if ok:
            out.step()
            out.state(('CRy', a))
            out.check(unit(U) and dn.close(U[:2, :2], np.eye(2), 1e-12) and zero(U[:2, 2:], 1e-12) and zero(U[2:, :2], 1e-12), 'CRy:controlled', a)
            R = U[2:, 2:]
            Y = np.array([[0, -1j], [1j, 0]])
            out.check(dn.close(R, expm(-.5j * a * Y), 1e-10) or dn.close(R, expm(.5j * a * Y), 1e-10), 'CRy:rotation', a)
        for b in ANG:
            out.step()
            out.check(dn.close(sp.CRy(a) @ sp.CRy(b), sp.CRy(a + b), 1e-10), 'CRy:additive', (a, b))
    out.trace()
    # swap symmetry: every matrix unit and every pair of them
    W = fixed['swap']
    units = []
    for i, j in itertools.product(range(4), repeat=2):
        u = np.zeros((4, 4), complex)
        u[i, j] = 1
        units.append(u)
    mats = units + [a + 1j * b for a, b in itertools.combinations(units, 2)] + [dn.gen((4, 4), 'c16s')]
    for k, M in enumerate(mats):
        out.step(3)
        out.state(('sym', k))
        M0 = M.copy()
        s, a = sp.swap_symmetrise(M), sp.swap_antisymmetrise(M)
        out.check(dn.close(s, (M + W @ M @ W) / 2, 1e-12), 'swap_symmetrise', k)
        out.check(dn.close(a, (M - W @ M @ W) / 2, 1e-12), 'swap_antisymmetrise', k)
        out.check(dn.close(M, M0, 0), 'swap:modified', k)
        out.check(bool(sp.is_swap_symmetric(M)) == dn.close(M, W @ M @ W, 1e-7), 'is_swap_symmetric', k)
        out.check(bool(sp.is_swap_symmetric(s)), 'is_swap_symmetric:of-symmetrised', k)
    out.trace()
    for n in (2, 3, 4, 5):
        A = dn.gen((n, n + 1), 'c16r')
        A0 = A.copy()
        for i, j in itertools.product(range(n), repeat=2):
            out.step()
            B = sp.swap_rows(A, i, j)
            w = A0.copy()
            w[i], w[j] = A0[j], A0[i]
            out.check(dn.close(B, w, 0) and dn.close(A, A0, 0), 'swap_rows', (n, i, j))
    for n in (2, 3, 4):
        A, B = dn.gen((n, n), 'c16a'), dn.gen((n, n), 'c16b')
        out.check(dn.close(sp.comm(A, B), A @ B - B @ A, 1e-12) and dn.close(sp.acomm(A, B), A @ B + B @ A, 1e-12), 'comm', n)
    for dim in (1, 2, 3, 4, 5):
        ok, e = out.attempt('levi_civita', sp.levi_civita, dim)
        if ok:
            out.check(np.shape(e) == (dim,) * dim, 'levi_civita:shape', dim)
            for idx in itertools.product(range(dim), repeat=dim):
                out.step()
                M = np.zeros((dim, dim))
                M[range(dim), idx] = 1
                out.check(abs(e[idx] - round(np.linalg.det(M))) < 1e-9, 'levi_civita', idx)
    # spinors built from two spins
    for nm in ('antiferro', 'ferro'):
        ok, n = out.attempt(nm, getattr(sp, nm))
        if ok:
            out.step()
            for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                out.check(dn.close(n[a] @ n[b] - n[b] @ n[a], 2j * n[c], 1e-10), nm + ':algebra', (a, b, c))
            out.check(all(dn.close(x, x.conj().T, 1e-12) for x in n), nm + ':hermitian')
    # equality up to a phase
    ms = units[:4] + [np.eye(4), W, fixed['CNOT'], np.kron(dn.X, dn.I2), np.kron(dn.Y, dn.Z), dn.unitary(4, 'c16u')]
    for (i, A), (j, B) in itertools.product(enumerate(ms), repeat=2):
        for ph in ANG:
            out.step()
            out.check(bool(sp.equal_up_to_phase(A, np.exp(1j * ph) * B)) == (i == j), 'equal_up_to_phase', (i, j, ph))
    out.trace()
    out.sample({'gates': list(fixed)})


def algebra(case, out):
    """su(N): Hermitian, traceless, orthogonal, complete; components and rotations"""
    from xmps import spin as sp
    N = case['N']
    ok, T = out.attempt('su', sp.su, N)
    if not ok:
        return
    T = np.asarray(T)
    if not out.check(T.shape == (N * N - 1, N, N), 'su:number', N):
        return
    out.check(dn.close(T, T.conj().transpose(0, 2, 1), 1e-12), 'su:hermitian', N)
    out.check(zero(np.trace(T, axis1=1, axis2=2), 1e-10), 'su:traceless', N)
    G = np.einsum('aij,bji->ab', T, T)
    for a, b in itertools.product(range(len(T)), repeat=2):
        out.step()
        out.check(abs(G[a, b] - 2 * (a == b)) < 1e-9, 'su:orthogonal', (N, a, b))
    out.trace()
    if N == 4:
        L = np.asarray(sp.lambdas())
        out.check(L.shape == T.shape, 'lambdas:number')
        out.check(dn.close(L, L.conj().transpose(0, 2, 1), 1e-12), 'lambdas:hermitian')
        out.check(zero(np.trace(L, axis1=1, axis2=2), 1e-10), 'lambdas:traceless')
        out.check(dn.close(np.einsum('aij,bji->ab', L, L), 2 * np.eye(15), 1e-10), 'lambdas:orthogonal')
        s = np.asarray(sp.slambdas())
        W = np.eye(4)[[0, 2, 1, 3]]
        out.check(len(s) == 9 and all(dn.close(W @ x @ W, x, 1e-12) for x in s), 'slambdas:symmetric')
        out.check(np.linalg.matrix_rank(s.reshape(9, 16)) == 9 and dn.close(s, s.conj().transpose(0, 2, 1), 1e-12) and
                  zero(np.trace(s, axis1=1, axis2=2), 1e-12), 'slambdas:basis')
    # components: every unit vector, every pair (small N), a generic one
    n = N * N - 1
    vs = [('%d' % i, np.eye(n)[i]) for i in range(n)]
    if N <= 4:
        vs += [('%d-%d' % (i, j), 0.7 * np.eye(n)[i] - 1.2 * np.eye(n)[j]) for i, j in itertools.combinations(range(n), 2)]
    vs += [('faint%d' % i, 1e-6 * np.eye(n)[i]) for i in (0, n // 2, n - 1)] + [('beside%d' % i, np.eye(n)[0] + 1e-6 * np.eye(n)[i]) for i in (1, n - 1)]
    vs += [('generic', dn.gen((n,), 'c16v').real)]
    for nm, v in vs:
        out.step(2)
        out.state((N, nm))
        Q = np.tensordot(v, T, [0, 0])
        ok, c = out.attempt('components', sp.components, Q)
        ok and out.check(dn.close(c, v, 1e-9), 'components', (N, nm))
        for f, Nf in ((lambda u: sp.SU(u, N), N), (sp.SU4, 4), (sp.SU8, 8)):
            if Nf != N:
                continue
            ok, U = out.attempt('SU', f, v)
            if ok:
                out.check(dn.close(U, expm(-1j * Q), 1e-8), 'SU', (N, nm))
                out.check(unit(U) and abs(np.linalg.det(U) - 1) < 1e-7, 'SU:special-unitary', (N, nm))
    out.trace()
    out.sample({'N': N})


def embedding(case, out):
    """a rotation of n qubits embedded in n+1 qubits acts on the qubits it is said to act on"""
    from xmps import spin as sp
    N, where = case['N'], case['where']
    n = N * N - 1
    q = int(np.log2(N))
    T = np.asarray(sp.su(N))
    perm = {'right': list(range(q)), 'left': list(range(1, q + 1)), 'mid': list(range(q - 1)) + [q]}[where]
    for i in list(range(n)) + [None]:
        v = np.eye(n)[i] * 0.8 if i is not None else dn.gen((n,), 'c16e').real
        out.step()
        out.state((N, where, i))
        ok, w = out.attempt('insu2N', sp.insu2N, v, where)
        if not ok:
            return
        out.check(np.shape(w) == (4 * N * N - 1,) and zero(np.imag(w), 1e-10), 'insu2N:vector', (N, where, i))
        Q = np.tensordot(v, T, [0, 0])
        got = np.tensordot(w, np.asarray(sp.su(2 * N)), [0, 0])
        out.check(dn.close(got, dn.embed(Q, perm, [2] * (q + 1)), 1e-9), 'insu2N', (N, where, i))
        if where == 'mid':
            ok, U = out.attempt('SU:2N', sp.SU, v, N, '2N')
            ok and out.check(dn.close(U, dn.embed(expm(-1j * Q), perm, [2] * (q + 1)), 1e-8), 'SU:2N', (N, i))
    out.trace()


def two_site(case, out):
    from xmps import spin as sp
    W = np.eye(4)[[0, 2, 1, 3]]
    s1 = [np.kron(a / 2, dn.I2) for a in (dn.X, dn.Y, dn.Z)]
    s2 = [np.kron(dn.I2, a / 2) for a in (dn.X, dn.Y, dn.Z)]
    for f, ops in ((sp.U1, s2), (sp.U2, s1)):
        for v in itertools.product((0, 0.7, -1.9), repeat=3):
            out.step()
            out.state((f.__name__, v))
            ok, U = out.attempt(f.__name__, f, np.array(v))
            if not ok:
                break
            # a rotation of one of the two spins
            a, b = (dn.close(U, expm(-1j * sum(x * o for x, o in zip(v, p))), 1e-9) for p in (s1, s2))
            out.check(a or b, f.__name__, v)
            if sum(map(abs, v)) > 0:
                out.check((a, b) == ((False, True) if ops is s2 else (True, False)), f.__name__ + ':site', v)
    ls = np.asarray(sp.locals())
    out.check(len(ls) == 6 and all(dn.close(x, y, 1e-12) for x, y in zip(ls, s2 + s1)), 'locals')
    for f, gens in ((sp.U4, np.asarray(sp.lambdas())), (sp.U4s, np.asarray(sp.slambdas()))):
        n = len(gens)
        vs = [np.eye(n)[i] * x for i in range(n) for x in ANG] + [np.eye(n)[i] - .4 * np.eye(n)[j] for i, j in itertools.combinations(range(n), 2)]
        for k, v in enumerate(vs):
            out.step()
            out.state((f.__name__, k))
            ok, U = out.attempt(f.__name__, f, v)
            if not ok:
                break
            out.check(dn.close(U, expm(-1j * np.tensordot(v, gens, [0, 0])), 1e-9) and unit(U), f.__name__, k)
            if f is sp.U4s:
                out.check(dn.close(W @ U @ W, U, 1e-9), 'U4s:symmetric', k)
    out.trace()


def logs(case, out):
    """recovering the components from a unitary gives the same unitary up to a phase"""
    from xmps import spin as sp
    for N in (2, 3, 4) if case['lvl'] == 1 else (2, 3, 4, 5, 6, 8):
        n = N * N - 1
        vs = [x * np.eye(n)[i] for i in range(n) for x in (1e-6, 0.3, -1.1, 2.9, 5.1)] + [dn.gen((n,), 'c16l%d' % k).real * (k + 1) for k in range(6)]
        T = np.asarray(sp.su(N))
        for k, v in enumerate(vs):
            U = expm(-1j * np.tensordot(v, T, [0, 0]))
            for ph in (0, 0.9, -2.2):
                out.step()
                out.state((N, k, ph))
                ok, c = out.attempt('extractv', sp.extractv, np.exp(1j * ph) * U)
                if not ok:
                    continue
                out.check(zero(np.imag(c), 1e-6), 'extractv:real', (N, k, ph))
                V = expm(-1j * np.tensordot(c, T, [0, 0]))
                t = np.trace(V.conj().T @ U) / N
                out.check(abs(abs(t) - 1) < 1e-7, 'extractv', (N, k, ph))
            ok, c = out.attempt('to_new_v', sp.to_new_v, v)
            if ok:
                V = expm(-1j * np.tensordot(c, T, [0, 0]))
                out.check(abs(abs(np.trace(V.conj().T @ U) / N) - 1) < 1e-7, 'to_new_v', (N, k))
                if np.linalg.norm(np.tensordot(v, T, [0, 0]), 2) < 1.5:
                    out.check(dn.close(c, v, 1e-7 if max(abs(v)) > 1e-3 else 1e-9), 'to_new_v:same', (N, k))
    out.trace()


def traces(case, out):
    from xmps import spin as sp
    for n in (1, 2, 3, 4):
        for dims in itertools.product((1, 2, 3), repeat=n):
            D = int(np.prod(dims))
            rho = dn.gen((D, D), 'c16p')
            rho0 = rho.copy()
            T = rho.reshape(dims * 2)
            for k in range(1, n + 1):
                for keep in itertools.combinations(range(n), k):
                    out.step()
                    out.state((dims, keep))
                    drop = [i for i in range(n) if i not in keep]
                    w = np.zeros((int(np.prod([dims[i] for i in keep])),) * 2, complex)
                    for idx in itertools.product(*[range(dims[i]) for i in drop]):
                        sl = [slice(None)] * (2 * n)
                        for i, x in zip(drop, idx):
                            sl[i] = sl[n + i] = x
                        w += T[tuple(sl)].reshape(w.shape)
                    for arg in (list(keep), np.array(keep), tuple(keep)):
                        ok, got = out.attempt('partial_trace', sp.partial_trace, rho, arg, list(dims))
                        ok and out.check(np.shape(got) == w.shape and dn.close(got, w, 1e-10), 'partial_trace', (dims, keep))
            out.check(dn.close(rho, rho0, 0), 'partial_trace:modified', dims)
    out.trace()


def spheres(case, out):
    from xmps import spin as sp
    for n in (1, 2, 3, 4):
        for v in itertools.product(ANG[:4] if n > 2 else ANG, repeat=n):
            out.step()
            out.state(v)
            ok, x = out.attempt('Nsphere', sp.Nsphere, np.array(v))
            if ok:
                w = [np.prod(np.sin(v[:k])) * np.cos(v[k]) for k in range(n)] + [np.prod(np.sin(v))]
                out.check(np.shape(x) == (n + 1,) and dn.close(x, w, 1e-10), 'Nsphere', v)
    out.trace()


def spoil(x):
    """the caller does what it likes with what it was given"""
    if isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x *= 3
        x += 1


def flat(x):
    return np.concatenate([flat(y) for y in x]) if isinstance(x, (list, tuple)) else np.array(x, dtype=complex).reshape(-1)


def handed_out(case, out):
    """two requests in a row, the first result overwritten by the caller before the second"""
    from xmps import spin as sp
    A = lambda n, t='c16h': dn.gen((n, n), t)
    mk = [('spins', (S,)) for S in (.5, 1, 1.5, 2)] + [('paulis', (.5,)), ('ladders', (.5,)), ('ladders', (1,)), ('ladders', (1.5,)), ('ladders', (2,))]
    mk += [(f, (S, i, n)) for f in ('N_body_spins', 'N_body_ladders') for S, i, n in ((.5, 1, 1), (.5, 1, 2), (.5, 2, 2), (.5, 1, 3), (1, 1, 2), (1, 2, 3))]
    mk += [('N_body_paulis', (.5, i, n)) for i, n in ((1, 2), (2, 2), (2, 3))]
    mk += [(f, ()) for f in ('swap', 'CNOT', 'CZ', 'lambdas', 'slambdas', 'locals', 'antiferro', 'ferro')] + [('CRy', (.3,)), ('CRy', (-1.1,))]
    mk += [('su', (N,)) for N in (2, 3, 4, 5)] + [('levi_civita', (n,)) for n in (2, 3, 4)]
    mk += [('SU', (v, N)) for N in (2, 3, 4) for v in (np.eye(N * N - 1)[1] * .4,)] + [('SU4', (np.eye(15)[2],)), ('SU', (np.eye(3)[0], 2, '2N'))]
    mk += [('insu2N', (np.eye(3)[1], w)) for w in ('mid', 'left', 'right')] + [('U1', (np.array([.1, .2, .3]),)), ('U2', (np.array([.1, .2, .3]),)), ('U4', (np.eye(15)[4],)), ('U4s', (np.eye(9)[4],))]
    mk += [('n_body', (A(2), 1, 3)), ('n_body', (A(2), 2, 3)), ('n_body', (A(2, 'c16i'), 2, 3)), ('n_body', (A(3), 2, 2)), ('n_body', (A(4), 1, 2, 2)), ('n_body', (A(4), 0, 3, 2))]
    mk += [('components', (dn.herm(3, 'c16h'),)), ('extractv', (dn.unitary(2, 'c16h'),)), ('Nsphere', (np.array([.1, .7]),)), ('partial_trace', (A(4), [0], [2, 2])), ('swap_symmetrise', (A(4),)), ('swap_rows', (A(3), 0, 2))]
    cp = lambda a: tuple(x.copy() if hasattr(x, 'copy') else x for x in a)
    calls = [(f + str(tuple(np.shape(x) if isinstance(x, np.ndarray) else x for x in a)) + '#%d' % k, f, lambda f=f, a=a: getattr(sp, f)(*cp(a))) for k, (f, a) in enumerate(mk)]
    for S, fin, N in ((.5, True, 3), (.5, False, 2), (1, True, 3), (.5, True, 2)):
        for f, a in (('TFIM', (.7,)), ('XY', (.3,)), ('heisenberg_ferromagnet', (1.,)), ('AKLT', ())):
            calls.append(('%s(%s,%s,%s)' % (f, S, fin, N), f, lambda S=S, fin=fin, N=N, f=f, a=a: getattr(sp.spinHamiltonians(S, fin, N), f)(*a)))
    ref = []
    for nm, f, g in calls:
        ok, r = out.attempt('handed-out:' + f, g)
        ref.append(flat(r) if ok else None)
    for k, (nm, f, g) in enumerate(calls):
        if k % 6 != case['part']:
            continue
        for j, (nm2, f2, g2) in enumerate(calls):
            out.step(2)
            out.state((nm, nm2))
            try:
                spoil(g())
                r = flat(g2())
            except Exception as e:
                out.check(ref[j] is None, 'handed-out:raised:' + f2, lambda: '%s after %s: %r' % (nm2, nm, e))
                continue
            out.check(ref[j] is not None and r.shape == ref[j].shape and dn.close(r, ref[j], 1e-10), 'handed-out:' + f2, lambda: '%s after the result of %s was overwritten' % (nm2, nm))
    out.trace()


def models(case, out):
    """the documented model Hamiltonians, summed over the chain"""
    from xmps import spin as sp
    S, N = case['twoS'] / 2, case['N']
    d = case['twoS'] + 1
    if d**N > 700:
        return
    Sx, Sy, Sz = S_(S)
    two = lambda a, b: np.kron(a, b)
    one = np.eye(d)
    SS = two(Sx, Sx) + two(Sy, Sy) + two(Sz, Sz)
    z = np.zeros((d * d,) * 2)
    gen = lambda J, h: (sum((j * two(s, s) for j, s in zip(J, (Sx, Sy, Sz))), z), sum(x * s for x, s in zip(h, (Sx, Sy, Sz))))
    ms = []
    for J in itertools.product((0, 1.3, -.4), repeat=3):
        for h in ((0, 0, 0), (.5, 0, 0), (0, .7, 0), (0, 0, -.9), (.2, -.3, .4)):
            ms.append(('nn_general', J + h, gen(J, h)))
    for J in (1.0, -.6):
        ms += [('heisenberg_ferromagnet', (J,), gen((-J,) * 3, (0,) * 3)), ('heisenberg_antiferromagnet', (J,), gen((J,) * 3, (0,) * 3)),
               ('XY', (J,), gen((-(1 + J), -(1 - J), 0), (0,) * 3)), ('XXZ', (J, .3), gen((J, J, .3), (0,) * 3)), ('TFIM', (J,), gen((0, 0, -J), (-1, 0, 0)))]
    ms.append(('AKLT', (), (SS / 2 + SS @ SS / 6 + np.eye(d * d) / 3, 0 * Sx)))
    for nm, args, (h2, h1) in ms:
        det = lambda: '%s%s S=%s N=%d' % (nm, args, S, N)
        out.state((nm, args))
        out.step(2)
        ok, m = out.attempt('models', lambda: sp.spinHamiltonians(S, True, N))
        if not ok:
            return
        if not out.check(m is not None, 'models:none'):
            return
        ok, hs = out.attempt(nm, getattr(m, nm), *args)
        if ok and out.check(len(hs) == N - 1 and all(np.shape(h) == (d * d,) * 2 for h in hs), nm + ':terms', det):
            got = sum(dn.embed(h, [i, i + 1], [d] * N) for i, h in enumerate(hs))
            want = sum(dn.embed(h2, [i, i + 1], [d] * N) for i in range(N - 1)) + sum(dn.embed(h1, [i], [d] * N) for i in range(N))
            out.check(dn.close(got, want, 1e-9), nm, det)
        ok, h = out.attempt(nm + ':bulk', getattr(sp.spinHamiltonians(S, False), nm), *args)
        if ok and out.check(np.shape(h) == (d * d,) * 2, nm + ':bulk:shape', det):
            # on a ring the bulk terms sum to the model
            if N > 2:
                ring = lambda m2: sum(dn.embed(m2, [i, (i + 1) % N], [d] * N) for i in range(N))
                want = ring(h2) + sum(dn.embed(h1, [i], [d] * N) for i in range(N))
                out.check(dn.close(ring(h), want, 1e-9), nm + ':bulk', det)
    out.trace()
    out.sample({'S': S, 'N': N})
