"""C25: the named chain Hamiltonians are the same operator in full, local and matrix product form."""
import itertools, os, sys
import numpy as np
from mc import dense as dn

PROP, LEVEL = 'C25', 'model_checking'
BOUNDS = ('every operator placement (S_n_body of every spin 1/2 operator, Sp, Sm, Sx, Sy, Sz) on every site of 1..5 (thorough 7) sites in both output forms, off-chain sites refused; the anisotropic Heisenberg chain and the Ising chain '
          'in every form (full, local term, local terms, matrix product operator) on 2..5 (thorough 8) sites for every triple of couplings from a grid including zero, negative, complex and very weak ones; every order of two constructions')
ASSUMPTIONS = ['xmps/ itself is on the path, as its import statements need', 'qutip matrices of the spin 1/2 operators, compared with hand-written Pauli matrices']
X, Y, Z, I = dn.X, dn.Y, dn.Z, dn.I2
P, M = (X + 1j * Y) / 2, (X - 1j * Y) / 2


def mod():
    import xmps
    d = os.path.dirname(os.path.abspath(xmps.__file__))
    if d not in sys.path:
        sys.path.append(d)
    import qmb
    return qmb


def arr(x):
    return np.asarray(x.full() if hasattr(x, 'full') else x)


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = [dict(group='place', n=n, w=n) for n in range(1, 6 if lvl == 1 else 8)]
    grid = [0, 1, -.7, .3, 1e-6] if lvl == 1 else [0, 1, -.7, .3, 2.5, 1e-3, 1e-6]
    for n in range(2, 6 if lvl == 1 else 9):
        cs += [dict(group='chain', n=n, h=h, grid=grid, w=2**n) for h in grid]
    cs.append(dict(group='order', grid=grid, w=4))
    return cs


def emb(op, i, n):
    return dn.embed(op, [i] if len(op) == 2 else [i, i + 1], [2] * n)


def run_place(case, out):
    q = mod()
    import qutip
    n = case['n']
    for i in range(n):
        for nm, f, op in (('Sp', q.Sp, P), ('Sm', q.Sm, M), ('Sx', q.Sx, X), ('Sy', q.Sy, Y), ('Sz', q.Sz, Z)):
            out.state((nm, i))
            out.step()
            ok, r = out.attempt(nm, f, i, n)
            if ok:
                out.check(arr(r).shape == (2**n, 2**n) and np.allclose(arr(r), emb(op, i, n), atol=1e-12), nm, lambda: 'site %d of %d' % (i, n))
            ok, r = out.attempt(nm + ':list', f, i, n, False)
            if ok:
                out.check(np.shape(r) == (n, 2, 2) and all(np.allclose(r[k], op if k == i else I) for k in range(n)), nm + ':list', lambda: 'site %d of %d' % (i, n))
        G = dn.gen((2, 2), ('q', i))
        ok, r = out.attempt('S_n_body', q.S_n_body, qutip.Qobj(G), i, n)
        if ok:
            out.check(np.allclose(arr(r), emb(G, i, n)), 'S_n_body', lambda: 'site %d of %d' % (i, n))
    for i in (n, n + 1):
        try:
            q.Sz(i, n)
            out.bad('place:accepted', 'site %d of %d' % (i, n))
        except Exception:
            out.check(True, 'place:accepted')
    out.trace()


def heis(h, J, Jz, n):
    H = np.zeros((2**n, 2**n), complex)
    for i in range(n - 1):
        H += emb(J / 4 * (np.kron(X, X) + np.kron(Y, Y)) + Jz * np.kron(Z, Z), i, n)
    return H - sum(h * emb(Z, i, n) for i in range(n))


def mpo(Ws):
    T = np.ones((1, 1, 1))
    for W in Ws:
        T = np.einsum('xya,udab->xuydb', T, W)
        T = T.reshape(T.shape[0] * 2, -1, T.shape[-1])
    return T[:, :, 0] if T.shape[-1] == 1 else T


def forms(q, n, h, J, Jz):
    bond = J / 4 * (np.kron(X, X) + np.kron(Y, Y)) + Jz * np.kron(Z, Z)
    zz = np.kron(Z, Z)
    total = lambda ls: sum(emb(np.asarray(x), i, n) for i, x in enumerate(ls)) if len(ls) == n - 1 else np.zeros(1)
    H = heis(h, J, Jz, n)
    ising = lambda: -sum(J * emb(zz, i, n) for i in range(n - 1)) - sum(h * emb(X, i, n) for i in range(n))
    yield 'anisotropic_heisenberg', lambda: q.anisotropic_heisenberg(h, J, Jz, n), arr, H
    yield 'local_anisotropic_heisenbergs', lambda: q.local_anisotropic_heisenbergs(h, J, Jz, n), total, H
    yield 'anisotropic_heisenberg_mpo', lambda: q.anisotropic_heisenberg_mpo(h, J, Jz, n), mpo, H
    yield 'local_anisotropic_heisenberg', lambda: q.local_anisotropic_heisenberg(h, J, Jz), arr, bond - h * np.kron(Z, I)
    yield 'local_isings', lambda: q.local_isings(J, h, n), total, ising()
    yield 'local_ising', lambda: q.local_ising(J, h), arr, -(J * zz + h / 2 * (np.kron(X, I) + np.kron(I, X)))


def run_chain(case, out):
    q = mod()
    n, h = case['n'], case['h']
    for J, Jz in itertools.product(case['grid'], repeat=2):
        for c in (1, 1j, 1e-6) if n < 4 else (1,):
            for nm, f, rd, want in forms(q, n, c * h, c * J, c * Jz):
                det = lambda: '%s(h=%s, J=%s, Jz=%s, n=%d)' % (nm, h, J, Jz, n)
                out.state((nm, n, h, J, Jz, c))
                out.step()
                ok, r = out.attempt(nm, f)
                if ok:
                    ok, r = out.attempt(nm + ':read', rd, r)
                if ok:
                    out.check(np.shape(r) == want.shape and np.allclose(r / c, want / c, atol=1e-10), nm, det)
        # the energy of a state is the same by every route
        if n < 6:
            from xmps.fMPS import fMPS
            d = [dn.gen((2, min(2**i, 2**(n - i), 3), min(2**(i + 1), 2**(n - i - 1), 3)), ('qs', i)) for i in range(n)]
            m = fMPS([x.copy() for x in d]).left_canonicalise()
            v = dn.dense(m.data)
            e = np.real(np.vdot(v, heis(h, J, Jz, n) @ v))
            ok, g = out.attempt('energy', lambda: m.energy(q.local_anisotropic_heisenbergs(h, J, Jz, n)))
            if ok:
                out.check(abs(g - e) < 1e-8, 'energy', lambda: 'h=%s J=%s Jz=%s n=%d: %s != %s' % (h, J, Jz, n, g, e))
            ok, g = out.attempt('E_L', lambda: m.E_L(arr(q.anisotropic_heisenberg(h, J, Jz, n))))
            if ok:
                out.check(abs(g - e) < 1e-8, 'E_L', lambda: 'h=%s J=%s Jz=%s n=%d: %s != %s' % (h, J, Jz, n, g, e))
    out.trace()
    out.sample({'n': n, 'h': h})


def run_order(case, out):
    """what was built before, and what was done to it, does not matter"""
    q = mod()
    for (n1, a), (n2, b) in itertools.product([(2, (.3, 1, -.7)), (3, (1, 0, .5)), (4, (-.2, .6, 1))], repeat=2):
        for x in forms(q, n1, *a):
            for y in forms(q, n2, *b):
                out.state((x[0], y[0], n1, n2))
                out.step()
                ok, r = out.attempt('order:' + x[0], x[1])
                if ok and isinstance(r, list):
                    for t in r:
                        if isinstance(t, np.ndarray) and t.flags.writeable:
                            t[...] = 7
                ok, r = out.attempt('order:' + y[0], lambda: y[2](y[1]()))
                if ok:
                    out.check(np.shape(r) == y[3].shape and np.allclose(r, y[3], atol=1e-10), 'order:' + y[0], lambda: '%s after %s' % (y[0], x[0]))
    out.trace()


def run(case, out):
    globals()['run_' + case['group']](case, out)
