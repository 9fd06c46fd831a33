"""Uniform infinite states: alphabet and explicit transfer-matrix algebra (plain numpy, shares no code with xmps)."""
import numpy as np
from . import dense as dn


def tm(A, B=None):
    """T[(a,b),(c,d)] = sum_s A[s,a,c] conj(B)[s,b,d]: acts on [ket, bra]"""
    B = A if B is None else B
    return np.einsum('sab,scd->acbd', A, B.conj()).reshape(A.shape[1] * B.shape[1], -1)


def fixed(A):
    """leading eigenvalue, l[ket, bra] and r[ket, bra] with sum(l * r) = 1, tr r = 1"""
    D = A.shape[1]
    T = tm(A)
    w = np.linalg.eigvals(T)
    k = np.argmax(abs(w))
    # the null vectors of T - eta: LAPACK's eigenvectors are inaccurate next to defective eigenvalues
    U, s, Vh = np.linalg.svd(T - w[k] * np.eye(len(T)))
    r = Vh[-1].conj().reshape(D, D)
    r = r / np.trace(r)
    l = U[:, -1].conj().reshape(D, D)
    return float(np.real(w[k])), l / (l * r).sum(), r


def gap(A):
    w = np.sort(abs(np.linalg.eigvals(tm(A))))[::-1]
    return w[1] / w[0] if len(w) > 1 else 0.


def rdm(A, n=1):
    """reduced density matrix of n neighbouring sites"""
    eta, l, r = fixed(A)
    d, D = A.shape[0], A.shape[1]
    B = np.eye(D).reshape(1, D, D)
    for _ in range(n):
        B = np.einsum('sab,tbc->stac', B, A).reshape(-1, D, D)
    rho = np.einsum('ab,sac,tbd,cd->st', l, B, B.conj(), r, optimize=True)
    return rho / np.trace(rho)


def schmidt(A):
    """Schmidt values of the infinite chain, largest first"""
    _, l, r = fixed(A)
    w = np.sqrt(np.clip(np.sort(np.real(np.linalg.eigvals(l.T @ r)))[::-1], 0, None))
    return w / np.linalg.norm(w)


def phys_dist(A, B, n=3):
    """largest deviation of the 1..n site reduced density matrices (n lowered for large local dimensions)"""
    n = n if A.shape[0]**n <= 64 else 2
    return max(abs(rdm(A, k) - rdm(B, k)).max() for k in range(1, n + 1))


def build(spec):
    k, d, D = spec['kind'], spec.get('d', 2), spec.get('D', 1)
    if k == 'aklt':
        s = np.sqrt
        A = np.array([s(2 / 3) * np.array([[0, 1], [0, 0]]), -s(1 / 3) * np.array([[1, 0], [0, -1]]), -s(2 / 3) * np.array([[0, 0], [1, 0]])], dtype=complex)
    elif k == 'mg':        # a tilted cluster state
        A = np.array([[[1, .6], [0, 0]], [[0, 0], [.6, -1]]], dtype=complex)
    else:
        A = dn.gen((d, D, D), ('inf', spec.get('tag', 0)), bool(spec.get('real')))
        A = A / np.sqrt(fixed(A)[0])
    D = A.shape[1]
    if spec.get('gauge'):
        X = dn.gen((D, D), ('gauge', spec['gauge'])) + 1.5 * np.eye(D)
        A = X @ A @ np.linalg.inv(X)
    A = np.array(A * spec.get('scale', 1.0))
    if spec.get('lay') == 'F':
        A = np.asfortranarray(A)
    elif spec.get('lay') == 'T':
        A = np.ascontiguousarray(A.transpose(2, 0, 1)).transpose(1, 2, 0)
    return A


def specs(level=1):
    out = []
    for d in ((2, 3) if level == 1 else (2, 3, 4)):
        for D in ((1, 2, 3, 4) if level == 1 else (1, 2, 3, 4, 5, 6)):
            for tag in range(2 if level == 1 else 4):
                out.append(dict(kind='gen', d=d, D=D, tag=tag))
            out.append(dict(kind='gen', d=d, D=D, tag='re', real=1))
            out.append(dict(kind='gen', d=d, D=D, tag='g', gauge=1))
            out.append(dict(kind='gen', d=d, D=D, tag='sc', scale=7.5))
            out.append(dict(kind='gen', d=d, D=D, tag='sm', scale=0.03, gauge=2))
    for D in (2, 3):
        out += [dict(kind='gen', d=2, D=D, tag='up', scale=1e6), dict(kind='gen', d=2, D=D, tag='down', scale=1e-6), dict(kind='gen', d=2, D=D, tag='lF', lay='F'),
                dict(kind='gen', d=3, D=D, tag='lT', lay='T', real=1)]
    out.append(dict(kind='aklt'))
    out.append(dict(kind='aklt', gauge=1))
    out.append(dict(kind='mg', gauge=1))
    out.append(dict(kind='mg', scale=0.5))
    return out
