"""Dense reference for the flow on the manifold of states of given bond dimensions: no tensors of the code under test,
only the dense vector, truncated to its Schmidt ranks, and the projector onto the tangent space there."""
import numpy as np
from . import dense as dn


def ranks(psi, dims, tol=1e-10):
    return [int((dn.schmidt(psi, i, dims) > tol).sum()) for i in range(1, len(dims))]


def retract(psi, dims, r):
    """nearest (sweeping) state with Schmidt ranks r, as tensors"""
    out, rest, D = [], np.asarray(psi, dtype=complex).reshape(1, -1), 1
    for i, d in enumerate(dims[:-1]):
        u, s, v = np.linalg.svd(rest.reshape(D * d, -1), full_matrices=False)
        k = min(r[i], len(s))
        out.append(u[:, :k].reshape(D, d, k).transpose(1, 0, 2))
        rest, D = s[:k, None] * v[:k], k
    out.append(rest.reshape(D, dims[-1], 1).transpose(1, 0, 2))
    return out


def tangent_basis(data):
    """orthonormal (complex) basis of the span of all one-site variations"""
    cols = []
    left, right = [np.ones((1, 1), dtype=complex)], [np.ones((1, 1), dtype=complex)]
    for A in data:
        left.append(np.einsum('xl,slr->xsr', left[-1], A).reshape(-1, A.shape[2]))
    for A in data[::-1]:
        right.insert(0, np.einsum('slr,rx->lsx', A, right[0]).reshape(A.shape[1], -1))
    for n, A in enumerate(data):
        J = np.einsum('xl,st,ry->xsytlr', left[n], np.eye(A.shape[0]), right[n + 1])
        cols.append(J.reshape(-1, A.size))
    u, s, _ = np.linalg.svd(np.concatenate(cols, 1), full_matrices=False)
    return u[:, s > 1e-9 * s[0]]


def field(psi, M, dims, r):
    Q = tangent_basis(retract(psi, dims, r))
    w = -1j * (M @ psi)
    return Q @ (Q.conj().T @ w)


def project(psi, dims, r):
    v = dn.dense(retract(psi, dims, r))
    return v / np.linalg.norm(v)


def flow(psi, M, dims, T, r=None, h=0.02):
    """states at the times T (first one: psi), by Runge-Kutta steps no longer than h"""
    r = r or ranks(psi, dims)
    out = [psi]
    for dt in np.diff(T):
        n = max(1, int(np.ceil(abs(dt) / h - 1e-9)))
        e = dt / n
        for _ in range(n):
            k1 = field(psi, M, dims, r)
            k2 = field(psi + e / 2 * k1, M, dims, r)
            k3 = field(psi + e / 2 * k2, M, dims, r)
            k4 = field(psi + e * k3, M, dims, r)
            psi = project(psi + e / 6 * (k1 + 2 * k2 + 2 * k3 + k4), dims, r)
        out.append(psi)
    return out


def dense_h(H, d):
    L = len(H) + 1
    M = np.zeros((d**L, d**L), dtype=complex)
    for i, h in enumerate(H):
        M += np.kron(np.kron(np.eye(d**i), np.asarray(h).reshape(d * d, d * d)), np.eye(d**(L - i - 2)))
    return M
