"""Reference model: dense vectors and operators, written with plain numpy, sharing no code with xmps."""
import hashlib
from itertools import product
import numpy as np


def gen(shape, tag, real=False):
    """deterministic generic numbers: a fixed function of (shape, tag)"""
    h = int.from_bytes(hashlib.blake2b(repr((tuple(shape), tag)).encode(), digest_size=8).digest(), 'big')
    r = np.random.Generator(np.random.PCG64(h))
    x = r.standard_normal(shape)
    return x if real else x + 1j * r.standard_normal(shape)


def herm(n, tag, real=False):
    a = gen((n, n), tag, real)
    return (a + a.conj().T) / 2


def unitary(n, tag, real=False):
    q, r = np.linalg.qr(gen((n, n), tag, real))
    return q * (np.diag(r) / abs(np.diag(r)))


X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]])
Z = np.array([[1, 0], [0, -1]], dtype=complex)
I2 = np.eye(2, dtype=complex)


def kronall(ops):
    o = np.eye(1)
    for x in ops:
        o = np.kron(o, x)
    return o


def dense(data):
    """state vector (C order, site 0 slowest) of a finite open chain of (phys, left, right) tensors"""
    v = np.ones((1, 1), dtype=complex)
    for A in data:
        A = np.asarray(A)
        v = np.einsum('xl,slr->xsr', v, A).reshape(-1, A.shape[2])
    assert v.shape[1] == 1
    return v[:, 0]


def split_dense(psi, dims, tol=1e-12):
    """exact, minimal MPS data of a dense vector"""
    out, rest, D = [], np.asarray(psi, dtype=complex).reshape(1, -1), 1
    for i, d in enumerate(dims):
        if i == len(dims) - 1:
            out.append(rest.reshape(D, d, 1).transpose(1, 0, 2))
            break
        u, s, v = np.linalg.svd(rest.reshape(D * d, -1), full_matrices=False)
        k = max(1, int((s > tol * max(s[0], 1e-300)).sum()))
        out.append(u[:, :k].reshape(D, d, k).transpose(1, 0, 2))
        rest, D = s[:k, None] * v[:k], k
    return out


def embed(op, sites, dims):
    """dense operator acting as op on the listed sites (in that order), identity elsewhere"""
    n, k = len(dims), len(sites)
    sd = [dims[s] for s in sites]
    rest = [i for i in range(n) if i not in sites]
    full = np.kron(np.asarray(op), np.eye(int(np.prod([dims[r] for r in rest], initial=1))))
    order = list(sites) + rest
    full = full.reshape([dims[o] for o in order] * 2)
    inv = [order.index(i) for i in range(n)]
    full = full.transpose(inv + [n + i for i in inv])
    N = int(np.prod(dims))
    return full.reshape(N, N)


def apply(op, sites, psi, dims):
    """embed(op, sites) @ psi without the big matrix"""
    n, k = len(dims), len(sites)
    t = np.asarray(psi).reshape(dims)
    o = np.asarray(op).reshape([dims[s] for s in sites] * 2)
    t = np.tensordot(o, t, (list(range(k, 2 * k)), list(sites)))
    rest = [i for i in range(n) if i not in sites]
    order = list(sites) + rest
    return t.transpose([order.index(i) for i in range(n)]).reshape(-1)


def rdm(psi, sites, dims):
    """reduced density matrix of the normalised state on the listed sites, in the listed order"""
    psi = np.asarray(psi) / np.linalg.norm(psi)
    rest = [i for i in range(len(dims)) if i not in sites]
    m = psi.reshape(dims).transpose(list(sites) + rest).reshape(int(np.prod([dims[s] for s in sites])), -1)
    return m @ m.conj().T


def schmidt(psi, cut, dims):
    psi = np.asarray(psi) / np.linalg.norm(psi)
    return np.linalg.svd(psi.reshape(int(np.prod(dims[:cut], initial=1)), -1), compute_uv=False)


def expect(op, sites, psi, dims):
    psi = np.asarray(psi) / np.linalg.norm(psi)
    return np.vdot(psi, apply(op, sites, psi, dims))


def ray_dist(a, b):
    """distance between the rays of two vectors"""
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    if a.shape != b.shape:
        return np.inf
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if not (np.isfinite(na) and np.isfinite(nb)) or na == 0 or nb == 0:
        return np.inf
    a, b = a / na, b / nb
    z = np.vdot(b, a)
    ph = z / abs(z) if abs(z) > 0 else 1
    return np.linalg.norm(a - ph * b)


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isfinite(a))) and bool(np.max(abs(a - b), initial=0) <= tol * max(1, np.max(abs(b), initial=0)))


def std_bonds(L, d, D):
    """the standard open-chain bond dimensions"""
    return [min(d**min(i, L - i), D) for i in range(L + 1)]


def mps_from_bonds(bonds, d, tag, real=False, kind='plain'):
    """generic MPS data with the given bond dimensions (len L+1, 1 at both ends)"""
    return [gen((d, bonds[i], bonds[i + 1]), (tag, i), real) / np.sqrt(d * bonds[i]) for i in range(len(bonds) - 1)]


def ghz(L, d=2):
    v = np.zeros(d**L, dtype=complex)
    for s in range(d):
        v[sum(s * d**i for i in range(L))] = 1
    return v / np.sqrt(d)


def wstate(L, d=2):
    v = np.zeros([d] * L, dtype=complex)
    for i in range(L):
        idx = [0] * L
        idx[i] = 1
        v[tuple(idx)] = 1
    return v.reshape(-1) / np.sqrt(L)


def bells(L):
    """Bell pairs on (0,1),(2,3)...; an odd site left in |+>"""
    b = np.array([1, 0, 0, 1], dtype=complex) / np.sqrt(2)
    v = np.ones(1, dtype=complex)
    for _ in range(L // 2):
        v = np.kron(v, b)
    if L % 2:
        v = np.kron(v, np.array([1, 1]) / np.sqrt(2))
    return v


def digest(obj, nd=7):
    """canonical digest of an object's state: arrays rounded, shapes, flags; callables and ids dropped"""
    h = hashlib.blake2b(digest_size=8)

    def walk(x):
        if isinstance(x, np.ndarray):
            h.update(repr(x.shape).encode())
            y = np.round(np.asarray(x, dtype=complex), nd) + 0.0
            h.update((y + (0 + 0j)).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b'[')
            for y in x:
                walk(y)
            h.update(b']')
        elif isinstance(x, dict):
            for k in sorted(map(str, x)):
                h.update(k.encode())
                walk(x[k] if k in x else None)
        elif isinstance(x, (bool, int, float, complex, np.number, np.bool_)):
            h.update(repr(np.round(x, nd)).encode())
        elif hasattr(x, 'data') and hasattr(x, '__dict__'):
            walk({k: v for k, v in vars(x).items() if not callable(v) and not isinstance(v, str)})
    walk(obj)
    return h.digest()
