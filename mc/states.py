"""Finite alphabet of initial states / tensors for finite chains. Everything is a fixed function of its name."""
import itertools
import numpy as np
from . import dense as dn


def build(spec):
    """spec: dict(kind=..., L=..., d=..., ...) -> list of (d, Dl, Dr) arrays (fresh)"""
    k, L, d = spec['kind'], spec.get('L'), spec.get('d', 2)
    tag = spec.get('tag', 0)
    real = bool(spec.get('real', 0))
    if k == 'bonds':
        data = dn.mps_from_bonds(spec['bonds'], d, tag, real)
    elif k == 'basis':       # computational product state
        data = []
        for i in range(L):
            v = np.zeros((d, 1, 1), dtype=complex)
            v[spec['s'][i] % d] = 1
            data.append(v)
    elif k == 'product':     # normalised generic product state
        data = []
        for i in range(L):
            v = dn.gen((d,), ('prod', tag, i), real)
            data.append((v / np.linalg.norm(v)).reshape(d, 1, 1))
    elif k in ('ghz', 'w', 'bell'):
        psi = {'ghz': lambda: dn.ghz(L, d), 'w': lambda: dn.wstate(L, d), 'bell': lambda: dn.bells(L)}[k]()
        if spec.get('rot'):
            psi = dn.kronall([dn.unitary(d, ('rot', tag, i), real) for i in range(L)]) @ psi
        data = dn.split_dense(psi, [d] * L)
    elif k == 'dup':         # |psi> written as a sum of two copies of itself: exactly rank deficient bonds
        a = dn.mps_from_bonds(spec['bonds'], d, tag, real)
        n = len(a)
        data = []
        for i, A in enumerate(a):
            _, p, q = A.shape
            if i == 0:
                data.append(np.concatenate([A, A], 2))
            elif i == n - 1:
                data.append(np.concatenate([A, A], 1))
            else:
                B = np.zeros((d, 2 * p, 2 * q), dtype=complex)
                B[:, :p, :q] = A
                B[:, p:, q:] = A
                data.append(B)
    elif k == 'pad':         # zero padded bonds (at the end of the bond, or in front of the live part)
        a = dn.mps_from_bonds(spec['bonds'], d, tag, real)
        n = len(a)
        by = (spec['by'], 0) if spec.get('front') else (0, spec['by'])
        data = [np.pad(A, [(0, 0), by if i else (0, 0), by if i < n - 1 else (0, 0)])
                for i, A in enumerate(a)]
    elif k == 'graded':      # Schmidt values falling by 10**-g from one to the next
        data = dn.mps_from_bonds(spec['bonds'], d, tag, real)
        for i in range(len(data) - 1):
            data[i] = data[i] * 10. ** (-spec['g'] * np.arange(data[i].shape[2]))
    elif k == 'ghzraw':      # weighted GHZ written with diagonal tensors; proj: sites projected on an outcome afterwards,
        w = spec.get('amp', [1.] * d)      # so that bonds carry dead directions before or after the live one
        data = []
        for i in range(L):
            A = np.zeros((d, d, d), dtype=complex)
            for s in range(d):
                A[s, s, s] = 1
            for p, o in spec.get('proj', []):
                if p == i:
                    for s in range(d):
                        if s not in o:
                            A[s] = 0
            data.append(A)
        data[0] = (data[0] * np.array(w)[None, :, None]).sum(1, keepdims=True)
        data[-1] = data[-1].sum(2, keepdims=True)
    else:
        raise ValueError(k)
    sc = spec.get('scale', 1.0)
    if sc != 1.0:
        data[len(data) // 2] = data[len(data) // 2] * sc
    data = [np.array(x, dtype=float if (real and np.isrealobj(x)) else complex) for x in data]
    lay = spec.get('lay')
    if lay == 'F':           # memory laid out the other way round (what transposing and LAPACK hand out)
        data = [np.asfortranarray(x) for x in data]
    elif lay == 'T':         # bond indices swapped in memory
        data = [np.ascontiguousarray(x.transpose(0, 2, 1)).transpose(0, 2, 1) for x in data]
    elif lay == 'int':       # whole numbers
        data = [np.real(x).astype(int) for x in data]
    return data


def name(spec):
    return '_'.join('%s%s' % (a, spec[a]) for a in sorted(spec) if a != 'w').replace(' ', '')


def all_bonds(L, maxb):
    """every tuple of inner bond dimensions 1..maxb"""
    for inner in itertools.product(range(1, maxb + 1), repeat=L - 1):
        yield [1] + list(inner) + [1]


def finite_specs(level=1, ds=(2, 3)):
    """level 1: quick alphabet; level 2: thorough"""
    out = []
    Ls = (2, 3, 4, 5) if level == 1 else (2, 3, 4, 5, 6)
    for L in Ls:
        out.append(dict(kind='basis', L=L, s=[i % 2 for i in range(L)]))
        out.append(dict(kind='product', L=L))
        for k in ('ghz', 'w', 'bell'):
            out.append(dict(kind=k, L=L))
            out.append(dict(kind=k, L=L, rot=1))
        for D in ((1, 2, 3, 4) if level == 1 else (1, 2, 3, 4, 5, 8)):
            out.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(L, 2, D), L=L, tag=D))
        out.append(dict(kind='bonds', d=2, bonds=[1] + [3] * (L - 1) + [1], L=L, tag='over'))      # over-complete ends
        out.append(dict(kind='bonds', d=2, bonds=[1] + [2 + (i % 3) for i in range(L - 1)] + [1], L=L, tag='var', real=1))
        out.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(L, 2, 4), L=L, tag='sc', scale=37.5))
        out.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(L, 2, 2), L=L, tag='sm', scale=0.004))
        if L in (2, 3, 4):
            out.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(L, 2, 2), L=L, tag='faint', scale=1e-7))
        out.append(dict(kind='dup', d=2, bonds=dn.std_bonds(L, 2, 2), L=L, tag='dup'))
        out.append(dict(kind='pad', d=2, bonds=dn.std_bonds(L, 2, 2), L=L, tag='pad', by=1))
        if L <= 4:
            out.append(dict(kind='pad', d=2, bonds=dn.std_bonds(L, 2, 2), L=L, tag='pad', by=1, front=1))
            out.append(dict(kind='ghzraw', d=2, L=L))
            out.append(dict(kind='ghzraw', d=2, L=L, amp=[.3, 1.1]))
            for p in (0, L // 2, L - 1):
                out.append(dict(kind='ghzraw', d=2, L=L, proj=[[p, [1]]]))
            out.append(dict(kind='ghzraw', d=2, L=L, proj=[[L - 1, [0]]]))
            if 3 in ds:
                out.append(dict(kind='ghzraw', d=3, L=L, amp=[.5, .9, 1.4], proj=[[L // 2, [0, 2]]]))
                out.append(dict(kind='ghzraw', d=3, L=L, proj=[[0, [1, 2]]]))
        for g in (1, 2, 2.5) if L < 5 else (2,):
            out.append(dict(kind='graded', d=2, bonds=dn.std_bonds(L, 2, 3), L=L, g=g))
        if L == 4:
            out.append(dict(kind='graded', d=3, bonds=dn.std_bonds(L, 3, 3), L=L, g=2))
            out.append(dict(kind='ghzraw', d=2, L=L, amp=[1., 1e-4]))
        if L <= (4 if level == 1 else 5) and 3 in ds:
            out.append(dict(kind='bonds', d=3, bonds=dn.std_bonds(L, 3, 4), L=L, tag='d3'))
            out.append(dict(kind='bonds', d=3, bonds=[1] + [2] * (L - 1) + [1], L=L, tag='d3b'))
            out.append(dict(kind='ghz', L=L, d=3, rot=1))
        if L in (3, 4):
            for lay in ('F', 'T'):
                out.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(L, 2, 3), L=L, tag='lay', lay=lay))
                out.append(dict(kind='bonds', d=2, bonds=[1] + [3] * (L - 1) + [1], L=L, tag='lay', lay=lay, real=1))
            out.append(dict(kind='basis', L=L, s=[i % 2 for i in range(L)], lay='int'))
            out.append(dict(kind='ghzraw', d=2, L=L, lay='int'))
        if L == 3 and 3 in ds:
            out.append(dict(kind='bonds', d=4, bonds=[1, 4, 3, 1], L=L, tag='d4'))
    for b in all_bonds(3, 3):
        out.append(dict(kind='bonds', d=2, bonds=b, L=3, tag='all'))
    if level > 1:
        for b in all_bonds(4, 3):
            out.append(dict(kind='bonds', d=2, bonds=b, L=4, tag='all'))
    out.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(8, 2, 5), L=8, tag='L8'))
    out.append(dict(kind='bonds', d=2, bonds=dn.std_bonds(11, 2, 3), L=11, tag='L11'))
    seen, res = set(), []
    for s in out:
        n = name(s)
        if n not in seen:
            seen.add(n)
            res.append(s)
    return res
