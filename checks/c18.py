"""C18: two-dimensional states (fPEPS) and matrix product operators (fMPO) against dense tensors."""
import itertools
from functools import reduce
import numpy as np
from mc import dense as dn

PROP, LEVEL = 'C18', 'model_checking'
BOUNDS = ('MPOs: lengths 2..4 (thorough 5), local dimensions 1..3, every bond tuple from {1,2,3}, real and complex, every product of two operators and of an operator and a state, every '
          'sequence of up to 2 (thorough 3) leg/site reversals. PEPS: every lattice up to 3x3 (both orientations), bond dimensions 1..2 (3 on small lattices), uniform and uneven bonds, local dimension 2 and 3, real/complex/tiny (1e-5)/other memory layouts/'
          'product/entangled; every operator x site, every rectangular patch, every cut and kept dimension, every orthogonality centre; operation sequences to depth 3 (up to 4 sites and thorough: 4)')
ASSUMPTIONS = ['PEPS operations that contract with rows of matrix product operators need at least two columns (one-column lattices are marked unimplemented upstream)',
               'moses moves and the tensor splitting they use are outside: their disentangler is a stub in this tree', 'expectation values are of Hermitian operators and of the state as it is (not normalised)',
               'environments are defined on square lattices', 'lattices of uneven bonds may be refused by isometrise with its stated message']
RULE = ('one execution per (object, operation or query) compared with the dense tensor; distinct by the digest of the structure and entries before and after; sequences: one per operation word')
TOL = 1e-9
SCALE = 1


def close(a, b, tol=TOL):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return bool(np.max(abs(a - b), initial=0) <= tol * max(SCALE, np.max(abs(b), initial=0)))


def dig(ts):
    return dn.digest([np.asarray(t) for t in ts]) if not isinstance(ts, np.ndarray) else dn.digest([ts])


# ---- reference model ---------------------------------------------------------------------------------
def grid_dense(data):
    """tensor of a PEPS with one axis per site in reading order; legs of a site: (phys, up, right, down, left)"""
    Ly, Lx = len(data), len(data[0])
    lab = itertools.count()
    hor = {(x, y): next(lab) for y in range(Ly) for x in range(-1, Lx)}   # bond right of (x,y)
    ver = {(x, y): next(lab) for y in range(-1, Ly) for x in range(Lx)}   # bond below (x,y)
    ph = {(x, y): next(lab) for y in range(Ly) for x in range(Lx)}
    args = []
    for y in range(Ly):
        for x in range(Lx):
            args += [np.asarray(data[y][x]), [ph[x, y], ver[x, y - 1], hor[x, y], ver[x, y], hor[x - 1, y]]]
    order = [ph[x, y] for y in range(Ly) for x in range(Lx)]
    # absorb site by site, summing a bond as soon as both its ends are in
    cur, cl = np.ones(()), []
    for y in range(Ly):
        for x in range(Lx):
            t, tl = args[2 * (y * Lx + x)], args[2 * (y * Lx + x) + 1]
            common = [l for l in tl if l in cl]
            cur = np.tensordot(cur, t, [[cl.index(l) for l in common], [tl.index(l) for l in common]])
            cl = [l for l in cl if l not in common] + [l for l in tl if l not in common]
    rest = [l for l in cl if l not in order]
    assert all(cur.shape[cl.index(l)] == 1 for l in rest)
    return cur.transpose([cl.index(l) for l in order] + [cl.index(l) for l in rest]).reshape([cur.shape[cl.index(l)] for l in order])


def mpo_dense(data):
    """matrix (up..., down...) of a chain of (up, right, down, left) tensors"""
    cur = np.ones((1, 1, 1))
    for W in data:
        cur = np.einsum('abl,urdl->aubdr', cur, W).reshape(cur.shape[0] * W.shape[0], cur.shape[1] * W.shape[2], W.shape[1])
    assert cur.shape[2] == 1
    return cur[:, :, 0]


def swap_phys(t, perm):
    return t.transpose(perm)


# ---- initial states ----------------------------------------------------------------------------------
def peps_data(spec):
    Lx, Ly, d, k = spec['Lx'], spec['Ly'], spec['d'], spec['kind']
    hb = lambda x, y: 1 if x < 0 or x == Lx - 1 else spec['bonds'][(x + y) % len(spec['bonds'])]
    vb = lambda x, y: 1 if y < 0 or y == Ly - 1 else spec['bonds'][(x + 2 * y + 1) % len(spec['bonds'])]
    data = []
    for y in range(Ly):
        data.append([])
        for x in range(Lx):
            sh = (d, vb(x, y - 1), hb(x, y), vb(x, y), hb(x - 1, y))
            if k == 'ghz':
                t = np.zeros(sh, complex)
                for s in range(min(d, min([n for n in sh[1:] if n > 1] or [d]))):
                    t[(s,) + tuple(s if n > 1 else 0 for n in sh[1:])] = 1 + .2 * s + .1j * (x + y)
            else:
                t = dn.gen(sh, (x, y, spec.get('tag', 0)), real=k == 'real')
                t = t / np.sqrt(np.prod(sh[1:3])) * (1 if k != 'tiny' else 1e-3 if (x + y) % 2 else 1e-5)
            if k == 'laid':     # memory laid out other than row by row
                t = np.asfortranarray(t) if (x + y) % 2 else np.ascontiguousarray(t.transpose(3, 1, 0, 4, 2)).transpose(2, 1, 4, 0, 3)
            data[-1].append(t)
    return data


def lattices(lvl):
    for Lx, Ly in itertools.product((1, 2, 3), repeat=2):
        if Lx * Ly == 1:
            continue
        for bonds in ([1], [2], [1, 2], [2, 3, 1], [3, 2], [3]):
            if Lx * Ly > 6 and max(bonds) > 2 and (lvl == 1 or bonds != [2, 3, 1]):
                continue
            for kind in ('complex', 'real', 'ghz', 'tiny', 'laid'):
                for d in (2, 3, 1):
                    if d == 3 and (Lx * Ly > 6 or kind != 'complex') or d == 1 and (kind != 'complex' or Lx * Ly > 4):
                        continue
                    yield dict(Lx=Lx, Ly=Ly, bonds=bonds, kind=kind, d=d)
    if lvl > 1:
        for Lx, Ly in ((4, 2), (2, 4), (4, 1), (1, 4), (4, 3), (3, 4)):
            for bonds in ([1], [2], [1, 2]):
                yield dict(Lx=Lx, Ly=Ly, bonds=bonds, kind='complex', d=2)
    else:
        for Lx, Ly in ((4, 2), (2, 4)):
            yield dict(Lx=Lx, Ly=Ly, bonds=[2, 1], kind='complex', d=2)


def wt(s):
    return s['Lx'] * s['Ly'] * max(s['bonds'])**2


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = []
    for L in range(2, 5 if lvl == 1 else 6):
        for d in (2, 3, 1):
            if L > 3 and d == 3:
                continue
            cs.append(dict(group='mpo', L=L, d=d, lvl=lvl, w=30 * L))
    for s in lattices(lvl):
        w = wt(s)
        cs.append(dict(group='query', spec=s, lvl=lvl, w=w))
        if min(s['Lx'], s['Ly']) > 1:
            cs.append(dict(group='sum', spec=s, lvl=lvl, w=w))
        cs.append(dict(group='truncate', spec=s, lvl=lvl, w=w))
        if s['bonds'] in ([2], [1, 2], [2, 3, 1], [3]) and s['d'] > 1:
            cs.append(dict(group='iso', spec=s, lvl=lvl, w=2 * w))
        if s['Lx'] * s['Ly'] <= (6 if lvl == 1 else 9) and s['bonds'] in ([2], [1, 2], [2, 3, 1]) and s['kind'] == 'complex' and s['Lx'] > 1:
            cs.append(dict(group='seq', spec=s, lvl=lvl, depth=3 + (lvl > 1 or s['Lx'] * s['Ly'] <= 4), w=100 * w))
        if s['bonds'] == [1]:
            cs.append(dict(group='product', spec=s, lvl=lvl, w=w))
    for Lx, Ly, d, X in itertools.product((1, 2, 3), (1, 2, 3), (2, 3), (1, 2, 3)):
        if Lx * Ly > 1:
            cs.append(dict(group='random', Lx=Lx, Ly=Ly, d=d, X=X, w=Lx * Ly))
    for Lx, Ly in itertools.product((2, 3, 4), (1, 2, 3, 4)):
        if Lx * Ly <= (9 if lvl == 1 else 12):
            cs.append(dict(group='snake', Lx=Lx, Ly=Ly, lvl=lvl, w=2**(Lx * Ly) / 10))
    for n in range(1, 5):
        cs.append(dict(group='tensor', shape_max=3, where=n, w=30))
    return cs


def run(case, out):
    # lattices and chains of small tensors: compared relative to their size
    global SCALE
    SCALE = 1e-60 if case.get('spec', {}).get('kind') == 'tiny' else 1
    globals()['g_' + case['group']](case, out)


# ---- MPOs ----------------------------------------------------------------------------------------------
def mpo_data(L, bonds, du, dd, tag, real):
    b = [1] + list(bonds) + [1]
    return [dn.gen((du, b[i + 1], dd, b[i]), (tag, i), real) for i in range(L)]


def g_mpo(case, out):
    from xmps.fPEPS import fMPO
    from xmps.fMPS import fMPS
    L, d, lvl = case['L'], case['d'], case['lvl']
    allb = list(itertools.product((1, 2, 3), repeat=L - 1))
    objs = []
    for i, b in enumerate(allb):
        objs.append((b, mpo_data(L, b, d, d, i, real=i % 3 == 1)))
    for b, data in objs:
        key = 'L%d:d%d:%s' % (L, d, b)
        A = fMPO([x.copy() for x in data])
        out.state(dig(data)), out.step(), out.trace()
        out.check(A.structure() == [x.shape for x in data] and A.L == L and A.d == d and A.X == max([d] + list(b)), 'mpo:attributes:' + key)
        ok, M = out.attempt('mpo:recombine:' + key, A.recombine)
        ref = mpo_dense(data)
        if ok:
            out.check(close(M, ref.conj().T), 'mpo:recombine:' + key)
        # local dimension may differ between the two sides (operators from d to e)
        data2 = mpo_data(L, b, d, d + 1, 'r', False)
        ok, M = out.attempt('mpo:recombine-rect:' + key, fMPO([x.copy() for x in data2]).recombine)
        if ok:
            out.check(close(M, mpo_dense(data2).conj().T), 'mpo:recombine-rect:' + key)
        # state as an operator without inputs
        sd = dn.mps_from_bonds(d, [1] + list(b) + [1], 'm') if False else [dn.gen((d, ([1] + list(b) + [1])[i], ([1] + list(b) + [1])[i + 1]), ('m', i)) for i in range(L)]
        mps = fMPS([x.copy() for x in sd])
        ok, z = out.attempt('mpo:from_mps:' + key, lambda: fMPO().from_mps(mps))
        if ok:
            out.check(z.L == L and z.d == d and close(mpo_dense(z.data).reshape(-1), dn.dense(sd)), 'mpo:from_mps:' + key)
            out.check(all(np.array_equal(a, c) for a, c in zip(mps.data, sd)), 'mpo:from_mps:input-changed:' + key)
        for b2, data_ in objs if lvl > 1 or L < 4 else objs[::5]:
            B = fMPO([x.copy() for x in data_])
            k2 = key + 'x%s' % (b2,)
            ok, C = out.attempt('mpo:product:' + k2, lambda: A * B)
            out.step()
            if ok:
                # the right factor acts first: its output leg (down) meets the left factor's input leg (up)
                out.check(close(mpo_dense(C.data), mpo_dense(data_) @ ref), 'mpo:product:' + k2)
                out.check(close(C.recombine(), ref.conj().T @ mpo_dense(data_).conj().T), 'mpo:product-recombine:' + k2)
                out.check(C.L == L and C.d == d and C.X == A.X * B.X, 'mpo:product-attributes:' + k2)
        for mode in ('fMPS', 'fMPO'):
            arg = fMPS([x.copy() for x in sd]) if mode == 'fMPS' else fMPO().from_mps(fMPS([x.copy() for x in sd]))
            ok, C = out.attempt('mpo:on-%s:%s' % (mode, key), lambda: A * arg)
            out.step()
            if ok:
                out.check(close(mpo_dense(C.data).reshape(-1), ref.T @ dn.dense(sd)), 'mpo:on-%s:%s' % (mode, key))
        out.check(all(np.array_equal(a, c) for a, c in zip(A.data, data)), 'mpo:product:input-changed:' + key)
        # leg and site reversals
        R = ref.reshape([d] * 2 * L)
        acts = dict(ud=('transpose_ud', lambda T: T.transpose(list(range(L, 2 * L)) + list(range(L)))),
                    flip=('flip', lambda T: T.transpose(list(range(L))[::-1] + list(range(L, 2 * L))[::-1])),
                    rot=('rot', lambda T: T))
        for word in itertools.product(acts, repeat=2 if lvl == 1 else 3):
            o, r = fMPO([x.copy() for x in data]), R

            def go():
                nonlocal o, r
                for a in word:
                    r = acts[a][1](r)
                    if a == 'ud':
                        o = o.transpose_ud()
                    elif a == 'flip':
                        o = o.transpose_lr().reverse()
                    else:
                        o = o.rotate_90().unrotate_90()
                return o
            ok, o = out.attempt('mpo:flips:' + '.'.join(word), go)
            out.step(len(word)), out.trace()
            if ok:
                out.check(close(mpo_dense(o.data).reshape(r.shape), r), 'mpo:flips:%s:%s' % ('.'.join(word), key))
        o = fMPO([x.copy() for x in data]).rotate_90()
        out.check(all(close(t, x.transpose(3, 0, 1, 2)) for t, x in zip(o.data, data)), 'mpo:rotate_90:' + key)
        o = o.rotate_90().rotate_90().rotate_90()
        out.check(all(close(t, x) for t, x in zip(o.data, data)), 'mpo:rotate_90^4:' + key)
    for X in (1, 2, 3):
        ok, A = out.attempt('mpo:random', lambda: fMPO().random(L, d, X))
        if ok:
            out.check(A.structure() == [(d, X if i < L - 1 else 1, d, X if i else 1) for i in range(L)] and (A.L, A.d, A.X) == (L, d, X), 'mpo:random:L%d:d%d:X%d' % (L, d, X))
    ok, A = out.attempt('mpo:trivial', lambda: fMPO().trivial(L))
    if ok:
        out.check(close(mpo_dense(A.data), [[1]]) and len(A.data) == L, 'mpo:trivial:L%d' % L)


# ---- PEPS ----------------------------------------------------------------------------------------------
def make(data):
    from xmps.fPEPS import fPEPS
    return fPEPS([[t.copy('K') for t in row] for row in data])


def same(p, data):
    return all(np.array_equal(t, s) for r, q in zip(p.data, data) for t, s in zip(r, q))


def name(s):
    return '%dx%d:b%s:d%d:%s' % (s['Lx'], s['Ly'], ''.join(map(str, s['bonds'])), s['d'], s['kind'])


def attrs(p, Lx, Ly, d):
    return (p.Lx, p.Ly, p.d) == (Lx, Ly, d) and len(p.data) == Ly and all(len(r) == Lx for r in p.data)


def ax(Lx, x, y):
    return y * Lx + x


def local(T, op, k):
    return np.moveaxis(np.tensordot(op, T, [1, k]), 0, k)


def ops_for(d):
    o = [('h', dn.herm(d, 'h')), ('re', dn.herm(d, 'r', True)), ('1', np.eye(d)), ('F', np.asfortranarray(dn.herm(d, 'h2'))), ('int', np.diag(np.arange(d) - 2))]
    if d == 2:
        o += [('X', dn.X), ('Y', dn.Y), ('Z', dn.Z)]
    return o


def snake(T, Lx, Ly):
    return T.transpose([y * Lx + (x if y % 2 == 0 else Lx - 1 - x) for y in range(Ly) for x in range(Lx)])


def flips(T, Lx, Ly):
    """dense tensors of the transposed / left-right / up-down images"""
    n = np.arange(Lx * Ly).reshape(Ly, Lx)
    return dict(T=(T.transpose(n.T.ravel()), Ly, Lx), R=(T.transpose(n[:, ::-1].ravel()), Lx, Ly), U=(T.transpose(n[::-1].ravel()), Lx, Ly))


def g_query(case, out):
    s, lvl = case['spec'], case['lvl']
    Lx, Ly, d, key = s['Lx'], s['Ly'], s['d'], name(s)
    data = peps_data(s)
    data2 = peps_data(dict(s, tag=7, bonds=s['bonds'][::-1] + [1]))
    T, T2 = grid_dense(data), grid_dense(data2)
    p, q = make(data), make(data2)
    nn = np.vdot(T, T).real
    out.state(dig([T])), out.trace()
    out.check(attrs(p, Lx, Ly, d) and p.structure == [[t.shape for t in r] for r in data], 'peps:attributes:' + key)
    out.check(p.bond_dimension == max(max(t.shape[1:]) for r in data for t in r) == p.X, 'peps:bond_dimension:' + key)

    def q1(kind, f, ref, *more):
        ok, v = out.attempt('peps:%s:%s' % (kind, key), f)
        out.step()
        if ok:
            out.check(close(v, ref, 1e-8), 'peps:%s:%s' % (kind, key), lambda: '%s\n%s' % (v, ref))
        return v if ok else None
    if d > 1:
        q1('recombine', lambda: p.recombine(), T.reshape(-1))
        q1('recombine-snake', lambda: p.recombine('row_snake'), snake(T, Lx, Ly).reshape(-1))
    q1('full_overlap', lambda: p.full_overlap(q), np.vdot(T, T2))
    q1('full_overlap-self', lambda: p.full_overlap(p), nn)
    out.check(same(p, data), 'peps:recombine:input-changed:' + key)
    fl = flips(T, Lx, Ly)
    for f, (R, lx, ly) in fl.items():
        ok, r = out.attempt('peps:%s:%s' % (f, key), lambda: getattr(p, f))
        out.step()
        if ok:
            out.check(attrs(r, lx, ly, d), 'peps:%s:lattice:%s' % (f, key), lambda: str((r.Lx, r.Ly, lx, ly)))
            out.check(close(grid_dense(r.data), R), 'peps:%s:%s' % (f, key))
            ok, rr = out.attempt('peps:%s.%s:%s' % (f, f, key), lambda: getattr(r, f))
            if ok:
                out.check(rr == p and same(rr, data), 'peps:%s-involution:%s' % (f, key))
    c = p.copy()
    out.check(c == p and same(c, data) and attrs(c, Lx, Ly, d), 'peps:copy:' + key)
    c.data[0][0][...] += 1
    c.data[-1] = c.data[-1][::-1]
    out.check(same(p, data), 'peps:copy-shares:' + key)
    out.check(not p == c, 'peps:eq-different:' + key)
    if Lx * Ly > 1:
        out.check(not p == q or same(p, data2), 'peps:eq-other:' + key)
        ch = make(data)
        ch.data[-1][-1] = ch.data[-1][-1] + .5
        out.check(not p == ch and not ch == p, 'peps:eq-last-site:' + key)
    for (x, y) in itertools.product(range(Lx), range(Ly)):
        g = dn.gen((d, d), 'g')
        ok, r = out.attempt('peps:apply:' + key, lambda: p.apply(g, (x, y)))
        out.step()
        if ok:
            out.check(close(grid_dense(r.data), local(T, g, ax(Lx, x, y))), 'peps:apply:(%d,%d):%s' % (x, y, key))
            out.check(same(p, data), 'peps:apply:input-changed:' + key)
    # grouping rows / columns
    for fr, to in itertools.combinations(range(Ly + 1), 2):
        ok, r = out.attempt('peps:row_contract:' + key, lambda: p.row_contract(fr, to))
        out.step()
        if ok:
            perm = [ax(Lx, x, y) for y in range(fr) for x in range(Lx)] + [ax(Lx, x, y) for x in range(Lx) for y in range(fr, to)] + [ax(Lx, x, y) for y in range(to, Ly) for x in range(Lx)]
            out.check(close(grid_dense(r.data).reshape(-1), T.transpose(perm).reshape(-1)) and (r.Lx, r.Ly) == (Lx, Ly - (to - fr) + 1), 'peps:row_contract:%d-%d:%s' % (fr, to, key))
    for fr, to in itertools.combinations(range(Lx + 1), 2):
        ok, r = out.attempt('peps:col_contract:' + key, lambda: p.col_contract(fr, to))
        out.step()
        if ok:
            out.check(close(grid_dense(r.data).reshape(-1), T.reshape(-1)) and (r.Lx, r.Ly) == (Lx - (to - fr) + 1, Ly), 'peps:col_contract:%d-%d:%s' % (fr, to, key))
    out.check(same(p, data), 'peps:contract:input-changed:' + key)
    if Lx == 1:
        return
    q1('overlap', lambda: p.overlap(q), [[np.vdot(T, T2)]])
    q1('overlap-rev', lambda: q.overlap(p), [[np.vdot(T2, T)]])
    q1('norm', lambda: p.norm(), [[np.sqrt(nn)]])
    for nm, f, X, Y in (('row', 'row_mpos', data, data2), ('col', 'col_mpos', fT(data), fT(data2))):
        for other, oth in ((None, X), (q, Y)):
            ok, ms = out.attempt('peps:%s_mpos:%s' % (nm, key), lambda: getattr(p, f)(other))
            out.step()
            if ok:
                good = len(ms) == len(X)
                for m, r1, r2 in zip(ms, X, oth):
                    for W, a, b in zip(m.data, r1, r2):
                        ref = np.einsum('surdl,sabcf->uardbclf'.replace('uardbclf', 'uarbdclf'), a, b.conj())
                        good = good and W.size == ref.size and close(W, ref.reshape(W.shape) if W.size == ref.size else ref)
                out.check(good, 'peps:%s_mpos%s:%s' % (nm, ':other' if other is not None else '', key))
    for (x, y) in itertools.product(range(Lx), range(Ly)):
        k = ax(Lx, x, y)
        for nm, op in ops_for(d):
            q1('E:%s:(%d,%d)' % (nm, x, y), lambda: p.E(op, (x, y)), np.vdot(T, local(T, op, k)).real)
            q1('E_k-single:%s:(%d,%d)' % (nm, x, y), lambda: p.E_k(op, ((x, y), (1, 1))), np.vdot(T, local(T, op, k)).real)
    for (x, y) in itertools.product(range(Lx), range(Ly)):
        for w, h in itertools.product(range(1, Lx - x + 1), range(1, Ly - y + 1)):
            if w == Lx or w * h == 1 or d**(w * h) > 256:
                continue      # contracting every column leaves one column
            sites = [ax(Lx, x + i, y + j) for j in range(h) for i in range(w)]
            col = [ax(Lx, x + i, y + j) for i in range(w) for j in range(h)]
            D = d**(w * h)
            rest = [i for i in range(Lx * Ly) if i not in sites]
            for nm, op in (('h', dn.herm(D, 'k')), ('mix', np.diag(np.arange(D)) + 0j)):
                def ref(order):
                    v = T.transpose(order + rest).reshape(D, -1)
                    return np.vdot(v, op @ v).real
                ok, v = out.attempt('peps:E_k:' + key, lambda: p.E_k(op, ((x, y), (w, h))))
                out.step()
                if not ok:
                    continue
                if min(w, h) > 1:
                    out.check(close(v, ref(col), 1e-8) or close(v, ref(sites), 1e-8), 'peps:E_k-value:%s:patch%d,%d+%dx%d:%s' % (nm, x, y, w, h, key))
                    if d > 1:
                        out.check(close(v, ref(sites), 1e-8), 'peps:E_k:reading-order')
                else:
                    out.check(close(v, ref(sites), 1e-8), 'peps:E_k:%s:patch%d,%d+%dx%d:%s' % (nm, x, y, w, h, key))
    out.check(same(p, data), 'peps:query:input-changed:' + key)
    n = make(data)
    ok, n = out.attempt('peps:normalise:' + key, n.normalise)
    if ok:
        out.check(dn.ray_dist(grid_dense(n.data).ravel(), T.ravel()) < 1e-7 and close(np.linalg.norm(grid_dense(n.data)), 1.), 'peps:normalise:' + key)
        q1('normalised-norm', lambda: n.norm().item(), 1.)
    if Lx == Ly:
        for (x, y) in itertools.product(range(Lx), range(Ly)):
            t = data[y][x]
            ok, e = out.attempt('peps:environment:' + key, lambda: make(data).environment((y, x)))      # named by (row, column)
            out.step()
            if ok:
                # the environment closes the state's double layer around the site
                tt = np.einsum('surdl,sabcf->uarbdclf', t, t.conj())
                tt = tt.reshape([tt.shape[2 * i] * tt.shape[2 * i + 1] for i in range(4)])
                out.check(e.shape == tt.shape and close((e * tt).sum(), nn, 1e-8), 'peps:environment:(%d,%d):%s' % (x, y, key), lambda: '%s %s' % (e.shape, tt.shape))


def fT(data):
    return [[t.transpose(0, 4, 3, 2, 1) for t in c] for c in zip(*data)]


def g_sum(case, out):
    s = case['spec']
    key = name(s)
    data = peps_data(s)
    for b in ([1], [2], [1, 2], [3, 1]):
        if s['Lx'] * s['Ly'] > 6 and max(b) * max(s['bonds']) > 4:
            continue
        d2 = peps_data(dict(s, bonds=b, tag='o', kind='complex'))
        p, q = make(data), make(d2)
        k2 = key + '+b' + ''.join(map(str, b))
        ok, r = out.attempt('peps:add:' + k2, lambda: p.add(q))
        out.step(), out.trace()
        T, T2 = grid_dense(data), grid_dense(d2)
        out.state(dig([T, T2]))
        if ok:
            out.check(close(grid_dense(r.data), T + T2) and attrs(r, s['Lx'], s['Ly'], s['d']), 'peps:add:' + k2)
            out.check(same(p, data) and same(q, d2), 'peps:add:input-changed:' + k2)
            ok, w = out.attempt('peps:add.add:' + k2, lambda: r.add(p))
            if ok and s['Lx'] * s['Ly'] <= 6:
                out.check(close(grid_dense(w.data), 2 * T + T2), 'peps:add.add:' + k2)


def g_truncate(case, out):
    s = case['spec']
    key, Lx, Ly = name(s), s['Lx'], s['Ly']
    data = peps_data(s)

    def cut(hor, ver):
        """expected data: bonds named in hor {(x,y): D} (right of the site) and ver (below it) keep their first D values"""
        new = [[t for t in r] for r in data]
        for (x, y), D in hor.items():
            if 0 <= x < Lx - 1:
                new[y][x], new[y][x + 1] = new[y][x][:, :, :D], new[y][x + 1][:, :, :, :, :D]
        for (x, y), D in ver.items():
            if 0 <= y < Ly - 1:
                new[y][x], new[y + 1][x] = new[y][x][:, :, :, :D], new[y + 1][x][:, :D]
        return new

    def go(nm, f, exp, ret=True):
        p = make(data)
        ok, r = out.attempt('peps:%s:%s' % (nm, key), lambda: f(p))
        out.step(), out.trace()
        if ok:
            out.state(dig([t for row in r.data for t in row]))
            good = [[t.shape for t in row] for row in r.data] == [[t.shape for t in row] for row in exp]
            out.check(good and same(r, exp), 'peps:%s:%s' % (nm, key), lambda: '%s\n%s' % (r.structure, [[t.shape for t in row] for row in exp]))
    for D in (1, 2, 3):
        for y in range(Ly):
            if y > 0:
                go('truncate_above:%d:%d' % (y, D), lambda p: p.truncate_above(y, D), cut({}, {(x, y - 1): D for x in range(Lx)}))
            if y < Ly - 1:
                go('truncate_below:%d:%d' % (y, D), lambda p: p.truncate_below(y, D), cut({}, {(x, y): D for x in range(Lx)}))
            go('truncate_along_row:%d:%d' % (y, D), lambda p: p.truncate_along_row(y, D), cut({(x, y): D for x in range(Lx)}, {}))
        for x in range(Lx):
            if x > 0:
                go('truncate_left:%d:%d' % (x, D), lambda p: p.truncate_left(x, D), cut({(x - 1, y): D for y in range(Ly)}, {}))
            go('truncate_along_column:%d:%d' % (x, D), lambda p: p.truncate_along_column(x, D), cut({}, {(x, y): D for y in range(Ly)}))
    for nm, n, f in (('above', 0, 'truncate_above'), ('below', Ly - 1, 'truncate_below'), ('left', 0, 'truncate_left')):
        p = make(data)
        out.step()
        try:
            getattr(p, f)(n, 1)
        except Exception:
            out.check(same(p, data), 'peps:%s:refused-changed:%s' % (f, key))
        else:
            out.bad('peps:%s:nothing-%s-accepted:%s' % (f, nm, key))
    # cut one tensor, then repair its neighbours
    for (x, y), leg, D in itertools.product(itertools.product(range(Lx), range(Ly)), (1, 2, 3, 4), (1, 2)):
        hor = {(x, y): D} if leg == 2 else {(x - 1, y): D} if leg == 4 else {}
        ver = {(x, y): D} if leg == 3 else {(x, y - 1): D} if leg == 1 else {}

        def f(p):
            sl = [slice(None)] * 5
            sl[leg] = slice(D)
            p.data[y][x] = p.data[y][x][tuple(sl)]
            return p.fix_neighbours(x, y)
        go('fix_neighbours:(%d,%d):%d:%d' % (x, y, leg, D), f, cut(hor, ver))


def towards(i, j, c):
    """legs of the tensor at (i,j) that point to the orthogonality centre"""
    out = []
    if j > c[1]:
        out.append(1)
    if j < c[1]:
        out.append(3)
    if i < c[0]:
        out.append(2)
    if i > c[0]:
        out.append(4)
    return out


def attempt_iso(out, key, uneven, f):
    """lattices of uneven bonds may be refused ('truncate peps properly before isometrising')"""
    try:
        return True, f()
    except Exception as e:
        if uneven and 'truncate' in str(e):
            return False, None
    return out.attempt(key, f)


def g_iso(case, out):
    s = case['spec']
    key, Lx, Ly, d = name(s), s['Lx'], s['Ly'], s['d']
    data = peps_data(s)
    uneven = len(set(s['bonds'])) > 1
    for oc in itertools.product(range(Lx), range(Ly)):
        k = 'oc%d,%d:%s' % (oc + (key,))
        ok, p = attempt_iso(out, 'peps:isometrise:' + k, uneven, lambda: make(data).isometrise(oc))
        out.step(), out.trace()
        if not ok:
            continue
        good, why = True, ''
        for y, x in itertools.product(range(Ly), range(Lx)):
            t = p.data[y][x]
            good = good and (y == Ly - 1 or t.shape[3] == p.data[y + 1][x].shape[1]) and (x == Lx - 1 or t.shape[2] == p.data[y][x + 1].shape[4])
            inn = towards(x, y, oc)
            m = np.moveaxis(t, inn, range(len(inn)))
            m = m.reshape(int(np.prod(m.shape[:len(inn)])), -1)
            if (x, y) == oc:
                iso = abs(np.linalg.norm(t) - 1) < 1e-9
            else:
                iso = close(m @ m.conj().T, np.eye(m.shape[0]))
            if not iso:
                good, why = False, why + ' not isometric towards the centre: (%d,%d)' % (x, y)
        out.check(good, 'peps:isometrise:tensors:' + k, why)
        if not good:
            continue
        T = grid_dense(p.data)
        out.state(dig([T]))
        out.check(abs(np.linalg.norm(T) - 1) < 1e-8 and tuple(p.oc) == oc, 'peps:isometrise:norm:' + k)
        for nm, op in ops_for(d):
            ref = np.vdot(T, local(T, op, ax(Lx, *oc))).real
            for how, f in (('', lambda: p.iso_E(op)), (':site', lambda: p.iso_E(op, oc)), (':list', lambda: p.iso_Es([(op, oc), (op,)])[0])):
                ok, v = out.attempt('peps:iso_E%s:%s' % (how, k), f)
                out.step()
                if ok:
                    out.check(close(v, ref, 1e-8), 'peps:iso_E%s:%s:%s' % (how, nm, k))
            for f in 'TRU':
                ok, r = out.attempt('peps:iso:%s:%s' % (f, k), lambda: getattr(p, f))
                if ok:
                    noc = dict(T=(oc[1], oc[0]), R=(Lx - 1 - oc[0], oc[1]), U=(oc[0], Ly - 1 - oc[1]))[f]
                    out.check(tuple(r.oc) == noc and close(r.iso_E(op), ref, 1e-8), 'peps:iso:%s:%s:%s' % (f, nm, k))
        c = p.copy()
        out.check(tuple(c.oc) == oc and c == p, 'peps:iso:copy:' + k)
        # an object filled with another state, of another lattice, is not isometric any more
        for lx, ly, dd in {(Ly, Lx + 1, 5 - d), (Lx + 1, Ly, 2)}:
            ok, r = out.attempt('peps:iso:random-other:' + k, lambda: p.copy().random(lx, ly, dd, 2))
            if ok:
                out.check((r.Lx, r.Ly, r.d) == (lx, ly, dd) and [[t.shape[0] for t in row] for row in r.data] == [[dd] * lx] * ly, 'peps:iso:random-other:sizes:' + k)
        ok, r = out.attempt('peps:iso:random-again:' + k, lambda: p.copy().random(Lx, Ly, d, 2))
        if ok:
            R, op = grid_dense(r.data), dn.herm(d, 'h')
            out.step()
            try:
                v = r.iso_E(op)
            except Exception:
                v = None
            out.check(v is None or close(v, np.vdot(R, local(R, op, ax(Lx, *oc))).real, 1e-8), 'peps:iso:random-again-trusted:' + k)
        if Lx > 1:
            out.check(close(p.norm(), [[1.]], 1e-8), 'peps:isometrise:norm():' + k)
        # again, and elsewhere: still isometric
        for oc2 in itertools.product(range(Lx), range(Ly)):
            ok, r = attempt_iso(out, 'peps:isometrise-again:' + k, uneven, lambda: p.copy().isometrise(oc2))
            out.step()
            if ok:
                R = grid_dense(r.data)
                out.check(abs(np.linalg.norm(R) - 1) < 1e-8 and close(r.iso_E(dn.herm(d, 'h')), np.vdot(R, local(R, dn.herm(d, 'h'), ax(Lx, *oc2))).real, 1e-8), 'peps:isometrise-again:%s->%d,%d' % ((k,) + oc2))
    p = make(data)
    out.step()
    try:
        p.iso_E(np.eye(d))
        out.bad('peps:iso_E:no-centre-accepted:' + key)
    except Exception:
        pass


def g_product(case, out):
    s = case['spec']
    key, Lx, Ly, d = name(s), s['Lx'], s['Ly'], s['d']
    data, data2 = peps_data(s), peps_data(dict(s, tag=5))
    p, q = make(data), make(data2)
    for (x, y) in itertools.product(range(Lx), range(Ly)):
        for w, h in itertools.product(range(1, Lx - x + 1), range(1, Ly - y + 1)):
            for nm, f, B in (('rho', lambda: p.rho(((x, y), (w, h))), data), ('rho_proj', lambda: p.rho_proj(q, ((x, y), (w, h))), data2)):
                ok, r = out.attempt('peps:%s:%s' % (nm, key), f)
                out.step(), out.trace()
                if ok:
                    good = r.shape == (w, h, d, d)
                    for i, j in itertools.product(range(w), range(h)):
                        good = good and close(r[i, j], np.outer(data[y + j][x + i].ravel(), B[y + j][x + i].ravel().conj()))
                    out.check(good, 'peps:%s:%d,%d+%dx%d:%s' % (nm, x, y, w, h, key))
    n = make(data)
    ok, n = out.attempt('peps:normalise-product:' + key, n.normalise)
    if ok:
        T = grid_dense(n.data)
        out.state(dig([T]))
        out.check(close(np.linalg.norm(T), 1.) and dn.ray_dist(T.ravel(), grid_dense(data).ravel()) < 1e-8 and
                  all(abs(np.linalg.norm(t) - 1) < 1e-9 for r in n.data for t in r), 'peps:normalise-product:' + key)


def g_random(case, out):
    from xmps.fPEPS import fPEPS
    Lx, Ly, d, X = (case[k] for k in ('Lx', 'Ly', 'd', 'X'))
    key = '%dx%d:d%d:X%d' % (Lx, Ly, d, X)
    ok, p = out.attempt('peps:random:' + key, lambda: fPEPS().random(Lx, Ly, d, X))
    out.step(), out.trace(), out.state(key)
    if not ok:
        return
    exp = [[(d, X if y else 1, X if x < Lx - 1 else 1, X if y < Ly - 1 else 1, X if x else 1) for x in range(Lx)] for y in range(Ly)]
    out.check(p.structure == exp, 'peps:random:structure:' + key, lambda: '%s' % p.structure)
    out.check(attrs(p, Lx, Ly, d), 'peps:random:attributes:' + key)
    if p.structure != exp:
        return
    ok, n = out.attempt('peps:random.normalise:' + key, lambda: p.copy().normalise() if Lx > 1 or X == 1 else p)
    c = p.copy()
    out.check(attrs(fPEPS(c.data), Lx, Ly, d), 'peps:constructor:attributes:' + key)
    out.check(p == fPEPS(c.data), 'peps:constructor:eq:' + key)
    str(p)


def g_snake(case, out):
    from xmps.fPEPS import fPEPS
    from xmps.fMPS import fMPS
    Lx, Ly = case['Lx'], case['Ly']
    N = Lx * Ly
    pats = [[1], [2], [3, 2], [1, 2, 3], [2, 1]]
    for pat in pats:
        for d in (2, 3):
            if d**N > 5000:
                continue
            b = [1] + [pat[i % len(pat)] for i in range(N - 1)] + [1]
            sd = [dn.gen((d, b[i], b[i + 1]), ('s', i)) for i in range(N)]
            psi = dn.dense(sd).reshape([d] * N)
            key = '%dx%d:d%d:%s' % (Lx, Ly, d, pat)
            out.state(key)
            for how, f in (('given', lambda m: fPEPS().from_mps(m, Lx)),) + ((('square', lambda m: fPEPS().from_mps(m)),) if Lx == Ly else ()):
                m = fMPS([x.copy() for x in sd])
                ok, p = out.attempt('peps:from_mps:%s:%s' % (how, key), lambda: f(m))
                out.step(), out.trace()
                if ok:
                    # site n of the chain is the n-th of the boustrophedon walk
                    T = grid_dense(p.data) if len(p.data) == Ly and len(p.data[0]) == Lx else None
                    out.check(T is not None and attrs(p, Lx, Ly, d) and close(snake(T, Lx, Ly), psi), 'peps:from_mps:%s:%s' % (how, key))
                    if T is not None:
                        out.check(close(p.recombine('row_snake'), psi.reshape(-1)), 'peps:from_mps:recombine:%s:%s' % (how, key))
                    out.check(all(np.array_equal(a, c) for a, c in zip(m.data, sd)), 'peps:from_mps:input-changed:' + key)


def g_tensor(case, out):
    """isometries built from single tensors, every small shape"""
    from xmps.fPEPS import tensor_isometrise_diag, tensor_isometrise_lrud, tensor_isometrise_center, transfer_tensor, rotate_peps_tensor_cc, rotate_peps_tensor_ac, transpose_peps_tensor
    w = case['where']
    for d in (2, 3, 4):
        for sh in itertools.product(range(1, case['shape_max'] + 1), repeat=4):
            t = dn.gen((d,) + sh, 'iso')
            out.state((d,) + sh)
            # corner w (clockwise from the upper right) maps to the opposite corner
            nxt = lambda n: n % 4 + 1
            for nm, f, inn in (('diag', tensor_isometrise_diag, None), ('lrud', tensor_isometrise_lrud, [nxt(nxt(w))])):
                if nm == 'diag':
                    inn = [nxt(nxt(w)), nxt(nxt(nxt(w)))]
                m_in = int(np.prod([sh[i - 1] for i in inn]))
                fits = m_in <= d * int(np.prod(sh)) // m_in
                key = 'peps:tensor_isometrise_%s:%d:%s' % (nm, w, (d,) + sh)
                out.step(), out.trace()
                try:
                    r = f(t.copy(), w)
                except Exception as e:
                    out.check(not fits, key + ':raised')
                    continue
                m = np.moveaxis(r, inn, range(len(inn))).reshape(m_in, -1)
                out.check(fits and r.shape == t.shape and close(m @ m.conj().T, np.eye(m_in)), key)
                # an isometry keeps its range
                o = np.moveaxis(t, inn, range(len(inn))).reshape(m_in, -1)
                out.check(close(o @ m.conj().T @ m, o, 1e-8), key + ':range')
            if w == 1:
                out.check(close(tensor_isometrise_center(t), t / np.linalg.norm(t)), 'peps:tensor_center')
                out.check(close(transfer_tensor(t), np.einsum('surdl,sabcf->uarbdclf', t, t.conj())), 'peps:transfer_tensor')
                out.check(close(rotate_peps_tensor_ac(rotate_peps_tensor_cc(t)), t) and close(rotate_peps_tensor_cc(t), t.transpose(0, 4, 1, 2, 3)) and close(transpose_peps_tensor(t), t.transpose(0, 4, 3, 2, 1)), 'peps:tensor_rotate')


def g_seq(case, out):
    """every word of operations, with the dense tensor carried along"""
    s = case['spec']
    key, d = name(s), s['d']
    root = (make(peps_data(s)), grid_dense(peps_data(s)), s['Lx'], s['Ly'])
    g = dn.gen((d, d), 'seq')

    def moves(p, T, Lx, Ly):
        for f, (R, lx, ly) in flips(T, Lx, Ly).items():
            yield f, (lambda f=f: getattr(p, f)), R, lx, ly
        for (x, y) in {(0, 0), (Lx - 1, Ly - 1), (Lx - 1, 0), (0, Ly - 1)}:
            if T.shape[ax(Lx, x, y)] == d:
                yield 'apply(%d,%d)' % (x, y), (lambda x=x, y=y: p.apply(g, (x, y))), local(T, g, ax(Lx, x, y)), Lx, Ly
        if Lx > 1 and Ly > 1 and max(max(t.shape[1:]) for r in p.data for t in r) < 4:
            yield 'add-self', lambda: p.add(p), 2 * T, Lx, Ly
            r = p.R
            if flips(T, Lx, Ly)['R'][0].shape == T.shape:
                yield 'add-R', lambda: p.add(p.R), T + flips(T, Lx, Ly)['R'][0], Lx, Ly
        if Lx > 1:
            yield 'normalise', lambda: p.copy().normalise(), T / np.linalg.norm(T), Lx, Ly
        yield 'copy', lambda: p.copy(), T, Lx, Ly
        if Ly > 1 and Lx * Ly > 2:
            for fr in range(Ly - 1):
                perm = [ax(Lx, x, y) for y in range(fr) for x in range(Lx)] + [ax(Lx, x, y) for x in range(Lx) for y in (fr, fr + 1)] + [ax(Lx, x, y) for y in range(fr + 2, Ly) for x in range(Lx)]
                V = T.transpose(perm)
                sh = [T.shape[ax(Lx, x, y)] for y in range(fr) for x in range(Lx)] + [T.shape[ax(Lx, x, fr)] * T.shape[ax(Lx, x, fr + 1)] for x in range(Lx)] + [T.shape[ax(Lx, x, y)] for y in range(fr + 2, Ly) for x in range(Lx)]
                yield 'rows(%d)' % fr, (lambda fr=fr: p.row_contract(fr, fr + 2)), V.reshape(sh), Lx, Ly - 1
        if Lx > 2:
            for fr in range(Lx - 1):
                sh = []
                for y in range(Ly):
                    for x in range(Lx):
                        if x == fr + 1:
                            sh[-1] *= T.shape[ax(Lx, x, y)]
                        else:
                            sh.append(T.shape[ax(Lx, x, y)])
                yield 'cols(%d)' % fr, (lambda fr=fr: p.col_contract(fr, fr + 2)), T.reshape(sh), Lx - 1, Ly
        big = max(max(t.shape[1:]) for r in p.data for t in r)
        if Ly > 1:
            yield 'wide-truncate', lambda: p.copy().truncate_below(Ly - 2, big).truncate_above(1, big).truncate_along_row(0, big), T, Lx, Ly

    def visit(node, word, depth):
        p, T, Lx, Ly = node
        for nm, f, R, lx, ly in moves(p, T, Lx, Ly):
            w = word + (nm,)
            snap = [[t.copy() for t in r] for r in p.data]
            ok, r = out.attempt('peps:seq:%s:%s' % ('.'.join(w), key), f)
            out.step(), out.trace()
            if not ok:
                continue
            out.check(same(p, snap), 'peps:seq:%s:input-changed:%s' % ('.'.join(w), key))
            good = len(r.data) == ly and all(len(q) == lx for q in r.data) and (r.Lx, r.Ly) == (lx, ly)
            V = None
            if good:
                try:
                    V = grid_dense(r.data)
                except Exception:
                    good = False
            sgn = 'add' in '.'.join(w)
            good = good and (close(V, R, 1e-8) if not sgn else close(V, R, 1e-8))
            if not out.check(good, 'peps:seq:%s:%s' % ('.'.join(w), key)):
                continue
            if d > 1 and lx > 1:
                ok, o = out.attempt('peps:seq:overlap:%s:%s' % ('.'.join(w), key), lambda: r.overlap(r))
                if ok:
                    out.check(close(o, [[np.vdot(R, R)]], 1e-7), 'peps:seq:overlap:%s:%s' % ('.'.join(w), key))
            if out.state(dig([R, np.array([lx, ly])])) and depth > 1:
                visit((r, R, lx, ly), w, depth - 1)
    visit(root, (), case['depth'])
    out.sample(dict(root=key, depth=case['depth']))
