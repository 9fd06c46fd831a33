"""C21: the predicates that certify a canonical form say yes exactly when its conditions hold."""
import copy
import numpy as np
from mc import dense as dn, states as st, fops

PROP, LEVEL = 'C21', 'model_checking'
BOUNDS = ('every initial state of the alphabet x form (raw, right / left canonical with every option, mixed at every site, orthogonal forms, truncated, after a gate) x '
          'perturbation (none; the tensor at every site scaled, disturbed, rotated by a unitary on its bond, by amounts from 1e-4 to 1; the bond matrix of every cut '
          'disturbed on and off its diagonal, rescaled, given a zero; bond matrices of another form) x every predicate, on the lists and on the object')
ASSUMPTIONS = ['deviations between 1e-10 and 1e-5 are neither yes nor no (the predicates have tolerances around 1e-8)',
               'a bond matrix condition that follows from the others (the last one of a right canonical form) may or may not be looked at']


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    return [dict(group='chain', spec=s, lvl=lvl, w=s['L']) for s in st.finite_specs(lvl)]


def forms(data, lvl):
    L, d = len(data), data[0].shape[0]
    mb = max(max(t.shape[1:]) for t in data)
    yield 'raw', lambda m: m
    for o in (dict(), dict(minD=False), dict(sweep_back=False), dict(testing=True)):
        yield 'rc%s' % o, lambda m, o=o: m.right_canonicalise(**o)
        yield 'lc%s' % o, lambda m, o=o: m.left_canonicalise(**o)
    for D in range(1, mb):
        yield 'rc(D=%d)' % D, lambda m, D=D: m.right_canonicalise(D)
        yield 'lc(D=%d)' % D, lambda m, D=D: m.left_canonicalise(D)
    for oc in range(L):
        yield 'mixed(%d)' % oc, lambda m, oc=oc: m.mixed_canonicalise(oc)
    yield 'ro', lambda m: m.right_orthogonalise()
    yield 'lo', lambda m: m.left_orthogonalise()
    yield 'rc-lo', lambda m: m.right_canonicalise().left_orthogonalise()
    yield 'lc-gate', lambda m: m.left_canonicalise().apply_two_site((dn.unitary(d * d, 'g'), (0, 1)))
    yield 'rc-scaled', lambda m: m.right_canonicalise().mul(1.5)


def iso(A, side):
    A = np.asarray(A)
    G = np.einsum('sab,sac->bc', A.conj(), A) if side == 'l' else np.einsum('sab,scb->ac', A, A.conj())
    return abs(G - np.eye(len(G))).max()


def env(A, S, side):
    A, S = np.asarray(A), np.asarray(S)
    return np.einsum('sab,ac,scd->bd', A.conj(), S, A) if side == 'l' else np.einsum('sab,bc,sdc->ad', A, S, A.conj())


def disturb(data, Ls):
    """every disturbed (name, tensors, bond matrices)"""
    L = len(data)
    yield 'none', data, Ls
    for i in range(L):
        for nm, f in (('scaled', lambda A: 1.0001 * A), ('scaled-much', lambda A: 1.5 * A), ('sign', lambda A: -A),
                      ('noise', lambda A: A + 1e-3 * dn.gen(A.shape, 'n')), ('one-entry', lambda A: A + 1e-4 * (np.arange(A.size).reshape(A.shape) == A.size - 1))):
            yield '%s@%d' % (nm, i), data[:i] + [f(data[i])] + data[i + 1:], Ls
        if i < L - 1:
            U = dn.unitary(data[i].shape[2], ('u', i))
            d2 = list(data)
            d2[i], d2[i + 1] = data[i] @ U, U.conj().T @ data[i + 1]
            yield 'rotated@%d' % i, d2, Ls
            X = np.eye(len(U)) + 1e-3 * dn.gen(U.shape, ('x', i))
            d2 = list(data)
            d2[i], d2[i + 1] = data[i] @ X, np.linalg.inv(X) @ data[i + 1]
            yield 'regauged@%d' % i, d2, Ls
    if Ls is None:
        return
    for k in range(len(Ls)):
        S = np.asarray(Ls[k])
        n = len(S)
        one = np.zeros((n, n))
        one[-1, -1] = 1
        off = np.zeros((n, n))
        off[0, -1] = 1
        for nm, T in (('L-scaled', 1.001 * S), ('L-last', S + 1e-4 * one), ('L-zero', S * (1 - one)), ('L-off', S + 1e-3 * off), ('L-even', np.eye(n) * np.trace(S) / n),
                      ('L-reversed', S[::-1, ::-1]), ('L-root', np.sqrt(abs(S)))):
            yield '%s@%d' % (nm, k), data, Ls[:k] + [T] + Ls[k + 1:]


def verdict(x):
    """True / False / None (too close to call) for a largest deviation"""
    if not np.isfinite(x):
        return None
    return True if x < 1e-10 else (False if x > 1e-5 else None)


def run(case, out):
    import xmps.tests as t
    spec = case['spec']
    data = st.build(spec)
    L = len(data)
    big = L > 5
    for fn, f in forms(data, case['lvl']):
        if big and fn[:2] not in ('rc', 'lc') and fn != 'raw':
            continue
        try:
            m = f(fops.fresh(data))
        except Exception:
            continue
        A0 = [np.array(x) for x in m.data]
        Ls0 = [np.array(x) for x in m.Ls] if hasattr(m, 'Ls') else None
        if not all(np.all(np.isfinite(x)) for x in A0):
            continue
        for pn, A, Ls in disturb(A0, Ls0):
            det = lambda: 'spec %s form %s disturbed %s' % (spec, fn, pn)
            out.step()
            out.state((fn, pn))
            keep = [np.array(x) for x in A]
            want = {}
            for side, name in (('l', 'left'), ('r', 'right')):
                devs = [iso(x, side) for x in A]
                w = verdict(max(devs))
                g = getattr(t, 'is_%s_canonical' % name)
                ok, got = out.attempt('is_%s_canonical' % name, g, A)
                if ok and w is not None:
                    out.check(bool(got) == w, 'is_%s_canonical:%s' % (name, 'missed' if got else 'rejected'), det)
                want['is_%s_canonical' % name] = w
                # part of the chain, and the empty part
                for lo, hi in ((0, 0), (0, L - 1), (1, L)):
                    wp = verdict(max(devs[lo:hi], default=0))
                    ok, got = out.attempt('is_%s_canonical:part' % name, g, A[lo:hi])
                    if ok and wp is not None:
                        out.check(bool(got) == wp, 'is_%s_canonical:part:%s' % (name, 'missed' if got else 'rejected'), det)
                ok, got = out.attempt('is_%s_canonical:error' % name, g, A, error=True)
                if ok:
                    out.check(len(got) == 2 and (w is None or bool(got[0]) == w) and len(got[1]) == L
                              and all((x < 1e-6) or (d > 1e-9) for x, d in zip(np.abs(got[1]), devs)) and all((x > 1e-7) or (d < 1e-5) for x, d in zip(np.abs(got[1]), devs)),
                              'is_%s_canonical:error' % name, det)
            if Ls is not None:
                sh = [x.shape[1] for x in A] + [A[-1].shape[2]]
                if len(Ls) == L + 1 and all(np.shape(S) == (n, n) for S, n in zip(Ls, sh)):
                    dl = [abs(env(A[k], Ls[k + 1], 'r') - Ls[k]).max() for k in range(L)]
                    dr = [abs(env(A[k], Ls[k], 'l') - Ls[k + 1]).max() for k in range(L)]
                    for name, dv, must in (('left', dl, dl), ('right', dr, dr[:-1])):
                        w = True if verdict(max(dv)) else (False if verdict(max(must)) is False else None)
                        want['is_%s_env_canonical' % name] = w
                        # rtol 1e-5 of allclose: entries of size one may deviate by 1e-5
                        if w is False and max(must) < 3e-5:
                            w = want['is_%s_env_canonical' % name] = None
                        ok, got = out.attempt('is_%s_env_canonical' % name, getattr(t, 'is_%s_env_canonical' % name), A, Ls)
                        if ok and w is not None:
                            out.check(bool(got) == w, 'is_%s_env_canonical:%s' % (name, 'missed' if got else 'rejected'), lambda: det() + ' %s' % dv)
                dt = max(abs(np.trace(S) - 1) for S in Ls)
                w = want['has_trace_1'] = verdict(dt)
                ok, got = out.attempt('has_trace_1', t.has_trace_1, Ls)
                if ok and w is not None:
                    out.check(bool(got) == w, 'has_trace_1:%s' % ('missed' if got else 'rejected'), det)
                ok, got = out.attempt('has_trace_1:error', t.has_trace_1, Ls, error=True)
                if ok:
                    out.check((w is None or bool(got[0]) == w) and dn.close(got[1], np.array([np.trace(S) - 1 for S in Ls]), 1e-9), 'has_trace_1:error', det)
                w = want['is_full_rank'] = all(np.all(np.diag(S) != 0) for S in Ls)
                ok, got = out.attempt('is_full_rank', t.is_full_rank, Ls)
                if ok:
                    out.check(bool(got) == w, 'is_full_rank:%s' % ('missed' if got else 'rejected'), det)
            out.check(all(np.array_equal(x, y) for x, y in zip(keep, A)), 'predicate-changes-tensors', det)
            # the object's own report
            if big and pn != 'none':
                continue
            o = fops.fresh(A)
            if Ls is not None:
                o.Ls = [np.array(S) for S in Ls]
            ok, _ = out.attempt('update_properties', o.update_properties)
            if not ok:
                continue
            out.trace()
            out.check(all(np.array_equal(x, y) for x, y in zip(keep, o.data)), 'report-changes-tensors', det)
            fits = Ls is None or (len(Ls) == L + 1 and all(np.shape(S) == (n, n) for S, n in zip(Ls, sh)))
            for k, w in want.items():
                if not fits and not k.endswith('t_canonical'):
                    continue            # bond matrices of another structure: the report may give up on all their flags
                if w is not None:
                    out.check(bool(getattr(o, k)) == w, 'report:%s:%s' % (k, 'missed' if getattr(o, k) else 'rejected'), det)
            if Ls is None:
                out.check(not any(getattr(o, k) for k in ('is_left_env_canonical', 'is_right_env_canonical', 'is_full_rank', 'has_trace_1')), 'report-without-bond-matrices', det)
            # the same report from the object with its history, its tensors replaced in its own list
            if pn.split('@')[0] in ('none', 'scaled-much', 'noise', 'rotated') or pn == 'L-zero@1':
                o = copy.deepcopy(m)
                for asked in (False, True):
                    if asked:
                        try:
                            o.update_properties()
                        except Exception:
                            break
                    for i in range(L):
                        o.data[i] = np.array(A[i])
                    if Ls is not None:
                        for i in range(len(Ls)):
                            o.Ls[i] = np.array(Ls[i])
                    ok, _ = out.attempt('update_properties:lived', o.update_properties)
                    out.step()
                    if ok:
                        for k, w in want.items():
                            if w is not None and (fits or k.endswith('t_canonical')):
                                out.check(bool(getattr(o, k)) == w, 'report-lived:%s:%s' % (k, 'missed' if getattr(o, k) else 'rejected'), det)
                o = fops.fresh(A)
                o.update_properties()
            w = verdict(abs(np.linalg.norm(dn.dense(A)) - 1))
            if w is not None and not (w is False and abs(np.linalg.norm(dn.dense(A)) - 1) < 3e-5):
                out.check(bool(o.has_norm_1) == w, 'has_norm_1', det)
    out.sample({'spec': spec})
