"""C26: stopped runs are kept apart on disk and come back as they were, whatever was stopped, resumed or interrupted around them."""
import builtins, copy, itertools, os, shutil, tempfile
import numpy as np
from mc import dense as dn, fops

PROP, LEVEL = 'C26', 'model_checking'
NAMES = ('a', 'a_b', 'a_1', 'J=[1]', '')
BOUNDS = ('every history of {stop, resume-and-stop-again} x run names {a, a_b, a_1, J=[1], unnamed} up to depth 3 (thorough 4) on one directory, over 6 kinds of trajectory (product, larger bonds, evolved, '
          'with Lyapunov data, with the leading exponent only, with MPO and null spaces), all runs read back after it by number and as the most recent; 13 stops of one name with the others between; every crash point '
          'of a stop (each file missing, empty, half written or whole) after every history of depth 0 to 1 (thorough 2), followed by nothing, a resume and a stop of every name; several directories')
ASSUMPTIONS = ['a crash keeps files written earlier in the same stop whole', 'resuming is done by a fresh Trajectory; a run cut short by a crash may fail to resume, but must not answer with other data',
               'other programs do not write in the directory', 'run names are file names']
_K = []


def kinds():
    """trajectories of every kind, one each"""
    if not _K:
        from xmps.fMPS import fMPS
        from xmps.fTDVP import Trajectory
        np.random.seed(5)

        def ham(L, s):
            r = np.random.RandomState(s)
            hs = []
            for _ in range(L - 1):
                a = r.randn(4, 4) + 1j * r.randn(4, 4)
                hs.append((a + a.conj().T) / 2)
            return hs
        one = Trajectory(fMPS().random(3, 2, 1).left_canonicalise(), ham(3, 1))
        big = Trajectory(fMPS().random(4, 2, 3).right_canonicalise(), ham(4, 2))
        ran = Trajectory(fMPS().random(3, 2, 2).left_canonicalise(), ham(3, 3))
        ran.rk4int(np.linspace(0, .3, 4))
        lya = Trajectory(fMPS().random(3, 2, 2).left_canonicalise(), ham(3, 4))
        lya.lyapunov(np.linspace(0, .2, 3), t_burn=0, initial_basis='eye')
        top = Trajectory(fMPS().random(3, 2, 2).right_canonicalise(), ham(3, 6))
        top.lyapunov(np.linspace(0, .2, 3), t_burn=0, initial_basis='eye', just_max=True)
        mpo = Trajectory(fMPS().random(3, 2, 2).left_canonicalise(), ham(3, 5), [np.random.randn(2, 2, *x) for x in ((1, 3), (3, 3), (3, 1))])
        mpo.vL = [np.random.randn(2, 1, 1), np.random.randn(2, 2, 2)]
        _K.extend([one, big, ran, lya, top, mpo])
    return _K


def same(x, y):
    if x is None or y is None:
        return x is y
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x), np.asarray(y))


def listing(loc):
    r = {}
    for d, _, fs in os.walk(loc):
        for f in fs:
            p = os.path.join(d, f)
            r[os.path.relpath(p, loc)] = open(p, 'rb').read()
    return r


def whole(out, key, s, t, name, where, det, lys=True, torn=False):
    """the resumed s is the stopped t (torn: what is there of it)"""
    for a in ('mps', 'mps_0'):
        x, y = getattr(s, a).data, getattr(t, a).data
        out.check(same(list(x), list(y)), key + '-' + a, det)
    for a in ('H', 'W'):
        x = getattr(s, a, None)
        out.check(same(x, getattr(t, a)) or torn and x is None, key + '-' + a, det)
    x = getattr(s, 'vL', None)
    out.check(same(x, getattr(t, 'vL', None)) or torn and x is None, key + '-vL', det)
    for a in ('lys', 'Q', 'lys_'):
        x, y = getattr(s, a, None), getattr(t, a, None) if lys else None
        out.check(same(x, y) or torn and x is None, key + '-' + a, lambda: det() + ' %s %s' % (np.shape(x), np.shape(y)))
    if not torn:
        out.check(bool(s.has_run_lyapunov) == (lys and hasattr(t, 'lys')), key + '-flag', det)
    out.check(s.run_name == name and (where is None or os.path.samefile(s.run_dir, where)), key + '-name', lambda: det() + ' %s %s' % (s.run_name, s.run_dir))


class Disk:
    """the model: for every name, the runs stopped under it: (number, trajectory, whole or torn)"""

    def __init__(self, out, loc, off):
        self.out, self.loc, self.off, self.n = out, loc, off, 0
        self.runs = {}
        self.hist = []

    def det(self):
        return 'kinds from %d: %s' % (self.off, ' '.join(self.hist))

    def stop(self, name, t=None, key='stop'):
        out = self.out
        if t is None:
            t = copy.deepcopy(kinds()[(self.off + self.n) % len(kinds())])
        self.n += 1
        t.run_name = name
        ref = copy.deepcopy(t)
        before = listing(self.loc)
        out.step()
        ok, where = out.attempt(key, t.stop, self.loc)
        if not ok:
            out.bad(key + '-failed:' + name, self.det())
            return None
        after = listing(self.loc)
        base = os.path.basename(os.path.normpath(where)) if isinstance(where, (str, os.PathLike)) else ''
        num = base[len(name) + 1:]
        if not out.check(base.startswith(name + '_') and num.isdigit() and os.path.isdir(where) and
                         os.path.samefile(os.path.dirname(os.path.normpath(where)) or '.', self.loc), key + '-folder', lambda: self.det() + ' %s' % where):
            return None
        num = int(num)
        out.check(num not in [r[0] for r in self.runs.get(name, [])], key + '-new-number', lambda: self.det() + ' %d' % num)
        out.check(all(after.get(f) == before[f] for f in before), key + '-keeps-others', self.det)
        out.check(all(f.split(os.sep)[0] == base for f in after if f not in before), key + '-one-folder', self.det)
        out.check(same(list(t.mps.data), list(ref.mps.data)) and same(t.H, ref.H), key + '-changes-run', self.det)
        self.runs.setdefault(name, []).append((num, ref, True, where))
        return where

    def resume(self, name, n=None, **k):
        from xmps.fTDVP import Trajectory
        if n is not None:
            k['n'] = n
        return Trajectory().resume(name, self.loc, **k)

    def apply(self, op):
        self.hist.append('%s(%s)' % op)
        if op[0] == 'stop':
            return self.stop(op[1]) is not None
        ok, s = self.out.attempt('resume', self.resume, op[1])
        return ok and self.stop(op[1], s, 'stop-again') is not None

    def check(self, last=True):
        out = self.out
        for name, runs in self.runs.items():
            for num, t, full, where in runs:
                if not full:
                    continue
                out.step()
                ok, s = out.attempt('resume-number', self.resume, name, num)
                if ok:
                    out.trace()
                    whole(out, 'resumed-number', s, t, name, where, lambda: self.det() + ' then resume %r n=%d' % (name, num))
            num, t, full, where = runs[-1]
            ok, s = True, None
            out.step()
            if full:
                ok, s = out.attempt('resume-latest', self.resume, name)
                key = 'resumed-latest'
            else:
                key = 'resumed-torn'
                try:
                    s = self.resume(name)
                except Exception:
                    ok = False
            if ok:
                out.trace()
                whole(out, key, s, t, name, where, lambda: self.det() + ' then resume %r' % name, torn=not full)
            if full and hasattr(t, 'lys'):
                ok, s = out.attempt('resume-without-lyapunov', self.resume, name, lys=False)
                if ok:
                    whole(out, 'resumed-without-lyapunov', s, t, name, where, lambda: self.det() + ' then resume %r lys=False' % name, lys=False)
        out.state(tuple((n, len(r), r[-1][2]) for n, r in sorted(self.runs.items())) + tuple(self.hist))


def ops(runs):
    return [('stop', n) for n in NAMES] + [('again', n) for n in NAMES if n in runs]


def cases(tier, seed):
    lvl = 1 if tier == 'quick' else 2
    cs = [dict(group='histories', first=f, off=o, depth=2 + lvl, w=5) for f in NAMES for o in range(6)]
    cs += [dict(group='many', name=n, off=o, w=3) for n in NAMES for o in range(2 if lvl == 1 else 6)]
    cs += [dict(group='crash', name=n, off=o, depth=lvl, w=4) for n in NAMES for o in range(6)]
    cs += [dict(group='places', off=o, w=1) for o in range(6)]
    return cs


def run(case, out):
    kinds()
    tmp = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        globals()[case['group']](case, out, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def histories(case, out, tmp):
    n = 0
    stack = [[('stop', case['first'])]]
    while stack:
        h = stack.pop()
        n += 1
        loc = os.path.join(tmp, 'd%d' % n)
        d = Disk(out, loc, case['off'])
        if not all([d.apply(op) for op in h]):
            continue
        d.check()
        shutil.rmtree(loc)
        if len(h) < case['depth']:
            stack += [h + [o] for o in ops(d.runs)]
    out.sample({'histories': n, 'last': d.hist})


def many(case, out, tmp):
    """more runs than one digit counts"""
    d = Disk(out, os.path.join(tmp, 'd'), case['off'])
    for k in range(13):
        if not d.apply(('stop' if k % 4 else 'again' if k else 'stop', case['name'])):
            return
        if k % 3 == 1 and not d.apply(('stop', NAMES[k // 3 % len(NAMES)])):
            return
        d.check()


def stopped(t, loc):
    """stops t; the files it wrote, in order"""
    order = []
    real = builtins.open

    def spy(file, mode='r', *a, **k):
        if isinstance(file, (str, os.PathLike)) and set(mode) & set('wxa+'):
            order.append(os.path.realpath(file))
        return real(file, mode, *a, **k)
    builtins.open = spy
    try:
        where = t.stop(loc)
    finally:
        builtins.open = real
    fs = [os.path.join(os.path.realpath(where), f) for f in sorted(os.listdir(where))]
    seen = []
    for f in order:
        if f in fs and f not in seen:
            seen.append(f)
    return where, seen + [f for f in fs if f not in seen]


def crash(case, out, tmp):
    name, off, n = case['name'], case['off'], 0
    firsts = [[]] + [[('stop', a)] for a in NAMES]
    if case['depth'] > 1:
        firsts += [[('stop', a), ('stop', b)] for a in NAMES for b in NAMES]
    for h in firsts:
        for then in [None] + list(NAMES):
            point, total = 0, 1
            while point < total:
                n += 1
                loc = os.path.join(tmp, 'c%d' % n)
                os.makedirs(loc)
                d = Disk(out, loc, off)
                if not all([d.apply(op) for op in h]):
                    return
                t = copy.deepcopy(kinds()[(off + d.n) % len(kinds())])
                d.n += 1
                t.run_name = name
                ref = copy.deepcopy(t)
                ok, w = out.attempt('stop', stopped, t, loc)
                if not ok:
                    return
                where, files = w
                total = 3 * len(files)      # file k // 3 is missing, empty, or half there; those after it are not there
                k, how = divmod(point, 3)
                point += 1
                for f in files[k + (how > 0):]:
                    os.remove(f)
                if how:
                    size = os.path.getsize(files[k])
                    os.truncate(files[k], 0 if how == 1 else size // 2)
                num = os.path.basename(where)[len(name) + 1:]
                d.runs.setdefault(name, []).append((int(num) if num.isdigit() else 0, ref, False, where))
                d.hist.append('crash in stop(%s): %s %s' % (name, os.path.basename(files[k]), ('missing', 'empty', 'half')[how]))
                d.check()
                if then is not None and d.apply(('stop', then)):
                    d.check()
                shutil.rmtree(loc)


def places(case, out, tmp):
    """directories: new ones, nested, with a slash, with odd names, and the default"""
    os.chdir(tmp)
    for loc in ('new', 'new/nested', 'slash/', 'J=[1]', 'J=1', 'st*te', 'state', os.path.join(tmp, 'abs'), 'data'):
        d = Disk(out, loc, case['off'])
        for name in ('a', 'J=[1]', 'a'):
            if not d.apply(('stop', name)):
                return
            d.check()
    # left out, the directory is data
    from xmps.fTDVP import Trajectory
    t = copy.deepcopy(kinds()[case['off']])
    t.run_name = 'b'
    ok, where = out.attempt('stop-default', t.stop)
    if ok:
        out.check(os.path.realpath(where) == os.path.realpath('data/b_1'), 'stop-default-folder', str(where))
        ok, s = out.attempt('resume-default', Trajectory().resume, 'b')
        if ok:
            whole(out, 'resumed-default', s, t, 'b', where, lambda: 'default directory')
