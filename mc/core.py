"""Explorer core: drives a check's finite case space over worker processes, counts what was covered,
reports violations (with replay files), known findings and the evidence file.

A check module defines
    PROP, LEVEL, BOUNDS, ASSUMPTIONS
    cases(tier, seed) -> list of JSON-able dicts (each one a sub-space that `run` exhausts)
    run(case, out)    -> explores that sub-space on the real code, reporting through `out`
"""
import hashlib, importlib, json, os, signal, sys, time, traceback, warnings
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XMPS_REPO', '/repo')
CASE_TIMEOUT = int(os.environ.get('MC_CASE_TIMEOUT', '400'))
MAX_KEYS = 40


class Hang(Exception):
    pass


class Out:
    """What one case covered."""

    def __init__(self, case):
        self.case = case
        self.digests = set()
        self.transitions = 0
        self.traces = 0
        self.checks = 0
        self.viol = []          # (key, detail)
        self._keys = set()
        self.samples = []

    def state(self, digest):
        """record a state; True when it is new in this case"""
        if not isinstance(digest, bytes):
            digest = hashlib.blake2b(repr(digest).encode(), digest_size=8).digest()
        new = digest not in self.digests
        self.digests.add(digest)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def bad(self, key, detail=''):
        if key not in self._keys and len(self._keys) < MAX_KEYS:
            self._keys.add(key)
            self.viol.append((key, str(detail)[:1500]))

    def check(self, ok, key, detail=''):
        self.checks += 1
        if not ok:
            self.bad(key, detail() if callable(detail) else detail)
        return bool(ok)

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def attempt(self, key, f, *a, **k):
        """run a call of the code under test; an exception there is a violation. Returns (ok, value)"""
        try:
            return True, f(*a, **k)
        except Hang:
            raise
        except Exception as e:
            self.bad(key + ':raised:' + type(e).__name__,
                     ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:]))
            return False, None


def _alarm(*_):
    raise Hang()


def _work(arg):
    mod, case = arg
    out = Out(case)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    t = time.time()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)      # the code under test prints
    os.dup2(devnull, 2)
    os.close(devnull)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import numpy as np
            np.random.seed(int.from_bytes(hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=4).digest(), 'big'))
            importlib.import_module(mod).run(case, out)
    except Hang:
        out.bad('hang:' + str(case.get('group', '')), 'no answer within %d s' % CASE_TIMEOUT)
    except Exception as e:
        out.bad('raised:%s:%s' % (case.get('group', ''), type(e).__name__), traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    return dict(case=case, digests=out.digests, transitions=out.transitions, traces=out.traces,
                checks=out.checks, viol=out.viol, samples=out.samples, t=time.time() - t)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def _n_workers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(n, 16))


def main(modname, replay=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.path.insert(0, REPO)
    prop = os.path.basename(modname.replace('.', '/')).upper()
    warnings.simplefilter('ignore')
    results = []
    mod = None
    try:
        mod = importlib.import_module(modname)
        prop = mod.PROP
    except Exception:
        tb = traceback.format_exc()
        if os.path.join(REPO, 'xmps') not in tb and 'xmps' not in tb:
            raise
        results.append(dict(case={'group': 'import'}, digests=set(), transitions=0, traces=0, checks=1,
                            viol=[('import-failed', tb[-1500:])], samples=[], t=0))
    if mod is not None:
        cs = [json.load(open(replay))['case']] if replay else list(mod.cases(tier, seed))
        # heavy cases first
        cs.sort(key=lambda c: -c.get('w', 1))
        only = os.environ.get('MC_ONLY')
        if only:
            cs = [c for c in cs if only in json.dumps(c)]
        ctx = mp.get_context('fork')
        with ctx.Pool(_n_workers(), maxtasksperchild=getattr(mod, 'TASKS_PER_CHILD', 200)) as pool:
            it = pool.imap_unordered(_work, [(modname, c) for c in cs], chunksize=1)
            n = 0
            while n < len(cs):
                try:
                    r = it.next(timeout=CASE_TIMEOUT + 60)
                except mp.TimeoutError:
                    results.append(dict(case={'group': 'lost'}, digests=set(), transitions=0, traces=0, checks=0,
                                        viol=[('hang:lost-worker', 'a worker gave no answer')], samples=[], t=0))
                    pool.terminate()
                    break
                n += 1
                results.append(r)
    return report(prop, mod, tier, seed, results, time.time() - t0, replay)


def report(prop, mod, tier, seed, results, wall, replay):
    states = set()
    tr = traces = checks = 0
    samples, viols = [], {}
    groups = {}
    for r in results:
        g = json.dumps(r['case'], sort_keys=True)
        ghash = hashlib.blake2b(g.encode(), digest_size=6).digest()
        states.update(ghash + d for d in r['digests'])
        tr += r['transitions']
        traces += r['traces']
        checks += r['checks']
        gg = groups.setdefault(str(r['case'].get('group', '')), dict(cases=0, states=0, transitions=0, checks=0))
        gg['cases'] += 1
        gg['states'] += len(r['digests'])
        gg['transitions'] += r['transitions']
        gg['checks'] += r['checks']
        for k, d in r['viol']:
            viols.setdefault(k, []).append((r['case'], d))
    seen_groups = set()
    for r in results:
        if r['samples'] and r['case'].get('group') not in seen_groups and len(samples) < 12:
            seen_groups.add(r['case'].get('group'))
            samples.append({'case': r['case'], 'sample': r['samples'][0]})
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'open']
    unlisted = []
    hit = {}
    for k in viols:
        m = [f for f in known if k in f['keys']]
        if m:
            hit.setdefault(m[0]['what'], []).append(k)
        else:
            unlisted.append(k)
    if not replay:
        for f in known:
            # each listed finding is printed; whether this run reproduced it is stated
            print('KNOWN-FINDING: property=%s %s%s' % (prop, f['what'], '' if f['what'] in hit else ' (not reproduced by this run)'))
    rc = 0
    if unlisted:
        rc = 1
        if os.environ.get('MC_AGG'):     # development aid: violations grouped by the first parts of their keys
            agg = {}
            for k in sorted(unlisted):
                agg.setdefault(':'.join(k.split(':')[:int(os.environ['MC_AGG'])]), []).append(k)
            for a, ks in sorted(agg.items(), key=lambda t: -len(t[1])):
                print('AGG %d %s | %s | %s' % (len(ks), a, ks[0], viols[ks[0]][0][1].strip()[-160:].replace('\n', ' ')))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for k in sorted(unlisted)[:25]:
            case, d = min(viols[k], key=lambda cd: len(json.dumps(cd[0])))
            h = hashlib.blake2b((prop + k).encode(), digest_size=5).hexdigest()
            path = os.path.join(rdir, '%s-%s.json' % (prop, h))
            json.dump(dict(property=prop, key=k, case=case, detail=d,
                           rerun='bash /verif/run.sh %s --replay %s' % (prop, path)), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   ', k, '(%d cases)' % len(viols[k]))
            if os.environ.get('MC_VERBOSE'):
                print(d)
    if not replay:
        cov = dict(states=len(states), transitions=tr, traces_validated_against_impl=traces,
                   oracle_evaluations=checks, cases=len(results), groups=groups,
                   bounds=getattr(mod, 'BOUNDS', ''), exhaustive=True,
                   distinct_violations=len(viols), samples=samples or [{'note': 'none'}])
        lvl = getattr(mod, 'LEVEL', 'model_checking')
        if lvl == 'fault_enumeration':
            cov['evaluations'] = checks
            cov['distinct_nontrivial'] = len(states)
            cov['rule'] = getattr(mod, 'RULE', '')
        ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=lvl,
                  coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
                  violations=len(unlisted))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    slow = sorted(results, key=lambda r: -r['t'])[:3]
    print('%s %s: states=%d transitions=%d traces=%d evaluations=%d cases=%d violations=%d known=%d wall=%.1fs' %
          (prop, tier, len(states), tr, traces, checks, len(results), len(unlisted), len(hit), wall))
    if os.environ.get('MC_VERBOSE'):
        for r in slow:
            print('   slow %.1fs %s' % (r['t'], json.dumps(r['case'])[:200]))
    sys.stdout.flush()
    return rc
