'''Case runner shared by all the checks.

A check is a module ``vf.checks.<id>`` with a list CASES of tuples
(function, quick_count, thorough_count).  Each case function receives a
``Case`` with its own seeded random generators, drives the real code of
/repo and lets an oracle decide on what it observed.
'''
import collections, hashlib, importlib, json, math, multiprocessing, os
import random, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.filterwarnings('ignore')
import numpy as np
import torch
torch.set_num_threads(1)


class Violated(Exception):
    'An oracle refuted the property.'


class Inconclusive(Exception):
    'The case could not decide (checker limits); counted, never a verdict.'


def digest(*args):
    return hashlib.sha256(repr(args).encode()).digest()


def jsonable(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return {'shape': list(x.shape), 'head': x.reshape(-1)[:8].tolist()}
        return x.tolist()
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


class Case:
    def __init__(self, prop, kind, idx, seed):
        self.prop, self.kind, self.idx, self.seed = prop, kind, idx, seed
        h = digest(seed, prop, kind, idx)
        s = int.from_bytes(h[:8], 'little')
        self.rng = np.random.default_rng(s)
        torch.manual_seed(s % (2 ** 62))
        np.random.seed(s % (2 ** 32))
        random.seed(s)
        self.desc = {}
        self.trivial = False
        self.events = collections.Counter()

    # Description of what this case is (used for distinctness, samples).
    def note(self, **kw):
        self.desc.update({k: jsonable(v) for k, v in kw.items()})

    def ev(self, name, n=1):
        self.events[name] += int(n)

    # Random helpers.
    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def size(self, lo, hi, big, p=.05):
        'A size, once in a while much larger than usual.'
        if self.flip(p):
            self.events['large_sizes'] += 1
            if self.flip():
                # around the usual sizes of blocks, buffers and caches
                around = [n + k for n in (8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048)
                          for k in (-1, 0, 1) if hi < n + k <= big]
                if around:
                    return self.choice(around)
            return int(round(math.exp(self.rng.uniform(math.log(hi + 1), math.log(big)))))
        return self.int(lo, hi)

    def choice(self, seq):
        seq = list(seq)
        return seq[int(self.rng.integers(len(seq)))]

    def flip(self, p=.5):
        return bool(self.rng.random() < p)

    def uni(self, lo, hi, shape=None):
        return self.rng.uniform(lo, hi, shape)

    def logu(self, lo, hi, shape=None):
        return np.exp(self.rng.uniform(math.log(lo), math.log(hi), shape))

    def dtype(self, p_double=.75):
        return torch.float64 if self.flip(p_double) else torch.float32

    # Oracle helpers.
    def fail(self, msg):
        raise Violated(msg)

    def check(self, cond, msg):
        self.events['assertions'] += 1
        if not bool(cond):
            raise Violated(msg)

    def close(self, got, want, msg, rtol=1e-7, atol=1e-8):
        self.events['assertions'] += 1
        g = arr(got)
        w = arr(want)
        if g.shape != w.shape:
            if g.size == w.size and g.size == 1:
                g, w = g.reshape(()), w.reshape(())
            else:
                raise Violated(f'{msg}: shape {g.shape} instead of {w.shape}')
        same = (g == w) | (np.isnan(g) & np.isnan(w))
        with np.errstate(invalid='ignore'):
            ok = same | (np.abs(g - w) <= atol + rtol * np.abs(w))
        if not np.all(ok):
            bad = np.argwhere(~ok)
            i = tuple(bad[0])
            raise Violated(f'{msg}: {len(bad)}/{g.size} values differ, first at {i}: '
                           f'observed {g[i]!r}, expected {w[i]!r}')

    def finite(self, x, msg):
        self.events['assertions'] += 1
        a = arr(x)
        if not np.all(np.isfinite(a)):
            raise Violated(f'{msg}: non-finite value(s) {a.reshape(-1)[:8]}')

    def raises(self, excs, fn, msg):
        self.events['assertions'] += 1
        try:
            fn()
        except excs:
            return
        raise Violated(msg)


def arr(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    return np.asarray(x, dtype=np.float64)


class _Timeout(BaseException):
    pass


class _CpuLimit(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def _cpu(signum, frame):
    raise _CpuLimit()


# A case costs at most a few CPU seconds.  Running out of CPU time (which
# does not depend on the load of the machine) means that the code does not
# terminate; running out of wall-clock time is inconclusive.
CPU_LIMIT = 120
CASE_LIMIT = 400


def run_case(prop, kind, idx, seed):
    mod = importlib.import_module(f'vf.checks.{prop.lower()}')
    fn = {f.__name__: f for f, *_ in mod.CASES}[kind]
    c = Case(prop, kind, idx, seed)
    t0 = time.time()
    verdict, msg = 'held', ''
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    signal.signal(signal.SIGPROF, _cpu)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        fn(c)
    except Violated as err:
        verdict, msg = 'violated', str(err)
    except Inconclusive as err:
        verdict, msg = 'inconclusive', str(err)
    except _Timeout:
        verdict, msg = 'inconclusive', f'no verdict within {CASE_LIMIT} s'
    except _CpuLimit:
        verdict, msg = 'violated', f'did not terminate within {CPU_LIMIT} s of CPU time'
    except Exception as err:
        # The harness itself never raises on a tree where the property
        # holds: an exception means that the code refused or produced
        # something unusable for a legal input.
        verdict = 'violated'
        msg = f'{type(err).__name__}: {err}\n' + traceback.format_exc(limit=-8)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    key = hashlib.sha256(json.dumps([kind, c.desc], sort_keys=True).encode()).hexdigest()[:16]
    return {'kind': kind, 'idx': idx, 'verdict': verdict, 'msg': msg, 'key': key,
            'desc': c.desc, 'trivial': c.trivial, 'events': dict(c.events),
            'wall': time.time() - t0}


def _pool_case(args):
    return run_case(*args)


def known_findings(prop):
    'Entries "finding: property=<id> case=<kind> match=<substring> | <text>".'
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'finding: property={prop} '):
                head, text = line.split(' | ', 1)
                fields = dict(t.split('=', 1) for t in head.split(' ')[1:])
                out.append((fields['case'], fields['match'].replace('~', ' '), text))
    return out


def evidence_rule(mod):
    return ' '.join((mod.RULE + ' A case is non-trivial unless it was drawn degenerate (marked by '
                     'its generator); two cases are distinct when their drawn descriptions differ.').split())


def main(prop, tier, seed, replay=None, only=None, count=None, jobs=None):
    t0 = time.time()
    mod = importlib.import_module(f'vf.checks.{prop.lower()}')
    if replay:
        r = json.load(open(replay))
        res = run_case(prop, r['kind'], r['idx'], r['seed'])
        print(json.dumps(res, indent=1))
        if res['verdict'] == 'violated':
            print(f'VIOLATION property={prop} replay={replay}')
            return 1
        return 0
    tasks = []
    quick = tier == 'quick'
    budget = getattr(mod, 'BUDGET', (150, 800))[0 if quick else 1]
    per = []
    for fn, nq, nt in mod.CASES:
        if only and fn.__name__ != only:
            continue
        n = count if count is not None else (nq if quick else nt)
        per.append([(prop, fn.__name__, i, seed) for i in range(n)])
    # Interleave the kinds so that a stop by time covers all of them.
    total = sum(map(len, per))
    order = sorted(((i + .5) / len(l), k, i) for k, l in enumerate(per) for i in range(len(l)))
    tasks = [per[k][i] for _, k, i in order]
    jobs = jobs or int(os.environ.get('VF_JOBS', min(8, os.cpu_count() or 1)))
    stats = collections.Counter()
    kinds = collections.defaultdict(collections.Counter)
    events = collections.Counter()
    keys = set()
    samples, violations, incon = [], [], []
    known = known_findings(prop)
    hits = collections.Counter()
    truncated = False
    ctx = multiprocessing.get_context('fork')
    if hasattr(mod, 'warm'):
        mod.warm()

    def results():
        if jobs == 1:
            yield from map(_pool_case, tasks)
        else:
            with ctx.Pool(jobs, maxtasksperchild=getattr(mod, 'MAXTASKS', None)) as pool:
                yield from pool.imap_unordered(_pool_case, tasks,
                                               chunksize=getattr(mod, 'CHUNK', 4))
    for res in results():
        stats['evaluations'] += 1
        kinds[res['kind']][res['verdict']] += 1
        events.update(res['events'])
        if res['verdict'] == 'violated':
            for kind, sub, text in known:
                if kind == res['kind'] and sub in res['msg']:
                    hits[text] += 1
                    break
            else:
                violations.append(res)
        elif res['verdict'] == 'inconclusive':
            incon.append(res)
        elif not res['trivial']:
            keys.add(res['key'])
        if len([s for s in samples if s['case'] == res['kind']]) < 1 and res['desc']:
            samples.append({'case': res['kind'], 'index': res['idx'], **res['desc']})
        if len(violations) >= 40:
            break
        if time.time() - t0 > budget:
            truncated = True
            break
    for text in known and [t for _, _, t in known] or []:
        if hits[text]:
            print(f'KNOWN-FINDING: property={prop} {text} ({hits[text]} case(s))')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': stats['evaluations'],
            'distinct_nontrivial': len(keys),
            'rule': evidence_rule(mod),
            'samples': samples[:12],
            'planned': total,
            'stopped_by_time': truncated,
            'cases': {k: dict(v) for k, v in sorted(kinds.items())},
            'observed_events': {k: v for k, v in sorted(events.items())},
            'inconclusive': len(incon),
            'known_findings_seen': dict(hits),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} [{tier}, seed {seed}]: {stats["evaluations"]} executions, '
          f'{len(keys)} distinct non-trivial, {events["assertions"]} oracle assertions, '
          f'{len(incon)} inconclusive, {len(violations)} violations, {ev["wall_s"]} s')
    if violations:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = collections.Counter()
        for v in sorted(violations, key=lambda v: (v['kind'], v['idx'])):
            seen[v['kind']] += 1
            if seen[v['kind']] > 2:
                continue
            path = os.path.join(rdir, f'{prop}-{v["kind"]}-{v["idx"]}-{seed}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'kind': v['kind'], 'idx': v['idx'], 'seed': seed,
                           'message': v['msg'], 'case': v['desc'],
                           'how': f'python run.py {prop} --replay {path}'}, f, indent=1)
            print(f'  case {v["kind"]}[{v["idx"]}] {v["desc"]}: {v["msg"][:1500]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if events['assertions'] == 0 or stats['evaluations'] == 0:
        print('inconclusive: the monitors observed nothing')
        return 2
    if len(incon) > .2 * stats['evaluations']:
        for v in incon[:3]:
            print('  inconclusive:', v['kind'], v['idx'], v['msg'])
        print('inconclusive: too many cases without a verdict')
        return 2
    return 0
