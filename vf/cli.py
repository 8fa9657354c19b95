'''Run the real "beer" command line in scratch directories.

Commands normally run in a forked child (imports are shared, everything else
is a fresh interpreter state); ``real=True`` starts a new interpreter with a
random hash seed.'''
import contextlib, hashlib, os, pickle, shutil, subprocess, sys, tempfile, time, zipfile
import numpy as np
from .core import torch, arr, REPO, Violated, Inconclusive
from . import ref

SCRIPT = os.path.join(REPO, 'beer', 'cli', 'beer')


class Result:
    def __init__(self, args, rc, out, err):
        self.args, self.rc, self.out, self.err = args, rc, out, err

    def lines(self):
        return [l for l in self.out.split('\n') if l]


@contextlib.contextmanager
def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='vfbeer', dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# Documented default values of the options.
_train = {'-e': 1, '-k': 1, '-n': 1, '-s': .1, '-c': 1.}
DEFAULTS = {
    ('hmm', 'accumulate'): {'-s': 1.}, ('hmm', 'decode'): {'-s': 1.}, ('hmm', 'posteriors'): {'-s': 1.},
    ('hmm', 'train'): {'-b': -1, '-e': 1, '-l': 1.}, ('hmm', 'update'): {'-l': 1.},
    ('shmm', 'mksphoneloop'): {'-g': 'speech-unit', '-l': 2, '-d': 2},
    ('hshmm', 'mksphoneloop'): {'-g': 'speech-unit', '-l': 2, '-t': 2, '-d': 2},
    ('shmm', 'train'): _train, ('hshmm', 'train'): dict(_train, **{'-u': 1}),
}


def leave_out(c, args):
    'Options given with their default value may be left out.'
    start = 2 if args[:1] == ['-s'] else 0
    table = DEFAULTS.get(tuple(args[start:start + 2]))
    if not table:
        return args
    out, i = args[:start + 2], start + 2
    while i < len(args):
        d = table.get(args[i])
        if d is not None and i + 1 < len(args) and c.flip(.4):
            v = args[i + 1]
            if v == d if isinstance(d, str) else float(v) == d:
                c.ev('options_left_out')
                i += 2
                continue
        out.append(args[i])
        i += 1
    return out


def beer(c, *args, stdin='', cwd=None, real=None, ok=True, script=SCRIPT):
    '''Run a command.  With ok=True a non-zero status is a violation (all the
    generated command lines are legal).'''
    args = [str(a) for a in args]
    if script == SCRIPT:
        args = leave_out(c, args)
    if real is None:
        real = c.flip(.01)
    c.ev('command_' + ('_'.join(a for a in args[:4] if a.isalpha() and a != 's') or 'script'))
    if real:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONHASHSEED=str(c.int(1, 10 ** 6)), PYTHONWARNINGS='ignore',
                   PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, script] + args, input=stdin.encode(), cwd=cwd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        r = Result(args, p.returncode, p.stdout.decode(), p.stderr.decode())
        c.ev('fresh_interpreters')
    else:
        r = _forked(args, stdin, cwd, script)
    if ok and r.rc != 0:
        raise Violated(f'command "beer {" ".join(args)}" failed with status {r.rc}: {r.err[-1200:]}')
    return r


def _forked(args, stdin, cwd, script):
    fin, fout, ferr = (tempfile.TemporaryFile() for _ in range(3))
    fin.write(stdin.encode())
    fin.seek(0)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            import signal, logging, random, runpy
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 100)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            os.dup2(fin.fileno(), 0)
            os.dup2(fout.fileno(), 1)
            os.dup2(ferr.fileno(), 2)
            sys.stdin = open(0, 'r', closefd=False)
            sys.stdout = open(1, 'w', closefd=False)
            sys.stderr = open(2, 'w', closefd=False)
            for h in list(logging.getLogger().handlers):
                logging.getLogger().removeHandler(h)
            if cwd:
                os.chdir(cwd)
            sys.argv = [script] + args
            sys.path.insert(0, os.path.dirname(script))
            # a new process has its own random state
            s = int.from_bytes(hashlib.sha256(repr((args, time.time_ns())).encode()).digest()[:4], 'little')
            torch.manual_seed(s); np.random.seed(s); random.seed(s)
            try:
                runpy.run_path(script, run_name='__main__')
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                import traceback
                traceback.print_exc()
                rc = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    _, status = os.waitpid(pid, 0)
    fout.seek(0)
    ferr.seek(0)
    rc = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    r = Result(args, rc, fout.read().decode(errors='replace'), ferr.read().decode(errors='replace'))
    for f in (fin, fout, ferr):
        f.close()
    return r


def load(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


def dump(obj, path):
    with open(path, 'wb') as f:
        pickle.dump(obj, f)


def fingerprint(*paths):
    out = {}
    for p in paths:
        with open(p, 'rb') as f:
            out[p] = hashlib.sha256(f.read()).hexdigest()
    return out


# ----------------------------------------------------------------------
# Projects: configuration, units, features and models built by commands.

def topology(c, n, skip=False):
    'Left-to-right topology with n emitting states (entry and exit are non-emitting).'
    arcs = [{'start_id': 0, 'end_id': 1, 'trans_prob': 1.0}]
    for i in range(1, n + 1):
        stay = round(float(c.uni(.2, .85)), 3)
        arcs.append({'start_id': i, 'end_id': i, 'trans_prob': stay})
        if skip and i + 2 <= n and c.flip():
            j = round(stay + (1 - stay) / 2, 4)
            arcs.append({'start_id': i, 'end_id': i + 1, 'trans_prob': round((1 - stay) / 2, 4)})
            arcs.append({'start_id': i, 'end_id': i + 2, 'trans_prob': round((1 - stay) / 2, 4)})
        else:
            arcs.append({'start_id': i, 'end_id': i + 1, 'trans_prob': round(1 - stay, 4)})
    return arcs


class Project:
    def __init__(self, c, d, dim=None, groups=None, units=None, n_utts=None, minlen=None, cov=None,
                 maxlen=None, many=0.):
        import yaml
        self.c, self.dir = c, d
        self.dim = dim or c.size(1, 3, 10, .15)
        ng = groups or c.int(1, 2)
        # the groups of a joint set have the same type of statistics
        cov = cov or c.choice(['diagonal', 'isotropic', 'full'])
        self.conf = []
        name = c.choice(['group', 'group', 'speech-unit'])
        gnames = [f'group{g}' if g or name == 'group' else name for g in range(ng)]
        for g in range(ng):
            self.conf.append({'group_name': gnames[g], 'n_normal_per_state': c.size(1, 3, 8, .1),
                              'prior_strength': float(c.choice([1., 1., 5.])), 'noise_std': float(c.choice([.1, .5])),
                              'cov_type': cov, 'shared_cov': False,
                              'topology': topology(c, c.size(2, 3, 6, .1), skip=True)})
        with open(self.p('hmm.yml'), 'w') as f:
            yaml.safe_dump(self.conf, f)
        nu = units or c.size(2, 4, 14, .12)
        self.units = [(f'u{i}', gnames[int(c.rng.integers(ng))]) for i in range(nu)]
        # every group has a unit
        for g in range(ng):
            if gnames[g] not in [x for _, x in self.units]:
                i = c.int(0, nu - 1)
                if sum(x == self.units[i][1] for _, x in self.units) > 1:
                    self.units[i] = (self.units[i][0], gnames[g])
        self.conf = [g for g in self.conf if g['group_name'] in [x for _, x in self.units]]
        with open(self.p('hmm.yml'), 'w') as f:
            yaml.safe_dump(self.conf, f)
        names = c.rng.permutation([u for u, _ in self.units])
        self.units = [(str(n), g) for n, (_, g) in zip(names, self.units)]
        with open(self.p('units'), 'w') as f:
            for u, g in self.units:
                f.write(f'{u} {g}\n')
        self.minlen = minlen or 4
        # (long enough for units of many states)
        ns = max(a['end_id'] for g in self.conf for a in g['topology']) - 1
        if ns > 3:
            self.minlen = -(-self.minlen * ns // 3) + 1
            maxlen = maxlen and max(maxlen, self.minlen + 2)
        n = n_utts or c.int(2, 5)
        if many and c.flip(many):
            # a data set of many short utterances
            n, maxlen = c.int(33, 150), self.minlen + 3
            c.ev('large_sets')
        self.feats = {}
        for i in range(n):
            name = c.choice(['utt', 's1_', 'A-']) + str(int(c.rng.integers(1000))) + ('x' * i if n < 33 else f'x{i}')
            T = c.int(self.minlen, maxlen or self.minlen + 12)
            x = c.rng.normal(size=(T, self.dim)) * 1.5 + 3 * c.rng.normal(size=self.dim)
            k = c.int(1, 3)
            x += np.repeat(c.rng.normal(size=(k, self.dim)) * 3, -(-T // k), axis=0)[:T]
            self.feats[name] = x.astype(np.float32)
        np.savez(self.p('feats.npz'), **self.feats)

    def p(self, name):
        return os.path.join(self.dir, name)

    def states_of(self, unit):
        g = [g for n, g in self.units if n == unit][0]
        conf = [x for x in self.conf if x['group_name'] == g][0]
        return max(a['end_id'] for a in conf['topology']) - 1

    def dataset(self):
        os.makedirs(self.p('data'), exist_ok=True)
        beer(self.c, 'dataset', 'create', self.p('data'), self.p('feats.npz'), self.p('data.pkl'))
        return self.p('data.pkl')

    def hmms(self, dataset=True):
        kw = ['-d', self.p('data.pkl')] if dataset else ['-D', self.dim]
        beer(self.c, '-s', self.c.int(0, 999), 'hmm', 'mkphones', *kw, self.p('hmm.yml'), self.p('units'), self.p('hmms.mdl'))

    def graph(self, *opts):
        beer(self.c, 'hmm', 'mkphoneloopgraph', *opts, self.p('units'), self.p('ploop_graph.pkl'))
        beer(self.c, 'hmm', 'mkdecodegraph', self.p('ploop_graph.pkl'), self.p('hmms.mdl'), self.p('decode_graph.pkl'))

    def loop(self, prior=None, out='0.mdl', opts=()):
        prior = prior or self.c.choice(['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process', 'dirichlet2',
                                        'hierarchical_dirichlet_process'])
        self.prior = prior
        beer(self.c, 'hmm', 'mkphoneloop', '--weights-prior', prior, *opts, self.p('decode_graph.pkl'), self.p('hmms.mdl'),
             self.p(out))
        return self.p(out)

    def build(self, prior=None, opts=()):
        self.dataset()
        self.hmms()
        self.graph(*opts)
        return self.loop(prior)

    def transcription(self, utt):
        'Random unit sequence that fits in the utterance.'
        T = len(self.feats[utt])
        out, n = [], 0
        while True:
            u = self.units[self.c.int(0, len(self.units) - 1)][0]
            n += self.states_of(u)
            if n > T:
                break
            out.append(u)
            if self.c.flip(.35):
                break
        return out

    def alignments(self, utts):
        'Alignment graphs of (some) utterances made by the command, archived as in the recipes.'
        os.makedirs(self.p('ali'), exist_ok=True)
        self.trans = {u: self.transcription(u) for u in utts}
        self.trans = {u: t for u, t in self.trans.items() if t}
        beer(self.c, 'hmm', 'mkaligraph', self.p('hmms.mdl'), self.p('ali'),
             stdin=''.join(f'{u} {" ".join(t)}\n' for u, t in self.trans.items()))
        with zipfile.ZipFile(self.p('alis.npz'), 'w') as z:
            for u in self.trans:
                z.write(self.p(f'ali/{u}.npy'), arcname=f'{u}.npy')
        return self.p('alis.npz') if self.trans else None


def posteriors(model):
    'Natural parameters of every posterior and prior, in the order of the groups.'
    out = []
    for g in model.mean_field_factorization():
        for p in g:
            out.append((arr(p.posterior.natural_parameters()), arr(p.prior.natural_parameters())))
    return out


def same_model(c, a, b, msg, rtol=2e-4, scale=1.):
    pa, pb = posteriors(a), posteriors(b)
    c.check(len(pa) == len(pb), f'{msg}: number of parameters')
    for i, (x, y) in enumerate(zip(pa, pb)):
        for n, u, v in zip(('posterior', 'prior'), x, y):
            if rtol == 0:
                c.check(u.shape == v.shape and (u == v).all(), f'{msg}: {n} of parameter {i} differs')
            else:
                c.close(u, v, f'{msg}: {n} of parameter {i}', rtol, rtol * (scale + np.abs(v).max()))
    for name in ('trans_log_probs', 'init_log_probs', 'final_log_probs'):
        c.close(getattr(a.graph, name), getattr(b.graph, name), f'{msg}: {name}', rtol * 5, rtol * 5)
