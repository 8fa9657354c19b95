'runtime oracle: statistics, orders and contents of compiled data sets compared with the archive over random access histories (interleaved iterators, random access, reloads, new processes, seeds); archives compared with their directories'
import collections, os, pickle, random, zipfile
import numpy as np
from ..core import torch, arr
from .. import cli, worker

RULE = '''Random archives of 1-30 utterances (0 to 60 frames, 1-6 dimensions, single, double, half precision and integer features,
large offsets, constant dimensions, names of several scripts and prefixes) written by numpy, compressed or by the archive
command; random histories of 10-40 accesses over several iterators, pickled copies and processes.'''
ASSUMPTIONS = ['feature names do not contain the extension of their file', 'one frame in the data set at least']
CHUNK = 4


def names(c, n):
    out = set()
    while len(out) < n:
        out.add(c.choice(['utt', 'UTT_', 's-', 'sp.k', 'é', '10', '9', 'a b']) + str(c.int(0, 40)) + c.choice(['', '', '_x', '-B', '.1']))
    out = list(out)
    c.rng.shuffle(out)
    return [str(n) for n in out]


def features(c, dim):
    dt = c.choice(['float32', 'float32', 'float64', 'int16', 'float16', 'uint8', 'int32'])
    off = c.rng.normal(size=dim) * c.choice([0., 3., 100., 1000.])
    scale = c.logu(.1, 10, dim)
    if c.flip(.2):
        scale[0] = 0
    feats = {}
    for n in names(c, c.int(1, c.choice([3, 12, 30, 30, 200]))):
        T = c.choice([c.size(1, 60, 3000), c.int(1, 5), c.int(0, 3)])
        x = off + scale * c.rng.normal(size=(T, dim))
        if dt == 'uint8':
            x = np.clip(x, 0, 255)
        if dt == 'int32':
            x = np.clip(x * 1000, -1e8, 1e8)
        feats[n] = x.astype(dt)
    if sum(len(x) for x in feats.values()) == 0:
        n = next(iter(feats))
        feats[n] = np.ones((2, dim), dt)
    c.note(utterances=len(feats), frames=sum(len(x) for x in feats.values()), dim=dim, dtype=dt, offset=off)
    return feats


def archive(c, d, feats):
    'Write the archive, possibly by the command.'
    path = os.path.join(d, 'feats.npz')
    how = c.choice(['savez', 'compressed', 'command'])
    c.note(written=how)
    if how == 'command':
        fd = os.path.join(d, 'fea')
        os.mkdir(fd)
        for n, x in feats.items():
            np.save(os.path.join(fd, n), x)
        cli.beer(c, 'features', 'archive', fd, path)
    else:
        {'savez': np.savez, 'compressed': np.savez_compressed}[how](path, **feats)
    return path


def same(c, utt, feats, what):
    x = feats[utt.id]
    c.check(utt.features.dtype == torch.float32 and tuple(utt.features.shape) == x.shape,
            f'{what}: shape of {utt.id}: {tuple(utt.features.shape)} {utt.features.dtype}')
    c.check((arr(utt.features) == x.astype(np.float32)).all(), f'{what}: features of {utt.id}')
    c.ev('utterances_delivered')


def order(path, seed, n):
    'Orders of n random iterations under this seed (in another process).'
    with open(path, 'rb') as f:
        ds = pickle.load(f)
    random.seed(seed)
    return [[u.id for u in ds.utterances()] for _ in range(n)]


def dataset(c):
    dim = c.int(1, 6)
    feats = features(c, dim)
    with cli.scratch() as d:
        p = archive(c, d, feats)
        before = cli.fingerprint(p)
        out = os.path.join(d, 'data.pkl')
        if c.flip(.3):
            os.mkdir(os.path.join(d, 'sub'))
            cli.beer(c, 'dataset', 'create', '..', '../feats.npz', '../data.pkl', cwd=os.path.join(d, 'sub'))
        else:
            cli.beer(c, 'dataset', 'create', d, p, out)
        c.check(cli.fingerprint(p) == before, 'the archive is left unchanged')
        ds = cli.load(out)
        # statistics
        X = np.concatenate([x.astype(np.float64) for x in feats.values()])
        c.check(ds.size == len(X), f'frame count {ds.size} instead of {len(X)}')
        c.check(len(ds) == len(feats), f'utterance count {len(ds)}')
        c.check(tuple(ds.mean.shape) == (dim,) and tuple(ds.var.shape) == (dim,), 'shapes of the statistics')
        scale = np.abs(X).max() + 1
        c.close(ds.mean, X.mean(0), 'mean', 1e-6, 1e-6 * np.abs(X).mean())
        c.close(ds.var, X.var(0), 'variance', 1e-5, 1e-10 * scale ** 2)
        # history
        ids = sorted(feats)
        if c.flip(.3):
            ds.utterances(random_order=False)
            ds = pickle.loads(pickle.dumps(ds))
        iters = []
        for _ in range(c.int(10, 40)):
            op = c.choice(['new', 'next', 'next', 'next', 'get', 'full', 'random', 'pickle', 'stats', 'modify'])
            if op == 'new':
                rnd = c.flip()
                iters.append((ds.utterances(random_order=rnd), [], rnd))
            elif op == 'next' and iters:
                it, seen, rnd = c.choice(iters)
                u = next(it, None)
                if u is None:
                    c.check(sorted(seen) == ids, f'an iterator delivers every utterance once: {seen}')
                    c.check(rnd or seen == ids, f'sorted order: {seen}')
                else:
                    same(c, u, feats, 'iteration')
                    seen.append(u.id)
                    c.check(rnd or seen == ids[:len(seen)], f'sorted order: {seen}')
            elif op == 'get':
                k = c.choice(ids)
                u = ds[k]
                c.check(u.id == k, 'identifier of a random access')
                same(c, u, feats, 'random access')
            elif op == 'modify':
                u = ds[c.choice(ids)]
                u.features.add_(1.)
            elif op in ('full', 'random'):
                got = []
                for u in ds.utterances(random_order=op == 'random'):
                    same(c, u, feats, 'full iteration')
                    got.append(u.id)
                c.check(sorted(got) == ids, f'every utterance is delivered once: {got}')
                if op == 'full':
                    c.check(got == ids, f'sorted order: {got}')
            elif op == 'pickle':
                ds2 = pickle.loads(pickle.dumps(ds))
                c.check(ds2.size == ds.size and (ds2.mean == ds.mean).all() and (ds2.var == ds.var).all() and len(ds2) == len(ds),
                        'a pickled copy has the same statistics')
                if c.flip():
                    ds = ds2
            else:
                c.check(ds.size == len(X) and len(ds) == len(feats), 'statistics do not change')
        # the order depends on the seed only
        seed = c.int(0, 10 ** 6)
        random.seed(seed)
        n = 3
        mine = [[u.id for u in ds.utterances()] for _ in range(n)]
        random.seed(seed)
        c.check([[u.id for u in ds.utterances()] for _ in range(n)] == mine, 'same seed, same order')
        if c.flip(.5):
            c.check(worker.away(c, order, out, seed, n) == mine, 'same seed, same order in another process')
        if len(ids) >= 12:
            c.check(len({tuple(m) for m in mine}) == n, 'orders are drawn again at every iteration')


def orders(c):
    'All the orders are equally likely.'
    from beer.cli.dataset import Dataset
    n = c.int(2, 4)
    ids = names(c, n)
    with cli.scratch() as d:
        p = os.path.join(d, 'f.npz')
        np.savez(p, **{i: np.zeros((1, 1), np.float32) for i in ids})
        ds = Dataset(p, torch.zeros(1), torch.ones(1), n)
        N = {2: 200, 3: 400, 4: 1000}[n]
        got = collections.Counter(tuple(u.id for u in ds.utterances()) for _ in range(N))
    import math
    k = math.factorial(n)
    c.note(utterances=n, iterations=N)
    chi = sum((got.get(o, 0) - N / k) ** 2 / (N / k) for o in got) + (k - len(got)) * N / k
    c.check(len(got) == k and chi < k + 12 * math.sqrt(2 * k), f'{len(got)} of {k} orders, chi2 {chi}')
    c.ev('orders_seen', len(got))


def archived(c):
    'The archive command stores every matching file once, unchanged.'
    ext = c.choice(['npy', 'npy', 'npy', 'txt', 'fea'])
    ns = names(c, c.int(0, 15))
    c.note(extension=ext, files=len(ns))
    with cli.scratch() as d:
        fd = os.path.join(d, 'fea')
        os.mkdir(fd)
        data = {}
        for n in ns:
            p = os.path.join(fd, n + '.' + ext)
            if ext == 'npy':
                np.save(p, c.rng.normal(size=(c.int(0, 9), 2)))
            else:
                with open(p, 'wb') as f:
                    f.write(c.rng.bytes(c.int(0, 3000)))
            with open(p, 'rb') as f:
                data[n] = f.read()
        for n in ns[:3]:
            with open(os.path.join(fd, n + '.log'), 'w') as f:
                f.write('x')
        out = os.path.join(d, 'o.npz')
        if c.flip(.3):
            with open(out, 'w') as f:
                f.write('old')
        args = [] if ext == 'npy' and c.flip() else ['-e', ext]
        cli.beer(c, 'features', 'archive', *args, fd + c.choice(['', '/']), out)
        with zipfile.ZipFile(out) as z:
            got = z.namelist()
            c.check(sorted(got) == sorted(ns), f'members {sorted(got)} instead of {sorted(ns)}')
            for n in got:
                c.check(z.read(n) == data[n], f'content of {n}')
                c.ev('members')
        c.check(sorted(os.listdir(fd)) == sorted([n + '.' + ext for n in ns] + [n + '.log' for n in ns[:3]]),
                'the directory is left unchanged')


CASES = [(dataset, 300, 4000), (orders, 20, 200), (archived, 60, 800)]


def warm():
    import beer.cli.subcommands
