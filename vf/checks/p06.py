'conservation monitor: statistics stored after the backward pass of random splits, orders and associations compared with one pass over all the data'
import pickle
import numpy as np
from ..core import torch, arr
from .. import ref, gen, seqgen, zoo

RULE = '''Random models (conjugate, mixtures with finite/stick-breaking weights and nested emissions, HMMs,
phone loops) on random data sets cut into 1..6 batches (utterances for sequence models), summed in random
order and association, with empty accumulators and pickled partial sums, whole or part of the declared size.'''
ASSUMPTIONS = ['double precision; sums in another order may differ by rounding only']


def _elbo(m, x, N, **kw):
    from beer import evidence_lower_bound
    return evidence_lower_bound(m, x, datasize=N, **kw)


def _tree_sum(c, items):
    items = list(items)
    while len(items) > 1:
        i = c.int(0, len(items) - 2)
        j = c.int(i + 1, len(items) - 1)
        a, b = items.pop(j), items.pop(i)
        items.append(a + b if c.flip() else b + a)
    return items[0]


def _stored(m):
    return {p.uuid: arr(p.stats).copy() for p in zoo.params(m)}


def _batches(c, z):
    if z.seq:
        lens = [c.size(z.minlen, z.minlen + 6, 80) for _ in range(c.size(1, 6, 40))]
    else:
        lens = [c.size(1, 8, 200) for _ in range(c.size(1, 6, 40))]
    return [z.data(c, n) for n in lens]


def split(c):
    z = zoo.draw(c)
    m = z.model
    B = _batches(c, z)
    N = sum(map(len, B))
    kw = {}
    if z.seq:
        kw['scale'] = float(c.choice([1., 1., .5]))
        if c.flip(.2):
            kw['viterbi'] = True
    c.note(kind=z.kind, lens=[len(b) for b in B], x=B[0][0])
    c.ev('model_' + z.kind)
    # The reference: the plain sum of what each part accumulates alone.
    want = {}
    for b in B if z.seq else [torch.cat(B)]:
        stats = m.sufficient_statistics(b)
        m.expected_log_likelihood(stats, **kw)
        for p, s in m.accumulate(stats).items():
            want[p.uuid] = want.get(p.uuid, 0) + arr(s)
        m.clear_cache()
    from beer import evidence_lower_bound
    order = [B[i] for i in c.rng.permutation(len(B))]
    parts = [_elbo(m, b, N, **kw) for b in order]
    if c.flip():
        parts.insert(c.int(0, len(parts)), evidence_lower_bound(datasize=N))
        c.ev('empty_accumulators')
    if c.flip(.4):
        # Partial sums that went through a file.
        i = c.int(0, len(parts) - 1)
        e = pickle.loads(pickle.dumps(parts[i]))
        e.sync(m)
        parts[i] = e
        c.ev('pickled')
    total = _tree_sum(c, parts)
    if c.flip(.4):
        total = pickle.loads(pickle.dumps(total))
        total.sync(m)
    total.backward()
    got = _stored(m)
    c.check(set(got) == set(want), 'parameters receiving statistics')
    for u in want:
        s = np.abs(want[u]).max() + N
        c.close(got[u], want[u], f'{z.kind}: statistics of the sum of {len(parts)} parts', 1e-9, 1e-9 * s)
    c.ev('sums', len(parts))


def partial(c):
    'Only part of the declared size is seen: statistics scaled accordingly.'
    from beer import evidence_lower_bound
    z = zoo.draw(c)
    m = z.model
    B = _batches(c, z)
    n = sum(map(len, B))
    N = c.choice([n, n * 2, n * 7, n + c.int(1, 50), max(1, n // 2)])
    c.note(kind=z.kind, lens=[len(b) for b in B], declared=N)
    c.ev('model_' + z.kind)
    want = {}
    for b in B if z.seq else [torch.cat(B)]:
        stats = m.sufficient_statistics(b)
        m.expected_log_likelihood(stats)
        for p, s in m.accumulate(stats).items():
            want[p.uuid] = want.get(p.uuid, 0) + arr(s) * N / n
        m.clear_cache()
    total = _tree_sum(c, [_elbo(m, b, N) for b in B] + ([evidence_lower_bound(datasize=N)] if c.flip() else []))
    total.backward()
    got = _stored(m)
    for u in want:
        s = np.abs(want[u]).max() + N
        c.close(got[u], want[u], f'{z.kind}: scaled statistics', 1e-9, 1e-9 * s)
    # Doing the backward pass again stores the same statistics, whatever
    # happened to the parameters meanwhile.
    from beer import VBConjugateOptimizer
    opt = VBConjugateOptimizer(m.mean_field_factorization(), 0.)
    k = c.int(0, 3)
    if k == 1:
        opt.init_step()
    elif k == 2:
        for p in zoo.params(m):
            p.stats += 1.
    elif k == 3:
        opt.step()
    total.backward(std_params=False)
    again = _stored(m)
    for u in want:
        c.close(again[u], got[u], 'second backward pass', 0, 0)


def update(c):
    'The update from split data is the update from all of it.'
    import copy
    from beer import VBConjugateOptimizer
    z = zoo.draw(c)
    B = _batches(c, z)
    N = sum(map(len, B))
    lrate = float(c.choice([1., .4]))
    c.note(kind=z.kind, lens=[len(b) for b in B], lrate=lrate)
    blob = pickle.dumps(z.model)
    out = []
    for variant in range(2):
        m = pickle.loads(blob)
        opt = VBConjugateOptimizer(m.mean_field_factorization(), lrate)
        for _ in range(2):
            opt.init_step()
            if variant == 0:
                order = B if z.seq else [torch.cat(B)]
                total = sum([_elbo(m, b, N) for b in order[1:]], _elbo(m, order[0], N))
            else:
                total = _tree_sum(c, [_elbo(m, B[i], N) for i in c.rng.permutation(len(B))])
            total.backward()
            opt.step()
        out.append([arr(p.posterior.natural_parameters()) for p in zoo.params(m)])
    for a, b in zip(*out):
        c.close(b, a, f'{z.kind}: updated posterior', 1e-6, 1e-7 * (1 + np.abs(a).max()))


def refused(c):
    'Objectives of different declared sizes cannot be added.'
    from beer import evidence_lower_bound
    z = zoo.draw(c)
    n = z.minlen + 3
    a, b = z.data(c, n), z.data(c, n)
    N1, N2 = n + c.int(0, 5), n + c.int(6, 20)
    c.note(kind=z.kind, sizes=[N1, N2])
    e1, e2 = _elbo(z.model, a, N1), _elbo(z.model, b, N2)
    c.raises(ValueError, lambda: e1 + e2, 'objectives of different data sizes were added')
    c.raises(ValueError, lambda: evidence_lower_bound(datasize=N2) + e1, 'objectives of different data sizes were added')
    c.raises(ValueError, lambda: e1 + 1., 'a number was added to an objective')
    c.raises(ValueError, lambda: evidence_lower_bound(), 'objective without data or size accepted')
    s = e1 + evidence_lower_bound(datasize=N1)
    c.close(float(s), float(e1), 'value with an empty accumulator', 1e-12, 1e-12)


def pieces(c):
    'The objective of the sum is the sum of the objectives; operands are left as they were.'
    z = zoo.draw(c)
    B = _batches(c, z)
    N = sum(map(len, B))
    es = [_elbo(z.model, b, N) for b in B]
    vals = [float(e) for e in es]
    snap = []
    for e in es:
        e.backward(std_params=False)
        snap.append(_stored(z.model))
    t = _tree_sum(c, es)
    c.note(kind=z.kind, lens=[len(b) for b in B])
    c.close(float(t), sum(vals), 'value of the sum', 1e-9, 1e-8 * (1 + sum(map(abs, vals))))
    t.backward()
    for e, v, s in zip(es, vals, snap):
        c.check(float(e) == v, 'an operand changed its value')
        e.backward(std_params=False)
        now = _stored(z.model)
        for u in s:
            c.close(now[u], s[u], 'statistics of an operand', 0, 0)


def several(c):
    'Objectives of several models (with parameters of their own, or shared by some) add up as those of one.'
    import beer
    n = c.int(2, 4)
    shared = c.flip()
    if shared:
        d, K = c.size(1, 4, 12), c.size(1, 4, 12)
        ns = beer.NormalSet.create(torch.zeros(d, dtype=torch.float64), torch.ones(d, dtype=torch.float64), K, noise_std=1.,
                                   cov_type=c.choice(['full', 'diagonal', 'isotropic']))
        w = torch.ones(K, dtype=torch.float64) / K
        models = [beer.Mixture(beer.Categorical.create(w, prior_strength=float(c.logu(.5, 20))), ns) for _ in range(n)]
        data = [[ref.t(c.rng.standard_normal((c.int(1, 8), d)) * 2) for _ in range(c.int(1, 3))] for _ in models]
    else:
        zs = [zoo.draw(c) for _ in range(n)]
        models = [z.model for z in zs]
        data = [_batches(c, z)[:4] for z in zs]
    items = [(i, b) for i, B in enumerate(data) for b in B]
    N = int(sum(len(b) for _, b in items) * float(c.choice([1, 1, 3])))
    c.note(models=n, shared=shared, lens=[[len(b) for b in B] for B in data])
    want, objective = {}, 0.
    parts = []
    for i, b in items:
        stats = models[i].sufficient_statistics(b)
        models[i].expected_log_likelihood(stats)
        for p, s in models[i].accumulate(stats).items():
            want[p.uuid] = want.get(p.uuid, 0) + arr(s)
        models[i].clear_cache()
        parts.append(_elbo(models[i], b, N))
        objective += float(parts[-1])
    parts = [parts[int(j)] for j in c.rng.permutation(len(parts))]
    if c.flip():
        parts.insert(c.int(0, len(parts)), beer.evidence_lower_bound(datasize=N))
    total = _tree_sum(c, parts)
    c.close(float(total), objective, 'value of the sum', 1e-9, 1e-8 * (1 + abs(objective)))
    total.backward(std_params=False)
    scale = N / sum(len(b) for _, b in items)
    for m in models:
        for p in zoo.params(m):
            if p.uuid in want:
                c.close(p.stats, scale * want[p.uuid], 'statistics of a parameter of several models', 1e-8, 1e-7)
                c.ev('parameters')


CASES = [(split, 960, 8000), (partial, 640, 5000), (update, 480, 3000), (refused, 120, 200), (pieces, 400, 2400),
         (several, 320, 2400)]
