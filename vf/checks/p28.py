'non-interference monitor: parameters, priors, graphs, inputs and the answers of every later evaluation compared bit for bit around random interleavings of evaluations; twin training runs with and without evaluations in between; validity and moments of created and sampled quantities'
import copy, io, pickle
import numpy as np
from ..core import torch, arr
from .. import ref, gen, seqgen, zoo, gsmzoo, vaezoo

RULE = '''Models of every kind (conjugate, mixtures, HMMs, phone loops, auto-encoders, subspace and hierarchical models,
sets) in both precisions, fresh and after some training; random interleavings of scoring, decoding, posteriors,
objectives, accumulation, backward passes, indexing, slicing, copying and pickling on several inputs, and twin copies
trained with and without such evaluations between the steps.  Created models with random moments, strengths and scales;
samples of every distribution that can be sampled.'''
ASSUMPTIONS = ['the objective of a subspace model writes the densities it has drawn into the units (by design: see P17)',
               'evaluations run on the CPU with a fixed number of threads',
               'the cached quantities between a score and the accumulation that follows it are not part of the model']


def snapshot(m):
    'Everything that makes up a model, by what can be read from it.'
    out = {}
    for i, p in enumerate(zoo.params(m)):
        for name in ('prior', 'posterior'):
            d = getattr(p, name, None)
            if d is not None and hasattr(d, 'natural_parameters'):
                out[f'{name} {i}'] = arr(d.natural_parameters()).copy()
        out[f'type {i}'] = np.array([type(p).__name__])
    for k, v in m.state_dict().items():
        if 'stats' not in k.split('.')[-1]:
            out[f'tensor {k}'] = arr(v).copy()
    for name, o in (('graph', getattr(m, 'graph', None)),):
        if o is not None:
            out['trans'], out['init'], out['final'] = (arr(v).copy() for v in
                                                       (o.trans_log_probs, o.init_log_probs, o.final_log_probs))
            out['pdfs'] = np.array(o.pdf_id_mapping)
    for k in ('start_pdf', 'end_pdf'):
        if isinstance(getattr(m, k, None), dict):
            out[k] = np.array(sorted((a, int(b)) for a, b in getattr(m, k).items()))
    return out


def same(c, a, b, msg):
    c.check(set(a) == set(b), f'{msg}: {sorted(set(a) ^ set(b))[:3]} appeared or vanished')
    for k in a:
        x, y = a[k], b[k]
        if x.dtype != y.dtype or x.shape != y.shape:
            c.fail(f'{msg}: {k} turned from {x.dtype} {x.shape} into {y.dtype} {y.shape}')
        if x.dtype.kind == 'f':
            if not np.array_equal(x, y, equal_nan=True):
                c.fail(f'{msg}: {k} changed by {np.abs(x - y).max()}')
        elif not np.array_equal(x, y):
            c.fail(f'{msg}: {k} changed')
        c.ev('assertions')


def stats_by_param(m, acc):
    order = {p.uuid: i for i, p in enumerate(zoo.params(m))}
    return {f'stats {order[p.uuid]}': arr(s).copy() for p, s in acc.items()}


class Probe:
    'The answers of a model to a fixed set of questions.'

    def __init__(self, c, z, dtype):
        self.z, self.dtype = z, dtype
        self.X = z.data(c, z.minlen + c.int(0, 5), dtype)
        self.scale = float(c.choice([1., .3, 2.]))
        self.graph = None
        if z.seq and z.graph is not None and c.flip(.4):
            self.graph = copy.deepcopy(z.graph)
        self.viterbi = z.seq and c.flip(.4)
        self.kw = {}
        if z.seq:
            self.kw = dict(scale=self.scale, inference_graph=self.graph, viterbi=self.viterbi)

    def inputs(self):
        out = {'data': arr(self.X).copy()}
        if self.graph is not None:
            g = self.graph
            out.update(itrans=arr(g.trans_log_probs).copy(), iinit=arr(g.init_log_probs).copy(),
                       ifinal=arr(g.final_log_probs).copy(), ipdfs=np.array(g.pdf_id_mapping))
        return out

    def ask(self, m):
        import beer
        out = {}
        x = self.X
        s = m.sufficient_statistics(x)
        s0 = arr(s).copy()
        out['score'] = arr(m.expected_log_likelihood(s, **self.kw)).copy()
        out.update(stats_by_param(m, m.accumulate(s)))
        m.clear_cache()
        out['sufficient statistics'] = s0
        out['untouched statistics'] = arr(s).copy()
        e = beer.evidence_lower_bound(m, x, datasize=2 * len(x), **self.kw)
        out['elbo'] = arr(e.value).copy()
        out['kl'] = arr(m.kl_div_posterior_prior()).copy()
        if self.z.seq:
            pkw = dict(scale=self.scale, inference_graph=self.graph)
            out['posteriors'] = arr(m.posteriors(x, **pkw)).copy()
            out['path'] = np.array([int(v) for v in m.decode(x, **pkw)])
        elif hasattr(m, 'posteriors'):
            out['posteriors'] = arr(m.posteriors(x)).copy()
        for k in ('mean', 'cov'):
            if hasattr(type(m), k):
                out[k] = arr(getattr(m, k)).copy()
        return out


def noise(c, m, z, dtype, backward=True):
    'One random evaluation.'
    import beer
    x = z.data(c, z.minlen + c.int(0, 6), dtype)
    before = arr(x).copy()
    kinds = ['score', 'accumulate', 'elbo', 'sum', 'backward', 'pickle', 'copy', 'groups', 'members', 'moments', 'kl']
    if not backward:
        kinds.remove('backward')
    if z.seq:
        kinds += ['decode', 'posteriors', 'decode', 'posteriors', 'viterbi']
    kind = c.choice(kinds)
    kw = dict(scale=float(c.choice([1., .1, 3.]))) if z.seq else {}
    if kind == 'score':
        m.expected_log_likelihood(m.sufficient_statistics(x), **kw)
        if c.flip():
            m.clear_cache()
    elif kind == 'accumulate':
        s = m.sufficient_statistics(x)
        m.expected_log_likelihood(s, **kw)
        acc = m.accumulate(s)
        for v in acc.values():
            # what the caller does with the result is the caller's business
            if v.is_floating_point() and c.flip(.3):
                v.mul_(-7.)
        m.clear_cache()
    elif kind == 'elbo':
        beer.evidence_lower_bound(m, x, datasize=int(c.choice([-1, 5, 1000])), **kw)
    elif kind == 'sum':
        e = beer.evidence_lower_bound(datasize=100)
        for _ in range(c.int(1, 3)):
            y = z.data(c, z.minlen + c.int(0, 3), dtype)
            e = e + beer.evidence_lower_bound(m, y, datasize=100, **kw)
        float(e)
    elif kind == 'backward':
        beer.evidence_lower_bound(m, x, **kw).backward()
    elif kind == 'pickle':
        m2 = pickle.loads(pickle.dumps(m))
        train(m2, [x])
    elif kind == 'copy':
        train(copy.deepcopy(m), [x])
    elif kind == 'groups':
        for g in m.mean_field_factorization():
            for p in g:
                p.value() if hasattr(p, 'value') else None
                p.natural_form()
        list(m.bayesian_parameters())
        m.conjugate_bayesian_parameters(keepgroups=True)
    elif kind == 'members':
        ms = getattr(m, 'modelset', None)
        if ms is not None:
            i = c.int(0, len(ms) - 1)
            sub = ms[i]
            s = sub.sufficient_statistics(x)
            sub.expected_log_likelihood(s)
            sub.accumulate(s)
            sub.clear_cache() if hasattr(sub, 'clear_cache') else None
    elif kind == 'moments':
        for p in zoo.params(m):
            p.posterior.expected_sufficient_statistics()
            p.posterior.log_norm()
            p.posterior.natural_parameters().mul_(0.)
            p.posterior.conjugate()
        for k in ('mean', 'cov'):
            if hasattr(type(m), k):
                getattr(m, k)
    elif kind == 'kl':
        m.kl_div_posterior_prior()
    elif kind == 'decode':
        m.decode(x, **kw)
    elif kind == 'posteriors':
        m.posteriors(x, **kw)
    elif kind == 'viterbi':
        beer.evidence_lower_bound(m, x, viterbi=True, **kw)
    c.check(np.array_equal(arr(x), before), f'{kind}: the input changed')
    return kind


def train(m, batches, lrate=1., update_count=0, between=None, **kw):
    import beer
    opt = beer.VBConjugateOptimizer(m.conjugate_bayesian_parameters(keepgroups=True), lrate=lrate)
    for X in batches:
        opt.init_step()
        beer.evidence_lower_bound(m, X, **kw).backward()
        opt.step()
        if between:
            between()


def interleaved(c):
    dtype = c.dtype()
    z = zoo.draw(c, dtype)
    m = z.model
    if c.flip(.4):
        train(m, [z.data(c, z.minlen + c.int(2, 8), dtype) for _ in range(c.int(1, 3))])
    probes = [Probe(c, z, dtype) for _ in range(c.int(1, 2))]
    start = snapshot(m)
    first = [p.ask(m) for p in probes]
    ins = [p.inputs() for p in probes]
    same(c, start, snapshot(m), f'{z.kind}: the model')
    log = []
    for r in range(c.int(1, 3)):
        for _ in range(c.int(1, 4)):
            log.append(noise(c, m, z, dtype))
            same(c, start, snapshot(m), f'{z.kind}: the model after {log}')
            c.ev('evaluations')
        for p, want, inp in zip(probes, first, ins):
            c.note(kind=z.kind, dtype=dtype, log=log, viterbi=p.viterbi, emissions=type(getattr(m, 'modelset', None)).__name__)
            same(c, want, p.ask(m), f'{z.kind}: answers after {log}')
            same(c, inp, p.inputs(), f'{z.kind}: inputs after {log}')
    for f in first:
        c.check(np.array_equal(f['sufficient statistics'], f['untouched statistics']), 'statistics of the data changed')
        for k, v in f.items():
            if v.dtype.kind == 'f':
                c.check(v.dtype == arr(torch.zeros(1, dtype=dtype)).dtype, f'{z.kind}: {k} in {v.dtype} for {dtype} data')
    for k, v in start.items():
        if v.dtype.kind == 'f' and k.split()[0] in ('prior', 'posterior', 'trans', 'init', 'final'):
            c.check(v.dtype == arr(torch.zeros(1, dtype=dtype)).dtype, f'{z.kind}: {k} in {v.dtype} for a {dtype} model')


def pending(c):
    'Queries between the evaluation of the objective and the accumulation of its statistics.'
    dtype = c.dtype()
    z = zoo.draw(c, dtype)
    m = z.model
    if not hasattr(m, 'posteriors'):
        c.trivial = True
        return
    p, q = Probe(c, z, dtype), Probe(c, z, dtype)
    c.note(kind=z.kind, dtype=dtype, viterbi=p.viterbi, emissions=type(m.modelset).__name__)
    s = m.sufficient_statistics(p.X)
    m.expected_log_likelihood(s, **p.kw)
    want = stats_by_param(m, m.accumulate(s))
    m.clear_cache()
    m.expected_log_likelihood(s, **p.kw)
    for _ in range(c.int(1, 3)):
        pkw = dict(scale=q.scale, inference_graph=q.graph) if z.seq else {}
        if z.seq and c.flip():
            m.decode(q.X, **pkw)
        else:
            m.posteriors(q.X, **pkw)
        m.kl_div_posterior_prior()
        c.ev('queries_before_accumulation')
    same(c, want, stats_by_param(m, m.accumulate(s)), f'{z.kind}: statistics accumulated after a query')


def twin(c):
    'Evaluations between the training steps make no difference to training.'
    dtype = c.dtype()
    z = zoo.draw(c, dtype)
    a, b = z.model, pickle.loads(pickle.dumps(z.model))
    n = c.int(1, 4)
    batches = [z.data(c, z.minlen + c.int(1, 8), dtype) for _ in range(n)]
    lrate = float(c.choice([1., .5]))
    kw = dict(viterbi=True) if z.seq and c.flip(.3) else {}
    log = []

    def between():
        for _ in range(c.int(1, 3)):
            log.append(noise(c, b, z, dtype, backward=False))
    c.note(kind=z.kind, dtype=dtype, steps=n, lrate=lrate, log=log, emissions=type(getattr(a, 'modelset', None)).__name__)
    between()
    train(a, batches, lrate, **kw)
    train(b, batches, lrate, between=between, **kw)
    c.note(log=list(log), params=len(zoo.params(a)))
    A, B = snapshot(a), snapshot(b)
    same(c, A, B, f'{z.kind}: trained with and without evaluations {log}')
    for k, v in A.items():
        if v.dtype.kind == 'f':
            c.check(not np.isnan(v).any(), f'{z.kind}: {k} is not a number')
    c.ev('evaluations', len(log))


def networks(c):
    'Auto-encoders: same seed, same results; nothing but the gradients and stored statistics changes.'
    import beer
    a = vaezoo.Auto(c, c.dtype())
    a.note(c)
    seed = c.int(0, 10 ** 6)
    m = a.vae

    def ask():
        torch.manual_seed(seed)
        e = beer.evidence_lower_bound(m, a.X, datasize=50, **a.kw)
        out = {'elbo': arr(e.value.detach()).copy()}
        torch.manual_seed(seed)
        s = m.sufficient_statistics(a.X)
        out['score'] = arr(m.expected_log_likelihood(s, **a.kw).detach()).copy()
        out.update(stats_by_param(m, m.accumulate(s)))
        m.clear_cache()
        with torch.no_grad():
            p = m.posteriors(a.X)
            out['mean'], out['var'] = arr(p.params.mean).copy(), arr(p.params.diag_cov).copy()
            torch.manual_seed(seed)
            h = p.sample(3)
            out['samples'] = arr(h).copy()
            d = m.pdfs(h.reshape(-1, a.L))
            out['dmean'], out['dvar'] = arr(d.params.mean).copy(), arr(d.params.diag_cov).copy()
        return out
    start, X0 = snapshot(m), arr(a.X).copy()
    first = ask()
    log = []
    for _ in range(c.int(1, 4)):
        kind = c.choice(['elbo', 'backward', 'cjg', 'posteriors', 'pickle', 'score', 'again'])
        log.append(kind)
        if c.flip():
            torch.manual_seed(c.int(0, 10 ** 6))
        x = torch.tensor(c.rng.normal(size=(a.z.minlen + c.int(0, 4), a.d)), dtype=a.dtype)
        if kind in ('elbo', 'backward', 'cjg'):
            e = beer.evidence_lower_bound(m, x, nsamples=c.int(1, 3))
            if kind != 'elbo':
                e.backward(std_params=kind == 'backward')
        elif kind == 'posteriors':
            m.posteriors(x)
        elif kind == 'pickle':
            pickle.loads(pickle.dumps(m))
        elif kind == 'score':
            m.expected_log_likelihood(m.sufficient_statistics(x))
        same(c, start, snapshot(m), f'auto-encoder after {log}')
        same(c, first, ask(), f'answers of the auto-encoder after {log}')
        c.check(np.array_equal(arr(a.X), X0), 'the input changed')
        c.ev('evaluations')
    for k, v in first.items():
        if v.dtype.kind == 'f':
            c.check(v.dtype == X0.dtype, f'{k} in {v.dtype} for {X0.dtype} data')


def subspaces(c):
    import beer
    hier = c.flip(.35)
    dtype = c.dtype()
    s = gsmzoo.Hierarchy(c, dtype) if hier else gsmzoo.Subspace(c, dtype)
    s.note(c)
    seed = c.int(0, 10 ** 6)
    ns, ps = c.int(1, 4), c.int(1, 4)
    units = [u for us in s.units for u in us] if hier else s.units
    tensors = lambda: [q for o in (list(s.posts) + s.gsms + [s.model] if hier else [s.posts, s.gsm])
                       for q in o.parameters()]

    def elbo(**kw):
        a = (list(zip(s.gsms, s.units)),) if hier else (s.units,)
        m = s.model if hier else s.gsm
        kw = dict(latent_nsamples=ns, params_nsamples=ps, latent_posts=s.posts, **kw)
        return m, beer.evidence_lower_bound(m, *a, **kw)

    def snap():
        out = {}
        for i, q in enumerate(tensors()):
            out[f'gradient-trained parameter {i}'] = arr(q.detach()).copy()
        for i, p in enumerate(zoo.params(s.model if hier else s.gsm)):
            for name in ('prior', 'posterior'):
                out[f'{name} {i}'] = arr(getattr(p, name).natural_parameters().detach()).copy()
        for j, u in enumerate(units):
            for i, p in enumerate(u.bayesian_parameters()):
                out[f'stats {j} {i}'] = arr(p.stats).copy()
        return out

    def ask():
        torch.manual_seed(seed)
        m, e = elbo()
        return {'elbo': arr(e.value.detach()).copy()}
    start = snap()
    first = ask()
    log = []
    for _ in range(c.int(1, 4)):
        kind = c.choice(['elbo', 'backward', 'cjg', 'pickle', 'expected', 'score', 'kl'])
        log.append(kind)
        if c.flip():
            torch.manual_seed(c.int(0, 10 ** 6))
        if kind == 'elbo':
            elbo()
        elif kind in ('backward', 'cjg'):
            elbo()[1].backward(std_params=kind == 'backward')
        elif kind == 'pickle':
            pickle.loads(pickle.dumps((s.gsms, s.units) if hier else (s.gsm, s.posts, s.units)))
        elif kind == 'score':
            u = units[c.int(0, len(units) - 1)]
            d = s.first.d if hier else s.d
            x = torch.tensor(c.rng.normal(size=(3, d)), dtype=dtype)
            u.expected_log_likelihood(u.sufficient_statistics(x))
        elif kind == 'expected':
            i = c.int(0, len(s.gsms) - 1) if hier else 0
            g, post = (s.gsms[i], s.posts[i]) if hier else (s.gsm, s.posts)
            g.expected_pdfvecs(post, ns, ps)
        elif kind == 'kl':
            (s.model if hier else s.gsm).kl_div_posterior_prior()
        same(c, start, snap(), f'subspace model after {log}')
        same(c, first, ask(), f'objective of the subspace model after {log}')
        c.ev('evaluations')
    c.check(first['elbo'].dtype == arr(torch.zeros(1, dtype=dtype)).dtype, f'objective in {first["elbo"].dtype} for {dtype}')


def spd(c, d):
    Q = np.linalg.qr(c.rng.normal(size=(d, d)))[0]
    return (Q * c.logu(.05, 20, d)) @ Q.T


def full(cov, kind, S):
    'The covariance a model of this type has when created from S.'
    d = S.shape[0]
    if kind == 'full':
        return S
    return np.diag(np.diag(S)) if kind == 'diagonal' else np.eye(d) * np.diag(S).max()


def dist_same(c, a, b, msg):
    same(c, {'p': arr(a.natural_parameters())}, {'p': arr(b.natural_parameters())}, msg)


def created(c):
    import beer
    dtype = c.dtype()
    npd = arr(torch.zeros(1, dtype=dtype)).dtype
    what = c.choice(['normal', 'normalset', 'normalset', 'categorical', 'categoricalset', 'gamma', 'sb', 'sbset', 'mixture'])
    d = c.int(1, 5)
    strength = c.choice([1, 1., float(c.logu(.2, 50)), c.int(1, 20)])
    rt, at = (1e-9, 1e-10) if dtype == torch.float64 else (2e-4, 2e-4)
    c.note(what=what, dim=d, strength=strength, dtype=dtype)
    if what in ('normal', 'normalset', 'mixture'):
        kind = c.choice(list(gen.COV))
        shape = c.choice(['full', 'diagonal', 'scalar'])
        S = spd(c, d)
        if shape == 'diagonal':
            S = np.diag(np.diag(S))
        if shape == 'scalar':
            S = np.eye(d) * S[0, 0]
        arg = {'full': S, 'diagonal': np.diag(S).copy(), 'scalar': S[0, :1].copy()}[shape]
        mean = c.rng.normal(size=d) * c.logu(.1, 10)
        S = full(S, kind, S)
        mt, ct = ref.t(mean, dtype), ref.t(arg, dtype)
        keep = arr(mt).copy(), arr(ct).copy()
        cs = np.abs(S).max()
        if what == 'normal':
            m = beer.Normal.create(mt, ct, prior_strength=strength, cov_type=kind)
            c.close(m.mean, mean, 'mean of a created Normal', rt, at)
            c.close(m.cov, S, 'covariance of a created Normal', rt * 20, at * 20 * cs)
            C = arr(m.cov).astype(float)
            c.check(np.linalg.eigvalsh((C + C.T) / 2).min() > 0, 'covariance not positive definite')
            c.check(arr(m.mean).dtype == npd and arr(m.cov).dtype == npd, 'precision of the moments')
            p = m.mean_precision
            dist_same(c, p.prior, p.posterior, 'posterior of a created model and its prior')
            kl = float(m.kl_div_posterior_prior().sum())
            c.check(abs(kl) < 1e-6 * (1 if dtype == torch.float64 else 1e3) * (1 + d * float(strength)), f'divergence of a new model {kl}')
        else:
            K = c.int(1, 6) if what == 'normalset' else c.int(2, 5)
            std = c.choice([0, 0., 1., float(c.logu(.1, 3))])
            seed = c.int(0, 10 ** 6)
            mk = lambda: beer.NormalSet.create(mt, ct, K, prior_strength=strength, noise_std=std, cov_type=kind)
            torch.manual_seed(seed)
            m = mk()
            torch.manual_seed(seed)
            m2 = mk()
            same(c, snapshot(m), snapshot(m2), 'sets created from the same seed')
            c.check(len(m) == K, f'set of {len(m)} members for {K}')
            P = m.means_precisions
            pm = arr(P.prior.params.mean)
            c.close(pm, np.tile(mean, (K, 1)), 'prior means', rt, at)
            prec = arr(P.posterior.expected_value()[1])
            dev = arr(P.posterior.params.mean) - mean
            if std == 0:
                c.check(np.abs(dev).max() <= at * (1 + np.abs(mean).max()), 'means without noise')
                dist_same(c, P.prior, P.posterior, 'posterior of a created set and its prior')
            else:
                u = dev / (np.sqrt(np.diag(S if kind != 'isotropic' else np.diag(np.diag(full(S, 'diagonal', arg_cov(arg, d)))))) * std)
                c.check(np.abs(u).max() < 8, f'means {np.abs(u).max()} deviations away')
                c.check(K < 2 or len({tuple(r) for r in u.round(4)}) == K, 'the members start apart from each other')
            for i in range(K):
                q = m[i]
                c.close(q.cov, S, f'covariance of member {i}', rt * 20, at * 20 * cs)
                c.close(q.mean, arr(P.posterior.params.mean)[i], f'mean of member {i}', rt, at)
            c.check(arr(P.posterior.natural_parameters()).dtype == npd, 'precision of the set')
            if what == 'mixture':
                mix = beer.Mixture.create(m, prior_strength=strength)
                w = arr(mix.categorical.mean)
                c.close(w, np.ones(K) / K, 'uniform weights', rt, at)
                c.check(w.dtype == npd, 'precision of the weights')
                r = mix.posteriors(mt.reshape(1, -1))
                c.close(r.sum(-1), [1.], 'posteriors of the components', rt, at * 10)
        c.check(np.array_equal(keep[0], arr(mt)) and np.array_equal(keep[1], arr(ct)), 'the arguments changed')
    elif what in ('categorical', 'categoricalset'):
        K, n = c.int(2, 7), c.int(1, 4)
        w = c.rng.dirichlet(np.ones(K) * 3, n)
        if what == 'categorical':
            w = w[0]
        wt = ref.t(w, dtype)
        cls = beer.models.categorical.Categorical if what == 'categorical' else beer.models.categoricalset.CategoricalSet
        m = cls.create(wt, prior_strength=strength)
        c.close(m.mean, w, 'mean weights', rt, at)
        dist_same(c, m.weights.prior, m.weights.posterior, 'posterior of a created model and its prior')
        c.check(arr(m.mean).dtype == npd, 'precision of the weights')
        c.check(np.array_equal(arr(wt), arr(ref.t(w, dtype))), 'the weights changed')
    elif what == 'gamma':
        mean, shape = c.logu(.2, 5, d), c.logu(.5, 5, d)
        m = beer.models.gamma.Gamma.create(ref.t(mean, dtype), shape.tolist(), prior_strength=strength)
        c.close(m.mean, mean, 'mean of a created Gamma', rt * 10, at * 10)
        dist_same(c, m.rate.prior, m.rate.posterior, 'posterior of a created model and its prior')
        c.check(arr(m.mean).dtype == npd, 'precision of the mean')
    else:
        from beer.models.categorical import SBCategorical, SBCategoricalHyperPrior
        from beer.models.categoricalset import SBCategoricalSet
        K = c.int(2, 12)
        strength = float(strength)
        m = c.choice([SBCategorical, SBCategoricalHyperPrior]).create(K, prior_strength=strength).to(dtype)
        want = (strength / (1 + strength)) ** np.arange(K) / (1 + strength)
        if what == 'sb':
            c.close(m.mean, want, 'mean of a stick-breaking process', max(rt, 1e-5), max(at, 1e-6))
        else:
            s = SBCategoricalSet.create(c.int(1, 4), m, prior_strength=strength)
            w = arr(s.mean)
            c.check((w > 0).all() and (w.sum(-1) < 1 + 1e-4).all(), 'weights of a set')
            m = s
        c.check(arr(m.mean).dtype == npd, 'precision of the weights')
    c.ev('created_' + what)


def arg_cov(arg, d):
    arg = np.asarray(arg)
    if arg.ndim == 2:
        return arg
    return np.eye(d) * arg[0] if len(arg) == 1 else np.diag(arg)


def sampled(c):
    'Samples of Normal distributions: shape, precision, reproducibility and moments.'
    from beer import dists
    from beer.utils import sample_from_normals
    dtype = c.dtype()
    kind = c.choice(['diagonal', 'full', 'utils'])
    d, B = c.int(1, 4), c.choice([None, 1, 2, 3])
    N = 4000
    n = B or 1
    mean = c.rng.normal(size=(n, d)) * c.logu(.1, 5)
    if kind == 'full':
        S = np.stack([spd(c, d) for _ in range(n)])
    else:
        S = np.stack([np.diag(c.logu(.05, 20, d)) for _ in range(n)])
    var = np.stack([np.diag(s) for s in S])
    if kind == 'utils':
        B = n
        f = lambda k: sample_from_normals(ref.t(mean, dtype), ref.t(var, dtype), k).permute(1, 0, 2)
    else:
        pick = lambda v: ref.t(v if B else v[0], dtype)
        if kind == 'full':
            dist = dists.NormalFullCovariance.from_std_parameters(pick(mean), pick(S))
        else:
            dist = dists.NormalDiagonalCovariance.from_std_parameters(pick(mean), pick(var))
        before = arr(dist.natural_parameters()).copy()
        f = dist.sample
    c.note(kind=kind, dim=d, batch=B, dtype=dtype)
    seed = c.int(0, 10 ** 6)
    torch.manual_seed(seed)
    a = f(N)
    b = f(7)
    torch.manual_seed(seed)
    a2, b2 = f(N), f(7)
    c.check(torch.equal(a, a2) and torch.equal(b, b2), 'same seed, same samples')
    c.check(tuple(b.shape) == ((7, d) if B is None else (B, 7, d)), f'samples of shape {tuple(b.shape)}')
    c.check(a.dtype == dtype, f'samples in {a.dtype}')
    c.check(not torch.equal(b.reshape(-1, d)[0], a.reshape(-1, d)[0]), 'samples follow each other')
    if kind != 'utils':
        c.check(np.array_equal(before, arr(dist.natural_parameters())), 'sampling changed the distribution')
    x = arr(a).astype(float).reshape(n, N, d)
    Z = np.stack([np.linalg.solve(np.linalg.cholesky(S[i]), (x[i] - mean[i]).T).T for i in range(n)])
    c.check(np.abs(Z.mean(1)).max() < 6.5 / np.sqrt(N) + 1e-3, f'mean of the samples {np.abs(Z.mean(1)).max()}')
    for i in range(n):
        C = Z[i].T @ Z[i] / N
        c.check(np.abs(C - np.eye(d)).max() < 6.5 * np.sqrt(2 / N) + 1e-3, f'covariance of the samples {C}')
        K4 = (Z[i] ** 4).mean(0)
        c.check(np.abs(K4 - 3).max() < 7 * np.sqrt(96 / N), f'fourth moment of the samples {K4}')
        for j in range(i):
            r = (Z[i][:, :, None] * Z[j][:, None, :]).mean(0)
            c.check(np.abs(r).max() < 6.5 / np.sqrt(N), 'samples of different members are independent')
    c.ev('samples', N * n)


def reachable(c):
    'Derived quantities stay valid after any training.'
    dtype = c.dtype()
    z = zoo.draw(c, dtype, kinds=['normal', 'categorical', 'gamma', 'sbcategorical', 'mixture', 'hmm', 'phoneloop', 'bigram'])
    m = z.model
    tiny = c.flip(.3)
    batches = []
    for _ in range(c.int(1, 5)):
        X = z.data(c, z.minlen + c.int(0, 8), dtype)
        if not z.onehot and tiny:
            X = X * float(c.choice([1e-2, 30.]))
        batches.append(X)
    c.note(kind=z.kind, dtype=dtype, steps=len(batches), tiny=tiny)
    train(m, batches, float(c.choice([1., .7, .1])))
    valid(c, m, z.kind)


def valid(c, m, msg):
    from beer import dists
    for p in zoo.params(m):
        q = p.posterior
        v = arr(q.natural_parameters())
        c.check(np.isfinite(v).all(), f'{msg}: natural parameters of {type(q).__name__} not finite')
        if isinstance(q, dists.Dirichlet):
            w = arr(q.expected_value())
            c.check((w >= 0).all() and np.allclose(w.sum(-1), 1, atol=1e-5), f'{msg}: weights {w}')
            c.check((arr(q.params.concentrations) > 0).all(), f'{msg}: concentrations')
        elif isinstance(q, dists.NormalWishart):
            P = arr(q.expected_value()[1]).astype(float)
            c.check(np.linalg.eigvalsh((P + np.swapaxes(P, -1, -2)) / 2).min() > 0, f'{msg}: precision not positive definite')
        elif isinstance(q, (dists.NormalGamma, dists.IsotropicNormalGamma)):
            c.check((arr(q.expected_value()[1]) > 0).all(), f'{msg}: precision not positive')
        c.ev('posteriors')
    cat = getattr(m, 'categorical', None)
    for w in ([arr(cat.mean)] if cat is not None else []):
        c.check((w >= 0).all() and w.sum(-1).max() <= 1 + 1e-4, f'{msg}: mean weights {w}')


def functions(c):
    'Functions of graphs, densities and statistics leave what they are given as it was.'
    import beer
    from beer import dists
    from beer import utils as U
    dtype = c.dtype()
    S, T = c.size(1, 5, 12), c.size(1, 8, 40)
    held = {}          # everything that is given to the functions

    def give(name, x):
        held[name] = x
        return x
    g = seqgen.graph(c, S, dtype=dtype)
    for k in ('init', 'final', 'trans'):
        give(k, getattr(g, k + '_log_probs'))
    l = c.rng.normal(size=(T, S)) * c.logu(.1, 30)
    l = ref.t(l, dtype)
    if c.flip(.3):     # a view of a larger tensor
        big = torch.zeros(T + 2, S + 1, dtype=dtype)
        big[1:-1, 1:] = l
        l = give('larger', big)[1:-1, 1:]
    give('scores', l)
    n, d = c.int(1, 5), c.int(1, 3)
    x = give('data', ref.t(c.rng.normal(size=(n, d)), dtype))
    fam = c.choice([dists.NormalLikelihood, dists.NormalDiagonalLikelihood, dists.IsotropicNormalLikelihood, dists.GammaLikelihood])
    lik = fam(d)
    rv = give('real vectors', ref.t(c.rng.normal(size=(c.int(1, 4), lik.sufficient_statistics_dim(zero_stats=False))), dtype))
    pos = give('positive data', x.exp())
    sq = give('matrix', ref.t(c.rng.normal(size=(d, d)), dtype))
    m1, v1 = give('means', ref.t(c.rng.normal(size=(n, d)), dtype)), give('variances', ref.t(c.logu(.1, 10, (n, d)), dtype))
    wt, conc = give('weights', ref.t(c.rng.dirichlet(np.ones(3), 2), dtype)), give('concentrations', ref.t(c.logu(.1, 10, (2, 3)), dtype))
    q = dists.Dirichlet.from_std_parameters(conc)
    p = dists.Dirichlet.from_std_parameters(wt)
    labels = give('labels', torch.tensor(c.rng.integers(0, S, T)))
    k1, k2 = object(), object()
    a1 = {k1: give('stats 1', x + 1), k2: give('stats 2', x + 2)}
    a2 = {k1: give('stats 3', x + 3)}
    obs = pos if fam is dists.GammaLikelihood else x
    wide = give('statistics of the densities', lik.sufficient_statistics(obs).clone())
    vec = give('vectors of the densities', lik.pdfvectors_from_rvectors(rv).clone())
    nd = dists.NormalDiagonalCovariance.from_std_parameters(m1, v1)
    nstat = give('statistics of the normals', nd.sufficient_statistics(x).clone())
    nat = give('natural parameters', q.natural_parameters().clone())

    def drawn():
        torch.manual_seed(3)
        return U.sample_from_normals(m1, v1, 2)
    asks = {
        'posteriors': lambda: g.posteriors(l)[0], 'normalizer': lambda: g.posteriors(l)[1],
        'posteriors of transitions': lambda: g.posteriors(l, trans_posteriors=True)[0][1], 'best path': lambda: g.best_path(l),
        'log-sum-exp': lambda: U.logsumexp(l, dim=c.k % 2), 'one-hot': lambda: U.onehot(labels, S, dtype, x.device),
        'symmetric part': lambda: U.symmetrize_matrix(sq), 'positive definite': lambda: U.make_symposdef(sq @ sq.t() - .1 * torch.eye(d, dtype=dtype)),
        'samples': drawn, 'Hessian': lambda: U.approximate_hessian([x])[0],
        'vectors': lambda: lik.pdfvectors_from_rvectors(rv), 'statistics': lambda: lik.sufficient_statistics(obs),
        'density': lambda: lik(vec, wide), 'parameters': lambda: torch.cat([v.reshape(-1) for v in lik.parameters_from_pdfvector(vec)]),
        'normal density': lambda: nd(nstat, pdfwise=True), 'all densities': lambda: nd(nstat),
        'moments': lambda: q.expected_sufficient_statistics(), 'mean': lambda: q.expected_value(), 'log-norm': lambda: q.log_norm(),
        'divergence': lambda: dists.kl_div(q, p), 'natural parameters': lambda: q.natural_parameters(),
        'rebuilt': lambda: type(q.params).from_natural_parameters(nat).concentrations,
        'sum of statistics': lambda: torch.cat(list(beer.inference.objectives.add_acc_stats(a1, a2).values())),
        'scaled statistics': lambda: torch.cat(list(beer.inference.objectives.scale_acc_stats(a1, 2.5).values()))}
    c.k = c.int(0, 1)
    names = list(asks)
    order = [names[i] for i in c.rng.permutation(len(names))] * 2
    if c.flip():
        order = [order[i] for i in c.rng.permutation(len(order))]
    c.note(states=S, frames=T, dtype=dtype, family=fam.__name__, order=order)
    before = {k: arr(v).copy() for k, v in held.items()}
    first = {}
    for k in order:
        out = asks[k]()
        v = arr(out).copy()
        same(c, before, {h: arr(t) for h, t in held.items()}, f'what {k} was given')
        if k in first:
            same(c, {k: first[k]}, {k: v}, 'repeated evaluation')
        first[k] = v
        c.check(v.dtype.kind != 'f' or v.dtype == arr(x).dtype, f'{k} in {v.dtype} for {dtype} inputs')
        c.ev('function_calls')


def warm():
    import beer, beer.nnet


CASES = [(interleaved, 1000, 8000), (pending, 600, 5000), (twin, 800, 6000), (networks, 160, 1200), (subspaces, 200, 1500), (created, 1000, 8000),
         (sampled, 240, 1500), (reachable, 500, 4000), (functions, 400, 3000)]
