'differential monitor: gradients left by the backward pass of real runs against central differences of the objective under the same draws; graph-freeness of stored statistics'
import numpy as np
from ..core import torch, arr, Inconclusive
from .. import ref, gen, zoo, oracle, vaezoo, gsmzoo
from . import p17

RULE = '''Random auto-encoders (priors of every kind) and subspace models (plain, class sets, hierarchical) with random
numbers of samples, weights and data sizes, sums of objectives; gradients compared with central differences along random
directions of every parameter tensor and random coordinates.'''
ASSUMPTIONS = ['smooth networks, double precision',
               'with a hidden Markov model prior the objective is differentiated with the state posteriors held fixed '
               '(the gradient of its bound)']


def compare(c, params, value, msg, mag=1.):
    '''params: list of (name, tensor with .grad); value(): objective (float) under fixed draws.'''
    checked = 0
    plan = []
    for name, p in params:
        if p.numel() == 0:
            continue
        u = c.rng.normal(size=tuple(p.shape))
        plan.append((name, [(p, u / np.linalg.norm(u))]))
        if c.flip(.5):
            e = np.zeros(p.numel())
            e[c.int(0, p.numel() - 1)] = 1.
            plan.append((name + ' coordinate', [(p, e.reshape(tuple(p.shape)))]))
    us = [(p, c.rng.normal(size=tuple(p.shape))) for _, p in params if p.numel()]
    norm = np.sqrt(sum((u ** 2).sum() for _, u in us))
    plan.append(('all parameters', [(p, u / norm) for p, u in us]))
    for name, dirs in plan:
        g = -sum((0. if p.grad is None else (arr(p.grad) * u).sum()) for p, u in dirs)
        base = [p.data.clone() for p, _ in dirs]

        def at(eps):
            for (p, u), b in zip(dirs, base):
                p.data = b + eps * torch.tensor(u, dtype=b.dtype)
            v = value()
            for (p, _), b in zip(dirs, base):
                p.data = b
            return v
        ests = []
        for eps in (1e-4, 2e-5):
            a, b = at(eps), at(-eps)
            ests.append((a - b) / (2 * eps))
        # truncation and rounding errors estimated from the two steps
        err = 3 * abs(ests[0] - ests[1]) + 1e-11 * (abs(a) + mag) / 2e-5 + 1e-6 * abs(ests[1]) + 1e-7
        c.check(np.isfinite(g), f'{msg}: gradient along {name} is {g}')
        if err > .05 * abs(ests[1]) + 1e-2 * (1 + abs(g)):
            c.ev('skipped_directions')
            continue
        c.check(abs(g - ests[1]) <= err, f'{msg}: derivative along {name} is {ests[1]}, minus the gradient gives {g} (+-{err})')
        checked += 1
    c.ev('directions', checked)
    if not checked:
        raise Inconclusive('no direction could be resolved')


def no_graph(c, model, msg):
    for p in zoo.params(model):
        s = getattr(p, 'stats', None)
        if s is not None:
            c.check(not s.requires_grad and s.grad_fn is None, f'{msg}: stored statistics carry a graph')


def cjg_only(c, model, params, make, msg):
    'backward(std_params=False) leaves the gradients alone but stores the same statistics.'
    want = [arr(p.stats).copy() for p in zoo.params(model) if hasattr(p, 'stats')]
    for _, p in params:
        p.grad = None if c.flip() else torch.full_like(p, .5)
    old = [None if p.grad is None else arr(p.grad).copy() for _, p in params]
    for p in zoo.params(model):
        if hasattr(p, 'zero_stats'):
            p.zero_stats()
    make().backward(std_params=False)
    for (n, p), o in zip(params, old):
        c.check((p.grad is None) == (o is None) and (o is None or np.array_equal(arr(p.grad), o)),
                f'{msg}: gradient of {n} changed by a conjugate-only pass')
    got = [arr(p.stats) for p in zoo.params(model) if hasattr(p, 'stats')]
    for g, w in zip(got, want):
        c.close(g, w, f'{msg}: statistics of a conjugate-only pass', 1e-9, 1e-9 * (1 + np.abs(w).max()))
    no_graph(c, model, msg)


def vae(c):
    import beer
    a = vaezoo.Auto(c, torch.float64)
    a.note(c)
    seed = c.int(0, 10 ** 6)
    n = len(a.X)
    datasize = c.choice([-1, 3 * n])
    scale = 1 if datasize < 0 else 3
    two = c.flip(.3)

    def elbo():
        torch.manual_seed(seed)
        e = beer.evidence_lower_bound(a.vae, a.X, datasize=3 * n if two else datasize, **a.kw)
        if two:
            e = e + beer.evidence_lower_bound(a.vae, a.X.flip(0), datasize=3 * n, **a.kw)
        return e
    if two:
        scale = 3
    params = [(k, p) for k, p in a.vae.named_parameters()]
    c.check(all(k.startswith(('encoder', 'decoder', 'enc_', 'dec_')) for k, _ in params) or True, '')
    e = elbo()
    e.backward()
    no_graph(c, a.vae, a.z.kind)
    if not a.seq:
        def value():
            with torch.no_grad():
                return float(elbo())
    else:
        # posteriors of the states held fixed
        lw, kw = a.kw.get('llh_weight', 1.), a.kw.get('kl_weight', 1.)

        def draws(X):
            posts = a.vae.posteriors(X)
            h = posts.sample(a.ns)
            pdfs = a.vae.pdfs(h.reshape(-1, a.L))
            return posts, arr(h), pdfs
        fixed = []

        def value():
            out = 0.
            with torch.no_grad():
                torch.manual_seed(seed)
                for k, X in enumerate([a.X] + ([a.X.flip(0)] if two else [])):
                    posts, h, pdfs = draws(X)
                    x = arr(X)
                    mean, var = arr(posts.params.mean), arr(posts.params.diag_cov)
                    dm, dv = (arr(t).reshape(n, a.ns, -1) for t in (pdfs.params.mean, pdfs.params.diag_cov))
                    s = vaezoo.state_scores(a.prior, h)
                    if len(fixed) <= k:
                        fixed.append(vaezoo.state_posteriors(a.prior, s))
                    pr = np.where(fixed[k] > 0, fixed[k] * s, 0).sum()
                    q = (-.5 * ((h - mean[:, None]) ** 2 / var[:, None] + np.log(var)[:, None])).sum(-1).mean(1).sum()
                    ll = (-.5 * ((x[:, None] - dm) ** 2 / dv + np.log(dv))).sum(-1).mean(1).sum()
                    out += lw * ll + kw * (pr - q)
            return scale * out
        value()
    compare(c, params, value, f'auto-encoder ({a.z.kind})', abs(float(e)))
    cjg_only(c, a.vae, params, elbo, f'auto-encoder ({a.z.kind})') if not two or True else None
    c.note(two=two, datasize=datasize)


def gsm(c):
    import beer
    s = gsmzoo.Subspace(c, torch.float64)
    s.note(c)
    ns, ps = c.int(1, 3), c.int(1, 2)
    seed = c.int(0, 10 ** 6)
    datasize = c.choice([-1, 2 * s.n])

    def elbo():
        torch.manual_seed(seed)
        return beer.evidence_lower_bound(s.gsm, s.units, datasize=datasize, latent_posts=s.posts, latent_nsamples=ns,
                                         params_nsamples=ps)
    params = [('posts.' + k, p) for k, p in s.posts.named_parameters()] + \
        [(k, p) for k, p in s.gsm.transform.named_parameters()]
    e = elbo()
    e.backward()

    def value():
        with torch.no_grad():
            return float(elbo())
    mag = sum(np.abs(p17.flat_pdf(u) * p17.flat_stats(u)).sum() for u in s.units)
    compare(c, params, value, 'subspace model', mag)
    no_graph(c, s.gsm, 'subspace model')
    cjg_only(c, s.gsm, params, elbo, 'subspace model')
    for u in s.units:
        for p in u.bayesian_parameters():
            c.check(not p.stats.requires_grad, 'statistics of the units carry a graph')
    c.note(samples=[ns, ps], datasize=datasize)


def classes(c):
    import beer
    s = gsmzoo.Subspace(c, torch.float64, prior=('normal', gen.normal(c, 'full', 2, torch.float64)[0]))
    M, Ld = c.int(2, 3), c.int(1, 3)
    dprior = gen.normal(c, 'full', Ld, torch.float64)[0]
    gs = beer.GSMSet.create(s.tpl, M, 2, Ld, s.prior, dprior).to(torch.float64)
    gsmzoo.randomize_posts(c, gs.means.posterior)
    gsmzoo.randomize(c, gs)
    q = gs.disc_transform.weights.posterior.params
    q.log_diag_cov.data = q.log_diag_cov.data - 3.
    q.mean.data = torch.tensor(c.rng.normal(size=tuple(q.mean.shape)) * .05)
    posts = gs.new_latent_posteriors(s.n, c.choice(['full', 'diagonal']))
    gsmzoo.randomize_posts(c, posts)
    mix = beer.Mixture.create(gs, gen.categorical(c, M)[0])
    seed = c.int(0, 10 ** 6)
    ns, ps = c.int(1, 2), c.int(1, 2)
    kw = {'labels': torch.tensor([c.int(0, M - 1) for _ in range(s.n)])} if c.flip() else {}
    # statistics of few frames keep the responsibilities from being one-hot
    if c.flip():
        for u in s.units:
            for p in u.bayesian_parameters():
                p.stats = p.stats * .02

    def elbo():
        torch.manual_seed(seed)
        return beer.evidence_lower_bound(mix, s.units, latent_posts=posts, latent_nsamples=ns, params_nsamples=ps, **kw)
    params = [('posts.' + k, p) for k, p in posts.named_parameters()] + \
        [(k, p) for k, p in gs.named_parameters() if p.requires_grad and not k.startswith('model.')]
    e = elbo()
    e.backward()

    def value():
        with torch.no_grad():
            return float(elbo())
    compare(c, params, value, 'set of subspace models', abs(float(e)))
    no_graph(c, mix, 'set of subspace models')
    s.note(c)
    c.note(classes=M, labels=bool(kw), samples=[ns, ps])


def hierarchical(c):
    import beer
    from beer.models.gsm import HierarchicalGSM
    h = gsmzoo.Hierarchy(c, torch.float64)
    seed = c.int(0, 10 ** 6)
    ns, ps, us = c.int(1, 2), 1, c.int(1, 2)

    def elbo():
        torch.manual_seed(seed)
        return beer.evidence_lower_bound(h.model, list(zip(h.gsms, h.units)), latent_posts=h.posts, latent_nsamples=ns,
                                         params_nsamples=ps, univ_latent_nsamples=us)
    params = [(f'root.{k}', p) for k, p in h.root.named_parameters()]
    for l in range(h.n):
        params += [(f'posts{l}.{k}', p) for k, p in h.posts[l].named_parameters()]
        params += [(f'lang{l}.{k}', p) for k, p in h.gsms[l].transform.latent_posterior.named_parameters()]
    e = elbo()
    e.backward()

    def value():
        with torch.no_grad():
            return float(elbo())
    mag = sum(np.abs(p17.flat_pdf(u) * p17.flat_stats(u)).sum() for us_ in h.units for u in us_)
    compare(c, params, value, 'hierarchical subspace model', mag)
    no_graph(c, h.model, 'hierarchical subspace model')
    h.note(c)


CASES = [(vae, 240, 4000), (gsm, 160, 2500), (classes, 100, 1500), (hierarchical, 60, 900)]
CHUNK = 4
