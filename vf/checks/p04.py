'reported ELBO compared with exact log evidences (closed forms, enumeration of all component assignments) for generated models and posterior states'
import itertools
import numpy as np
from scipy import special as sp
from ..core import torch, arr
from .. import ref, gen

RULE = '''Random conjugate models and small mixtures (2-3 components, up to 6 frames: all assignments are
enumerated), finite or stick-breaking weights, arbitrary posterior states and states reached by training;
minibatches of random declared data size.'''
ASSUMPTIONS = ['the marginal likelihoods in vf/gen.py and the enumeration over assignments are exact',
               'sequence models report the posterior-weighted emission score (documented approximation), so only '
               'their minibatch formula is checked']


def _elbo(m, x, **kw):
    from beer import evidence_lower_bound
    return evidence_lower_bound(m, x, **kw)


def conjugate(c):
    from beer import VBConjugateOptimizer
    import beer
    kind = c.choice(['full', 'diagonal', 'isotropic', 'categorical', 'gamma'])
    d, N = c.size(1, 4, 12), c.size(1, 15, 400)
    if kind in gen.COV:
        m, prior, post = gen.normal(c, kind, d)
        X = c.rng.normal(size=(N, d)) * 2
        lev = gen.normal_evidence(kind, prior, X)
        fam = gen.COV[kind]
    elif kind == 'categorical':
        d += 1
        m, prior, post = gen.categorical(c, d)
        X = gen.onehot(c.rng.integers(0, d, N), d)
        a = prior['concentrations']
        fam = ref.Dirichlet()
        lev = fam.lognorm({'concentrations': a + X.sum(0)}) - fam.lognorm(prior)
    else:
        fam = ref.Gamma()
        shape = c.logu(.3, 10, d)
        prior, post = fam.draw(c, d), fam.draw(c, d)
        m = beer.models.gamma.Gamma(ref.t(shape), gen.param(fam, prior, post, torch.float64))
        X = c.logu(.1, 8, (N, d))
        q = {'shape': prior['shape'] + N * shape, 'rate': prior['rate'] + X.sum(0)}
        lev = fam.lognorm(q) - fam.lognorm(prior) + ((shape - 1) * np.log(X)).sum() - N * sp.gammaln(shape).sum()
    c.note(kind=kind, dim=d, N=N, prior=prior, post=post, evidence=lev)
    x = ref.t(X)
    mag = abs(lev) + fam.kl(post, prior) + 10
    v = float(_elbo(m, x))
    c.check(v <= lev + 1e-8 * mag, f'ELBO {v} above the log evidence {lev}')
    # The gap is the divergence to the exact posterior.
    c.ev('bounds')
    opt = VBConjugateOptimizer(m.mean_field_factorization(), 1.)
    for r in ([1.] if c.flip() else [.3, .7, 1.]):
        opt.lrate = r
        opt.init_step()
        e = _elbo(m, x)
        e.backward()
        opt.step()
        v = float(_elbo(m, x))
        c.check(v <= lev + 1e-8 * mag, f'ELBO {v} above the log evidence {lev}')
    c.check(abs(v - lev) <= 1e-7 * mag, f'ELBO {v} of the exact posterior differs from the log evidence {lev}')
    c.ev('tight_bounds')


def gap(c):
    'ELBO of a conjugate model = log evidence - KL(posterior || exact posterior).'
    kind = c.choice(list(gen.COV))
    d, N = c.size(1, 4, 12), c.size(1, 12, 300)
    m, prior, post = gen.normal(c, kind, d)
    X = c.rng.normal(size=(N, d)) * 2
    lev = gen.normal_evidence(kind, prior, X)
    want = lev - gen.COV[kind].kl(post, gen.normal_posterior(kind, prior, X))
    c.note(kind=kind, dim=d, N=N, prior=prior, post=post)
    v = float(_elbo(m, ref.t(X)))
    c.check(abs(v - want) <= 1e-8 * (abs(want) + abs(lev) + 10), f'ELBO {v} instead of {want}')


def _mixture(c, sb):
    import beer
    cov = c.choice(list(gen.COV))
    d, K, N = c.int(1, 3), c.int(2, 3), c.int(1, 6)
    ms, priors, _ = gen.normalset(c, cov, d, K)
    if sb:
        cat = beer.models.categorical.SBCategorical.create(K, prior_strength=float(c.logu(.3, 5))).double()
        if c.flip():
            p = cat.stickbreaking
            p.posterior.params.concentrations[:] = ref.t(c.logu(.3, 10, (K, 2)))
            p.prior.params.concentrations[:, 1] = float(c.logu(.3, 5))
        prior = arr(cat.stickbreaking.prior.params.concentrations).copy()
    else:
        cat, prior, _ = gen.categorical(c, K)
        prior = prior['concentrations']
    X = c.rng.normal(size=(N, d)) * c.choice([.5, 3.])
    return beer.Mixture.create(ms, cat), cov, priors, prior, X


def _mixture_evidence(cov, priors, wprior, X, order=None):
    K, N = len(priors), len(X)
    cache = {}
    out = []
    for z in itertools.product(range(K), repeat=N):
        z = np.array(z)
        n = np.bincount(z, minlength=K)
        if order is None:
            a = wprior
            lp = sp.gammaln(a.sum()) - sp.gammaln(a.sum() + N) + (sp.gammaln(a + n) - sp.gammaln(a)).sum()
        else:
            lp = 0.
            for r, k in enumerate(order):
                a, b = wprior[k]
                later = sum(n[j] for j in order[r + 1:])
                lp += sp.betaln(a + n[k], b + later) - sp.betaln(a, b)
        for k in range(K):
            idx = tuple(np.flatnonzero(z == k))
            if idx:
                if (k, idx) not in cache:
                    cache[k, idx] = gen.normal_evidence(cov, priors[k], X[list(idx)])
                lp += cache[k, idx]
        out.append(lp)
    return sp.logsumexp(out)


def mixture(c):
    from beer import VBConjugateOptimizer
    sb = c.flip(.4)
    m, cov, priors, wprior, X = _mixture(c, sb)
    x = ref.t(X)
    c.note(cov=cov, sb=sb, N=len(X), K=len(priors), priors=priors, x=X[0])
    order = (lambda: m.categorical.ordering.tolist()) if sb else (lambda: None)
    lev = _mixture_evidence(cov, priors, wprior, X, order())
    opt = VBConjugateOptimizer(m.mean_field_factorization(), 1.)
    trace = []
    for it in range(c.int(1, 6)):
        v = float(_elbo(m, x))
        trace.append(v)
        if sb:
            # reordering the sticks changes their joint prior.
            lev = _mixture_evidence(cov, priors, wprior, X, order())
        c.check(v <= lev + 1e-8 * (abs(lev) + abs(v) + 10), f'ELBO {v} above the log evidence {lev}')
        c.ev('bounds')
        opt.lrate = c.choice([1., .5])
        opt.init_step()
        e = _elbo(m, x)
        e.backward()
        opt.step()
    c.note(trace=trace, evidence=lev)


def mixture_one_component(c):
    'With one component only or one frame the bound is tight after the exact update.'
    import beer
    cov = c.choice(list(gen.COV))
    d, N = c.int(1, 3), c.int(1, 8)
    ms, priors, _ = gen.normalset(c, cov, d, 1)
    cat = beer.Categorical.create(torch.ones(1).double(), 2.)
    m = beer.Mixture.create(ms, cat)
    X = c.rng.normal(size=(N, d)) * 2
    x = ref.t(X)
    lev = gen.normal_evidence(cov, priors[0], X)
    c.note(cov=cov, dim=d, N=N, priors=priors)
    opt = beer.VBConjugateOptimizer(m.mean_field_factorization(), 1.)
    opt.init_step()
    e = _elbo(m, x)
    c.check(float(e) <= lev + 1e-8 * (abs(lev) + 10), 'ELBO above the log evidence')
    e.backward()
    opt.step()
    v = float(_elbo(m, x))
    c.check(abs(v - lev) <= 1e-7 * (abs(lev) + 10), f'{v} instead of {lev}')


def labelled(c):
    'With given labels the bound is that of the members on their own frames.'
    m, cov, priors, wprior, X = _mixture(c, False)
    N, K = len(X), len(priors)
    z = c.rng.integers(0, K, N)
    v = float(_elbo(m, ref.t(X), labels=torch.tensor(z)))
    lev = sum(gen.normal_evidence(cov, priors[k], X[z == k]) for k in range(K) if (z == k).any())
    c.note(cov=cov, N=N, K=K, z=z)
    c.check(v <= lev + 1e-8 * (abs(lev) + abs(v) + 10), f'labelled ELBO {v} above the evidence {lev}')


def minibatch(c):
    'Value = (data size / batch size) x expected log-likelihood - one divergence.'
    import beer
    from .. import seqgen
    kind = c.choice(['normal', 'mixture', 'categorical', 'hmm'])
    kw = {}
    if kind == 'normal':
        cov = c.choice(list(gen.COV))
        m, prior, post = gen.normal(c, cov, c.int(1, 4))
        kl = gen.COV[cov].kl(post, prior)
        X = c.rng.normal(size=(c.int(1, 10), len(post['mean'])))
        llh = gen.normal_ellh(cov, post, X).sum()
    elif kind == 'mixture':
        cov = c.choice(list(gen.COV))
        d, K = c.int(1, 3), c.int(2, 4)
        ms, pr, po = gen.normalset(c, cov, d, K)
        cat, cpr, cpo = gen.categorical(c, K)
        m = beer.Mixture.create(ms, cat)
        X = c.rng.normal(size=(c.size(1, 10, 300), d)) * 3
        kl = sum(gen.COV[cov].kl(q, p) for q, p in zip(po, pr)) + ref.Dirichlet().kl(cpo, cpr)
        a = cpo['concentrations']
        lw = sp.digamma(a) - sp.digamma(a.sum())
        llh = sp.logsumexp(np.stack([gen.normal_ellh(cov, p, X) for p in po], 1) + lw, axis=1).sum()
    elif kind == 'categorical':
        K = c.int(2, 6)
        m, prior, post = gen.categorical(c, K)
        X = gen.onehot(c.rng.integers(0, K, c.size(1, 10, 300)), K)
        kl = ref.Dirichlet().kl(post, prior)
        a = post['concentrations']
        llh = (X @ (sp.digamma(a) - sp.digamma(a.sum()))).sum()
    else:
        cov = c.choice(list(gen.COV))
        d = c.int(1, 3)
        g = seqgen.graph(c, c.int(1, 4), density=c.uni(.5, 1))
        ms, pr, po = gen.normalset(c, cov, d, max(g.pdf_id_mapping) + 1)
        m = beer.HMM.create(g, ms).double()
        X = c.rng.normal(size=(c.size(2, 6, 200) + g.n_states, d))
        scale = float(c.choice([1., .3]))
        kw = {'scale': scale}
        pc = scale * np.stack([gen.normal_ellh(cov, po[i], X) for i in g.pdf_id_mapping], 1)
        post = seqgen.posteriors(seqgen.lp(g), pc)[0]
        llh = (post * pc).sum()
        kl = sum(gen.COV[cov].kl(q, p) for q, p in zip(po, pr))
    n = len(X)
    size = c.choice([-1, 0, n, 10 * n, c.int(1, 500)])
    c.note(kind=kind, n=n, size=size, x=X[0])
    v = float(_elbo(m, ref.t(X), datasize=size, **kw))
    s = (size if size > 0 else n) / n
    want = s * llh - kl
    c.check(abs(v - want) <= 1e-8 * (abs(s * llh) + abs(kl) + 100 * s * n), f'{v} instead of {want} = {s} * {llh} - {kl}')
    c.ev('minibatches')


CASES = [(conjugate, 1200, 8000), (gap, 800, 6000), (mixture, 640, 5000), (mixture_one_component, 240, 1000),
         (labelled, 240, 1600), (minibatch, 960, 6000)]
