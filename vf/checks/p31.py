'runtime oracle: models made by the factories observed before and after training (expected parameters, pseudo-counts, noise, independence from the arguments and from models made of the same arguments) against the requested mean, covariance and strength'
import numpy as np
from ..core import torch, arr
from .. import ref, gen

RULE = '''Random means, covariances (one value, a diagonal, a matrix; scales 1e-3 to 1e3), weights, strengths (integers and
reals), noise levels, sizes and covariance types in both precisions; arguments that require gradients; one full update on
random data.'''
ASSUMPTIONS = ['the strength of a Normal model is the number of pseudo-observations of its mean',
               'the strength of a categorical model is the total of its concentrations']


def strength(c):
    return c.choice([1, 2, c.int(1, 50), 1., float(c.logu(.1, 100)), float(c.logu(1e-2, 1e5)) if c.flip(.3) else 3.])


def spec(c, dt):
    'Mean and covariance in one of the accepted forms, the full covariance.'
    d = c.size(1, 6, 30)
    form = c.choice(['one', 'scalar', 'diag', 'full', 'full'])
    s = c.logu(.03, 30, d)
    if form in ('one', 'scalar'):
        cov = np.full(1, s[0] ** 2)
        full = cov * np.eye(d)
        cov = cov.reshape(()) if form == 'scalar' else cov
    elif form == 'diag':
        cov = s ** 2
        full = np.diag(cov)
    else:
        cov = full = ref.spd(c.rng, d) * np.outer(s, s)
    mean = c.rng.normal(size=d) * (c.logu(.1, 10) if c.flip(.8) else c.logu(10, max(11, 300 * s.min())))
    if dt == torch.float32:
        mean, cov, full = [x.astype(np.float32).astype(np.float64) for x in (mean, cov, full)]
    return d, mean, cov, full, form


def expected(kind, full):
    'Expected precision (as a matrix) of a prior with the given covariance.'
    if kind == 'full':
        return np.linalg.inv(full)
    v = np.diag(full)
    return np.diag(1 / v) if kind == 'diagonal' else np.eye(len(v)) / v.max()


def prior(kind, mean, full, s):
    'Documented default prior.'
    d, v = len(mean), np.diag(full)
    s = np.full(1, float(s))
    if kind == 'full':
        return {'mean': mean, 'scale': s, 'dof': s + d - 1, 'scale_matrix': np.linalg.inv(full) / (s[0] + d - 1)}
    if kind == 'diagonal':
        return {'mean': mean, 'scale': s, 'shape': s, 'rates': s * v}
    return {'mean': mean, 'scale': s, 'shape': s, 'rate': s * v.max()}


def tol(dt, full):
    k = np.linalg.cond(full)
    return 1e-9 * (1 + k * 1e-3) if dt == torch.float64 else 1e-4 + 3e-6 * k


def matrix(p, d):
    p = arr(p).astype(np.float64)
    return p if p.ndim == 2 else np.eye(d) * p


def look(c, m, kind, mean, full, rt, what):
    'Expected values reported by a Normal model and its parameter.'
    d = len(mean)
    want = expected(kind, full)
    mu, prec = m.mean_precision.value()
    sd = np.sqrt(np.diag(full)).max()
    c.close(mu, mean, f'{what}: expected mean', rt, rt * (sd + np.abs(mean).max()))
    c.close(matrix(prec, d), want, f'{what}: expected precision', rt, rt * np.abs(want).max())
    c.close(m.mean, mean, f'{what}: mean', rt, rt * (sd + np.abs(mean).max()))
    wc = np.linalg.inv(want)
    c.check(tuple(m.cov.shape) == (d, d), f'{what}: covariance of shape {tuple(m.cov.shape)}')
    c.close(m.cov, wc, f'{what}: covariance', rt, rt * np.abs(wc).max())


def update(m, X):
    import beer
    beer.evidence_lower_bound(m, X, datasize=len(X)).backward(std_params=False)
    beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=1.).step()


def args(c, dt, *xs):
    ts = [torch.tensor(x, dtype=dt) for x in xs]
    if c.flip(.2):
        ts = [t.requires_grad_(True) for t in ts]
    return ts, [t.detach().clone() for t in ts]


def same(c, ts, keep):
    c.check(all(torch.equal(t.detach(), k) for t, k in zip(ts, keep)), 'the arguments of the factory are modified')


def natural(pdf):
    return arr(pdf.natural_parameters()).astype(np.float64)


def normal(c):
    import beer
    dt = c.dtype(.7)
    d, mean, cov, full, form = spec(c, dt)
    kind, s = c.choice(['full', 'diagonal', 'isotropic']), strength(c)
    rt = tol(dt, full)
    c.note(dim=d, form=form, kind=kind, strength=s, dt=str(dt))
    ts, keep = args(c, dt, mean, cov)
    kw = {} if kind == 'full' and c.flip() else {'cov_type': kind}
    if s == 1 and c.flip():
        make = lambda: beer.Normal.create(*ts, **kw)
    else:
        make = lambda: beer.Normal.create(*ts, prior_strength=s, **kw)
    m, other = make(), make()
    fam = gen.COV[kind]
    p0 = prior(kind, mean, full, s)
    nat = fam.natural(p0)
    for pdf in (m.mean_precision.prior, m.mean_precision.posterior):
        c.check(pdf.natural_parameters().dtype == dt, 'precision of the parameters')
        c.close(natural(pdf), nat, 'natural parameters', 10 * rt, 10 * rt * np.abs(nat).max())
    look(c, m, kind, mean, full, rt, 'created')
    c.check(not any(p.requires_grad for p in m.parameters()), 'parameters of a conjugate model require a gradient')
    # One full update on data.
    n = c.size(1, 10, 300)
    X = mean + c.rng.normal(size=(n, d)) @ np.linalg.cholesky(full).T * c.choice([1., 3.])
    X = arr(torch.tensor(X, dtype=dt)).astype(np.float64)
    update(m, torch.tensor(X, dtype=dt))
    same(c, ts, keep)
    xm = (float(s) * mean + X.sum(0)) / (float(s) + n)
    c.close(m.mean, xm, 'mean after one update', 10 * rt, 20 * rt * (np.abs(X).max() + np.abs(mean).max()))
    if dt == torch.float64:
        q = gen.normal_posterior(kind, p0, X)
        w = fam.mean(q)[1]
        w = np.asarray(w) if np.ndim(w) == 2 else np.eye(d) * w
        c.close(m.cov, np.linalg.inv(w), 'covariance after one update', 1e-6 + 10 * rt, 10 * rt * np.abs(np.linalg.inv(w)).max())
    c.close(natural(m.mean_precision.prior), nat, 'the update changed the prior', 10 * rt, 10 * rt * np.abs(nat).max())
    for pdf in (other.mean_precision.prior, other.mean_precision.posterior):
        c.close(natural(pdf), nat, 'the update changed another model', 10 * rt, 10 * rt * np.abs(nat).max())
    c.raises(Exception, lambda: beer.Normal.create(*ts, cov_type=c.choice(['Full', 'diag', '', 'iso'])), 'an unknown covariance type is an error')


def normalset(c):
    import beer
    dt = c.dtype(.7)
    d, mean, cov, full, form = spec(c, dt)
    kind, s, k = c.choice(['full', 'diagonal', 'isotropic']), strength(c), c.size(1, 6, 80)
    noise = c.choice([0., 0, 1., float(c.logu(.01, 10)), 1])
    rt = tol(dt, full)
    c.note(dim=d, form=form, kind=kind, strength=s, size=k, noise=noise, dt=str(dt))
    ts, keep = args(c, dt, mean, cov)
    kw = dict(size=k, cov_type=kind)
    if not (kind != 'full' or c.flip()):
        del kw['cov_type']
    if not (noise == 1 and c.flip()):
        kw['noise_std'] = noise
    if not (s == 1 and c.flip()):
        kw['prior_strength'] = s
    seed = c.int(0, 10 ** 6)
    torch.manual_seed(seed)
    m = beer.NormalSet.create(*ts, **kw)
    torch.manual_seed(seed)
    other = beer.NormalSet.create(*ts, **kw)
    par = m.means_precisions
    c.check(len(m) == k and len(par) == k, f'{len(m)} components instead of {k}')
    fam = gen.COV[kind]
    p0 = prior(kind, mean, full, s)
    nat = np.tile(fam.natural(p0), (k, 1))
    c.check(par.prior.natural_parameters().dtype == dt, 'precision of the parameters')
    near = lambda pdf, what: c.close(natural(pdf), nat, what, 10 * rt, 10 * rt * np.abs(nat).max())
    near(par.prior, 'natural parameters of the prior')
    mu, prec = [arr(x).astype(np.float64) for x in par.value()]
    sd = np.sqrt(np.diag(full))
    z = (mu - mean) / sd
    if noise == 0:
        near(par.posterior, 'natural parameters of the posterior without noise')
    else:
        z = z / noise
        eps = (1e-7 if dt == torch.float64 else 3e-3) * (1 + np.abs(mean / sd).max() / noise)
        c.check(np.abs(z).max() < 6.5 + eps, f'a mean is {np.abs(z).max()} deviations of the noise away')
        if z.size > 1 and eps < 1e-4:
            c.check(len(np.unique(z.round(5))) > .9 * z.size, 'the noise of the means is shared')
        if eps < 1e-2:
            zs = [z]
            while sum(x.size for x in zs) < 300:
                more = beer.NormalSet.create(*ts, **kw).means_precisions.value()[0]
                zs.append((arr(more).astype(np.float64) - mean) / sd / noise)
            if dt == torch.float64:
                c.check(not any(np.allclose(a, b, 0, 1e-6) for a, b in zip(zs, zs[1:])), 'two sets have the same noise')
            z = np.concatenate(zs)
            n = z.size
            c.check(abs(z.mean()) < 6.5 / np.sqrt(n), f'mean of the noise {z.mean()}')
            c.check(abs((z ** 2).mean() - 1) < 7 * np.sqrt(2 / n) + 4 / n, f'variance of the noise {(z ** 2).mean()}')
            c.ev('noise')
    want = expected(kind, full)
    for i in sorted({0, k - 1, c.int(0, k - 1)}):
        look(c, m[i], kind, mu[i], full, rt, f'component {i}')
    X = torch.tensor(mean + c.rng.normal(size=(c.size(1, 10, 100), d)) * sd, dtype=dt)
    keep_post = natural(other.means_precisions.posterior)
    import copy
    mix = beer.Mixture.create(m)
    update(mix, X)
    same(c, ts, keep)
    near(par.prior, 'the update changed the prior')
    near(other.means_precisions.prior, 'the update changed another prior')
    c.check((natural(other.means_precisions.posterior) == keep_post).all(), 'the update changed another model')
    c.raises(Exception, lambda: beer.NormalSet.create(*ts, size=k, cov_type=c.choice(['Full', 'diag', '', 'iso'])), 'an unknown covariance type is an error')


def weights(c):
    import beer
    from ..zoo import loop_graph
    dt = c.dtype(.7)
    s = strength(c)
    at = 1e-10 if dt == torch.float64 else 2e-5
    what = c.choice(['categorical', 'set', 'mixture', 'mixtureset', 'loop', 'bigram'])
    given = s == 1 and c.flip()
    kw = {} if given else {'prior_strength': s}
    ts, keep = [], []
    K, n = c.size(2, 8, 60), 1
    if what == 'categorical':
        W = c.rng.dirichlet(np.ones(K) * c.logu(.5, 20))[None]
        ts, keep = args(c, dt, W[0])
        make = lambda: beer.Categorical.create(*ts, **kw)
        get = lambda m: m
    elif what == 'set':
        n = c.size(1, 5, 40)
        W = c.rng.dirichlet(np.ones(K) * c.logu(.5, 20), n)
        ts, keep = args(c, dt, W)
        make = lambda: beer.CategoricalSet.create(*ts, **kw)
        get = lambda m: m
    else:
        d = c.int(1, 3)
        mk = lambda size: beer.NormalSet.create(torch.zeros(d, dtype=dt), torch.ones(d, dtype=dt), size, cov_type=c.choice(['diagonal', 'full']))
        if what == 'mixture':
            make = lambda: beer.Mixture.create(mk(K), **kw)
            get = lambda m: m.categorical
        elif what == 'mixtureset':
            n = c.size(1, 5, 40)
            make = lambda: beer.MixtureSet.create(n, mk(n * K), **kw)
            get = lambda m: m.categoricalset
        else:
            K = c.size(2, 5, 20)
            S = c.int(1, 3)
            graph, sp, ep = loop_graph(c, K, S, dt)
            if what == 'bigram':
                n = K
                make = lambda: beer.BigramPhoneLoop.create(graph, sp, ep, mk(K * S), **kw)
                get = lambda m: m.categoricalset
            else:
                make = lambda: beer.PhoneLoop.create(graph, sp, ep, mk(K * S), **kw)
                get = lambda m: m.categorical
        W = np.full((n, K), 1 / K)
    c.note(what=what, n=n, K=K, strength=s, dt=str(dt))
    m = make()
    w = get(m)
    single = what in ('categorical', 'mixture', 'loop')
    par = w.weights
    want = W * float(s)
    for pdf in (par.prior, par.posterior):
        p = arr(pdf.params.concentrations).astype(np.float64).reshape(n, K)
        c.close(p, want, 'concentrations', at, at * (1 + float(s)))
        c.check(pdf.params.concentrations.dtype == dt, 'precision of the weights')
    c.close(arr(w.mean).reshape(n, K), W, 'expected weights', at, at)
    other = make()
    before = natural(get(other).weights.posterior)
    if single:
        cnt = c.rng.multinomial(c.int(1, 200), c.rng.dirichlet(np.ones(K)))
        y = np.repeat(np.arange(K), cnt)
        update(w, torch.tensor(np.eye(K)[y], dtype=dt))
        c.close(w.mean, (want[0] + cnt) / (float(s) + cnt.sum()), 'expected weights after counting', 10 * at, 10 * at)
        c.close(arr(par.prior.params.concentrations), want[0], 'the update changed the prior', at, at * (1 + float(s)))
    c.check((natural(get(other).weights.posterior) == before).all(), 'the update changed another model')
    same(c, ts, keep)


def gamma(c):
    import beer, warnings
    warnings.simplefilter('ignore')
    dt = c.dtype(.7)
    at = 1e-9 if dt == torch.float64 else 2e-5
    d, s = c.size(1, 5, 30), strength(c)
    mean, shape = c.logu(.05, 50, d), c.logu(.3, 20, d)
    if dt == torch.float32:
        mean, shape = [x.astype(np.float32).astype(np.float64) for x in (mean, shape)]
    (mt, st), keep = args(c, dt, mean, shape)
    ts = [mt, st]
    kw = {} if s == 1 and c.flip() else {'prior_strength': s}
    c.note(dim=d, strength=s, dt=str(dt))
    m, other = beer.Gamma.create(mt, st, **kw), beer.Gamma.create(mt, st, **kw)
    c.close(m.mean, mean, 'mean', at, at)
    c.check(m.mean.dtype == dt, 'precision')
    for pdf in (m.rate.prior, m.rate.posterior):
        c.close(pdf.expected_value(), shape / mean, 'expected rate', at, at)
    n = c.size(1, 10, 200)
    X = arr(torch.tensor(c.logu(.05, 50, (n, d)), dtype=dt)).astype(np.float64)
    update(m, torch.tensor(X, dtype=dt))
    # rate ~ Gamma(s, s mean / shape): every observation adds its shape.
    a, b = float(s) + n * shape, float(s) * mean / shape + X.sum(0)
    c.close(m.mean, shape * b / a, 'mean after one update', 50 * at, 50 * at)
    c.close(m.rate.prior.expected_value(), shape / mean, 'the update changed the prior', at, at)
    c.close(other.mean, mean, 'the update changed another model', at, at)
    same(c, ts, keep)


def subspace(c):
    import beer
    from beer.models.gsm import AffineTransform
    from .. import gsmzoo
    s = strength(c) if c.flip(.7) else float(c.logu(1e-5, 1e5))
    kw = {} if s == 1 and c.flip() else {'prior_strength': s}
    L, D = c.size(1, 4, 20), c.size(1, 6, 40)
    what = c.choice(['affine', 'latent'])
    c.note(what=what, latent=L, out=D, strength=s)
    t = AffineTransform.create(L, D, **kw)
    c.check((t.in_dim, t.out_dim) == (L, D), f'transform from {t.in_dim} to {t.out_dim}')
    for p, n in ((t.weights, L * D), (t.bias, D)):
        c.close(p.prior.params.mean, np.zeros(n), 'prior mean', 0, 0)
        c.close(p.prior.params.diag_cov, np.full(n, 1 / float(s)), 'prior variance', 1e-3, 2e-4)
        c.check(not any(q.requires_grad for q in p.prior.parameters()), 'the prior is learned by gradient')
        c.check(all(q.requires_grad for q in p.posterior.parameters()), 'the posterior cannot be learned by gradient')
        c.check(tuple(p.posterior.params.mean.shape) == (n,), 'shape of the posterior')
    c.check(len(list(t.bayesian_parameters())) == 2, 'number of parameters')
    t2 = AffineTransform.create(L, D, **kw)
    with torch.no_grad():
        for q in t2.parameters():
            q.add_(1.)
    c.close(t.weights.prior.params.mean, np.zeros(L * D), 'transforms share their priors', 0, 0)
    c.close(t.weights.posterior.params.mean, np.zeros(L * D), 'transforms share their posteriors', 0, 0)
    if what == 'latent':
        pr = beer.Normal.create(torch.zeros(L), torch.ones(L))
        n = c.size(1, 5, 60)
        g = type('G', (), {'transform': t, 'latent_prior': pr})
        cov = c.choice(['full', 'diagonal'])
        q = beer.GSM.new_latent_posteriors(g, n, cov)
        c.check(len(q) == n, f'{len(q)} latent posteriors instead of {n}')
        c.check(tuple(q.params.mean.shape) == (n, L), 'dimension of the latent posteriors')
        c.close(q.params.mean, np.zeros((n, L)), 'initial mean of the latent posteriors', 0, 0)
        C = arr(q.params.cov if cov == 'full' else torch.diag_embed(q.params.diag_cov))
        c.check(np.linalg.eigvalsh(C).min() > 0, 'covariance of the latent posteriors')
        off = C * (1 - np.eye(L))
        c.check((off == 0).all() and (C == C[:1]).all(), 'initial covariance of the latent posteriors')
        c.check(all(x.requires_grad for x in q.parameters()), 'the posteriors cannot be learned by gradient')
        c.raises(Exception, lambda: beer.GSM.new_latent_posteriors(g, n, c.choice(['diag', 'iso', 'isotropic'])), 'an unknown covariance type is an error')
        with_none = beer.Normal.create(torch.zeros(2), torch.ones(2))
        c.raises(Exception, lambda: beer.GSM.create(with_none, L, pr), 'a model without subspace parameter is an error')


CASES = [(normal, 1500, 10000), (normalset, 1200, 8000), (weights, 1200, 6000), (gamma, 500, 3000), (subspace, 400, 2000)]
