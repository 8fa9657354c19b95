'reference-model monitor: stick-breaking posteriors, weights, expected log-weights and concentration recomputed independently after every update of random histories'
import pickle
import numpy as np
from scipy import special as sp
from ..core import torch, arr
from .. import ref, gen, oracle

RULE = '''Random truncations, concentrations, priors and histories of counts (sparse, tied, huge, soft) and
learning rates for stick-breaking categoricals, their version with a hyper-prior, and sets under a common root.'''
ASSUMPTIONS = ['the order of tied counts is the one chosen by the code (any is a size-descending order)',
               'the prior of the sticks of a set follows the root at creation (the set is not updated with the root)']


def stick_counts(counts, order):
    out = np.zeros((len(counts), 2))
    rest = 0.
    for k in reversed(order):
        out[k] = counts[k], rest
        rest += counts[k]
    return out


def mean_weights(c, order):
    out = np.zeros(len(c))
    rest = 1.
    for k in order:
        out[k] = rest * c[k, 0] / c[k].sum()
        rest *= c[k, 1] / c[k].sum()
    return out, rest


def order_of(cat):
    return [int(i) for i in cat.ordering]


def beta_kl(q, p):
    a, b = q[..., 0], q[..., 1]
    a0, b0 = p[..., 0], p[..., 1]
    return (sp.betaln(a0, b0) - sp.betaln(a, b) + (a - a0) * sp.digamma(a) + (b - b0) * sp.digamma(b)
            + (a0 - a + b0 - b) * sp.digamma(a + b))


def draw_counts(c, K):
    x = c.logu(1e-3, 10 ** c.uni(0, 5), K) * (c.rng.random(K) < c.uni(.3, 1.2))
    if c.flip(.3):
        x = np.round(x)
    if c.flip(.2):
        x[:] = x[0]
    return x


def check_state(c, m, when, tol):
    co = arr(m.stickbreaking.posterior.params.concentrations)
    order = order_of(m)
    K = len(co)
    c.check(sorted(order) == list(range(K)), f'{when}: order is not a permutation')
    mu, rest = mean_weights(co, order)
    c.close(m.mean, mu, f'{when}: mean weights', tol, tol)
    c.check((arr(m.mean) > 0).all() and arr(m.mean).sum() < 1 + 1e-6, f'{when}: mean not in the open simplex')
    lw = oracle.sb_log_weights(co, order)
    dt = m.mean.dtype
    eye = torch.eye(K, dtype=dt)
    c.close(m.expected_log_likelihood(m.sufficient_statistics(eye)), lw, f'{when}: expected log-weights', tol, tol * 10)
    soft = c.rng.dirichlet(np.ones(K), 3)
    c.close(m.expected_log_likelihood(m.sufficient_statistics(torch.tensor(soft, dtype=dt))), soft @ lw,
            f'{when}: score of soft assignments', tol, tol * 10 * (1 + np.abs(lw).max()))
    pr = arr(m.stickbreaking.prior.params.concentrations)
    c.close(arr(m.stickbreaking.kl_div_posterior_prior()).sum(), beta_kl(co, pr).sum(), f'{when}: divergence',
            tol * 10, tol * 100 * (1 + np.abs(co).max()))


def history(c):
    from beer.models.categorical import SBCategorical, SBCategoricalHyperPrior
    dtype = c.dtype(.8)
    tol = 1e-8 if dtype == torch.float64 else 3e-4
    K = c.choice([1, 2, 2, 3, 4, 6, 10, 30])
    g0 = float(c.logu(.1, 20) if dtype == torch.float32 or c.flip(.75) else c.logu(20, 1e4))
    hyper = c.flip()
    if hyper:
        h = float(c.logu(.2, 20) if dtype == torch.float32 or c.flip(.75) else c.logu(20, 2000))
        m = SBCategoricalHyperPrior.create(K, prior_strength=g0, hyper_prior_strength=h).to(dtype)
        gshape, grate = h, h / g0
        c.close(m.concentration.value(), [g0], 'prior mean of the concentration', 1e-5)
    else:
        m = SBCategorical.create(K, prior_strength=g0).to(dtype)
    prior = np.ones((K, 2))
    prior[:, 1] = g0
    c.close(m.stickbreaking.prior.params.concentrations, prior, 'prior of the sticks', 1e-6)
    c.close(m.stickbreaking.posterior.params.concentrations, prior, 'initial posterior of the sticks', 1e-6)
    check_state(c, m, 'initially', tol)
    log = []
    p = m.stickbreaking
    for step in range(c.size(1, 5, 20)):
        x = draw_counts(c, K)
        if dtype == torch.float32:
            x = x.astype(np.float32).astype(np.float64)
        r = float(c.choice([1., 1., .5, .1]))
        old = arr(p.posterior.params.concentrations).copy()
        prior = arr(p.prior.params.concentrations).copy()
        # counts arrive through the model as soft assignments
        n = c.int(1, 4)
        parts = c.rng.dirichlet(np.ones(n), K).T * x
        d = torch.tensor(parts, dtype=dtype)
        acc = m.accumulate(m.sufficient_statistics(d))
        c.check(len(acc) == 1, 'accumulate')
        (par, s), = acc.items()
        c.check(par is p or par.uuid == p.uuid, 'statistics of another parameter')
        c.close(s, x, 'accumulated counts', tol, tol * (1 + x.max() + old.max()))
        p.store_stats(s)
        if hyper:
            cold = arr(m.concentration.posterior.natural_parameters()).copy()
        p.natural_grad_update(r)
        order = order_of(m)
        log.append((round(float(x.sum()), 3), r))
        srt = x[order]
        c.check((np.diff(srt) <= 1e-5 * (1 + x.max())).all(), f'order {order} is not size-descending for {x}')
        exact = prior + stick_counts(x, order)
        want = (1 - r) * old + r * exact
        c.close(p.posterior.params.concentrations, want, f'posterior of the sticks after {log}', tol, tol * (1 + x.max() + old.max()))
        if hyper:
            co = arr(p.posterior.params.concentrations)
            l1v = sp.digamma(co[:, 1]) - sp.digamma(co.sum(1))
            q = m.concentration.posterior.params
            c.close(q.shape, [gshape + K], 'shape of the concentration', 1e-5)
            c.close(q.rate, [grate - l1v.sum()], 'rate of the concentration', tol * 10 + 1e-6, tol * 10)
            c.close(m.concentration.prior.params.shape, [gshape], 'prior of the concentration', 1e-5)
            c.close(m.concentration.prior.params.rate, [grate], 'prior of the concentration', 1e-5)
            g = arr(m.concentration.value())
            new = prior.copy()
            new[:, 1] = g
            c.close(g, (gshape + K) / (grate - l1v.sum()), 'mean concentration', tol * 10 + 1e-6)
            c.close(p.prior.params.concentrations, new, 'prior of the sticks follows the concentration', tol, tol)
        else:
            c.check((arr(p.prior.params.concentrations) == prior).all(), 'the prior changed')
        check_state(c, m, f'after {log}', tol)
        if c.flip(.2):
            p.zero_stats()
            m = pickle.loads(pickle.dumps(m))
            p = m.stickbreaking
    c.note(K=K, g0=g0, hyper=hyper, dtype=dtype, log=log, x=x[:4])
    c.ev('updates', len(log))
    c.trivial = K == 1


def sets(c):
    from beer.models.categorical import SBCategorical, SBCategoricalHyperPrior
    from beer.models.categoricalset import SBCategoricalSet
    dtype = c.dtype(.9)
    tol = 1e-8 if dtype == torch.float64 else 3e-4
    K, n = c.size(2, 8, 150), c.size(1, 6, 30)
    root = (SBCategoricalHyperPrior if c.flip(.3) else SBCategorical).create(K, float(c.logu(.5, 10) if dtype == torch.float32 or c.flip(.75) else c.logu(10, 1000))).to(dtype)
    if c.flip(.8):
        root.stickbreaking.store_stats(torch.tensor(np.round(draw_counts(c, K) % c.choice([50, 1e9 if dtype == torch.float64 else 50])) + 1., dtype=dtype))
        root.stickbreaking.natural_grad_update(1.)
    g = float(c.logu(.5, 20) if dtype == torch.float32 or c.flip(.75) else c.logu(20, 1e4))
    cs = SBCategoricalSet.create(n, root, prior_strength=g)
    p = cs.stickbreaking
    order = order_of(root)
    rc = arr(root.stickbreaking.posterior.params.concentrations)
    rmean, _ = mean_weights(rc, order)
    pr = arr(p.prior.params.concentrations).reshape(n, K, 2)
    po = arr(p.posterior.params.concentrations).reshape(n, K, 2)
    for i in range(n):
        # mean of the prior is the mean of the root, total concentration of the first stick is g
        c.close(mean_weights(pr[i], order)[0], rmean, 'prior mean of a set is not the mean of the root', 1e-6, 1e-5)
        c.close(pr[i][:, 0], g * rmean, 'concentration of the prior', 1e-5, 1e-5)
        c.close(po[i], rc, 'initial posterior', 1e-6)
    c.check(list(map(int, cs.ordering)) == order, 'order of the set')
    log = []
    for step in range(c.int(1, 4)):
        if c.flip(.3):
            # the root is updated: its new order is used from now on
            root.stickbreaking.store_stats(torch.tensor(np.round(draw_counts(c, K) % 50), dtype=dtype))
            root.stickbreaking.natural_grad_update(1.)
            order = order_of(root)
            log.append('root')
        else:
            x = np.stack([draw_counts(c, K) for _ in range(n)])
            if dtype == torch.float32:
                x = x.astype(np.float32).astype(np.float64)
            r = float(c.choice([1., 1., .4]))
            old = arr(p.posterior.params.concentrations).copy()
            jr = torch.tensor(np.stack([.25 * x, .75 * x]), dtype=dtype)
            acc = cs.accumulate_from_jointresps(cs.sufficient_statistics(jr))
            (par, s), = acc.items()
            c.close(s, x, 'counts', tol, tol * (1 + x.max() + old.max()))
            p.store_stats(s)
            p.natural_grad_update(r)
            exact = pr + np.stack([stick_counts(xi, order) for xi in x])
            c.close(p.posterior.params.concentrations, (1 - r) * old + r * exact.reshape(-1, 2),
                    f'posterior of the sticks of the set after {log}', tol, tol * (1 + x.max() + old.max()))
            c.close(p.prior.params.concentrations, pr.reshape(-1, 2), 'prior of the set', 0, 0)
            log.append(f'update {r}')
        po = arr(p.posterior.params.concentrations).reshape(n, K, 2)
        mu = np.stack([mean_weights(q, order)[0] for q in po])
        lw = np.stack([oracle.sb_log_weights(q, order) for q in po])
        # (a machine epsilon is added to the norm of the sticks)
        slack = tol + K * torch.finfo(dtype).eps / po.sum(-1).min()
        c.close(cs.mean, mu, f'mean weights after {log}', slack, slack)
        c.check((arr(cs.mean) >= 0).all() and (arr(cs.mean) > 0)[mu > 1e-12].all() and (arr(cs.mean).sum(1) < 1 + 1e-6).all(), 'simplex')
        eye = torch.eye(K, dtype=dtype)
        c.close(cs.expected_log_likelihood(cs.sufficient_statistics(eye)), lw.T, f'score after {log}', tol, 10 * tol)
    c.note(K=K, n=n, g=g, log=log, rc=rc[0], dtype=dtype)
    c.ev('updates', len(log))


def in_mixture(c):
    'A mixture with stick-breaking weights uses and learns them in the order of the components.'
    import beer
    from beer.models.categorical import SBCategorical
    K, d = c.size(2, 5, 30), c.int(1, 3)
    cov = c.choice(list(gen.COV))
    ms = gen.normalset(c, cov, d, K)[0]
    cat = SBCategorical.create(K, float(c.logu(.3, 5))).to(torch.float64)
    m = beer.Mixture.create(ms, cat)
    c.note(K=K, d=d, cov=cov)
    optim = beer.VBConjugateOptimizer([[cat.stickbreaking]], lrate=1.)
    for it in range(3):
        X = c.rng.normal(size=(c.size(1, 12, 300), d)) * 2
        R = oracle.mixture_resps(m, X)
        c.close(m.posteriors(ref.t(X)), R, 'responsibilities', 1e-7, 1e-9)
        prior = arr(cat.stickbreaking.prior.params.concentrations)
        optim.init_step()
        beer.evidence_lower_bound(m, ref.t(X)).backward()
        optim.step()
        order = order_of(cat)
        cnt = R.sum(0)
        c.check((np.diff(cnt[order]) <= 1e-9 * len(X)).all(), 'order of the components')
        c.close(cat.stickbreaking.posterior.params.concentrations, prior + stick_counts(cnt, order),
                'posterior of the weights', 1e-7, 1e-7)
        c.ev('updates')


CASES = [(history, 2000, 16000), (sets, 1600, 12000), (in_mixture, 600, 4000)]
