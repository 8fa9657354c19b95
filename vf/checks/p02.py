'reference densities (scipy) and exact posterior expectations compared with every likelihood and model on generated parameters and data'
import numpy as np
from scipy import special as sp, stats as st
from ..core import torch, arr
from .. import ref, gen

RULE = '''Random real parameter vectors / posteriors and observations for each likelihood
(dimension 1..6, 1..6 densities, 1..12 observations incl. far outliers, float32/float64).'''
ASSUMPTIONS = ['scipy.stats densities are correct']


def _tol(dtype):
    return (1e-9, 1e-9) if dtype == torch.float64 else (2e-3, 2e-3)


def _sd(x, dtype):
    return x.astype(np.float32).astype(np.float64) if dtype == torch.float32 else x


def _near(c, got, want, mag, dtype, msg):
    'Comparison relative to the magnitude of the summed terms.'
    g, w = arr(got), np.asarray(want)
    c.check(g.shape == w.shape, f'{msg}: shape {g.shape} instead of {w.shape}')
    eps = 1e-10 if dtype == torch.float64 else 5e-5
    bad = ~(np.abs(g - w) <= eps * (mag + 1) + 1e-12)
    c.check(not bad.any(), f'{msg}: observed {g[bad][:3]}, expected {w[bad][:3]}')


def _normal_logpdf(X, mean, prec):
    d = X.shape[1]
    q = np.einsum('ni,ij,nj->n', X - mean, prec, X - mean)
    mag = np.einsum('ni,ij,nj->n', np.abs(X), np.abs(prec), np.abs(X)) \
        + np.abs(mean) @ np.abs(prec) @ np.abs(mean) + abs(np.linalg.slogdet(prec)[1]) + d
    return .5 * (np.linalg.slogdet(prec)[1] - d * ref.LOG2PI - q), mag


def pdfvectors(c):
    import beer
    from beer.dists import (CategoricalLikelihood, GammaLikelihood, IsotropicNormalLikelihood,
                            NormalDiagonalLikelihood, NormalLikelihood)
    kind = c.choice(['categorical', 'gamma', 'isotropic', 'diagonal', 'full'])
    d = c.size(2 if kind == 'categorical' else 1, 6, 24)
    n, N = c.size(1, 6, 40), c.size(1, 12, 300)
    dtype = c.dtype()
    cls = {'categorical': CategoricalLikelihood, 'gamma': GammaLikelihood, 'isotropic': IsotropicNormalLikelihood,
           'diagonal': NormalDiagonalLikelihood, 'full': NormalLikelihood}[kind]
    lik = cls(d)
    q = lik.sufficient_statistics_dim(zero_stats=False)
    wq = {'categorical': d - 1, 'gamma': 2 * d, 'isotropic': d + 1, 'diagonal': 2 * d,
          'full': 2 * d + d * (d - 1) // 2}[kind]
    c.check(q == wq, f'dimension of the parameters: {q} instead of {wq}')
    spread = c.choice([.1, 1., 2.])
    R = _sd(c.rng.normal(size=(n, q)) * spread, dtype)
    if kind == 'categorical':
        if c.flip(.2):
            R = R * 15
        X = gen.onehot(c.rng.integers(0, d, N), d)
    elif kind == 'gamma':
        X = _sd(c.logu(.05, 20., (N, d)), dtype)
    else:
        X = _sd(c.rng.normal(size=(N, d)) * c.choice([1., 10.]), dtype)
        if c.flip(.25):  # very sharp or very flat densities
            if kind == 'full':
                s = c.rng.uniform(-10, 18, (n, 1))
                R[:, d:2 * d] += s
                R[:, 2 * d:] *= np.exp(.5 * s)
                if c.flip():  # directions of very different precisions
                    R[:, d:2 * d] += c.rng.uniform(-8, 8, (n, d))
            else:
                R[:, d:] += c.rng.uniform(-10, 18, R[:, d:].shape)
            R = _sd(R, dtype)
            if c.flip():  # observations near one of the means
                X = _sd(R[0, :d] + np.exp(-.5 * R[0, d:2 * d].max()) * c.rng.normal(size=(N, d)), dtype)
    c.note(kind=kind, dim=d, n=n, N=N, dtype=str(dtype), r=R[0], x=X[0])
    c.ev('lik_' + kind, N * n)
    rv, x = ref.t(R, dtype), ref.t(X, dtype)
    rv0, x0 = rv.clone(), x.clone()
    pv = lik.pdfvectors_from_rvectors(rv)
    stats = lik.sufficient_statistics(x)
    c.check(pv.dtype == dtype and stats.dtype == dtype, 'precision of vectors')
    c.check(pv.shape == (n, stats.shape[1]), f'density vectors {tuple(pv.shape)} for statistics {tuple(stats.shape)}')
    llh = lik(pv, stats)
    one = lik(pv[0], stats).reshape(-1)
    c.check(torch.equal(rv, rv0) and torch.equal(x, x0), 'inputs modified')
    want, mag = np.zeros((N, n)), np.zeros((N, n))
    pars = []
    for i in range(n):
        r = R[i]
        if kind == 'categorical':
            z = np.r_[r, 0.]
            # reference category has log-odds such that the others follow
            # softplus(logsumexp(r)): p_D = 1 / (1 + sum exp r).
            p = np.exp(z - sp.logsumexp(z))
            want[:, i] = np.log(np.maximum(1e-300, 1.)) + X @ (z - sp.logsumexp(z))
            mag[:, i] = np.abs(z).max() + 1
            pars.append((p,))
        elif kind == 'gamma':
            # the mapping adds a tiny constant (1e-6) to the real values.
            a, b = np.exp(r[:d]), np.exp(r[d:])
            want[:, i] = st.gamma(a, scale=1 / b).logpdf(X).sum(1)
            mag[:, i] = (X * b + np.abs(a * np.log(X)) + np.abs(sp.gammaln(a)) + np.abs(a * np.log(b))).sum(1) * 1e5
            pars.append((a, b))
        else:
            if kind == 'isotropic':
                m, P = r[:d], np.exp(r[d]) * np.eye(d)
                pars.append((m, np.exp(r[d:])))
            elif kind == 'diagonal':
                m, P = r[:d], np.diag(np.exp(r[d:]))
                pars.append((m, np.exp(r[d:])))
            else:
                L = np.diag(np.exp(.5 * r[d:2 * d]))
                L[np.tril_indices(d, -1)] = r[2 * d:]
                m, P = r[:d], L @ L.T
                pars.append((m, P))
            want[:, i], mag[:, i] = _normal_logpdf(X, m, P)
            mag[:, i] *= 1 + 1e-5 * np.linalg.cond(P)
    _near(c, llh, want, mag, dtype, f'{kind} log-density')
    _near(c, one, want[:, 0], mag[:, 0], dtype, f'{kind} log-density of one vector')
    back = lik.parameters_from_pdfvector(pv)
    back = back if isinstance(back, tuple) else (back,)
    back1 = lik.parameters_from_pdfvector(pv[0])
    back1 = back1 if isinstance(back1, tuple) else (back1,)
    rt, at = (1e-7, 1e-8) if dtype == torch.float64 else (5e-2, 5e-2)
    if kind == 'gamma':
        rt, at = (1e-5, 1e-5) if dtype == torch.float64 else (1e-2, 1e-2)
    c.check(len(back) == len(pars[0]), 'number of parameters read back')
    for j in range(len(back)):
        if kind == 'full' and dtype == torch.float32 and np.linalg.cond(pars[0][1]) > 1e3:
            break
        w = np.stack([p[j] for p in pars])
        if kind == 'full':
            for i in range(n):
                k = np.linalg.cond(pars[i][1])
                if k > (1e9 if dtype == torch.float64 else 1e3):
                    continue
                tol = at + 1e-14 * k * np.abs(w[i]).max() if dtype == torch.float64 else at
                c.close(arr(back[j])[i], w[i], f'parameter {j} read back (condition {k:.1e})', rt, tol)
                if i == 0:
                    c.close(back1[j], w[0], f'parameter {j} read back (single)', rt, tol)
        else:
            c.close(back[j], w, f'parameter {j} read back', rt, at)
            c.close(back1[j], w[0], f'parameter {j} read back (single)', rt, at)


def posterior_expectation(c):
    'Scores of Normal models and sets = exact expectation under the posterior.'
    cov = c.choice(list(gen.COV))
    d, N, k = c.size(1, 6, 20), c.size(1, 12, 300), c.size(1, 6, 40)
    dtype = c.dtype()
    single = c.flip()
    X = _sd(c.rng.normal(size=(N, d)) * c.choice([1., 10., 100.]), dtype)
    c.note(cov=cov, dim=d, N=N, k=0 if single else k, dtype=str(dtype), x=X[0])
    x = ref.t(X, dtype)
    if single:
        m, _, post = gen.normal(c, cov, d, dtype)
        posts = [post]
    else:
        m, _, posts = gen.normalset(c, cov, d, k, dtype)
        c.check(len(m) == k, 'size of the set')
    stats = m.sufficient_statistics(x)
    llh = m.expected_log_likelihood(stats)
    c.check(llh.dtype == dtype, 'precision of the score')
    want = np.stack([gen.normal_ellh(cov, p, X) for p in posts], 1)
    mag = np.stack([np.abs(gen.normal_stats(cov, X)) @ np.abs(gen.COV[cov].estats(p)) for p in posts], 1)
    _near(c, llh.reshape(N, -1), want, mag, dtype, 'expected log-density')
    c.ev('scores', want.size)
    # Score of the same frames in another arrangement.
    perm = c.rng.permutation(N)
    llh2 = m.expected_log_likelihood(m.sufficient_statistics(x[perm]))
    _near(c, llh2.reshape(N, -1), want[perm], mag[perm], dtype, 'scores of permuted frames')


def discrete_and_gamma(c):
    import beer
    dtype = c.dtype()
    kind = c.choice(['categorical', 'categoricalset', 'gamma'])
    N = c.size(1, 10, 300)
    if kind == 'gamma':
        d = c.int(1, 5)
        shape = _sd(c.logu(.3, 20., d), dtype)
        fam = ref.Gamma()
        prior, post = gen.rounded([fam.draw(c, d), fam.draw(c, d)], dtype)
        m = beer.models.gamma.Gamma(ref.t(shape, dtype), gen.param(fam, prior, post, dtype))
        X = _sd(c.logu(.05, 20., (N, d)), dtype)
        a, b = post['shape'], post['rate']
        terms = [shape * (sp.digamma(a) - np.log(b)) - sp.gammaln(shape) + 0 * X, (shape - 1) * np.log(X), -a / b * X]
        want = sum(terms).sum(1)
        mag = sum(np.abs(t) for t in terms).sum(1) + np.abs(shape * np.log(b)).sum()
        got = m.expected_log_likelihood(m.sufficient_statistics(ref.t(X, dtype)))
    else:
        k, n = c.size(2, 8, 60), c.size(1, 5, 30)
        if kind == 'categorical':
            m, _, post = gen.categorical(c, k, dtype)
            posts = [post]
        else:
            m, _, posts = gen.categoricalset(c, n, k, dtype)
        if c.flip(.7):
            X = gen.onehot(c.rng.integers(0, k, N), k)
        else:
            X = _sd(c.uni(0, 3, (N, k)), dtype)
        x = ref.t(X, dtype)
        x0 = x.clone()
        got = m.expected_log_likelihood(m.sufficient_statistics(x))
        c.check(torch.equal(x, x0), 'input data modified')
        el = np.stack([sp.digamma(p['concentrations']) - sp.digamma(p['concentrations'].sum()) for p in posts], 1)
        want = (X @ el)
        mag = X @ np.abs(el) + X.sum(1, keepdims=True) * 30
        got = got.reshape(N, -1)
    c.note(kind=kind, N=N, dtype=str(dtype), x=X[0], want=want.reshape(-1)[0])
    c.ev('lik_' + kind, N)
    _near(c, got.reshape(want.shape), want, mag, dtype, f'{kind} expected log-density')


def normal_dists(c):
    'Forward of the Normal distributions: all-against-all and pairwise.'
    fam = c.choice([ref.NormalDiag(), ref.NormalFull()])
    d, n, N = c.size(1, 5, 20), c.size(0, 5, 40), c.size(1, 8, 300)
    dtype = c.dtype()
    ps = gen.rounded([fam.draw(c, d) for _ in range(max(1, n))], dtype)
    pdf = ref.build(fam, ps if n else ps[0], dtype)
    X = _sd(c.rng.normal(size=(N, d)) * 3, dtype)
    stats = pdf.sufficient_statistics(ref.t(X, dtype))
    W = np.array([[fam.logpdf(p, x) for x in X] for p in ps])
    mag = np.full(W.shape, max(np.abs(W).max(), max(abs(fam.lognorm(p)) for p in ps)) * 30)
    c.note(family=fam.name, dim=d, n=n, N=N, x=X[0])
    got = pdf(stats)
    _near(c, got, W if n else W[0], mag if n else mag[0], dtype, 'log-density all against all')
    # Pairwise: the i-th observation under the i-th density.
    K = max(n, 1)
    Xp = _sd(c.rng.normal(size=(K if n else N, d)) * 3, dtype)
    got = pdf(pdf.sufficient_statistics(ref.t(Xp, dtype)), pdfwise=True)
    want = np.array([fam.logpdf(ps[i if n else 0], x) for i, x in enumerate(Xp)])
    _near(c, got.reshape(-1), want, np.abs(want) * 30 + mag.max(), dtype, 'pairwise log-density')
    c.ev('densities', W.size + len(want))


def monte_carlo(c):
    'The score of an observation is the average of its log-density over posterior draws.'
    cov = c.choice(list(gen.COV))
    d = c.int(1, 3)
    m, _, p = gen.normal(c, cov, d)
    X = c.rng.normal(size=(3, d)) * 3
    S = 4000
    if cov == 'full':
        P = st.wishart(p['dof'][0], p['scale_matrix']).rvs(S, random_state=c.rng).reshape(S, d, d)
    elif cov == 'diagonal':
        P = np.stack([np.diag(x) for x in c.rng.gamma(p['shape'][0], 1 / p['rates'], size=(S, d))])
    else:
        P = c.rng.gamma(p['shape'][0], 1 / p['rate'][0], size=S)[:, None, None] * np.eye(d)
    # root (x - mu) with root = P^1/2 and mu = mean + root^-1 z / sqrt(scale)
    w, V = np.linalg.eigh(P)
    root = np.einsum('sij,sj,skj->sik', V, np.sqrt(np.maximum(w, 0)), V)
    z = c.rng.normal(size=(S, d)) / np.sqrt(p['scale'][0])
    with np.errstate(divide='ignore'):
        v = np.stack([.5 * (np.log(np.maximum(w, 0)).sum(1) - d * ref.LOG2PI
                            - ((root @ (x - np.asarray(p['mean']).reshape(-1)) - z) ** 2).sum(1)) for x in X])
    if not np.isfinite(v).all():
        # a shape so small that the precision of a draw is zero
        c.trivial = True
        return
    got = arr(m.expected_log_likelihood(m.sufficient_statistics(ref.t(X)))).reshape(-1)
    err = v.std(1) / np.sqrt(S)
    c.note(cov=cov, dim=d, post=p)
    c.ev('posterior_draws', S)
    c.check(np.all(np.abs(got - v.mean(1)) <= 7 * err + 1e-6 * np.abs(got)),
            f'score {got} but Monte-Carlo {v.mean(1)} +- {err}')


CASES = [(pdfvectors, 1200, 10000), (posterior_expectation, 800, 8000), (discrete_and_gamma, 800, 6000),
         (normal_dists, 600, 5000), (monte_carlo, 160, 300)]
