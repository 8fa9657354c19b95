'Generators of models with known (independent) standard parameters.'
import numpy as np
from scipy import special as sp
from .core import torch
from . import ref

COV = {'full': ref.NormalWishart(), 'diagonal': ref.NormalGamma(),
       'isotropic': ref.IsotropicNormalGamma()}


def rounded(ps, dtype):
    'Parameters as they are once stored with the given precision.'
    if dtype == torch.float32:
        return [{k: v.astype(np.float32).astype(np.float64) for k, v in p.items()} for p in ps]
    return ps


def param(fam, prior, post, dtype):
    'Conjugate parameter from (lists of) standard parameters.'
    from beer.models.parameters import ConjugateBayesianParameter
    return ConjugateBayesianParameter(ref.build(fam, prior, dtype), ref.build(fam, post, dtype))


def normal(c, cov, d, dtype=torch.float64):
    import beer
    fam = COV[cov]
    prior, post = rounded([fam.draw(c, d), fam.draw(c, d)], dtype)
    return beer.Normal(param(fam, prior, post, dtype)), prior, post


def normalset(c, cov, d, k, dtype=torch.float64, spread=1.):
    import beer
    fam = COV[cov]
    prior = rounded([fam.draw(c, d) for _ in range(k)], dtype)
    post = rounded([fam.draw(c, d) for _ in range(k)], dtype)
    for p in post:
        p['mean'] = p['mean'] * spread
    post = rounded(post, dtype)
    return beer.NormalSet(param(fam, prior, post, dtype)), prior, post


def categorical(c, k, dtype=torch.float64):
    import beer
    fam = ref.Dirichlet()
    prior, post = rounded([fam.draw(c, k), fam.draw(c, k)], dtype)
    return beer.Categorical(param(fam, prior, post, dtype)), prior, post


def categoricalset(c, n, k, dtype=torch.float64):
    import beer
    fam = ref.Dirichlet()
    prior = rounded([fam.draw(c, k) for _ in range(n)], dtype)
    post = rounded([fam.draw(c, k) for _ in range(n)], dtype)
    return beer.CategoricalSet(param(fam, prior, post, dtype)), prior, post


def onehot(idx, k):
    return np.eye(k)[np.asarray(idx)]


def params_of(fam, pdf, i=None):
    'Standard parameters (float64 numpy) of a distribution of the code under test.'
    out = {}
    for f in fam.fields:
        v = getattr(pdf.params, f).detach().cpu().numpy().astype(np.float64)
        if i is not None:
            v = v[i]
        if f in ('scale', 'shape', 'rate', 'dof') and fam.name != 'Gamma':
            v = v.reshape(-1)
        out[f] = v
    return out


def normal_ellh(cov, p, X):
    'E_q[ln N(x | mu, Lambda)] for every row of X.'
    d = X.shape[1]
    m = p['mean']
    k = p['scale'][0]
    if cov == 'full':
        nu, W = p['dof'][0], p['scale_matrix']
        q = np.einsum('ni,ij,nj->n', X - m, W, X - m) * nu
        eld = ref.wishart_elogdet(W, nu)
    elif cov == 'diagonal':
        a, b = p['shape'][0], p['rates']
        q = ((X - m) ** 2 * (a / b)).sum(1)
        eld = (sp.digamma(a) - np.log(b)).sum()
    else:
        a, b = p['shape'][0], p['rate'][0]
        q = ((X - m) ** 2).sum(1) * a / b
        eld = d * (sp.digamma(a) - np.log(b))
    return .5 * (eld - d / k - q - d * ref.LOG2PI)


def normal_stats(cov, X):
    'Sufficient statistics (rows) of the conjugate likelihood.'
    n, d = X.shape
    one = np.ones((n, 1))
    if cov == 'full':
        return np.hstack([X, -.5 * (X[:, :, None] * X[:, None, :]).reshape(n, -1), -.5 * one, .5 * one])
    if cov == 'diagonal':
        return np.hstack([X, -.5 * X ** 2, -.5 * one, .5 * one])
    return np.hstack([X, -.5 * (X ** 2).sum(1, keepdims=True), -.5 * one, .5 * d * one])


def normal_posterior(cov, p, X, w=None):
    'Bayes posterior of prior p given weighted data (standard formulas).'
    w = np.ones(len(X)) if w is None else w
    N = w.sum()
    d = X.shape[1]
    k0, m0 = p['scale'][0], p['mean']
    k = k0 + N
    s = w @ X
    m = (k0 * m0 + s) / k
    S = (X * w[:, None]).T @ X + k0 * np.outer(m0, m0) - k * np.outer(m, m)
    out = {'mean': m, 'scale': np.array([k])}
    if cov == 'full':
        out['scale_matrix'] = np.linalg.inv(np.linalg.inv(p['scale_matrix']) + S)
        out['dof'] = p['dof'] + N
    elif cov == 'diagonal':
        out['shape'] = p['shape'] + .5 * N
        out['rates'] = p['rates'] + .5 * np.diag(S)
    else:
        out['shape'] = p['shape'] + .5 * N * d
        out['rate'] = p['rate'] + .5 * np.trace(S)
    return out


def normal_evidence(cov, p, X, w=None):
    'ln p(X) of a conjugate normal model with prior p.'
    fam = COV[cov]
    n, d = X.shape
    q = normal_posterior(cov, p, X)
    # log-normalizers share their constants (2 pi) convention.
    return fam.lognorm(q) - fam.lognorm(p) - .5 * n * d * ref.LOG2PI
