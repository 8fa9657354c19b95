'''Independent float64 references of the exponential-family members.

Nothing here is taken from the code under test: standard textbook formulas
(scipy special functions), written on numpy arrays of a single member.
'''
import math
import numpy as np
from scipy import special as sp
from scipy import stats as st
from .core import torch

LOG2PI = math.log(2 * math.pi)


def t(x, dtype=torch.float64):
    return torch.tensor(np.asarray(x), dtype=dtype)


def spd(rng, d, lo=.3, hi=3.):
    'Random symmetric positive definite matrix with bounded eigenvalues.'
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    ev = np.exp(rng.uniform(math.log(lo), math.log(hi), d))
    m = (q * ev) @ q.T
    return .5 * (m + m.T)


def wishart_lognorm(W, nu):
    d = len(W)
    return .5 * nu * np.linalg.slogdet(W)[1] + .5 * nu * d * math.log(2) \
        + sp.multigammaln(.5 * nu, d)


def wishart_elogdet(W, nu):
    d = len(W)
    return sp.digamma(.5 * (nu - np.arange(d))).sum() + d * math.log(2) \
        + np.linalg.slogdet(W)[1]


def normal_kl(m1, S1, m0, S0):
    d = len(m1)
    P0 = np.linalg.inv(S0)
    dm = m1 - m0
    return .5 * (np.trace(P0 @ S1) + dm @ P0 @ dm - d
                 + np.linalg.slogdet(S0)[1] - np.linalg.slogdet(S1)[1])


def gamma_kl(a1, b1, a0, b0):
    return ((a1 - a0) * sp.digamma(a1) - sp.gammaln(a1) + sp.gammaln(a0)
            + a0 * (np.log(b1) - np.log(b0)) + a1 * (b0 - b1) / b1)


class Dirichlet:
    name = 'Dirichlet'
    fields = ('concentrations',)
    entropy_ok = True
    mindim = 2

    def draw(self, c, d):
        return {'concentrations': c.logu(.05, 50., d)}

    def cls(self):
        from beer.dists import Dirichlet
        return Dirichlet

    def natural(self, p):
        a = p['concentrations']
        return np.r_[a[:-1] - 1, (a - 1).sum()]

    def estats(self, p):
        a = p['concentrations']
        ps = sp.digamma(a)
        return np.r_[ps[:-1] - ps[-1], ps[-1] - sp.digamma(a.sum())]

    def kl(self, p, q):
        a, b = p['concentrations'], q['concentrations']
        return sp.gammaln(a.sum()) - sp.gammaln(a).sum() - sp.gammaln(b.sum()) \
            + sp.gammaln(b).sum() + ((a - b) * (sp.digamma(a) - sp.digamma(a.sum()))).sum()

    def lognorm(self, p):
        a = p['concentrations']
        return sp.gammaln(a).sum() - sp.gammaln(a.sum())

    def entropy(self, p):
        return st.dirichlet(p['concentrations']).entropy()

    def mean(self, p):
        a = p['concentrations']
        return (a / a.sum(),)

    def direction(self, c, p):
        return c.rng.normal(size=len(self.natural(p)))


class Gamma:
    name = 'Gamma'
    fields = ('shape', 'rate')
    entropy_ok = True
    mindim = 1

    def draw(self, c, d):
        return {'shape': c.logu(.2, 40., d), 'rate': c.logu(.1, 10., d)}

    def cls(self):
        from beer.dists import Gamma
        return Gamma

    def natural(self, p):
        return np.r_[-p['rate'], p['shape'] - 1]

    def estats(self, p):
        a, b = p['shape'], p['rate']
        return np.r_[a / b, sp.digamma(a) - np.log(b)]

    def kl(self, p, q):
        return gamma_kl(p['shape'], p['rate'], q['shape'], q['rate']).sum()

    def lognorm(self, p):
        return (sp.gammaln(p['shape']) - p['shape'] * np.log(p['rate'])).sum()

    def entropy(self, p):
        a, b = p['shape'], p['rate']
        return (a - np.log(b) + sp.gammaln(a) + (1 - a) * sp.digamma(a)).sum()

    def mean(self, p):
        return (p['shape'] / p['rate'],)

    def direction(self, c, p):
        return c.rng.normal(size=len(self.natural(p)))


class NormalDiag:
    name = 'NormalDiagonalCovariance'
    fields = ('mean', 'diag_cov')
    entropy_ok = True
    mindim = 1

    def draw(self, c, d):
        return {'mean': c.rng.normal(size=d) * 2, 'diag_cov': c.logu(.1, 10., d)}

    def cls(self):
        from beer.dists import NormalDiagonalCovariance
        return NormalDiagonalCovariance

    def natural(self, p):
        return np.r_[p['mean'] / p['diag_cov'], 1 / p['diag_cov']]

    def estats(self, p):
        return np.r_[p['mean'], -.5 * (p['diag_cov'] + p['mean'] ** 2)]

    def kl(self, p, q):
        return normal_kl(p['mean'], np.diag(p['diag_cov']), q['mean'], np.diag(q['diag_cov']))

    def lognorm(self, p):
        return .5 * (p['mean'] ** 2 / p['diag_cov'] + np.log(p['diag_cov']) + LOG2PI).sum()

    def entropy(self, p):
        return .5 * (np.log(p['diag_cov']) + 1 + LOG2PI).sum()

    def mean(self, p):
        return (p['mean'],)

    def logpdf(self, p, x):
        return st.norm(p['mean'], np.sqrt(p['diag_cov'])).logpdf(x).sum()

    def direction(self, c, p):
        return c.rng.normal(size=len(self.natural(p)))


class NormalFull:
    name = 'NormalFullCovariance'
    fields = ('mean', 'cov')
    entropy_ok = True
    mindim = 1

    def draw(self, c, d):
        return {'mean': c.rng.normal(size=d) * 2, 'cov': spd(c.rng, d)}

    def cls(self):
        from beer.dists import NormalFullCovariance
        return NormalFullCovariance

    def natural(self, p):
        P = np.linalg.inv(p['cov'])
        return np.r_[P @ p['mean'], P.reshape(-1)]

    def estats(self, p):
        return np.r_[p['mean'], -.5 * (p['cov'] + np.outer(p['mean'], p['mean'])).reshape(-1)]

    def kl(self, p, q):
        return normal_kl(p['mean'], p['cov'], q['mean'], q['cov'])

    def lognorm(self, p):
        return .5 * (p['mean'] @ np.linalg.solve(p['cov'], p['mean'])
                     + np.linalg.slogdet(p['cov'])[1] + len(p['mean']) * LOG2PI)

    def entropy(self, p):
        return .5 * (np.linalg.slogdet(p['cov'])[1] + len(p['mean']) * (1 + LOG2PI))

    def mean(self, p):
        return (p['mean'],)

    def logpdf(self, p, x):
        return st.multivariate_normal(p['mean'], p['cov']).logpdf(x)

    def direction(self, c, p):
        d = len(p['mean'])
        m = c.rng.normal(size=(d, d))
        return np.r_[c.rng.normal(size=d), (m + m.T).reshape(-1)]


class NormalGamma:
    'Independent N(m_i | mean_i, 1/(k l_i)) Gamma(l_i | a, b_i), shared k and a.'
    name = 'NormalGamma'
    fields = ('mean', 'scale', 'shape', 'rates')
    entropy_ok = False
    mindim = 1

    def draw(self, c, d):
        return {'mean': c.rng.normal(size=d) * 2, 'scale': c.logu(.1, 20., 1),
                'shape': c.logu(.6, 30., 1), 'rates': c.logu(.1, 10., d)}

    def cls(self):
        from beer.dists import NormalGamma
        return NormalGamma

    def natural(self, p):
        m, k, a, b = p['mean'], p['scale'][0], p['shape'][0], p['rates']
        return np.r_[k * m, -.5 * k * m ** 2 - b, -.5 * k, a - .5]

    def estats(self, p):
        m, k, a, b = p['mean'], p['scale'][0], p['shape'][0], p['rates']
        return np.r_[a / b * m, a / b, (1 / k + a / b * m ** 2).sum(),
                     (sp.digamma(a) - np.log(b)).sum()]

    def kl(self, p, q):
        out = 0.
        for i in range(len(p['mean'])):
            a1, b1, a0, b0 = p['shape'][0], p['rates'][i], q['shape'][0], q['rates'][i]
            k1, k0 = p['scale'][0], q['scale'][0]
            out += gamma_kl(a1, b1, a0, b0)
            # E_l[ KL(N(m1, 1/(k1 l)) || N(m0, 1/(k0 l))) ]
            dm = p['mean'][i] - q['mean'][i]
            out += .5 * (k0 / k1 - 1 - np.log(k0 / k1)) + .5 * k0 * dm ** 2 * a1 / b1
        return out

    def lognorm(self, p):
        k, a, b = p['scale'][0], p['shape'][0], p['rates']
        return (sp.gammaln(a) - a * np.log(b) - .5 * np.log(k)).sum()

    def mean(self, p):
        return p['mean'], p['shape'][0] / p['rates']

    def direction(self, c, p):
        return c.rng.normal(size=len(self.natural(p)))


class IsotropicNormalGamma:
    name = 'IsotropicNormalGamma'
    fields = ('mean', 'scale', 'shape', 'rate')
    entropy_ok = False
    mindim = 1

    def draw(self, c, d):
        return {'mean': c.rng.normal(size=d) * 2, 'scale': c.logu(.1, 20., 1),
                'shape': c.logu(.6, 30., 1), 'rate': c.logu(.1, 10., 1)}

    def cls(self):
        from beer.dists import IsotropicNormalGamma
        return IsotropicNormalGamma

    def natural(self, p):
        m, k, a, b = p['mean'], p['scale'][0], p['shape'][0], p['rate'][0]
        return np.r_[k * m, -.5 * k * m @ m - b, -.5 * k, a - 1 + .5 * len(m)]

    def estats(self, p):
        m, k, a, b = p['mean'], p['scale'][0], p['shape'][0], p['rate'][0]
        return np.r_[a / b * m, a / b, len(m) / k + a / b * m @ m, sp.digamma(a) - np.log(b)]

    def kl(self, p, q):
        m1, k1, a1, b1 = p['mean'], p['scale'][0], p['shape'][0], p['rate'][0]
        m0, k0, a0, b0 = q['mean'], q['scale'][0], q['shape'][0], q['rate'][0]
        d = len(m1)
        return gamma_kl(a1, b1, a0, b0) + .5 * d * (k0 / k1 - 1 - np.log(k0 / k1)) \
            + .5 * k0 * ((m1 - m0) ** 2).sum() * a1 / b1

    def lognorm(self, p):
        k, a, b = p['scale'][0], p['shape'][0], p['rate'][0]
        return sp.gammaln(a) - a * np.log(b) - .5 * len(p['mean']) * np.log(k)

    def mean(self, p):
        return p['mean'], p['shape'] / p['rate']

    def direction(self, c, p):
        return c.rng.normal(size=len(self.natural(p)))


class NormalWishart:
    name = 'NormalWishart'
    fields = ('mean', 'scale', 'scale_matrix', 'dof')
    entropy_ok = True
    mindim = 1

    def draw(self, c, d):
        return {'mean': c.rng.normal(size=d) * 2, 'scale': c.logu(.1, 20., 1),
                'scale_matrix': spd(c.rng, d), 'dof': d - 1 + c.logu(.5, 20., 1)}

    def cls(self):
        from beer.dists import NormalWishart
        return NormalWishart

    def natural(self, p):
        m, k, W, nu = p['mean'], p['scale'][0], p['scale_matrix'], p['dof'][0]
        return np.r_[k * m, -.5 * (np.linalg.inv(W) + k * np.outer(m, m)).reshape(-1),
                     -.5 * k, .5 * (nu - len(m))]

    def estats(self, p):
        m, k, W, nu = p['mean'], p['scale'][0], p['scale_matrix'], p['dof'][0]
        L = nu * W
        return np.r_[L @ m, L.reshape(-1), len(m) / k + m @ L @ m, wishart_elogdet(W, nu)]

    def kl(self, p, q):
        m1, k1, W1, n1 = p['mean'], p['scale'][0], p['scale_matrix'], p['dof'][0]
        m0, k0, W0, n0 = q['mean'], q['scale'][0], q['scale_matrix'], q['dof'][0]
        d = len(m1)
        # Wishart divergence.
        eld = wishart_elogdet(W1, n1)
        wkl = .5 * (n1 - n0) * eld - .5 * n1 * d \
            + .5 * n1 * np.trace(np.linalg.solve(W0, W1)) \
            - wishart_lognorm(W1, n1) + wishart_lognorm(W0, n0)
        dm = m1 - m0
        return wkl + .5 * d * (k0 / k1 - 1 - np.log(k0 / k1)) + .5 * k0 * n1 * dm @ W1 @ dm

    def lognorm(self, p):
        k, W, nu = p['scale'][0], p['scale_matrix'], p['dof'][0]
        d = len(W)
        return wishart_lognorm(W, nu) - .5 * d * np.log(k) + .5 * d * LOG2PI

    def entropy(self, p):
        k, W, nu = p['scale'][0], p['scale_matrix'], p['dof'][0]
        d = len(W)
        eld = wishart_elogdet(W, nu)
        went = wishart_lognorm(W, nu) - .5 * (nu - d - 1) * eld + .5 * nu * d
        return went + .5 * d * (1 + LOG2PI - np.log(k)) - .5 * eld

    def mean(self, p):
        return p['mean'], p['dof'][0] * p['scale_matrix']

    def direction(self, c, p):
        d = len(p['mean'])
        m = c.rng.normal(size=(d, d))
        return np.r_[c.rng.normal(size=d), (m + m.T).reshape(-1), c.rng.normal(size=2)]


FAMILIES = [Dirichlet(), Gamma(), NormalDiag(), NormalFull(), NormalGamma(),
            IsotropicNormalGamma(), NormalWishart()]


def build(fam, params, dtype=torch.float64, batch=None, scalar=False):
    '''Build the distribution of the code under test; params is a dict (single)
    or a list of dicts (batch).  scalar: 0-d tensors for scalar parameters.'''
    if isinstance(params, dict):
        args = []
        for f in fam.fields:
            v = params[f]
            if scalar and v.size == 1 and f in ('scale', 'shape', 'rate', 'dof') \
                    and fam.name.startswith(('Normal', 'Iso')):
                v = v.reshape(())
            args.append(t(v, dtype))
    else:
        args = [t(np.stack([p[f] for p in params]), dtype) for f in fam.fields]
    return fam.cls().from_std_parameters(*args)
