'exact conjugate posteriors (independent formulas) compared with the parameters after each optimizer step of generated update histories'
import copy
import numpy as np
from ..core import torch, arr
from .. import ref, gen

RULE = '''Random conjugate models (Normal x3 covariance types, NormalSet with random responsibilities,
Categorical, CategoricalSet, Gamma) with random prior and unrelated random current posterior, built from
explicit priors or with create(), random data and histories of 1..5 updates at random learning rates,
batches and declared data sizes.'''
ASSUMPTIONS = ['textbook conjugate updates in vf/gen.py are correct (themselves checked against P04 evidences)']


def _tol(dtype):
    return (1e-7, 1e-7) if dtype == torch.float64 else (2e-2, 2e-2)


def _nat_close(c, got, want, mag, dtype, msg):
    g, w = arr(got), np.asarray(want)
    c.check(g.shape == w.shape, f'{msg}: shape {g.shape} instead of {w.shape}')
    eps = 1e-10 if dtype == torch.float64 else 1e-4
    bad = ~(np.abs(g - w) <= eps * (np.abs(mag) + 1))
    c.check(not bad.any(), f'{msg}: natural parameters {g[bad][:3]} instead of {w[bad][:3]}')


class Setup:
    'A model, its parameter and the exact natural-parameter increment of data.'

    def __init__(self, c, dtype):
        import beer
        kind = self.kind = c.choice(['full', 'diagonal', 'isotropic', 'set-full', 'set-diagonal', 'set-isotropic',
                                     'categorical', 'categoricalset', 'gamma'])
        self.c, self.dtype = c, dtype
        d = self.d = c.size(1, 5, 16)
        self.k = c.size(1, 4, 24)
        self.created = c.flip(.4)
        self.noise_resps = c.flip(.8)
        if kind in gen.COV or kind.startswith('set-'):
            cov = self.cov = kind.split('-')[-1]
            fam = self.fam = gen.COV[cov]
            isset = kind.startswith('set-')
            if self.created:
                mean = ref.t(c.rng.normal(size=d), dtype)
                form = c.choice(['scalar', 'diag', 'full'])
                S = {'scalar': c.logu(.3, 3, 1), 'diag': c.logu(.3, 3, d), 'full': ref.spd(c.rng, d)}[form]
                if form == 'diag' and d == 1:
                    form = 'scalar'
                cov_t = ref.t(S, dtype)
                strength = float(c.logu(.6, 10))
                self.args = (mean, cov_t, mean.clone(), cov_t.clone())
                if isset:
                    self.model = beer.NormalSet.create(mean, cov_t, self.k, prior_strength=strength,
                                                       noise_std=float(c.uni(0, 2)), cov_type=cov)
                else:
                    self.model = beer.Normal.create(mean, cov_t, prior_strength=strength, cov_type=cov)
            elif isset:
                self.model, _, _ = gen.normalset(c, cov, d, self.k, dtype)
            else:
                self.model, _, _ = gen.normal(c, cov, d, dtype)
            self.param = self.model.means_precisions if isset else self.model.mean_precision
        elif kind == 'gamma':
            fam = self.fam = ref.Gamma()
            self.shape = c.logu(.3, 10, d)
            if dtype == torch.float32:
                self.shape = self.shape.astype(np.float32).astype(float)
            if self.created:
                self.model = beer.models.gamma.Gamma.create(ref.t(c.logu(.3, 3, d), dtype), self.shape.tolist(),
                                                            float(c.logu(.5, 10)))
            else:
                prior, post = gen.rounded([fam.draw(c, d), fam.draw(c, d)], dtype)
                self.model = beer.models.gamma.Gamma(ref.t(self.shape, dtype), gen.param(fam, prior, post, dtype))
            self.param = self.model.rate
        else:
            self.fam = ref.Dirichlet()
            self.d = d = c.size(2, 6, 40)
            isset = kind == 'categoricalset'
            if self.created:
                w = c.rng.dirichlet(np.ones(d), self.k if isset else None)
                cls = beer.CategoricalSet if isset else beer.Categorical
                self.model = cls.create(ref.t(w, dtype), prior_strength=float(c.logu(.5, 20)))
            elif isset:
                self.model, _, _ = gen.categoricalset(c, self.k, d, dtype)
            else:
                self.model, _, _ = gen.categorical(c, d, dtype)
            self.param = self.model.weights
        self.isset = 'set' in kind
        pdf = self.param.prior
        self.prior = [gen.params_of(self.fam, pdf, i) for i in range(self.k)] if self.isset \
            else gen.params_of(self.fam, pdf)
        c.note(kind=kind, dim=d, k=self.k if self.isset else 0, created=self.created, dtype=str(dtype), prior=self.prior)
        c.ev('model_' + kind)

    def nat_prior(self):
        if self.isset:
            return np.stack([self.fam.natural(p) for p in self.prior])
        return self.fam.natural(self.prior)

    def nat_post(self):
        pdf = self.param.posterior
        if self.isset:
            return np.stack([self.fam.natural(gen.params_of(self.fam, pdf, i)) for i in range(self.k)])
        return self.fam.natural(gen.params_of(self.fam, pdf))

    def data(self, N):
        c = self.c
        if self.kind == 'gamma':
            X = c.logu(.05, 10, (N, self.d))
        elif self.kind.startswith('categorical'):
            X = gen.onehot(c.rng.integers(0, self.d, N), self.d)
        else:
            X = c.rng.normal(size=(N, self.d)) * 2 + c.rng.normal(size=self.d) * 3
            if self.dtype == torch.float64 and c.flip(.15):
                X = X * c.logu(1e-2, 1e3 if 'full' not in self.kind else 20)
        if self.dtype == torch.float32:
            X = X.astype(np.float32).astype(float)
        R = None
        if self.isset:
            R = c.rng.dirichlet(np.ones(self.k) * .5, N)
            if not self.noise_resps:
                R = gen.onehot(c.rng.integers(0, self.k, N), self.k)
            if self.dtype == torch.float32:
                R = R.astype(np.float32).astype(float)
        return X, R

    def exact(self, X, R, scale=1.):
        'Natural parameters of the exact posterior (each frame weighted by scale).'
        def one(p, w):
            w = w * scale
            if self.kind == 'gamma':
                return self.fam.natural({'shape': p['shape'] + w.sum() * self.shape, 'rate': p['rate'] + w @ X})
            if self.kind.startswith('categorical'):
                return self.fam.natural({'concentrations': p['concentrations'] + w @ X})
            return self.fam.natural(gen.normal_posterior(self.cov, p, X, w))
        if self.isset:
            return np.stack([one(p, R[:, i]) for i, p in enumerate(self.prior)])
        return one(self.prior, np.ones(len(X)))

    def update(self, optim, X, R, datasize=-1):
        from beer import evidence_lower_bound
        optim.init_step()
        x = ref.t(X, self.dtype)
        if self.isset:
            # Statistics of a set given the responsibilities of its members.
            stats = self.model.sufficient_statistics(x)
            acc = self.model.accumulate(stats, ref.t(R, self.dtype))
            self.c.check(len(acc) == 1, 'one parameter per set')
            scale = 1. if datasize <= 0 else datasize / len(X)
            for par, s in acc.items():
                par.store_stats(scale * s)
        else:
            elbo = evidence_lower_bound(self.model, x, datasize=datasize)
            elbo.backward()
        optim.step()


def _optim(s, lrate):
    from beer import VBConjugateOptimizer
    return VBConjugateOptimizer(s.model.mean_field_factorization(), lrate=lrate)


def full_update(c):
    'One unit-rate update = exact posterior, from any current posterior.'
    dtype = c.dtype()
    s = Setup(c, dtype)
    X, R = s.data(c.size(1, 30, 600))
    nat0 = arr(s.param.prior.natural_parameters()).copy()
    s.update(_optim(s, 1.), X, R)
    want = s.exact(X, R)
    mag = np.abs(want) + np.abs(nat0) + (X ** 2).sum() + 10
    _nat_close(c, s.nat_post(), want, mag, dtype, 'posterior after a full update')
    c.check(np.array_equal(arr(s.param.prior.natural_parameters()), nat0), 'the prior changed')
    pdf = s.param.posterior
    if dtype == torch.float64 and s.kind not in ('gamma', 'categorical', 'categoricalset'):
        for i in range(s.k if s.isset else 1):
            got = gen.params_of(s.fam, pdf, i if s.isset else None)
            p = s.prior[i] if s.isset else s.prior
            exact = gen.normal_posterior(s.cov, p, X, R[:, i] if s.isset else None)
            for f in s.fam.fields:
                c.close(got[f].reshape(-1), exact[f].reshape(-1), f'posterior {f}', 1e-5, 1e-6)
    if getattr(s, 'args', None):
        c.check(torch.equal(s.args[0], s.args[2]) and torch.equal(s.args[1], s.args[3]),
                'tensors given at the creation were modified')
    # A second full update with the same data stays there.
    s.update(_optim(s, 1.), X, R)
    _nat_close(c, s.nat_post(), want, mag, dtype, 'posterior after the same update again')


def history(c):
    'Weighted average of exact posteriors over any history of rates, batches and sizes.'
    dtype = c.dtype()
    s = Setup(c, dtype)
    nat0 = arr(s.param.prior.natural_parameters()).copy()
    optim = _optim(s, 1.)
    cur = s.nat_post()
    rates = []
    mag = np.abs(cur) + np.abs(s.nat_prior())
    for _ in range(c.size(1, 5, 30)):
        rate = float(c.choice([1., .5, .1, c.uni(0, 1)]))
        rates.append(rate)
        X, R = s.data(c.size(1, 12, 200))
        size = c.choice([-1, 0, len(X), len(X) * c.int(1, 10), c.int(1, 100)])
        scale = 1. if size <= 0 else size / len(X)
        optim.lrate = rate
        s.update(optim, X, R, size)
        cur = (1 - rate) * cur + rate * s.exact(X, R, scale)
        mag = np.maximum(mag, np.abs(cur) + scale * (X ** 2).sum() + 10)
        _nat_close(c, s.nat_post(), cur, mag * (2 + len(rates)), dtype, f'posterior after rates {rates}')
        c.check(np.array_equal(arr(s.param.prior.natural_parameters()), nat0), 'the prior changed')
    c.note(rates=rates)
    c.ev('updates', len(rates))
    c.check(optim.update_count == len(rates), 'number of steps counted')


def sequential(c):
    'Posterior used as the prior of the next batch = one update on all data.'
    dtype = torch.float64
    s = Setup(c, dtype)
    X, R = s.data(c.size(2, 20, 400))
    cut = c.int(1, len(X) - 1)
    want = s.exact(X, R)
    s.update(_optim(s, 1.), X[:cut], None if R is None else R[:cut])
    s.param.prior = copy.deepcopy(s.param.posterior)
    s.update(_optim(s, 1.), X[cut:], None if R is None else R[cut:])
    mag = np.abs(want) + (X ** 2).sum() + 100
    _nat_close(c, s.nat_post(), want, mag, dtype, 'two-stage posterior')


def small_after_large(c):
    'Concentrations after an update do not suffer from large former ones.'
    import beer
    from beer.models.categorical import SBCategorical
    dtype = c.dtype(.3)
    K, n = c.size(2, 6, 120), c.int(0, 3)
    what = c.choice(['categorical', 'categoricalset', 'sticks'])
    a = c.logu(1e-2, 5, (max(n, 1), K))
    if what == 'categorical':
        m = beer.Categorical.create(ref.t(a[0] / a[0].sum(), dtype), float(a[0].sum()))
        p, a = m.weights, a[:1]
    elif what == 'categoricalset':
        n = max(n, 1)
        m = beer.CategoricalSet.create(ref.t(a / a[:1].sum(), dtype), float(a[:1].sum()))
        p = m.weights
    else:
        m = SBCategorical.create(K, float(a[0, 0])).to(dtype)
        p = m.stickbreaking
        a = np.c_[np.ones(K), np.full(K, a[0, 0])]
    c.close(np.atleast_2d(arr(p.posterior.params.concentrations)), a, 'initial concentrations', 1e-4, 1e-4)
    rows = 1 if what == 'sticks' else len(a)
    log = []
    for step in range(c.int(2, 4)):
        x = np.round(c.logu(1, 10 ** c.uni(0, 5.5), (rows, K)) * (c.rng.random((rows, K)) < c.uni(.2, 1.1)))
        log.append(x.sum())
        if what == 'sticks':
            # statistics of the weights are the counts of the components
            p.store_stats(ref.t(x[0], dtype))
            p.natural_grad_update(1.)
            order = [int(i) for i in m.ordering]
            rest = np.r_[np.cumsum(x[0][order][::-1])[::-1][1:], 0.]
            want = a.copy()
            want[order, 0] += x[0][order]
            want[order, 1] += rest
        else:
            st = x.copy()
            st[:, -1] = x.sum(1)
            p.store_stats(ref.t(st if what == 'categoricalset' else st[0], dtype))
            p.natural_grad_update(1.)
            want = a + x
        got = np.atleast_2d(arr(p.posterior.params.concentrations)).astype(float)
        c.check((got > 0).all(), f'{what}: concentrations {got.min()} after counts {log}')
        eps = torch.finfo(dtype).eps
        tol = 8 * eps * K * (1 + want.sum(-1, keepdims=True)) + .5 * want
        bad = np.abs(got - want) > tol
        c.check(not bad.any(), f'{what} after counts {log}: concentrations {got[bad][:3]} instead of {want[bad][:3]}')
    c.note(what=what, K=K, n=n, dtype=dtype, log=log)
    c.ev('updates', len(log))


def learned(c):
    'accumulated_statistics: what the posteriors have learned, in one vector.'
    from .. import zoo
    import beer
    dtype = c.dtype()
    z = zoo.draw(c, dtype)
    m = z.model
    if c.flip(.7):
        optim = beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=1.)
        for _ in range(c.int(1, 3)):
            optim.init_step()
            beer.evidence_lower_bound(m, z.data(c, z.minlen + c.int(0, 6), dtype)).backward()
            optim.step()
    got = m.accumulated_statistics()
    parts = [(arr(p.posterior.natural_parameters()) - arr(p.prior.natural_parameters())).reshape(-1)
             for p in m.bayesian_parameters()]
    want = np.concatenate(parts)
    c.check(got.shape == want.shape, f'{z.kind}: statistics {tuple(got.shape)} instead of {want.shape}')
    tol = 1e-8 if dtype == torch.float64 else 1e-4
    c.close(got, want, f'{z.kind}: learned statistics', tol, tol * (1 + np.abs(want).max()))
    c.note(kind=z.kind, parameters=len(parts), dtype=dtype)


def unknown_type(c):
    import beer
    from beer.models.normal import UnknownCovarianceType
    name = c.choice(['Full', 'diag', '', 'spherical'])
    m, S = torch.zeros(2), torch.ones(2)
    c.note(name=name)
    c.raises(UnknownCovarianceType, lambda: beer.Normal.create(m, S, cov_type=name), 'unknown covariance accepted')
    c.raises(UnknownCovarianceType, lambda: beer.NormalSet.create(m, S, 2, cov_type=name), 'unknown covariance accepted')


CASES = [(full_update, 1800, 10000), (history, 1800, 10000), (sequential, 900, 4000), (small_after_large, 600, 6000),
         (learned, 300, 3000), (unknown_type, 8, 20)]
