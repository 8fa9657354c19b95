'Random subspace models (units, latent posteriors, GSM) with statistics.'
import numpy as np
from .core import torch, arr
from . import ref, gen


def unit_set(c, cov, d, S, K, dtype):
    'S states of K components.'
    import beer
    ns = gen.normalset(c, cov, d, S * max(K, 1), dtype)[0]
    if K == 0:
        return ns
    return beer.MixtureSet(gen.categoricalset(c, S, K, dtype)[0], ns)


def randomize(c, gsm, scale=.4):
    'Random subspace: means and variances of the weights and bias.'
    for p in (gsm.transform.weights, gsm.transform.bias):
        q = p.posterior.params
        q.mean.data = torch.tensor(c.rng.normal(size=tuple(q.mean.shape)) * scale, dtype=q.mean.dtype)
        q.log_diag_cov.data = torch.tensor(c.uni(-5, 0, tuple(q.mean.shape)), dtype=q.mean.dtype)


def randomize_posts(c, posts, scale=1.):
    q = posts.params
    for name in ('mean', 'log_diag_cov', 'log_diag_L', 'L_offdiag'):
        t = getattr(q, name, None)
        if t is not None:
            shift = -1. if name.startswith('log') else 0.
            # (well conditioned covariances, of any dimension)
            s = scale * .7 * (min(1., 3. / q.mean.shape[-1]) if name == 'L_offdiag' else 1.)
            t.data = torch.tensor(shift + c.rng.normal(size=tuple(t.shape)) * s, dtype=t.dtype)


def latent_prior(c, L, dtype, kinds=('normal', 'normal', 'mixture')):
    import beer
    kind = c.choice(kinds)
    cov = c.choice(['full', 'full', 'diagonal', 'isotropic'])
    if kind == 'mixture':
        K = c.int(2, 3)
        cat = gen.categorical(c, K, dtype)[0]
        return kind, beer.Mixture.create(gen.normalset(c, cov, L, K, dtype)[0], cat)
    return kind, gen.normal(c, cov, L, dtype)[0]


class Subspace:
    def __init__(self, c, dtype=torch.float64, views=None, prior=None, unit=None, max_units=4, stats=True):
        import beer
        self.c, self.dtype = c, dtype
        self.n = c.size(1, max_units, 3 * max_units)
        self.L = c.size(1, 3, 8)
        self.cov = c.choice(['isotropic', 'diagonal', 'full'])
        self.d = c.size(1, 3, 6)
        self.S = c.int(1, 3)
        self.K = c.size(0, 3, 6) if unit is None else unit
        self.prior_kind, self.prior = latent_prior(c, self.L, dtype) if prior is None else prior
        self.views = c.flip(.6) if views is None else views
        total = self.n if self.views else 1
        whole = unit_set(c, self.cov, self.d, self.S * total, self.K, dtype)
        whole.replace_parameters({p: beer.SubspaceBayesianParameter.from_parameter(p, self.prior)
                                  for p in whole.bayesian_parameters()})
        self.whole = whole
        self.tpl = unit_set(c, self.cov, self.d, self.S, self.K, dtype)
        self.tpl.replace_parameters({p: beer.SubspaceBayesianParameter.from_parameter(p, self.prior)
                                     for p in self.tpl.bayesian_parameters()})
        self.gsm = beer.GSM.create(self.tpl, self.L, self.prior, prior_strength=float(c.logu(.3, 3))).to(dtype)
        randomize(c, self.gsm)
        self.post_cov = c.choice(['diagonal', 'full'])
        if self.views:
            self.units = [whole[i * self.S:(i + 1) * self.S] for i in range(self.n)]
            self.posts = self.gsm.new_latent_posteriors(self.n, self.post_cov)
        else:
            self.units, self.posts = self.gsm.new_models(self.n, self.post_cov)
        randomize_posts(c, self.posts)
        if stats:
            self.set_stats()

    def set_stats(self):
        'Statistics of random data under random responsibilities.'
        c = self.c
        for u in self.units:
            N = c.size(1, 12, 150)
            X = c.rng.normal(size=(N, self.d)) * 1.5
            for p in u.bayesian_parameters():
                rows = p.stats.shape[0]
                if p.stats.shape[-1] == self.K and rows == self.S and self.K:
                    s = c.uni(0, 5, (rows, self.K))
                    s[:, -1] = s.sum(-1)
                else:
                    R = c.uni(0, 1, (N, rows))
                    s = R.T @ gen.normal_stats(self.cov, X)
                p.stats = torch.tensor(s, dtype=self.dtype)

    def note(self, c):
        c.note(units=self.n, latent=self.L, cov=self.cov, dim=self.d, states=self.S, comps=self.K,
               prior=self.prior_kind, views=self.views, post_cov=self.post_cov, dtype=self.dtype)


class Hierarchy:
    'Languages with subspaces generated from a common one.'

    def __init__(self, c, dtype):
        import beer
        from beer.models.gsm import HierarchicalAffineTransform, HierarchicalGSM, AffineTransform
        self.n = c.size(1, 3, 6)
        first = self.first = Subspace(c, dtype, prior=('normal', gen.normal(c, 'full', 2, dtype)[0]), max_units=3)
        first.L = 2
        self.Lu = c.size(1, 3, 6)
        # dimension of the super-vectors: the bias of a plain subspace model
        self.tplD = int(beer.GSM.create(first.tpl, 2, first.prior).transform.bias.posterior.params.mean.shape[-1])
        self.root = AffineTransform.create(self.Lu, 3 * self.tplD).to(dtype)
        randomize(c, type('Holder', (), {'transform': self.root}), .2)
        self.uprior = gen.normal(c, c.choice(['full', 'diagonal']), self.Lu, dtype)[0]
        self.gsms, self.units, self.posts = [], [], []
        for l in range(self.n):
            prior = first.prior if c.flip() else gen.normal(c, 'full', 2, dtype)[0]
            tr = HierarchicalAffineTransform.create(self.uprior, 2, self.tplD, self.root,
                                                    cov_type=c.choice(['diagonal', 'full'])).to(dtype)
            randomize_posts(c, tr.latent_posterior)
            g = beer.GSM(first.tpl, tr, prior)
            n = c.int(1, 3)
            whole = unit_set(c, first.cov, first.d, first.S * n, first.K, dtype)
            whole.replace_parameters({p: beer.SubspaceBayesianParameter.from_parameter(p, prior)
                                      for p in whole.bayesian_parameters()})
            first.units = [whole[i * first.S:(i + 1) * first.S] for i in range(n)]
            first.set_stats()
            self.units.append(first.units)
            p = g.new_latent_posteriors(n, c.choice(['diagonal', 'full']))
            randomize_posts(c, p)
            self.posts.append(p)
            self.gsms.append(g)
        self.model = HierarchicalGSM(self.root, self.uprior)

    def note(self, c):
        self.first.note(c)
        c.note(languages=self.n, units=[len(u) for u in self.units], latent=self.Lu)
