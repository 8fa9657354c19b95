'Random variational auto-encoders.'
import numpy as np
import scipy.special as sp
from .core import torch, arr
from . import ref, gen, zoo, oracle, seqgen


class Net(torch.nn.Module):
    def __init__(self, c, din, dout, dtype, smooth=True):
        super().__init__()
        self.dim_in, self.dim_out = din, dout
        layers, d = [], din
        for i in range(c.int(0, 2)):
            h = c.size(1, 5, 40)
            layers += [torch.nn.Linear(d, h), c.choice([torch.nn.Tanh, torch.nn.Sigmoid, torch.nn.Softplus])()]
            d = h
        layers.append(torch.nn.Linear(d, dout))
        if c.flip():
            layers.append(torch.nn.Tanh())
        self.net = torch.nn.Sequential(*layers)

    def forward(self, x):
        return self.net(x)


PRIORS = ['normal', 'mixture', 'mixture', 'hmm', 'hmm', 'phoneloop', 'bigram']


class Auto:
    def __init__(self, c, dtype=torch.float64, priors=PRIORS, wide=False):
        import beer
        self.dtype = dtype
        self.z = zoo.draw(c, dtype, kinds=priors)
        self.prior = self.z.model
        self.L = self.z.dim
        self.d = c.size(1, 4, 12)
        he, hd = c.int(1, 4), c.int(1, 4)
        self.enc, self.dec = Net(c, self.d, he, dtype), Net(c, self.L, hd, dtype)
        self.vae = beer.VAE(self.prior, self.enc, self.dec).to(dtype)
        for p in self.vae.parameters():
            p.data = torch.tensor(c.rng.normal(size=tuple(p.shape)) * .5, dtype=dtype)
        self.wide = wide and dtype == torch.float64 and c.flip(.4)
        if self.wide:  # very large or very small variances
            for l in (self.vae.enc_var_layer, self.vae.dec_var_layer):
                if c.flip(.7):
                    l.bias.data += torch.tensor(c.rng.uniform(-13, 14, l.bias.shape), dtype=dtype)
        self.ns = c.size(1, 4, 20)
        self.kw = dict(nsamples=self.ns)
        if c.flip():
            self.kw['kl_weight'] = float(c.choice([0., .5, 2.]))
        if c.flip(.3):
            self.kw['llh_weight'] = float(c.choice([0., .5, 2.]))
        n = self.z.minlen + c.size(0, 5, 80)
        self.X = torch.tensor(c.rng.normal(size=(n, self.d)) * 1.5, dtype=dtype)

    @property
    def seq(self):
        return self.z.seq

    def note(self, c):
        c.note(prior=self.z.kind, dim=self.d, latent=self.L, frames=len(self.X), dtype=self.dtype,
               emissions=type(getattr(self.prior, 'modelset', None)).__name__, **self.kw)


def mean_scores(ms, h):
    'Log-densities (n, K) of averaged statistics; exact for Normals, shared responsibilities in mixtures.'
    name = type(ms).__name__
    n, ns, L = h.shape
    if name in ('NormalSet', 'Normal'):
        return oracle.scores(ms, h.reshape(n * ns, L)).reshape(n, ns, -1).mean(1)
    if name == 'MixtureSet':
        lw = oracle.log_weights(ms.categoricalset)
        return sp.logsumexp(mean_scores(ms.modelset, h).reshape(n, len(lw), -1) + lw[None], axis=2)
    if name == 'JointModelSet':
        return np.hstack([mean_scores(m, h) for m in ms.modelsets])
    if name == 'RepeatedModelSet':
        return np.tile(mean_scores(ms.modelset, h), (1, ms.repeat))
    if name == 'DynamicallyOrderedModelSet':
        return mean_scores(ms.original_modelset, h)
    raise NotImplementedError(name)


def state_scores(prior, h):
    return mean_scores(prior.modelset, h)[:, list(prior.graph.pdf_id_mapping)]


def state_posteriors(prior, llhs):
    return seqgen.posteriors(seqgen.lp(prior.graph), llhs)[0]


def prior_term(prior, h, resps=None):
    'Per-frame prior log-density (bound) of the averaged samples.'
    name = type(prior).__name__
    if name == 'Normal':
        return mean_scores(prior, h)[:, 0]
    if name == 'Mixture':
        return sp.logsumexp(mean_scores(prior.modelset, h) + oracle.log_weights(prior.categorical), axis=1)
    s = state_scores(prior, h)
    if resps is None:
        resps = state_posteriors(prior, s)
    return np.where(resps > 0, resps * s, 0).sum(1)
