'''Recursive reference of scores and statistics of (sets of) densities,
computed in float64 numpy from the standard parameters of the leaves only.'''
import numpy as np
from scipy import special as sp
from .core import torch, arr
from . import ref, gen


def cov_of(param):
    return {'NormalWishart': 'full', 'NormalGamma': 'diagonal',
            'IsotropicNormalGamma': 'isotropic'}[type(param.posterior).__name__]


def leaf_params(param, n=None):
    fam = gen.COV[cov_of(param)]
    if n is None:
        return [gen.params_of(fam, param.posterior)]
    return [gen.params_of(fam, param.posterior, i) for i in range(n)]


def dirichlet_elog(a):
    return sp.digamma(a) - sp.digamma(a.sum(-1, keepdims=True))


def log_weights(cat):
    'Expected log-weights of a categorical or of a set, in the order of the components.'
    name = type(cat).__name__
    if name in ('Categorical', 'CategoricalSet'):
        return dirichlet_elog(arr(cat.weights.posterior.params.concentrations))
    c = arr(cat.stickbreaking.posterior.params.concentrations)
    if name == 'SBCategoricalSet':
        order = [int(i) for i in cat.root_sb_categorical.ordering]
        return np.stack([sb_log_weights(q, order) for q in c.reshape(-1, len(order), 2)])
    return sb_log_weights(c, [int(i) for i in cat.ordering])


def sb_log_weights(c, order):
    'Expected log-weights of Beta sticks taken in the given order.'
    lv = sp.digamma(c[:, 0]) - sp.digamma(c.sum(1))
    l1v = sp.digamma(c[:, 1]) - sp.digamma(c.sum(1))
    out = np.zeros(len(c))
    acc = 0.
    for k in order:
        out[k] = lv[k] + acc
        acc += l1v[k]
    return out


def cat_stats(counts):
    'Statistics of Dirichlet-categorical: last component replaced by the total.'
    out = counts.copy()
    out[..., -1] = counts.sum(-1)
    return out


def scores(ms, X):
    name = type(ms).__name__
    if name == 'NormalSet':
        p = ms.means_precisions
        return np.stack([gen.normal_ellh(cov_of(p), q, X) for q in leaf_params(p, len(p))], 1)
    if name == 'Normal':
        return gen.normal_ellh(cov_of(ms.mean_precision), leaf_params(ms.mean_precision)[0], X)[:, None]
    if name == 'MixtureSet':
        lw = log_weights(ms.categoricalset)
        s = scores(ms.modelset, X).reshape(len(X), len(lw), -1)
        return sp.logsumexp(s + lw[None], axis=2)
    if name == 'Mixture':
        return sp.logsumexp(scores(ms.modelset, X) + log_weights(ms.categorical), axis=1)[:, None]
    if name == 'JointModelSet':
        return np.hstack([scores(m, X) for m in ms.modelsets])
    if name == 'RepeatedModelSet':
        return np.tile(scores(ms.modelset, X), (1, ms.repeat))
    if name == 'DynamicallyOrderedModelSet':
        return scores(ms.original_modelset, X)
    raise NotImplementedError(name)


def accumulate(ms, X, R):
    'Statistics per parameter (uuid) given the responsibilities of the members.'
    name = type(ms).__name__
    if name == 'NormalSet':
        p = ms.means_precisions
        return {p.uuid: R.T @ gen.normal_stats(cov_of(p), X)}
    if name == 'MixtureSet':
        lw = log_weights(ms.categoricalset)
        s = scores(ms.modelset, X).reshape(len(X), len(lw), -1) + lw[None]
        r = np.exp(s - sp.logsumexp(s, axis=2, keepdims=True)) * R[:, :, None]
        out = {ms.categoricalset.weights.uuid: cat_stats(r.sum(0))}
        add(out, accumulate(ms.modelset, X, r.reshape(len(X), -1)))
        return out
    if name == 'JointModelSet':
        out, i = {}, 0
        for m in ms.modelsets:
            add(out, accumulate(m, X, R[:, i:i + len(m)]))
            i += len(m)
        return out
    if name == 'RepeatedModelSet':
        return accumulate(ms.modelset, X, R.reshape(len(X), ms.repeat, -1).sum(1))
    if name == 'DynamicallyOrderedModelSet':
        return accumulate(ms.original_modelset, X, R)
    raise NotImplementedError(name)


def add(a, b):
    for k, v in b.items():
        a[k] = a[k] + v if k in a else v
    return a


def mixture_resps(m, X):
    s = scores(m.modelset, X) + log_weights(m.categorical)
    return np.exp(s - sp.logsumexp(s, axis=1, keepdims=True))


def weight_stats(cat, counts):
    'What a categorical accumulates for given expected counts.'
    return {param_of(cat).uuid: cat_stats(counts) if type(cat).__name__.startswith('Categorical') else counts}


def param_of(cat):
    return cat.weights if type(cat).__name__.startswith('Categorical') else cat.stickbreaking
