'Generators and brute-force/numpy references for sequence models.'
import itertools
import numpy as np
from scipy import special as sp
from .core import torch, arr


class LP:
    'Plain float64 log-probabilities of a compiled graph.'
    def __init__(self, init, final, trans):
        self.init, self.final, self.trans = init, final, trans


def lp(g):
    return LP(arr(g.init_log_probs), arr(g.final_log_probs), arr(g.trans_log_probs))


def graph(c, S, density=.8, npdf=None, dtype=torch.float64, finals=None):
    '''Random compiled graph with S states: rows of transitions with zeros,
    every state reachable from the initial ones, and shared densities.'''
    from beer.graph import CompiledGraph
    A = c.rng.dirichlet(np.ones(S), S) * (c.rng.random((S, S)) < density)
    # a cycle through all the states keeps everything reachable
    perm = c.rng.permutation(S)
    for a, b in zip(perm, np.roll(perm, -1)):
        A[a, b] += .2
    if c.flip(.7):
        A += np.diag(c.uni(.1, 1, S))
    A /= A.sum(1, keepdims=True)
    if c.flip(.3):
        A *= c.uni(.5, 1, (S, 1))     # sub-stochastic rows (mass to the end)
    pi = c.rng.dirichlet(np.ones(S))
    fi = c.rng.dirichlet(np.ones(S))
    if S > 1 and c.flip():
        pi[c.rng.integers(S)] = 0
        pi /= pi.sum()
    if S > 1 and c.flip() and finals is None:
        fi[c.rng.integers(S)] = 0
        fi /= fi.sum()
    npdf = npdf or c.int(1, S)
    mapping = [int(i) for i in c.rng.integers(0, npdf, S)]
    if c.flip(.6):
        mapping = [int(i) for i in c.rng.permutation(S)]
    with np.errstate(divide='ignore'):
        t = lambda x: torch.tensor(np.log(x), dtype=dtype)
        return CompiledGraph(t(pi), t(fi), t(A), mapping)


def posteriors(g, llhs):
    'Forward-backward in float64; returns state posteriors, pair posteriors, log-normalizer.'
    T, S = llhs.shape
    with np.errstate(divide='ignore', invalid='ignore'):
        la = np.full((T, S), -np.inf)
        lb = np.full((T, S), -np.inf)
        la[0] = g.init + llhs[0]
        for t in range(1, T):
            la[t] = llhs[t] + sp.logsumexp(la[t - 1][:, None] + g.trans, axis=0)
        lb[-1] = g.final
        for t in range(T - 2, -1, -1):
            lb[t] = sp.logsumexp(g.trans + (llhs[t + 1] + lb[t + 1])[None], axis=1)
        ln = sp.logsumexp(la[-1] + g.final)
        post = np.exp(la + lb - ln)
        xi = np.exp(la[:-1, :, None] + g.trans[None] + (llhs + lb)[1:, None, :] - ln) if T > 1 \
            else np.zeros((0, S, S))
    return post, xi, ln


def enumerate_paths(g, llhs):
    'All state paths and their log-scores.'
    T, S = llhs.shape
    paths = np.array(list(itertools.product(range(S), repeat=T)))
    sc = g.init[paths[:, 0]] + g.final[paths[:, -1]]
    for t in range(T):
        sc = sc + llhs[t, paths[:, t]]
        if t:
            sc = sc + g.trans[paths[:, t - 1], paths[:, t]]
    return paths, sc


def path_score(g, llhs, path):
    s = g.init[path[0]] + g.final[path[-1]] + sum(llhs[t, p] for t, p in enumerate(path))
    return s + sum(g.trans[a, b] for a, b in zip(path[:-1], path[1:]))


def viterbi_score(g, llhs):
    om = g.init + llhs[0]
    for t in range(1, len(llhs)):
        om = llhs[t] + (om[:, None] + g.trans).max(0)
    return (om + g.final).max()


def possible(g, T):
    'Whether some path of length T has non-zero probability.'
    with np.errstate(divide='ignore'):
        return np.isfinite(viterbi_score(g, np.zeros((T, len(g.init)))))
