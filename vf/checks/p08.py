'decoded paths checked for admissibility and against the maximal score found by exhaustive enumeration or an independent float64 Viterbi recursion'
import numpy as np
from ..core import torch, arr
from .. import ref, gen, seqgen, zoo
from .p07 import _graph, _llhs

RULE = '''Random compiled graphs (sparse, shared densities, impossible initial/final states, phone loops) and
scores with ties, sequences of 1 to 300 frames; decode of HMM/phone-loop models under random scales and
alignment graphs.'''
ASSUMPTIONS = ['sequences without any possible path are outside the property',
               'scores equal up to rounding are ties: any of the best paths is accepted']


def _check_path(c, g, L, path, best, tol):
    T, S = L.shape
    G = seqgen.lp(g)
    p = [int(i) for i in path]
    c.check(len(p) == T, f'path of length {len(p)} for {T} frames')
    c.check(all(0 <= i < S for i in p), f'unknown state in {p}')
    c.check(np.isfinite(G.init[p[0]]), f'path starts in the impossible state {p[0]}')
    c.check(np.isfinite(G.final[p[-1]]), f'path ends in the impossible state {p[-1]}')
    for t, (a, b) in enumerate(zip(p[:-1], p[1:])):
        c.check(np.isfinite(G.trans[a, b]), f'missing transition {a}->{b} used at frame {t}')
    s = seqgen.path_score(G, L, p)
    c.check(s >= best - tol, f'path {p} scores {s!r} but the best one {best!r}')
    c.check(s <= best + tol, 'oracle: better than the best')
    c.ev('frames', T)


def best_path(c):
    dtype = c.dtype()
    wide = c.flip(.04)
    if wide:
        kind, g = 'wide', seqgen.graph(c, c.size(60, 130, 700, .5), density=c.uni(.3, 1), dtype=dtype)
    else:
        kind, g = _graph(c, c.choice([3, 4, 12]), dtype)
    S = g.n_states
    T = c.int(1, 12) if wide else c.choice([1, 2, 3, 5, c.int(4, 30), c.size(50, 300, 2500)])
    mag, off, L = _llhs(c, T, S)
    if c.flip(.3):
        L = c.rng.integers(-2, 3, (T, S)).astype(float)
    if c.flip(.2):
        # strong evidence against a state in some frames
        L[c.rng.integers(T), c.rng.integers(S)] -= 1e3
    if dtype == torch.float32:
        L = np.clip(L, -1e4, 1e4).astype(np.float32).astype(float)
    c.note(graph=kind, S=S, T=T, mag=mag, dtype=str(dtype), l=L[0])
    G = seqgen.lp(g)
    if not seqgen.possible(G, T):
        c.trivial = True
        return
    l = ref.t(L, dtype)
    path = g.best_path(l)
    c.close(l, L, 'scores modified', 0, 0)
    if S ** T <= 3000:
        best = seqgen.enumerate_paths(G, L)[1].max()
        c.ev('enumerated')
    else:
        best = seqgen.viterbi_score(G, L)
    eps = 1e-14 if dtype == torch.float64 else 1e-6
    _check_path(c, g, L, path, best, eps * T * (np.abs(L).max() * T + 10) + 1e-9)


def decode(c):
    z = zoo.draw(c, kinds=['hmm', 'phoneloop', 'bigram'])
    m = z.model
    T = c.size(z.minlen, z.minlen + 15, 600)
    x = z.data(c, T)
    scale = float(c.choice([1., .5, .1, 3.]))
    g, kw = m.graph, {}
    if c.flip(.4):
        g = seqgen.graph(c, c.int(1, 5), density=c.uni(.5, 1))
        g.pdf_id_mapping = [int(i) for i in c.rng.permutation(max(len(m.modelset), g.n_states))[:g.n_states] % len(m.modelset)]
        kw['inference_graph'] = g
    c.note(kind=z.kind, T=T, scale=scale, other=bool(kw), mapping=g.pdf_id_mapping, x=x[0])
    G = seqgen.lp(g)
    if not seqgen.possible(G, T):
        c.trivial = True
        return
    ms = m.modelset.original_modelset
    pc = scale * arr(ms.expected_log_likelihood(ms.sufficient_statistics(x)))[:, g.pdf_id_mapping]
    got = [int(i) for i in m.decode(x, scale=scale, **kw)]
    path = [int(i) for i in g.best_path(ref.t(pc))]
    best = seqgen.viterbi_score(G, pc)
    tol = 1e-12 * T * (np.abs(pc).max() * T + 10) + 1e-9
    _check_path(c, g, pc, path, best, tol)
    # The sequence of densities admits a state path of maximal score.
    c.check(len(got) == T, f'{len(got)} labels for {T} frames')
    restr = np.where(np.array(g.pdf_id_mapping)[None, :] == np.array(got)[:, None], pc, -np.inf)
    s = seqgen.viterbi_score(G, restr)
    c.check(s >= best - tol, f'densities {got} allow a path of score {s} only, best is {best}')
    again = [int(i) for i in m.decode(x, scale=scale, **kw)]
    c.check(again == got, 'decoding twice gives two results')


def viterbi_training(c):
    'Viterbi responsibilities are one-hot on a best path.'
    z = zoo.draw(c, kinds=['hmm', 'phoneloop'])
    m = z.model
    T = c.size(z.minlen, z.minlen + 10, 300)
    x = z.data(c, T)
    g = m.graph
    c.note(kind=z.kind, T=T, x=x[0])
    ms = m.modelset.original_modelset
    pc = arr(ms.expected_log_likelihood(ms.sufficient_statistics(x)))[:, g.pdf_id_mapping]
    stats = m.sufficient_statistics(x)
    v = m.expected_log_likelihood(stats, viterbi=True)
    best = seqgen.viterbi_score(seqgen.lp(g), pc)
    path = [int(i) for i in g.best_path(ref.t(pc))]
    m.clear_cache()
    c.close(v, pc[np.arange(T), path], 'scores along the best path', 1e-9, 1e-8 * (1 + np.abs(pc).max()))
    _check_path(c, g, pc, path, best, 1e-12 * T * (np.abs(pc).max() * T + 10) + 1e-9)


CASES = [(best_path, 2400, 12000), (decode, 1200, 6000), (viterbi_training, 480, 2000)]
