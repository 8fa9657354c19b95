'exhaustive path enumeration and an independent float64 forward-backward compared with the inference of compiled graphs'
import numpy as np
from scipy import special as sp
from ..core import torch, arr
from .. import ref, gen, seqgen, zoo

RULE = '''Random compiled graphs (1..6 states, sparse, sub-stochastic, impossible initial/final states, shared
densities, also phone loops and graphs built and compiled with the graph builder), sequences from one frame to
several hundred, scores of magnitude 1e-3 .. 1e6, with all paths enumerated when there are few.'''
ASSUMPTIONS = ['sequences for which no path has non-zero probability are outside the property']


def _graph(c, maxs, dtype):
    kind = c.choice(['random', 'random', 'loop', 'built'])
    if kind == 'random':
        return kind, seqgen.graph(c, c.int(1, maxs), density=c.uni(.3, 1), dtype=dtype)
    if kind == 'loop':
        n = c.int(1, max(1, maxs // 2))
        return kind, zoo.loop_graph(c, n, c.int(1, max(1, maxs // n)), dtype)[0]
    from beer.graph import Graph
    g = Graph()
    S = c.int(1, maxs)
    g.start_state = g.add_state()
    ids = [g.add_state(pdf_id=i) for i in range(S)]
    g.end_state = g.add_state()
    for a, b in zip([g.start_state] + ids, ids + [g.end_state]):
        g.add_arc(a, b, float(c.uni(.1, 1)))
    for a in ids:
        for b in ids:
            if c.flip(.4) and (a, b) not in [(x.start, x.end) for x in g.arcs()]:
                g.add_arc(a, b, float(c.uni(.1, 1)))
    g.normalize()
    return kind, g.compile().to(dtype)


def _llhs(c, T, S):
    mag = c.choice([1e-3, 1., 10., 1e3, 1e6])
    off = c.choice([0., 0., -1e4, 1e3, -1e8])
    L = c.rng.normal(size=(T, S)) * mag + off
    return mag, off, L


def _invariants(c, post, xi, T, eps):
    p, x = arr(post), arr(xi)
    c.check(np.all(np.isfinite(p)) and np.all(np.isfinite(x)), 'non-finite posteriors')
    c.check(np.all(p >= 0) and np.all(p <= 1 + eps), 'posteriors outside [0, 1]')
    c.check(np.all(np.abs(p.sum(1) - 1) <= eps), f'posteriors of a frame sum to {p.sum(1)}')
    c.check(x.shape[0] == T - 1, f'{x.shape[0]} transitions for {T} frames')
    if T > 1:
        c.check(np.all(np.abs(x.sum(2) - p[:-1]) <= eps), 'transition posteriors inconsistent with the source state')
        c.check(np.all(np.abs(x.sum(1) - p[1:]) <= eps), 'transition posteriors inconsistent with the target state')
    c.ev('frames', T)


def enumeration(c):
    dtype = torch.float64
    kind, g = _graph(c, 4, dtype)
    S = g.n_states
    T = c.int(1, {1: 12, 2: 9, 3: 7, 4: 6}.get(S, 5))
    mag, off, L = _llhs(c, T, S)
    c.note(graph=kind, S=S, T=T, mag=mag, off=off, trans=arr(g.trans_log_probs)[0], l=L[0])
    G = seqgen.lp(g)
    paths, sc = seqgen.enumerate_paths(G, L)
    if not np.isfinite(sc.max()):
        c.trivial = True
        return
    ln = sp.logsumexp(sc)
    w = np.exp(sc - ln)
    want = np.zeros((T, S))
    for t in range(T):
        np.add.at(want[t], paths[:, t], w)
    xi = np.zeros((T - 1, S, S))
    for t in range(T - 1):
        np.add.at(xi[t], (paths[:, t], paths[:, t + 1]), w)
    l = ref.t(L)
    (post, tx), norm = g.posteriors(l, trans_posteriors=True)
    only, norm2 = g.posteriors(l)
    eps = 1e-9 + 1e-13 * (np.abs(L).sum())
    c.close(post, want, 'state posteriors', 0, eps)
    c.close(only, want, 'state posteriors (alone)', 0, eps)
    c.close(tx, xi, 'transition posteriors', 0, eps)
    c.close(float(norm), ln, 'log-normalizer', 1e-10, eps)
    c.close(float(norm2), ln, 'log-normalizer', 1e-10, eps)
    c.close(l, L, 'scores modified', 0, 0)
    _invariants(c, post, tx, T, eps)
    c.ev('paths', len(paths))


def long(c):
    dtype = c.dtype(.7)
    if c.flip(.03):
        kind, g = 'wide', seqgen.graph(c, c.size(40, 130, 400, .4), density=c.uni(.3, 1), dtype=dtype)
    else:
        kind, g = _graph(c, 12, dtype)
    S = g.n_states
    T = c.int(1, 12) if kind == 'wide' else c.choice([1, 2, 3, c.int(10, 60), c.size(100, 400, 2500)])
    mag, off, L = _llhs(c, T, S)
    if dtype == torch.float32:
        mag, off = min(mag, 10.), 0.
        L = (c.rng.normal(size=(T, S)) * mag).astype(np.float32).astype(float)
    c.note(graph=kind, S=S, T=T, mag=mag, off=off, dtype=str(dtype), l=L[0])
    G = seqgen.lp(g)
    if not seqgen.possible(G, T):
        c.trivial = True
        return
    want, xi, ln = seqgen.posteriors(G, L)
    (post, tx), norm = g.posteriors(ref.t(L, dtype), trans_posteriors=True)
    c.check(post.dtype == dtype, 'precision of the posteriors')
    eps = 1e-9 + 1e-14 * np.abs(L).max() * T * 10 if dtype == torch.float64 \
        else min(.5, 1e-4 + 3e-6 * (np.abs(L).max() + 3) * T)
    if dtype == torch.float32 and eps > .05:
        eps = 1.
        p = arr(post)
        c.finite(p, 'posteriors')
        return
    c.close(post, want, 'state posteriors', 0, eps)
    c.close(tx, xi, 'transition posteriors', 0, eps)
    c.close(float(norm), ln, 'log-normalizer', 1e-9 if dtype == torch.float64 else 1e-4, eps * 10)
    _invariants(c, post, tx, T, eps * 3)
    c.check(bool((post >= 0).all()), 'negative posterior')


def model_posteriors(c):
    'Posteriors of HMM models = exact inference on their scaled emission scores.'
    z = zoo.draw(c, kinds=['hmm', 'phoneloop', 'bigram'])
    m = z.model
    T = c.size(z.minlen, z.minlen + 15, 600)
    x = z.data(c, T)
    scale = float(c.choice([1., .5, .1, 2.]))
    g = z.graph if z.kind == 'hmm' else m.graph
    other = c.flip(.3)
    kw = {}
    if other:
        g = seqgen.graph(c, c.int(1, 5), npdf=len(m.modelset), density=1.)
        # another order/selection of the same densities
        g.pdf_id_mapping = [int(i) for i in c.rng.integers(0, len(m.modelset), g.n_states)]
        kw['inference_graph'] = g
    c.note(kind=z.kind, T=T, scale=scale, other_graph=other, x=x[0])
    G = seqgen.lp(g)
    if not seqgen.possible(G, T):
        c.trivial = True
        return
    ms = m.modelset.original_modelset if hasattr(m.modelset, 'original_modelset') else m.modelset
    pc = arr(ms.expected_log_likelihood(ms.sufficient_statistics(x)))[:, g.pdf_id_mapping]
    want = seqgen.posteriors(G, scale * pc)[0]
    got = m.posteriors(x, scale=scale, **kw)
    c.close(got, want, f'{z.kind} posteriors', 0, 1e-8)
    c.close(arr(got).sum(1), np.ones(T), 'sum of the posteriors', 0, 1e-8)
    # Same responsibilities while training.
    stats = m.sufficient_statistics(x)
    v = m.expected_log_likelihood(stats, scale=scale, **kw)
    c.close(v, (want * scale * pc).sum(1), 'posterior-weighted emission scores', 1e-8, 1e-7 * (1 + np.abs(pc).max()))
    m.clear_cache()
    c.ev('frames', T)


CASES = [(enumeration, 1800, 10000), (long, 960, 4000), (model_posteriors, 960, 5000)]
