'conservation and confinement monitor: statistics left in every parameter compared with reference posteriors applied to reference frame statistics'
import numpy as np
from ..core import torch, arr
from .. import ref, gen, seqgen, zoo, oracle

RULE = '''Random HMMs and phone loops (shared densities, mixtures and joint sets as emissions), acoustic scales,
alignment graphs over a subset of the densities, explicit state paths and Viterbi training; every parameter of
the model is watched.'''
ASSUMPTIONS = ['the reference forward-backward of vf/seqgen.py is exact (it is itself compared with path enumeration)']


def _pdf_resps(post, mapping, K):
    R = np.zeros((len(post), K))
    for s, p in enumerate(mapping):
        R[:, p] += post[:, s]
    return R


def _emission_params(m):
    return {p.uuid: p for g in m.modelset.mean_field_factorization() for p in g}


def statistics(c):
    from beer import evidence_lower_bound
    z = zoo.draw(c, kinds=['hmm', 'hmm', 'phoneloop', 'bigram'])
    m = z.model
    T = c.size(z.minlen, z.minlen + 12, 400)
    K = len(m.modelset)
    scale = float(c.choice([1., 1., .5, .1, 2.]))
    mode = c.choice(['free', 'free', 'graph', 'path', 'viterbi'])
    g, kw = m.graph, {'scale': scale}
    x = z.data(c, T)
    X = arr(x)
    if mode == 'graph' or (mode == 'path' and c.flip()):
        n = c.int(1, min(4, K))
        g = seqgen.graph(c, n, density=1.)
        g.pdf_id_mapping = [int(i) for i in c.rng.integers(0, K, n)]
        kw['inference_graph'] = g
    pc = scale * oracle.scores(m.modelset, X)[:, g.pdf_id_mapping]
    G = seqgen.lp(g)
    c.note(kind=z.kind, T=T, mode=mode, scale=scale, mapping=g.pdf_id_mapping, x=X[0])
    c.ev('mode_' + mode)
    if mode == 'path':
        path = [int(i) for i in c.rng.integers(0, g.n_states, T)]
        kw['state_path'] = path if c.flip() else torch.tensor(path)
        post = np.eye(g.n_states)[path]
    elif not seqgen.possible(G, T):
        c.trivial = True
        return
    elif mode == 'viterbi':
        kw['viterbi'] = True
        path = [int(i) for i in g.best_path(ref.t(pc))]
        best = seqgen.viterbi_score(G, pc)
        c.check(abs(seqgen.path_score(G, pc, path) - best) <= 1e-8 * (abs(best) + 10), 'path')
        post = np.eye(g.n_states)[path]
    else:
        post = seqgen.posteriors(G, pc)[0]
    datasize = c.choice([-1, T, 5 * T])
    e = evidence_lower_bound(m, x, datasize=datasize, **kw)
    for p in zoo.params(m):
        p.zero_stats()
    e.backward()
    f = 1. if datasize <= 0 else datasize / T
    R = _pdf_resps(scale * f * post, g.pdf_id_mapping, K)
    c.check(abs(R.sum() - f * scale * T) <= 1e-6 * R.sum(), 'oracle: total mass')
    want = oracle.accumulate(m.modelset, X, R)
    em = _emission_params(m)
    c.check(set(want) == set(em), 'emission parameters')
    for u, p in em.items():
        s = want[u]
        tol = 1e-7 * (np.abs(s).max() + f * scale * T)
        c.close(p.stats, s, f'{z.kind}/{mode}: statistics of {type(p.posterior).__name__}', 1e-7, tol)
    # Confinement.
    unused = sorted(set(range(K)) - set(g.pdf_id_mapping))
    if mode in ('path', 'viterbi'):
        unused = sorted(set(range(K)) - {g.pdf_id_mapping[i] for i in path})
    if type(m.modelset.original_modelset).__name__ == 'NormalSet':
        s = arr(m.modelset.original_modelset.means_precisions.stats)
        c.check(not s[unused].any(), 'statistics for densities outside of the alignment')
        c.ev('confined', len(unused))
        # zero-order statistic: each frame has mass one times the scale.
        c.close(-2 * s[:, -2].sum(), f * scale * T, 'total mass', 1e-9, 1e-9)
    # Responsibilities exposed by the posteriors of the model.
    if mode in ('free', 'graph'):
        kw2 = {k: v for k, v in kw.items() if k in ('inference_graph', 'scale')}
        c.close(m.posteriors(x, **kw2), post, 'posteriors of the model', 0, 1e-8)
    c.ev('frames', T)


def sequence_of_utterances(c):
    'Each utterance contributes its own statistics whatever was processed before.'
    z = zoo.draw(c, kinds=['hmm', 'phoneloop', 'bigram'])
    m = z.model
    K = len(m.modelset)
    n = c.int(2, 5)
    log = []
    c.note(kind=z.kind, n=n)
    for i in range(n):
        T = c.int(z.minlen, z.minlen + 6)
        x = z.data(c, T)
        mode = c.choice(['free', 'graph', 'path'])
        g, kw = m.graph, {}
        if mode == 'graph':
            k = c.int(1, min(3, K))
            g = seqgen.graph(c, k, density=1.)
            g.pdf_id_mapping = [int(j) for j in c.rng.integers(0, K, k)]
            kw['inference_graph'] = g
        pc = oracle.scores(m.modelset, arr(x))[:, g.pdf_id_mapping]
        if mode == 'path':
            path = [int(j) for j in c.rng.integers(0, g.n_states, T)]
            kw['state_path'] = path
            post = np.eye(g.n_states)[path]
        else:
            if not seqgen.possible(seqgen.lp(g), T):
                continue
            post = seqgen.posteriors(seqgen.lp(g), pc)[0]
        stats = m.sufficient_statistics(x)
        m.expected_log_likelihood(stats, **kw)
        acc = m.accumulate(stats)
        if c.flip():
            m.clear_cache()
        log.append(mode)
        want = oracle.accumulate(m.modelset, arr(x), _pdf_resps(post, g.pdf_id_mapping, K))
        got = {p.uuid: s for p, s in acc.items()}
        for u, s in want.items():
            c.close(got[u], s, f'utterance {i} ({log})', 1e-7, 1e-7 * (np.abs(s).max() + T))
    c.note(log=log)
    c.ev('utterances', n)


CASES = [(statistics, 1800, 10000), (sequence_of_utterances, 720, 4000)]
