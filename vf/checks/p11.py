'invariant monitor evaluated after every operation of random histories: transition matrix compared with its definition from the current weights; counts compared with reference pair posteriors'
import pickle
import numpy as np
from ..core import torch, arr
from .. import ref, gen, seqgen, zoo, oracle

RULE = '''Random phone loops (unigram with Dirichlet, stick-breaking or stick-breaking with hyper-prior weights;
bigram with Dirichlet or hierarchical stick-breaking weights), driven through random histories of training steps
(conjugate optimizer, several learning rates, minibatches, alignment graphs, paths, Viterbi), direct updates of the
weights, evaluations and pickling.'''
ASSUMPTIONS = ['units have distinct first and last states (the property is stated for those)',
               'expected log-weights of the oracle are computed from the posterior concentrations with scipy digamma']


def _cat(m):
    return m.categorical if hasattr(m, 'categorical') else m.categoricalset


def _weights(m):
    return _cat(m).mean_field_factorization()[0][0]


class Watch:
    'Transitions expected from the initial graph and the current weights.'
    def __init__(self, m):
        g = m.graph
        self.init, self.final = arr(g.init_log_probs).copy(), arr(g.final_log_probs).copy()
        self.trans = arr(g.trans_log_probs).copy()
        self.starts, self.ends = list(m.start_pdf.values()), list(m.end_pdf.values())
        self.mapping = list(g.pdf_id_mapping)
        self.names = (list(m.start_pdf.items()), list(m.end_pdf.items()))
        self.eps = 1e-9 if g.trans_log_probs.dtype == torch.float64 else 2e-4
        self.rounding = 0. if g.trans_log_probs.dtype == torch.float64 else 1e-6

    def __call__(self, c, m, when):
        g = m.graph
        t = arr(g.trans_log_probs)
        lw = oracle.log_weights(_cat(m))
        want = self.trans.copy()
        for i, e in enumerate(self.ends):
            out = np.log1p(-np.exp(self.trans[e, e]))
            want[e, self.starts] = out + (lw if lw.ndim == 1 else lw[i])
        loop = np.zeros_like(t, bool)
        loop[np.ix_(self.ends, self.starts)] = True
        c.close(t[loop], want[loop], f'{when}: transitions between units', self.eps, self.eps)
        c.check((t[~loop] == self.trans[~loop]).all(), f'{when}: a transition inside of a unit changed')
        c.check((arr(g.init_log_probs) == self.init).all(), f'{when}: initial probabilities changed')
        c.check((arr(g.final_log_probs) == self.final).all(), f'{when}: final probabilities changed')
        c.check(list(g.pdf_id_mapping) == self.mapping, f'{when}: mapping changed')
        c.check((list(m.start_pdf.items()), list(m.end_pdf.items())) == self.names, 'unit maps')
        c.ev('transition_matrices')


def history(c):
    import beer
    dtype = c.dtype(.8)
    big = c.flip()
    cov = c.choice(list(gen.COV))
    n, S, d = c.size(2, 5, 20), c.int(2, 4), c.int(1, 2)
    graph, sp_, ep = zoo.loop_graph(c, n, [c.int(2, S) for _ in range(n)], dtype)
    before = arr(graph.trans_log_probs).copy()
    ms = zoo.dens(c, cov, d, graph.n_states, dtype)
    if big:
        z = zoo.phoneloop(c, dtype, bigram=True)
        m, d, graph = z.model, z.dim, z.graph
        kind = 'bigram-' + type(_cat(m)).__name__
    elif c.flip(.2):
        m = beer.PhoneLoop.create(graph, sp_, ep, ms, prior_strength=float(c.logu(.5, 10)))
        kind = 'default'
    else:
        kind, cat = zoo.weights(c, n, dtype)
        m = beer.PhoneLoop.create(graph, sp_, ep, ms, cat)
        w = Watch(m)
        # rows of the graph given by the user are the reference
        loop = np.zeros_like(before, bool)
        loop[np.ix_(w.ends, w.starts)] = True
        c.check((arr(m.graph.trans_log_probs)[~loop] == before[~loop]).all(),
                'construction changed transitions inside of units')
    w = Watch(m)
    w(c, m, 'after construction')
    optim = beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=float(c.choice([1., .5, .1])))
    U = len(m.start_pdf)
    log = []
    for step in range(c.int(3, 8)):
        op = c.choice(['train', 'train', 'direct', 'evaluate', 'pickle', 'deepcopy', 'lrate0', 'state'])
        log.append(op)
        if op in ('train', 'lrate0'):
            T = c.int(6, 14)
            kw = {}
            if c.flip(.25):
                kw['viterbi'] = True
            elif c.flip(.25):
                k = c.int(1, 3)
                ag = seqgen.graph(c, k, density=1., dtype=dtype)
                ag.pdf_id_mapping = [int(j) for j in c.rng.integers(0, len(m.modelset), k)]
                kw['inference_graph'] = ag
            elif c.flip(.2):
                kw['state_path'] = _admissible(c, m.graph, T)
            if op == 'lrate0':
                optim = beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=float(c.uni(.05, 1.)))
            optim.init_step()
            e = beer.evidence_lower_bound(m, ref.t(c.rng.normal(size=(T, d)) * 2, dtype), datasize=c.choice([T, 10 * T]), **kw)
            e.backward()
            optim.step()
        elif op == 'direct':
            p = _weights(m)
            cat = _cat(m)
            counts = c.uni(0, 30, (U, U) if big else U) * (c.rng.random((U, U) if big else U) < .8)
            if type(cat).__name__.startswith('Categorical'):
                counts = oracle.cat_stats(counts)
            p.zero_stats()
            p.store_stats(torch.tensor(counts, dtype=dtype))
            p.natural_grad_update(float(c.choice([1., 1., .3])))
        elif op == 'evaluate':
            x = ref.t(c.rng.normal(size=(10, d)), dtype)
            m.decode(x) if c.flip() else m.posteriors(x)
        elif op == 'state':
            # The saved state of a phone loop with other transitions.
            import copy
            other = copy.deepcopy(m)
            t = arr(other.graph.trans_log_probs).copy()
            for e in w.ends:
                stay = float(c.uni(.05, .95))
                out = np.arange(len(t)) != e
                t[e, out] += np.log1p(-stay) - np.log1p(-np.exp(t[e, e]))
                t[e, e] = np.log(stay)
            other.graph.trans_log_probs.copy_(torch.tensor(t))
            m.load_state_dict(other.state_dict())
            w = Watch(m)
        elif op == 'pickle':
            m = pickle.loads(pickle.dumps(m))
            optim = beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=1.)
        else:
            import copy
            keep = m
            m = copy.deepcopy(m)
            optim = beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=.5)
        w(c, m, f'after {log}')
    c.note(kind=kind, dtype=dtype, big=big, log=log, trans=w.trans[0])


def _admissible(c, g, T):
    t = arr(g.trans_log_probs)
    ok = np.isfinite(t)
    s = [int(c.choice(np.flatnonzero(np.isfinite(arr(g.init_log_probs)))))]
    while len(s) < T:
        s.append(int(c.choice(np.flatnonzero(ok[s[-1]]))))
    return s


def counts(c):
    import beer
    z = zoo.phoneloop(c)
    m = z.model
    K = len(m.modelset)
    T = c.size(z.minlen, z.minlen + 12, 300)
    scale = float(c.choice([1., 1., .3, 2.]))
    mode = c.choice(['free', 'free', 'free', 'viterbi', 'path', 'graph'])
    kw = {'scale': scale}
    x = z.data(c, T)
    g = m.graph
    G = seqgen.lp(g)
    starts, ends = list(m.start_pdf.values()), list(m.end_pdf.values())
    if c.flip(.3):
        # something evaluated before
        m.posteriors(z.data(c, z.minlen + 3))
        beer.evidence_lower_bound(m, z.data(c, z.minlen + 3)).backward()
    if mode == 'graph':
        k = c.int(1, 3)
        ag = seqgen.graph(c, k, density=1.)
        ag.pdf_id_mapping = [int(j) for j in c.rng.integers(0, K, k)]
        kw['inference_graph'] = ag
    pc = scale * oracle.scores(m.modelset, arr(x))[:, g.pdf_id_mapping]
    if mode == 'path':
        path = _admissible(c, g, T)
        kw['state_path'] = torch.tensor(path) if c.flip() else path
    elif mode == 'viterbi':
        kw['viterbi'] = True
        path = [int(i) for i in g.best_path(ref.t(pc))]
    if mode in ('path', 'viterbi'):
        post = np.eye(g.n_states)[path]
        xi = post[:-1, :, None] * post[1:, None, :]
    else:
        post, xi, _ = seqgen.posteriors(G, pc)
    pairs = xi.sum(0)[np.ix_(ends, starts)] if T > 1 else np.zeros((len(ends), len(starts)))
    if z.kind.startswith('phoneloop'):
        want = pairs.sum(0) + post[0, starts]
    else:
        want = pairs
    if mode == 'graph':
        want = np.zeros_like(want)
    c.note(kind=z.kind, T=T, mode=mode, scale=scale, x=arr(x)[0], units=len(starts))
    c.ev('mode_' + mode)
    datasize = c.choice([T, 3 * T])
    for p in zoo.params(m):
        p.zero_stats()
    beer.evidence_lower_bound(m, x, datasize=datasize, **kw).backward()
    f = datasize / T
    s = oracle.cat_stats(want) if type(_cat(m)).__name__.startswith('Categorical') else want
    c.close(_weights(m).stats, f * s, f'{z.kind}/{mode}: counts of the units', 1e-5, 1e-5 * (1 + T) * f)
    c.ev('expected_entries', round(float(want.sum())))


def learned_weights(c):
    'The weights move to prior + counts: the unit entered most is the most likely to be entered next.'
    import beer
    z = zoo.phoneloop(c)
    m = z.model
    T = c.size(z.minlen, z.minlen + 12, 300)
    x = z.data(c, T)
    g = m.graph
    G = seqgen.lp(g)
    starts, ends = list(m.start_pdf.values()), list(m.end_pdf.values())
    post, xi, _ = seqgen.posteriors(G, oracle.scores(m.modelset, arr(x))[:, g.pdf_id_mapping])
    pairs = xi.sum(0)[np.ix_(ends, starts)]
    cnt = pairs.sum(0) + post[0, starts] if z.kind.startswith('phoneloop') else pairs
    optim = beer.VBConjugateOptimizer([[_weights(m)]], lrate=1.)
    cat = _cat(m)
    c.note(kind=z.kind, T=T, x=arr(x)[0])
    w = Watch(m)
    prior = arr(_weights(m).prior.params.concentrations).copy()
    optim.init_step()
    beer.evidence_lower_bound(m, x).backward()
    optim.step()
    got = arr(_weights(m).posterior.params.concentrations)
    if type(cat).__name__.startswith('Categorical'):
        c.close(got, prior + cnt, 'posterior of the weights', 1e-5, 1e-5 * T)
    else:
        # sticks: every unit gets its own count and the counts of the later sticks
        order = cat.ordering if hasattr(cat, 'ordering') else cat.root_sb_categorical.ordering
        order = [int(i) for i in order]
        if cnt.ndim == 1:
            srt = cnt[order]
            c.check((np.diff(srt) <= 1e-4 * T).all(), 'sticks are not in descending order of the counts')
            cnt = cnt[None]
        exp = np.zeros(cnt.shape + (2,))
        for r in range(len(cnt)):
            rest = 0.
            for k in reversed(order):
                exp[r, k] = [cnt[r, k], rest]
                rest += cnt[r, k]
        c.close(got, prior + exp.reshape(got.shape), 'posterior of the sticks', 1e-4, 1e-4 * T)
    w(c, m, 'after the update')


CASES = [(history, 1000, 8000), (counts, 1200, 10000), (learned_weights, 800, 6000)]
