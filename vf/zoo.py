'Random models of every kind (with their data) for the generic monitors.'
import numpy as np
from .core import torch, arr
from . import ref, gen, seqgen


class Zoo:
    def __init__(self, kind, model, dim, onehot=None, seq=False, minlen=1, positive=False, graph=None):
        self.kind, self.model, self.dim = kind, model, dim
        self.onehot, self.seq, self.minlen, self.positive, self.graph = onehot, seq, minlen, positive, graph

    def data(self, c, n, dtype=torch.float64):
        if self.onehot:
            X = gen.onehot(c.rng.integers(0, self.onehot, n), self.onehot)
        elif self.positive:
            X = c.logu(.1, 8, (n, self.dim))
        else:
            X = (c.rng.normal(size=(n, self.dim)) * 1.5 + c.rng.normal(size=self.dim)) * (1 if dtype == torch.float32 or c.flip(.85) else c.logu(.1, 30))
        return ref.t(X, dtype)


def dens(c, cov, d, K, dtype, depth=0):
    'A set of K densities of random structure.'
    import beer
    kind = c.choice(['normal', 'normal', 'mixtureset', 'joint', 'repeated']) if depth == 0 else \
        c.choice(['normal', 'mixtureset'])
    if kind == 'mixtureset':
        n = c.int(1, 3)
        ms = gen.normalset(c, cov, d, n * K, dtype)[0]
        cs = gen.categoricalset(c, K, n, dtype)[0] if n > 1 else None
        return beer.MixtureSet(cs, ms) if cs is not None else beer.MixtureSet.create(K, ms)
    if kind == 'joint' and K > 1:
        a = c.int(1, K - 1)
        return beer.JointModelSet([dens(c, cov, d, a, dtype, 1), dens(c, cov, d, K - a, dtype, 1)])
    if kind == 'repeated' and K > 1 and K % 2 == 0:
        from beer.models.modelset import RepeatedModelSet
        return RepeatedModelSet(gen.normalset(c, cov, d, K // 2, dtype)[0], 2)
    return gen.normalset(c, cov, d, K, dtype)[0]


def weights(c, K, dtype, sb=True):
    import beer
    from beer.models.categorical import SBCategorical, SBCategoricalHyperPrior
    kind = c.choice(['finite', 'finite', 'sb', 'sbhp']) if sb else 'finite'
    if kind == 'sb':
        m = SBCategorical.create(K, prior_strength=float(c.logu(.3, 5)))
    elif kind == 'sbhp':
        m = SBCategoricalHyperPrior.create(K, prior_strength=float(c.logu(.3, 5)), hyper_prior_strength=1.)
    else:
        return kind, gen.categorical(c, K, dtype)[0]
    m = m.to(dtype)
    if c.flip():
        # state after some update
        p = m.stickbreaking
        p.stats = torch.tensor(c.uni(0, 20, K), dtype=dtype)
        p.natural_grad_update(1.)
        p.stats = torch.zeros(K, 2, dtype=dtype)
    return kind, m


def loop_graph(c, n_units, n_states, dtype, left_right=True, loop=None):
    '''Compiled phone-loop graph (through the graph builder of the code under
    test) with n_units left-to-right units, its start and end densities.'''
    from beer.graph import Graph
    g = Graph()
    s, e = g.add_state(), g.add_state()
    g.start_state, g.end_state = s, e
    back = g.add_state()
    start_pdf, end_pdf = {}, {}
    pid = 0
    for u in range(n_units):
        ns = n_states if isinstance(n_states, int) else n_states[u]
        ids = [g.add_state(pdf_id=pid + i) for i in range(ns)]
        start_pdf[f'u{u}'], end_pdf[f'u{u}'] = pid, pid + ns - 1
        pid += ns
        g.add_arc(back, ids[0], 1.)
        for a, b in zip(ids[:-1], ids[1:]):
            stay = float(c.uni(.2, .8) if c.flip(.9) else c.choice([.002, .05, .97, .998]))
            g.add_arc(a, a, stay)
            g.add_arc(a, b, 1 - stay)
        stay = float(c.uni(.2, .8) if c.flip(.9) else c.choice([.002, .05, .97, .998]))
        g.add_arc(ids[-1], ids[-1], stay)
        g.add_arc(ids[-1], back, (1 - stay) / 2)
        g.add_arc(ids[-1], e, (1 - stay) / 2)
    g.add_arc(s, back, 1.)
    g.normalize()
    if c.flip(.4):  # the order of the units need not be that of their states
        names = [str(k) for k in c.rng.permutation(list(start_pdf))]
        start_pdf, end_pdf = {k: start_pdf[k] for k in names}, {k: end_pdf[k] for k in names}
    return g.compile().to(dtype), start_pdf, end_pdf


def phoneloop(c, dtype=torch.float64, bigram=None, sb=True, max_units=4):
    import beer
    n = c.size(2, max_units, 3 * max_units)
    S = c.int(2, 3)
    cov = c.choice(['diagonal', 'isotropic', 'full'])
    d = c.size(1, 3, 12)
    graph, sp_, ep = loop_graph(c, n, S, dtype)
    ms = dens(c, cov, d, n * S, dtype)
    bigram = c.flip() if bigram is None else bigram
    if bigram:
        if sb and c.flip(.35):
            from beer.models.categoricalset import SBCategoricalSet
            root = beer.models.categorical.SBCategorical.create(n, prior_strength=float(c.logu(.5, 4))).to(dtype)
            p = root.stickbreaking
            p.stats = torch.tensor(c.uni(0, 20, n), dtype=dtype)
            p.natural_grad_update(1.)
            cs = SBCategoricalSet.create(n, root, prior_strength=float(c.logu(1, 5)))
        else:
            cs = gen.categoricalset(c, n, n, dtype)[0]
        m = beer.BigramPhoneLoop.create(graph, sp_, ep, ms, cs)
        kind = 'bigram'
    else:
        wk, cat = weights(c, n, dtype, sb)
        m = beer.PhoneLoop.create(graph, sp_, ep, ms, cat)
        kind = 'phoneloop-' + wk
    return Zoo(kind, m, d, seq=True, minlen=S, graph=graph)


KINDS = ['normal', 'categorical', 'gamma', 'sbcategorical', 'mixture', 'hmm', 'phoneloop', 'bigram']


def draw(c, dtype=torch.float64, kinds=KINDS, kind=None):
    import beer
    kind = kind or c.choice(kinds)
    cov = c.choice(list(gen.COV))
    d = c.size(1, 4, 16)
    if kind == 'normal':
        return Zoo(kind, gen.normal(c, cov, d, dtype)[0], d)
    if kind == 'categorical':
        K = c.size(2, 6, 40)
        return Zoo(kind, gen.categorical(c, K, dtype)[0], K, onehot=K)
    if kind == 'gamma':
        fam = ref.Gamma()
        pr, po = gen.rounded([fam.draw(c, d), fam.draw(c, d)], dtype)
        m = beer.models.gamma.Gamma(ref.t(c.logu(.3, 10, d), dtype), gen.param(fam, pr, po, dtype))
        return Zoo(kind, m, d, positive=True)
    if kind == 'sbcategorical':
        K = c.size(2, 6, 40)
        return Zoo(kind, beer.models.categorical.SBCategorical.create(K, float(c.logu(.3, 4))).to(dtype), K, onehot=K)
    if kind == 'mixture':
        K = c.size(2, 5, 24)
        wk, cat = weights(c, K, dtype)
        return Zoo('mixture-' + wk, beer.Mixture.create(dens(c, cov, d, K, dtype), cat), d)
    if kind == 'hmm':
        S = c.size(1, 4, 10)
        g = seqgen.graph(c, S, density=c.uni(.6, 1), dtype=dtype)
        m = beer.HMM.create(g, dens(c, cov, d, max(g.pdf_id_mapping) + 1, dtype))
        L = 1
        while not all(seqgen.possible(seqgen.lp(g), L + i) for i in range(S + 1)):
            L += 1
            if L > 12:
                return draw(c, dtype, kind='hmm')
        return Zoo(kind, m, d, seq=True, minlen=L, graph=g)
    return phoneloop(c, dtype, bigram=(kind == 'bigram'))


def params(m):
    out, seen = [], set()
    for g in m.mean_field_factorization():
        for p in g:
            if p.uuid not in seen:
                seen.add(p.uuid)
                out.append(p)
    return out
