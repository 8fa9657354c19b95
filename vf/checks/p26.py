'runtime oracle: models and graphs built by the commands compared with the topologies, unit lists and data statistics they were given, by exact probabilities of sampled density sequences'
import os
import numpy as np
import yaml
from ..core import torch, arr
from .. import ref, cli, oracle, seqgen, gen

RULE = '''Random configurations (1-3 groups, left-to-right topologies of 1-4 states with and without skips, components,
covariance types, strengths), unit lists of 1-12 units in mixed order, initialisation from data sets or dimensions, every
weight prior and concentration, start/end groups, random transcriptions with repeated units.'''
ASSUMPTIONS = ['every group has a unit', 'units of phone loops have two states at least',
               'weights of stick-breaking priors are those of the prior']
CHUNK = 1


class Conf:
    def __init__(self, c, d, minstates=2):
        self.c, self.d = c, d
        ng = c.int(1, 3)
        cov = c.choice(['diagonal', 'isotropic', 'full'])
        self.groups = {}
        for g in range(ng):
            self.groups[f'g{g}'] = {
                'group_name': f'g{g}', 'n_normal_per_state': c.size(1, 4, 12), 'prior_strength': float(c.choice([1., 3., 10.])),
                'noise_std': float(c.choice([0., .1, 1.])), 'cov_type': cov, 'shared_cov': False,
                'topology': self.topology(c.size(minstates, 4, 9, .1))}
        names = [str(n) for n in c.rng.permutation(['a', 'b', 'au1', 'au10', 'au2', 'Z', 'sil', 'é', '1', 'x_y', 'no', 'AU3'])]
        if c.flip(.3):
            # names that are prefixes and concatenations of others
            names = [str(n) for n in c.rng.permutation(['a', 'b', 'ab', 'ba', 'aa', 'a1', '1', '11', 'b1', 'a-b', '-', 'aab'])]
        if c.flip(.08):
            names = names + [f'n{i}' for i in range(c.int(1, 60))]
        n = c.int(ng, len(names))
        self.units = [(names[i], f'g{i % ng if i < ng else c.int(0, ng - 1)}') for i in range(n)]
        c.rng.shuffle(self.units)
        self.units = [(str(a), str(b)) for a, b in self.units]
        with open(self.p('conf.yml'), 'w') as f:
            yaml.safe_dump([self.groups[g] for g in self.groups], f)
        with open(self.p('units'), 'w') as f:
            f.writelines(f'{u} {g}\n' for u, g in self.units)
        self.group_of = dict(self.units)
        # Units in the order of their densities.
        self.order = [u for g in self.groups for u, h in self.units if h == g]

    def p(self, x):
        return os.path.join(self.d, x)

    def topology(self, n):
        'Entry to the first state, exit from the last; arcs in random order.'
        c = self.c
        A = np.zeros((n + 2, n + 2))
        A[0, 1] = 1
        for i in range(1, n + 1):
            if c.flip(.85) or i == n:
                A[i, i] = c.uni(.1, 1)
            A[i, i + 1] = c.uni(.1, 1)
            for j in range(i + 2, n + 1):
                if c.flip(.3):
                    A[i, j] = c.uni(.1, 1)
            A[i] /= A[i].sum()
        A = np.round(A, 5)
        for i in range(n + 1):
            j = i + 1
            A[i, j] = round(A[i, j] + 1 - A[i].sum(), 5)
        arcs = [{'start_id': int(i), 'end_id': int(j), 'trans_prob': float(A[i, j])} for i, j in zip(*np.nonzero(A))]
        c.rng.shuffle(arcs)
        return list(arcs)

    def nstates(self, u):
        return max(a['end_id'] for a in self.groups[self.group_of[u]]['topology']) - 1

    def chain(self, u):
        'Entry, exit and inner transition probabilities of a unit.'
        n = self.nstates(u)
        A = np.zeros((n + 2, n + 2))
        for a in self.groups[self.group_of[u]]['topology']:
            A[a['start_id'], a['end_id']] = a['trans_prob']
        return A[0, 1:-1], A[1:-1, -1], A[1:-1, 1:-1]

    def first(self, u):
        return sum(self.nstates(v) for v in self.order[:self.order.index(u)])

    def total(self):
        return sum(self.nstates(u) for u in self.order)

    def note(self, **kw):
        self.c.note(units=self.units, groups=[(g['n_normal_per_state'], g['cov_type'], max(a['end_id'] for a in g['topology']) - 1)
                                              for g in self.groups.values()], **kw)


class Chain:
    'Probabilities of density sequences.'
    def __init__(self, init, final, trans, pdfs):
        self.init, self.final, self.trans, self.pdfs = init, final, trans, np.array(pdfs)

    @classmethod
    def of(cls, g):
        with np.errstate(under='ignore'):
            return cls(np.exp(arr(g.init_log_probs)), np.exp(arr(g.final_log_probs)), np.exp(arr(g.trans_log_probs)),
                       [int(i) for i in g.pdf_id_mapping])

    def prob(self, seq):
        a = self.init * (self.pdfs == seq[0])
        for p in seq[1:]:
            a = (a @ self.trans) * (self.pdfs == p)
        return float(a @ self.final)

    def sample(self, c, cap=200):
        s = int(c.rng.choice(len(self.init), p=self.init / self.init.sum()))
        out = [int(self.pdfs[s])]
        while len(out) < cap:
            row = np.append(self.trans[s], self.final[s])
            s = int(c.rng.choice(len(row), p=row / row.sum()))
            if s == len(self.final):
                break
            out.append(int(self.pdfs[s]))
        return out


def concat(conf, seq):
    'Reference graph of a transcription.'
    sizes = [conf.nstates(u) for u in seq]
    n = sum(sizes)
    init, final, trans, pdfs = np.zeros(n), np.zeros(n), np.zeros((n, n)), []
    off = 0
    prev = None
    for u, k in zip(seq, sizes):
        i, f, A = conf.chain(u)
        trans[off:off + k, off:off + k] = A
        if prev is None:
            init[:k] = i
        else:
            o, pf = prev
            trans[o:o + len(pf), off:off + k] = np.outer(pf, i)
        prev = (off, f)
        pdfs += list(range(conf.first(u), conf.first(u) + k))
        off += k
    final[prev[0]:] = prev[1]
    return Chain(init, final, trans, pdfs)


def same_language(c, got, want, npdf, what, n=6):
    'Same probabilities of sequences, up to the constant of the (relative) final weights.'
    ratio = None
    for i in range(n):
        seq = (want if i % 2 else got).sample(c)
        if i >= 4 or c.flip(.3):
            k = c.int(0, len(seq) - 1)
            op = c.choice(['sub', 'del', 'ins', 'swap'])
            if op == 'sub':
                seq[k] = c.int(0, npdf - 1)
            elif op == 'del' and len(seq) > 1:
                del seq[k]
            elif op == 'ins':
                seq.insert(k, c.int(0, npdf - 1))
            elif len(seq) > 1:
                k = min(k, len(seq) - 2)
                seq[k], seq[k + 1] = seq[k + 1], seq[k]
        a, b = got.prob(seq), want.prob(seq)
        c.check((a > 0) == (b > 0), f'{what}: sequence {seq} has probability {a} instead of {b}')
        if b > 1e-250:
            r = np.log(a) - np.log(b)
            if ratio is None:
                ratio = r
            c.check(abs(r - ratio) < 1e-3 * (1 + len(seq) / 10), f'{what}: sequence {seq} has probability {a}, expected {b}')
            c.ev('sequences_of_positive_probability')
        c.ev('sequences')


def phones(c, conf, data=None):
    kw = ['-d', data] if data else ['-D', conf.dim]
    cli.beer(c, '-s', c.int(0, 99), 'hmm', 'mkphones', *kw, conf.p('conf.yml'), conf.p('units'), conf.p('hmms'))
    return cli.load(conf.p('hmms'))


def dataset(c, conf):
    dim = conf.dim = c.int(1, 4)
    if c.flip(.4):
        return None, np.zeros(dim), np.ones(dim)
    scale = c.logu(.1, 10, dim) if c.flip(.7) else c.logu(3e-3, 50, dim)
    X = c.rng.normal(size=(c.int(20, 60), dim)) * scale + c.rng.normal(size=dim) * 5
    X = X.astype(np.float32)
    np.savez(conf.p('f.npz'), u=X[:10], v=X[10:])
    cli.beer(c, 'dataset', 'create', conf.d, conf.p('f.npz'), conf.p('data'))
    X = X.astype(np.float64)
    return conf.p('data'), X.mean(0), X.var(0)


def units(c):
    with cli.scratch() as d:
        conf = Conf(c, d, minstates=1)
        data, mean, var = dataset(c, conf)
        conf.note(dim=conf.dim, data=bool(data))
        hmms, emissions = phones(c, conf, data)
        c.check(sorted(hmms) == sorted(u for u, _ in conf.units), 'one chain per unit')
        c.check(len(emissions) == conf.total(), f'{len(emissions)} densities for {conf.total()} states')
        for u, g in hmms.items():
            got = Chain.of(g.compile())
            want = concat(conf, [u])
            c.check(sorted(got.pdfs) == sorted(want.pdfs), f'densities of unit {u}: {got.pdfs} instead of {want.pdfs}')
            same_language(c, got, want, conf.total(), f'unit {u}', 4)
        # emissions
        ms = emissions.modelsets
        c.check(len(ms) == len(conf.groups), 'one set of densities per group')
        for (name, g), m in zip(conf.groups.items(), ms):
            n = sum(conf.nstates(u) for u in conf.order if conf.group_of[u] == name)
            K = g['n_normal_per_state']
            c.check(len(m) == n, f'group {name} has {len(m)} densities instead of {n}')
            w = m.categoricalset.weights
            for q in (w.prior, w.posterior):
                c.close(q.params.concentrations, np.full((n, K), g['prior_strength'] / K), 'weights of the mixtures', 1e-4, 1e-5)
            p = m.modelset.means_precisions
            c.check(oracle.cov_of(p) == g['cov_type'], f'covariance type {oracle.cov_of(p)}')
            c.check(len(p) == n * K, f'{len(p)} Normal densities instead of {n * K}')
            fam = gen.COV[g['cov_type']]
            prec = {'full': np.diag(1 / var), 'diagonal': 1 / var, 'isotropic': 1 / var.max()}[g['cov_type']]
            dev = []
            for i in range(n * K):
                p0, p1 = gen.params_of(fam, p.prior, i), gen.params_of(fam, p.posterior, i)
                m0, L0 = fam.mean(p0)
                m1, L1 = fam.mean(p1)
                c.close(m0, mean, 'prior mean', 1e-4, 1e-4 * (1 + np.abs(mean).max()))
                c.close(np.squeeze(L0), np.squeeze(prec), 'prior precision', 2e-3, 1e-4 * np.max(prec))
                c.close(L1, L0, 'posterior precision', 2e-3, 1e-4 * np.max(prec))
                c.close(p0['scale'], [g['prior_strength']], 'strength of the prior', 1e-4, 1e-4)
                c.close(p1['scale'], [g['prior_strength']], 'strength of the posterior', 1e-4, 1e-4)
                dev.append((m1 - mean) / np.sqrt(var))
            dev = np.array(dev)
            if g['noise_std'] == 0:
                c.close(dev, np.zeros_like(dev), 'posterior means', 0, 1e-3 * (1 + np.abs(mean / np.sqrt(var)).max()))
            else:
                c.check(np.abs(dev).max() < 7 * g['noise_std'] + 1e-3 * (1 + np.abs(mean / np.sqrt(var)).max()),
                        f'posterior means within the noise: {np.abs(dev).max()}')
                if n * K > 1:
                    c.check(len(np.unique(dev.round(9), axis=0)) == n * K, 'components start from different means')
        # list of phones
        from natsort import natsorted
        out = cli.beer(c, 'hmm', 'phonelist', conf.p('hmms')).out.split('\n')[:-1]
        c.check(sorted(out) == sorted(hmms) and [o.lower() for o in out] == natsorted([h.lower() for h in hmms]),
                f'list of phones {out}')


def aligned(c):
    with cli.scratch() as d:
        conf = Conf(c, d, minstates=1)
        conf.dim = 1
        hmms, _ = phones(c, conf)
        names = [u for u, _ in conf.units]
        trans = {f'utt{i}': [c.choice(names) for _ in range(c.choice([1, 2, c.int(1, 8)]))] for i in range(c.choice([c.int(1, 4), c.int(1, 4), c.int(5, 40)]))}
        prefixes = [(x, y) for x in names for y in names if x != y and y.startswith(x) and y[len(x):] in names]
        for k in range(min(len(prefixes), c.int(0, 3))):
            # different sequences with the same concatenation
            x, y = c.choice(prefixes)
            trans[f'pre{k}a'], trans[f'pre{k}b'] = [x, y[len(x):]], [y]
        for u in list(trans):
            # transcriptions that occur in other orders and more than once
            if c.flip(.2):
                trans[u + 'r'] = trans[u][::-1] if c.flip() else list(trans[u])
        order = [str(u) for u in c.rng.permutation(list(trans))]
        trans = {u: trans[u] for u in order}
        if c.flip(.3):
            u = c.choice(list(trans))
            trans[u] = [trans[u][0]] * c.int(2, 4)
        conf.note(trans=trans)
        os.mkdir(conf.p('ali'))
        empty = c.flip(.2)
        before = cli.fingerprint(conf.p('hmms'))
        cli.beer(c, 'hmm', 'mkaligraph', conf.p('hmms'), conf.p('ali'),
                 stdin=''.join(f'{u} {" ".join(t)}\n' for u, t in trans.items()) + ('nothing\n' if empty else ''))
        c.check(before == cli.fingerprint(conf.p('hmms')), 'the units are left unchanged')
        c.check(sorted(os.listdir(conf.p('ali'))) == sorted(u + '.npy' for u in trans), 'one graph per transcription')
        ns = max(2, 40 // len(trans))
        for u, t in trans.items():
            g = np.load(conf.p(f'ali/{u}.npy'), allow_pickle=True)
            c.check(len(g) == 1, 'one graph per file')
            same_language(c, Chain.of(g[0]), concat(conf, t), conf.total(), f'graph of {t}', min(10, ns))


def loop(c):
    with cli.scratch() as d:
        conf = Conf(c, d)
        data, mean, var = dataset(c, conf)
        hmms, emissions = phones(c, conf, data)
        prior = c.choice(['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process', 'dirichlet2', 'hierarchical_dirichlet_process', None])
        group = c.choice(conf.groups) if c.flip() else None
        conc = c.choice([None, None, 3., .7])
        conf.note(prior=prior, group=group, concentration=conc)
        cli.beer(c, 'hmm', 'mkphoneloopgraph', *(['-s', group] if group else []), conf.p('units'), conf.p('g1'))
        cli.beer(c, 'hmm', 'mkdecodegraph', conf.p('g1'), conf.p('hmms'), conf.p('g2'))
        keep = cli.fingerprint(conf.p('g2'), conf.p('hmms'))
        args = ['--weights-prior', prior] if prior else []
        args += ['-c', conc] if conc else []
        cli.beer(c, 'hmm', 'mkphoneloop', *args, conf.p('g2'), conf.p('hmms'), conf.p('0.mdl'))
        c.check(keep == cli.fingerprint(*keep), 'the inputs are left unchanged')
        m = cli.load(conf.p('0.mdl'))
        if prior in ('dirichlet', 'dirichlet_process', 'gamma_dirichlet_process') and c.flip(.3):
            # bigram loop from the unigram loop
            prior = c.choice(['dirichlet2'] + ['hierarchical_dirichlet_process'] * 2 * (prior != 'dirichlet'))
            cli.beer(c, 'hmm', 'mkphoneloopbigram',
                     *([] if prior == 'hierarchical_dirichlet_process' and c.flip() else ['--weights-prior', prior]), conf.p('0.mdl'), conf.p('b.mdl'))
            m = cli.load(conf.p('b.mdl'))
            conc = None
            c.note(bigram_from_unigram=prior)
            c.ev('bigram_from_unigram')
            rebuilt = True
        else:
            rebuilt = False
        check_loop(c, conf, m, emissions, prior, group, conc, rebuilt)


def check_loop(c, conf, m, emissions, prior, group, conc, rebuilt):
    N = len(conf.order)
    c.check(sorted(m.start_pdf) == sorted(conf.order) and list(m.start_pdf) == list(m.end_pdf), 'units of the maps')
    for u in conf.order:
        s, e = int(m.start_pdf[u]), int(m.end_pdf[u])
        c.check((s, e) == (conf.first(u), conf.first(u) + conf.nstates(u) - 1), f'first and last densities of {u}: {s} {e}')
    g = Chain.of(m.graph)
    c.check(len(g.pdfs) == conf.total(), f'{len(g.pdfs)} states')
    bigram = prior in ('dirichlet2', 'hierarchical_dirichlet_process')
    cat = m.categoricalset if bigram else m.categorical
    lw = oracle.log_weights(cat)
    units = list(m.start_pdf)
    if not bigram:
        lw = np.tile(lw, (N, 1))
    c.check(lw.shape == (N, N), 'one weight per unit')
    if prior == 'dirichlet':
        c.close(cat.weights.posterior.params.concentrations, np.full(N, (conc or N / 2) / N), 'concentrations', 1e-4, 1e-6)
    if prior == 'dirichlet2':
        c.close(cat.weights.posterior.params.concentrations, np.full((N, N), (1 if rebuilt else conc or N / 2) / N),
                'concentrations', 1e-4, 1e-6)
    w = arr(cat.mean)
    if prior in ('dirichlet', 'dirichlet2'):
        for grp in cat.mean_field_factorization():
            for p in grp:
                c.close(p.posterior.natural_parameters(), p.prior.natural_parameters(), 'weights are at their prior', 1e-5, 1e-6)
        c.close(w, np.full(w.shape, 1 / N), 'uniform weights', 1e-4, 1e-4)
    c.check((w >= 0).all() and (w.sum(-1) <= 1 + 1e-4).all(), f'weights {w}')
    init, final = np.zeros(conf.total()), np.zeros(conf.total())
    T = np.zeros((conf.total(),) * 2)
    ok = [u for u in units if group in (None, conf.group_of[u])]
    for i, u in enumerate(units):
        a, n = conf.first(u), conf.nstates(u)
        ent, ex, A = conf.chain(u)
        T[a:a + n, a:a + n] += A
        for j, v in enumerate(units):
            T[a + n - 1, conf.first(v)] += ex[-1] * np.exp(lw[i, j])
        if u in ok:
            init[a:a + n] = ent / len(ok)
            final[a:a + n] = ex
    order = np.argsort(g.pdfs)
    c.close(g.init[order], init, 'units the loop starts with', 1e-4, 1e-5)
    c.close(g.final[order] / g.final.sum(), final / final.sum(), 'units the loop ends with', 1e-4, 1e-5)
    c.close(g.trans[order][:, order], T, 'transitions of the loop', 1e-3, 1e-5)
    # emissions are those of the units
    for a, b in zip(emissions.mean_field_factorization(), m.modelset.mean_field_factorization()):
        for p, q in zip(a, b):
            c.check((arr(p.posterior.natural_parameters()) == arr(q.posterior.natural_parameters())).all(), 'densities of the units')
    # ready for inference
    k = c.int(1, 3)
    T_ = k * max(conf.nstates(u) for u in units) + c.int(0, 5)
    X = torch.tensor(c.rng.normal(size=(T_, conf.dim))).float()
    import beer
    elbo = beer.evidence_lower_bound(m, X, datasize=len(X))
    c.finite(float(elbo), 'objective of the new model')
    path = m.decode(X)
    c.check(len(path) == T_, 'the new model decodes')
    c.ev('loops')


CASES = [(units, 80, 1200), (aligned, 80, 1200), (loop, 100, 1500)]


def warm():
    import beer, yaml
    import beer.cli.subcommands
