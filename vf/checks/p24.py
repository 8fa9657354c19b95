'runtime oracle: transcriptions printed and posteriors stored by the commands decided by constrained dynamic programming and forward-backward in double precision on the saved model'
import os
import numpy as np
from ..core import torch, arr
from .. import ref, cli, oracle, seqgen

RULE = '''Random projects (units, groups, topologies with skips, covariance types, unigram and bigram loops with every
weight prior, start/end groups) whose models are trained for 0-3 steps, random data sets, acoustic scales, utterance
lists (files, standard input, absent and repeated names), alignments for a part of the utterances.'''
ASSUMPTIONS = ['units have at least two states', 'single precision: a path is best if its score is within rounding of the maximum']
CHUNK = 1
PRIORS = ['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process', 'dirichlet2', 'hierarchical_dirichlet_process']


def project(c, d):
    pr = cli.Project(c, d, many=.04)
    opts = ()
    if c.flip(.3):
        opts = ('-s', c.choice(pr.units)[1])
    mdl = pr.build(c.choice(PRIORS), opts)
    if opts and len(set(g for _, g in pr.units)) > 1 and len([1 for _, g in pr.units if g == opts[1]]) < 1:
        raise AssertionError
    if c.flip(.75):
        import beer
        model, ds = cli.load(mdl), cli.load(pr.p('data.pkl'))
        optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=1.)
        steps = c.int(1, 3)
        for _ in range(steps):
            optim.init_step()
            elbo = beer.evidence_lower_bound(datasize=ds.size)
            for u in ds.utterances(random_order=False):
                elbo = elbo + beer.evidence_lower_bound(model, u.features, datasize=ds.size)
            elbo.backward()
            optim.step()
        cli.dump(model, mdl)
    c.note(prior=pr.prior, units=len(pr.units), utterances=len(pr.feats), start_end=opts,
           cov=pr.conf[0]['cov_type'], groups=len(pr.conf))
    return pr, mdl


def scores(model, x, graph, scale):
    S = oracle.scores(model.modelset, x.astype(np.float64))
    return scale * S[:, [int(i) for i in graph.pdf_id_mapping]]


def best(g, llhs, pdfs, starts, labels=None, frames=None):
    '''Score of the best path, of those spelling ``labels`` (units entered) or ``frames`` (unit of every frame).
    ``starts``: first density -> unit.'''
    T, S = llhs.shape
    unit = [starts.get(p) for p in pdfs]
    if frames is not None:
        own = owner(pdfs, starts)
        llhs = np.where(np.array([[own[s] == frames[t] for s in range(S)] for t in range(T)]), llhs, -np.inf)
        labels = None
    if labels is None:
        return seqgen.viterbi_score(g, llhs)
    n = len(labels)
    D = np.full((n, S), -np.inf)
    for s in range(S):
        if unit[s] == labels[0]:
            D[0, s] = g.init[s] + llhs[0, s]
    enters = np.array([[unit[b] is not None and pdfs[a] != pdfs[b] for b in range(S)] for a in range(S)])
    stay = np.where(enters, -np.inf, g.trans)
    move = np.where(enters, g.trans, -np.inf)
    for t in range(1, T):
        E = (D[:, :, None] + stay[None]).max(1)
        M = (D[:-1, :, None] + move[None]).max(1)
        for i in range(1, n):
            ok = np.array([u == labels[i] for u in unit])
            E[i] = np.maximum(E[i], np.where(ok, M[i - 1], -np.inf))
        D = E + llhs[t][None]
    return (D[-1] + g.final).max()


def owner(pdfs, starts):
    'Unit of every state: densities are consecutive within a unit.'
    out = []
    s = sorted(starts)
    for p in pdfs:
        out.append(starts[max(q for q in s if q <= p)])
    return out


def utt_list(c, pr, ids):
    'Utterance list options; returns arguments, standard input and expected order.'
    how = c.choice(['all', 'file', 'stdin', 'all'])
    if how == 'all':
        return [], '', sorted(ids)
    pick = [u for u in ids if c.flip(.7)]
    lines = list(pick)
    if c.flip(.5):
        lines.append('absent')
    if pick and c.flip(.2):
        lines.append(pick[0])
    c.rng.shuffle(lines)
    lines = [str(l) for l in lines]
    want = [l for l in lines if l != 'absent']
    txt = ''.join(l + c.choice(['\n', ' some words\n']) for l in lines)
    if not lines:
        return [], '', sorted(ids)
    if how == 'stdin':
        return ['-u', '-'], txt, want
    with open(pr.p('uttlist'), 'w') as f:
        f.write(txt)
    return ['-u', pr.p('uttlist')], '', want


def decode(c):
    with cli.scratch() as d:
        pr, mdl = project(c, d)
        model = cli.load(mdl)
        ids = list(pr.feats)
        starts = {int(v): k for k, v in model.start_pdf.items()}
        c.check(sorted(starts.values()) == sorted(u for u, _ in pr.units), 'units of the model')
        alis = None
        path = pr.alignments([u for u in ids if c.flip(.6)]) if c.flip(.4) else None
        if path:
            alis = np.load(path, allow_pickle=True)
        for _ in range(3):
            scale = float(c.choice([1., 1., .1, 3., .5]))
            args = ['-s', scale] if scale != 1 else []
            perframe = c.flip()
            if perframe:
                args.append('--per-frame')
            use = bool(path) and c.flip(.8)
            if use:
                args += ['-a', path]
            uargs, stdin, want = utt_list(c, pr, ids)
            keep = cli.fingerprint(mdl, pr.p('data.pkl'), pr.p('feats.npz'))
            r = cli.beer(c, 'hmm', 'decode', *args, *uargs, mdl, pr.p('data.pkl'), stdin=stdin)
            c.check(cli.fingerprint(*keep) == keep, 'decoding changes no file')
            got = [l.split() for l in r.out.split('\n') if l]
            c.check([g[0] for g in got] == want, f'utterances printed {[g[0] for g in got]}, expected {want}')
            for g in got:
                u, labels = g[0], g[1:]
                x = pr.feats[u]
                ali = use and u in alis
                graph = alis[u][0] if ali else model.graph
                pdfs = [int(i) for i in graph.pdf_id_mapping]
                G = seqgen.lp(graph)
                L = scores(model, x, graph, scale)
                top = best(G, L, pdfs, starts)
                c.check(np.isfinite(top), 'some path exists')
                if perframe:
                    c.check(len(labels) == len(x), f'{len(labels)} labels for {len(x)} frames')
                    sc = best(G, L, pdfs, starts, frames=labels)
                else:
                    c.check(len(labels) >= 1, 'at least one unit')
                    sc = best(G, L, pdfs, starts, labels=labels)
                tol = 2e-4 * (1 + np.abs(L).max()) * len(x) ** .5
                c.check(sc >= top - tol, f'{u}: "{" ".join(labels)}" has score {sc}, the best path {top}')
                if ali and not perframe:
                    c.check(labels == pr.trans[u], f'{u}: aligned to {pr.trans[u]} but printed {labels}')
                c.ev('transcriptions')
                c.ev('labels', len(labels))
                c.ev('aligned', bool(ali))


def posteriors(c):
    with cli.scratch() as d:
        pr, mdl = project(c, d)
        model = cli.load(mdl)
        ids = list(pr.feats)
        units = list(model.start_pdf)
        starts = {int(v): k for k, v in model.start_pdf.items()}
        G = seqgen.lp(model.graph)
        pdfs = [int(i) for i in model.graph.pdf_id_mapping]
        own = owner(pdfs, starts)
        for i in range(3):
            out = pr.p(f'out{i}')
            os.mkdir(out)
            scale = float(c.choice([1., 1., .1, 3., .5]))
            args = ['-s', scale] if scale != 1 else []
            state, log = c.flip(), c.flip()
            args += ['-S'] * state + ['-l'] * log
            uargs, stdin, want = utt_list(c, pr, ids)
            keep = cli.fingerprint(mdl, pr.p('data.pkl'), pr.p('feats.npz'))
            cli.beer(c, 'hmm', 'posteriors', *args, *uargs, mdl, pr.p('data.pkl'), out, stdin=stdin)
            c.check(cli.fingerprint(*keep) == keep, 'computing posteriors changes no file')
            c.check(sorted(os.listdir(out)) == sorted({w + '.npy' for w in want}), f'files {sorted(os.listdir(out))}')
            for u in set(want):
                x = pr.feats[u]
                got = np.load(os.path.join(out, u + '.npy'))
                sc = scores(model, x, model.graph, scale)
                P, _, _ = seqgen.posteriors(G, sc)
                # single precision, relative to the score of a whole path
                tol = min(2e-3, 5e-7 * np.abs(np.where(np.isfinite(sc), sc, 0)).max(1).sum() + 3e-6)
                if not state:
                    P = np.stack([P[:, [o == n for o in own]].sum(1) for n in units], 1)
                c.check(got.shape == P.shape, f'shape {got.shape} instead of {P.shape}')
                lin = np.exp(got) - 1e-5 if log else got
                if log:
                    c.check(got.max() <= 1e-4 + 2 * tol, f'log-probabilities {got.max()} {tol}')
                c.close(lin, P, f'posteriors of {u}', tol, tol)
                if log:
                    c.close(got, np.log(1e-5 + P), f'log-posteriors of {u}', 0, 1e-5 + 2 * tol / (1e-5 + P))
                c.close(lin.sum(1), np.ones(len(x)), 'rows sum to one', 0, 1e-3)
                c.ev('frames', len(x))


CASES = [(decode, 70, 1200), (posteriors, 50, 800)]


def warm():
    import beer, yaml
    import beer.cli.subcommands
