'differential monitor over real command executions: distributed accumulate/update against in-process training on the same model, data, order and scale'
import os
import numpy as np
from ..core import torch, arr
from .. import ref, cli, zoo

RULE = '''Random projects (units, topologies, covariance types, weight priors, utterances) trained by the accumulate
and update commands over random partitions and orders of the utterances (missing utterances, alignments for some of
them, acoustic scales, learning rates, several iterations) and by the train command.'''
ASSUMPTIONS = ['single-precision features: orders of summation agree up to rounding',
               'commands run in forked children (about 1 in 100 in a new interpreter)']
CHUNK = 1


def _reference(c, model, ds, utts, alis, scale, lrate, group):
    'One in-process update with plain calls of the library.'
    import beer
    groups = model.conjugate_bayesian_parameters(keepgroups=True)
    optim = beer.VBConjugateOptimizer(groups, lrate=lrate)
    optim.load_state_dict({'lrate': lrate, 'update_count': group})
    optim.init_step()
    elbo = beer.evidence_lower_bound(datasize=ds.size)
    for u in utts:
        kw = {}
        if alis is not None and u in alis:
            kw['inference_graph'] = alis[u][0]
        elbo = elbo + beer.evidence_lower_bound(model, ds[u].features, datasize=ds.size, scale=scale, **kw)
    elbo.backward()
    optim.step()
    return float(elbo)


def distributed(c):
    with cli.scratch() as d:
        pr = cli.Project(c, d, many=.06)
        mdl = pr.build()
        ds = cli.load(pr.p('data.pkl'))
        utts = list(pr.feats)
        alis = None
        if c.flip(.4):
            path = pr.alignments([u for u in utts if c.flip(.8)])
            alis = np.load(path, allow_pickle=True) if path else None
        scale = float(c.choice([1., 1., .2, 2.]))
        lrate = float(c.choice([1., 1., .5]))
        state = c.flip(.5)
        ref_model = cli.load(mdl)
        niter = c.int(1, 3)
        cur = mdl
        seen = []
        for it in range(niter):
            part = utts if c.flip(.7) or len(utts) < 3 else [u for u in utts if c.flip(.7)] or utts[:1]
            order = [str(u) for u in c.rng.permutation(part)]
            k = c.int(1, min(4, len(order) + 1))
            cuts = sorted(int(i) for i in c.rng.integers(0, len(order) + 1, k - 1))
            parts = [order[a:b] for a, b in zip([0] + cuts, cuts + [len(order)])]
            seen.append([len(p) for p in parts])
            before = cli.fingerprint(cur, pr.p('data.pkl'), pr.p('feats.npz'), *([pr.p('alis.npz')] if alis else []))
            files = []
            # one directory, or one per job
            perjob = c.flip(.25)
            for j, p in enumerate(parts):
                lines = []
                for u in p:
                    if c.flip(.2):
                        lines.append(f'missing{c.int(0, 9)}')
                    lines.append(u if c.flip(.8) else f'{u} some other tokens')
                if c.flip(.3):
                    lines.append('nothere extra')
                out = pr.p(f'elbo{it}_{j}.pkl')
                if perjob:
                    os.makedirs(pr.p(f'epoch{it}/job{j}'))
                    out = pr.p(f'epoch{it}/job{j}/elbo.pkl')
                cli.beer(c, 'hmm', 'accumulate', *(['-a', pr.p('alis.npz')] if alis else []),
                         *(['-s', scale] if scale != 1 or c.flip() else []), cur, pr.p('data.pkl'), out,
                         stdin=''.join(l + '\n' for l in lines))
                e, n = cli.load(out)
                c.check(n == len(p), f'{n} utterances accumulated instead of {len(p)}')
                files.append(out)
            c.check(cli.fingerprint(*before) == before, 'accumulate modified its inputs')
            files = [files[int(i)] for i in c.rng.permutation(len(files))]
            inter = cli.fingerprint(cur, *files)
            nxt = pr.p(f'{it + 1}.mdl')
            cli.beer(c, 'hmm', 'update', *(['-l', lrate] if lrate != 1 else []),
                     *(['-o', pr.p('optim.pth')] if state else []), cur, nxt, stdin=''.join(f + '\n' for f in files))
            c.check(cli.fingerprint(*inter) == inter, 'update modified its inputs')
            group = it if state else 0
            _reference(c, ref_model, ds, sorted(part), alis, scale, lrate, group)
            got = cli.load(nxt)
            cli.same_model(c, got, ref_model, f'update {it + 1} (parts {seen})', 1e-3, scale=10.)
            # continue from the same point: rounding must not accumulate
            ref_model = cli.load(nxt)
            cur = nxt
        c.note(prior=pr.prior, units=pr.units, cov=[g['cov_type'] for g in pr.conf], parts=seen, scale=scale, lrate=lrate,
               alis=bool(alis), state=state, utts=len(pr.feats), frames=sorted(len(x) for x in pr.feats.values())[:8])
        c.ev('updates', niter)


def split_invariance(c):
    'Two different splits of the same utterances give the same model.'
    with cli.scratch() as d:
        pr = cli.Project(c, d, many=.06)
        mdl = pr.build()
        utts = list(pr.feats)
        outs = []
        splits = []
        for s in range(2):
            order = [str(u) for u in c.rng.permutation(utts)]
            k = 1 if s == 0 else c.int(2, max(2, len(order)))
            parts = [order[i::k] for i in range(k)]
            splits.append([len(p) for p in parts])
            files = []
            for j, p in enumerate(parts):
                f = pr.p(f'e{s}_{j}.pkl')
                cli.beer(c, 'hmm', 'accumulate', mdl, pr.p('data.pkl'), f, stdin=''.join(u + '\n' for u in p))
                files.append(f)
            out = pr.p(f'out{s}.mdl')
            cli.beer(c, 'hmm', 'update', mdl, out, stdin=''.join(f + '\n' for f in files))
            outs.append(cli.load(out))
        cli.same_model(c, outs[0], outs[1], f'splits {splits}', 1e-3, scale=10.)
        c.note(prior=pr.prior, splits=splits, utts=len(pr.feats), frames=sorted(len(x) for x in pr.feats.values())[:8])


def train_command(c):
    'The train command equals accumulate + update, and (batches, epochs) in-process training.'
    import beer, random
    with cli.scratch() as d:
        pr = cli.Project(c, d, many=.06)
        mdl = pr.build()
        ds = cli.load(pr.p('data.pkl'))
        utts = list(pr.feats)
        epochs = c.size(1, 3, 12, .15)
        batch = c.choice([-1, -1, 1, 2, len(utts)])
        lrate = float(c.choice([1., .5]))
        seed = c.int(0, 999)
        opts = []
        for flag, value, default in (('-e', epochs, 1), ('-b', batch, -1), ('-l', lrate, 1.)):
            if value != default or c.flip():
                opts += [flag, value]
        before = cli.fingerprint(mdl, pr.p('data.pkl'), pr.p('feats.npz'))
        cli.beer(c, '-s', seed, 'hmm', 'train', *opts, mdl, pr.p('data.pkl'), pr.p('t.mdl'))
        c.check(cli.fingerprint(*before) == before, 'train modified its inputs')
        got = cli.load(pr.p('t.mdl'))
        c.note(prior=pr.prior, epochs=epochs, batch=batch, lrate=lrate, utts=len(pr.feats), frames=sorted(len(x) for x in pr.feats.values())[:8])
        if batch in (-1, len(utts)) and epochs == 1:
            cli.beer(c, 'hmm', 'accumulate', mdl, pr.p('data.pkl'), pr.p('e.pkl'), stdin='\n'.join(utts) + '\n')
            cli.beer(c, 'hmm', 'update', '-l', lrate, mdl, pr.p('u.mdl'), stdin=pr.p('e.pkl') + '\n')
            cli.same_model(c, got, cli.load(pr.p('u.mdl')), 'train against accumulate/update', 1e-3, scale=10.)
            c.ev('against_update')
        # in-process, with the order the seed gives
        model = cli.load(mdl)
        torch.manual_seed(seed); np.random.seed(seed); random.seed(seed)
        optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), lrate=lrate)
        B = batch if batch > 0 else len(utts)
        for _ in range(epochs):
            todo = [u for u in ds.utterances()]
            for i in range(0, len(todo), B):
                optim.init_step()
                elbo = beer.evidence_lower_bound(datasize=ds.size)
                for u in todo[i:i + B]:
                    elbo = elbo + beer.evidence_lower_bound(model, u.features, datasize=ds.size)
                elbo.backward()
                optim.step()
        cli.same_model(c, got, model, f'train: {epochs} epochs of batches of {batch}', 2e-3, scale=10.)


def any_model(c):
    'Sequence models made in Python, utterances from one frame to long recordings.'
    import pickle
    with cli.scratch() as d:
        p = lambda n: os.path.join(d, n)
        z = zoo.draw(c, torch.float32, kinds=['hmm', 'hmm', 'hmm', 'phoneloop', 'bigram'])
        feats = {}
        for i in range(c.int(1, 6)):
            T = c.choice([z.minlen, z.minlen, z.minlen + 1, c.int(z.minlen, z.minlen + 9), c.size(20, 60, 900)])
            feats[f'u{c.int(0, 99)}-{i}'] = arr(z.data(c, T)).astype(np.float32)
        np.savez(p('feats.npz'), **feats)
        os.mkdir(p('data'))
        cli.beer(c, 'dataset', 'create', p('data'), p('feats.npz'), p('data.pkl'))
        ds = cli.load(p('data.pkl'))
        cli.dump(z.model, p('0.mdl'))
        utts = [str(u) for u in c.rng.permutation(list(feats))]
        k = c.int(1, len(utts))
        scale = float(c.choice([1., .3]))
        c.note(kind=z.kind, frames=[len(feats[u]) for u in utts], parts=k, scale=scale)
        files = []
        for j in range(k):
            part = utts[j::k]
            cli.beer(c, 'hmm', 'accumulate', '-s', scale, p('0.mdl'), p('data.pkl'), p(f'e{j}.pkl'), stdin=''.join(u + '\n' for u in part))
            c.check(cli.load(p(f'e{j}.pkl'))[1] == len(part), f'{cli.load(p(f"e{j}.pkl"))[1]} utterances accumulated instead of {len(part)}')
            files.append(p(f'e{j}.pkl'))
        ref_model = cli.load(p('0.mdl'))
        cli.beer(c, 'hmm', 'update', p('0.mdl'), p('1.mdl'), stdin=''.join(f + '\n' for f in files))
        _reference(c, ref_model, ds, utts, None, scale, 1., 0)
        cli.same_model(c, cli.load(p('1.mdl')), ref_model, f'{z.kind}: update', 1e-3, scale=10.)
        c.ev('single_frames', sum(len(x) == 1 for x in feats.values()))


CASES = [(any_model, 40, 500), (distributed, 60, 900), (split_invariance, 25, 300), (train_command, 35, 500)]


def warm():
    import beer, yaml
    import beer.cli.subcommands
