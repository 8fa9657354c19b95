'differential and conservation monitor: files written by the subspace phone-loop commands, run in other processes, against the frozen parts of their input and against densities and parameters recomputed in process from the saved subspace model under the same seed'
import copy, os
from scipy import stats
import numpy as np
from ..core import torch, arr
from .. import ref, gen, zoo, gsmzoo, cli

RULE = '''Phone loops built by the commands (one or two groups, all covariance types, one to three components per state,
all weight priors), turned into (hierarchical) subspace phone loops with random latent dimensions, broad classes and
initial posteriors, with randomised subspaces, trained with every combination of the freezing flags, several epochs and
sample counts; several languages with different numbers of units.'''
ASSUMPTIONS = ['the random draws of a command follow its seed option',
               'training writes the densities of the last objective it evaluated (drawn before the last step)',
               'setprior is used with models without broad classes',
               'the hierarchical commands model the largest group of units of each language (see known-findings.txt)']


def units_of(ploop, group, nunits, nstates):
    ems = ploop.modelset.original_modelset.modelsets[group]
    return [ems[i * nstates:(i + 1) * nstates] for i in range(nunits)]


def natural(param):
    if hasattr(param.posterior, 'natural_parameters'):
        return arr(param.posterior.natural_parameters())
    return arr(param.natural_form().detach())


def others(ploop, group):
    'Everything of a phone loop but the densities of a group.'
    out = {}
    g = ploop.graph
    out['trans'], out['init'], out['final'] = arr(g.trans_log_probs), arr(g.init_log_probs), arr(g.final_log_probs)
    out['pdfs'] = np.array(g.pdf_id_mapping)
    out['start'] = np.array(sorted((str(k), str(int(v))) for k, v in ploop.start_pdf.items()))
    out['end'] = np.array(sorted((str(k), str(int(v))) for k, v in ploop.end_pdf.items()))
    sets = ploop.modelset.original_modelset.modelsets
    for i, ms in enumerate(sets):
        out[f'size of group {i}'] = np.array([len(ms)])
        if i != group:
            for j, p in enumerate(ms.bayesian_parameters()):
                out[f'group {i} posterior {j}'] = natural(p)
                if hasattr(p.prior, 'natural_parameters'):
                    out[f'group {i} prior {j}'] = arr(p.prior.natural_parameters().detach())
    cat = ploop.categorical if hasattr(ploop, 'categorical') else ploop.categoricalset
    for j, p in enumerate(q for gr in cat.mean_field_factorization() for q in gr):
        out[f'weights posterior {j}'] = natural(p)
        out[f'weights prior {j}'] = arr(p.prior.natural_parameters())
    return {k: v.copy() for k, v in out.items()}


def same(c, a, b, msg):
    c.check(set(a) == set(b), f'{msg}: {sorted(set(a) ^ set(b))}')
    for k in a:
        if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k]):
            c.fail(f'{msg}: {k} changed')
        c.ev('assertions')


def densities(units):
    return [arr(p.natural_form().detach()).reshape(-1) for u in units for p in u.bayesian_parameters()]


def close_densities(c, got, want, msg):
    c.check(len(got) == len(want), f'{msg}: {len(got)} tables instead of {len(want)}')
    for i, (x, y) in enumerate(zip(got, want)):
        c.close(x, y, f'{msg}: densities {i}', 1e-4, 1e-4 * (1 + np.abs(y).max()))


def proper(c, units, cov, dim, msg, x=None, one=True):
    'Weights sum to one (at most, for log-weights averaged over several samples), variances are positive, scores are finite.'
    for i, u in enumerate(units):
        w = np.exp(arr(u.categoricalset.expected_log_likelihood(
            u.categoricalset.sufficient_statistics(torch.eye(len(u.modelset) // len(u)))).detach()))
        w = w.reshape(-1, len(u))
        tot = w.sum(0)
        c.check((tot > 0).all() and (tot < 1 + 1e-4).all(), f'{msg}: weights of unit {i} sum to {tot}')
        if one:
            c.close(tot, np.ones(len(u)), f'{msg}: weights of unit {i}', 1e-4, 1e-4)
        mean, prec = (arr(v.detach()).astype(float) for v in u.modelset.means_precisions.value())
        if cov == 'full':
            ev = np.linalg.eigvalsh((prec + np.swapaxes(prec, 1, 2)) / 2)
            c.check((ev > -1e-6 * np.abs(ev).max()).all(), f'{msg}: precision of unit {i} not positive definite {ev}')
        else:
            c.check((prec > 0).all(), f'{msg}: precision of unit {i} not positive')
        c.check(np.isfinite(mean).all() and np.isfinite(prec).all(), f'{msg}: densities of unit {i} are not finite')
        if x is not None:
            s = arr(u.expected_log_likelihood(u.sufficient_statistics(x)).detach())
            c.check(np.isfinite(s).all(), f'{msg}: scores of unit {i}')
        c.ev('units')


def randomize(c, gsm, posts):
    gsmzoo.randomize(c, gsm, .3)
    gsmzoo.randomize_posts(c, posts, .6)


def copy_units(units):
    return [copy.deepcopy(u) for u in units]


def implied(gsm, posts, units, seed, **kw):
    'Densities of the units implied by a subspace model under a seed.'
    torch.manual_seed(seed)
    mine = copy_units(units)
    gsm.update_models(mine, gsm.expected_pdfvecs(posts, **kw))
    return densities(mine)


def flat_posts(posts):
    return [arr(p.detach()).copy() for p in posts.parameters()]


def project(c, d, train=True, **kw):
    pr = cli.Project(c, d, n_utts=c.int(1, 3), **kw)
    mdl = pr.build()
    if train and c.flip(.7):
        cli.beer(c, 'hmm', 'train', mdl, pr.p('data.pkl'), pr.p('1.mdl'))
        mdl = pr.p('1.mdl')
    return pr, mdl


def order_of(ploop, pr, group):
    'The units of a group in the order of their densities, from the entry map of the phone loop.'
    names = [u for u, g in pr.units if g == group]
    return sorted(names, key=lambda u: int(ploop.start_pdf[u]))


def build(c):
    'mksphoneloop and init.'
    with cli.scratch() as d:
        pr, mdl = project(c, d)
        P = pr.p
        gi = c.int(0, len(pr.conf) - 1)
        g = pr.conf[gi]
        before = cli.load(mdl)
        names = order_of(before, pr, g['group_name'])
        L = c.size(1, 3, 8, .1)
        args, labels = [], None
        inputs = [mdl, P('hmm.yml')]
        if c.flip(.4):
            # classes of all units of all groups, in any order; broad classes are sorted by name
            cl = {u: c.choice(['vow', 'con', 'A']) for u, _ in pr.units}
            rows = list(cl.items())
            c.rng.shuffle(rows)
            if c.flip(.3):
                rows = [r for r in rows if r[0] in names]
            with open(P('classes'), 'w') as f:
                f.writelines(f'{u} {k}\n' for u, k in rows)
            order = sorted({k for _, k in rows})
            labels = [order.index(cl[u]) for u in names]
            D = c.size(1, 2, 4, .1)
            args += ['-c', P('classes'), '-d', D]
            inputs.append(P('classes'))
        init = None
        if c.flip(.3):
            import beer
            n0 = c.int(1, len(names) + 2)
            init = beer.dists.NormalDiagonalCovariance.from_std_parameters(
                ref.t(c.rng.normal(size=(n0, L)), torch.float32), ref.t(c.logu(.1, 2, (n0, L)), torch.float32))
            # in the form of the latent posteriors of a subspace model
            other = zoo_posts(n0, L)
            gsmzoo.randomize_posts(c, other, 1.)
            cli.dump((other, n0, 1, 0), P('init_posts'))
            init = other
            args += ['-p', P('init_posts')]
            inputs.append(P('init_posts'))
        fp = cli.fingerprint(*inputs)
        c.note(units=len(pr.units), modelled=len(names), group=gi, groups=len(pr.conf), cov=g['cov_type'],
               comps=g['n_normal_per_state'], latent=L, labels=labels, init=init is not None, prior=pr.prior)
        cli.beer(c, '-s', c.int(0, 999), 'shmm', 'mksphoneloop', '-g', g['group_name'], '-l', L, *args, P('hmm.yml'), mdl,
                 P('gsm0'), P('posts0'), P('s0'))
        c.check(cli.fingerprint(*inputs) == fp, 'mksphoneloop modified its input files')
        gsm, posts, sploop = cli.load(P('gsm0')), cli.load(P('posts0')), cli.load(P('s0'))
        lat, nunits, nstates, group = posts[:4]
        c.check(nunits == len(names) and nstates == pr.states_of(names[0]) and group == gi,
                f'{nunits} units of {nstates} states of group {group}, expected {len(names)} of {pr.states_of(names[0])} of {gi}')
        c.check(tuple(lat.params.mean.shape) == (nunits, L), f'latent posteriors {tuple(lat.params.mean.shape)}')
        c.check((len(posts) == 5) == (labels is not None), 'classes saved with the posteriors')
        if labels is not None:
            c.check(arr(posts[4]).tolist() == labels, f'classes of the units {arr(posts[4]).tolist()}, expected {labels}')
        if init is not None:
            k = min(len(init), nunits)
            c.close(lat.params.mean.detach()[:k], init.params.mean.detach()[:k], 'means of the given posteriors', 1e-6, 1e-6)
            c.close(lat.params.diag_cov.detach()[:k], init.params.diag_cov.detach()[:k], 'variances of the given posteriors',
                    1e-5, 1e-6)
        same(c, others(before, gi), others(sploop, gi), 'mksphoneloop')
        units = units_of(sploop, gi, nunits, nstates)
        x = torch.tensor(next(iter(pr.feats.values())))
        proper(c, units, g['cov_type'], pr.dim, 'mksphoneloop', x)
        # init, from a subspace with arbitrary parameters
        model = gsm.modelset if labels is not None else gsm
        randomize(c, model, lat)
        cli.dump(gsm, P('gsm1'))
        cli.dump(posts, P('posts1'))
        seed = c.int(0, 10 ** 6)
        want = implied(model, lat, units, seed)
        fp = cli.fingerprint(P('gsm1'), P('posts1'), P('s0'))
        out = P('s0') if c.flip(.2) else P('s1')
        cli.beer(c, '-s', seed, 'shmm', 'init', P('gsm1'), P('posts1'), P('s0'), out)
        if out == P('s1'):
            c.check(cli.fingerprint(P('gsm1'), P('posts1'), P('s0')) == fp, 'init modified its input files')
        s1 = cli.load(out)
        u1 = units_of(s1, gi, nunits, nstates)
        close_densities(c, densities(u1), want, 'init')
        same(c, others(before, gi), others(s1, gi), 'init')
        for a, b in zip(units, u1):
            for p, q in zip(a.bayesian_parameters(), b.bayesian_parameters()):
                c.check(torch.equal(p.stats, q.stats), 'init changed statistics of the units')
        usable(c, pr, s1)


def usable(c, pr, ploop):
    'The phone loop still scores and decodes.'
    x = torch.tensor(next(iter(pr.feats.values())))
    path = ploop.decode(x)
    c.check(len(path) == len(x), 'decoded path')
    import beer
    with torch.no_grad():
        e = float(beer.evidence_lower_bound(ploop, x))
    c.check(np.isfinite(e), f'objective of the phone loop {e}')


def zoo_posts(n, L, dtype=torch.float32):
    import beer
    from beer.models.gsm import AffineTransform
    g = type('G', (), {'transform': AffineTransform.create(L, 2).to(dtype)})
    return beer.GSM.new_latent_posteriors(g, n)


def train(c):
    'shmm train with and without broad classes and frozen subspace, one to several epochs.'
    import beer
    with cli.scratch() as d:
        pr, mdl = project(c, d)
        P = pr.p
        gi = c.int(0, len(pr.conf) - 1)
        g = pr.conf[gi]
        args = []
        labelled = c.flip(.3)
        if labelled:
            with open(P('classes'), 'w') as f:
                f.writelines(f'{u} {c.choice(["v", "k"])}\n' for u, _ in pr.units)
            args = ['-c', P('classes'), '-d', c.int(1, 2)]
        cli.beer(c, '-s', c.int(0, 999), 'shmm', 'mksphoneloop', '-g', g['group_name'], '-l', c.size(1, 3, 8, .1), *args,
                 P('hmm.yml'), mdl, P('gsm0'), P('posts0'), P('s0'))
        if c.flip(.7):
            # new statistics, as between the epochs of the recipes
            cli.beer(c, 'hmm', 'accumulate', P('s0'), P('data.pkl'), P('acc'), stdin=''.join(f'{u}\n' for u in pr.feats))
            old = cli.load(P('s0'))
            cli.beer(c, 'hmm', 'update', P('s0'), P('s0u'), stdin=P('acc') + '\n')
            new = cli.load(P('s0u'))
            a, b = others(old, gi), others(new, gi)
            for k in ('init', 'pdfs', 'start', 'end'):
                c.check(np.array_equal(a[k], b[k]), f'update changed {k}')
            data = cli.load(P('data.pkl'))
            # the statistics the subspace is trained on
            with torch.no_grad():
                e = beer.evidence_lower_bound(datasize=data.size)
                for u in sorted(pr.feats):
                    e = e + beer.evidence_lower_bound(old, data[u].features, datasize=data.size, scale=1.)
                e.backward()
            for j, (p, q) in enumerate(zip(old.modelset.original_modelset.modelsets[gi].bayesian_parameters(),
                                           new.modelset.original_modelset.modelsets[gi].bayesian_parameters())):
                c.close(q.stats, p.stats, f'statistics {j} given to the subspace', 1e-3,
                        1e-3 * (1 + np.abs(arr(p.stats)).max()))
            start = P('s0u')
        else:
            start = P('s0')
        gsm, posts, sploop = cli.load(P('gsm0')), cli.load(P('posts0')), cli.load(start)
        lat, nunits, nstates, group = posts[:4]
        randomize(c, gsm.modelset if labelled else gsm, lat)
        cli.dump(gsm, P('gsm0'))
        cli.dump(posts, P('posts0'))
        freeze = c.flip(.4)
        epochs, k, nl = c.size(1, 3, 12, .15), c.size(1, 3, 20), c.size(1, 3, 20)
        lrs, lrc = float(c.choice([1e-1, 1e-2, 0.])), float(c.choice([1., .5]))
        seed = c.int(0, 10 ** 6)
        c.note(units=nunits, states=nstates, epochs=epochs, freeze=freeze, labelled=labelled, samples=[nl, k],
               cov=g['cov_type'], comps=g['n_normal_per_state'], lrates=[lrs, lrc], updated=start.endswith('u'))
        ins = (P('gsm0'), P('posts0'), start)
        fp = cli.fingerprint(*ins)
        before = others(sploop, gi)
        gsm_before = state_of(gsm)
        cli.beer(c, '-s', seed, 'shmm', 'train', *(['-p'] if freeze else []), '-e', epochs, '-k', k, '-n', nl, '-s', lrs, '-c',
                 lrc, *(['-o', P('opt')] if c.flip(.3) else []), *ins, P('gsm1'), P('posts1'), P('s1'))
        c.check(cli.fingerprint(*ins) == fp, 'train modified its input files')
        g1, p1, s1 = cli.load(P('gsm1')), cli.load(P('posts1')), cli.load(P('s1'))
        # the same in process
        units = units_of(sploop, gi, nunits, nstates)
        cjg = beer.VBConjugateOptimizer([[]] if freeze else gsm.conjugate_bayesian_parameters(keepgroups=True), lrate=lrc)
        ps = list(lat.parameters()) + ([] if freeze else list(gsm.parameters()))
        optim = beer.VBOptimizer(cjg, torch.optim.Adam(ps, lr=lrs))
        torch.manual_seed(seed)
        kw = dict(latent_posts=lat, latent_nsamples=nl, params_nsamples=k)
        if labelled:
            kw['labels'] = posts[4]
        for _ in range(epochs):
            optim.init_step()
            beer.evidence_lower_bound(gsm, units, **kw).backward()
            optim.step()
            c.ev('epochs')
        close_lists(c, state_of(g1), state_of(gsm), 'subspace model')
        close_lists(c, flat_posts(p1[0]), flat_posts(lat), 'latent posteriors')
        u1 = units_of(s1, gi, nunits, nstates)
        close_densities(c, densities(u1), densities(units), 'train')
        c.check(list(p1[1:4]) == [nunits, nstates, gi] and len(p1) == len(posts), 'description of the units')
        if labelled:
            c.check(torch.equal(p1[4], posts[4]), 'classes of the units')
        same(c, before, others(s1, gi), 'train')
        if freeze:
            after = state_of(g1)
            c.check(len(after) == len(gsm_before) and all(np.array_equal(x, y) for x, y in zip(after, gsm_before)),
                    'the subspace model changed though only the posteriors are trained')
        proper(c, u1, g['cov_type'], pr.dim, 'train', one=nl * k == 1)
        usable(c, pr, s1)


def state_of(gsm):
    out = [arr(p.detach()).copy() for p in gsm.parameters()]
    for p in zoo.params(gsm):
        for q in (p.posterior, p.prior):
            if hasattr(q, 'natural_parameters'):
                out.append(arr(q.natural_parameters().detach()).copy())
    return out


def close_lists(c, a, b, msg):
    c.check(len(a) == len(b), f'{msg}: {len(a)} quantities instead of {len(b)}')
    for i, (x, y) in enumerate(zip(a, b)):
        c.close(x, y, f'{msg}: quantity {i}', 1e-3, 1e-3 * (1 + np.abs(y).max()))


def setprior(c):
    with cli.scratch() as d:
        pr, mdl = project(c, d)
        P = pr.p
        gi = c.int(0, len(pr.conf) - 1)
        g = pr.conf[gi]
        L = c.size(1, 3, 8, .1)
        for n in ('', 'i'):
            cli.beer(c, '-s', c.int(0, 999), 'shmm', 'mksphoneloop', '-g', g['group_name'], '-l', L, P('hmm.yml'), mdl,
                     P(f'gsm{n}'), P(f'posts{n}'), P(f's{n}'))
        gsm, posts, s0 = cli.load(P('gsm')), cli.load(P('posts')), cli.load(P('s'))
        gi_, pi = cli.load(P('gsmi')), cli.load(P('postsi'))
        n0 = c.int(1, pi[1] - 1) if pi[1] > 1 and c.flip(.5) else c.int(1, pi[1] + 2)
        randomize(c, gsm, posts[0])
        new = gi_.new_latent_posteriors(n0)
        randomize(c, gi_, new)
        # a trained latent prior
        p = gi_.latent_prior.mean_precision
        x = torch.tensor(c.rng.normal(size=(200, L)) * c.choice([.05, .3, 3, 10]) + c.rng.normal(size=L), dtype=torch.float32)
        p.stats = gi_.latent_prior.sufficient_statistics(x).sum(0)
        p.natural_grad_update(1.)
        cli.dump(gsm, P('gsm'))
        cli.dump(posts, P('posts'))
        cli.dump(gi_, P('gsmi'))
        cli.dump((new, n0) + tuple(pi[2:]), P('postsi'))
        var = float(c.logu(.05, 5))
        seed = c.int(0, 10 ** 6)
        ins = [P(n) for n in ('gsm', 'posts', 's', 'gsmi', 'postsi')]
        fp = cli.fingerprint(*ins)
        c.note(units=posts[1], given=n0, latent=L, cov=g['cov_type'], comps=g['n_normal_per_state'], var=var)
        default = c.flip(.2)
        cli.beer(c, '-s', seed, 'shmm', 'setprior', *([] if default else ['-v', var]), *ins, P('gsmo'), P('postso'), P('so'))
        if default:
            var = 1.
        c.check(cli.fingerprint(*ins) == fp, 'setprior modified its input files')
        go, po, so = cli.load(P('gsmo')), cli.load(P('postso')), cli.load(P('so'))
        for name in ('weights', 'bias'):
            a, b = getattr(go.transform, name), getattr(gi_.transform, name)
            want = arr(b.posterior.params.mean.detach())
            for which in ('prior', 'posterior'):
                q = getattr(a, which)
                c.close(q.params.mean.detach(), want, f'mean of the {which} of the {name}', 1e-6, 1e-6)
                c.close(q.params.diag_cov.detach(), np.full(want.shape, var), f'variance of the {which} of the {name}', 1e-4, 2e-4)
        trained = {id(q) for q in go.parameters()}
        for name in ('weights', 'bias'):
            q = getattr(go.transform, name).posterior.params
            c.check(id(q.mean) in trained and id(q.log_diag_cov) in trained, f'posterior of the {name} can be trained')
        lp = lambda m: arr(m.latent_prior.mean_precision.posterior.natural_parameters())
        c.close(lp(go), lp(gi_), 'latent prior', 1e-6, 1e-6)
        k = min(n0, posts[1])
        c.close(po[0].params.mean.detach()[:k], new.params.mean.detach()[:k], 'means of the given posteriors', 1e-6, 1e-6)
        c.close(po[0].params.diag_cov.detach()[:k], new.params.diag_cov.detach()[:k], 'variances of the given posteriors', 1e-5,
                1e-6)
        c.check(tuple(po[0].params.mean.shape) == (posts[1], L) and tuple(po[1:]) == tuple(posts[1:]), 'description of the units')
        u = units_of(so, gi, posts[1], posts[2])
        if k < posts[1]:
            # the other units start from the latent prior
            m, v = arr(gi_.latent_prior.mean), np.diag(arr(gi_.latent_prior.cov))
            z = []
            for i in range(24):
                cli.beer(c, '-s', c.int(0, 10 ** 6), 'shmm', 'setprior', *ins, P('gsmz'), P('postsz'), P('sz'))
                z.append((arr(cli.load(P('postsz'))[0].params.mean.detach())[k:] - m) / np.sqrt(v))
            z = np.stack(z).reshape(-1, z[0].shape[-1])
            n = len(z)
            q = stats.chi2.cdf((z ** 2).sum(0), n)
            c.check(((q > 1e-7) & (q < 1 - 1e-7)).all(), f'spread of the means of the new units: {z.std(0)} times that of the prior')
            c.check((np.abs(z.mean(0)) < 6 / np.sqrt(n)).all(), f'average of the means of the new units: {z.mean(0)} deviations')
            c.ev('drawn_units', n)
        if k == posts[1]:
            # no random unit is drawn first
            close_densities(c, densities(u), implied(go, po[0], u, seed), 'setprior')
        same(c, others(s0, gi), others(so, gi), 'setprior')
        proper(c, u, g['cov_type'], pr.dim, 'setprior')
        usable(c, pr, so)


# ------------------------------------------------------------- hierarchical

def languages(c, d, n=None, equal=False, groups=None, name=None, n_utts=1, **kw):
    'Phone loops of several languages with a common configuration; the modelled group is the largest of each.'
    import yaml
    n = n or c.size(1, 3, 6, .15)
    # in no particular order
    langnames = c.rng.permutation(['lang', 'L', 'a', 'zz', 'lang10', 'lang9', 'B', 'm']).tolist()
    first = cli.Project(c, make(d, 'l0'), n_utts=n_utts, groups=groups, **kw)
    ng = len(first.conf)
    gi = c.int(0, ng - 1)
    if name:
        for i, g in enumerate(first.conf):
            g['group_name'] = name if i == gi else 'non-' + name
    if equal:
        for g in first.conf:
            g['topology'] = first.conf[0]['topology']
    out = []
    for l in range(n):
        pr = first if l == 0 else cli.Project(c, make(d, f'l{l}'), n_utts=n_utts, dim=first.dim, **kw)
        pr.conf = first.conf
        with open(pr.p('hmm.yml'), 'w') as f:
            yaml.safe_dump(pr.conf, f)
        S = [max(a['end_id'] for a in g['topology']) - 1 for g in pr.conf]
        small = [c.int(1, 2) for _ in range(ng)]
        most = max([small[i] * S[i] for i in range(ng) if i != gi] or [0])
        while small[gi] * S[gi] <= most:
            small[gi] += 1
        small[gi] += c.int(0, 2)
        names = c.rng.permutation([f'u{i}' for i in range(sum(small))]).tolist()
        pr.units = []
        for g, k in zip(pr.conf, small):
            for _ in range(k):
                pr.units.append((names.pop(), g['group_name']))
        c.rng.shuffle(pr.units)
        pr.units = [(str(a), str(b)) for a, b in pr.units]
        with open(pr.p('units'), 'w') as f:
            f.writelines(f'{u} {g}\n' for u, g in pr.units)
        mdl = pr.build()
        if c.flip(.4):
            cli.beer(c, 'hmm', 'train', mdl, pr.p('data.pkl'), pr.p('1.mdl'))
            mdl = pr.p('1.mdl')
        out.append((langnames[l], pr, mdl))
    return out, gi


def make(d, name):
    p = os.path.join(d, name)
    os.makedirs(p)
    return p


def link(gsm):
    for g in gsm['langs'].values():
        g.transform.root_transform = gsm['root'].shared_transform


def hier_state(gsm, posts):
    link(gsm)
    out = {'root': [arr(p.detach()).copy() for p in gsm['root'].parameters()]}
    for l, g in gsm['langs'].items():
        out[f'{l} language posterior'] = [arr(p.detach()).copy() for p in g.transform.latent_posterior.parameters()]
        out[f'{l} unit posteriors'] = flat_posts(posts[l])
        out[f'{l} unit prior'] = [natural(p) for gr in g.latent_prior.mean_field_factorization() for p in gr]
    return out


def hierarchy(c):
    import beer
    with cli.scratch() as d:
        langs, gi = languages(c, d)
        D = lambda n: os.path.join(d, n)
        g = langs[0][1].conf[gi]
        with open(D('map'), 'w') as f:
            f.writelines(f'{mdl} {l}\n' for l, _, mdl in langs)
        LL, LU = c.size(1, 2, 5, .1), c.size(1, 2, 5, .1)
        ins = [D('map')] + [m for _, _, m in langs]
        fp = cli.fingerprint(*ins)
        cli.beer(c, '-s', c.int(0, 999), 'hshmm', 'mksphoneloop', '-g', g['group_name'], '-l', LL, '-t', LU,
                 langs[0][1].p('hmm.yml'), D('map'), D('gsm0'), D('posts0'), D('s0'))
        c.check(cli.fingerprint(*ins) == fp, 'mksphoneloop modified its input files')
        gsm, (posts, udict, nstates, _), sploops = cli.load(D('gsm0')), cli.load(D('posts0')), cli.load(D('s0'))
        c.check(set(sploops) == {l for l, _, _ in langs} == set(posts) == set(gsm['langs']), 'languages')
        S = max(a['end_id'] for a in g['topology']) - 1
        c.check(nstates == S, f'{nstates} states per unit')
        nun = {}
        for l, pr, mdl in langs:
            names = [u for u, x in pr.units if x == g['group_name']]
            nun[l] = len(names)
            c.check(tuple(posts[l].params.mean.shape) == (len(names), LU), f'{l}: latent posteriors')
            own = cli.load(D('s0') + '_' + l)
            same(c, others(cli.load(mdl), gi), others(sploops[l], gi), f'{l}: mksphoneloop')
            same(c, others(sploops[l], gi), others(own, gi), f'{l}: file of the language')
            u = units_of(own, gi, nun[l], S)
            close_densities(c, densities(u), densities(units_of(sploops[l], gi, nun[l], S)), f'{l}: file of the language')
            proper(c, u, g['cov_type'], pr.dim, f'{l}: mksphoneloop', one=False)
        c.note(languages=len(langs), units=nun, group=gi, groups=len(langs[0][1].conf), cov=g['cov_type'],
               comps=g['n_normal_per_state'], latent=[LL, LU])
        gsmzoo.randomize(c, type('Holder', (), {'transform': gsm['root'].shared_transform}), .2)
        for l, gs in gsm['langs'].items():
            gsmzoo.randomize_posts(c, gs.transform.latent_posterior)
            gsmzoo.randomize_posts(c, posts[l])
        cli.dump(gsm, D('gsm0'))
        cli.dump((posts, udict, nstates, _), D('posts0'))
        for step in c.choice([['init'], ['train'], ['init', 'train'], ['train', 'init']]):
            if step == 'init':
                h_init(c, D, langs, gi, S, nun)
            else:
                h_train(c, D, langs, gi, S, nun)


def h_init(c, D, langs, gi, S, nun):
    names = [l for l, _, _ in langs]
    l = c.choice(names)
    src = c.choice(names)
    mode = c.choice(['plain', 'plain', 'adapt', 'from'])
    args = {'plain': [], 'adapt': ['--adapt-from', src], 'from': ['--init-from', src]}[mode]
    same_all = c.flip(.3)
    nl, k = c.size(1, 3, 20), c.size(1, 3, 20)
    seed = c.int(0, 10 ** 6)
    # another subspace of the same shape to take the root from
    multi = cli.load(D('gsm0'))
    link(multi)
    gsmzoo.randomize(c, type('Holder', (), {'transform': multi['root'].shared_transform}), .2)
    for gs in multi['langs'].values():
        gsmzoo.randomize_posts(c, gs.transform.latent_posterior)
    cli.dump(multi, D('multi'))
    ins = [D(n) for n in ('gsm0', 'multi', 'posts0', 's0')]
    fp = cli.fingerprint(*ins)
    cli.beer(c, '-s', seed, 'hshmm', 'init', *args, *(['--same'] if same_all else []), '--latent-nsamples', nl,
             '--params-nsamples', k, l, *ins, D('s1'), D('gsm1'))
    c.check(cli.fingerprint(*ins) == fp, 'init modified its input files')
    temp, (posts, *_), s0, s1, g1 = (cli.load(D(n)) for n in ('gsm0', 'posts0', 's0', 's1', 'gsm1'))
    use = {'plain': temp['langs'][l], 'adapt': multi['langs'][src], 'from': multi['langs'][src]}[mode]
    use.transform.root_transform = multi['root'].shared_transform
    u0 = units_of(s0[l], gi, nun[l], S)
    torch.manual_seed(seed)
    mine = copy_units(u0)
    vecs = use.expected_pdfvecs(posts[l], latent_nsamples=nl, params_nsamples=k)
    if same_all:
        vecs = [vecs[0] for _ in vecs]
    use.update_models(mine, vecs)
    msg = f'init of {l} ({mode}{" --same" if same_all else ""})'
    close_densities(c, densities(units_of(s1[l], gi, nun[l], S)), densities(mine), msg)
    own = cli.load(D('s1') + '_' + l)
    close_densities(c, densities(units_of(own, gi, nun[l], S)), densities(mine), msg + ': file of the language')
    for n in names:
        same(c, others(s0[n], gi), others(s1[n], gi), f'{msg}: {n}')
        if n != l:
            same(c, {'d': np.concatenate(densities(units_of(s0[n], gi, nun[n], S)))},
                 {'d': np.concatenate(densities(units_of(s1[n], gi, nun[n], S)))}, f'{msg}: densities of {n}')
    # the written model: root of the multilingual one, languages of the target
    a, b = hier_state(g1, posts), hier_state(multi, posts)
    c.check(all(np.array_equal(x, y) for x, y in zip(a['root'], b['root'])), f'{msg}: root subspace')
    want = hier_state(temp, posts)
    if mode == 'adapt':
        want[f'{l} language posterior'] = b[f'{src} language posterior']
    for n in names:
        k = f'{n} language posterior'
        c.check(all(np.array_equal(x, y) for x, y in zip(a[k], want[k])), f'{msg}: {k}')


def h_train(c, D, langs, gi, S, nun):
    import beer
    names = [l for l, _, _ in langs]
    flags = {f: c.flip(.4) for f in ('-p', '-a', '-b')}
    epochs, k, nl, nu = c.size(1, 3, 12, .1), c.size(1, 2, 12), c.size(1, 2, 12), c.size(1, 2, 8)
    lrs, lrc = float(c.choice([1e-1, 1e-2])), float(c.choice([1., .5]))
    sgd = c.flip(.3)
    clip = float(c.choice([-1, -1, .5]))
    if sgd:
        # unclipped gradients can be huge: steps that do not diverge
        lrs = 1e-3 if clip > 0 else 1e-9
    seed = c.int(0, 10 ** 6)
    with open(D('smap'), 'w') as f:
        f.writelines(f'{D("s0")}_{l} {l}\n' for l in c.rng.permutation(names).tolist())
    ins = [D('gsm0'), D('posts0'), D('smap')] + [D('s0') + '_' + l for l in names]
    fp = cli.fingerprint(*ins)
    args = [f for f, on in flags.items() if on] + (['--sgd'] if sgd else []) + (['--clip-grad', clip] if clip > 0 else [])
    c.note(flags=''.join(sorted(f for f, on in flags.items() if on)), epochs=epochs, sgd=sgd, clip=clip)
    runs = c.int(1, 2)
    gsm, (posts, udict, nstates, g0) = cli.load(D('gsm0')), cli.load(D('posts0'))
    sploops = {l: cli.load(D('s0') + '_' + l) for l in names}
    link(gsm)
    before = {l: others(s, gi) for l, s in sploops.items()}
    start = hier_state(gsm, posts)
    units = {l: units_of(sploops[l], gi, nun[l], S) for l in names}
    groups = [[]] if flags['-p'] else sum([list(gsm['langs'][l].conjugate_bayesian_parameters(keepgroups=True)) for l in gsm['langs']], [])
    cjg = beer.VBConjugateOptimizer(groups, lrate=lrc)
    params = list(gsm['root'].parameters())
    for gs in gsm['langs'].values():
        params += list(gs.transform.latent_posterior.parameters())
    for p in posts.values():
        params += list(p.parameters())
    optim = beer.VBOptimizer(cjg, (torch.optim.SGD if sgd else torch.optim.Adam)(params, lr=lrs))
    src = (D('gsm0'), D('posts0'))
    opt = ['-o', D('opt')] if runs > 1 or c.flip(.3) else []
    for r in range(runs):
        out = (D(f'tg{r}'), D(f'tp{r}'), D(f'ts{r}'))
        cli.beer(c, '-s', seed + r, 'hshmm', 'train', *args, *opt, '-e', epochs, '-k', k, '-n', nl, '-u', nu, '-s', lrs, '-c', lrc,
                 *src, D('smap'), *out)
        src = out[:2]
        if r == 0:
            c.check(cli.fingerprint(*ins) == fp, 'train modified its input files')
        if r + 1 < runs:
            with open(D('smap'), 'w') as f:
                f.writelines(f'{out[2]}_{l} {l}\n' for l in names)
        torch.manual_seed(seed + r)
        for _ in range(epochs):
            optim.init_step()
            e = beer.evidence_lower_bound(gsm['root'], [[gsm['langs'][l], units[l]] for l in gsm['langs']],
                                          univ_latent_nsamples=nl, latent_posts=[posts[l] for l in gsm['langs']], latent_nsamples=nu,
                                          params_nsamples=k)
            e.backward()
            frozen = (list(gsm['root'].parameters()) if flags['-p'] else []) + \
                [p for gs in gsm['langs'].values() for p in gs.transform.latent_posterior.parameters() if flags['-a']] + \
                [p for q in posts.values() for p in q.parameters() if flags['-b']]
            for p in frozen:
                p.grad = None
            if clip > 0:
                torch.nn.utils.clip_grad_norm_(params, clip)
            optim.step()
            c.ev('epochs')
    g1, (p1, *_) = cli.load(out[0]), cli.load(out[1])
    s1 = cli.load(out[2])
    a, b = hier_state(g1, p1), hier_state(gsm, posts)
    for key in b:
        close_lists(c, a[key], b[key], f'train {args}: {key}')
    for key in start:
        if (key == 'root' and flags['-p']) or ('language' in key and flags['-a']) or ('unit posteriors' in key and flags['-b']):
            c.check(len(a[key]) == len(start[key]) and all(np.array_equal(x, y) for x, y in zip(a[key], start[key])),
                    f'{key} changed though it is frozen by {args}')
            c.ev('frozen_parts')
    for l, pr, _ in langs:
        same(c, before[l], others(s1[l], gi), f'{l}: train')
        own = cli.load(out[2] + '_' + l)
        u = units_of(own, gi, nun[l], S)
        close_densities(c, densities(u), densities(units[l]), f'{l}: train')
        close_densities(c, densities(units_of(s1[l], gi, nun[l], S)), densities(units[l]), f'{l}: train')
        proper(c, u, pr.conf[gi]['cov_type'], pr.dim, f'{l}: train', one=False)
        usable(c, pr, own)


def group_option(c):
    'The group named by the option is the one modelled, whatever the sizes of the groups.'
    with cli.scratch() as d:
        for _ in range(30):
            langs, gi = languages(c, make(d, f't{_}'), n=1, equal=True)
            if len(langs[0][1].conf) == 2:
                break
        l, pr, mdl = langs[0]
        D = lambda n: os.path.join(d, n)
        with open(D('map'), 'w') as f:
            f.write(f'{mdl} {l}\n')
        other = pr.conf[1 - gi]['group_name']
        n = sum(g == other for _, g in pr.units)
        c.note(modelled=n, largest=sum(g != other for _, g in pr.units))
        cli.beer(c, 'hshmm', 'mksphoneloop', '-g', other, langs[0][1].p('hmm.yml'), D('map'), D('gsm0'), D('posts0'), D('s0'))
        posts = cli.load(D('posts0'))[0]
        c.check(len(posts[l]) == n, f'hshmm mksphoneloop -g models another group than the one asked for')


def warm():
    import beer, yaml
    import beer.cli.subcommands


CHUNK = 1
CASES = [(build, 32, 600), (train, 32, 600), (setprior, 16, 200), (hierarchy, 32, 500), (group_option, 2, 6)]
