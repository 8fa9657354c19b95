'differential monitor: interrupted, saved and resumed executions (other processes, command line) against uninterrupted ones; saved models against their copies read back'
import os, pickle
import numpy as np
from ..core import torch, arr, Inconclusive
from .. import ref, gen, zoo, cli, gsmzoo, worker

RULE = '''Models of every kind (and subspace models with a gradient optimizer) trained for n steps without interruption,
and stopped after each of a random set of steps with model and optimizer saved to disk and training resumed in another
process; random batches, learning rates and group subsets.  Saved models read back (in the same or another process)
with observers attached.  The same over the commands with optimizer state files.'''
ASSUMPTIONS = ['the random draws of a training step are made from a seed given per step',
               'observers are picklable objects saved along with the model']


def state(model):
    out = []
    for p in zoo.params(model):
        out.append(arr(p.posterior.natural_parameters()))
        out.append(arr(p.prior.natural_parameters()))
    g = getattr(model, 'graph', None)
    if g is not None:
        out += [arr(g.trans_log_probs), arr(g.init_log_probs), arr(g.final_log_probs)]
    return out


def same(c, a, b, msg):
    c.check(len(a) == len(b), f'{msg}: {len(a)} quantities instead of {len(b)}')
    for i, (x, y) in enumerate(zip(a, b)):
        if x.dtype != y.dtype or x.shape != y.shape:
            c.fail(f'{msg}: quantity {i} is {x.dtype} {x.shape} instead of {y.dtype} {y.shape}')
        if not np.array_equal(x, y, equal_nan=True):
            c.fail(f'{msg}: quantity {i} differs by {np.abs(x - y).max()}')
        c.ev('assertions')


class Observer:
    'Observer of a parameter that counts the notifications it gets.'

    def __init__(self, name):
        self.name, self.log = name, []

    def before(self):
        self.log.append('before')

    def after(self):
        self.log.append('after')


# ---------------------------------------------------------------- conjugate

def cjg_groups(model, pick):
    groups = model.conjugate_bayesian_parameters(keepgroups=True)
    groups = [list(g) for g in groups]
    return groups if pick is None else [groups[i % len(groups)] for i in pick]


def cjg_steps(model, optim, batches, datasize):
    import beer
    for b in batches:
        optim.init_step()
        elbo = beer.evidence_lower_bound(datasize=datasize)
        for X, kw in b:
            elbo = elbo + beer.evidence_lower_bound(model, X, datasize=datasize, **kw)
        elbo.backward()
        optim.step()


def cjg_resume(path, optpath, batches, datasize, pick, lrate):
    'One interrupted part, in another process: read, train, save.'
    import beer
    with open(path, 'rb') as f:
        model = pickle.load(f)
    optim = beer.VBConjugateOptimizer(cjg_groups(model, pick), lrate=lrate)
    optim.load_state_dict(torch.load(optpath))
    cjg_steps(model, optim, batches, datasize)
    with open(path, 'wb') as f:
        pickle.dump(model, f)
    torch.save(optim.state_dict(), optpath)
    return state(model)


def conjugate(c):
    import beer
    z = zoo.draw(c, c.dtype())
    dtype = zoo.params(z.model)[0].posterior.natural_parameters().dtype
    n = c.int(1, 6)
    B = c.int(1, 2)
    batches = [[(z.data(c, z.minlen + c.int(1, 6), dtype), {'scale': .7} if z.seq and c.flip(.3) else {})
                for _ in range(B)] for _ in range(n)]
    datasize = c.choice([1000, sum(len(x) for b in batches for x, _ in b)])
    lrate = float(c.choice([1., .5, .1]))
    ngroups = len(cjg_groups(z.model, None))
    pick = None if c.flip(.7) else [c.int(0, ngroups - 1) for _ in range(c.int(1, 3))]
    pick = pick if pick is None else sorted(set(pick), key=pick.index)
    cuts = sorted({c.int(0, n) for _ in range(c.int(1, 3))} | {0})
    cuts = cuts + [n]
    with cli.scratch() as d:
        path, opt = os.path.join(d, 'm'), os.path.join(d, 'o')
        cli.dump(z.model, path)
        optim = beer.VBConjugateOptimizer(cjg_groups(z.model, pick), lrate=lrate)
        torch.save(optim.state_dict(), opt)
        got = state(z.model)
        for a, b in zip(cuts[:-1], cuts[1:]):
            # the rate of the optimizer built on resuming comes from the saved state
            got = worker.away(c, cjg_resume, path, opt, batches[a:b], datasize, pick, lrate if c.flip() else 3.)
            c.ev('resumed_parts')
        cjg_steps(z.model, optim, batches, datasize)
        want = state(z.model)
        same(c, got, want, f'{z.kind}: {n} steps interrupted at {cuts[:-1]} against uninterrupted')
        c.check(optim.state_dict() == torch.load(opt), 'optimizer state after resuming')
    c.note(kind=z.kind, steps=n, cuts=cuts, lrate=lrate, groups=ngroups, pick=pick, dtype=dtype)
    c.trivial = len(cuts) < 2


# ----------------------------------------------------------------- subspace

def sub_state(gsm, posts, units):
    out = [arr(v) for v in gsm.state_dict().values()] + [arr(v) for v in posts.state_dict().values()]
    for g in gsm.conjugate_bayesian_parameters(keepgroups=True):
        for p in g:
            out.append(arr(p.posterior.natural_parameters()))
    for u in units:
        out += [arr(p.pdfvec) for p in u.bayesian_parameters()]
    return out


def sub_optim(gsm, posts, lr, lrc, kind):
    import beer
    cls = {'adam': torch.optim.Adam, 'sgd': torch.optim.SGD, 'momentum': torch.optim.SGD}[kind]
    kw = {'momentum': .8} if kind == 'momentum' else {}
    std = cls(list(posts.parameters()) + list(gsm.parameters()), lr=lr, **kw)
    cjg = beer.VBConjugateOptimizer(gsm.conjugate_bayesian_parameters(keepgroups=True), lrate=lrc)
    return beer.VBOptimizer(cjg, std)


def sub_steps(gsm, posts, units, optim, seeds, ns):
    import beer
    for s in seeds:
        torch.manual_seed(s)
        optim.init_step()
        elbo = beer.evidence_lower_bound(gsm, units, latent_posts=posts, latent_nsamples=ns[0], params_nsamples=ns[1])
        elbo.backward()
        optim.step()


def sub_resume(path, optpath, seeds, ns, lr, lrc, kind):
    with open(path, 'rb') as f:
        gsm, posts, units = pickle.load(f)
    optim = sub_optim(gsm, posts, lr, lrc, kind)
    optim.load_state_dict(torch.load(optpath))
    sub_steps(gsm, posts, units, optim, seeds, ns)
    with open(path, 'wb') as f:
        pickle.dump((gsm, posts, units), f)
    torch.save(optim.state_dict(), optpath)
    return sub_state(gsm, posts, units)


def subspace(c):
    s = gsmzoo.Subspace(c, c.dtype())
    s.note(c)
    n = c.int(2, 6)
    seeds = [c.int(0, 10 ** 6) for _ in range(n)]
    ns = c.int(1, 3), c.int(1, 2)
    kind = c.choice(['adam', 'adam', 'sgd', 'momentum'])
    lr = 1e-2 if kind == 'adam' else 1e-7
    cuts = sorted({c.int(0, n) for _ in range(c.int(1, 2))} | {0}) + [n]
    with cli.scratch() as d:
        path, opt = os.path.join(d, 'm'), os.path.join(d, 'o')
        cli.dump((s.gsm, s.posts, s.units), path)
        optim = sub_optim(s.gsm, s.posts, lr, .5, kind)
        torch.save(optim.state_dict(), opt)
        got = None
        try:
            sub_steps(s.gsm, s.posts, s.units, optim, seeds, ns)
        except RuntimeError as e:
            raise Inconclusive(f'diverging gradient steps: {e}')
        want = sub_state(s.gsm, s.posts, s.units)
        for a, b in zip(cuts[:-1], cuts[1:]):
            got = worker.away(c, sub_resume, path, opt, seeds[a:b], ns, lr, .5, kind)
            c.ev('resumed_parts')
        same(c, got, want, f'subspace model: {n} {kind} steps interrupted at {cuts[:-1]}')
    c.note(steps=n, cuts=cuts, optim=kind, samples=ns)


# ---------------------------------------------------------------- read back

def use(model, X, Y, observers, group, lrate, seq):
    'Everything one does with a model: score, decode, update.'
    import beer
    out = []
    st = model.sufficient_statistics(X)
    out.append(arr(model.expected_log_likelihood(st)))
    model.clear_cache()
    if hasattr(model, 'posteriors') and seq:
        out.append(arr(model.posteriors(X)))
    if hasattr(model, 'decode'):
        out.append(arr(model.decode(X)))
    out += [arr(v) for v in state(model)]
    groups = model.conjugate_bayesian_parameters(keepgroups=True)
    optim = beer.VBConjugateOptimizer(groups, lrate=lrate)
    optim.load_state_dict({'lrate': lrate, 'update_count': group})
    for _ in range(2):
        optim.init_step()
        elbo = beer.evidence_lower_bound(model, Y)
        out.append(np.array(float(elbo)))
        elbo.backward()
        optim.step()
        out += state(model)
    out.append(arr(model.expected_log_likelihood(model.sufficient_statistics(X))))
    return out, [list(o.log) for o in observers]


def use_file(path, *args):
    with open(path, 'rb') as f:
        model, observers = pickle.load(f)
    return use(model, args[0], args[1], observers, *args[2:])


def read_back(c):
    z = zoo.draw(c, c.dtype())
    ps = zoo.params(z.model)
    dtype = ps[0].posterior.natural_parameters().dtype
    observers = []
    for p in ps:
        if c.flip(.6):
            o = Observer(f'o{len(observers)}')
            if c.flip(.7):
                p.register_callback(o.before, notify_before_update=True)
            p.register_callback(o.after)
            observers.append(o)
    if c.flip():
        # the notifications of an earlier life
        from beer import VBConjugateOptimizer, evidence_lower_bound
        opt = VBConjugateOptimizer(z.model.conjugate_bayesian_parameters(keepgroups=True))
        opt.init_step()
        evidence_lower_bound(z.model, z.data(c, z.minlen + 3, dtype)).backward()
        opt.step()
    X, Y = z.data(c, z.minlen + c.int(0, 6), dtype), z.data(c, z.minlen + c.int(1, 6), dtype)
    group = c.int(0, 3)
    lrate = float(c.choice([1., .3]))
    with cli.scratch() as d:
        path = os.path.join(d, 'm')
        with open(path, 'wb') as f:
            pickle.dump((z.model, observers), f, protocol=c.choice([pickle.DEFAULT_PROTOCOL, 2, pickle.HIGHEST_PROTOCOL]))
        if c.flip(.2):
            # a second generation copy
            with open(path, 'rb') as f:
                again = pickle.load(f)
            cli.dump(again, path)
        got, glog = worker.away(c, use_file, path, X, Y, group, lrate, z.seq) if c.flip(.7) else \
            use_file(path, X, Y, group, lrate, z.seq)
    want, wlog = use(z.model, X, Y, observers, group, lrate, z.seq)
    same(c, got, want, f'{z.kind}: model read back')
    c.check(glog == wlog, f'{z.kind}: notifications after reading back {glog}, expected {wlog}')
    c.ev('notifications', sum(len(l) for l in wlog))
    c.note(kind=z.kind, group=group, observers=len(observers), dtype=dtype)


# ----------------------------------------------------------------- commands

def split_groups(model):
    'The same model with its parameters in groups of their own (a user-defined factorization).'
    cls = type(model)
    name = 'Split' + cls.__name__
    if name not in globals():
        globals()[name] = type(name, (cls,), {
            '__module__': __name__,
            'mean_field_factorization': lambda self: [[p] for g in cls.mean_field_factorization(self) for p in g]})
    model.__class__ = globals()[name]
    return model


def cli_update(c):
    'update -o over iterations against one uninterrupted optimizer.'
    import beer
    with cli.scratch() as d:
        pr = cli.Project(c, d, n_utts=c.int(1, 4))
        mdl = pr.build()
        ds = cli.load(pr.p('data.pkl'))
        utts = sorted(pr.feats)
        n = c.int(2, 5)
        lrate = float(c.choice([1., .5]))
        real = None
        if c.flip():
            real = False
            cli.dump(split_groups(cli.load(mdl)), mdl)
        model = cli.load(mdl)
        ngroups = len(model.mean_field_factorization())
        optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), lrate=lrate)
        cur = mdl
        for it in range(n):
            cli.beer(c, 'hmm', 'accumulate', cur, pr.p('data.pkl'), pr.p('e.pkl'), stdin='\n'.join(utts) + '\n', real=real)
            cur = pr.p(f'{it + 1}.mdl')
            # the rate comes with the state after the first call
            cli.beer(c, 'hmm', 'update', '-o', pr.p('opt'), '-l', lrate if it == 0 or c.flip() else .123,
                     pr.p(f'{it}.mdl') if it else mdl, cur, stdin=pr.p('e.pkl') + '\n', real=real)
            optim.init_step()
            elbo = beer.evidence_lower_bound(datasize=ds.size)
            for u in utts:
                elbo = elbo + beer.evidence_lower_bound(model, ds[u].features, datasize=ds.size, scale=1.)
            elbo.backward()
            optim.step()
            cli.same_model(c, cli.load(cur), model, f'iteration {it + 1} of {n}', 1e-4 if it == 0 else 1e-3, scale=10.)
            saved, want = torch.load(pr.p('opt'), weights_only=False), optim.state_dict()
            c.check(saved == want, f'optimizer state saved by iteration {it + 1}: {saved} instead of {want}')
            c.ev('resumed_parts')
        c.note(prior=pr.prior, units=len(pr.units), steps=n, lrate=lrate, utts=len(utts), groups=ngroups)


def cli_subspace(c):
    'shmm train, one process per epoch with state file, against one uninterrupted optimizer.'
    import beer
    with cli.scratch() as d:
        pr = cli.Project(c, d, n_utts=c.int(1, 3))
        mdl = pr.build()
        P = pr.p
        cli.beer(c, 'hmm', 'train', mdl, P('data.pkl'), P('1.mdl'))
        g = c.choice(pr.conf)['group_name']
        cli.beer(c, 'shmm', 'mksphoneloop', '-g', g, '-l', c.int(1, 3), P('hmm.yml'), P('1.mdl'), P('gsm0'), P('posts0'),
                 P('s0'))
        n = c.int(2, 4)
        k, nl = c.int(1, 3), c.int(1, 3)
        only = c.flip(.3)
        lrs, lrc = float(c.choice([1e-1, 1e-2])), float(c.choice([1., .5]))
        seed = c.int(0, 10 ** 6)
        gsm, (posts, nunits, nstates, gi), sploop = cli.load(P('gsm0')), cli.load(P('posts0')), cli.load(P('s0'))
        ems = sploop.modelset.original_modelset.modelsets[gi]
        units = [ems[i * nstates:(i + 1) * nstates] for i in range(nunits)]
        cjg = beer.VBConjugateOptimizer([[]] if only else gsm.conjugate_bayesian_parameters(keepgroups=True), lrate=lrc)
        ps = list(posts.parameters()) + ([] if only else list(gsm.parameters()))
        optim = beer.VBOptimizer(cjg, torch.optim.Adam(ps, lr=lrs))
        for it in range(n):
            cli.beer(c, '-s', seed + it, 'shmm', 'train', *(['-p'] if only else []), '-k', k, '-n', nl, '-s', lrs, '-c', lrc,
                     '-o', P('opt'), P(f'gsm{it}'), P(f'posts{it}'), P(f's{it}'), P(f'gsm{it + 1}'), P(f'posts{it + 1}'),
                     P(f's{it + 1}'))
            sub_steps(gsm, posts, units, optim, [seed + it], (nl, k))
            c.ev('resumed_parts')
            g2, p2, s2 = cli.load(P(f'gsm{it + 1}')), cli.load(P(f'posts{it + 1}')), cli.load(P(f's{it + 1}'))
            e2 = s2.modelset.original_modelset.modelsets[gi]
            u2 = [e2[i * nstates:(i + 1) * nstates] for i in range(nunits)]
            a, b = sub_state(g2, p2[0], u2), sub_state(gsm, posts, units)
            c.check(len(a) == len(b), 'number of parameters')
            for i, (x, y) in enumerate(zip(a, b)):
                c.close(x, y, f'epoch {it + 1} of {n}: parameter {i}', 1e-3, 1e-3 * (1 + np.abs(y).max()))
            c.check(p2[1:] == (nunits, nstates, gi), 'description of the units')
        c.note(units=nunits, states=nstates, steps=n, only=only, samples=[nl, k], cov=pr.conf[gi]['cov_type'],
               comps=pr.conf[gi]['n_normal_per_state'])


CASES = [(conjugate, 150, 2500), (subspace, 60, 1200), (read_back, 200, 3000), (cli_update, 10, 150), (cli_subspace, 8, 120)]
CHUNK = 2


def warm():
    import beer, yaml
    import beer.cli.subcommands
