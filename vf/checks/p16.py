'trace monitor: event log of the parameters (values, statistics, notifications) around every call of the optimizers, checked against the rotation'
import numpy as np
from ..core import torch, arr
from .. import ref, gen, zoo, gsmzoo

RULE = '''Random models of every kind (and subspace models, and custom groups given as lists, tuples and generators)
whose parameters are all observed; random sequences of init_step, accumulation (objective, stored statistics, none) and
step with random learning rates and starting counts.'''
ASSUMPTIONS = ['stick-breaking parameters are updated after statistics were accumulated (their stored form differs)',
               'priors that depend on other parameters (hyper-prior, hierarchical stick breaking) follow them and are '
               'checked by P12']


class Log:
    'Observes the parameters of a model.'

    def __init__(self, c, params):
        self.params = list(params)
        self.events = []
        self.keep = []
        for i, p in enumerate(self.params):
            for before in (True, False):
                f = self._observer(i, p, before)
                self.keep.append(f)
                p.register_callback(f, notify_before_update=before)

    def _observer(self, i, p, before):
        def f():
            self.events.append((i, before, arr(p.posterior.natural_parameters()).copy()))
        return f

    def snapshot(self):
        return [(arr(p.posterior.natural_parameters()).copy(), arr(p.prior.natural_parameters()).copy(),
                 arr(p.stats).copy()) for p in self.params]

    def take(self):
        out, self.events = self.events, []
        return out


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def check_step(c, log, groups, count, lrate, before, after, events, derived, msg):
    'groups: indices of parameters.'
    target = groups[count % len(groups)] if groups else []
    seen = [i for i, b, _ in events if b], [i for i, b, _ in events if not b]
    for name, s in zip(('before', 'after'), seen):
        c.check(sorted(s) == sorted(target), f'{msg}: notified {name} the update of {s}, the group is {target}')
    for i in target:
        k = [(j, b) for j, b, _ in events]
        c.check(k.index((i, True)) < k.index((i, False)), f'{msg}: notifications of {i} out of order')
    for i, (p, b, a) in enumerate(zip(log.params, before, after)):
        if i in target:
            single = p.posterior.natural_parameters().dtype == torch.float32
            want = b[0] + lrate * (b[1] + b[2] - b[0]) if i not in derived else None
            tol = 1e-3 if single else 1e-9
            size = max(np.abs(b[0]).max(), np.abs(b[1]).max(), np.abs(b[2]).max(), 1)
            if i not in derived:
                c.close(a[0], want, f'{msg}: updated parameter {i}', tol, tol * size)
            for j, bef, v in events:
                if j == i:
                    c.check(same(v, b[0] if bef else a[0]), f'{msg}: observer of {i} '
                            f'{"before" if bef else "after"} the update sees another value')
        else:
            c.check(same(a[0], b[0]), f'{msg}: parameter {i}, not in the group {target}, changed')
        if i not in derived:
            c.check(same(a[1], b[1]), f'{msg}: prior of parameter {i} changed')
        if i not in derived or i not in target:
            c.check(same(a[2], b[2]), f'{msg}: statistics of parameter {i} changed')
    c.ev('steps')
    c.ev('updates', len(target))


def index(params, p):
    return next(i for i, q in enumerate(params) if q is p)


def as_container(c, groups):
    k = c.int(0, 4)
    if k == 0:
        return [list(g) for g in groups]
    if k == 1:
        return tuple(tuple(g) for g in groups)
    if k == 2:
        return (g for g in groups)
    if k == 3:
        return ((p for p in g) for g in groups)
    return [(p for p in g) for g in groups]


def drive(c, model, params, pgroups, fill, derived, label, given=None):
    import beer
    log = Log(c, params)
    groups = [[index(params, p) for p in g] for g in pgroups]
    lrate = float(c.choice([1., .5, .1, 0., 1.]))
    optim = beer.VBConjugateOptimizer(given if given is not None else as_container(c, pgroups), lrate=lrate)
    count = 0
    if c.flip(.4):
        count = c.int(0, 7) if c.flip(.7) else int(c.choice([2 ** c.int(5, 40), 10 ** c.int(2, 12), c.int(10, 10 ** 6)])) - c.int(0, 3)
        lrate = float(c.uni(0, 1))
        optim.load_state_dict({'lrate': lrate, 'update_count': count})
    outside = [i for i in range(len(params)) if not any(i in g for g in groups)]
    seq = []
    for it in range(c.int(1, max(4, 2 * len(groups) + 1))):
        kind = c.choice(['objective', 'objective', 'stored', 'none', 'noinit'])
        if derived and kind != 'objective':
            kind = 'objective'
        seq.append(kind)
        if kind != 'noinit':
            for i in outside:
                params[i].stats = torch.full_like(params[i].stats, .25)
            b = log.snapshot()
            optim.init_step()
            a = log.snapshot()
            c.check(not log.take(), f'{label}: starting a step notifies observers')
            for i in range(len(params)):
                c.check(same(a[i][0], b[i][0]) and same(a[i][1], b[i][1]), f'{label}: starting a step changes parameter {i}')
                if i in outside:
                    c.check(same(a[i][2], b[i][2]), f'{label}: starting a step changes statistics outside the groups')
                else:
                    c.check((a[i][2] == 0).all(), f'{label}: statistics of {i} not cleared')
            b = log.snapshot()
            if kind == 'objective':
                fill(c)
            elif kind == 'stored':
                base = fill(c)
            a = log.snapshot()
            c.check(not log.take(), f'{label}: accumulating notifies observers')
            for i in range(len(params)):
                c.check(same(a[i][0], b[i][0]) and same(a[i][1], b[i][1]), f'{label}: accumulating changes parameter {i}')
            if kind == 'stored':
                for p in params:
                    if c.flip():
                        p.store_stats(p.stats * float(c.choice([.5, 1.])))
        b = log.snapshot()
        optim.step()
        a = log.snapshot()
        check_step(c, log, groups, count, lrate, b, a, log.take(), derived, f'{label}: step {it + 1} (count {count})')
        count += 1
        c.check(optim.state_dict()['update_count'] == count, f'{label}: update count')
    c.note(kind=label, groups=groups, lrate=lrate, seq=seq, start=count - len(seq))


def models(c):
    import beer
    z = zoo.draw(c, c.dtype())
    params = zoo.params(z.model)
    dtype = params[0].posterior.natural_parameters().dtype
    pgroups = [[p for p in g] for g in z.model.conjugate_bayesian_parameters(keepgroups=True)]
    derived = set()
    if 'sb' in z.kind or z.kind == 'bigram':
        derived = set(range(len(params)))
    given = None
    if c.flip(.3):
        given = z.model.conjugate_bayesian_parameters(keepgroups=True)
    elif c.flip(.3):
        # any partition of a subset of the parameters
        idx = [int(i) for i in c.rng.permutation(len(params))][:c.int(1, len(params))]
        k = c.int(1, len(idx))
        pgroups = [g for g in ([params[i] for i in idx[j::k]] for j in range(k)) if g]

    def fill(c):
        beer.evidence_lower_bound(z.model, z.data(c, z.minlen + c.int(1, 5), dtype)).backward()
    drive(c, z.model, params, pgroups, fill, derived, z.kind, given)


def subspace(c):
    'Optimizers of a subspace model: conjugate groups are those of the latent prior.'
    import beer
    s = gsmzoo.Subspace(c, c.dtype())
    params = zoo.params(s.prior)
    pgroups = [[p for p in g] for g in s.prior.mean_field_factorization()]
    others = [arr(v).copy() for k, v in sorted(s.gsm.transform.state_dict().items())]
    posts = [arr(v).copy() for v in s.posts.state_dict().values()]

    def fill(c):
        beer.evidence_lower_bound(s.gsm, s.units, latent_posts=s.posts).backward()
    drive(c, s.gsm, params, pgroups, fill, set(), 'subspace-' + s.prior_kind,
          s.gsm.conjugate_bayesian_parameters(keepgroups=True))
    c.check(all(same(a, arr(v)) for a, (k, v) in zip(others, sorted(s.gsm.transform.state_dict().items()))),
            'conjugate steps changed the subspace')
    c.check(all(same(a, arr(v)) for a, v in zip(posts, s.posts.state_dict().values())),
            'conjugate steps changed the latent posteriors')


class Counting(torch.optim.SGD):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = []

    def step(self, *a, **k):
        self.log.append('step')
        return super().step(*a, **k)

    def zero_grad(self, *a, **k):
        self.log.append('zero')
        return super().zero_grad(*a, **k)


def combined(c):
    import beer
    z = zoo.draw(c, torch.float64, kinds=['normal', 'mixture', 'hmm', 'phoneloop'])
    params = zoo.params(z.model)
    log = Log(c, params)
    w = [torch.nn.Parameter(torch.tensor(c.rng.normal(size=3))) for _ in range(c.int(1, 2))]
    lr = float(c.choice([.5, .1]))
    std = Counting(w, lr=lr) if c.flip(.8) else None
    groups = [[index(params, p) for p in g] for g in z.model.conjugate_bayesian_parameters(keepgroups=True)]
    cjg = beer.VBConjugateOptimizer(z.model.conjugate_bayesian_parameters(keepgroups=True)) if c.flip(.8) or std is None \
        else None
    kw = {}
    if cjg is not None:
        kw['cjg_optim'] = cjg
    if std is not None:
        kw['std_optim'] = std
    optim = beer.VBOptimizer(**kw)
    derived = set(range(len(params))) if 'sb' in z.kind else set()
    for it in range(c.int(1, 5)):
        for p in w:
            p.grad = torch.ones_like(p)
        optim.init_step()
        c.check(not log.take(), 'starting a step notifies')
        for p in params:
            if cjg is not None:
                c.check(bool((p.stats == 0).all()), 'statistics not cleared by the combined optimizer')
        if std is not None:
            c.check(std.log == ['zero'], f'starting a step made {std.log} of the gradient optimizer')
            for p in w:
                c.check(p.grad is None or bool((p.grad == 0).all()), 'gradients not cleared')
        beer.evidence_lower_bound(z.model, z.data(c, z.minlen + 3)).backward()
        g = [torch.tensor(c.rng.normal(size=3)) for _ in w]
        for p, gg in zip(w, g):
            p.grad = gg.clone()
        b = log.snapshot()
        wb = [arr(p).copy() for p in w]
        optim.step()
        a = log.snapshot()
        if cjg is not None:
            check_step(c, log, groups, it, 1., b, a, log.take(), derived, f'{z.kind}: combined step {it}')
        else:
            c.check(not log.take() and all(same(x[0], y[0]) for x, y in zip(a, b)), 'no conjugate optimizer')
        for p, x, gg in zip(w, wb, g):
            c.close(p, x - (lr * arr(gg) if std is not None else 0), 'gradient step', 1e-12, 1e-12)
        if std is not None:
            c.check(std.log == ['zero', 'step'], f'the gradient optimizer made {std.log}')
            std.log.clear()
        st = optim.state_dict()
        c.check(('cjg_optim' in st) == (cjg is not None) and ('std_optim' in st) == (std is not None), 'state of the parts')
    c.note(kind=z.kind, groups=groups, cjg=cjg is not None, std=std is not None, lr=lr)


def many_steps(c):
    'The rotation over a long training.'
    import beer
    n = c.int(2, 6)
    ms = [beer.Normal.create(torch.zeros(1), torch.ones(1), cov_type='diagonal') for _ in range(n)]
    params = [m.mean_precision for m in ms]
    cuts = sorted(int(i) for i in c.rng.choice(np.arange(1, n), c.int(1, n - 1), replace=False))
    groups = [list(range(a, b)) for a, b in zip([0] + cuts, cuts + [n])]
    seen = []
    for i, p in enumerate(params):
        p.register_callback(lambda i=i: seen.append(i))
        p.stats = torch.tensor([.1, -.3, -.5, .5])
    optim = beer.VBConjugateOptimizer([[params[i] for i in g] for g in groups], lrate=.01)
    steps = c.size(80, 300, 3000)
    for k in range(steps):
        optim.step()
        c.check(sorted(seen) == groups[k % len(groups)], f'step {k + 1}: parameters {seen} updated, group {groups[k % len(groups)]}')
        seen.clear()
    c.check(optim.state_dict()['update_count'] == steps, 'update count')
    c.note(groups=groups, steps=steps)
    c.ev('long_run_steps', steps)


CASES = [(models, 2500, 60000), (subspace, 300, 6000), (combined, 500, 12000), (many_steps, 40, 300)]
CHUNK = 8
