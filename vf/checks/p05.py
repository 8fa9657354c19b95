'monotonicity monitor over whole training histories: independently computed variational objective before and after every step, fixed points at convergence'
import numpy as np
from scipy import special as sp
from ..core import torch, arr
from .. import ref, gen, seqgen

RULE = '''Random training histories (3..12 unit-rate full-data steps) of conjugate models, mixtures (finite and
stick-breaking weights), nested mixture emissions and HMMs with fixed transitions, from random or degenerate
initial posteriors, with random schedules of parameter groups (all together, one by one, repeated, subsets).'''
ASSUMPTIONS = ['double precision; decreases below 1e-9 of the magnitude of the summed terms are rounding']


def _kl(m):
    from beer.dists import kl_div
    return sum(float(kl_div(p.posterior, p.prior).sum()) for p in _params(m))


def _params(m):
    return [p for g in m.mean_field_factorization() for p in g]


def _schedule(c, m):
    'Random grouping of the parameters (every parameter may be alone or with others).'
    ps = _params(m)
    kind = c.choice(['model', 'alone', 'random', 'subset'])
    if kind == 'model':
        groups = m.mean_field_factorization()
    elif kind == 'alone':
        groups = [[ps[i]] for i in c.rng.permutation(len(ps))]
    elif kind == 'random':
        # Parameters of a component (weights, densities) are conditionally
        # independent given the assignments: any grouping is a valid
        # coordinate ascent.
        order = [ps[i] for i in c.rng.permutation(len(ps))]
        cut = c.int(0, len(order))
        groups = [g for g in (order[:cut], order[cut:]) if g]
        if c.flip():
            groups.append(groups[0])
    else:
        groups = [[ps[c.int(0, len(ps) - 1)]]]
    return kind, groups


def _emissions(c, cov, d, K):
    'Set of K densities: Normals, mixtures of Normals, or a joint of both.'
    import beer
    kind = c.choice(['normal', 'normal', 'mixtureset', 'joint', 'created'])
    mean = c.rng.normal(size=d)
    S = c.logu(.5, 2, d) if d > 1 else c.logu(.5, 2, 1)
    mk = lambda n: beer.NormalSet.create(ref.t(mean), ref.t(S), n, prior_strength=float(c.logu(.6, 5)),
                                         noise_std=float(c.uni(.1, 2)), cov_type=cov)
    if kind == 'mixtureset':
        return kind, beer.MixtureSet.create(K, mk(2 * K), prior_strength=float(c.logu(.5, 5)))
    if kind == 'joint' and K > 1:
        a = c.int(1, K - 1)
        return kind, beer.JointModelSet([mk(a), mk(K - a)])
    if kind == 'created':
        return kind, mk(K)
    return 'normal', gen.normalset(c, cov, d, K)[0]


def _run(c, m, objective, step, nsteps, mag):
    v = objective()
    trace = [v]
    for i in range(nsteps):
        step()
        w = objective()
        trace.append(w)
        c.ev('steps')
        tol = 1e-9 * (mag + abs(v))
        if not w >= v - tol:
            c.fail(f'the objective went from {v!r} to {w!r} at step {i + 1}: {trace}')
        c.ev('assertions')
        if w <= v + tol:
            c.ev('stationary_steps')
        v = w
    c.note(trace=[round(t, 6) for t in trace])
    return trace


def _fixed_point(c, m, objective, full_step, mag):
    'At a stationary point another update changes nothing.'
    v = objective()
    for _ in range(600):
        full_step()
        w = objective()
        c.check(w >= v - 1e-9 * (mag + abs(v)), f'the objective went from {v!r} to {w!r}')
        if w - v < 1e-12 * (mag + abs(v)):
            break
        v = w
    else:
        c.ev('not_converged')
        return
    c.ev('converged')
    before = [arr(p.posterior.natural_parameters()) for p in _params(m)]
    full_step()
    for b, p in zip(before, _params(m)):
        c.close(p.posterior.natural_parameters(), b, 'posterior at the fixed point', 2e-3, 2e-3 * (1 + np.abs(b).max()))


def _step(m, x, groups, **kw):
    from beer import VBConjugateOptimizer, evidence_lower_bound
    opt = VBConjugateOptimizer(groups, 1.)

    def go():
        opt.init_step()
        e = evidence_lower_bound(m, x, **kw)
        e.backward()
        opt.step()
    return go


def mixture(c):
    import beer
    sb = c.choice(['finite', 'finite', 'sb', 'set'])
    cov = c.choice(list(gen.COV))
    d, K, N = c.size(1, 3, 10), c.size(2, 5, 20), c.size(2, 40, 400)
    ek, ms = _emissions(c, cov, d, K)
    if sb == 'sb':
        cat = beer.models.categorical.SBCategorical.create(K, prior_strength=float(c.logu(.3, 5))).double()
    else:
        cat = gen.categorical(c, K)[0]
    m = beer.Mixture.create(ms, cat)
    X = c.rng.normal(size=(N, d)) + c.rng.normal(size=(3, d))[c.rng.integers(0, 3, N)] * c.choice([1., 5.])
    x = ref.t(X)
    kind, groups = _schedule(c, m)
    c.note(weights=sb, cov=cov, emissions=ek, d=d, K=K, N=N, schedule=kind)

    def objective():
        stats = m.modelset.sufficient_statistics(x)
        llh = arr(m.modelset.expected_log_likelihood(stats))
        eye = torch.eye(K, dtype=torch.float64)
        lw = arr(m.categorical.expected_log_likelihood(m.categorical.sufficient_statistics(eye))).reshape(-1)
        v = sp.logsumexp(llh + lw, axis=1).sum() - _kl(m)
        e = float(beer.evidence_lower_bound(m, x))
        c.check(abs(v - e) <= 1e-8 * (abs(v) + 100 * N), f'reported objective {e} instead of {v}')
        return v
    mag = 100. * N
    _run(c, m, objective, _step(m, x, groups), c.int(3, 12), mag)
    if sb != 'sb' and c.flip(.3):
        _fixed_point(c, m, objective, _step(m, x, [_params(m)]), mag)


def hmm(c):
    import beer
    cov = c.choice(list(gen.COV))
    d, S = c.int(1, 3), c.int(1, 4)
    g = seqgen.graph(c, S, density=c.uni(.4, 1))
    K = max(g.pdf_id_mapping) + 1
    ek, ms = _emissions(c, cov, d, K)
    m = beer.HMM.create(g, ms).double()
    T = c.size(S + 1, 25, 300)
    X = c.rng.normal(size=(T, d)) * 2
    x = ref.t(X)
    if not seqgen.possible(seqgen.lp(g), T):
        c.trivial = True
        return
    kind, groups = _schedule(c, m)
    ali = None
    c.note(cov=cov, emissions=ek, d=d, S=S, T=T, mapping=g.pdf_id_mapping, schedule=kind)

    def objective():
        stats = m.sufficient_statistics(x)
        llh = arr(m.modelset.original_modelset.expected_log_likelihood(stats))[:, g.pdf_id_mapping]
        m.clear_cache()
        return seqgen.posteriors(seqgen.lp(g), llh)[2] - _kl(m)
    mag = 100. * T
    _run(c, m, objective, _step(m, x, groups), c.int(3, 12), mag)
    if c.flip(.25):
        _fixed_point(c, m, objective, _step(m, x, [_params(m)]), mag)


def conjugate(c):
    import beer
    kind = c.choice(['normal', 'categorical'])
    if kind == 'normal':
        cov = c.choice(list(gen.COV))
        d = c.size(1, 5, 12)
        m = gen.normal(c, cov, d)[0]
        X = c.rng.normal(size=(c.size(1, 30, 400), d)) * 3
    else:
        K = c.size(2, 8, 40)
        m = gen.categorical(c, K)[0]
        X = gen.onehot(c.rng.integers(0, K, c.size(1, 30, 400)), K)
    x = ref.t(X)
    c.note(kind=kind, N=len(X), x=X[0])
    obj = lambda: float(beer.evidence_lower_bound(m, x))
    mag = 100. * len(X)
    step = _step(m, x, m.mean_field_factorization())
    tr = _run(c, m, obj, step, 3, mag)
    c.check(abs(tr[1] - tr[2]) <= 1e-9 * (mag + abs(tr[1])), 'one update reaches the fixed point')
    before = arr(_params(m)[0].posterior.natural_parameters())
    step()
    c.close(_params(m)[0].posterior.natural_parameters(), before, 'fixed point', 1e-9, 1e-8)


def sb_categorical(c):
    'Stick-breaking categorical alone, given counts.'
    import beer
    K = c.size(2, 8, 40)
    m = beer.models.categorical.SBCategorical.create(K, prior_strength=float(c.logu(.2, 6))).double()
    X = gen.onehot(c.rng.integers(0, K, c.int(1, 40)), K)
    x = ref.t(X)
    c.note(K=K, counts=X.sum(0))
    obj = lambda: float(beer.evidence_lower_bound(m, x))
    step = _step(m, x, m.mean_field_factorization())
    _run(c, m, obj, step, 3, 100. * len(X))


CASES = [(mixture, 400, 6000), (hmm, 300, 5000), (conjugate, 120, 1200), (sb_categorical, 120, 1200)]
