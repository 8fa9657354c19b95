'Exponential-family members against textbook formulas and their own duality.'
import numpy as np
from ..core import torch, arr
from .. import ref

RULE = '''Random valid parameters of one of 7 families (dimension 1..8, single or batch of 1..6,
float32/float64, scalar parameters as 0-d or 1-element tensors).'''
ASSUMPTIONS = ['scipy special functions and numpy linear algebra are correct',
               'float32 results are compared with loosened tolerances']


def _tol(c, dtype):
    n, u = getattr(c, 'wide', (1., 1.))
    return (1e-9, 1e-9 * n * max(u, 1 / u) ** 2) if dtype == torch.float64 else (2e-3, 2e-3)


POWERS = {'concentrations': (1, 0), 'diag_cov': (-1, 2), 'cov': (-1, 2), 'mean': (0, 1), 'scale': (1, 0), 'rates': (1, 2), 'dof': (1, 0), 'scale_matrix': (-1, -2)}


def _new(c, fam, d):
    'Parameters of a member; those of much data and in other units when the case is "wide".'
    p = fam.draw(c, d)
    n, u = getattr(c, 'wide', (1., 1.))
    gamma = set(fam.fields) == {'shape', 'rate'}
    for k in p:
        a, b = POWERS.get(k) or {'shape': (1, 0), 'rate': (1, -1) if gamma else (1, 2)}[k]
        p[k] = p[k] * n ** a * u ** b
    return p


def _draw(c, fam=None, batch=None):
    fam = fam or c.choice(ref.FAMILIES)
    d = c.size(fam.mindim, 8, 30)
    dtype = c.dtype()
    n = (0 if c.flip(.4) else c.size(1, 6, 60)) if batch is None else batch
    if dtype == torch.float64 and c.flip(.25):
        low = 1e-4 if 'concentrations' in fam.fields or fam.fields == ('shape', 'rate') else 1.
        c.wide = float(c.logu(1, 1e5) if low == 1. or c.flip() else c.logu(low, 1.)), float(c.logu(1e-2, 1e2))
        c.note(wide=c.wide)
        c.ev('wide_parameters')
    ps = [_new(c, fam, d) for _ in range(max(n, 1))]
    if dtype == torch.float32:
        ps = [{k: v.astype(np.float32).astype(np.float64) for k, v in p.items()} for p in ps]
    scalar = n == 0 and c.flip()
    pdf = ref.build(fam, ps if n else ps[0], dtype, scalar=scalar)
    c.note(family=fam.name, dim=d, batch=n, dtype=str(dtype), scalar=scalar,
           params={k: v for k, v in ps[0].items()})
    c.ev('family_' + fam.name)
    return fam, d, dtype, n, ps, pdf


def _stack(n, vals):
    return np.stack(vals) if n else vals[0]


def roundtrip(c):
    fam, d, dtype, n, ps, pdf = _draw(c)
    rt, at = _tol(c, dtype)
    nat = pdf.natural_parameters()
    c.check(nat.dtype == dtype, 'natural parameters change the precision')
    c.close(nat, _stack(n, [fam.natural(p) for p in ps]), 'natural parameters', rt, at * 10)
    c.check(len(pdf) == max(n, 1), 'number of members')
    std = pdf.params.from_natural_parameters(nat)
    for f in fam.fields:
        want = _stack(n, [p[f] for p in ps])
        got = getattr(std, f)
        c.check(got.dtype == dtype, f'{f}: precision')
        if n:
            c.close(got, want, f'standard parameter {f} recovered', rt, at * 10)
        else:
            c.close(got.reshape(-1), want.reshape(-1), f'standard parameter {f} recovered', rt, at * 10)
    # A new natural vector installed in the distribution is the one it reports.
    qs = [_new(c, fam, d) for _ in range(max(n, 1))]
    nat2 = ref.t(_stack(n, [fam.natural(q) for q in qs]), dtype)
    before = nat2.clone()
    pdf.update_from_natural_parameters(nat2)
    c.check(torch.equal(before, nat2), 'installing natural parameters modified the argument')
    c.close(pdf.natural_parameters(), before, 'natural parameters after update', rt * 10, at * 10)
    for f in fam.fields:
        c.close(getattr(pdf.params, f).reshape(-1), _stack(n, [q[f] for q in qs]).reshape(-1),
                f'standard parameter {f} after update', rt * 10, at * 100)
    c.close(pdf.natural_parameters(), _stack(n, [fam.natural(q) for q in qs]), 'update', rt * 10, at * 100)
    c.check(len(pdf) == max(n, 1), 'number of members after update')


def moments(c):
    fam, d, dtype, n, ps, pdf = _draw(c)
    rt, at = _tol(c, dtype)
    c.close(pdf.expected_sufficient_statistics(), _stack(n, [fam.estats(p) for p in ps]),
            'expected statistics', rt, at * 10)
    val = pdf.expected_value()
    val = val if isinstance(val, tuple) else (val,)
    want = [fam.mean(p) for p in ps]
    c.check(len(val) == len(want[0]), 'number of expected values')
    for i, v in enumerate(val):
        w = _stack(n, [np.asarray(x[i]) for x in want])
        c.close(arr(v).reshape(w.shape), w, f'expected value {i}', rt, at)
    ln = pdf.log_norm()
    c.check(ln.numel() == max(n, 1), 'one log-normalizer per member')
    w = np.array([fam.lognorm(p) for p in ps])
    # The base measure (an additive constant per dimension) is a convention:
    # differences between members are not.
    if n > 1:
        c.close(arr(ln) - arr(ln)[0], w - w[0], 'log-normalizer differences', rt, at * 20)
    c.close(np.sort(np.atleast_1d(arr(ln).reshape(-1) - w)).round(4 if dtype == torch.float64 else 1),
            np.full(max(n, 1), arr(ln).reshape(-1)[0] - w[0]).round(4 if dtype == torch.float64 else 1),
            'log-normalizer up to a constant', 1e-3, 1e-3 if dtype == torch.float64 else .2)


def duality(c):
    'Directional derivative of the log-normalizer = <E[T], direction>.'
    fam = c.choice(ref.FAMILIES)
    d = c.int(fam.mindim, 6)
    p = fam.draw(c, d)
    pdf = ref.build(fam, p)
    nat = arr(pdf.natural_parameters())
    c.note(family=fam.name, dim=d, params=p)
    direction = fam.direction(c, p)
    est = arr(pdf.expected_sufficient_statistics())

    def A(v):
        q = ref.build(fam, p)
        q.update_from_natural_parameters(ref.t(v))
        return float(q.log_norm().sum())
    scale = 1e-5 * min(1., np.abs(nat).min() + .05) / np.abs(direction).max()
    h = scale
    fd = (A(nat - 2 * h * direction) - 8 * A(nat - h * direction)
          + 8 * A(nat + h * direction) - A(nat + 2 * h * direction)) / (12 * h)
    want = float(est @ direction)
    ref_est = fam.estats(p)
    mag = np.abs(est * direction).sum() + 1.
    c.check(abs(fd - want) <= 2e-4 * mag + 1e-9 / h, f'gradient of the log-normalizer: {fd} vs {want}')
    c.close(est, ref_est, 'expected statistics', 1e-8, 1e-8)
    c.ev('derivatives')


def divergence(c):
    from beer.dists import kl_div
    fam, d, dtype, n, ps, pdf = _draw(c)
    qs = [_new(c, fam, d) for _ in range(max(n, 1))]
    near = c.flip(.3)
    if near:
        qs = [{k: v * (1 + 1e-3) for k, v in p.items()} for p in ps]
    qdf = ref.build(fam, qs if n else qs[0], dtype)
    kl = kl_div(pdf, qdf)
    want = np.array([fam.kl(p, q) for p, q in zip(ps, qs)])
    mag = np.array([(np.abs(fam.estats(p)) * np.abs(fam.natural(q) - fam.natural(p))).sum()
                    + abs(fam.lognorm(p)) + abs(fam.lognorm(q)) for p, q in zip(ps, qs)])
    eps = 1e-11 if dtype == torch.float64 else 1e-4
    got = arr(kl).reshape(-1)
    c.check(got.shape == want.shape, f'one divergence per pair: {got.shape}')
    c.check(np.all(np.abs(got - want) <= eps * mag + 1e-9 + 1e-7 * np.abs(want)),
            f'divergence {got} instead of {want}')
    c.check(np.all(got >= -eps * mag - 1e-12), f'negative divergence {got}')
    self_kl = arr(kl_div(pdf, pdf)).reshape(-1)
    c.check(np.all(np.abs(self_kl) <= eps * mag), f'divergence with itself {self_kl}')
    c.ev('divergences', len(want))


def divergence_errors(c):
    from beer.dists import kl_div
    f1, f2 = c.choice(ref.FAMILIES), c.choice(ref.FAMILIES)
    d1, d2 = c.int(2, 4), c.int(2, 4)
    p, q = ref.build(f1, f1.draw(c, d1)), ref.build(f2, f2.draw(c, d2))
    c.note(a=f1.name, b=f2.name, d1=d1, d2=d2)
    if f1 is f2 and d1 == d2:
        c.trivial = True
        c.finite(kl_div(p, q), 'divergence')
        return
    try:
        kl_div(p, q)
    except Exception as err:
        c.check(type(err).__name__ in ('DistributionTypeMismatch', 'SupportDimensionMismatch'),
                f'unexpected error {err!r}')
        return
    c.fail('divergence of incomparable distributions did not fail')


def entropies(c):
    from beer.dists import entropy
    fam, d, dtype, n, ps, pdf = _draw(c, fam=c.choice([f for f in ref.FAMILIES if f.entropy_ok]))
    got = arr(entropy(pdf)).reshape(-1)
    want = np.array([fam.entropy(p) for p in ps])
    mag = np.array([(np.abs(fam.estats(p) * fam.natural(p))).sum() + abs(fam.lognorm(p)) for p in ps])
    eps = 1e-10 if dtype == torch.float64 else 1e-4
    c.check(got.shape == want.shape, f'one entropy per member: {got.shape}')
    c.check(np.all(np.abs(got - want) <= eps * mag + 1e-9), f'entropy {got} instead of {want}')


def members(c):
    'Elements, slices and views of a batch behave as the individual members.'
    fam, d, dtype, n, ps, pdf = _draw(c, batch=c.size(2, 6, 60))
    rt, at = _tol(c, dtype)
    i = c.int(0, n - 1)
    a = c.int(0, n - 1)
    b = c.int(a + 1, n)
    sub = pdf[a:b]
    c.check(len(sub) == b - a, f'slice has {len(sub)} members instead of {b - a}')
    c.check(len(pdf[i]) == 1, 'an element is one member')
    single = ref.build(fam, ps[i], dtype)
    subref = ref.build(fam, ps[a:b], dtype)
    for name in ('natural_parameters', 'expected_sufficient_statistics', 'log_norm', 'expected_value'):
        def flat(x):
            x = x if isinstance(x, tuple) else (x,)
            return [arr(y).reshape(-1) for y in x]
        for g, w in zip(flat(getattr(pdf[i], name)()), flat(getattr(single, name)())):
            c.close(g, w, f'{name} of element {i}', rt, at * 10)
        for g, w in zip(flat(getattr(sub, name)()), flat(getattr(subref, name)())):
            c.close(g, w, f'{name} of slice {a}:{b}', rt, at * 10)
    # Elements follow the batch when it is updated in place through buffers.
    view = pdf[i]
    with torch.no_grad():
        getattr(pdf.params, fam.fields[0])[i] *= 1.5
    q = dict(ps[i])
    q[fam.fields[0]] = q[fam.fields[0]] * 1.5
    c.close(view.expected_sufficient_statistics(), fam.estats(q), 'view after in-place change', rt, at * 10)
    # Updating through an element leaves the other members alone.
    pdf2 = ref.build(fam, ps, dtype)
    new = _new(c, fam, d)
    el = pdf2[i]
    el.update_from_natural_parameters(ref.t(fam.natural(new), dtype))
    c.close(el.natural_parameters(), fam.natural(new), 'element after update', rt * 10, at * 100)
    others = [j for j in range(n) if j != i]
    c.close(pdf2.natural_parameters()[others], np.stack([fam.natural(ps[j]) for j in others]),
            'other members after the update of one', rt, at * 10)


def samples(c):
    'Draws of the Normal families: moments, independence of members, draws and dimensions.'
    fam = c.choice([f for f in ref.FAMILIES if set(f.fields) in ({'mean', 'diag_cov'}, {'mean', 'cov'})])
    fam, d, dtype, n, ps, pdf = _draw(c, fam=fam, batch=c.choice([0, 1, c.size(2, 6, 60)]))
    N = c.choice([1, c.int(2, 20), 3000])
    seed = c.int(0, 10 ** 6)
    before = arr(pdf.natural_parameters()).copy()
    torch.manual_seed(seed)
    x = pdf.sample(N)
    torch.manual_seed(seed)
    c.check(torch.equal(x, pdf.sample(N)), 'same seed, other samples')
    c.check((arr(pdf.natural_parameters()) == before).all(), 'sampling changed the parameters')
    c.check(tuple(x.shape) == ((n, N, d) if n else (N, d)), f'{N} samples of shape {tuple(x.shape)}')
    c.check(x.dtype == dtype, 'samples change the precision')
    a = arr(x).astype(np.float64).reshape(max(n, 1), N, d)
    # Standardised samples.
    z = []
    for p, s in zip(ps, a):
        if 'cov' in p:
            z.append(np.linalg.solve(np.linalg.cholesky(p['cov']), (s - p['mean']).T).T)
        else:
            z.append((s - p['mean']) / np.sqrt(p['diag_cov']))
    z = np.stack(z)
    c.check(np.abs(z).max() < 7.5, f'a sample is {np.abs(z).max()} deviations away')
    c.note(samples=N)
    if dtype == torch.float64:
        c.check(len(np.unique(z.round(7))) >= .9 * z.size, 'the noise is shared by several members, samples or dimensions')
    if N < 3000:
        return
    f = z.transpose(1, 0, 2).reshape(N, -1)[:, :60]
    c.check(np.abs(f.mean(0)).max() < 6.5 / np.sqrt(N), f'mean of the standardised samples {f.mean(0)}')
    C = f.T @ f / N
    c.check(np.abs(C - np.eye(len(C))).max() < 7 * np.sqrt(2 / N), 'covariance of the standardised samples of all the members')
    c.check(np.abs((f ** 4).mean(0) - 3).max() < 8 * np.sqrt(96 / N), f'kurtosis of the samples {(f ** 4).mean(0)}')
    c.ev('moments')


CASES = [(roundtrip, 960, 5000), (moments, 960, 5000), (duality, 720, 3000), (divergence, 1440, 8000),
         (divergence_errors, 180, 100), (entropies, 720, 3000), (members, 720, 4000), (samples, 720, 4000)]
