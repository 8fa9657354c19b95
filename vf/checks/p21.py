'runtime oracle: networks built from random textual descriptions compared with an independent interpreter of the description; densities, samples and parameters of the probabilistic layers against closed forms, numerical integration and sampling moments'
import itertools
import numpy as np
import scipy.special as sp
from ..core import torch, arr

RULE = '''Random descriptions of 1-4 blocks (0-5 elements: linear, convolution, activations with arguments, reshape,
transpose, identity; random white space and argument order), optional residual elements, merged elements of 2-4 inputs,
residual networks, every probabilistic layer with every variance non-linearity.'''
ASSUMPTIONS = ['descriptions are valid', 'in-place activations are not used']


def weights(shape, bias=False):
    'Parameters are a function of their shape, so no correspondence of names is needed.'
    r = np.random.default_rng([77, int(bias)] + list(shape))
    return r.normal(size=shape) * .6


def setweights(m):
    for name, p in m.named_parameters():
        if p.dim() > 1:
            p.data = torch.tensor(weights(tuple(p.shape)))
        else:
            p.data = torch.tensor(weights(tuple(p.shape), True))


def linear(x, i, o, bias=True):
    y = x @ weights((o, i)).T
    return y + weights((o,), True) if bias else y


def softplus(x, beta=1., threshold=20.):
    return np.where(x * beta > threshold, x, np.logaddexp(0, beta * x) / beta)


ACTS = {
    'Tanh': (np.tanh, {}),
    'Sigmoid': (sp.expit, {}),
    'ReLU': (lambda x: np.maximum(x, 0), {}),
    'ELU': (lambda x, alpha=1.: np.where(x > 0, x, alpha * np.expm1(np.minimum(x, 0))), {'alpha': ['.5', '2.', '1']}),
    'LeakyReLU': (lambda x, negative_slope=.01: np.where(x > 0, x, negative_slope * x), {'negative_slope': ['.2', '0.3']}),
    'Softplus': (softplus, {'beta': ['2', '.5'], 'threshold': ['20', '5']}),
    'Hardtanh': (lambda x, min_val=-1., max_val=1.: np.clip(x, min_val, max_val), {'min_val': ['-.5', '-2.'], 'max_val': ['.5', '3']}),
    'LogSigmoid': (lambda x: -np.logaddexp(0, -x), {}),
    'Softsign': (lambda x: x / (1 + np.abs(x)), {}),
    'Threshold': (lambda x, threshold, value: np.where(x > threshold, x, value), {'threshold': ['.1'], 'value': ['-3', '7.']}),
    'LogSoftmax': (lambda x, dim: x - sp.logsumexp(x, axis=dim, keepdims=True), {'dim': ['1', '-1']}),
    'Softmax': (lambda x, dim: sp.softmax(x, axis=dim), {'dim': ['1', '-1']}),
}


def text(c, name, kw):
    'Textual form of an element, with random white space and order of arguments.'
    ks = list(kw)
    c.rng.shuffle(ks)
    sp_ = lambda: ' ' * c.choice([0, 0, 0, 1, 2])
    s = sp_() + name + sp_()
    if ks:
        s += ':' + sp_() + (';' + sp_()).join(f'{k}{sp_()}={sp_()}{kw[k]}' for k in ks)
    return s + sp_()


def activation(c):
    name = c.choice(ACTS)
    fn, args = ACTS[name]
    kw = {k: c.choice(v) for k, v in args.items()
          if name in ('Threshold', 'Softmax', 'LogSoftmax') or c.flip()}
    val = {k: float(v) if k != 'dim' else int(v) for k, v in kw.items()}
    return text(c, name, kw), lambda x: fn(x, **val)


def lin(c, i, o):
    bias = c.choice([None, None, True, False])
    kw = {'in_features': str(i), 'out_features': str(o)}
    if bias is not None:
        kw['bias'] = str(bias)
    return text(c, 'Linear', kw), lambda x: linear(x, i, o, bias is not False)


def element(c, d, same=False):
    'One element of a structure: text, function, output dimension.'
    k = c.choice(['lin', 'lin', 'act', 'act', 'id', 'reshape'])
    if k == 'lin':
        o = d if same else c.int(1, 7)
        t, f = lin(c, d, o)
        return [t], f, o
    if k == 'act':
        t, f = activation(c)
        return [t], f, d
    if k == 'id':
        return [text(c, 'IdentityLayer', {})], lambda x: x, d
    if c.flip():
        # transposition before and after
        ts, fs = [text(c, 'TransposeLayer', {})], [lambda x: x.T]
        t, f = activation(c)
        ts += [t, text(c, 'TransposeLayer', {})]
        return ts, lambda x: f(x.T).T, d
    shape = c.choice([(-1, d, 1), (-1, 1, d), (-1, 1, 1, d)])
    t2 = text(c, 'ReshapeLayer', {'shape': f'(-1,{d})'})
    return [text(c, 'ReshapeLayer', {'shape': str(shape)}), t2], lambda x: x, d


def description(c):
    import beer
    d = d0 = c.size(1, 6, 40)
    blocks, fns, nparams = [], [], []
    for _ in range(c.size(1, 4, 12)):
        if blocks and c.flip(.2):
            # the very same description once more (where the dimensions allow)
            k = c.int(0, len(blocks) - 1)
            if nparams[k][0] == d:
                blocks.append(c.choice([blocks[k], dict(blocks[k])]))
                fns.append(fns[k])
                nparams.append(nparams[k])
                d = nparams[k][1]
                continue
        inp, ts, fs = d, [], []
        for _ in range(c.int(0, 5)):
            t, f, d = element(c, d)
            ts += t
            fs.append(f)
        conf = {'block_structure': ts}
        res = None
        if c.flip(.4):
            if inp == d and c.flip():
                conf['residual'], res = text(c, 'IdentityLayer', {}), lambda x: x
            elif inp == d and c.flip():
                conf['residual'], res = activation(c)
            else:
                conf['residual'], res = lin(c, inp, d)
        blocks.append(conf)
        fns.append((fs, res))
        els = [t.replace(' ', '') for t in ts + ([conf['residual']] if res else [])]
        nparams.append((inp, d, sum(t.startswith('Linear') * (1 if 'bias=False' in t else 2) for t in els)))
    c.note(dim=d0, blocks=blocks)

    def want(x):
        for fs, res in fns:
            h = x
            for f in fs:
                h = f(h)
            x = h + res(x) if res else h
        return x
    conf = {'nnet_structure': blocks}
    frozen = repr(conf)
    net = beer.nnet.create(conf)
    c.check(repr(conf) == frozen, 'the description is left unchanged')
    net = net.to(torch.float64)
    setweights(net)
    X = c.rng.normal(size=(c.size(1, 6, 200), d0)) * c.choice([.3, 1., 4.])
    x = torch.tensor(X)
    with torch.no_grad():
        y = net(x)
    c.check((arr(x) == X).all(), 'the input is not modified')
    c.close(y, want(X), 'output of the network', 1e-8, 1e-8)
    c.ev('elements', sum(len(b['block_structure']) for b in blocks))
    # gradients reach every weight of the described layers independently
    ps = list(net.parameters())
    c.check(len({p.data_ptr() for p in ps}) == sum(k[2] for k in nparams), 'every described layer has its own weights')


def conv(c):
    'A convolutional description in the style of the recipes.'
    import beer
    d, o, k, h = c.int(1, 4), c.int(1, 4), c.choice([1, 3, 5]), c.int(1, 4)
    blocks = [{'block_structure': [f'ReshapeLayer:shape=(1, 1, -1, {d})']},
              {'block_structure': [f'Conv2d:in_channels=1;out_channels={o};kernel_size=({k}, {d});padding=({k // 2}, 0)', 'Tanh']},
              {'block_structure': [f'ReshapeLayer:shape=({o}, -1)', 'TransposeLayer']},
              {'block_structure': [f'Linear:in_features={o};out_features={h}', 'ELU']}]
    res = c.flip()
    if res:
        blocks.append({'block_structure': [f'Linear:in_features={h};out_features={h}', 'Tanh'], 'residual': 'IdentityLayer'})
    c.note(dim=d, out=o, kernel=k, hidden=h, residual=res)
    net = beer.nnet.create({'nnet_structure': blocks}).to(torch.float64)
    setweights(net)
    n = c.int(1, 9)
    X = c.rng.normal(size=(n, d))
    W, b = weights((o, 1, k, d)), weights((o,), True)
    P = np.pad(X, ((k // 2, k // 2), (0, 0)))
    Y = np.stack([np.array([(P[t:t + k] * W[i, 0]).sum() for t in range(n)]) for i in range(o)], 1)
    Y = Y + b
    Y = linear(np.tanh(Y), o, h)
    Y = np.where(Y > 0, Y, np.expm1(np.minimum(Y, 0)))
    if res:
        Y = Y + np.tanh(linear(Y, h, h))
    with torch.no_grad():
        c.close(net(torch.tensor(X)), Y, 'output of the convolutional network', 1e-8, 1e-8)
    c.raises(ValueError, lambda: beer.nnet.create_nnet_element(c.choice(['Linea:in_features=1', 'reshape', 'TransposeLayers'])),
             'an unknown element is an error')


def merge(c):
    import beer
    k, o = c.int(2, 4), c.int(2, 6)
    dims = [c.int(1, 6) for _ in range(k)]
    ts, fs = zip(*[lin(c, d, o) for d in dims])
    t = (' ' * c.int(0, 1) + '|' + ' ' * c.int(0, 1)).join(ts)
    c.note(text=t)
    m = beer.nnet.create_nnet_element(t).to(torch.float64)
    setweights(m)
    n = c.int(1, 4)
    X = [c.rng.normal(size=(n, d)) for d in dims]
    xs = [torch.tensor(x) for x in X]
    with torch.no_grad():
        y = m(*xs)
        y2 = m(*xs)
    c.close(y, sum(f(x) for f, x in zip(fs, X)), 'merged elements', 1e-9, 1e-9)
    c.check((y == y2).all(), 'evaluation is repeatable')
    for x, x0 in zip(xs, X):
        c.check((arr(x) == x0).all(), 'inputs are not modified')


def residual(c):
    import beer
    d, nb, w = c.int(1, 5), c.size(0, 4, 12), c.size(1, 6, 40)
    net = beer.nnet.ResidualFeedForwardNet(d, nblocks=nb, block_width=w).to(torch.float64)
    c.note(dim=d, nblocks=nb, width=w)
    c.check(net.dim_in == d and net.dim_out == d, 'dimensions')
    ps = list(net.parameters())
    c.check(len(ps) == 4 * nb and len({p.data_ptr() for p in ps}) == 4 * nb, 'every block has its own weights')
    lins = [m for m in net.modules() if isinstance(m, torch.nn.Linear)]
    for p in ps:
        p.data = torch.tensor(c.rng.normal(size=tuple(p.shape)))
    X = c.rng.normal(size=(c.int(1, 5), d))
    x, want = torch.tensor(X), X
    for a, b in zip(lins[::2], lins[1::2]):
        if (a.in_features, a.out_features) != (d, w):
            a, b = b, a
        h = np.tanh(want @ arr(a.weight).T + arr(a.bias))
        want = want + np.tanh(h @ arr(b.weight).T + arr(b.bias))
    with torch.no_grad():
        c.close(net(x), want, 'output', 1e-9, 1e-9)
    c.check((arr(x) == X).all(), 'the input is not modified')


class Exp(torch.nn.Module):
    def forward(self, x):
        return x.exp()


LAYERS = ['NormalDiagonalCovarianceLayer', 'NormalIsotropicCovarianceLayer', 'NormalIdentityCovarianceLayer']
NONLIN = {'default': (None, lambda v: np.log(np.expm1(v))),
          'exp': (Exp(), np.log),
          'sigmoid': (torch.nn.Sigmoid(), lambda v: np.log(v) - np.log1p(-v)),
          'softplus2': (torch.nn.Softplus(beta=2.), lambda v: np.log(np.expm1(2 * v)) / 2)}


def make(c, din, dim, kinds=LAYERS):
    import beer
    kind = c.choice(kinds)
    nl = 'none'
    args = {}
    if kind != LAYERS[2]:
        nl = c.choice(NONLIN)
        if NONLIN[nl][0] is not None:
            args['variance_nonlinearity'] = NONLIN[nl][0]
    l = getattr(beer.nnet, kind)(din, dim, **args).to(torch.float64)
    for p in l.parameters():
        p.data = torch.tensor(c.rng.normal(size=tuple(p.shape)) * .5)
    return l, kind, nl


def meanvar(kind, params):
    if kind == LAYERS[2]:
        m = arr(params)
        return m, np.ones_like(m)
    return arr(params[0]), arr(params[1])


def normal(c):
    din, dim, n = c.int(1, 4), c.size(1, 5, 20), c.size(1, 6, 200)
    l, kind, nl = make(c, din, dim)
    c.note(kind=kind, nonlinearity=nl, dim_in=din, dim=dim, n=n)
    A, B = c.rng.normal(size=(2, n, din)) * 1.5
    w = c.rng.uniform(-1, 2, size=(n, 1))
    with torch.no_grad():
        P = [l(torch.tensor(x)) for x in (A, B, w * A + (1 - w) * B)]
        mv = [meanvar(kind, p) for p in P]
        for m, v in mv:
            c.check(m.shape == v.shape == (n, dim), 'shape of the parameters')
            c.check((v > 0).all(), 'variances are positive')
            if kind == LAYERS[1]:
                c.check((v == v[:, :1]).all(), 'isotropic variance')
        c.close(mv[2][0], w * mv[0][0] + (1 - w) * mv[1][0], 'the mean is affine in the input', 1e-7, 1e-7)
        if nl != 'none':
            inv = NONLIN[nl][1]
            c.close(inv(mv[2][1]), w * inv(mv[0][1]) + (1 - w) * inv(mv[1][1]),
                    'the variance is the given non-linearity of an affine map', 1e-5, 1e-5)
            if n > 1 and kind != LAYERS[2]:
                c.check(np.ptp(mv[0][1]) > 0, 'the variance depends on the input')
        m, v = mv[0]
        lead = c.choice([(), (), (3,), (2, 3)])
        X = m + c.rng.normal(size=lead + (n, dim)) * np.sqrt(v) * c.choice([1., 5., 1e3])
        ll = l.log_likelihood(torch.tensor(X), P[0])
        c.close(ll, (-.5 * ((X - m) ** 2 / v + np.log(2 * np.pi * v))).sum(-1), 'log-density', 1e-9, 1e-8)
        seed = c.int(0, 10 ** 6)
        use_mean = c.flip(.3)
        torch.manual_seed(seed)
        z, zl = l.samples_and_llh(P[0], use_mean=use_mean)
        z = arr(z)
        c.close(zl, (-.5 * ((z - m) ** 2 / v + np.log(2 * np.pi * v))).sum(-1), 'log-density of a sample', 1e-9, 1e-8)
        if use_mean:
            c.check((z == m).all(), 'the sample is the mean')
        else:
            c.check((z != m).all() and len(set(((z - m) / np.sqrt(v)).round(9).reshape(-1))) == z.size,
                    'every dimension is drawn independently')
    # reparameterised: derivatives of the samples with the noise fixed
    if not use_mean:
        H = torch.tensor(A)
        H.requires_grad_(True)
        p = l(H)
        torch.manual_seed(seed)
        z2, _ = l.samples_and_llh(p)
        c.check((arr(z2) == z).all(), 'same seed, same samples')
        d = torch.tensor(c.rng.normal(size=(n, din)))
        g, = torch.autograd.grad(z2.sum(), H)
        h = 1e-5
        with torch.no_grad():
            fd = []
            for s in (1, -1):
                m2, v2 = meanvar(kind, l(H + s * h * d))
                fd.append((m2 + np.sqrt(v2) * (z - m) / np.sqrt(v)).sum())
        c.close((g * d).sum(), (fd[0] - fd[1]) / (2 * h), 'derivative of the samples', 1e-4, 1e-5)


def moments(c):
    din, dim = c.int(1, 3), c.int(1, 3)
    l, kind, nl = make(c, din, dim)
    N = 5000
    c.note(kind=kind, nonlinearity=nl, dim=dim, N=N)
    with torch.no_grad():
        p = l(torch.tensor(c.rng.normal(size=(1, din))).repeat(N, 1))
        z, _ = l.samples_and_llh(p)
    m, v = meanvar(kind, p)
    u = (arr(z) - m) / np.sqrt(v)
    c.check((np.abs(u.mean(0)) < 6 / np.sqrt(N)).all(), f'mean of the samples {u.mean(0)}')
    C = u.T @ u / N
    c.check((np.abs(C - np.eye(dim)) < 6 * np.sqrt(2 / N)).all(), f'covariance of the samples {C}')
    k = (u ** 4).mean(0)
    c.check((np.abs(k - 3) < 6 * np.sqrt(96 / N)).all(), f'kurtosis of the samples {k}')


def bernoulli(c):
    import beer
    din, dim, n = c.int(1, 4), c.size(1, 6, 20), c.size(1, 4, 200)
    l = beer.nnet.BernoulliLayer(din, dim).to(torch.float64)
    for q in l.parameters():
        q.data = torch.tensor(c.rng.normal(size=tuple(q.shape)))
    H = c.rng.normal(size=(n, din))
    c.note(dim_in=din, dim=dim, n=n)
    with torch.no_grad():
        p = l(torch.tensor(H))
        P = arr(p)
        c.check(P.shape == (n, dim) and ((P >= 0) & (P <= 1)).all(), 'means within [0, 1]')
        W = c.rng.uniform(0, 1, size=(n, 1))
        H2 = c.rng.normal(size=(n, din))
        mix = arr(l(torch.tensor(W * H + (1 - W) * H2)))
        lo = lambda q: np.log(q) - np.log1p(-q)
        c.close(lo(mix), W * lo(P) + (1 - W) * lo(arr(l(torch.tensor(H2)))), 'log-odds are affine in the input', 1e-5, 1e-5)
        V = np.array(list(itertools.product([0., 1.], repeat=dim)))
        ll = np.stack([arr(l.log_likelihood(torch.tensor(np.tile(v, (n, 1))), p)) for v in V])
    want = np.stack([(V * np.log(P[i]) + (1 - V) * np.log1p(-P[i])).sum(-1) for i in range(n)], 1)
    floor = np.minimum(P, 1 - P).min()
    if floor > 1e-4:
        c.close(ll, want, 'log-probability', 1e-6, 2e-6 * dim / floor)
        c.close(np.exp(ll).sum(0), np.ones(n), 'probabilities sum to one', 0, 1e-4 * dim)
    c.finite(ll, 'log-probabilities')
    # extreme means stay finite
    with torch.no_grad():
        e = l.log_likelihood(torch.tensor(c.choice([V[0], V[-1]])[None]), torch.tensor(c.rng.integers(0, 2, size=(1, dim)) * 1.))
    c.finite(e, 'log-probability with degenerate means')
    c.raises(NotImplementedError, lambda: l.samples_and_llh(p), 'the layer cannot be sampled with gradients')


CASES = [(description, 4000, 40000), (conv, 600, 3000), (merge, 600, 3000), (residual, 600, 3000),
         (normal, 3600, 20000), (moments, 240, 1000), (bernoulli, 900, 5000)]
