'runtime oracle: dependence of every output on every input of randomly connected networks measured by automatic differentiation and by large perturbations; density of flow samples recomputed from the Jacobian of the whole flow and checked by inverting it'
import numpy as np
from ..core import torch, arr
from .. import ref

RULE = '''Random networks: 1-7 dimensions, depth 1-4, width 1-40, with and without side input, activations
from the library, weights of several scales; flows of 0-4 such networks over each kind of Normal layer.'''
ASSUMPTIONS = ['weights and inputs are finite', 'depth at least 1']
ACT = ['Tanh', 'Sigmoid', 'ELU', 'ReLU', 'Softplus', 'PReLU', 'LeakyReLU']


def randomize(c, m, scale):
    for p in m.parameters():
        p.data = torch.tensor(c.rng.normal(size=tuple(p.shape)) * scale, dtype=p.dtype)


def network(c, dim, side, smooth=False, width=None, depth=None, dtype=torch.float64, scale=None):
    import beer
    act = 'Tanh' if smooth == 'Tanh' else c.choice(ACT[:2] + ['Softplus'] if smooth else ACT)
    depth, width = depth or c.int(1, 4), width or c.int(1, 40)
    net = beer.nnet.AutoRegressiveNetwork(dim_in=dim, flow_params_dim=side, depth=depth, width=width,
                                          activation=beer.nnet.create_nnet_element(act)).to(dtype)
    randomize(c, net, scale or c.choice([.1, .7, 3.]))
    return net, dict(depth=depth, width=width, act=act)


def autoregressive(c):
    dim, side = c.size(1, 7, 24), c.choice([0, 0, 1, 4])
    dtype = c.dtype()
    net, kw = network(c, dim, side, dtype=dtype)
    c.note(dim=dim, side=side, dtype=dtype, **kw)
    n = c.size(1, 4, 60)
    scale = c.choice([.1, 1., 30.])
    x = torch.tensor(c.rng.normal(size=(n, dim)) * scale, dtype=dtype)
    extra = (torch.tensor(c.rng.normal(size=(n, side)), dtype=dtype),) if side else ()
    with torch.no_grad():
        mean, var = net(x, *extra)
        c.check(tuple(mean.shape) == (n, dim) and tuple(var.shape) == (n, dim), 'output shapes')
        c.finite(mean, 'means')
        c.check((var > 0).all() and (var <= 1.01 + 1e-6).all(), f'variances within (0, 1.01] ({arr(var).reshape(-1)[:5]})')
        for j in range(dim):
            for size in (1e-2, 1., 1e3):
                y = x.clone()
                y[:, j] += size * float(c.rng.normal())
                m2, v2 = net(y, *extra)
                c.check((m2[:, :j + 1] == mean[:, :j + 1]).all(),
                        f'mean of dimensions <= {j} does not change with input {j}')
                c.check((v2[:, :j + 1] == var[:, :j + 1]).all(),
                        f'variance of dimensions <= {j} does not change with input {j}')
                c.ev('perturbations')
        if n > 1:
            y = x.clone()
            y[0] += 1
            m2, v2 = net(y, *extra)
            c.close(m2[1:], mean[1:], 'other frames', 1e-6, 1e-6)
            # position of the vectors is immaterial
        m1, v1 = net(x[:1], *[e[:1] for e in extra])
        tol = (1e-9, 1e-9) if dtype == torch.float64 else (1e-3, 1e-3 * (1 + float(mean.abs().max())))
        c.close(m1[0], mean[0], 'mean of one frame alone', *tol)
        c.close(v1[0], var[0], 'variance of one frame alone', *tol)


def complete(c):
    'With many units the connectivity covers all the earlier dimensions.'
    dim, side = c.int(2, 4), c.choice([0, 2])
    net, kw = network(c, dim, side, smooth='Tanh', width=c.int(150, 200), depth=c.int(1, 3), scale=.1)
    c.note(dim=dim, side=side, **kw)
    x = torch.tensor(c.rng.normal(size=dim))
    s = torch.tensor(c.rng.normal(size=side))

    def f(x, s):
        m, v = net(x[None], *([s[None]] if side else []))
        return torch.cat([m[0], v[0]])
    J = arr(torch.autograd.functional.jacobian(lambda x: f(x, s), x)).reshape(2, dim, dim)
    for J_ in J:
        for i in range(dim):
            for j in range(dim):
                if j >= i:
                    c.check(J_[i, j] == 0, f'output {i} depends on input {j}')
                else:
                    c.check(J_[i, j] != 0, f'output {i} cannot depend on input {j}')
                c.ev('derivatives')
    if side:
        J = arr(torch.autograd.functional.jacobian(lambda s: f(x, s), s)).reshape(2, dim, side)
        c.check((J[:, 1:] != 0).all(), 'outputs depend on the side input')


def layer(c, din, dim, dtype):
    import beer
    kind = c.choice(['NormalDiagonalCovarianceLayer', 'NormalIsotropicCovarianceLayer'])
    l = getattr(beer.nnet, kind)(din, dim).to(dtype)
    randomize(c, l, .7)
    return l, kind


def flow(c):
    import beer
    dim, side, din, steps = c.int(1, 5), c.int(1, 4), c.int(1, 4), c.size(0, 4, 10)
    dtype = torch.float64
    nl, kind = layer(c, din, dim, dtype)
    nets, kws = [], []
    for _ in range(steps):
        net, kw = network(c, dim, side, smooth=True, dtype=dtype, scale=c.choice([.1, .7]))
        nets.append(net)
        kws.append(kw)
    iaf = beer.nnet.InverseAutoRegressiveFlow(din, side, nl, torch.nn.Sequential(*nets)).to(dtype)
    randomize(c, iaf.flow_params, 1.)
    n = c.size(1, 4, 60)
    H = torch.tensor(c.rng.normal(size=(n, din)))
    use_mean = c.flip(.25)
    c.note(dim=dim, side=side, steps=steps, layer=kind, use_mean=use_mean, nets=kws)
    seed = c.int(0, 10 ** 6)
    with torch.no_grad():
        params = iaf(H)
        torch.manual_seed(seed)
        z, llh = iaf.samples_and_llh(params, use_mean=use_mean)
        torch.manual_seed(seed)
        z2, llh2 = iaf.samples_and_llh(params, use_mean=use_mean)
    c.check(tuple(z.shape) == (n, dim) and tuple(llh.shape) == (n,), f'shapes {tuple(z.shape)} {tuple(llh.shape)}')
    c.check((z == z2).all() and (llh == llh2).all(), 'same seed, same samples')
    (mean, var), side_in = params
    # Recover the base sample by inverting the flow dimension by dimension
    # (this does not use the random generator), then apply the change of
    # variables to the composition of all the steps.
    for i in range(n):
        s = side_in[i:i + 1].detach()

        def T(e, nets=nets, s=s):
            for net in nets:
                m, v = net(e[None], s)
                e = m[0] + v[0].sqrt() * e
            return e
        y = z[i].clone()
        with torch.no_grad():
            for net in reversed(nets):
                e = torch.zeros(dim, dtype=dtype)
                for d in range(dim):
                    m, v = net(e[None], s)
                    e[d] = (y[d] - m[0, d]) / v[0, d].sqrt()
                y = e
        back = T(y).detach()
        c.close(back, z[i], 'the sample is the image of a base sample', 1e-5, 1e-5)
        J = torch.autograd.functional.jacobian(T, y)
        logdet = float(torch.linalg.slogdet(J)[1])
        base = -.5 * float((((y - mean[i]) ** 2 / var[i]) + var[i].log() + np.log(2 * np.pi)).sum())
        c.close(llh[i], base - logdet, 'log-density of a sample', 1e-5, 1e-4)
        if use_mean:
            c.close(y, mean[i], 'flow of the mean', 1e-4, 1e-4)
        else:
            c.check((arr(y) != arr(mean[i])).all(), 'the base sample is random')
        c.ev('samples')
    if not use_mean and n > 1:
        c.check(len({tuple(r) for r in arr(z).round(9)}) == n, 'samples are distinct')


def moments(c):
    'The base samples of the flow follow the distribution of its Normal layer.'
    import beer
    dim, din, side = c.int(1, 3), c.int(1, 3), 2
    dtype = torch.float64
    nl, kind = layer(c, din, dim, dtype)
    net, kw = network(c, dim, side, smooth=True, scale=.7)
    iaf = beer.nnet.InverseAutoRegressiveFlow(din, side, nl, torch.nn.Sequential(net)).to(dtype)
    N = 4000
    h = torch.tensor(c.rng.normal(size=(1, din))).repeat(N, 1)
    c.note(dim=dim, layer=kind, N=N, **kw)
    with torch.no_grad():
        params = iaf(h)
        z, llh = iaf.samples_and_llh(params)
        (mean, var), s = params
        e = torch.zeros_like(z)
        for d in range(dim):
            m, v = net(e, s)
            e[:, d] = (z[:, d] - m[:, d]) / v[:, d].sqrt()
    u = arr((e - mean) / var.sqrt())
    c.check((np.abs(u.mean(0)) < 6 / np.sqrt(N)).all(), f'mean of the base samples {u.mean(0)}')
    cov = u.T @ u / N
    c.check((np.abs(cov - np.eye(dim)) < 6 * np.sqrt(2 / N)).all(), f'covariance of the base samples {cov}')
    # E[1/p(z)] over a region is its volume: the density integrates to one.
    if dim == 1:
        lo, hi = np.quantile(arr(z), [.1, .9])
        inside = (arr(z)[:, 0] >= lo) & (arr(z)[:, 0] <= hi)
        w = np.exp(-arr(llh)) * inside
        vol, se = w.mean(), w.std() / np.sqrt(N)
        c.check(abs(vol - (hi - lo)) < 6 * se + .05 * (hi - lo), f'importance-sampled length {vol} of [{lo},{hi}]')
        c.ev('normalization checks')


def gradients(c):
    'Reparameterised: gradients of samples and densities agree with finite differences.'
    import beer
    dim, side, din, steps = c.int(1, 3), c.int(1, 3), c.int(1, 3), c.int(1, 2)
    nl, kind = layer(c, din, dim, torch.float64)
    nets = [network(c, dim, side, smooth=True, scale=.5)[0] for _ in range(steps)]
    iaf = beer.nnet.InverseAutoRegressiveFlow(din, side, nl, torch.nn.Sequential(*nets)).to(torch.float64)
    H = torch.tensor(c.rng.normal(size=(2, din)))
    w = torch.tensor(c.rng.normal(size=(2, dim)))
    c.note(dim=dim, side=side, steps=steps, layer=kind)
    seed = c.int(0, 10 ** 6)

    def f():
        torch.manual_seed(seed)
        z, llh = iaf.samples_and_llh(iaf(H))
        return (w * z).sum() + llh.sum()
    f().backward()
    ps = list(iaf.parameters())
    d = [torch.tensor(c.rng.normal(size=tuple(p.shape))) for p in ps]
    got = sum(float((p.grad * v).sum()) for p, v in zip(ps, d) if p.grad is not None)
    h = 1e-5
    vals = []
    for s in (1, -1):
        with torch.no_grad():
            for p, v in zip(ps, d):
                p += s * h * v
            vals.append(float(f()))
            for p, v in zip(ps, d):
                p -= s * h * v
    c.close(got, (vals[0] - vals[1]) / (2 * h), 'directional derivative of samples and densities', 1e-4, 1e-4)


CASES = [(autoregressive, 1600, 15000), (complete, 160, 1000), (flow, 1000, 8000), (moments, 80, 500), (gradients, 240, 2000)]
