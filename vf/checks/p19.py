'runtime oracle: objective, densities and prior statistics of auto-encoders recomputed from the samples drawn under the same seed; non-interference between frames; sampling moments'
import numpy as np
import scipy.special as sp
from ..core import torch, arr
from .. import ref, gen, zoo, oracle, vaezoo, seqgen

RULE = '''Random encoders and decoders (depth, width, non-linearity) with priors of every kind (Normal, mixtures,
hidden Markov models, phone loops; sets of mixtures, joint sets as emissions), random numbers of samples and weights.'''
ASSUMPTIONS = ['the draws of the objective are those of one call to the sample method of the posteriors under the same seed',
               'one set of responsibilities per frame, shared by its samples (prior statistics are averaged)']


def logn(x, mean, var):
    return (-.5 * ((x - mean) ** 2 / var + np.log(2 * np.pi * var))).sum(-1)


def tol(a):
    return (1e-8, 1e-8) if a.dtype == torch.float64 else (2e-3, 2e-3)


def objective(c):
    import beer
    a = vaezoo.Auto(c, c.dtype(), wide=True)
    a.note(c)
    seed = c.int(0, 10 ** 6)
    n = len(a.X)
    with torch.no_grad():
        torch.manual_seed(seed)
        posts = a.vae.posteriors(a.X)
        h = posts.sample(a.ns)
        c.check(tuple(h.shape) == (n, a.ns, a.L), f'samples of shape {tuple(h.shape)}')
        pdfs = a.vae.pdfs(h.reshape(-1, a.L))
    mean, var = arr(posts.params.mean), arr(posts.params.diag_cov)
    dm, dv = arr(pdfs.params.mean).reshape(n, a.ns, -1), arr(pdfs.params.diag_cov).reshape(n, a.ns, -1)
    c.check((var > 0).all() and (dv > 0).all(), 'variances are positive')
    for dist in (posts, pdfs):
        v, lv = arr(dist.params.diag_cov), arr(dist.params.log_diag_cov)
        top = 700. if a.dtype == torch.float64 else 80.
        v, lv = v[lv < top], lv[lv < top]
        c.check((np.abs(v - np.exp(lv)) <= 1e-4 + 1e-5 * np.exp(lv)).all(),
                f'variances are not the exponentials of the logarithms of the network: {v.max(initial=0)} for {lv.max(initial=0)}')
    h = arr(h)
    X = arr(a.X)
    ent = -logn(h, mean[:, None], var[:, None]).mean(1)
    llh = logn(X[:, None], dm, dv).mean(1)
    prior = vaezoo.prior_term(a.prior, h)
    lw, kw = a.kw.get('llh_weight', 1.), a.kw.get('kl_weight', 1.)
    want = lw * llh + kw * (prior + ent)
    mag = np.abs(llh).max() + np.abs(prior).max() + np.abs(ent).max()
    rt, at = tol(a)
    if a.wide:
        rt, at = 1e-5, 1e-6
    torch.manual_seed(seed)
    st = a.vae.sufficient_statistics(a.X)
    got = a.vae.expected_log_likelihood(st, **a.kw)
    c.close(got, want, 'objective of each frame', rt, at * (1 + mag))
    # statistics of the prior
    acc = a.vae.accumulate(st)
    a.vae.clear_cache()
    hm = h.reshape(n * a.ns, -1)
    if type(a.prior).__name__ == 'Normal':
        p = a.prior.mean_precision
        ref_acc = {p.uuid: gen.normal_stats(oracle.cov_of(p), hm).sum(0) / a.ns}
    elif type(a.prior).__name__ == 'Mixture':
        s = vaezoo.mean_scores(a.prior.modelset, h) + oracle.log_weights(a.prior.categorical)
        R = np.exp(s - sp.logsumexp(s, axis=1, keepdims=True))
        ref_acc = _accumulate(a.prior.modelset, h, R)
        oracle.add(ref_acc, oracle.weight_stats(a.prior.categorical, R.sum(0)))
    else:
        s = vaezoo.state_scores(a.prior, h)
        g = vaezoo.state_posteriors(a.prior, s)
        R = np.zeros((n, len(a.prior.modelset)))
        for k, pdf in enumerate(a.prior.graph.pdf_id_mapping):
            R[:, pdf] += g[:, k]
        ref_acc = _accumulate(a.prior.modelset, h, R)
    got_acc = {p.uuid: v for p, v in acc.items()}
    for u, v in ref_acc.items():
        c.check(u in got_acc, 'a parameter of the prior gets no statistics')
        c.close(arr(got_acc[u]).reshape(-1), v.reshape(-1), 'statistics of the prior', max(rt, 1e-7),
                at * 10 * (1 + np.abs(v).max()))
    # the whole objective
    datasize = c.choice([-1, 3 * n])
    torch.manual_seed(seed)
    elbo = beer.evidence_lower_bound(a.vae, a.X, datasize=datasize, **a.kw)
    kl = sum(float(p.kl_div_posterior_prior().sum()) for p in zoo.params(a.prior))
    scale = 1 if datasize < 0 else 3
    c.close(float(elbo), scale * want.sum() - kl, 'objective', rt, at * (1 + n * mag + abs(kl)) * scale)
    elbo.backward()
    for p in zoo.params(a.prior):
        if p.uuid in ref_acc:
            v = ref_acc[p.uuid]
            c.close(arr(p.stats).reshape(-1), scale * v.reshape(-1), 'statistics stored in the prior', max(rt, 1e-7),
                    at * 10 * scale * (1 + np.abs(v).max()))


def _accumulate(ms, h, R):
    'Accumulation of averaged statistics given responsibilities of the members.'
    n, ns, L = h.shape
    name = type(ms).__name__
    if name == 'NormalSet':
        p = ms.means_precisions
        T = gen.normal_stats(oracle.cov_of(p), h.reshape(n * ns, L)).reshape(n, ns, -1).mean(1)
        return {p.uuid: R.T @ T}
    if name == 'MixtureSet':
        lw = oracle.log_weights(ms.categoricalset)
        s = vaezoo.mean_scores(ms.modelset, h).reshape(n, len(lw), -1) + lw[None]
        r = np.exp(s - sp.logsumexp(s, axis=2, keepdims=True)) * R[:, :, None]
        out = {ms.categoricalset.weights.uuid: oracle.cat_stats(r.sum(0))}
        oracle.add(out, _accumulate(ms.modelset, h, r.reshape(n, -1)))
        return out
    if name == 'JointModelSet':
        out, i = {}, 0
        for m in ms.modelsets:
            oracle.add(out, _accumulate(m, h, R[:, i:i + len(m)]))
            i += len(m)
        return out
    if name == 'RepeatedModelSet':
        return _accumulate(ms.modelset, h, R.reshape(n, ms.repeat, -1).sum(1))
    if name == 'DynamicallyOrderedModelSet':
        return _accumulate(ms.original_modelset, h, R)
    raise NotImplementedError(name)


def rows(c):
    'Frames do not see each other.'
    a = vaezoo.Auto(c, torch.float64, priors=['normal', 'mixture'], wide=True)
    a.note(c)
    n = len(a.X)
    seed = c.int(0, 10 ** 6)
    with torch.no_grad():
        def run(X):
            torch.manual_seed(seed)
            r = arr(a.vae.expected_log_likelihood(a.vae.sufficient_statistics(X), **a.kw))
            a.vae.clear_cache()
            return r
        full = run(a.X)
        c.check(full.shape == (n,), f'one value per frame (shape {full.shape})')
        i = c.int(0, n - 1)
        Y = a.X.clone()
        Y[i] += 1 + torch.tensor(c.rng.normal(size=a.d))
        other = run(Y)
        keep = np.arange(n) != i
        c.close(other[keep], full[keep], f'objective of the other frames after changing frame {i}', 1e-9, 1e-9)
        posts, one = a.vae.posteriors(a.X), a.vae.posteriors(a.X[i:i + 1])
        for f in ('mean', 'diag_cov'):
            c.close(getattr(one.params, f)[0], getattr(posts.params, f)[i], f'posterior {f} of a frame alone', 1e-9, 1e-9)
        Z = torch.tensor(c.rng.normal(size=(n, a.L)))
        pd, po = a.vae.pdfs(Z), a.vae.pdfs(Z[i:i + 1])
        for f in ('mean', 'diag_cov'):
            c.close(getattr(po.params, f)[0], getattr(pd.params, f)[i], f'density {f} of a latent vector alone', 1e-9, 1e-9)
        # a decoder that is tiny in variance stays proper
        for p in a.vae.parameters():
            p.data *= 30.
        for dist in (a.vae.posteriors(a.X), a.vae.pdfs(Z)):
            v = arr(dist.params.diag_cov)
            c.check((v > 0).all() and np.isfinite(arr(dist.params.mean)).all(), 'proper Normals for extreme weights')


def sampling(c):
    'Samples of the posteriors follow them.'
    a = vaezoo.Auto(c, torch.float64, priors=['normal'], wide=True)
    a.note(c)
    N = 4000
    with torch.no_grad():
        posts = a.vae.posteriors(a.X)
        h = arr(posts.sample(N))
    m, v = arr(posts.params.mean), arr(posts.params.diag_cov)
    z = (h - m[:, None]) / np.sqrt(v)[:, None]
    c.check(np.abs(z.mean(1)).max() < 6.5 / np.sqrt(N), 'mean of the samples')
    c.check(np.abs((z ** 2).mean(1) - 1).max() < 6.5 * np.sqrt(2 / N), 'variance of the samples')
    zz = z.transpose(1, 0, 2).reshape(N, -1)
    C = zz.T @ zz / N
    c.check(np.abs(C - np.diag(np.diag(C))).max() < 6.5 / np.sqrt(N), 'samples of different frames and dimensions are independent')


CASES = [(objective, 3000, 60000), (rows, 500, 8000), (sampling, 40, 500)]
CHUNK = 8
