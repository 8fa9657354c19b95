'runtime oracle: recorded latent and subspace samples pushed through an independent implementation of the subspace model; densities, written parameters, objective and statistics compared'
import math
import numpy as np
import scipy.special as sp
from ..core import torch, arr, Inconclusive
from .. import ref, gen, zoo, oracle, gsmzoo

RULE = '''Random subspace models (units of one or several states, one or several components, three covariance types;
latent prior Normal or mixture; diagonal or full latent posteriors; views of a shared set or separate units), sets of
subspace models (classes) and hierarchical ones, random numbers of samples, random statistics and latent posteriors.'''
ASSUMPTIONS = ['samples are drawn through the sample method of the posterior distributions (recorded there)',
               'one set of responsibilities per unit for a mixture prior (averaged statistics)']


class Record:
    def __init__(self, dist):
        self.seen = []
        orig = dist.sample

        def sample(*a, **k):
            s = orig(*a, **k)
            self.seen.append(arr(s))
            return s
        dist.sample = sample

    def last(self, i=-1):
        if not self.seen:
            raise Inconclusive('sample not recorded')
        return self.seen[i]


# --------------------------------------------------- reference densities

def ref_normal(cov, d, r):
    'pdf vector of (mean, log precision...) for one component.'
    if cov == 'isotropic':
        m, lp = r[:d], r[d]
        P = math.exp(lp) * np.eye(d)
        return np.concatenate([P @ m, [math.exp(lp)], [m @ P @ m], [lp]]), m, P
    if cov == 'diagonal':
        m, lp = r[:d], r[d:]
        P = np.diag(np.exp(lp))
        return np.concatenate([P @ m, np.exp(lp), [m @ P @ m], [lp.sum()]]), m, P
    m, ld, off = r[:d], r[d:2 * d], r[2 * d:]
    L = np.diag(np.exp(.5 * ld))
    L[np.tril_indices(d, -1)] = off
    P = L @ L.T
    return np.concatenate([P @ m, P.reshape(-1), [m @ P @ m], [ld.sum()]]), m, P


def rdim(cov, d):
    return {'isotropic': d + 1, 'diagonal': 2 * d, 'full': 2 * d + d * (d - 1) // 2}[cov]


def ref_weights(r):
    lw = np.concatenate([r, [0.]])
    return np.concatenate([r, [-sp.logsumexp(lw)]])


def blocks(model):
    'Kinds of the blocks of a super-vector, in the order of the parameters.'
    out = []
    for p in model.bayesian_parameters():
        like = type(p.likelihood_fn).__name__
        out.append(('weights' if like.startswith('Categorical') else 'normal', len(p), tuple(p.stats.shape)))
    return out


def ref_pdfvecs(model, cov, d, svec):
    'Flat pdf vectors of a unit for one super-vector.'
    i, out = 0, []
    for kind, n, shape in blocks(model):
        dim = shape[-1] - 1 if kind == 'weights' else rdim(cov, d)
        for _ in range(n):
            r = svec[i:i + dim]
            out.append(ref_weights(r) if kind == 'weights' else ref_normal(cov, d, r)[0])
            i += dim
    assert i == len(svec), (i, len(svec))
    return np.concatenate(out)


def svecs(h, W, b):
    'h (ns, L), W (ps, L, D), b (ps, D): every combination of samples.'
    return [hh @ W[j] + b[j] for hh in h for j in range(len(W))]


def mean_pdf(model, cov, d, vecs):
    return np.mean([ref_pdfvecs(model, cov, d, v) for v in vecs], 0)


def log_q(posts, h):
    'log q_i(h_is) for every unit and sample.'
    q = posts.params
    mean = arr(q.mean)
    if hasattr(q, 'log_diag_cov'):
        var = 1e-4 + np.exp(arr(q.log_diag_cov))
        return (-.5 * ((h - mean[:, None]) ** 2 / var[:, None] + np.log(2 * np.pi * var)[:, None])).sum(-1)
    L = mean.shape[1]
    out = np.zeros(h.shape[:2])
    for i in range(len(mean)):
        C = np.diag(1e-3 + np.exp(arr(q.log_diag_L)[i]))
        C[np.tril_indices(L, -1)] = arr(q.L_offdiag)[i]
        out[i] = [ref.NormalFull().logpdf({'mean': mean[i], 'cov': C @ C.T}, x) for x in h[i]]
    return out


def log_p(prior, h):
    'Prior log-density of averaged samples, per unit.'
    if type(prior).__name__ == 'Normal':
        return np.stack([oracle.scores(prior, x)[:, 0].mean() for x in h])
    s = np.stack([oracle.scores(prior.modelset, x).mean(0) for x in h]) + oracle.log_weights(prior.categorical)
    return sp.logsumexp(s, axis=1)


def prior_stats(prior, h):
    'Statistics of the latent prior accumulated over units (mean over samples).'
    n, ns = h.shape[:2]
    X = h.reshape(n * ns, -1)
    if type(prior).__name__ == 'Normal':
        p = prior.mean_precision
        return {p.uuid: gen.normal_stats(oracle.cov_of(p), X).sum(0) / ns}
    s = np.stack([oracle.scores(prior.modelset, x).mean(0) for x in h]) + oracle.log_weights(prior.categorical)
    R = np.exp(s - sp.logsumexp(s, axis=1, keepdims=True))
    out = oracle.accumulate(prior.modelset, X, np.repeat(R, ns, 0) / ns)
    oracle.add(out, oracle.weight_stats(prior.categorical, R.sum(0)))
    return out


def kl_normal(p):
    a, b = p.posterior.params, p.prior.params
    v, v0 = 1e-4 + np.exp(arr(a.log_diag_cov)), 1e-4 + np.exp(arr(b.log_diag_cov))
    return .5 * (np.log(v0 / v) - 1 + v / v0 + (arr(a.mean) - arr(b.mean)) ** 2 / v0).sum()


def kl_conj(model):
    return sum(float(p.kl_div_posterior_prior().sum()) for p in model.bayesian_parameters())


def flat_stats(unit):
    return np.concatenate([arr(p.stats).reshape(-1) for p in unit.bayesian_parameters()])


def flat_pdf(unit):
    return np.concatenate([arr(p.pdfvec).reshape(-1) for p in unit.bayesian_parameters()])


def ref_scores(unit, cov, d, S, K, pdf, X):
    'Log-density of every state given the flat pdf vectors.'
    k = max(K, 1)
    parts, i = {}, 0
    for kind, n, shape in blocks(unit):
        parts[kind] = pdf[i:i + n * shape[-1]].reshape(n, shape[-1])
        i += n * shape[-1]
    s = gen.normal_stats(cov, X) @ parts['normal'].T - .5 * d * ref.LOG2PI
    if K == 0:
        return s
    w = parts['weights']
    lw = np.hstack([w[:, :-1] + w[:, -1:], w[:, -1:]])
    return sp.logsumexp(s.reshape(len(X), S, k) + lw[None], axis=2)


def tol(s):
    return (1e-9, 1e-9) if s.dtype == torch.float64 else (2e-3, 2e-3)


def params_recorder(trans):
    return Record(trans.weights.posterior), (Record(trans.bias.posterior) if hasattr(trans, 'bias') else None)


def sub_samples(s, rw, rb):
    W = rw.last()
    D = W.shape[-1] // s.L
    b = rb.last()
    return W.reshape(-1, s.L, D), b.reshape(-1, D)


def numbers(c, a=4, b=3):
    'Numbers of latent and subspace samples.'
    if c.flip(.04):
        return c.int(40, 300), c.int(1, 2)
    return c.size(1, a, 16), c.size(1, b, 12)


def nearly(c, s, run):
    'Units that already hold densities close to those about to be written (nothing else changes).'
    seed = c.int(0, 10 ** 6)
    if c.flip(.3):
        torch.manual_seed(seed)
        run()
        eps = c.logu(1e-7, 1e-2)
        for u in s.units:
            for p in u.bayesian_parameters():
                if hasattr(p, 'pdfvec'):
                    v = p.pdfvec
                    p.pdfvec = v * (1 + eps * torch.tensor(c.uni(-1, 1, tuple(v.shape)), dtype=v.dtype))
        c.note(perturbed=eps)
        c.ev('units_already_close')
    torch.manual_seed(seed)


# ------------------------------------------------------------------- cases

def objective(c):
    import beer
    s = gsmzoo.Subspace(c, c.dtype())
    s.note(c)
    ns, ps = numbers(c)
    nearly(c, s, lambda: beer.evidence_lower_bound(s.gsm, s.units, latent_posts=s.posts, latent_nsamples=ns,
                                                   params_nsamples=ps))
    rh = Record(s.posts)
    rw, rb = params_recorder(s.gsm.transform)
    stats = [flat_stats(u) for u in s.units]
    before = [flat_pdf(u) for u in s.units]
    upd = c.flip(.75)
    datasize = c.choice([-1, -1, 2 * s.n])
    elbo = beer.evidence_lower_bound(s.gsm, s.units, datasize=datasize, latent_posts=s.posts, latent_nsamples=ns,
                                     params_nsamples=ps, update_models=upd)
    h = rh.last()
    W, b = sub_samples(s, rw, rb)
    c.check(h.shape == (s.n, ns, s.L) and len(W) == len(b) == ps, f'samples drawn: {h.shape} {W.shape} {b.shape}')
    rt, at = tol(s)
    pdf = [mean_pdf(u, s.cov, s.d, svecs(h[i], W, b)) for i, u in enumerate(s.units)]
    size = max(np.abs(p).max() for p in pdf)
    for i, u in enumerate(s.units):
        want = pdf[i] if upd else before[i]
        c.close(flat_pdf(u), want, f'densities written to unit {i} (update {upd})', rt, at * size)
        c.close(flat_stats(u), stats[i], f'statistics of unit {i}', 0, 0)
    llh = np.array([p @ st for p, st in zip(pdf, stats)])
    kl = log_q(s.posts, h).mean(1) - log_p(s.prior, h)
    scale = 1 if datasize < 0 else datasize / s.n
    want = scale * (llh - kl).sum() - kl_normal(s.gsm.transform.weights) - kl_normal(s.gsm.transform.bias) - kl_conj(s.prior)
    mag = sum(np.abs(p * st).sum() for p, st in zip(pdf, stats)) + np.abs(kl).sum()
    c.close(float(elbo), want, 'objective of the subspace model', rt, at * (1 + mag))
    ref_st = prior_stats(s.prior, h)
    for p in zoo.params(s.prior):
        p.zero_stats()
    elbo.backward()
    for p in zoo.params(s.prior):
        c.close(arr(p.stats).reshape(-1), scale * ref_st[p.uuid].reshape(-1), 'statistics of the latent prior', rt,
                at * (1 + np.abs(ref_st[p.uuid]).max()))
    c.note(samples=[ns, ps], update=upd, datasize=datasize)


def expected(c):
    'Expected densities and the scores of the units, explicit update.'
    s = gsmzoo.Subspace(c, c.dtype())
    s.note(c)
    ns, ps = numbers(c)
    nearly(c, s, lambda: s.gsm.update_models(s.units, s.gsm.expected_pdfvecs(s.posts, ns, ps)))
    rh = Record(s.posts)
    rw, rb = params_recorder(s.gsm.transform)
    got = s.gsm.expected_pdfvecs(s.posts, ns, ps)
    h = rh.last()
    W, b = sub_samples(s, rw, rb)
    c.check(h.shape == (s.n, ns, s.L) and len(W) == len(b) == ps, f'samples drawn: {h.shape} {W.shape} {b.shape}')
    pdf = [mean_pdf(u, s.cov, s.d, svecs(h[i], W, b)) for i, u in enumerate(s.units)]
    rt, at = tol(s)
    size = max(np.abs(p).max() for p in pdf)
    c.close(got, np.stack(pdf), 'expected densities', rt, at * size)
    s.gsm.update_models(s.units, got)
    X = c.rng.normal(size=(c.int(1, 6), s.d)) * 1.5
    Xt = ref.t(X, s.dtype)
    for i, u in enumerate(s.units):
        c.close(flat_pdf(u), arr(got)[i], f'densities written to unit {i}', 1e-6, 1e-9 * size)
        sc = u.expected_log_likelihood(u.sufficient_statistics(Xt))
        want = ref_scores(u, s.cov, s.d, s.S, s.K, pdf[i], X)
        c.close(sc, want, f'density of unit {i}', rt, at * (1 + size * 10 + np.abs(want).max()))
        u.clear_cache()
    if s.views:
        sc = s.whole.expected_log_likelihood(s.whole.sufficient_statistics(Xt))
        want = np.hstack([ref_scores(u, s.cov, s.d, s.S, s.K, p, X) for u, p in zip(s.units, pdf)])
        c.close(sc, want, 'densities of the shared set', rt, at * (1 + size * 10 + np.abs(want).max()))
    if ns == ps == 1:
        # with one sample the parameters are those of the sample
        for i, u in enumerate(s.units):
            v = svecs(h[i], W, b)[0]
            j = 0
            for p in u.bayesian_parameters():
                kind = 'weights' if type(p.likelihood_fn).__name__.startswith('Cat') else 'normal'
                val = p.value()
                n = len(p)
                dim = p.stats.shape[-1] - 1 if kind == 'weights' else rdim(s.cov, s.d)
                R = v[j:j + n * dim].reshape(n, dim)
                j += n * dim
                if kind == 'weights':
                    want = sp.softmax(np.hstack([R, np.zeros((n, 1))]), axis=1)
                    c.close(val, want, f'weights of unit {i}', rt, at)
                else:
                    for k in range(n):
                        _, m, P = ref_normal(s.cov, s.d, R[k])
                        m1 = arr(val[0]).reshape(n, -1)[k]
                        c.close(m1, m, f'mean of unit {i}', rt, at * (1 + np.abs(m).max()) * np.linalg.cond(P))
                        P1 = arr(val[1]).reshape(n, -1)[k]
                        want = P.reshape(-1) if s.cov == 'full' else np.diag(P) if s.cov == 'diagonal' else P[0, :1]
                        c.close(P1, want, f'precision of unit {i}', rt, at * (1 + np.abs(P).max()))
    c.note(samples=[ns, ps])


def views(c):
    'Reads and writes through views (of views) of a shared parameter.'
    import beer
    s = gsmzoo.Subspace(c, c.dtype(), views=True, max_units=5)
    s.note(c)
    s.gsm.update_models(s.units, s.gsm.expected_pdfvecs(s.posts))
    X = ref.t(c.rng.normal(size=(3, s.d)), s.dtype)

    def score(m):
        m.clear_cache()
        return arr(m.expected_log_likelihood(m.sufficient_statistics(X))).reshape(3, -1)
    full = score(s.whole)
    total = s.n * s.S
    for _ in range(c.int(2, 5)):
        # a chain of selections
        m, idx = s.whole, np.arange(total)
        chain = []
        for _ in range(c.int(1, 3)):
            n = len(idx)
            if c.flip(.3):
                i = c.int(-n, n - 1)
                chain.append(i)
                idx = idx[[i]]
                m = m[i]
                break
            a, b = sorted((c.int(0, n), c.int(0, n)))
            if a == b:
                a, b = 0, n
            chain.append((a, b))
            idx = idx[a:b]
            m = m[a:b]
        c.close(score(m), full[:, idx], f'densities of the selection {chain}', 1e-6, 1e-6 * (1 + np.abs(full).max()))
        # write statistics and densities through the selection
        old = [(arr(p.stats).copy(), arr(p.pdfvec).copy()) for p in s.whole.bayesian_parameters()]
        new = []
        for p in m.bayesian_parameters():
            st = torch.tensor(c.rng.normal(size=tuple(p.stats.shape)), dtype=s.dtype)
            pv = p.pdfvec.clone() * float(c.uni(.5, 1.))
            p.stats = st
            p.pdfvec = pv
            new.append((arr(st), arr(pv)))
        for p, o, nw in zip(s.whole.bayesian_parameters(), old, new):
            k = len(o[0]) // total
            rows = np.concatenate([np.arange(i * k, (i + 1) * k) for i in idx])
            for got, before, after, what in ((arr(p.stats), o[0], nw[0], 'statistics'), (arr(p.pdfvec), o[1], nw[1], 'densities')):
                want = before.copy()
                want[rows] = after.reshape(len(rows), -1)
                c.close(got, want, f'{what} of the shared parameter after writing through {chain}', 0, 0)
        for p, o in zip(s.whole.bayesian_parameters(), old):
            p.pdfvec = torch.tensor(o[1], dtype=s.dtype)
            p.stats = torch.tensor(o[0], dtype=s.dtype)
        c.ev('selections')
        c.note(chain=chain)


def models(c):
    'Newly created units: independent copies with proper densities.'
    s = gsmzoo.Subspace(c, c.dtype(), views=False)
    s.note(c)
    rw, rb = params_recorder(s.gsm.transform)
    n = c.int(1, 4)
    ns, ps = numbers(c, 3)
    cov = c.choice(['full', 'diagonal'])
    rec = []
    orig = s.gsm.new_latent_posteriors

    def new(*a, **k):
        p = orig(*a, **k)
        rec.append(Record(p))
        return p
    s.gsm.new_latent_posteriors = new
    units, posts = s.gsm.new_models(n, cov, ns, ps)
    c.check(len(units) == n and len(posts) == n, 'number of units')
    c.close(posts.params.mean, np.zeros((n, s.L)), 'new posteriors are centered', 0, 0)
    if not rec:
        raise Inconclusive('posteriors not recorded')
    h = rec[0].last()
    W, b = sub_samples(s, rw, rb)
    rt, at = tol(s)
    for i, u in enumerate(units):
        want = mean_pdf(u, s.cov, s.d, svecs(h[i], W, b))
        c.close(flat_pdf(u), want, f'densities of new unit {i}', rt, at * np.abs(want).max())
    before = [flat_pdf(u).copy() for u in units] + [flat_pdf(s.gsm.model).copy()]
    k = c.int(0, n - 1)
    for p in units[k].bayesian_parameters():
        p.pdfvec = p.pdfvec * .5
        p.stats = p.stats + 1.
    for i, u in enumerate(units + [s.gsm.model]):
        if i != k:
            c.close(flat_pdf(u), before[i], f'unit {i} after changing unit {k}', 0, 0)
    c.note(samples=[ns, ps], n=n)


def classes(c):
    'Sets of subspace models: class means in a discriminant space.'
    import beer
    dtype = c.dtype()
    s = gsmzoo.Subspace(c, dtype, prior=('normal', gen.normal(c, c.choice(['full', 'diagonal']), 2, dtype)[0]))
    # latent dimensions follow the prior
    s.L = 2
    M = c.int(2, 3)
    Ld = c.int(1, 3)
    dprior = gen.normal(c, c.choice(['full', 'diagonal']), Ld, dtype)[0]
    gs = beer.GSMSet.create(s.tpl, M, 2, Ld, s.prior, dprior).to(dtype)
    gsmzoo.randomize_posts(c, gs.means.posterior)
    gsmzoo.randomize(c, gs)
    q = gs.disc_transform.weights.posterior.params
    q.mean.data = torch.tensor(c.rng.normal(size=tuple(q.mean.shape)) * .3, dtype=q.mean.dtype)
    q.log_diag_cov.data = q.log_diag_cov.data - 3.
    posts = gs.new_latent_posteriors(s.n, c.choice(['full', 'diagonal']))
    gsmzoo.randomize_posts(c, posts)
    ns, ps = numbers(c, 3, 2)
    rh, rm = Record(posts), Record(gs.means.posterior)
    rw, rb = params_recorder(gs.transform)
    rd = Record(gs.disc_transform.weights.posterior)
    mode = c.choice(['set', 'mixture', 'labels'])
    stats = [flat_stats(u) for u in s.units]
    kw = dict(latent_posts=posts, latent_nsamples=ns, params_nsamples=ps)
    labels = [c.int(0, M - 1) for _ in range(s.n)]
    rt, at = tol(s)
    if mode == 'set':
        st = gs.sufficient_statistics(s.units)
        got = arr(gs.expected_log_likelihood(st, **kw))
        R = None
    else:
        mix = beer.Mixture.create(gs, gen.categorical(c, M, dtype)[0])
        lk = {'labels': torch.tensor(labels)} if mode == 'labels' else {}
        st = mix.sufficient_statistics(s.units)
        got = arr(mix.expected_log_likelihood(st, **kw, **lk))
    h, hm = rh.last(), rm.last()
    D = rw.last().shape[-1] // 2
    W, b, Wd = rw.last().reshape(-1, 2, D), rb.last().reshape(-1, D), rd.last().reshape(-1, Ld, D)
    c.check(h.shape == (s.n, ns, 2) and hm.shape == (M, ns, Ld), f'samples {h.shape} {hm.shape}')
    kl = log_q(posts, h).mean(1) - log_p(s.prior, h)
    want = np.zeros((s.n, M))
    pdf = np.zeros((s.n, M, len(stats[0])))
    mag = 0
    for i, u in enumerate(s.units):
        for m in range(M):
            v = svecs(h[i], W, b)
            w = svecs(hm[m], Wd, np.zeros((len(Wd), D)))
            # the same sample index on both sides
            pdf[i, m] = mean_pdf(u, s.cov, s.d, [x + y for x, y in zip(v, w)])
            want[i, m] = pdf[i, m] @ stats[i] - kl[i]
            mag = max(mag, np.abs(pdf[i, m] * stats[i]).sum())
    if mode == 'set':
        c.close(got, want, 'objective of each unit under each class', rt, at * (1 + mag))
    elif mode == 'mixture':
        lw = oracle.log_weights(mix.categorical)
        tot = want + lw
        R = np.exp(tot - sp.logsumexp(tot, axis=1, keepdims=True))
        c.close(got.reshape(-1), sp.logsumexp(tot, axis=1), 'objective of each unit', rt, at * (1 + mag))
    else:
        R = np.eye(M)[labels]
        c.close(got.reshape(-1), want[np.arange(s.n), labels], 'objective of each unit given its class', rt, at * (1 + mag))
    if mode != 'set':
        acc = mix.accumulate(st)
        if mode == 'labels' or np.abs(R - R.round()).max() < 1e-6 or dtype == torch.float64:
            size = np.abs(pdf).max()
            for i, u in enumerate(s.units):
                c.close(flat_pdf(u), (R[i][:, None] * pdf[i]).sum(0), f'densities written to unit {i}',
                        max(rt, 1e-7), max(at, 1e-7) * size)
        hs, hd = prior_stats(s.prior, h), prior_stats(dprior, hm)
        for p in zoo.params(s.prior) + zoo.params(dprior):
            w = {**hs, **hd}[p.uuid]
            c.close(arr(acc[p]).reshape(-1), w.reshape(-1), 'statistics of the latent priors', rt, at * (1 + np.abs(w).max()))
        kl_tot = (log_q(gs.means.posterior, hm).mean(1) - log_p(dprior, hm)).sum() + kl_normal(gs.transform.weights) \
            + kl_normal(gs.transform.bias) + kl_normal(gs.disc_transform.weights) + kl_conj(s.prior) + kl_conj(dprior) \
            + kl_conj(mix.categorical)
        c.close(float(mix.kl_div_posterior_prior().sum()), kl_tot, 'divergence of the shared parameters', max(rt, 1e-6),
                at * (1 + abs(kl_tot)) * 10)
    s.note(c)
    c.note(mode=mode, classes=M, dlatent=Ld, samples=[ns, ps])


def hierarchical(c):
    'Several languages whose subspaces come from a common one.'
    import beer
    dtype = c.dtype(.8)
    H = gsmzoo.Hierarchy(c, dtype)
    first, root, uprior, tplD, Lu = H.first, H.root, H.uprior, H.tplD, H.Lu
    gsms, units, posts = H.gsms, H.units, H.posts
    recs = [(Record(p), Record(g.transform.latent_posterior)) for p, g in zip(posts, gsms)]
    rw, rb = params_recorder(root)
    (ns, ps), us = numbers(c, 3, 2), c.int(1, 3)
    stats = [[flat_stats(u) for u in us_] for us_ in units]
    elbo = beer.evidence_lower_bound(H.model, list(zip(gsms, units)), latent_posts=posts, latent_nsamples=ns,
                                     params_nsamples=ps, univ_latent_nsamples=us)
    want, mag, hu = 0., 0., []
    rt, at = tol(first)
    for l in range(H.n):
        hh = recs[l][0].last()
        if len(recs[l][1].seen) != 2:
            raise Inconclusive(f'{len(recs[l][1].seen)} draws of the subspace of a language')
        g, u = recs[l][1].seen
        D = 3 * tplD
        W, b = rw.seen[l].reshape(-1, Lu, D), rb.seen[l].reshape(-1, D)
        # subspaces of the language: every combination of samples
        subs = svecs(g.reshape(-1, Lu), W, b)
        Ws = np.stack([x[:2 * tplD].reshape(2, tplD) for x in subs])
        bs = np.stack([x[2 * tplD:] for x in subs])
        pdf = [mean_pdf(x, first.cov, first.d, svecs(hh[i], Ws, bs)) for i, x in enumerate(units[l])]
        size = max(np.abs(p).max() for p in pdf)
        for i, x in enumerate(units[l]):
            c.close(flat_pdf(x), pdf[i], f'language {l}: densities written to unit {i}', rt, at * size)
            want += pdf[i] @ stats[l][i]
            mag += np.abs(pdf[i] * stats[l][i]).sum()
        kl = log_q(posts[l], hh).mean(1) - log_p(gsms[l].latent_prior, hh)
        want -= kl.sum() + kl_conj(gsms[l].latent_prior)
        u = u.reshape(1, us, Lu)
        hu.append(u)
        want -= (log_q(gsms[l].transform.latent_posterior, u).mean(1) - log_p(uprior, u)).sum()
    want -= kl_normal(root.weights) + kl_normal(root.bias) + kl_conj(uprior)
    c.close(float(elbo), want, 'objective of the hierarchical model', rt, at * (10 + mag + abs(want)))
    st = prior_stats(uprior, np.concatenate(hu))
    elbo.backward()
    for p in zoo.params(uprior):
        c.close(arr(p.stats).reshape(-1), st[p.uuid].reshape(-1), 'statistics of the prior of the languages', rt,
                at * (1 + np.abs(st[p.uuid]).max()))
    H.note(c)
    c.note(samples=[ns, ps, us])


CASES = [(objective, 800, 20000), (expected, 600, 15000), (views, 400, 9000), (models, 200, 5000), (classes, 400, 9000),
         (hierarchical, 250, 6000)]
CHUNK = 6
