'metamorphic and reference-model monitor: scores and statistics of composites, of their members, slices and re-orderings compared with each other and with an independent evaluator of the leaves'
import numpy as np
from ..core import torch, arr
from .. import ref, gen, seqgen, zoo, oracle

RULE = '''Random nested sets (Normal sets, mixture sets, joint, repeated and re-ordered sets, mixtures over them),
random data and soft responsibilities, every member, random slices of slices with open, negative or empty bounds.'''
ASSUMPTIONS = ['the parts of a joint set do not share parameters (no command builds such a set)',
               'joint sets are indexed with non-negative integers only (documented by an error)']


def sets(c, dtype=torch.float64):
    cov, d = c.choice(list(gen.COV)), c.size(1, 4, 12)
    K = c.size(1, 6, 30)
    return zoo.dens(c, cov, d, K, dtype), cov, d


def data(c, d, n=None):
    return c.rng.normal(size=(n or c.size(1, 8, 200), d)) * c.logu(.3, 4) + c.rng.normal(size=d)


def structure(ms):
    n = type(ms).__name__
    if hasattr(ms, 'modelsets'):
        return [n] + [structure(m) for m in ms.modelsets]
    if hasattr(ms, 'modelset'):
        return [n, structure(ms.modelset)]
    return f'{n}{len(ms)}'


def soft(c, n, k):
    return c.rng.dirichlet(np.ones(k) * c.logu(.1, 3), n) * c.uni(.2, 2)


def close_stats(c, got, want, msg, scale=1.):
    c.check(set(got) == set(want), f'{msg}: parameters with statistics')
    for u in want:
        c.close(got[u].reshape(arr(want[u]).shape) if isinstance(got[u], torch.Tensor) else got[u], want[u],
                f'{msg}: statistics', 1e-7, 1e-7 * (scale + np.abs(arr(want[u])).max()))


def stats_of(acc):
    c = {}
    for p, s in acc.items():
        if p.uuid in c:
            raise AssertionError('parameter accumulated twice')
        c[p.uuid] = s
    return c


def scores_and_statistics(c):
    ms, cov, d = sets(c)
    X = data(c, d)
    x = ref.t(X)
    K = len(ms)
    c.note(structure=structure(ms), cov=cov, X=X[0], n=len(X))
    s = ms.sufficient_statistics(x)
    want = oracle.scores(ms, X)
    c.close(ms.expected_log_likelihood(s), want, 'scores', 1e-7, 1e-7)
    R = soft(c, len(X), K)
    close_stats(c, stats_of(ms.accumulate(s, ref.t(R))), oracle.accumulate(ms, X, R), 'set', len(X))
    # A second accumulation with other responsibilities does not depend on the first one.
    R2 = soft(c, len(X), K)
    close_stats(c, stats_of(ms.accumulate(s, ref.t(R2))), oracle.accumulate(ms, X, R2), 'set, again', len(X))
    c.ev('members', K)


def members(c):
    ms, cov, d = sets(c)
    X = data(c, d)
    x = ref.t(X)
    K = len(ms)
    c.note(structure=structure(ms), cov=cov, X=X[0], n=len(X))
    s = ms.sufficient_statistics(x)
    want = oracle.scores(ms, X)
    for i in range(K):
        j = i
        if type(ms).__name__ in ('NormalSet', 'MixtureSet') and c.flip(.3):
            j = i - K
        m = ms[j]
        ss = m.sufficient_statistics(x)
        c.close(m.expected_log_likelihood(ss).reshape(-1), want[:, i], f'score of member {j}', 1e-7, 1e-7)
        c.close(m.expected_log_likelihood(s).reshape(-1), want[:, i], f'score of member {j} from the statistics of the set', 1e-7, 1e-7)
        got = sorted(arr(v).reshape(-1).tolist() for v in m.accumulate(ss).values())
        # Row of the statistics of the set given hard assignments to this member.
        R = np.zeros((len(X), K))
        R[:, i] = 1
        rows = oracle.accumulate(ms, X, R)
        tot = sorted([arr(v).sum(0).reshape(-1).tolist() for v in rows.values()
                      if np.abs(arr(v)).max() > 0], key=len)
        got.sort(key=len)
        if type(m).__name__ == 'Normal':
            c.close(got[0], tot[0], f'statistics of member {j}', 1e-7, 1e-7 * len(X))
        elif type(m).__name__ == 'Mixture':
            r = oracle.mixture_resps(m, X)
            for v in m.accumulate(ss).values():
                v = arr(v)
                if v.ndim == 1 and v.shape == (r.shape[1],):
                    c.close(v, oracle.cat_stats(r.sum(0)), f'weights of member {j}', 1e-7, 1e-7 * len(X))
                else:
                    c.close(v, r.T @ gen.normal_stats(cov, X), f'components of member {j}', 1e-6, 1e-7 * len(X))
    if type(ms).__name__ in ('JointModelSet', 'NormalSet', 'MixtureSet'):
        c.raises((IndexError,), lambda: ms[K], 'index after the end is accepted')
    c.ev('members', K)


def slices(c):
    cov, d = c.choice(list(gen.COV)), c.int(1, 3)
    K, n = c.size(1, 6, 24), c.size(1, 3, 16)
    import beer
    ns = gen.normalset(c, cov, d, K * n)[0]
    mix = c.flip(.6)
    ms = beer.MixtureSet(gen.categoricalset(c, K, n)[0], ns) if mix and n > 1 else ns
    if mix and n == 1:
        ms = beer.MixtureSet.create(K, ns)
    X = data(c, d)
    x = ref.t(X)
    idx = np.arange(len(ms))
    cur = ms
    log = []
    for _ in range(c.int(1, 3)):
        L = len(cur)
        sl = slice(c.choice([None, c.int(-L - 1, L + 1)]), c.choice([None, c.int(-L - 1, L + 1)]))
        if len(idx[sl]) == 0:
            continue
        cur, idx = cur[sl], idx[sl]
        log.append([sl.start, sl.stop])
    c.trivial = not log
    c.note(mix=mix, K=K, n=n, cov=cov, log=log, X=X[0])
    c.check(len(cur) == len(idx), f'length of a slice: {len(cur)} instead of {len(idx)}')
    S = oracle.scores(ms, X)
    s = cur.sufficient_statistics(x)
    c.close(cur.expected_log_likelihood(s), S[:, idx], f'scores of {log}', 1e-7, 1e-7)
    R = soft(c, len(X), len(idx))
    full = np.zeros((len(X), len(ms)))
    full[:, idx] = R
    got = list(cur.accumulate(s, ref.t(R)).values())
    want = oracle.accumulate(ms, X, full)
    for v in want.values():
        per = v.shape[0] // len(ms)
        rows = np.concatenate([v[i * per:(i + 1) * per] for i in idx])
        c.check(any(tuple(g.shape) == rows.shape and np.allclose(arr(g), rows, 1e-7, 1e-7 * (len(X) + np.abs(rows).max()))
                    for g in got), f'statistics of {log}')
    for k in range(len(idx)):
        c.close(cur[k].expected_log_likelihood(s).reshape(-1), S[:, idx[k]], 'member of a slice', 1e-7, 1e-7)
    # the parameters of the slice are those of the members
    if not mix:
        fam = gen.COV[cov]
        for k, i in enumerate(idx):
            for which in ('prior', 'posterior'):
                a = gen.params_of(fam, getattr(cur.means_precisions, which), k)
                b = gen.params_of(fam, getattr(ms.means_precisions, which), int(i))
                for f in a:
                    c.close(a[f], b[f], f'{which} {f} of a slice')


def reorder(c):
    from beer.models.modelset import DynamicallyOrderedModelSet, RepeatedModelSet, JointModelSet
    ms, cov, d = sets(c)
    K = len(ms)
    dyn = DynamicallyOrderedModelSet(ms)
    X = data(c, d)
    s = dyn.sufficient_statistics(ref.t(X))
    S = oracle.scores(ms, X)
    log = []
    for _ in range(c.int(1, 4)):
        if c.flip(.2):
            order = None
            o = list(range(K))
            got = dyn.expected_log_likelihood(s)
        else:
            o = [int(i) for i in c.rng.integers(0, K, c.size(1, 8, 40))]
            if c.flip(.3):
                o = [int(i) for i in c.rng.permutation(K)]
            got = dyn.expected_log_likelihood(s, o)
        log.append(o)
        c.close(got, S[:, o], f'scores in the order {log}', 1e-7, 1e-7)
        R = soft(c, len(X), len(o))
        orig = np.zeros((len(X), K))
        for j, k in enumerate(o):
            orig[:, k] += R[:, j]
        acc = stats_of(dyn.accumulate(s, ref.t(R)))
        close_stats(c, acc, oracle.accumulate(ms, X, orig), f'order {log}', len(X))
    c.check(len(dyn) == K, 'length')
    i = c.int(0, K - 1)
    c.close(dyn[i].expected_log_likelihood(s).reshape(-1), S[:, i], 'member of a re-ordered set', 1e-7, 1e-7)
    c.note(structure=structure(ms), cov=cov, log=log, X=X[0])


def nest(c):
    'Joint of joints, repeated joints, ...: scores are the columns of the parts in order.'
    from beer.models.modelset import RepeatedModelSet, JointModelSet
    cov, d = c.choice(list(gen.COV)), c.int(1, 3)
    parts = [zoo.dens(c, cov, d, c.int(1, 3), torch.float64, 1) for _ in range(c.int(1, 4))]
    ms = JointModelSet(parts)
    if c.flip(.4):
        ms = JointModelSet([ms, zoo.dens(c, cov, d, c.int(1, 2), torch.float64, 1)])
    if c.flip(.5):
        ms = RepeatedModelSet(ms, c.int(1, 3))
    X = data(c, d)
    x = ref.t(X)
    c.note(structure=structure(ms), cov=cov, X=X[0])
    s = ms.sufficient_statistics(x)
    S = oracle.scores(ms, X)
    c.check(len(ms) == S.shape[1], 'number of members')
    c.close(ms.expected_log_likelihood(s), S, 'scores', 1e-7, 1e-7)
    R = soft(c, len(X), len(ms))
    close_stats(c, stats_of(ms.accumulate(s, ref.t(R))), oracle.accumulate(ms, X, R), 'nested', len(X))
    for i in range(len(ms)):
        c.close(ms[i].expected_log_likelihood(s).reshape(-1), S[:, i], f'member {i}', 1e-7, 1e-7)
    groups(c, ms, leaf_uuids(ms))


def mixture(c):
    import beer
    cov, d, K = c.choice(list(gen.COV)), c.int(1, 3), c.size(1, 5, 24)
    ms = zoo.dens(c, cov, d, K, torch.float64)
    default = c.flip(.2)
    if default:
        wk, m = 'default', beer.Mixture.create(ms)
    else:
        wk, cat = zoo.weights(c, K, torch.float64) if K > 1 else ('default', gen.categorical(c, 1)[0])
        m = beer.Mixture.create(ms, cat)
    X = data(c, d)
    x = ref.t(X)
    c.note(structure=structure(ms), cov=cov, X=X[0], weights=wk)
    S = oracle.scores(ms, X) + oracle.log_weights(m.categorical)
    r = oracle.mixture_resps(m, X)
    s = m.sufficient_statistics(x)
    c.close(m.posteriors(x), r, 'posteriors', 1e-7, 1e-9)
    c.close(m.posteriors(x).sum(1), np.ones(len(X)), 'posteriors sum to one', 1e-9)
    from scipy.special import logsumexp
    c.close(m.expected_log_likelihood(s), logsumexp(S, axis=1), 'score of the mixture', 1e-7, 1e-7)
    want = oracle.accumulate(ms, X, r)
    oracle.add(want, oracle.weight_stats(m.categorical, r.sum(0)))
    close_stats(c, stats_of(m.accumulate(s)), want, 'mixture', len(X))
    if c.flip():
        lab = c.rng.integers(0, K, len(X))
        m.expected_log_likelihood(s, labels=torch.tensor(lab))
        R = gen.onehot(lab, K)
        want = oracle.accumulate(ms, X, R)
        oracle.add(want, oracle.weight_stats(m.categorical, R.sum(0)))
        close_stats(c, stats_of(m.accumulate(s)), want, 'mixture with labels', len(X))
    groups(c, m, leaf_uuids(ms) | {oracle.param_of(m.categorical).uuid})


def leaf_uuids(ms):
    n = type(ms).__name__
    if n == 'NormalSet':
        return {ms.means_precisions.uuid}
    if n == 'MixtureSet':
        return leaf_uuids(ms.modelset) | {ms.categoricalset.weights.uuid}
    if n == 'JointModelSet':
        return set().union(*map(leaf_uuids, ms.modelsets))
    if n == 'DynamicallyOrderedModelSet':
        return leaf_uuids(ms.original_modelset)
    return leaf_uuids(ms.modelset)


def groups(c, m, want):
    for _ in range(2):      # asking twice gives the same groups
        got = [p.uuid for g in m.mean_field_factorization() for p in g]
        c.check(len(got) == len(set(got)), 'a parameter is in several groups')
        c.check(set(got) == want, 'parameters of the groups')
    c.ev('groups')


def factorization(c):
    z = zoo.draw(c, kinds=['mixture', 'hmm', 'phoneloop', 'bigram'])
    m = z.model
    if z.kind.startswith('mixture'):
        want = leaf_uuids(m.modelset) | {oracle.param_of(m.categorical).uuid}
    else:
        want = leaf_uuids(m.modelset)
        if hasattr(m, 'categorical'):
            want |= {oracle.param_of(m.categorical).uuid}
        if hasattr(m, 'categoricalset'):
            want |= {oracle.param_of(m.categoricalset).uuid}
    c.note(kind=z.kind, n=len(want), dim=z.dim)
    groups(c, m, want)
    # every Bayesian parameter of the model is in a group
    if 'sbhp' not in z.kind and not (hasattr(m, 'categoricalset') and hasattr(m.categoricalset, 'root_sb_categorical')):
        c.check({p.uuid for p in m.bayesian_parameters()} == want, 'Bayesian parameters of the model')


CASES = [(scores_and_statistics, 1200, 10000), (members, 1200, 8000), (slices, 1200, 8000), (reorder, 800, 6000),
         (nest, 1000, 8000), (mixture, 1000, 8000), (factorization, 600, 4000)]
