'runtime oracle: outputs of the recipe tools compared with independent definitions (edit distance, mutual information of the joint counts, frame stacking, accumulated moments, path expansions) and conservation of every utterance and frame through splitting, mapping and parallel jobs'
import collections, os, pickle, re, shutil, subprocess, sys
import numpy as np
import yaml
from ..core import REPO, Violated
from .. import cli, recipes
from .p25 import lev, dedup

RULE = '''Random transcriptions, state alignments, mappings, phone tables and feature archives (1-12 utterances of 1-60 tokens,
1-8 units of 1-4 states, repeated units, units without mapping, utterances missing on one side), lists of 1-40 utterances
split in 1-15 parts and processed by array jobs on a stand-in of the grid engine, in fresh and in already used directories. Synthetic corpora in the layout of TIMIT
(upper and lower case, calibration sentences, 61 phones), lexicons with unknown words and silence phones, characters with tone marks.'''
ASSUMPTIONS = ['every line names an utterance and references have at least one token in total',
               'a unit that follows itself is only visible in an alignment when it has several states',
               'qsub is a stand-in that runs the tasks of the array in a random order']
CHUNK = 4
ROOT = os.path.join(REPO, 'recipes', 'timit_v2')
PHONES = ['sil', 'aa', 'ae', 'b', 'k', 'sh', 'zh', 'q', 'cl', 'vcl', 'epi', 'n', 'en', 'é', "x'"]


def run(c, script, *args, stdin='', cwd=None, **kw):
    d = 'local' if 'timit' in script else 'utils'
    r = cli.beer(c, *args, script=os.path.join(ROOT, d, script), stdin=stdin, real=c.flip(.02), cwd=cwd, **kw)
    c.ev(script.replace('.py', '_runs'))
    return r.out


def units(c, lo=1):
    return [str(u) for u in c.rng.permutation(PHONES)[:c.int(lo, 8)]]


def trans(c, inv, n=None, lo=1, hi=20):
    return {f'utt_{i}': [c.choice(inv) for _ in range(c.int(lo, hi))] for i in range(n or c.size(1, 8, 60))}


def text(c, t, order=None):
    return ''.join(' '.join([u] + t[u]) + c.choice(['\n', ' \n']) for u in (order or list(t)))


def write(path, s):
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    with open(path, 'w') as f:
        f.write(s)
    return path


def lines(out):
    return {l.split()[0]: l.split()[1:] for l in out.split('\n') if l.strip()}


def per(c):
    inv = units(c)
    ref = trans(c, inv, hi=40)
    hyp = {u: [c.choice(inv) if c.flip(.2) else p for p in t if not c.flip(.1)] + [c.choice(inv)] * c.int(0, 2) for u, t in ref.items()}
    if c.flip(.2):
        hyp = {u: list(t) for u, t in ref.items()}
    args, pmap, rem = [], None, []
    if c.flip():
        pmap = {u: c.choice(inv + ['merged']) for u in inv}
        args += ['--phone_map', 'map']
    if c.flip():
        rem = c.choice([[c.choice(inv)], [c.choice(inv), c.choice(inv)], ['absent']])
        args += ['--remove', ' '.join(rem)]
    dup = c.choice([None, 'yes', 'no'])
    if dup:
        args += ['--duplicate', dup]
    c.note(kind='per', ref=ref, hyp=hyp, args=args)

    def norm(t):
        t = [p for p in t if p not in rem]
        if pmap:
            t = [pmap[p] for p in t]
            t = [p for p in t if p not in rem]
        return dedup(t) if dup == 'no' else t
    r = {u: norm(t) for u, t in ref.items()}
    h = {u: norm(t) for u, t in hyp.items()}
    n = sum(map(len, r.values()))
    if n == 0:
        c.trivial = True
        return
    want = 100 * sum(lev(tuple(r[u]), tuple(h[u])) for u in r) / n
    with cli.scratch() as d:
        write(os.path.join(d, 'ref'), text(c, ref))
        write(os.path.join(d, 'hyp'), text(c, hyp, [str(u) for u in c.rng.permutation(list(hyp))]))
        if pmap:
            write(os.path.join(d, 'map'), ''.join(f'{a} {b}\n' for a, b in pmap.items()))
        out = run(c, 'score.py', *args, 'ref', 'hyp', cwd=d)
        c.check(abs(float(out) - want) < .0051, f'phone error rate {out.strip()} instead of {want}')
        if c.flip(.15):
            del hyp[c.choice(list(hyp))]
            write(os.path.join(d, 'hyp'), text(c, hyp) or '\n')
            if hyp:
                rc = run_fail(c, 'score.py', *args, 'ref', 'hyp', cwd=d)
                c.check(rc != 0, 'utterances are missing and the score is reported all the same')


def run_fail(c, script, *args, cwd=None, stdin=''):
    return cli.beer(c, *args, script=os.path.join(ROOT, 'utils', script), stdin=stdin, cwd=cwd, ok=False).rc


def hmms(c, lo_states=1):
    'Units with consecutive pdf identifiers.'
    inv = units(c)
    out, k = {}, 0
    for u in inv:
        n = c.int(lo_states, 4)
        out[u] = list(range(k, k + n))
        k += n
    return out


def path(c, pdfs, seq):
    p = []
    for u in seq:
        for s in pdfs[u]:
            p += [s] * c.int(1, 4)
    return p


def collapse(seq, pdfs):
    'What can be seen of a sequence of units in its path.'
    return [u for i, u in enumerate(seq) if i == 0 or seq[i - 1] != u or len(pdfs[u]) > 1]


def mapping(pdfs):
    return ''.join(f'{s} {u}\n' for u, ss in pdfs.items() for s in ss)


def alignments(c):
    pdfs = hmms(c)
    seqs = trans(c, list(pdfs), hi=12)
    paths = {u: path(c, pdfs, s) for u, s in seqs.items()}
    pdf2u = {s: u for u, ss in pdfs.items() for s in ss}
    c.note(kind='alignments', pdfs=pdfs, seqs=seqs)
    with cli.scratch() as d:
        write(os.path.join(d, 'map'), mapping(pdfs))
        sin = ''.join(' '.join([u] + list(map(str, p))) + '\n' for u, p in paths.items())
        out = lines(run(c, 'pdf2unit.py', 'map', stdin=sin, cwd=d))
        c.check(out == {u: [pdf2u[s] for s in p] for u, p in paths.items()}, f'units of the frames: {out}')
        out = lines(run(c, 'pdf2unit.py', '--phone-level', 'map', stdin=sin, cwd=d))
        want = {u: collapse(s, pdfs) for u, s in seqs.items()}
        c.check(out == want, f'units of the paths: {out} instead of {want}')
        ids = {u: i for i, u in enumerate(sorted(pdfs))}
        np.savez(os.path.join(d, 'ali.npz'), **{u: np.array(p) for u, p in paths.items()})
        write(os.path.join(d, 'units'), ''.join(f'{u} {i}\n' for u, i in ids.items()))
        os.mkdir(os.path.join(d, 'out'))
        run(c, 'convert-ali-to-best-path.py', 'ali.npz', 'map', 'units', 'out', cwd=d)
        c.check(set(os.listdir(os.path.join(d, 'out'))) == {u + '.npy' for u in paths}, 'an utterance is missing in the best paths')
        for u, s in seqs.items():
            got = np.load(os.path.join(d, 'out', u + '.npy'))
            c.check(list(got) == [ids[p] for p in dedup(s)], f'best path {list(got)} of {s}')


def states(c):
    n = c.int(2, 4)
    inv = units(c)
    if c.flip(.2):
        n = 1
    pdfs = {u: list(range(i * n, (i + 1) * n)) for i, u in enumerate(inv)}
    seqs = trans(c, inv, hi=12)
    c.note(kind='states', n=n, seqs=seqs)
    with cli.scratch() as d:
        table = [f'{u} {i}\n' for i, u in enumerate(inv)]
        write(os.path.join(d, 'phones.txt'), ''.join(str(t) for t in c.rng.permutation(table)))
        write(os.path.join(d, 'conf'), yaml.dump({'n_state_per_unit': n, 'other': [1]}))
        run(c, 'prepare_trans.py', 'phones.txt', 'trans.npz', stdin=text(c, seqs), cwd=d)
        got = np.load(os.path.join(d, 'trans.npz'))
        c.check({u: list(got[u]) for u in got.files} == {u: [inv.index(p) for p in s] for u, s in seqs.items()}, 'identifiers of the phones')
        run(c, 'prepare_state_labels.py', 'phones.txt', 'trans.npz', 'conf', '.', cwd=d)
        got = np.load(os.path.join(d, 'states.int.npz'))
        c.check({u: list(got[u]) for u in got.files} == {u: [s for p in t for s in pdfs[p]] for u, t in seqs.items()}, 'states of the phones')
        hyp = {u: list(map(str, path(c, pdfs, s))) for u, s in seqs.items()}
        write(os.path.join(d, 'hyp'), text(c, hyp))
        run(c, 'convert_states_to_phone.py', 'hyp', 'out', 'phones.txt', 'conf', cwd=d)
        with open(os.path.join(d, 'out')) as f:
            out = lines(f.read())
        want = {u: collapse(s, pdfs) for u, s in seqs.items()}
        c.check(out == want, f'phones of the decoded states: {out} instead of {want}')


def mi(c):
    rp, hp = hmms(c), hmms(c)
    r2, h2 = ({s: u for u, ss in x.items() for s in ss} for x in (rp, hp))
    n = c.int(1, 8)
    ref = {f'u{i}': c.rng.integers(0, len(r2), c.size(1, 80, 1500)) for i in range(n)}
    det = c.flip(.2)
    f = c.rng.integers(0, len(h2), len(r2))
    hyp = {u: f[a] if det else np.where(c.rng.random(len(a)) < c.uni(0, 1), f[a], c.rng.integers(0, len(h2), len(a))) for u, a in ref.items()}
    missing = [u for u in hyp if n > 1 and c.flip(.15)][:n - 1]
    for u in missing:
        del hyp[u]
    for u in list(hyp):
        if c.flip(.1):
            hyp[f'extra_{u}'] = hyp[u]
    groups = None
    if c.flip(.4):
        k = c.int(1, 3)
        g = collections.defaultdict(list)
        for u in rp:
            g[f'g{c.int(0, k)}'].append(u)
        groups = dict(g)
    c.note(kind='mi', ref={u: a.tolist() for u, a in ref.items()}, hyp={u: a.tolist() for u, a in hyp.items()}, groups=groups, missing=missing)
    J = collections.Counter()
    for u in ref:
        if u in hyp:
            for a, b in zip(ref[u], hyp[u]):
                J[r2[int(a)], h2[int(b)]] += 1
    if groups:
        u2g = {u: x for x, us in groups.items() for u in us}
        G = collections.Counter()
        for (a, b), v in J.items():
            G[u2g[a], b] += v
        J = G
    X, Y = collections.Counter(), collections.Counter()
    for (a, b), v in J.items():
        Y[a] += v
        X[b] += v
    N = sum(J.values())
    H = lambda cs: -sum(v / N * np.log2(v / N) for v in cs.values())
    want = H(X) + H(Y) - H(J)
    with cli.scratch() as d:
        np.savez(os.path.join(d, 'ref.npz'), **ref)
        np.savez(os.path.join(d, 'hyp.npz'), **hyp)
        write(os.path.join(d, 'rmap'), mapping(rp))
        write(os.path.join(d, 'hmap'), mapping(hp))
        args = []
        if groups:
            write(os.path.join(d, 'groups'), ''.join(f'{x}: {" ".join(us)}\n' for x, us in groups.items()))
            args = ['--groups', 'groups']
        run(c, 'compare-alignments.py', *args, *(['--verbose'] * c.flip(.2)), 'ref.npz', 'rmap', 'hyp.npz', 'hmap', 'counts.pkl', cwd=d)
        with open(os.path.join(d, 'counts.pkl'), 'rb') as f:
            joint, rc, hc = pickle.load(f)
        got = {(a, b): v for a, x in joint.items() for b, v in x.items() if v > .5}
        c.check(set(got) == set(J), f'pairs of units {sorted(set(got) ^ set(J))[:4]} are counted on one side only (missing utterances: {missing})')
        for k in J:
            c.close(got[k], J[k], f'count of {k} (missing utterances: {missing})', rtol=1e-6, atol=1e-6)
        for name, g, w in (('reference', rc, Y), ('hypothesis', hc, X)):
            c.close([g[k] for k in w], [w[k] for k in w], f'counts of the {name} units', rtol=1e-6, atol=1e-6)
        out = [float(x) for x in re.findall(r'= (-?[\d.]+|nan)', run(c, 'mutual-information.py', 'counts.pkl', cwd=d))]
        c.check(abs(out[0] - want) < .0051, f'mutual information {out[0]} instead of {want}')
        if H(Y) > 1e-3:
            c.check(abs(out[1] - 100 * want / H(Y)) < .0051 + 1e-6, f'normalised mutual information {out[1]} instead of {100 * want / H(Y)}')


def feats(c):
    dim = c.int(1, 5)
    fea = {f'u{i}': (c.rng.normal(size=(c.int(1, 30), dim)) * c.logu(.1, 10) + c.uni(-5, 5)).astype(c.choice([np.float32, np.float64]))
           for i in range(c.int(1, 8))}
    ctx = c.int(0, 4)
    c.note(kind='feats', dim=dim, ctx=ctx, n=[len(f) for f in fea.values()])
    with cli.scratch() as d:
        np.savez(os.path.join(d, 'f.npz'), **fea)
        run(c, 'features-stats.py', 'f.npz', 'stats.npz', cwd=d)
        st = np.load(os.path.join(d, 'stats.npz'))
        allf = np.concatenate([f.astype(np.float64) for f in fea.values()])
        c.check(int(st['nframes']) == len(allf), f'{st["nframes"]} frames instead of {len(allf)}')
        scale = np.abs(allf).max() ** 2
        c.close(st['mean'], allf.mean(0), 'mean of the features', rtol=1e-4, atol=1e-5 * np.sqrt(scale))
        c.close(st['var'], allf.var(0), 'variance of the features', rtol=1e-4, atol=1e-5 * scale)
        os.mkdir(os.path.join(d, 'out'))
        todo = [u for u in fea if c.flip(.8)] or list(fea)
        run(c, 'features-stack-parallel.py', *(['--context', ctx] if ctx != 1 or c.flip() else []), 'f.npz', 'out', stdin=''.join(u + '\n' for u in todo), cwd=d)
        c.check(set(os.listdir(os.path.join(d, 'out'))) == {u + '.npy' for u in todo}, 'an utterance is missing in the stacked features')
        for u in todo:
            f, n = fea[u], len(fea[u])
            got = np.load(os.path.join(d, 'out', u + '.npy'))
            want = np.array([np.concatenate([f[min(max(t + k, 0), n - 1)] for k in range(-ctx, ctx + 1)]) for t in range(n)])
            c.close(got, want, f'stacked features of {u}', rtol=1e-6, atol=0)


def timit(c):
    big = [f'p{i}' for i in range(c.int(2, 15))]
    mid = [f'm{i}' for i in range(c.int(1, 8))] + ['sil']
    small = [f's{i}' for i in range(c.int(1, 4))] + ['sil']
    m2s = {m: c.choice(small) for m in mid}
    m2s['sil'] = 'sil'
    b2m = {b: c.choice(mid) for b in big}
    b2m['h#'], b2m['pcl'] = 'sil', 'cl'  # As in the map of TIMIT, silence is not alone in its class.
    m2s['cl'] = 'sil'
    order = [str(x) for x in c.rng.permutation(list(b2m) + ['q'])]
    c.note(kind='timit', b2m=b2m, m2s=m2s)
    pm = ''.join('q\n' if b == 'q' else f'{b}\t{b2m[b]}\t{m2s[b2m[b]]}\n' for b in order)
    with cli.scratch() as d:
        write(os.path.join(d, 'map'), pm)
        t = trans(c, list(b2m) + ['q'])
        out = lines(run(c, 'timit-norm-trans.py', '--map-60-48', 'map', stdin=text(c, t), cwd=d))
        t48 = {u: [b2m[p] for p in s if p != 'q'] for u, s in t.items()}
        c.check(out == t48, f'48 phones: {out} instead of {t48}')
        out = lines(run(c, 'timit-norm-trans.py', '--map-48-39', 'map', stdin=text(c, t48), cwd=d))
        t39 = {u: [m2s[p] for p in s] for u, s in t48.items()}
        c.check(out == t39, f'39 phones: {out} instead of {t39}')
        run(c, 'timit_lang_prep.py', 'lang/x', 'map', cwd=d)
        rd = lambda n: [l.split() for l in open(os.path.join(d, 'lang', 'x', n))]
        used = sorted(set(b2m.values()))
        p48, p39, pmap = rd('phones.txt'), rd('phones_39.txt'), rd('phones_48_to_39.txt')
        c.check(p48[0] == ['sil', '0'] and sorted(p for p, _ in p48) == used and [int(i) for _, i in p48] == list(range(len(used))), f'table of the 48 phones {p48}')
        c.check(dict(pmap) == {m: m2s[m] for m in used} and len(pmap) == len(used), f'map to the 39 phones {pmap}')
        nonsil = sorted({m2s[m] for m in used if m != 'sil'} | {'sil'})
        c.check(p39[0] == ['sil', '0'] and sorted(p for p, _ in p39) == nonsil and [int(i) for _, i in p39] == list(range(len(nonsil))), f'table of the 39 phones {p39}')


def speakers(c):
    spk = [f's{i}' for i in range(c.int(1, 5))]
    u2s = {f'u{i}': c.choice(spk) for i in range(c.int(1, 12))}
    c.note(kind='speakers', u2s=u2s)
    with cli.scratch() as d:
        write(os.path.join(d, 'utt2spk'), ''.join(f'{u} {s}\n' for u, s in u2s.items()))
        out = lines(run(c, 'prepare-spk-labels.py', 'utt2spk', 'out.npz', cwd=d))
        ids = {s: int(i[0]) for s, i in out.items()}
        c.check(set(ids) == set(u2s.values()) and sorted(ids.values()) == list(range(len(ids))), f'labels of the speakers {ids}')
        got = np.load(os.path.join(d, 'out.npz'))
        c.check({u: got[u].tolist() for u in got.files} == {u: [ids[s]] for u, s in u2s.items()}, 'labels of the utterances')


def graphs(c):
    inv = units(c, 2)
    sil = c.flip()
    c.note(kind='graphs', inv=inv, sil=sil)
    with cli.scratch() as d:
        write(os.path.join(d, 'phones'), ''.join(f'{u} {i}\n' for i, u in enumerate(inv)))
        out = run(c, 'create-decode-graph.py', *(['--use-silence'] * sil), 'phones', cwd=d)
        write(os.path.join(d, 'txt'), out)
        run(c, 'prepare-decode-graph.py', 'txt', 'graph', cwd=d)
        g = cli.load(os.path.join(d, 'graph'))
        name = g.symbols
        arcs = {(name[a.start], name[a.end]): float(a.weight) for s in g.states() for a in g.arcs(s)}
        c.check(name[g.start_state] == '[s]' and name[g.end_state] == '[/s]', 'start and end of the graph')
        inner = inv[1:] if sil else inv
        want = {}
        if sil:
            want[('[s]', inv[0])] = 1.
            want[(inv[0], '[/s]')] = want[(inv[0], '_1')] = .5
            outs = inv
        else:
            want[('[s]', '_1')] = 1.
            outs = inv + ['[/s]']
        for u in outs:
            want[('_1', u)] = 1 / len(outs)
        for u in inner:
            want[(u, '_1')] = 1.
        c.check(set(arcs) == set(want), f'arcs {sorted(set(arcs) ^ set(want))[:4]}')
        for k in want:
            c.close(arcs[k], want[k], f'weight of the arc {k}', rtol=1e-6, atol=0)


QSUB = '''#!{py}
import os, random, re, subprocess, sys
a = sys.argv[1:]
t = re.match(r'(\\d+)-(\\d+)', a[a.index('-t') + 1])
i = [k for k, x in enumerate(a) if x.endswith('jobarray.qsub')][0]
tasks = list(range(int(t.group(1)), int(t.group(2)) + 1))
random.Random({seed}).shuffle(tasks)
out = a[a.index('-o') + 1]
rc = 0
for k in tasks:
    env = dict(os.environ, SGE_TASK_ID=str(k), SGE_O_WORKDIR=os.getcwd())
    with open(out.replace('$TASK_ID', str(k)), 'w') as f:
        rc |= subprocess.run(['bash', a[i]] + a[i + 1:], env=env, stdout=f, stderr=f).returncode
sys.exit(rc != 0)
'''


def jobs(c):
    recipe = c.choice(['aud', 'timit_v2', 'zrc2019'])
    par = os.path.join(REPO, 'recipes', recipe, 'utils', 'parallel')
    rounds = [(c.int(1, 15) if c.flip(.95) else c.int(99, 110), c.int(1, 40)) for _ in range(c.choice([1, 1, 2, 3]))]
    c.note(kind='jobs', recipe=recipe, rounds=rounds)
    with cli.scratch() as d:
        os.makedirs(os.path.join(d, 'utils'))
        os.symlink(par, os.path.join(d, 'utils', 'parallel'))
        write(os.path.join(d, 'path.sh'), '')
        os.mkdir(os.path.join(d, 'bin'))
        q = write(os.path.join(d, 'bin', 'qsub'), QSUB.format(py=sys.executable, seed=c.int(0, 10 ** 6)))
        os.chmod(q, 0o700)
        env = dict(os.environ, PATH=os.path.join(d, 'bin') + os.pathsep + os.environ['PATH'])
        for k, (njobs, n) in enumerate(rounds):
            utts = [f'utt{c.int(0, 999)}_{i}' + 'x' * c.int(0, 30) for i in range(n)]
            write(os.path.join(d, 'list'), '\n'.join(utts) + '\n')
            write(os.path.join(d, 'seen'), '')
            cmd = 'cat - | tee -a seen.JOBID >> seen' if recipe == 'aud' and c.flip() else 'tee -a seen.JOBID seen'
            p = subprocess.run([os.path.join('utils', 'parallel', 'submit_parallel.sh'), 'sge', 'job', '-l mem=1G', str(njobs), 'list', cmd, 'out'],
                               cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            c.ev('array_jobs')
            c.check(p.returncode == 0, f'parallel job failed: {p.stdout.decode()[-500:]}')
            with open(os.path.join(d, 'seen')) as f:
                seen = f.read().split()
            c.check(sorted(seen) == sorted(utts), f'round {k + 1}: {len(set(utts) - set(seen))} utterances of {n} were not processed, '
                    f'{len(seen) - len(set(seen))} several times, {len(set(seen) - set(utts))} unknown ({njobs} jobs)')
            with open(os.path.join(d, 'list')) as f:
                c.check(f.read().split() == utts, 'the list of utterances was changed')


AUD = os.path.join(REPO, 'recipes', 'aud')


def corpus(c):
    'A data base laid out as TIMIT: sets of the speakers, transcriptions, alignments, units.'
    new = c.flip(.65)
    src = os.path.join(AUD, 'local', 'timit') if new else os.path.join(REPO, 'recipes', 'timit_v2')
    conf = os.path.join(AUD, 'local', 'timit')
    rd = lambda n: open(os.path.join(conf, n)).read().split()
    test, dev = rd('test_spk.list'), rd('dev_spk.list')
    table = [l.split() for l in open(os.path.join(conf, 'phones.60-48-39.map'))]
    b2m = {l[0]: l[1] for l in table if len(l) == 3}
    upper = c.flip()
    up = (lambda s: s.upper()) if upper else (lambda s: s)
    spk = {'test': c.rng.permutation(test)[:c.int(1, 4)], 'dev': c.rng.permutation(dev)[:c.int(1, 4)],
           'train': [f'{c.choice("fm")}zz{chr(97 + i)}{c.int(0, 9)}' for i in range(c.int(1, 5))]}
    c.note(kind='corpus', recipe=new, upper=upper, spk={x: [str(s) for s in v] for x, v in spk.items()})
    with cli.scratch() as d:
        r = recipes.Recipe(c, d)
        root, utts = r.p('TIMIT'), {}
        for x in ('train', 'test'):
            os.makedirs(os.path.join(root, up(x)))
        for x, ss in spk.items():
            for sp in ss:
                sp = up(str(sp))
                w = os.path.join(root, up('train' if x == 'train' else 'test'), up(f'dr{c.int(1, 8)}'), sp)
                os.makedirs(w)
                names = [f'sx{i}' for i in c.rng.permutation(400)[:c.int(1, 3)]] + [f'si{i}' for i in c.rng.permutation(2000)[:c.int(0, 2)]]
                for n in names + ['sa1', 'sa2'][:c.int(0, 2)]:
                    segs = [['h#', *[c.choice(list(b2m) + ['q']) for _ in range(c.int(0, 30))], 'h#'], [int(c.choice([0, c.int(0, 3000)]))]]
                    for _ in segs[0]:
                        segs[1].append(segs[1][-1] + (c.int(160, 5000) if c.flip(.9) else c.int(20, 200) if c.flip(.7) else 16000 * c.int(1, 3)))
                    write(os.path.join(w, up(n + '.phn')), ''.join(f'{a} {b} {ph}\n' for a, b, ph in zip(segs[1], segs[1][1:], segs[0])))
                    write(os.path.join(w, up(n + '.wav')), '')
                    if not n.startswith('sa'):
                        utts[f'{sp}_{up(n)}'] = (x, segs, os.path.join(w, up(n + '.wav')))
        if new:
            shutil.copytree(src, r.p('local/timit'))
            f = r.p('local/timit/prepare_data.sh')
            text = open(f).read()
            write(f, re.sub(r'(?m)^rootdir=.*$', lambda _: 'rootdir=' + root, text))
            os.chmod(f, 0o700)
            cmd, sets = ['local/timit/prepare_data.sh', 'data/timit'], 'data/timit/local/{}'
            names = {'scp': 'data/timit/local/{}_wav.scp'}
        else:
            os.symlink(os.path.join(src, 'local'), r.p('local'))
            os.remove(r.p('utils'))
            os.symlink(os.path.join(src, 'utils'), r.p('utils'))
            cmd, sets = ['local/timit_data_prep.sh', root, 'data/lang', conf], 'data/local/data/{}'
        r.run(*cmd)
        get = lambda n: open(r.p(n)).read().split('\n')[:-1]
        for x in spk:
            mine = sorted(u for u in utts if utts[u][0] == x)
            b = sets.format(x)
            c.check(get(b + '.uttids') == mine, f'utterances of the {x} set: {get(b + ".uttids")} instead of {mine}')
            txt = {u: [b2m.get(ph, 'sil' if ph == 'h#' else None) for ph in utts[u][1][0] if ph != 'q'] for u in mine}
            got = [l.split() for l in get(b + '.text')]
            c.check([l[0] for l in got] == mine and {l[0]: l[1:] for l in got} == txt, f'transcriptions of the {x} set {got}, expected {txt}')
            raw = [l.split() for l in get(b + '.trans')]
            c.check({l[0]: l[1:] for l in raw} == {u: utts[u][1][0] for u in mine} and len(raw) == len(mine), f'raw transcriptions of the {x} set')
            scp = [l.split() for l in get(b + '_wav.scp')]
            c.check([l[0] for l in scp] == mine and all(l[-1] == '|' and utts[l[0]][2] in l for l in scp), f'audio files of the {x} set {scp}')
            c.check([l.split() for l in get(b + '.utt2spk')] == [[u, u.split('_')[0]] for u in mine], f'speakers of the {x} set')
            if new:
                for n, o in (('uttids', '.uttids'), ('wav.scp', '_wav.scp'), ('trans', '.text')):
                    c.check(get(f'data/timit/{x}/{n}') == get(b + o), f'{n} of the {x} set')
                ali = [l.split() for l in get(f'data/timit/{x}/ali')]
                c.check(sorted(l[0] for l in ali) == mine, f'alignments of {[l[0] for l in ali]}')
                for l in ali:
                    ph, t = utts[l[0]][1]
                    want = [q for q, a, e in zip(ph, t, t[1:]) for _ in range(e * 100 // 16000 - a * 100 // 16000)]
                    c.check(l[1:] == want, f'alignment of {l[0]}: {l[1:]} instead of {want}')
                    c.ev('frames', len(want))
            c.ev('corpus_utterances', len(mine))
        lang = 'data/timit/lang/' if new else 'data/lang/'
        m39 = dict(l.split() for l in get(lang + 'phones_48_to_39.txt'))
        used = {l[1] for l in table if len(l) == 3}
        c.check(m39 == {l[1]: l[2] for l in table if len(l) == 3 and l[1] != 'sil'} | {'sil': 'sil'} or m39 == {l[1]: l[2] for l in table if len(l) == 3}, f'map of the phones {m39}')
        if new:
            un = [l.split() for l in get(lang + 'units')]
            c.check(sorted(u for u, _ in un) == sorted(used) and all((g == 'non-speech-unit') == (u in ('sil', 'epi')) for u, g in un), f'units {un}')
            m61 = {l.split()[0]: l.split()[1:] for l in get(lang + 'phones_61_to_39.txt')}
            c.check(m61 == {l[0]: l[2:] for l in table}, f'map of the 61 phones {m61}')
        if c.flip(.2):
            before = {n: open(os.path.join(q, n), 'rb').read() for q, _, fs in os.walk(r.p('data')) for n in fs}
            r.run(*cmd)
            c.check(before == {n: open(os.path.join(q, n), 'rb').read() for q, _, fs in os.walk(r.p('data')) for n in fs}, 'the prepared data were changed')
        r.close()


def readspeech(c):
    'Data bases of read speech: audio files, utterances, transcriptions, units of the languages.'
    kind = c.choice(['alffa', 'google_lr', 'mboshi', 'zrc2019'])
    aud = kind != 'zrc2019' or c.flip()
    utt = lambda i: c.choice(['swh', 'u_', 'a-b_']) + f'{i:0{c.int(1, 5)}d}' + c.choice(['', '_part1', '-x'])
    with cli.scratch() as d:
        r = recipes.Recipe(c, d)
        get = lambda n: open(r.p(n), encoding='utf-8').read().split('\n')[:-1]
        os.makedirs(r.p('local'), exist_ok=True)
        shutil.copytree(os.path.join(REPO, 'recipes', 'aud' if aud else 'zrc2019', 'local', kind), r.p('local/' + kind))
        f = r.p(f'local/{kind}/prepare_data.sh')
        root, out = r.p('corpus'), 'data/' + kind
        write(f, re.sub(r'(?m)^rootdir=.*$', lambda _: 'rootdir=' + root, open(f).read()))
        os.chmod(f, 0o700)
        os.makedirs(root)
        langs = [str(x) for x in c.rng.permutation(['swahili', 'wolof', 'brasil', 'l1'])[:c.int(1, 3)]]
        n = lambda: c.size(1, 8, 60)
        c.note(kind=kind, langs=langs, aud=aud)

        def wavs(base, ids):
            res = {}
            for u in ids:
                w = os.path.join(base, *[c.choice(['a', 'b1', 'spk-2']) for _ in range(c.int(0, 2))], u + '.wav')
                write(w, '')
                res[u] = w
            return res
        table = lambda ls: {l.split()[0]: l.split()[1:] for l in ls}
        expect, sents = {}, {}
        for l in langs:
            if kind == 'alffa':
                base = os.path.join(root, f'data_{c.choice(["readspeech", "broadcastnews"])}_{l}')
                lex = {w: [f'p{c.int(0, 6)}' for _ in range(c.int(1, 4))] for w in ('ba', 'kifo', 'ng', 'z', 'sil')}
                write(os.path.join(base, c.choice(['lang', 'lang_o3g_LengthContrast']), 'lexicon.txt'), ''.join(f'{w} {" ".join(p)}\n' for w, p in lex.items()))
                for x in ('train', 'test'):
                    ids = sorted({utt(i) for i in range(n())}, key=lambda _: c.rng.random())
                    sents[l, x] = {u: [c.choice(list(lex)) for _ in range(c.int(1, 6))] for u in ids}
                    write(os.path.join(base, 'data', x, 'text'), text(c, sents[l, x]))
                    expect[l, x] = wavs(os.path.join(base, 'data', x), ids + (['unused'] if c.flip(.3) else []))
                    sents[l, x] = {u: [p for w in s for p in lex[w]] for u, s in sents[l, x].items()}
            elif kind == 'google_lr':
                expect[l, 'train'], sents[l, 'train'] = {}, {}
                for g in ('female', 'male')[:c.int(1, 2)]:
                    ids = sorted({g[0] + utt(i) for i in range(n())}, key=lambda _: c.rng.random())
                    sn = {u: [''.join(c.choice('abeko') for _ in range(c.int(1, 6))) for _ in range(c.int(1, 5))] for u in ids}
                    write(os.path.join(root, l, g, 'line_index.tsv'), ''.join(u + '\t' + ' '.join(s) + '\n' for u, s in sn.items()))
                    expect[l, 'train'].update(wavs(os.path.join(root, l, g), ids))
                    sents[l, 'train'].update({u: list(''.join(s)) for u, s in sn.items()})
        if kind == 'mboshi':
            base = r.p(out + '/local/mboshi')
            write(os.path.join(base, 'script', 'fix_wav.sh'), '#!/bin/sh\ncp "$1" "$2/"\n')
            alis = {}
            for x in ('train', 'dev'):
                ids = sorted({x[0] + utt(i) for i in range(n())})
                wavs(os.path.join(base, 'full_corpus_newsplit', x), ids)
                expect['', x] = {u: os.path.join(out, 'local/mboshi/full_corpus_newsplit', x + '.fixed', u + '.wav') for u in ids}
                alis.update({u: [c.choice('abc') for _ in range(c.int(1, 20))] for u in ids})
            write(r.p('local/mboshi/mboshi.ali'), text(c, alis))
        elif kind == 'zrc2019':
            ids = sorted({utt(i) for i in range(n())})
            wavs(os.path.join(root, 'samples'), ids)
            import tarfile
            with tarfile.open(r.p('samples.tar.bz2'), 'w:bz2') as t:
                t.add(os.path.join(root, 'samples'), 'samples')
            base = r.p(out + '/local/samples')
            expect['', 'train'] = {u: None for u in ids}
        cmd = [f'local/{kind}/prepare_data.sh', out] + ([' '.join(langs)] if kind in ('alffa', 'google_lr') else [])
        r.run(*cmd)
        if kind == 'google_lr' and c.flip(.4):
            new = 'new'
            write(os.path.join(root, new, 'male', 'line_index.tsv'), 'n1\tab\n')
            expect[new, 'train'], sents[new, 'train'] = wavs(os.path.join(root, new), ['n1']), {'n1': ['a', 'b']}
            langs.append(new)
            r.run(cmd[0], out, ' '.join(langs))
            c.ev('languages_added_to_prepared_ones')
        for (l, x), w in expect.items():
            b = os.path.join(out, l, x)
            ids = set(sents.get((l, x), w))
            scp = table(get(b + '/' + ('wav.scp' if aud else 'wavs.scp')))
            c.check(set(scp) == ids and sorted(get(b + '/uttids')) == sorted(ids), f'utterances of {l} {x}: {sorted(scp)}, expected {sorted(ids)}')
            for u, p in scp.items():
                c.check(len(p) == 1 and os.path.isfile(r.p(p[0])) and os.path.basename(p[0]) == u + '.wav' and
                        (w[u] is None or os.path.realpath(r.p(p[0])) == os.path.realpath(r.p(w[u]))), f'audio file of {u}: {p}, expected {w[u]}')
            c.ev('corpus_utterances', len(ids))
            if kind == 'mboshi':
                c.check(table(get(b + '/ali')) == {u: alis[u] for u in ids}, f'alignments of the {x} set: {get(b + "/ali")}')
            if (l, x) in sents:
                tr = table(get(b + '/trans'))
                un = [q.split() for q in get(os.path.join(out, l, 'lang', 'units'))]
                names = dict(q.split() for q in get(os.path.join(out, l, 'lang', 'phones.txt')))
                c.check(tr == {u: ['sil', *[names[p] for p in s], 'sil'] for u, s in sents[l, x].items()}, f'transcriptions of {l} {x}: {tr}')
                if x == 'train':
                    want = {names[p] for s in sents[l, x].values() for p in s}
                    c.check(un[0] == ['sil', 'non-speech-unit'] and sorted(un[1:]) == sorted([p, 'speech-unit'] for p in want), f'units of {l}: {un}, expected {sorted(want)}')
        r.close()


def lexicons(c):
    'Transcriptions in words or characters to units, names of the units.'
    with cli.scratch() as d:
        o = os.path.join(d, 'data', 'xx', 'train')
        words = [str(w) for w in c.rng.permutation(['ba', 'kifo', "ng'e", 'élan', 'z', 'UNO', '25', 'sil', 'a-b', 'oh'])[:c.int(1, 10)]]
        lang = c.choice(['sw', 'am', 'l-1'])
        inv = [f'{p}{i}' for i, p in enumerate(['A', 'b', 'ts_h', 'SIL', 'é', '@', 'n~', 'k'][:c.int(1, 8)])]
        lex = {w: [c.choice(inv) for _ in range(c.int(1, 5))] for w in words}
        nons = [p for p in inv if c.flip(.8)] if c.flip() else None
        keep = c.flip(.4)
        c.note(kind='lexicons', lang=lang, lex=lex, nons=nons, keep=keep)
        write(os.path.join(d, 'lexicon.txt'), ''.join(w + c.choice([' ', '\t']) + ' '.join(p) + '\n' for w, p in lex.items()))
        if nons is not None:
            write(os.path.join(d, 'nonsilence_phones.txt'), ''.join(p + '\n' for p in nons))
        table = None
        for x in ('train', 'test')[:c.int(1, 2)]:
            o = os.path.join('data', 'xx', x)
            sents = {f'{x}_{i}': [c.choice(words + (['<unk>'] if c.flip(.1) else [])) for _ in range(c.int(1, 12))] for i in range(c.size(1, 8, 300))}
            write(os.path.join(d, 'text'), text(c, sents))
            os.makedirs(os.path.join(d, o), exist_ok=True)
            cli.beer(c, '--lang', lang, *(['--keep-sil-phones'] if keep else []), 'text', os.path.join(d, 'lexicon.txt'), o,
                     script=os.path.join(AUD, 'local', 'alffa', 'prepare_transcripts.py'), cwd=d)
            c.ev('prepare_transcripts_runs')
            ids = dict(l.split() for l in open(os.path.join(d, 'data', 'xx', 'lang', 'phones.txt')))
            c.check(set(ids) == {p for s in lex.values() for p in s} and len(set(ids.values())) == len(ids)
                    and all(v.startswith(lang + '_') for v in ids.values()), f'units {ids}')
            c.check(table in (None, ids), f'the units of the {x} set are not those of the first: {ids}, {table}')
            table = ids
            got = [l.split() for l in open(os.path.join(d, o, 'trans'))]
            want = [[u, 'sil', *[ids[p] for w in s for p in lex[w] if keep or nons is None or p in nons], 'sil']
                    for u, s in sents.items() if '<unk>' not in s]
            c.check(got == want, f'transcriptions {got[:5]} instead of {want[:5]}')


def letters(c):
    'Transcriptions in characters, with or without tone marks, to units.'
    import unicodedata
    marks = ['\u0300', '\u0301', '\u0323', '\u0331']
    base = list('abegikosgb')
    dia, sil = c.flip(), c.flip()

    def word():
        return [(c.choice(base), [str(m) for m in c.rng.permutation(marks)[:c.int(0, 2)]] if c.flip(.3) else []) for _ in range(c.int(1, 8))]
    sents = {f'u{i}': [('[x]' if c.flip(.1) else c.choice(['-', "'", '...']) if c.flip(.05) else word()) for _ in range(c.int(1, 10))] for i in range(c.size(1, 8, 200))}

    def write_word(w):
        if isinstance(w, str):
            return w
        return ''.join((b.upper() if c.flip(.1) else b) + ''.join(ms) for b, ms in w) + c.choice(['', '', '.', ','])

    def phones(w):
        out = []
        for b, ms in w:
            if b == 'b' and out and out[-1] == ['g', []]:
                out[-1] = ['gb', []]
            else:
                out.append([b, []])
            out[-1][1] = out[-1][1] + (list(ms) if dia else [])
        return [(b, tuple(sorted(m))) for b, m in out]
    lang = c.choice(['yo', 'jv'])
    c.note(kind='letters', dia=dia, sil=sil, lang=lang, n=len(sents), words=[write_word(w) for w in sents['u0']])
    with cli.scratch() as d:
        os.makedirs(os.path.join(d, 'o'))
        write(os.path.join(d, 'text'), ''.join(u + ' ' + ' '.join(write_word(w) for w in s) + '\n' for u, s in sents.items()))
        cli.beer(c, '--lang', lang, *(['--add-sil'] if sil else []), *(['--diacritics'] if dia else []), 'text', 'o',
                 script=os.path.join(AUD, 'local', 'google_lr', 'prepare_transcripts.py'), cwd=d)
        c.ev('prepare_transcripts_runs')
        ids = dict(l.split() for l in open(os.path.join(d, 'lang', 'phones.txt')))
        c.check(len(set(ids.values())) == len(ids), f'units {ids}')
        got = [l.split() for l in open(os.path.join(d, 'o', 'trans'))]
        c.check([l[0] for l in got] == list(sents), f'utterances {[l[0] for l in got]}')
        name, back = {}, {}
        for u, g in zip(sents, got):
            want = []
            for w in sents[u]:
                if w == '[x]':
                    if want and want[-1] != 'sil':
                        want.append('sil')
                elif not isinstance(w, str):
                    want += phones(w)
            want = ['sil'] + want + ['sil'] if sil else want
            c.check(len(g) - 1 == len(want), f'{u}: {len(g) - 1} units instead of {len(want)}: {g} {want}')
            for a, b in zip(g[1:], want):
                c.check((a == 'sil') == (b == 'sil') and name.setdefault(b, a) == a and back.setdefault(a, b) == b, f'{u}: unit {a} for {b}, {name.get(b)}, {back.get(a)}')
        c.check(set(ids.values()) == set(back) | {'sil'}, f'units {sorted(ids.values())}, used {sorted(back)}')


CASES = [(per, 120, 1500), (alignments, 80, 800), (states, 80, 800), (mi, 120, 1200), (feats, 80, 800), (timit, 60, 600),
         (speakers, 15, 200), (graphs, 20, 300), (jobs, 50, 300),
         (corpus, 40, 300), (readspeech, 40, 300), (lexicons, 40, 400), (letters, 40, 400)]
