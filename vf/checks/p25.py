'runtime oracle: outputs of the scoring and conversion scripts compared with independent definitions (recursive edit distance, boundary matching, entropies of the joint counts) and metamorphic relations (orders of lines, identical transcriptions, renamed labels)'
import os, re
from collections import Counter
import numpy as np
import yaml
from ..core import REPO
from .. import cli

RULE = '''Random framewise and unit transcriptions (1-8 utterances of 1-60 tokens, inventories of 1-12 labels including ones
YAML could mistake for numbers or booleans, repeated labels, one-unit utterances, absent hypotheses, unknown labels).'''
ASSUMPTIONS = ['every line names an utterance and references have at least one token in total', 'scores are printed with two decimals']
CHUNK = 4
UTILS = os.path.join(REPO, 'recipes', 'aud', 'utils')
LABELS = ['a', 'b', 'aa', 'au1', 'au2', 'au10', 'sil', 'no', 'yes', '1', '01', '1e3', 'null', 'é', 'b:', "n'", '<s>', 'x_1', 'A', '~', '-']


def run(c, script, *args, stdin=''):
    r = cli.beer(c, *args, script=os.path.join(UTILS, script), stdin=stdin, real=c.flip(.02))
    c.ev(script.replace('.py', '_runs'))
    return r.out


def inventory(c, n=None):
    ls = list(LABELS)
    c.rng.shuffle(ls)
    return [str(l) for l in ls[:n or c.int(1, 8)]]


def frames(c, inv, lo=1, hi=60):
    out = []
    for _ in range(c.choice([1, c.int(1, 6), c.int(2, 15)])):
        out += [c.choice(inv)] * c.int(1, 6)
    return out[:max(lo, min(hi, len(out)))]


def corrupt(c, seq, inv, same_len=False):
    out = []
    for t in seq:
        r = c.uni(0, 1)
        if r < .1:
            out.append(c.choice(inv))
        elif r < .2 and not same_len:
            continue
        elif r < .3 and not same_len:
            out += [t, c.choice(inv)]
        else:
            out.append(t)
    if same_len and c.flip():
        k = c.int(-2, 2)
        out = (out[:1] * max(0, k) + out + out[-1:] * max(0, -k))[max(0, -k):][:len(seq)]
    return out


def save(c, path, trans, order=None):
    order = order or list(trans)
    with open(path, 'w') as f:
        for u in order:
            f.write(c.choice([' ', ' ', '  ', '\t']).join([u] + trans[u]) + c.choice(['\n', ' \n']))


def shuffled(c, d):
    return [str(x) for x in c.rng.permutation(list(d))]


def lev(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        last, row = row, [i]
        for j, y in enumerate(b, 1):
            row.append(min(last[j] + 1, row[-1] + 1, last[j - 1] + (x != y)))
    return row[-1]


def dedup(s):
    return [x for i, x in enumerate(s) if i == 0 or s[i - 1] != x]


def value(out):
    return [float(v) for v in re.findall(r'-?[\d.]+|nan', out.strip().split('\n')[-1])]


def parse(out):
    return {l.split()[0]: l.split()[1:] for l in out.split('\n') if l.strip()}


def ter(c):
    inv, inv2 = inventory(c), inventory(c)
    ref = {f'u{i}': frames(c, inv) for i in range(c.size(1, 8, 60))}
    hyp = {u: corrupt(c, t, inv + inv2[:2]) for u, t in ref.items()}
    if c.flip(.18):  # long recordings: silences, repetitions, material moved far away
        u = c.choice(list(ref))
        ref[u] = [c.choice(inv) for _ in range(c.int(60, 220) if c.flip(.7) else c.int(260, 600))]
        hyp[u] = corrupt(c, ref[u], inv + inv2[:2])
        k = c.int(0, len(ref[u]) // 2)
        if c.flip():
            hyp[u] = hyp[u][k:] + hyp[u][:k]
        if c.flip():
            hyp[u] = [c.choice(inv2)] * c.int(0, 60) + hyp[u]
        if c.flip(.4):  # nothing in common
            hyp[u] = ['none'] * c.int(0, len(ref[u]) + 40)
        elif c.flip(.6):  # a common part shifted by a long way
            n = c.int(10, 300)
            a, b = [c.choice(inv) for _ in range(n)], [c.choice(inv) for _ in range(n + c.int(-9, 9))]
            k = [f'{x}{i}' for i, x in enumerate(ref[u][:c.int(200, 400)])]
            ref[u], hyp[u] = a + k, k + b
    perfect = c.flip(.15)
    if perfect:
        hyp = {u: list(t) for u, t in ref.items()}
    if len(ref) > 1 and c.flip(.3) and not perfect:
        del hyp[c.choice(hyp)]
    if c.flip(.3):
        hyp['zz'] = ['a', 'b']
    norep, mapping = c.flip(), None
    if c.flip(.4):
        mapping = {l: c.choice(inv2) for l in set(inv + inv2) if c.flip(.8)}
    c.note(ref=ref, hyp=hyp, no_repeat=norep, mapping=mapping)

    def prepare(t):
        if mapping is not None:
            t = [mapping[x] for x in t if x in mapping]
        return dedup(t) if norep else t
    pairs = [(tuple(prepare(ref[u])), tuple(prepare(hyp[u]))) for u in ref if u in hyp]
    n = sum(len(r) for r, _ in pairs)
    if n == 0:
        c.trivial = True
        return
    want = 100 * sum(lev(r, h) for r, h in pairs) / n
    with cli.scratch() as d:
        p = lambda x: os.path.join(d, x)
        args = ['--no-repeat'] if norep else []
        if mapping is not None:
            with open(p('map'), 'w') as f:
                f.writelines(f'{a} {b}\n' for a, b in mapping.items())
            args += ['--mapping', p('map')]
        for i in range(2):
            save(c, p('ref'), ref, shuffled(c, ref))
            save(c, p('hyp'), hyp, shuffled(c, hyp))
            out = run(c, 'ter.py', *args, p('ref'), p('hyp'))
            got = value(out)
            c.check(len(got) == 1 and abs(got[0] - want) <= .00501, f'token error rate {got}, expected {want}')
    if perfect:
        c.check(got[0] == 0, 'identical transcriptions have no error')
    c.ev('tokens', n)


def bounds(t):
    return [i + 1 for i in range(1, len(t)) if t[i] != t[i - 1]]


def hits(ref, hyp, delta):
    'Hypothesised boundaries in turn take the nearest remaining reference boundary.'
    free, n = list(ref), 0
    for b in hyp:
        if free:
            m = min(free, key=lambda r: (abs(r - b), r))
            if abs(m - b) <= delta:
                free.remove(m)
                n += 1
    return n


def boundaries(c):
    inv = inventory(c, c.int(2, 6))
    ref = {f'u{i}': frames(c, inv) for i in range(c.size(1, 8, 60))}
    if c.flip(.2):  # long recordings
        for u in list(ref)[:2]:
            n, t = c.int(500, 6000), []
            while len(t) < n:
                t += [c.choice(inv)] * c.int(1, c.choice([6, 300]))
            ref[u] = t
    hyp = {u: corrupt(c, t, inv, same_len=True) for u, t in ref.items()}
    if c.flip(.3):
        for u in hyp:  # one more boundary
            i = c.int(0, len(hyp[u]) - 1)
            hyp[u][i:] = [c.choice(inv)] * (len(hyp[u]) - i)
    kind = c.choice(['identical', 'renamed', 'noisy', 'noisy', 'noisy'])
    ren = {l: f'h{i}' for i, l in enumerate(inv)}
    if kind == 'identical':
        hyp = {u: list(t) for u, t in ref.items()}
    elif kind == 'renamed':
        hyp = {u: [ren[x] for x in t] for u, t in ref.items()}
    delta = c.choice([None, 0, 1, 2, 3])
    mapping = None
    if c.flip(.3):
        mapping = {l: c.choice(inv) for l in inv + list(ren.values()) if c.flip(.7)}
    c.note(kind=kind, delta=delta, mapping=mapping, ref=ref)
    oov = {}
    m = (lambda t: t) if mapping is None else (lambda t: [mapping.get(x, ('oov', x)) for x in t])
    R = {u: bounds(m(t)) for u, t in ref.items()}
    H = {u: bounds(m(t)) for u, t in hyp.items()}
    h = sum(hits(R[u], H[u], 2 if delta is None else delta) for u in ref)
    nr, nh = sum(map(len, R.values())), sum(map(len, H.values()))
    rec, prec = h / nr if nr else 0., h / nh if nh else 0.
    f = 2 * rec * prec / (rec + prec) if rec + prec else 0.
    with cli.scratch() as d:
        p = lambda x: os.path.join(d, x)
        args = [] if delta is None else ['-d', delta]
        if mapping is not None:
            with open(p('map'), 'w') as g:
                g.writelines(f'{a} {b}\n' for a, b in mapping.items())
            args += ['--mapping', p('map')]
        for i in range(2):
            save(c, p('ref'), ref, shuffled(c, ref))
            save(c, p('hyp'), hyp, shuffled(c, hyp))
            got = value(run(c, 'score_boundaries.py', *args, p('ref'), p('hyp')))
            c.check(len(got) == 3 and np.abs(np.array(got) - 100 * np.array([rec, prec, f])).max() <= .00501,
                    f'recall, precision, f-score {got}, expected {100 * rec}, {100 * prec}, {100 * f}')
    if kind in ('identical', 'renamed') and mapping is None and nr:
        c.check(got == [100., 100., 100.], f'the same boundaries score perfectly: {got}')
    c.ev('boundaries', nr + nh)


def entropy(p):
    p = np.array([x for x in p if x > 0], float)
    p = p / p.sum()
    return float(-(p * np.log2(p)).sum())


def mapping(c):
    'Overlap counts, mapping, mutual information.'
    inv, inv2 = inventory(c, c.int(2, 8)), inventory(c, c.int(2, 8))
    ref = {f'u{i}': frames(c, inv) for i in range(c.size(1, 6, 60))}
    if c.flip(.15):  # long recordings
        for u in list(ref)[:2]:
            ref[u] = [x for _ in range(c.int(5, 60)) for x in [c.choice(inv)] * c.int(1, 400)]
    tab = {l: c.choice(inv2) for l in inv}
    kind = c.choice(['noisy', 'noisy', 'bijective', 'independent'])
    if kind == 'bijective':
        tab = {l: f'h{i}' for i, l in enumerate(inv)}
        hyp = {u: [tab[x] for x in t] for u, t in ref.items()}
    elif kind == 'noisy':
        hyp = {u: corrupt(c, [tab[x] for x in t], inv2, same_len=True) for u, t in ref.items()}
    else:
        hyp = {u: [c.choice(inv2) for _ in t] for u, t in ref.items()}
    if c.flip(.2):
        u = c.choice(list(hyp))
        hyp[u] = hyp[u] + [c.choice(inv2)]
    c.note(kind=kind, ref=ref, hyp=hyp)
    counts = Counter((h, r) for u in ref for r, h in zip(ref[u], hyp[u]))
    hs, rs = sorted({h for h, _ in counts}), sorted({r for _, r in counts})
    with cli.scratch() as d:
        p = lambda x: os.path.join(d, x)
        for i in range(2):
            save(c, p('ref'), ref, shuffled(c, ref))
            save(c, p('hyp'), hyp, shuffled(c, hyp))
            run(c, 'maxoverlap_mapping.py', '--counts', p('counts.yml'), p('ref'), p('hyp'), p('map'))
            with open(p('counts.yml')) as f:
                got = yaml.safe_load(f)
            c.check({(h, r): n for h, v in got.items() for r, n in v.items()} == dict(counts), f'counts {got}')
            with open(p('map')) as f:
                mp = dict(l.split() for l in f)
            c.check(sorted(mp) == hs, f'every unit is mapped: {mp}')
            for h, r in mp.items():
                c.check(counts[h, r] == max(counts[h, q] for q in rs), f'{h} is mapped to {r}')
            HX = entropy([sum(counts[h, r] for r in rs) for h in hs])
            HY = entropy([sum(counts[h, r] for h in hs) for r in rs])
            HXY = entropy(counts.values())
            I = HX + HY - HXY
            for old in (False, True):
                den = HY if old else (HX + HY) / 2
                if den < 1e-9:
                    continue
                out = run(c, 'nmi.py', *(['--old'] if old else []), p('counts.yml'))
                c.check(f'# units: {len(hs)}' in out, 'number of units')
                c.check(abs(value(out)[0] - 100 * I / den) <= .0051, f'mutual information {value(out)}, expected {100 * I / den}')
                if kind == 'bijective':
                    c.check(value(out)[0] == 100., 'a relabelling carries all the information')
        # map the hypothesis with the obtained mapping
        drop = c.flip(.3) and len(mp) > 1
        if drop:
            mp.pop(c.choice(list(mp)))
            with open(p('map'), 'w') as f:
                f.writelines(f'{a} {b}\n' for a, b in mp.items())
        unk = {x for t in hyp.values() for x in t} - set(mp)
        if unk and c.flip(.3):
            r = cli.beer(c, p('map'), p('hyp'), script=os.path.join(UTILS, 'maptrans.py'), ok=False)
            c.check(r.rc != 0, 'an unknown label is an error')
        else:
            out = parse(run(c, 'maptrans.py', '--unk', '<unk>', p('map'), p('hyp')))
            c.check(out == {u: [mp.get(x, '<unk>') for x in t] for u, t in hyp.items()}, f'mapped transcription {out}')
    c.ev('frames', sum(counts.values()))


def conversions(c):
    inv = inventory(c, c.int(1, 8))
    tr = {f'utt{i}': frames(c, inv) for i in range(c.size(1, 6, 60))}
    c.note(trans=tr)
    with cli.scratch() as d:
        p = lambda x: os.path.join(d, x)
        save(c, p('ali'), tr)
        out = run(c, 'ali2trans.py', p('ali'))
        c.check([l.split() for l in out.split('\n') if l] == [[u] + dedup(t) for u, t in tr.items()], f'transcription {out!r}')
        # Time alignments.
        os.mkdir(p('dir'))
        want = {}
        for u, t in tr.items():
            pos, lines, w = 0, [], []
            for x in t:
                n = c.int(1, 9)
                lines.append(f'{pos} {pos + n - 1} {x}\n')
                pos += n
                w += ['au' + x] * n
            want[u] = w
            with open(p(f'dir/{u}.algn'), 'w') as f:
                f.writelines(lines)
        pick = [u for u in shuffled(c, tr) if c.flip(.8)]
        out = run(c, 'convert_align.py', p('dir'), stdin=''.join(u + '\n' for u in pick))
        c.check([l.split() for l in out.split('\n') if l] == [[u] + want[u] for u in pick], 'frame alignment')
        # Prefixes.
        exc = [x for x in inv if c.flip(.3) and ',' not in x]
        out = run(c, 'add_prefix.py', *([f'--exclude={",".join(exc)}'] if exc else []), p('ali'), 'L_')
        c.check(parse(out) == {u: [x if x in exc else 'L_' + x for x in t] for u, t in tr.items()}, f'prefixed labels {out!r}')
        # Entropy of the labels.
        out = value(run(c, 'entropy_rate.py', p('ali')))
        H = entropy(Counter(x for t in tr.values() for x in dedup(t)).values())
        c.check(abs(out[0] - H) <= .0051 and abs(out[1] - 2 ** H) <= .0051, f'entropy and perplexity {out}, expected {H} {2 ** H}')
        # Phonetic transcriptions.
        words = [w for w in ['w1', 'Wé', "don't", 'x', '2'] if c.flip(.8)] or ['w1']
        lex = {w: [c.choice(inv) for _ in range(c.int(1, 4))] for w in words}
        text = {f's{i}': [c.choice(words + ['w1']) for _ in range(c.int(1, 6))] for i in range(c.int(1, 5))}
        save(c, p('lex'), lex)
        save(c, p('text'), text)
        sil = c.flip()
        out = parse(run(c, 'prepare_phone_trans.py', *(['--add-sil'] * sil), p('lex'), p('text')))
        want = {u: ['sil'] * sil + [x for w in t for x in lex[w]] + ['sil'] * sil for u, t in text.items()
                if all(w in lex for w in t)}
        c.check(out == want, f'phonetic transcription {out}')
        n, ns = c.int(1, 120), c.flip()
        out = [l.split() for l in run(c, 'prepare_lang_aud.py', *(['--non-speech-unit'] * ns), n).split('\n') if l]
        c.check(len(out) == n + ns and len({x[0] for x in out}) == n + ns, 'distinct units')
        c.check([x for x in out if x[1] == 'non-speech-unit'] == [['sil', 'non-speech-unit']] * ns
                and sum(x[1] == 'speech-unit' for x in out) == n, f'groups of the units {out[:3]}')


CASES = [(ter, 250, 4000), (boundaries, 250, 4000), (mapping, 150, 2500), (conversions, 100, 1500)]


def warm():
    import beer, yaml
    import beer.cli.subcommands
