'runtime oracle: features computed by the library and by the "features extract" command compared with the documented chain evaluated frame by frame (explicit discrete Fourier transform, triangles, cosine transform, regression)'
import os
import numpy as np
import yaml
from scipy.io import wavfile
from ..core import torch
from .. import cli

RULE = '''Random signals (noise, tones, impulses, silence, constants, clipped, integer, unsigned and floating point types,
strided and read-only arrays) of one frame to hundreds; sampling rates 2-48 kHz, frame lengths and rates, pre-emphasis,
filter banks on two scales with and without alignment, all option combinations of the command, list orders, pipes.'''
ASSUMPTIONS = ['signals have at least one full frame', 'frame lengths and shifts are whole numbers of samples',
               'the lifter coefficient is at least one', 'a cosine transform without filter bank has as many filters as frequency bins']
CHUNK = 4


def make_signal(c, n, dtypes=('int16', 'int32', 'uint8', 'float32', 'float64')):
    kind = c.choice(['noise', 'tone', 'impulse', 'silence', 'constant', 'clipped', 'ramp', 'mixed'])
    t = np.arange(n)
    if kind == 'noise':
        x = c.rng.normal(size=n) * .2
    elif kind == 'tone':
        x = np.sin(2 * np.pi * c.uni(0, .5) * t) * .7
    elif kind == 'impulse':
        x = np.zeros(n)
        x[c.rng.integers(0, n, size=c.int(1, 3))] = .9
    elif kind == 'silence':
        x = np.zeros(n)
    elif kind == 'constant':
        x = np.full(n, .4)
    elif kind == 'clipped':
        x = np.clip(c.rng.normal(size=n) * 3, -.99, .99)
    elif kind == 'ramp':
        x = np.linspace(-.9, .9, n)
    else:
        x = np.where(t < n // 2, 0, c.rng.normal(size=n) * .1) + .1
    x = np.clip(x, -.99, .99)
    d = c.choice(dtypes)
    if d == 'int16':
        x = (x * 32767).astype(np.int16)
    elif d == 'int32':
        x = (x * 2147483647).astype(np.int32)
    elif d == 'uint8':
        x = (x * 127 + 128).astype(np.uint8)
    else:
        x = x.astype(d)
    return x, kind, d


def config(c):
    'Sampling rate, frame length and shift with whole numbers of samples.'
    while True:
        srate = c.choice([2000, 8000, 11025, 16000, 16000, 44100, 48000])
        flen = c.choice([.004, .01, .016, .02, .025, .032, .05])
        frate = c.choice([.001, .005, .01, .0125, .02, .03])
        a, b = srate * flen, srate * frate
        if all(abs(v - round(v)) < 1e-9 and int(v) == round(v) for v in (a, b)) and 4 <= a <= 1300 and b >= 1:
            return srate, flen, frate, int(a), int(b)


def dft_mag(frames, size):
    n = frames.shape[1]
    if size <= 256:
        k, t = np.arange(size // 2), np.arange(n)
        E = np.exp(-2j * np.pi * np.outer(t, k) / size)
        return np.abs(frames @ E)
    return np.abs(np.fft.fft(frames, n=size, axis=1))[:, :size // 2]


def frames_of(x, flen, shift):
    n = (len(x) - flen) // shift + 1
    return np.array([x[i * shift:i * shift + flen] for i in range(n)])


def fft_size(n):
    s = 1
    while s <= n:
        s *= 2
    return s


def hamming(n):
    return .54 - .46 * np.cos(2 * np.pi * np.arange(n) / (n - 1))


def mspec(x, flen, shift, preemph):
    x = x.astype(np.float64)
    F = frames_of(x - x.mean(), flen, shift)
    P = np.concatenate([F[:, :1], F[:, :-1]], 1)
    F = (F - preemph * P) * hamming(flen)
    return dft_mag(F, fft_size(flen))


MEL = (lambda f: 1127 * np.log(1 + f / 700.), lambda m: 700. * (np.exp(m / 1127.) - 1))
BARK = (lambda f: 29.81 * f / (1960 + f) - .53, lambda b: 1960 * (b + .53) / (29.81 - b - .53))


def filters(n, size, srate, low, high, scale=MEL, align=True):
    'Triangles; undecided where a centre lies within rounding of a bin.'
    high = high or srate / 2
    pts = size * scale[1](np.linspace(scale[0](low), scale[0](high), n + 2)) / srate
    unsure = align and np.any(np.abs(pts - np.round(pts)) < 1e-7)
    if align:
        pts = np.floor(pts)
    f = np.arange(size // 2)
    out = np.zeros((n, size // 2))
    for i in range(n):
        s, m, e = pts[i:i + 3]
        for j, v in enumerate(f):
            if v == m:
                out[i, j] = float(m > s or e > m)
            elif s <= v < m:
                out[i, j] = (v - s) / (m - s)
            elif m < v <= e:
                out[i, j] = (e - v) / (e - m)
    return out, unsure


def deltas(x, wins):
    out = [x]
    for w in wins:
        n = len(x)
        d = np.zeros_like(x)
        for t in range(n):
            for k in range(1, w + 1):
                d[t] += k * (x[min(t + k, n - 1)] - x[max(t - k, 0)])
        x = d / (4 * sum(k * k for k in range(1, w + 1)))
        out.append(x)
    return np.hstack(out)


def spectrum(c):
    from beer import features as F
    srate, fl, fr, nfl, nfr = config(c)
    n = nfl + c.choice([0, 0, 1, nfr - 1, nfr, c.size(0, 30, 4000, .16) * nfr + c.int(0, nfr - 1)])
    x, kind, dt = make_signal(c, n)
    how = c.choice(['plain', 'plain', 'strided', 'readonly', 'offset'])
    if how == 'strided':
        y = np.zeros(2 * n, x.dtype)
        y[::2] = x
        x = y[::2]
    elif how == 'offset':
        x = np.concatenate([x[:3], x, x[:5]])[3:3 + n]
    elif how == 'readonly':
        x.flags.writeable = False
    pre = c.choice([0., .97, .5])
    c.note(srate=srate, flen=fl, frate=fr, samples=n, signal=kind, dtype=dt, layout=how, preemph=pre)
    x0 = x.copy()
    got, size = F.short_term_mspec(x, flen=fl, frate=fr, preemph=pre, srate=srate)
    c.check((x == x0).all(), 'the signal is not modified')
    want = mspec(x0, nfl, nfr, pre)
    c.check(size == fft_size(nfl), f'FFT length {size} for frames of {nfl} samples')
    top = float(np.abs(x0.astype(np.float64)).max()) or 1.
    eps = 1e-6 if dt == 'float32' else 1e-11
    c.close(got, want, 'magnitude spectrum', 1e-6, eps * top * nfl)
    c.finite(got, 'magnitude spectrum')
    c.ev('frames', len(got))


def bank(c):
    from beer import features as F
    def draw():
        srate = c.choice([2000, 8000, 16000, 44100])
        return dict(srate=srate, size=c.choice([32, 128, 512, 1024]), n=c.int(1, 45),
                    low=c.choice([0, 20, 100., float(c.uni(0, 250))]),
                    high=c.choice([None, 1000, srate / 3, float(c.uni(600, 1000))]),
                    scale=c.choice(['mel', 'mel', 'bark']), align=c.flip(.7))

    # configurations that differ from an earlier one in a single argument, and earlier ones again
    todo = [draw()]
    for _ in range(c.int(0, 5)):
        f = dict(c.choice(todo))
        if c.flip(.8):
            k = c.choice(list(f))
            v = [x for x in (draw()[k] for _ in range(8)) if x != f[k]]
            f[k] = v[0] if v else f[k]
        elif c.flip():
            f = draw()
        if f['high'] is not None and f['high'] > f['srate'] / 2:
            f['high'] = None
        todo.append(f)
    for f in todo:
        srate, size, n, low, high, scale, align = (f[k] for k in ('srate', 'size', 'n', 'low', 'high', 'scale', 'align'))
        kw = dict(srate=srate, lowfreq=low, highfreq=high, align_filt_center=align)
        if scale == 'bark':
            kw.update(hz2scale=F.hz2bark, scale2hz=F.bark2hz)
        c.note(size=size, n=n, scale=scale, **{k: v for k, v in kw.items() if not callable(v)})
        want, unsure = filters(n, size, srate, low, high, MEL if scale == 'mel' else BARK, align)
        got = F.create_fbank(n, size, **kw)
        c.finite(got, 'filters')
        c.check(got.shape == (n, size // 2), f'shape of the filters {got.shape}')
        c.check((got >= -1e-12).all() and (got <= 1 + 1e-12).all(), 'filters within [0, 1]')
        if not unsure:
            c.close(got, want, 'triangular filters', 1e-9, 1e-7)
            c.ev('filters', n)
        else:
            c.ev('undecided_filterbanks')
    f = c.uni(0, 20000, 5)
    c.close(F.mel2hz(F.hz2mel(f)), f, 'mel scale and its inverse', 1e-9, 1e-7)
    c.close(F.bark2hz(F.hz2bark(f)), f, 'bark scale and its inverse', 1e-9, 1e-7)
    c.close(F.hz2mel(f), MEL[0](f), 'mel scale', 1e-12, 1e-9)
    c.close(F.hz2bark(f), BARK[0](f), 'bark scale', 1e-12, 1e-9)


def fbank(c):
    from beer import features as F
    srate, fl, fr, nfl, nfr = config(c)
    n = nfl + c.choice([0, nfr - 1, c.int(0, 20) * nfr + c.int(0, nfr - 1)])
    x, kind, dt = make_signal(c, n, ('int16', 'float32', 'float64', 'int16', 'uint8'))
    pre = c.choice([0., .97])
    nf, low, high = c.int(1, 40), c.choice([0, 20, 100]), c.choice([srate / 2, srate / 3])
    confs = [(srate, fl, fr)]
    if c.flip(.4):
        # the same numbers of samples at twice the sampling rate
        confs.append((2 * srate, fl / 2, fr / 2))
        if c.flip():
            confs.append(confs[0])
    for srate, fl, fr in confs:
        _fbank(c, x.copy(), kind, dt, srate, fl, fr, nfl, nfr, pre, nf, low, high)


def _fbank(c, x, kind, dt, srate, fl, fr, nfl, nfr, pre, nf, low, high):
    from beer import features as F
    n = len(x)
    c.note(srate=srate, flen=fl, frate=fr, samples=n, signal=kind, dtype=dt, preemph=pre, nfilters=nf, low=low, high=high)
    x0 = x.copy()
    got = F.fbank(x, flen=fl, frate=fr, hifreq=high, lowfreq=low, nfilters=nf, preemph=pre, srate=srate)
    c.check((x == x0).all(), 'the signal is not modified')
    s = x0.astype(np.float64)
    s = s - pre * np.concatenate([s[:1], s[:-1]])
    spec = dft_mag(frames_of(s, nfl, nfr) * hamming(nfl), fft_size(nfl))
    B, unsure = filters(nf, fft_size(nfl), srate, low, high)
    c.check(got.shape == (len(spec), nf), f'shape {got.shape} instead of {(len(spec), nf)}')
    c.finite(got, 'features')
    if unsure:
        c.trivial = True
        return
    mel = spec @ B.T
    top = np.abs(x0.astype(np.float64)).max()
    tol = 3e-7 * top * nfl * (B.sum(1) + 1) / (mel + 1) + 1e-6
    c.check((np.abs(got - np.log(mel + 1)) <= tol).all(),
            f'log of the filtered spectrum: largest error {np.abs(got - np.log(mel + 1)).max()}')
    c.ev('frames', len(got))


def derivatives(c):
    from beer import features as F
    n, d = c.size(1, 12, 300), c.size(1, 4, 40)
    wins = tuple(c.int(1, 4) for _ in range(c.int(0, 3)))
    x = c.rng.normal(size=(n, d)) * 10
    x0 = x.copy()
    c.note(frames=n, dim=d, windows=wins)
    c.close(F.add_deltas(x, wins), deltas(x0, wins), 'derivatives', 1e-9, 1e-9)
    c.check((x == x0).all(), 'the features are not modified')
    c.close(F.add_deltas(x), deltas(x0, (2, 2)), 'default derivatives', 1e-9, 1e-9)


DEFAULT = {'srate': 16000, 'preemph': 0.97, 'window_len': 0.025, 'framerate': 0.01, 'apply_fbank': True, 'nfilters': 26,
           'cutoff_hfreq': 8000, 'cutoff_lfreq': 20, 'apply_deltas': True, 'delta_order': 2, 'delta_winlen': 2,
           'apply_dct': True, 'n_dct_coeff': 13, 'lifter_coeff': 22, 'utt_mnorm': False, 'add_energy': True}


def chain(x, k, eps):
    'Features and a bound of the rounding errors, given the errors of the spectrum (they matter where it vanishes).'
    nfl, nfr = round(k['srate'] * k['window_len']), round(k['srate'] * k['framerate'])
    s = mspec(x, nfl, nfr, k['preemph'])
    e = np.full_like(s, eps * float(np.abs(x.astype(np.float64)).max()) * nfl)
    unsure = False
    if k['apply_fbank']:
        B, unsure = filters(k['nfilters'], fft_size(nfl), k['srate'], k['cutoff_lfreq'], k['cutoff_hfreq'])
        s, e = s @ B.T, e @ B.T
    log = np.log(1e-6 + s)
    e = -np.log(np.maximum(1e-12, 1 - np.minimum(.999, e / (1e-6 + s)))) + 1e-9
    norm = np.sqrt(2. / k['nfilters'])
    y, t = log, e
    if k['apply_dct']:
        m, j = np.arange(1, k['n_dct_coeff'] + 1), np.arange(k['nfilters'])
        M = norm * np.cos(np.outer(j + .5, m) * np.pi / k['nfilters'])
        M = M * (1 + k['lifter_coeff'] / 2 * np.sin(np.pi * m / k['lifter_coeff']))
        y, t = log @ M, e @ np.abs(M)
    if k['add_energy']:
        y, t = np.c_[norm * log.sum(1), y], np.c_[norm * e.sum(1), t]
    if k['apply_deltas']:
        w = k['delta_winlen']
        y = deltas(y, [w] * k['delta_order'])
        t = np.hstack([spread(t, w * i) for i in range(k['delta_order'] + 1)])
    if k['utt_mnorm']:
        y, t = y - y.mean(0), t + t.mean(0)
    return y, t, unsure


def spread(t, w):
    'Largest error within w frames.'
    n = len(t)
    return np.array([t[max(0, i - w):i + w + 1].max(0) for i in range(n)])


def extract(c):
    srate, fl, fr, nfl, nfr = config(c)
    conf = {}
    full = dict(DEFAULT)

    def put(**kw):
        full.update(kw)
        conf.update(kw)
    if (srate, fl, fr) != (16000, .025, .01) or c.flip():
        put(srate=srate, window_len=fl, framerate=fr)
    if srate < 16000 or c.flip(.3):
        put(cutoff_hfreq=float(c.choice([srate / 2, srate / 2.5])))
    for k, v in dict(preemph=c.choice([0., .9]), apply_fbank=c.flip(), nfilters=c.int(2, 40), cutoff_lfreq=c.choice([0, 64]),
                     apply_deltas=c.flip(), delta_order=c.int(0, 3), delta_winlen=c.int(1, 3), apply_dct=c.flip(),
                     n_dct_coeff=c.int(1, 20), lifter_coeff=c.choice([1, 7, 22, 30]), utt_mnorm=c.flip(),
                     add_energy=c.flip()).items():
        if c.flip(.4):
            put(**{k: v})
    if not full['apply_fbank'] and full['apply_dct']:
        put(nfilters=fft_size(nfl) // 2)
    if not conf:
        put(add_energy=False)
    utts = {}
    for i in range(c.int(1, 4)):
        n = nfl + c.choice([0, nfr - 1, c.int(0, 15) * nfr + c.int(0, nfr - 1)])
        utts[c.choice(['u', 'spk1-', 'A_']) + f'{c.int(0, 99)}.{i}'] = make_signal(
            c, n, ('int16', 'int16', 'int32', 'float32', 'uint8', 'float64'))
    c.note(conf=conf, utts={u: (len(x), k, d) for u, (x, k, d) in utts.items()})
    with cli.scratch() as d:
        p = lambda *a: os.path.join(d, *a)
        os.mkdir(p('out'))
        with open(p('fea.yml'), 'w') as f:
            yaml.safe_dump(conf, f)
        lines = []
        for i, (u, (x, _, _)) in enumerate(utts.items()):
            wavfile.write(p(f'w{i}.wav'), srate, x)
            lines.append(f'{u} ' + (p(f'w{i}.wav') if c.flip(.7) else f'cat {p(f"w{i}.wav")} |') + '\n')
        c.rng.shuffle(lines)
        before = cli.fingerprint(*[p(f'w{i}.wav') for i in range(len(utts))])
        if c.flip(.3):
            cli.beer(c, 'features', 'extract', p('fea.yml'), '-', p('out'), stdin=''.join(lines))
        else:
            with open(p('wav.scp'), 'w') as f:
                f.writelines(lines)
            cli.beer(c, 'features', 'extract', p('fea.yml'), p('wav.scp'), p('out'))
        c.check(before == cli.fingerprint(*before), 'the recordings are left unchanged')
        c.check(sorted(os.listdir(p('out'))) == sorted(u + '.npy' for u in utts),
                f'one file per utterance: {sorted(os.listdir(p("out")))}')
        for u, (x, kind, dt) in utts.items():
            got = np.load(p('out', u + '.npy'))
            want, tol, unsure = chain(x, full, 2e-7 if dt == 'float32' else 1e-15)
            c.check(got.shape == want.shape, f'shape of the features {got.shape} instead of {want.shape}')
            c.finite(got, 'features')
            if unsure:
                c.ev('undecided_filterbanks')
                continue
            bad = np.abs(got - want) > tol + 1e-7 + 1e-8 * np.abs(want)
            c.check(not bad.any(), f'features of {u} ({kind}, {dt}): {bad.sum()}/{bad.size} differ, observed '
                    f'{got[bad][:3]}, expected {want[bad][:3]}')
            c.ev('values', bad.size)
            c.ev('values_decided_within_1e-3', (tol < 1e-3).sum())
            c.ev('frames', len(got))


def refusals(c):
    'Unknown settings and other sampling rates are refused, no features are written.'
    with cli.scratch() as d:
        p = lambda *a: os.path.join(d, *a)
        os.mkdir(p('out'))
        bad = c.choice(['setting', 'rate'])
        conf = {'nfilter': 3} if bad == 'setting' else {'srate': 8000, 'cutoff_hfreq': 4000}
        c.note(bad=bad)
        with open(p('fea.yml'), 'w') as f:
            yaml.safe_dump(conf, f)
        wavfile.write(p('a.wav'), 16000, make_signal(c, 4000, ('int16',))[0])
        r = cli.beer(c, 'features', 'extract', p('fea.yml'), '-', p('out'), stdin=f'a {p("a.wav")}\n', ok=False)
        c.check(r.rc != 0, 'the command reports the error')
        c.check(os.listdir(p('out')) == [], 'nothing is written')


CASES = [(spectrum, 1200, 8000), (bank, 600, 4000), (fbank, 800, 6000), (derivatives, 400, 3000), (extract, 500, 4000),
         (refusals, 4, 20)]


def warm():
    import beer.cli
