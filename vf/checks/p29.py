'runtime oracle: every call of the numerical helpers checked against independent extended-precision definitions (log-sum-exp and its gradient, one-hot coding, spectral repair, outer products) and closed-form Jacobians, moments of samples, and a recorded stand-in of the GPU tools'
import contextlib, os, stat
import numpy as np
from ..core import torch, arr
from .. import cli
import beer.utils as U

RULE = '''Random tensors (1-4 axes, every axis, scales 1e-3 to 1e5, impossible and certain entries) in both precisions;
label sequences of every length and container; square matrices that are symmetric or not, definite, indefinite or singular;
means, variances (including zero) and numbers of samples; outputs that depend on several inputs of different shapes, or on
some only, with gradients already stored in the inputs; machines with 0 to 4 GPUs, some in use or failing.'''
ASSUMPTIONS = ['matrices to be made positive definite have at least one positive eigenvalue',
               'the gradient of a log-sum-exp is checked where at least one entry is possible',
               'nvidia-smi and the allocation of GPU memory are replaced by recording stand-ins']


def tol(dt, d, f):
    return d if dt == torch.float64 else f


def lse(c):
    dt = c.dtype(.6)
    shape = tuple(c.size(1, 6, 40, .03) for _ in range(c.int(1, 4)))
    dim = c.int(-len(shape), len(shape) - 1)
    scale = c.logu(1e-3, 1e5)
    x = c.rng.normal(size=shape) * scale + c.choice([0, 0, -1e4, 1e4]) * c.flip()
    if c.flip(.4):
        x[c.rng.random(shape) < c.uni(.1, .9)] = -np.inf
    if c.flip(.2):
        x = np.moveaxis(x, dim, 0)
        x[(slice(None),) + tuple(c.int(0, n - 1) for n in x.shape[1:])] = -np.inf
        x = np.moveaxis(x, 0, dim).copy()
    x = torch.tensor(x, dtype=dt)
    if c.flip(.1):
        x.view(-1)[c.int(0, x.numel() - 1)] = float('inf')
    if c.flip(.2) and len(shape) > 1:
        x = x.t() if len(shape) == 2 else x.transpose(0, -1)
    c.note(kind='lse', shape=tuple(x.shape), dim=dim, dt=str(dt), scale=scale)
    before = x.clone()
    leaf = x.clone().requires_grad_(True)
    got = U.logsumexp(leaf, dim=dim) if not (dim == 0 and c.flip()) else U.logsumexp(leaf)
    c.check(torch.equal(leaf.detach(), before), 'logsumexp changed its input')
    c.check(got.dtype == dt, f'logsumexp of {dt} has type {got.dtype}')
    a = arr(x).astype(np.longdouble)
    m = a.max(axis=dim, keepdims=True)
    with np.errstate(all='ignore'):
        ref = np.where(np.isfinite(m), m + np.log(np.exp(a - np.where(np.isfinite(m), m, 0)).sum(axis=dim, keepdims=True)), m)
        soft = np.exp(a - ref)
    c.close(got.detach(), np.squeeze(ref, axis=dim).astype(float), 'log-sum-exp', rtol=tol(dt, 1e-13, 1e-6), atol=tol(dt, 1e-12, 1e-6))
    if np.isfinite(m).all():
        w = torch.tensor(c.rng.normal(size=tuple(got.shape)), dtype=dt)
        (got * w).sum().backward()
        want = soft * np.expand_dims(arr(w), dim)
        eps = tol(dt, 1e-15, 1e-7) * (1 + np.abs(arr(before)[np.isfinite(arr(before))]).max())
        c.close(leaf.grad, want.astype(float), 'gradient of the log-sum-exp', rtol=0, atol=(50 * eps + tol(dt, 1e-12, 1e-5)) * (1 + np.abs(arr(w)).max()))
        c.ev('gradients')


def onehot(c):
    dt = c.choice([torch.float32, torch.float64, torch.int64])
    n, k = c.size(0 if c.flip(.1) else 1, 50, 2000), c.size(1, 20, 300)
    labels = c.rng.integers(0, k, n)
    arg = c.choice([lambda: torch.tensor(labels).long(), lambda: [int(i) for i in labels], lambda: labels.copy(),
                    lambda: tuple(int(i) for i in labels)])()
    if n == 0:
        arg = torch.tensor([], dtype=torch.long)
    c.note(kind='onehot', n=n, k=k, dt=str(dt), t=type(arg).__name__)
    got = U.onehot(arg, k, dt, torch.device('cpu'))
    c.check(got.dtype == dt and tuple(got.shape) == (n, k), f'one-hot matrix of {got.dtype} {tuple(got.shape)}')
    c.close(got, np.eye(k)[labels], 'one-hot coding', rtol=0, atol=0)
    c.check(list(map(int, arg)) == list(map(int, labels)), 'one-hot coding changed the labels')


def psd(c):
    dt = c.dtype(.6)
    d = c.size(1, 8, 40)
    a = c.rng.normal(size=(d, d))
    kind = c.choice(['any', 'definite', 'singular', 'asym', 'wide'])
    if kind == 'definite':
        a = a @ a.T + np.eye(d) * c.logu(1e-3, 10)
    elif kind == 'singular':
        v = c.rng.normal(size=(d, c.int(1, d)))
        a = v @ v.T
    elif kind == 'wide':
        q, _ = np.linalg.qr(a)
        a = (q * c.logu(1e-6, 1e6, d)) @ q.T
    elif kind == 'asym':
        a = a @ a.T + c.rng.normal(size=(d, d)) * c.logu(.01, 10)
    a = a * c.logu(1e-4, 1e4)
    m = torch.tensor(a, dtype=dt)
    keep = m.clone()
    s = U.symmetrize_matrix(m)
    c.check(torch.equal(m, keep), 'symmetrize_matrix changed its input')
    sym = (arr(keep) + arr(keep).T) / 2
    c.close(s, sym, 'symmetric part', rtol=tol(dt, 1e-14, 1e-6), atol=tol(dt, 1e-14, 1e-6) * np.abs(a).max())
    w = np.linalg.eigvalsh(sym.astype(np.float64))
    if w[-1] <= 1e-3 * np.abs(w).max():
        c.trivial = True
        return
    thr = c.choice([None, 1e-1, c.logu(1e-3, .9)])
    c.note(kind='psd', d=d, m=kind, thr=thr, dt=str(dt), x=a)
    got = U.make_symposdef(m) if thr is None else U.make_symposdef(m, thr)
    thr = 1e-1 if thr is None else thr
    c.check(torch.equal(m, keep), 'make_symposdef changed its input')
    c.check(got.dtype == dt and tuple(got.shape) == (d, d), 'shape or type of the repaired matrix')
    g = arr(got).astype(np.float64)
    eps = tol(dt, 1e-12, 3e-5) * np.abs(w).max()
    c.close(g, g.T, 'repaired matrix and its transpose', rtol=0, atol=eps)
    wg, vg = np.linalg.eigh((g + g.T) / 2)
    c.check(wg[0] >= thr * w[-1] - 2 * eps, f'smallest eigenvalue {wg[0]} under {thr} times the largest ({w[-1]})')
    c.close(wg[-1], w[-1], 'largest eigenvalue', rtol=0, atol=2 * eps)
    ws, vs = np.linalg.eigh(sym.astype(np.float64))
    want = (vs * np.maximum(ws, thr * ws[-1])) @ vs.T
    c.close(g, want, 'closest matrix with the same eigenvectors', rtol=0, atol=10 * eps * (1 + 1 / thr * 0))
    if w[0] > thr * w[-1] * 1.01:
        c.close(g, sym, 'matrix that needs no repair', rtol=0, atol=4 * eps)
        c.ev('unchanged_matrices')


def samples(c):
    dt = c.dtype(.6)
    n, d, s = c.int(1, 5), c.int(1, 5), c.choice([1, 2, c.int(3, 9), 4000])
    mu = torch.tensor(c.rng.normal(size=(n, d)) * c.logu(.1, 10), dtype=dt).requires_grad_(True)
    v = c.logu(1e-3, 1e3, (n, d))
    zero = c.rng.random((n, d)) < c.choice([0, 0, .3])
    v[zero] = 0
    var = torch.tensor(v, dtype=dt).requires_grad_(True)
    c.note(kind='samples', n=n, d=d, s=s, zero=bool(zero.any()), dt=str(dt))
    seed = c.int(0, 10 ** 6)
    torch.manual_seed(seed)
    x = U.sample_from_normals(mu, var, s)
    torch.manual_seed(seed)
    y = U.sample_from_normals(mu, var, s)
    c.check(torch.equal(x, y), 'samples differ with the same seed')
    c.check(tuple(x.shape) == (s, n, d) and x.dtype == dt, f'samples of shape {tuple(x.shape)} {x.dtype}')
    a = arr(x.detach()).astype(np.float64)
    m0, v0 = arr(mu.detach()).astype(np.float64), arr(var.detach()).astype(np.float64)
    c.check((a[:, zero] == m0[zero]).all(), 'samples with no variance are not their mean')
    z = (a - m0) / np.sqrt(np.where(zero, 1, v0))
    c.check(np.abs(z).max() < 7, f'a sample is {np.abs(z).max()} deviations away')
    if s * (~zero).sum() > 1:
        c.check(len(np.unique(a[:, ~zero])) > 1, 'all the samples are equal')
    if s >= 4000 and (~zero).any():
        zz = z[:, ~zero]
        c.check(np.abs(zz.mean(0)).max() < 6 / np.sqrt(s), f'mean of the standardised samples {zz.mean(0)}')
        c.check(np.abs(zz.var(0) - 1).max() < 8 * np.sqrt(2 / s), f'variance of the standardised samples {zz.var(0)}')
        cor = np.corrcoef(zz.T) if zz.shape[1] > 1 else np.eye(1)
        c.check(np.abs(cor - np.eye(len(cor))).max() < 6.5 / np.sqrt(s), 'the coordinates of the samples are correlated')
        c.ev('moments')
    if not zero.any():
        w = torch.tensor(c.rng.normal(size=(s, n, d)), dtype=dt)
        (x * w).sum().backward()
        c.close(mu.grad, arr(w).astype(np.float64).sum(0), 'gradient with respect to the means', rtol=tol(dt, 1e-9, 1e-3), atol=tol(dt, 1e-9, 2e-3) * np.sqrt(s))
        zr = z / (2 * np.sqrt(v0))
        c.close(var.grad, (arr(w) * zr).sum(0), 'gradient with respect to the variances', rtol=tol(dt, 1e-6, 2e-2), atol=tol(dt, 1e-6, 2e-2) * np.sqrt(s) * np.abs(zr).max())
        c.ev('gradients')


def jac(c):
    dt = c.dtype(.7)
    n = c.int(1, 6)
    shapes = [tuple(c.int(1, 4) for _ in range(c.int(1, 3))) for _ in range(c.int(1, 4))]
    xs = [torch.tensor(c.rng.normal(size=s), dtype=dt).requires_grad_(True) for s in shapes]
    Ws = [c.rng.normal(size=(n, int(np.prod(s)))) for s in shapes]
    used = [c.flip(.85) for _ in shapes]
    used[c.int(0, len(used) - 1)] = True
    pre = [torch.tensor(c.rng.normal(size=s), dtype=dt) if c.flip(.3) else None for s in shapes]
    for x, g in zip(xs, pre):
        x.grad = None if g is None else g.clone()
    p = c.int(1, 3)
    c.note(kind='jac', n=n, shapes=shapes, used=used, p=p, dt=str(dt))
    lin = sum(torch.tensor(W, dtype=dt) @ torch.tanh(x.reshape(-1)) for x, W, u in zip(xs, Ws, used) if u)
    out = lin ** p
    l0 = arr(lin.detach()).astype(np.float64)
    vals = [x.detach().clone() for x in xs]
    for rep in range(c.int(1, 3)):
        got = U.jacobians(out, xs if c.flip() else tuple(xs))
        c.check(len(got) == len(xs), f'{len(got)} Jacobians for {len(xs)} inputs')
        for k, (g, x, W, u, v) in enumerate(zip(got, xs, Ws, used, vals)):
            c.check(torch.equal(x.detach(), v), 'jacobians changed an input')
            want = (p * l0 ** (p - 1))[:, None] * W * (1 - np.tanh(arr(v).reshape(-1).astype(np.float64)) ** 2) if u else np.zeros_like(W)
            c.close(g.detach(), want, f'Jacobian of input {k} (call {rep + 1})', rtol=tol(dt, 1e-9, 1e-3), atol=tol(dt, 1e-9, 1e-3) * (1 + np.abs(l0).max() ** (p - 1)))
            c.check(not g.requires_grad or True, '')
    c.ev('jacobians', len(xs))
    # Approximation of the Hessian by the gradients.
    grads = [torch.tensor(c.rng.normal(size=(c.int(1, 9), c.int(1, 6))), dtype=dt) for _ in range(c.int(0, 3))] + \
            [g.detach() for g in got]
    hs = U.approximate_hessian(grads)
    c.check(len(hs) == len(grads), f'{len(hs)} Hessians for {len(grads)} gradients')
    for h, g in zip(hs, grads):
        a = arr(g).astype(np.float64)
        c.close(h, sum(np.outer(r, r) for r in a), 'sum of the outer products', rtol=tol(dt, 1e-10, 1e-4), atol=tol(dt, 1e-10, 1e-4) * (1 + np.abs(a).max() ** 2))
    U.approximate_hessian([])


class Log:
    def __init__(self):
        self.msgs = []

    def debug(self, msg, *a):
        self.msgs.append(msg)
    info = warning = error = debug


@contextlib.contextmanager
def machine(d, gpus, active, alloc):
    tool = os.path.join(d, 'nvidia-smi')
    lines = ''.join(f'{u}, {i}\n' for u, i in gpus)
    with open(os.path.join(d, 'gpus'), 'w') as f:
        f.write(lines)
    with open(os.path.join(d, 'active'), 'w') as f:
        f.write(''.join(f'{u}\n' for u in active))
    with open(tool, 'w') as f:
        f.write('#!/bin/sh\ncase "$1" in *compute-apps*) cat %s/active;; *) cat %s/gpus;; esac\n' % (d, d))
    os.chmod(tool, stat.S_IRWXU)
    path, vis = os.environ['PATH'], os.environ.get('CUDA_VISIBLE_DEVICES')
    os.environ['PATH'] = d + os.pathsep + path
    real = torch.zeros

    def zeros(*a, **kw):
        if str(kw.get('device')).startswith('cuda'):
            kw.pop('device')
            alloc(os.environ.get('CUDA_VISIBLE_DEVICES'))
        return real(*a, **kw)
    torch.zeros = zeros
    try:
        yield
    finally:
        torch.zeros = real
        os.environ['PATH'] = path
        if vis is None:
            os.environ.pop('CUDA_VISIBLE_DEVICES', None)
        else:
            os.environ['CUDA_VISIBLE_DEVICES'] = vis


def gpu(c):
    n = c.int(0, 4)
    idx = [int(i) for i in c.rng.permutation(8)[:n]] if c.flip(.3) else list(range(n))
    gpus = [(f'GPU-{c.int(0, 10 ** 9):x}-{i}', i) for i in idx]
    act = [u for u, i in gpus if c.flip(.4)]
    tries = {}
    fails = {i: c.choice([0, 0, 1, 2, 99]) for _, i in gpus}
    free_at = c.choice([0, 0, 2])
    retry = c.int(1, 4)
    c.note(kind='gpu', gpus=idx, active=len(act), fails=list(fails.values()), retry=retry)
    attempts = []

    def alloc(vis):
        i = int(vis)
        attempts.append(i)
        tries[i] = tries.get(i, 0) + 1
        if tries[i] <= fails[i]:
            raise RuntimeError('out of memory')
    log = Log() if c.flip(.7) else None
    free = [i for u, i in gpus if u not in act]
    # Round r succeeds on the first free GPU that has failed enough.
    want = None
    for r in range(retry):
        ok = [i for i in free if fails[i] <= r]
        if ok:
            want = ok[0]
            break
    with cli.scratch() as d, machine(d, gpus, act, alloc):
        c.check(U.get_gpus() == dict(gpus), 'list of the GPUs')
        c.check(U.get_active_gpus() == set(act), 'list of the GPUs in use')
        try:
            got = U.reserve_gpu(max_retry=retry, logger=log, wait_time=0)
        except U.NoGPUAvailable:
            got = None
        vis = os.environ.get('CUDA_VISIBLE_DEVICES')
        c.check(not set(attempts) & {i for u, i in gpus if u in act}, 'memory was taken on a GPU in use')
        if got is not None:
            c.check(vis == str(got), f'GPU {got} reserved but CUDA_VISIBLE_DEVICES is {vis}')
            c.check(attempts and attempts[-1] == got, f'GPU {got} is returned but memory was reserved on {attempts[-1:]}')
            c.check(got in free, f'GPU {got} is in use')
        c.check((got is None) == (want is None), f'GPU {got} reserved instead of {want}: free {free}, failures {fails}')
    c.ev('reservations', got is not None)


CASES = [(lse, 3600, 20000), (onehot, 600, 2000), (psd, 1800, 8000), (samples, 900, 4000), (jac, 1800, 8000), (gpu, 450, 1500)]
