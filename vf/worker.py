'Run one function of the harness in a fresh interpreter: worker.py JOB OUT'
import importlib, os, pickle, subprocess, sys, tempfile


def fresh(c, fn, *args):
    'fn(*args) in a new interpreter with a random hash seed.'
    from .core import REPO, Violated
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory(dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None) as d:
        job, out = os.path.join(d, 'job'), os.path.join(d, 'out')
        with open(job, 'wb') as f:
            pickle.dump((fn.__module__, fn.__name__, args), f)
        env = dict(os.environ, PYTHONPATH=root + os.pathsep + REPO, PYTHONHASHSEED=str(c.int(1, 10 ** 6)),
                   PYTHONWARNINGS='ignore', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-m', 'vf.worker', job, out], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300, cwd=root)
        if p.returncode:
            raise Violated(f'{fn.__name__} failed in a new process: {p.stderr.decode()[-1200:]}')
        with open(out, 'rb') as f:
            return pickle.load(f)


def forked(c, fn, *args):
    'fn(*args) in a forked child.'
    import signal, traceback
    from .core import Violated
    with tempfile.TemporaryFile() as f:
        pid = os.fork()
        if pid == 0:
            rc = 70
            try:
                signal.alarm(0)
                signal.setitimer(signal.ITIMER_PROF, 100)
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                try:
                    res = (True, fn(*args))
                except BaseException:
                    res = (False, traceback.format_exc())
                pickle.dump(res, f)
                f.flush()
                rc = 0
            finally:
                os._exit(rc)
        _, status = os.waitpid(pid, 0)
        if status:
            raise Violated(f'{fn.__name__}: child process ended with status {status}')
        f.seek(0)
        ok, res = pickle.load(f)
    if not ok:
        raise Violated(f'{fn.__name__} failed in a new process: {res[-1200:]}')
    return res


def away(c, fn, *args, p=.05):
    'In another process, sometimes a fresh interpreter.'
    if c.flip(p):
        c.ev('fresh_interpreters')
        return fresh(c, fn, *args)
    c.ev('forked_processes')
    return forked(c, fn, *args)


if __name__ == '__main__':
    from vf import core
    core.torch.set_num_threads(1)
    with open(sys.argv[1], 'rb') as f:
        mod, name, args = pickle.load(f)
    res = getattr(importlib.import_module(mod), name)(*args)
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(res, f)
