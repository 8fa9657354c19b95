'''Run the scripts of the recipes in scratch directories.

The real scripts run under bash; "beer" and "python" on the PATH are small
clients which pass their arguments, directory and file descriptors to the
check process, where the command runs in a forked child (as in ``vf.cli``).
"qsub" is a stand-in for the SGE client: it runs the tasks of an array job in
a random order, several at a time, and returns non-zero if one has failed (as
with "-sync y").'''
import array, json, mmap, os, select, socket, subprocess, sys, tempfile, time
from .core import REPO, Violated, Inconclusive
from . import cli

CLIENT = '''#!{py} -ISE
import array, json, os, socket, sys
if {tool!r} != 'beer' and sys.argv[1:2] and sys.argv[1][0] == '-' or sys.argv[1:] == ['-']:
    os.execv({real!r}, [{real!r}] + sys.argv[1:])
s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
s.connect({sock!r})
m = json.dumps(dict(tool={tool!r}, args=sys.argv[1:], cwd=os.getcwd(), task=os.environ.get('SGE_TASK_ID'))).encode()
s.sendmsg([len(m).to_bytes(4, 'little')], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array('i', [0, 1, 2]))])
s.sendall(m)
r = s.recv(16)
sys.exit(int(r) if r else 99)
'''

QSUB = '''#!{py} -ISE
import os, random, re, subprocess, sys
a = sys.argv[1:]
t = re.match(r'(\\d+)-(\\d+)', a[a.index('-t') + 1]) if '-t' in a else None
i = [k for k, x in enumerate(a) if x.endswith('.qsub')][0]
out = a[a.index('-o') + 1]
rng = random.Random({seed})
tasks = list(range(int(t.group(1)), int(t.group(2)) + 1)) if t else [None]
rng.shuffle(tasks)
width, rc, running = rng.randint(1, 4), 0, []
while tasks or running:
    while tasks and len(running) < width:
        k = tasks.pop()
        env = dict(os.environ, SGE_O_WORKDIR=os.getcwd())
        if k is not None:
            env['SGE_TASK_ID'] = str(k)
        f = open(out.replace('$TASK_ID', str(k)), 'w')
        running.append(subprocess.Popen(['bash', a[i]] + a[i + 1:], env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=f))
    rc |= running.pop(rng.randrange(len(running))).wait()
sys.exit(rc != 0)
'''


class Run:
    def __init__(self, rc, out, calls):
        self.rc, self.out, self.calls = rc, out, calls

    def named(self, *words):
        return [x for x in self.calls if all(w in x['args'] for w in words)]


class Recipe:
    def __init__(self, c, d, name='aud'):
        self.c, self.dir, self.listener, self.rewrite = c, d, None, None
        self.done = mmap.mmap(-1, 4096)
        for x in ('steps', 'utils'):
            os.symlink(os.path.join(REPO, 'recipes', name, x), os.path.join(d, x))
        with open(self.p('path.sh'), 'w') as f:
            f.write('')
        # keep the name short: the path of a socket has at most 107 bytes
        self.sock = os.path.join(d, '.s')
        os.mkdir(self.p('.bin'))
        py = os.path.realpath(sys.executable)
        for tool in ('beer', 'python', 'python3'):
            self._exe(tool, CLIENT.format(py=py, sock=self.sock, tool=tool, real=sys.executable))
        self._exe('qsub', QSUB.format(py=py, seed=c.int(0, 10 ** 6)))
        self.env = dict(os.environ, PATH=self.p('.bin') + os.pathsep + os.environ['PATH'], LC_ALL='C', TMPDIR=d)

    def _listen(self):
        # a new socket for every run: nothing of a run that crashed is served
        self.close()
        self.listener = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.listener.bind(self.sock)
        self.listener.listen(64)
        self.listener.setblocking(False)

    def p(self, name):
        return os.path.join(self.dir, name)

    def _exe(self, name, text):
        p = self.p('.bin/' + name)
        with open(p, 'w') as f:
            f.write(text)
        os.chmod(p, 0o700)

    def _accept(self, calls, fault):
        try:
            conn, _ = self.listener.accept()
        except BlockingIOError:
            return
        conn.setblocking(True)
        fds = array.array('i')
        head, anc, _, _ = conn.recvmsg(4, socket.CMSG_LEN(3 * fds.itemsize))
        for level, kind, data in anc:
            if level == socket.SOL_SOCKET and kind == socket.SCM_RIGHTS:
                fds.frombytes(data[:len(data) - len(data) % fds.itemsize])
        n, m = int.from_bytes(head, 'little'), b''
        while len(m) < n:
            m += conn.recv(n - len(m))
        call = json.loads(m)
        calls.append(call)
        call['fault'] = fault(call, len(calls) - 1) if fault else None
        call['run'] = self.rewrite(list(call['args'])) if self.rewrite else list(call['args'])
        if call['fault'] == 'crash':
            # the machine goes down: nothing of the recipe survives
            self.crashed = True
            for f in fds:
                os.close(f)
            conn.close()
            return
        # two commands at a time with one state file: one may read what the other has half written
        k = len(calls) - 1
        state = call['state'] = [b for a, b in zip(call['args'], call['args'][1:]) if a == '-o']
        self.done[k % 4096] = 0
        for i, x in enumerate(calls[:-1]):
            if state and state == x.get('state') and not self.done[i % 4096]:
                self.shared = state[0]
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 70
            try:
                self.listener.close()
                rc = int(_child(call, list(fds)))
            finally:
                self.done[k % 4096] = 1
                try:
                    conn.sendall(str(rc).encode())
                finally:
                    os._exit(rc)
        for f in fds:
            os.close(f)
        conn.close()
        self.children.append(pid)

    def run(self, script, *args, fault=None, ok=True, timeout=240):
        args = [str(a) for a in args]
        calls, self.children, self.crashed, self.shared = [], [], False, None
        self._listen()
        self.c.ev('script_' + os.path.basename(script)[:-3])
        with tempfile.TemporaryFile() as out:
            p = subprocess.Popen([script] + args, cwd=self.dir, env=self.env, stdin=subprocess.DEVNULL, stdout=out,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            end = time.time() + timeout
            try:
                while p.poll() is None:
                    if select.select([self.listener], [], [], .005)[0]:
                        self._accept(calls, fault)
                    if self.crashed:
                        break
                    self.children = [x for x in self.children if os.waitpid(x, os.WNOHANG)[0] == 0]
                    if time.time() > end:
                        raise Inconclusive(f'{script} took too long')
            finally:
                if p.poll() is None:
                    os.killpg(p.pid, 9)
                    p.wait()
                for x in self.children:
                    os.waitpid(x, 0)
                self.close()
            out.seek(0)
            text = out.read().decode(errors='replace')
        self.c.ev('recipe_commands', len(calls))
        if self.shared:
            raise Violated(f'{script}: commands running at the same time read and write {self.shared}')
        if ok and p.returncode != 0:
            import glob
            for f in glob.glob(self.p('**/log/*'), recursive=True):
                with open(f, errors='replace') as g:
                    t = g.read()
                    if 'Traceback' in t or 'injected' in t:
                        text += f'\n{os.path.basename(f)}: ' + t[-600:]
            raise Violated(f'"{script} {" ".join(args)}" failed with status {p.returncode}: {text[-2500:]}')
        return Run(p.returncode, text, calls)

    def close(self):
        if self.listener is not None:
            self.listener.close()
            os.unlink(self.sock)
            self.listener = None


def _child(call, fds):
    import hashlib, logging, random, runpy, signal
    import numpy as np
    from .core import torch
    signal.alarm(0)
    signal.setitimer(signal.ITIMER_PROF, 100)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    for k, f in enumerate(fds):
        os.dup2(f, k)
    for f in fds:
        if f > 2:
            os.close(f)
    if call['fault'] == 'early':
        os.write(2, b'injected failure\n')
        return 1
    sys.stdin = open(0, 'r', closefd=False)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', closefd=False)
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
    os.chdir(call['cwd'])
    args = call['run']
    script = cli.SCRIPT if call['tool'] == 'beer' else args.pop(0)
    sys.argv = [script] + args
    sys.path.insert(0, os.path.dirname(os.path.abspath(script)))
    s = int.from_bytes(hashlib.sha256(repr((args, time.time_ns())).encode()).digest()[:4], 'little')
    torch.manual_seed(s); np.random.seed(s); random.seed(s)
    try:
        runpy.run_path(script, run_name='__main__')
        rc = 0
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        if e.code is not None and not isinstance(e.code, int):
            print(e.code, file=sys.stderr)
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 1
    sys.stdout.flush()
    sys.stderr.flush()
    return rc or (call['fault'] == 'late')
