'''Mutation analysis: how many small changes of the code do the checks see?

mutate.py OUT.jsonl [--files f1,f2] [--per-file N] [--seed S] [--workers W] [--count C] [--deep]

Each mutant (one operator, constant, condition, statement, argument changed) is made in a scratch copy of /repo and
the checks anchored in the changed file are run against it, first with few cases, then in full, until one reports a
violation.  Survivors are for a human to look at: gaps of the checks or changes without effect.'''
import warnings
import argparse, ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, time

warnings.simplefilter("ignore")
VERIF = os.environ.get('MUT_VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'
PY = sys.executable
WORK = '/tmp/w/mut'
SKIP = {'beer/models/lds.py', 'beer/models/linearreg.py', 'beer/models/lm.py', 'beer/models/marginalpldaset.py',
        'beer/models/vae-old.py', 'beer/vbi.py', 'recipes/aud/utils/posteriors.py', 'recipes/aud/utils/score_boundaries2.py'}


class Mut(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.off = [0]
        for l in src.encode().split(b'\n'):
            self.off.append(self.off[-1] + len(l) + 1)
        self.fn = []

    def pos(self, line, col):
        return self.off[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new, op):
        a, b = self.span(n)
        self.out.append((a, b, new, op, n.lineno))

    def between(self, l, r, old, new, op, line):
        a, b = self.span(l)[1], self.span(r)[0]
        seg = self.src.encode()[a:b].decode()
        if seg.count(old) == 1 and '#' not in seg:
            i = seg.index(old)
            self.out.append((a + i, a + i + len(old), new, op, line))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            t = self.text(n)
            if not re.match(r'(parser|logging|logger|warnings|print|super|group)', t):
                self.add(n, 'pass', 'drop call')
        self.generic_visit(n)

    # Changes which only bite outside of the ordinary range of values.
    LIMITS = {'clamp max': 'v.clamp(max=1e4)', 'clamp min': 'v.clamp(min=-1e4)', 'floor': 'v.clamp(min=1e-4) if bool((v >= 0).all()) else v',
              'float32': 'v.float().to(v.dtype)', 'first': 'v[:200] if v.dim() and len(v) > 200 else v', 'halves': 'v.half().float().to(v.dtype)',
              'nan': 'torch.nan_to_num(v, 0., 1e6, -1e6)'}

    def limits(self, n):
        t = self.text(n)
        for op, f in self.LIMITS.items():
            if op == 'halves':
                continue
            new = f"(lambda v: ({f}) if hasattr(v, 'is_floating_point') and v.is_floating_point() else v)({t})"
            if op == 'nan':
                new = new.replace('torch.', "__import__('torch').")
            self.out.append((*self.span(n), new, 'range: ' + op, n.lineno))
        ints = f"(lambda v: min(v, 64) if type(v) is int else v)({t})"
        self.out.append((*self.span(n), ints, 'range: int', n.lineno))

    def visit_For(self, n):
        t = self.text(n.iter)
        self.add(n.iter, f"list({t})[:64]", 'range: loop')
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if not isinstance(n.value, (ast.Constant, ast.Lambda, ast.Tuple, ast.List, ast.Dict, ast.Starred)):
            self.limits(n.value)
        if isinstance(t, (ast.Subscript,)) or (isinstance(t, ast.Name) and self.fn and False):
            self.add(n, 'pass', 'drop assignment')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'drop update')
        sw = {ast.Add: ('+=', '-='), ast.Sub: ('-=', '+='), ast.Mult: ('*=', '/='), ast.Div: ('/=', '*=')}
        if type(n.op) in sw:
            self.between(n.target, n.value, *sw[type(n.op)], 'operator', n.lineno)
            if isinstance(n.op, ast.Add):
                self.between(n.target, n.value, '+=', '=', 'operator', n.lineno)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '/'),
              ast.Mod: ('%', '//'), ast.Pow: ('**', '*'), ast.MatMult: None}
        s = sw.get(type(n.op))
        if s and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.between(n.left, n.right, *s, 'operator', n.lineno)
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                self.add(n, self.text(n.left), 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            self.add(n, self.text(n.operand), 'drop unary')
        self.generic_visit(n)

    def visit_Compare(self, n):
        sw = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='),
              ast.NotEq: ('!=', '=='), ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in'), ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is')}
        if len(n.ops) == 1:
            s = sw[type(n.ops[0])]
            self.between(n.left, n.comparators[0], *s, 'comparison', n.lineno)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        s = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
        if len(n.values) == 2:
            self.between(n.values[0], n.values[1], *s, 'boolean', n.lineno)
            self.add(n, self.text(n.values[0]), 'drop condition')
            self.add(n, self.text(n.values[1]), 'drop condition')
        self.generic_visit(n)

    def visit_If(self, n):
        if self.text(n.test) != "__name__ == '__main__'":
            self.add(n.test, 'True', 'always')
            self.add(n.test, 'False', 'never')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), 'constant')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'constant')
            if v == 1:
                self.add(n, '0', 'constant')
        elif isinstance(v, float):
            self.add(n, repr(v * 1.5 if v else .1), 'constant')

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            if f.attr in ('detach', 'clone', 'log', 'exp', 'sqrt', 'abs', 't', 'copy', 'strip', 'rstrip', 'lower', 'sorted', 'inverse', 'contiguous', 'double', 'float', 'cpu') \
                    and not n.args and not n.keywords:
                self.add(n, self.text(f.value), f'drop .{f.attr}()')
            if f.attr in ('sum', 'mean', 'max', 'min', 'argmax', 'argmin'):
                swap = {'sum': 'mean', 'mean': 'sum', 'max': 'min', 'min': 'max', 'argmax': 'argmin', 'argmin': 'argmax'}[f.attr]
                self.out.append((self.span(f)[1] - len(f.attr), self.span(f)[1], swap, 'function', n.lineno))
        nm = self.text(f).split('.')[-1]
        if nm != 'add_argument':
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and nm not in ('isinstance', 'hasattr', 'getattr', 'issubclass', 'open') \
                    and self.text(n.args[0]) != self.text(n.args[1]):
                a, b = self.span(n.args[0])[0], self.span(n.args[1])[1]
                self.out.append((a, b, f'{self.text(n.args[1])}, {self.text(n.args[0])}', 'swap arguments', n.lineno))
            for k in n.keywords:
                if k.arg and k.arg not in ('dtype', 'device', 'exist_ok'):
                    # Drop the keyword with the comma before it.
                    a, b = self.span(k.value)
                    src = self.src.encode()
                    i = src.rfind(k.arg.encode(), 0, a)
                    j = i
                    while j > 0 and src[j - 1:j] in b' \n\t':
                        j -= 1
                    if src[j - 1:j] == b',':
                        self.out.append((j - 1, b, '', f'drop {k.arg}=', n.lineno))
            self.generic_visit(n)
        else:
            for k in n.keywords:
                if k.arg == 'default':
                    self.visit(k.value)

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Constant, ast.Lambda, ast.Tuple, ast.List, ast.Dict)):
            self.limits(n.value)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        pass


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    m = Mut(src)
    tree = ast.parse(src)
    m.visit(tree)
    res, seen = [], set()
    for a, b, new, op, line in m.out:
        raw = src.encode()
        out = raw[:a] + new.encode() + raw[b:]
        if out in seen or out == raw:
            continue
        seen.add(out)
        try:
            ast.parse(out.decode())
        except SyntaxError:
            continue
        res.append(dict(file=path, line=line, op=op, old=raw[a:b].decode(), new=new, a=a, b=b))
    return res


def anchors():
    res = {}
    for l in open(os.path.join(VERIF, 'properties.jsonl')):
        p = json.loads(l)
        for f in p['anchors']['files']:
            res.setdefault(f, []).append(p['id'])
    return res


COST = {}


def run(check, repo, count, jobs):
    t = time.time()
    cmd = [PY, os.path.join(VERIF, 'run.py'), check, '--jobs', str(jobs)] + (['--count', str(count)] if count else [])
    env = dict(os.environ, VF_REPO=repo, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', VF_EVIDENCE=os.path.join(repo, '.ev'))
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        return 'timeout', time.time() - t
    return p.returncode, time.time() - t


def test(m, repo, checks, count, jobs):
    path = os.path.join(repo, m['file'])
    raw = open(os.path.join(REPO, m['file']), 'rb').read()
    with open(path, 'wb') as f:
        f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
    try:
        for cnt in (count, None):
            for k in checks:
                rc, t = run(k, repo, cnt, jobs)
                if rc != 0:
                    return dict(m, killed=k, rc=rc, full=cnt is None)
        return dict(m, killed=None)
    finally:
        with open(path, 'wb') as f:
            f.write(raw)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('--files')
    p.add_argument('--per-file', type=int, default=15)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--workers', type=int, default=4)
    p.add_argument('--count', type=int, default=10)
    p.add_argument('--list', action='store_true')
    p.add_argument('--range', action='store_true', help='changes which matter only outside of the ordinary range of values')
    a = p.parse_args()
    anc = anchors()
    files = a.files.split(',') if a.files else \
        [f for f in subprocess.check_output(['git', '-C', REPO, 'ls-files', 'beer/*.py', 'beer/cli/beer'], text=True).split() if f not in SKIP]
    rnd = random.Random(a.seed)
    todo = []
    for f in files:
        ms = [m for m in mutants(f) if m['op'].startswith('range') == a.range]
        rnd.shuffle(ms)
        ms = ms[:a.per_file]
        if a.list:
            print(f, len(mutants(f)), anc.get(f))
        todo += [(m, anc.get(f) or []) for m in ms]
    print(len(todo), 'mutants', flush=True)
    if a.list:
        return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['b'], d['new']))
    rnd.shuffle(todo)
    repos, lock = [], threading.Lock()
    for w in range(a.workers):
        d = f'{WORK}/r{os.getpid()}_{w}'
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        repos.append(d)

    def job(x):
        m, checks = x
        if (m['file'], m['a'], m['b'], m['new']) in done or not checks:
            return
        with lock:
            repo = repos.pop()
        try:
            r = test(m, repo, checks, a.count, 8 // a.workers)
        finally:
            with lock:
                repos.append(repo)
        with lock, open(a.out, 'a') as f:
            f.write(json.dumps(r) + '\n')
    try:
        with cf.ThreadPoolExecutor(a.workers) as ex:
            list(ex.map(job, todo))
    finally:
        for d in repos:
            shutil.rmtree(d, ignore_errors=True)


main()
