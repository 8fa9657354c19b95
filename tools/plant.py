"""Plant bugs in scratch copies of /repo and see which checks catch them.

usage: plant.py SPEC.py... [--seed N] [--keep]   write seeded/<id>/ from the spec, confirm it
       plant.py --recheck [ID...]                re-run the checks against the kept bugs

A spec is a Python file defining ID, PROPERTY, EDITS = [(file, old, new), ...], NEEDS, WHAT, DEMO.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def root_text(fname):
    root = sh(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[0]
    return sh(['git', '-C', REPO, 'show', f'{root}:{fname}']).stdout


def scratch(name):
    wt = f'/tmp/w/plant/{name}'
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(os.path.dirname(wt), exist_ok=True)
    sh(['cp', '-a', REPO, wt])
    return wt


def demo(bugdir, wt):
    try:
        r = sh(['bash', f'{bugdir}/demo.sh'], cwd=wt, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, ''
    return r.returncode, r.stdout[-600:]


def tests(wt, name):
    script = open('/opt/vp/test.sh').read().replace('/repo', wt)
    path = f'/tmp/w/plant/{name}.test.sh'
    open(path, 'w').write(script)
    out = f'/tmp/w/plant/{name}.json'
    sh(['bash', path, out])
    try:
        passed = json.load(open(out))['passed']
    except OSError:
        return {'no results'}
    norm = {p.replace(wt + '/', '').replace(wt.strip('/').replace('/', '.') + '.', '') for p in passed}
    return {s for s in STABLE if s not in norm}


def check(wt, prop, seed=1):
    env = dict(os.environ, VF_REPO=wt, VERIF_SEED=str(seed), VERIF_TIER='quick')
    r = sh(['bash', f'{VERIF}/check.sh', prop, 'quick'], env=env, cwd=VERIF)
    lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, len(lines), r.stdout[-700:]


def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    name, prop = ns['ID'], ns['PROPERTY']
    bugdir = f'{VERIF}/seeded/{name}'
    os.makedirs(bugdir, exist_ok=True)
    log = [f'== {name} ({prop})']
    wt = scratch(name)
    try:
        original = False
        for fname, old, new in ns['EDITS']:
            text = open(f'{wt}/{fname}').read()
            if text.count(old) != 1:
                return log + [f'  BAD: {text.count(old)} matches in {fname}: {old[:60]!r}']
            rt = root_text(fname)
            rlines = {l.strip() for l in rt.splitlines()}
            gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
            if not gone or any(l.strip() in rlines for l in gone):
                original = True
            open(f'{wt}/{fname}', 'w').write(text.replace(old, new))
        if not original:
            return log + ['  BAD: changes only lines of our own fixes']
        diff = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(f'{bugdir}/patch.diff', 'w').write(diff)
        open(f'{bugdir}/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        open(f'{bugdir}/demo.sh', 'w').write(
            '#!/bin/bash\n# Run with the repository as the current directory.\n'
            'export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=\n'
            'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(f'{bugdir}/meta.json', 'w') as f:
            json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['WHAT']}, f, indent=1)
            f.write('\n')
        code, out = demo(bugdir, wt)
        log.append(f'  demo patched: {code} {"ok" if code else "BAD"}: ' + out.strip().replace('\n', ' | ')[-160:])
        clean = scratch(name + '.clean')
        code2, out2 = demo(bugdir, clean)
        ap = sh(['git', '-C', clean, 'apply', '--check', f'{bugdir}/patch.diff'])
        shutil.rmtree(clean, ignore_errors=True)
        log.append(f'  demo clean: {code2} {"ok" if not code2 else "BAD " + out2[-300:]}; applies: {ap.returncode == 0}')
        lost = tests(wt, name)
        log.append(f'  stable tests lost: {sorted(lost) if lost else "none"}')
        rc, n, out = check(wt, prop)
        log.append(f'  {prop}: exit {rc}, {n} VIOLATION lines -> {"CAUGHT" if rc == 1 and n else "MISSED"}')
        if rc not in (0, 1):
            log.append(out)
        log.append('  RESULT ' + ('good' if code and not code2 and not lost and not ap.returncode else 'NOT COUNTING'))
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return log


def recheck(name, props=None, seed=1):
    bugdir = f'{VERIF}/seeded/{name}'
    prop = json.load(open(f'{bugdir}/meta.json'))['property']
    wt = scratch(name)
    try:
        r = sh(['git', '-C', wt, 'apply', f'{bugdir}/patch.diff'])
        if r.returncode:
            return [f'{name}: does not apply: {r.stdout}']
        res = []
        for p in (props or [prop]):
            rc, n, out = check(wt, p, seed)
            res.append(f'{name} ({prop}) {p}: exit {rc}, {n} violations {"CAUGHT" if rc == 1 and n else "missed"}'
                       + (out if rc not in (0, 1) else ''))
        return res
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    seed = 1
    if '--seed' in args:
        i = args.index('--seed')
        seed = int(args[i + 1])
        del args[i:i + 2]
    props = None
    if '--all' in args:
        args.remove('--all')
        props = [json.loads(l)['id'] for l in open(f'{VERIF}/properties.jsonl')]
    if args and args[0] == '--recheck':
        names = args[1:] or sorted(os.listdir(f'{VERIF}/seeded'))
        jobs = lambda n: recheck(n, props, seed)
    else:
        names = args
        jobs = plant
    with cf.ThreadPoolExecutor(2) as pool:
        for lines in pool.map(jobs, names):
            print('\n'.join(lines), flush=True)
