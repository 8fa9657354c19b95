'Write DESIGN.md from tools/design_head.md, the check modules and the planted bugs.'
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
out = [open(f'{HERE}/tools/design_head.md').read().rstrip(), '', '## Per property', '']
for line in open(f'{HERE}/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    m = importlib.import_module(f'vf.checks.{i.lower()}')
    one = lambda s: ' '.join(str(s).split())
    out += [f'### {i} {p["title"]}', '',
            f'*Decided by*: {one(m.__doc__)}', '',
            f'*Workload*: {one(m.RULE)}', '',
            '*Executions (quick / thorough)*: '
            + ', '.join(f'{f.__name__} {a}/{b}' for f, a, b in m.CASES), '']
    if getattr(m, 'ASSUMPTIONS', None):
        out += ['*Assumptions and bounds*: ' + '; '.join(one(a) for a in m.ASSUMPTIONS) + '.', '']
    out += [f'*Beyond tests*: {one(p["why_tests_cant"])}.', '']
rows = []
for d in sorted(glob.glob(f'{HERE}/seeded/*/meta.json')):
    b = json.load(open(d))
    rows.append((os.path.basename(os.path.dirname(d)), b))
if rows:
    res = {}
    if os.path.exists(f'{HERE}/tools/caught.json'):
        res = json.load(open(f'{HERE}/tools/caught.json'))
    out += ['## Planted bugs', '',
            'Each breaks its property, builds, keeps the stable tests, and fails its demonstration. "Caught" is the '
            'outcome of the quick check at seed 1 (`tools/plant.py --recheck`). Written from the statements and '
            'the code; those first missed led to the strengthening named in the last column.', '',
            '| bug | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
    for n, b in rows:
        out.append(f'| {n} | {b["property"]} | {b["what_it_breaks"]} | {b["needs"]} | {res.get(n, "")} |')
open(f'{HERE}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
