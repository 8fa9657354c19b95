'Write MANIFEST.json from the check modules present in vf/checks.'
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'P01': 'reference-model monitor (independent float64 formulas + numerical duality) over generated distributions',
}
NOTE = ('Runtime monitoring of the real code on generated executions: held on the executions counted in the '
        'evidence file, nothing more. Trusts the oracle in vf/checks/{l}.py and numpy/scipy.')
props = [json.loads(l) for l in open(f'{HERE}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    path = f'{HERE}/vf/checks/{i.lower()}.py'
    if os.path.exists(path):
        doc = open(path).readline().strip().strip("'\"")
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick',
                       'thorough_cmd': f'./check.sh {i} thorough',
                       'technique': 'runtime monitoring: ' + doc,
                       'level': 'exploration', 'level_note': NOTE.format(l=i.lower())})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import torch, numpy, scipy, yaml"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: monitors attach from the outside (public API, wrapped '
                    'methods on instances, real commands run in scratch directories).'},
          open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
