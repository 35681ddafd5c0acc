"""Writes MANIFEST.json from the check modules and the property list."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(V, 'properties.jsonl'))]
mods = {}
for f in sorted(glob.glob(os.path.join(V, 'mc', 'props', 'c[0-9]*.py'))):
    ns = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign):
            try:
                v = ast.literal_eval(node.value)
            except ValueError:
                continue
            t = node.targets[0]
            if isinstance(t, ast.Tuple):
                for a, b in zip(t.elts, v):
                    ns[a.id] = b
            elif isinstance(t, ast.Name):
                ns[t.id] = v
    mods[ns['PROPERTY']] = ns
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in mods:
        na.append({'property': i, 'reason': notes.get('not_applicable', {}).get(i, 'no check built yet')})
        continue
    m = mods[i]
    cmd = '/opt/venv/bin/python run.py ' + i
    checks.append({'property': i, 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
                   'technique': m['TECHNIQUE'], 'level': m['LEVEL'], 'level_note': m['NOTE']})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python run.py --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check runs the code of /repo/src in place (pure Python, no build); no hooks were added to /repo. '
                    'Known findings and repaired defects: known_findings.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
