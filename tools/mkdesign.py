"""Writes DESIGN.md: the prose of design.md here, and tables and sections derived from the checks, the findings and the planted bugs."""
import ast
import glob
import importlib.util
import json
import os

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
props = [json.loads(line) for line in open(os.path.join(V, 'properties.jsonl'))]
findings = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
prose = json.load(open(os.path.join(T, 'design.json')))


def literals(path):
    ns = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign):
            try:
                v = ast.literal_eval(node.value)
            except ValueError:
                continue
            t = node.targets[0]
            if isinstance(t, ast.Tuple):
                ns.update({a.id: b for a, b in zip(t.elts, v)})
            elif isinstance(t, ast.Name):
                ns[t.id] = v
    return ns


mods = {}
for f in sorted(glob.glob(os.path.join(V, 'mc', 'props', 'c[0-9]*.py'))):
    ns = literals(f)
    ns['file'] = os.path.relpath(f, V)
    mods[ns['PROPERTY']] = ns
seeds = {}
for f in sorted(glob.glob(os.path.join(T, 'seeds', '*.py'))):
    seeds[os.path.basename(f)[:-3]] = literals(f)
caught = json.load(open(os.path.join(T, 'caught.json')))
out = [open(os.path.join(T, 'design.md')).read().rstrip(), '', '## The properties', '']
for p in props:
    i = p['id']
    m, d = mods[i], prose[i]
    out += ['### %s %s' % (i, p['title']), '',
            '*%s*, `%s`, level `%s`; quick tier: %s.' % (m['TECHNIQUE'][0].upper() + m['TECHNIQUE'][1:], m['file'], m['LEVEL'], d['cost']), '',
            '- **Enumerated:** %s' % m['RULE'].replace(' Non-trivial', ' Non-trivial').rstrip('.') + '.',
            '- **Oracle:** ' + d['oracle'],
            '- **Bounds and completeness:** ' + m['NOTE'],
            '- **Beyond the tests:** ' + d['reach'],
            '- **Assumptions:** ' + '; '.join(m['ASSUMPTIONS']) + '.']
    if d.get('limits'):
        out.append('- **Limits:** ' + d['limits'])
    mine = [f for f in findings if f['property'] == i]
    fixed = [f['what'].split(' ', 3)[2:] for f in mine if f['status'] == 'fixed']
    if fixed:
        out.append('- **Defects found and repaired:** ' + '; '.join('%s (%s)' % (b, a) for a, b in fixed) + '.')
    for f in mine:
        if f['status'] == 'open':
            out.append('- **Known finding** `%s`: %s.' % (f['id'], f['what']))
    s = [k for k, v in seeds.items() if v['PROPERTY'] == i]
    if s:
        out.append('- **Planted bugs:** ' + ', '.join('`%s`' % k for k in s) + '.')
    out.append('')
out += ['## Planted bugs and what catches them', '',
        'Each one passes the stable tests of the repository (confirmed with `tools/mkseed.py --tests`) and has a demonstration. The result is that of `tools/catch.py` with the current checks.', '',
        '| bug | property | what it breaks | needs | check: result |', '|---|---|---|---|---|']
for k, v in seeds.items():
    r = '; '.join('%s: %s' % x for x in sorted(caught.get(k, {}).items())) or 'not run'
    out.append('| `%s` | %s | %s | %s | %s |' % (k, v['PROPERTY'], v['BREAKS'].replace('|', '/'), v['NEEDS'].replace('|', '/'), r))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
