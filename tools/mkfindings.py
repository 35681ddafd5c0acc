"""known_findings.json: fixed entries from the fix commits of /repo (with the property each belongs to) and the open ones of open.json."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', os.environ.get('MC_REPO', '/repo'), 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
PROP = json.load(open(os.path.join(V, 'tools', 'fixprops.json')))
out = []
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    prop = next((v for k, v in PROP.items() if s.startswith(k)), None)
    if not prop:
        raise SystemExit('no property for: ' + s)
    out.append({'property': prop, 'id': 'fixed-' + h, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (prop, h, s)})
out += json.load(open(os.path.join(V, 'tools', 'open.json')))
json.dump({'findings': out}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(out))
