"""catch.py [id...]: runs the check of each planted bug's property (quick tier) on a patched copy of /repo; prints caught or missed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = os.path.join(V, 'tools', 'caught.json')


def record(i, p, tier, rc, sig):
    d = json.load(open(CAUGHT)) if os.path.exists(CAUGHT) else {}
    e = d.setdefault(i, {})
    e['%s %s' % (p, tier)] = ('caught: ' + sig) if rc == 1 else 'missed' if rc == 0 else 'exit %d' % rc
    json.dump(d, open(CAUGHT, 'w'), indent=1, sort_keys=True)


ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')))
tier = 'thorough' if '-t' in sys.argv else 'quick'
other = [a[1:] for a in sys.argv if a.startswith('-C')]
for i in ids:
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    base = tempfile.mkdtemp(prefix='catch_')
    try:
        repo = os.path.join(base, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
        for p in other or [prop]:
            r = subprocess.run(['/opt/venv/bin/python', 'run.py', p, '--tier', tier], cwd=V, env=dict(os.environ, MC_REPO=repo), capture_output=True, text=True)
            lines = [x for x in r.stdout.splitlines() if not x.startswith('KNOWN')]
            sig = next((x.strip().split(': ')[0] for x in lines if x.startswith('   ')), '')
            record(i, p, tier, r.returncode, sig)
            print(i, p, 'CAUGHT' if r.returncode == 1 else 'MISSED (exit %s)' % r.returncode, ' | '.join(lines)[:330], flush=True)
    finally:
        shutil.rmtree(base)
