"""Plants the bugs of tools/seeds/*.py: writes seeded/<id>/{patch.diff,demo.sh,meta.json,...} after confirming, in scratch copies of /repo,
that the patch applies, the demonstration tells the trees apart and (with --tests) the stable tests still pass.

usage: mkseed.py [--tests] [--copy DIR] id...
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(i):
    sp = importlib.util.spec_from_file_location(i, os.path.join(V, 'tools', 'seeds', i + '.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def demo(folder, repo):
    e = dict(os.environ, PYTHONPATH=os.path.join(repo, 'src'), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=repo, env=e, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-900:]


def main():
    args = sys.argv[1:]
    tests = '--tests' in args
    ids = [a for a in args if not a.startswith('-')]
    base = tempfile.mkdtemp(prefix='seed_')
    failed = []
    try:
        repo = os.path.join(base, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for i in ids:
            m = load(i)
            git = lambda *a: subprocess.check_output(['git', '-C', repo] + list(a), text=True)
            git('checkout', '-q', '--', '.')
            out = os.path.join(V, 'seeded', i)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for a, b in (('mc/fixtures.py', 'fx.py'), ('tools/demolib.py', 'demolib.py')):
                shutil.copy(os.path.join(V, a), os.path.join(out, b))
            open(os.path.join(out, 'demo.py'), 'w').write('from demolib import *\n' + m.DEMO.lstrip('\n'))
            open(os.path.join(out, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# cwd: the repository. Exit 0 when the property holds in this scenario.\n'
                'export PYTHONPATH="$PWD/src:$(cd "$(dirname "$0")" && pwd)" PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            c0, t0 = demo(out, repo)
            for f, old, new in m.EDITS:
                p = os.path.join(repo, 'src/pyg2p', f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(i, 'EDIT DOES NOT MATCH', f, s.count(old), old[:80])
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                open(os.path.join(out, 'patch.diff'), 'w').write(git('diff'))
                c1, t1 = demo(out, repo)
                blame = removed_not_original(git('diff'), repo)
                ok = c0 == 0 and c1 != 0
                if ok and tests:
                    ok, why = run_tests(repo, base)
                    t1 += why
                print(i, m.PROPERTY, 'clean', c0, 'patched', c1, 'OK' if ok else 'BAD', '' if not blame else 'touches fix lines: %s' % blame)
                if not ok:
                    failed.append(i)
                    print('  clean:', t0[-600:], '\n  patched:', t1[-5000:])
                elif '-v' in args:
                    print('  ', t1[-300:])
                continue
            failed.append(i)
    finally:
        shutil.rmtree(base)
    sys.exit(bool(failed))


def removed_not_original(diff, repo):
    """removed lines that the fixes added (only changes to original lines count)"""
    bad = []
    f = None
    orig = {}
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
            orig[f] = subprocess.check_output(['git', '-C', '/repo', 'show', '48f4186:' + f], text=True).splitlines()
        elif line.startswith('-') and not line.startswith('---') and line[1:].strip() and line[1:] not in orig[f]:
            bad.append(line[1:].strip())
    return bad


def run_tests(repo, base):
    s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo).replace('safe.directory=/repo', 'safe.directory=' + repo)
    sh = os.path.join(base, 'test.sh')
    open(sh, 'w').write(s)
    out = os.path.join(base, 'out.json')
    p = subprocess.run(['bash', sh, out], env=dict(os.environ, PYTHONPATH=os.path.join(repo, 'src')), capture_output=True, text=True)
    try:
        passed = set(json.load(open(out))['passed'])
    except Exception:
        return False, p.stdout[-2000:]
    b = json.load(open('/opt/vp/BASELINE.json'))
    want = set(b.get('passed') or b.get('tests') or b.get('stable'))
    return want <= passed, 'missing tests %s\n%s' % (sorted(want - passed), p.stdout[-6000:])


if __name__ == '__main__':
    main()
