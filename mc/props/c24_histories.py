"""C24: executions in one process do not influence each other."""
import os

from .. import bfs

PROPERTY, LEVEL = 'C24', 'exploration'
TECHNIQUE = ('exhaustive enumeration of sequences of executions and of changes of their inputs on the real tool: after every sequence, each operation of the catalogue is '
             'executed in the process that ran the sequence and in a new process on the same folders, and the two must agree')
NOTE = ('Differential oracle without expected values: what an operation gives (status, maps, registries and table files left) in a process with a history must be what it gives '
        'in a new process on a copy of the same folders. Operations: about 50 executions of the command line tool, the API and the command builder, differing in one aspect at a time, '
        'incl. failing ones, and changes of the inputs between them. Arrays returned earlier by the API must keep their content.')
RULE = 'prefix of operations (all single ones; ordered pairs and (execution, change of inputs) of the deep subset; longer in the thorough tier) x every operation after it. Non-trivial: every one'
ASSUMPTIONS = ['a forked copy of a process that ran nothing stands for a new process']
CHUNK = 1
CASE_TIMEOUT = 1500
DEEP = ['nearest', 'nearest-gridB', 'nearest-targetU', 'invdist-hole', 'grib_invdist', 'correction', 'correction-formula', 'correction-own', 'accumulation',
        'fail-formula', 'fail-none', 'api-correction', 'api-hole', 'two-files', 'member', 'check-conf', 'add-geo', 'alternate']
CHANGES = ['replace-a.grib', 'replace-hole.grib', 'replace-dem1.map', 'replace-t_clone.map', 'replace-own.grib', 'replace-target', 'replace-geo',
           'replace-parameters', 'replace-paths', 'drop-tables']


def names():
    import re
    src = open(os.path.join(os.path.dirname(__file__), '..', 'execs.py')).read()
    out = re.findall(r"\bc\('([\w-]+)'", src) + re.findall(r"self\.(?:raw|api)\('([\w-]+)'", src) + ['builder']
    out += ['invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw', 'grib_nearest', 'grib_invdist']
    return sorted(set(out))


def cases(tier):
    q = tier == 'quick'
    ex = names()
    out = [{'prefix': [a]} for a in ex]
    for r in CHANGES:
        for a in DEEP if q else ex:
            out.append({'prefix': [a, r], 'then': 'deep' if q else 'all'})
    for a in DEEP:
        for b in DEEP:
            out.append({'prefix': [a, b], 'then': 'deep'})
    if not q:
        out += [{'prefix': [a, b]} for a in ex for b in ex if not (a in DEEP and b in DEEP)]
        out += [{'prefix': [a, b, c], 'then': 'deep'} for a in DEEP for b in DEEP for c in DEEP]
        out += [{'prefix': [a, r, b, s], 'then': 'deep'} for a in DEEP[:6] for r in CHANGES for b in DEEP[:6] for s in CHANGES]
    return out


def setup(ws):
    from .. import execs, sut
    ws.cat = c = execs.Catalogue(ws)
    c.reset()
    c.run('adw')         # compiles once per worker
    c.run('builder')
    c.reset()
    assert set(names()) == {n for n, (_, f) in c.ops.items() if not f.get('env')}, (sorted(names()), sorted(c.ops))


def _one(c, name):
    try:
        r = c.run(name)
    except Exception as e:
        r = {'end': ('exc', type(e).__name__), 'maps': {}, 'text': str(e)[:300]}
    return r, c.state(), c.changed()


def check(case, ws):
    from .. import execs, sut
    c = ws.cat
    prefix = case['prefix']
    then = [n for n, (_, f) in c.ops.items() if not f.get('env')] if case.get('then') != 'deep' else DEEP
    store = os.path.join(ws.root, 'snap')

    def history():
        c.reset()
        for p in prefix:
            _one(c, p)

    def here(first):
        history()
        snap = bfs.Snapshot(c.dirs, store)
        out = []
        for n in then:
            out.append(sut.in_child(_one, c, n))
            snap.restore()
        return out
    r = sut.in_child(here, True, timeout=600)
    if r[0] != 'ok':
        return [('history-fails', '%s: %s' % (prefix, r))]
    bad = []
    # the folders are now as the sequence left them (each branch was undone): a new process on them
    snap = bfs.Snapshot(c.dirs, store)
    for n, a in zip(then, r[1]):
        b = sut.in_child(_one, c, n)
        snap.restore()
        if a[0] != 'ok' or b[0] != 'ok':
            if a[0] != b[0]:
                bad.append(('crash', '%s after %s: %s; in a new process: %s' % (n, prefix, a, b)))
            continue
        (ra, sa, changed), (rb, sb, _) = a[1], b[1]
        d = execs.difference(ra, rb)
        if d:
            bad.append(('result:%s' % n, 'after %s: %s' % (prefix, d)))
        d = execs.difference(sa, sb)
        if d:
            bad.append(('left-behind:%s' % n, 'after %s: %s' % (prefix, d)))
        if changed:
            bad.append(('earlier-result-changed:%s' % changed[0], 'changed by %s after %s' % (n, prefix)))
    return bad, {'evaluations': len(then), 'distinct': len(then)}
