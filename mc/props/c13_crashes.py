"""C13: a crash or write failure at any point never corrupts configuration, tables or geopotentials."""
import errno
import json
import os
import shutil

from .. import bfs, execs, shim
from .. import fixtures as fx

PRELOAD = True
PROPERTY, LEVEL = 'C13', 'fault_enumeration'
TECHNIQUE = ('exhaustive fault injection below the real tool (interposed system calls): for every changing file system call on the configuration, table and geopotential folders, the process '
             'is ended before it or in the middle of a write, or the call fails; then the recovery is executed and compared with an undisturbed environment')
NOTE = ('Complete over the changing calls (create, truncate, write, rename, unlink, mkdir, lock) each scenario makes, one fault per history (two in the thorough tier). Kills are of the process: '
        'data handed to the kernel survives.')
RULE = ('scenario (table creation per method, second table, replaced table, alternate folder, geopotential added or removed, configuration check, first run, API) x fault kind x every call. '
        'Non-trivial: the fault was reached')
ASSUMPTIONS = ['loss of data handed to the kernel (power failure) is not modelled', 'the files written by the user in the configuration folder are not edited meanwhile']
CHUNK = 1
CASE_TIMEOUT = 3000

# scenario: executions before, the one disturbed, executions that must keep working with what was there before
SCENARIOS = {
    'first': ([], 'nearest', []),
    'second': (['nearest'], 'nearest-gridB', ['nearest']),
    'second-target': (['nearest', 'invdist'], 'nearest-targetU', ['nearest', 'invdist']),
    'replaced': (['nearest', 'invdist', 'drop-nearest'], 'nearest', ['invdist']),
    'invdist': (['nearest'], 'invdist', ['nearest']),
    'bilinear': (['nearest'], 'bilinear', ['nearest']),
    'triangulation': (['nearest'], 'triangulation', ['nearest']),
    'bilinear_delaunay': (['nearest'], 'bilinear_delaunay', ['nearest']),
    'adw': (['nearest'], 'adw', ['nearest']),
    'grib_nearest': (['nearest'], 'grib_nearest', ['nearest']),
    'grib_invdist': (['grib_nearest'], 'grib_invdist', ['grib_nearest']),
    'correction': (['invdist'], 'correction', ['invdist']),
    'two-files': (['nearest'], 'two-files', ['nearest']),
    'alternate': (['nearest'], 'alternate', ['nearest']),
    'api': (['nearest'], 'api-hole', ['nearest']),
    'add-geo': (['correction'], 'add-geo', ['correction']),
    'add-geo-again': (['correction', 'add-geo', 'remove-geoB'], 'add-geo', ['correction']),
    'remove-geo': (['correction', 'add-geo'], 'remove-geoB', ['correction']),
    'check': (['nearest', 'invdist', 'drop-nearest'], 'check-conf', ['invdist', 'correction-mode']),
    'first-run': (['no-user-files'], 'nearest', []),
    'first-run-check': (['no-user-files'], 'check-conf', []),
    'new-user': (['no-user-folder'], 'check-conf', []),
}
KINDS = {'crash': (shim.CRASH, 0), 'torn': (shim.TORN, 0), 'full': (shim.FULL, 0), 'EACCES': (shim.FAIL, errno.EACCES), 'EIO': (shim.FAIL, errno.EIO), 'EINTR-full': (shim.FULL, 0)}


def cases(tier):
    out = []
    for s in SCENARIOS:
        for k in ('crash', 'torn', 'full', 'EACCES', 'EIO'):
            after = ['new'] if k in ('crash', 'torn') else ['same', 'new']
            for a in after:
                out.append({'scenario': s, 'fault': k, 'process': a})
    if tier != 'quick':
        for s in SCENARIOS:
            out += [{'scenario': s, 'fault': k, 'process': 'new', 'second': True} for k in ('crash', 'torn', 'EIO')]
    return out


def setup(ws):
    from .. import sut
    ws.cat = cat = execs.Catalogue(ws)
    ws.gl = os.path.join(os.getcwd(), 'configuration', 'global')

    def drop(n='nearest'):
        reg = json.load(open(os.path.join(cat.env.conf, 'intertables.json')))
        # the table of this method
        f = [v['filename'] for v in reg.values() if isinstance(v, dict) and v['method'] == n]
        for x in f:
            for y in (x, x + '.gz'):
                p = os.path.join(cat.env.tables, y)
                if os.path.exists(p):
                    os.unlink(p)
        return {'end': ('ret', 0), 'maps': {}}
    cat.add('drop-nearest', drop)

    def remove():
        from pyg2p.main.config import Configuration
        try:
            Configuration().remove_geopotential('geoB.grib')
        except Exception as e:
            return {'end': ('exc', type(e).__name__), 'maps': {}}
        return {'end': ('ret', 0), 'maps': {}}
    cat.add('remove-geoB', remove)

    def no_folder():
        """everything known is in the global configuration"""
        os.makedirs(ws.gl, exist_ok=True)
        fx.write_json(os.path.join(ws.gl, 'parameters.json'), fx.PARAMETERS)
        for f in os.listdir(cat.env.conf):
            if f != 'paths.conf':
                os.unlink(os.path.join(cat.env.conf, f))
        sut.forget()
        return {'end': ('ret', 0), 'maps': {}}
    cat.add('no-user-files', no_folder)

    def new_user():
        no_folder()
        shutil.rmtree(cat.env.conf)
        return {'end': ('ret', 0), 'maps': {}}
    cat.add('no-user-folder', new_user)
    cat.dirs.append(ws.gl)
    ws.start = {}


def watched(ws):
    e = ws.cat.env
    return [e.conf, e.tables, e.geo, ws.cat.alt]


def ok(d):
    return d['end'] == ('ret', 0)


def entries(ws):
    out = {}
    for f in ('intertables.json', 'geopotentials.json', 'parameters.json', 'ftp.json'):
        p = os.path.join(ws.cat.env.conf, f)
        if os.path.exists(p):
            out[f] = json.load(open(p))
    return out


def state(ws, case):
    """folders before the disturbed execution, and what the executions give undisturbed"""
    from .. import sut
    s = case['scenario']
    if s in ws.start:
        return ws.start[s]
    before, op, uses = SCENARIOS[s]
    cat = ws.cat
    shutil.rmtree(ws.gl, ignore_errors=True)
    sut.in_child(cat.reset)
    for b in before:
        r = sut.in_child(lambda: (sut.forget(), cat.run(b))[1])
        assert r[0] == 'ok' and ok(r[1]), (b, r)
    snap = bfs.Snapshot(cat.dirs, os.path.join(ws.root, 'snap-' + s))
    had = entries(ws)
    ref = {}
    for o in [op] + uses:
        r = sut.in_child(lambda: (sut.forget(), cat.run(o))[1])
        assert r[0] == 'ok' and ok(r[1]), (o, r)
        ref[o] = r[1]
        snap.restore()

    def count():
        sut.forget()
        shim.arm(shim.COUNT, 0, 0, watched(ws))
        cat.run(op)
        shim.disarm()
        return shim.log()
    r = sut.in_child(count)
    snap.restore()
    assert r[0] == 'ok', r
    ws.start[s] = (snap, ref, r[1], had)
    return ws.start[s]


def recovery(ws, case, ref, had, fresh):
    """Executions after the fault; list of (sig, msg)."""
    from .. import sut
    cat = ws.cat
    before, op, uses = SCENARIOS[case['scenario']]
    bad = []

    def run(o, **kw):
        if fresh:
            r = sut.in_child(lambda: (sut.forget(), cat.run(o, **kw))[1])
            return r[1] if r[0] == 'ok' else {'end': r, 'maps': {}}
        return cat.run(o, **kw)

    def expect(what, got, want):
        if not execs.same(got, want, 1e-6):
            bad.append((what.split(':')[0], '%s: %s' % (what, execs.difference(got, want))))
            return False
        return True
    try:
        now = entries(ws)
    except ValueError as e:
        return [('unreadable', 'a configuration file cannot be read: %s' % e)]
    removes = op in ('check-conf', 'remove-geoB')
    for f, d in had.items():
        if f not in now or (f == 'parameters.json' and now[f] != d):
            bad.append(('lost', '%s was %s, is %s' % (f, d, now.get(f))))
        elif not removes:
            gone = {k: v for k, v in d.items() if now[f].get(k) != v and not (case['scenario'] == 'replaced' and isinstance(v, dict))}
            if gone:
                bad.append(('lost', 'entries of %s are gone or changed: %s, now %s' % (f, gone, now[f])))
    for u in uses:
        expect('use: %s after the fault' % u, run(u, create=False), ref[u])
    again = run(op)
    if op == 'add-geo':
        # added before the fault or now
        if again['end'] not in (('ret', 0), ('ret', 1)):
            bad.append(('again', 'adding the geopotential again: %s' % (again['end'],)))
        expect('geopotential: correction on the grid of the added one', run('correction-gridB'), ws_ref(ws, 'correction-gridB', ['add-geo']))
    elif op == 'remove-geoB':
        if not ok(again):
            bad.append(('again', 'removing again: %s' % (again['end'],)))
        if run('correction-gridB')['end'] != ('ret', 1):
            bad.append(('removed', 'the geopotential is still found'))
    else:
        expect('again: %s repeated' % op, again, ref[op])
        if op != 'check-conf':
            expect('stored: %s with the stored table' % op, run(op, create=False), ref[op])
    for u in uses:
        expect('use: %s after repeating' % u, run(u, create=False), ref[u])
    k = run('check-conf')
    if not ok(k):
        bad.append(('check', 'configuration check after the fault: %s' % (k['end'],)))
    for u in uses:
        expect('use: %s after a configuration check' % u, run(u, create=False), ref[u])
    if op not in ('add-geo', 'remove-geoB', 'check-conf', 'alternate'):
        expect('stored: %s with the stored table after a configuration check' % op, run(op, create=False), ref[op])
    try:
        for f, d in entries(ws).items():
            for x in d.values():
                if f == 'intertables.json' and isinstance(x, dict) and not any(os.path.exists(os.path.join(t, x['filename'] + g)) for t in (cat.env.tables, cat.alt) for g in ('', '.gz')):
                    bad.append(('dangling', 'entry without table after the configuration check: %s' % x))
    except ValueError as e:
        bad.append(('unreadable', 'a configuration file cannot be read: %s' % e))
    return bad


_REF = {}


def ws_ref(ws, op, prep):
    from .. import sut
    if op not in _REF:
        def f():
            snapshot = bfs.Snapshot(ws.cat.dirs, os.path.join(ws.root, 'snap-ref'))
            ws.cat.reset()
            for p in prep:
                ws.cat.run(p)
            r = ws.cat.run(op)
            snapshot.restore()
            return r
        r = sut.in_child(f)
        assert r[0] == 'ok' and ok(r[1]), r
        _REF[op] = r[1]
    return _REF[op]


def check(case, ws):
    from .. import sut
    if case['scenario'].startswith('add-geo'):
        ws_ref(ws, 'correction-gridB', ['add-geo'])
    snap, ref, events, had = state(ws, case)
    op = SCENARIOS[case['scenario']][1]
    mode, err = KINDS[case['fault']]
    bad, reached, n = [], 0, 0
    sigs = set()

    def faulty(mode, k, err, same):
        sut.forget()
        shim.arm(mode, k, err, watched(ws))
        r = ws.cat.run(op)
        hits = shim.lib().mc_hits()
        shim.disarm()
        return r, hits, recovery(ws, case, ref, had, False) if same else []

    def describe(k):
        e = events[k - 1]
        return 'call %d of %d (%s)' % (k, len(events), ' '.join(os.path.relpath(x, ws.cat.env.root) if x.startswith('/') else x for x in e if x))

    def one(k, second=None):
        nonlocal reached, n
        n += 1
        snap.restore()
        r = sut.in_child(faulty, mode, k, err, case['process'] == 'same')
        out = []
        if r[0] == 'ok':
            got, hits, out = r[1]
            reached += bool(hits)
            if ok(got) and op != 'add-geo' and not execs.same(got, ref[op], 1e-6):
                out = [('wrong', 'the disturbed execution succeeded with a different result: %s' % execs.difference(got, ref[op]))] + out
        elif r[0] == 'signal' and r[1] >> 8 == shim.CRASHED:
            reached += 1
        else:
            out = [('disturbed', 'the disturbed execution: %s' % (r,))]
        if second is not None:
            r = sut.in_child(faulty, mode, second, err, False)
        if case['process'] == 'new':
            out += recovery(ws, case, ref, had, True)
        for s, m in out:
            if s not in sigs:
                sigs.add(s)
                bad.append((s, '%s at %s%s: %s' % (case['fault'], describe(k), ', then at call %d of the next execution' % second if second else '', m)))
    for k in range(1, len(events) + 1):
        if case['fault'] == 'torn' and events[k - 1][0] != 'write':
            continue
        if case.get('second'):
            for j in range(1, len(events) + 2):
                one(k, j)
        else:
            one(k)
    snap.restore()
    return bad, {'evaluations': n, 'distinct': reached, 'faults': n, 'changing_calls': len(events), 'kinds_of_calls': sorted({e[0] for e in events})}
