"""C14: concurrent executions sharing the user configuration and the table folder do not disturb each other."""
import gc
import hashlib
import itertools
import json
import os
import shutil

from .. import bfs, execs, sched, shim

PRELOAD = True
PROPERTY, LEVEL = 'C14', 'exploration'
TECHNIQUE = ('exhaustive exploration of the interleavings of real processes of the tool up to a number of preemptions, at every file system call (interposed) that touches what another process '
             'changes; results and state left must be those of one of the sequential orders')
NOTE = ('Stateless model checking of the implementation: calls on files no other process of the scenario changes are not scheduling points (sound reduction, the set of shared files is '
        'learnt and the exploration restarted when it grows); locks are modelled by the scheduler, deadlocks are reported.')
RULE = ('scenario (2-3 executions x initial state) x every schedule with at most the bound of preemptions (2 for the quick tier with two processes, 1 with three; 3 and 2 in the thorough tier); a preemption that commutes is not repeated. '
        'Non-trivial: the schedule interleaves')
ASSUMPTIONS = ['processes interact only through the configuration, table and geopotential folders', 'file system calls are atomic']
CHUNK = 1
CASE_TIMEOUT = 3000
SHARDS = 2

# executions before; concurrent ones; what is observed afterwards (without permission to create tables)
SCENARIOS = {
    'same': ([], ['nearest', 'nearest'], ['nearest']),
    'same-hole': ([], ['nearest', 'nearest-hole'], ['nearest', 'nearest-hole']),
    'grids': ([], ['nearest', 'nearest-gridB'], ['nearest', 'nearest-gridB']),
    'targets': ([], ['nearest', 'nearest-targetU'], ['nearest', 'nearest-targetU']),
    'methods': ([], ['nearest', 'invdist'], ['nearest', 'invdist']),
    'grib-methods': ([], ['grib_nearest', 'grib_nearest-gridB'], ['grib_nearest', 'grib_nearest-gridB']),
    'grib-same': ([], ['grib_invdist', 'grib_invdist'], ['grib_invdist']),
    'use-create': (['nearest'], ['nearest', 'nearest-gridB'], ['nearest', 'nearest-gridB']),
    'use-use': (['nearest'], ['nearest', 'nearest-hole'], ['nearest']),
    'without': ([], ['nearest', 'no-create'], ['nearest']),
    'replaced': (['nearest', 'drop-tables'], ['nearest', 'nearest'], ['nearest']),
    'replaced-other': (['nearest', 'drop-tables'], ['nearest', 'nearest-gridB'], ['nearest', 'nearest-gridB']),
    'check': (['nearest', 'drop-tables'], ['nearest-gridB', 'check-conf'], ['nearest-gridB']),
    'check-same': (['nearest', 'drop-tables'], ['nearest', 'check-conf'], ['nearest']),
    'check-check': (['nearest', 'invdist', 'drop-tables'], ['check-conf', 'check-conf'], []),
    'correction': ([], ['correction', 'correction-mode'], ['correction', 'correction-mode']),
    'add-same': (['nearest'], ['add-geo', 'add-geo'], ['correction', 'correction-gridB']),
    'add-other': (['nearest'], ['add-geo', 'add-geoC'], ['correction', 'correction-gridB']),
    'add-same-grid': (['nearest'], ['add-geo', 'add-geoB2'], ['correction', 'correction-gridB']),
    'add-same-name': (['nearest'], ['add-geo', 'add-geoN'], ['correction', 'correction-gridB']),
    'add-remove': (['nearest'], ['add-geo', 'remove-geoA'], ['correction', 'correction-gridB']),
    'add-use': (['nearest', 'nearest-gridB'], ['add-geo', 'correction'], ['correction', 'correction-gridB']),
    'add-run': ([], ['add-geo', 'nearest'], ['nearest', 'correction-gridB']),
    'first-first': (['no-user-files'], ['nearest', 'nearest-gridB'], ['nearest', 'nearest-gridB']),
    'first-geo': (['no-user-files'], ['add-geo', 'add-geoC'], ['correction-gridB']),
    'new-user': (['no-user-folder'], ['check-conf', 'check-conf'], ['check-conf']),
    'new-folder': (['nearest'], ['write-a', 'write-b'], ['nearest']),
    'new-folder-netcdf': (['nearest'], ['write-a', 'write-c'], ['nearest']),
    'download-same': ([], ['download', 'download'], ['nearest']),
    'download-create': ([], ['download', 'nearest'], ['nearest']),
    'older': (['nearest', 'undescribed'], ['nearest', 'nearest-gridB'], ['nearest', 'nearest-gridB']),
    'older-geo': (['nearest', 'undescribed'], ['add-geo', 'check-conf'], ['nearest', 'correction-gridB']),
    'alternate': (['nearest'], ['alternate', 'nearest-gridB'], ['nearest', 'nearest-gridB']),
    'api': ([], ['api-nearest', 'nearest'], ['nearest']),
    'api-grids': ([], ['api-hole', 'nearest-gridB'], ['nearest-gridB', 'invdist']),
    'three-grids': ([], ['nearest', 'nearest-gridB', 'nearest-targetU'], ['nearest', 'nearest-gridB', 'nearest-targetU']),
    'three-same': ([], ['nearest', 'nearest', 'nearest'], ['nearest']),
    'three-check': (['nearest', 'drop-tables'], ['nearest', 'nearest-gridB', 'check-conf'], ['nearest', 'nearest-gridB']),
    'three-geo': (['nearest'], ['add-geo', 'add-geoC', 'correction'], ['correction', 'correction-gridB']),
}


REMOTE = {'remote1.bin': [b'a' * 9000, b'b' * 9000, b'c'], 'remote2.bin': [b'other']}


class Server:
    def __init__(self, *a, **kw):
        pass

    def nlst(self, *a):
        return ['.', '..'] + list(REMOTE)

    def retrbinary(self, cmd, callback, *a, **kw):
        for b in REMOTE[cmd.split()[1]]:
            callback(b)

    def __getattr__(self, name):
        return lambda *a, **kw: None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def cases(tier):
    q = tier == 'quick'
    out = []
    for s, (_, ops, _) in SCENARIOS.items():
        b = 2 if len(ops) == 2 and not (q and s == 'new-user') else 1
        n = SHARDS if q else 8
        out += [{'scenario': s, 'preemptions': b + (0 if q else 1), 'shard': [i, n]} for i in range(n)]
    return sorted(out, key=lambda c: -len(SCENARIOS[c['scenario']][1]))


def setup(ws):
    from . import c13_crashes
    c13_crashes.setup(ws)
    cat = ws.cat
    import numpy as np
    from .. import fixtures as fx
    d = ws.dir('geos')
    for k, g, n in (('C', fx.Grid(7, 6, 51, -1), 'geoC.grib'), ('B2', cat.B, 'geoB2.grib'), ('N', fx.Grid(7, 6, 51, -1), 'n/geoB.grib')):
        p = fx.write_grib(ws.path('geos', n), [dict(grid=g, values=500 + np.arange(g.n) * 3. + len(n), short='z', end=0)])
        cat.raw('add-geo' + k, ['-g', p])

    def remove():
        from pyg2p.main.config import Configuration
        Configuration().remove_geopotential('geoA.grib')
        return {'end': ('ret', 0), 'maps': {}}
    cat.add('remove-geoA', remove)

    def undescribed():
        # files without description, as written by hand
        for f in os.listdir(cat.env.conf):
            if f.endswith('.json'):
                p = os.path.join(cat.env.conf, f)
                d = json.load(open(p))
                d.pop('description', None)
                json.dump(d, open(p, 'w'))
        return {'end': ('ret', 0), 'maps': {}}
    cat.add('undescribed', undescribed)

    def download(**kw):
        # (the server answers the same to everybody)
        import ftplib
        from pyg2p.main import config
        from .. import scene, sut
        keep = ftplib.FTP, getattr(config, 'FTP', None)
        try:
            ftplib.FTP = config.FTP = Server
            return cat.describe(scene.Result(*sut.cli(['-W', 'intertables']), cat.env.fresh('out'), 'netcdf'))
        finally:
            ftplib.FTP, config.FTP = keep
    cat.add('download', download)
    # executions writing in a folder that does not exist yet
    shared = ws.dir('shared')
    cat.dirs.append(shared)
    ws.shared = shared
    for k, fmt in (('a', 'pcraster'), ('b', 'pcraster'), ('c', 'netcdf')):
        def write(k=k, fmt=fmt, create=True):
            from .. import scene, sut
            c = fx.command_json(cat.env.path('cmd.json'), cat.T, mode='nearest')
            o = os.path.join(shared, 'new', 'out')
            r = sut.cli(['-c', c, '-i', cat.i('a.grib'), '-o', o, '-F', fmt, '-n', k, '-l', 'ERROR'] + (['-B'] if create else []))
            res = scene.Result(*r, o, fmt)
            res.names = [n for n in res.names if n.startswith(k)]
            return cat.describe(res)
        cat.add('write-' + k, write)
    ws.memo, ws.warm = {}, set()


def content(ws):
    """The folders, for telling states apart."""
    from .c12_registry import content as table
    out = []
    for d in ws.cat.dirs:
        for root, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith('.lock'):
                    continue
                p = os.path.join(root, f)
                # (compressed files hold the time)
                out.append((p, table(p) if f.endswith(('.npy', '.gz')) else hashlib.sha1(open(p, 'rb').read()).hexdigest()))
    return tuple(sorted(out))


def registered(ws):
    """table of every entry of the registry, geopotentials"""
    from .c12_registry import content as table
    e = ws.cat.env
    out = {}
    try:
        reg = json.load(open(os.path.join(e.conf, 'intertables.json')))
        for k, v in reg.items():
            if isinstance(v, dict):
                out['table', k] = [table(os.path.join(t, v['filename'] + g)) if os.path.exists(os.path.join(t, v['filename'] + g)) else None
                                   for t in (e.tables, ws.cat.alt) for g in ('', '.gz')]
        for k in os.listdir(e.tables):
            if k in REMOTE:
                out['downloaded', k] = open(os.path.join(e.tables, k), 'rb').read()
        for f in ('geopotentials.json', 'parameters.json', 'ftp.json'):
            p = os.path.join(e.conf, f)
            out[f] = json.load(open(p)) if os.path.exists(p) else None
    except ValueError as x:
        return {'unreadable': str(x)}
    return out


def check(case, ws):
    from .. import sut
    cat = ws.cat
    before, ops, observe = SCENARIOS[case['scenario']]
    shutil.rmtree(ws.gl, ignore_errors=True)
    sut.in_child(cat.reset)
    for o in ops + observe:
        # (what is loaded at first use is loaded here once)
        if o not in ws.warm:
            sut.forget()
            cat.run(o)
            ws.warm.add(o)
    sut.in_child(cat.reset)
    shutil.rmtree(os.path.join(ws.shared, 'new'), ignore_errors=True)
    gc.collect()
    gc.freeze()
    for b in before:
        r = sut.in_child(lambda: (sut.forget(), cat.run(b))[1])
        assert r[0] == 'ok' and r[1]['end'] == ('ret', 0), (b, r)
    sut.forget()
    snap = bfs.Snapshot(cat.dirs, os.path.join(ws.root, 'snap14'))
    outdirs = [os.path.join(cat.env.root, 'proc%d' % i) for i in range(len(ops))]

    def operation(i, o):
        def f():
            # each process writes its maps in a folder of its own
            cat.env.root = outdirs[i]
            os.makedirs(cat.env.root, exist_ok=True)
            return cat.run(o)
        return f

    def observed():
        key = content(ws), tuple(observe)
        if key not in ws.memo:
            keep = bfs.Snapshot(cat.dirs, os.path.join(ws.root, 'snap14b'))
            res = {}
            for o in observe:
                flags = {'create': False}
                r = sut.in_child(lambda: (sut.forget(), cat.run(o, **flags))[1])
                res[o] = r[1] if r[0] == 'ok' else {'end': r, 'maps': {}}
            keep.restore()
            ws.memo[key] = res
        return {'registered': registered(ws), 'executions': ws.memo[key]}
    # the sequential orders
    allowed = []
    for order in itertools.permutations(range(len(ops))):
        snap.restore()
        res = [None] * len(ops)
        for i in order:
            r = sut.in_child(operation(i, ops[i]))
            assert r[0] == 'ok', r
            res[i] = r[1]
        allowed.append((order, res, observed()))
    n_states, shape = set(), {}

    def after(results, trace):
        bad = []
        for i, r in enumerate(results):
            if r[0] == 'deadlock':
                bad.append(('deadlock', '%s waits for %s' % (ops[i], r[1])))
            elif r[0] != 'ok':
                bad.append(('fails', '%s: %s' % (ops[i], r)))
        if bad:
            return bad
        res = [r[1] for r in results]
        state = observed()
        n_states.add(content(ws))
        fits = [a for a in allowed if execs.same(a[1], res, 1e-6)]
        if not fits:
            best = [execs.difference(res[i], allowed[0][1][i]) for i in range(len(ops))]
            return [('result', 'results as in no sequential order; compared with the first: %s' % [b for b in best if b])]
        if not any(execs.same(a[2], state, 1e-6) for a in fits):
            return [('state', 'state left as in no sequential order with these results: %s' % execs.difference(state, fits[0][2]))]
        return []

    def make():
        return [operation(i, o) for i, o in enumerate(ops)]
    x = sched.Exploration(make, [cat.env.conf, cat.env.tables, cat.env.geo, cat.alt, ws.shared], snap.restore, after, case['preemptions'], tuple(case['shard'])).explore()
    snap.restore()
    seen, bad = set(), []
    for trace, s, m in sorted(x.bad, key=lambda v: len(v[0])):
        if s not in seen:
            seen.add(s)
            short = []
            for i, kind, p, q in trace:
                step = '%d %s %s' % (i, kind, os.path.basename(p) + ('->' + os.path.basename(q) if q else ''))
                if not short or short[-1] != step:
                    short.append(step)
            bad.append((s, '%s; schedule: %s' % (m, ', '.join(short))))
    return bad, {'evaluations': x.n, 'distinct': x.n, 'schedules': x.n, 'equivalent_schedules_not_run': x.pruned, 'scheduled_calls': x.steps,
                 'shared_resources': len(x.conflicts.shared) if case['shard'][0] == 0 else 0, 'final_states': len(n_states), 'repeated_schedules': x.diverged, 'not_exhausted': 0 if x.complete else 1}
