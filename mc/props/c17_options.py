"""C17: the effective value of every option is the command line one, else the command file one, else the default."""
import itertools
import os
import shutil

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C17', 'exploration'
TECHNIQUE = ('exhaustive enumeration of where each option is given (command line, command file, both, nowhere) with boundary values, for single options, all pairs and (thorough) all triples, on the real '
             'tool and API; the effective values are read from what is written and compared with a model of the precedence')
NOTE = 'Complete over the stated alphabets. The model predicts the selected messages, file names, values, packing, times and folders used.'
RULE = ('each option x command line value or none x command file value or none (numbers, numeric strings, empty where documented values allow it); pairs (thorough: triples) of options over '
        '(none, command line, file, both); API dictionary: top level x section. Non-trivial: maps were written')
ASSUMPTIONS = ['an empty value in the command file is as if it were not given (not used for valid range and value format)', 'start, end, times and numbers are integers']
CHUNK = 4
CASE_TIMEOUT = 600

NONE = None
# name: (option, where in the file, key, command line values, file values)
OPTS = {
    'start': ('-s', 'Parameter', '@tstart', [0, 6], ['', 0, 6, '6']),
    'end': ('-e', 'Parameter', '@tend', [0, 12], ['', 0, 12, '12']),
    'time': ('-T', 'Parameter', '@dataTime', [0, 1200], ['', 0, 1200, '1200']),
    'date': ('-D', 'Parameter', '@dataDate', [20200101, 20200102], ['', 20200102, '20200102']),
    'member': ('-m', 'Parameter', '@perturbationNumber', [0, 2], ['', 0, 2, '2']),
    'fmap': ('-f', 'OutMaps', '@fmap', [0, 7], ['', 0, 5, '5']),
    'ext': ('-x', 'OutMaps', '@ext', [1, 2], ['', 3, '3']),
    'prefix': ('-n', 'OutMaps', '@namePrefix', ['abc', '1'], ['', 'xyz']),
    'format': ('-F', 'OutMaps', '@format', ['pcraster', 'netcdf', 'notset'], ['', 'pcraster', 'netcdf']),
    'scale': ('-S', 'OutMaps', '@scaleFactor', ['0.5', '2', '1'], ['', .25, '0.25', 1]),
    'offset': ('-O', 'OutMaps', '@offset', ['0', '10', '-5'], ['', 0, 5, '5', -5]),
    'vmin': ('-vm', 'OutMaps', '@validMin', ['0', '100.5'], [0, 102, '102']),
    'vmax': ('-vM', 'OutMaps', '@validMax', ['0', '103'], [0, 102.25, '102.25']),
    'dtype': ('-vf', 'OutMaps', '@valueFormat', ['i4', 'f4'], ['i2', 'f8']),
    'units': ('-U', 'OutMaps', '@outputStepUnits', ['m', 'D'], ['', 's', 'h']),
    'tables': ('-N', 'Interpolation', '@intertableDir', ['A'], ['', 'B']),
    'geo': ('-G', 'Interpolation', '@geopotentialDir', ['A'], ['', 'B']),
}
DEFAULT = {'start': None, 'end': None, 'time': None, 'date': None, 'member': None, 'fmap': 1, 'ext': 1, 'prefix': '2t', 'format': 'pcraster', 'scale': 1., 'offset': 0., 'vmin': None, 'vmax': None,
           'dtype': 'f8', 'units': 'h', 'tables': 'conf', 'geo': 'conf'}
# used in combinations: one value of each kind, different from the default and from each other
PAIR = {'start': (6, 12), 'end': (12, 6), 'time': (1200, 0), 'date': (20200101, 20200102), 'member': (0, 2), 'fmap': (0, 5), 'ext': (2, 3), 'prefix': ('abc', 'xyz'), 'format': ('netcdf', 'pcraster'),
        'scale': ('0.5', .25), 'offset': ('10', 5), 'vmin': ('100.5', 102), 'vmax': ('103', 102.25), 'dtype': ('i4', 'i2'), 'units': ('m', 's'), 'tables': ('A', 'B'), 'geo': ('A', 'B')}
STEPS = [0, 6, 12, 18]
DATES, TIMES, MEMBERS = [20200101, 20200102], [0, 1200], [0, 1, 2]
GEO = {'conf': 1000., 'A': 2000., 'B': 4000.}
SEC = {'s': 1, 'm': 60, 'h': 3600, 'D': 86400}
NAMES = {'seconds': 's', 'minutes': 'm', 'hours': 'h', 'days': 'D'}


def cases(tier):
    q = tier == 'quick'
    out = [{'options': [o], 'format': f} for o in OPTS for f in ('pcraster', 'netcdf', None)]
    out += [{'options': list(p), 'format': f} for p in itertools.combinations(OPTS, 2) for f in ('pcraster', 'netcdf')]
    if not q:
        out += [{'options': list(p), 'format': f} for p in itertools.combinations(OPTS, 3) for f in ('netcdf', 'pcraster')]
        out += [{'options': list(p), 'format': f, 'full': True} for p in itertools.combinations(OPTS, 2) for f in ('pcraster', 'netcdf')]
    out += [{'api': list(p)} for n in (1, 2, 3) for p in itertools.combinations(('start', 'end', 'time', 'date', 'member', 'tables', 'geo'), n)]
    out += [{'outdir': w} for w in ('new', 'nested', 'existing', 'slash', 'none', 'dot')]
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.t = fx.Target.regular(ws.dir('tgt'), 't', 2, 2, 50., 0.)
    ws.grid = fx.Grid(2, 2, 50, 0)
    ws.dem = fx.write_pcr(os.path.join(ws.dir('tgt'), 'dem.map'), np.zeros((2, 2)), *ws.t.origin, 1.)
    ws.files = {}
    for k, v in GEO.items():
        ws.files[k] = fx.write_grib(os.path.join(ws.dir('gsrc', k), 'geo.grib'), [dict(grid=ws.grid, values=np.full(4, v), short='z', end=0)])
    ws.dirs = {'tables': {}, 'geo': {}}
    for k in 'AB':
        ws.dirs['tables'][k] = os.path.join(ws.env.root, 'tables' + k)
        ws.dirs['geo'][k] = os.path.join(ws.env.root, 'geo' + k)
    ws.dirs['tables']['conf'], ws.dirs['geo']['conf'] = ws.env.tables, ws.env.geo
    ws.sets = {}


def reset(ws, geo):
    from .. import sut
    ws.env.reset()
    for k in 'AB':
        for d in (ws.dirs['tables'][k], ws.dirs['geo'][k]):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
    if geo:
        assert sut.cli(['-g', ws.files['conf'], '-l', 'ERROR']) == ('ret', 0)
        for k in 'AB':
            shutil.copy(ws.files[k], ws.dirs['geo'][k])


def grib(ws, dims):
    """Messages over the given dimensions: (path, list of (date, time, member, step, values))."""
    key = tuple(sorted(dims))
    if key not in ws.sets:
        recs, msgs = [], []
        for d, t, m, s in itertools.product(DATES if 'date' in dims else DATES[:1], TIMES if 'time' in dims else TIMES[:1], MEMBERS if 'member' in dims else [None], STEPS):
            v = 100 + STEPS.index(s) + 16 * (DATES.index(d) + 2 * TIMES.index(t)) + (0 if m is None else 64 * m) + np.arange(4) * .25
            v[3] *= -1
            recs.append((d, t, m, s, v))
            msgs.append(fx.grib_message(ws.grid, v, date=d, time=t, pert=m, end=s))
        p = fx.write_grib(os.path.join(ws.dir('in'), '_'.join(key) + 'x.grib'), msgs)
        dec = [x[1] for x in fx.read_grib(p)]
        ws.sets[key] = (p, [(d, t, m, s, v) for (d, t, m, s, _), v in zip(recs, dec)])
    return ws.sets[key]


def effective(opts, cli, js):
    e = dict(DEFAULT)
    for o in opts:
        v = cli.get(o)
        if o == 'format' and v == 'notset':
            v = None
        if v is None:
            v = js.get(o)
            v = None if v == '' else v
        if v is not None:
            e[o] = v
    for o in ('start', 'end', 'time', 'date', 'member', 'fmap', 'ext'):
        e[o] = None if e[o] is None else int(e[o])
    for o in ('scale', 'offset', 'vmin', 'vmax'):
        e[o] = None if e[o] is None else float(e[o])
    return e


def expected(ws, e, dims, geo):
    """None: refused; else list of (step, values)."""
    if e['start'] is not None and e['end'] is not None and e['start'] > e['end']:
        return None
    out = []
    for d, t, m, s, v in grib(ws, dims)[1]:
        if e['date'] is not None and d != e['date'] or e['time'] is not None and t != e['time'] or e['member'] is not None and m != e['member']:
            continue
        if e['start'] is not None and s < e['start'] or e['end'] is not None and s > e['end']:
            continue
        out.append((s, (v + GEO[e['geo']] * 2 if geo else v).reshape(2, 2)))
    return sorted(out, key=lambda x: x[0])


def check(case, ws):
    if 'api' in case:
        return check_api(case, ws)
    if 'outdir' in case:
        return check_outdir(case, ws)
    from .. import scene
    bad, runs, n, refused = [], 0, 0, 0
    opts = case['options']
    if case['format'] is not None and 'format' in opts and case['format'] != 'pcraster':
        return [], {'evaluations': 0, 'distinct': 0}

    def fail(what, msg, k=''):
        if what not in {b[0] for b in bad}:
            bad.append((what, '%s: %s' % (k, msg)))
    full = len(opts) == 1 or case.get('full')
    alph = []
    for o in opts:
        cs, js = ([None] + OPTS[o][3], [None] + OPTS[o][4]) if full else ([None, PAIR[o][0]], [None, PAIR[o][1]])
        alph.append(list(itertools.product(cs, js)))
    geo = 'geo' in opts
    if 'tables' not in opts:
        reset(ws, geo)
    for combo in itertools.product(*alph):
        cli = {o: c for o, (c, _) in zip(opts, combo) if c is not None}
        js = {o: j for o, (_, j) in zip(opts, combo) if j is not None}
        e = effective(opts, cli, js)
        if 'format' not in opts:
            e['format'] = case['format'] or 'pcraster'
        # a dimension that is not selected has one value in the file
        dims = [o for o in ('date', 'time', 'member') if e[o] is not None]
        k = (cli, js)
        if 'tables' in opts:
            reset(ws, geo)
        path = grib(ws, dims)[0]
        w = expected(ws, e, dims, geo)
        cmd = {'param': {}, 'outmaps': {}, 'interp': {}}
        for o, v in js.items():
            cmd[{'Parameter': 'param', 'OutMaps': 'outmaps', 'Interpolation': 'interp'}[OPTS[o][1]]][OPTS[o][2]] = ws.dirs[o][v] if o in ws.dirs and v else v
        if geo:
            cmd['correction'] = {'formula': 'p+gem-dem', 'gem': 'z*2', 'dem': ws.dem}
        args = []
        for o, v in cli.items():
            args += [OPTS[o][0], ws.dirs[o][v] if o in ws.dirs else v]
        if 'format' not in opts and case['format']:
            args += ['-F', case['format']]
        out = ws.env.fresh('out')
        c = fx.command_json(ws.env.path('cmd.json'), ws.t, **cmd)
        from .. import sut
        kind, code = sut.cli(['-c', c, '-i', path, '-o', out, '-l', 'ERROR', '-B'] + args)
        runs += 1
        r = scene.Result(kind, code, out, e['format'])
        if w is None:
            if r.ok or r.names:
                fail('not-refused', 'start after end accepted: %s' % r.names, k)
            refused += 1
            continue
        if not r.ok:
            fail('refused', r.error, k)
            continue
        n += 1
        compare(ws, r, e, w, k, fail)
        if 'tables' in opts:
            where = [d for d in ws.dirs['tables'] if any(f.startswith('tbl') for f in os.listdir(ws.dirs['tables'][d]))]
            if where != [e['tables']]:
                fail('tables', 'table in %s instead of %s' % (where, e['tables']), k)
    return bad, {'evaluations': runs, 'distinct': n, 'refused': refused}


def compare(ws, r, e, w, k, fail):
    from netCDF4 import Dataset
    if e['format'] == 'pcraster':
        names = []
        for i in range(len(w)):
            s = e['prefix'] + str(e['fmap'] + i * e['ext']).rjust(11 - len(e['prefix']), '0')
            names.append(s[:8] + '.' + s[8:])
        if sorted(names) != r.names:
            return fail('names', '%s instead of %s' % (r.names, names), k)
        for nm, (s, v) in zip(names, w):
            a = fx.read_pcr(os.path.join(r.out, nm))[0]
            if not np.allclose(a, v, atol=1e-3, equal_nan=True):
                return fail('values', 'step %s: %s instead of %s' % (s, a.tolist(), v.tolist()), k)
        return
    name = '%s_None.nc' % e['prefix']
    if r.names != [name]:
        return fail('names', '%s instead of %s' % (r.names, name), k)
    ds = Dataset(os.path.join(r.out, name))
    try:
        v = ds.variables[[x for x in ds.variables if x not in ('lat', 'lon', 'time')][0]]
        if v.dtype != np.dtype(e['dtype']):
            fail('format', '%s instead of %s' % (v.dtype, e['dtype']), k)
        for a, o, d in (('scale_factor', 'scale', 1.), ('add_offset', 'offset', 0.)):
            g = float(getattr(v, a, d))
            if g != e[o]:
                fail(o, '%s = %s instead of %s' % (a, g, e[o]), k)
        t = ds['time']
        u = NAMES.get(t.units.split(' since')[0])
        if u != e['units']:
            fail('units', t.units, k)
        tol = e['scale'] * .51 if e['dtype'][0] == 'i' else .01
        if e['date'] is not None and '%d-%02d-%02d' % (e['date'] // 10000, e['date'] // 100 % 100, e['date'] % 100) not in t.units:
            fail('reference', t.units, k)
        got = [float(x) * SEC.get(u, 1) / 3600 for x in t[:]]
        if len(got) != len(w) or np.abs(np.array(got) - [s for s, _ in w]).max() > .01:
            return fail('steps', '%s instead of %s' % (got, [s for s, _ in w]), k)
        arr = v[:]
        arr = np.where(np.ma.getmaskarray(arr), np.nan, np.ma.getdata(arr).astype(float))
        for a, (s, x) in zip(arr, w):
            x = x.copy()
            if e['vmin'] is not None:
                x[x < e['vmin']] = np.nan
            if e['vmax'] is not None:
                x[x > e['vmax']] = np.nan
            if not np.allclose(a, x, atol=tol, rtol=0, equal_nan=True):
                return fail('values', 'step %s: %s instead of %s' % (s, a.tolist(), x.tolist()), k)
    finally:
        ds.close()


def check_api(case, ws):
    from .. import scene, sut
    bad, runs = [], 0
    opts = case['api']
    keys = {'start': ('start', 'tstart'), 'end': ('end', 'tend'), 'time': ('dataTime', 'dataTime'), 'date': ('dataDate', 'dataDate'), 'member': ('perturbationNumber', 'perturbationNumber'),
            'tables': ('intertableDir', 'intertableDir'), 'geo': ('geopotentialDir', 'geopotentialDir')}

    def fail(what, msg, k=''):
        if what not in {b[0] for b in bad}:
            bad.append((what, '%s: %s' % (k, msg)))
    alph = []
    for o in opts:
        if len(opts) == 1:
            alph.append(list(itertools.product([None, 'absent'] + OPTS[o][3], [None] + OPTS[o][4])))
        else:
            alph.append(list(itertools.product([None, PAIR[o][0]], [None, PAIR[o][1]])))
    for combo in itertools.product(*alph):
        top = {o: c for o, (c, _) in zip(opts, combo) if c not in (None, 'absent')}
        js = {o: j for o, (_, j) in zip(opts, combo) if j is not None}
        absent = [o for o, (c, _) in zip(opts, combo) if c == 'absent']
        e = effective(opts, top, js)
        dims = [o for o in ('date', 'time', 'member') if e[o] is not None]
        k = ('api', top, js, absent)
        geo = 'geo' in opts
        reset(ws, geo)
        path = grib(ws, dims)[0]
        w = expected(ws, e, dims, geo)
        param, interp, kw = {}, {}, {}
        for o, v in js.items():
            (interp if o in ws.dirs else param)[keys[o][1]] = ws.dirs[o][v] if o in ws.dirs and v else v
        for o, v in top.items():
            kw[keys[o][0]] = ws.dirs[o][v] if o in ws.dirs else v
        d = scene.api_dict(path, ws.t, param=param, interp=interp, correction={'formula': 'p+gem-dem', 'gem': 'z*2', 'dem': ws.dem} if geo else None, **kw)
        for o in absent:
            d.pop(keys[o][0], None)
        runs += 1
        sut.forget()
        try:
            got = scene.api(d)
        except Exception as x:
            if w is not None:
                import traceback
                fail('refused', traceback.format_exc()[-500:], k)
            continue
        if w is None:
            fail('not-refused', '%s' % [s for s, _ in got], k)
            continue
        if [int(s.end_step) for s, _ in got] != [s for s, _ in w]:
            fail('steps', '%s instead of %s' % ([int(s.end_step) for s, _ in got], [s for s, _ in w]), k)
        elif not all(np.allclose(a, v, atol=1e-3, equal_nan=True) for (_, a), (_, v) in zip(got, w)):
            fail('values', '%s instead of %s' % (got[0][1].tolist(), w[0][1].tolist()), k)
        if 'tables' in opts:
            where = [x for x in ws.dirs['tables'] if any(f.startswith('tbl') for f in os.listdir(ws.dirs['tables'][x]))]
            if where != [e['tables']]:
                fail('tables', 'table in %s instead of %s' % (where, e['tables']), k)
    return bad, {'evaluations': runs, 'distinct': runs}


def check_outdir(case, ws):
    from .. import sut
    bad = []
    reset(ws, False)
    path, recs = grib(ws, [])
    c = fx.command_json(ws.env.path('cmd.json'), ws.t)
    want = ['2t%s.%03d' % ('0' * 6, i + 1) for i in range(4)]
    for fmt, how in itertools.product(('pcraster', 'netcdf'), ('absolute', 'relative')):
        cwd, back = ws.env.fresh('cwd'), os.getcwd()
        rel = {'new': 'new', 'nested': 'x/y/z', 'existing': 'old', 'slash': 'old/', 'none': None, 'dot': './'}[case['outdir']]
        if how == 'absolute' and (rel is None or rel == './'):
            continue
        if case['outdir'] in ('existing', 'slash'):
            os.makedirs(os.path.join(cwd, 'old'))
        os.chdir(cwd)
        try:
            k, v = sut.cli(['-c', c, '-i', path, '-B', '-l', 'ERROR', '-F', fmt] + ([] if rel is None else ['-o', rel if how == 'relative' else os.path.join(cwd, rel)]))
        finally:
            os.chdir(back)
        names = sorted(os.path.relpath(os.path.join(d, f), cwd) for d, _, fs in os.walk(cwd) for f in fs)
        w = sorted(os.path.normpath(os.path.join(rel or '.', x)) for x in (want if fmt == 'pcraster' else ['2t_None.nc']))
        if (k, v) != ('ret', 0) or names != w:
            bad.append(('outdir', '%s %s: %s %s, %s instead of %s' % (fmt, how, k, v, names, w)))
    return bad, {'evaluations': 4, 'distinct': 4}
