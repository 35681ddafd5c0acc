"""C30: how the place of a file is written does not matter."""
import itertools
import os
import shutil

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C30', 'exploration'
TECHNIQUE = ('exhaustive enumeration of files and folders of an execution x ways of writing their path (and of pairs of them, of working folders and of sequences of working folders) on the real tool and API; '
             'relational oracle: results and files left are those of the execution with plain absolute paths')
NOTE = 'Complete over the stated files, forms and entry points; what is read and written is on the real file system of the scratch folder.'
RULE = ('file or folder of the request (command file, inputs, maps, geopotential, folders of tables, geopotentials and output, given as option, in the command file or in the user configuration) x form of its path '
        '(relative to the working folder in several ways, symbolic links to it or to its folder, spaces, signs, letters of other alphabets, no extension, dots, doubled or trailing slashes), all in one form, pairs in different forms, '
        'x request x entry point; sequences of two executions with the same relative paths from two working folders. Non-trivial: all')
ASSUMPTIONS = ['braces in a path are references to variables', 'what a netCDF map is, is told by its extension']
CHUNK = 4

DIRS = ['out', 'tables', 'altgeo', 'conf-tables', 'conf-geo']
FORMS = ['relative', 'dot', 'parent', 'space', 'letters', 'signs', 'glob', 'dots', 'noext', 'upper', 'link', 'linked-folder', 'double']
DIRFORMS = [f for f in FORMS if f not in ('noext', 'upper')] + ['slash', 'slash-relative', 'dot-slash']
NAMES = {'cmd': 'cmd.json', 'input': 'a.grib', 'input2': 'second.grib', 'series': 'series.grib', 'geo': 'geo.grib', 'lat': 'lat.map', 'lon': 'lon.map', 'clone': 'clone.map', 'dem': 'dem.map',
         'out': 'out', 'tables': 'alttables', 'altgeo': 'altgeo', 'conf-tables': 'tables', 'conf-geo': 'geopotentials'}
SPECIAL = {'space': 'a b', 'letters': 'été-Ω-中', 'signs': "it's (1) #%&+=,;@~!$^", 'glob': '*x?[y]', 'dots': 'v1.nc.gz..d'}
REQUESTS = {
    'plain': dict(items=['cmd', 'input', 'lat', 'lon', 'clone', 'out', 'conf-tables'], fmt='pcraster'),
    'netcdf': dict(items=['cmd', 'input', 'lat', 'lon', 'clone', 'out', 'conf-tables'], fmt='netcdf'),
    'correction': dict(items=['cmd', 'input', 'dem', 'geo', 'conf-geo', 'lat', 'lon'], fmt='pcraster', correction=True),
    'options': dict(items=['input', 'input2', 'tables', 'altgeo', 'dem', 'out'], fmt='netcdf', correction=True, options=True),
    'in-file': dict(items=['cmd', 'tables', 'altgeo', 'dem'], fmt='netcdf', correction=True, options=True, infile=True),
    'grib': dict(items=['cmd', 'input', 'input2', 'lat', 'lon', 'conf-tables'], fmt='netcdf', mode='grib_invdist', second=True),
    'series': dict(items=['cmd', 'series', 'out'], fmt='pcraster', series=True),
    'api': dict(items=['input', 'input2', 'tables', 'altgeo', 'dem', 'lat', 'lon', 'clone'], api=True, correction=True, options=True),
    'builder': dict(items=['cmd', 'input', 'input2', 'tables', 'out'], fmt='netcdf', builder=True, second=True, tables=True),
}


def forms(item):
    return DIRFORMS if item in DIRS else FORMS


def cases(tier):
    q = tier == 'quick'
    out = []
    for r, d in REQUESTS.items():
        for i in d['items']:
            out += [{'request': r, 'forms': {i: f}} for f in forms(i)]
        for f in FORMS:
            out.append({'request': r, 'forms': {i: f if f in forms(i) else 'relative' for i in d['items']}})
        few = ['relative', 'space', 'link', 'signs'] if q else FORMS
        for a, b in itertools.combinations(d['items'], 2):
            out += [{'request': r, 'forms': {a: f, b: g}} for f in few for g in few if f != g and f in forms(a) and g in forms(b)]
        for w in ('other', 'root', 'data'):
            out.append({'request': r, 'forms': {i: 'relative' for i in d['items']}, 'cwd': w})
    for r in REQUESTS:
        for items in ([[i] for i in REQUESTS[r]['items']] + [REQUESTS[r]['items']]):
            out.append({'two': r, 'items': items})
    return out


GRID, GRID2 = fx.Grid(5, 4, 50, 0), fx.Grid(9, 7, 50, 0, .5, .5)


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.base = ws.dir('place')
    ws.memo = {}


def files(ws, work, k):
    """The files of the requests under a working folder; k tells two sets of them apart."""
    d = os.path.join(work, 'data')
    t = fx.Target.regular(d, 'x', 3, 4, 49.5, 0.5 + k * .25)
    for n, p in (('lat', t.lat_map), ('lon', t.lon_map), ('clone', t.clone)):
        os.rename(p, os.path.join(d, n + '.map'))
    if k:
        fx.write_pcr(os.path.join(d, 'clone.map'), np.ones((3, 4)), *t.origin, 1., mask=np.arange(12).reshape(3, 4) == 5)
    fx.write_pcr(os.path.join(d, 'dem.map'), np.arange(12.).reshape(3, 4) * 10 + k, *t.origin, 1.)
    v = np.arange(float(GRID.n)) ** 2 + 300 * k
    fx.write_grib(os.path.join(d, 'a.grib'), [dict(grid=GRID, values=v + s, end=s) for s in (6, 12)])
    fx.write_grib(os.path.join(d, 'second.grib'), [dict(grid=GRID2, values=np.arange(float(GRID2.n)) + 100 * k + s, end=s) for s in (18, 24)])
    # (totals since the start in two resolutions, of two members)
    fx.write_grib(os.path.join(d, 'series.grib'), [dict(grid=g, values=np.arange(float(g.n)) * (m + k + 1) + s, short='tp', step_type='accum', end=s, edition=2, pert=m)
                                                   for m in (1, 2) for g, s in ((GRID, 6), (GRID, 12), (GRID, 18), (GRID2, 18), (GRID2, 24))])
    fx.write_grib(os.path.join(d, 'geo.grib'), [dict(grid=GRID, values=v * 2 + 7, short='z', end=0)])
    os.makedirs(os.path.join(d, 'altgeo'))
    for n, g in (('geo.grib', GRID),):
        fx.write_grib(os.path.join(d, 'altgeo', n), [dict(grid=g, values=np.arange(float(g.n)) * 3 + k, short='z', end=0)])
    for n in ('out', 'alttables', 'tables', 'geopotentials'):
        os.makedirs(os.path.join(d, n))
    return d


def place(work, item, form):
    """Puts the file (folder) of the request where the form wants it, returns its path as written and where it is."""
    d, n = os.path.join(work, 'data'), NAMES[item]
    p = os.path.join(d, n)
    plain = form is None or form in ('relative', 'dot', 'parent', 'double', 'slash', 'slash-relative', 'dot-slash', 'link', 'linked-folder')
    if not plain:
        if form in SPECIAL:
            q = os.path.join(work, SPECIAL[form], SPECIAL[form] + ' ' + n if form == 'space' else SPECIAL[form] + n)
        else:
            stem, ext = os.path.splitext(n)
            q = os.path.join(work, form, stem if form == 'noext' else n.upper())
        os.makedirs(os.path.dirname(q), exist_ok=True)
        os.rename(p, q) if os.path.exists(p) else None
        return q, q
    if form == 'link':
        q = os.path.join(work, 'links', 'l_' + n)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        os.symlink(p, q)
        return q, p
    if form == 'linked-folder':
        q = os.path.join(work, 'linked')
        if not os.path.islink(q):
            os.symlink(d, q)
        return os.path.join(q, n), p
    w = {None: p, 'relative': 'data/' + n, 'dot': './data/' + n, 'parent': '../%s/data/%s' % (os.path.basename(work), n), 'double': '%s//data//%s' % (work, n),
         'slash': p + '/', 'slash-relative': 'data/%s/' % n, 'dot-slash': './data/%s/' % n}[form]
    return w, p


def execute(ws, work, request, form, cwd=None):
    """The request with these forms of paths, from the working folder; what it gives and leaves."""
    from .. import scene, sut
    r = REQUESTS[request]
    where = {i: place(work, i, form.get(i)) for i in NAMES}
    if cwd:
        base = {'other': os.path.join(ws.base, 'elsewhere', 'deep'), 'root': '/', 'data': os.path.join(work, 'data')}[cwd]
        os.makedirs(base, exist_ok=True)
        where = {i: (os.path.relpath(w if os.path.isabs(w) else os.path.join(work, w), base) if i in form else w, p) for i, (w, p) in where.items()}
    else:
        base = work
    w = {i: x[0] for i, x in where.items()}
    real = {i: x[1] for i, x in where.items()}
    e = ws.env
    tables, geos = w['conf-tables'], w['conf-geo']
    with open(os.path.join(e.conf, 'paths.conf'), 'w') as f:
        f.write('INTERTABLES=%s\nGEOPOTENTIALS=%s\n' % (tables, geos))
    cor = {'formula': 'p+gem-dem', 'gem': 'z*0.1', 'dem': w['dem']} if r.get('correction') else None
    interp = {}
    if r.get('infile'):
        interp = {'@intertableDir': w['tables'], '@geopotentialDir': w['altgeo']}
    t = fx.Target.__new__(fx.Target)
    t.lat_map, t.lon_map, t.clone = w['lat'], w['lon'], w['clone']
    here = os.getcwd()
    os.chdir(base)
    try:
        out = {}
        if r.get('correction'):
            out['add'] = sut.cli(['-g', w['geo'], '-l', 'ERROR'])
        if r.get('api'):
            from pyg2p.main.api import ApiContext, Pyg2pApi
            top = {'intertableDir': w['tables'], 'geopotentialDir': w['altgeo'], 'inputFile2': w['input2']} if not r.get('correction') else {'intertableDir': w['tables'], 'geopotentialDir': w['altgeo']}
            d = scene.api_dict(w['input'], t, correction=cor, **top)
            try:
                api = Pyg2pApi(ApiContext(d))
                res = api.execute()
                out['maps'] = {'%s' % k.end_step: {'values': np.where((np.array(v, float) == api.mv) | (np.array(v, float) <= -1e38), np.nan, np.array(v, float))} for k, v in res.items()}
                out['end'] = 'ret', 0
            except Exception as x:
                out['end'] = 'exc', '%s %s' % (type(x).__name__, x)
        else:
            fx.command_json(real['cmd'], t, mode=r.get('mode', 'nearest'), correction=cor, interp=interp)
            if r.get('series'):
                fx.command_json(real['cmd'], t, mode='nearest', short='tp', aggregation={'@type': 'accumulation', '@step': '6'})
            args = {'-c': w['cmd'], '-i': w['series' if r.get('series') else 'input'], '-o': w['out'], '-F': r['fmt'], '-l': 'ERROR'}
            if r.get('second'):
                args['-I'] = w['input2']
            if r.get('series'):
                args.update({'-s': 12, '-e': 24, '-m': 2})
            if r.get('options') and not r.get('infile'):
                args.update({'-N': w['tables'], '-G': w['altgeo']})
            if r.get('tables'):
                args['-N'] = w['tables']
            if r.get('builder'):
                from pyg2p.main.api import command, run_command
                c = command().with_cmdpath(args['-c']).with_inputfile(args['-i']).with_outdir(args['-o']).with_out_format(args['-F']).with_create_intertable()
                c = c.with_second_input_file(args['-I']).with_intertable_dir(args['-N']).with_log_level('ERROR')
                try:
                    end = 'ret', run_command(c)
                except SystemExit as x:
                    end = 'exit', x.code
                except Exception as x:
                    end = 'exc', x
            else:
                end = sut.cli([x for kv in args.items() for x in kv] + ['-B'])
            out['end'] = end[0], end[1] if end[0] != 'exc' else '%s %s' % (type(end[1]).__name__, end[1])
            out['maps'] = {}
            for n in sorted(os.listdir(real['out'])):
                p = os.path.join(real['out'], n)
                if n.endswith('.nc'):
                    x = scene.read_nc(p)
                    out['maps'][n] = {k: x[k] for k in ('values', 'time', 'units', 'lat', 'lon')}
                else:
                    a = fx.read_pcr(p)
                    out['maps'][n] = {'values': a[0]}
    finally:
        os.chdir(here)
    from .c12_registry import content
    # tables are named after the input: how many there are in each folder, and what they hold
    out['tables'] = {i: sorted(str(content(os.path.join(real[i], f))) for f in os.listdir(real[i])) for i in ('tables', 'conf-tables')}
    out['geopotentials'] = len(os.listdir(real['conf-geo']))
    return out


def fresh(ws, name='work', k=0):
    work = os.path.join(ws.base, name)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    files(ws, work, k)
    return work


def check(case, ws):
    from .. import execs

    def reference(request, k=0):
        if (request, k) not in ws.memo:
            ws.env.reset()
            x = execute(ws, fresh(ws, k=k), request, {})
            assert x['end'] == ('ret', 0), x
            ws.memo[request, k] = x
        return ws.memo[request, k]
    bad = []
    if 'two' in case:
        # the same relative paths, from two working folders, in one process
        request = case['two']
        ref = [reference(request, k) for k in (0, 1)]
        assert execs.difference(ref[0]['maps'], ref[1]['maps'])
        ws.env.reset()
        works = [fresh(ws, 'work%d' % k, k) for k in (0, 1)]
        form = {i: 'relative' for i in case['items']}
        n = 0
        for k in (0, 1, 0):
            # (the user configuration is another one in each place)
            ws.env.reset_files()
            for f in ('out', 'tables', 'alttables', 'geopotentials'):
                p = os.path.join(works[k], 'data', f)
                shutil.rmtree(p)
                os.makedirs(p)
            n += 1
            x = execute(ws, works[k], request, form)
            d = execs.difference(x['end'], ref[k]['end']) or execs.difference(x.get('maps'), ref[k]['maps'])
            if d:
                bad.append(('other-folder', '%s from folder %d, execution %d: %s' % (case, k, n, d)))
        return bad[:2], {'evaluations': n, 'distinct': n}
    ref = reference(case['request'])
    ws.env.reset()
    x = execute(ws, fresh(ws), case['request'], case['forms'], case.get('cwd'))
    for k in ('end', 'add', 'maps', 'tables', 'geopotentials'):
        d = execs.difference(x.get(k), ref.get(k))
        if d:
            bad.append((k, '%s: %s' % (case, d)))
            break
    return bad
