"""C26: user configuration extends and overrides the global one; variables resolve fully."""
import copy
import gzip
import io
import itertools
import json
import os
import shutil

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C26', 'exploration'
TECHNIQUE = ('exhaustive enumeration, on the real tool and API, of variables (form of the reference x field, all pairs of fields, layouts of the .conf files, names) and of the contents of the user and global '
             'configuration files, with every change of the user file between two executions of a process; maps are compared with the ones of literal paths and of a model of the precedence')
NOTE = 'Complete over the stated alphabets. Values that refer to other variables and variables defined twice are not modelled.'
RULE = ('fields (clone, latitudes, longitudes, dem, cdd map, tables and geopotential folders) x form of the reference x layout of the files; pairs of fields; names of variables; '
        'for two keys: (global: none/value) x (user: none/same/other) of parameters, geopotentials and tables; ordered pairs of user states. Non-trivial: a variable or an override is used')
ASSUMPTIONS = ['a variable is defined once', 'values of variables do not refer to variables']
CHUNK = 4
CASE_TIMEOUT = 600

FIELDS = ['clone', 'lat', 'lon', 'dem', 'tables', 'geo', 'cdd']
FILE = {'clone': 'clone.map', 'lat': 'lat.map', 'lon': 'lon.map', 'dem': 'dem.map', 'cdd': 'cdd.nc', 'tables': 'tables', 'geo': 'geo'}
# reference (%(n)s is the name of a variable) and what variables hold
FORMS = {
    'whole': ('{%(n)s}', lambda d, f: {'': d + '/' + f}),
    'folder': ('{%(n)s}/%(f)s', lambda d, f: {'': d}),
    'slash': ('{%(n)s}%(f)s', lambda d, f: {'': d + '/'}),
    'two': ('{%(n)s}/{%(n)s_2}', lambda d, f: {'': d, '_2': f}),
    'adjacent': ('{%(n)s}{%(n)s_2}%(f)s', lambda d, f: {'': os.path.dirname(d) + '/', '_2': os.path.basename(d) + '/'}),
    'middle': ('%(p)s/{%(n)s}/%(f)s', lambda d, f: {'': os.path.basename(d)}),
    'repeated': ('{%(n)s}/../{%(n)s_2}/../{%(n)s_2}/%(f)s', lambda d, f: {'': d, '_2': os.path.basename(d)}),
}
UNDEFINED = {'undefined': '{NOWHERE}', 'undefined-folder': '{NOWHERE}/%(f)s', 'undefined-second': '{%(n)s}/{NOWHERE}', 'undefined-first': '{NOWHERE}/{%(n)s}', 'undefined-longer': '{%(n)sX}/%(f)s', 'undefined-shorter': '{%(s)s}/%(f)s'}
LAYOUTS = ['one', 'split', 'quoted', 'spaces', 'comments', 'no-newline', 'crlf', 'blank-lines', 'decoys', 'reverse', 'with-paths', 'junk']
NAMES = ['D', 'd', 'DATA', '_D', 'D_1', 'D1', 'MapsFolder', 'D__', 'INTERTABLE', 'GEOPOTENTIAL']


def cases(tier):
    q = tier == 'quick'
    forms = list(FORMS) + list(UNDEFINED)
    out = []
    for f in FIELDS:
        for l in LAYOUTS:
            out.append({'fields': [f], 'forms': forms, 'layout': l, 'name': 'DATA'})
        for n in NAMES:
            out.append({'fields': [f], 'forms': forms, 'layout': 'one', 'name': n})
        for folder in ('my maps', 'a=b', 'x#y', 'UPPER'):
            out.append({'fields': [f], 'forms': list(FORMS), 'layout': 'one', 'name': 'DATA', 'folder': folder})
    for a, b in itertools.combinations(FIELDS, 2):
        for x in forms:
            out.append({'fields': [a, b], 'forms': [[x, y] for y in forms], 'layout': 'one', 'name': 'DATA'})
    if not q:
        for c in itertools.combinations(FIELDS, 3):
            for x in forms:
                out.append({'fields': list(c), 'forms': [[x, y, z] for y in forms for z in forms], 'layout': 'split', 'name': 'DATA'})
    for kind in ('parameters', 'geopotentials', 'tables'):
        for g in itertools.product((None, 1), repeat=2):
            out.append({'merge': kind, 'global': list(g)})
            if kind != 'tables':
                out.append({'merge': kind, 'global': list(g), 'edits': True})
    out += [{'merge': 'parameters', 'global': [1, 1], 'user': u} for u in ('missing', 'empty', 'description', 'no-folder')]
    return out


def setup(ws):
    from .. import scene, sut
    ws.env = scene.Env(ws)
    ws.grid, ws.grid2 = fx.Grid(6, 5, 50, 0), fx.Grid(5, 5, 50, 0)
    d = ws.dir('src')
    ws.inp = fx.write_grib(os.path.join(d, 'in.grib'), [fx.grib_message(ws.grid, 280 + np.arange(30.), end=6)])
    ws.inp2 = fx.write_grib(os.path.join(d, 'in2.grib'), [fx.grib_message(ws.grid2, 180 + np.arange(25.), end=6)])
    ws.refs = {}
    ws.folders = {}
    # ids of the grids
    for i, g in enumerate((ws.grid, ws.grid2)):
        p = fx.write_grib(os.path.join(d, 'g%d.grib' % i), [dict(grid=g, values=np.arange(float(g.n)), short='z', end=0)])
        assert sut.cli(['-g', p, '-l', 'ERROR']) == ('ret', 0)
    reg = json.load(open(os.path.join(ws.env.conf, 'geopotentials.json')))
    ws.ids = [k for w in ('g0.grib', 'g1.grib') for k, v in reg.items() if v == w]
    ws.gl = os.path.join(os.getcwd(), 'configuration', 'global')


def data(ws, name, k):
    """a folder of maps; k makes them differ"""
    key = name, k
    if key in ws.folders:
        return ws.folders[key]
    p = os.path.join(ws.dir('maps%d' % k), name)
    os.makedirs(p)
    m = np.zeros((3, 3), bool)
    m[k, 1] = True
    t = fx.Target.regular(p, 't', 3, 3, 49.3 - .9 * k, .4 + .8 * k, clone_mask=m)
    for s, n in ((t.lat_map, 'lat.map'), (t.lon_map, 'lon.map'), (t.clone, 'clone.map')):
        shutil.move(s, os.path.join(p, n))
    fx.write_pcr(os.path.join(p, 'dem.map'), np.full((3, 3), 10. + 5 * k), *t.origin, 1.)
    fx.write_nc_template(os.path.join(p, 'cdd.nc'), 49.3 - np.arange(3.), .4 + np.arange(3.), data=np.full((3, 3), 150. + 400 * k))
    os.makedirs(os.path.join(p, 'tables'))
    os.makedirs(os.path.join(p, 'geo'))
    fx.write_grib(os.path.join(p, 'geo', 'geo.grib'), [dict(grid=ws.grid, values=np.arange(30.) * (100 + 300 * k), short='z', end=0)])
    ws.folders[key] = p
    return p


def conf_files(ws, layout, var):
    """write the .conf files"""
    c = ws.env.conf
    os.unlink(os.path.join(c, 'paths.conf'))
    base = [('INTERTABLES', ws.env.tables), ('GEOPOTENTIALS', ws.env.geo)]
    out = {'paths.conf': ''.join('%s=%s\n' % x for x in base)}
    items = list(var.items())
    if layout == 'split':
        for i, (k, v) in enumerate(items):
            out['f%d.conf' % i] = '%s=%s\n' % (k, v)
    elif layout == 'quoted':
        out['my.conf'] = ''.join('%s="%s"\n' % x for x in items)
    elif layout == 'spaces':
        out['my.conf'] = ''.join('  %s =\t %s  \n' % x for x in items)
    elif layout == 'comments':
        out['my.conf'] = '# my maps\n' + ''.join('#%s=/nowhere\n%s=%s\n # %s=/wrong\n' % (k, k, v, k) for k, v in items) + '#end'
    elif layout == 'no-newline':
        out['my.conf'] = '\n'.join('%s=%s' % x for x in items)
    elif layout == 'crlf':
        out['my.conf'] = ''.join('%s=%s\r\n' % x for x in items)
    elif layout == 'blank-lines':
        out['my.conf'] = '\n\n' + '\n \n\t\n'.join('%s=%s' % x for x in items) + '\n\n'
    elif layout == 'reverse':
        out['zz.conf'] = ''.join('%s=%s\n' % x for x in items[::-1])
    elif layout == 'with-paths':
        out['paths.conf'] += ''.join('%s=%s\n' % x for x in items)
    elif layout == 'junk':
        out['my.conf'] = 'some words\n' + ''.join('%s=%s\n' % x for x in items) + 'more\n=\nEMPTY=\n'
    else:
        out['my.conf'] = ''.join('%s=%s\n' % x for x in items)
    if layout == 'decoys':
        for n in ('my.conf.bak', 'my.conf~', 'conf', 'my.cfg', 'my.json.old'):
            out[n] = ''.join('%s=/nowhere\n' % k for k, _ in items) + 'NOWHERE=/tmp\n'
        os.makedirs(os.path.join(c, 'folder.conf'), exist_ok=True)
        out['folder.conf/x.conf'] = ''.join('%s=/nowhere\n' % k for k, _ in items) + 'NOWHERE=/tmp\n'
    for n, text in out.items():
        with open(os.path.join(c, n), 'w', newline='') as f:
            f.write(text)


def user_files(ws):
    """what the user wrote"""
    out = {}
    for r, _, fs in os.walk(ws.env.conf):
        for f in fs:
            p = os.path.join(r, f)
            if not (f.endswith(('.lock', '.tmp')) or f in ('intertables.json', 'ftp.json')):
                out[os.path.relpath(p, ws.env.conf)] = open(p, 'rb').read()
    return out


def execute(ws, paths, with_cdd, api):
    """(kind, value, messages, maps, where tables were created)"""
    from .. import sut
    from .c19_failures import Records
    import logging
    tdirs = {k: paths[k] for k in ('tables', 'geo')}
    mode = 'cdd' if with_cdd else 'nearest'
    interp = {'@mode': mode, '@latMap': paths['lat'], '@lonMap': paths['lon'], '@intertableDir': tdirs['tables'], '@geopotentialDir': tdirs['geo']}
    if with_cdd:
        interp.update({'@cdd_map': paths['cdd'], '@cdd_mode': 'MixHofstraShepard'})
    param = {'@shortName': '2t'}
    if not with_cdd:
        param.update({'@correctionFormula': 'p+gem-dem', '@gem': 'z*0.01', '@demMap': paths['dem']})
    c = {'Execution': {'@name': 'x', 'Parameter': param, 'OutMaps': {'@cloneMap': paths['clone'], '@unitTime': '24', 'Interpolation': interp}}}
    out = ws.env.fresh('out')
    h = Records()
    root = logging.getLogger()
    root.addHandler(h)
    was = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        if api:
            from pyg2p.main.api import Pyg2pApi, ApiContext

            def strip(x):
                return {k.lstrip('@'): strip(v) if isinstance(v, dict) else v for k, v in x.items()}
            d = strip(c['Execution'])
            d.update({'inputFile': ws.inp, 'createIntertable': True, 'interpolationParallel': False, 'loggerLevel': 'ERROR', 'fmap': 1, 'ext': 1, 'start': None, 'end': None})
            try:
                a = Pyg2pApi(ApiContext(d))
                r = a.execute()
                v = np.array(list(r.values())[0], float)
                return 'ret', 0, [], np.where((v == a.mv) | (v <= -1e38), np.nan, v)
            except Exception as e:
                from pyg2p.exceptions import ApplicationException
                if isinstance(e, ApplicationException):
                    return 'ret', 1, [str(e)], None
                return 'exc', e, [], None
        k, v = sut.cli(['-c', fx.write_json(ws.env.path('cmd.json'), c), '-i', ws.inp, '-o', out, '-B', '-l', 'ERROR'])
    finally:
        logging.disable(was)
        root.removeHandler(h)
    names = sorted(os.listdir(out))
    return k, v, h.messages, fx.read_pcr(os.path.join(out, names[0]))[0] if names else None


def same(a, b):
    return a is not None and b is not None and a.shape == b.shape and np.allclose(a, b, atol=1e-4, equal_nan=True)


def clean(ws, folders):
    for p in folders:
        for f in os.listdir(os.path.join(p, 'tables')):
            os.unlink(os.path.join(p, 'tables', f))


def check_variables(case, ws):
    bad, n = [], 0
    fields = case['fields']
    with_cdd = 'cdd' in fields
    if with_cdd and ('dem' in fields or 'geo' in fields):
        fields = [f for f in fields if f not in ('dem', 'geo')]
    name = case.get('folder', 'm')
    dirs = [data(ws, name, 0), data(ws, name, 1)]
    home = {'geopotentials.json': {ws.ids[0]: 'geo.grib'}}
    for forms in case['forms']:
        forms = [forms] if isinstance(forms, str) else forms
        used = dict(zip(case['fields'], forms))
        k = {f: int(f in fields) for f in FIELDS}
        paths = {f: dirs[k[f]] + '/' + FILE[f] for f in FIELDS}
        for api in (False, True):
            key = (name, tuple(sorted(k.items())), api, with_cdd)
            if key not in ws.refs:
                ws.env.reset()
                clean(ws, dirs)
                fx.write_json(os.path.join(ws.env.conf, 'geopotentials.json'), home['geopotentials.json'])
                r = execute(ws, paths, with_cdd, api)
                assert r[:2] == ('ret', 0), r
                ws.refs[key] = r[3]
            var, refs, missing = {}, dict(paths), []
            for i, f in enumerate(fields):
                form = used[f]
                nm = case['name'] + ('' if i == 0 else '_B' * i)
                args = {'n': nm, 'f': FILE[f], 'p': os.path.dirname(dirs[1]), 's': nm[:-1] or 'Q'}
                if form in UNDEFINED:
                    refs[f] = UNDEFINED[form] % args
                    var[nm] = dirs[1]
                    missing.append({'undefined-longer': nm + 'X', 'undefined-shorter': args['s']}.get(form, 'NOWHERE'))
                else:
                    refs[f] = FORMS[form][0] % args
                    for suffix, v in FORMS[form][1](dirs[1], FILE[f]).items():
                        var[nm + suffix] = v
            missing = [m for m in missing if m not in var]
            ws.env.reset()
            clean(ws, dirs)
            conf_files(ws, case['layout'], var)
            fx.write_json(os.path.join(ws.env.conf, 'geopotentials.json'), home['geopotentials.json'])
            before = user_files(ws)
            kind, value, msgs, got = execute(ws, refs, with_cdd, api)
            n += 1
            what = '%s %s, %s' % ('API' if api else 'command', {f: refs[f] for f in fields}, var)
            after = user_files(ws)
            if before != after:
                bad.append(('changed', '%s: %s' % (what, sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x)))))
            if missing:
                if (kind, value) != ('ret', 1) or got is not None:
                    bad.append(('undefined', '%s: %s %s %s' % (what, kind, value, 'maps' if got is not None else '')))
                elif not any(m in x for m in missing for x in msgs):
                    bad.append(('unnamed', '%s: %s' % (what, msgs)))
            elif any(used[f] in UNDEFINED for f in fields):
                pass    # the name is one of another field
            else:
                if (kind, value) != ('ret', 0):
                    bad.append(('variables', '%s: %s %s %s' % (what, kind, getattr(value, 'tb', value), msgs)))
                elif not same(got, ws.refs[key]):
                    bad.append(('maps', '%s: %s instead of %s' % (what, got, ws.refs[key])))
                if 'tables' in fields and not os.listdir(os.path.join(dirs[1], 'tables')) or os.listdir(os.path.join(dirs[0 if 'tables' in fields else 1], 'tables')):
                    bad.append(('tables', '%s: %s' % (what, [os.listdir(os.path.join(x, 'tables')) for x in dirs])))
            if len(bad) > 3:
                return bad, {'evaluations': n, 'distinct': n}
    return bad, {'evaluations': n, 'distinct': n}


# ---- entries of the configuration files
def parameter(short, i):
    p = copy.deepcopy(fx.PARAMETERS['2t'])
    p['@shortName'] = short
    p['@unit'] = 'K%d' % i
    p['Conversion'] = {'@id': 'conv', '@function': 'x=x*0+%d' % i, '@unit': 'u%d' % i, '@cutOffNegative': 'False'}
    return p


class Merge:
    """Two keys; what is global and what is of the user."""

    def __init__(self, ws, kind):
        from .. import scene
        self.ws, self.kind = ws, kind
        self.t = getattr(ws, 'merge_target', None) or fx.Target.regular(ws.dir('mtgt'), 't', 2, 2, 49.3, .4)
        ws.merge_target = self.t
        self.scene = scene
        self.glob_tables, self.glob_geo = ws.dir('globtables'), ws.dir('globgeo')
        if kind == 'geopotentials':
            self.dem = fx.write_pcr(os.path.join(ws.dir('mtgt'), 'dem.map'), np.zeros((2, 2)), *self.t.origin, 1.)
        if kind == 'tables':
            self.make_tables()

    def make_tables(self):
        """ids and contents of the tables of both inputs"""
        if hasattr(self.ws, 'merge_tables'):
            self.ids, self.content = self.ws.merge_tables
            return
        e = self.ws.env
        self.ids, self.content = [], []
        for i in (0, 1):
            e.reset()
            r = self.scene.run(e, (self.ws.inp, self.ws.inp2)[i], self.t)
            assert r.ok, r.error
            reg = {k: v for k, v in json.load(open(os.path.join(e.conf, 'intertables.json'))).items() if isinstance(v, dict)}
            (k, v), = reg.items()
            self.ids.append((k, v))
            p = os.path.join(e.tables, v['filename'])
            p = p if os.path.exists(p) else p + '.gz'
            self.content.append(np.load(gzip.open(p)))
        self.ws.merge_tables = self.ids, self.content

    def entry(self, i, v):
        """entry of the key i with the value v"""
        if self.kind == 'parameters':
            return ('2t', 'sp')[i], parameter(('2t', 'sp')[i], 10 * i + v)
        if self.kind == 'geopotentials':
            return self.ws.ids[i], 'z%d%d.grib' % (i, v)
        k, e = self.ids[i]
        return k, dict(e, filename='table%d%d.npy.gz' % (i, v))

    def prepare(self, glob):
        ws, e = self.ws, self.ws.env
        shutil.rmtree(ws.gl, ignore_errors=True)
        e.reset()
        os.makedirs(ws.gl)
        fx.write_json(os.path.join(ws.gl, 'global_conf.json'), {'intertables': self.glob_tables, 'geopotentials': self.glob_geo})
        g = dict(self.entry(i, v) for i, v in enumerate(glob) if v)
        if self.kind == 'parameters':
            fx.write_json(os.path.join(ws.gl, 'parameters.json'), dict(g, other=parameter('other', 99)))
        else:
            fx.write_json(os.path.join(ws.gl, 'geopotentials.json' if self.kind == 'geopotentials' else 'intertables.json'), g)
        for i, v in itertools.product((0, 1), (1, 2)):
            if self.kind == 'geopotentials':
                grid = (ws.grid, ws.grid2)[i]
                fx.write_grib(os.path.join(self.glob_geo if v == 1 else e.geo, 'z%d%d.grib' % (i, v)), [dict(grid=grid, values=np.full(grid.n, 100. * (10 * i + v)), short='z', end=0)])
            if self.kind == 'tables':
                c = self.content[i].copy()
                c['indexes'] = 10 * i + v       # all cells have the value of this point
                b = io.BytesIO()
                np.save(b, c)
                with gzip.open(os.path.join(self.glob_tables if v == 1 else e.tables, 'table%d%d.npy.gz' % (i, v)), 'wb') as f:
                    f.write(b.getvalue())

    def user(self, values, description=False):
        d = dict(self.entry(i, v) for i, v in enumerate(values) if v)
        if description:
            d['description'] = 'mine'
        p = os.path.join(self.ws.env.conf, {'parameters': 'parameters.json', 'geopotentials': 'geopotentials.json', 'tables': 'intertables.json'}[self.kind])
        with open(p, 'w') as f:
            f.write(json.dumps(d))
        return p

    def look(self, i):
        """value found for the key i: None or 1, 2"""
        ws, e = self.ws, self.ws.env
        inp = (ws.inp, ws.inp2)[i]
        if self.kind == 'parameters':
            if i == 1:
                inp = getattr(ws, 'sp', None) or fx.write_grib(ws.env.path('..', 'sp.grib'), [fx.grib_message(ws.grid, 1000 + np.arange(30.), short='sp', end=6)])
                ws.sp = inp
            r = self.scene.run(e, inp, self.t, fmt='netcdf', short=('2t', 'sp')[i], conversion='conv')
            if not r.ok:
                return None if (r.kind, r.value) == ('ret', 1) else r.error
            d = r.nc()
            v = float(d['values'].flat[0]) - 10 * i
            if d['attrs'].get('units') != 'u%d' % (v + 10 * i):
                return 'units %s with %s' % (d['attrs'].get('units'), v)
            return v
        if self.kind == 'geopotentials':
            r = self.scene.run(e, inp, self.t, correction={'formula': 'p*0+gem', 'gem': 'z/100', 'dem': self.dem})
            if not r.ok:
                return None if (r.kind, r.value) == ('ret', 1) else r.error
            return round(float(r.maps()[0].flat[0]), 3) - 10 * i
        r = self.scene.run(e, inp, self.t, create=False)
        if not r.ok:
            return None if (r.kind, r.value) == ('ret', 1) else r.error
        return float(r.maps()[0].flat[0]) - (280, 180)[i] - 10 * i


def effective(g, u):
    return u or g


def check_merge(case, ws):
    from .. import sut
    m = Merge(ws, case['merge'])
    bad, n = [], 0
    glob = case['global']
    states = list(itertools.product((None, 1, 2), repeat=2))

    def expect(what, user, i):
        nonlocal n
        n += 1
        got, want = m.look(i), effective(glob[i], user[i])
        if got != want:
            bad.append(('merge', '%s, key %d: %s instead of %s' % (what, i, got, want)))
    if 'user' in case:
        m.prepare(glob)
        p = os.path.join(ws.env.conf, 'parameters.json')
        u = case['user']
        os.unlink(p)
        if u == 'no-folder':
            shutil.rmtree(ws.env.conf)
            # (no variables: tables are only found, not created)
            os.makedirs(ws.env.conf)
            fx.make_home(ws.env.home, intertables=ws.env.tables, parameters=None)
        if u == 'empty':
            fx.write_json(p, {})
        if u == 'description':
            fx.write_json(p, {'description': 'mine'})
        sut.forget()
        for again in (0, 1):
            for i in (0, 1):
                expect('%s %d' % (u, again), [None, None], i)
            d = json.load(open(p))
            if u in ('empty', 'description'):
                if d != ({} if u == 'empty' else {'description': 'mine'}):
                    bad.append(('changed', '%s: %s' % (u, d)))
            elif set(d) & {'2t', 'sp', 'other'}:
                bad.append(('changed', '%s: global entries in the file of the user: %s' % (u, sorted(d))))
        return bad, {'evaluations': n, 'distinct': n}
    if case.get('edits'):
        m.prepare(glob)
        for a, b in itertools.permutations(states, 2):
            sut.forget()
            for k, u in enumerate((a, b)):
                p = m.user(u)
                text = open(p).read()
                for i in (0, 1):
                    expect('global %s user %s%s' % (glob, u, ' after %s' % (a,) if k else ''), u, i)
                if open(p).read() != text:
                    bad.append(('changed', 'global %s user %s: %s' % (glob, u, open(p).read())))
            if bad:
                break
        return bad[:4], {'evaluations': n, 'distinct': n}
    for u in states:
        for description in (False, True):
            m.prepare(glob)
            p = m.user(u, description)
            text = open(p).read()
            for i in (0, 1):
                sut.forget()
                expect('global %s user %s' % (glob, u), u, i)
            if open(p).read() != text:
                bad.append(('changed', 'global %s user %s: %s' % (glob, u, open(p).read())))
    return bad[:4], {'evaluations': n, 'distinct': n}


def check(case, ws):
    try:
        return check_merge(case, ws) if 'merge' in case else check_variables(case, ws)
    finally:
        shutil.rmtree(ws.gl, ignore_errors=True)
