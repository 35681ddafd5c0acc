"""C19: what cannot be done ends in a non-zero status with a message and without maps."""
import copy
import itertools
import logging
import os
import shutil

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C19', 'exploration'
TECHNIQUE = ('exhaustive injection of every defect of a catalogue (inputs, options, command file, configuration, maps, folders) and of all pairs of defects in otherwise valid set-ups, on the real tool; '
             'status, messages and output folder are checked')
NOTE = 'Complete over the catalogue of defects and set-ups, single and in pairs. A defect that makes no messages match may end with status zero and no maps, as documented.'
RULE = ('set-up (method, correction, aggregation, second input, cdd, netCDF, existing table) x each defect that applies to it; all pairs of defects. Non-trivial: all')
ASSUMPTIONS = ['errors that the tool does not declare (e.g. damaged GRIB files) may end with a traceback of the process, which has a non-zero status', 'the tool runs as root: folders cannot be made unwritable, files in the way are used']
CHUNK = 2
CASE_TIMEOUT = 800

SETUPS = ['nearest', 'grib_nearest', 'grib_invdist', 'invdist', 'correction', 'accumulation', 'average', 'netcdf', 'cdd', 'second', 'table', 'conversion', 'api_less']
SETUPS = SETUPS[:-1]


class Scenario:
    def __init__(self, ws, setup):
        self.ws, self.setup = ws, setup
        ws.env.reset()
        t = ws.t
        self.param = {'@shortName': '2t'}
        self.interp = {'@latMap': t.lat_map, '@lonMap': t.lon_map, '@mode': setup if setup in ('nearest', 'grib_nearest', 'grib_invdist', 'invdist', 'cdd') else 'nearest'}
        self.out = {'@cloneMap': t.clone, '@unitTime': '24', 'Interpolation': self.interp}
        self.agg = None
        self.json = {'Execution': {'@name': 'x', 'Parameter': self.param, 'OutMaps': self.out}}
        self.outdir = ws.env.fresh('out')
        self.args = {'-c': ws.env.path('cmd.json'), '-i': ws.inp, '-o': self.outdir, '-B': None, '-l': 'ERROR'}
        self.maps = 4
        if setup == 'correction':
            self.param.update({'@correctionFormula': 'p+gem*0.0065-dem*0.0065', '@gem': '(z/9.81)', '@demMap': ws.dem})
            shutil.copy(ws.geofile, ws.env.geo)
            fx.write_json(os.path.join(ws.env.conf, 'geopotentials.json'), {ws.grid_id: 'geo.grib'})
        if setup == 'accumulation':
            self.param['@shortName'] = 'tp'
            self.args['-i'] = ws.acc
            self.agg = {'@step': 6, '@type': 'accumulation'}
            self.maps = 3
        if setup == 'average':
            self.agg = {'@step': 6, '@type': 'average', '@halfweights': True}
            self.maps = 3
        if self.agg:
            self.json['Execution']['Aggregation'] = self.agg
        if setup == 'netcdf':
            self.args['-F'] = 'netcdf'
            self.maps = 1
        if setup == 'cdd':
            self.interp.update({'@cdd_map': ws.cdd, '@cdd_mode': 'MixHofstraShepard', '@cdd_options': {'m_const': 4, 'min_num_of_station': 4, 'radius_ratio': 1 / 3, 'weights_mode': 'All'}})
        if setup == 'second':
            self.args['-I'] = ws.inp2
            self.maps = 6
        if setup == 'conversion':
            self.param['@applyConversion'] = 'k2c'
        if setup == 'table':
            from .. import sut
            self.write()
            assert sut.cli(self.argv()) == ('ret', 0)
            self.outdir = self.args['-o'] = ws.env.fresh('out')
            del self.args['-B']
            sut.forget()
        self.raw = None

    def write(self):
        with open(self.ws.env.path('cmd.json'), 'w') as f:
            if getattr(self, 'raw', None) is not None:
                f.write(self.raw)
            else:
                import json
                json.dump(self.json, f)

    def argv(self):
        return [x for k, v in self.args.items() for x in ([k] if v is None else [k, v])]

    def home(self, name, text):
        with open(os.path.join(self.ws.env.conf, name), 'w') as f:
            f.write(text)


def _drop(*path):
    def f(s):
        d = s.json
        for p in path[:-1]:
            d = d[p]
        del d[path[-1]]
    return f


def _set(where, key, value):
    def f(s):
        d = getattr(s, where)
        v = value(s) if callable(value) else value
        if where != 'args' and key not in d and not key.startswith('@'):
            raise KeyError
        d[key] = v
    return f


def _del_arg(o):
    def f(s):
        del s.args[o]
    return f


def _raw(text):
    def f(s):
        s.raw = text
    return f


def _conf(name, text):
    return lambda s: s.home(name, text)


def _file(name):
    return lambda s: s.ws.files[name]


ANY = set(SETUPS)
E = 'Execution'


def _no_file(kind):
    def f(s):
        for x in os.listdir(s.ws.env.geo if kind == 'geo' else s.ws.env.tables):
            p = os.path.join(s.ws.env.geo if kind == 'geo' else s.ws.env.tables, x)
            os.unlink(p)
    return f


def _break_file(kind, how):
    def f(s):
        d = s.ws.env.geo if kind == 'geo' else s.ws.env.tables
        for x in os.listdir(d):
            p = os.path.join(d, x)
            if os.path.isfile(p) and not x.endswith('.lock'):
                b = open(p, 'rb').read()
                open(p, 'wb').write({'empty': b'', 'text': b'not a file of this kind\n' * 10, 'cut': b[:len(b) // 2]}[how])
    return f


def _blocked_outdir(s):
    s.args['-o'] = s.ws.files['text']


def _paths(text):
    return lambda s: s.home('paths.conf', text % {'t': s.ws.env.tables, 'g': s.ws.env.geo})


# name: (set-ups, declared by the tool, may be no messages, what to do)
DEFECTS = {
    # command line
    'no-command-file': (ANY, False, False, _del_arg('-c')), 'missing-command-file': (ANY, True, False, _set('args', '-c', _file('missing'))), 'command-folder': (ANY, True, False, _set('args', '-c', _file('folder'))),
    'no-input': (ANY, True, False, _del_arg('-i')), 'missing-input': (ANY, True, False, _set('args', '-i', _file('missing'))), 'input-folder': (ANY, True, False, _set('args', '-i', _file('folder'))),
    'start-after-end': (ANY, True, False, lambda s: s.args.update({'-s': 12, '-e': 6})), 'start-text': (ANY, False, False, _set('args', '-s', 'x')), 'end-text': (ANY, False, False, _set('args', '-e', '6h')),
    'member-text': (ANY, False, False, _set('args', '-m', 'x')), 'fmap-text': (ANY, False, False, _set('args', '-f', 'x')), 'ext-text': (ANY, False, False, _set('args', '-x', '1.5')),
    'time-not-allowed': (ANY, False, False, _set('args', '-T', 600)), 'format-not-allowed': (ANY, False, False, _set('args', '-F', 'grib')), 'unknown-option': (ANY, False, False, _set('args', '--bogus', 1)),
    'log-level': (ANY, False, False, _set('args', '-l', 'LOUD')), 'out-dir-in-the-way': (ANY, True, False, _blocked_outdir),
    # input
    'empty-input': (ANY, False, True, _set('args', '-i', _file('empty'))), 'text-input': (ANY, False, True, _set('args', '-i', _file('text'))), 'cut-input': (ANY - {'accumulation'}, False, False, _set('args', '-i', _file('cut'))),
    'cut-middle-input': (ANY - {'accumulation'}, False, False, _set('args', '-i', _file('cutmiddle'))),
    'other-parameter': (ANY, False, True, _set('args', '-i', _file('other'))),
    'no-date': (ANY, False, True, _set('args', '-D', 19000101)), 'no-time': (ANY, False, True, _set('args', '-T', 1200)), 'no-member': (ANY, False, True, _set('args', '-m', 7)),
    'no-level': (ANY, False, True, _set('param', '@level', '850')), 'start-too-late': (ANY, False, True, _set('args', '-s', 500)),
    'missing-second': ({'second'}, False, False, _set('args', '-I', _file('missing'))), 'empty-second': ({'second'}, False, True, _set('args', '-I', _file('empty'))), 'text-second': ({'second'}, False, True, _set('args', '-I', _file('text'))),
    'other-second': ({'second'}, False, True, _set('args', '-I', _file('other'))),
    # command file
    'invalid-json': (ANY, False, False, _raw('{"Execution": {')), 'empty-json': (ANY, False, False, _raw('')), 'list-json': (ANY, False, False, _raw('[]')), 'no-execution': (ANY, False, False, _drop(E)),
    'no-parameter': (ANY, False, False, _drop(E, 'Parameter')), 'no-outmaps': (ANY, False, False, _drop(E, 'OutMaps')), 'no-interpolation': (ANY, False, False, _drop(E, 'OutMaps', 'Interpolation')),
    'no-clone': (ANY, False, False, _drop(E, 'OutMaps', '@cloneMap')), 'no-lat': (ANY, False, False, _drop(E, 'OutMaps', 'Interpolation', '@latMap')), 'no-lon': (ANY, False, False, _drop(E, 'OutMaps', 'Interpolation', '@lonMap')),
    'no-short-name': (ANY, False, False, _drop(E, 'Parameter', '@shortName')), 'unknown-short-name': (ANY, True, False, _set('param', '@shortName', 'xx')),
    'unknown-conversion': (ANY, True, False, _set('param', '@applyConversion', 'nothing')), 'level-text': (ANY, True, False, _set('param', '@level', 'abc')),
    'json-start-text': (ANY, False, False, _set('param', '@tstart', 'x')), 'json-fmap-text': (ANY, False, False, _set('out', '@fmap', 'x')), 'unit-time-text': (ANY, False, False, _set('out', '@unitTime', 'x')),
    'unknown-mode': (ANY, True, False, _set('interp', '@mode', 'closest')), 'unknown-format': (ANY - {'netcdf'}, False, False, _set('out', '@format', 'grib')),
    'undefined-variable': (ANY, True, False, _set('interp', '@latMap', '{NOWHERE}/lat.map')), 'undefined-variable-clone': (ANY, True, False, _set('out', '@cloneMap', '{NOWHERE}/clone.map')),
    # maps
    'missing-lat': (ANY, True, False, _set('interp', '@latMap', _file('missing'))), 'missing-lon': (ANY, True, False, _set('interp', '@lonMap', _file('missing'))), 'missing-clone': (ANY, True, False, _set('out', '@cloneMap', _file('missing'))),
    'text-lat': (ANY, False, False, _set('interp', '@latMap', _file('text'))), 'text-lon': (ANY, False, False, _set('interp', '@lonMap', _file('text'))), 'text-clone': (ANY, False, False, _set('out', '@cloneMap', _file('text'))),
    'other-size-lat': (ANY, True, False, _set('interp', '@latMap', lambda s: s.ws.t2.lat_map)), 'other-size-lon': (ANY, True, False, _set('interp', '@lonMap', lambda s: s.ws.t2.lon_map)),
    'other-size-clone': (ANY, False, False, _set('out', '@cloneMap', lambda s: s.ws.t2.clone)),
    # correction
    'no-formula': ({'correction'}, True, False, _drop(E, 'Parameter', '@correctionFormula')), 'no-gem': ({'correction'}, True, False, _drop(E, 'Parameter', '@gem')), 'no-dem': ({'correction'}, True, False, _drop(E, 'Parameter', '@demMap')),
    'missing-dem': ({'correction'}, True, False, _set('param', '@demMap', _file('missing'))), 'text-dem': ({'correction'}, False, False, _set('param', '@demMap', _file('text'))),
    'other-size-dem': ({'correction'}, False, False, _set('param', '@demMap', lambda s: s.ws.dem2)),
    'wrong-formula': ({'correction'}, False, False, _set('param', '@correctionFormula', 'p+*2')), 'unknown-in-formula': ({'correction'}, False, False, _set('param', '@correctionFormula', 'p+foo')),
    'wrong-gem': ({'correction'}, False, False, _set('param', '@gem', 'z/')), 'unknown-in-gem': ({'correction'}, False, False, _set('param', '@gem', 'h*2')),
    'geo-not-configured': ({'correction'}, True, False, _conf('geopotentials.json', '{}')), 'geo-missing': ({'correction'}, True, False, _no_file('geo')), 'geo-empty': ({'correction'}, False, False, _break_file('geo', 'empty')),
    'geo-text': ({'correction'}, False, False, _break_file('geo', 'text')), 'geo-cut': ({'correction'}, False, False, _break_file('geo', 'cut')), 'geo-config': ({'correction'}, True, False, _conf('geopotentials.json', '{"a": ')),
    # aggregation
    'unknown-aggregation': ({'accumulation', 'average'}, False, False, _set('agg', '@type', 'maximum')), 'step-text': ({'accumulation', 'average'}, False, False, _set('agg', '@step', 'x')),
    'step-negative': ({'accumulation', 'average'}, False, False, _set('agg', '@step', -6)), 'no-step': ({'accumulation', 'average'}, False, False, _drop(E, 'Aggregation', '@step')),
    'no-type': ({'accumulation', 'average'}, False, False, _drop(E, 'Aggregation', '@type')), 'step-zero': ({'accumulation', 'average'}, False, False, _set('agg', '@step', 0)),
    # interpolation
    'no-table': (ANY - {'table'}, True, False, _del_arg('-B')), 'table-missing': ({'table'}, True, False, _no_file('tables')), 'table-empty': ({'table'}, False, False, _break_file('tables', 'empty')),
    'table-text': ({'table'}, False, False, _break_file('tables', 'text')), 'table-cut': ({'table'}, False, False, _break_file('tables', 'cut')), 'table-config': (ANY, True, False, _conf('intertables.json', '{"a": ')),
    'no-tables-variable': (ANY - {'table'}, True, False, _paths('GEOPOTENTIALS=%(g)s\n')), 'no-tables-folder': (ANY - {'table'}, True, False, _paths('GEOPOTENTIALS=%(g)s\nINTERTABLES=%(t)s/nowhere\n')),
    'cdd-map-missing': ({'cdd'}, False, False, _set('interp', '@cdd_map', _file('missing'))), 'cdd-map-text': ({'cdd'}, False, False, _set('interp', '@cdd_map', _file('text'))),
    'cdd-map-size': ({'cdd'}, True, False, _set('interp', '@cdd_map', lambda s: s.ws.cdd2)), 'cdd-no-map': ({'cdd'}, False, False, _drop(E, 'OutMaps', 'Interpolation', '@cdd_map')),
    'cdd-mode': ({'cdd'}, True, False, _set('interp', '@cdd_mode', 'Other')), 'cdd-no-mode': ({'cdd'}, True, False, _drop(E, 'OutMaps', 'Interpolation', '@cdd_mode')),
    'cdd-options': ({'cdd'}, False, False, _set('interp', '@cdd_options', {'m_const': 4})),
    # configuration
    'parameters-config': (ANY, True, False, _conf('parameters.json', '{"2t": ')), 'parameters-empty': (ANY, True, False, _conf('parameters.json', '')), 'conversion-function': ({'conversion'}, False, False, None),
    'ftp-config': (ANY, True, False, _conf('ftp.json', '{')),
    # netCDF
    'value-format': ({'netcdf'}, False, False, _set('args', '-vf', 'x9')), 'scale-text': ({'netcdf'}, False, False, _set('args', '-S', 'x')), 'offset-text': ({'netcdf'}, False, False, _set('args', '-O', 'x')),
    'min-text': ({'netcdf'}, False, False, _set('args', '-vm', 'x')), 'max-text': ({'netcdf'}, False, False, _set('args', '-vM', 'x')),
}


def _wrong_function(s):
    p = copy.deepcopy(fx.PARAMETERS)
    p['2t']['Conversion'][0]['@function'] = 'x=x+*2'
    fx.write_json(os.path.join(s.ws.env.conf, 'parameters.json'), p)


DEFECTS['conversion-function'] = ({'conversion'}, False, False, _wrong_function)
_conf_commands = ['add-missing', 'add-text', 'add-empty', 'add-no-geopotential', 'add-no-variable', 'add-no-folder', 'add-twice', 'add-same-name', 'add-folder', 'download-unreachable', 'download-choice', 'config-broken']


def cases(tier):
    out = [{'setup': s, 'defects': []} for s in SETUPS]
    for s in SETUPS:
        names = [d for d in DEFECTS if s in DEFECTS[d][0]]
        out += [{'setup': s, 'defects': [d]} for d in names]
        for i, d in enumerate(names):
            if tier == 'quick' and s in ('grib_invdist', 'invdist', 'average') and not (DEFECTS[d][0] - ANY or DEFECTS[d][0] != ANY):
                continue
            out.append({'setup': s, 'defects': [d], 'with': names[i + 1:]})
    out += [{'command': c} for c in _conf_commands]
    out += [{'process': d} for d in ('none', 'missing-input', 'unknown-mode', 'no-table', 'other-parameter', 'cut-input', 'start-text', 'invalid-json')]
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.grid = fx.Grid(6, 5, 50, 0)
    ws.fine = fx.Grid(9, 8, 50.5, -.5, .75, .75)
    ws.t = fx.Target.regular(ws.dir('tgt'), 't', 3, 3, 49.3, .4)
    ws.t2 = fx.Target.regular(ws.dir('tgt'), 'u', 2, 4, 49.3, .4)
    ws.dem = fx.write_pcr(os.path.join(ws.dir('tgt'), 'dem.map'), np.ones((3, 3)), *ws.t.origin, 1.)
    ws.dem2 = fx.write_pcr(os.path.join(ws.dir('tgt'), 'dem2.map'), np.ones((2, 4)), *ws.t2.origin, 1.)
    d = ws.dir('files')
    ws.cdd = fx.write_nc_template(os.path.join(d, 'cdd.nc'), 49.3 - np.arange(3.), .4 + np.arange(3.), data=np.full((3, 3), 400.))
    ws.cdd2 = fx.write_nc_template(os.path.join(d, 'cdd2.nc'), 49.3 - np.arange(2.), .4 + np.arange(2.), data=np.full((2, 2), 400.))
    v = 280 + np.arange(30.)
    msgs = [fx.grib_message(ws.grid, v + s, end=s) for s in (0, 6, 12, 18)]
    ws.inp = fx.write_grib(os.path.join(d, 'in.grib'), msgs)
    ws.inp2 = fx.write_grib(os.path.join(d, 'in2.grib'), [fx.grib_message(ws.fine, 280 + np.arange(72.), end=s) for s in (24, 30)])
    ws.acc = fx.write_grib(os.path.join(d, 'acc.grib'), [fx.grib_message(ws.grid, (v - 270) * s, short='tp', step_type='accum', start=0, end=s) for s in (0, 6, 12, 18)])
    f = {'missing': os.path.join(d, 'nowhere', 'nothing'), 'folder': ws.dir('files', 'folder'), 'empty': os.path.join(d, 'empty'), 'text': os.path.join(d, 'text')}
    open(f['empty'], 'w').close()
    open(f['text'], 'w').write('this is text, %d\n' * 40)
    for k, b in (('cut', b''.join(msgs)[:-40]), ('cutmiddle', msgs[0] + msgs[1][:-40] + msgs[2] + msgs[3])):
        f[k] = os.path.join(d, k + '.grib')
        open(f[k], 'wb').write(b)
    f['other'] = fx.write_grib(os.path.join(d, 'other.grib'), [fx.grib_message(ws.grid, v, short='sp', end=6)])
    ws.files = f
    ws.geofile = fx.write_grib(os.path.join(ws.dir('gsrc'), 'geo.grib'), [dict(grid=ws.grid, values=np.arange(30.) * 100, short='z', end=0)])
    from .. import sut
    assert sut.cli(['-g', ws.geofile, '-l', 'ERROR']) == ('ret', 0)
    import json
    ws.grid_id = [k for k, x in json.load(open(os.path.join(ws.env.conf, 'geopotentials.json'))).items() if x == 'geo.grib'][0]


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.messages = []

    def emit(self, r):
        self.messages.append(r.getMessage().strip())


def outcome(argv):
    from .. import sut
    h = Records()
    root = logging.getLogger()
    root.addHandler(h)
    was = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        k, v = sut.cli(argv)
    finally:
        logging.disable(was)
        root.removeHandler(h)
    return k, v, [m for m in h.messages if m]


def run(ws, name, defects):
    """(kind, value, messages, files) or None when the defects cannot be combined."""
    s = Scenario(ws, name)
    try:
        for d in defects:
            DEFECTS[d][3](s)
    except (KeyError, OSError, TypeError):
        if len(defects) == 1:
            raise
        return None
    s.write()
    k, v, m = outcome(s.argv())
    files = sorted(os.listdir(s.outdir)) if os.path.isdir(s.outdir) else []
    return k, v, m, files, s.maps


# together they are a valid set-up: no aggregation, a smaller target
TOGETHER = ({'no-step', 'no-type'}, {'other-size-lat', 'other-size-lon', 'other-size-clone'})


def judge(defects, r, bad, k):
    kind, value, msgs, files, _ = r
    failed = kind == 'exc' or kind == 'exit' and value not in (0, None) or kind == 'ret' and value not in (0, None, False)
    if files:
        bad.append(('maps', '%s: %s written, %s %s' % (k, files, kind, value)))
    if not failed and not any(DEFECTS[d][2] for d in defects):
        bad.append(('status', '%s: %s %s' % (k, kind, value)))
    if kind == 'ret' and not msgs:
        bad.append(('message', '%s: no error message' % (k,)))
    if len(defects) == 1 and DEFECTS[defects[0]][1] and kind != 'ret':
        bad.append(('traceback', '%s: %s %s %s' % (k, kind, value, getattr(value, 'tb', '')[-400:])))
    return failed


def check(case, ws):
    if 'command' in case:
        return check_command(case['command'], ws)
    if 'process' in case:
        return check_process(case['process'], ws)
    name, ds = case['setup'], case['defects']
    bad, n = [], 0
    if not ds:
        k, v, m, files, maps = run(ws, name, [])
        if (k, v) != ('ret', 0) or len(files) != maps:
            bad.append(('success', '%s: %s %s %s, %s' % (name, k, v, m, files)))
        return bad, {'evaluations': 1, 'distinct': 1}
    for other in case.get('with', [None]):
        defects = ds + ([other] if other else [])
        if set(defects) in TOGETHER:
            continue
        r = run(ws, name, defects)
        if r is None:
            if not other:
                raise RuntimeError('defect %s does not apply to %s' % (ds, name))
            continue
        n += 1
        judge(defects, r, bad, (name, defects))
    return bad[:4], {'evaluations': n, 'distinct': n}


def check_command(c, ws):
    s = Scenario(ws, 'nearest')
    geo, conf = ws.env.geo, ws.env.conf
    before = None
    args = {'add-missing': ['-g', ws.files['missing']], 'add-text': ['-g', ws.files['text']], 'add-empty': ['-g', ws.files['empty']], 'add-no-geopotential': ['-g', ws.inp], 'add-folder': ['-g', ws.files['folder']],
            'download-unreachable': ['-W', 'geopotentials'], 'download-choice': ['-W', 'maps']}.get(c, ['-g', ws.geofile])
    if c == 'add-no-variable':
        s.home('paths.conf', 'INTERTABLES=%s\n' % ws.env.tables)
    if c == 'add-no-folder':
        s.home('paths.conf', 'GEOPOTENTIALS=%s/nowhere\n' % geo)
    if c in ('add-twice', 'add-same-name'):
        if c == 'add-twice':
            outcome(args)
        else:
            o = fx.write_grib(os.path.join(ws.dir('gother'), 'geo.grib'), [dict(grid=ws.fine, values=np.arange(72.), short='z', end=0)])
            outcome(['-g', o])
    if c == 'config-broken':
        s.home('geopotentials.json', '{"a":')
    if c == 'download-unreachable':
        s.home('ftp.json', '{"host": "127.0.0.1", "user": "u", "pwd": "p", "folder": "/x"}')
    from .. import sut
    sut.forget()
    state = lambda: ({f: open(os.path.join(geo, f), 'rb').read() for f in os.listdir(geo)}, open(os.path.join(conf, 'geopotentials.json')).read() if os.path.exists(os.path.join(conf, 'geopotentials.json')) else None)
    before = state()
    k, v, m = outcome(args + ['-l', 'ERROR'])
    after = state()
    bad = []
    if k == 'ret' and v in (0, None, False) or k == 'exit' and v in (0, None):
        bad.append(('status', '%s: %s %s' % (c, k, v)))
    if k == 'ret' and not m:
        bad.append(('message', '%s: no error message' % c))
    if c in ('add-missing', 'add-no-variable', 'add-no-folder', 'add-twice', 'add-same-name', 'config-broken') and k != 'ret':
        bad.append(('traceback', '%s: %s' % (c, getattr(v, 'tb', v))))
    if after[0] != before[0] or before[1] is not None and after[1] != before[1]:
        bad.append(('changed', '%s: %s' % (c, sorted(after[0]))))
    return bad, {'evaluations': 1, 'distinct': 1}


def check_process(d, ws):
    """The status of the process of the command line script."""
    import subprocess
    import sys
    s = Scenario(ws, 'nearest')
    if d != 'none':
        DEFECTS[d][3](s)
    s.write()
    repo = os.environ.get('MC_REPO', '/repo')
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(repo, 'bin', 'pyg2p')] + [str(a) for a in s.argv()], capture_output=True, text=True, cwd=ws.dir('cwd'),
                       env=dict(os.environ, PYTHONPATH=os.path.join(repo, 'src'), HOME=ws.env.home), timeout=300)
    files = sorted(os.listdir(s.outdir))
    bad = []
    zero = d in ('none', 'other-parameter')
    if (p.returncode == 0) != zero:
        bad.append(('status', '%s: process status %d %s' % (d, p.returncode, p.stderr[-300:])))
    if d != 'none' and (files or not p.stderr.strip()):
        bad.append(('process', '%s: %s %s' % (d, files, p.stderr[-200:])))
    if d != 'none' and DEFECTS[d][1] and 'Traceback' in p.stderr:
        bad.append(('traceback', p.stderr[-500:]))
    if d == 'none' and len(files) != 4:
        bad.append(('success', '%s %s' % (files, p.stderr[-300:])))
    return bad, {'evaluations': 1, 'distinct': 1}
