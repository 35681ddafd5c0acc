"""A catalogue of executions of pyg2p, through every public entry point, each differing from others in one aspect.

An operation runs in the current process on the state of the folders it finds and returns a plain description of what a user gets:
how it ended, and the maps with their names, times and values.
"""
import json
import os
import shutil

import numpy as np

from . import fixtures as fx


class Catalogue:
    def __init__(self, ws, name='cat'):
        from . import scene
        self.ws = ws
        self.env = scene.Env(ws, name)
        self.src = ws.dir(name, 'sources')       # versions of the inputs, never touched by the tool
        self.now = ws.dir(name, 'inputs')        # the inputs in use
        self.alt = os.path.join(self.env.root, 'alt')
        self.held = []                           # results of the API and copies of them
        self.ops = {}
        self.inputs()
        self.executions()
        self.replacements()
        self.dirs = [self.env.conf, self.env.tables, self.env.geo, self.now, self.alt]

    # ---- inputs
    def inputs(self):
        A, B = fx.Grid(6, 5, 50, 0), fx.Grid(6, 5, 50, -0.8)
        self.A, self.B = A, B

        def wave(g, k):
            return 280 + 20 * np.sin(np.arange(g.n) * 1.7 + k) + 10 * np.cos(np.arange(g.n) * 0.4 * k)

        def t2(g, k, **kw):
            return [dict(grid=g, values=wave(g, k + s), short='2t', end=s, **kw) for s in (0, 6, 12)]

        def tp(g, k):
            return [dict(grid=g, values=(s + 1) * (0.01 + np.arange(g.n) * .001 * (k + 1)), short='tp', end=s, step_type='accum', start=0) for s in (6, 12, 18, 24)]

        def geo(g, k):
            return [dict(grid=g, values=1000 + 300 * np.cos(np.arange(g.n) * .9 + k), short='z', end=0)]
        for v in (1, 2):
            d = self.ws.dir(os.path.relpath(os.path.join(self.src, str(v)), self.ws.root))
            fx.write_grib(os.path.join(d, 'a.grib'), t2(A, v))
            fx.write_grib(os.path.join(d, 'b.grib'), t2(B, v + 3))
            hole = wave(A, v)
            hole[[7, 16]] = np.nan
            fx.write_grib(os.path.join(d, 'hole.grib'), [dict(grid=A, values=hole, short='2t', end=0)])
            fx.write_grib(os.path.join(d, 'tp.grib'), tp(A, v))
            fx.write_grib(os.path.join(d, 'eps.grib'), [m for p in (1, 2) for m in t2(A, v + p * 7, pert=p)])
            fx.write_grib(os.path.join(d, 'own.grib'), t2(A, v) + geo(A, v + 5))
            fx.write_grib(os.path.join(d, 'second.grib'), [dict(grid=fx.Grid(11, 9, 50, 0, .5, .5), values=wave(fx.Grid(11, 9, 50, 0, .5, .5), v), short='2t', end=s) for s in (18, 24)])
            fx.write_grib(os.path.join(d, 'geoA.grib'), geo(A, v))
            fx.write_grib(os.path.join(d, 'geoB.grib'), geo(B, v + 2))
            T = fx.Target.regular(d, 't', 4, 5, 49.3 - (v - 1) * .5, 0.4)
            U = fx.Target.regular(d, 'u', 4, 5, 49.3, 1.4, clone_mask=np.arange(20).reshape(4, 5) % 7 == 3)
            fx.write_pcr(os.path.join(d, 't_clone.map'), np.ones((4, 5)), *T.origin, 1., mask=np.arange(20).reshape(4, 5) == v)
            for k in (1, 2):
                fx.write_pcr(os.path.join(d, 'dem%d.map' % k), (100. * k + v) * (1 + np.arange(20).reshape(4, 5)), *T.origin, 1.)
        self.T, self.U = T, U
        for t in (T, U):
            for a in ('lat_map', 'lon_map', 'clone'):
                setattr(t, a, os.path.join(self.now, os.path.basename(getattr(t, a))))
        self.cor = {'formula': 'p+gem*0.0065-dem*0.0065', 'gem': 'z*0.102', 'dem': os.path.join(self.now, 'dem1.map')}

    def use(self, name, version):
        """Put a version of an input in its place, as a new file."""
        dst = os.path.join(self.now, name)
        tmp = dst + '.new'
        shutil.copyfile(os.path.join(self.src, str(version), name), tmp)
        os.replace(tmp, dst)

    def version(self, name):
        a = open(os.path.join(self.now, name), 'rb').read()
        return 1 if a == open(os.path.join(self.src, '1', name), 'rb').read() else 2

    def reset(self):
        """Folders as a new user has them, with one registered geopotential; process as new."""
        from . import sut
        for d in (self.now, self.alt):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        self.env.reset()
        for f in os.listdir(os.path.join(self.src, '1')):
            self.use(f, 1)
        sut.cli(['-g', self.i('geoA.grib')])
        sut.forget()
        self.held = []

    def i(self, name):
        return os.path.join(self.now, name)

    # ---- operations
    def describe(self, r):
        out = {'end': (r.kind, r.value if r.kind != 'exc' else type(r.value).__name__), 'maps': {}}
        for n in r.names:
            p = os.path.join(r.out, n)
            if n.endswith('.nc'):
                from .scene import read_nc
                d = read_nc(p)
                out['maps'][n] = {'values': d['values'], 'time': d['time'], 'units': d['units'], 'dtype': d['dtype'], 'lat': d['lat'], 'lon': d['lon'],
                                  'attrs': {k: str(v) for k, v in d['attrs'].items()}}
            elif n.endswith('.json') or n.endswith('.tmp'):
                out['maps'][n] = {}
            else:
                out['maps'][n] = {'values': fx.read_pcr(p)[0]}
        return out

    def add(self, name, fn, **flags):
        self.ops[name] = (fn, flags)

    def cli(self, name, grib, target=None, args=(), fmt='netcdf', create=True, **cmd):
        def fn(create=create):
            from . import scene
            return self.describe(scene.run(self.env, self.i(grib), target or self.T, fmt=fmt, create=create, args=[a() if callable(a) else a for a in args], **cmd))
        self.add(name, fn)

    def raw(self, name, args):
        def fn():
            from . import scene, sut
            k, v = sut.cli([a() if callable(a) else a for a in args])
            return self.describe(scene.Result(k, v, self.env.fresh('out'), 'netcdf'))
        self.add(name, fn)

    def api(self, name, grib, target=None, **kw):
        def fn(create=True):
            from . import scene
            from pyg2p.main.api import Pyg2pApi, ApiContext
            try:
                a = Pyg2pApi(ApiContext(scene.api_dict(self.i(grib), target or self.T, create=create, **kw)))
                r = a.execute()
            except Exception as e:
                return {'end': ('exc', type(e).__name__), 'maps': {}}
            out = {}
            for k, v in r.items():
                w = np.array(v, float)
                self.held.append((name, v, np.array(v)))
                out['%s-%s' % (k.start_step, k.end_step)] = {'values': np.where((w == a.mv) | (w <= -1e38), np.nan, w)}
            return {'end': ('ret', 0), 'maps': out}
        self.add(name, fn)

    def executions(self):
        T, U, c = self.T, self.U, self.cli
        agg = lambda t, **k: dict({'@step': 6, '@type': t, '@halfweights': False}, **k)  # noqa
        c('nearest', 'a.grib')
        c('nearest-gridB', 'b.grib')
        c('nearest-targetU', 'a.grib', U)
        c('nearest-hole', 'hole.grib', fmt='pcraster')
        for m in ('invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw', 'grib_nearest', 'grib_invdist'):
            c(m, 'a.grib', mode=m)
        c('invdist-hole', 'hole.grib', mode='invdist')
        c('grib_nearest-gridB', 'b.grib', mode='grib_nearest')
        c('pcraster', 'a.grib', fmt='pcraster')
        c('conversion', 'a.grib', conversion='k2c')
        c('cut', 'tp.grib', short='tp', conversion='m2mm', aggregation=agg('accumulation'))
        c('accumulation', 'tp.grib', short='tp', aggregation=agg('accumulation'))
        c('accumulation-zero', 'tp.grib', short='tp', aggregation=agg('accumulation', **{'@forceZeroArray': 'y'}), fmt='pcraster')
        c('average', 'a.grib', aggregation=agg('average'))
        c('average-half', 'a.grib', aggregation=agg('average', **{'@halfweights': True}))
        c('instantaneous', 'a.grib', aggregation=agg('instantaneous'))
        c('correction', 'a.grib', correction=self.cor)
        c('correction-formula', 'a.grib', correction=dict(self.cor, formula='p+gem-dem'))
        c('correction-gem', 'a.grib', correction=dict(self.cor, gem='z*0.2'))
        c('correction-dem', 'a.grib', correction=dict(self.cor, dem=self.i('dem2.map')))
        c('correction-mode', 'a.grib', correction=self.cor, mode='invdist')
        c('correction-target', 'a.grib', U, correction=self.cor, fmt='pcraster')
        c('correction-own', 'own.grib', correction=self.cor)
        c('correction-gridB', 'b.grib', correction=self.cor)     # fails unless the geopotential was added
        c('member', 'eps.grib', args=['-m', '2'])
        c('member1', 'eps.grib', args=['-m', '1'])
        c('selection', 'a.grib', args=['-s', '6', '-e', '12'], fmt='pcraster')
        c('two-files', 'a.grib', args=['-I', lambda: self.i('second.grib')])
        c('options', 'a.grib', args=['-n', 'pre', '-f', '5', '-x', '3'], fmt='pcraster')
        c('encoding', 'a.grib', args=['-S', '0.01', '-O', '250', '-vf', 'i4', '-vm', '0', '-vM', '400'])
        c('alternate', 'a.grib', args=['-N', lambda: self.alt])
        c('no-create', 'a.grib', create=False)
        c('debug', 'a.grib', args=['-l', 'DEBUG'])
        # failing ones
        c('fail-input', 'missing.grib')
        c('fail-none', 'a.grib', short='tp')
        c('fail-conversion', 'a.grib', conversion='unknown')
        c('fail-formula', 'a.grib', correction=dict(self.cor, formula='p+nothing'))
        c('fail-average', 'tp.grib', short='tp', aggregation=agg('average'))
        c('fail-parameter', 'a.grib', short='unknown')
        c('fail-mode', 'a.grib', mode='unknown')
        self.raw('fail-args', ['-i'])
        # configuration commands
        self.raw('check-conf', ['-K'])
        self.raw('add-geo', ['-g', lambda: self.i('geoB.grib')])
        # API
        self.api('api-nearest', 'a.grib')
        self.api('api-hole', 'hole.grib', mode='invdist')
        self.api('api-accumulation', 'tp.grib', short='tp', aggregation=agg('accumulation'), conversion='m2mm')
        self.api('api-correction', 'a.grib', correction=self.cor)
        self.api('api-grib', 'a.grib', mode='grib_invdist')
        self.api('api-fail', 'a.grib', conversion='unknown')

        def builder():
            from . import scene
            from pyg2p.main.api import command, run_command
            o = self.env.fresh('out')
            cmd = fx.command_json(self.env.path('cmd.json'), T, mode='bilinear')
            x = command('pyg2p -c %s -i %s -F netcdf -o %s' % (cmd, self.i('a.grib'), o)).with_create_intertable()
            return self.describe(scene.Result('ret', run_command(x), o, 'netcdf'))
        self.add('builder', builder)

    def replacements(self):
        for n in ('a.grib', 'hole.grib', 'dem1.map', 't_clone.map', 'own.grib'):
            def fn(n=n):
                self.use(n, 3 - self.version(n))
                return {'end': ('ret', 0), 'maps': {}}
            self.add('replace-' + n, fn, env=True)

        def target():
            for n in ('t_lat.map', 't_lon.map', 't_clone.map', 'dem1.map'):
                self.use(n, 3 - self.version('t_lat.map') if n != 't_lat.map' else self.version(n))
            self.use('t_lat.map', 3 - self.version('t_lat.map'))
            return {'end': ('ret', 0), 'maps': {}}
        self.add('replace-target', target, env=True)

        def geo():
            """the geopotential of the grid removed, and another one with the same name added, by another process"""
            from . import sut
            v = 3 - self.version('geoA.grib')
            self.use('geoA.grib', v)

            def other():
                sut.forget()
                from pyg2p.main.config import Configuration
                Configuration().remove_geopotential('geoA.grib')
                return sut.cli(['-g', self.i('geoA.grib')])
            r = sut.in_child(other)
            return {'end': r[1] if r[0] == 'ok' else r, 'maps': {}}
        self.add('replace-geo', geo, env=True)

        def parameters():
            p = os.path.join(self.env.conf, 'parameters.json')
            d = json.load(open(p))
            f = d['2t']['Conversion'][0]
            f['@function'] = 'x=x-273.15' if f['@function'] != 'x=x-273.15' else 'x=x-200'
            fx.write_json(p, d)
            return {'end': ('ret', 0), 'maps': {}}
        self.add('replace-parameters', parameters, env=True)

        def tables():
            """tables kept in another folder from now on"""
            p = os.path.join(self.env.conf, 'paths.conf')
            s = open(p).read()
            a, b = 'INTERTABLES=%s\n' % self.env.tables, 'INTERTABLES=%s\n' % self.alt
            open(p, 'w').write(s.replace(a, b) if a in s else s.replace(b, a))
            return {'end': ('ret', 0), 'maps': {}}
        self.add('replace-paths', tables, env=True)

        def drop():
            for f in os.listdir(self.env.tables):
                os.unlink(os.path.join(self.env.tables, f))
            return {'end': ('ret', 0), 'maps': {}}
        self.add('drop-tables', drop, env=True)

    def run(self, name, **kw):
        return self.ops[name][0](**kw)

    def state(self):
        """registries and names of the files kept between executions"""
        from .props.c12_registry import content
        out = {}
        for f in ('intertables.json', 'geopotentials.json'):
            try:
                out[f] = json.load(open(os.path.join(self.env.conf, f)))
            except Exception as e:
                out[f] = type(e).__name__
        for d in (self.env.tables, self.alt):
            for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                out[os.path.basename(d), f] = content(os.path.join(d, f))
        out['geo'] = sorted(os.listdir(self.env.geo))
        return out

    def changed(self):
        """earlier results of the API that are not what they were"""
        return [n for n, v, w in self.held if not np.array_equal(np.array(v), w, equal_nan=True)]


def same(a, b, tol=1e-9):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fi' and b.dtype.kind in 'fi':
            return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
        return bool((a == b).all())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def difference(a, b, at=''):
    """where two descriptions differ first"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: %s against %s' % (at, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            d = difference(a[k], b[k], '%s/%s' % (at, k))
            if d:
                return d
        return ''
    if same(a, b):
        return ''
    if isinstance(a, np.ndarray):
        return '%s: %s against %s' % (at, np.asarray(a).ravel()[:20].tolist(), np.asarray(b).ravel()[:20].tolist())
    return '%s: %s against %s' % (at, str(a)[:300], str(b)[:300])
