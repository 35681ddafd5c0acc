"""A user environment in the worker's scratch directory, and executions of pyg2p in it."""
import os
import shutil
import tempfile

import numpy as np

from . import fixtures as fx
from . import sut

ALL_MODES = ['nearest', 'invdist', 'adw', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist']
SCIPY_MODES = ALL_MODES[:6]


def _inside_tmp(p):
    assert os.path.realpath(p).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep), p
    return p


class Env:
    """Home folder, tables and geopotentials folders."""

    def __init__(self, ws, name='env', home=None, parameters=fx.PARAMETERS, extra=None, geopotentials=True):
        self.root = ws.dir(name)
        self.home = home or ws.home
        self.tables = os.path.join(self.root, 'tables')
        self.geo = os.path.join(self.root, 'geo')
        self.parameters, self.extra = parameters, extra
        self.n = 0
        self.with_geo = geopotentials
        self.reset()

    @property
    def conf(self):
        return os.path.join(self.home, '.pyg2p')

    def reset(self):
        """As a new user in a new process."""
        for d in (self.conf, self.tables, self.geo):
            if os.path.isdir(d):
                shutil.rmtree(_inside_tmp(d))
        fx.make_home(self.home, intertables=self.tables, geopotentials=self.geo if self.with_geo else None,
                     extra=self.extra, parameters=self.parameters)
        sut.forget()

    def reset_files(self):
        """As a new user, in the same process."""
        for d in (self.conf, self.tables, self.geo):
            if os.path.isdir(d):
                shutil.rmtree(_inside_tmp(d))
        fx.make_home(self.home, intertables=self.tables, geopotentials=self.geo if self.with_geo else None,
                     extra=self.extra, parameters=self.parameters)

    def path(self, *a):
        p = os.path.join(self.root, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def fresh(self, name):
        p = os.path.join(self.root, name)
        if os.path.isdir(p):
            shutil.rmtree(_inside_tmp(p))
        os.makedirs(p)
        return p

    def grib(self, messages, name='in.grib'):
        return fx.write_grib(self.path(name), messages)


class Result:
    def __init__(self, kind, value, out, fmt):
        self.kind, self.value, self.out, self.fmt = kind, value, out, fmt
        self.names = sorted(os.listdir(out)) if os.path.isdir(out) else []

    @property
    def ok(self):
        return self.kind == 'ret' and self.value == 0

    @property
    def error(self):
        if self.kind == 'exc':
            return '%s: %s %s' % (type(self.value).__name__, self.value, getattr(self.value, 'tb', '')[-700:])
        return '%s %s' % (self.kind, self.value)

    def maps(self):
        """Arrays in time order (NaN = missing)."""
        if self.fmt == 'pcraster':
            names = sorted(self.names, key=lambda n: int(''.join(c for c in n[-7:] if c.isdigit()) or 0))
            return [fx.read_pcr(os.path.join(self.out, n))[0] for n in names]
        ncs = [n for n in self.names if n.endswith('.nc')]
        if not ncs:
            return []
        return [a for a in read_nc(os.path.join(self.out, ncs[0]))['values']]

    def nc(self):
        ncs = [n for n in self.names if n.endswith('.nc')]
        return read_nc(os.path.join(self.out, ncs[0]))


def read_nc(path, var=None):
    from netCDF4 import Dataset
    d = Dataset(path)
    try:
        main = var or [v for v in d.variables if v not in ('lat', 'lon', 'time')][0]
        v = d[main]
        arr = v[:]
        vals = np.where(np.ma.getmaskarray(arr), np.nan, np.ma.getdata(arr).astype(float))
        t = d['time']
        return {'values': vals, 'time': np.ma.getdata(t[:]).astype(float), 'units': t.units,
                'calendar': getattr(t, 'calendar', 'standard'), 'lat': np.ma.filled(d['lat'][:].astype(float), np.nan),
                'lon': np.ma.filled(d['lon'][:].astype(float), np.nan), 'name': main,
                'attrs': {k: v.getncattr(k) for k in v.ncattrs()}, 'dtype': str(v.dtype), 'mask': np.ma.getmaskarray(arr)}
    finally:
        d.close()


def run(env, grib, target, fmt='pcraster', create=True, args=(), out='out', **cmd):
    """Execute the command line tool; options of fixtures.command_json as keywords."""
    o = env.fresh(out)
    c = fx.command_json(env.path('cmd.json'), target, **cmd)
    a = ['-c', c, '-i', grib, '-o', o, '-F', fmt, '-l', 'ERROR'] + (['-B'] if create else []) + list(args)
    k, v = sut.cli(a)
    return Result(k, v, o, fmt)


def api_dict(grib, target, short='2t', mode='nearest', aggregation=None, conversion=None, correction=None, param=None,
             outmaps=None, interp=None, create=True, start=None, end=None, **top):
    p = {'shortName': short}
    if conversion:
        p['applyConversion'] = conversion
    if correction:
        p.update({'correctionFormula': correction['formula'], 'gem': correction['gem'], 'demMap': correction['dem']})
    p.update(param or {})
    i = {'latMap': target.lat_map, 'lonMap': target.lon_map, 'mode': mode}
    i.update(interp or {})
    o = {'cloneMap': target.clone, 'unitTime': '24'}
    o.update(outmaps or {})
    o['Interpolation'] = i
    d = {'loggerLevel': 'ERROR', 'inputFile': grib, 'fmap': 1, 'ext': 1, 'start': start, 'end': end,
         'createIntertable': create, 'interpolationParallel': False, 'OutMaps': o, 'Parameter': p}
    if aggregation:
        d['Aggregation'] = {k.lstrip('@'): v for k, v in aggregation.items()}
    d.update(top)
    return d


def api(d):
    """Run through the API; ordered list of (Step, array with NaN for missing)."""
    from pyg2p.main.api import Pyg2pApi, ApiContext
    a = Pyg2pApi(ApiContext(d))
    r = a.execute()
    out = []
    for k, v in r.items():
        v = np.array(v, float)
        out.append((k, np.where((v == a.mv) | (v <= -1e38), np.nan, v)))
    return out


def step_range(e):
    """Enumerate non-empty subsets of e in size order."""
    import itertools
    for n in range(1, len(e) + 1):
        for c in itertools.combinations(e, n):
            yield c
