"""C06: altitude correction evaluates the configured formulas cell by cell, missing where an operand is missing."""
import os

import numpy as np

from .. import fixtures as fx
from .. import ref

PROPERTY, LEVEL = 'C06', 'exploration'
TECHNIQUE = 'bounded exhaustive execution of the real tool over formulas, methods, missing layouts and geopotential sources, compared with a reference model'
NOTE = ('Complete over the stated product. The interpolation weights of each method are measured on the tool itself with unit fields '
        '(C08 and C09 decide them); geopotentials are registered with the command -g of the tool.')
RULE = ('interpolation method x correction formula x geopotential formula x layout of missing points in values, dem and geopotential x '
        'origin of the geopotential (registered for this grid among two grids, carried by the input, alternate folder) x aggregation or change of grid within the file x channel; '
        'every cell of every map compared. non-trivial: every case (all cases contain valid cells)')
ASSUMPTIONS = ['weights measured on the tool without correction', 'no valid value equals a missing-value code']
CHUNK = 4
MODES = ['nearest', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist', 'adw']
FORMULAS = {'lapse': ('p+gem-dem*0.0065', lambda p, dem, gem: p + gem - dem * 0.0065),
            'press': ('p/gem*(10**((-0.159)*(dem-gem)/1000))', lambda p, dem, gem: p / gem * 10 ** (-0.159 * (dem - gem) / 1000)),
            'nogem': ('p-dem', lambda p, dem, gem: p - dem),
            'nodem': ('gem*2-p', lambda p, dem, gem: gem * 2 - p)}
GEMS = {'lapse': ('(z/9.81)*0.0065', lambda z: z / 9.81 * 0.0065), 'square': ('z*z/100000+1', lambda z: z * z / 100000 + 1), 'z': ('z', lambda z: z)}
# missing: (source points of the values, dem cells, source points of the geopotential); equal numbers of missing points keep the grid id
LAYOUTS = {'none': ((), (), ()), 'dem': ((), (0, 7, 14), ()), 'val': ((6,), (), (6,)), 'geo': ((0,), (), (13,)),
           'all': ((6,), (2, 9), (13,)), 'many': ((1, 6, 11, 16), (15,), (3, 8, 13, 18))}
STEPS = (0, 6, 12)


def cases(tier):
    out = []
    modes = MODES[:7] if tier == 'quick' else MODES
    for mode in modes:
        for f in FORMULAS:
            for gf in (('lapse', 'square') if tier == 'quick' else GEMS):
                for lay in LAYOUTS:
                    for origin in ('registered', 'self'):
                        for ch in ('pcraster', 'netcdf', 'api'):
                            out.append(dict(mode=mode, formula=f, gem=gf, layout=lay, origin=origin, channel=ch, agg=None))
    for mode in MODES[:7]:
        for lay in LAYOUTS:
            for origin in ('registered', 'self'):
                for ch in ('pcraster', 'netcdf', 'api'):
                    out.append(dict(mode=mode, formula='lapse', gem='square', layout=lay, origin=origin, channel=ch, agg=None, grids=2))
    for agg in ('average', 'instantaneous', 'accumulation'):
        for lay in LAYOUTS:
            for origin in ('registered', 'self', 'alternate'):
                for ch in ('pcraster', 'netcdf', 'api'):
                    for mode in ('nearest', 'grib_invdist'):
                        out.append(dict(mode=mode, formula='lapse', gem='square', layout=lay, origin=origin, channel=ch, agg=agg))
    for kind in ('no-geopotential', 'no-dem-file', 'no-geo-file'):
        for ch in ('pcraster', 'netcdf', 'api'):
            out.append(dict(kind=kind, channel=ch))
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.grid = fx.Grid(5, 4, 52, 10)
    ws.other = fx.Grid(6, 5, 52.5, 9.7)
    ws.target = fx.Target.regular(ws.dir('tgt'), 'a', 4, 4, 51.4, 11, 0.75)
    ws.W = {}
    ws.dems = {}


def dem_map(ws, cells):
    if cells not in ws.dems:
        t = ws.target
        d = 100.0 + 37.5 * np.arange(16).reshape(4, 4)
        m = np.zeros((4, 4), bool)
        m.ravel()[list(cells)] = True
        p = fx.write_pcr(ws.path('dems', 'dem%s.map' % '_'.join(map(str, cells))), d, t.origin[0], t.origin[1], 0.75, mask=m)
        ws.dems[cells] = p, np.where(m, np.nan, d).ravel()
    return ws.dems[cells]


def weights(ws, mode, g=None):
    key = mode, g is None or g is ws.grid
    if key not in ws.W:
        from .. import scene
        g = g or ws.grid
        f = ws.env.grib([dict(grid=g, values=np.eye(g.n)[k] * 1024, end=k) for k in range(g.n)], 'unit.grib')
        r = scene.run(ws.env, f, ws.target, mode=mode, out='unit')
        assert r.ok, r.error
        ws.W[key] = np.array([m.ravel() for m in r.maps()]).T / 1024
    return ws.W[key]


def mix(W, v):
    x = np.full(W.shape[0], np.nan)
    for c in range(W.shape[0]):
        idx = np.flatnonzero(np.abs(W[c]) > 1e-9)
        x[c] = (W[c, idx] * v[idx]).sum()
    return x


def geo_field(g, missing, scale=1.0):
    z = 500.0 * scale + 130.0 * (np.arange(g.n) * 7 % 11)
    z[[m for m in missing if m < g.n]] = np.nan
    return z


def check(case, ws):
    from .. import scene
    from .. import sut
    from .c05_conversion import outputs
    g = ws.grid
    env = ws.env
    lay = LAYOUTS[case.get('layout', 'none')]
    mode = case.get('mode', 'nearest')
    W = weights(ws, mode)
    two = case.get('grids') == 2
    V = weights(ws, mode, ws.other) if two else None
    env.reset()
    msgs = []
    for i, s in enumerate(STEPS):
        gi = ws.other if two and s >= 12 else g
        v = 280.0 + (np.arange(gi.n) * (3 + i)) % 17 + 3 * i
        v[list(lay[0])] = np.nan
        msgs.append(dict(grid=gi, values=v, short='2t', end=s))
    dem, demv = dem_map(ws, lay[1])
    z = geo_field(g, lay[2])
    zmsg = dict(grid=g, values=z, short='z', end=0)
    kind = case.get('kind')
    origin = case.get('origin', 'registered')
    if origin == 'self':
        extra = [zmsg]
        other = dict(grid=g, values=geo_field(g, lay[2], 5.0), short='z', end=0)
    else:
        extra, other = [], zmsg
    if kind != 'no-geopotential':
        p1 = env.grib([other], 'geo_a.grib')
        p2 = env.grib([dict(grid=ws.other, values=geo_field(ws.other, (), 3.0), short='z', end=0)], 'geo_b.grib')
        for p in (p2, p1):
            k, v = sut.cli(['-g', p])
            if (k, v) != ('ret', 0):
                return [('geopotential-not-added', '%s %s' % (k, v))]
        sut.forget()
    args, top = (), {}
    if origin == 'alternate':
        d = env.fresh('altgeo')
        fx.write_grib(os.path.join(d, 'geo_a.grib'), [zmsg])
        fx.write_grib(os.path.join(env.geo, 'geo_a.grib'), [dict(grid=g, values=geo_field(g, lay[2], 9.0), short='z', end=0)])
        args, top = ('-G', d), {'geopotentialDir': d}
    if kind == 'no-geo-file':
        os.unlink(os.path.join(env.geo, 'geo_a.grib'))
    if kind == 'no-dem-file':
        dem = dem + '.nothere'
    f = env.grib(msgs + extra)
    ff, fn = FORMULAS[case.get('formula', 'lapse')]
    gf, gfn = GEMS[case.get('gem', 'lapse')]
    corr = {'formula': ff, 'gem': gf, 'dem': dem}
    agg = case.get('agg')
    ag = agg and {'@step': 6, '@type': agg}
    if case['channel'] == 'api':
        ok, maps = outputs(ws, f, 'api', mode=mode, correction=corr, aggregation=ag, **top)
    else:
        ok, maps = outputs(ws, f, case['channel'], mode=mode, correction=corr, aggregation=ag, args=args)
    if kind:
        return [] if ok is False else [('not-refused', '%s: %s' % (kind, maps))]
    if not ok:
        return [('execution-fails', maps)]
    dec = fx.read_grib(f)
    given = [dict(m, values=v) for m, (_, v) in zip(msgs, dec)]
    zv = dec[-1][1] if origin == 'self' else fx.read_grib(env.path('geo_a.grib'))[0][1]
    zb = fx.read_grib(env.path('geo_b.grib'))[0][1] if two else None
    exp = {(m['end'], m['end']): m['values'] for m in given} if two else ref.steps_of(given, dict(short='2t', agg=agg and dict(kind=agg, step=6, unit=24)), 'instant')
    if len(maps) != len(exp):
        return [('wrong-number-of-maps', '%d, expected %s' % (len(maps), list(exp)))]
    bad = []
    for (k, e), m in zip(exp.items(), maps):
        w, gem = (V, mix(V, gfn(zb))) if two and k[1] >= 12 else (W, mix(W, gfn(zv)))
        x = fn(mix(w, e), demv, gem)
        x = np.where(np.isnan(mix(w, e)) | np.isnan(demv) | np.isnan(gem), np.nan, x)
        d = ref.same(m, x, 3e-5, 1e-3)
        if d:
            bad.append(('missing-values' if ref.is_missing_kind(d) else 'wrong-value', 'step %s: %s' % (k, d)))
    return bad[:2]
