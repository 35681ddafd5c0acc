"""C23: the API returns the maps that the command line writes."""
import itertools
import os

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C23', 'exploration'
TECHNIQUE = 'exhaustive enumeration of the product of request aspects on the real tool; each request executed by the API and by the command line in both formats, results compared'
NOTE = 'Differential: the API and the two output formats must give the same steps, values and missing cells. The values themselves are judged by C01-C09.'
RULE = 'interpolation method x aggregation x conversion x correction x missing pattern x selection x clone mask (full product of the small domains). Non-trivial: every request'
ASSUMPTIONS = ['PCRaster maps hold single precision values: compared with a relative tolerance of 1e-5']
CHUNK = 10
MODES = ['nearest', 'invdist', 'adw', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist']
AGG = [None, 'accumulation', 'average', 'average-half', 'instantaneous']
CONV = [None, 'offset', 'cut']
CORR = [None, 'registered', 'own']
DATA = ['plain', 'holes']
SEL = ['all', 'start', 'end', 'both']
EXTRA = ['level', 'member', 'member0', 'date', 'time', 'two-files', 'two-res', 'unit-time', 'zero']


def cases(tier):
    q = tier == 'quick'
    out = []
    for m, a, c, k, d, s in itertools.product(MODES, AGG, CONV, CORR, DATA, SEL):
        dev = (a is not None) + (c is not None) + (k is not None) + (d != 'plain') + (s != 'all')
        if q and (dev > 2 if m not in ('nearest', 'grib_invdist') else dev > 3):
            continue
        out.append({'mode': m, 'agg': a, 'conv': c, 'corr': k, 'data': d, 'sel': s})
    for m, a, x in itertools.product(MODES, AGG, EXTRA):
        if a and x == 'level' and q:
            continue
        out.append({'mode': m, 'agg': a, 'conv': None, 'corr': None, 'data': 'holes', 'sel': 'all', 'extra': x})
    return out


def setup(ws):
    from .. import scene, sut
    ws.env = env = scene.Env(ws)
    A = fx.Grid(6, 5, 50, 0)
    H = fx.Grid(11, 9, 50, 0, .5, .5)
    ws.t = fx.Target.regular(ws.dir('tgt'), 't', 4, 5, 49.3, 0.4, clone_mask=np.arange(20).reshape(4, 5) == 6)
    ws.dem = fx.write_pcr(os.path.join(ws.dir('tgt'), 'dem.map'), 100. * (1 + np.arange(20).reshape(4, 5)), ws.t.origin[0], ws.t.origin[1], 1., mask=np.arange(20).reshape(4, 5) == 12)
    d = ws.dir('in')

    def vals(g, s, short, holes):
        if short == 'tp':
            # negative differences at some points
            v = s * (0.01 + 0.001 * np.arange(g.n)) * np.where(np.arange(g.n) % 4 == 1, -1, 1) * (1 + .1 * (s % 5))
        else:
            v = 273 + 8 * np.sin(np.arange(g.n) * 1.7 + s)
        if holes:
            v[[3 + s % 7, 14]] = np.nan
        return v

    def msgs(short, holes, g=A, steps=(6, 12, 18, 24), **kw):
        if short == 'tp':
            kw.update(step_type='accum', start=0)
        return [dict(grid=g, values=vals(g, s, short, holes) + kw.get('level', 0) / 1000. + (kw.get('pert') or 0), short=short, end=s, **kw) for s in steps]
    geo = [dict(grid=A, values=1000 + 300 * np.cos(np.arange(A.n) * .9), short='z', end=0)]
    ws.g = {}
    for short in ('2t', 'tp'):
        for h in ('plain', 'holes'):
            x = h == 'holes'
            ws.g[short, h] = fx.write_grib(os.path.join(d, '%s_%s.grib' % (short, h)), msgs(short, x))
            ws.g[short, h, 'own'] = fx.write_grib(os.path.join(d, '%s_%s_own.grib' % (short, h)), msgs(short, x) + geo)
        m = msgs(short, True)
        ws.g[short, 'member'] = fx.write_grib(os.path.join(d, short + '_mem.grib'), msgs(short, True, pert=0) + msgs(short, True, pert=1) + msgs(short, True, pert=2))
        ws.g[short, 'member0'] = ws.g[short, 'member']
        ws.g[short, 'date'] = fx.write_grib(os.path.join(d, short + '_date.grib'), m + msgs(short, False, date=20200215))
        ws.g[short, 'time'] = fx.write_grib(os.path.join(d, short + '_time.grib'), m + msgs(short, False, time=1200))
        ws.g[short, 'two-res'] = fx.write_grib(os.path.join(d, short + '_res.grib'), m + msgs(short, True, H, (30, 36, 42)))
        ws.g[short, 'second'] = fx.write_grib(os.path.join(d, short + '_second.grib'), msgs(short, True, H, (30, 36, 42)))
        ws.g[short, 'two-files'] = ws.g[short, 'holes']
        ws.g[short, 'unit-time'] = ws.g[short, 'zero'] = ws.g[short, 'holes']
    ws.g['t', 'level'] = fx.write_grib(os.path.join(d, 'lev.grib'), [x for l in (500, 850) for x in msgs('t', True, level=l, level_type='pl')])
    fx.write_grib(os.path.join(d, 'geo.grib'), geo)
    ws.env.reset()
    ws.geo = os.path.join(d, 'geo.grib')
    sut.cli(['-g', ws.geo])


def requests(case, ws):
    a, x = case['agg'], case.get('extra')
    short = 'tp' if a == 'accumulation' else ('t' if x == 'level' else '2t')
    agg = None
    if a:
        agg = {'@step': 12, '@type': a.split('-')[0]}
        if a == 'average-half':
            agg['@halfweights'] = True
        if x == 'zero':
            agg['@forceZeroArray'] = 'true'
    conv = {None: None, 'offset': {'2t': 'k2c', 'tp': 'm2mm_nocut', 't': 'k2c'}[short], 'cut': {'2t': 'cut', 'tp': 'm2mm', 't': 'k2c'}[short]}[case['conv']]
    corr = None
    if case['corr']:
        corr = {'formula': 'p+gem*0.0065-dem*0.0065', 'gem': 'z*0.102', 'dem': ws.dem}
    g = ws.g[short, x] if x else (ws.g[short, case['data'], 'own'] if case['corr'] == 'own' else ws.g[short, case['data']])
    common = dict(short=short, mode=case['mode'], aggregation=agg, conversion=conv, correction=corr)
    cli, top, param = [], {}, {}
    s, e = {'all': (None, None), 'start': (12, None), 'end': (None, 18), 'both': (12, 18)}[case['sel']]
    if s is not None:
        cli += ['-s', s]
    if e is not None:
        cli += ['-e', e]
    top.update(start=s, end=e)
    if x in ('member', 'member0'):
        n = 2 if x == 'member' else 0
        cli += ['-m', n]
        top['perturbationNumber'] = n
    if x == 'date':
        cli += ['-D', 20200215]
        top['dataDate'] = 20200215
    if x == 'time':
        cli += ['-T', 1200]
        top['dataTime'] = 1200
    if x == 'level':
        param = {'level': 850}
    if x == 'two-files':
        f2 = ws.g[short, 'second']
        cli += ['-I', f2]
        top['inputFile2'] = f2
    out = {'unitTime': '12'} if x == 'unit-time' else {}
    c = dict(common, param={'@' + k: v for k, v in param.items()}, outmaps={'@' + k: v for k, v in out.items()})
    p = dict(common, param=param, outmaps=out, **top)
    return g, cli, c, p


def check(case, ws):
    from .. import scene
    g, args, c, p = requests(case, ws)
    bad = []
    err, got = None, []
    try:
        got = scene.api(scene.api_dict(g, ws.t, **p))
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e)
    for fmt, rtol in (('netcdf', 1e-9), ('pcraster', 1e-5)):
        r = scene.run(ws.env, g, ws.t, fmt=fmt, args=args, **c)
        maps = r.maps()
        if (err is None) != (r.kind == 'ret' and r.value == 0 and bool(maps)):
            bad.append(('one-fails:%s' % fmt, 'API: %s; command line: %s, %d maps' % (err or '%d maps' % len(got), r.error, len(maps))))
            continue
        if err:
            continue
        if len(maps) != len(got):
            bad.append(('number-of-maps:%s' % fmt, 'API %s, command line %s' % ([str(k) for k, _ in got], r.names)))
            continue
        if fmt == 'netcdf' and [float(k.end_step) for k, _ in got] != r.nc()['time'].tolist():
            bad.append(('steps', 'API %s, netCDF %s' % ([str(k) for k, _ in got], r.nc()['time'].tolist())))
        for (k, v), m in zip(got, maps):
            if v.shape != m.shape or not np.array_equal(np.isnan(v), np.isnan(m)):
                bad.append(('missing-cells:%s' % fmt, '%s: API %s, command line %s' % (k, v.tolist(), m.tolist())))
                break
            if not np.allclose(v, m, rtol=rtol, atol=rtol * 300 if fmt == 'pcraster' else 1e-9, equal_nan=True):
                bad.append(('values:%s' % fmt, '%s: API %s, command line %s' % (k, v.tolist(), m.tolist())))
                break
    return bad, {'outcomes': ['%d maps' % len(got) if err is None else err.split(':')[0] + err.split(':')[1][:30]]}
