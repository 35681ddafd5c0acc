"""C25: data with two spatial resolutions give one consistent series."""
import itertools
import os

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C25', 'exploration'
TECHNIQUE = ('exhaustive enumeration of layouts of two-resolution data (change step, steps, order and number of files) x request aspects on the real tool, compared with the '
             'executions of the same request on each resolution alone')
NOTE = 'Differential: the series must be the maps of the first resolution up to the change step followed by those of the second one after it, each as its resolution alone gives.'
RULE = ('message layout (steps of both resolutions, sharing the change step or not) x one file (in order, interleaved, second resolution first) or two files x aggregation x method x '
        'conversion x correction x end step x member x format. Non-trivial: every one (both resolutions contribute maps)')
ASSUMPTIONS = ['aggregations are requested on data whose two resolutions share the message of the change step, which is the end of an aggregation interval (as in the documented example)',
               'without aggregation the map of a shared step may come from either resolution']
CHUNK = 4
MODES = ['nearest', 'invdist', 'bilinear', 'triangulation', 'grib_nearest', 'grib_invdist']
LAYOUTS = {'even': ((0, 6, 12), (12, 18, 24)), 'late': ((6, 12), (12, 24, 36)), 'one-interval': ((6, 12), (12, 18, 24)), 'long': ((0, 6, 12, 18, 24), (24, 36, 48)),
           'disjoint': ((0, 6, 12), (18, 24)), 'single': ((6,), (12,))}
AGG = [None, 'accumulation', 'accumulation-instant', 'average', 'average-half', 'instantaneous']
FILES = ['one', 'interleaved', 'second-first', 'two']


def cases(tier):
    q = tier == 'quick'
    out = []
    for m, (l, _), a, f in itertools.product(MODES, LAYOUTS.items(), AGG, FILES):
        if a and l in ('disjoint', 'single'):
            continue
        for x in [None, 'holes', 'conv', 'corr', 'corr-own', 'end', 'member', 'pcraster', 'finer', 'api']:
            if q and x and (m not in ('nearest', 'grib_invdist') or (f in ('interleaved', 'second-first') and x not in (None, 'end', 'pcraster'))):
                continue
            if f in ('interleaved', 'second-first') and x == 'corr-own':
                continue
            for step in ((12,) if a else (None,)) if l != 'one-interval' or not a else (12, 6):
                out.append({'mode': m, 'layout': l, 'agg': a, 'files': f, 'with': x, 'step': step})
    return out


def setup(ws):
    from .. import scene, sut
    ws.env = env = scene.Env(ws)
    ws.A, ws.H = fx.Grid(6, 5, 50, 0), fx.Grid(11, 9, 50, 0, .5, .5)
    ws.t = fx.Target.regular(ws.dir('tgt'), 't', 4, 5, 49.3, 0.4)
    ws.dem = fx.write_pcr(os.path.join(ws.dir('tgt'), 'dem.map'), 100. * (1 + np.arange(20).reshape(4, 5)), ws.t.origin[0], ws.t.origin[1], 1.)
    d = ws.dir('geo')
    ws.geo = {}
    env.reset()
    for k, g in (('A', ws.A), ('H', ws.H)):
        ws.geo[k] = [dict(grid=g, values=1000 + 300 * np.cos(np.arange(g.n) * .9 + len(ws.geo)), short='z', end=0)]
        sut.cli(['-g', fx.write_grib(os.path.join(d, k + '.grib'), [dict(ws.geo[k][0], values=ws.geo[k][0]['values'] * 2)])])
    ws.files = {}


def messages(ws, case):
    s1, s2 = LAYOUTS[case['layout']]
    g1, g2 = (ws.A, ws.H) if case['with'] == 'finer' else (ws.H, ws.A)
    a = case['agg'] or ''
    acc = a.startswith('accumulation')

    def m(g, s, res, pert=None):
        if acc:
            v = s * (0.01 + 0.001 * np.arange(g.n)) * (1 + .1 * res) + (pert or 0) * s
        else:
            v = 280 + 20 * np.sin(np.arange(g.n) * .3 + s) + 3 * res + (pert or 0)
        if case['with'] == 'holes':
            v[[5, 17 + s % 3]] = np.nan
        kw = dict(grid=g, values=v, short='tp' if acc else '2t', end=s)
        if a == 'accumulation':
            kw.update(step_type='accum', start=0)
        if pert is not None:
            kw['pert'] = pert
        return kw
    perts = (1, 2) if case['with'] == 'member' else (None,)
    f = [m(g1, s, 1, p) for p in perts for s in s1]
    g = [m(g2, s, 2, p) for p in perts for s in s2]
    if case['with'] == 'corr-own':
        f += ws.geo['A' if g1 is ws.A else 'H']
        g += ws.geo['A' if g2 is ws.A else 'H']
    return f, g


def inputs(ws, case):
    key = tuple(case[k] for k in ('layout', 'agg', 'files', 'with'))
    if key not in ws.files:
        f, g = messages(ws, case)
        d = ws.dir('in', '_'.join(str(k) for k in key))
        one = {'one': f + g, 'two': f, 'second-first': g + f,
               'interleaved': [m for p in itertools.zip_longest(f, g) for m in p if m is not None]}[case['files']]
        ws.files[key] = [fx.write_grib(os.path.join(d, n), m) for n, m in (('both.grib', one), ('first.grib', f), ('second.grib', g))]
    return ws.files[key]


def check(case, ws):
    from .. import scene
    both, first, second = inputs(ws, case)
    s1, s2 = LAYOUTS[case['layout']]
    x, a = case['with'], case['agg']
    c = max(s1)
    end = s2[-2] if x == 'end' and len(s2) > 1 else None
    agg = None
    if a:
        agg = {'@step': case['step'], '@type': a.split('-')[0]}
        if a == 'average-half':
            agg['@halfweights'] = True
    acc = bool(a) and a.startswith('accumulation')
    cmd = dict(short='tp' if acc else '2t', mode=case['mode'], aggregation=agg)
    if x == 'conv':
        cmd['conversion'] = 'm2mm' if acc else 'k2c'
    if x in ('corr', 'corr-own'):
        cmd['correction'] = {'formula': 'p+gem*0.0065-dem*0.0065', 'gem': 'z*0.102', 'dem': ws.dem}
    fmt = 'pcraster' if x == 'pcraster' else 'netcdf'
    args = ['-m', 2] if x == 'member' else []
    two = case['files'] == 'two'

    def run(g, extra, out, api=False):
        if api:
            p = dict(zip(extra[::2], extra[1::2]))
            kw = {'inputFile2': p['-I']} if '-I' in p else {}
            try:
                r = scene.api(scene.api_dict(g, ws.t, start=p.get('-s'), end=p.get('-e'), **cmd, **kw))
            except Exception as e:
                return None, '%s: %s' % (type(e).__name__, e)
            return ([float(k.end_step) for k, _ in r], [v for _, v in r]), ''
        r = scene.run(ws.env, g, ws.t, fmt=fmt, args=args + extra, out=out, **cmd)
        if not r.ok:
            return None, r.error
        if not r.names:
            return ([], []), ''
        return (r.nc()['time'].tolist() if fmt == 'netcdf' else None, r.maps()), ''
    e = ['-e', end] if end is not None else []
    got, err = run(both, e + (['-I', second] if two else []), 'out', x == 'api')
    if got is None:
        return [('fails', err)]
    # the same request on each resolution alone
    e1 = ['-e', min(c, end) if end is not None else c]
    one, err1 = run(first, e1, 'out')
    if one is None:
        return [('reference', 'first resolution alone: %s' % err1)]
    last = end if end is not None else max(s2)
    if last <= c:
        want = [(t, [m]) for t, m in zip(times(s1, a, case['step'], min(c, last)), one[1])]
    else:
        if a:
            if c + case['step'] > last:
                two_maps = []
            else:
                r2, err2 = run(second, ['-s', c + case['step'], '-e', last], 'out')
                if r2 is None:
                    return [('reference', 'second resolution alone: %s' % err2)]
                two_maps = r2[1][1:] if a == 'instantaneous' else r2[1]
            want = [(t, [m]) for t, m in zip(times(s1, a, case['step'], c), one[1])]
            want += [(c + case['step'] * (i + 1), [m]) for i, m in enumerate(two_maps)]
        else:
            r2, err2 = run(second, ['-e', last], 'out')
            if r2 is None:
                return [('reference', 'second resolution alone: %s' % err2)]
            want = {}
            for t, m in list(zip(s1, one[1])) + list(zip([s for s in s2 if s <= last], r2[1])):
                want.setdefault(t, []).append(m)
            want = sorted(want.items())
    bad = []
    if got[0] is not None and got[0] != [float(t) for t, _ in want]:
        bad.append(('steps', 'maps for %s, expected %s' % (got[0], [t for t, _ in want])))
    elif len(got[1]) != len(want):
        bad.append(('number', '%d maps, expected those of %s' % (len(got[1]), [t for t, _ in want])))
    else:
        for m, (t, w) in zip(got[1], want):
            if not any(np.allclose(m, v, rtol=1e-6, atol=1e-6, equal_nan=True) for v in w):
                bad.append(('values', 'step %s: %s, expected %s' % (t, m.tolist(), [v.tolist() for v in w])))
                break
    return bad, {'outcomes': ['%d maps' % len(got[1])]}


def times(s1, a, step, c):
    if not a:
        return list(s1)
    if a == 'instantaneous':
        return list(range(0, c + 1, step))
    return list(range(step, c + 1, step))
