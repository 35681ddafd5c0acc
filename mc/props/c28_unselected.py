"""C28: the result depends only on the messages selected, not on what else the file contains or on the order of the messages."""
import itertools

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C28', 'exploration'
TECHNIQUE = ('bounded exhaustive exploration of GRIB files extending a set of selected messages by others (and of orders of them), executed on the real tool; relational oracle: '
             'the outputs are those of the execution on the file with the selected messages alone')
NOTE = 'Complete over the product of base sets, kinds and steps of the other messages, their positions, selectors and requests listed in RULE.'
RULE = ('set of selected messages (types of step, missing values, two resolutions) x what distinguishes the others (level, date, time, member, parameter) x their steps '
        '(same, finer, later, only one) and contents (type of step, missing values, another grid) x position in the file (before, after, alternating) or permutations of the selected ones '
        'x request (plain, range, aggregations, conversion, file format, interpolation). non-trivial: the execution on the selected messages alone writes maps')
ASSUMPTIONS = ['selectors determine the messages: no selected messages share a step and level', 'the geopotential in the file is not among the other messages (it is used by the correction)']
CHUNK = 4
KEY = dict(level=850, level_type='pl', date=20200101, time=0)
SELECT = {'level': ({'@level': '850'}, []), 'date': ({}, ['-D', '20200101']), 'time': ({}, ['-T', '0']), 'pert': ({}, ['-m', '1']), 'short': ({}, [])}
DIFFERENT = {'level': dict(level=500), 'level-type': dict(level=0, level_type='sfc'), 'date': dict(date=20200102), 'time': dict(time=1200), 'pert': dict(pert=2), 'short': dict(short='2t')}
STEPS = {'same': (0, 6, 12, 18, 24), 'finer': (0, 3, 6, 9), 'later': (0, 6, 30, 36), 'first': (0,), 'last': (48,), 'coarser': (12, 24)}
CONTENT = {'plain': {}, 'accum': dict(step_type='accum', start=0), 'holes': dict(holes=True), 'grid': dict(grid=True)}
BASE = {
    'instant': [dict(end=e) for e in (0, 6, 12, 18, 24)],
    'accum': [dict(end=e, start=0, step_type='accum') for e in (6, 12, 18, 24)],
    'accum-instant-zero': [dict(end=0)] + [dict(end=e, start=0, step_type='accum') for e in (6, 12, 18, 24)],
    'avg': [dict(end=e, start=e - 6, step_type='avg') for e in (6, 12, 18, 24)],
    'holes': [dict(end=e, holes=e in (6, 18)) for e in (0, 6, 12, 18, 24)],
    'resolutions': [dict(end=e, coarse=e > 12) for e in (0, 6, 12, 18, 24)],
    'one': [dict(end=12)],
    'gap': [dict(end=e) for e in (0, 3, 6, 12, 24)],
}
REQUESTS = {
    'plain': {}, 'range': dict(args=['-s', '6', '-e', '18']), 'zero': dict(args=['-s', '0', '-e', '0']), 'pcraster': dict(fmt='pcraster'),
    'average': dict(aggregation={'@step': 6, '@type': 'average'}), 'average-12': dict(aggregation={'@step': 12, '@type': 'average'}, args=['-e', '24']),
    'half': dict(aggregation={'@step': 12, '@type': 'average', '@halfweights': True}),
    'accumulation': dict(aggregation={'@step': 6, '@type': 'accumulation'}), 'accumulation-start': dict(aggregation={'@step': 6, '@type': 'accumulation'}, args=['-s', '12', '-e', '24']),
    'force-zero': dict(aggregation={'@step': 12, '@type': 'accumulation', '@forceZeroArray': 'True'}),
    'instantaneous': dict(aggregation={'@step': 12, '@type': 'instantaneous'}), 'conversion': dict(conversion='m2mm'),
    'conversion-accumulation': dict(conversion='m2mm', aggregation={'@step': 12, '@type': 'accumulation'}),
    'api': dict(fmt='api', aggregation={'@step': 6, '@type': 'average'}), 'api-accumulation': dict(fmt='api', aggregation={'@step': 12, '@type': 'accumulation'}),
    'grib_nearest': dict(mode='grib_nearest'), 'bilinear': dict(mode='bilinear', aggregation={'@step': 6, '@type': 'average'}),
}


def cases(tier):
    q = tier == 'quick'
    out = []
    i = 0
    for b in BASE:
        for d in DIFFERENT:
            for s in STEPS:
                for c in CONTENT:
                    if s == 'first' and c == 'accum':
                        continue
                    for p in ('before', 'after', 'between'):
                        i += 1
                        if q and (i + list(BASE).index(b)) % (13 if c != 'plain' else 4):
                            continue
                        out.append({'base': b, 'others': [[d, s, c]], 'position': p})
        n = len(BASE[b])
        perms = list(itertools.permutations(range(n)))
        for j, o in enumerate(perms):
            if q and n > 4 and j % 17 != 3:
                continue
            out.append({'base': b, 'order': list(o)})
        if not q:
            for (d, e) in itertools.combinations(DIFFERENT, 2):
                for s, t in itertools.product(STEPS, repeat=2):
                    out.append({'base': b, 'others': [[d, s, 'plain'], [e, t, 'holes']], 'position': 'between'})
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.target = fx.Target.regular(ws.dir('tgt'), 't', 4, 5, 49.3, 0.4)
    ws.grid, ws.coarse, ws.other = fx.Grid(6, 5, 50, 0), fx.Grid(4, 3, 50.2, -0.4, 2., 2.), fx.Grid(7, 6, 51, -1)
    ws.memo = {}


def message(ws, m, k, **key):
    m = dict(m)
    g = ws.coarse if m.pop('coarse', False) else ws.other if m.pop('grid', False) else ws.grid
    holes = m.pop('holes', False)
    v = 2. + k * 3 + m['end'] * .5 + np.cos(np.arange(g.n) * 1.1 + k)
    if holes:
        v[k % 3::4] = np.nan
    return dict(dict(grid=g, values=v, short='tp', **KEY), **m, **key)


def run(ws, f, r, sel):
    from .. import scene
    q = dict(REQUESTS[r])
    param, args = {}, []
    for s in sel:
        param.update(SELECT[s][0])
        args += SELECT[s][1]
    fmt = q.pop('fmt', 'netcdf')
    ws.env.fresh('tables')
    if fmt == 'api':
        top = {'pert': dict(perturbationNumber=1), 'date': dict(dataDate=20200101), 'time': dict(dataTime=0)}
        kw = {k: v for x in sel if x in top for k, v in top[x].items()}
        try:
            res = scene.api(scene.api_dict(f, ws.target, short='tp', param={k.lstrip('@'): v for k, v in param.items()}, outmaps={'unitTime': 6}, **kw, **q))
        except Exception as e:
            return {'end': ('exc', type(e).__name__), 'maps': []}
        return {'end': ('ret', 0), 'names': [str(k) for k, _ in res], 'maps': [v for _, v in res]}
    res = scene.run(ws.env, f, ws.target, fmt=fmt, short='tp', param=param, args=args + q.pop('args', []), mode=q.pop('mode', 'nearest'), outmaps={'@unitTime': 6}, **q)
    out = {'end': (res.kind, res.value if res.kind != 'exc' else type(res.value).__name__), 'names': res.names}
    maps = res.maps()
    out['maps'] = [m for m in maps]
    if fmt == 'netcdf' and maps:
        d = res.nc()
        out.update(time=list(d['time']), units=d['units'], name=d['name'], attrs={k: str(v) for k, v in d['attrs'].items()})
    return out


def difference(a, b):
    for k in a:
        if k == 'maps' or a[k] == b.get(k):
            continue
        return 'different-' + ('end' if k in ('end', 'names') else k), '%s: %s; with the selected messages alone: %s' % (k, b.get(k), a[k])
    for i, (x, y) in enumerate(zip(a['maps'], b['maps'])):
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            j = np.argwhere(~((x == y) | np.isnan(x) & np.isnan(y)))[0]
            return 'different-values', 'map %d cell %s: %s; with the selected messages alone: %s' % (i + 1, tuple(j), y[tuple(j)], x[tuple(j)])
    return None


def check(case, ws):
    b = case['base']
    others = case.get('others', [])
    member = any(o[0] == 'pert' for o in others)
    key = dict(pert=1) if member else {}
    base = [message(ws, m, i, **key) for i, m in enumerate(BASE[b])]
    # members, and only the selectors needed
    sel = sorted({o[0].split('-')[0] for o in others})
    full = [s for s in ('level', 'date', 'time', 'pert') if s != 'pert' or member]
    if others:
        extra = []
        for j, (d, s, c) in enumerate(others):
            for i, e in enumerate(STEPS[s]):
                kw = dict(CONTENT[c])
                if e == 0:
                    kw = {k: v for k, v in kw.items() if k not in ('step_type', 'start')}
                extra.append(message(ws, dict(kw, end=e), 50 + 7 * i + 30 * j, **dict(key, **DIFFERENT[d])))
        if case['position'] == 'before':
            msgs = extra + base
        elif case['position'] == 'after':
            msgs = base + extra
        else:
            msgs = []
            for x, y in itertools.zip_longest(extra, base):
                msgs += [m for m in (x, y) if m]
    else:
        msgs = [base[i] for i in case['order']]
    alone = ws.env.grib(base, 'alone.grib')
    f = ws.env.grib(msgs, 'all.grib')
    bad, n, non = [], 0, 0
    for r in REQUESTS:
        if r != 'plain' and b == 'resolutions' and REQUESTS[r].get('aggregation') and 'bilinear' == r:
            continue
        for s in ([sel, full] if others and sel != full else [sel]):
            k = (b, member, r, tuple(s))
            if k not in ws.memo:
                ws.memo[k] = run(ws, alone, r, s)
            e = ws.memo[k]
            if e['end'][0] == 'exc':
                # refused (see the properties of the aggregations)
                pass
            g = run(ws, f, r, s)
            n += 1
            non += bool(e['maps'])
            d = difference(e, g)
            if d:
                bad.append((d[0], 'request %s selectors %s: %s' % (r, s, d[1])))
        if len(bad) > 4:
            break
    return bad, {'evaluations': n, 'distinct': non}
