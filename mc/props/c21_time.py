"""C21: decoding the time coordinate of each map gives reference time plus step."""
import datetime
import itertools
import os
import re

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C21', 'exploration'
TECHNIQUE = 'exhaustive enumeration of reference times, step units of the input and of the output, step sets and aggregations on the real tool; the time axis is decoded and compared'
NOTE = 'Complete over the stated product. Steps that are not whole hours may be refused, never written with a wrong time.'
RULE = ('reference date x reference time x GRIB edition x step unit of the messages x step set x output step unit (documented, unknown and unsupported ones) x aggregation x order of the messages '
        'x option on the command line or in the command file. Non-trivial: an output was written')
ASSUMPTIONS = ['GRIB2 messages at step 0 in units other than hours may be refused (their step is a string in eccodes 2.40), never written with a wrong time', 'units 3h, 6h and 12h steps are multiples of that time as documented', 'all messages of a file have the same reference time']
CHUNK = 2
CASE_TIMEOUT = 600

HOURS = {'s': 1 / 3600., 'm': 1 / 60., 'h': 1, '3h': 3, '6h': 6, '12h': 12, 'D': 24}
OUT = [None, 's', 'm', 'h', '3h', '6h', '12h', 'D', 'M', 'C', 'minutes']
DATES = [20200101, 19991231, 20200229, 20210228, 20241231]
TIMES = [0, 30, 600, 1200, 2345]
NAMES = {'seconds': 1 / 3600., 'minutes': 1 / 60., 'hours': 1, '3h steps': 3, '6h steps': 6, '12h steps': 12, 'days': 24}
# steps in hours
SETS = {'one': [6], 'zero': [0], 'days': [24, 48, 72], 'six': [0, 6, 12, 18, 24], 'odd': [1, 2, 5, 7, 31], 'long': [240, 360, 5160, 8784], 'late': [100, 103, 106], 'half': [.5, 1, 1.5], 'quarter': [.25, .5],
        'mixed': [1, 1.5, 3]}
AGG = {'accumulation': [12, 24], 'average': [12, 24], 'instantaneous': [0, 12, 24]}


def cases(tier):
    q = tier == 'quick'
    out = []
    for d, t in itertools.product(DATES, TIMES):
        out.append({'date': d, 'time': t, 'sets': ['six', 'one', 'zero'], 'edition': 1 + d % 2, 'unit': None})
    for e, u in itertools.product((1, 2), (None, 's', 'm', '15m', '30m', 'h', '3h', '6h', '12h', 'D')):
        out += [{'date': 20200229, 'time': 1200, 'sets': [s], 'edition': e, 'unit': u} for s in SETS]
    if not q:
        out += [{'date': d, 'time': t, 'sets': list(SETS), 'edition': e, 'unit': u} for d in DATES for t in TIMES for e in (1, 2) for u in (None, 'm', 'D')]
    for a, e in itertools.product(AGG, (1, 2)):
        out += [{'date': d, 'time': t, 'sets': ['six'], 'edition': e, 'unit': None, 'agg': a} for d in DATES for t in (TIMES if not q else TIMES[1:4:2])]
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.t = fx.Target.regular(ws.dir('tgt'), 't', 2, 2, 50., 0.)
    ws.grid = fx.Grid(2, 2, 50, 0)


def check(case, ws):
    import eccodes
    from netCDF4 import Dataset
    from .. import scene
    bad, n, runs, refused = [], 0, 0, 0
    start = datetime.datetime.strptime('%d%04d' % (case['date'], case['time']), '%Y%m%d%H%M')
    agg = case.get('agg')

    def fail(what, msg, k):
        if what not in {b[0] for b in bad}:
            bad.append((what, '%s: %s' % (k, msg)))
    for sname in case['sets']:
        steps = SETS[sname]
        u = case['unit']
        msgs = []
        try:
            for h in steps:
                n_u = h * 60. / {'15m': 15, '30m': 30}[u] if u in ('15m', '30m') else h / HOURS[u or ('h' if h == int(h) else 'm')]
                if n_u != round(n_u):
                    raise ValueError
                kw = dict(short='tp', step_type='accum', start=0) if agg == 'accumulation' else dict(short='2t')
                msgs.append(fx.grib_message(ws.grid, h * 10 + np.arange(4.), end=int(round(n_u)), step_units=u or (None if h == int(h) else 'm'), date=case['date'], time=case['time'],
                                            edition=case['edition'], **kw))
        except (ValueError, eccodes.CodesInternalError):
            # cannot be encoded
            continue
        whole = all(h == int(h) for h in steps)
        for o, order, source in itertools.product(OUT, ('sorted', 'reversed'), ('cli', 'json')):
            if source == 'json' and order != 'sorted' or o is None and source == 'cli':
                continue
            runs += 1
            k = (sname, o, order, source)
            g = ws.env.grib(msgs if order == 'sorted' else msgs[::-1])
            args = ['-U', o] if o and source == 'cli' else []
            r = scene.run(ws.env, g, ws.t, 'netcdf', args=args, short='tp' if agg == 'accumulation' else '2t',
                          aggregation={'@step': 12, '@type': agg, '@halfweights': False} if agg else None, outmaps={'@outputStepUnits': o} if o and source == 'json' else None)
            if not r.ok:
                if whole and not (case['edition'] == 2 and 0 in steps and u not in (None, 'h')):
                    fail('refused', r.error, k)
                refused += 1
                continue
            n += 1
            want = AGG[agg] if agg else steps
            ds = Dataset(os.path.join(r.out, r.names[0]))
            try:
                t = ds['time']
                m = re.fullmatch(r'(.+) since (\d{4})-(\d\d?)-(\d\d?) (\d\d?):(\d\d?):(\d\d?)', t.units)
                if not m or m.group(1) not in NAMES:
                    fail('units', t.units, k)
                    continue
                if o in HOURS and NAMES[m.group(1)] != HOURS[o]:
                    fail('unit', '%s requested, %r written' % (o, t.units), k)
                if o not in HOURS and NAMES[m.group(1)] != 1 and whole:
                    fail('unit', '%s requested, %r written' % (o, t.units), k)
                if t.calendar not in ('proleptic_gregorian', 'gregorian', 'standard'):
                    fail('calendar', t.calendar, k)
                ref = datetime.datetime(*[int(x) for x in m.groups()[1:]])
                got = [(ref - start).total_seconds() + float(v) * NAMES[m.group(1)] * 3600 for v in np.ma.getdata(t[:])]
                exp = [h * 3600. for h in want]
                if len(got) != len(exp) or np.abs(np.array(got) - exp).max() > 0.05:
                    fail('time', 'seconds from the reference time: %s instead of %s (%s, %s)' % (got, exp, t[:].tolist(), t.units), k)
                elif sorted(got) != got:
                    fail('order', got, k)
                elif not agg:
                    v = [v for v in ds.variables if v not in ('lat', 'lon', 'time')][0]
                    first = ds[v][:, 0, 0].tolist()
                    if np.abs(np.array(first) - [h * 10 for h in want]).max() > 1e-3:
                        fail('map', 'values %s at %s' % (first, want), k)
            finally:
                ds.close()
    return bad, {'evaluations': runs, 'distinct': n, 'refused_sub_hourly': refused}
