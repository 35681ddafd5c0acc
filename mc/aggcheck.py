"""Exploration of the temporal aggregations against mc/ref.py (shared by C02, C03, C04)."""
import itertools

import numpy as np

from . import fixtures as fx
from . import ref

STEP_TYPES = {'accumulation': ['accum', 'instant'], 'average': ['instant', 'avg', 'accum'],
              'instantaneous': ['instant', 'avg', 'accum']}


def message_sets(tier):
    sets = set()
    def subsets(e):
        for n in range(1, len(e) + 1):
            sets.update(itertools.combinations(e, n))
    if tier == 'quick':
        subsets(range(0, 6))
        subsets((0, 3, 6, 9, 12))
    else:
        subsets(range(0, 9))
        subsets((0, 3, 6, 9, 12, 18, 24))
        subsets((0, 6, 12, 18, 24, 30, 36))
        subsets((0, 4, 6, 7, 12, 13))
    return sorted(sets, key=lambda s: (len(s), s))


ORDERS = {'sorted': lambda s: list(s), 'reversed': lambda s: list(s)[::-1],
          'rotated': lambda s: list(s)[len(s) // 2:] + list(s)[:len(s) // 2]}


def cases(tier, kind):
    out = []
    for s in message_sets(tier):
        for order in (['sorted', 'reversed'] if tier == 'quick' and len(s) < 5 else list(ORDERS)):
            if order != 'sorted' and len(s) == 1:
                continue
            for variant in ('plain', 'missing'):
                out.append({'layer': 'aggregator', 'kind': kind, 'steps': list(s), 'order': order, 'variant': variant,
                            'deep': tier != 'quick'})
    # through the command line tool
    cli_sets = [(0, 6, 12, 18, 24), (6, 12, 18, 24), (0, 12, 24), (0, 3, 6, 12, 24), (12, 24), (24,), (0, 6, 24), (0, 5, 7, 12)]
    if tier != 'quick':
        cli_sets += [c for n in (1, 2, 3, 4) for c in itertools.combinations((0, 3, 6, 9, 12, 18, 24), n) if c not in cli_sets]
    for s in cli_sets:
        for fmt in ('pcraster', 'netcdf'):
            for st in STEP_TYPES[kind]:
                if st != 'instant' and s == (0,):
                    continue
                out.append({'layer': 'cli', 'kind': kind, 'steps': list(s), 'order': 'rotated', 'step_type': st, 'fmt': fmt,
                            'deep': tier != 'quick'})
    return out


def field(steps, variant):
    """vals by step; cell i = indicator of message i, cell n = t^2+1, then (missing variant) cell n+1+i missing in message i."""
    n = len(steps)
    vals = {}
    for i, t in enumerate(steps):
        v = np.zeros(2 * n + 2)
        v[i] = 8.0
        v[n] = t * t + 1
        v[n + 1] = -3.0 - t
        v[n + 2:] = 16.0 * (i + 1)
        if variant == 'missing':
            v[n + 2 + i] = np.nan
        vals[t] = v
    return vals


def as_input(v):
    m = np.isnan(v)
    if m.any():
        return np.ma.masked_where(m, np.where(m, 9999.0, v))
    return v.copy()


def as_output(v):
    return np.where(np.ma.getmaskarray(v), np.nan, np.ma.getdata(v).astype(float))


def requests(steps, deep):
    last = max(steps)
    starts = sorted({0, 1, 2, 3, 6} | set(steps))
    for step in ((1, 2, 3, 6) if not deep else (1, 2, 3, 4, 5, 6, 12, 24)):
        if step > last:
            continue
        for start in starts:
            if start and start < step or start > last:
                continue
            for end in sorted({last, max(last - 1, 0), last // 2 + 1, max(last - step, 0)}):
                if end < start or end < step:
                    continue
                yield start, end, step


def variants(kind):
    if kind == 'accumulation':
        return [dict(unit=u, force_zero=z, step_type=s) for u in (24, 1) for z in (False, True) for s in ('accum',)] + \
               [dict(unit=u, force_zero=False, step_type='instant') for u in (6, 7)]
    if kind == 'average':
        return [dict(halfweights=h, step_type=s) for h in (False, True) for s in ('instant', 'avg')] + \
               [dict(halfweights=h, step_type='accum') for h in (False, True)]
    return [dict(step_type=s) for s in ('instant', 'accum', 'avg')]


def setup(ws, kind):
    from . import scene
    ws.env = scene.Env(ws)
    ws.grid = fx.Grid(7, 4, 52, 10)
    ws.target = fx.Target.regular(ws.dir('tgt'), 't', 4, 7, 52, 10)


def check(case, ws):
    return check_aggregator(case) if case['layer'] == 'aggregator' else check_cli(case, ws)


def check_aggregator(case):
    from pyg2p import Step
    from pyg2p.exceptions import ApplicationException
    from pyg2p.main.manipulation.aggregator import Aggregator
    kind, steps = case['kind'], case['steps']
    vals = field(steps, case['variant'])
    order = ORDERS[case['order']](steps)
    bad, n, non = [], 0, 0
    step_in = steps[1] - steps[0] if len(steps) > 1 else steps[0]
    for start, end, step in requests(steps, case['deep']):
        for v in variants(kind):
            n += 1
            tag = 'start=%s end=%s step=%s %s' % (start, end, step, v)
            try:
                exp = ref.aggregate(kind, vals, start, end, step, v.get('unit', 24), v.get('force_zero', False),
                                    v.get('halfweights', False), v['step_type'], step_in)
            except ref.Undefined:
                continue
            except ref.Refused:
                exp = None
            given = {}
            for t in order:
                s0 = 0 if v['step_type'] != 'instant' else t
                given[Step(s0, t, 4, step_in, 0)] = as_input(vals[t])
            before = {k: as_output(a) for k, a in given.items()}
            a = Aggregator(aggr_step=step, aggr_type=kind, aggr_halfweights=v.get('halfweights', False), input_step=step_in,
                           step_type=v['step_type'], start_step=start, end_step=end, unit_time=v.get('unit', 24), mv_grib=9999.0,
                           force_zero_array=v.get('force_zero', False))
            if exp is None:
                try:
                    a.do_manipulation(given)
                    bad.append(('not-refused', tag))
                except ApplicationException:
                    non += 1
                continue
            real = a.get_real_start_end_steps()
            if tuple(int(x) for x in real) != ((max(0, start - step) if step_in else start), end):
                bad.append(('needed-messages', '%s: asks for messages %s' % (tag, real)))
            try:
                got = a.do_manipulation(given)
            except Exception as e:
                bad.append(('aggregation-fails:%s' % type(e).__name__, '%s %s: %s' % (steps, tag, e)))
                continue
            keys = {(int(k.start_step), int(k.end_step)): k for k in got}
            if set(keys) != set(exp) or len(keys) != len(got):
                bad.append(('wrong-steps', '%s: %s, expected %s' % (tag, sorted(keys), sorted(exp))))
                continue
            if exp:
                non += 1
            for k, e in exp.items():
                s = keys[k]
                if (s.resolution, s.level) != (4, 0):
                    bad.append(('wrong-key', '%s %r' % (tag, s)))
                d = ref.same(as_output(got[s]), e)
                if d:
                    bad.append(('missing-values' if ref.is_missing_kind(d) else 'wrong-value', 'messages %s %s interval %s: %s' % (steps, tag, k, d)))
            for k, b in before.items():
                if ref.same(as_output(given[k]), b):
                    bad.append(('input-changed', '%s %r' % (tag, k)))
            if len(bad) > 5:
                return bad, {'evaluations': n, 'distinct': non}
    return bad, {'evaluations': n, 'distinct': non}


def cli_requests(kind, steps, deep):
    last = max(steps)
    for step in (6, 12, 24) if not deep else (1, 3, 6, 12, 24):
        if step > last:
            continue
        for ts in (None, 0, step, 12):
            for te in (None, last, 12):
                s, e = ts or 0, te or last
                if s and s < step or e > last or e < max(s, step):
                    continue
                if kind == 'accumulation':
                    for unit, fz in ((24, 'False'), (None, None), (6, 'True'), (10, 'False')):
                        yield ts, te, step, dict(unit=unit, fz=fz)
                elif kind == 'average':
                    for hw in (False, True):
                        yield ts, te, step, dict(hw=hw)
                else:
                    yield ts, te, step, {}


def check_cli(case, ws):
    from . import scene
    kind, steps, st = case['kind'], case['steps'], case['step_type']
    g = ws.grid
    msgs = []
    for i, t in enumerate(ORDERS[case['order']](steps)):
        v = np.arange(g.n) * (i + 1) + 2.0 * t
        v[i] = np.nan
        msgs.append(dict(grid=g, values=v, short='tp', end=t, start=0, step_type=st if t else 'instant'))
    f = ws.env.grib(msgs)
    bad, n, non = [], 0, 0
    for ts, te, step, v in cli_requests(kind, steps, case['deep']):
        n += 1
        req = dict(short='tp', tstart=ts, tend=te,
                   agg=dict(kind=kind, step=step, unit=v.get('unit') or 24, force_zero=v.get('fz') == 'True', halfweights=v.get('hw', False)))
        refused = False
        try:
            sel, *_ = ref.series(msgs, req)
            types = {m['step_type'] for m in sel}
            if len(types) > 1 and kind != 'accumulation':
                # mixed step types (instant message at hour 0): which of them decides is not specified
                continue
            exp = ref.steps_of(msgs, req, step_type=next(iter(types)) if len(types) == 1 else 'accum')
        except (ref.Undefined, ref.NothingFound):
            continue
        except ref.Refused:
            refused = True
        if not refused and not exp:
            continue
        ag = {'@step': step, '@type': kind}
        if v.get('fz') is not None:
            ag['@forceZeroArray'] = v['fz']
        if v.get('hw'):
            ag['@halfweights'] = True
        args = (['-s', ts] if ts is not None else []) + (['-e', te] if te is not None else [])
        outm = {'@unitTime': str(v['unit'])} if v.get('unit') else ({'@unitTime': None} if 'unit' in v else {})
        r = scene.run(ws.env, f, ws.target, fmt=case['fmt'], short='tp', mode='nearest', aggregation=ag, args=args, outmaps=outm)
        tag = 'messages %s (%s) tstart=%s tend=%s step=%s %s' % (steps, st, ts, te, step, v)
        if refused:
            if r.kind == 'exc' or r.ok or any(n_ for n_ in r.names if not n_.endswith('.nc')):
                bad.append(('not-refused', tag + ' ' + r.error))
            else:
                non += 1
            continue
        if not r.ok:
            bad.append(('execution-fails', tag + ' ' + r.error))
            continue
        maps = r.maps()
        if len(maps) != len(exp):
            bad.append(('wrong-steps', '%s: %d maps, expected %s' % (tag, len(maps), list(exp))))
            continue
        non += 1
        if case['fmt'] == 'netcdf':
            t = r.nc()['time']
            if list(t) != [k[1] for k in exp]:
                bad.append(('wrong-steps', '%s: times %s, expected %s' % (tag, list(t), list(exp))))
        for (k, e), m in zip(exp.items(), maps):
            d = ref.same(m, e, 2e-6, 1e-5)
            if d:
                bad.append(('missing-values' if ref.is_missing_kind(d) else 'wrong-value', '%s interval %s: %s' % (tag, k, d)))
    return bad[:6], {'evaluations': n, 'distinct': non}
