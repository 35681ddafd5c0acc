"""C05: the configured conversion is applied once, to every valid value, and cut-off after the aggregation."""
import numpy as np

from .. import fixtures as fx
from .. import ref

PROPERTY, LEVEL = 'C05', 'exploration'
TECHNIQUE = 'bounded exhaustive execution of the real tool over functions, cut-off settings and value patterns, compared with a reference model'
NOTE = ('Complete over the stated product of conversion functions, cut-off spellings, aggregations, missing-value codes and outputs. '
        'Valid values equal to the missing-value code of the GRIB file are outside the domain.')
RULE = ('conversion function x spelling of cut-off x aggregation x missing-value code x layout of missing values x output channel; '
        'values include negatives, zeros and values the cut-off decides; every output cell is compared. '
        'non-trivial: the conversion changes some value of the run')
ASSUMPTIONS = ['no valid value equals the missing-value code of the GRIB message']
CHUNK = 4
FUNCS = {'sub': ('x=x-273.15', lambda x: x - 273.15), 'mul': ('x=x*1000', lambda x: x * 1000), 'id': ('x=x', lambda x: x),
         'piece': ('x=where(x<4,0,x)', lambda x: np.where(x < 4, 0.0, x) + 0 * x), 'poly': ('x=(x-1)*(x+2)', lambda x: (x - 1) * (x + 2)),
         'two': ('x=x/10+x', lambda x: x / 10 + x), 'neg': ('x=-x', lambda x: -x),
         'eq': ('x=where(x==0,7,x)-5', lambda x: np.where(x == 0, 7.0, x) - 5 + 0 * x), 'const': ('x=5', lambda x: 5.0 + 0 * x),
         'nox': ('x-1', lambda x: x - 1), 'div': ('x=x/1000', lambda x: x / 1000)}
CUTS = {'True': True, 'true': True, 'Yes': True, 'TRUE': True, 'False': False, 'false': False, 'no': False, 'absent': False, 'boolT': True, 'boolF': False}
AGGS = {'none': None, 'acc': {'kind': 'accumulation', 'step': 12}, 'avg': {'kind': 'average', 'step': 6}, 'inst': {'kind': 'instantaneous', 'step': 6}}
MVS = [9999.0, -9999.0, 1e20, -1.0, 0.5]
LAYOUTS = ['none', 'some', 'column', 'whole']
STEPS = (0, 6, 12, 24)
POOL = [-300.0, -4.0, -0.75, 0.0, 0.25, 3.75, 4.0, 4.25, 273.25, 1000.0, 31.0]


def cases(tier):
    out = []
    for fn in FUNCS:
        for cut in (['True', 'False'] if tier == 'quick' else CUTS):
            for agg in AGGS:
                for mv in (MVS[:3] if tier == 'quick' else MVS):
                    for lay in LAYOUTS:
                        for ch in ('pcraster', 'netcdf', 'api'):
                            out.append(dict(fn=fn, cut=cut, agg=agg, mv=mv, layout=lay, channel=ch))
    if tier == 'quick':
        for cut in CUTS:
            for ch in ('pcraster', 'api'):
                out.append(dict(fn='poly', cut=cut, agg='inst', mv=9999.0, layout='some', channel=ch))
    for kind in ('unknown-id', 'unknown-param', 'prefix-id', 'case-id'):
        for single in (False, True):
            for ch in ('pcraster', 'netcdf', 'api'):
                out.append(dict(kind=kind, single=single, channel=ch))
    return out


def parameters():
    convs = []
    for fn, (text, _) in FUNCS.items():
        for cut in CUTS:
            c = {'@id': '%s_%s' % (fn, cut), '@target': '', '@function': text, '@unit': 'C'}
            if cut.startswith('bool'):
                c['@cutOffNegative'] = cut == 'boolT'
            elif cut != 'absent':
                c['@cutOffNegative'] = cut
            convs.append(c)
    base = {'@description': 'd', '@unit': 'K'}
    return {'2t': dict(base, **{'@shortName': '2t', 'Conversion': convs}), 't': dict(base, **{'@shortName': 't', 'Conversion': convs[0]})}


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws, parameters=parameters())
    ws.grid = fx.Grid(5, 4, 52, 10)
    ws.target = fx.Target.regular(ws.dir('tgt'), 't', 4, 5, 52, 10)


def messages(ws, case, short='2t'):
    out = []
    for m, s in enumerate(STEPS):
        v = np.array([POOL[(p * 3 + m * 5) % len(POOL)] + (p % 3) * 0.5 * m for p in range(ws.grid.n)])
        lay = case['layout']
        if lay == 'some':
            v[(np.arange(ws.grid.n) + m) % 5 == 0] = np.nan
        elif lay == 'column':
            v[3] = v[8] = v[13] = np.nan
        elif lay == 'whole' and m == 1:
            v[:] = np.nan
            v[0] = 3.0
        out.append(dict(grid=ws.grid, values=v, short=short, end=s, mv=case['mv']))
    return out


def outputs(ws, f, channel, **kw):
    """(ok, maps or error)"""
    from .. import scene
    if channel == 'api':
        from pyg2p.exceptions import ApplicationException
        try:
            return True, [a for _, a in scene.api(scene.api_dict(f, ws.target, **kw))]
        except ApplicationException as e:
            return False, str(e)
    r = scene.run(ws.env, f, ws.target, fmt=channel, **kw)
    if r.ok:
        return True, r.maps()
    if r.kind == 'exc' or r.value == 0 or [n for n in r.names if not n.endswith('.nc')]:
        return None, '%s, files %s' % (r.error, r.names)
    return False, r.error


def check(case, ws):
    if 'kind' in case:
        short = 't' if case['single'] else '2t'
        conv = {'unknown-id': 'nothing', 'prefix-id': 'sub', 'case-id': 'SUB_True', 'unknown-param': 'sub_True'}[case['kind']]
        f = ws.env.grib([dict(grid=ws.grid, values=np.arange(ws.grid.n), short=short, end=6)])
        if case['kind'] == 'unknown-param':
            short = 'sd'
            f = ws.env.grib([dict(grid=ws.grid, values=np.arange(ws.grid.n), short=short, end=6)])
        ok, r = outputs(ws, f, case['channel'], short=short, conversion=conv)
        return [] if ok is False else [('not-refused', '%s: %s' % (case, r))]
    msgs = messages(ws, case)
    f = ws.env.grib(msgs)
    given = [dict(m, values=v) for m, (_, v) in zip(msgs, fx.read_grib(f))]
    agg = AGGS[case['agg']]
    fn = FUNCS[case['fn']][1]
    exp = ref.steps_of(given, dict(short='2t', agg=agg and dict(agg, unit=24), function=fn, cut=CUTS[case['cut']]), 'instant')
    ag = agg and {'@step': agg['step'], '@type': agg['kind']}
    ok, maps = outputs(ws, f, case['channel'], conversion='%s_%s' % (case['fn'], case['cut']), aggregation=ag)
    if not ok:
        return [('execution-fails', maps)]
    if len(maps) != len(exp):
        return [('wrong-number-of-maps', '%d, expected %s' % (len(maps), list(exp)))]
    bad = []
    for (k, e), m in zip(exp.items(), maps):
        d = ref.same(m, e, 3e-7, 1e-9)
        if d:
            neg = CUTS[case['cut']] and 'expected 0.0' in d
            bad.append(('missing-values' if ref.is_missing_kind(d) else 'cut-off' if neg else 'wrong-value', 'step %s: %s' % (k, d)))
    return bad[:3], {'evaluations': 1, 'distinct': int(case['fn'] != 'id')}
