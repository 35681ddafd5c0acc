"""C01: missing data stay missing and valid data stay present, end to end."""
import itertools

import numpy as np

from .. import fixtures as fx
from .. import ref

PROPERTY, LEVEL = 'C01', 'exploration'
TECHNIQUE = 'bounded exhaustive execution of the real tool over missing-point layouts, compared with a reference model'
NOTE = 'Complete over the stated bounds (layouts of missing points, methods, aggregations, formats) on a 5x4 source grid; weights are measured on the tool itself.'
RULE = ('interpolation method x aggregation x conversion x output format x layout of missing source points over the messages '
        '(every single point in every message, pairs, first/all messages); the contribution of each source point is measured by '
        'executing unit fields; every cell of every output map is compared. non-trivial: some cell expected missing and some valid')
ASSUMPTIONS = ['which source points contribute to a cell (weights) is measured on the tool itself with complete unit fields; C08 and C09 check the weights']
CHUNK = 2
MODES = ['nearest', 'invdist', 'adw', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist']
STEPS = (0, 6, 12, 24)
AGGS = {'none': None,
        'acc6': {'kind': 'accumulation', 'step': 6}, 'acc12': {'kind': 'accumulation', 'step': 12},
        'acc6z': {'kind': 'accumulation', 'step': 6, 'force_zero': True},
        'avg12': {'kind': 'average', 'step': 12}, 'avg6': {'kind': 'average', 'step': 6},
        'avg12h': {'kind': 'average', 'step': 12, 'halfweights': True},
        'inst6': {'kind': 'instantaneous', 'step': 6}, 'inst12': {'kind': 'instantaneous', 'step': 12}}
CONV = {'none': (None, None, False), 'k2c': ('k2c', lambda x: x - 273.15, False), 'cut': ('cut', lambda x: x - 4, True), 'id': ('id', None, False)}


def patterns(tier, n):
    """Lists of (message index, point) that are missing."""
    pts = range(n)
    out = [[]]
    out += [[(m, p)] for m in (1, 2) for p in pts]
    out += [[(m, p) for m in range(4)] for p in pts]
    out += [[(0, p)] for p in (0, 7, 12)] + [[(3, p)] for p in (6, 13)]
    out += [[(1, p), (2, q)] for p, q in ((6, 7), (7, 8), (6, 12), (12, 13), (0, 19), (11, 12))]
    out += [[(m, p) for m in range(4) for p in (6, 7, 11, 12)]]
    out += [[(m, p) for m in range(4) for p in pts if p != 12]]
    if tier != 'quick':
        out += [[(1, p), (1, q)] for p, q in itertools.combinations(pts, 2)]
        out += [[(0, p), (2, q)] for p in pts for q in (6, 7, 11, 12)]
    return out


def cases(tier):
    out = []
    aggs = ['none', 'acc6', 'avg12', 'inst12', 'acc6z', 'avg12h'] if tier == 'quick' else list(AGGS)
    for mode in MODES:
        for fmt in ('pcraster', 'netcdf'):
            for agg in aggs:
                for conv in (('none', 'cut') if tier == 'quick' else CONV):
                    pats = patterns(tier, 20)
                    if tier == 'quick':
                        # every pattern is met with every method x format; aggregations share them out
                        k = aggs.index(agg) * 2 + (conv == 'cut')
                        pats = [pats[0], pats[-1], pats[-2]] + pats[k % 4::4]
                    for i in range(0, len(pats), 12):
                        out.append({'mode': mode, 'fmt': fmt, 'agg': agg, 'conv': conv, 'patterns': pats[i:i + 12]})
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.grid = fx.Grid(5, 4, 52, 10)
    clone = np.zeros((4, 4), bool)
    clone[0, 2] = clone[3, 1] = True
    coord = np.zeros((4, 4), bool)
    coord[2, 0] = True
    # cells inside the source grid, one exactly on a grid point column, clone and coordinate holes
    ws.targets = {'in': fx.Target.regular(ws.dir('tgt'), 'a', 4, 4, 51.4, 11, 0.75, clone_mask=clone),
                  'hole': fx.Target.regular(ws.dir('tgt'), 'b', 4, 4, 51.4, 10.3, 0.75, clone_mask=clone, coord_mask=coord),
                  'out': fx.Target.regular(ws.dir('tgt'), 'c', 4, 4, 55.3, 5.2, 1.5, clone_mask=clone)}
    ws.weights = {}


def weights(ws, mode, tname):
    if (mode, tname) not in ws.weights:
        from .. import scene
        g, n = ws.grid, ws.grid.n
        f = ws.env.grib([dict(grid=g, values=np.eye(n)[k] * 1024, end=k) for k in range(n)], 'unit.grib')
        r = scene.run(ws.env, f, ws.targets[tname], mode=mode, out='unit')
        if not r.ok:
            return r
        w = np.array([m.ravel() for m in r.maps()]).T / 1024
        ws.weights[(mode, tname)] = w
    return ws.weights[(mode, tname)]


def check(case, ws):
    from .. import scene
    bad, n, compared, mixed = [], 0, 0, set()
    g = ws.grid
    mode = case['mode']
    cid, fn, cut = CONV[case['conv']]
    agg = AGGS[case['agg']]
    for pi, pat in enumerate(case['patterns']):
        names = ['in'] if pi % 4 else ['in', 'hole', 'out']
        for tname in names:
            t = ws.targets[tname]
            W = weights(ws, mode, tname)
            if not isinstance(W, np.ndarray):
                return [('execution-fails', '%s unit fields: %s' % (mode, W.error))]
            n += 1
            msgs = []
            for i, s in enumerate(STEPS):
                v = 2.0 + (np.arange(g.n) * (3 + i)) % 17 + i * i
                for (m, p) in pat:
                    if m == i:
                        v[p] = np.nan
                msgs.append(dict(grid=g, values=v, short='2t', end=s))
            f = ws.env.grib(msgs)
            exp = ref.steps_of(msgs, dict(short='2t', agg=agg and dict(agg, unit=24), function=fn, cut=False), 'instant')
            ag = None
            if agg:
                ag = {'@step': agg['step'], '@type': agg['kind']}
                if agg.get('force_zero'):
                    ag['@forceZeroArray'] = 'True'
                if agg.get('halfweights'):
                    ag['@halfweights'] = True
            r = scene.run(ws.env, f, t, fmt=case['fmt'], mode=mode, aggregation=ag, conversion=cid)
            tag = '%s target %s missing(message,point)=%s' % (mode, tname, pat if len(pat) < 9 else '%d points' % len(pat))
            if not r.ok:
                bad.append(('execution-fails', tag + ': ' + r.error))
                continue
            maps = r.maps()
            if len(maps) != len(exp):
                bad.append(('wrong-number-of-maps', '%s: %d, expected %d' % (tag, len(maps), len(exp))))
                continue
            covered = ~np.isnan(W).any(axis=1)
            for (k, e), m in zip(exp.items(), maps):
                e = np.where(e < 0, 0.0, e) if cut else e  # NaN stays NaN
                x = np.full(W.shape[0], np.nan)
                for c in np.flatnonzero(covered):
                    idx = np.flatnonzero(np.abs(W[c]) > 1e-6)
                    x[c] = (W[c, idx] * e[idx]).sum()
                x[t.clone_mask.ravel()] = np.nan
                x[t.coord_mask.ravel()] = np.nan
                compared += 1
                if np.isnan(x).any() and not np.isnan(x).all():
                    mixed.add(n)
                # a missing point whose weight is numerically zero settles nothing
                tiny = ((np.abs(W) <= 1e-6) & (W != 0) & np.isnan(e)[None, :]).any(axis=1)
                m = np.where(tiny.reshape(m.shape), x.reshape(m.shape), m)
                d = ref.same(m, x, 2e-5, 2e-4)
                if d:
                    sig = 'wrong-value'
                    if 'is missing' in d:
                        sig = 'valid-cell-lost'
                    elif 'expected missing' in d:
                        sig = 'missing-cell-filled'
                    bad.append((sig, '%s step %s: %s' % (tag, k, d)))
                    break
            if len(bad) > 4:
                return bad, {'evaluations': n, 'distinct': len(mixed), 'maps_compared': compared}
    return bad, {'evaluations': n, 'distinct': len(mixed), 'maps_compared': compared}
