"""C10: parallel, broadcast and split computations of the interpolation table give the sequential result."""
import numpy as np

from .. import fixtures as fx
from .. import geo

PROPERTY, LEVEL = 'C10', 'exploration'
TECHNIQUE = ('bounded exhaustive exploration of computation options (parallel x broadcasting x every number of splits up to beyond the number of rows) '
             'x methods x grids x targets on the real tool, each compared with the plain sequential execution')
NOTE = ('Complete over the listed options, methods, source grids and targets. Results are compared for an arbitrary field, for a field with missing points and '
        'again from the stored table. Interleavings of the threads of scipy and numba are not controlled: those libraries write disjoint rows.')
RULE = 'source grid x target x method x (parallel, broadcasting, number of splits); one evaluation per execution compared. non-trivial: options other than the sequential ones'
ASSUMPTIONS = ['values are compared to 1e-5 of their range: order and precision of floating point sums are free',
               'no control over the scheduling of scipy, numba and dask workers']
CHUNK = 1
CASE_TIMEOUT = 300
MODES = ['nearest', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw', 'cdd:Hofstra', 'cdd:NewEtAl', 'cdd:MixHofstraShepard', 'cdd:MixOptions',
         'grib_nearest', 'grib_invdist']


def sources():
    s = geo.sources()
    return {k: s[k] for k in ('area', 'dateline', 'globe', 'reduced')}


TARGETS = ('rows5', 'rows7hole', 'row2', 'wide')


def cases(tier):
    out = []
    for s in sources():
        for t in TARGETS:
            for m in MODES:
                if m.startswith('grib'):
                    # each execution starts a pool of processes
                    if tier == 'quick' and (s, t) not in (('area', 'rows7hole'), ('globe', 'rows5'), ('reduced', 'row2')):
                        continue
                out.append({'source': s, 'target': t, 'mode': m})
    # (slow ones first)
    return sorted(out, key=lambda c: not c['mode'].startswith('grib'))


def options(mode, rows, tier):
    """(parallel, broadcasting, splits)"""
    if mode.startswith('grib'):
        return [(True, False, None)]
    sp = list(range(1, rows + 2)) + [rows * 3]
    out = [(True, False, None)]
    if mode.startswith('adw') or mode.startswith('cdd'):
        out += [(False, True, None), (True, True, None)] + [(False, True, n) for n in (sp if tier != 'quick' else (2, rows))]
    out += [(False, False, n) for n in sp] + [(True, False, n) for n in ((2, rows) if tier == 'quick' else sp)]
    return out


def target(ws, g, name):
    lo, hi, w, e = geo.bounds(g)
    dla, dlo = geo.spacing(g)
    rows, cols = {'rows5': (5, 6), 'rows7hole': (7, 5), 'row2': (2, 8), 'wide': (6, 9)}[name]
    if name == 'wide':
        # beyond the grid on all sides
        la = np.linspace(min(89, hi + 3.3 * dla), max(-89, lo - 3.1 * dla), rows)
        lo_ = np.linspace(w - 3.2 * dlo, e + 3.4 * dlo, cols) if not geo.is_global(g) else np.linspace(0.3, 350, cols)
    else:
        la = np.linspace(hi - 0.6 * dla, lo + 0.7 * dla, rows)
        lo_ = np.linspace(w + 0.37 * dlo, (e if not geo.is_global(g) else 359) - 0.41 * dlo, cols)
    lats = np.repeat(la[:, None], cols, axis=1)
    lons = geo.normal(np.repeat(lo_[None, :], rows, axis=0), '180')
    if name == 'rows7hole':
        mask = np.zeros((rows, cols), bool)
        mask[0, 1:3] = mask[3, :] = mask[6, 4] = True
    else:
        mask = None
    return fx.Target(ws.dir('tgt'), name, lats, lons, coord_mask=mask)


def setup(ws):
    import dask.diagnostics.progress as p
    from .. import scene
    ws.env = scene.Env(ws)
    ws.src = sources()
    # the progress bar of dask waits for a whole period at the end: 10 s
    init = p.ProgressBar.__init__

    def quick(self, *a, **k):
        init(self, *a, **k)
        self._dt = 0.05
    p.ProgressBar.__init__ = quick


def execute(ws, f, t, mode, par, bc, splits, g):
    from .. import scene
    m, _, sub = mode.partition(':')
    i = {}
    if m == 'cdd':
        km = 111.2 * max(geo.spacing(g))
        # a different value in every cell
        cdd = km * (2.2 + 0.05 * np.arange(t.lats.size).reshape(t.shape))
        i = {'@cdd_map': fx.write_pcr(ws.env.path('cdd.map'), cdd, t.origin[0], t.origin[1], t.cell), '@cdd_mode': sub if sub != 'MixOptions' else 'MixHofstraShepard'}
        if sub == 'MixOptions':
            i['@cdd_options'] = {'m_const': 3, 'min_num_of_station': 5, 'radius_ratio': 0.4, 'weights_mode': 'OnlyTOP10'}
    if bc:
        i['@use_broadcasting'] = True
    if splits:
        i['@num_of_splits'] = splits
    ws.env.reset()
    out = []
    for run in ('create', 'stored'):
        r = scene.run(ws.env, f, t, mode=m, interp=i, fmt='netcdf', args=['-X'] if par else [], create=run == 'create')
        if not r.ok:
            return None, '%s: %s' % (run, r.error)
        out.append(np.array(r.maps()))
    return out, None


def check(case, ws):
    g = ws.src[case['source']]
    t = target(ws, g, case['target'])
    v = np.cos(np.arange(g.n) * 1.7) * 100 + 500
    w = v.copy()
    w[::7] = np.nan
    f = ws.env.grib([dict(grid=g, values=v, short='2t', end=0), dict(grid=g, values=w, short='2t', end=6)])
    base, err = execute(ws, f, t, case['mode'], False, False, None, g)
    if err:
        return [('sequential-fails', err)]
    base = base[0]
    bad, n = [], 0
    for par, bc, splits in options(case['mode'], t.shape[0], ws.tier):
        got, err = execute(ws, f, t, case['mode'], par, bc, splits, g)
        what = 'parallel=%s broadcasting=%s splits=%s' % (par, bc, splits)
        n += 1
        if err:
            bad.append(('execution-fails', '%s: %s' % (what, err)))
            continue
        for k, m in zip(('computed', 'stored'), got):
            if m.shape != base.shape:
                bad.append(('shape', '%s %s: %s instead of %s' % (what, k, m.shape, base.shape)))
                continue
            d = np.isnan(m) != np.isnan(base)
            if d.any():
                i = tuple(np.argwhere(d)[0])
                bad.append(('missing', '%s %s: %d cells, e.g. %s is %s instead of %s' % (what, k, d.sum(), i, m[i], base[i])))
                continue
            e = np.nan_to_num(np.abs(m - base))
            if e.max() > 2e-3:
                i = tuple(np.argwhere(e > 2e-3)[0])
                bad.append(('values', '%s %s: %d cells, e.g. %s is %s instead of %s' % (what, k, (e > 2e-3).sum(), i, m[i], base[i])))
    return bad, {'evaluations': n, 'distinct': n}
