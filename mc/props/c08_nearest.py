"""C08: with the nearest methods every covered cell gets the value of a source point at minimum great-circle distance."""
import numpy as np

from .. import fixtures as fx
from .. import geo

PROPERTY, LEVEL = 'C08', 'exploration'
TECHNIQUE = 'bounded exhaustive exploration of source grids x lattices of target positions on the real tool, compared with a brute-force search over all source points'
NOTE = ('Complete over the listed source grids (limited areas, across the date line and Greenwich, both hemispheres, globe with and without poles, rows of '
        'different length) and all lattice positions at 4 (thorough: 8) positions per source spacing, up to 3 spacings beyond the grid.')
RULE = 'source grid x method x longitude convention of the target maps x lattice phase x order of target rows; each target cell is one evaluation. non-trivial: cell inside the source grid'
ASSUMPTIONS = ['cells outside the hull of the source points but within two resolutions of them may be covered or not']
CHUNK = 2


def cases(tier):
    out = []
    for s in geo.sources():
        for m in ('nearest', 'grib_nearest'):
            for conv in ('360', '180'):
                for phase in (0.0, 0.13) if tier == 'quick' else (0.0, 0.13, 0.37):
                    for layout in ('rows', 'shuffled'):
                        out.append({'source': s, 'mode': m, 'conv': conv, 'phase': phase, 'layout': layout, 'parts': 4 if tier == 'quick' else 8})
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.src = geo.sources()


def check(case, ws):
    from .. import scene
    g = ws.src[case['source']]
    glob = geo.is_global(g)
    lats, lons = geo.lattice(g, case['parts'] if not glob else 2 if ws.tier == 'quick' else 4, 3)
    dla, dlo = geo.spacing(g)
    lats = np.clip(lats - case['phase'] * dla, -90, 90)
    lons = geo.normal(lons + case['phase'] * dlo, case['conv'])
    if case['layout'] == 'shuffled':
        lats, lons = geo.shuffled(lats), geo.shuffled(lons)
    t = fx.Target(ws.dir('tgt'), 't', lats, lons)
    f = ws.env.grib([dict(grid=g, values=np.arange(g.n) + 1.0, short='2t', end=0, bits=24)])
    ws.env.reset()
    d = geo.angles(g, t.lats, t.lons)
    best = d.min(axis=1).reshape(t.shape)
    ins = geo.inside(g, t.lats, t.lons)
    res = geo.resolution(g)
    bad, n = [], 0
    for run in ('create', 'stored'):
        r = scene.run(ws.env, f, t, mode=case['mode'], create=run == 'create')
        if not r.ok:
            return [('execution-fails', '%s: %s' % (run, r.error))]
        v = r.maps()[0]
        have = ~np.isnan(v)
        hole = ins & ~have
        # the recorded finding: cells farther from every source point than the tool's bound, 1+4/Nj resolutions
        known = hole & (best > res * (1 + 4.0 / len(geo.row_lats(g))))
        for h, sig in ((hole & ~known, 'hole'), (known, 'hole-beyond-resolution')):
            if not h.any():
                continue
            i = tuple(np.argwhere(h)[0])
            bad.append((sig, '%s: %d covered cells missing, e.g. lat %s lon %s' % (run, h.sum(), t.lats[i], t.lons[i])))
        far = have & (best > (2 * res if case['mode'] == 'nearest' else 1e-3) ) & ~ins
        if far.any():
            i = tuple(np.argwhere(far)[0])
            bad.append(('not-covered', '%s: %d cells outside the grid have a value, e.g. lat %s lon %s' % (run, far.sum(), t.lats[i], t.lons[i])))
        idx = np.where(have, np.rint(np.nan_to_num(v)) - 1, 0).astype(int)
        odd = have & (np.abs(np.nan_to_num(v) - np.rint(np.nan_to_num(v))) > 0.01) | (idx < 0) | (idx >= g.n)
        if odd.any():
            bad.append(('not-a-source-value', '%s: %s' % (run, v[odd][:3])))
            continue
        dist = d[np.arange(v.size), idx.ravel()].reshape(v.shape)
        wrong = have & (dist > best * (1 + 1e-3) + 2e-5)
        n += int((ins & have).sum())
        if wrong.any():
            i = tuple(np.argwhere(wrong)[0])
            sl, so = g.coords()
            k = int(np.argmin(d.reshape(v.shape + (-1,))[i]))
            bad.append(('not-nearest', '%s: %d cells, e.g. lat %s lon %s takes point (%s, %s) at %.4f, nearest is (%s, %s) at %.4f' % (
                run, wrong.sum(), t.lats[i], t.lons[i], sl[idx[i]], so[idx[i]], dist[i], sl[k], so[k], best[i])))
    return bad, {'evaluations': 2 * v.size, 'distinct': n}
