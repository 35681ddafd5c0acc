"""C09: weighted interpolation methods give local convex combinations, recovered completely from unit fields."""
import numpy as np

from .. import fixtures as fx
from .. import geo

PROPERTY, LEVEL = 'C09', 'exploration'
TECHNIQUE = ('bounded exhaustive exploration of source grids x lattices of target positions on the real tool: the complete weight matrix is recovered from '
             'one unit field per source point and every row of it is judged')
NOTE = ('For each source grid all unit fields are interpolated in one execution (one message per source point), which determines the result for every input field, '
        'as outputs are linear in the input. Complete over the listed grids, methods and lattice positions.')
RULE = ('source grid x method x lattice phase x order of target rows (regular or any arrangement) x longitude convention; one evaluation per target cell and source point. '
        'non-trivial: target cells inside the source grid')
ASSUMPTIONS = ['outputs are linear in the source values: one extra arbitrary field is compared with the weight matrix applied to it',
               'cells outside the hull of the source points but within two resolutions of them may be covered or not',
               'with the correlation distance decay method a coinciding cell is not required to take the value of the source point (its weights are bounded)']
CHUNK = 1
MODES = ['invdist', 'grib_invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw', 'cdd:Hofstra', 'cdd:NewEtAl', 'cdd:MixHofstraShepard']


def sources():
    s = geo.sources()
    for k in ('globe', 'globe180', 'globe_nopole', 'fine', 'arctic'):
        s.pop(k)
    s['globe15'] = fx.Grid(18, 9, 80, 0, 20, 20)
    s['globe180'] = fx.Grid(18, 9, 80, -180, 20, 20)
    s['reduced15'] = s.pop('reduced')
    s.pop('reduced2')
    s['reduced2'] = fx.ReducedGrid([10, 16, 20, 26, 30, 30, 26, 20, 16, 10])
    return s


def cases(tier):
    out = []
    for s in sources():
        for m in MODES:
            for layout in ('rows', 'shuffled'):
                if layout == 'shuffled' and m == 'cdd:NewEtAl':
                    continue        # its documented use is with regular maps
                for phase in (0.0, 0.13) if tier == 'quick' else (0.0, 0.13, 0.37, 0.5):
                    out.append({'source': s, 'mode': m, 'phase': phase, 'layout': layout, 'parts': 2 if tier == 'quick' else 4})
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.src = sources()


def check(case, ws):
    bad, W, ev, inner = [], [], 0, 0
    for conv in ('360', '180'):
        b, w, n = one(case, ws, conv)
        bad += b
        if w is None:
            return bad
        W.append(w)
        ev += w.size
        inner += n
    d = np.abs(np.nan_to_num(W[0], nan=-9) - np.nan_to_num(W[1], nan=-9)).max(axis=1)
    # positions near the boundary of the covered area are rounded differently
    d[np.isnan(W[0]).any(axis=1) != np.isnan(W[1]).any(axis=1)] = 0
    # (at symmetric positions several choices of points or cut-offs are equally right)
    if case['phase'] not in (0.0, 0.5) and (d > 5e-3).any():
        i = int(np.argmax(d))
        bad.append(('convention', '%d cells have other weights when the maps give longitudes as 0-360 than as -180-180, e.g. cell %d by %.4f' % ((d > 5e-3).sum(), i, d[i])))
    return bad, {'evaluations': ev, 'distinct': inner}


def one(case, ws, conv):
    from .. import scene
    g = ws.src[case['source']]
    mode, _, sub = case['mode'].partition(':')
    lats, lons = geo.lattice(g, case['parts'] if not geo.is_global(g) else 1 if ws.tier == 'quick' else 2, 3)
    dla, dlo = geo.spacing(g)
    lats = np.clip(lats - case['phase'] * dla, -90, 90)
    lons = geo.normal(lons + case['phase'] * dlo, conv)
    if case['layout'] == 'shuffled':
        lats, lons = geo.shuffled(lats), geo.shuffled(lons)
    t = fx.Target(ws.dir('tgt'), 't', lats, lons)
    ws.env.reset()
    pts_lat, pts_lon = g.coords()
    arb = np.cos(np.arange(g.n) * 1.7) * 100 + 500
    msgs = [dict(grid=g, values=arb, short='2t', end=0, bits=24)]
    msgs += [dict(grid=g, values=(np.arange(g.n) == i).astype(float), short='2t', end=i + 1, bits=8) for i in range(g.n)]
    f = fx.write_grib(ws.env.path('unit.grib'), msgs)
    interp = {}
    if mode == 'cdd':
        cdd = fx.write_pcr(ws.env.path('cdd.map'), np.full(t.shape, 111.2 * 2.2 * max(dla, dlo)), t.origin[0], t.origin[1], t.cell)
        interp = {'@cdd_map': cdd, '@cdd_mode': sub}
    # netCDF keeps all maps of the execution in one file
    r = scene.run(ws.env, f, t, mode=mode, interp=interp, fmt='netcdf')
    if not r.ok:
        return [('execution-fails', r.error)], None, 0
    maps = np.array(r.maps())
    if len(maps) != g.n + 1:
        return [('maps', '%d maps for %d messages' % (len(maps), g.n + 1))], None, 0
    W = maps[1:].reshape(g.n, -1).T
    first = maps[0].ravel()
    ang = geo.angles(g, t.lats, t.lons)
    best = ang.min(axis=1)
    ins = geo.inside(g, t.lats, t.lons).ravel()
    res = geo.resolution(g)
    where = lambda i: 'cell lat %.4f lon %.4f' % (t.lats.ravel()[i], t.lons.ravel()[i])
    bad = []

    def report(sig, mask, what):
        idx = np.flatnonzero(mask)
        if len(idx):
            i = idx[0]
            k = np.argsort(-np.nan_to_num(np.abs(W[i])))[:5]
            bad.append((sig, '%d cells %s, e.g. %s: weights %s of points %s at angles %s' % (
                len(idx), what, where(i), np.round(W[i][k], 4).tolist(), [(round(float(pts_lat[j]), 3), round(float(pts_lon[j]), 3)) for j in k], np.round(ang[i][k], 3).tolist())))

    have = ~np.isnan(W).any(axis=1) & ~np.isnan(first)
    part = (~np.isnan(W)).any(axis=1) & ~have
    report('partly-missing', part, 'missing for some fields only')
    report('hole', ins & ~have & (best <= res), 'inside the source grid are missing')
    if mode not in ('adw', 'cdd'):
        report('not-covered', ~ins & have & (best > (2 * res if mode != 'grib_invdist' else 1e-3)), 'outside the source grid have a value')
    ok = have & ins if mode not in ('adw', 'cdd') else have
    Wz = np.where(have[:, None], W, 0)
    report('negative', have & (Wz < -1e-6).any(axis=1), 'with negative weights')
    report('sum', have & (np.abs(Wz.sum(axis=1) - 1) > 1e-5), 'whose weights do not sum to one')
    report('field', have & (np.abs(Wz @ arb - np.nan_to_num(first)) > 1e-2), 'whose value of an arbitrary field is not the weighted mean')
    used = Wz > 1e-6
    far = np.where(used, ang, 0).max(axis=1)
    if mode in ('invdist', 'adw', 'cdd'):
        k = 4 if mode == 'invdist' else 11
        kth = np.sort(ang, axis=1)[:, k - 1]
        report('not-local', have & (far > kth * (1 + 1e-4) + 1e-4), 'use points beyond the %d nearest' % k)
    else:
        # the points around the cell: within the corners of a source grid cell (rows of different length: within its neighbours)
        d = np.hypot(dla, dlo)
        if isinstance(g, fx.ReducedGrid):
            d = np.hypot(dla, 360.0 / min(g.pl))
        report('not-local', ok & (far > d * 1.001 + 1e-4), 'use points that are not around them')
    hit = have & (best < 1e-5)
    if mode != 'cdd':
        near = np.where(ang < 1e-4, Wz, 0).sum(axis=1)
        report('coinciding', hit & (np.abs(near - 1) > 1e-3), 'coinciding with a source point do not take its value')
    if mode in ('invdist', 'grib_invdist'):
        p = 2 if mode == 'invdist' else 1
        chord = 2 * np.sin(np.radians(ang) / 2) if p == 2 else np.radians(ang)
        prod = np.where(used, Wz * chord ** p, np.nan)
        with np.errstate(all='ignore'):
            spread = np.nanmax(prod, axis=1) / np.nanmin(prod, axis=1)
        report('inverse-distance', have & ~hit & (best > 1e-3) & (spread > 1 + 5e-3), 'whose weights are not inversely proportional to the distance^%d' % p)
        report('four-points', have & ~hit & (best > 1e-3) & (used.sum(axis=1) != 4), 'not made of four points')
    if mode in ('bilinear', 'triangulation', 'bilinear_delaunay') and isinstance(g, fx.Grid):
        # inside a cell of a regular grid the combination reproduces the position itself
        x = (pts_lon[None, :] - t.lons.ravel()[:, None] + 180) % 360 - 180
        ex = np.abs((Wz * x).sum(axis=1))
        # (the Delaunay methods are linear on Mercator rows)
        y = (lambda v: v) if mode == 'bilinear' else (lambda v: np.degrees(np.arcsinh(np.tan(np.radians(v)))))
        slope = np.abs(y(t.lats + 0.5) - y(t.lats - 0.5)).ravel()
        ey = np.abs((Wz * (y(pts_lat)[None, :] - y(t.lats).ravel()[:, None])).sum(axis=1)) / slope
        if mode == 'bilinear_delaunay':
            y = lambda v: v
            ey = np.minimum(ey, np.abs((Wz * (pts_lat[None, :] - t.lats.ravel()[:, None])).sum(axis=1)))
        report('position', ok & (ex > 2e-3 * dlo), 'whose weights do not balance in longitude')
        report('position', ok & (ey > 2e-3 * dla), 'whose weights do not balance in latitude')
    return bad, W, int((ins & have).sum())
