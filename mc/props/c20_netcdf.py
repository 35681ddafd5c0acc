"""C20: reading the netCDF output gives the values, missing cells, coordinates and attributes requested."""
import itertools
import os

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C20', 'exploration'
TECHNIQUE = 'exhaustive enumeration of value formats, scale factors, offsets, valid ranges, missing patterns, clone masks and numbers of steps; every file read raw and by the CF conventions'
NOTE = 'Complete over the stated product on a 4x5 target lying on the source points (nearest), so expected values are those of the GRIB file; the packed integers cover the range of each format.'
RULE = ('value format (all documented) x scale/offset x valid range x missing pattern of the input x clone mask x steps x target maps (PCRaster, netCDF, with cells without coordinates) x conversion x '
        'options on the command line or in the command file. Non-trivial: every file')
ASSUMPTIONS = ['values are representable in the format requested and are not its fill value', 'target maps on a regular latitude/longitude grid (one coordinate per row and column)']
CHUNK = 2
CASE_TIMEOUT = 600

FORMATS = [None, 'f8', 'f4', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']
SCALES = [(None, None), (1, 0), (0.1, 0), (0.01, 273.15), (0.1, -50), (10, 0), (None, 7), (0.25, None)]
VALID = ['no', 'min', 'max', 'both', 'half']
MISS = ['none', 'one', 'map', 'all']
CLONE = ['none', 'one', 'row']
STEPS = [1, 3]
TARGETS = ['pcr', 'nc', 'coord', 'column']


def cases(tier):
    q = tier == 'quick'
    out = []
    for f, s in itertools.product(FORMATS, SCALES):
        out.append({'format': f, 'scale': s, 'target': 'pcr', 'source': 'json', 'conv': None})
    for f, s, t in itertools.product(FORMATS, SCALES, TARGETS):
        if t != 'pcr' and (not q or s in ((None, None), (0.1, -50))):
            out.append({'format': f, 'scale': s, 'target': t, 'source': 'json', 'conv': None})
    for f, s in itertools.product(FORMATS, SCALES):
        if not q or f in (None, 'f4', 'i2', 'u1'):
            out.append({'format': f, 'scale': s, 'target': 'pcr', 'source': 'cli', 'conv': 'k2c'})
            out.append({'format': f, 'scale': s, 'target': 'pcr', 'source': 'strings', 'conv': 'id'})
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    d = ws.dir('tgt')
    lats, lons = 50. - np.arange(4), np.arange(5.)
    ws.targets = {}
    idx = np.arange(20).reshape(4, 5)
    masks = {'none': idx < 0, 'one': idx == 7, 'row': idx // 5 == 2}
    coords = {'pcr': idx < 0, 'coord': (idx == 0) | (idx == 5) | (idx == 12) | (idx == 3), 'column': idx % 5 == 4}
    for c, m in masks.items():
        for t, k in coords.items():
            ws.targets[t, c] = fx.Target.regular(d, t + c, 4, 5, 50., 0., clone_mask=m, coord_mask=k)

        class Nc:
            lat_map = lon_map = fx.write_nc_template(os.path.join(d, c + '.nc'), lats, lons, fill=-9999.)
            clone = fx.write_nc_template(os.path.join(d, c + '_clone.nc'), lats, lons, fill=-9999., data=np.ma.array(np.ones((4, 5)), mask=m))
            clone_mask, coord_mask = m, idx < 0
        ws.targets['nc', c] = Nc
    ws.lats, ws.lons = lats, lons
    ws.grids = fx.Grid(5, 4, 50, 0)


def packed(f, n):
    """Packed numbers covering the range of the format (20 per step)."""
    k = np.dtype(f or 'f8')
    if k.kind in 'iu':
        i = np.iinfo(k)
        # (GRIB messages of 24 bits: the numbers of a step are of one magnitude)
        top = min(i.max // 2, 10 ** 6)
        low = max(i.min // 2, -top)
    else:
        low, top = -1000, 1000
    base = np.linspace(low, top, 20)
    if k.kind in 'iu':
        base = np.round(base) + np.array([0, .3, -.3, .2, 0] * 4)
        base[0] = low
    return [np.roll(base, s * 7) for s in range(n)]


def check(case, ws):
    from netCDF4 import Dataset, default_fillvals
    from .. import scene
    f, (scale, offset) = case['format'], case['scale']
    sc, of = 1. if scale is None else float(scale), 0. if offset is None else float(offset)
    conv = {'k2c': -273.15}.get(case['conv'], 0.)
    dt = np.dtype(f or 'f8')
    bad, n, runs = [], 0, 0

    def fail(what, msg, k):
        if what not in {b[0] for b in bad}:
            bad.append((what, '%s: %s' % (k, msg)))
    for valid, miss, clone, steps in itertools.product(VALID, MISS, CLONE, STEPS):
        if case['target'] != 'pcr' and (valid == 'half' or clone == 'row'):
            continue
        k = (valid, miss, clone, steps)
        runs += 1
        target = ws.targets[case['target'], clone]
        msgs = []
        for s, p in enumerate(packed(f, steps)):
            v = p * sc + of - conv
            if miss == 'one':
                v[[3 + s, 11]] = np.nan
            if miss == 'map' and s == steps - 1:
                v[:] = np.nan
            if miss == 'all':
                v[:] = np.nan
            msgs.append(dict(grid=ws.grids, values=v, short='2t', end=6 * (s + 1)))
        g = ws.env.grib(msgs)
        expect = np.array([x.reshape(4, 5) for _, x in fx.read_grib(g)]) + conv
        expect[:, target.clone_mask] = np.nan
        expect[:, target.coord_mask] = np.nan
        lo = hi = None
        if valid != 'no':
            q = sorted((packed(f, 1)[0] * sc + of).tolist())
            a, b = (q[4] + q[5]) / 2, (q[14] + q[15]) / 2
            if dt.kind in 'iu' and valid != 'half':
                # a packed number
                a, b = np.round((a - of) / sc) * sc + of, np.round((b - of) / sc) * sc + of
            lo = float(a) if valid in ('min', 'both', 'half') else None
            hi = float(b) if valid in ('max', 'both', 'half') else None
        opts = {'scaleFactor': scale, 'offset': offset, 'validMin': lo, 'validMax': hi, 'valueFormat': f}
        opts = {a: b for a, b in opts.items() if b is not None}
        args, om = [], {}
        if case['source'] == 'cli':
            for a, b in opts.items():
                args += [{'scaleFactor': '-S', 'offset': '-O', 'validMin': '-vm', 'validMax': '-vM', 'valueFormat': '-vf'}[a], repr(b) if a != 'valueFormat' else b]
            # (a negative number is not an option)
            args = [x for i in range(0, len(args), 2) for x in ([args[i] + ' ' + args[i + 1]] if args[i + 1].startswith('-') else args[i:i + 2])]
            args = [y for x in args for y in ([x.split(' ')[0], x.split(' ')[1]] if ' ' in x else [x])]
        else:
            om = {'@' + a: (str(b) if case['source'] == 'strings' else b) for a, b in opts.items()}
        r = scene.run(ws.env, g, target, 'netcdf', args=args, short='2t', conversion=case['conv'], outmaps=om)
        if not r.ok:
            fail('refused', r.error, k)
            continue
        if r.names != ['2t_None.nc']:
            fail('files', r.names, k)
            continue
        n += 1
        ds = Dataset(os.path.join(r.out, '2t_None.nc'))
        try:
            ds.set_auto_maskandscale(False)
            v = ds['2t']
            raw = v[:]
            fill = getattr(v, '_FillValue', None)
            at = {a: v.getncattr(a) for a in v.ncattrs()}
            if v.dtype != dt:
                fail('dtype', '%s instead of %s' % (v.dtype, dt), k)
                continue
            if v.dimensions != ('time', 'lat', 'lon') or raw.shape != (steps, 4, 5):
                fail('shape', '%s %s' % (v.dimensions, raw.shape), k)
                continue
            if fill is None or at.get('missing_value', fill) != fill:
                fail('fill', 'fill value %s, missing value %s' % (fill, at.get('missing_value')), k)
            got = raw.astype(float) * float(at.get('scale_factor', 1)) + float(at.get('add_offset', 0))
            got[raw == fill] = np.nan
            out = np.zeros(expect.shape, bool)
            margin = np.zeros(expect.shape, bool)
            tol = 0.5 * sc * (1 + 1e-9) + 1e-7 * np.nanmax(np.abs(expect), initial=1) if dt.kind in 'iu' else (1e-6 if dt.itemsize == 4 else 1e-12) * (abs(of) + np.nanmax(np.abs(expect), initial=1))
            with np.errstate(invalid='ignore'):
                for b, o in ((lo, 1), (hi, -1)):
                    if b is not None:
                        out |= o * expect < o * b
                        margin |= np.abs(expect - b) <= tol
            # raw: missing cells are, the others have their value or are out of the valid range
            miss_e = np.isnan(expect)
            if not np.isnan(got[miss_e]).all():
                fail('missing', 'missing cells have values %s' % got[miss_e][~np.isnan(got[miss_e])][:3], k)
            if np.isnan(got[~miss_e & ~out & ~margin]).any():
                fail('lost', '%d cells with a value are missing' % np.isnan(got[~miss_e & ~out & ~margin]).sum(), k)
            both = ~np.isnan(got) & ~miss_e
            if both.any() and np.abs(got[both] - expect[both]).max() > tol:
                i = np.abs(np.where(both, got - expect, 0)).argmax()
                fail('value', '%r instead of %r (tolerance %.3g)' % (got.flat[i], expect.flat[i], tol), k)
            # with the conventions
            ds.set_auto_maskandscale(True)
            m = np.ma.getmaskarray(v[:])
            wrong = m != (miss_e | out)
            if wrong[~margin].any():
                i = np.where((wrong & ~margin).ravel())[0][0]
                fail('valid', 'cell of value %r is %smasked, valid range %s %s' % (expect.flat[i], '' if m.flat[i] else 'not ', lo, hi), k)
            for a, w in (('scale_factor', sc), ('add_offset', of)):
                if float(at.get(a, {'scale_factor': 1, 'add_offset': 0}[a])) != w:
                    fail(a, '%s instead of %s' % (at.get(a), w), k)
            for a, w in (('valid_min', lo), ('valid_max', hi)):
                if (w is None) != (a not in at):
                    fail(a, '%s, requested %s' % (at.get(a), w), k)
                elif w is not None and abs(float(at[a]) * sc + of - w) > tol:
                    fail(a, '%s for %s' % (at[a], w), k)
            unit = 'C' if case['conv'] == 'k2c' else 'K'
            for a, w in (('units', unit), ('long_name', '2 metre temperature'), ('standard_name', '2t'), ('coordinates', 'lon lat')):
                if at.get(a) != w:
                    fail(a, '%r instead of %r' % (at.get(a), w), k)
            for a, w, u in (('lat', ws.lats, 'degrees_north'), ('lon', ws.lons, 'degrees_east')):
                x = np.ma.filled(np.ma.masked_invalid(ds[a][:]), np.nan)
                known = ~target.coord_mask.all(axis=1 if a == 'lat' else 0)
                if x.shape != w.shape or not np.allclose(x[known], w[known], rtol=0, atol=1e-5) or not np.isnan(x[~known]).all():
                    fail('coordinates-' + a, '%s instead of %s' % (x, w), k)
                if ds[a].units != u:
                    fail('coordinates-units', ds[a].units, k)
            if ds['time'][:].tolist() != [6. * (i + 1) for i in range(steps)]:
                fail('time', ds['time'][:].tolist(), k)
        finally:
            ds.close()
    return bad, {'evaluations': runs, 'distinct': n}
