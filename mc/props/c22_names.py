"""C22: one PCRaster map per step, under its own 8.3 name, with the values and georeference it must have."""
import itertools
import os

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C22', 'exploration'
TECHNIQUE = 'exhaustive enumeration of prefixes, first numbers, increments, numbers of steps, sources of the options, folders already used, clone maps and values on the real tool; every map is read back'
NOTE = 'Complete over the stated product; the maps are read back with GDAL.'
RULE = ('naming: prefix (lengths 1 to 13 and special characters) x first number x increment x number of steps x source of the options x order of the messages; '
        'content: georeference x clone mask x coordinates mask x value pattern x missing pattern x format edition; repetition over the output of another execution. Non-trivial: maps were written')
ASSUMPTIONS = ['numbers that do not fit in 11 characters and increments lower than 1 are out of scope', 'a prefix too long to leave place for the number is shortened, from its end']
CHUNK = 1
CASE_TIMEOUT = 800

ALPHA = 'abcdefghijklm'
PREFIXES = [ALPHA[:n] for n in range(1, 14)] + ['pT24', '2t', 'T-2', 'a_b', 'a.b', '24', '100', 'P 1', '0', 'Ab', 'é']
FMAPS = [0, 1, 2, 9, 10, 99, 100, 999, 1000, 99999, 12345678]
EXTS = [1, 2, 4, 24, 100]
NUMS = [1, 2, 3, 12]


def cases(tier):
    q = tier == 'quick'
    out = [{'prefix': p, 'source': s} for p in PREFIXES for s in ('cli', 'json', 'json-strings')]
    out += [{'prefix': None, 'source': s, 'short': n} for s in ('cli', 'json', 'default') for n in ('2t', 'tp', 'z')]
    out += [{'what': 'many', 'prefix': p, 'fmap': f, 'ext': e} for p, f, e in itertools.product(['p', ALPHA[:8], ALPHA[:9], ALPHA[:12]], [1, 90, 995], [1, 7])]
    out += [{'what': 'content', 'shape': s, 'cell': c, 'x0': x, 'y0': y} for s in [[1, 1], [1, 3], [3, 1], [2, 3]] + ([] if q else [[4, 4], [7, 2]])
            for c in (1., .25, .1) for x, y in ((0., 50.), (-179.5, 89.), (170., -10.), (5.03, 45.07))]
    out += [{'what': 'again', 'prefix': p} for p in ('a', 'abcdefgh', 'abcdefghij')]
    if not q:
        out += [{'prefix': p, 'source': 'cli', 'order': o} for p in PREFIXES for o in ('reversed', 'rotated')]
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.t = fx.Target.regular(ws.dir('tgt'), 't', 2, 2, 50., 0.)
    ws.grid = fx.Grid(2, 2, 50, 0)


def name_of(prefix, n, last):
    p = prefix[:11 - len(str(last))]
    s = p + str(n).rjust(11 - len(p), '0')
    return s[:8] + '.' + s[8:]


def messages(ws, steps, short='2t', base=0., order=None):
    m = [fx.grib_message(ws.grid, base + 10 * i + np.arange(4.), end=s, short=short, **({'step_type': 'accum', 'start': 0} if short == 'tp' else {})) for i, s in enumerate(steps)]
    if order == 'reversed':
        m = m[::-1]
    if order == 'rotated':
        m = m[1:] + m[:1]
    return m


def check(case, ws):
    from .. import scene
    bad, runs, maps, wrote = [], 0, 0, 0

    def fail(what, msg, k=''):
        if what not in {b[0] for b in bad}:
            bad.append((what, '%s: %s' % (k, msg)))

    def outputs(r, prefix, fmap, ext, vals, k, target=None):
        """Compare the maps with the expected arrays, by name."""
        nonlocal maps, wrote
        t = target or ws.t
        if not r.ok:
            return fail('refused', r.error, k)
        maps += len(r.names)
        wrote += bool(r.names)
        if len(r.names) != len(vals):
            return fail('lost', '%d maps for %d steps: %s' % (len(r.names), len(vals), r.names[:6]), k)
        for i, v in enumerate(vals):
            n = fmap + i * ext
            name = name_of(prefix, n, fmap + (len(vals) - 1) * ext)
            if name not in r.names:
                return fail('name', 'no map %s: %s' % (name, r.names[:4]), k)
            a, gt = fx.read_pcr(os.path.join(r.out, name))
            if a.shape != v.shape:
                return fail('shape', '%s instead of %s' % (a.shape, v.shape), k)
            if not np.array_equal(np.isnan(a), np.isnan(v)):
                return fail('missing', '%s: %s instead of %s' % (name, a.tolist(), v.tolist()), k)
            if not np.allclose(a, v.astype(np.float32), rtol=1e-6, atol=0, equal_nan=True):
                return fail('values', '%s: %s instead of %s' % (name, a.tolist(), v.tolist()), k)
            w = fx.read_pcr(t.clone)[1]
            if np.abs(np.array(gt) - w).max() > 1e-9:
                return fail('georeference', '%s instead of %s' % (gt, w), k)

    what = case.get('what', 'naming')
    if what == 'naming':
        src, short = case['source'], case.get('short', '2t')
        for n in NUMS:
            steps = [6 * (i + 1) for i in range(n)]
            g = ws.env.grib(messages(ws, steps, short, order=case.get('order')), 'n%d.grib' % n)
            exp = [v.reshape(2, 2) for _, v in sorted(((k['end'], v) for k, v in fx.read_grib(g)), key=lambda x: x[0])]
            for f, e in itertools.product(FMAPS, EXTS) if src != 'default' else [(1, 1)]:
                runs += 1
                args, om = [], {}
                p = case['prefix']
                if src == 'cli':
                    args = ['-f', f, '-x', e] + (['-n', p] if p is not None else [])
                elif src != 'default':
                    c = str if src == 'json-strings' else int
                    om = {'@fmap': c(f), '@ext': c(e)}
                    if p is not None:
                        om['@namePrefix'] = p
                outputs(scene.run(ws.env, g, ws.t, short=short, args=args, outmaps=om), p if p is not None else short, f, e, exp, (f, e, n))
    elif what == 'many':
        steps = list(range(1, 121))
        g = ws.env.grib(messages(ws, steps))
        exp = [v.reshape(2, 2) for _, v in fx.read_grib(g)]
        runs += 1
        outputs(scene.run(ws.env, g, ws.t, args=['-f', case['fmap'], '-x', case['ext'], '-n', case['prefix']]), case['prefix'], case['fmap'], case['ext'], exp, 'many')
    elif what == 'again':
        for n1, n2 in itertools.product((1, 2, 4), repeat=2):
            g1 = ws.env.grib(messages(ws, [6 * (i + 1) for i in range(n1)], base=500), 'a.grib')
            g2 = ws.env.grib(messages(ws, [6 * (i + 1) for i in range(n2)]), 'b.grib')
            r1 = scene.run(ws.env, g1, ws.t, args=['-n', case['prefix']])
            from .. import sut
            old = {x: open(os.path.join(r1.out, x), 'rb').read() for x in r1.names}
            k, v = sut.cli(['-c', ws.env.path('cmd.json'), '-i', g2, '-o', r1.out, '-F', 'pcraster', '-l', 'ERROR', '-n', case['prefix']])
            runs += 2
            r2 = scene.Result(k, v, r1.out, 'pcraster')
            for x in r1.names[n2:]:
                if open(os.path.join(r1.out, x), 'rb').read() != old[x]:
                    fail('other', '%s changed' % x, (n1, n2))
            r2.names = r2.names[:n2]
            outputs(r2, case['prefix'], 1, 1, [v.reshape(2, 2) for _, v in fx.read_grib(g2)], (n1, n2))
    else:
        nr, nc = case['shape']
        cells = nr * nc
        src = fx.Grid(nc + 2, nr + 2, np.round(min(case['y0'] + case['cell'], 90.), 3), case['x0'] - case['cell'], case['cell'], case['cell'])
        idx = None
        masks = [None, 'all', 'first', 'last'] if cells > 1 else [None, 'all']
        for cm, km in itertools.product(masks, masks):
            mk = []
            for m in (cm, km):
                a = np.zeros((nr, nc), bool)
                if m == 'all':
                    a[:] = True
                elif m:
                    a.flat[0 if m == 'first' else -1] = True
                mk.append(a)
            t = fx.Target.regular(ws.env.fresh('tgt2'), 't', nr, nc, case['y0'], case['x0'], case['cell'], clone_mask=mk[0] if cm else None, coord_mask=mk[1] if km else None)
            if km == 'all':
                continue
            for pattern, ed in itertools.product(('small', 'large', 'tiny', 'negative', 'zero', 'mv-like', 'gaps'), (1, 2)):
                base = np.arange(float(src.n)) + 1
                vals = {'small': base, 'large': base * 1e29, 'tiny': base * 1e-20, 'negative': -base, 'zero': base * 0, 'mv-like': base * 0 - 9999, 'gaps': np.where(base % 3 == 0, np.nan, base)}[pattern]
                g = ws.env.grib([fx.grib_message(src, vals, end=6, edition=ed), fx.grib_message(src, vals, end=12, edition=ed)])
                dec = [v for _, v in fx.read_grib(g)]
                if idx is None:
                    la, lo = src.coords()
                    from .. import geo
                    idx = True
                tla, tlo = t.lats.ravel(), t.lons.ravel()
                exp = []
                for v in dec:
                    d = (la[None, :] - tla[:, None]) ** 2 + (((lo[None, :] - tlo[:, None]) * np.cos(np.radians(tla))[:, None]) ** 2)
                    e = v[d.argmin(axis=1)].reshape(nr, nc)
                    exp.append(np.where(mk[0] | mk[1], np.nan, e))
                runs += 1
                outputs(scene.run(ws.env, g, t, args=['-n', 'abc']), 'abc', 1, 1, exp, (cm, km, pattern, ed), t)
    return bad, {'evaluations': runs, 'distinct': min(wrote, runs), 'maps_compared': maps}
