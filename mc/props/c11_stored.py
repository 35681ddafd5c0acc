"""C11: executing with a stored interpolation table equals computing the table anew, whatever field the table was created from."""
import gzip
import json
import os
import shutil

import numpy as np

from .. import fixtures as fx
from .. import geo

PROPERTY, LEVEL = 'C11', 'exploration'
TECHNIQUE = ('bounded exhaustive exploration of two-execution histories on the real tool: field a table is created from x field it is used with x method x way of '
             'storing the table, each compared with an execution that computes its table')
NOTE = ('Complete over the listed fields (missing points, extremes, negative, constant, different step types), methods, source grids and storage variants. '
        'Every history ends in a new process state (in-process caches forgotten) except the variant that keeps them.')
RULE = ('source grid x method x creating field x using field x storage variant; plus: no table and no permission to create. Non-trivial: fields differ or storage is not the default')
ASSUMPTIONS = ['registry in intertables.json as documented: file name, method and shapes per table']
CHUNK = 2
CASE_TIMEOUT = 300
MODES = ['nearest', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw', 'cdd:Hofstra', 'cdd:NewEtAl', 'cdd:MixHofstraShepard', 'grib_nearest', 'grib_invdist']
STORAGE = ['same-process', 'user', 'plain', 'renamed-plain', 'registered-without-gz', 'alternate', 'alternate-over-user', 'global']
FIELDS = ['ramp', 'holes', 'one-hole-first', 'constant', 'zero', 'extreme', 'all-missing', 'averaged', 'shuffled-steps']


def cases(tier):
    out = []
    for s in ('area', 'globe', 'reduced'):
        for m in MODES:
            out.append({'source': s, 'mode': m, 'history': 'no-table'})
            for a in FIELDS:
                if tier == 'quick':
                    # every creating field with every storage; every using field in one history after it
                    out.append({'source': s, 'mode': m, 'history': 'pairs', 'created': a, 'storage': ['user'] + ([STORAGE[(len(out) * 5) % len(STORAGE)]])})
                else:
                    out.append({'source': s, 'mode': m, 'history': 'pairs', 'created': a, 'storage': STORAGE})
            out.append({'source': s, 'mode': m, 'history': 'pairs', 'created': 'holes', 'storage': STORAGE})
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    s = geo.sources()
    ws.src = {k: s[k] for k in ('area', 'globe', 'reduced')}
    ws.base = {}


def field(g, name):
    """messages and command options"""
    n = g.n
    v = np.sin(np.arange(n) * 0.9) * 50 + 280
    msg = lambda x, **k: dict(dict(grid=g, values=x, short='2t', end=0), **k)
    if name == 'ramp':
        return [msg(v)], {}
    if name == 'holes':
        w = v + 7
        w[::3] = np.nan
        return [msg(w), msg(w[::-1], end=6)], {}
    if name == 'one-hole-first':
        w = v.copy()
        w[0] = np.nan
        return [msg(w), msg(v, end=3)], {}
    if name == 'constant':
        return [msg(np.full(n, 5.0))], {}
    if name == 'zero':
        return [msg(np.zeros(n))], {}
    if name == 'extreme':
        w = v.copy()
        w[1::2] = -1e6
        w[::5] = 9999.0
        return [msg(w)], {}
    if name == 'all-missing':
        # (a message of missing values only, then another)
        return [msg(np.full(n, np.nan)), msg(v, end=12)], {}
    if name == 'averaged':
        w = v.copy()
        w[2::4] = np.nan
        return [msg(v, end=6), msg(w, end=12), msg(v * 2, end=18)], {
            'aggregation': {'@step': '12', '@type': 'average', '@halfweights': False}, 'args': ['-s', '0', '-e', '12']}
    if name == 'shuffled-steps':
        return [msg(v * 3, end=12), msg(v * 2, end=6), msg(v, end=0)], {}
    raise KeyError(name)


def target(ws, g):
    lo, hi, w, e = geo.bounds(g)
    dla, dlo = geo.spacing(g)
    la = np.linspace(min(89, hi + 1.6 * dla), lo + 0.7 * dla, 5)
    lo_ = np.linspace(w + 0.37 * dlo, (e + 1.3 * dlo if not geo.is_global(g) else 340), 6)
    return fx.Target(ws.dir('tgt'), 't', np.repeat(la[:, None], 6, axis=1), geo.normal(np.repeat(lo_[None, :], 5, axis=0), '180'))


def check(case, ws):
    from .. import scene, sut
    env = ws.env
    g = ws.src[case['source']]
    t = target(ws, g)
    mode, _, sub = case['mode'].partition(':')
    interp = {}
    if mode == 'cdd':
        km = 111.2 * max(geo.spacing(g))
        cdd = km * (2.2 + 0.05 * np.arange(t.lats.size).reshape(t.shape))
        interp = {'@cdd_map': fx.write_pcr(ws.env.path('cdd.map'), cdd, t.origin[0], t.origin[1], t.cell), '@cdd_mode': sub}
    gl = os.path.join(os.getcwd(), 'configuration', 'global')
    alt, glob = env.fresh('alt'), env.fresh('globaltables')

    def run(name, create, extra=()):
        msgs, o = field(g, name)
        o = dict(o)
        args = list(o.pop('args', [])) + list(extra)
        f = env.grib(msgs)
        return scene.run(env, f, t, mode=mode, interp=interp, create=create, args=args, **o)

    def reset():
        if os.path.isdir(gl):
            shutil.rmtree(gl)
        env.reset()

    bad = []
    if case['history'] == 'no-table':
        n = 0
        for name in FIELDS:
            reset()
            r = run(name, False)
            n += 1
            reg = json.load(open(os.path.join(env.conf, 'intertables.json')))
            left = [k for k, v in reg.items() if isinstance(v, dict)]
            if r.kind != 'ret' or r.value == 0:
                bad.append(('not-refused', '%s: %s, maps %s' % (name, r.error, r.names)))
            if r.names or left or os.listdir(env.tables):
                bad.append(('not-refused', '%s: created maps %s, entries %s, files %s' % (name, r.names, left, os.listdir(env.tables))))
        return bad, {'evaluations': n, 'distinct': n}
    n = d = 0
    for storage in case['storage']:
        for use in FIELDS:
            key = (case['source'], case['mode'], use)
            if key not in ws.base:
                reset()
                r = run(use, True)
                if not r.ok:
                    return [('execution-fails', '%s: %s' % (use, r.error))]
                ws.base[key] = (r.names, r.maps())
            reset()
            r = run(case['created'], True)
            if not r.ok:
                bad.append(('execution-fails', 'creating from %s: %s' % (case['created'], r.error)))
                break
            regf = os.path.join(env.conf, 'intertables.json')
            reg = json.load(open(regf))
            names = {k: v['filename'] for k, v in reg.items() if isinstance(v, dict)}
            if len(names) != 1 or sorted(os.listdir(env.tables)) != sorted(names.values()):
                bad.append(('registry', 'after one execution: entries %s, files %s' % (names, os.listdir(env.tables))))
                break
            (tid, fn), = names.items()
            full = os.path.join(env.tables, fn)
            extra = ()
            if storage != 'same-process':
                sut.forget()
            if storage == 'plain':
                # uncompressed, under another name in the registry
                plain = fn[:-3] if fn.endswith('.gz') else fn
                unzip(full, os.path.join(env.tables, plain))
                os.unlink(full)
                reg[tid]['filename'] = plain
                fx.write_json(regf, reg)
            elif storage == 'renamed-plain':
                unzip(full, os.path.join(env.tables, 'mine.npy'))
                os.unlink(full)
                reg[tid]['filename'] = 'mine.npy'
                fx.write_json(regf, reg)
            elif storage == 'registered-without-gz':
                # tables that were compressed after being registered
                reg[tid]['filename'] = fn[:-3]
                fx.write_json(regf, reg)
            elif storage == 'alternate':
                shutil.move(full, os.path.join(alt, fn))
                extra = ['-N', alt]
            elif storage == 'alternate-over-user':
                # the alternate folder has precedence: a useless file is in the user folder
                shutil.move(full, os.path.join(alt, fn))
                open(full, 'wb').write(b'not a table')
                extra = ['-N', alt]
            elif storage == 'global':
                shutil.move(full, os.path.join(glob, fn))
                os.makedirs(gl)
                fx.write_json(os.path.join(gl, 'global_conf.json'), {'intertables': glob, 'geopotentials': env.geo})
                fx.write_json(os.path.join(gl, 'intertables.json'), {tid: reg[tid]})
                os.unlink(regf)
                sut.forget()
            r = run(use, False, extra)
            n += 1
            d += use != case['created'] or storage != 'user'
            what = 'created from %s, stored as %s, used with %s' % (case['created'], storage, use)
            if not r.ok:
                bad.append(('not-used', '%s: %s' % (what, r.error)))
                continue
            bn, bm = ws.base[key]
            if r.names != bn:
                bad.append(('maps', '%s: %s instead of %s' % (what, r.names, bn)))
                continue
            for name, x, y in zip(bn, r.maps(), bm):
                if not np.allclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True):
                    i = tuple(np.argwhere(~np.isclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True))[0])
                    bad.append(('differs', '%s: %s cell %s is %s instead of %s' % (what, name, i, x[i], y[i])))
                    break
            shutil.rmtree(alt), os.makedirs(alt)
            shutil.rmtree(glob), os.makedirs(glob)
    reset()
    return bad, {'evaluations': n, 'distinct': d}


def unzip(a, b):
    if a.endswith('.gz'):
        with gzip.open(a) as f, open(b, 'wb') as o:
            shutil.copyfileobj(f, o)
    else:
        shutil.copyfile(a, b)
