"""C12: interpolation tables of different set-ups are never mixed up, whatever the history of the table folder."""
import gzip
import hashlib
import itertools
import json
import os
import shutil

import numpy as np

from .. import bfs
from .. import fixtures as fx

PROPERTY, LEVEL = 'C12', 'model_checking'
TECHNIQUE = ('explicit-state exploration of histories of the table folder on the real tool (forked processes, files put back between branches), each transition '
             'checked against a model of which tables are registered and present and against the result in a fresh environment')
NOTE = ('All histories up to the depth (to closure where reported) over executions with and without permission to create, in the same and in another process, deletion of '
        'table files, configuration checks, loss of the registry and restarts, for groups of set-ups whose table files get the same name. A state is the registry, '
        'the content of every table file and the tables the process has used since its start.')
RULE = ('group of set-ups (pairs differing in source grid, target or method; triples; alternate folder; global tables) x every operation history up to the depth, '
        'deduplicated on (registry, contents of table files, tables used by the process). Non-trivial: more than one set-up')
ASSUMPTIONS = ['process memory depends on the tables used since the start of the process, not on their order']
CHUNK = 1
CASE_TIMEOUT = 3000

SETUPS = ['base', 'grid-lon', 'grid-shape', 'grid-first', 'grid-last', 'target-lon-max', 'target-lat-min', 'target-lat', 'target-lon', 'invdist', 'grib_nearest', 'grib_invdist', 'bilinear', 'triangulation', 'adw']
# set-ups that the present identifiers do not tell apart (known findings)
ALIASES = ['grid-lat', 'target-flipped', 'target-fraction', 'target-nc', 'cdd-mode', 'cdd-map', 'cdd-options']
# further set-ups, for which short histories of all pairs are explored
MORE = ['gauss', 'grid-type', 'grid-reduced', 'grid-lat-count', 'target-cell', 'target-count', 'target-int', 'cdd-base', 'nc-base', 'nc-lon-max', 'nc-lon-min', 'nc-lat-max', 'nc-lat-min', 'nc-lon-int', 'nc-lat-int', 'nc-invdist', 'bilinear_delaunay']
ALIAS_OF = {'target-nc': 'nc-base', 'cdd-mode': 'cdd-base', 'cdd-map': 'cdd-base', 'cdd-options': 'cdd-base'}


def cases(tier):
    q = tier == 'quick'
    d2, d3 = (4, 3) if q else (30, 6)
    out = []
    for s in SETUPS[1:]:
        out.append({'setups': ['base', s], 'depth': 5 if q and s in ('grid-lon', 'target-lat', 'grib_nearest') else d2})
    for a, b in (('gauss', 'grid-type'), ('invdist', 'bilinear'), ('grib_nearest', 'grib_invdist'), ('grid-lon', 'target-lat'), ('invdist', 'adw')):
        out.append({'setups': [a, b], 'depth': d2})
    for t in (['base', 'grid-lon', 'target-lat'], ['base', 'target-lon', 'invdist'], ['grid-lon', 'grib_nearest', 'invdist'], ['base', 'grid-shape', 'bilinear']):
        out.append({'setups': t, 'depth': d3})
    for s in ('grid-lon', 'target-lat', 'grib_nearest'):
        out.append({'setups': ['base', s], 'depth': d2 - 1 if q else 7, 'alternate': True})
        out.append({'setups': ['base', s], 'depth': d2 if q else 9, 'global': True})
    if not q:
        for i, a in enumerate(SETUPS[1:]):
            for b in SETUPS[i + 2:]:
                out.append({'setups': [a, b], 'depth': 6})
    for a, b in itertools.combinations(SETUPS + MORE, 2):
        out.append({'setups': [a, b], 'depth': 0})
    for s in ALIASES:
        out.append({'setups': [ALIAS_OF.get(s, 'base'), s], 'depth': 2})
    # longest first
    return sorted(out, key=lambda c: -c['depth'] - len(c['setups']) * 1.5 - bool(c.get('alternate')))


def setup(ws):
    from .. import scene, sut
    ws.env = env = scene.Env(ws)
    A = fx.Grid(6, 5, 50, 0)
    base = fx.Target.regular(ws.dir('tgt'), 'base', 4, 5, 49.3, 0.4)
    ws.setups = {}

    def add(name, g=A, t=base, mode='nearest', **interp):
        ws.setups[name] = (g, t, mode, {'@' + k: v for k, v in interp.items()})

    def cdd_map(name, km):
        return fx.write_pcr(os.path.join(ws.dir('tgt'), name), km + 5. * np.arange(20).reshape(4, 5), base.origin[0], base.origin[1], base.cell)
    opts = {'m_const': 4, 'min_num_of_station': 4, 'radius_ratio': 1. / 3, 'weights_mode': 'All'}
    m1, m2 = cdd_map('cdd1.map', 180.), cdd_map('cdd2.map', 320.)
    add('cdd-base', mode='cdd', cdd_map=m1, cdd_mode='MixHofstraShepard', cdd_options=opts)
    add('cdd-mode', mode='cdd', cdd_map=m1, cdd_mode='NewEtAl')
    add('cdd-map', mode='cdd', cdd_map=m2, cdd_mode='MixHofstraShepard', cdd_options=opts)
    add('cdd-options', mode='cdd', cdd_map=m1, cdd_mode='MixHofstraShepard', cdd_options=dict(opts, m_const=9))
    add('base')
    add('grid-lon', fx.Grid(6, 5, 50, -0.8))
    add('grid-shape', fx.Grid(5, 6, 50, 0))
    # one part of the description at a time
    add('grid-first', fx.Grid(6, 5, 50, 1, dlon=0.8))
    add('grid-last', fx.Grid(6, 5, 50, 0, dlon=0.9))
    la, lo = base.lats.copy(), base.lons.copy()
    lo[:, -1] += 0.3
    add('target-lon-max', t=fx.Target(ws.dir('tgt'), 'lonmax', la, lo))
    lo = base.lons.copy()
    la[-1] -= 0.3
    add('target-lat-min', t=fx.Target(ws.dir('tgt'), 'latmin', la, lo))
    # (a regular Gaussian grid has the same longitudes and numbers of points as the regular one)
    gg = fx.GaussGrid(4)
    add('gauss', gg)
    add('grid-type', fx.Grid(gg.ni, gg.nj, 88, 0, 25, gg.dlon))
    add('grid-lat', fx.Grid(6, 5, 51, 0))
    add('target-lat', t=fx.Target.regular(ws.dir('tgt'), 'lat', 4, 5, 50.3, 0.4))
    add('target-lon', t=fx.Target.regular(ws.dir('tgt'), 'lon', 4, 5, 49.3, 1.4))
    add('target-flipped', t=fx.Target(ws.dir('tgt'), 'flip', base.lats[::-1], base.lons))
    # the extreme coordinates and the integer part of the origin are the same
    la, lo = base.lats.copy(), base.lons.copy()
    la[1:3] += 0.45
    lo[:, 1:4] += 0.3
    add('target-fraction', t=fx.Target(ws.dir('tgt'), 'frac', la, lo))
    for m in ('invdist', 'grib_nearest', 'grib_invdist', 'bilinear', 'triangulation', 'adw', 'bilinear_delaunay'):
        add(m, mode=m)
    nc = []
    for k, step in (('n1', 0.5), ('n2', 0.25)):
        n = int(2 / step) + 1
        f = fx.write_nc_template(os.path.join(ws.dir('tgt'), k + '.nc'), 49.25 - step * np.arange(n), 0.5 + step * np.arange(n), fill=-9999.)
        t = fx.Target.regular(ws.dir('tgt'), k, n, n, 49.25, 0.5, step)
        t.lat_map = t.lon_map = f
        nc.append(t)
    add('nc-base', t=nc[0])
    add('target-nc', t=nc[1])

    def nc_target(name, lat0, dlat, lon0, dlon, **kw):
        t = fx.Target.regular(ws.dir('tgt'), name, 5, 5, lat0, lon0, .5)
        t.lat_map = t.lon_map = fx.write_nc_template(os.path.join(ws.dir('tgt'), name + '.nc'), lat0 - dlat * np.arange(5), lon0 + dlon * np.arange(5), fill=-9999.)
        add(name, t=t, **kw)
    # (the base is 49.25 to 47.25, 0.5 to 2.5)
    nc_target('nc-lon-max', 49.25, .5, .5, .7)
    nc_target('nc-lon-min', 49.25, .5, .1, .6)
    nc_target('nc-lat-max', 49.65, .6, .5, .5)
    nc_target('nc-lat-min', 49.25, .4, .5, .5)
    nc_target('nc-lon-int', 49.25, .5, 1.5, .5)
    nc_target('nc-lat-int', 50.25, .5, .5, .5)
    nc_target('nc-invdist', 49.25, .5, .5, .5, mode='invdist')
    add('grid-reduced', fx.ReducedGrid([8, 12, 16, 16, 12, 8]))
    add('grid-lat-count', fx.Grid(6, 6, 50, 0))
    add('target-cell', t=fx.Target.regular(ws.dir('tgt'), 'cell', 2, 3, 49.3, 0.4, 2.))
    add('target-count', t=fx.Target.regular(ws.dir('tgt'), 'count', 3, 5, 49.3, 0.4))
    add('target-int', t=fx.Target.regular(ws.dir('tgt'), 'int', 4, 5, 47.3, 2.4))
    ws.alt = os.path.join(env.root, 'alt')
    ws.glob = os.path.join(env.root, 'globaltables')
    ws.gl = os.path.join(os.getcwd(), 'configuration', 'global')
    ws.fresh = {}
    ws.gribs = {}
    for k, (g, t, m, _) in ws.setups.items():
        # same file name in different folders: the names of the tables are the same
        d = ws.dir('in', '_'.join(str(x) for x in g.key()) + g.sample)
        ws.gribs[k] = fx.write_grib(os.path.join(d, 'in.grib'), [dict(grid=g, values=280 + 50 * np.sin(np.arange(g.n) * 1.7) + 10 * np.cos(np.arange(g.n) * 0.4), short='2t', end=0)])


def clean(ws):
    for d in (ws.alt, ws.glob, ws.gl):
        shutil.rmtree(d, ignore_errors=True)
    ws.env.reset()
    os.makedirs(ws.alt)
    os.makedirs(ws.glob)


def execute(ws, s, create=True, folder='user'):
    from .. import scene
    g, t, mode, interp = ws.setups[s]
    return scene.run(ws.env, ws.gribs[s], t, fmt='netcdf', mode=mode, interp=interp, create=create, args=['-N', ws.alt] if folder == 'alt' else [])


def content(path):
    f = gzip.open(path) if path.endswith('.gz') else open(path, 'rb')
    try:
        a = np.load(f)
        return hashlib.sha1(repr((a.shape, a.dtype)).encode() + np.ascontiguousarray(a).tobytes()).hexdigest()[:12]
    except Exception as e:
        return 'unreadable %s' % type(e).__name__
    finally:
        f.close()


def registry(ws):
    try:
        r = json.load(open(os.path.join(ws.env.conf, 'intertables.json')))
    except OSError:
        return {}
    return {k: v['filename'] for k, v in r.items() if isinstance(v, dict)}


def folders(ws):
    return {'user': ws.env.tables, 'alt': ws.alt, 'global': ws.glob}


def tables(ws):
    out = {}
    for k, d in folders(ws).items():
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if '.npy' in f and not f.endswith('.tmp'):
                out[k, f] = content(os.path.join(d, f))
    return out


def make_fresh(ws, s):
    """result, identifier and table of a set-up in a fresh environment"""
    clean(ws)
    r = execute(ws, s)
    if not r.ok:
        return ('failed', r.error)
    reg, files = registry(ws), tables(ws)
    if len(reg) != 1 or len(files) != 1:
        return ('failed', 'registry %s, files %s' % (reg, files))
    return ('done', [m.tolist() for m in r.maps()], list(reg)[0], list(files.values())[0])


def check(case, ws):
    from .. import sut
    names = case['setups']
    fresh = {}
    for s in names:
        if s not in ws.fresh:
            r = sut.in_child(make_fresh, ws, s)
            if r[0] != 'ok' or r[1][0] != 'done':
                return [('execution-fails', '%s: %s' % (s, r))]
            ws.fresh[s] = r[1]
        fresh[s] = (np.array(ws.fresh[s][1]),) + tuple(ws.fresh[s][2:])
    ids = {s: fresh[s][1] for s in names}
    if len(set(ids.values())) < len(names):
        return [('same-identifier', 'set-ups %s have the same table identifier %s' % (names, ids))]
    fold = ['user', 'alt'] if case.get('alternate') else ['user']

    def status(ws):
        """what the model speaks of: registered set-ups and where their tables are; plus violations of the invariants"""
        reg, files = registry(ws), tables(ws)
        bad = []
        if len(set(reg.values())) < len(reg):
            bad.append(('shared-file', 'two entries of the registry refer to one file: %s' % reg))
        present = set()
        for s in names:
            fn = reg.get(ids[s]) or (globs.get(s) if case.get('global') else None)
            if not fn:
                continue
            for k in folders(ws):
                for n in (fn, fn + '.gz'):
                    c = files.get((k, n))
                    if c is None:
                        continue
                    present.add((s, k))
                    if c != fresh[s][2]:
                        owner = [x for x in names if fresh[x][2] == c]
                        # the entry does not tell the folder: a table with this name could have been left in the other one
                        left = any(files.get((k2, m)) == fresh[s][2] for k2 in folders(ws) if k2 != k for m in (fn, fn + '.gz'))
                        bad.append(('left-in-other-folder' if left and owner else 'wrong-table', 'file %s in %s registered for %s holds %s' % (
                            n, k, s, 'the table of %s' % owner if owner else c)))
        extra = [k for k in reg if k not in ids.values()]
        if extra:
            bad.append(('unknown-entry', 'entries %s in the registry' % extra))
        return {s for s in names if ids[s] in reg}, present, reg, files, bad

    globs = {}

    def reset():
        clean(ws)
        if case.get('global'):
            # the table of the first set-up is a global one
            s = names[0]
            execute(ws, s)
            reg = registry(ws)
            globs[s] = reg[ids[s]]
            full = json.load(open(os.path.join(ws.env.conf, 'intertables.json')))
            shutil.move(os.path.join(ws.env.tables, globs[s]), os.path.join(ws.glob, globs[s]))
            os.makedirs(ws.gl)
            fx.write_json(os.path.join(ws.gl, 'global_conf.json'), {'intertables': ws.glob, 'geopotentials': ws.env.geo})
            fx.write_json(os.path.join(ws.gl, 'intertables.json'), {ids[s]: full[ids[s]]})
            os.unlink(os.path.join(ws.env.conf, 'intertables.json'))
            sut.forget()
            return (frozenset(), frozenset([(s, 'global')]), frozenset())
        return (frozenset(), frozenset(), frozenset())

    def ops(state):
        reg, present, mem = state
        out = []
        for s in names:
            for f in fold:
                out += [('create', s, f), ('use', s, f)]
            out.append(('other-create', s, 'user'))
            for f in fold:
                if (s, f) in present and s in reg:
                    out.append(('delete', s, f))
        out += [('check',), ('other-check',), ('lose',)]
        if mem:
            out.append(('restart',))
        return out

    def available(s, f, reg, present):
        if s in reg and (s, f) in present:
            return True
        return bool(case.get('global')) and (s, 'global') in present

    def apply(op, state):
        reg, present, mem = (set(x) for x in state)
        bad = []
        kind = op[0]
        what = ' '.join(op)
        before = status(ws)
        must_reg, may_reg = set(reg), set(reg)
        must_have, may_have = set(present), set(present)
        if kind in ('create', 'use', 'other-create'):
            s, f = op[1:]
            ok = kind != 'use' or available(s, f, reg, present)
            if kind == 'other-create':
                r = sut.in_child(lambda: (sut.forget(), outcome(execute(ws, s, True, f)))[1])
                if r[0] != 'ok':
                    return state, None, [('execution-fails', '%s: %s' % (what, r))]
                r = r[1]
            else:
                r = outcome(execute(ws, s, kind == 'create', f))
            good, maps, n, err = r
            if good:
                m = np.array(maps)
                if m.shape != fresh[s][0].shape or not np.allclose(m, fresh[s][0], rtol=1e-6, atol=1e-6, equal_nan=True):
                    owner = [x for x in names if x != s and fresh[x][0].shape == m.shape and np.allclose(m, fresh[x][0], rtol=1e-6, atol=1e-6, equal_nan=True)]
                    bad.append(('wrong-result', '%s: result differs from the one in a fresh environment%s' % (what, ' (equals the one of %s)' % owner if owner else '')))
            if ok and not good:
                bad.append(('execution-fails', '%s: %s; registry %s, tables %s' % (what, err, before[2], sorted(before[3]))))
            if not ok:
                if good:
                    bad.append(('not-refused', '%s: succeeded without a table' % what))
                if n:
                    bad.append(('not-refused', '%s: failed, but left %s' % (what, n)))
            if ok and kind != 'use' and not (case.get('global') and available(s, f, reg, present)):
                must_reg.add(s)
                may_reg.add(s)
                must_have.add((s, f))
                may_have.add((s, f))
        elif kind == 'delete':
            s, f = op[1:]
            fn = registry(ws)[ids[s]]
            for n in (fn, fn + '.gz'):
                p = os.path.join(folders(ws)[f], n)
                if os.path.exists(p):
                    os.unlink(p)
            must_have.discard((s, f))
            may_have.discard((s, f))
        elif kind in ('check', 'other-check'):
            if kind == 'check':
                k, v = sut.cli(['-K'])
            else:
                k, v = sut.in_child(lambda: (sut.forget(), sut.cli(['-K']))[1])[1]
            if k != 'ret' or v != 0:
                bad.append(('check-fails', '%s: %s %s %s' % (what, k, v, getattr(v, 'tb', '')[-500:])))
            # entries whose table exists stay; entries without any table go
            for s in names:
                if s in reg and (s, 'user') not in present:
                    must_reg.discard(s)
                    must_have -= {(s, f) for f in fold}
                    if not any((s, f) in present for f in fold + ['global']):
                        may_reg.discard(s)
        elif kind == 'lose':
            p = os.path.join(ws.env.conf, 'intertables.json')
            if os.path.exists(p):
                os.unlink(p)
            must_reg, may_reg = set(), set()
            must_have = {x for x in present if x[1] == 'global'}
            may_have = set(present)
        elif kind == 'restart':
            sut.forget()
            mem = set()
        nreg, npresent, r_, files, inv = status(ws)
        bad += inv
        if not must_reg <= nreg:
            bad.append(('entry-lost', '%s: entries of %s are gone; registry %s' % (what, sorted(must_reg - nreg), r_)))
        if not nreg <= may_reg:
            bad.append(('entry-unexpected', '%s: entries of %s are in the registry %s' % (what, sorted(nreg - may_reg), r_)))
        if not must_have <= npresent:
            bad.append(('table-lost', '%s: tables of %s are gone; files %s, registry %s' % (what, sorted(must_have - npresent), sorted(files), r_)))
        if kind in ('create', 'use'):
            # what this process can remember
            mem |= {(f, n, c) for (f, n), c in files.items() if n in (r_.get(ids[op[1]]), globs.get(op[1]))}
        new = (frozenset(nreg), frozenset(npresent), frozenset(mem))
        key = (tuple(sorted(r_.items())), tuple(sorted(files.items())), new[2])
        return new, key, bad

    if not case['depth']:
        a, b = names
        state, bad, n = reset(), [], 0
        for op in [('create', a, 'user'), ('create', b, 'user'), ('use', a, 'user'), ('other-create', b, 'user'), ('check',), ('restart',), ('use', b, 'user'), ('delete', a, 'user'), ('use', b, 'user'), ('create', a, 'user'),
                   ('lose',), ('create', b, 'user'), ('create', a, 'user')]:
            state, _, x = apply(op, state)
            bad += x
            n += 1
            if x:
                break
        return bad, {'transitions': n, 'traces_validated_against_impl': n, 'evaluations': n, 'distinct': n}
    dirs = [ws.env.conf, ws.env.tables, ws.alt, ws.glob, ws.gl]
    states, trans, viol, complete = bfs.search(reset, ops, apply, dirs, os.path.join(ws.root, 'snap'), case['depth'])
    seen, bad = set(), []
    for hist, sig, msg in viol:
        if sig not in seen:
            seen.add(sig)
            bad.append((sig, 'after %s: %s' % (' / '.join(' '.join(o) for o in hist), msg)))
    return bad, {'states': states, 'transitions': trans, 'traces_validated_against_impl': trans, 'evaluations': trans, 'distinct': states,
                 'explored_to_closure': int(complete), 'groups': 1}


def outcome(r):
    return r.ok, [m.tolist() for m in r.maps()] if r.ok else [], r.names, r.error
