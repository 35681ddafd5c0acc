"""C15: the geopotential registry maps each grid to its own geopotential file, whatever the history."""
import hashlib
import json
import os
import shutil

import numpy as np

from .. import bfs
from .. import fixtures as fx

PROPERTY, LEVEL = 'C15', 'model_checking'
TECHNIQUE = ('explicit-state exploration of histories of the geopotential registry on the real tool (forked processes, files put back between branches); after each transition every grid '
             'is looked up by executions with correction and the result is checked against an abstract registry')
NOTE = ('All histories up to the depth over additions (command, API, an API object kept since the start of the process, another process), removals, re-additions of the file in the '
        'user folder, files put in or deleted from the user and alternate folders, refused additions and restarts. A state is the registry, the content of the folders, what the kept '
        'object holds and the geopotentials used by the process.')
RULE = 'alphabet of operations (groups of files and ways of calling) x every history up to the depth, deduplicated on the state; 2 lookups per grid after each transition. Non-trivial: all'
ASSUMPTIONS = ['a file placed by the user in the alternate or user folder under a registered name was made for the grid of that name',
               'only the file registry entries are removed: the file itself may stay in the folder']
CHUNK = 1
CASE_TIMEOUT = 3000

# name in the folder, grid, constant value
FILES = {'a1': ('a.grib', 1, 11.), 'a2': ('a.grib', 2, 22.), 'b1': ('b.grib', 1, 111.), 'b2': ('b.grib', 2, 222.), 'c3': ('c.grib', 3, 33.), 'a1x': ('a.grib', 1, 1111.)}
BAD = ['missing', 'text', 'empty', 'no-geopotential']
PUT = {'b1': ('b.grib', 1, 1001.), 'c3': ('c.grib', 3, 3003.), 'g3': ('g.grib', 3, 3333.)}
GLOBAL = ('g.grib', 3, 333.)


def cases(tier):
    q = tier == 'quick'
    d = 5 if q else 7
    out = []
    for how in ('cli', 'api', 'kept'):
        for files in (['a1', 'a2'], ['a1', 'b1'], ['a1', 'a1x'], ['b1', 'b2'], ['a1', 'c3']):
            out.append({'files': files, 'how': [how], 'depth': d})
    out.append({'files': ['a1', 'a2', 'b1'], 'how': ['cli', 'other'], 'depth': d - 1})
    out.append({'files': ['a1', 'b1'], 'how': ['kept', 'other'], 'depth': d})
    out.append({'files': ['a1', 'b2'], 'how': ['kept', 'cli'], 'depth': d})
    out.append({'files': ['a2', 'b1', 'c3'], 'how': ['cli'], 'depth': d - 1})
    out.append({'files': ['b1', 'a2'], 'how': ['cli'], 'put': ['alt:b1', 'user:b1'], 'depth': d - 1})
    out.append({'files': ['b1', 'c3'], 'how': ['cli'], 'put': ['alt:c3', 'user:b1'], 'depth': d - 1})
    out.append({'files': ['a1'], 'how': ['cli', 'api'], 'bad': BAD, 'depth': d - 1})
    out.append({'files': ['a1', 'c3'], 'how': ['cli', 'other'], 'global': True, 'depth': d - 1})
    out.append({'files': ['c3', 'g3'], 'how': ['cli'], 'global': True, 'put': ['alt:g3', 'user:g3'], 'depth': d - 1})
    out.append({'files': ['a1', 'b1'], 'how': ['cli', 'api'], 'nofolder': True, 'depth': 3})
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.grids = {1: fx.Grid(6, 5, 50, 0), 2: fx.Grid(7, 6, 51, -1), 3: fx.Grid(8, 7, 52, -1)}
    ws.t = fx.Target.regular(ws.dir('tgt'), 't', 3, 3, 49.3, 0.4)
    ws.dem = fx.write_pcr(os.path.join(ws.dir('tgt'), 'dem.map'), np.ones((3, 3)), *ws.t.origin, 1.)
    ws.src, ws.put, ws.val = {}, {}, {}
    files = dict(FILES, g3=('g.grib', 3, 303.))
    for d, group in (('src', files), ('put', PUT), ('global', {'g': GLOBAL})):
        for k, (n, g, v) in group.items():
            p = fx.write_grib(os.path.join(ws.dir(d, k), n), [dict(grid=ws.grids[g], values=np.full(ws.grids[g].n, v), short='orog' if k == 'c3' else 'z', end=0)])
            {'src': ws.src, 'put': ws.put, 'global': ws.src}[d]['global' if d == 'global' else k] = p
            ws.val[digest(p)] = v
    ws.bad = {'missing': os.path.join(ws.dir('bad'), 'nothing.grib'), 'text': os.path.join(ws.dir('bad'), 't.grib'), 'empty': os.path.join(ws.dir('bad'), 'e.grib')}
    open(ws.bad['text'], 'w').write('not a GRIB file\n' * 20)
    open(ws.bad['empty'], 'w').close()
    ws.inp = {g: fx.write_grib(os.path.join(ws.dir('in'), '%d.grib' % g), [dict(grid=ws.grids[g], values=np.full(ws.grids[g].n, 280.), short='2t', end=0)]) for g in ws.grids}
    ws.bad['no-geopotential'] = ws.inp[1]
    ws.alt = os.path.join(ws.env.root, 'alt')
    ws.glob = os.path.join(ws.env.root, 'global')
    ws.gl = os.path.join(os.getcwd(), 'configuration', 'global')


def digest(p):
    return hashlib.sha1(open(p, 'rb').read()).hexdigest()[:10]


def folder(d):
    return {f: digest(os.path.join(d, f)) for f in sorted(os.listdir(d)) if not f.endswith('.lock')} if os.path.isdir(d) else {}


def registry(ws):
    try:
        r = json.load(open(os.path.join(ws.env.conf, 'geopotentials.json')))
    except OSError:
        return {}
    return {k: v for k, v in r.items() if k != 'description'}


def disk(ws):
    return registry(ws), folder(ws.env.geo), folder(ws.alt), folder(ws.glob)


def check(case, ws):
    from .. import scene, sut
    files = dict(FILES, g3=('g.grib', 3, 303.))
    kept = {}

    def configuration():
        from pyg2p.main.config import GeopotentialsConfiguration, UserConfiguration
        return GeopotentialsConfiguration(UserConfiguration())

    def lookup(g, alt):
        cor = {'formula': 'gem', 'gem': 'z*1', 'dem': ws.dem}
        r = scene.run(ws.env, ws.inp[g], ws.t, correction=cor, args=['-G', ws.alt] if alt else [])
        if r.ok and len(r.names) == 1:
            m = r.maps()[0]
            return float(m[0, 0]) if (m == m[0, 0]).all() else m.tolist()
        return 'refused' if r.kind == 'ret' and not r.names else r.error

    def reset():
        for d in (ws.alt, ws.glob, ws.gl):
            shutil.rmtree(d, ignore_errors=True)
        ws.env.with_geo = not case.get('nofolder')
        ws.env.reset()
        os.makedirs(ws.alt)
        os.makedirs(ws.glob)
        if not case.get('nofolder'):
            os.makedirs(ws.env.geo, exist_ok=True)
        reg = {}
        globs = {}
        if case.get('global'):
            from pyg2p.main.readers import GRIBReader
            gid = GRIBReader.get_id(ws.src['global'], {'shortName': ['z']})
            shutil.copy(ws.src['global'], ws.glob)
            os.makedirs(ws.gl)
            fx.write_json(os.path.join(ws.gl, 'global_conf.json'), {'intertables': ws.env.tables, 'geopotentials': ws.glob})
            fx.write_json(os.path.join(ws.gl, 'geopotentials.json'), {gid: GLOBAL[0]})
            sut.forget()
            globs[GLOBAL[1]] = GLOBAL[0]
        kept.clear()
        kept['o'] = configuration()
        f = (frozenset(), frozenset(), frozenset((('global', GLOBAL[0]), GLOBAL[2]) for _ in range(1) if globs))
        return (frozenset(reg.items()), frozenset(globs.items()), f, frozenset())

    def ops(state):
        reg = dict(state[0])
        user = dict(state[2][0])
        out = []
        for h in case['how']:
            for f in case['files']:
                out.append(('add', f, h))
            for n in sorted({files[f][0] for f in case['files']} | ({'g.grib'} if case.get('global') else set())):
                out.append(('remove', n, 'api' if h == 'cli' else h))
            for b in case.get('bad', []):
                out.append(('add', b, h))
        for (_, n) in sorted(user):
            out.append(('add-in-place', n, case['how'][0]))
            out.append(('delete', n))
        for p in case.get('put', []):
            out.append(('put',) + tuple(p.split(':')))
        out.append(('restart',))
        return out

    def apply(op, state):
        reg, globs = dict(state[0]), dict(state[1])
        user, alt, glob = (dict(x) for x in state[2])
        mem = set(state[3])
        bad = []
        what = ' '.join(op)
        before = disk(ws)

        def call(how, cli, api):
            """('ok'|'refused'|error text)"""
            if how == 'other':
                r = sut.in_child(lambda: (sut.forget(), call('cli', cli, api))[1])
                return r[1] if r[0] == 'ok' else str(r)
            if how == 'cli':
                k, v = sut.cli(cli)
                return 'ok' if (k, v) == ('ret', 0) else 'refused' if k == 'ret' and v not in (0, None) or k == 'exc' and op[1] in BAD else '%s %s %s' % (k, v, getattr(v, 'tb', '')[-600:])
            from pyg2p.exceptions import ApplicationException
            try:
                api(kept['o'] if how == 'kept' else configuration())
                return 'ok'
            except ApplicationException:
                return 'refused'
            except Exception as e:
                # any exception tells the caller of the API
                return 'refused' if op[1] in BAD else '%s: %s' % (type(e).__name__, e)

        if op[0] in ('add', 'add-in-place'):
            path = ws.bad.get(op[1]) or ws.src[op[1]] if op[0] == 'add' else os.path.join(ws.env.geo, op[1])
            r = call(op[2], ['-g', path], lambda o: o.add(path))
            if op[1] in BAD:
                want = 'refused'
            else:
                if op[0] == 'add':
                    n, g, v = files[op[1]]
                else:
                    n, v = op[1], user['user', op[1]]
                    g = next(x[1] for x in list(files.values()) + list(PUT.values()) if x[2] == v)
                names = set(reg.values()) | set(globs.values())
                want = 'refused' if g in reg or g in globs or n in names or case.get('nofolder') else 'ok'
            if r != want:
                bad.append(('addition', '%s: %s, expected %s; registry %s' % (what, r, want, before[0])))
            if want == 'ok':
                reg[g] = n
                user['user', n] = v
            elif disk(ws) != before:
                bad.append(('refused-changes', '%s: refused, but %s became %s' % (what, before, disk(ws))))
        elif op[0] == 'remove':
            from pyg2p.main.config import Configuration
            if op[2] == 'other':
                r = sut.in_child(lambda: (sut.forget(), Configuration().remove_geopotential(op[1]))[0])
                r = 'ok' if r[0] == 'ok' else str(r)
            else:
                r = call(op[2], None, lambda o: o.remove(op[1]))
            if r not in ('ok', 'refused') or (op[1] in reg.values() and r != 'ok'):
                bad.append(('removal', '%s: %s' % (what, r)))
            reg = {k: n for k, n in reg.items() if n != op[1]}
            # the file may be removed with its entry
            if ('user', op[1]) in user and not os.path.exists(os.path.join(ws.env.geo, op[1])):
                del user['user', op[1]]
        elif op[0] == 'delete':
            os.unlink(os.path.join(ws.env.geo, op[1]))
            del user['user', op[1]]
        elif op[0] == 'put':
            n, g, v = PUT[op[2]]
            d = ws.alt if op[1] == 'alt' else ws.env.geo
            tmp = os.path.join(d, n + '.x')
            shutil.copy(ws.put[op[2]], tmp)
            os.replace(tmp, os.path.join(d, n))
            (alt if op[1] == 'alt' else user)[op[1], n] = v
        elif op[0] == 'restart':
            sut.forget()
            kept['o'] = configuration()
            mem = set()
        # the state of the folders is the one of the model
        r_, u_, a_, g_ = disk(ws)
        if sorted(r_.values()) != sorted(reg.values()):
            bad.append(('registry', '%s: entries %s, expected files %s' % (what, r_, sorted(reg.values()))))
        if {n: ws.val.get(d) for n, d in u_.items()} != {n: v for (_, n), v in user.items()}:
            bad.append(('folder', '%s: folder holds %s, expected %s' % (what, {n: ws.val.get(d) for n, d in u_.items()}, user)))
        # lookups
        for g in ws.grids:
            n = reg.get(g) or globs.get(g)
            for with_alt in (False, True):
                want = 'refused'
                if n:
                    for f in ([alt] if with_alt else []) + [user, glob]:
                        hit = [v for (_, m), v in f.items() if m == n]
                        if hit:
                            want = hit[0]
                            break
                got = lookup(g, with_alt)
                if got != want:
                    bad.append(('lookup', '%s: grid %d%s gives %s, expected %s; registry %s' % (what, g, ' with alternate folder' if with_alt else '', got, want, r_)))
                mem.add((g, got if isinstance(got, (float, str)) else str(got)))
        new = (frozenset(reg.items()), frozenset(globs.items()), (frozenset(user.items()), frozenset(alt.items()), frozenset(glob.items())), frozenset(mem))
        held = json.dumps([kept['o'].vars, kept['o'].user_vars], sort_keys=True) if 'kept' in case['how'] else ''
        return new, (json.dumps(disk(ws), sort_keys=True), held, new[3]), bad

    dirs = [ws.env.conf, ws.env.geo, ws.env.tables, ws.alt, ws.glob, ws.gl]
    states, trans, viol, complete = bfs.search(reset, ops, apply, dirs, os.path.join(ws.root, 'snap'), case['depth'])
    shutil.rmtree(ws.gl, ignore_errors=True)
    seen, bad = set(), []
    for hist, sig, msg in viol:
        if sig not in seen:
            seen.add(sig)
            bad.append((sig, 'after %s: %s' % (' / '.join(' '.join(o) for o in hist), msg)))
    return bad, {'states': states, 'transitions': trans, 'traces_validated_against_impl': trans, 'evaluations': trans, 'distinct': states,
                 'explored_to_closure': int(complete)}
