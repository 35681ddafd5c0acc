"""C29: the log level decides what is logged and nothing else."""
import gzip
import itertools
import logging
import os
import shutil

import numpy as np

from .. import bfs
from .. import fixtures as fx

PROPERTY, LEVEL = 'C29', 'exploration'
TECHNIQUE = ('exhaustive enumeration of executions (catalogue of every entry point, every kind of failure; all message sets of the aggregations; all pairs of interpolation method and output) x log level on the real tool; '
             'relational oracle: results, files left and errors reported are those at level ERROR')
NOTE = 'Complete over the catalogue and the stated products; messages are really formatted and handed to a log handler. What messages below the level ERROR say is free.'
RULE = ('operation of the catalogue x level x (without and with what an earlier execution left); aggregation x set of messages x pattern of missing values x level; '
        'place of the table and its registry entry x compressed or not x permission to create x method x level; interpolation method x format x correction x level. Non-trivial: the execution logs more than at level ERROR')
ASSUMPTIONS = ['the level ERROR is the reference; C01-C28 are decided at that level']
CHUNK = 4
LEVELS = ['DEBUG', 'INFO', 'WARNING']
STEPS = (0, 6, 12, 18)
# where the table of an execution is: its registry entry / its file
PLACES = ['user', 'user/lost', 'user/alternate', 'alternate', 'alternate/lost', 'global', 'global/lost', 'global/user', 'unregistered', 'none']


def operations():
    from .c24_histories import names
    return [n for n in names() if n not in ('debug', 'builder')]


def cases(tier):
    q = tier == 'quick'
    out = [{'op': o} for o in operations()]
    sets = [s for n in range(len(STEPS) + 1) for s in itertools.combinations(STEPS, n)]
    for t, flag in (('accumulation', False), ('accumulation', True), ('average', False), ('average', True), ('instantaneous', False)):
        for s in sets:
            out.append({'aggregation': t, 'flag': flag, 'messages': list(s) + [24]})
    for p, m, gz, create in itertools.product(PLACES, ('nearest', 'grib_nearest', 'invdist', 'grib_invdist'), (True, False), (False, True)):
        out.append({'tables': p, 'mode': m, 'gz': gz, 'create': create})
    from ..scene import ALL_MODES
    for m in ALL_MODES:
        for fmt, cor, ed in itertools.product(('pcraster', 'netcdf'), (False, True), (1,) if q else (1, 2)):
            out.append({'mode': m, 'format': fmt, 'correction': cor, 'edition': ed})
    return out


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.NOTSET)
        self.levels, self.errors = {}, []

    def emit(self, r):
        text = r.getMessage()
        self.levels[r.levelname] = self.levels.get(r.levelname, 0) + 1
        if r.levelno >= logging.ERROR:
            self.errors.append(' '.join(text.split()))


class At:
    """Executions at a level, whatever the entry point; what they log is recorded."""

    def __init__(self, level):
        self.level = level

    def __enter__(self):
        from .. import scene, sut
        self.keep = sut.cli, scene.api_dict
        cli, api = self.keep
        level = self.level

        def at(args):
            args = [str(a) for a in args]
            if '-l' in args:
                args[args.index('-l') + 1] = level
            else:
                args += ['-l', level]
            return cli(args)
        sut.cli = at
        scene.api_dict = lambda *a, **kw: dict(api(*a, **kw), loggerLevel=level)
        self.records = Records()
        root = logging.getLogger()
        self.level0, self.handlers, self.disabled = root.level, root.handlers[:], root.manager.disable
        root.handlers[:] = [self.records]
        logging.disable(logging.NOTSET)
        return self.records

    def __exit__(self, *a):
        from .. import scene, sut
        sut.cli, scene.api_dict = self.keep
        root = logging.getLogger()
        root.handlers[:] = self.handlers
        root.setLevel(self.level0)
        logging.disable(self.disabled)


def setup(ws):
    from .. import execs, scene
    ws.cat = c = execs.Catalogue(ws)
    c.reset()
    c.run('adw')
    c.reset()
    ws.env = scene.Env(ws, 'env29', home=None)
    ws.grid = fx.Grid(5, 4, 50, 0)
    ws.t = fx.Target.regular(ws.dir('tgt29'), 't', 3, 4, 49.5, 0.5)
    ws.dem = fx.write_pcr(ws.path('tgt29', 'dem.map'), np.arange(12.).reshape(3, 4) * 10, *ws.t.origin, 1.)


def check(case, ws):
    from .. import execs, scene, sut
    bad, n, non = [], 0, 0

    def outcome(fn, level):
        with At(level) as rec:
            try:
                r = fn()
            except Exception as e:
                import traceback
                r = {'end': ('exc', type(e).__name__), 'maps': {}, 'text': traceback.format_exc()[-600:]}
        return r, rec

    def compare(what, ref, got, level):
        nonlocal non
        non += sum(got[1].levels.values()) > sum(ref[1].levels.values())
        d = execs.difference(ref[0], got[0])
        if d:
            bad.append(('result', '%s at level %s: %s %s' % (what, level, d, got[0].get('text', '') if isinstance(got[0], dict) else '')))
        if len(ref[1].errors) != len(got[1].errors):
            bad.append(('errors', '%s: at level %s the errors logged are %s, at level ERROR %s' % (what, level, got[1].errors[:3], ref[1].errors[:3])))
    if 'op' in case:
        c = ws.cat
        c.reset()
        start = bfs.Snapshot(c.dirs, ws.path('snap29'))
        ref = {}
        for level in ['ERROR'] + LEVELS:
            start.restore()
            sut.forget()
            for round_ in ('first', 'again'):
                n += 1
                r = outcome(lambda: c.run(case['op']), level)
                state = c.state()
                if level == 'ERROR':
                    ref[round_] = r, state
                    continue
                compare('%s (%s)' % (case['op'], round_), ref[round_][0], r, level)
                d = execs.difference(ref[round_][1], state)
                if d:
                    bad.append(('left-behind', '%s (%s) at level %s: %s' % (case['op'], round_, level, d)))
        start.restore()
        return bad[:3], {'evaluations': n, 'distinct': non}
    e = ws.env
    base = np.arange(float(ws.grid.n)) + 5
    if 'aggregation' in case:
        t = case['aggregation']
        acc = t == 'accumulation'
        short = 'tp' if acc else '2t'
        agg = {'@type': t, '@step': 6, '@halfweights': case['flag'] and t == 'average'}
        if acc and case['flag']:
            agg['@forceZeroArray'] = 'y'
        for holes in (False, True):
            msgs = []
            for k, s in enumerate(case['messages']):
                v = base + 10 * s
                if holes:
                    v[k % ws.grid.n] = np.nan
                msgs.append(fx.grib_message(ws.grid, v, short=short, end=s, **(dict(start=0, step_type='accum') if acc and s else {})))
            f = e.grib(msgs)
            ref = None
            for level in ['ERROR'] + LEVELS:
                e.reset()
                n += 1

                def fn():
                    return ws.cat.describe(scene.run(e, f, ws.t, fmt='netcdf', short=short, aggregation=agg))
                r = outcome(fn, level)
                if ref is None:
                    ref = r
                else:
                    compare('%s %s' % (case, 'with holes' if holes else ''), ref, r, level)
        return bad[:3], {'evaluations': n, 'distinct': non}
    if 'tables' in case:
        return tables(case, ws, outcome, compare, bad, lambda: non)
    e.reset()
    g = fx.write_grib(e.path('g', 'z.grib'), [fx.grib_message(ws.grid, base * 3, short='z', end=0)])
    cor = {'formula': 'p+gem-dem', 'gem': 'z*0.1', 'dem': ws.dem}
    v = base.copy()
    v[7] = np.nan
    f = e.grib([fx.grib_message(ws.grid, base, end=6, edition=case['edition']), fx.grib_message(ws.grid, v, end=12, edition=case['edition'])])
    ref = {}
    for level in ['ERROR'] + LEVELS:
        e.reset()
        if case['correction']:
            assert sut.cli(['-g', g, '-l', 'ERROR']) == ('ret', 0)
        for round_ in ('first', 'again'):
            n += 1
            r = outcome(lambda: ws.cat.describe(scene.run(e, f, ws.t, fmt=case['format'], mode=case['mode'], correction=cor if case['correction'] else None)), level)
            if level == 'ERROR':
                ref[round_] = r
            else:
                compare('%s (%s)' % (case, round_), ref[round_], r, level)
    return bad[:3], {'evaluations': n, 'distinct': non}


def tables(case, ws, outcome, compare, bad, non):
    """The table of the request is in some place, registered or not."""
    from .. import execs, scene, sut
    e = ws.env
    alt, glob, conf = e.path('alttables', ''), e.path('globtables', ''), os.path.join(os.getcwd(), 'configuration', 'global')
    f = e.grib([fx.grib_message(ws.grid, np.arange(float(ws.grid.n)), end=6)])
    ref, n = None, 0
    for level in ['ERROR'] + LEVELS:
        for d in (alt, glob, conf):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(alt)
        os.makedirs(glob)
        e.reset()
        entry, _, place = case['tables'].partition('/')
        place = place or entry
        if entry != 'none':
            assert scene.run(e, f, ws.t, mode=case['mode']).ok
            name, = os.listdir(e.tables)
            p = os.path.join(e.tables, name)
            if not case['gz']:
                with gzip.open(p) as a, open(p[:-3], 'wb') as b:
                    shutil.copyfileobj(a, b)
                os.unlink(p)
                p = p[:-3]
                r = os.path.join(e.conf, 'intertables.json')
                text = open(r).read()
                open(r, 'w').write(text.replace(name, os.path.basename(p)))
            if place == 'lost':
                os.unlink(p)
            elif place in ('alternate', 'global'):
                shutil.move(p, alt if place == 'alternate' else glob)
            if entry == 'global':
                os.makedirs(conf)
                fx.write_json(os.path.join(conf, 'global_conf.json'), {'intertables': glob, 'geopotentials': e.geo})
                shutil.move(os.path.join(e.conf, 'intertables.json'), conf)
            if entry == 'unregistered':
                os.unlink(os.path.join(e.conf, 'intertables.json'))
        sut.forget()
        n += 1
        args = ['-N', alt] if entry == 'alternate' or place == 'alternate' else []
        got = outcome(lambda: ws.cat.describe(scene.run(e, f, ws.t, fmt='netcdf', mode=case['mode'], create=case['create'], args=args)), level)
        left = {k: sorted(os.listdir(d)) for k, d in (('user', e.tables), ('alternate', alt), ('global', glob))}
        if ref is None:
            ref, ref_left = got, left
            continue
        compare(str(case), ref, got, level)
        if left != ref_left:
            bad.append(('left-behind', '%s at level %s: tables %s, at level ERROR %s' % (case, level, left, ref_left)))
    shutil.rmtree(conf, ignore_errors=True)
    sut.forget()
    return bad[:3], {'evaluations': n, 'distinct': non()}
