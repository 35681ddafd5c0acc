"""C07: exactly the messages matching the selectors are read, whatever else the file contains and in any order."""
import itertools

import numpy as np

from .. import fixtures as fx
from .. import ref

PROPERTY, LEVEL = 'C07', 'exploration'
TECHNIQUE = 'bounded exhaustive exploration of GRIB file contents, message orders and selectors on the real tool, compared with a reference model'
NOTE = ('Complete over all files of up to 3 (thorough: 4) messages of a pool in which messages differ in one key at a time, their orders, and the listed selectors. '
        'Requests for which several matching messages share a step (not determined by the selectors) are outside the domain.')
RULE = ('every subset of up to 3 messages of the pool x order of the messages x selectors (step period, level, date, time, member; given on the command '
        'line or in the command file) x output format. non-trivial: at least one message matches and one does not')
ASSUMPTIONS = ['selectors determine at most one message per step']
CHUNK = 6
POOL = {
    'b0': dict(end=0), 'b6': dict(end=6), 'b12': dict(end=12), 'b36': dict(end=36),
    'lvl': dict(end=6, level=850, level_type='pl'), 'lvl2': dict(end=12, level=500, level_type='pl'),
    'date': dict(end=6, date=20200102), 'time': dict(end=6, time=1200),
    'pert1': dict(end=6, pert=1), 'pert2': dict(end=12, pert=2),
    'b24': dict(end=24), 'var': dict(end=18, short='tpvar'), 'other': dict(end=6, short='2t'),
    'acc': dict(end=24, start=0, step_type='accum'), 'acc2': dict(end=30, start=0, step_type='accum'),
}


def requests(tier):
    out = [dict()]
    for ts, te in ((None, 0), (None, 6), (None, 12), (0, None), (6, None), (12, None), (0, 0), (6, 6), (0, 6), (6, 12), (0, 24), (7, None), (24, 36), (18, 30)):
        out.append(dict(tstart=ts, tend=te))
    out += [dict(level=850), dict(level=500), dict(level=0), dict(date=20200101), dict(date=20200102), dict(time=1200), dict(time=0),
            dict(pert=1), dict(pert=2), dict(pert=1, tend=6), dict(level=850, tstart=6, tend=12), dict(date=20200101, time=1200), dict(pert=1, level=0)]
    if tier != 'quick':
        out += [dict(tstart=a, tend=b) for a in (None, 0, 6, 12, 18, 24, 36) for b in (None, 0, 6, 12, 18, 24, 30, 36)
                if (a is None or b is None or a <= b) and dict(tstart=a, tend=b) not in out]
        out += [dict(pert=p, time=t) for p in (1, 2) for t in (0, 1200)]
    return out


def cases(tier):
    out = []
    names = list(POOL)
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for sub in itertools.combinations(names, n):
            orders = list(itertools.permutations(sub)) if n < 3 or tier != 'quick' and n == 3 else [sub, sub[::-1], sub[1:] + sub[:1]]
            for o in orders[:6] if n < 4 else [sub, sub[::-1]]:
                out.append({'messages': list(o), 'fmt': 'netcdf' if len(out) % 3 == 0 else 'pcraster'})
    return out


def nontrivial(case):
    return len(case['messages']) > 1


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.grid = fx.Grid(3, 2, 52, 10)
    ws.target = fx.Target.regular(ws.dir('tgt'), 't', 2, 3, 52, 10)
    ws.warm = False


def check(case, ws):
    from .. import scene
    g = ws.grid
    msgs = []
    for k in case['messages']:
        i = list(POOL).index(k)
        msgs.append(dict(dict(grid=g, values=1000.0 * (i + 1) + np.arange(g.n), short='tp'), **POOL[k]))
    f = ws.env.grib(msgs)
    bad, n, non = [], 0, 0
    for j, q in enumerate(requests(ws.tier)):
        req = dict(q, short='tp')
        empty = False
        try:
            exp = ref.steps_of(msgs, req)
        except ref.NothingFound:
            exp, empty = {}, True
        sel = [] if empty else ref.series(msgs, req)[0]
        if len({m['end'] for m in sel}) != len(sel):
            continue
        n += 1
        cli = (j + len(case['messages'])) % 2 == 0
        args, param = [], {}
        for k, opt, key in (('tstart', '-s', '@tstart'), ('tend', '-e', '@tend'), ('date', '-D', '@dataDate'), ('time', '-T', '@dataTime'),
                            ('pert', '-m', '@perturbationNumber')):
            if q.get(k) is not None:
                if cli:
                    args += [opt, str(q[k])]
                else:
                    param[key] = q[k] if j % 3 else str(q[k])
        if q.get('level') is not None:
            param['@level'] = q['level'] if j % 2 else str(q['level'])
        r = scene.run(ws.env, f, ws.target, fmt=case['fmt'], short='tp', mode='nearest', args=args, param=param)
        tag = 'request %s via %s' % (q, 'options' if cli else 'command file')
        if empty:
            if (r.kind, r.value) != ('ret', 0) or r.names:
                bad.append(('no-message-case', '%s: %s files %s' % (tag, r.error, r.names)))
            continue
        if not r.ok:
            bad.append(('execution-fails', '%s %s' % (tag, r.error)))
            continue
        maps = r.maps()
        if len(sel) < len(msgs):
            non += 1
        if len(maps) != len(exp):
            got = [sorted(case['messages'], key=lambda k: abs(1000.0 * (list(POOL).index(k) + 1) - np.nanmin(m)))[0] for m in maps]
            bad.append(('wrong-selection', '%s: maps of %s, expected steps %s' % (tag, got, list(exp))))
            continue
        for (k, e), m in zip(exp.items(), maps):
            d = ref.same(m, e, 1e-5, 1e-3)
            if d:
                bad.append(('wrong-values', '%s step %s: %s' % (tag, k, d)))
        if case['fmt'] == 'netcdf':
            t = list(r.nc()['time'])
            if t != [k[1] for k in exp]:
                bad.append(('wrong-steps', '%s: %s, expected %s' % (tag, t, list(exp))))
        if len(bad) > 4:
            break
    return bad, {'evaluations': n, 'distinct': non}
