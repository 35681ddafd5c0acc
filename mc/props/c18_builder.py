"""C18: a command object represents the options given to it, the last value winning, and runs as the tool with them."""
import csv
import io
import itertools
import os
import pathlib

import numpy as np

from .. import fixtures as fx

PROPERTY, LEVEL = 'C18', 'exploration'
TECHNIQUE = ('exhaustive enumeration of programs: ways of creating a command (string, template, none) and every sequence of builder calls up to the depth, compared after each with a dictionary model; '
             'programs up to a smaller depth are also run and compared with the command line tool')
NOTE = 'Complete over the stated alphabets. The representation is read back with an independent parser of the option syntax.'
RULE = ('creations (none, strings with flags in every position, quoted, long options, repeated options, templates with parameters of several types) x sequences of builder calls '
        '(all options, same option twice, flags, paths, numbers, values with spaces) up to depth 3; executions up to depth 2. Non-trivial: all')
ASSUMPTIONS = ['values contain no line ends', 'parameters with spaces are quoted in the template', 'the same option is not given in both its short and long form inside one string']
CHUNK = 8
CASE_TIMEOUT = 600

LONG = {'--commandsFile': '-c', '--outDir': '-o', '--inputFile': '-i', '--inputFile2': '-I', '--start': '-s', '--end': '-e', '--perturbationNumber': '-m', '--dataTime': '-T', '--dataDate': '-D', '--fmap': '-f',
        '--format': '-F', '--ext': '-x', '--namePrefix': '-n', '--offset': '-O', '--scaleFactor': '-S', '--validMax': '-vM', '--validMin': '-vm', '--valueFormat': '-vf', '--outputStepUnits': '-U',
        '--loggerLevel': '-l', '--intertableDir': '-N', '--geopotentialDir': '-G', '--createIntertable': '-B', '--interpolationParallel': '-X', '--underApi': '-A'}
FLAGS = ('-B', '-X', '-A', '-K')
METHODS = {'cmdpath': '-c', 'inputfile': '-i', 'second_input_file': '-I', 'eps': '-m', 'tend': '-e', 'tstart': '-s', 'datatime': '-T', 'datadate': '-D', 'ext': '-x', 'fmap': '-f', 'outdir': '-o',
           'nameprefix': '-n', 'scaleFactor': '-S', 'offset': '-O', 'validMax': '-vM', 'validMin': '-vm', 'valueFormat': '-vf', 'log_level': '-l', 'out_format': '-F', 'outputStepUnits': '-U',
           'create_intertable': '-B', 'parallel': '-X', 'intertable_dir': '-N'}
VALUES = {'cmdpath': ['a.json', pathlib.PurePosixPath('/x/b.json'), '/with space/c.json'], 'inputfile': ['in.grib', '/with two  spaces/i.grib'], 'second_input_file': ['two.grib'], 'eps': ['10', 0], 'tend': [240, '12'],
          'tstart': ['0', 6], 'datatime': [1200], 'datadate': ['20200101'], 'ext': ['4'], 'fmap': [0, '7'], 'outdir': ['./', '/out/'], 'nameprefix': ['abc', 'a b', 'a=b'], 'scaleFactor': [.5], 'offset': ['-5', -0.5],
          'validMax': ['1e3'], 'validMin': [-10], 'valueFormat': ['i2'], 'log_level': ['DEBUG'], 'out_format': ['netcdf'], 'outputStepUnits': ['3h'], 'create_intertable': [None], 'parallel': [None],
          'intertable_dir': ['/tables/']}
# (command string or None, parameters, model)
STARTS = [
    (None, {}, {}), ('', {}, {}), ('pyg2p', {}, {}), ('  pyg2p  ', {}, {}),
    ('-c a.json', {}, {'-c': 'a.json'}), ('pyg2p -c a.json -i b.grib', {}, {'-c': 'a.json', '-i': 'b.grib'}), ('pyg2p.py -c a.json', {}, {'-c': 'a.json'}),
    ('-l DEBUG -c g2p.json', {}, {'-l': 'DEBUG', '-c': 'g2p.json'}), ('-c 2p.json -i pyg2p', {}, {'-c': '2p.json', '-i': 'pyg2p'}),
    ('-B', {}, {'-B': ''}), ('-B -X', {}, {'-B': '', '-X': ''}), ('-c a.json -B -i b.grib', {}, {'-c': 'a.json', '-B': '', '-i': 'b.grib'}), ('-B -c a.json -X', {}, {'-B': '', '-c': 'a.json', '-X': ''}),
    ('-X -B -m 10 -c a.json', {}, {'-B': '', '-c': 'a.json', '-X': '', '-m': '10'}), ('-c a.json  -i  b.grib', {}, {'-c': 'a.json', '-i': 'b.grib'}),
    ('--commandsFile=a.json -B', {}, {'-c': 'a.json', '-B': ''}), ('--commandsFile a.json --createIntertable --fmap=3', {}, {'-c': 'a.json', '-B': '', '-f': '3'}),
    ('-c a.json -c b.json', {}, {'-c': 'b.json'}), ('-O -5 -B -vm -0.5', {}, {'-O': '-5', '-B': '', '-vm': '-0.5'}), ('-n a=b -i "x y.grib" -B', {}, {'-n': 'a=b', '-i': 'x y.grib', '-B': ''}),
    ('-c {c}/a.json -i {g} -B', {'c': '/cmds', 'g': 'f.grib'}, {'-c': '/cmds/a.json', '-i': 'f.grib', '-B': ''}),
    ('-c {c}/{c}.json -m {n}', {'c': pathlib.Path('/cmds'), 'n': 3}, {'-c': '/cmds//cmds.json', '-m': '3'}),
    ('-i "{g}" -B', {'g': '/a b/f.grib'}, {'-i': '/a b/f.grib', '-B': ''}), ('-c {a} -i {ab}', {'a': 'x', 'ab': 'y'}, {'-c': 'x', '-i': 'y'}), ('-c {a}', {'b': 'x'}, {'-c': '{a}'}),
    ('-c {a}', {'a': '{b}'}, {'-c': '{b}'}),
]


def calls(reduced=False):
    out = []
    for m in METHODS:
        for i in range(1 if reduced else len(VALUES[m])):
            out.append((m, i))
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(STARTS)):
        out += [{'start': i, 'first': list(c)} for c in calls()]
        out.append({'start': i, 'first': None})
    if not q:
        out += [{'start': i, 'first': list(c), 'depth': 4} for i in (0, 5, 13) for c in calls()]
    out += [{'run': i} for i in range(len(runs()))]
    out += [{'two': i} for i in range(len(calls()))]
    return out


def runs():
    """Templates and calls of the executions."""
    t = ['-c {c} -i {i} -o {o} -B', '-B -c {c} -i {i} -o {o}', 'pyg2p -i {i} -c {c} --outDir={o} -B -F pcraster', None, '-c {c} -i {i} -o {o} -B -X -l DEBUG -s 0']
    ops = [('tstart', 6), ('tend', '12'), ('fmap', 0), ('fmap', 7), ('ext', '2'), ('nameprefix', 'ab'), ('nameprefix', 'a b'), ('out_format', 'netcdf'), ('scaleFactor', .5), ('offset', '-5'), ('validMax', '300'), ('validMin', 101),
           ('valueFormat', 'f4'), ('outputStepUnits', 'm'), ('datatime', 1200), ('datadate', '20200101'), ('eps', 1), ('log_level', 'ERROR'), ('create_intertable', None), ('intertable_dir', 'ALT'), ('inputfile', 'SPACE'), ('outdir', 'SPACE'),
           ('cmdpath', 'SPACE')]
    seqs = [[]] + [[o] for o in ops] + [list(x) for x in itertools.permutations(ops, 2)]
    return [(k, s) for k in range(len(t)) for s in seqs if k in (0, 3) or len(s) < 2]


TEMPLATES = ['-c {c} -i {i} -o {o} -B', '-B -c {c} -i {i} -o {o}', 'pyg2p -i {i} -c {c} --outDir={o} -B -F pcraster', None, '-c {c} -i {i} -o {o} -B -X -l DEBUG -s 0']


def parse(text):
    """Options of a command text: independent of pyg2p."""
    toks = [t for t in next(csv.reader(io.StringIO(text), delimiter=' '), []) if t != '']
    if not toks or toks[0] != 'pyg2p':
        raise ValueError('it does not start with the name of the tool')
    out, i = {}, 1
    while i < len(toks):
        t = toks[i]
        o, sep, v = t.partition('=') if t.startswith('--') else (t, '', '')
        o = LONG.get(o, o)
        if o in FLAGS:
            out[o] = ''
        elif o in METHODS.values() or o in LONG.values():
            if not sep:
                i += 1
                if i >= len(toks):
                    raise ValueError('%s without value' % o)
                v = toks[i]
            out[o] = v
        else:
            raise ValueError('%r is not an option' % t)
        i += 1
    out.pop('-A', None)
    return out


def build(api, start):
    text, params, model = STARTS[start]
    c = api.command(text, **params) if text is not None else api.command()
    model = dict(model)
    model.setdefault('-l', 'ERROR')
    return c, model


def apply(c, model, m, v):
    r = getattr(c, 'with_' + m)() if v is None else getattr(c, 'with_' + m)(v)
    model[METHODS[m]] = '' if v is None else str(v)
    return r if r is not None else c


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.t = fx.Target.regular(ws.dir('tgt'), 't', 2, 2, 50., 0.)
    ws.grid = fx.Grid(2, 2, 50, 0)
    sp = ws.dir('with space')
    ws.alt = ws.dir('alt')
    msgs = [fx.grib_message(ws.grid, 100 + s + np.arange(4.), date=20200101, time=t, pert=m, end=s) for t in (1200,) for m in (1,) for s in (0, 6, 12, 18)]
    ws.inp = fx.write_grib(os.path.join(ws.dir('in'), 'a.grib'), msgs)
    ws.cmd = fx.command_json(ws.env.path('c.json'), ws.t)
    ws.space = {'inputfile': fx.write_grib(os.path.join(sp, 'b.grib'), msgs[1:]), 'cmdpath': fx.command_json(os.path.join(sp, 'c.json'), ws.t, outmaps={'@fmap': 50}), 'outdir': os.path.join(ws.env.root, 'out dir')}


def check(case, ws):
    from pyg2p.main import api
    if 'run' in case:
        return check_run(case, ws, api)
    if 'two' in case:
        return check_two(case, ws, api)
    bad, n = [], [0]

    def compare(c, model, seq):
        n[0] += 1
        try:
            got = parse(str(c))
        except Exception as e:
            got = 'not a command: %s: %r' % (e, str(c))
        if got != model and not bad:
            bad.append(('options', '%s %s: %s instead of %s (%r)' % (STARTS[case['start']][0], seq, got, model, str(c))))

    depth = case.get('depth', 3)
    alpha, small = calls(), calls(True)
    if case['first'] is None:
        compare(*build(api, case['start']), [])
        return bad, {'evaluations': n[0], 'distinct': n[0]}
    tail = [[]]
    for d in range(1, depth):
        tail += [list(s) for s in itertools.product(alpha if d == 1 else small, repeat=d)]
    for rest in tail:
        seq = [tuple(case['first'])] + [tuple(x) for x in rest]
        c, model = build(api, case['start'])
        for m, i in seq:
            c = apply(c, model, m, VALUES[m][i])
        compare(c, model, seq)
        if len(seq) < 3:
            # reading it changes nothing
            str(c)
            compare(c, model, seq)
    return bad, {'evaluations': n[0], 'distinct': n[0]}


def check_two(case, ws, api):
    """Two commands built at the same time do not share options."""
    bad, n = [], 0
    m, i = calls()[case['two']]
    for (m2, i2), s1, s2 in itertools.product(calls(), range(0, len(STARTS), 5), (0, 13)):
        a, ma = build(api, s1)
        b, mb = build(api, s2)
        f = getattr(a, 'with_' + m)
        b = apply(b, mb, m2, VALUES[m2][i2])
        v = VALUES[m][i]
        f() if v is None else f(v)
        ma[METHODS[m]] = '' if v is None else str(v)
        n += 1
        for c, model in ((a, ma), (b, mb)):
            try:
                got = parse(str(c))
            except Exception as e:
                got = str(e)
            if got != model and not bad:
                bad.append(('shared', '%s %s: %s instead of %s' % ((s1, m), (s2, m2), got, model)))
    return bad, {'evaluations': n, 'distinct': n}


def check_run(case, ws, api):
    from .. import scene, sut
    t, seq = runs()[case['run']]
    text = TEMPLATES[t]
    out = ws.env.fresh('o1')
    params = {'c': pathlib.Path(ws.cmd), 'i': ws.inp, 'o': out}
    res = []
    for how in ('cli', 'run', 'run_command'):
        ws.env.reset()
        for d in (ws.alt,):
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
        for d in ('o1', 'out dir'):
            ws.env.fresh(d)
        c = api.command(text, **params) if text else api.command()
        model = parse(str(c))
        model.update({'-c': ws.cmd, '-i': ws.inp, '-o': out, '-B': ''})
        if not text:
            c.with_cmdpath(ws.cmd).with_inputfile(ws.inp).with_outdir(out).with_create_intertable()
        elif t == 4:
            model.update({'-X': '', '-l': 'DEBUG', '-s': '0'})
        for m, v in seq:
            v = ws.space[m] if v == 'SPACE' else ws.alt if v == 'ALT' else v
            c = apply(c, model, m, v)
        if how == 'cli':
            argv = [x for o, v in model.items() for x in ([o] if o in FLAGS else [o, v])]
            k, v = sut.cli(argv)
        else:
            try:
                k, v = 'ret', c.run() if how == 'run' else api.run_command(c)
            except SystemExit as e:
                k, v = 'exit', e.code
            except Exception as e:
                k, v = 'exc', e
        maps = {}
        for d in ('o1', 'out dir'):
            p = os.path.join(ws.env.root, d)
            for f in sorted(os.listdir(p)):
                a = scene.read_nc(os.path.join(p, f)) if f.endswith('.nc') else {'values': fx.read_pcr(os.path.join(p, f))[0]}
                maps[d, f] = {x: (y.tolist() if isinstance(y, np.ndarray) else str(y)) for x, y in a.items()}
        tables = sorted(len(os.listdir(x)) for x in (ws.alt, ws.env.tables))
        res.append((k, repr(v), repr(maps), tables, len(maps)))
    bad = []
    for how, r in zip(('run', 'run_command'), res[1:]):
        if r != res[0]:
            bad.append((how, '%s %s: %s instead of %s' % (text, seq, [str(x)[:150] for x in r], [str(x)[:150] for x in res[0]])))
    if res[0][:2] != ('ret', '0') or not res[0][4]:
        bad.append(('refused', '%s %s: %s' % (text, seq, res[0])))
    return bad, {'evaluations': 3, 'distinct': res[0][4] > 0}
