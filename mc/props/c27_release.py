"""C27: executions release what they open."""
import os

from .. import fixtures as fx  # noqa

PROPERTY, LEVEL = 'C27', 'fault_enumeration'
TECHNIQUE = ('exhaustive enumeration of kinds of execution (methods, formats, aggregation, correction, two inputs, entry points, failing ones, defects) and, for each, of the failure of every single call of the GRIB library '
             'and of every file system change, on the real code; open files, GRIB messages and indexes of the process are compared before and after')
NOTE = 'Complete over the catalogue; one failure per execution. Files are the descriptors of the process, GRIB objects are counted at the interface of the library.'
RULE = ('each execution of the catalogue, fresh and with what it left, and kept results; each defect of C19 in each set-up; for each execution: failure at call k of the GRIB library for every k, '
        'failure (EIO, ENOSPC) at file system change k for every k. Non-trivial: something was opened')
ASSUMPTIONS = ['the failing call of the GRIB library is not the one that releases', 'sockets are not files', 'after an error of the disk the netCDF library may be unable to close its output', 'memory of numpy and of the netCDF and PCRaster libraries is not counted']
CHUNK = 1
PRELOAD = True
CASE_TIMEOUT = 800


def names():
    return ['nearest', 'nearest-gridB', 'nearest-targetU', 'nearest-hole', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw', 'grib_nearest', 'grib_invdist', 'invdist-hole', 'grib_nearest-gridB',
            'pcraster', 'conversion', 'cut', 'accumulation', 'accumulation-zero', 'average', 'average-half', 'instantaneous', 'correction', 'correction-formula', 'correction-gem', 'correction-dem', 'correction-mode',
            'correction-target', 'correction-own', 'correction-gridB', 'member', 'member1', 'selection', 'two-files', 'options', 'encoding', 'alternate', 'no-create', 'debug', 'fail-input', 'fail-none', 'fail-conversion',
            'fail-formula', 'fail-average', 'fail-parameter', 'fail-mode', 'fail-args', 'check-conf', 'add-geo', 'api-nearest', 'api-hole', 'api-accumulation', 'api-correction', 'api-grib', 'api-fail', 'builder']


MORE = ['correction-grib', 'correction-two', 'grib-two', 'accumulation-two', 'own-two', 'add-text', 'add-none', 'add-twice', 'api-kept', 'api-two', 'api-abandoned', 'member-none', 'second-none', 'level',
        'nc', 'nc-mixed', 'nc-dem', 'nc-dem-wrong', 'nc-dem-none', 'cdd', 'cdd-wrong', 'cdd-none', 'nc-bad-target', 'nc-bad-clone', 'api-nc', 'api-nc-dem', 'api-cdd']
FAULTS_QUICK = ['nearest', 'grib_nearest', 'grib_invdist', 'pcraster', 'accumulation', 'average-half', 'correction', 'correction-own', 'correction-grib', 'correction-two', 'member', 'two-files', 'grib-two', 'add-geo',
                'add-twice', 'api-nearest', 'api-correction', 'check-conf', 'fail-none', 'fail-formula', 'nc', 'nc-dem', 'cdd', 'api-nc']


def cases(tier):
    from . import c19_failures as c19
    ops = names() + MORE
    out = [{'op': o} for o in ops]
    out += [{'setup': s, 'defects': [d for d in c19.DEFECTS if s in c19.DEFECTS[d][0]][i::8]} for s in c19.SETUPS for i in range(8)]
    for o in (FAULTS_QUICK if tier == 'quick' else ops):
        out += [{'op': o, 'fault': 'grib', 'part': [i, 6]} for i in range(6)]
        out += [{'op': o, 'fault': 'files', 'part': [i, 2]} for i in range(2)]
    return out


PCRASTER = ['pcraster', 'nearest-hole', 'accumulation-zero', 'correction-target', 'selection', 'options', 'nc-mixed']


class Library:
    """Stands between the Python layer of eccodes and the library: counts what is alive; fails a call."""
    NEW = {'codes_handle_new_from_file', 'codes_handle_new_from_samples', 'grib_handle_clone', 'grib_handle_clone_headers_only', 'grib_handle_new_from_index', 'grib_handle_new_from_message_copy',
           'grib_handle_new_from_samples', 'grib_index_new_from_file', 'grib_index_read', 'codes_bufr_handle_new_from_samples'}
    DELETE = {'grib_handle_delete', 'grib_index_delete'}

    def __init__(self, real, ffi):
        self.__dict__.update(real=real, ffi=ffi, alive={}, calls=0, at=0, made=0, hit=None)

    def __getattr__(self, name):
        f = getattr(self.real, name)
        if not callable(f):
            return f

        def call(*a):
            if name not in self.DELETE:
                self.calls += 1
                if self.calls == self.at:
                    from gribapi import errors
                    self.__dict__['hit'] = name
                    raise errors.DecodingError(-13)
            r = f(*a)
            if name in self.NEW and r != self.ffi.NULL:
                self.made += 1
                self.alive[int(self.ffi.cast('uintptr_t', r))] = name
            if name in self.DELETE and a[0] != self.ffi.NULL:
                self.alive.pop(int(self.ffi.cast('uintptr_t', a[0])), None)
            return r
        return call


def library():
    import eccodes  # noqa
    from gribapi import gribapi
    if not isinstance(gribapi.lib, Library):
        gribapi.lib = Library(gribapi.lib, gribapi.ffi)
    return gribapi.lib


def opened():
    """files of the user and of the package (not what libraries keep for themselves)"""
    out = []
    roots = tuple(os.path.realpath(d) + '/' for d in (os.getcwd(), os.environ.get('MC_REPO', '/repo')))
    for f in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if p.startswith(roots):
            out.append((int(f), p))
    return set(out)


def setup(ws):
    from . import c19_failures as c19
    from .. import execs, scene, sut
    c19.setup(ws)
    ws.cat = cat = execs.Catalogue(ws)
    import netCDF4
    import numpy as np
    agg = lambda t, **k: dict({'@step': 6, '@type': t, '@halfweights': False}, **k)  # noqa
    cat.cli('correction-grib', 'a.grib', correction=cat.cor, mode='grib_nearest')
    cat.cli('correction-two', 'own.grib', correction=cat.cor, args=['-I', lambda: cat.i('second.grib')])
    cat.cli('grib-two', 'a.grib', mode='grib_invdist', args=['-I', lambda: cat.i('second.grib')])
    cat.cli('accumulation-two', 'a.grib', aggregation=agg('average'), args=['-I', lambda: cat.i('second.grib')])
    cat.cli('own-two', 'own.grib', correction=cat.cor, args=['-I', lambda: cat.i('own.grib')])
    cat.cli('member-none', 'eps.grib', args=['-m', '9'])
    cat.cli('second-none', 'a.grib', args=['-I', lambda: cat.i('tp.grib')])
    cat.cli('level', 'a.grib', level=850)
    lats, lons = 49.3 - np.arange(4.), .4 + np.arange(5.)
    d = ws.dir('ncmaps')

    class Nc:
        lat_map = lon_map = fx.write_nc_template(os.path.join(d, 'target.nc'), lats, lons, fill=-9999.)
        clone = fx.write_nc_template(os.path.join(d, 'clone.nc'), lats, lons, fill=-9999., data=np.ma.array(np.ones((4, 5)), mask=np.arange(20).reshape(4, 5) == 7))

    class Mixed:
        lat_map, lon_map, clone = Nc.lat_map, Nc.lon_map, cat.T.clone
    dem = fx.write_nc_template(os.path.join(d, 'dem.nc'), lats, lons, data=np.full((4, 5), 100.))
    cdd = fx.write_nc_template(os.path.join(d, 'cdd.nc'), lats, lons, data=np.full((4, 5), 600.))
    wrong = fx.write_nc_template(os.path.join(d, 'wrong.nc'), lats[:3], lons, data=np.full((3, 5), 600.))
    novar = fx.write_nc_template(os.path.join(d, 'novar.nc'), lats, lons)
    with netCDF4.Dataset(novar, 'w') as ds:
        ds.createDimension('x', 2)
    cdds = lambda f: {'@cdd_map': f, '@cdd_mode': 'MixHofstraShepard', '@cdd_options': {'m_const': 4, 'min_num_of_station': 4, 'radius_ratio': 1 / 3, 'weights_mode': 'All'}}  # noqa
    cat.cli('nc', 'a.grib', Nc)
    cat.cli('nc-mixed', 'a.grib', Mixed, fmt='pcraster')
    cat.cli('nc-dem', 'a.grib', Nc, correction=dict(cat.cor, dem=dem))
    cat.cli('nc-dem-wrong', 'a.grib', correction=dict(cat.cor, dem=wrong))
    cat.cli('nc-dem-none', 'a.grib', correction=dict(cat.cor, dem=novar))
    cat.cli('cdd', 'a.grib', mode='cdd', interp=cdds(cdd))
    cat.cli('cdd-wrong', 'a.grib', mode='cdd', interp=cdds(wrong))
    cat.cli('cdd-none', 'a.grib', mode='cdd', interp=cdds(novar))
    for k, t in (('target', novar), ('clone', novar)):
        class Bad(Nc):
            lat_map = lon_map = novar if k == 'target' else Nc.lat_map
            clone = novar if k == 'clone' else Nc.clone
        cat.cli('nc-bad-' + k, 'a.grib', Bad)
    cat.api('api-nc', 'a.grib', Mixed)
    cat.api('api-nc-dem', 'a.grib', Mixed, correction=dict(cat.cor, dem=dem))
    cat.api('api-cdd', 'a.grib', mode='cdd', interp={k.lstrip('@'): v for k, v in cdds(cdd).items()})
    cat.raw('add-text', ['-g', lambda: cat.i('dem1.map')])
    cat.raw('add-none', ['-g', lambda: cat.i('a.grib')])
    cat.raw('add-twice', ['-g', lambda: cat.i('geoA.grib')])

    def api(times, correction=None, two=False):
        def fn(create=True):
            from pyg2p.main.api import Pyg2pApi, ApiContext
            d = scene.api_dict(cat.i('own.grib' if correction else 'a.grib'), cat.T, create=create, correction=correction)
            if two:
                d['inputFile2'] = cat.i('second.grib')
            a = Pyg2pApi(ApiContext(d))
            kept.append(a)
            for _ in range(times):
                kept.append(a.execute())
            return {'end': ('ret', 0), 'maps': {}}
        return fn
    cat.add('api-kept', api(1, cat.cor))
    cat.add('api-two', api(1, None, True))
    cat.add('api-abandoned', api(0))

    # what a caller could keep: objects and exceptions
    real = sut.cli

    def cli(args):
        r = real(args)
        kept.append(r)
        return r
    ws.sut_cli = real, cli
    missing = [o for o in names() + MORE if o not in cat.ops]
    assert not missing, missing


kept = []


def measured(ws, fn):
    """(what remains open, number of things opened); objects that a caller can hold are held"""
    from .. import sut
    lib = library()
    before, alive = opened(), set(lib.alive)
    made, lib.calls = lib.made, 0
    del kept[:]
    real, cli = ws.sut_cli
    sut.cli = cli
    try:
        try:
            fn()
        except Exception as e:      # an error of the API
            kept.append(e)
    finally:
        sut.cli = real
    for e in kept:
        clear_libraries(e[1] if isinstance(e, tuple) and len(e) == 2 else e)
    left = sorted(os.path.basename(p) for f, p in opened() - before)
    grib = sorted(n for k, n in lib.alive.items() if k not in alive)
    return left, grib, lib.made - made


def clear_libraries(e):
    """a kept exception keeps what functions of pyg2p had, not what those of libraries had (they are not its own)"""
    root = os.path.realpath(os.environ.get('MC_REPO', '/repo')) + '/'
    while isinstance(e, BaseException):
        tb = e.__traceback__
        while tb is not None:
            if not os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
                try:
                    tb.tb_frame.clear()
                except RuntimeError:    # still running
                    pass
            tb = tb.tb_next
        e = e.__context__


def judge(what, left, grib, bad):
    if left:
        bad.append(('file', '%s: still open: %s' % (what, left)))
    if grib:
        bad.append(('grib', '%s: not released: %s' % (what, grib)))


def check(case, ws):
    from .. import shim, sut
    bad, n, distinct = [], 0, 0
    cat = ws.cat
    if 'setup' in case:
        from . import c19_failures as c19
        for d in case['defects']:
            s = c19.Scenario(ws, case['setup'])
            c19.DEFECTS[d][3](s)
            s.write()
            left, grib, made = measured(ws, lambda: sut.cli(s.argv()))
            judge('%s, %s' % (case['setup'], d), left, grib, bad)
            n += 1
            distinct += bool(made)
        return bad[:4], {'evaluations': n, 'distinct': distinct}
    op = case['op']
    if 'fault' not in case:
        cat.reset()
        for what in ('fresh', 'again', 'without -B'):
            left, grib, made = measured(ws, (lambda: cat.run(op)) if what != 'without -B' or op.startswith(('fail-args', 'check', 'add', 'api-kept', 'api-two', 'api-abandoned', 'builder')) else (lambda: cat.run(op, create=False)))
            judge('%s, %s' % (op, what), left, grib, bad)
            n += 1
            distinct += bool(made)
        return bad, {'evaluations': n, 'distinct': distinct}
    part, parts = case['part']
    lib = library()
    if case['fault'] == 'grib':
        k = 1 + part
        while True:
            cat.reset()
            lib.__dict__.update(hit=None)

            def run():
                lib.calls, lib.at = 0, k
                try:
                    cat.run(op)
                finally:
                    lib.at = 0
            left, grib, made = measured(ws, run)
            if lib.hit is None:
                break
            judge('%s, %s failed (call %d)' % (op, lib.hit, k), left, grib, bad)
            n += 1
            if len(bad) > 3:
                break
            k += parts
        return bad, {'evaluations': n, 'distinct': n}
    import errno
    for err in (errno.EIO, errno.ENOSPC):
        k = 1 + part
        while True:
            cat.reset()
            # (after an error of the disk the netCDF library cannot close its file)
            dirs = cat.dirs + ([os.path.join(cat.env.root, 'out')] if op in PCRASTER else [])

            def faulty():
                def run():
                    shim.arm(shim.FAIL, k, err, dirs)
                    try:
                        cat.run(op)
                    finally:
                        shim.disarm()
                left, grib, made = measured(ws, run)
                return left, grib, shim.lib().mc_hits(), (shim.log() or [['?', '']])[-1][:2]
            r = sut.in_child(faulty)
            if r[0] != 'ok':
                bad.append(('process', '%s, error %d at change %d: %s' % (op, err, k, r)))
                break
            left, grib, hits, at = r[1]
            if not hits:
                break
            judge('%s, error %d at change %d %s' % (op, err, k, at), left, grib, bad)
            n += 1
            if len(bad) > 3:
                break
            k += parts
    return bad, {'evaluations': n, 'distinct': n}
