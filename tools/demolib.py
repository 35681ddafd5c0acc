"""Scratch environment for a demonstration: HOME, tables and inputs in a temporary folder that is removed at the end."""
import atexit
import os
import shutil
import sys
import tempfile

ROOT = tempfile.mkdtemp(prefix='demo_')
_PID = os.getpid()
atexit.register(lambda: os.getpid() == _PID and shutil.rmtree(ROOT, True))
os.environ.update(HOME=ROOT + '/home', NUMBA_CACHE_DIR=ROOT + '/numba', GDAL_PAM_ENABLED='NO')
os.makedirs(ROOT + '/home')
os.chdir(ROOT)
import numpy as np  # noqa
import fx  # noqa
from netCDF4 import Dataset  # noqa

TABLES, GEO = ROOT + '/tables', ROOT + '/geo'
fx.make_home(ROOT + '/home', TABLES, GEO)
CONF = ROOT + '/home/.pyg2p'


def grib(messages, name='in.grib'):
    p = os.path.join(ROOT, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return fx.write_grib(p, messages)


def run(f, target, fmt='pcraster', create=True, args=(), out='out', fresh=False, **cmd):
    """The command line tool, in a process of its own when fresh. (exit code, {file name: array with NaN for missing})"""
    import subprocess
    o = os.path.join(ROOT, out)
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    c = fx.command_json(ROOT + '/cmd.json', target, **cmd)
    a = ['-c', c, '-i', f, '-o', o, '-F', fmt, '-l', 'ERROR'] + (['-B'] if create else []) + [str(x) for x in args]
    if fresh:
        code = subprocess.call([sys.executable, '-W', 'ignore', '-c', 'import sys; from pyg2p.main import pyg2p_exe; sys.exit(pyg2p_exe(sys.argv[1:]))'] + a)
    else:
        from pyg2p.main import pyg2p_exe
        code = pyg2p_exe(a)
    return code, maps(o)


def maps(o):
    out = {}
    for n in sorted(os.listdir(o)):
        if n.endswith('.nc'):
            d = Dataset(os.path.join(o, n))
            v = [x for x in d.variables if x not in ('lat', 'lon', 'time')][0]
            x = d[v][:]
            out[n] = np.where(np.ma.getmaskarray(x), np.nan, np.ma.getdata(x).astype(float))
            out['time'] = np.ma.getdata(d['time'][:])
            out['units'] = d['time'].units
            d.close()
        else:
            out[n] = fx.read_pcr(os.path.join(o, n))[0]
    return out


def expect(ok, *what):
    if not ok:
        print('PROPERTY BROKEN:', *what)
        sys.stdout.flush()
        sys.exit(1)


GRID = fx.Grid(6, 5, 50, 0)
TARGET = fx.Target.regular(ROOT + '/target', 't', 4, 5, 49, 0)
