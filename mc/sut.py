"""Calls into pyg2p through its public entry points."""
import os
import traceback


def cli(args):
    """Run the command line entry point in-process. Returns ('ret', code) or ('exc', exception)."""
    from pyg2p.main import pyg2p_exe
    try:
        return 'ret', pyg2p_exe([str(a) for a in args])
    except SystemExit as e:
        return 'exit', e.code
    except Exception as e:
        e.tb = traceback.format_exc()
        return 'exc', e


_INITIAL = {}


def _owners():
    """pyg2p modules and the classes they define."""
    import sys
    for name, m in list(sys.modules.items()):
        if m is None or not (name == 'pyg2p' or name.startswith('pyg2p.')):
            continue
        yield m
        for c in list(vars(m).values()):
            if isinstance(c, type) and getattr(c, '__module__', '') == name:
                yield c


def _is_state(k, v):
    import types
    if k.startswith('__') and k.endswith('__'):
        return False
    return not isinstance(v, (types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType, staticmethod, classmethod, property))


_KNOWN = set()


def _load_all():
    """Import every module of pyg2p, so that what is there before the first execution is what the imports define."""
    import importlib
    import pkgutil
    import pyg2p
    for m in pkgutil.walk_packages(pyg2p.__path__, 'pyg2p.'):
        if m.name.split('.')[-1] in ('__main__', 'setup'):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:   # a module that cannot be imported holds no state
            pass


def forget():
    """Forget what in-process executions cached, as a new process would start: every module and class attribute of pyg2p gets back
    the value it had after the import, and cached functions are cleared (so no cache has to be known by name)."""
    import copy
    first = not _INITIAL
    if first:
        _load_all()
    for o in list(_owners()):
        new = id(o) not in _KNOWN
        _KNOWN.add(id(o))
        for k, v in list(vars(o).items()):
            if hasattr(v, 'cache_clear'):
                v.cache_clear()
            f = getattr(v, '__func__', None) or getattr(v, 'fget', None)
            if hasattr(f, 'cache_clear'):
                f.cache_clear()
            if not _is_state(k, v):
                continue
            key = (id(o), k)
            if key not in _INITIAL:
                if not new:     # set by an execution
                    delattr(o, k)
                    continue
                _INITIAL[key] = (o, v, copy.copy(v) if isinstance(v, (dict, list, set)) else None)
    for (_, k), (o, v, content) in list(_INITIAL.items()):
        if isinstance(v, dict):
            if len(v) != len(content) or any(x not in v or v[x] is not y for x, y in content.items()):
                v.clear()
                v.update(content)
        elif isinstance(v, list):
            v[:] = content
        elif isinstance(v, set):
            v.clear()
            v.update(content)
        if vars(o).get(k) is not v:
            setattr(o, k, v)


def set_home(home):
    """Point pyg2p at another user folder (computed at import from HOME)."""
    os.environ['HOME'] = home
    forget()
    from pyg2p.main.config import UserConfiguration
    UserConfiguration.config_dir = home + '/.pyg2p/'
    _INITIAL[(id(UserConfiguration), 'config_dir')] = (UserConfiguration, UserConfiguration.config_dir, None)


def in_child(fn, *a, timeout=120):
    """Run fn(*a) in a forked child; return ('ok', value) | ('exc', text) | ('signal', n) | ('hang',)."""
    import pickle
    import select
    import signal
    import time
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn(*a))
            except BaseException as e:
                out = ('exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1200:])
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    t0 = time.time()
    while True:
        left = timeout - (time.time() - t0)
        rd, _, _ = select.select([r], [], [], max(0.0, left))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ('hang',)
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if buf:
        return pickle.loads(buf)
    return ('signal', st)
