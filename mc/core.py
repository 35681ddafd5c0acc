"""Explorer core: scratch area, bounded exhaustive exploration over worker processes, evidence, replay.

A check module defines
    PROPERTY, TITLE, LEVEL, RULE
    cases(tier)            -> iterable of JSON-able case descriptions: the complete bounded space
    check(case, ws)        -> list of (signature, message): what is violated (empty = holds)
and optionally
    setup(ws)              -> called once per worker process, in its workspace
    nontrivial(case)       -> bool
    ASSUMPTIONS
"""
import atexit
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')


def make_scratch():
    base = tempfile.mkdtemp(prefix='mc_')
    return base


def init_env(scratch):
    """Must run before pyg2p is imported."""
    os.environ.pop('LD_PRELOAD', None)
    home = os.path.join(scratch, 'home')
    os.makedirs(home, exist_ok=True)
    os.environ['HOME'] = home
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['NUMEXPR_NUM_THREADS'] = '1'
    os.environ['NUMEXPR_MAX_THREADS'] = '1'
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['NUMBA_NUM_THREADS'] = '1'
    os.environ['NUMBA_THREADING_LAYER'] = 'workqueue'
    os.environ['GDAL_PAM_ENABLED'] = 'NO'
    os.environ['PYTHONWARNINGS'] = 'ignore'
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    import warnings
    warnings.simplefilter('ignore')


class Workspace:
    """Scratch directory of one worker."""

    def __init__(self, root, tier):
        self.root = root
        self.tier = tier
        self.home = os.environ['HOME']
        self.data = {}

    def path(self, *a):
        p = os.path.join(self.root, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def dir(self, *a):
        p = os.path.join(self.root, *a)
        os.makedirs(p, exist_ok=True)
        return p

    def fresh(self, name='case'):
        """An empty directory under the scratch root."""
        p = os.path.join(self.root, name)
        if os.path.isdir(p):
            assert os.path.realpath(p).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep)
            shutil.rmtree(p)
        os.makedirs(p)
        return p


class Quiet:
    """Silence stdout/stderr at descriptor level (pyg2p and eccodes are chatty)."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.o, self.e = os.dup(1), os.dup(2)
        self.n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.n, 1)
        os.dup2(self.n, 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.o, 1)
        os.dup2(self.e, 2)
        for f in (self.o, self.e, self.n):
            os.close(f)


def quiet_logging():
    import logging
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    logging.disable(logging.CRITICAL)


def _worker(modname, tier, scratch, wid, inq, outq):
    # own HOME per worker: pyg2p computes its configuration folder from it at import
    ws_root = os.path.join(scratch, 'w%d' % wid)
    os.makedirs(ws_root, exist_ok=True)
    init_env(ws_root)
    mod = importlib.import_module(modname)
    ws = Workspace(ws_root, tier)
    try:
        with Quiet():
            if getattr(mod, 'CHDIR', True):
                os.chdir(ws_root)
            if hasattr(mod, 'setup'):
                mod.setup(ws)
            quiet_logging()
            # pyg2p collects garbage often: keep the long-lived modules out of it
            import gc
            import pyg2p.main.api  # noqa
            gc.collect()
            gc.freeze()
    except BaseException as e:
        if in_subject(e):
            outq.put(('setup', wid, [('exception:%s' % type(e).__name__, traceback.format_exc()[-1500:])]))
        else:
            outq.put(('error', None, traceback.format_exc()))
        outq.put(('end', wid, None))
        return
    while True:
        item = inq.get()
        if item is None:
            break
        for idx, case in item:
            outq.put(('start', idx, wid))
            try:
                with Quiet():
                    res = mod.check(case, ws)
                extra = None
                if isinstance(res, tuple):
                    res, extra = res
                outq.put(('done', idx, [(str(s), str(m)) for s, m in (res or [])], extra))
            except BaseException as e:
                if in_subject(e):
                    # the code under test raised where the harness expects it to work
                    outq.put(('done', idx, [('exception:%s' % type(e).__name__, traceback.format_exc()[-1500:])], None))
                else:
                    outq.put(('error', idx, traceback.format_exc()))
    outq.put(('end', wid, None))


def in_subject(e):
    """Was the exception raised in (or below) the code under test?"""
    src = os.path.realpath(os.path.join(REPO, 'src')) + os.sep
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


class Known:
    def __init__(self, prop):
        self.items = []
        path = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(path):
            for k in json.load(open(path))['findings']:
                if k['property'] == prop and k.get('status') == 'open':
                    self.items.append(k)
        self.hit = {}

    def match(self, case, sig, msg):
        for k in self.items:
            if fnmatch.fnmatchcase(sig, k['signature']):
                want = k.get('case')
                if want is None or all(case.get(a) == b for a, b in want.items()):
                    self.hit.setdefault(k['id'], 0)
                    self.hit[k['id']] += 1
                    return True
        return False


def explore(modname, tier, seed, nworkers=None, only=None):
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    scratch = make_scratch()
    atexit.register(shutil.rmtree, scratch, True)
    ctx = mp.get_context('spawn')
    nworkers = nworkers or int(os.environ.get('MC_WORKERS', 0)) or getattr(mod, 'WORKERS', None) or min(8, os.cpu_count() or 4)
    inq, outq = ctx.Queue(), ctx.Queue()
    cases = list(mod.cases(tier)) if only is None else only
    nworkers = max(1, min(nworkers, len(cases)))
    procs = [ctx.Process(target=_worker, args=(modname, tier, scratch, w, inq, outq), daemon=False) for w in range(nworkers)]
    if getattr(mod, 'PRELOAD', False):
        from . import shim
        os.environ['LD_PRELOAD'] = shim.build(scratch)
    for p in procs:
        p.start()
    os.environ.pop('LD_PRELOAD', None)
    chunk = max(1, min(getattr(mod, 'CHUNK', 50), len(cases) // (nworkers * 4) + 1))
    buf = []
    for i, c in enumerate(cases):
        buf.append((i, c))
        if len(buf) >= chunk:
            inq.put(buf)
            buf = []
    if buf:
        inq.put(buf)
    for _ in procs:
        inq.put(None)
    known = Known(prop)
    violations, errors, done, ended = [], [], 0, 0
    extras = {}
    current, gone = {}, set()
    hang = getattr(mod, 'CASE_TIMEOUT', 150)
    while ended < nworkers:
        try:
            kind, idx, payload, *rest = outq.get(timeout=5)
        except Exception:
            for w, p in enumerate(procs):
                if w in gone:
                    continue
                idx, since = current.get(w, (None, None))
                died = p.exitcode not in (None, 0)
                hung = idx is not None and time.time() - since > hang
                if not (died or hung) or not outq.empty():
                    continue
                if hung:
                    p.kill()
                gone.add(w)
                ended += 1
                if idx is None:
                    errors.append((None, 'worker died with code %s' % p.exitcode))
                else:
                    violations.append((cases[idx], 'hang' if hung else 'process-death',
                                       'the execution did not terminate' if hung else 'exit code %s' % p.exitcode))
            continue
        if kind == 'start':
            current[payload] = (idx, time.time())
            continue
        if kind == 'done':
            done += 1
            extra = rest[0] if rest else None
            for k, v in (extra or {}).items():
                if isinstance(v, (int, float)):
                    extras[k] = extras.get(k, 0) + v
                else:
                    extras.setdefault(k, set()).update(v)
            for sig, msg in payload:
                if not known.match(cases[idx], sig, msg):
                    violations.append((cases[idx], sig, msg))
        elif kind == 'setup':
            violations += [({'setup': True}, sig, msg) for sig, msg in payload]
        elif kind == 'error':
            errors.append((idx, payload))
        else:
            ended += 1
    for w, p in enumerate(procs):
        if w in gone:
            continue
        p.join(10)
        if p.is_alive():
            p.terminate()
    finish(mod, tier, seed, cases, done, violations, errors, extras, known, time.time() - t0, only is not None)


def _sig(c):
    return hashlib.sha1(json.dumps(c, sort_keys=True, default=str).encode()).hexdigest()


def finish(mod, tier, seed, cases, done, violations, errors, extras, known, wall, replaying=False):
    prop = mod.PROPERTY
    nontriv = getattr(mod, 'nontrivial', lambda c: True)
    distinct = len({_sig(c) for c in cases if nontriv(c)})
    step = max(1, len(cases) // 5)
    cov = {'evaluations': int(extras.pop('evaluations', done)), 'distinct_nontrivial': int(extras.pop('distinct', distinct)),
           'rule': mod.RULE, 'samples': cases[::step][:6], 'exhaustive': not errors and done == len(cases)}
    assert cov['distinct_nontrivial'] <= cov['evaluations'], cov
    if mod.LEVEL == 'model_checking':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            v = extras.pop(k, 0)
            cov[k] = len(v) if isinstance(v, set) else int(v)
    for k, v in extras.items():
        cov[k] = sorted(v) if isinstance(v, set) and len(v) <= 40 else (len(v) if isinstance(v, set) else v)
    if known.hit:
        cov['known_findings_seen'] = known.hit
    if not replaying:
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
              'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(violations)}
        with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for k in known.items:
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (prop, k['what'], known.hit.get(k['id'], 0)))
    print('%s: %d/%d cases, %d violations, %d errors, %.1fs' % (prop, done, len(cases), len(violations), len(errors), wall))
    if violations:
        rd = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for case, sig, msg in violations:
            if sig in seen:
                continue
            seen.add(sig)
            if len(seen) > 10:
                break
            path = os.path.join(rd, '%s_%s.json' % (prop, hashlib.sha1((sig + _sig(case)).encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': case, 'signature': sig, 'message': msg}, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   %s: %s' % (sig, msg[:600]))
        sys.stdout.flush()
        sys.exit(1)
    if errors:
        for idx, tb in errors[:3]:
            print('CHECK-ERROR %s case=%s\n%s' % (prop, cases[idx] if isinstance(idx, int) and idx < len(cases) else idx, tb))
        sys.exit(2)
    sys.exit(0)
