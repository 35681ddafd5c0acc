"""C16: downloads are complete or absent, and resumable."""
import errno
import gc
import itertools
import os

from .. import fixtures as fx
from .. import ftpd, shim

PRELOAD = True
PROPERTY, LEVEL = 'C16', 'fault_enumeration'
TECHNIQUE = ('the real command against an FTP server on the loopback interface under exhaustive fault injection: connection lost or command refused at every FTP command, at every block and at the end of every '
             'transfer; process killed before every changing file system call or in the middle of a write, failing calls, full disk; then the command is repeated (with a second fault in all pairs) until nothing is left to do')
NOTE = 'Complete over the protocol events and the file system calls of each listing, one fault and all ordered pairs of faults. Transfers the server cuts while saying that they are complete cannot be seen by a client and are not modelled.'
RULE = 'remote listing x files already there x fault kind x event (x second fault kind x event). Non-trivial: the fault was reached'
ASSUMPTIONS = ['the server tells when a transfer is incomplete', 'files in the local folder under their final name were complete before', 'no remote file has the name of another one with a suffix for temporary files']
CHUNK = 1
CASE_TIMEOUT = 800


def content(n, seed):
    return bytes((i * 31 + seed * 7 + i // 251) % 256 for i in range(n))


# listing: remote files (None: not a file); files already there
LISTINGS = {
    'three': ({'a.grib': 2500, 'b.grib': 1000, 'c.grib': 1}, []),
    'some-there': ({'a.grib': 1200, 'b.grib': 999, 'c.grib': 2001}, ['b.grib']),
    'first-there': ({'a.grib': 1200, 'b.grib': 999, 'c.grib': 2001}, ['a.grib']),
    'all-there': ({'a.grib': 1200, 'b.grib': 999}, ['a.grib', 'b.grib']),
    'special': ({'.': None, '..': None, 'readme.txt': 300, 'a.grib': 1500, 'x y.grib': 10, 'A.GRIB': 20}, []),
    'with-empty': ({'a': 0, 'b': 5, 'c': 0}, []),
    'one': ({'only.npy.gz': 4100}, []),
    'none': ({}, []),
    'binary': ({'crlf.grib': 'crlf', 'b': 700}, []),
}
SKIPPED = ('.', '..', 'readme.txt')
OTHERS = {*SKIPPED, 'wrong.grib', 'wrong2.grib'}    # never to be there
PROTOCOL = ('drop', 'refuse')
LOCAL = {'crash': (shim.CRASH, 0), 'torn': (shim.TORN, 0), 'full': (shim.FULL, 0), 'EACCES': (shim.FAIL, errno.EACCES), 'EIO': (shim.FAIL, errno.EIO)}


def cases(tier):
    out = []
    for ds in ('geopotentials', 'intertables'):
        for l in LISTINGS:
            out.append({'dataset': ds, 'listing': l, 'fault': None})
            for k in PROTOCOL + tuple(LOCAL):
                if tier == 'quick' and ds == 'intertables' and l not in ('three', 'some-there'):
                    continue
                out.append({'dataset': ds, 'listing': l, 'fault': k})
    for l in LISTINGS:
        for k, k2 in itertools.product(PROTOCOL + tuple(LOCAL), repeat=2):
            if tier == 'quick' and (l != 'some-there' or (k in LOCAL and k2 in LOCAL and k != k2)):
                continue
            out.append({'dataset': 'geopotentials', 'listing': l, 'fault': k, 'second': k2})
    return out


def setup(ws):
    from .. import scene
    ws.env = scene.Env(ws)
    ws.servers = {}


class Scene:
    def __init__(self, ws, case):
        self.ws, self.ds = ws, case['dataset']
        remote, there = LISTINGS[case['listing']]
        self.remote = {n: None if s is None else b'\r\n\r\r\n\n\x00\xff' * 150 if s == 'crlf' else content(s, i) for i, (n, s) in enumerate(remote.items())}
        self.want = {n: c for n, c in self.remote.items() if n not in SKIPPED}
        self.there = there
        self.folder = ws.env.geo if self.ds == 'geopotentials' else ws.env.tables
        key = case['listing'], self.ds
        if key not in ws.servers:
            other = 'intertables' if self.ds == 'geopotentials' else 'geopotentials'
            ws.servers[key] = ftpd.Server({'/data/sub/' + self.ds: self.remote, '/data/sub/' + other: {'wrong.grib': b'x'}, '/' + self.ds: {'wrong2.grib': b'x'}})
        self.server = ws.servers[key]

    def reset(self):
        e = self.ws.env
        e.reset()
        fx.write_json(os.path.join(e.conf, 'ftp.json'), {'host': '127.0.0.1', 'user': 'someone', 'pwd': 'secret', 'folder': '/data/sub'})
        for n in self.there:
            open(os.path.join(self.folder, n), 'wb').write(self.want[n])

    def run(self, fault=None, at=0):
        """('ok', (kind, value)) or how the process ended; whether the fault was reached"""
        from .. import sut
        self.server.reset((fault, at) if fault in PROTOCOL else None)

        def download():
            import ftplib
            ftplib.FTP.port = self.server.port
            sut.forget()
            if fault in LOCAL:
                k, e = LOCAL[fault]
                shim.arm(k, at, e, [self.folder])
            elif fault == 'count':
                shim.arm(shim.COUNT, 0, 0, [self.folder])
            r = sut.cli(['-W', self.ds])
            seen = None
            if fault == 'count' or fault in LOCAL:
                seen = shim.lib().mc_seen()
                shim.disarm()
            return r[0], r[1].tb[-700:] if r[0] == 'exc' else r[1], seen
        if fault in ('crash', 'torn'):
            return sut.in_child(download, timeout=60)
        r = download()
        self.ws.n = getattr(self.ws, 'n', 0) + 1
        if self.ws.n % 20 == 0:
            gc.collect()    # connections left open by failed downloads
        return 'ok', r

    def files(self):
        return {n: open(os.path.join(self.folder, n), 'rb').read() for n in sorted(os.listdir(self.folder))}

    def check(self, what, bad, finished, tidy=False):
        """after an execution: nothing partial; everything when it finished; tidy: and nothing else

        (otherwise killed processes can have left temporary files of theirs)"""
        got = self.files()
        for n, c in self.want.items():
            if n in got and got[n] != c:
                bad.append(('partial', '%s: %s has %d bytes of %d' % (what, n, len(got[n]), len(c))))
            if n not in got and (finished or n in self.there):
                bad.append(('missing', '%s: %s is not there' % (what, n)))
        if finished:
            extra = set(got) - set(self.want)
            if not tidy:
                extra &= OTHERS
            if extra:
                bad.append(('extra', '%s: %s' % (what, sorted(extra))))
        return {n for n, c in self.want.items() if got.get(n) == c}


def succeeded(r):
    return r[0] == 'ok' and r[1][0] == 'ret' and r[1][1] == 0


def events(s, fault, prepare=None):
    """number of points where the fault can be injected in the next execution (nothing is kept)"""
    r = s.run('count' if fault in LOCAL else None)
    if not succeeded(r):
        raise RuntimeError('undisturbed download: %s' % (r,))
    return r[1][2] if fault in LOCAL else s.server.events


def repeat(s, what, bad, tidy=False):
    before = {n for n, c in s.want.items() if s.files().get(n) == c}
    r = s.run()
    if not succeeded(r):
        bad.append(('again', '%s: repeated: %s' % (what, r)))
        return
    s.check(what + ', repeated', bad, True, tidy)
    again = sorted(set(s.server.retrieved) & before)
    if again:
        bad.append(('transferred', '%s: %s were complete' % (what, again)))
    unwanted = sorted(set(s.server.retrieved) & set(SKIPPED))
    if unwanted:
        bad.append(('skipped', '%s: %s retrieved' % (what, unwanted)))


def check(case, ws):
    s = Scene(ws, case)
    bad, n, reached = [], 0, 0
    fault, second = case['fault'], case.get('second')
    s.reset()
    if fault is None:
        r = s.run()
        if not succeeded(r):
            bad.append(('download', 'undisturbed: %s' % (r,)))
        else:
            s.check('undisturbed', bad, True, True)
            if sorted(s.server.retrieved) != sorted(set(s.want) - set(s.there)):
                bad.append(('transferred', 'undisturbed: %s retrieved' % s.server.retrieved))
            repeat(s, 'undisturbed', bad, True)
            # what is there is kept, whatever it is
            if s.want:
                f = sorted(s.want)[0]
                p = os.path.join(s.folder, f)
                os.unlink(p)
                repeat(s, 'one removed', bad, True)
        return bad, {'evaluations': 3, 'distinct': 3}
    total = events(s, fault)
    for at in range(total):
        s.reset()
        what = '%s at %d' % (fault, at)
        r = s.run(fault, at)
        n += 1
        reached += 1
        s.check(what, bad, False)
        if succeeded(r):
            # (a failure that could be overcome)
            s.check(what + ', status zero', bad, True)
        if second:
            if bad:
                break
            seconds = 0
            while True:
                if seconds:
                    s.reset()
                    s.run(fault, at)
                r2 = s.run(second, seconds)
                seen = s.server.events > seconds if second in PROTOCOL else (r2[0] != 'ok' or r2[1][2] > seconds)
                if not seen:
                    repeat(s, what + ', then nothing', bad)
                    break
                w = '%s, then %s at %d' % (what, second, seconds)
                s.check(w, bad, succeeded(r2))
                repeat(s, w, bad)
                n += 1
                reached += 1
                seconds += 1
                if bad or seconds > 400:
                    break
        else:
            repeat(s, what, bad)
        if len(bad) > 3:
            break
    return bad[:4], {'evaluations': n, 'distinct': reached}
