"""Controlled execution of several processes: one runs at a time, and at every file system call that can interact with another process
the scheduler chooses who goes on.  Schedules are enumerated depth first up to a number of preemptions."""
import os
import pickle
import re
import select
import signal
import time

from . import shim


class Diverged(Exception):
    pass


class Proc:
    def __init__(self, i, fn, dirs):
        self.i = i
        er, ew = os.pipe()
        gr, gw = os.pipe()
        rr, rw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                for f in (er, gw, rr):
                    os.close(f)
                shim.arm(shim.SCHED, 0, 0, dirs, gr, ew)
                try:
                    out = ('ok', fn())
                except BaseException as e:
                    import traceback
                    out = ('exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:])
                shim.disarm()
                with os.fdopen(rw, 'wb') as f:
                    f.write(pickle.dumps(out))
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        for f in (ew, gr, rw):
            os.close(f)
        self.events, self.go, self.result_fd = er, gw, rr
        self.buf = b''
        self.pending = None     # the call it is about to make
        self.done = False
        self.blocked = None
        self.result = None

    def wait(self, timeout):
        """Until it is about to make a call, or has ended."""
        end = time.time() + timeout
        while b'\n' not in self.buf:
            r, _, _ = select.select([self.events], [], [], max(0, end - time.time()))
            if not r:
                raise TimeoutError('process %d does not go on' % self.i)
            d = os.read(self.events, 65536)
            if not d:
                self.finish()
                return
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        kind, p, q, _ = line.decode().split('\t')
        # (temporary files carry the number of the process)
        me, mark = re.compile(r'(?<![0-9A-Za-z])%d(?![0-9A-Za-z])' % self.pid), '<%d>' % self.i
        self.pending = (kind, me.sub(mark, p), me.sub(mark, q))

    def finish(self):
        data = b''
        while True:
            d = os.read(self.result_fd, 1 << 16)
            if not d:
                break
            data += d
        _, st = os.waitpid(self.pid, 0)
        self.result = pickle.loads(data) if data else ('signal', st)
        self.done = True
        self.pending = None
        for f in (self.events, self.go, self.result_fd):
            os.close(f)

    def step(self, timeout):
        self.pending = None
        try:
            os.write(self.go, b'g')
        except BrokenPipeError:
            pass
        self.wait(timeout)

    def kill(self):
        if not self.done:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            for f in (self.events, self.go, self.result_fd):
                os.close(f)
            self.done = True


def touches(e):
    """(kind of resource, path, changes it) of a call: names, contents, listings and locks"""
    kind, p, q = e
    if kind == 'list':
        return [('dir', p, False)]
    if kind in ('open', 'openw'):
        return [('name', p, False)]
    if kind == 'stat':
        return [('name', p, False), ('content', p, False)]
    if kind == 'read':
        return [('content', p, False)]
    if kind in ('write', 'truncate'):
        return [('content', p, True), ('name', p, False)][:1 if kind == 'write' else 2]
    if kind in ('lock', 'trylock'):
        return [('lock', p, True)] + ([('released', p, False)] if kind == 'trylock' else [])
    if kind == 'unlock':
        # (matters only to who does not wait for the lock)
        return [('released', p, True)]
    if kind == 'blocked':
        return []
    out = [('name', p, True), ('dir', os.path.dirname(p), True)]
    if q:
        out += [('name', q, True), ('dir', os.path.dirname(q), True)]
    return out


class Conflicts:
    """Resources that one process changes and another one touches; learnt from the executions."""

    def __init__(self):
        self.by = {}
        self.shared = set()

    def learn(self, i, e):
        grown = False
        for kind, p, w in touches(e):
            d = self.by.setdefault((kind, p), {})
            if d.get(i) is True or (i in d and not w):
                continue
            d[i] = w
            if (kind, p) not in self.shared and len(d) > 1 and any(d.values()):
                self.shared.add((kind, p))
                grown = True
        return grown

    def matters(self, e):
        return any((k, p) in self.shared for k, p, _ in touches(e))


def run(fns, dirs, conflicts, prefix=(), timeout=120):
    """One execution.  Returns (results, decisions [(enabled, chosen, preemption?, calls before, who was running)], grown, trace, calls)."""
    procs = []
    decisions, trace, events, grown = [], [], [], False
    try:
        procs = [Proc(i, f, dirs) for i, f in enumerate(fns)]
        for p in procs:
            p.wait(timeout)
        current = None
        while not all(p.done for p in procs):
            alive = [p for p in procs if not p.done]
            enabled = [p.i for p in alive if not p.blocked]
            if not enabled:
                return [('deadlock', [p.blocked for p in procs]) if not p.done else p.result for p in procs], decisions, grown, trace, events
            cur = procs[current] if current is not None else None
            free = cur is not None and current in enabled and cur.pending and cur.pending[0] != 'blocked' and not conflicts.matters(cur.pending)
            if free:
                chosen = current
            else:
                default = current if current in enabled else enabled[0]
                n = len(decisions)
                if len(enabled) > 1:
                    chosen = prefix[n] if n < len(prefix) else default
                    if chosen not in enabled:
                        raise Diverged('process %d cannot go on at decision %d' % (chosen, n))
                    decisions.append((tuple(enabled), chosen, current in enabled, len(events), current))
                else:
                    chosen = default
            p = procs[chosen]
            current = chosen
            e = p.pending
            if e:
                if e[0] == 'blocked':
                    # goes on when somebody released it
                    p.step(timeout)
                    continue
                events.append((p.i, e))
                if conflicts.learn(p.i, e):
                    grown = True
                if conflicts.matters(e):
                    trace.append((p.i,) + e)
            p.step(timeout)
            if p.pending and p.pending[0] == 'blocked':
                p.blocked = p.pending[1]
            if e and e[0] == 'unlock' or p.done:
                for o in procs:
                    if o.blocked and (p.done or o.blocked == e[1]):
                        o.blocked = None
        return [p.result for p in procs], decisions, grown, trace, events
    finally:
        for p in procs:
            p.kill()


def independent(events, segment):
    """No call of one list touches what one of the other changes."""
    a = {}
    for _, e in events:
        for k, p, w in touches(e):
            a[k, p] = a.get((k, p), False) or w
    for _, e in segment:
        for k, p, w in touches(e):
            if (k, p) in a and (w or a[k, p]):
                return False
    return True


def segment(events, pos, proc):
    """What the process does from there until another goes on."""
    out = []
    for i, e in events[pos:]:
        if i != proc:
            break
        out.append((i, e))
    return out


class Exploration:
    """make() -> functions of the processes.  restore() puts the folders back.  after(results, trace) -> violations, on the state left.
    A preemption is not explored when what the process does up to its next scheduling point commutes with what the other one does then:
    it is the same execution as preempting it later (two processes only)."""

    def __init__(self, make, dirs, restore, after, bound, shard=(0, 1), limit=10 ** 9):
        self.make, self.dirs, self.restore, self.after, self.bound, self.shard, self.limit = make, dirs, restore, after, bound, shard, limit
        self.conflicts = Conflicts()
        self.diverged = 0

    class Again(Exception):
        pass

    def explore(self):
        while True:
            self.n = self.steps = self.pruned = 0
            self.bad = []
            self.complete = True
            try:
                self.visit((), 0, self.shard[0] == 0, True)
                return self
            except self.Again:
                pass

    def visit(self, prefix, used, count, descend):
        """Executes it and the alternatives after the prefix; returns what the chosen process did from the last decision of the prefix."""
        if self.n >= self.limit:
            self.complete = False
            return None
        for attempt in range(4):
            self.restore()
            try:
                res, decisions, grown, trace, events = run(self.make(), self.dirs, self.conflicts, prefix)
                if grown:
                    raise self.Again()
                if len(decisions) >= len(prefix):
                    break
            except Diverged:
                pass
            # the processes did not do again what led to this schedule
            self.diverged += 1
        else:
            raise Diverged('schedule %s: the processes do not repeat what they did' % (prefix,))
        if count:
            self.n += 1
            self.steps += len(events)
            self.bad += [(trace, s, m) for s, m in self.after(res, trace)]
        mine = segment(events, decisions[len(prefix) - 1][3], prefix[-1]) if prefix else None
        if not descend:
            return mine
        later = {}      # process -> what it does when it goes on instead at the next scheduling point
        for i in reversed(range(len(prefix), len(decisions))):
            enabled, chosen, pre, pos, current = decisions[i]
            end = decisions[i + 1][3] if i + 1 < len(decisions) else len(events)
            between = segment(events[:end], pos, chosen)
            alternates = pos + len(between) < end or i + 1 < len(decisions) and decisions[i + 1][1] != chosen
            if alternates:
                # somebody else goes on before or at the next decision
                nxt = pos + len(between)
                later = {events[nxt][0]: segment(events, nxt, events[nxt][0])} if nxt < len(events) else {}
            now = {}
            for alt in enabled:
                if alt == chosen or used + (1 if pre else 0) > self.bound:
                    continue
                if pre and chosen == current and later.get(alt) is not None and len(res) == 2 and independent(between, later[alt]):
                    self.pruned += 1
                    now[alt] = later[alt]
                    continue
                ours = prefix != () or i % self.shard[1] == self.shard[0]
                now[alt] = self.visit(tuple(d[1] for d in decisions[:i]) + (alt,), used + (1 if pre else 0), ours, ours)
            later = now
        return mine
