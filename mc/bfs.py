"""Explicit-state exploration of operation histories on the real code.

A state is reached by replaying its history in a forked process (so that process memory is the real one); every operation is then
tried on it in another fork, and the directories are put back in between.  Histories leading to the same state (as described by the
key the operation returns: files, registry and what the process has in memory) are explored once.
"""
import os
import shutil
import tempfile

from . import sut


class Snapshot:
    """Content of some directories, kept beside them.  Files keep their identity (inode and times) unless changed in place."""

    def __init__(self, dirs, store):
        self.dirs, self.store = dirs, store
        shutil.rmtree(store, ignore_errors=True)
        os.makedirs(store)
        self.there, self.files, self.subdirs = [], [], []
        for i, d in enumerate(dirs):
            if not os.path.isdir(d):
                continue
            self.there.append(d)
            for root, ds, fs in os.walk(d):
                self.subdirs += [os.path.join(root, x) for x in ds]
                for f in fs:
                    p = os.path.join(root, f)
                    n = os.path.join(store, '%d' % len(self.files))
                    os.link(p, n)
                    shutil.copy2(p, n + '.copy')
                    st = os.stat(p)
                    self.files.append((p, n, (st.st_size, st.st_mtime_ns)))

    def restore(self):
        for d in self.dirs:
            assert os.path.realpath(d).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep), d
            if os.path.isdir(d):
                shutil.rmtree(d)
        for d in self.there + self.subdirs:
            os.makedirs(d, exist_ok=True)
        for p, n, ident in self.files:
            st = os.stat(n)
            if (st.st_size, st.st_mtime_ns) != ident:
                os.unlink(n)
                shutil.copy2(n + '.copy', n)
            os.link(n, p)


def search(reset, ops, apply, dirs, store, depth, max_states=100000, timeout=300):
    """reset(): initial environment and state value.  ops(state) -> enabled operations.
    apply(op, state) -> (new state, key, violations), executed on the real code in the current process.
    Returns (states, transitions, violations [(history, sig, msg)], complete)."""

    def expand(path):
        state = reset()
        for op in path:
            state, _, _ = apply(op, state)
        snap = Snapshot(dirs, store)
        out = []
        for op in ops(state):
            r = sut.in_child(apply, op, state, timeout=timeout)
            snap.restore()
            out.append((op, r))
        return out

    seen = {None}
    frontier = [()]
    transitions, bad, complete = 0, [], True
    for d in range(depth):
        nxt = []
        for path in frontier:
            r = sut.in_child(expand, path, timeout=timeout * 4)
            if r[0] != 'ok':
                bad.append((list(path), 'replay:%s' % r[0], str(r[1:])[-1200:]))
                continue
            for op, rr in r[1]:
                transitions += 1
                hist = list(path) + [op]
                if rr[0] != 'ok':
                    bad.append((hist, 'operation:%s' % rr[0], str(rr[1:])[-1200:]))
                    continue
                _, key, viol = rr[1]
                bad += [(hist, s, m) for s, m in viol]
                if key not in seen and not viol:
                    if len(seen) >= max_states:
                        complete = False
                        continue
                    seen.add(key)
                    nxt.append(tuple(hist))
        frontier = nxt
        if not frontier:
            break
    else:
        complete = complete and not frontier
    return len(seen), transitions, bad, complete
