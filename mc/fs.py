"""Controlled execution of trappy loads: crash points, faults, schedules.

Every execution runs in a forked child with the interposing shim armed for the
scratch directory, so nothing else can be touched by what is injected.
"""
import ctypes
import errno
import os
import pickle
import re
import select
import struct
import sys

from mc.core import HarnessError

_lib = ctypes.CDLL(None)
OFF, LOG, KILL, FAIL, SCHED = range(5)


def have_shim():
    return hasattr(_lib, "shim_arm")


def arm(mode, prefix, exclude=None, k=-1, partial=-1, err=0, persist=0, logfd=-1, cr=-1, cw=-1):
    _lib.shim_arm(mode, os.fsencode(prefix), os.fsencode(exclude) if exclude else None,
                  k, partial, err, persist, logfd, cr, cw)


def disarm():
    _lib.shim_disarm()


def _child_setup():
    import signal
    signal.alarm(0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(100)


def run_child(fn, mode=OFF, **kw):
    """Fork, arm, run fn() in the child.

    Returns (ending, value, oplog): ending is "ok" (value = result), "exc"
    (value = "Type: message"), "killed" (the injected end), or raises.
    """
    log = os.memfd_create("oplog")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _child_setup()
            devnull = os.open("/dev/null", os.O_WRONLY)
            os.dup2(devnull, 2)
            arm(mode, logfd=log, **kw)
            try:
                out = ("ok", fn())
            except BaseException as e:
                disarm()
                out = ("exc", "%s: %s" % (type(e).__name__, e))
            disarm()
            out = out + (_lib.shim_fired(),)
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        except BaseException:
            os._exit(99)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    ops = read_log(log)
    os.close(log)
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    if code == 77:
        return "killed", None, ops
    if code == -14:
        return "exc", "Hang: no answer within 100 s", ops
    if code != 0 or not chunks:
        raise HarnessError("child ended with %r" % code)
    kind, val, fired = pickle.loads(b"".join(chunks))
    return kind, val, ops


def read_log(fd):
    os.lseek(fd, 0, 0)
    data = b""
    while True:
        b = os.read(fd, 65536)
        if not b:
            break
        data += b
    out = []
    for l in data.decode("utf-8", "replace").splitlines():
        kind, mut, size, path = l.split(" ", 3)
        out.append((kind, int(mut), int(size), path))
    return out


_UNIQ = re.compile(r"[0-9a-f]{12,}|\d{3,}|tmp[a-z0-9_]{6,}")


def canon_snapshot(snap):
    """Snapshot with process specific parts of file names masked."""
    return sorted((_UNIQ.sub("#", k) if not k.endswith((".csv", ".txt", ".json", "/")) else k,
                   repr(v)) for k, v in snap.items())


class Sched(object):
    """Deterministic interleaving of forked processes at file operations."""

    def __init__(self, fns, prefix, exclude=None):
        self.procs = []
        for i, fn in enumerate(fns):
            self.procs.append(self._spawn(fn, prefix, exclude))
        self.results = {}
        for i in range(len(fns)):
            self._until_point(i)

    def _spawn(self, fn, prefix, exclude):
        log = os.memfd_create("oplog")
        go_r, go_w = os.pipe()
        st_r, st_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(go_w)
                os.close(st_r)
                for p in self.procs:
                    os.close(p["go"])
                    os.close(p["st"])
                _child_setup()
                devnull = os.open("/dev/null", os.O_WRONLY)
                os.dup2(devnull, 2)
                arm(SCHED, prefix, exclude, logfd=log, cr=go_r, cw=st_w)
                try:
                    out = ("ok", fn())
                except BaseException as e:
                    disarm()
                    out = ("exc", "%s: %s" % (type(e).__name__, e))
                disarm()
                data = pickle.dumps(out)
                data = b"r" + struct.pack("<I", len(data)) + data
                while data:
                    data = data[os.write(st_w, data):]
                os._exit(0)
            except BaseException:
                os._exit(99)
        os.close(go_r)
        os.close(st_w)
        return {"pid": pid, "go": go_w, "st": st_r, "log": log, "live": True}

    def _until_point(self, i):
        p = self.procs[i]
        b = os.read(p["st"], 1)
        if b == b"p":
            return
        p["live"] = False
        if b == b"r":
            n = struct.unpack("<I", self._exact(p["st"], 4))[0]
            self.results[i] = pickle.loads(self._exact(p["st"], n))
        else:
            self.results[i] = ("exc", "Hang or abnormal end of the process")
        os.waitpid(p["pid"], 0)

    @staticmethod
    def _exact(fd, n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise HarnessError("short result")
            out += b
        return out

    def enabled(self):
        return [i for i, p in enumerate(self.procs) if p["live"]]

    def grant(self, i):
        os.write(self.procs[i]["go"], b"g")
        self._until_point(i)

    def close(self):
        logs = []
        for p in self.procs:
            if p["live"]:
                os.close(p["go"])
                os.waitpid(p["pid"], 0)
            else:
                os.close(p["go"])
            os.close(p["st"])
            logs.append(read_log(p["log"]))
            os.close(p["log"])
        return logs


def run_schedule(make, choices):
    """Execute one schedule.

    make() -> (fns, prefix, exclude) with a freshly prepared directory.
    choices: list of (point index, process) switches; between switches the
    running process keeps running while it is enabled (no preemption), then
    the lowest enabled one takes over.
    Returns (results, points, logs): points[i] = (enabled list, chosen).
    """
    fns, prefix, exclude = make()
    s = Sched(fns, prefix, exclude)
    want = dict(choices)
    cur = None
    points = []
    try:
        while True:
            en = s.enabled()
            if not en:
                break
            i = len(points)
            if i in want:
                nxt = want[i]
                if nxt not in en:
                    raise HarnessError("schedule diverged at point %d: %r not in %r" % (i, nxt, en))
            elif cur in en:
                nxt = cur
            else:
                nxt = en[0]
            points.append((en, nxt, cur in en and nxt != cur))
            s.grant(nxt)
            cur = nxt
            if len(points) > 5000:
                raise HarnessError("schedule too long")
    finally:
        logs = s.close()
    return s.results, points, logs


def extend(choices, points, bound):
    """All schedules that deviate once more, after the last deviation."""
    last = max([c[0] for c in choices]) if choices else -1
    used = 0
    out = []
    for i, (en, chosen, preempt) in enumerate(points):
        if preempt:
            used += 1
        if i <= last:
            continue
        for alt in en:
            if alt == chosen:
                continue
            prev = points[i - 1][1] if i else None
            cost = used + (1 if (prev in en and alt != prev) else 0)
            if cost <= bound:
                out.append(list(choices) + [[i, alt]])
    return out
