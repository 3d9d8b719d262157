"""C10: file system errors around the cache never fail or falsify a load.

For every file operation a load performs on the cache (and every errno in the
alphabet) the operation is made to fail - alone, or together with every later
modification (disk full, read-only) - in the real code under an interposed
libc.  The disturbed load must return what a fresh parse returns, and so must
the loads that follow once the file system works again.
"""
import errno
import os

from mc import cachework as W
from mc import fs
from mc import traces as T
from mc.core import Res, HarnessError

SHIM = True
PROPERTY = "C10"
LEVEL = "fault_enumeration"
RULE = ("case = (initial directory, configuration, failing operation, errno, once/persistent); every operation of the "
        "undisturbed load is made to fail in turn; non-trivial: the fault was delivered, counted by distinct "
        "(operation kind, errno, directory left behind)")
ASSUMPTIONS = ["operations on the trace file itself are not made to fail: a load that cannot read the trace may raise",
               "errors are injected at the libc boundary; close() is assumed to succeed"]
MUST_SEE = ("mkdir", "write", "creat", "open", "read", "stat", "persistent", "damaged")
BOUNDS = ("1 fault (or 1 fault followed by failure of every later modification) per load; initial directories cold, warm "
          "same, warm other, stale, broken metadata, file in place of the directory; each followed by 2 undisturbed loads; "
          "every file of a cache cut at every (quick: most) byte, emptied, removed, with lines removed or repeated, or with other contents")

ONCE = {"open": [errno.EACCES, errno.EIO], "creat": [errno.EACCES, errno.ENOSPC], "write": [errno.ENOSPC, errno.EIO],
        "read": [errno.EIO], "mkdir": [errno.EACCES, errno.EROFS], "unlink": [errno.EACCES, errno.ENOENT],
        "rmdir": [errno.ENOTEMPTY, errno.EACCES], "rename": [errno.EACCES], "stat": [errno.EACCES],
        "access": [errno.EACCES], "opendir": [errno.EACCES]}
PERSIST = [errno.ENOSPC, errno.EROFS, errno.EACCES]


def histories(tier):
    h = [[("A", None)], [("A", "1")], [("A", "12")], [("B", "12"), ("A", None)], ["badmeta"], ["notdir"]]
    if tier != "quick":
        h += [[("A", "2")], [("D", "12"), ("A", None)], ["nometa"], ["listmeta"], ["emptymeta"]]
    return h


def build(h):
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    T.restore(root, {"trace.txt": W.CONTENTS["A"].encode()})
    os.chdir(root)
    try:
        if isinstance(h[0], str):
            with T.cache(True):
                W.load("12")
            meta = ".trace.txt.cache/metadata.json"
            if h[0] == "badmeta":
                open(meta, "w").write('{"md5sum": "')
            elif h[0] == "nometa":
                os.unlink(meta)
            elif h[0] == "listmeta":
                open(meta, "w").write('[1]')
            elif h[0] == "emptymeta":
                open(meta, "w").write('{}')
            else:
                for p in sorted(os.listdir(".trace.txt.cache")):
                    os.unlink(os.path.join(".trace.txt.cache", p))
                os.rmdir(".trace.txt.cache")
                open(".trace.txt.cache", "w").write("x")
        else:
            for content, cfg in h:
                open("trace.txt", "w").write(W.CONTENTS[content])
                if cfg:
                    with T.cache(True):
                        W.load(cfg)
        res.data = T.snapshot(root)
    finally:
        os.chdir(old)
    return res


def survey(case):
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    want = W.reference("A", case["cfg"])
    T.restore(root, case["snap"])
    os.chdir(root)
    try:
        with T.cache(True):
            end, val, ops = fs.run_child(lambda: W.load(case["cfg"]), fs.FAIL, prefix=root,
                                         exclude=os.path.join(root, "trace.txt"))
        if end != "ok":
            res.fail("undisturbed", "load %s after %s failed without any fault: %s" % (case["cfg"], case["hist"], val))
        else:
            d = T.diff(val, want)
            if d:
                res.fail("undisturbed", "load %s after %s: %s" % (case["cfg"], case["hist"], d))
        res.data = ops
    finally:
        os.chdir(old)
    res.run()
    res.step()
    return res


def fault(case):
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    cfg = case["cfg"]
    want = W.reference("A", cfg)
    for c in case["then"]:
        W.reference("A", c)
    T.restore(root, case["snap"])
    os.chdir(root)
    what = "%s%s failing with %s at operation %d (%s)" % (
        "all modifications from the one " if case["persist"] else "", case["op"],
        errno.errorcode[case["err"]], case["k"], case["hist"])
    try:
        with T.cache(True):
            end, val, ops = fs.run_child(lambda: W.load(cfg), fs.FAIL, prefix=root, k=case["k"], err=case["err"],
                                         persist=case["persist"], exclude=os.path.join(root, "trace.txt"))
        kind = case["op"].split(" ")[0]
        res.tag(kind, "persistent" if case["persist"] else "once")
        res.step()
        res.run()
        if end != "ok":
            res.fail("load-fails", "load %s with %s: %s" % (cfg, what, val))
            return res
        d = T.diff(val, want)
        if d:
            res.fail("load-wrong", "load %s with %s: %s" % (cfg, what, d))
            return res
        after = T.snapshot(root)
        res.state(kind, case["err"], case["persist"], fs.canon_snapshot(after))
        if after.get("trace.txt") != W.CONTENTS["A"].encode():
            res.fail("trace-modified", "the trace file changed, " + what)
            return res
        for c in case["then"]:
            if not W.check_load(res, "A", c, "later-load", "after a load %s with %s" % (cfg, what)):
                return res
            res.step()
            res.run()
    finally:
        os.chdir(old)
    return res


def damaged(case):
    """The cache has other contents than trappy wrote."""
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    for c in ("12", "1", "2"):
        W.reference("A", c)
    for name, data, what in case["damage"]:
        snap = dict(case["snap"])
        path = ".trace.txt.cache/" + name
        if data is None:
            del snap[path]
        else:
            snap[path] = data
        res.run()
        res.tag("damaged")
        for loads in (("12", "1"), ("2", "12")):
            T.restore(root, snap)
            os.chdir(root)
            try:
                for c in loads:
                    res.step()
                    if not W.check_load(res, "A", c, "damaged-cache", "after %s" % what):
                        return res
            finally:
                os.chdir(old)
        res.state(what)
    return res


def damages(snap, quick):
    files = {p.split("/")[1]: d for p, d in sorted(snap.items()) if p.startswith(".trace.txt.cache/") and d is not None}
    for name, d in files.items():
        cuts = range(len(d))
        if quick:
            # All over the data, every third byte of what describes them
            cuts = [k for k in cuts if name.endswith(".csv") and k >= d.index(b"\n") - 2 or k % 3 == 0]
        for k in cuts:
            yield name, d[:k], "cutting %s to %d of %d bytes" % (name, k, len(d))
        for junk in (b"", b"[]", b"5", b"null", b'"x"', b"{}", b"[1]", b"true", b"\0" * len(d), b"\xff\xfe", b"\n", b"{}\n", b"[]\n\n", b"null\n1\n"):
            yield name, junk, "writing %r to %s" % (junk, name)
        for o in files:
            if o != name:
                yield name, files[o], "copying %s to %s" % (o, name)
        yield name, None, "removing %s" % name
        if name.endswith(".csv"):
            rows = d.splitlines(True)
            for i in range(len(rows)):
                yield name, b"".join(rows[:i] + rows[i + 1:]), "removing line %d of %s" % (i, name)
                yield name, b"".join(rows[:i + 1] + rows[i:]), "repeating line %d of %s" % (i, name)
            yield name, d + b"x", "appending to %s" % name


def pack(case):
    c = dict(case)
    c["snap"] = {k: v.decode("latin1") if v is not None else None for k, v in case["snap"].items()}
    return c


def explore(ctx):
    cfgs = ["12"] if ctx.quick else ["12", "2", "12w"]
    work = []
    for h, res in ctx.pmap(build, histories(ctx.tier)):
        if res.fails:
            ctx.absorb({"build": h}, res)
            continue
        for c in cfgs:
            work.append({"hist": h, "snap": res.data, "cfg": c})
    jobs = []
    for case, res in ctx.pmap(survey, work):
        ctx.absorb(pack(case), res)
        for k, (kind, mut, size, path) in enumerate(res.data or []):
            for e in ONCE.get(kind, [errno.EIO]):
                jobs.append(dict(case, k=k, op=kind + " " + path, err=e, persist=0, then=["12", "2"]))
            if mut:
                for e in PERSIST:
                    jobs.append(dict(case, k=k, op=kind + " " + path, err=e, persist=1, then=["12", "1"]))
    for j in (jobs[:1] + jobs[len(jobs) // 2:len(jobs) // 2 + 1] + jobs[-1:]):
        ctx.sample({k: v for k, v in j.items() if k != "snap"})
    ctx.notes["fault_points"] = len(jobs)
    [snap] = [w["snap"] for w in work if w["hist"] == [("A", "12")] and w["cfg"] == "12"]
    todo = list(damages(snap, ctx.quick))
    ctx.notes["damages"] = len(todo)
    for case, res in ctx.pmap(damaged, [{"snap": snap, "damage": todo[i:i + 40]} for i in range(0, len(todo), 40)]):
        ctx.absorb(dict(pack(case), damage=[(n, d.decode("latin1") if d is not None else None, w) for n, d, w in case["damage"]]), res)
    if ctx.violations:
        return
    for case, res in ctx.pmap(fault, jobs):
        ctx.absorb(pack(case), res)


def replay(case):
    c = dict(case)
    c["snap"] = {k: v.encode("latin1") if v is not None else None for k, v in case["snap"].items()}
    if "damage" in c:
        c["damage"] = [(n, d.encode("latin1") if d is not None else None, w) for n, d, w in case["damage"]]
        return damaged(c)
    return fault(c) if "k" in c else survey(c)
