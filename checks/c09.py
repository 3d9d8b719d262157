"""C09: a process that dies at any point of a load leaves no trace behind that
makes a later load fail or return wrong data.

All crash points of every file operation of the load (before each mutating
operation and after every byte of every write) are executed on the real code
with an interposed libc; each distinct directory left behind is a state from
which every configuration is loaded (twice, and crossed) and compared with a
fresh parse.  With two crashes, the second one hits the recovering load.
"""
import os

from mc import cachework as W
from mc import fs
from mc import traces as T
from mc.core import Res, HarnessError, h64

SHIM = True
PROPERTY = "C09"
LEVEL = "fault_enumeration"
RULE = ("case = (directory state, load configuration, crash point); crash points are every mutating file operation "
        "and every byte boundary of every write; distinct_nontrivial counts distinct directory contents left by a "
        "crash or reached by recovery, each of which was reloaded and compared")
ASSUMPTIONS = ["crash = death of the process: completed system calls survive, data buffered in the process is lost; "
               "power loss (lost page cache) is out of scope as the code promises no fsync",
               "the file system primitives themselves are atomic per call except write()"]
MUST_SEE = ("crash:creat", "crash:write", "crash:mkdir", "torn", "recovered")


def _go(root, snap):
    T.restore(root, snap)
    os.chdir(root)


def crash(case):
    """case = [content, state, cfg, k, partial] -> snapshot left behind"""
    content, snap, cfg, k, partial = case["content"], case["snap"], case["cfg"], case["k"], case["partial"]
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    _go(root, snap)
    try:
        with T.cache(True):
            end, val, ops = fs.run_child(lambda: W.load(cfg), fs.KILL, prefix=root, k=k, partial=partial)
        if end != "killed":
            raise HarnessError("crash point %d not reached (%s %s)" % (k, end, val))
        res.tag("crash:" + ops[-1][0], "torn" if partial > 0 else "before")
        res.data = (T.snapshot(root), "%s@%s%s" % (cfg, ops[-1][0] + ops[-1][3], "+%d" % partial if partial >= 0 else ""))
    finally:
        os.chdir(old)
    res.step()
    res.run()
    return res


def survey(case):
    """Operations of one uninterrupted load."""
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    _go(root, case["snap"])
    try:
        with T.cache(True):
            end, val, ops = fs.run_child(lambda: W.load(case["cfg"]), fs.KILL, prefix=root)
        if end != "ok":
            res.fail("load-fails", "load %s from state %s ended with %s" % (case["cfg"], case["how"], val))
        d = T.diff(val, W.reference(case["content"], case["cfg"])) if end == "ok" else None
        if d:
            res.fail("load-differs", d)
        res.data = (ops, T.snapshot(root))
    finally:
        os.chdir(old)
    res.run()
    res.step()
    return res


def recover(case):
    """From one directory state, every pair of loads must be right."""
    res = Res()
    content, snap, how = case["content"], case["snap"], case["how"]
    old = os.getcwd()
    root = os.path.join(old, "d")
    try:
        for first in case["cfgs"]:
            for second in case["cfgs"]:
                os.chdir(old)
                W.reference(content, first)
                W.reference(content, second)
                _go(root, snap)
                W_ok = W.check_load(res, content, first, "after-crash", "after a crash (%s)" % how)
                res.step()
                res.run()
                if not W_ok:
                    return res
                if not W.check_load(res, content, second, "after-recovery",
                                    "after a crash (%s) and a load %s" % (how, first)):
                    return res
                res.step()
                res.run()
                if T.snapshot(root).get("trace.txt") != W.CONTENTS[content].encode():
                    res.fail("trace-modified", "the trace file changed")
                    return res
        res.tag("recovered")
        res.state(fs.canon_snapshot(snap))
    finally:
        os.chdir(old)
    return res


def make_states(ctx):
    """Initial directories: cold, warm (other / same events), stale."""
    out = []

    def build(res_case):
        res = Res()
        old = os.getcwd()
        root = os.path.join(old, "d")
        steps = res_case
        T.restore(root, {"trace.txt": W.CONTENTS[steps[0][0]].encode()})
        os.chdir(root)
        try:
            for content, cfg in steps:
                with open("trace.txt", "w") as f:
                    f.write(W.CONTENTS[content])
                if cfg:
                    with T.cache(True):
                        W.load(cfg)
            res.data = T.snapshot(root)
        finally:
            os.chdir(old)
        return res
    hist = [[("A", None)], [("A", "1")], [("B", "12"), ("A", None)]]
    if not ctx.quick:
        hist += [[("A", "12")], [("C", "2"), ("A", None)], [("D", "1"), ("A", None)]]
    for h, res in ctx.pmap(build, hist):
        if res.fails:
            ctx.absorb({"build": h}, res)
            continue
        out.append({"content": h[-1][0], "snap": res.data, "how": "history %r" % (h,)})
    return out


def partials(ctx, size):
    if size <= 0:
        return [-1]
    return [-1] + list(range(1, size))


def explore(ctx):
    cfgs = ["12", "2"] if ctx.quick else ["12", "1", "2", "12w"]
    depth = 1 if ctx.quick else 2
    states = make_states(ctx)
    seen = set()
    for d in range(depth):
        jobs = []
        work = [dict(s, cfg=c) for s in states for c in cfgs]
        for case, res in ctx.pmap(survey, work):
            ctx.absorb(strip(case), res)
            if res.data is None:
                continue
            ops, after = res.data
            for k, (kind, mut, size, path) in enumerate(ops):
                ps = partials(ctx, size) if kind == "write" else [-1]
                if d > 0 and len(ps) > 4:
                    # second crash: byte boundaries near the ends and middle
                    ps = sorted(set([ps[0], 1, size // 2, size - 1]))
                for p in ps:
                    jobs.append({"content": case["content"], "snap": case["snap"], "how": case["how"],
                                 "cfg": case["cfg"], "k": k, "partial": p})
        if not ctx.samples and jobs:
            ctx.sample({"how": jobs[0]["how"], "cfg": jobs[0]["cfg"], "first_crash": [jobs[0]["k"], jobs[0]["partial"]]})
            ctx.sample({"how": jobs[-1]["how"], "cfg": jobs[-1]["cfg"], "last_crash": [jobs[-1]["k"], jobs[-1]["partial"]]})
        if ctx.violations:
            break
        ctx.notes["crash_points_depth%d" % (d + 1)] = len(jobs)
        nxt = []
        for case, res in ctx.pmap(crash, jobs):
            ctx.absorb(strip(case), res)
            if res.data is None:
                continue
            snap, where = res.data
            key = h64([case["content"], fs.canon_snapshot(snap)])
            if key in seen:
                continue
            seen.add(key)
            nxt.append({"content": case["content"], "snap": snap, "how": case["how"] + ", then crash at " + where,
                        "cfgs": cfgs, "made": {k: case[k] for k in ("content", "cfg", "k", "partial", "how")}})
        ctx.notes["distinct_crash_states_depth%d" % (d + 1)] = len(nxt)
        for case, res in ctx.pmap(recover, nxt):
            ctx.absorb({"snap": {k: v.decode("latin1") if v is not None else None for k, v in case["snap"].items()},
                        "content": case["content"], "how": case["how"], "cfgs": case["cfgs"]}, res)
        if ctx.violations:
            break
        states = nxt
        if d + 1 < depth and len(states) > 60:
            # the second crash starts from one representative per crashed operation
            by = {}
            for s in states:
                by.setdefault(s["how"].split("+")[0], s)
            states = list(by.values())
            ctx.notes["second_crash_roots"] = len(states)


def strip(case):
    c = dict(case)
    c["snap"] = {k: v.decode("latin1") if v is not None else None for k, v in case["snap"].items()}
    return c


def replay(case):
    c = dict(case)
    c["snap"] = {k: v.encode("latin1") if v is not None else None for k, v in case["snap"].items()}
    if "k" in c:
        return crash(c)
    if "cfg" in c:
        return survey(c)
    return recover(c)


BOUNDS = ("quick: 3 initial directories (cold, warm for another event, stale) x 2 configurations, every crash point, "
          "1 crash; thorough: 6 x 4, second crash from one representative per crashed operation")
