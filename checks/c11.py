"""C11: concurrent loads (and a load overlapping a rewrite of the trace) never
produce wrong data, now or later.

Two processes run the real code; every file operation below the trace
directory is a scheduling point.  All interleavings with at most N preemptions
are executed (iterative context bounding); after each one, every process must
have seen what a fresh parse gives and the directory left behind must serve
every configuration correctly.
"""
import os

from mc import cachework as W
from mc import fs
from mc import traces as T
from mc.core import Res, h64

SHIM = True
PROPERTY = "C11"
LEVEL = "model_checking"
ASSUMPTIONS = ["processes interact only through the files of the trace directory; each libc call is atomic",
               "reads of the trace file are scheduling points only when another process rewrites it",
               "a load that overlaps a rewrite of the trace may itself see either version or a mixture; loads that start "
               "after the rewrite must be right", "a trace is replaced at most once during a load"]
MUST_SEE = ("preempted", "put-back")
BOUNDS = ("2 processes, at most 1 preemption (quick; 2 in six of the nine) or 2 (thorough) per scenario; scenarios: cold/cold same and different "
          "events, partly filled, stale cache, load vs in-place or atomic rewrite of the trace")


def writer(content, how):
    data = W.CONTENTS[content].encode()

    def go():
        if how == "rename":
            with open("new", "wb") as f:
                f.write(data)
            os.rename("new", "trace.txt")
        else:
            half = len(data) // 2
            with open("trace.txt", "wb", buffering=0) as f:
                f.write(data[:half])
                f.write(data[half:])
        return None
    return go


def loader(cfg):
    def go():
        with T.cache(True):
            return W.load(cfg)
    return go


# (name, history building the directory, final content, [process], bound for quick, bound for thorough)
SCEN = [
    ("cold-same", [("A", None)], "A", [("load", "12"), ("load", "12")], 1, 2),
    ("cold-diff", [("A", None)], "A", [("load", "1"), ("load", "2")], 1, 2),
    ("warm-add", [("A", "1")], "A", [("load", "12"), ("load", "2")], 2, 2),
    ("warm-same", [("A", "12")], "A", [("load", "12"), ("load", "1")], 2, 2),
    ("stale", [("B", "12"), ("A", None)], "A", [("load", "12"), ("load", "1")], 2, 2),
    ("rewrite-cold", [("A", None)], "B", [("load", "12"), ("write", "B", "inplace")], 2, 2),
    ("replace-cold", [("A", None)], "C", [("load", "12"), ("write", "C", "rename")], 2, 2),
    ("replace-warm", [("A", "1")], "D", [("load", "12"), ("write", "D", "rename")], 2, 2),
    ("three", [("A", None)], "B", [("load", "12"), ("write", "B", "rename"), ("load", "2")], 1, 2),
]


def build(hist):
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "b")
    T.restore(root, {"trace.txt": W.CONTENTS[hist[0][0]].encode()})
    os.chdir(root)
    try:
        for content, cfg in hist:
            open("trace.txt", "w").write(W.CONTENTS[content])
            if cfg:
                with T.cache(True):
                    W.load(cfg)
        res.data = T.snapshot(root)
    finally:
        os.chdir(old)
    return res


def execute(case, choices):
    """Run one schedule; returns (results, points, logs, snapshot)."""
    old = os.getcwd()
    root = os.path.join(old, "d")
    procs = case["procs"]
    rewriting = any(p[0] == "write" for p in procs)

    def make():
        T.restore(root, case["snap"])
        os.chdir(root)
        fns = [loader(p[1]) if p[0] == "load" else writer(p[1], p[2]) for p in procs]
        return fns, root, None if rewriting else os.path.join(root, "trace.txt")
    try:
        results, points, logs = fs.run_schedule(make, choices)
        return results, points, logs, T.snapshot(root)
    finally:
        os.chdir(old)


def explain(case, choices, points, logs):
    order, pos = [], [0] * len(logs)
    for en, p, pre in points:
        if pos[p] < len(logs[p]):
            kind, mut, size, path = logs[p][pos[p]]
            pos[p] += 1
            if order and order[-1][0] == p:
                order[-1][1].append(kind + path)
            else:
                order.append((p, [kind + path]))
    return "; ".join("P%d[%s..%s]" % (p, ops[0], ops[-1]) for p, ops in order)


def one(res, case, choices, verified):
    results, points, logs, after = execute(case, choices)
    res.step(len(points))
    res.run()
    pre = sum(1 for p in points if p[2])
    res.tag("preempted" if pre else "sequential", case["name"])
    rewriting = any(p[0] == "write" for p in case["procs"])
    final = case["final"]
    sched = {"scenario": case["name"], "choices": choices}
    what = "%s, schedule %s" % (case["name"], explain(case, choices, points, logs))
    for i, p in enumerate(case["procs"]):
        kind, val = results[i]
        if rewriting and p[0] == "load":
            continue
        if kind != "ok":
            res.fail("concurrent-load-fails", "%s: process %d (%s) raised %s" % (what, i, p, val))
        elif p[0] == "load":
            d = T.diff(val, W.reference(final, p[1]))
            if d:
                res.fail("concurrent-load-wrong", "%s: process %d (%s): %s" % (what, i, p, d))
    res.state(case["name"], fs.canon_snapshot(after), repr(sorted(results.items())))
    key = h64(fs.canon_snapshot(after))
    if key not in verified:
        verified.add(key)
        old = os.getcwd()
        root = os.path.join(old, "d")
        for cfg in ("12", "1", "12"):
            os.chdir(root)
            try:
                with T.cache(True):
                    got = W.load(cfg)
                d = T.diff(got, None) if False else None
            except Exception as e:
                got = None
                res.fail("later-load-fails", "%s: then load %s raised %s: %s" % (what, cfg, type(e).__name__, e))
                break
            finally:
                os.chdir(old)
            d = T.diff(got, W.reference(final, cfg))
            res.run()
            if d:
                res.fail("later-load-wrong", "%s: then load %s: %s" % (what, cfg, d))
                break
        if rewriting:
            # The contents that the trace had before may come back
            snap = dict(after)
            snap["trace.txt"] = W.CONTENTS[case["first"]].encode()
            T.restore(root, snap)
            os.chdir(root)
            try:
                for cfg in ("1", "12"):
                    W.check_load(res, case["first"], cfg, "later-load-wrong", what + ", then the former trace put back")
                    res.run()
            finally:
                os.chdir(old)
            res.tag("put-back")
    return points


def subtree(case):
    """Explore every schedule that starts with case['choices'] deviations."""
    res = Res()
    for cfg in ("1", "2", "12"):
        W.reference(case["final"], cfg)
        W.reference(case["first"], cfg)
    verified = set()
    stack = [case["choices"]]
    n = 0
    while stack:
        choices = stack.pop()
        before = len(res.fails)
        points = one(res, case, choices, verified)
        n += 1
        if len(res.fails) > before:
            res.data = {"choices": choices, "n": n}
            return res
        if case["deep"]:
            stack.extend(fs.extend(choices, points, case["bound"]))
    res.data = {"n": n, "points": len(points)}
    return res


def root(case):
    res = Res()
    for cfg in ("1", "2", "12"):
        W.reference(case["final"], cfg)
        W.reference(case["first"], cfg)
    r1, points, l1, s1 = execute(case, [])
    r2, points2, l2, s2 = execute(case, [])
    if [p[1] for p in points] != [p[1] for p in points2] or fs.canon_snapshot(s1) != fs.canon_snapshot(s2):
        raise Exception("the same schedule gave two different executions")
    one(res, case, [], set())
    res.data = (fs.extend([], points, case["bound"]), len(points))
    return res


def explore(ctx):
    cases = []
    for name, hist, final, procs, bq, bt in SCEN:
        [(h, b)] = ctx.pmap(build, [hist])
        if b.fails:
            ctx.absorb({"build": hist}, b)
            continue
        cases.append({"name": name, "snap": b.data, "final": final, "first": hist[-1][0], "procs": procs,
                      "bound": bq if ctx.quick else bt, "deep": not ctx.quick, "choices": []})
    jobs = []
    sizes = {}
    for case, res in ctx.pmap(root, cases):
        ctx.absorb(pack(case), res)
        if res.data is None:
            continue
        firsts, n = res.data
        sizes[case["name"]] = n
        for ch in firsts:
            # without deep, bound 1: the extensions of a bound-1 schedule that
            # cost no further preemption are explored as well
            jobs.append(dict(case, choices=ch, deep=True))
    ctx.notes["scheduling_points"] = sizes
    ctx.notes["preemption_bound"] = {c["name"]: c["bound"] for c in cases}
    ctx.notes["subtrees"] = len(jobs)
    if jobs:
        ctx.sample({"scenario": jobs[0]["name"], "switches": jobs[0]["choices"]})
        ctx.sample({"scenario": jobs[-1]["name"], "switches": jobs[-1]["choices"]})
    if ctx.violations:
        return
    total = 0
    for case, res in ctx.pmap(subtree, jobs, chunk=1):
        c = pack(case)
        if res.fails and res.data:
            c["choices"] = res.data["choices"]
        ctx.absorb(c, res)
        if res.data:
            total += res.data["n"]
    ctx.notes["schedules"] = total + len(cases)


def pack(case):
    c = dict(case)
    c["snap"] = {k: v.decode("latin1") if v is not None else None for k, v in case["snap"].items()}
    return c


def replay(case):
    c = dict(case, deep=False)
    c["snap"] = {k: v.encode("latin1") if v is not None else None for k, v in case["snap"].items()}
    return subtree(c)
