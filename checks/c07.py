"""C07: loading through the cache is indistinguishable from parsing afresh.

Explicit-state search: a state is the complete content of the directory that
holds the trace (trace file + whatever cache files the code left).  Every
transition loads the trace with one configuration on the real code and
compares everything observable with a parse made with the cache disabled.
The search runs to a fixpoint, so it covers load histories of any length over
the alphabet of configurations.
"""
import itertools
import os

import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = ["process-local class registry is the only state besides the files of the trace directory",
               "float/int storage width of a column is not observable; value and kind (int, float, text, missing) are"]

# event payloads chosen so that a textual cache could confuse them
TRICKY = [
    ["a=nan b=NA", "a=null b=5", "a=x b=6"],
    ["a=1.5", "a=2.50", "a=x"],
    ["a=1.5", "a=2.50"],
    ["a=00000002", "a=00000010"],
    ["a= b=1", "a=x b=2"],
    ["a= b=1", "a= b=2"],
    ["a=1 b=x", "b=y", "a=3"],
    ["a=123456789012345678901234567890 b=1", "a=5 b=2"],
    ["a=18446744073709551615", "a=1"],
    ["a=0x10 b=-5", "a=010 b=+5"],
    ["a=True b=False", "a=False b=True"],
    ["a=inf b=-inf", "a=1e5 b=1e-5"],
    ["a=x,y b=\"q\" c='s'", "a=\"x b=\"\"q c=#hash"],
    ["a=None", "a=None"],
    ["load={1 2 3} z=1", "load={4 5} z=2", "load={} z=3"],
    ["a=x y  z b=1", "a=p\tq b=2"],
    ["a=\\n\\x00 b=1", "a=\\\\ b=2"],
    ["a=2026-01-01 b=1", "a=12:30 b=2"],
    ["a=1 b=y", "a=y b=2", "a=3 b=4"],
    ["a=0b11 b=0o17", "a=1_000 b=--1"],
    ["a=9007199254740993 b=1", "b=2"],
    ["a=\u00e9\u20ac b=1", "a=\u0416 b=2"],
    ["a=\r b=1", "a=2 b=3"],
]
COMMS = ["task", "1234", "NA", "a,b", "sh -c", "k\"q", "01", "1.0", "", "true"]

BUILTIN = [
    ("sched_switch", "prev_comm=swapper/0 prev_pid=0 prev_prio=120 prev_state=R ==> next_comm=1234 next_pid=5 next_prio=9"),
    ("sched_switch", "prev_comm=1234 prev_pid=5 prev_prio=120 prev_state=S ==> next_comm=nan next_pid=6 next_prio=9"),
    ("sched_wakeup", "comm=null pid=6 prio=120 success=1 target_cpu=000"),
    ("cpu_idle", "state=1 cpu_id=0"),
    ("cpu_idle", "state=4294967295 cpu_id=0"),
    ("cpu_frequency", "state=533000 cpu_id=1"),
    ("cpu_capacity", "cpu_id=1 state=430"),
    ("sched_load_avg_sg", "cpus=00000002 load=3 utilization=1"),
    ("sched_load_avg_task", "comm=01 pid=7 load=3 utilization=1"),
    ("thermal_power_cpu_get", "cpus=0000000f freq=1900000 raw_cpu_power=1259 load={100 2 3} power=61"),
    ("thermal_power_cpu_get", "cpus=00000039 freq=1900000 raw_cpu_power=1259 load={100 2} power=61"),
    ("thermal_power_cpu_limit", "cpus=000000f0 freq=1900000 cdev_state=0 power=5036"),
    ("ext4_da_write_begin", "dev 179,6 ino 52 pos 0 len 8 flags 0"),
    ("ext4_sync_file_enter", "dev 179,6 ino 53 parent 2 datasync 1 "),
    ("f2fs_write_begin", "dev = (179,6), ino = 52, pos = 0, len = 8, flags = 0"),
    ("clock_set_rate", "cpu_clk state=300000 cpu_id=0"),
    ("clock_enable", "12 state=1 cpu_id=0"),
    ("sys_enter", "NR 64 (1, 7764ee9000, 103, 0, 0, 4)"),
    ("sys_exit", "NR 64 = -1"),
    ("thermal_temperature", "thermal_zone=cpu id=0 temp_prev=1 temp=48000"),
    ("tracing_mark_write", "hello world, \"quoted\" nan"),
    ("tracing_mark_write", "1234"),
]


def content(which):
    if which[0] == "tricky":
        ls = [T.line("%d.%06d" % (100 + i, 7 * i), "my_ev", d) for i, d in enumerate(TRICKY[which[1]])]
        ls.append(T.line("110.5", "other_ev", "k=1"))
        return T.text(ls)
    if which[0] == "comms":
        return T.text([T.line("%d.%06d" % (5 + i, 7 * i), "my_ev", "a=%d" % i, comm=c, pid=i, cpu=i)
                       for i, c in enumerate(which[1])])
    if which[0] == "builtin":
        ls = []
        for i, (ev, d) in enumerate(BUILTIN):
            ls.append(T.line("%d.%06d" % (10 + i // 3, 100 * (i % 3 == 2)), ev, d, cpu=i % 4))
        ls.append(T.line("30.1", "my_ev", "a=1 b=x"))
        ls.append(T.line("30.2", "ev_two", "c=y d=0x1f"))
        return T.text(ls)
    if which[0] == "ns":
        return T.text([T.line(str(1000000000 + 333 * i), "my_ev", "a=%d" % i) for i in range(6)]
                      + [T.line(str(1000000000 + 333 * 5), "ev_two", "c=9")])
    if which[0] == "dup":
        return T.text([T.line("1.000001", "my_ev", "a=%d" % i) for i in range(4)]
                      + [T.line("1.000000", "ev_two", "c=9"), T.line("0.1", "my_ev", "a=9")])
    if which[0] == "long":
        # what a column holds is known at its end only
        ls = [T.line("%d.%06d" % (5 + i // 1000, i % 1000), "my_ev", "a=%d b=%d c=x%d" % (i, i % 7, i % 5), cpu=i % 4) for i in range(which[1])]
        ls += [T.line("9000.1", "my_ev", which[2]), T.line("9000.2", "ev_two", "c=9")]
        return T.text(ls)
    if which[0] == "zero":
        return T.text([T.line("0.000000", "my_ev", "a=0"), T.line("0.000001", "my_ev", "a=1"),
                       T.line("0.3", "ev_two", "c=1")])
    if which[0] == "unmatched":
        return T.text([T.line("3.5", "zzz", "a=0"), T.line("4.5", "zzz", "a=1")])
    if which[0] == "empty":
        return T.text([])
    if which[0] == "systrace":
        body = "".join(l + "\n" for l in [
            "# tracer: nop", "#",
            "     <idle>-0     (-----) [000] d..3  10.000001: tracing_mark_write: B|12|draw",
            "       app-12    (   12) [001] ...1  10.000002: tracing_mark_write: E",
            "       app-12    (   12) [001] ...1  10.000003: tracing_mark_write: C|12|nan|5",
            "       app-12    (   12) [001] ...1  10.000004: tracing_mark_write: S|12|12|01",
            "       app-12    (   12) [001] ...1  10.000005: tracing_mark_write: free text",
            "       app-12    (   12) [003] d..3  10.000006: sched_switch: prev_comm=app prev_pid=12 prev_prio=1 prev_state=S ==> next_comm=NA next_pid=0 next_prio=2",
        ])
        return ("<html>\n<!-- BEGIN TRACE -->\n  <script class=\"trace-data\" type=\"application/text\">\n"
                + body + "  </script>\n<!-- END TRACE -->\n</html>\n")
    if which[0] == "page":
        # Both FTrace and SysTrace read it, but not the same lines
        return ("cpus=4\n       app-12    (   12) [002] ...1  9.500000: tracing_mark_write: B|12|before\n"
                + content(["systrace"]) + "       app-12    (   12) [003] ...1  11.000000: tracing_mark_write: E\n")
    raise ValueError(which)


def cfg(scope="custom", events=(), window=(0, None), abs_window=(0, None), normalize=True, cls="FTrace", reg=None, file=None):
    return {"scope": scope, "events": list(events), "window": list(window), "file": file,
            "abs_window": list(abs_window), "normalize": normalize, "cls": cls, "reg": reg}


def load(c, path="trace.txt"):
    regs = []
    try:
        for name, word in (c["reg"] or []):
            regs.append(trappy.register_dynamic_ftrace(name, word))
        k = trappy.FTrace if c["cls"] == "FTrace" else trappy.SysTrace
        return k(path, normalize_time=c["normalize"], scope=c["scope"], events=list(c["events"]),
                 window=tuple(c["window"]), abs_window=tuple(c["abs_window"]))
    finally:
        for r in regs:
            trappy.unregister_dynamic_ftrace(r)


TWO = ["my_ev", "ev_two"]


def scenarios(tier):
    """(content, [configurations])"""
    out = []
    small = [cfg(events=["my_ev"]), cfg(events=["other_ev"]),
             cfg(events=["my_ev", "other_ev"], normalize=False)]
    for i in range(len(TRICKY)):
        out.append((["tricky", i], small[:1] + small[2:]))
    if tier == "quick":
        out.append((["comms", COMMS], [cfg(events=["my_ev"])]))
        for c in COMMS:
            out.append((["comms", [c, c]], [cfg(events=["my_ev"])]))
    else:
        for c in COMMS:
            for d in COMMS:
                out.append((["comms", [c, d]], [cfg(events=["my_ev"])]))
    win = [cfg(events=TWO), cfg(events=["my_ev"], normalize=False), cfg(events=["ev_two"]),
           cfg(events=TWO, window=(0.5, 20)), cfg(events=["my_ev"], abs_window=(1.0000002, 30.1)),
           cfg(events=TWO, window=(0, 1e-6), abs_window=(0.5, 100), normalize=False),
           cfg(events=["ev_two"], window=(19, None), abs_window=(0, 30.15)),
           cfg(events=["no_such"])]
    for k in (["ns"], ["dup"], ["zero"], ["unmatched"], ["empty"]):
        out.append((k, win))
    for last in ("a=1.5 b=2 c=3", "a=1", "a=1 b=01 c=nan d=5"):
        for n in (1100, 17000) if tier == "quick" else (1100, 17000, 70000, 270000):
            out.append((["long", n, last], [cfg(events=["my_ev"]), cfg(events=TWO, window=(10, None))]))
    big = [cfg(scope="all"), cfg(scope="sched"), cfg(scope="thermal"), cfg(events=["sched_switch", "cpu_idle"]),
           cfg(events=TWO), cfg(scope="all", normalize=False, window=(1, 3)),
           cfg(scope="sched", events=["my_ev"], abs_window=(12, 30.15))]
    if tier != "quick":
        big += [cfg(events=["ext4_da_write_begin", "tracing_mark_write"]), cfg(scope="all", events=TWO),
                cfg(events=["cpu_frequency"], window=(0, 0)), cfg(scope="thermal", abs_window=(14, 16))]
    out.append((["builtin"], big))
    sysc = [cfg(cls="SysTrace", scope="all"), cfg(cls="SysTrace", scope="sched"),
            cfg(cls="SysTrace", events=["tracing_mark_write"]),
            cfg(cls="SysTrace", events=["tracing_mark_write"], window=(2e-6, 4e-6), normalize=False)]
    out.append((["systrace"], sysc))
    mark = dict(events=["tracing_mark_write"], file="trace.txt")
    out.append((["page"], [cfg(cls=c, **kw) for c in ("FTrace", "SysTrace")
                           for kw in (mark, dict(mark, window=(1e-6, 0.6)), dict(mark, abs_window=(9, 10.000004), normalize=False),
                                      dict(mark, events=["sched_switch"]))]))
    regc = [cfg(reg=[["MyEv", "my_ev:"]], events=["my_ev"]), cfg(reg=[["MyEv", "ev_two:"]], events=["ev_two"]),
            cfg(events=TWO), cfg(reg=[["Fresh", "clock_enable:"]], events=["cpu_idle"])]
    out.append((["builtin"], regc))
    return out


BOUNDS = ("fixpoint of the reachable directory states (load histories of every length) for each scenario: "
          "%d payload families, comm values, ns/duplicate/zero timestamps, all built-in event families, SysTrace, FTrace and SysTrace of one file, "
          "re-registered parsers; 1-11 load configurations (scope, events, window, abs_window, normalize_time); all sequences of 3 (thorough 4) loads of a trace.dat with parsers that do or do not parse raw" % len(TRICKY))
MUST_SEE = ("served-from-cache", "partial-cache", "fresh")

_REF = {}


def reference(ct, c):
    key = repr((ct, sorted(c.items())))
    if key not in _REF:
        with T.cache(False):
            _REF[key] = T.observe(load(c, _fname(c)))
    return _REF[key]


def _fname(c):
    return c["file"] or ("trace.txt" if c["cls"] == "FTrace" else "trace.html")


def step(case):
    """case = [[content, hist, snapshot-or-None], config]"""
    (ct, hist, snap), c = case
    res = Res()
    root = os.path.join(os.getcwd(), "d")
    if snap is None:            # replay: rebuild the state from the history
        T.restore(root, initial(ct))
        old = os.getcwd()
        os.chdir(root)
        try:
            with T.cache(True):
                for h in hist:
                    load(h, _fname(h))
        finally:
            os.chdir(old)
    else:
        T.restore(root, snap)
    old = os.getcwd()
    os.chdir(root)
    try:
        want = reference(ct, c)
        with T.cache(True):
            tr = load(c, _fname(c))
        got = T.observe(tr)
        d = T.diff(got, want)
        if d:
            res.fail("cache-differs:%s" % "/".join(map(str, ct[:2])),
                     "content %r, loads so far %r, then %r: cached load differs from a fresh parse: %s"
                     % (ct, [brief(h) for h in hist], brief(c), d))
        after = T.snapshot(root)
        ncached = len([x for x in tr.trace_classes if x.cached])
        res.tag("served-from-cache" if ncached == len(tr.trace_classes) else
                "partial-cache" if ncached else "fresh")
        fn = _fname(c)
        if after.get(fn) != initial(ct)[fn]:
            res.fail("trace-modified", "loading changed the trace file itself")
    finally:
        os.chdir(old)
    res.step()
    res.run()
    res.state(ct, got)
    res.data = ([ct, sorted((k, repr(v)) for k, v in after.items())], [ct, hist + [c], after])
    return res


SCRIPT = """#!/bin/sh
for last; do :; done
case " $* " in *" -r my_ev "*) sed s/PLAIN/RAW/ "$last";; *) cat "$last";; esac
"""


def raw(case):
    """A trace.dat, whose events trace-cmd prints raw for some parsers"""
    res = Res()
    root, bin_ = os.path.abspath("d"), os.path.abspath("bin")
    os.makedirs(bin_, exist_ok=True)
    with open(os.path.join(bin_, "trace-cmd"), "w") as f:
        f.write(SCRIPT)
    os.chmod(os.path.join(bin_, "trace-cmd"), 0o700)
    T.restore(root, {"trace.dat": T.text([T.line("1.0", "my_ev", "a=PLAIN"), T.line("2.0", "ev_two", "a=2")]).encode()})
    old, path = os.getcwd(), os.environ["PATH"]
    os.environ["PATH"] = bin_ + ":/usr/bin:/bin"
    os.chdir(root)
    try:
        for i, (parse_raw, events) in enumerate(case["hist"]):
            cls = trappy.register_dynamic_ftrace("MyEv", "my_ev:", **{"parse_raw": True} if parse_raw else {})
            try:
                obs = []
                for cached in (True, False):
                    with T.cache(cached):
                        tr = trappy.FTrace(scope="custom", events=events)
                    obs.append(T.observe(tr))
                    if "my_ev" in events and list(tr.my_ev.data_frame["a"]) != ["RAW" if parse_raw else "PLAIN"]:
                        res.fail("raw", "parse_raw %r, cache %r: the event is %r" % (parse_raw, cached, list(tr.my_ev.data_frame["a"])))
            finally:
                trappy.unregister_dynamic_ftrace(cls)
            res.run()
            res.step()
            res.tag("raw")
            d = T.diff(*obs)
            if d:
                res.fail("raw", "loads (parse_raw, events) %r: the last differs from a fresh parse: %s" % (case["hist"][:i + 1], d))
                break
    finally:
        os.chdir(old)
        os.environ["PATH"] = path
    res.state(case["hist"])
    return res


def replay(case):
    if isinstance(case, dict):
        return raw(case)
    (ct, hist, snap), c = case
    return step([[ct, hist, None], c])


def brief(c):
    return {k: v for k, v in c.items() if v not in (None, [0, None], "FTrace", True, [])}


def initial(ct):
    fn = "trace.html" if ct[0] == "systrace" else "trace.txt"
    return {fn: content(ct).encode("utf-8")}


def strip(case):
    (ct, hist, snap), c = case
    return [[ct, hist, None], c]


def explore(ctx):
    sc = scenarios(ctx.tier)
    cfgs = {}
    init = []
    for i, (ct, cs) in enumerate(sc):
        key = repr((i, ct))
        cfgs[i] = cs
        init.append(([ct, i], [ct + ["#%d" % i], [], initial(ct)]))
    info = ctx.explore(init, lambda node: cfgs[int(node[0][-1][1:])], step, max_depth=12)
    ctx.notes["search"] = info
    one = [(r, e) for r in (False, True) for e in (["my_ev"], ["my_ev", "ev_two"], ["ev_two"])]
    ctx.run_cases(raw, [{"hist": list(h)} for n in ((3,) if ctx.quick else (3, 4)) for h in itertools.product(one, repeat=n)])
    ctx.violations = [(strip(c), k, m) for c, k, m in ctx.violations]
    ctx.sample({"content": sc[0][0], "loads": [brief(c) for c in sc[0][1]]})
    ctx.sample({"content": ["builtin"], "loads": [brief(c) for c in sc[-1][1]]})
