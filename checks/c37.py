"""C37: the cache spares the parsing, whatever happened to its directory before.

Every history up to a depth of loads, changes of the trace, kills and failures
at each file operation of a load, foreign traces in the same directory and
leftovers in the cache directory is executed on the real code.  From every
distinct directory reached, each configuration is loaded; from then on it, and
every configuration that wants no other events, has to be served from the
cache.  Whether the trace was parsed is measured from outside: a parse reads
the trace again after its checksum was taken and executes code for each of its
lines, so a load that does both was not served from the cache.
"""
import errno
import os
import sys

import trappy
from mc import fs
from mc import traces as T
from mc.core import Res, HarnessError, REPO

SHIM = True
PROPERTY = "C37"
LEVEL = "model_checking"
ASSUMPTIONS = ["a load counts as parsing when it both reads more than 1.5 times the size of the trace and executes at least "
               "one line of trappy's code per line of the trace; 99% of the lines of the trace are of other events"]
MUST_SEE = ("served", "parsed", "op:load", "op:write", "op:kill", "op:fail", "op:left", "op:sibling", "op:off",
            "op:both", "systrace", "narrower", "disabled")
BOUNDS = ("all histories of up to 2 (thorough 3) actions over 5 configurations, 2 traces, every mutating file operation killed or "
          "failed, 9 kinds of leftovers, loads of sibling traces, 2 concurrent loads one inside the other; FTrace and SysTrace")

NFILL = 400
BODY = {
    "A": ["ev_one: a=1 b=x", "ev_two: c=5678 d={1 2}", "ev_one: a=2 b=00000002", "ev_two: c=1 d={0xf 3}"],
    "B": ["ev_one: a=1 b=x", "ev_two: c=6678 d={1 2}", "ev_one: a=2 b=00000002", "ev_two: c=1 d={0xf 3}"],
}
SUFFIX = {"F": "trace.txt", "S": "trace.html"}


def text(content, kind):
    fill = ["  <idle>-0     (-----) [001] d..3  10.%06d: filler_event: state=%d cpu_id=1 something=%s"
            % (i, i % 7, "x" * 60) for i in range(NFILL)]
    body = ["    app-7     (-----) [000] d..3  11.%06d: %s" % (i, b) for i, b in enumerate(BODY[content])]
    lines = fill[:NFILL // 2] + body + fill[NFILL // 2:]
    if kind == "S":
        lines = ["<!-- BEGIN TRACE -->", '  <script class="trace-data" type="application/text">'] + lines + ["  </script>"]
    else:
        lines = ["version = 6", "cpus=4"] + lines
    return "".join(l + "\n" for l in lines)


TEXT = {(c, k): text(c, k) for c in BODY for k in SUFFIX}
CFGS = {
    "1": dict(events=["ev_one"]),
    "2": dict(events=["ev_two"]),
    "12": dict(events=["ev_one", "ev_two"]),
    "12w": dict(events=["ev_one", "ev_two"], window=(0, 1e-6), normalize_time=False),
    "1none": dict(events=["ev_one", "ev_none"], abs_window=(11, None)),
}
WANTS = {c: set(CFGS[c]["events"]) for c in CFGS}


def load(kind, cfg, path=None):
    cls = trappy.FTrace if kind == "F" else trappy.SysTrace
    return cls(path or SUFFIX[kind], scope="custom", **CFGS[cfg])


def rchar():
    with open("/proc/self/io") as f:
        for l in f:
            if l.startswith("rchar"):
                return int(l.split()[1])
    raise HarnessError("no rchar in /proc/self/io")


def measured(kind, cfg, path):
    """(observation, lines of trappy executed, characters read)"""
    count = [0]
    pkg = os.path.join(os.path.realpath(REPO), "trappy") + os.sep

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
        return local

    def glob(frame, event, arg):
        return local if os.path.realpath(frame.f_code.co_filename).startswith(pkg) else None
    start = rchar()
    sys.settrace(glob)
    try:
        tr = load(kind, cfg, path)
    finally:
        sys.settrace(None)
    read = rchar() - start
    return T.observe(tr), count[0], read


def parsed(m):
    return m[1] >= NFILL and m[2] > 1.5 * len(TEXT["A", "F"])


def in_dir(fn):
    def wrap(case):
        old = os.getcwd()
        root = os.path.join(old, "d")
        try:
            return fn(case, old, root)
        finally:
            os.chdir(old)
    return wrap


def expand_snap(snap):
    out = {}
    for k, v in snap.items():
        out[k] = TEXT[v[0], v[1]].encode() if isinstance(v, tuple) else v
    return out


BACK = {TEXT[k].encode(): k for k in TEXT}


def compact(snap):
    return {k: BACK.get(v, v) for k, v in snap.items()}


def canon(snap):
    return fs.canon_snapshot({k: v for k, v in snap.items()})


def plain(root, fn):
    end, val, _ = fs.run_child(lambda: bool(fn()), prefix=root)
    return end, val


def act(root, kind, op):
    """Execute one action on the real code; None when it is not possible here."""
    name = SUFFIX[kind]
    cdir = ".%s.cache" % name
    what = op[0]
    if what == "write":
        with open(name, "w") as f:
            f.write(TEXT[op[1], kind])
    elif what == "load":
        plain(root, lambda: load(kind, op[1]))
    elif what == "off":
        with T.cache(False):
            plain(root, lambda: load(kind, op[1]))
    elif what == "sibling":
        plain(root, lambda: load("F", op[1], op[2]))
    elif what == "kill":
        end, _, _ = fs.run_child(lambda: bool(load(kind, op[1])), fs.KILL, prefix=root, k=op[2], partial=op[3])
        if end != "killed":
            return None
    elif what == "fail":
        end, _, ops = fs.run_child(lambda: bool(load(kind, op[1])), fs.FAIL, prefix=os.path.join(root, cdir), k=op[2],
                                   err=op[3], persist=op[4])
        if len([o for o in ops]) <= op[2]:
            return None
    elif what == "both":
        # one load that starts while the other one is about to end
        def outer():
            orig = trappy.ftrace.GenericFTrace.finalize_objects

            def fin(self):
                trappy.ftrace.GenericFTrace.finalize_objects = orig
                load(kind, op[2])
                return orig(self)
            trappy.ftrace.GenericFTrace.finalize_objects = fin
            load(kind, op[1])
        plain(root, outer)
    elif what == "left":
        how = op[1]
        if how == "file":
            if os.path.exists(cdir):
                return None
            with open(cdir, "w") as f:
                f.write("x")
            os.unlink(cdir)
            os.mkdir(cdir)
            return True
        os.makedirs(cdir, exist_ok=True)
        meta = os.path.join(cdir, "metadata.json")
        if how == "other":
            with open(os.path.join(cdir, "notes"), "w") as f:
                f.write("x")
        elif how == "sub":
            os.makedirs(os.path.join(cdir, "sub", "deep"), exist_ok=True)
        elif how == "temp":
            with open(meta + ".0123456789abcdef0123456789abcdef.tmp", "w") as f:
                f.write('{"md5')
        elif how == "badmeta":
            with open(meta, "w") as f:
                f.write('{"md5sum": "')
        elif how == "oldmeta":
            with open(meta, "w") as f:
                f.write('{"md5sum": "0", "basetime": 1, "endtime": 2}')
        elif how == "nometa":
            if not os.path.exists(meta):
                return None
            os.unlink(meta)
        elif how in ("badcsv", "nocsv", "emptycsv"):
            csvs = sorted(f for f in os.listdir(cdir) if f.endswith(".csv"))
            if not csvs:
                return None
            p = os.path.join(cdir, csvs[0])
            if how == "badcsv":
                with open(p) as f:
                    s = f.read()
                with open(p, "w") as f:
                    f.write(s[:len(s) // 2])
            elif how == "emptycsv":
                open(p, "w").close()
            else:
                os.unlink(p)
    return True


@in_dir
def step(case, old, root):
    (kind, snap, hist), op = case
    res = Res()
    T.restore(root, expand_snap(snap))
    os.chdir(root)
    with T.cache(True):
        ok = act(root, kind, op)
    res.step()
    res.run()
    if ok is None:
        return res
    res.tag("op:" + op[0])
    after = compact(T.snapshot(root))
    if op[0] == "off":
        res.tag("disabled")
        if after != snap:
            res.fail("off-touches", "a load with the cache disabled changed %s"
                     % sorted(k for k in set(after) | set(snap) if after.get(k) != snap.get(k)))
    res.data = ([kind, canon(after)], (kind, after, hist + [list(op)]))
    return res


@in_dir
def judge(case, old, root):
    """Whatever was there: after one load it and narrower ones are served."""
    res = Res()
    kind, snap, hist = case["kind"], case["snap"], case["hist"]
    name = SUFFIX[kind]
    paths = [name, os.path.join(root, name), "./../d/" + name]
    how = "after %s, " % hist

    def run(cfg, path):
        with T.cache(True):
            end, val, _ = fs.run_child(lambda: measured(kind, cfg, path), prefix=root)
        if end != "ok":
            res.fail("load-fails", how + "load %s ended with %s" % (cfg, val))
            return None
        res.run()
        res.step()
        return val
    for i, first in enumerate(case["firsts"]):
        T.restore(root, expand_snap(snap))
        os.chdir(root)
        m0 = run(first, paths[i % 3])
        if m0 is None:
            return res
        res.tag("parsed" if parsed(m0) else "was-served")
        order = [first] + [c for c in case["cfgs"] if c != first and WANTS[c] <= WANTS[first]]
        for j, second in enumerate(order):
            m = run(second, paths[(i + j + 1) % 3])
            if m is None:
                return res
            if parsed(m):
                res.fail("not-served", how + "load %s (of %s): a following load %s parsed the trace again (%d lines of code, %d characters read)"
                         % (first, "abs" if i % 3 == 1 else "rel", second, m[1], m[2]))
                return res
            if second == first and m[0] != m0[0]:
                res.fail("differs", how + "two loads %s in a row differ" % first)
                return res
            res.tag("served" if second == first else "narrower")
            res.maxlines = max(getattr(res, "maxlines", 0), m[1])
            res.state(kind, first, second, m[1] >= NFILL, canon(compact(T.snapshot(root))))
    if kind == "S":
        res.tag("systrace")
    return res


def warm():
    """Lazy imports of pandas are not part of what is measured."""
    d = os.path.join(os.getcwd(), "warm")
    os.makedirs(d, exist_ok=True)
    for k in SUFFIX:
        with open(os.path.join(d, SUFFIX[k]), "w") as f:
            f.write(TEXT["A", k])
        with T.cache(True):
            for _ in range(2):
                load(k, "12", os.path.join(d, SUFFIX[k]))


def explore(ctx):
    quick = ctx.quick
    cfgs = ["1", "2", "12", "12w", "1none"]
    warm()
    lefts = ["other", "sub", "temp", "badmeta", "oldmeta", "nometa", "badcsv", "nocsv", "emptycsv", "file"]
    nk = 10

    def ops(node):
        kind, snap, hist = node
        d = len(hist)
        deep = d >= 2
        out = [("load", c) for c in (["1", "12w"] if deep else ["1", "2", "12w"])]
        out += [("write", c) for c in BODY]
        out += [("left", h) for h in lefts]
        out += [("sibling", "12", "trace.dat.txt"), ("sibling", "1", "trace"), ("off", "12")]
        kc = "12" if d == 0 else "2"
        kills = [("kill", kc, k, p) for k in range(nk) for p in ((-1,) if d or quick else (-1, 1, 40))]
        fails = [("fail", kc, k, e, p) for k in range(2 * nk) for e, p in ((errno.ENOSPC, 0), (errno.EACCES, 1))]
        out += kills + (fails if d < 1 or not quick else fails[:2 * nk:2])
        out += [("both", a, b) for a, b in ((("12", "12"), ("1", "2")) if d else (("12", "12"), ("1", "2"), ("12", "1"), ("1", "12")))]
        return out
    for kind in ("F", "S"):
        snap = {SUFFIX[kind]: ("A", kind), "trace": ("B", "F"), "trace.dat.txt": ("B", "F")}
        nodes = {}
        depth = (2 if quick else 3) if kind == "F" else (1 if quick else 2)
        root = (kind, snap, [])
        nodes[repr(canon(snap))] = root
        seen = {repr(canon(snap))}
        frontier = [root]
        for d in range(depth):
            work = [(n, op) for n in frontier for op in ops(n)]
            nxt = []
            for case, res in ctx.pmap(step, work):
                ctx.absorb({"node": strip(case[0]), "op": list(case[1])}, res)
                if res.data is None:
                    continue
                c, node = res.data
                if repr(c[1]) not in seen:
                    seen.add(repr(c[1]))
                    nxt.append(node)
            if ctx.violations:
                return
            frontier = nxt
            for n in nxt:
                nodes[repr(canon(n[1]))] = n
            ctx.notes["directories_%s_depth%d" % (kind, d + 1)] = len(nxt)
        work = [{"kind": k, "snap": s, "hist": h, "firsts": cfgs if len(h) < 2 else (["12w", "2"] if quick else ["12w", "2", "1none"]),
                 "cfgs": cfgs} for k, s, h in nodes.values()]
        for i, (case, res) in enumerate(ctx.pmap(judge, work)):
            ctx.absorb(dict(case, snap=strip((kind, case["snap"], []))[1]), res)
            if i in (0, len(work) // 2):
                ctx.sample({"kind": kind, "history": case["hist"]})
        if ctx.violations:
            return


def strip(node):
    kind, snap, hist = node
    return [kind, {k: list(v) if isinstance(v, tuple) else v.decode("latin1") if v is not None else None
                   for k, v in snap.items()}, hist]


def unstrip(snap):
    return {k: tuple(v) if isinstance(v, list) else v.encode("latin1") if v is not None else None for k, v in snap.items()}


def replay(case):
    warm()
    if "node" in case:
        n = case["node"]
        return step(((n[0], unstrip(n[1]), n[2]), tuple(case["op"])))
    return judge(dict(case, snap=unstrip(case["snap"])))
