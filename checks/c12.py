"""C12: SysTrace parses exactly the trace section of the page, and decodes its
userspace markers.

documents  every page up to N lines over an alphabet of structural lines and
           look-alikes, parsed by the real code and by the three-state model
           of the page (before the marker, before the script, in the script)
markers    every marker over an alphabet of events, pids, functions and data
cpus       every placement of sched_switch lines on cpus
"""
import itertools

import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = ["lines end in a newline; a marker text does not start with 'word: '"]
MUST_SEE = ("document", "no-section", "stopped", "lookalike-before", "lookalike-after", "legacy", "marker", "free-text", "cpus", "arguments")
BOUNDS = ("all pages of up to 5 (thorough 6) lines over 8 kinds of line, bare and inside a realistic page; all markers of 8 events x "
          "4 pids x 6 functions x 6 data, and 14 free texts, alone and in pairs; all sched_switch placements over 4 cpus up to 3 lines; all combinations of arguments, by name and by position")

KINDS = {
    "B": "<!-- BEGIN TRACE -->", "T": "<title>Android System Trace</title>",
    "S": '  <script class="trace-data" type="application/text">', "V": '  var linuxPerfData = "\\',
    "X": "  </script>", "#": "# tracer: nop", "J": "</div>",
    "E": "%16s-%-5d (  512) [00%d] d..3  10.%06d: my_ev: a=%d",
    "Y": "%16s-%-5d (  512) [00%d] d..3  10.%06d: my_ev: a=%d s=</script> t=1",
    "Z": " </script> # not at the end",
}


def model(kinds):
    """Indices of the lines that are parsed, and the index of the first."""
    state, out, start, stopped = 0, [], None, False
    for i, k in enumerate(kinds):
        if state == 0:
            if k in "BT":
                state = 1
            continue
        if state == 1:
            if k in "SV":
                state = 2
            continue
        if state == 2:
            if k not in "EY":
                continue
            state = 3
            start = i
        if k == "X":
            stopped = True
            break
        if k in "EY":
            out.append(i)
    return out, start, stopped


def page(kinds):
    ls = []
    for i, k in enumerate(kinds):
        t = KINDS[k]
        ls.append(t % ("app", 7, i % 4, i, i) if "%" in t else t)
    return "".join(l + "\n" for l in ls)


def load(text, **kw):
    T.write("t.html", text)
    with T.cache(False):
        return trappy.SysTrace("t.html", normalize_time=False, **kw)


def documents(case):
    res = Res()
    res.tag("document")
    for kinds in case["seqs"]:
        full = case["pre"] + "".join(kinds) + case["post"]
        want, start, stopped = model(full)
        tr = load(page(full), scope="custom", events=["my_ev"])
        res.run()
        res.step(len(full))
        got = [(r["a"], r["__line"], r["__pid"], r["__cpu"]) for _, r in T.rows(tr.my_ev.data_frame)]
        exp = [(i, i - start, 7, i % 4) for i in want]
        if got != exp:
            res.fail("section", "page %r: parsed lines %r, expected %r (a, line, pid, cpu)" % (full, got, exp))
            return res
        if start is None and "E" in full:
            res.tag("no-section")
        if stopped:
            res.tag("stopped")
            if "E" in full[want[-1] + 1:]:
                res.tag("lookalike-after")
        if start and "E" in full[:start]:
            res.tag("lookalike-before")
        if start and ("T" in full[:start] and "V" in full[:start]):
            res.tag("legacy")
        base = 10 + want[0] * 1e-6 if want else 0
        if abs(tr.basetime - base) > 1e-9:
            res.fail("basetime", "page %r: basetime %r, first event of the section at %r" % (full, tr.basetime, base))
        res.state(full if len(full) < 4 else "", tuple(want), start)
    return res


EVT = ["B", "E", "C", "S", "F", "I", "G", "N"]
PID = [None, "12", "0", "99999"]
FUNC = ["draw", "", "a b  c", "performTraversals#1", "x={1 2}", "k={} v"]
DATA = [None, "0", "-7", "two words", "p|q", "M<>"]
FREE = ["hello world", "Hello world", "TRACE_MARKER_START", "b|1|f", "BB|1|f", "B-side", "1|2|3", "|B|1", "x={1 2} y={}", "nan",
        "E flat", "calling function f", "ABC", "A1", "load </script> tag", "</script> B|1|f", "<!-- END TRACE -->",
        "<!-- BEGIN TRACE --> again", "# tracer: nop", "a=1 </script>.", "B|x|f", "E|-3", "C| 5|f", "S||f|d", "B|7 |f"]


def markers_all():
    out = []
    for e in EVT:
        out.append((e, {"event": e}))
        for p in PID[1:]:
            out.append(("%s|%s" % (e, p), {"event": e, "pid": int(p)}))
        for p, f, d in itertools.product(PID[1:], FUNC, DATA):
            t = "%s|%s|%s" % (e, p, f) + ("" if d is None else "|" + d)
            out.append((t, dict([("event", e), ("pid", int(p)), ("func", f)] + ([] if d is None else [("data", d)]))))
    for t in FREE:
        out.append((t, {"string": t}))
    return out


WRAP = ("<html>\n<!-- BEGIN TRACE -->\n  <script class=\"trace-data\" type=\"application/text\">\n# tracer: nop\n#\n%s"
        "  </script>\n<!-- END TRACE -->\n</html>\n")


def marker_page(texts):
    return WRAP % "".join("%16s-%-5d (  512) [001] ...1  10.%06d: tracing_mark_write: %s\n" % ("app", 7, i, t)
                          for i, t in enumerate(texts))


def check_markers(res, picks):
    tr = load(marker_page([p[0] for p in picks]), scope="custom", events=["tracing_mark_write"])
    res.run()
    got = [{k: v for k, v in r.items() if not k.startswith("__")} for _, r in T.rows(tr.tracing_mark_write.data_frame)]
    want = [p[1] for p in picks]
    for p, g, w in itertools.zip_longest(picks, got, want):
        res.step()
        if g != w:
            return res.fail("marker", "marker %r decoded as %r, expected %r" % (p and p[0], g, w))
        if "string" in w:
            res.tag("free-text")
        res.state("marker", sorted(w.items()))


def markers(case):
    res = Res()
    res.tag("marker")
    allm = markers_all()
    for seq in case["seqs"]:
        check_markers(res, [allm[i] for i in seq])
    return res


def cpus(case):
    res = Res()
    res.tag("cpus")
    for seq in case["seqs"]:
        body = "".join("%16s-%-5d (  512) [%03d] d..3  10.%06d: %s\n" % (
            "app", 7, c, i, "sched_switch: prev_comm=a prev_pid=1 prev_prio=1 prev_state=S ==> next_comm=b next_pid=2 next_prio=3"
            if sw else "my_ev: a=1") for i, (c, sw) in enumerate(seq))
        want = [c for c, sw in seq if sw]
        for kw in (dict(), dict(scope="sched"), dict(scope="custom", events=["my_ev"])):
            tr = load(WRAP % body, **kw)
            res.run()
            res.step()
            got = getattr(tr, "_cpus", None)
            exp = 1 + max(want) if want and not kw.get("events") else None
            if got != exp:
                res.fail("cpus", "cpus of a trace with (cpu, is sched_switch) %r loaded with %r is %r, expected %r" % (seq, kw, got, exp))
        res.state("cpus", seq)
    return res


ARGS = {"normalize_time": (True, False), "scope": ("all", "sched", "custom"), "events": (["my_ev"], "my_ev"),
        "window": ((0, None), (0.5, None), (0, 1), (1, 1.5)), "abs_window": ((0, None), (0.75, None), (0, 1.5), (1.25, 1.25)),
        "name": ("page",)}
ORDER = ("name", "normalize_time", "scope", "events", "window", "abs_window")


def arguments(case):
    """A page is loaded with the arguments of FTrace, and gives what FTrace gives for its trace section"""
    res = Res()
    body = "".join("%16s-%-5d (  512) [00%d] d..3  %s: %s\n" % ("app", 7, i % 4, t, e) for i, (t, e) in enumerate((
        ("0.25", "other_ev: b=1"), ("0.75", "my_ev: a=1"), ("1.25", "sched_switch: prev_comm=a prev_pid=1 prev_prio=1 prev_state=S "
         "==> next_comm=b next_pid=2 next_prio=3"), ("1.25", "my_ev: a=2"), ("1.5", "my_ev: a=3"), ("2.25", "other_ev: b=2"))))
    T.write("t.html", WRAP % body)
    T.write("s.txt", body)
    for kw in case["kws"]:
        obs = []
        for cls, f in ((trappy.SysTrace, "t.html"), (trappy.FTrace, "s.txt")):
            with T.cache(False):
                if case["positional"]:
                    args = []
                    for k in ORDER:
                        if k not in kw:
                            break
                        args.append(kw[k])
                    tr = cls(f, *args, **{k: v for k, v in kw.items() if k not in ORDER[:len(args)]})
                else:
                    tr = cls(path=f, **kw)
            o = T.observe(tr)
            o["name"] = tr.name
            for k in ("cpus", "version"):
                del o[k]
            obs.append(o)
        res.run()
        res.step()
        d = T.diff(obs[0], obs[1])
        if d:
            res.fail("arguments", "SysTrace with the arguments %r differs from FTrace of its trace section: %s" % (kw, d))
            return res
        res.tag("arguments")
        res.state("arguments", obs[0])
    return res


def run_case(case):
    return {"documents": documents, "markers": markers, "cpus": cpus, "arguments": arguments}[case["kind"]](case)


def explore(ctx):
    cases = []
    alpha = sorted(KINDS)
    top = 5 if ctx.quick else 6
    seqs = ["".join(s) for n in range(0, top + 1) for s in itertools.product("BTSVXE#J" if n < 4 else "BSVXE" if n < 5 else "BSXE", repeat=n)]
    for i in range(0, len(seqs), 80):
        cases.append({"kind": "documents", "seqs": seqs[i:i + 80], "pre": "", "post": ""})
    inner = ["".join(s) for n in range(0, 4 if ctx.quick else 5) for s in itertools.product("BSXE#J" if n > 3 else "BSXE#JYZ", repeat=n)]
    for pre, post in (("JEBSJXS##", "XJEBSEX"), ("ETJV#", "EXE")):
        for i in range(0, len(inner), 80):
            cases.append({"kind": "documents", "seqs": inner[i:i + 80], "pre": pre, "post": post})
    n = len(markers_all())
    cases.append({"kind": "markers", "seqs": [list(range(n))]})
    for i in range(0, n, 60):
        cases.append({"kind": "markers", "seqs": [[j] for j in range(i, min(n, i + 60), 1 if not ctx.quick else 3)]})
    rep = list(range(0, n, 61)) + list(range(n - len(FREE), n))
    pairs = [list(p) for p in itertools.product(rep, repeat=2)]
    for i in range(0, len(pairs), 60):
        cases.append({"kind": "markers", "seqs": pairs[i:i + 60]})
    pl = list(itertools.product((0, 1, 3, 7), (True, False)))
    cs = [s for k in range(1, 4 if not ctx.quick else 3) for s in itertools.product(pl, repeat=k)]
    for i in range(0, len(cs), 20):
        cases.append({"kind": "cpus", "seqs": cs[i:i + 20]})
    kws = [{k: v for k, v in zip(ORDER, vs) if v is not None} for vs in itertools.product(*[(None,) + ARGS[k] for k in ORDER])]
    for i in range(0, len(kws), 60):
        for positional in (False, True):
            cases.append({"kind": "arguments", "kws": kws[i:i + 60], "positional": positional})
    ctx.run_cases(run_case, cases, describe=lambda c: dict(c, seqs=c["seqs"][:3]) if "seqs" in c else dict(c, kws=c["kws"][:3]))
