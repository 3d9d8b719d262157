"""C30: plotters take the data they are told to, and refuse what is no data.

signals    every text over parts of signals (events, columns, colors, too many
           and missing parts) given to all plotters, with all traces
inputs     every combination of kinds of data, column, templates and signals
arguments  every history of (un)registering arguments that are forwarded
traces     plot_trace of every kind of trace and filter
"""
import itertools
import os
import re

import matplotlib
import matplotlib.pyplot as plt
import pandas as pd
import trappy
from IPython.core.interactiveshell import InteractiveShell
from IPython.utils.capture import capture_output
from mc import traces as T
from mc.core import Res
from trappy import plotter
from checks import c25, c26, c27

PROPERTY = "C30"
LEVEL = "model_checking"
ASSUMPTIONS = ["all traces of a plot have the events of its signals", "colors have three numbers from 0 to 255"]
MUST_SEE = ("signal", "two-signals", "unknown-event", "malformed", "color", "hex-color", "both", "no-column", "no-template", "empty", "frames", "templates", "mixed", "one-of-two", "forwarded", "not-forwarded",
            "twice", "plot-trace", "path", "html", "bare", "no-header", "filtered")
BOUNDS = ("all signals of 4 events x 5 columns x 8 colors x 5 shapes, alone and all pairs of 12, x 3 plotters; all 8 kinds of data x column x templates x signals x 3 plotters; all histories "
          "of up to 4 (thorough 5) registrations of 2 arguments; plot_trace of 5 kinds of traces x 9 filters x all pairs of switches")

PLOTTERS = {"line": trappy.LinePlot, "bar": trappy.BarPlot, "iline": trappy.ILinePlot}
EVENTS = {"ev": ["va", "v b", "v.c-d,e"], "ev_long": ["va", "vc"]}


def value(t, event, col, i):
    return 100.0 * t + 10 * (event == "ev_long") + 3 * EVENTS[event].index(col) + i


def traces(n):
    out = []
    for t in range(n):
        tr = trappy.BareTrace(name="run%d" % t)
        for ev, cols in EVENTS.items():
            tr.add_parsed_event(ev, pd.DataFrame({c: [value(t, ev, c, i) for i in range(2)] for c in cols}, index=[1.0, 2.5]))
        out.append(tr)
    return out


def draw(kind, args, kw):
    """[(title, [values of a series])] and the colors in order of the labels."""
    plt.close("all")
    plot = PLOTTERS[kind](*args, **kw)
    if kind == "iline":
        InteractiveShell.instance()
        with capture_output() as c:
            plot.view(test=True)
        html = [o.data["text/html"] for o in c.outputs if "text/html" in o.data][0]
        cells, data, gen = c25.parse(html)
        out = []
        for _, d in data:
            rows = d["data"]["data"]
            out.append((d["title"], [[r[k + 1] for r in rows] for k in range(len(d["data"]["labels"]) - 1)]))
        colors = gen[0][1]
        if colors:
            colors = [tuple(int(x) for x in re.findall(r"\d+", c)) for c in colors]
        return out, colors
    plot.view(test=True)
    out, colors = [], []
    for ax in plt.gcf().axes:
        if kind == "line":
            out.append((ax.get_title(), [list(map(float, l.get_ydata())) for l in ax.lines]))
            colors = [tuple(int(round(255 * x)) for x in matplotlib.colors.to_rgb(l.get_color())) for l in ax.lines]
        else:
            series = [[float(p.get_height()) for p in c] for c in ax.containers]
            out.append((ax.get_title(), series))
            colors = [tuple(int(round(255 * x)) for x in c[0].get_facecolor()[:3]) for c in ax.containers]
    return out, colors


def model(sig):
    """(event, column, color) or None if it has to be refused."""
    parts = sig.split(":")
    if len(parts) < 2 or not parts[0] or not parts[1]:
        return None
    if parts[0] not in EVENTS:
        return None
    color = None
    if len(parts) > 2:
        try:
            color = tuple(int(c, 0) for c in ":".join(parts[2:]).split(","))
        except ValueError:
            return None
        if len(color) != 3:
            return None
    return parts[0], parts[1], color


def signals(res, case):
    trs = traces(case["n"])
    for sigs in case["sigs"]:
        want = [model(s) for s in sigs]
        what = "%s of signals %r" % (case["kind"], sigs)
        arg = sigs[0] if len(sigs) == 1 and case["n"] == 1 else list(sigs)
        res.run()
        res.step(len(sigs))
        known = all(w is not None and w[1] in EVENTS[w[0]] for w in want)
        try:
            got, colors = draw(case["kind"], [trs if case["n"] > 1 else trs[0]], {"signals": arg, **({"permute": True} if case["n"] > 1 else {})})
        except ValueError as e:
            if known:
                res.fail("refused", "%s: %s" % (what, e))
                return
            res.tag("malformed" if any(w is None and s.split(":")[0] in EVENTS for s, w in zip(sigs, want)) else "unknown-event")
            bad = [s for s, w in zip(sigs, want) if w is None and s.count(":") < 2]
            if bad and bad[0].split(":")[0] not in str(e):
                res.fail("message", "%s: the error %r does not say what is wrong" % (what, str(e)))
                return
            continue
        except RuntimeError as e:
            if known or None in want:
                res.fail("refused", "%s: %s" % (what, e))
                return
            res.tag("no-column")   # nothing to plot
            continue
        if not known:
            if None in want:
                res.fail("accepted", what + ": was accepted")
                return
            continue
        series = [[[value(t, e, c, i) for i in range(2)] for e, c, _ in want] for t in range(case["n"])]
        if [g[1] for g in got] != series:
            res.fail("data", "%s: drew %r, expected %r" % (what, got, series))
            return
        for i, (_, _, c) in enumerate(want):
            if c is not None and (not colors or tuple(colors[i]) != c):
                res.fail("color", "%s: colors %r, expected %r for %d" % (what, colors, c, i))
                return
        res.state(sigs)
        res.tag("signal", *(["two-signals"] if len(sigs) > 1 else []) + (["color"] if any(w[2] for w in want) else []) + (["hex-color"] if any("0x" in s for s in sigs) else []))


def inputs(res, case):
    kind, data, column, templates, sig = case["kind"], case["data"], case["column"], case["templates"], case["signals"]
    trs = traces(2)
    frames = [t.ev.data_frame for t in trs]
    arg = {"trace": trs[0], "traces": trs, "frame": frames[0], "frames": frames, "none": [], "text": "trace.txt", "mixed": [trs[0], frames[1]], "mixed2": [frames[0], trs[1]]}[data]
    kw = {}
    if column:
        kw["column"] = "va"
    if sig:
        kw["signals"] = "ev:va"
    args = [arg]
    if templates:
        args.append(trs[0].class_definitions["ev"])
        for t in trs:
            t.class_definitions["ev"] = args[1]
    what = "%s of %s with %s" % (kind, data, [k for k in ("column", "templates", "signals") if case[k]])
    fr = data in ("frame", "frames")
    if sig and (column or templates):
        ok = False
        res.tag("both")
    elif data in ("none", "text"):
        ok = False
        res.tag("empty")
    elif data.startswith("mixed"):
        # a frame has no events, a trace needs them
        if sig or templates:
            return
        ok = False
        res.tag("mixed")
    elif fr:
        ok = column and not templates and not sig
        if templates or sig:
            return
        res.tag("frames", *([] if ok else ["no-column"]))
    else:
        ok = sig or (templates and column)
        if templates and not column:
            # a plot without a column is refused in another way
            ok = False
        res.tag("templates" if templates else "no-template")
    res.run()
    res.step()
    try:
        got, _ = draw(kind, args, kw)
    except (ValueError, RuntimeError) as e:
        if ok:
            res.fail("refused", "%s: %s" % (what, e))
        elif not isinstance(e, ValueError) and not (templates and not column):
            res.fail("error", "%s: refused with %r, expected a ValueError" % (what, e))
        return
    except (AttributeError, TypeError):
        if data == "text":
            return   # no data at all
        raise
    if not ok:
        res.fail("accepted", what + " was accepted")
        return
    n = 2 if data in ("traces", "frames") else 1
    want = [[[value(t, "ev", "va", i) for i in range(2)] for t in range(n)]]
    if [g[1] for g in got] != want:
        res.fail("data", "%s: drew %r, expected %r" % (what, got, want))
        return
    res.state(kind, data, column, templates, sig)


def own(res, case):
    """Each trace has events of its own; signal i is drawn from trace i."""
    trs, want = [], []
    for n, names in enumerate(case["events"]):
        tr = trappy.BareTrace(name="run%d" % n)
        for k, ev in enumerate(names):
            tr.add_parsed_event(ev, pd.DataFrame({"x": [100.0 * n + 10 * k, 1.0]}, index=[1.0, 2.0]))
        trs.append(tr)
        want.append([100.0 * n + 10 * (len(names) - 1), 1.0])
    sigs = ["%s:x" % names[-1] for names in case["events"]]
    got, _ = draw(case["kind"], [trs], {"signals": sigs})
    res.run()
    res.tag("one-of-two")
    if [g[1] for g in got] != [want]:
        res.fail("own", "%s of %r in traces with %r: drew %r, expected %r" % (case["kind"], sigs, case["events"], got, want))
    res.state(case["events"])


ARGS = {"alpha": (0.25, lambda l: l.get_alpha()), "zorder": (7.5, lambda l: l.get_zorder())}
DEFAULT = {"linestyle": ("--", lambda l: l.get_linestyle()), "linewidth": (3.5, lambda l: l.get_linewidth()), "marker": ("s", lambda l: l.get_marker()),
           "markersize": (9.0, lambda l: l.get_markersize()), "drawstyle": ("steps-post", lambda l: l.get_drawstyle()), "markevery": (2, lambda l: l.get_markevery())}


def forwarded(kw):
    plt.close("all")
    plot = trappy.LinePlot(pd.DataFrame({"a": [1.0, 2.0]}, index=[1.0, 2.0]), column="a", **{k: ARGS.get(k, DEFAULT.get(k))[0] for k in kw})
    plot.view(test=True)
    line = plt.gcf().axes[0].lines[0]
    return {k: ARGS.get(k, DEFAULT.get(k))[1](line) == ARGS.get(k, DEFAULT.get(k))[0] for k in kw}


def arguments(res, case):
    try:
        on = set()
        for i, (op, name) in enumerate(case["ops"]):
            if op == "+":
                if name in on:
                    res.tag("twice")
                plotter.register_forwarding_arg(name)
                on.add(name)
            else:
                plotter.unregister_forwarding_arg(name)
                on.discard(name)
            if i + 1 < len(case["ops"]):
                continue
            names = list(ARGS) + (list(DEFAULT) if case["all"] else ["linestyle"])
            got = forwarded(names)
            want = {k: k in on or k in DEFAULT for k in names}
            res.run()
            res.step(i + 1)
            if got != want:
                res.fail("forwarded", "after %r, forwarded %r, expected %r" % (case["ops"][:i + 1], got, want))
                return
            res.state(sorted(on))
            res.tag("forwarded" if on else "not-forwarded")
    finally:
        for name in ARGS:
            for _ in range(6):
                plotter.unregister_forwarding_arg(name)


def resources():
    """Scripts that would be fetched from the network are there already."""
    conf = plotter.IPythonConf
    path = os.path.join(conf.get_scripts_path(), "EventPlot")
    if not os.path.isdir(path):
        os.makedirs(path)
        for r in conf.IPLOT_RESOURCES["EventPlot"]:
            T.write(os.path.join(path, os.path.basename(r)), "")


def plot_trace(res, case):
    for seq in case["seqs"]:
        rows = c26.history(seq, False)
        kind = case["kind"]
        lines = [T.line("%.6f" % t, "sched_switch", "prev_comm=p prev_pid=%d prev_prio=120 prev_state=0 next_comm=%s next_pid=%d next_prio=120" % (prev, comm, pid), pid=prev, cpu=cpu)
                 for t, cpu, prev, pid, comm in rows]
        cpus = 4
        top = 1 + max(r[1] for r in rows)
        off = 0.0
        if kind == "bare":
            arg, cpus = c26.tables(rows, False), top
            res.tag("bare")
        elif kind == "html":
            T.write("t.html", "<html>\n<!-- BEGIN TRACE -->\n  <script class=\"trace-data\" type=\"application/text\">\n# tracer: nop\n#\n" + "\n".join(lines) + "\n  </script>\n<!-- END TRACE -->\n</html>\n")
            arg, cpus = "t.html", top
            off = rows[0][0]
            res.tag("html")
        else:
            T.write("t.txt", T.text(lines, header="version = 6\n" if kind == "no-header" else T.HEADER))
            arg = "t.txt"
            off = rows[0][0]
            if kind == "object":
                with T.cache(False):
                    arg = trappy.FTrace("t.txt", normalize_time=False)
                off = 0.0
            elif kind == "no-header":
                cpus = top
                res.tag("no-header")
            else:
                res.tag("path")
        for ex, pids in c26.FILTERS:
            want, procs, _ = c26.model(rows, ex, pids)
            what = "plot_trace of %s with switches %r, names %r, pids %r" % (kind, rows, ex, pids)
            InteractiveShell.instance()
            resources()
            with T.cache(False), capture_output() as c:
                plotter.plot_trace(arg, ex, pids)
            html = [o.data["text/html"] for o in c.outputs if "text/html" in o.data]
            res.run()
            res.step(len(rows))
            if len(html) != 1:
                res.fail("page", what + ": %d pages" % len(html))
                return
            _, d = c27.parse(html[0])
            got = {k: sorted([a, b, int(l)] for l, v in lanes.items() for a, b in v) for k, lanes in d["data"].items()}
            exp = {k: sorted([a - off, b - off, cpu] for a, b, cpu in v) for k, v in want.items()}
            norm = lambda x: {k: [[round(a, 6), round(b, 6), l] for a, b, l in v] for k, v in x.items() if v}
            if norm(got) != norm(exp):
                res.fail("trace", "%s: data %r, expected %r" % (what, got, exp))
                return
            if [l["label"] for l in d["lanes"]] != ["CPU :%d" % i for i in range(cpus)]:
                res.fail("lanes", "%s: lanes %r, expected %d" % (what, d["lanes"], cpus))
                return
            live = {k for k, v in exp.items() if sum(b - a for a, b, _ in v)}
            if set(d["keys"]) != live or [round(x, 6) for x in d["xDomain"]] != [round(rows[0][0] - off, 6), round(rows[-1][0] - off, 6)]:
                res.fail("keys", "%s: keys %r and domain %r, expected %r" % (what, d["keys"], d["xDomain"], live))
                return
            res.state(exp, kind)
            res.tag("plot-trace", *(["filtered"] if ex or pids else []))


def run_case(case):
    res = Res()
    try:
        {"signals": signals, "inputs": inputs, "own": own, "arguments": arguments, "trace": plot_trace}[case["what"]](res, case)
    finally:
        plt.close("all")
    return res


def explore(ctx):
    cases = []
    evs, cols, colors = ["ev", "ev_long", "nope", ""], ["va", "v b", "vc", "v.c-d,e", ""], ["", ":10,20,30", ":0xff,0,0x10", ":0,0,0", ":255,255,254", ":1,2,3,4", ":1,,2", ":red"]
    sigs = ["%s:%s%s" % s for s in itertools.product(evs, cols, colors)] + ["ev", "", "va", ":", "::", "ev:", ":va", "nope", "ev_long", ":10,20,30"]
    good = [s for s in sigs if model(s) and model(s)[1] in EVENTS[model(s)[0]]]
    few = good[::3] + ["nope:va", "ev", "ev:"]
    # figures of ILinePlot are told apart by the names of their series
    pairs = [list(p) for p in itertools.product(few, repeat=2) if p[0].split(":")[:2] != p[1].split(":")[:2]]
    if ctx.quick:
        pairs = pairs[::2]
    for kind in PLOTTERS:
        lists = [[s] for s in sigs] + pairs
        for i in range(0, len(lists), 8):
            cases.append({"what": "signals", "kind": kind, "sigs": lists[i:i + 8], "n": 1})
        for i in range(0, len(good), 8):
            cases.append({"what": "signals", "kind": kind, "sigs": [[s] for s in good[i:i + 8]] + pairs[i:i + 2], "n": 2})
        for names in itertools.product([["ea"], ["eb"], ["ea", "eb"], ["ed", "ec"]], [["ef"], ["eg", "eh"], ["eh", "eg"]], [[], ["ei"]]):
            cases.append({"what": "own", "kind": kind, "events": [e for e in names if e]})
        for data, column, templates, sig in itertools.product(["trace", "traces", "frame", "frames", "none", "text", "mixed", "mixed2"], *[[False, True]] * 3):
            cases.append({"what": "inputs", "kind": kind, "data": data, "column": column, "templates": templates, "signals": sig})
    for n in range(5 if ctx.quick else 6):
        for ops in itertools.product([(o, a) for o in "+-" for a in ARGS], repeat=n):
            cases.append({"what": "arguments", "ops": list(ops), "all": n < 3})
    alpha = list(itertools.product([1, 2], [(1, "a"), (1, "b"), (2, "a"), (0, "swapper")]))
    seqs = [list(s) for n in (1, 2) for s in itertools.product(alpha, repeat=n)]
    for kind in ("bare", "html", "text", "object", "no-header"):
        for i in range(0, len(seqs), 4):
            cases.append({"what": "trace", "kind": kind, "seqs": seqs[i:i + 4]})
    ctx.run_cases(run_case, cases, describe=lambda c: {k: (v[:3] if isinstance(v, list) else v) for k, v in c.items()})
