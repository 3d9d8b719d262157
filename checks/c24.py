"""C24: LinePlot and BarPlot draw every series once, in the right place.

Every placement of pivot values on up to three traces is plotted with the real
LinePlot and BarPlot for all shapes of traces and columns, zipped, permuted
and concatenated, for different numbers of plots per line.  The axes, lines,
bars and legends of the figure are compared with the rows of the tables.
"""
import itertools
import os

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import trappy
from mc.core import Res

PROPERTY = "C24"
LEVEL = "model_checking"
ASSUMPTIONS = ["traces have different names", "each series has data at different times or is plotted as it is"]
MUST_SEE = ("line", "bar", "stacked", "concat", "permute", "zip", "missing-pivot", "unused-cells", "several-rows", "one-plot", "no-pivot", "frames", "traces",
            "no-data", "colors", "some-colors", "limits", "labels", "scatter", "fill", "again", "different-lengths", "columns", "forwarded", "saved", "grid", "missing-value", "negative", "numbered")
BOUNDS = ("all pairs of series of up to 2 values, and triples of 1 to 3 values, out of 4 (one missing), as lines and bars; up to 13 plots in up to 6 columns; all placements of 3 pivot values on one or two traces and of 2 on three, 8 shapes of traces x columns, zipped, permuted and concatenated, 1 to 3 plots "
          "per line (thorough: 4 pivot values, 1 to 4 per line, frames and traces); options on a subset; all histories of up to 3 (thorough 4) registrations of forwarded arguments")

SHAPES = {1: [(1, 1), (1, 2), (1, 3)], 2: [(2, 1), (2, 2)], 3: [(3, 1)]}
RGB = [[10, 20, 30], [0, 200, 100], [255, 5, 128], [77, 77, 255]]


def table(t, present, nc):
    """Rows of one trace: pivot values of `present`, the later ones twice."""
    rows = []
    for n in range(2):
        for p in present:
            if n == 0 or p >= 1:
                rows.append((p, [float((t + 1) * 1000 + 100 * c + 10 * p + n) for c in range(nc)]))
    return [(1.0 + i + 0.5 * t, p, vals) for i, (p, vals) in enumerate(rows)]


def build(case):
    nc = case["nc"]
    tables = [table(t, p, nc) for t, p in enumerate(case["present"])]
    cols = [c * 5 % 3 if case.get("numbered") else "col%d" % (c * 5 % 3) for c in range(nc)]
    srcs = []
    for t, rows in enumerate(tables):
        df = pd.DataFrame([[p] + v for _, p, v in rows], columns=["k"] + cols, index=[r[0] for r in rows])
        if case["kind"] == "traces":
            tr = trappy.BareTrace(name="run%d" % (9 - t))
            tr.add_parsed_event("ev", df, pivot="k")
            srcs.append(tr)
        else:
            srcs.append(df)
    return tables, cols, srcs


def model(case, tables, cols):
    """([(title, [(series number, xs, ys)])], [labels])"""
    nt, nc, mode, pivot = len(tables), case["nc"], case["mode"], case["pivot"]
    frames = case["kind"] == "frames"
    lab = case["opts"].get("map_label", {})
    data = ["DataFrame %d" % t if frames else "run%d" % (9 - t) for t in range(nt)]
    sig = [str(c) if frames else "ev:%s" % c for c in cols]
    if case["permute"]:
        cons = [(t, c) for t in range(nt) for c in range(nc)]
    else:
        m = max(nt, nc)
        cons = [(i if nt > 1 else 0, i if nc > 1 else 0) for i in range(m)]

    def series(t, c, p):
        sel = [(x, v[c]) for x, k, v in tables[t] if pivot is None or k == p]
        return [x for x, _ in sel], [y for _, y in sel]

    pivots = sorted(set(k for t, _ in cons for _, k, _ in tables[t])) if pivot else ([None] if any(tables[t] for t, _ in cons) else [])
    ptitle = lambda p: "k: %s" % lab.get(p, p)
    axes = []
    if mode == "concat":
        for t, c in cons:
            lines = [(j, series(t, c, p)) for j, p in enumerate(pivots)]
            axes.append((data[t] + ":" + sig[c], lines))
        labels = [ptitle(p) if pivot else ",".join(map(str, cols)) for p in pivots]
    elif mode == "permute":
        for t in range(nt):
            for p in pivots:
                axes.append((data[t], [(c, series(t, c, p)) for c in range(nc)]))
        labels = list(sig)
    else:
        for p in pivots:
            axes.append((ptitle(p) if pivot else "", [(i, series(t, c, p)) for i, (t, c) in enumerate(cons)]))
        labels = [data[t] + ":" + sig[c] for t, c in cons]
    axes = [(title, [(i, xs, ys) for i, (xs, ys) in lines if xs]) for title, lines in axes]
    used = sorted(set(i for _, ls in axes for i, _, _ in ls))
    return axes, labels, used


def rgba(c):
    return tuple(round(float(x), 6) for x in matplotlib.colors.to_rgba(c))


def lines_of(ax):
    return [(list(map(float, l.get_xdata())), list(map(float, l.get_ydata())), rgba(l.get_color())) for l in ax.lines]


def check(res, case):
    opts = dict(case["opts"])
    tables, cols, srcs = build(case)
    want, labels, used = model(case, tables, cols)
    kw = {"per_line": case["per_line"]}
    if case["pivot"]:
        kw["pivot"] = case["pivot"]
    if case["mode"] == "concat":
        kw["concat"] = True
    if case["permute"]:
        kw["permute"] = True
    colors = opts.pop("colors", None)
    if case["kind"] == "traces" and case.get("numbered"):
        kw["column"] = cols
        kw["templates"] = srcs[0].class_definitions["ev"]
    elif case["kind"] == "traces":
        kw["signals"] = ["ev:%s%s" % (c, ":%d,%d,0x%x" % tuple(RGB[i]) if colors == "signals" or (colors == "some" and i == 1) else "") for i, c in enumerate(cols)]
        if len(kw["signals"]) == 1 and case["per_line"] == 1:
            kw["signals"] = kw["signals"][0]
    else:
        kw["column"] = cols if len(cols) > 1 or case["per_line"] == 1 else cols[0]
        if colors == "list":
            kw["colors"] = RGB
    cls = {"line": trappy.LinePlot, "bar": trappy.BarPlot}[case["plot"]]
    again = opts.pop("again", False)
    kw.update(opts)
    arg = srcs if len(srcs) > 1 or case["per_line"] == 2 else srcs[0]
    what = "%s of %r, %d columns, %s%s, pivot %r, %d per line, options %r" % (
        case["plot"], case["present"], case["nc"], case["mode"], " of " + case["kind"], case["pivot"], case["per_line"], case["opts"])
    if case.get("numbered"):
        res.tag("numbered")
    plt.close("all")
    try:
        plot = cls(arg, **kw)
        plot.view(test=True)
        if again:
            plt.close("all")
            plot.view(test=True)
            res.tag("again")
    except RuntimeError:
        res.run()
        if want and case["mode"] != "concat" or used:
            raise
        res.tag("no-data")
        return
    fig = plt.gcf()
    res.run()
    res.step(sum(len(l) for _, l in want))
    if not want:
        res.fail("no-data", what + ": plotted without data")
        return
    axes = fig.axes
    if len(axes) != len(want):
        res.fail("axes", "%s: %d axes, expected %d" % (what, len(axes), len(want)))
        return
    ncols = min(case["per_line"], len(want))
    color = {}
    for n, (ax, (title, lines)) in enumerate(zip(axes, want)):
        spec = ax.get_subplotspec()
        rows, colsn = spec.get_geometry()[:2]
        place = (spec.rowspan.start, spec.colspan.start)
        if colsn != ncols or rows != -(-len(want) // ncols) or place != divmod(n, ncols):
            res.fail("layout", "%s: plot %d is at %r of %d x %d" % (what, n, place, rows, colsn))
            return
        if lines and ax.get_title() != title:
            res.fail("title", "%s: plot %d is called %r, expected %r" % (what, n, ax.get_title(), title))
            return
        if case["plot"] == "line":
            got = lines_of(ax)
            if [(x, y) for x, y, _ in got] != [(x, y) for _, x, y in lines]:
                res.fail("lines", "%s: plot %d (%s) has lines %r, expected %r" % (what, n, title, got, lines))
                return
            cs = [c for _, _, c in got]
            if opts.get("fill") and len(ax.collections) != len(lines):
                res.fail("fill", what + ": %d areas filled" % len(ax.collections))
                return
            if opts.get("scatter") and any(l.get_linestyle() != "None" or l.get_marker() != "o" for l in ax.lines):
                res.fail("scatter", what + ": lines drawn in a scatter plot")
                return
            for o in ("drawstyle", "linewidth", "marker", "linestyle", "markersize", "markevery"):
                if o in opts and any(getattr(l, "get_" + o)() != opts[o] for l in ax.lines):
                    res.fail("forward", what + ": %s is not used" % o)
                    return
        else:
            cont = ax.containers
            tops, base, cs = {}, None, []
            if len(cont) != len(lines):
                res.fail("bars", "%s: plot %d has %d series, expected %d" % (what, n, len(cont), len(lines)))
                return
            width = (1 - opts.get("spacing", 0.2)) / (1 if opts.get("stacked") else max(1, len(lines)))
            for i, (bars, (_, _, ys)) in enumerate(zip(cont, lines)):
                if len(bars) != len(ys):
                    res.fail("bars", "%s: plot %d has %d bars for %r" % (what, n, len(bars), ys))
                    return
                for j, (bar, y) in enumerate(zip(bars, ys)):
                    bottom = tops.get(j, 0.0) if opts.get("stacked") else 0.0
                    if base is None:
                        base = bar.get_x()
                    x = base + j + (0 if opts.get("stacked") else i * width)
                    got = (bar.get_x(), bar.get_y(), bar.get_height(), bar.get_width())
                    if not np.allclose(got, (x, bottom, y, width), rtol=1e-9, atol=1e-9):
                        res.fail("bars", "%s: plot %d, bar %d of series %d is %r (x, bottom, height, width), expected %r" % (what, n, j, i, got, (x, bottom, y, width)))
                        return
                    tops[j] = bottom + y
                cs.append(rgba(bars[0].get_facecolor()))
                if any(rgba(b.get_facecolor()) != cs[-1] for b in bars):
                    res.fail("colors", what + ": bars of a series differ in color")
                    return
            if len(set(len(l[2]) for l in lines)) > 1:
                res.tag("different-lengths")
        for (i, _, _), c in zip(lines, cs):
            if color.setdefault(i, c) != c:
                res.fail("colors", "%s: series %r has different colors" % (what, labels[i]))
                return
        if "xlim" in opts and tuple(ax.get_xlim()) != opts["xlim"] and lines:
            res.fail("limits", what + ": x limits %r" % (ax.get_xlim(),))
            return
        if "ylim" in opts and tuple(ax.get_ylim()) != opts["ylim"] and lines:
            res.fail("limits", what + ": y limits %r" % (ax.get_ylim(),))
            return
    if len(set(color.values())) < len(color):
        res.fail("colors", "%s: two series have the same color: %r" % (what, color))
        return
    for i, c in color.items():
        if colors in ("signals", "list") or (colors == "some" and i == 1):
            if c != rgba([x / 255.0 for x in RGB[i]]):
                res.fail("colors", "%s: series %r is drawn in %r, not %r" % (what, labels[i], c, RGB[i]))
                return
    leg = fig.legends[0]
    texts = [t.get_text() for t in leg.get_texts()]
    if len(fig.legends) != 1 or texts != [labels[i] for i in used]:
        res.fail("legend", "%s: legend %r, expected %r" % (what, texts, [labels[i] for i in used]))
        return
    shown = [rgba(h.get_color() if case["plot"] == "line" else h.get_facecolor()) for h in leg.legendHandles]
    if shown != [color[i] for i in used]:
        res.fail("legend", "%s: legend colors %r for %r, but lines are %r" % (what, shown, texts, color))
        return
    if "legend_ncol" in opts and len(used) >= opts["legend_ncol"] and leg._ncol != opts["legend_ncol"]:
        res.fail("legend", "%s: %r columns in the legend" % (what, leg._ncol))
        return
    if "point_size" in opts and any(l.get_markersize() != opts["point_size"] for ax in axes for l in ax.lines):
        res.fail("scatter", what + ": points of another size")
        return
    if "width" in opts and len(want) > ncols > 1 and tuple(fig.get_size_inches()) != (opts["width"] * ncols, opts["length"] * -(-len(want) // ncols)):
        res.fail("size", "%s: figure of %r inches" % (what, tuple(fig.get_size_inches())))
        return
    if "title" in opts and (fig._suptitle is None or fig._suptitle.get_text() != opts["title"]):
        res.fail("title", what + ": no title")
        return
    res.state([(t, [(i, y) for i, _, y in l]) for t, l in want], case["per_line"])
    tags = [(case["plot"], True), (case["mode"], True), (case["kind"], True), ("stacked", opts.get("stacked")), ("missing-pivot", any(len(l) < len(labels) for _, l in want)),
            ("unused-cells", len(want) % ncols), ("several-rows", len(want) > ncols), ("one-plot", len(want) == 1), ("no-pivot", not case["pivot"]),
            ("colors", colors in ("signals", "list")), ("some-colors", colors == "some"), ("limits", "xlim" in opts), ("labels", "map_label" in opts),
            ("scatter", "scatter" in opts), ("columns", "legend_ncol" in opts), ("fill", "fill" in opts)]
    res.tag(*[t for t, on in tags if on])


def forwarding(res, case):
    """Histories of registrations of forwarded arguments, plots and saved files."""
    import trappy.plotter as P
    from trappy.plotter import AttrConf
    start = list(AttrConf.ARGS_TO_FORWARD)
    known = set(start)
    df = pd.DataFrame({"x": [1., 2., 3.]}, index=[0., 1., 2.])
    VAL = {"alpha": 0.25, "zorder": 7.0, "linewidth": 2.5}
    try:
        for n, (op, arg) in enumerate(case["ops"]):
            what = "after %r: " % (case["ops"][:n + 1],)
            res.step()
            if op == "register":
                P.register_forwarding_arg(arg)
                known.add(arg)
            elif op == "unregister":
                P.unregister_forwarding_arg(arg)
                known.discard(arg)
            else:
                plt.close("all")
                rc = dict(matplotlib.rcParams)
                plot = trappy.LinePlot(df, column="x", style=op != "plain", **VAL)
                if op == "save":
                    if os.path.exists("out.png"):
                        os.unlink("out.png")
                    plot.savefig("out.png")
                    with open("out.png", "rb") as f:
                        if not f.read(8).startswith(b"\x89PNG"):
                            res.fail("save", what + "no picture was saved")
                            return
                    if len(plt.get_fignums()) != 1:
                        res.fail("save", what + "%d figures" % len(plt.get_fignums()))
                        return
                    res.tag("saved")
                else:
                    plot.view()
                res.run()
                if {k: v for k, v in matplotlib.rcParams.items() if rc.get(k) != v and k != "backend"}:
                    res.fail("style", what + "the style stays")
                    return
                line, = plt.gcf().axes[0].lines
                plain = plt.plot([1, 2])[0] if op == "plain" else None
                for k in VAL:
                    got = getattr(line, "get_" + k)()
                    if k in known:
                        want = VAL[k]
                    else:
                        want = {"alpha": None, "zorder": 2, "linewidth": plain.get_linewidth() if plain else AttrConf.MPL_STYLE["lines.linewidth"]}[k]
                    if got != want:
                        res.fail("forward", what + "%s is %r, expected %r" % (k, got, want))
                        return
                res.tag("forwarded")
        res.state(sorted(known))
    finally:
        AttrConf.ARGS_TO_FORWARD[:] = start


def values(res, case):
    """Series of these values, and of different lengths, as lines and as bars."""
    for series in case["values"]:
        dfs = [pd.DataFrame({"v": pd.Series(s, dtype=float).values}, index=[1.0 + i for i in range(len(s))]) for s in series]
        if case["ints"] and not any(v is None for s in series for v in s):
            dfs = [d.astype(int) for d in dfs]
        neg = any(v is not None and v < 0 for s in series for v in s)
        for style in ("line", "fill", "grouped", "stacked"):
            if style == "stacked" and neg:
                continue
            what = "%s plot of %r" % (style, series)
            cls = trappy.LinePlot if style in ("line", "fill") else trappy.BarPlot
            plt.close("all")
            cls(dfs, column="v", **({style: True} if style in ("fill", "stacked") else {})).view(test=True)
            res.run()
            res.step(sum(map(len, series)))
            ax, = plt.gcf().axes
            if style in ("line", "fill"):
                got = [(list(l.get_xdata()), [None if v != v else v for v in l.get_ydata()]) for l in ax.lines]
                want = [(list(d.index), s) for d, s in zip(dfs, series)]
                if got != want:
                    res.fail("lines", "%s: lines %r, expected %r" % (what, got, want))
                    return
            else:
                width = 0.8 / (1 if style == "stacked" else len(series))
                tops = {}
                if len(ax.containers) != len(series):
                    res.fail("bars", "%s: %d series" % (what, len(ax.containers)))
                    return
                for i, (bars, s) in enumerate(zip(ax.containers, series)):
                    if len(bars) != len(s):
                        res.fail("bars", "%s: %d bars for %r" % (what, len(bars), s))
                        return
                    for j, (bar, v) in enumerate(zip(bars, s)):
                        if v is None:
                            continue
                        if style == "grouped":
                            tops[j] = 0
                        got = (bar.get_x() - ax.containers[0][0].get_x(), bar.get_y(), bar.get_height(), bar.get_width())
                        want = (j + (i * width if style == "grouped" else 0), tops.get(j, 0), v, width)
                        if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
                            res.fail("bars", "%s: bar %d of series %d is %r (x, bottom, height, width), expected %r" % (what, j, i, got, want))
                            return
                        tops[j] = tops.get(j, 0) + v
            res.state(style, series)
        res.tag(*(["negative"] if neg else []) + (["missing-value"] if any(None in s for s in series) else []))


def grid(res, case):
    """n plots in rows of per_line: plot i is the i-th cell."""
    for n, per_line, cls in case["grid"]:
        df = pd.DataFrame({"c%d" % i: [10.0 * i, 1.0] for i in range(n)}, index=[1.0, 2.0])
        plt.close("all")
        cls = {"line": trappy.LinePlot, "bar": trappy.BarPlot}[cls]
        cls(df, column=["c%d" % i for i in range(n)], concat=True, per_line=per_line).view(test=True)
        res.run()
        axes = plt.gcf().axes
        ncols = min(per_line, n)
        what = "%d plots, %d per line" % (n, per_line)
        if len(axes) != n:
            res.fail("axes", "%s: %d axes" % (what, len(axes)))
            return
        for i, ax in enumerate(axes):
            spec = ax.get_subplotspec()
            place = (spec.rowspan.start, spec.colspan.start)
            first = ax.lines[0].get_ydata()[0] if ax.lines else ax.patches[0].get_height()
            if place != divmod(i, ncols) or spec.get_geometry()[:2] != (-(-n // ncols), ncols) or first != 10.0 * i:
                res.fail("layout", "%s: plot %d is at %r and shows column %r" % (what, i, place, first / 10))
                return
        res.state("grid", n, per_line)
        res.tag("grid")


def run_case(case):
    res = Res()
    if "values" in case or "grid" in case:
        with plt.rc_context():
            (values if "values" in case else grid)(res, case)
        plt.close("all")
        return res
    if "ops" in case:
        with plt.rc_context():
            forwarding(res, case)
        plt.close("all")
        return res
    with plt.rc_context():
        for c in case["cases"]:
            check(res, c)
            if res.fails:
                break
    plt.close("all")
    return res


OPTS = [{"map_label": {0: "zero", 2: "two"}, "title": "All"}, {"xlim": (0.5, 2.25), "ylim": (0.0, 5000.0)}, {"colors": "given"}, {"colors": "some"},
        {"scatter": True, "again": True}, {"fill": True}, {"xlim": (0, 2.25), "ylim": (-10.0, 0)}, {"map_label": {0: "", 1: 0}}, {"drawstyle": "steps-post", "linewidth": 3.0, "marker": "x"},
        {"legend_ncol": 2, "linestyle": "--", "marker": "s", "markersize": 4.5, "markevery": 2}, {"legend_ncol": 1}, {"legend_ncol": 3, "style": False},
        {"scatter": True, "point_size": 5.0}, {"scatter": True, "point_size": 2.5}, {"width": 4, "length": 3}]
BAROPTS = [{}, {"stacked": True}, {"spacing": 0.5, "again": True}, {"stacked": True, "colors": "given", "spacing": 0.0}]


def explore(ctx):
    subsets = lambda n: [list(c) for k in range(0, n + 1) for c in itertools.combinations(range(n), k)]
    size = {1: 3, 2: 3, 3: 2} if ctx.quick else {1: 4, 2: 4, 3: 3}
    cases = []

    def add(**c):
        c.setdefault("opts", {})
        if c["opts"].get("colors") == "given":
            if c["kind"] == "frames" and c["mode"] == "concat":
                return
            c["opts"] = dict(c["opts"], colors="list" if c["kind"] == "frames" else "signals")
        if c["opts"].get("colors") and c["kind"] == "traces" and (c["nc"] < 2 or c["mode"] == "concat"):
            return
        if c["opts"].get("colors") == "some" and c["kind"] == "frames":
            return
        cases.append(c)

    for nt, shapes in SHAPES.items():
        for present in itertools.product(subsets(size[nt]), repeat=nt):
            present = list(present)
            if nt > 1 and sum(1 for p in present if not p) > 1:
                continue
            for (_, nc), mode in itertools.product(shapes, ("zip", "concat", "permute")):
                wide = mode != "zip" or nt == 2
                for per_line in ((1, 2, 3) if ctx.quick else (1, 2, 3, 4)):
                    if ctx.quick and per_line != 1 + (sum(map(len, present)) + nc + nt) % 3 and nt > 1:
                        continue
                    for kind in (("frames", "traces") if not ctx.quick else (("frames", "traces")[(per_line + nc) % 2],)):
                        add(plot="line", kind=kind, present=present, nc=nc, mode=mode, permute=mode == "permute", pivot="k", per_line=per_line)
    pats = [[[0, 1]], [[0, 1], [1, 2]], [[0], [0, 1, 2]], [[1, 2], [0]], [[0, 1], [1], [0, 2]], [[]], [[], [0, 1]]]
    for present in pats:
        for (_, nc), mode, kind, pivot in itertools.product(SHAPES[len(present)], ("zip", "concat", "permute"), ("frames", "traces"), (None, "k")):
            base = dict(kind=kind, present=present, nc=nc, mode=mode, permute=mode == "permute", pivot=pivot)
            for i, o in enumerate(BAROPTS):
                add(plot="bar", per_line=1 + (i + nc) % 3, opts=dict(o), **base)
            if pivot is None:
                add(plot="line", per_line=1 + nc % 3, **base)
            add(plot=("line", "bar")[nc % 2], per_line=1 + nc % 3, numbered=True, **base)
            for i, o in enumerate(OPTS):
                if ctx.quick and (i + nc + len(present[0])) % 2 and pivot is None:
                    continue
                add(plot="line", per_line=1 + (i + nc) % 3, opts=dict(o), **base)
    # concatenating takes precedence over permuting
    for present in pats[:5]:
        for kind in ("frames", "traces"):
            add(plot="line", kind=kind, present=present, nc=2, mode="concat", permute=True, pivot="k", per_line=2)
    ops = [("register", "alpha"), ("unregister", "alpha"), ("register", "zorder"), ("unregister", "linewidth"), ("register", "linewidth")]
    hist = [list(h) + [(end, "")] for k in range(0, (4 if ctx.quick else 5)) for h in itertools.product(ops, repeat=k) for end in (("plot", "plain", "save")[(k + len(str(h))) % 3],)]
    hist += [[("plot", "")] + list(h) + [("plain", ""), ("save", "")] for h in itertools.product(ops, repeat=2)]
    ctx.run_cases(run_case, [{"ops": h} for h in hist])
    vals = (-2, 0, 3, None) if ctx.quick else (-2, 0, 3, 5, None)
    some = [list(s) for n in (1, 2) for s in itertools.product(vals, repeat=n) if any(v is not None for v in s)]
    lists = [list(p) for p in itertools.product(some, repeat=2)]
    if ctx.quick:
        lists = lists[::2]
    lists += [[[3] * n, [0, None, 2][:m], [7] * k] for n, m, k in itertools.product((1, 2, 3), repeat=3)]
    ctx.run_cases(run_case, [{"values": lists[i:i + 8], "ints": i % 16 == 0} for i in range(0, len(lists), 8)])
    grids = [(n, c, ("line", "bar")[(n + c) % 2]) for n in range(1, 14 if ctx.quick else 21) for c in range(1, 7)]
    ctx.run_cases(run_case, [{"grid": grids[i::26]} for i in range(26)])
    ctx.run_cases(run_case, [{"cases": cases[i:i + 5]} for i in range(0, len(cases), 5)])
