"""C25: ILinePlot gives every figure the data of its series.

The HTML that the real ILinePlot displays is parsed: every figure has its data
as JSON.  All placements of samples of two and three series on common and
different times (repeated ones too) are merged with every draw style; all
placements of pivot values are plotted for all shapes of traces and columns,
zipped, permuted and concatenated; limits, options and numbers of data points
are varied.
"""
import itertools
import json
import re

import pandas as pd
import trappy
from IPython.core.interactiveshell import InteractiveShell
from IPython.utils.capture import capture_output
from mc.core import Res
from checks import c24
from trappy.utils import handle_duplicate_index

PROPERTY = "C25"
LEVEL = "model_checking"
ASSUMPTIONS = ["traces have different names", "columns hold numbers", "repeated times are made unique as C16 decides"]
MUST_SEE = ("merged", "single", "repeated", "interpolated", "leading", "trailing", "steps-post", "steps-pre", "steps-mid", "concat", "permute", "zip",
            "no-pivot", "missing-pivot", "unused-cells", "several-rows", "window", "no-data", "too-big", "colors", "options", "again", "traces", "frames", "missing-value", "numbered")
BOUNDS = ("all placements of two series on 4 times (a time may be repeated in one of them) and of three on 3 times x 4 draw styles, with up to 2 (thorough 4) values missing; all placements of 3 pivot "
          "values on up to three traces, 8 shapes, three modes, 1 to 3 per line; all windows of a grid; options and data point limits on a subset")


def show(args, kw, viewkw):
    InteractiveShell.instance()
    plot = trappy.ILinePlot(*args, **kw)
    out = []
    for v in viewkw:
        with capture_output() as c:
            plot.view(test=True, **v)
        html = [o.data["text/html"] for o in c.outputs if "text/html" in o.data]
        if len(html) != 1:
            raise ValueError("displayed %d times" % len(html))
        out.append(html[0])
    return out


def as_json(text):
    try:
        return json.loads(text)
    except ValueError:
        return None


def parse(html):
    """Rows of the ids of cells, [(figure, data)], [(figure or None, colors)] of what is generated."""
    figs = re.findall(r"^\s*(?:var|let|const) (\w+)\s*=\s*(\{.*\});?\s*$", html, re.M)
    figs = [(n, d) for n, d in ((n, as_json(d)) for n, d in figs) if d and "name" in d and "data" in d]
    names = {n: d["name"] for n, d in figs}
    data = [(d["name"], d) for _, d in figs]
    rows = re.findall(r"<tr\b[^>]*>(.*?)</tr>", html, re.S)
    cells = [re.findall(r'id="([\w-]+)"', r) for r in rows]
    gen = re.findall(r"ILinePlot\.generate\(\s*(\w+)\s*(?:,\s*(\[.*?\])\s*)?\)", html)
    return cells, data, [(names.get(n), json.loads(c) if c else None) for n, c in gen]


def legend_cells(html):
    """{figure: id of its legend}"""
    cells = parse(html)[0]
    return {p: l for ps, ls in zip(cells[0::2], cells[1::2]) for p, l in zip(ps, ls)}


def merge(series, style):
    """[[time, values...]] of [(times, values)]."""
    if len(series) == 1:
        return [[t, v] for t, v in zip(*series[0])]
    ser = []
    for xs, ys in series:
        if len(set(xs)) < len(xs):
            xs = list(handle_duplicate_index(pd.Series(ys, index=xs)).index)
        ser.append(list(zip(xs, ys)))
    times = sorted(set(t for s in ser for t, _ in s))
    # a missing value is no sample, but its time is in the data
    ser = [[(t, v) for t, v in s if v is not None] for s in ser]
    out = []
    for t in times:
        row = [t]
        for s in ser:
            here = [v for x, v in s if x == t]
            before = [(x, v) for x, v in s if x < t]
            after = [(x, v) for x, v in s if x > t]
            if here:
                v = here[0]
            elif style == "steps-pre":
                v = after[0][1] if after else None
            elif not before:
                v = None
            elif style in ("steps-post", "steps-mid") or not after:
                v = before[-1][1]
            else:
                (x0, v0), (x1, v1) = before[-1], after[0]
                v = v0 + (v1 - v0) * (t - x0) / (x1 - x0)
            row.append(v)
        out.append(row)
    return out


def same(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if len(g) != len(w):
            return False
        for a, b in zip(g, w):
            a = None if a is None or a != a else a
            if (a is None) != (b is None) or (a is not None and abs(a - b) > 1e-9 * max(1.0, abs(b))):
                return False
    return True


def compare(res, what, html, want, per_line, params, colors=None):
    """want: [(title, labels, rows)]"""
    cells, data, gen = parse(html)
    if len(data) != len(want):
        res.fail("figures", "%s: %d figures, expected %d" % (what, len(data), len(want)))
        return False
    ncols = min(per_line, len(want))
    nrows = -(-len(want) // ncols)
    plots = [c for row in cells[0::2] for c in row]
    legends = [c for row in cells[1::2] for c in row]
    if len(cells) != 2 * nrows or any(len(c) != ncols for c in cells) or len(set(plots)) != len(plots):
        res.fail("layout", "%s: cells %r for %d figures, %d per line" % (what, [len(c) for c in cells], len(want), per_line))
        return False
    drawn = [n for n, _ in gen if n is not None]
    if [n for n, _ in data] != plots[:len(want)] or len(set(plots + legends)) != 2 * len(plots) or drawn != plots[:len(want)]:
        res.fail("layout", "%s: the names of cells, legends, data and scripts do not belong together" % what)
        return False
    for (name, d), (title, labels, rows) in zip(data, want):
        if d["name"] != name or d["title"] != title or d["per_line"] != ncols:
            res.fail("title", "%s: figure %r is called %r, expected %r" % (what, name, d["title"], title))
            return False
        if d["data"]["labels"] != ["index"] + labels:
            res.fail("labels", "%s: %s has labels %r, expected %r" % (what, title, d["data"]["labels"], labels))
            return False
        if not same(d["data"]["data"], rows):
            res.fail("data", "%s: %s has data %r, expected %r" % (what, title, d["data"]["data"], rows))
            return False
        for k, v in params.items():
            if d.get(k, "missing") != v:
                res.fail("params", "%s: %s is %r, expected %r" % (what, k, d.get(k, "missing"), v))
                return False
    if len(set(d["syncGroup"] for _, d in data)) > 1:
        res.fail("params", what + ": figures are in different groups")
        return False
    for _, c in gen:
        if (c is None) != (colors is None) or c is not None and any(w is not None and g != w for g, w in zip(c, colors)):
            res.fail("colors", "%s: colors %r, expected %r" % (what, c, colors))
            return False
    return True


PARAMS = {"step_plot": False, "fill_graph": False, "drawPoints": False, "strokeWidth": 1.0, "pointSize": 2, "syncZoom": False,
          "rangesel": False, "valueRange": "missing", "dateWindow": "missing"}


def options(opts):
    p = dict(PARAMS)
    if opts.get("drawstyle"):
        p["step_plot"] = True
    if opts.get("fill") or "fill_alpha" in opts:
        p["fill_graph"] = True
    if "fill_alpha" in opts:
        p["fill_alpha"] = opts["fill_alpha"]
    if opts.get("scatter"):
        p["drawPoints"], p["strokeWidth"] = True, 0.0
    for o, k in (("point_size", "pointSize"), ("sync_zoom", "syncZoom"), ("group", "syncGroup"), ("ylim", "valueRange"), ("xlim", "dateWindow")):
        if o in opts:
            p[k] = list(opts[o]) if isinstance(opts[o], tuple) else opts[o]
    return p


def merged(res, case):
    style = case["style"]
    series = [([float(t) for t in s], [10.0 ** (i + 1) + 3 * j * (-1) ** j for j in range(len(s))]) for i, s in enumerate(case["series"])]
    gone = case.get("missing", ())
    series = [(xs, [None if (i, j) in gone else y for j, y in enumerate(ys)]) for i, (xs, ys) in enumerate(series)]
    what = "series at %r%s, draw style %r" % ([s[0] for s in series], ", without %r" % (gone,) if gone else "", style)
    if gone:
        res.tag("missing-value")
    dfs = [pd.DataFrame({"v": pd.Series(ys, dtype=float).values}, index=pd.Index(xs, name="Time")) for xs, ys in series]
    kw = {"drawstyle": style} if style else {}
    want = merge(series, style)
    labels = ["DataFrame %d:v" % i for i in range(len(series))]
    cells = len(want) * len(series)
    try:
        html = show([dfs], dict(kw, column="v"), [{}, {"max_datapoints": cells}])
        try:
            show([dfs], dict(kw, column="v"), [{"max_datapoints": cells - 1}])
            return res.fail("too-big", what + ": more data points than allowed were plotted")
        except ValueError as e:
            if "displayed" in str(e):
                raise
            res.tag("too-big")
    except Exception as e:
        return res.fail("exception", "%s: %s: %s" % (what, type(e).__name__, e))
    res.run()
    res.step(len(want))
    for h in html:
        if not compare(res, what, h, [("", labels, want)], 2, options(kw)):
            return None
    for df, (xs, ys) in zip(dfs, series):
        if list(df.index) != xs or [None if v != v else v for v in df["v"]] != ys:
            return res.fail("source", what + ": the data given was altered")
    res.state(want, style)
    res.tag("merged" if len(series) > 1 else "single")
    if style:
        res.tag(style)
    for i, (xs, _) in enumerate(series):
        if len(set(xs)) < len(xs):
            res.tag("repeated")
        if len(series) > 1 and xs[0] > want[0][0]:
            res.tag("leading")
        if len(series) > 1 and xs[-1] < want[-1][0]:
            res.tag("trailing")
        if any(xs[0] < t < xs[-1] and t not in xs for t in (r[0] for r in want)):
            res.tag("interpolated")
    return None


def plotted(res, case):
    opts = dict(case["opts"])
    tables, cols, srcs = c24.build(case)
    win = opts.get("xlim")
    if win:
        for i, rows in enumerate(tables):
            lo = [r[0] for r in rows if r[0] <= win[0]]
            hi = [r[0] for r in rows if r[0] >= win[1]]
            tables[i] = [r for r in rows if (not lo or r[0] >= max(lo)) and (not hi or r[0] <= min(hi))]
            if len(tables[i]) < len(rows):
                res.tag("window")
    axes, labels, used = c24.model(case, tables, cols)
    want = [(title if lines or case["mode"] != "zip" else "", [labels[i] for i, _, _ in lines], merge([(x, y) for _, x, y in lines], opts.get("drawstyle")) if lines else [])
            for title, lines in axes]
    kw = {"per_line": case["per_line"]}
    if case["pivot"]:
        kw["pivot"] = case["pivot"]
    if case["mode"] == "concat":
        kw["concat"] = True
    if case["permute"]:
        kw["permute"] = True
    colors = opts.pop("colors", None)
    wantc = None
    if case.get("numbered"):
        res.tag("numbered")
    if case["kind"] == "traces" and case.get("numbered"):
        kw["column"] = cols
        kw["templates"] = srcs[0].class_definitions["ev"]
    elif case["kind"] == "traces":
        kw["signals"] = ["ev:%s%s" % (c, ":%d,%d,0x%x" % tuple(c24.RGB[i]) if colors == "signals" or (colors == "some" and i == 1) else "") for i, c in enumerate(cols)]
        if colors:
            wantc = ["rgb(%d, %d, %d)" % tuple(c24.RGB[i]) if colors == "signals" or i == 1 else None for i in range(len(cols))]
    else:
        kw["column"] = cols if len(cols) > 1 or case["per_line"] == 1 else cols[0]
        if colors == "list":
            kw["colors"] = c24.RGB
            wantc = ["rgb(%d, %d, %d)" % tuple(c) for c in c24.RGB]
    again = opts.pop("again", False)
    kw.update(opts)
    arg = srcs if len(srcs) > 1 or case["per_line"] == 2 else srcs[0]
    what = "%r, %d columns, %s of %s, pivot %r, %d per line, options %r" % (
        case["present"], case["nc"], case["mode"], case["kind"], case["pivot"], case["per_line"], case["opts"])
    res.run()
    try:
        html = show([arg], kw, [{}, {}] if again else [{}])
    except RuntimeError as e:
        if want and used:
            return res.fail("exception", "%s: %s" % (what, e))
        res.tag("no-data")
        return None
    except Exception as e:
        return res.fail("exception", "%s: %s: %s" % (what, type(e).__name__, e))
    if not want:
        return res.fail("no-data", what + ": plotted without data")
    res.step(sum(len(w[2]) for w in want))
    for h in html:
        if not compare(res, what, h, want, case["per_line"], options(opts), wantc):
            return None
        if opts.get("title") and ">%s</caption>" % opts["title"] not in h:
            return res.fail("title", what + ": no title")
    res.state(want, case["per_line"], case["opts"])
    tags = [(case["mode"], True), (case["kind"], True), ("missing-pivot", any(len(w[1]) < len(labels) for w in want)), ("unused-cells", len(want) % case["per_line"]),
            ("several-rows", len(want) > case["per_line"]), ("no-pivot", not case["pivot"]), ("colors", colors), ("options", opts), ("again", again)]
    res.tag(*[t for t, on in tags if on])
    return None


def run_case(case):
    res = Res()
    for c in case["cases"]:
        (merged if "series" in c else plotted)(res, c)
        if res.fails:
            break
    return res


OPTS = [{"map_label": {0: "zero", 2: "two"}, "title": "All"}, {"ylim": (0.0, 5000.0), "xlim": (1.75, 2.25)}, {"colors": "given"}, {"colors": "some"},
        {"xlim": (0, 1.75), "ylim": [0, 0.5]}, {"fill_alpha": 0}, {"map_label": {0: "", 1: 7}}, {"scatter": True, "again": True, "point_size": 5}, {"fill": True, "sync_zoom": True}, {"drawstyle": "steps-post", "fill_alpha": 0.5}, {"group": "g", "drawstyle": "steps-pre"}]


def explore(ctx):
    cases = []
    pats = lambda n: [c for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]
    # times are not evenly spaced
    grid = [0.0, 1.0, 4.0, 4.5, 10.0]
    twice = lambda n: [tuple(sorted(c + (d,))) for c in pats(n) for d in c]
    n2, n3 = (4, 3) if ctx.quick else (5, 4)
    styles = [None, "steps-post", "steps-pre", "steps-mid"]
    for st in styles:
        lists = [(a,) for a in pats(n2) + twice(n2)]
        lists += list(itertools.product(pats(n2), repeat=2)) + list(itertools.product(twice(3), pats(3)))
        lists += list(itertools.product(twice(3), twice(3))) if not ctx.quick or st is None else []
        lists += list(itertools.product(pats(n3), repeat=3))
        if ctx.quick and st not in (None, "steps-post"):
            lists = lists[::3]
        cases += [{"series": [[grid[i] for i in s] for s in l], "style": st} for l in lists]
        for l in list(itertools.product(pats(3), pats(3))) + [(p,) for p in pats(3)] + [((0, 1, 2), p, (0, 2)) for p in pats(3)]:
            cells = [(i, j) for i, s in enumerate(l) for j in range(len(s))]
            for gone in pats(len(cells)):
                if len(gone) <= (2 if ctx.quick else 4):
                    cases.append({"series": [[grid[i] for i in s] for s in l], "style": st, "missing": [cells[k] for k in gone]})

    def add(**c):
        c.setdefault("opts", {})
        if c["opts"].get("colors") == "given":
            c["opts"] = dict(c["opts"], colors="list" if c["kind"] == "frames" else "signals")
        if c["opts"].get("colors") == "some" and (c["kind"] == "frames" or c["nc"] < 2):
            return
        cases.append(c)

    subsets = lambda n: [list(c) for k in range(0, n + 1) for c in itertools.combinations(range(n), k)]
    size = {1: 3, 2: 3, 3: 2} if ctx.quick else {1: 4, 2: 4, 3: 3}
    for nt, shapes in c24.SHAPES.items():
        for present in itertools.product(subsets(size[nt]), repeat=nt):
            present = list(present)
            if nt > 1 and sum(1 for p in present if not p) > 1:
                continue
            for (_, nc), mode in itertools.product(shapes, ("zip", "concat", "permute")):
                for per_line in ((1, 2, 3) if ctx.quick else (1, 2, 3, 4)):
                    if ctx.quick and per_line != 1 + (sum(map(len, present)) + nc + nt) % 3 and nt > 1:
                        continue
                    for kind in (("frames", "traces") if not ctx.quick else (("frames", "traces")[(per_line + nc) % 2],)):
                        add(kind=kind, present=present, nc=nc, mode=mode, permute=mode == "permute", pivot="k", per_line=per_line)
    few = [[[0, 1]], [[0, 1], [1, 2]], [[0], [0, 1, 2]], [[1, 2], [0]], [[0, 1], [1], [0, 2]], [[]], [[], [0, 1]]]
    wins = [(a / 4.0, b / 4.0) for a in range(1, 20, 1 if not ctx.quick else 2) for b in range(a, 22, 2 if not ctx.quick else 4)]
    for present in few:
        for (_, nc), mode, kind, pivot in itertools.product(c24.SHAPES[len(present)], ("zip", "concat", "permute"), ("frames", "traces"), (None, "k")):
            base = dict(kind=kind, present=present, nc=nc, mode=mode, permute=mode == "permute", pivot=pivot)
            add(per_line=1 + nc % 3, **base)
            add(per_line=1 + nc % 3, numbered=True, **base)
            for i, o in enumerate(OPTS):
                add(per_line=1 + (i + nc) % 3, opts=dict(o), **base)
            if nc == 1 and mode == "zip":
                for w in wins:
                    add(per_line=2, opts={"xlim": w}, **base)
    for present in few[:5]:
        for kind in ("frames", "traces"):
            add(kind=kind, present=present, nc=2, mode="concat", permute=True, pivot="k", per_line=2)
    ctx.run_cases(run_case, [{"cases": cases[i:i + 15]} for i in range(0, len(cases), 15)])
