"""C36: the page of ILinePlot draws every figure with its data and options.

The pages that the real ILinePlot makes are shown, one after the other, on one
page in node, with their real JavaScript against a stand-in of Dygraph; what the
graphs were given is read back.

options    every combination of values of the options
histories  every sequence of showing plots with and without groups, of clearing
           them, of resizing the page and of zooming into a figure
groups     many plots after each other, each in a group of its own
"""
import copy
import itertools

import pandas as pd
from mc.core import Res
from checks import c25
from checks.c35 import node
from trappy.nbexport.exporter import TrappyPlotterPreprocessor

PROPERTY = "C36"
LEVEL = "model_checking"
ASSUMPTIONS = ["Dygraph 1.1, jQuery and requirejs behave like their stand-ins in mc/page.js", "the data and options in the page are those of C25", "groups that a plot doesn't name are not shared"]
MUST_SEE = ("options", "exported", "joined", "synchronized", "not-synchronized", "cleared", "resized", "zoomed", "empty-figure", "two-groups", "shown-alone", "colors", "window-in-data", "per-line", "own-group")
BOUNDS = ("all combinations of the values of 9 options, exported or not; all histories of up to 4 (thorough 5) of 11 actions: 6 plots shown (1 to 4 figures, with and without group, sync_zoom, xlim and ylim), clearing the first or "
          "last one, resizing, zooming; 60 plots without group after each other")
WIDTH = 1000.0


def frame(start, n, scale, pivot=0):
    return pd.DataFrame({"v": [scale * (-1) ** i * i for i in range(n)], "w": [float(i) for i in range(n)], "k": [pivot] * n}, index=pd.Index([start + 1.5 * i for i in range(n)], name="Time"))


def clean(v):
    return None if v is None or v != v else v


class Figure(object):
    def __init__(self, d, colors, area):
        self.d = d
        self.name = d["name"]
        self.rows = [[clean(v) for v in r] for r in d["data"]["data"]]
        self.colors = colors
        self.area = area
        self.group = d.get("syncGroup")
        self.there = True
        self.size = None
        if self.rows:
            ys = [v for r in self.rows for v in r[1:] if v is not None]
            self.ext = [self.rows[0][0], self.rows[-1][0]]
            self.x = list(d["dateWindow"]) if "dateWindow" in d else list(self.ext)
            self.y = list(d["valueRange"]) if "valueRange" in d else [min(ys), max(ys)]
        self.joined = False


class Model(object):
    def __init__(self, width):
        self.width = width
        self.figs = []
        self.areas = 0
        self.unused = 0
        self.sync = {}

    def show(self, html):
        cells, data, gen = c25.parse(html)
        colors = dict(gen)
        legends = c25.legend_cells(html)
        self.unused += len(legends) - len(data)
        for name, d in data:
            f = Figure(d, colors[name], self.areas)
            f.size = self.width / d["per_line"]
            f.legend = legends.get(name)
            self.figs.append(f)
            if f.group is None:
                continue
            live = [g for g in self.figs if g.there and g.group == f.group and g.rows]
            if len(live) >= 2:
                x = [min(g.x[0] for g in live), max(g.x[1] for g in live)]
                y = [min(g.y[0] for g in live), max(g.y[1] for g in live)]
                e = [min([x[0]] + [g.ext[0] for g in live]), max([x[1]] + [g.ext[1] for g in live])]
                for g in live:
                    g.x, g.y, g.ext, g.joined = list(x), list(y), list(e), True
                if all(g.d["syncZoom"] for g in live):
                    self.sync[f.group] = [g.name for g in live]
        self.areas += 1

    def clear(self, area):
        for f in self.figs:
            if f.area == area:
                f.there = False

    def resize(self, width):
        self.width = width
        for f in self.figs:
            if f.there:
                f.size = width / f.d["per_line"]

    def window(self, k):
        live = [f for f in self.figs if f.there and f.rows]
        f = live[k % len(live)]
        a, b = f.x
        x = [a + 0.25 * (b - a), a + 0.5 * (b - a)]
        f.x = list(x)
        for names in self.sync.values():
            if f.name in names:
                for g in self.figs:
                    if g.name in names and g is not f:
                        g.x, g.y = list(x), list(f.y)
        return live.index(f), x


def near(a, b):
    return len(a) == len(b) and all(p is not None and abs(p - q) <= 1e-9 * max(1.0, abs(q)) for p, q in zip(a, b))


def check(res, what, model, obs):
    graphs = [g for g in obs["graphs"] if g["there"]]
    figs = [f for f in model.figs if f.there]
    if sorted(g["id"] for g in graphs) != sorted(f.name for f in figs):
        res.fail("graphs", "%s: %d graphs drawn, the page has %d figures" % (what, len(graphs), len(figs)))
        return False
    byid = {g["id"]: g for g in graphs}
    for f in figs:
        g, d = byid[f.name], f.d
        if g["given"] != f.rows:
            res.fail("data", "%s: a figure draws %r instead of %r" % (what, g["given"], f.rows))
            return False
        o = g["opts"]
        want = {"labels": d["data"]["labels"], "title": d["title"], "labelsDiv": f.legend, "stepPlot": d["step_plot"], "fillGraph": d["fill_graph"], "drawPoints": d["drawPoints"],
                "strokeWidth": d["strokeWidth"], "pointSize": d["pointSize"], "logscale": d["logscale"], "showRangeSelector": d["rangesel"]}
        for k, v in sorted(want.items()):
            if o.get(k) != v:
                res.fail("options", "%s: a figure has %s %r, expected %r" % (what, k, o.get(k), v))
                return False
        for k, v in (("fillAlpha", d.get("fill_alpha")), ("colors", f.colors)):
            if o.get(k) != v:
                res.fail("options", "%s: a figure has %s %r, expected %r" % (what, k, o.get(k), v))
                return False
        if o.get("rollPeriod", 1) != 1 or o.get("errorBars") or not o.get("connectSeparatedPoints"):
            res.fail("options", "%s: a figure averages, has error bars or gaps: %r" % (what, o))
            return False
        if not g["sizes"]:
            res.fail("size", "%s: a figure has no size" % what)
            return False
        w, h = g["sizes"][-1]
        if not (w is not None and f.size - 3.01 <= w <= f.size + 0.01) or h != d["height"]:
            res.fail("size", "%s: a figure is %r x %r, expected %r x %r" % (what, w, h, f.size, d["height"]))
            return False
        if not f.rows:
            res.tag("empty-figure")
            continue
        if not near(g["xr"], f.x):
            res.fail("window", "%s: %s shows times %r, expected %r" % (what, d["title"], g["xr"], f.x))
            return False
        if not near(g["yr"], f.y):
            res.fail("window", "%s: %s shows values %r, expected %r" % (what, d["title"], g["yr"], f.y))
            return False
        # zooming out again shows all data
        xs = [r[0] for r in g["raw"]]
        if not near(g["ext"], f.ext) or xs != sorted(xs):
            res.fail("extremes", "%s: %s has times %r, expected them sorted and from %r to %r" % (what, d["title"], xs, f.ext[0], f.ext[1]))
            return False
        if f.x[0] > f.ext[0]:
            res.tag("window-in-data")
        have = [r for r in g["raw"] if any(v is not None for v in r[1:])]
        if have != [r for r in f.rows if any(v is not None for v in r[1:])]:
            res.fail("data", "%s: %s has rows %r, expected %r" % (what, d["title"], have, f.rows))
            return False
        res.tag("joined" if f.joined else "shown-alone")
    live = set(f.name for f in figs)
    group = {f.name: f.group for f in model.figs}
    active = [s for s in obs["synced"] if len(set(s["ids"]) & live) >= 2]
    for s in active:
        if len(set(group[i] for i in s["ids"])) != 1:
            res.fail("synchronized", "%s: figures of different groups are synchronized" % what)
            return False
        g = group[s["ids"][0]]
        if sorted(model.sync.get(g, [])) != sorted(s["ids"]) or not s["zoom"] or not s["range"]:
            res.fail("synchronized", "%s: %d figures of a group are synchronized (%r), expected %d" % (what, len(s["ids"]), s, len(model.sync.get(g, []))))
            return False
        res.tag("synchronized")
    for g, ids in model.sync.items():
        if len(set(ids) & live) >= 2 and len([s for s in active if group[s["ids"][0]] == g]) != 1:
            res.fail("synchronized", "%s: the %d figures of a group are synchronized %d times" % (what, len(ids), len([s for s in active if group[s["ids"][0]] == g])))
            return False
    if any(f.group is not None and not f.d["syncZoom"] and f.joined for f in figs):
        res.tag("not-synchronized")
    return True


def errors(res, what, out, model):
    """What went wrong, but for the unused cells of the last row."""
    if "error" in out:
        res.fail("error", "%s: %s" % (what, out["error"]))
        return True
    unused = model.unused
    for e in out["errors"]:
        unused -= 1
        if unused < 0 or not c25.re.match(r"ReferenceError: (\w+) is not defined", e):
            res.fail("error", "%s: %s" % (what, e))
            return True
    return False


def play(res, todo):
    """todo: [(what, job, [model after each observation])]"""
    outs = node([j for _, j, _ in todo])
    for (what, _, models), out in zip(todo, outs):
        if errors(res, what, out, models[-1]):
            return
        if len(out["obs"]) != len(models):
            res.fail("error", "%s: %d observations" % (what, len(out["obs"])))
            return
        for i, (m, o) in enumerate(zip(models, out["obs"])):
            if not check(res, "%s, step %d" % (what, i), m, o):
                return
            res.run()
            res.step()


def options(res, case):
    todo = []
    for kw in case["kws"]:
        kw = dict(kw)
        nframes = kw.pop("frames")
        frames = [frame(i, 4 + i, 10.0 ** i) for i in range(nframes)]
        html = c25.show([frames], dict(kw, column=["v", "w"] if nframes < 3 else "v"), [{}])[0]
        if case["exported"]:
            html = TrappyPlotterPreprocessor().filter_output(html)
            res.tag("exported")
        m = Model(WIDTH)
        m.show(html)
        want = kw.get("drawstyle") is not None
        if any(f.d["step_plot"] != want for f in m.figs):
            res.fail("options", "drawstyle %r gives step_plot %r" % (kw.get("drawstyle"), m.figs[0].d["step_plot"]))
            return
        if kw.get("colors"):
            res.tag("colors")
        if kw.get("per_line", 2) > 1 and len(m.figs) > 1:
            res.tag("per-line")
        models = [copy.deepcopy(m)]
        m.resize(640.0)
        models.append(m)
        res.state(kw, nframes)
        todo.append(("%d frames, options %r" % (nframes, kw), {"steps": [{"do": "show", "html": html}, {"do": "graphs"}, {"do": "resize", "width": 640.0}, {"do": "graphs"}],
                                                              "width": WIDTH, "exported": case["exported"]}, models))
    play(res, todo)
    res.tag("options")


def plots():
    """Pages to show: (name, arguments)."""
    one, two = frame(0.0, 4, 1.0), frame(2.0, 5, 10.0)
    pivots = [frame(0.0, 3, 2.0, 0), frame(1.0, 4, 5.0, 1)]
    return [("alone", [one], {"column": "v"}),
            ("three", [frame(-1.0, 3, 3.0), one, two], {"column": "w", "sync_zoom": True, "per_line": 2, "concat": False, "_each": True}),
            ("g-sync", [two], {"column": "v", "group": "g", "sync_zoom": True}),
            ("g-sync-xlim", [frame(-3.0, 6, 7.0)], {"column": "v", "group": "g", "sync_zoom": True, "xlim": (-1.25, 0.5), "ylim": (-5, 100)}),
            ("g-free", [one], {"column": "v", "group": "g"}),
            ("empty", pivots, {"column": "v", "pivot": "k", "permute": True, "sync_zoom": True})]


ACTIONS = [("show", i) for i in range(6)] + [("clear", 0), ("clear", -1), ("resize", 520.0), ("window", 0), ("window", 1)]


def page(spec):
    _, frames, kw = spec
    kw = dict(kw)
    if kw.pop("_each", False):
        kw["pivot"] = "k"
        frames = [pd.concat([f.assign(k=i) for i, f in enumerate(frames)]).sort_index(kind="mergesort")]
    return c25.show([frames], kw, [{}])[0]


def histories(res, case):
    specs = plots()
    pages = {}
    todo = []
    for seq in case["seqs"]:
        m = Model(WIDTH)
        steps, models, shown = [], [], []
        count = {}
        names = []
        ok = True
        # the first plot of a notebook brings the scripts for all
        pre = TrappyPlotterPreprocessor() if case["exported"] else None
        for a, arg in [ACTIONS[i] for i in seq]:
            if a == "show":
                n = count[arg] = count.get(arg, -1) + 1
                if (arg, n) not in pages:
                    pages[arg, n] = page(specs[arg])
                html = pages[arg, n]
                if pre:
                    html = pre.filter_output(html)
                shown.append(m.areas)
                m.show(html)
                steps.append({"do": "show", "html": html})
                names.append(specs[arg][0])
            elif a == "clear":
                if not shown:
                    ok = False
                    break
                area = shown.pop(arg)
                m.clear(area)
                steps.append({"do": "clear", "area": area})
                names.append("clear %d" % area)
                res.tag("cleared")
            elif a == "resize":
                m.resize(arg)
                steps.append({"do": "resize", "width": arg})
                names.append("resize")
                res.tag("resized")
            else:
                if sum(1 for f in m.figs if f.there and f.rows) <= arg:
                    ok = False
                    break
                k, x = m.window(arg)
                steps.append({"do": "window", "graph": k, "range": x})
                names.append("zoom into figure %d" % k)
                res.tag("zoomed")
            steps.append({"do": "graphs"})
            models.append(copy.deepcopy(m))
        if not ok:
            continue
        if len(set(f.group for f in m.figs if f.there)) > 1:
            res.tag("two-groups")
        res.state(seq, case["exported"])
        todo.append(("history %r" % (names,), {"steps": steps, "width": WIDTH, "exported": case["exported"]}, models))
    play(res, todo)


def groups(res, case):
    """Plots that name no group are joined with no other plot."""
    specs = plots()
    seen = {}
    for i in range(60):
        spec = specs[case["specs"][i % len(case["specs"])]]
        mine = set(d["syncGroup"] for _, d in c25.parse(page(spec))[1])
        res.run()
        res.step()
        if len(mine) != 1 or mine & set(seen):
            return res.fail("group", "plot %d (%s), that names no group, is in the group of plot %r" % (i, spec[0], [seen[g] for g in mine if g in seen]))
        seen[mine.pop()] = i
        res.state(case["specs"], i)
    res.tag("own-group")
    return None


def run_case(case):
    res = Res()
    {"options": options, "histories": histories, "groups": groups}[case["what"]](res, case)
    return res


def explore(ctx):
    cases = []
    values = [("frames", [1, 2, 3]), ("drawstyle", [None, "steps-post"]), ("fill", [None, True]), ("fill_alpha", [None, 0.0, 0.25]), ("scatter", [None, True]), ("ylim", [None, (0, 20)]), ("xlim", [None, (1.0, 3.0), (-2.0, 12.5), (0.5, 40.0)]),
              ("colors", [None, [[1, 2, 3], [4, 5, 6]]]), ("shape", [(2, True, True), (1, False, False), (3, True, False), (2, False, True)])]
    kws = []
    for combo in itertools.product(*[v for _, v in values]):
        kw = {k: v for (k, _), v in zip(values, combo) if v is not None}
        kw["per_line"], kw["concat"], kw["sync_zoom"] = kw.pop("shape")
        kws.append(kw)
    if ctx.quick:
        kws = kws[::3]
    kws += [{"frames": n, "group": g, "per_line": 2, "concat": c, "sync_zoom": s} for n in (1, 2, 3) for g in (0, "", "a b", "7") for c in (True, False) for s in (True, False)]
    for exported in (False, True):
        cases += [{"what": "options", "exported": exported, "kws": kws[i:i + 40]} for i in range(0, len(kws), 40)]
    acts = range(len(ACTIONS))
    depth = 4 if ctx.quick else 5
    for n in range(1, depth + 1):
        seqs = [s for s in itertools.product(acts, repeat=n) if ACTIONS[s[0]][0] == "show"]
        cases += [{"what": "histories", "exported": False, "seqs": seqs[i:i + 250]} for i in range(0, len(seqs), 250)]
        if n < depth:
            cases += [{"what": "histories", "exported": True, "seqs": seqs[i:i + 250]} for i in range(0, len(seqs), 250)]
    cases += [{"what": "groups", "specs": s} for s in ([0], [1], [5], [0, 1], [0, 5], [1, 5, 0])]
    ctx.run_cases(run_case, cases)
