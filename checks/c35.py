"""C35: the page of EventPlot shows what happened in the visible window.

The pages that the real EventPlot makes are run with their real JavaScript by
node, against stand-ins for the libraries; what is on the page is read back.

windows    every list of disjoint intervals on a grid, seen through every
           window
histories  every sequence of actions of a user (zoom, pan, brush, resize,
           markers, information), what is seen compared after each
options    summaries, colors, lanes, several plots, exported notebooks
"""
import itertools
import json
import os
import subprocess

import trappy
from mc.core import HarnessError, Res
from trappy.nbexport.exporter import TrappyPlotterPreprocessor
from trappy.plotter.EventPlot import EventPlot

PROPERTY = "C35"
LEVEL = "model_checking"
ASSUMPTIONS = ["intervals of a lane are given in order and don't overlap", "d3 3.5, d3-tip, jQuery and requirejs behave like their stand-ins in mc/page.js", "the brush is not empty",
               "intervals narrower than 0.01 pixels may not be seen, those narrower than a pixel are a pixel wide"]
MUST_SEE = ("window", "clipped", "hidden", "narrow", "zoom", "pan", "brush", "resize", "marker-a", "marker-b", "both-markers", "marker-outside", "info", "no-info", "info-outside", "touching",
            "no-summary", "colors", "some-colors", "two-plots", "exported", "named-lanes", "keys")
BOUNDS = ("all lists of up to 3 (thorough 4) disjoint intervals on a grid of 7 times, also in two lanes, x all windows of a half step grid; all histories of up to 3 (thorough 4) of 17 actions on four data "
          "sets, with and without summary; options and pairs of plots on histories of up to 2")
PAGE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "page.js")
WIDTH = 1085.0
MARGIN = 85.0


def node(jobs):
    js = os.path.join(os.path.dirname(trappy.__file__), "plotter", "js")
    for j in jobs:
        j.setdefault("js", {n: os.path.join(js, n + ".js") for n in ("EventPlot", "ILinePlot")})
        j.setdefault("width", WIDTH)
    p = subprocess.Popen(["node", "--stack-size=4000", PAGE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out, err = p.communicate(json.dumps(jobs).encode())
    if p.returncode != 0:
        raise HarnessError("node failed: %s" % err.decode()[-1500:])
    return json.loads(out.decode())


def html_of(data, keys, domain, pre=None, **kw):
    html = EventPlot(data, keys, domain, **kw).html()
    return pre.filter_output(html) if pre else html


class View(object):
    """The model: what the user should see."""

    def __init__(self, data, keys, domain, labels, width=WIDTH, colors=None, summary=True):
        # data: {name: [(start, end, label)]}
        self.data = {k: v for k, v in data.items() if k in keys and sum(e[1] - e[0] for e in v)}
        self.all = data
        self.dom = tuple(map(float, domain))
        self.win = self.dom
        self.labels = labels
        self.w = width - MARGIN
        self.a = self.b = self.info = None
        self.colors = colors
        self.summary = summary

    def time(self, px):
        return self.win[0] + px / self.w * (self.win[1] - self.win[0])

    def px(self, t, win=None):
        a, b = win or self.win
        return (t - a) / (b - a) * self.w

    def zoom(self, p, factor, dx):
        a, b = self.win
        full = self.dom[1] - self.dom[0]
        scale = min(4096.0, max(1.0, full / (b - a) * factor))
        t, w = self.time(p), full / scale
        a = t - p / self.w * w - dx / self.w * w
        if a < self.dom[0]:
            a = self.dom[0]
        elif a + w > self.dom[1]:
            a = self.dom[1] - w
        self.win = (a, a + w)

    def brush(self, p0, p1):
        full = self.dom[1] - self.dom[0]
        self.win = tuple(self.dom[0] + p / self.w * full for p in (p0, p1))

    def click(self, px, lane, ctrl, alt):
        t = self.time(px)
        if ctrl and alt:
            for name in self.all:
                for s, e, l in self.all[name]:
                    if l == lane and s <= t <= e:
                        self.info = (name, s, e, lane)
                        return True
            return False
        if ctrl:
            self.b = t
        else:
            self.a = t

    def resize(self, width):
        self.w = width - MARGIN


def union(spans):
    out = []
    for a, b in sorted(spans):
        if out and a <= out[-1][1] + 1e-6:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def covers(spans, a, b, tol):
    """[a, b] lies in the union of spans, but for tol."""
    return any(s - tol <= a and b <= e + tol for s, e in spans)


def check_paths(res, view, chart, win, what, tol=1e-3):
    """The strokes of a chart are the intervals seen through win."""
    lanes = chart["lanes"]
    if [l for l, _ in lanes] != list(view.labels) or any(y2 <= y1 for (_, y1), (_, y2) in zip(lanes, lanes[1:])):
        return "has the lanes %r, expected %r" % (lanes, view.labels)
    got = {}
    names = {}
    for p in chart["paths"]:
        key = p["name"] or p["color"]
        if p["name"]:
            if names.setdefault(p["name"], p["color"]) != p["color"]:
                return "%s is drawn in two colors" % p["name"]
        for s in p["lines"]:
            if len(s) != 3 or s[0] == "?":
                return "has a stroke %r" % (s,)
            lane = min(lanes, key=lambda l: abs(l[1] - s[2]))
            step = lanes[1][1] - lanes[0][1] if len(lanes) > 1 else 30.0
            if abs(lane[1] - s[2]) > 0.25 * step + 1:
                return "has a stroke at height %r, lanes are at %r" % (s[2], lanes)
            got.setdefault((key, lane[0]), []).append((min(s[:2]), max(s[:2])))
    want, maybe = {}, {}
    for name, ivs in view.data.items():
        key = name if chart["named"] else chart["color"].get(name)
        for s, e, lane in ivs:
            a, b = max(s, win[0]), min(e, win[1])
            if a > b:
                if e > s:
                    res.tag("hidden")
                continue
            x0, x1 = view.px(a, win), view.px(b, win)
            if (a, b) != (s, e):
                res.tag("clipped")
            if x1 - x0 < 0.0101:
                maybe.setdefault((key, lane), []).append((x0, x0 + 1))
                res.tag("narrow")
                continue
            if x1 - x0 < 1:
                res.tag("narrow")
            want.setdefault((key, lane), []).append((x0, max(x1, x0 + 1)))
    for k, spans in want.items():
        have = union(got.get(k, []))
        for a, b in spans:
            if not covers(have, a, b, tol):
                return "does not show %r from pixel %.3f to %.3f, but %r" % (k, a, b, have)
    for k, spans in got.items():
        allowed = union(want.get(k, []) + maybe.get(k, []))
        for a, b in spans:
            if not covers(allowed, a, b, tol):
                return "shows %r from pixel %.3f to %.3f, expected %r" % (k, a, b, allowed)
    if names:
        for n, c in names.items():
            if view.colors and n in view.colors and c != view.colors[n]:
                return "%s is drawn in %r, expected %r" % (n, c, view.colors[n])
        own = [c for n, c in names.items() if n not in (view.colors or {})]
        if len(set(own)) < len(own):
            return "two names have the same color: %r" % names
    return None


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(b))


def check(res, view, charts, what):
    infos = [c for c in charts if c["cls"] == "info"]
    minis = [c for c in charts if c["brush"]]
    mains = [c for c in charts if c not in infos and c not in minis]
    if len(infos) != 1 or len(mains) != 1 or len(minis) != int(view.summary):
        res.fail("charts", "%s: %d views, %d summaries, %d information bars" % (what, len(mains), len(minis), len(infos)))
        return False
    main = mains[0]
    main["named"] = True
    axes = main["axes"]
    if len(axes) != 1 or not all(near(a, b) for a, b in zip(axes[0]["domain"] + axes[0]["range"], view.win + (0.0, view.w))):
        res.fail("axis", "%s: the axis is %r, expected %r over %r pixels" % (what, axes, view.win, view.w))
        return False
    for chart in mains + minis:
        bad = [l for l in chart["rules"] if not (near(l[0], 0.0) and near(l[1], view.w))]
        if bad or not near(chart["width"], view.w + MARGIN):
            res.fail("size", "%s: a chart is %r wide, with lines at %r, expected %r pixels" % (what, chart["width"], bad[:1], view.w + MARGIN))
            return False
        bad = [p["lines"][0] for p in chart["paths"] if any(len(s) > 2 and not 0 <= s[2] < chart["height"] for s in p["lines"])]
        if bad:
            res.fail("size", "%s: the chart is %r high, with strokes at %r" % (what, chart["height"], bad[0]))
            return False
    msg = check_paths(res, view, main, view.win, what)
    if msg:
        res.fail("view", "%s: the view from %r to %r %s" % (what, view.win[0], view.win[1], msg))
        return False
    if view.summary:
        mini = minis[0]
        mini["named"] = False
        mini["color"] = {p["name"]: p["color"] for p in main["paths"]}
        mini["color"].update(view.seen_colors)
        axes = mini["axes"]
        if len(axes) != 1 or not all(near(a, b) for a, b in zip(axes[0]["domain"] + axes[0]["range"], view.dom + (0.0, view.w))):
            res.fail("summary", "%s: the axes of the summary are %r" % (what, axes))
            return False
        msg = check_paths(res, view, mini, view.dom, what)
        if msg:
            res.fail("summary", "%s: the summary %s" % (what, msg))
            return False
        if len(mini["brush"]) != 1 or not all(near(a, b) for a, b in zip(mini["brush"][0], view.win)):
            res.fail("summary", "%s: the brush is at %r, the view at %r" % (what, mini["brush"], view.win))
            return False
    # the markers
    want = []
    for text, t in (("A", view.a), ("B", view.b)):
        if t is not None and view.win[0] - 1e-9 <= t <= view.win[1] + 1e-9:
            edge = min(abs(t - view.win[0]), abs(t - view.win[1])) < 1e-7
            want.append((text, view.px(t), edge))
        elif t is not None:
            res.tag("marker-outside")
    got = {g["text"]: g for g in main["guides"]}
    if len(got) != len(main["guides"]):
        res.fail("markers", "%s: markers %r" % (what, main["guides"]))
        return False
    for text, px, edge in want:
        g = got.pop(text, None)
        if g is None and edge:
            continue
        if g is None or not (near(g["x"], px, 1e-5) and near(g["x1"], px, 1e-5) and near(g["x2"], px, 1e-5)):
            res.fail("markers", "%s: marker %s is at %r, expected pixel %r" % (what, text, g, px))
            return False
    if got:
        res.fail("markers", "%s: unexpected markers %r" % (what, got))
        return False
    texts = [t for t in infos[0]["texts"] if t]
    want = []
    if view.a is not None:
        want.append("A = %.6f" % view.a)
    if view.b is not None:
        want.append("B = %.6f" % view.b)
    if view.info:
        name, s, e, _ = view.info
        want += [name, "%.6f to %.6f (%.6f)" % (s, e, e - s)]
    delta = [t for t in texts if t.startswith("A - B") or t.startswith("B - A") or t.lower().startswith("delta")]
    rest = [t for t in texts if t not in delta]
    if sorted(map(rounded, rest)) != sorted(map(rounded, want)):
        res.fail("information", "%s: shows %r, expected %r" % (what, rest, want))
        return False
    both = view.a is not None and view.b is not None
    if len(delta) != int(both) or both and abs(abs(float(delta[0].split("=")[1])) - abs(view.a - view.b)) > 1.1e-6:
        res.fail("information", "%s: difference %r of the markers at %r and %r" % (what, delta, view.a, view.b))
        return False
    rects = main["rects"]
    shown = None
    if view.info:
        a, b = max(view.info[1], view.win[0]), min(view.info[2], view.win[1])
        if a < b:
            shown = (view.px(a), view.px(b) - view.px(a))
        else:
            res.tag("info-outside")
    if shown is None and rects or shown is not None and (len(rects) != 1 or not near(rects[0][0], shown[0], 1e-4) or not near(rects[0][1], shown[1], 1e-4)):
        res.fail("information", "%s: highlights %r, expected %r" % (what, rects, shown))
        return False
    if shown is not None:
        y = dict(main["lanes"])[view.info[3]]
        if not rects[0][2] <= y <= rects[0][2] + rects[0][3]:
            res.fail("information", "%s: highlights height %r, the lane is at %r" % (what, rects, y))
            return False
    return True


def rounded(text):
    """Texts, but for the last digit of numbers."""
    out = []
    for w in text.replace("(", " ").replace(")", " ").split():
        try:
            out.append("%.5f" % (float(w) + 1e-7))
        except ValueError:
            out.append(w)
    return " ".join(out)


ACTIONS = [("zoom", 200, 2, 0), ("zoom", 900, 4, 0), ("zoom", 500, 0.5, 0), ("zoom", 0, 1, -300), ("zoom", 0, 1, 170), ("zoom", 600, 1e6, 0), ("brush", 0.1, 0.35), ("brush", 0.3, 0.95), ("brush", 0.0, 1.0),
           ("resize", 585.0), ("resize", 2085.0), ("a", 0.25, 0), ("a", 0.9, 1), ("b", 0.5, 0), ("info", 0.30711, 0), ("info", 0.62, 1), ("info", 0.03, 0)]


def steps(view, action, plot):
    """Apply an action to the model; (step for the page, tags)."""
    kind, args = action[0], action[1:]
    if kind == "zoom":
        view.zoom(*args)
        return {"do": "zoom", "plot": plot, "p": args[0], "factor": args[1], "dx": args[2]}, ["pan" if args[2] else "zoom"]
    if kind == "brush":
        p = [a * view.w for a in args]
        view.brush(*p)
        return {"do": "brush", "plot": plot, "p0": p[0], "p1": p[1]}, ["brush"]
    if kind == "resize":
        return {"do": "resize", "width": args[0]}, ["resize"]
    x, lane = args[0] * view.w, view.labels[args[1] % len(view.labels)]
    found = view.click(x, lane, kind != "a", kind == "info")
    tags = {"a": ["marker-a"], "b": ["marker-b"], "info": ["info" if found else "no-info"]}[kind]
    if view.a is not None and view.b is not None:
        tags.append("both-markers")
    return {"do": "click", "plot": plot, "x": x, "lane": lane, "ctrl": kind != "a", "alt": kind == "info"}, tags


def drive(res, plots, seq, exported=False):
    """plots: [(html, View)]; seq: [(plot, action)].  Returns (job, verify)."""
    todo = [{"do": "show", "html": h} for h, _ in plots]
    views = [v for _, v in plots]
    todo.append({"do": "events"})
    import copy
    model = [copy.deepcopy(views)]
    tags = set()
    for plot, action in seq:
        views = copy.deepcopy(views)
        step, t = steps(views[plot], action, plot)
        if action[0] == "resize":
            for v in views:
                v.resize(action[1])
        tags.update(t)
        todo += [step, {"do": "events"}]
        model.append(views)

    def verify(out, what):
        if "error" in out:
            res.fail("error", "%s: %s" % (what, out["error"]))
            return False
        if out["errors"]:
            res.fail("error", "%s: %s" % (what, out["errors"][0]))
            return False
        for i, (obs, vs) in enumerate(zip(out["obs"], model)):
            if len(obs) != len(vs):
                res.fail("count", "%s: %d plots" % (what, len(obs)))
                return False
            for k, (o, v) in enumerate(zip(obs, vs)):
                v.seen_colors = {}
                for first in out["obs"][:1]:
                    for c in first[k]["charts"]:
                        v.seen_colors.update({p["name"]: p["color"] for p in c["paths"] if p["name"]})
                if not check(res, v, o["charts"], "%s, after %r, plot %d" % (what, [a for _, a in seq[:i]], k)):
                    return False
            res.run()
            res.step()
        res.tag(*tags)
        return True
    return {"steps": todo, "exported": exported}, verify


def as_data(ivs, labels):
    """{name: [(s, e, lane index)]} -> data for EventPlot and the model."""
    return {k: [[s, e, l] for s, e, l in v] for k, v in ivs.items()}, {k: [(s, e, labels[l]) for s, e, l in v] for k, v in ivs.items()}


def lists(points, n):
    """All ordered lists of up to n disjoint intervals over the points."""
    def grow(lo, k):
        yield []
        if k:
            for i in range(lo, len(points)):
                for j in range(i, len(points)):
                    if i == j and lo == i and i > 0:
                        continue
                    for rest in grow(j, k - 1):
                        yield [(points[i], points[j])] + rest
    return [l for l in grow(0, n) if l]


GRID = [0.0, 1.0, 2.0, 2.0005, 4.0, 5.0, 6.0]
EDGES = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 4.5, 5.0, 5.5, 6.0]
LABELS = ["Lane: 0", "Lane: 1"]


def windows(res, case):
    jobs, verifies, whats = [], [], []
    for ivs in case["lists"]:
        named = {"n%d" % k: [(s, e, l) for s, e, l in v] for k, v in enumerate(ivs)}
        data, model = as_data(named, LABELS)
        if not any(sum(e - s for s, e, _ in v) for v in named.values()):
            continue
        view = View(model, list(data), (0.0, 6.0), LABELS)
        seq = [(0, ("brush", a / 6.0, b / 6.0)) for a, b in case["windows"]]
        job, verify = drive(res, [(html_of(data, list(data), (0.0, 6.0), num_lanes=2), view)], seq)
        jobs.append(job)
        verifies.append(verify)
        whats.append("intervals %r" % (named,))
        res.state(named)
        if any(x[1] == y[0] for v in named.values() for x, y in zip(v, v[1:])):
            res.tag("touching")
    for out, verify, what in zip(node(jobs), verifies, whats):
        if not verify(out, what):
            return
    res.tag("window")


SETS = {"plain": {"task a": [(0.5, 2.0, 0), (3.0, 3.5, 0), (7.0, 9.9, 1)], "b": [(2.0, 3.0, 0), (0.0, 4.0, 1), (5.0, 10.0, 0)]},
        "dense": {"x": [(0.1 * i, 0.1 * i + 0.04, 0) for i in range(100)], "y": [(0.1 * i + 0.05, 0.1 * i + 0.0500001 + 0.0002 * (i % 7), 0) for i in range(100)], "z": [(2.5, 2.6, 1)]},
        # a window that starts late, and times of microseconds
        "late": {"p": [(100.000123, 100.250127, 1), (101.5, 102.000001, 1)], "q": [(100.100007, 101.123457, 0)], "r": [(101.0625, 101.0625017, 2), (103.0, 104.0, 0)], "s": [(102.200123, 103.6000007, 1)]}}
SETS["one"] = {"m": [(-1.5, 0.25, 0), (1.0, 2.0, 0)], "n": [(0.25, 0.75, 0)]}
DOMAINS = {"late": (100.0, 104.0), "one": (-2.0, 3.0)}


def histories(res, case):
    labels = {"late": LABELS + ["Lane: 2"], "one": LABELS[:1]}.get(case["set"], LABELS)
    data, model = as_data(SETS[case["set"]], labels)
    domain = DOMAINS.get(case["set"], (0.0, 10.0))
    html = html_of(data, list(data), domain, num_lanes=len(labels), summary=case["summary"])
    jobs, verifies, whats = [], [], []
    for seq in case["seqs"]:
        view = View(model, list(data), domain, labels, summary=case["summary"])
        acts = [(0, ACTIONS[i]) for i in seq]
        job, verify = drive(res, [(html, view)], acts)
        jobs.append(job)
        verifies.append(verify)
        whats.append("data %s, summary %r" % (case["set"], case["summary"]))
        res.state(case["set"], case["summary"], seq)
    for out, verify, what in zip(node(jobs), verifies, whats):
        if not verify(out, what):
            return
    if not case["summary"]:
        res.tag("no-summary")


def options(res, case):
    plots, what = [], "options %r" % (case["plots"],)
    # the first plot of a notebook brings the scripts for all
    pre = TrappyPlotterPreprocessor() if case["exported"] else None
    for opt in case["plots"]:
        labels = opt.get("lanes") or ["%s%d" % (opt.get("lane_prefix", "Lane: "), i) for i in range(3)]
        src = SETS[opt["set"]]
        data, model = as_data(src, labels)
        if opt.get("lanes"):
            data = {k: [[s, e, labels[l]] for s, e, l in v] for k, v in src.items()}
        kw = {k: opt[k] for k in ("lanes", "lane_prefix", "color_map", "summary", "stride") if k in opt}
        if "lanes" not in opt:
            kw["num_lanes"] = 3
        keys = opt.get("keys", list(data))
        domain = DOMAINS.get(opt["set"], (0.0, 10.0))
        view = View(model, keys, domain, labels, colors=opt.get("color_map"), summary=opt.get("summary", True))
        plots.append((html_of(data, keys, domain, pre=pre, **kw), view))
        tags = [("colors", opt.get("color_map") and len(opt["color_map"]) == len(keys)), ("some-colors", opt.get("color_map") and len(opt["color_map"]) < len(keys)), ("named-lanes", "lanes" in opt),
                ("keys", "keys" in opt)]
        res.tag(*[t for t, on in tags if on])
    if case["exported"]:
        res.tag("exported")
    if len(plots) > 1:
        res.tag("two-plots")
    jobs, verifies = [], []
    for seq in case["seqs"]:
        job, verify = drive(res, plots, [(p % len(plots), ACTIONS[i]) for p, i in seq], exported=case["exported"])
        jobs.append(job)
        verifies.append(verify)
        res.state(what, seq)
    for out, verify in zip(node(jobs), verifies):
        if not verify(out, what):
            return


def run_case(case):
    res = Res()
    {"windows": windows, "histories": histories, "options": options}[case["what"]](res, case)
    return res


def explore(ctx):
    cases = []
    wins = [(a, b) for a in EDGES for b in EDGES if a < b]
    one = lists(GRID, 3 if ctx.quick else 4)
    all_lists = [[[(s, e, 0) for s, e in l]] for l in one]
    # two lanes of one name, and two names in the same lane and in different ones
    short = lists([0.0, 1.0, 2.0, 5.0], 2)
    all_lists += [[[(s, e, 0) for s, e in a] + [(s, e, 1) for s, e in b]] for a in short for b in short]
    all_lists += [[[(s, e, 1) for s, e in a], [(s, e, 0) for s, e in b]] for a in short for b in short]
    for i in range(0, len(all_lists), 12):
        cases.append({"what": "windows", "lists": all_lists[i:i + 12], "windows": wins})
    for name in sorted(SETS):
        for summary in (True, False):
            acts = [i for i, a in enumerate(ACTIONS) if summary or a[0] != "brush"]
            depth = 3 if ctx.quick else 4
            if not summary or name != "plain":
                depth -= 1
            for n in range(1, depth + 1):
                seqs = list(itertools.product(acts, repeat=n))
                cases += [{"what": "histories", "set": name, "summary": summary, "seqs": seqs[i:i + 150]} for i in range(0, len(seqs), 150)]
    opts = [{"set": "plain"}, {"set": "plain", "lanes": ["big", "LITTLE 0", "x"]}, {"set": "dense", "lane_prefix": "cpu"}, {"set": "plain", "color_map": {"task a": "red", "b": "#00ff00"}},
            {"set": "plain", "color_map": {"b": "red"}}, {"set": "plain", "color_map": {"task a": "blue"}}, {"set": "dense", "color_map": {"z": "#102030", "y": "black"}},
            {"set": "late", "color_map": {"r": "#00f"}}, {"set": "late", "lanes": ["c", "a", "b"], "keys": ["s", "p", "r"]}, {"set": "plain", "keys": ["b"]}, {"set": "dense", "keys": ["z", "x"], "summary": False}, {"set": "dense", "stride": True, "color_map": {"x": "a", "y": "b", "z": "c"}}]
    acts = range(len(ACTIONS))
    nobrush = [i for i in acts if ACTIONS[i][0] != "brush"]
    for exported in (False, True):
        for o in opts:
            use = nobrush if not o.get("summary", True) else list(acts)
            cases.append({"what": "options", "plots": [o], "exported": exported, "seqs": [[]] + [[(0, i)] for i in use] + ([[(0, i), (0, j)] for i in use for j in use if i != j][::5])})
        for pair in ([opts[0], opts[1]], [opts[3], opts[2]], [opts[2], opts[10]], [opts[10], opts[0]]):
            use = [[(p, i) for i in (nobrush if not o.get("summary", True) else acts)] for p, o in enumerate(pair)]
            both = use[0] + use[1]
            cases.append({"what": "options", "plots": pair, "exported": exported, "seqs": [[x] for x in both]})
            if not exported:
                seqs = [[x, y] for x in both for y in both if x[0] != y[0]]
                cases += [{"what": "options", "plots": pair, "exported": False, "seqs": seqs[i:i + 100]} for i in range(0, len(seqs), 100)]
    ctx.run_cases(run_case, cases)
