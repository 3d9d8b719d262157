"""C33: compare_runs shows every kind of plot for all runs, and their parameters.

Every list of one or two runs over contents (zones, GPU, weights), every zone
and size, is compared by the real code from the traces in directories; the
figures are compared with those of the single functions of plot_utils (whose
data C29 decides) for runs loaded separately, the printed parameters with the
files that were written.
"""
import itertools
import os
import re
import shutil

import matplotlib.pyplot as plt
import trappy
from IPython.core.interactiveshell import InteractiveShell
from IPython.utils.capture import capture_output
from mc import traces as T
from mc.core import Res
from trappy import plot_utils
from checks import c28, c29

PROPERTY = "C33"
LEVEL = "model_checking"
ASSUMPTIONS = ["every run has thermal, governor and PID events, and events of both clusters if it has power events", "actors are given in the order of the trace"]
MUST_SEE = ("one", "two", "same-names", "parameters", "no-parameters", "zone", "size", "gpu", "summary", "here", "refused", "no-power")
BOUNDS = "all pairs of 5 contents, alone too, x 3 zones x 2 sizes (quick: pairs in another size for one zone only); summaries of all contents by path and in the current directory; wrong types of arguments; runs without power events"

CONTENTS = {"plain": (c29.TEMPS["z01"], c29.GOVS["z01"], c29.POWERS["plain"], None), "gpu": (c29.TEMPS["z01"], c29.GOVS["z01"], c29.POWERS["gpu"], None),
            "weights": (c29.TEMPS["z01"], c29.GOVS["z01"], c29.POWERS["plain"], [1024, 512]), "late": (c29.TEMPS["z1"] + c29.TEMPS["z01"], c29.GOVS["z01"] * 2, c29.POWERS["late"], None),
            "gpu-weights": (c29.TEMPS["z0"] + c29.TEMPS["z1"], c29.GOVS["z0"] + c29.GOVS["z1"], c29.POWERS["gpu"], [2048, 1000])}
ACTORS = ["A57", "A53"]


def make(kind, path, seed, power=True):
    temps, govs, powers, weights = CONTENTS[kind]
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    if weights:
        base = os.path.join(path, "after", "sys", "devices", "virtual", "thermal", "thermal_zone0")
        os.makedirs(base)
        for a, w in enumerate(weights):
            T.write(os.path.join(base, "cdev%d_weight" % a), "%d\n" % (w + seed))
        T.write(os.path.join(base, "policy"), "power_allocator\n")
    c29.make("trace", temps, govs, pids=range(3), powers=powers if power else (), seed=seed, path=path)


def figures():
    out = []
    for n in plt.get_fignums():
        f = plt.figure(n)
        out.append((tuple(round(float(x), 6) for x in f.get_size_inches()),
                    [(ax.get_title(), sorted(c29.lines_of(ax)), [(round(float(p.get_x()), 9), float(p.get_height())) for p in ax.patches],
                      [round(float(x), 9) for x in ax.get_xlim() + ax.get_ylim()], [t.get_text() for t in (ax.get_legend().get_texts() if ax.get_legend() else [])])
                     for ax in f.axes]))
    return out


def compare(res, case):
    InteractiveShell.instance()
    base = os.path.abspath("cmp%d" % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    cwd = os.getcwd()
    try:
        runs = []
        for i, (kind, name) in enumerate(zip(case["runs"], case["names"])):
            make(kind, os.path.join(base, "d%d" % i), i, power=case.get("power", True))
            runs.append((name, os.path.join(base, "d%d" % i)))
        plt.close("all")
        mapping = dict(c29.MAP)
        what = "compare_runs of %r named %r, options %r" % (case["runs"], case["names"], case["kw"])
        kw = dict(case["kw"])
        with T.cache(False):
            with capture_output() as c:
                try:
                    if case["how"] == "compare":
                        trappy.compare_runs(list(ACTORS), mapping, runs, **kw)
                    elif case["how"] == "summary":
                        trappy.summary_plots(list(ACTORS), mapping, path=runs[0][1], title=runs[0][0], **kw)
                    else:
                        os.chdir(runs[0][1])
                        trappy.summary_plots(list(ACTORS), mapping, **kw)
                        runs = [("", runs[0][1])]
                except ValueError:
                    if case.get("power", True):
                        raise
                    res.tag("no-power")
                    res.run()
                    return
                finally:
                    os.chdir(cwd)
            if not case.get("power", True):
                res.fail("no-power", what + ": there are no power events, but it did not fail")
                return
            got = figures()
            plt.close("all")
            if mapping != c29.MAP:
                res.fail("altered", what + ": the mapping was altered")
            trs = [trappy.FTrace(path, name=name, scope="thermal") for name, path in runs]
        size = {"width": kw.get("width", 20), "height": kw.get("height", 5)}
        tz = {"tz_id": kw["tz_id"]} if "tz_id" in kw else {}
        plot_utils.plot_temperature(trs, **dict(size, **tz))
        plot_utils.plot_load(trs, c29.MAP, **size)
        plot_utils.plot_allfreqs(trs, c29.MAP, **size)
        plot_utils.plot_controller(trs, **size)
        plot_utils.plot_input_power(trs, ACTORS, **size)
        plot_utils.plot_output_power(trs, ACTORS, **size)
        plot_utils.plot_freq_hists(trs, c29.MAP)
        plot_utils.plot_temperature_hist(trs)
        want = figures()
        res.run()
        res.step(len(runs))
        res.state(case["runs"], sorted(kw.items()))
        left = list(want)
        for g in got:
            if g not in left:
                res.fail("figures", "%s: shows %r, which is none of the plots of these runs" % (what, g))
                return
            left.remove(g)
        if left:
            res.fail("figures", "%s: does not show %r" % (what, left[0]))
            return
        pages = [o.data["text/html"] for o in c.outputs if "text/html" in o.data]
        tables = []
        for i, kind in enumerate(case["runs"]):
            w = CONTENTS[kind][3]
            if w:
                tables.append([("cdev%d_weight" % a, str(x + i)) for a, x in enumerate(w)] + [("policy", "power_allocator")])
        cells = [[x.strip() for x in re.findall(r"<t[hd][^>]*>(.*?)</t[hd]>", p, re.S)] for p in pages]
        if cells != [[x for pair in t for x in pair] for t in tables]:
            res.fail("parameters", "%s: shows the parameters %r, expected %r" % (what, cells, tables))
            return
        res.tag("parameters" if tables else "no-parameters")
        tags = [("one", len(runs) == 1), ("two", len(runs) == 2), ("same-names", len(set(case["names"])) < len(runs)), ("zone", "tz_id" in kw), ("size", "width" in kw),
                ("gpu", any("gpu" in k for k in case["runs"])), ("summary", case["how"] == "summary"), ("here", case["how"] == "here")]
        res.tag(*[t for t, on in tags if on])
    finally:
        os.chdir(cwd)
        plt.close("all")
        shutil.rmtree(base, ignore_errors=True)


def refused(res, case):
    for actors, mapping in [("GPU", {}), (("GPU",), {}), ({"GPU": 1}, {}), (None, {}), (["GPU"], []), (["GPU"], "x"), (["GPU"], None), (["GPU"], [("0000000f", "A7")])]:
        for how in (lambda: trappy.compare_runs(actors, mapping, runs=[("n", "/nowhere")]), lambda: trappy.summary_plots(actors, mapping, path="/nowhere")):
            try:
                how()
                res.fail("accepted", "actor_order %r, map_label %r were accepted" % (actors, mapping))
            except TypeError:
                res.tag("refused")
            res.run()
            res.step()
            res.state(repr(actors), repr(mapping))


def run_case(case):
    res = Res()
    (refused if case["what"] == "refused" else compare)(res, case)
    return res


def explore(ctx):
    cases = [{"what": "refused"}]
    for n in (1, 2):
        for kinds in itertools.product(sorted(CONTENTS), repeat=n):
            for tz in (None, 0, 1):
                for size in ((False, True) if n == 1 or tz == 0 or not ctx.quick else (False,)):
                    kw = {} if tz is None else {"tz_id": tz}
                    if size:
                        kw.update(width=9, height=4)
                    cases.append({"what": "compare", "how": "compare", "runs": kinds, "names": ["r", "r" if size else "s"][:n], "kw": kw})
    for k in sorted(CONTENTS):
        for how in ("summary", "here"):
            for kw in ({}, {"width": 7}, {"tz_id": 1}):
                cases.append({"what": "compare", "how": how, "runs": [k], "names": ["t"], "kw": kw})
        for other in ([], ["plain"]):
            cases.append({"what": "compare", "how": "compare", "runs": [k] + other, "names": ["a", "b"][:1 + len(other)], "kw": {}, "power": False})
    ctx.run_cases(run_case, cases)
