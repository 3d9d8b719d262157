"""C31: results and parameters of Workload Automation are read exactly.

metrics   every metric of a language of prefixes, separators and numbers
results   every results.csv of up to N rows over run ids, workloads, metrics
          and values, read by directory, file and name, plotted and combined
combine   every pair (and triple) of small results of the same benchmarks
sysfs     every subset of the properties and every content of a file
"""
import itertools
import os
import re
import shutil

import matplotlib.pyplot as plt
import trappy.wa
from IPython.core.interactiveshell import InteractiveShell
from IPython.utils.capture import capture_output
from mc.core import Res
from trappy.wa.results import get_run_number

PROPERTY = "C31"
LEVEL = "model_checking"
ASSUMPTIONS = ["at most one number, at the end, in run ids and metrics", "results.csv has the columns of Workload Automation and at least one result",
               "results that are combined have the same benchmarks and different run ids"]
MUST_SEE = ("score", "no-score", "overall", "numbered", "repeated", "missing-run", "float", "name", "directory", "file", "cwd", "combined", "plot", "enlarged",
            "sysfs", "no-newline", "text", "weights", "ignored", "no-sysfs", "printed")
BOUNDS = ("all metrics of 10 prefixes x 3 separators x 7 numbers; all results of up to 3 (thorough 4) rows of 3 run ids x 2 workloads x 5 metrics, the first with all values; all pairs and "
          "triples of results with 6 sets of runs each; all subsets of 5 kinds of sysfs files and all 14 contents, with and without a trailing newline")

IDS = ["power_allocator_1", "step_wise_2", "power_allocator_13"]
LOADS = ["antutu", "t-rex_offscreen"]
METRICS = ["Overall_Score", "Overall_Score_2", "score", "FPS_1", "Memory_score"]
VALUES = ["5", "242.0522", "1e3", "-3", "0", "12345678901"]


def run_number(metric):
    """The specification: None if it's no score."""
    if not metric.startswith(("Overall_Score", "score", "FPS")):
        return None
    m = re.match(r"(.*)[ _]([0-9]+)$", metric)
    if m is None:
        return 0
    return int(m.group(2)) - (m.group(1) == "Overall_Score")


def write(path, rows):
    with open(path, "w") as f:
        f.write("id,workload,iteration,metric,value,units\n")
        for r in rows:
            f.write("%s,%s,1,%s,%s,\n" % r)


def want_results(rows, name=None):
    out = {}
    for run, load, metric, value in rows:
        n = run_number(metric)
        if n is not None:
            key = (load, name or re.sub(r"_[0-9]+$", "", run))
            out.setdefault(key, {}).setdefault(n, float(value))
    return out


def observe(res):
    if type(res).__name__ != "Result" or not isinstance(res, trappy.wa.Result):
        return "not a Result but a %s" % type(res).__name__
    out = {}
    for pos, col in enumerate(res.columns):
        vals = {}
        for run, v in zip(res.index, res.iloc[:, pos]):
            if v == v:
                vals[int(run)] = float(v)
        if tuple(col) in out:
            return "column %r twice" % (col,)
        out[tuple(col)] = vals
    return out


def metrics(case):
    r = Res()
    for sep, num in itertools.product([" ", "_", ""], ["", "0", "1", "2", "3", "10", "23"]):
        metric = case["prefix"] + sep + num
        if (num == "" and sep) or (num and not sep):
            continue
        n = run_number(metric)
        got = get_run_number(metric)
        r.state(metric, n)
        r.run()
        r.step()
        r.equal((bool(got[0]), got[1] if got[0] else None), (n is not None, n), "run-number", "get_run_number(%r)" % metric)
        if n is None:
            r.tag("no-score")
        elif num:
            r.tag("numbered")
        if case["prefix"] == "Overall_Score":
            r.tag("overall")
    return r


def results(case):
    r = Res()
    base = os.path.abspath("res%d" % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    path = os.path.join(base, "results.csv")
    cwd = os.getcwd()
    try:
        for seq in case["seqs"]:
            rows = []
            for i, j in enumerate(seq):
                run, load, metric = j // 10, j // 5 % 2, j % 5
                rows.append((IDS[run], LOADS[load], METRICS[metric], VALUES[case["value"]] if i == case.get("at", 0) else "%d%s" % (10 * i + 7, ".5" if i == 2 else "")))
            want = want_results(rows)
            if not want:
                continue
            r.state(rows)
            r.step(len(rows))
            write(path, rows)
            what = "results.csv with %r" % (rows,)
            if not r.equal(observe(trappy.wa.get_results(base)), want, "results", what):
                return r
            r.run()
            r.tag("score", "directory")
            if any("." in v or "e" in v for _, _, _, v in rows):
                r.tag("float")
            if len(rows) > sum(len(v) for v in want.values()):
                r.tag("repeated")
            if case["more"]:
                other = os.path.join(base, "other.csv")
                os.rename(path, other)
                r.equal(observe(trappy.wa.get_results(other)), want, "file", what)
                r.equal(observe(trappy.wa.get_results(path=other, name="malkovich")), want_results(rows, "malkovich"), "name", what + " with a name")
                r.equal(observe(trappy.wa.get_results(other, rows[0][0])), want_results(rows, rows[0][0]), "name", what + " with a name like its run's")
                os.rename(other, path)
                os.chdir(base)
                try:
                    res = trappy.wa.get_results()
                finally:
                    os.chdir(cwd)
                r.equal(observe(res), want, "cwd", what)
                r.run(4)
                r.tag("file", "name", "cwd")
                plots(r, res, want, what)
            if r.fails:
                return r
    finally:
        os.chdir(cwd)
        plt.close("all")
        shutil.rmtree(base, ignore_errors=True)
    return r


def bars(ax):
    out = {}
    for cont in ax.containers:
        out.setdefault(cont.get_label(), []).append([float(p.get_height()) for p in cont.patches])
    return out


def plots(r, res, want, what):
    runs = sorted(set(n for v in want.values() for n in v))
    order = [int(i) for i in res.index]
    r.equal(sorted(order), runs, "runs", what)

    def expect(load):
        return {run: [[vals.get(n, 0.0) for n in order]] for (l, run), vals in want.items() if l == load}
    loads = sorted(set(l for l, _ in want))
    if any(len(v) < len(runs) for v in want.values()):
        r.tag("missing-run")
    for load in loads:
        plt.close("all")
        res.ax = None
        res.plot_results_benchmark(load)
        ax = plt.gca()
        r.equal(bars(ax), expect(load), "bars", "bars of %s of %s" % (load, what))
        r.equal(ax.get_title(), load.replace("_", " ").title(), "title", what)
        r.equal([t.get_text() for t in ax.get_xticklabels()], [str(n) for n in order], "ticks", what)
        res.plot_results_benchmark(load, title="My title")
        r.equal(plt.gca().get_title(), "My title", "title", what)
        r.run(2)
        plt.close("all")
        res.init_fig()
        res.plot_results_benchmark(load)
        res.enlarge_axis(res[load])
        lo, hi = res.ax.get_ylim()
        vals = [v for (l, _), vs in want.items() if l == load for v in vs.values()]
        r.equal(bars(res.ax), expect(load), "bars", "bars of %s of %s in the given axes" % (load, what))
        r.expect(lo < min(vals) and hi > max(vals), "limits", "the axis from %r to %r clips the results %r" % (lo, hi, vals))
        for limits in ((min(vals) - 1, min(vals) + 0.5), (max(vals) - 0.5, max(vals) + 1), (min(vals), max(vals) + 3), (min(vals) - 20, max(vals) + 20)):
            res.ax.set_ylim(*limits)
            res.enlarge_axis(res[load])
            lo, hi = res.ax.get_ylim()
            r.expect(lo < min(vals) and hi > max(vals) and lo <= limits[0] and hi >= limits[1], "limits", "the axis from %r to %r, enlarged from %r, clips the results %r" % (lo, hi, limits, vals))
            r.run()
        r.run()
        r.tag("plot", "enlarged")
    plt.close("all")
    res.ax = None
    res.plot_results()
    figs = [plt.figure(n) for n in plt.get_fignums()]
    got = [[bars(a) for a in f.axes] for f in figs]
    r.equal(sorted(got, key=repr), sorted([[expect(l)] for l in loads], key=repr), "plot-results", "plot_results() of %s" % what)
    r.run()
    plt.close("all")


RUNS = [[0], [1], [0, 1], [1, 0], [2, 0], [0, 1, 2]]


def combine(case):
    r = Res()
    base = os.path.abspath("comb%d" % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    try:
        data, want, before = [], {}, []
        for k, sets in enumerate(case["parts"]):
            rows = []
            for load, runs in zip(LOADS, sets):
                for n in RUNS[runs]:
                    rows.append((("run%s_1" if not case.get("ids") or n % 2 else "other%s_3") % "abc"[k], load, "score_%d" % n, "%d" % (100 * k + 10 * n + LOADS.index(load))))
            if case["rev"]:
                rows.reverse()
            path = os.path.join(base, "r%d.csv" % k)
            write(path, rows)
            want.update(want_results(rows))
            data.append(trappy.wa.get_results(path))
            before.append(observe(data[-1]))
        r.state(case["parts"])
        got = trappy.wa.combine_results(data)
        r.equal(observe(got), want, "combined", "combine_results of %r" % (before,))
        r.equal([observe(d) for d in data], before, "altered", "the results combined")
        r.run()
        r.step(len(data))
        r.tag("combined")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return r


PROPS = ["integral_cutoff", "k_d", "k_i", "k_po", "k_pu", "policy", "sustainable_power"]
NUMBERED = ["cdev0_weight", "cdev1_weight", "cdev12_weight", "trip_point_0_temp", "trip_point_10_temp"]
OTHERS = ["temp", "trip_point_0_type", "cdev0_trip_point", "k_x", "mode", "weight", "trip_point_temp"]
CONTENTS = ["0", "1024", "-12", "72000", "power_allocator", "step_wise", "7 8", "0x10", "", "1.5", "a\nb", "12\n", "\n", "007"]


def sysfs(case):
    r = Res()
    base = os.path.abspath("sys%d" % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    dirn = os.path.join(base, "after", "sys", "devices", "virtual", "thermal", "thermal_zone0")
    os.makedirs(dirn)
    try:
        want = {}
        for i, (name, content, newline) in enumerate(case["files"]):
            with open(os.path.join(dirn, name), "w") as f:
                f.write(content + ("\n" if newline else ""))
            if name in PROPS or name in NUMBERED:
                text = content if newline or not content.endswith("\n") else content[:-1]
                try:
                    want[name] = int(text)
                except ValueError:
                    want[name] = text
                r.tag("sysfs")
                if not newline and not content.endswith("\n"):
                    r.tag("no-newline")
                if want[name] == text:
                    r.tag("text")
                if name in NUMBERED:
                    r.tag("weights")
            else:
                r.tag("ignored")
        if case.get("dir"):
            os.mkdir(os.path.join(dirn, case["dir"]))
            r.tag("ignored")
        if case.get("gone"):
            shutil.rmtree(dirn)
            want = {}
            r.tag("no-sysfs")
        r.state(sorted(want.items()))
        ext = trappy.wa.SysfsExtractor(base)
        what = "files %r" % (case["files"],)
        for again in range(2):
            got = ext.get_parameters()
            r.equal({k: (type(v).__name__, v) for k, v in got.items()}, {k: (type(v).__name__, v) for k, v in want.items()}, "parameters", what)
            r.run()
            r.step()
        if case.get("print"):
            InteractiveShell.instance()
            with capture_output() as c:
                ext.pretty_print_in_ipython()
            html = [o.data["text/html"] for o in c.outputs if "text/html" in o.data]
            if not want:
                r.equal(html, [], "printed", what)
            elif r.expect(len(html) == 1, "printed", "%d pages for %s" % (len(html), what)):
                cells = re.findall(r"<t[hd][^>]*>(.*?)</t[hd]>", html[0], re.S)
                pairs = [(k, str(want[k])) for k in sorted(want)]
                r.equal([c.strip() for c in cells], [x.strip() for p in pairs for x in p], "printed", what)
                r.tag("printed")
            r.run()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return r


def run_case(case):
    return {"metrics": metrics, "results": results, "combine": combine, "sysfs": sysfs}[case["what"]](case)


def explore(ctx):
    cases = [{"what": "metrics", "prefix": p} for p in ["Overall_Score", "score", "FPS", "Memory_score", "Score", "fps", "FPS_average", "Overall_Score_offscreen", "overall_Score", ""]]
    sysf = []
    for n in range(6):
        for sub in itertools.combinations(range(5), n):
            files = []
            for k in sub:
                files += [(nm, str(10 * i + k) if k != 1 else "policy%d" % i, True) for i, nm in
                          enumerate([PROPS[:3], PROPS[3:], NUMBERED[:3], NUMBERED[3:], OTHERS][k])]
            for gone in (False, True):
                sysf.append({"what": "sysfs", "files": files, "print": True, "gone": gone, "dir": None if 0 in sub else "k_d"})
    for name in PROPS + NUMBERED:
        sysf.append({"what": "sysfs", "files": [(name, "12", True)], "print": True})
        for content in CONTENTS:
            for nl in (True, False):
                sysf.append({"what": "sysfs", "files": [(name, content, nl), ("k_d" if name != "k_d" else "k_i", "5", True)]})
    ctx.run_cases(run_case, cases + sysf)
    comb = []
    for rev in (False, True):
        for a in itertools.product(range(len(RUNS)), repeat=2):
            for b in itertools.product(range(len(RUNS)), repeat=2):
                comb.append({"what": "combine", "parts": [a, b], "rev": rev})
                comb.append({"what": "combine", "parts": [a, b], "rev": rev, "ids": True})
        for p in itertools.product(range(len(RUNS)), repeat=3):
            comb.append({"what": "combine", "parts": [(x, p[0]) for x in p], "rev": rev})
    ctx.run_cases(run_case, comb)
    res = []
    for n in range(1, 3):
        for value in range(len(VALUES)):
            seqs = list(itertools.product(range(30), repeat=n))
            for i in range(0, len(seqs), 40):
                res.append({"what": "results", "seqs": seqs[i:i + 40], "value": value, "more": n == 1 or (value == 1 and i % 200 == 0)})
    for n in ((3,) if ctx.quick else (3, 4)):
        # ids are interchangeable up to renaming: the first row has the first workload
        seqs = [s for s in itertools.product(range(30), repeat=n) if s[0] // 5 % 2 == 0 and (n < 4 or s[0] < 10)]
        for i in range(0, len(seqs), 150):
            res.append({"what": "results", "seqs": seqs[i:i + 150], "value": 0, "more": False})
    ctx.run_cases(run_case, res)
    more = [{"what": "results", "seqs": [s], "value": 3, "more": True} for s in
            ([0, 1, 5, 6, 10, 13], [3, 2, 13, 12, 8, 17, 27], [13, 2], [3, 12, 1], [7, 8, 16, 1, 11, 2])]
    more += [{"what": "results", "seqs": [[a, b, c]], "value": v, "at": at, "more": True}
             for a in (1, 2, 3) for b in (11, 12, 13) for c in (6, 7, 8, 17, 18) for v in (3, 4) for at in (1, 2)]
    more += [{"what": "results", "seqs": [p], "value": 4, "at": at, "more": True} for at in range(3) for p in itertools.permutations([8, 18, 2])]
    ctx.run_cases(run_case, more)
