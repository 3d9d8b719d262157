"""C29: the thermal plots draw the data of every run, each in its own place.

Every pair of runs over an alphabet of contents (which thermal zones, which
clusters, with or without GPU, governor or weights) is parsed by the real code
and plotted with every function of trappy.plot_utils; the axes of the figure
are compared with the events the traces were printed from.
"""
import itertools
import os
import shutil

import matplotlib.pyplot as plt
import numpy as np
import trappy
from mc import traces as T
from mc.core import Res
from trappy import plot_utils
from checks import c28

PROPERTY = "C29"
LEVEL = "model_checking"
ASSUMPTIONS = ["each run has the events that are plotted (plot_temperature: thermal or governor events of the zone)", "actors are given in the order of the trace"]
MUST_SEE = ("temperature", "zone", "zone-0", "governor-only", "no-governor", "two-runs", "three-runs", "hist", "hist-skip", "hist-none", "load", "allfreqs", "freq-hists", "gpu", "some-gpu",
            "controller", "input", "output", "weights", "many-weights", "no-weights", "some-weights", "limits", "own-axes", "unnamed", "inout",
            "setup", "own", "own-gpu", "own-plain", "hist-labels")
BOUNDS = ("all runs of 4 thermal x 4 governor contents, alone and in all pairs, x 4 zones; all lists of up to 3 runs out of 4 (histograms) and 5 (loads and frequencies) contents; "
          "controllers, input, output and weighted powers of 2 to 12 actors; limits, sizes and axes given on a subset; "
          "every method on its own figure and on given axes x 4 sizes x 2 titles; all combinations of limits, labels and titles of the set up")

MAP = {c28.SMALL: "A57", c28.BIG: "A53"}
TEMPS = {"none": [], "z0": [(0, 40000), (0, 41500), (0, 39000)], "z1": [(1, 60000)], "z01": [(1, 50500), (0, 45000), (1, 52000), (0, 46000)]}
GOVS = {"none": [], "z0": [(0, 40200, 4800), (0, 41100, 3900)], "z1": [(1, 61000, -1000)], "z01": [(0, 42000, 3000), (1, 58000, 7000), (0, 43000, 2000)]}
# contents for loads and frequencies: indexes into c28.EVENTS
POWERS = {"plain": [0, 2, 4, 5, 1, 3, 6], "gpu": [0, 7, 2, 9, 4, 8, 5, 3], "late": [5, 4, 6, 3, 0, 2, 1], "gpu-in": [2, 0, 7, 4, 5], "one": [0, 4]}


def make(name, temps=(), govs=(), actors=2, pids=(), powers=(), seed=0, path="."):
    """A loaded run and the events it has: {kind: [(time, values)]}."""
    lines, evs = [], {"temp": [], "gov": [], "pid": [], "power": []}
    t = [1.5 + seed]

    def add(event, data):
        lines.append(T.line("%.6f" % t[0], event, data))
        t[0] += 0.5
    for i, (zone, temp) in enumerate(temps):
        evs["temp"].append((t[0], (zone, temp + 100 * seed)))
        add("thermal_temperature", "thermal_zone=tz%d id=%d temp_prev=39000 temp=%d" % (zone, zone, temp + 100 * seed))
        if i < len(govs):
            evs["gov"].append((t[0],) + (gov(add, govs[i], actors, i, seed),))
    for i, g in enumerate(govs):
        if i >= len(temps):
            evs["gov"].append((t[0],) + (gov(add, g, actors, i, seed),))
    for i in range(len(pids)):
        row = {"output": 2410 + i + seed, "p": -2046 * i, "i": -45 + i, "d": 7 * i * i + seed}
        evs["pid"].append((t[0], row))
        add("thermal_power_allocator_pid", "thermal_zone_id=0 err=%d err_integral=9 p=%d i=%d d=%d output=%d" % (i, row["p"], row["i"], row["d"], row["output"]))
    for k in powers:
        e = c28.EVENTS[k]
        if e[3] is not None and e[0] == "gin":
            e = e[:3] + (e[3] + seed,)
        evs["power"].append((t[0], e))
        add(*c28.payload(e))
    if not lines:
        add("ev_other", "a=1")
    T.write(os.path.join(path, name + ".txt"), T.text(lines))
    with T.cache(False):
        return trappy.FTrace(os.path.join(path, name + ".txt"), name=name if name != "anon" else "", scope="thermal", normalize_time=False), evs


def gov(add, g, actors, i, seed):
    zone, cur, delta = g
    req = [100 * (a + 1) + i + seed for a in range(actors)]
    granted = [50 * (a + 1) + 2 * i + seed for a in range(actors)]
    add("thermal_power_allocator", "thermal_zone_id=%d req_power={%s} total_req_power=%d granted_power={%s} total_granted_power=%d power_range=9 max_allocatable_power=8 "
        "current_temperature=%d delta_temperature=%d" % (zone, " ".join(map(str, req)), sum(req), " ".join(map(str, granted)), sum(granted), cur, delta))
    return {"zone": zone, "cur": cur, "control": (cur + delta) / 1000.0, "req": req, "granted": granted}


def title(what, name):
    return what if name in ("", "anon") else name + " - " + what


def lines_of(ax):
    out = []
    for l in ax.lines:
        pts = [(float(x), float(y)) for x, y in zip(l.get_xdata(), np.ma.filled(np.ma.asarray(l.get_ydata(), dtype=float), np.nan)) if y == y]
        pts = [p for p in pts if p[1] == p[1]]
        if pts:
            out.append((l.get_label(), pts))
    return out


def same_lines(got, want):
    if [g[0] for g in got] != [w[0] for w in want] and sorted(g[0] for g in got) != sorted(w[0] for w in want):
        return False
    got, want = sorted(got), sorted(want)
    return all(len(g) == len(w) and all(abs(a - b) < 1e-6 and abs(x - y) <= 1e-9 * max(1, abs(y)) for (a, x), (b, y) in zip(g, w)) for (_, g), (_, w) in zip(got, want))


def compare(res, what, axes, want):
    """want: {number of axes: (title, [(label, points)])}; all other axes are empty."""
    for i, ax in enumerate(axes):
        t, lines = want.get(i, ("", []))
        if ax.get_title() != t:
            res.fail("title", "%s: plot %d is called %r, expected %r" % (what, i, ax.get_title(), t))
            return False
        got = lines_of(ax)
        if not same_lines(got, lines):
            res.fail("lines", "%s: plot %d (%s) has %r, expected %r" % (what, i, t, got, lines))
            return False
        if ax.patches:
            res.fail("lines", "%s: plot %d has bars" % (what, i))
            return False
    if len(axes) <= max(want):
        res.fail("count", "%s: %d plots" % (what, len(axes)))
        return False
    return True


def temperature_lines(evs, name, zone):
    """[(label, points)] or None if there is nothing of the zone."""
    sel = lambda z: zone is None or z == zone
    temps = [(t, v / 1000.0) for t, (z, v) in evs["temp"] if sel(z)]
    ctrl = [(t, g["control"]) for t, g in evs["gov"] if sel(g["zone"])]
    out = []
    if temps:
        out.append((title("Temperature", name), temps))
        if ctrl:
            out.append((title("Control", name), ctrl))
        return out
    if ctrl:
        return [(title("Temperature", name), [(t, g["cur"] / 1000.0) for t, g in evs["gov"] if sel(g["zone"])]), ("control temperature", ctrl)]
    return None


def temperature(res, case):
    names = case["names"]
    runs = [make(n, TEMPS[a], GOVS[b], seed=i) for i, (n, (a, b)) in enumerate(zip(names, case["runs"]))]
    for zone in case["zones"]:
        lines = [temperature_lines(e, n, zone) for n, (_, e) in zip(names, runs)]
        if None in lines:
            continue
        what = "plot_temperature of %r, zone %r" % (case["runs"], zone)
        plt.close("all")
        kw = {"ylim": (10, 90)} if case["limits"] else {}
        plot_utils.plot_temperature([r for r, _ in runs], tz_id=zone, **kw)
        res.run()
        res.step(len(runs))
        fig = plt.gcf()
        want = {0: ("Temperature", [l for ls in lines for l in ls])}
        if len(plt.get_fignums()) != 1 or not compare(res, what, fig.axes, want):
            res.fail("figures", what + ": %d figures" % len(plt.get_fignums()))
            return
        lo, hi = fig.axes[0].get_ylim()
        vals = [y for ls in lines for _, p in ls for _, y in p]
        if case["limits"] and (lo, hi) != (10, 90) or not case["limits"] and (lo > min(vals) or hi < max(vals)):
            res.fail("limits", "%s: limits %r for values %r" % (what, (lo, hi), vals))
            return
        res.state(case["runs"], zone)
        tags = [("temperature", 1), ("zone", zone is not None), ("zone-0", zone == 0), ("limits", case["limits"]), ("unnamed", "anon" in names), ("governor-only", any(a == "none" for a, _ in case["runs"])),
                ("no-governor", any(b == "none" for _, b in case["runs"])), ("two-runs", len(runs) == 2)]
        res.tag(*[t for t, on in tags if on])
    # the methods themselves, on given axes and on their own
    run, evs = runs[0]
    for zone in case["zones"]:
        temps = [(t, v / 1000.0) for t, (z, v) in evs["temp"] if zone is None or z == zone]
        for own in (True, False):
            plt.close("all")
            ax = None if own else plt.subplots()[1]
            try:
                run.thermal.plot_temperature(ax=ax, tz_id=zone, title="T", legend_label="x")
            except ValueError:
                if temps:
                    raise
                continue
            res.run()
            if not temps:
                res.fail("accepted", "thermal.plot_temperature of %r has no data of zone %r, but did not fail" % (case["runs"][0], zone))
                return
            if not compare(res, "thermal.plot_temperature", plt.gcf().axes, {0: ("T - Temperature" if own else "", [("x - Temperature", temps)])}):
                return
            res.tag("own-axes")


def check_hist(res, what, ax, t, unit, bins, data, name):
    data = np.array(data, dtype=float)
    counts, edges = np.histogram(data, bins=bins)
    std = data.std(ddof=1) if len(data) > 1 else float("nan")
    full = "%s (mean = %.2f%s, std = %.2f)" % (title(t, name), data.mean(), unit, std)
    # the unit is not pinned: it is prose
    import re
    m = re.match(r"^(.*) \(mean = (-?[\d.]+|nan)(\D*), std = (-?[\d.]+|nan)\)$", ax.get_title())
    if not m or m.group(1) != title(t, name) or m.group(2) != "%.2f" % data.mean() or m.group(4) != "%.2f" % std:
        res.fail("hist-title", "%s: title %r, expected %r" % (what, ax.get_title(), full))
        return False
    got = [(p.get_x(), p.get_height()) for p in ax.patches]
    if len(got) != bins or any(abs(x - e) > 1e-6 * max(1, abs(e)) or h != c for (x, h), e, c in zip(got, edges, counts)):
        res.fail("hist", "%s: bars %r do not count the values %r" % (what, got, list(data)))
        return False
    quantity = "Temperature" if t == "Temperature" else "Frequency"
    if not ax.get_xlabel().startswith(quantity) or ax.get_ylabel() != "count":
        res.fail("hist-labels", "%s: axes labelled %r and %r" % (what, ax.get_xlabel(), ax.get_ylabel()))
        return False
    res.tag("hist-labels")
    if abs(ax.get_xlim()[1] - data.max()) > 1e-6 * data.max() or ax.get_xlim()[0] != 0:
        res.fail("hist", "%s: limits %r for values up to %r" % (what, ax.get_xlim(), data.max()))
        return False
    return True


def hist(res, case):
    names = ["r%d" % i for i in range(len(case["runs"]))]
    runs = [make(n, TEMPS[a], seed=i) for i, (n, a) in enumerate(zip(names, case["runs"]))]
    plt.close("all")
    plot_utils.plot_temperature_hist([r for r, _ in runs])
    res.run()
    res.step(len(runs))
    what = "plot_temperature_hist of %r" % (case["runs"],)
    have = [(n, [v / 1000.0 for _, (_, v) in e["temp"]]) for n, (_, e) in zip(names, runs) if e["temp"]]
    axes = plt.gcf().axes if plt.get_fignums() else []
    if len(axes) != len(have):
        res.fail("count", "%s: %d plots, expected %d" % (what, len(axes), len(have)))
        return
    for ax, (n, data) in zip(axes, have):
        if not check_hist(res, what, ax, "Temperature", "C", 30, data, n):
            return
    res.state(case["runs"])
    res.tag("hist" if have else "hist-none")
    if 0 < len(have) < len(runs):
        res.tag("hist-skip")


def power_tables(evs):
    """Like c28.expected, at the times of this run."""
    times = [t for t, _ in evs]
    tables = c28.expected([e for _, e in evs])
    real = lambda ts: [times[int(round(t - 10.5))] for t in ts]

    def conv(v):
        return [(n, (real(ts), cols)) for n, (ts, cols) in v] if isinstance(v, list) else (real(v[0]), v[1])
    return {k: conv(v) for k, v in tables.items()}


def points(table, col):
    return [(t, v) for t, v in zip(table[0], table[1][col]) if v is not None]


def joined(table, other):
    """Both tables on the union of their times, values held."""
    cols = {c: dict(points(table, c)) for c in table[1]}
    cols.update({c: dict(points(other, c)) for c in other[1]})
    times = sorted(set(table[0]) | set(other[0]))
    return times, {c: c28.hold(s, times) for c, s in cols.items()}


def loads(res, case):
    n = len(case["runs"])
    names = ["r%d" % i for i in range(n)]
    runs = [make(nm, powers=POWERS[k], seed=i) for i, (nm, k) in enumerate(zip(names, case["runs"]))]
    trs = [r for r, _ in runs]
    tables = [power_tables(e["power"]) for _, e in runs]
    gins = [[(t, e) for t, e in ev["power"] if e[0] == "gin"] for _, ev in runs]
    what = "%s of %r" % (case["plot"], case["runs"])
    mapping = MAP
    plt.close("all")
    res.run()
    res.step(n)
    if case["plot"] == "plot_load":
        plot_utils.plot_load(trs, mapping)
        axes, want = plt.gcf().axes, {}
        if len(axes) != 2 * n:
            res.fail("count", "%s: %d plots" % (what, len(axes)))
            return
        for i, (tab, gin) in enumerate(zip(tables, gins)):
            top = max([e[2] for _, e in gin] or [1])
            load, norm = tab["load"], tab["normalised"]
            if gin:
                load = joined(load, ([t for t, _ in gin], {"GPU": [float(e[3]) for _, e in gin]}))
                norm = joined(norm, ([t for t, _ in gin], {"GPU": [e[3] * e[2] / float(top) for _, e in gin]}))
            for row, (t, table) in enumerate([("Utilization", load), ("Normalized Utilization", norm)]):
                want[row * n + i] = (title(t, names[i]), [(c, points(table, c)) for c in table[1]])
        if not compare(res, what, axes, want):
            return
        res.tag("load")
    elif case["plot"] == "plot_allfreqs":
        plot_utils.plot_allfreqs(trs, mapping)
        axes, want = plt.gcf().axes, {}
        rows = 2 + any(gins)
        if len(axes) != rows * n:
            res.fail("count", "%s: %d plots" % (what, len(axes)))
            return
        for i, tab in enumerate(tables):
            for row, (label, table) in enumerate(tab["all"]):
                want[row * n + i] = (title("allfreqs " + label, names[i]), [(c, points(table, c)) for c in table[1]])
        if not compare(res, what, axes, want):
            return
        res.tag("allfreqs")
    else:
        plot_utils.plot_freq_hists(trs, mapping)
        axes = plt.gcf().axes
        rows = 2 * (2 + any(gins))
        if len(axes) != rows * n:
            res.fail("count", "%s: %d plots" % (what, len(axes)))
            return
        for i, tab in enumerate(tables):
            both = "gin" in tab and "gout" in tab
            for half, (kind, gpu, word) in enumerate([("out", "gout", "out"), ("in", "gin", "in")]):
                table = tab[kind]
                if both:
                    table = joined(table, (tab[gpu][0], {"GPU": tab[gpu][1]["freq"]}))
                used = {}
                for row in range(rows // 2):
                    ax = axes[(half * rows // 2 + row) * n + i]
                    if ax.get_title():
                        used[row] = ax
                if len(used) != len(table[1]):
                    res.fail("hist", "%s: %d histograms of run %d %s, expected %d" % (what, len(used), i, kind, len(table[1])))
                    return
                left = dict(table[1])
                for ax in used.values():
                    actor = [c for c in left if " %s (mean" % c in ax.get_title()]
                    if not actor or not check_hist(res, what, ax, "freq %s %s" % (word, actor[0]), "", 20, [v for v in left.pop(actor[0]) if v is not None], names[i]):
                        res.fail("hist", "%s: unexpected histogram %r" % (what, ax.get_title()))
                        return
        res.tag("freq-hists")
    res.state(case["plot"], case["runs"])
    if any(gins):
        res.tag("gpu" if all(gins) else "some-gpu")
    if n == 3:
        res.tag("three-runs")


def powers(res, case):
    n, actors, weights = case["n"], case["actors"], case["weights"]
    names = ["r%d" % i for i in range(n)]
    order = ["actor%d" % ((7 * a + 3) % actors if actors % 7 else a) for a in range(actors)]
    runs = []
    given = []
    try:
        for i, nm in enumerate(names):
            os.makedirs(nm)
            w = None
            if weights == "all" or weights == "some" and i == n - 1:
                base = os.path.join(nm, "after", "sys", "devices", "virtual", "thermal", "thermal_zone0")
                os.makedirs(base)
                w = [1024 + 256 * a * (-1) ** i + 10 * i for a in range(actors)]
                for a, x in enumerate(w):
                    T.write(os.path.join(base, "cdev%d_weight" % a), "%d\n" % x)
            given.append(w)
            runs.append(make(nm, govs=GOVS["z01"], actors=actors, pids=range(3), seed=i, path=nm))
    finally:
        trs = [r for r, _ in runs]
    try:
        what = "%s of %d runs, %d actors, %s weights" % (case["plot"], n, actors, weights)
        plt.close("all")
        if case["plot"] == "plot_controller":
            plot_utils.plot_controller(trs)
            res.tag("controller")
        elif case["plot"] == "plot_output_power":
            plot_utils.plot_output_power(trs, order)
            res.tag("output")
        elif case["plot"] == "plot_input_power":
            plot_utils.plot_input_power(trs, order)
            res.tag("input")
        else:
            plot_utils.plot_weighted_input_power(trs, order)
    finally:
        for nm in names:
            shutil.rmtree(os.path.join(os.getcwd(), nm))
    res.run()
    res.step(n)
    figs = [plt.figure(f).axes for f in plt.get_fignums()]
    want = []

    def each(what_title, fn):
        return {i: (title(what_title, nm), fn(ev, i)) for i, (nm, (_, ev)) in enumerate(zip(names, runs))}
    if case["plot"] == "plot_controller":
        want.append(each("PID", lambda ev, i: [(k, [(t, float(r[k])) for t, r in ev["pid"]]) for k in ("output", "p", "i", "d")]))
    if case["plot"] in ("plot_input_power", "plot_output_power"):
        key, t = ("req", "Input Power") if case["plot"] == "plot_input_power" else ("granted", "Output Power")
        want.append(each(t, lambda ev, i: [(o, [(t, float(g[key][a])) for t, g in ev["gov"]]) for a, o in enumerate(order)]))
    if case["plot"] in ("plot_input_power", "plot_weighted_input_power") and any(given):
        w = each("Weighted Input Power", lambda ev, i: [(o, [(t, g["req"][a] * given[i][a] / 1024.0) for t, g in ev["gov"]]) for a, o in enumerate(order)] if given[i] else [])
        want.append({i: v for i, v in w.items() if given[i]})
        res.tag("weights", *(["many-weights"] if actors > 10 else []) + (["some-weights"] if None in given else []))
    elif case["plot"] != "plot_controller":
        res.tag("no-weights")
    if len(figs) != len(want) or any(len(f) != n for f in figs):
        res.fail("figures", "%s: figures with %r plots" % (what, [len(f) for f in figs]))
        return
    for f, w in zip(figs, want):
        if not compare(res, what, f, w):
            return
    res.state(case["plot"], n, actors, weights)


def inout(res, case):
    """plot_inout_power: one plot per actor with a P<actor>_in and _out field."""
    actors = case["actors"]
    lines, want = [], {}
    for i in range(2):
        vals = {a: (10 * k + i, 20 * k + 3 * i) for k, a in enumerate(actors)}
        t = 2.5 + i
        lines.append(T.line("%.6f" % t, "thermal_power_allocator", "thermal_zone_id=0 " + " ".join("P%s_in=%d P%s_out=%d" % (a, x, a, y) for a, (x, y) in vals.items()) + " Ptot_in=%d Ptot_out=3" % i))
        for a, (x, y) in vals.items():
            want.setdefault(a, ([], []))
            want[a][0].append((t, float(x)))
            want[a][1].append((t, float(y)))
    T.write("t.txt", T.text(lines))
    with T.cache(False):
        tr = trappy.FTrace("t.txt", scope="thermal", normalize_time=False)
    plt.close("all")
    tr.thermal_governor.plot_inout_power(title=case["title"])
    res.run()
    figs = [plt.figure(f).axes for f in plt.get_fignums()]
    if len(figs) != len(actors):
        res.fail("figures", "plot_inout_power: %d figures for the actors %r" % (len(figs), actors))
        return
    for f, a in zip(figs, actors):
        if not compare(res, "plot_inout_power", f, {0: (title(a, case["title"]), [("P%s_in" % a, want[a][0]), ("P%s_out" % a, want[a][1])])}):
            return
    res.state(actors)
    res.tag("inout")


SIZES = [(None, None), (12, None), (None, 5), (12, 5)]


def size_ok(fig, width, height, nrows=1):
    w, h = [float(x) for x in fig.get_size_inches()]
    return (width is None or w == width) and (height is None or h == height * nrows) and w > 0 and h > 0


def setup(res, case):
    """The figures and limits that all plots are made with."""
    for width, height in SIZES + [(7, 9)]:
        for ncols, nrows in itertools.product((1, 2, 3), repeat=2):
            plt.close("all")
            ax = plot_utils.pre_plot_setup(width=width, height=height, ncols=ncols, nrows=nrows)
            res.run()
            shape = np.shape(ax)
            want = tuple(x for x in (nrows, ncols) if x > 1)
            if shape != want or len(plt.get_fignums()) != 1 or len(plt.gcf().axes) != ncols * nrows or not size_ok(plt.gcf(), width, height, nrows):
                res.fail("setup", "pre_plot_setup(%r, %r, %d, %d): %r axes, %r inches" % (width, height, ncols, nrows, shape, plt.gcf().get_size_inches()))
                return
            for i, a in enumerate(plt.gcf().axes):
                got = ax if not want else np.ravel(ax)[i]
                if got is not a:
                    res.fail("setup", "pre_plot_setup(%r, %r, %d, %d): axes in another order" % (width, height, ncols, nrows))
                    return
    limits = ["default", "range", (-3, 12), (0, 0.5)]
    for xlim, ylim, title_, xlabel, ylabel in itertools.product(limits + [None], limits + [None], ("", "a title"), (None, "xx"), (None, "yy")):
        plt.close("all")
        ax = plt.subplots()[1]
        ax.set_xlabel("old x")
        ax.set_ylabel("old y")
        ax.set_title("old")
        ax.plot([1., 2., 5.], [10., -30., 20.])
        xo, yo = ax.get_xlim(), ax.get_ylim()
        kw = {}
        if xlim is not None:
            kw["xlim"] = xlim
        if ylim is not None:
            kw["ylim"] = ylim
        plot_utils.post_plot_setup(ax, title=title_, xlabel=xlabel, ylabel=ylabel, **kw)
        res.run()

        def lim(kind, old, default):
            kind = kind or default
            if kind == "default":
                return old
            if kind == "range":
                d = 0.1 * (old[1] - old[0])
                return (old[0] - d, old[1] + d)
            return kind
        got = [ax.get_xlim(), ax.get_ylim(), ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]
        want = [lim(xlim, xo, "default"), lim(ylim, yo, "range"), title_ or "old", xlabel or "old x", ylabel or "old y"]
        if got[2:] != want[2:] or any(abs(a - b) > 1e-9 for g, w in zip(got[:2], want[:2]) for a, b in zip(g, w)):
            res.fail("setup", "post_plot_setup(%r): %r, expected %r" % ((xlim, ylim, title_, xlabel, ylabel), got, want))
            return
        res.state(got)
    res.tag("setup")


def own(res, case):
    """Every plotting method on its own figure, and on axes that it is given."""
    run, ev = make("run", TEMPS["z01"], GOVS["z01"], actors=2, pids=range(3), powers=POWERS[case["powers"]])
    tab = power_tables(ev["power"])
    gin = [(t, e) for t, e in ev["power"] if e[0] == "gin"]
    order = ["GPU", "A15"]
    load, norm = tab["load"], tab["normalised"]
    if gin:
        top = max(e[2] for _, e in gin)
        load = joined(load, ([t for t, _ in gin], {"GPU": [float(e[3]) for _, e in gin]}))
        norm = joined(norm, ([t for t, _ in gin], {"GPU": [e[3] * e[2] / float(top) for _, e in gin]}))
    cols = lambda table: [(c, points(table, c)) for c in table[1]]
    zone = lambda rows, f, z: [(t, f(v)) for t, v in rows if z is None or v[0] == z]
    temps = lambda z: zone(ev["temp"], lambda v: v[1] / 1000.0, z)
    cur = lambda z: [(t, g["cur"] / 1000.0) for t, g in ev["gov"] if z is None or g["zone"] == z]
    ctl = lambda z: [(t, g["control"]) for t, g in ev["gov"] if z is None or g["zone"] == z]
    import pandas as pd
    control = pd.Series([40., 41., 42.], index=[1., 2., 3.])
    methods = {
        "plot_load": (lambda **k: run.plot_load(MAP, **k), "Utilization", cols(load)),
        "plot_normalized_load": (lambda **k: run.plot_normalized_load(MAP, **k), "Normalized Utilization", cols(norm)),
        "temperature": (lambda **k: run.thermal.plot_temperature(**k), "Temperature", [("Temperature", temps(None))]),
        "temperature-z1": (lambda **k: run.thermal.plot_temperature(tz_id=1, legend_label="l", **k), "Temperature", [("l - Temperature", temps(1))]),
        "temperature-control": (lambda **k: run.thermal.plot_temperature(control_temperature=control, legend_label="l", **k), "Temperature",
                                [("l - Temperature", temps(None)), ("l - Control", list(zip(control.index, control.values)))]),
        "governor": (lambda **k: run.thermal_governor.plot_temperature(legend_label="l", **k), "Temperature", [("l - Temperature", cur(None)), ("control temperature", ctl(None))]),
        "governor-z1": (lambda **k: run.thermal_governor.plot_temperature(tz_id=1, **k), "Temperature", [("Temperature", cur(1)), ("control temperature", ctl(1))]),
        "input": (lambda **k: run.thermal_governor.plot_input_power(order, **k), "Input Power", [(o, [(t, float(g["req"][a])) for t, g in ev["gov"]]) for a, o in enumerate(order)]),
        "output": (lambda **k: run.thermal_governor.plot_output_power(order, **k), "Output Power", [(o, [(t, float(g["granted"][a])) for t, g in ev["gov"]]) for a, o in enumerate(order)]),
        "weighted": (lambda **k: run.thermal_governor.plot_weighted_input_power([("GPU", 512), ("A15", 2048)], **k), "Weighted Input Power",
                     [("GPU", [(t, g["req"][0] / 2.0) for t, g in ev["gov"]]), ("A15", [(t, g["req"][1] * 2.0) for t, g in ev["gov"]])]),
        "controller": (lambda **k: run.pid_controller.plot_controller(**k), "PID", [(c, [(t, float(r[c])) for t, r in ev["pid"]]) for c in ("output", "p", "i", "d")]),
    }
    for name, (fn, t, lines) in sorted(methods.items()):
        for (width, height), given, name_ in itertools.product(SIZES, (False, True), ("", "T")):
            if given and width:
                continue
            plt.close("all")
            kw = dict(title=name_)
            if given:
                fig, axes = plt.subplots(ncols=2)
                kw["ax"] = axes[1]
            else:
                kw.update(width=width, height=height)
            fn(**kw)
            res.run()
            what = "%s%r" % (name, (width, height, given, name_))
            # plots of temperatures leave the title to whoever gave the axes
            full = "" if given and name.startswith(("temp", "gov")) else title(t, name_)
            figs = plt.get_fignums()
            if len(figs) != 1 or len(plt.gcf().axes) != 1 + given:
                res.fail("figures", "%s: figures %r with %r" % (what, figs, [len(plt.figure(f).axes) for f in figs]))
                return
            want = {int(given): (full, lines)}
            if not compare(res, what, plt.gcf().axes, want):
                return
            if not given and not size_ok(plt.gcf(), width, height):
                res.fail("size", "%s: %r inches" % (what, plt.gcf().get_size_inches()))
                return
            ax = plt.gcf().axes[int(given)]
            if full:
                vals = [y for _, p in lines for _, y in p]
                lo, hi = ax.get_ylim()
                m = 0.1 * (max(vals) - min(vals))
                if lo > min(vals) - m or hi < max(vals) + m:
                    res.fail("limits", "%s: limits %r for values from %r to %r" % (what, (lo, hi), min(vals), max(vals)))
                    return
            if name.startswith(("temp", "gov")) and not given and not ax.get_legend():
                res.fail("legend", what + ": no legend")
                return
            dashed = [l.get_linestyle() for l in ax.lines if "ontrol" in l.get_label()]
            if any(d != "--" for d in dashed):
                res.fail("control", what + ": the control temperature is not dashed")
                return
            res.state(name, width, height, given, name_)
    alls = tab["all"]
    for (width, height), given in itertools.product(SIZES, (False, True)):
        if given and width:
            continue
        plt.close("all")
        if given:
            axes = plt.subplots(nrows=len(alls))[1]
            run.plot_allfreqs(MAP, ax=axes)
        else:
            run.plot_allfreqs(MAP, width=width, height=height)
        res.run()
        what = "plot_allfreqs%r" % ((width, height, given),)
        figs = [plt.figure(f) for f in plt.get_fignums()]
        if [len(f.axes) for f in figs] != ([len(alls)] if given else [1] * len(alls)):
            res.fail("figures", "%s: figures with %r axes" % (what, [len(f.axes) for f in figs]))
            return
        for i, (label, table) in enumerate(alls):
            ax = figs[0].axes[i] if given else figs[i].axes[0]
            if not compare(res, what, [ax], {0: (title("allfreqs " + label, "run"), cols(table))}):
                return
            if not given and not size_ok(figs[i], width, height):
                res.fail("size", "%s: %r inches" % (what, figs[i].get_size_inches()))
                return
    res.tag("own", "own-gpu" if gin else "own-plain")


def run_case(case):
    res = Res()
    try:
        {"setup": setup, "own": own, "temperature": temperature, "hist": hist, "loads": loads, "powers": powers, "inout": inout}[case["what"]](res, case)
    finally:
        plt.close("all")
    return res


def explore(ctx):
    cases = []
    contents = [(a, b) for a in TEMPS for b in GOVS if (a, b) != ("none", "none")]
    zones = [None, 0, 1, 2]
    for c in contents:
        for names in (["run"], ["anon"]):
            cases.append({"what": "temperature", "runs": [c], "names": names, "zones": zones, "limits": names == ["anon"]})
    for i, (c, d) in enumerate(itertools.product(contents, repeat=2)):
        if not ctx.quick or i % 2 == 0 or "none" in c + d:
            cases.append({"what": "temperature", "runs": [c, d], "names": ["r1", "r2"], "zones": zones, "limits": False})
    for n in (1, 2, 3):
        for runs in itertools.product(TEMPS, repeat=n):
            cases.append({"what": "hist", "runs": list(runs)})
    for n in (1, 2, 3):
        for runs in itertools.product([k for k in POWERS if k != "one"] if n < 3 or not ctx.quick else ["plain", "gpu"], repeat=n):
            for plot in ("plot_load", "plot_allfreqs", "plot_freq_hists"):
                cases.append({"what": "loads", "runs": list(runs), "plot": plot})
    for n in (1, 2, 3):
        for actors in (2, 3, 11, 12):
            for weights in ("all", "none", "some"):
                for plot in ("plot_controller", "plot_input_power", "plot_output_power", "plot_weighted_input_power"):
                    if plot not in ("plot_controller", "plot_output_power") or weights == "none":
                        cases.append({"what": "powers", "n": n, "actors": actors, "weights": weights, "plot": plot})
    for k in range(1, 4):
        for actors in itertools.permutations(["A15", "A7", "GPU"], k):
            cases.append({"what": "inout", "actors": list(actors), "title": "T" if k == 2 else ""})
    cases.append({"what": "setup"})
    cases += [{"what": "own", "powers": p} for p in POWERS if p != "one"]
    ctx.run_cases(run_case, cases, describe=lambda c: c)
