"""C19: series are put on common times, aligned and correlated as specified.

shift       every pair of short series x every shift
align       every pair of short series x both ends
index       every list of indexes: union, zero series, uniform index
correlate   every pair of small event histories of two traces, at every level,
            against a reference computed on plain lists
"""
import itertools
import math

import numpy as np
import pandas as pd
import trappy
from trappy.stats import StatConf
from trappy.stats.Aggregator import MultiTriggerAggregator
from trappy.stats.Correlator import Correlator, align, shift_series
from trappy.stats.Indexer import Indexer, MultiTriggerIndexer, get_unified_indexer
from trappy.stats.Topology import Topology
from trappy.stats.Trigger import Trigger
from mc.core import Res

PROPERTY = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = ["correlated events do not fall within rounding of a resampling point; resample is left on"]
MUST_SEE = ("shift-left", "shift-right", "no-shift", "all-zero", "missing", "front", "back", "union", "uniform", "correlated",
            "uncorrelated", "groups", "custom", "different-start", "plot")
BOUNDS = ("all pairs of series of up to 3 samples over {0, 1, -1, missing}, shifts -5..5; of 4 (thorough 5) samples, one over {0, 1}, one over {0, 1, missing}; all lists of up to 3 "
          "indexes out of 7; all pairs of 21 (thorough 85) event histories on a grid, 3 levels, default and custom function; plots of all pairs of 11 (thorough 43) of them")


def same(a, b, tol=0.0):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = float(x), float(y)
        if math.isnan(x) != math.isnan(y) or (not math.isnan(x) and abs(x - y) > tol):
            return False
    return True


NAN = float("nan")


def mshift(x, y, k):
    n = len(x)
    if k > 0:
        y = ([NAN] * k + y)[:n]
    else:
        x = ([NAN] * -k + x)[:n]
    return x, y


def malign(x, y, mode):
    px = [i for i, v in enumerate(x) if v and not math.isnan(v)]
    py = [i for i, v in enumerate(y) if v and not math.isnan(v)]
    if not px or not py:
        return x, y, 0
    e = 0 if mode == "front" else -1
    k = px[e] - py[e]
    return mshift(x, y, k) + (k,)


def ser(v):
    return pd.Series(v, index=[0.5 * i for i in range(len(v))], dtype=float)


def shift(case):
    res = Res()
    for x, y in case["pairs"]:
        x = [NAN if v is None else v for v in x]
        y = [NAN if v is None else v for v in y]
        if None is not case["shifts"]:
            for k in case["shifts"]:
                sx, sy = ser(x), ser(y)
                gx, gy = shift_series(sx, sy, k)
                wx, wy = mshift(x, y, k)
                res.run()
                res.tag("shift-left" if k < 0 else "shift-right" if k else "no-shift")
                if not same(gx, wx) or not same(gy, wy) or not same(sx, x) or not same(sy, y) or list(gx.index) != list(sx.index):
                    res.fail("shift", "shift_series(%r, %r, %d) is %r, %r, expected %r, %r" % (x, y, k, list(gx), list(gy), wx, wy))
                    return res
        for mode in ("front", "back"):
            gx, gy, k = align(ser(x), ser(y), mode=mode)
            wx, wy, wk = malign(x, y, mode)
            res.run()
            res.step()
            if k != wk or not same(gx, wx) or not same(gy, wy):
                res.fail("align", "align(%r, %r, %s) is %r, %r, shift %r, expected %r, %r, shift %r" % (
                    x, y, mode, list(gx), list(gy), k, wx, wy, wk))
                return res
            res.tag(mode)
            if not any(v in (1, -1) for v in x):
                res.tag("all-zero")
            if any(v != v for v in x):
                res.tag("missing")
            res.state("align", len(x), wk, repr(wx), repr(wy))
    return res


IDX = [[1.0], [1.0, 2.0], [0.5, 1.5, 2.5], [2.0, 2.25, 9.0], [1.5], [3.0, 3.5], [0.0, 0.25]]


def index(case):
    res = Res()
    for l in case["lists"]:
        inds = [Indexer(pd.Index(IDX[i])) for i in l]
        uni = get_unified_indexer(inds)
        want = sorted(set(t for i in l for t in IDX[i]))
        res.run()
        if list(uni.index) != want:
            return res.fail("union", "union of %r is %r" % ([IDX[i] for i in l], list(uni.index))) or res
        if any(list(a.index) != IDX[i] for a, i in zip(inds, l)):
            return res.fail("input", "an indexer of %r was changed" % ([IDX[i] for i in l],)) or res
        tr = [trappy.BareTrace() for _ in l]
        trig = []
        for n, i in enumerate(l):
            tr[n].add_parsed_event("ev", pd.DataFrame({"cpu": [0] * len(IDX[i])}, index=pd.Index(IDX[i], name="Time")))
            trig.append(Trigger(tr[n], tr[n].ev, {}, 1, "cpu"))
        mi = MultiTriggerIndexer(trig if len(trig) > 1 else trig[0])
        if list(mi.index) != want:
            return res.fail("union", "MultiTriggerIndexer of %r is %r" % ([IDX[i] for i in l], list(mi.index))) or res
        s = uni.series()
        if list(s.index) != want or any(v != 0 for v in s):
            return res.fail("series", "series() over %r is %r" % (want, s.to_dict())) or res
        s.iloc[0] = 5
        if any(v != 0 for v in uni.series()):
            return res.fail("series", "series() over %r is shared" % (want,)) or res
        for d in (0.25, 0.5, 4.0):
            u = list(uni.get_uniform(d))
            n = int(math.ceil((want[-1] - want[0]) / d))
            if not same(u, [want[0] + k * d for k in range(n)], 1e-9):
                return res.fail("uniform", "get_uniform(%r) over %r is %r" % (d, want, u)) or res
            res.tag("uniform")
        res.step(len(l))
        res.tag("union")
        res.state("index", want)
    return res


D = StatConf.DELTA_DEFAULT


def pearson(x, y):
    p = [(a, b) for a, b in zip(x, y) if not math.isnan(a) and not math.isnan(b)]
    n = len(p)
    if n < 2:
        return NAN
    mx, my = sum(a for a, _ in p) / n, sum(b for _, b in p) / n
    vx, vy = sum((a - mx) ** 2 for a, _ in p), sum((b - my) ** 2 for _, b in p)
    if vx < 1e-12 or vy < 1e-12:
        return NAN
    return sum((a - mx) * (b - my) for a, b in p) / math.sqrt(vx * vy)


def base(events, node, times):
    """value at every time of the aggregator of this trace"""
    d = {t: 0.0 for t, _, _ in events}
    for t, n, on in events:
        if n == node and on:
            d[t] = 1.0
    return d


def resampled(d, lo, hi):
    """lo, hi: ends of the unified index, in grid units"""
    out = []
    k = 0
    while lo + k < hi:
        past = [t for t in d if t <= lo + k + 1e-6]
        out.append(d[max(past)] if past else NAN)
        k += 1
    return out


def add(a, b):
    return {t: a[t] + b[t] for t in a}


def corrsum(x, y):
    return float((x.fillna(7) * 3 + y.fillna(11)).sum()) / 100


def mcorrsum(x, y):
    return sum((7 if a != a else a) * 3 + (11 if b != b else b) for a, b in zip(x, y)) / 100


def correlate(case):
    res = Res()
    for one, two, custom in case["combos"]:
        aggs, ev = [], []
        for events in (one, two):
            # positions between the grid points, which start at the first event
            start = min(one[0][0], two[0][0])
            events = [(p if p == start else p + 0.5, n, on) for p, n, on in events]
            ev.append(events)
            tr = trappy.BareTrace()
            tr.add_parsed_event("ev", pd.DataFrame({"cpu": [n for _, n, _ in events], "on": [o for _, _, o in events]},
                                                   index=pd.Index([p * D for p, _, _ in events], name="Time")))
            aggs.append(MultiTriggerAggregator([Trigger(tr, tr.ev, {"on": 1}, 1, "cpu")], Topology(clusters=[[0], [1]])))
        kw = {"corrfunc": corrsum} if custom else {}
        fn = mcorrsum if custom else pearson
        c = Correlator(aggs[0], aggs[1], **kw)
        ts = [t for e in ev for t, _, _ in e]
        lo, hi = min(ts), max(ts)
        if ev[0][0][0] != ev[1][0][0]:
            res.tag("different-start")
        nodes = [[base(e, n, None) for n in (0, 1)] for e in ev]
        top = [resampled(add(n[0], n[1]), lo, hi) for n in nodes]
        f = malign(top[0], top[1], "front")
        b = malign(top[0], top[1], "back")
        fc, bc = [0 if v != v else v for v in (fn(f[0], f[1]), fn(b[0], b[1]))]
        shifts = [f[2]] if fc > bc + 1e-9 else [b[2]] if bc > fc + 1e-9 else sorted(set([f[2], b[2]]))
        what = "events (grid, cpu, on) %r and %r, %s" % (ev[0], ev[1], "custom function" if custom else "correlation")
        for level, groups in (("all", [[0, 1]]), ("cluster", [[0], [1]]), ("all", [[0, 1]])):
            got, total = c.correlate(level)
            res.run()
            res.step()
            ok = False
            wants, totals = [], []
            for k in shifts:
                want, weights = [], []
                for g in groups:
                    s = []
                    for n in nodes:
                        d = n[g[0]]
                        for m in g[1:]:
                            d = add(d, n[m])
                        s.append(resampled(d, lo, hi))
                    s = mshift(s[0], s[1], k)
                    want.append(fn(*s))
                    weights.append(sum(v != 0 for x in s for v in x))
                wants.append(want)
                if same(got, want, 1e-6):
                    ok = True
                    totals.append(sum(w * v for w, v in zip(weights, want) if v == v) / (sum(weights) or 1))
            if not ok:
                return res.fail("correlation", "%s, level %s: %r, expected %r (shift %r)" % (what, level, got, wants, shifts)) or res
            real = [v for v in got if v == v]
            if not any(abs(total - t) < 1e-6 for t in totals):
                return res.fail("total", "%s, level %s: total %r of correlations %r, expected %r" % (what, level, total, got, totals)) or res
            res.tag("correlated" if real else "uncorrelated")
            if len(groups) > 1:
                res.tag("groups")
            if custom:
                res.tag("custom")
            res.state("corr", shifts, [round(v, 9) if v == v else None for v in got])
    return res


def plots(case):
    """Correlator.plot draws, for each group, both series as they are correlated."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    res = Res()
    for one, two, per_line in case["combos"]:
        aggs, ev = [], []
        for events in (one, two):
            start = min(one[0][0], two[0][0])
            events = [(p if p == start else p + 0.5, n, on) for p, n, on in events]
            ev.append(events)
            tr = trappy.BareTrace()
            tr.add_parsed_event("ev", pd.DataFrame({"cpu": [n for _, n, _ in events], "on": [o for _, _, o in events]},
                                                   index=pd.Index([p * D for p, _, _ in events], name="Time")))
            aggs.append(MultiTriggerAggregator([Trigger(tr, tr.ev, {"on": 1}, 1, "cpu")], Topology(clusters=[[0], [1]])))
        seen = []

        def corr(x, y):
            seen.append((x, y))
            return 0.5
        c = Correlator(aggs[0], aggs[1], corrfunc=corr)
        for level, groups in (("all", 1), ("cluster", 2), ("cpu", 2)):
            what = "plot of events (grid, cpu, on) %r and %r, level %s, %d per line" % (ev[0], ev[1], level, per_line)
            del seen[:]
            c.correlate(level)
            if any(not len(x.dropna()) or not len(y.dropna()) for x, y in seen):
                res.tag("plot-nothing")
                continue
            plt.close("all")
            try:
                c.plot(level, per_line=per_line)
            except Exception as e:
                return res.fail("plot-fails", "%s: %s: %s" % (what, type(e).__name__, e)) or res
            res.run()
            res.step()
            axes = plt.gcf().axes
            if len(plt.get_fignums()) != 1 or len(axes) != groups or len(seen) != groups:
                return res.fail("plot-axes", "%s: %d axes" % (what, len(axes))) or res
            cols = len(set(round(a.get_position().x0, 6) for a in axes))
            if cols != min(per_line, groups):
                return res.fail("plot-axes", "%s: %d columns" % (what, cols)) or res
            for i, (ax, pair) in enumerate(zip(axes, seen)):
                got = [(list(l.get_xdata()), list(l.get_ydata())) for l in ax.lines]
                if len(got) != 2 or any(not same(g[0], list(s.index), 1e-9) or not same(g[1], list(s.values), 1e-9) for g, s in zip(got, pair)):
                    return res.fail("plot", "%s: group %d has %r, expected %r" % (what, i, got, [(list(s.index), list(s.values)) for s in pair])) or res
                lo, hi = ax.get_ylim()
                vals = [v for s in pair for v in s.values if v == v]
                if lo > min(vals) or hi < max(vals):
                    return res.fail("plot", "%s: group %d shows %r of %r" % (what, i, (lo, hi), vals)) or res
                res.state("plot", got)
        plt.close("all")
        res.tag("plot")
    return res


def run_case(case):
    return {"plots": plots, "shift": shift, "index": index, "correlate": correlate}[case["kind"]](case)


def explore(ctx):
    cases = []
    pairs = [[list(x), list(y)] for n in range(1, 4) for x in itertools.product((0, 1, -1, None), repeat=n)
             for y in itertools.product((0, 1, -1, None), repeat=n)]
    cases += [{"kind": "shift", "pairs": pairs[i:i + 40], "shifts": list(range(-5, 6))} for i in range(0, len(pairs), 40)]
    n = 4 if ctx.quick else 5
    pairs = [[list(x), list(y)] for x in itertools.product((0, 1), repeat=n)
             for y in itertools.product((0, 1, None), repeat=n)]
    cases += [{"kind": "shift", "pairs": pairs[i:i + 60], "shifts": [-2, 0, 1] if ctx.quick else [-4, -1, 2]} for i in range(0, len(pairs), 60)]
    lists = [list(p) for n in (1, 2, 3) for p in itertools.product(range(len(IDX)), repeat=n)]
    cases += [{"kind": "index", "lists": lists[i:i + 20]} for i in range(0, len(lists), 20)]
    ev = []
    for gaps in ((1,), (2, 3), (1, 1, 2)) if ctx.quick else ((1,), (3,), (2, 3), (4, 1), (1, 1, 2), (2, 1, 1)):
        for marks in itertools.product(((0, 1), (1, 1), (0, 0)), repeat=len(gaps)):
            for start in (0, 2):
                if start and (len(gaps) > 2 or marks[0] == (1, 1)):
                    continue
                p, e = start, [(start, 0, 1)]
                for g, m in zip(gaps, marks):
                    p += g
                    e.append((p,) + m)
                ev.append(e)
    if ctx.quick:
        ev = ev[::3] + [ev[1]]
    ctx.notes["event_histories"] = len(ev)
    combos = [[a, b, c] for a in ev for b in ev for c in (False, True)]
    cases += [{"kind": "correlate", "combos": combos[i:i + 20]} for i in range(0, len(combos), 20)]
    sub = ev[::2]
    combos = [[a, b, 3 if (i + j) % 2 else 1] for i, a in enumerate(sub) for j, b in enumerate(sub)]
    cases += [{"kind": "plots", "combos": combos[i:i + 8]} for i in range(0, len(combos), 8)]
    ctx.run_cases(run_case, cases, describe=lambda c: {k: v if k in ("kind", "shifts") else v[:2] for k, v in c.items()})
