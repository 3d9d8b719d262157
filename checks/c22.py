"""C22: a constraint is the column of the matching rows, per pivot value.

Every table of up to N rows over pivot values, flags and time steps is given
to the real ConstraintManager, as DataFrame and as event of a trace, with all
filter sets, pivots and windows of the bounded language; the series of every
pivot value must be the rows selected by a plain loop.
"""
import itertools

import numpy as np
import pandas as pd
import trappy
from mc import traces as T
from mc.core import Res
from trappy.plotter import AttrConf
from trappy.plotter.Constraint import ConstraintManager

PROPERTY = "C22"
LEVEL = "model_checking"
ASSUMPTIONS = ["times do not decrease", "windows have start <= end", "filters are lists of values"]
MUST_SEE = ("no-pivot", "two-pivots", "pivot-filtered", "missing-pivot-column", "missing-column", "absent-filter", "empty-result", "missing-value",
            "window", "before-all", "after-all", "same-time", "trace", "frame", "empty-table", "unmatched-pivot")
BOUNDS = ("all tables of up to 3 (thorough 4) rows over 3 pivot values (one missing) x 2 flags x time steps 0 and 1 x value present or not, x 17 filter sets x "
          "4 pivots x 2 columns; all windows on a half-step grid from before to after the data for all time patterns of up to 4 (thorough 5) rows")

FILTERS = [{}, {"flag": [0]}, {"flag": [1, 0]}, {"flag": []}, {"key": ["p"]}, {"key": ["q", "zz"]}, {"key": []}, {"other": [1]},
           {"flag": [1], "key": ["p", "q"]}, {"val": [10, 12]}, {"flag": [1], "other": ["x"]}, {"flag": [1], "val": [11, 10]},
           {"key": ["p"], "val": [11, 10, 12]}, {"num": [0], "key": ["q", "p"]}, {"num": ["1"]}, {"flag": ["0", 1]}, {"val": ["10.0", 11]}]
PIVOTS = [None, "key", "num", "gone"]


def table(rows):
    t, out = 2.0, []
    for i, (key, flag, step, have) in enumerate(rows):
        t += step
        out.append((t, {"key": key, "flag": flag, "num": (i + flag) % 2, "val": float(10 + i) if have else None}))
    return out


def frame(rows):
    df = pd.DataFrame([r for _, r in rows], index=pd.Index([t for t, _ in rows], name="Time"), columns=["key", "flag", "num", "val"])
    df["val"] = df["val"].astype(float)
    # A field that an event doesn't have
    df["key"] = df["key"].where(df["key"].notna(), np.nan)
    return df


def model(rows, pivot, column, filters, window=None):
    if window and rows:
        lo = [t for t, _ in rows if t <= window[0]]
        hi = [t for t, _ in rows if t >= window[1]]
        rows = [(t, r) for t, r in rows if (not lo or t >= max(lo)) and (not hi or t <= min(hi))]
    out = {}
    if not rows or column not in rows[0][1]:
        return out
    if pivot is not None and pivot not in rows[0][1]:
        return out
    for t, r in rows:
        if all(r[k] in v for k, v in filters.items() if k in r):
            p = "all" if pivot is None else r[pivot]
            if p is not None:
                out.setdefault(p, []).append((t, r[column]))
    return out


def observe(result):
    out = {}
    for p, s in result.items():
        key = "all" if p == AttrConf.PIVOT_VAL else p
        if isinstance(key, (np.integer, np.floating)):
            key = int(key)
        vals = [None if v is None or v != v else v for v in s]
        out[key] = list(zip([float(t) for t in s.index], vals))
    return out


def sources(rows):
    df = frame(rows)
    yield "frame", df, None, df
    if rows:
        tr = trappy.BareTrace()
        tr.add_parsed_event("ev", df)
        yield "trace", tr, tr.class_definitions["ev"], tr.ev.data_frame
    else:
        T.write("t.txt", T.text([T.line("1.000000", "ev_zz", "a=1")]))
        with T.cache(False):
            tr = trappy.FTrace("t.txt", scope="custom", events=["ev"])
        yield "trace", tr, tr.class_definitions["ev"], tr.ev.data_frame


def run_case(case):
    res = Res()
    for raw in case["tables"]:
        rows = table(raw)
        for kind, src, template, df in sources(rows):
            res.tag(kind)
            before = df.copy()
            for pivot, column, fi, window in itertools.product(case["pivots"], ["val", "nope"] if case["cols"] else ["val"], range(len(FILTERS)), case["windows"]):
                if fi not in case["filters"]:
                    continue
                filters = FILTERS[fi]
                args = {k: list(v) for k, v in filters.items()}
                mgr = ConstraintManager(src, column, template, pivot if pivot is not None else AttrConf.PIVOT, args, window)
                cons = list(mgr)
                want = model(rows, pivot, column, filters, window)
                res.run()
                res.step(len(rows))
                if len(cons) != 1 or len(mgr) != 1:
                    res.fail("count", "%d constraints for one trace and column" % len(cons))
                    return res
                got = observe(cons[0].result)
                if got != want:
                    res.fail("data", "%s with rows %r, pivot %r, column %r, filters %r, window %r: got %r, expected %r" % (
                        kind, rows, pivot, column, filters, window, got, want))
                    return res
                if args != filters:
                    res.fail("altered", "the filters %r were altered to %r" % (filters, args))
                    return res
                name = "Trace 0:ev:" + column if kind == "trace" else "DataFrame 0:" + column
                if mgr.constraint_labels() != [name]:
                    res.fail("label", "label %r, expected %r" % (mgr.constraint_labels(), name))
                    return res
                res.state(want)
                tags = [("no-pivot", pivot is None), ("two-pivots", len(want) > 1), ("missing-pivot-column", pivot == "gone"),
                        ("missing-column", column == "nope"), ("absent-filter", "other" in filters), ("empty-result", rows and not want),
                        ("pivot-filtered", pivot in filters and want), ("missing-value", any(v is None for s in want.values() for _, v in s)),
                        ("empty-table", not rows), ("unmatched-pivot", pivot == "key" and len(want) < len(set(r["key"] for _, r in rows))),
                        ("same-time", len(set(t for t, _ in rows)) < len(rows))]
                if window and rows:
                    tags += [("window", True), ("before-all", window[0] < rows[0][0]), ("after-all", window[1] > rows[-1][0])]
                res.tag(*[t for t, on in tags if on])
            if not before.equals(df):
                res.fail("source", "the data given was altered from\n%s\nto\n%s" % (before, df))
                return res
    return res


def explore(ctx):
    cases = []
    top = 3 if ctx.quick else 4
    alpha = [(k, f, s, h) for k in ("p", "q") for f in (0, 1) for s in (0, 1) for h in (True,)] + [(None, 1, 1, True), ("p", 1, 1, False), ("q", 0, 0, False)]
    tables = [list(s) for n in range(top + 1) for s in itertools.product(alpha, repeat=n)]
    # the filters are all applied to the small tables, each to some of the others
    small = [t for t in tables if len(t) <= 2]
    for i in range(0, len(small), 4):
        cases.append({"tables": small[i:i + 4], "pivots": PIVOTS, "cols": True, "filters": list(range(len(FILTERS))), "windows": [None]})
    large = [t for t in tables if len(t) > 2]
    for fs in ([0, 1, 4, 8, 12], [5, 7, 9, 11, 13, 14]) if not ctx.quick else ([1, 4, 8, 11, 15],):
        for i in range(0, len(large), 25):
            cases.append({"tables": large[i:i + 25], "pivots": [None, "key"], "cols": False, "filters": fs, "windows": [None]})
    wtop = 4 if ctx.quick else 5
    for n in range(wtop + 1):
        for steps in itertools.product((0, 1), repeat=n):
            span = sum(steps[1:])
            first = 2.0 + (steps[0] if steps else 0)
            grid = [first - 1 + i * 0.5 for i in range(int(2 * span) + 5)]
            windows = [(a, b) for a in grid for b in grid if a <= b]
            rows = [("pq"[i % 2], [1, 1, 0][i % 3], s, True) for i, s in enumerate(steps)]
            for i in range(0, len(windows), 12):
                cases.append({"tables": [rows], "pivots": [None, "key"], "cols": False, "filters": [0, 1, 4], "windows": windows[i:i + 12]})
    ctx.run_cases(run_case, cases, describe=lambda c: dict(c, tables=c["tables"][:3]))
