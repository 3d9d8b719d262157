"""C16: repeated times are made unique without disturbing anything else.

Every sorted index up to a length over an alphabet of gaps (none, far below,
at and above the increment) is given to handle_duplicate_index, as a Series
and as a DataFrame with lines out of order, with every increment.
"""
import itertools

import pandas as pd
from trappy.utils import handle_duplicate_index
from mc import traces as T
from mc.core import Res

PROPERTY = "C16"
LEVEL = "model_checking"
ASSUMPTIONS = ["the index is sorted; gaps between different times are at least 1e-7 s"]
MUST_SEE = ("no-duplicates", "at-end", "tight", "clamped", "many", "lines", "default")
BOUNDS = ("all sorted indexes of up to 7 (thorough 8) times over 4 gaps from 3 starts, and up to 5 over 6 gaps; 4 increments, Series, "
          "DataFrame and DataFrame with shuffled lines")

DELTAS = [None, 1e-6, 0.25, 5e-7]


def check(res, times, form, delta):
    n = len(times)
    vals = [10 * i for i in range(n)]
    kw = {} if delta is None else {"max_delta": delta}
    md = 1e-6 if delta is None else delta
    idx = pd.Index(times, name="Time")
    order = list(range(n))
    if form == "series":
        data = pd.Series(vals, index=idx, name="v")
    else:
        data = pd.DataFrame({"v": vals, "s": ["t%d" % i for i in range(n)]}, index=idx)
        if form == "lines":
            # rows of one time were recorded in the opposite order
            groups = [list(g) for _, g in itertools.groupby(range(n), key=lambda i: times[i])]
            lines = [0] * n
            for g in groups:
                for a, b in zip(g, reversed(g)):
                    lines[a] = b
            order = [i for g in groups for i in reversed(g)]
            data["__line"] = lines
            res.tag("lines")
    before = data.copy()
    out = handle_duplicate_index(data, **kw)
    res.run()
    what = "%s at %r, max_delta %r" % (form, times, delta)
    if list(data.index) != times or not data.equals(before):
        return res.fail("input", "%s: the input was changed to %r" % (what, data.index.tolist()))
    got = [float(t) for t in out.index]
    col = list(out.values) if form == "series" else list(out["v"])
    if [int(v) for v in col] != [vals[i] for i in order]:
        return res.fail("values", "%s: values are %r, expected %r" % (what, col, [vals[i] for i in order]))
    if form != "series" and list(out["s"]) != ["t%d" % i for i in order]:
        return res.fail("values", "%s: second column is %r" % (what, list(out["s"])))
    if out.index.name != "Time" or (form == "series" and out.name != "v") or (form != "series" and list(out.columns) != list(data.columns)):
        return res.fail("names", "%s: the result is called %r, its index %r" % (
            what, out.name if form == "series" else list(out.columns), out.index.name))
    for i in range(n):
        res.step()
        if i == 0 or times[i] != times[i - 1]:
            if got[i] != times[i]:
                return res.fail("first", "%s: time %d moved to %r" % (what, i, got[i]))
            rep = 0
            continue
        rep += 1
        if not got[i - 1] < got[i] <= got[i - 1] + md * (1 + 1e-6) + 1e-11:
            return res.fail("order", "%s: repeated time %d is at %r, after %r" % (what, i, got[i], got[i - 1]))
        nxt = next((t for t in times[i:] if t > times[i]), None)
        if nxt is None:
            res.tag("at-end")
        elif not got[i] < nxt:
            return res.fail("order", "%s: repeated time %d is at %r, not before the next at %r" % (what, i, got[i], nxt))
        elif nxt - times[i] < md:
            res.tag("tight")
        else:
            res.tag("clamped")
        if rep > 3:
            res.tag("many")
    if len(set(times)) == n:
        res.tag("no-duplicates")
    if delta is None:
        res.tag("default")


def run_case(case):
    res = Res()
    for gaps in case["gaps"]:
        times = [case["start"]]
        for g in gaps:
            times.append(round(times[-1] + g, 7))
        for form in ("series", "frame", "lines"):
            for d in (case["deltas"] or DELTAS):
                check(res, times, form, d)
                if res.fails:
                    return res
        res.state(case["start"], times)
    return res


def explore(ctx):
    cases = []
    small = [0, 1e-6, 0.5]
    wide = [0, 1e-7, 1e-6, 2e-6, 0.25, 3]
    top = 6 if ctx.quick else 7
    sets = [(0.0, g, None) for n in range(5) for g in itertools.product(wide, repeat=n)]
    sets += [(s, g, [None]) for s in (6550.018611, 1.0) for n in range(5, top + 1) for g in itertools.product(small, repeat=n)
             if g.count(0) >= 3]
    sets += [(s, g, [None, 0.25]) for s in (6550.018611,) for n in range(5) for g in itertools.product(wide[:5], repeat=n)]
    groups = {}
    for s, g, d in sets:
        groups.setdefault((s, repr(d)), (s, d, []))[2].append(list(g))
    for s, d, gl in groups.values():
        for i in range(0, len(gl), 60):
            cases.append({"start": s, "deltas": d, "gaps": gl[i:i + 60]})
    # a long run of equal times, alone and before a close neighbour
    cases.append({"start": 1.0, "deltas": None, "gaps": [[0] * 30, [0] * 30 + [1e-6], [0.5] + [0] * 20 + [1e-6] + [0] * 9 + [1]]})
    ctx.run_cases(run_case, cases, describe=lambda c: dict(c, gaps=c["gaps"][:3]))
