"""C18: triggers select the matching rows, aggregators sum them per group.

triggers    every table up to a length over pivots and states x every filter
            and value of an alphabet, against the rows that match
aggregates  tables x lists of triggers x topologies x functions, every history
            of aggregate() calls over the levels, against sums of the base
            series computed from the rows
"""
import itertools

import pandas as pd
import trappy
from trappy.stats.Aggregator import MultiTriggerAggregator
from trappy.stats.Topology import Topology
from trappy.stats.Trigger import Trigger
from mc import traces as T
from mc.core import Res

PROPERTY = "C18"
LEVEL = "model_checking"
ASSUMPTIONS = ["the event of a trigger has rows, with unique times; results of aggregate() are not modified by the caller"]
MUST_SEE = ("no-match", "list-filter", "function-filter", "column-value", "missing-column", "two-triggers", "two-events", "history",
            "missing-value", "scalar", "vector", "default-function", "kwargs", "single-trigger", "overwritten")
BOUNDS = ("all tables of up to 2 rows over 3 pivots x 2 states x 2 values, of 3 (thorough 4) rows over 5 kinds, of up to 3 over 4 kinds with missing values; 14 filters x 4 values x 4 pivots; 10 lists of triggers x 4 "
          "functions x 3 topologies x all histories of up to 3 levels")


def trace(rows, rows2=()):
    t = trappy.BareTrace()
    for name, rr, off in (("ev", rows, 0), ("other", rows2, 0.5)):
        t.add_parsed_event(name, pd.DataFrame(
            {"cpu": [r[0] for r in rr], "st": [r[1] for r in rr], "x": [r[2] for r in rr]},
            index=pd.Index([1.0 + off + i for i in range(len(rr))], name="Time")))
    return t


def odd(v):
    return v is not None and v % 2 == 1


class Is(object):
    def __init__(self, v):
        self.v = v

    def __call__(self, v):
        return v == self.v


FILTERS = [({}, lambda r: True), ({"st": "a"}, lambda r: r[1] == "a"), ({"st": ["a", "b"]}, lambda r: r[1] is not None),
           ({"st": ["b"]}, lambda r: r[1] == "b"), ({"st": []}, lambda r: False), ({"x": 1}, lambda r: r[2] == 1),
           ({"x": odd}, lambda r: r[2] == 1), ({"st": Is("b"), "x": 2}, lambda r: r[1] == "b" and r[2] == 2),
           ({"st": "a", "x": [1, 2]}, lambda r: r[1] == "a" and r[2] is not None), ({"nope": 5}, lambda r: True),
           ({"nope": [5], "st": "a"}, lambda r: r[1] == "a"), ({"st": ["a", "zz"], "x": odd}, lambda r: r[1] == "a" and r[2] == 1),
           ({"x": lambda v: v != 1}, lambda r: r[2] != 1),
           ({"x": lambda v: "yes" if v == 2 else ""}, lambda r: r[2] == 2)]
VALUES = [1, -2.5, "x", "st"]


def triggers(case):
    res = Res()
    for rows in case["tables"]:
        tr = trace(rows)
        for (f, keep), v, p in itertools.product(FILTERS, VALUES, (0, 1, 2, 9)):
            want = [(1.0 + i, r) for i, r in enumerate(rows) if r[0] == p and keep(r)]
            want = [(t, v if not isinstance(v, str) else {"x": r[2], "st": r[1]}[v]) for t, r in want]
            flt = dict(f)
            got = Trigger(tr, tr.ev, flt, v, "cpu").generate(p)
            res.run()
            res.step(len(rows))
            g = [(float(t), None if x != x else x) for t, x in got.items()]
            if g != want or flt != f:
                return res.fail("trigger", "rows (cpu, st, x) %r, filters %r, value %r, pivot %r: %r, expected %r" % (
                    rows, f, v, p, g, want)) or res
            res.tag("match" if want else "no-match")
            if "nope" in f:
                res.tag("missing-column")
            if any(r[1] is None or r[2] is None for r in rows):
                res.tag("missing-value")
            for k in f.values():
                res.tag("list-filter" if isinstance(k, list) else "function-filter" if callable(k) else "value-filter")
            if isinstance(v, str):
                res.tag("column-value")
            res.state(want)
        if [[None if v != v else v for v in tr.ev.data_frame[c]] for c in ("cpu", "st", "x")] != [[r[i] for r in rows] for i in range(3)]:
            return res.fail("input", "rows %r were changed" % (rows,)) or res
    return res


# lists of triggers: (event, filters, predicate, value)
A = ("ev", {"st": "a"}, lambda r: r[1] == "a", 1)
B = ("ev", {"st": "b"}, lambda r: r[1] == "b", -1)
ALL = ("ev", {}, lambda r: True, 4)
X = ("ev", {"x": odd}, lambda r: r[2] == 1, "x")
O = ("other", {"st": ["a", "b"]}, lambda r: True, 2)
NONE = ("ev", {"st": "a"}, lambda r: r[1] == "a", 0)
LISTS = [[ALL, NONE], [NONE, A], [A], [A, B], [B, A], [ALL, A], [X, B], [A, O], [O, A], [B, X, O]]


def fsum(s, scale=1):
    return s.sum() * scale


def fcum(s, scale=1):
    return s.cumsum() * scale


def fsame(s, scale=1):
    return s


FUNCS = [(None, lambda l, k: l), (fsum, lambda l, k: sum(l) * k), (fcum, lambda l, k: [sum(l[:i + 1]) * k for i in range(len(l))]),
         (fsame, lambda l, k: l)]
TOPOS = [[[0], [1]], [[0, 1], [2]], [[2, 1], [0]]]


def aggregates(case):
    res = Res()
    for rows, li, fi, ti in case["combos"]:
        rows2 = [(c, s, x) for c, s, x in rows][::-1]
        trigs = LISTS[li]
        two = any(t[0] == "other" for t in trigs)
        tr = trace(rows, rows2)
        topo = Topology(clusters=[list(g) for g in TOPOS[ti]])
        topo.add_to_level("mixed", [[1], [0, 1], [1, 0]])
        nodes = sorted(n for g in TOPOS[ti] for n in g)
        if ti == 0:
            # A node that is in no cluster
            topo.add_to_level("extra", [[2], [0, 2]])
            nodes.append(2)
        times = [1.0 + i for i in range(len(rows))] if any(t[0] == "ev" for t in trigs) else []
        if two:
            times = sorted(times + [1.5 + i for i in range(len(rows2))])
            res.tag("two-events")
        base = {}
        for n in nodes:
            b = dict.fromkeys(times, 0)
            for ev, _, keep, v in trigs:
                off = 1.5 if ev == "other" else 1.0
                for i, r in enumerate(rows2 if ev == "other" else rows):
                    if r[0] == n and keep(r):
                        if b[off + i]:
                            res.tag("overwritten")
                        b[off + i] = r[2] if v == "x" else v
            base[n] = [b[t] for t in times]
        func, model = FUNCS[fi]
        tl = [Trigger(tr, getattr(tr, ev), f, v, "cpu") for ev, f, _, v in trigs]
        if len(tl) > 1:
            res.tag("two-triggers")
        if len(tl) == 1 and ti == 1:
            tl = tl[0]
            res.tag("single-trigger")
        res.tag("default-function" if func is None else "scalar" if func is fsum else "vector")
        levels = {"cluster": TOPOS[ti], "all": [nodes], "cpu": None, "mixed": [[1], [0, 1], [1, 0]], "default": [nodes]}
        if ti == 0:
            levels["mixed"], levels["extra"] = levels["mixed"], [[2], [0, 2]]
        for hist in case["hists"]:
            if ti == 0:
                hist = ["extra" if l == "mixed" else l for l in hist]
            agg = MultiTriggerAggregator(tl, topo, aggfunc=func) if func else MultiTriggerAggregator(tl, topo)
            for n, lvl in enumerate(hist):
                k = 1
                kw = {} if lvl == "default" else {"level": lvl}
                if func in (fsum, fcum) and n:
                    k = kw["scale"] = 3 if n == 1 else 0
                    res.tag("kwargs")
                got = agg.aggregate(**kw)
                res.run()
                groups = levels[lvl] or topo.get_level("cpu")
                want = []
                for g in groups:
                    parts = [model(base[m], k) for m in g]
                    want.append(sum(parts) if func is fsum else [sum(c) for c in zip(*parts)])
                g = [float(x) if func is fsum else [float(y) for y in x.values] for x in got]
                res.step()
                what = "rows %r, triggers %r, function %r, clusters %r, calls %r" % (
                    rows, [(t[0], sorted(t[1]), t[3]) for t in trigs], getattr(func, "__name__", None), TOPOS[ti], hist[:n + 1])
                if g != want:
                    return res.fail("aggregate", "%s: %r, expected %r" % (what, g, want)) or res
                if func is not fsum and any([float(t) for t in x.index] != times for x in got):
                    return res.fail("index", "%s: index %r, expected %r" % (what, [list(x.index) for x in got], times)) or res
                if n:
                    res.tag("history")
                res.state(li, fi, want)
    return res


def run_case(case):
    return {"triggers": triggers, "aggregates": aggregates}[case["kind"]](case)


def explore(ctx):
    alpha = list(itertools.product((0, 1, 2), "ab", (1, 2)))
    small = [(0, "a", 1), (1, "a", 2), (0, "b", 1), (1, "b", 2), (2, "a", 1)]
    tables = [list(s) for n in (1, 2) for s in itertools.product(alpha, repeat=n)]
    tables += [list(s) for s in itertools.product(small, repeat=3)]
    # rows without a value in a column that may be filtered
    gaps = [(0, None, 1), (0, "a", 1), (0, "a", None), (1, None, None)]
    tables += [list(s) for n in (2, 3) for s in itertools.product(gaps, repeat=n)]
    if not ctx.quick:
        tables += [list(s) for s in itertools.product(small[:4], repeat=4)]
    cases = [{"kind": "triggers", "tables": tables[i:i + 4]} for i in range(0, len(tables), 4)]
    lv = ["all", "cluster", "cpu", "mixed"]
    hists = [list(h) for n in (2, 3) for h in itertools.product(lv, repeat=n) if n < 3 or (h[0] == h[2] and h[0] != h[1])] + [["default"]]
    rows = [[(0, "a", 1), (1, "b", 2), (0, "b", 1), (1, "a", 1)], [(1, "a", 2), (0, "a", 1), (2, "b", 1), (0, "a", 2)],
            [(0, "a", 1)], [(2, "b", 2), (2, "a", 1), (1, "a", 1)]]
    if not ctx.quick:
        rows += [list(s) for s in itertools.product(small, repeat=3)]
    combos = [list(c) for c in itertools.product(rows, range(len(LISTS)), range(len(FUNCS)), range(len(TOPOS)))]
    cases += [{"kind": "aggregates", "combos": combos[i:i + 2], "hists": hists} for i in range(0, len(combos), 2)]
    ctx.run_cases(run_case, cases, describe=lambda c: {k: v if k == "kind" else v[:2] for k, v in c.items()})
