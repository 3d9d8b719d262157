"""C21: data accessors of the grammar give each event's last value at each time.

Every history of accessors over events that share times and column names is
solved with one parser; after each step the result is compared with a model
that only knows the printed samples: the index is the union of the times of
all events accessed so far, the value at a time is the last sample at or
before it.
"""
import itertools
import math

import numpy as np
import pandas as pd
import trappy
from trappy.stats import StatConf
from trappy.stats.grammar import Parser
from mc.core import Res

PROPERTY = "C21"
LEVEL = "model_checking"
ASSUMPTIONS = ["default fill, method and limit; times of an event are unique and sorted (C04, C16)",
               "operations between accessors whose events have the same pivot values"]
MUST_SEE = ("plain", "pivot", "shared-column", "shared-time", "alias", "class-path", "window", "filter", "empty", "mask", "inspect",
            "missing-sample", "late-event", "arith", "repeat", "function", "unknown")
BOUNDS = ("histories of up to 2 accessors over all 7 x 7 x 6 tables on 3 times, of 3 accessors (216 histories, thorough 4: 1296) over 4 (thorough 16) tables; "
          "every fifth (thorough: every) order of all 6 accessors with two repeated; 10 windows x 12 filters x 6 x 6 accessors, 7 windows x 6 filters around time 0; 30 expressions after each of 6 x 6 histories; inspect() of all of them")

NP = StatConf.GRAMMAR_DEFAULT_PIVOT
GRID = (1.0, 2.5, 4.0)


class World(object):
    """Events as lists of rows (time, {column: value}), with their pivot"""

    def __init__(self, t1, t2, t3):
        self.events = {
            "e1": (None, [(t, {"x": 10 * i + 1, "y": 0.5 + i}) for i, t in enumerate(t1)]),
            "e2": (None, [(t, {"x": -5 - i, "z": None if i == 1 else 3 * i, "k": i % 2}) for i, t in enumerate(t2)]),
            "e3": ("cpu", [(t, {"cpu": c, "x": 100 + i, "w": 7 * i, "k": i % 2, "v": None if i == 1 else i}) for i, (t, c) in enumerate(t3)]),
            "thermal": ("id", [(2.0, {"id": 1, "temp": 20}), (3.0, {"id": 0, "temp": 30}), (3.5, {"id": 1, "temp": 25})]),
            "none": (None, []),
        }
        self.trace = trappy.BareTrace()
        for name, (pivot, rows) in self.events.items():
            df = pd.DataFrame([r[1] for r in rows], index=pd.Index([r[0] for r in rows], name="Time"))
            if name == "thermal":
                self.trace.thermal = trappy.thermal.Thermal()
                self.trace.thermal.data_frame = df
                self.trace.class_definitions["thermal"] = trappy.thermal.Thermal
                self.trace.trace_classes.append(self.trace.thermal)
            else:
                self.trace.add_parsed_event(name, df, pivot=pivot)
        self.pvars = {"A1": self.trace.class_definitions["e1"], "A3": self.trace.class_definitions["e3"], "n": 4,
                      "total": lambda d: float(d.sum().sum()), "first": lambda d, e: d.iloc[-1, 0] - e}

    def rows(self, event, window, filters):
        out = []
        for t, r in self.events[event][1]:
            if t < window[0] or (window[1] is not None and t > window[1]):
                continue
            if all(r[c] is not None and r[c] in (v if isinstance(v, list) else [v]) for c, v in filters.items() if c in r):
                out.append((t, r))
        return out


ALIAS = {"A1": "e1", "A3": "e3", "trappy.thermal.Thermal": "thermal"}


class Model(object):
    """What the parser should know"""

    def __init__(self, world, window=(0, None), filters=None):
        self.w, self.window, self.filters = world, window, filters or {}
        self.known = []

    def access(self, acc):
        """Register an accessor; returns the error, if any"""
        name, col = acc.split(":")
        ev = ALIAS.get(name, name)
        rows = self.w.rows(ev, self.window, self.filters)
        if not rows:
            return "error"
        if (ev, col) not in self.known:
            self.known.append((ev, col))

    def index(self):
        return sorted({t for ev, _ in self.known for t, _ in self.w.rows(ev, self.window, self.filters)})

    def value(self, acc):
        name, col = acc.split(":")
        ev = ALIAS.get(name, name)
        pivot = self.w.events[ev][0]
        rows = self.w.rows(ev, self.window, self.filters)
        out = {}
        for p in sorted({r[pivot] for _, r in rows}) if pivot else [NP]:
            mine = [(t, r[col]) for t, r in rows if (not pivot or r[pivot] == p) and r[col] is not None]
            out[p] = [([float("nan")] + [v for s, v in mine if s <= t])[-1] for t in self.index()]
        return out


def same(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-12 * abs(b)


def compare(res, got, index, want, what):
    if not isinstance(got, pd.DataFrame):
        res.fail("type", "%s: is a %s" % (what, type(got).__name__))
        return False
    if [float(t) for t in got.index] != index:
        res.fail("index", "%s: the times are %r, expected %r" % (what, list(got.index), index))
        return False
    if sorted(map(str, got.columns)) != sorted(map(str, want)):
        res.fail("columns", "%s: the columns are %r, expected %r" % (what, list(got.columns), sorted(want)))
        return False
    for p, vals in want.items():
        g = list(got[p])
        if len(g) != len(vals) or not all(same(x, y) for x, y in zip(g, vals)):
            res.fail("value", "%s: column %r is %r, expected %r at %r" % (what, p, g, vals, index))
            return False
    return True


def solve(p, text):
    try:
        return p.solve(text)
    except Exception as e:
        return e


def describe(world):
    return {k: v[1] for k, v in world.events.items()}


def step(res, world, parser, model, acc, hist):
    """Solve one accessor and compare"""
    name, col = acc.split(":")
    err = model.access(acc)
    got = solve(parser, acc)
    res.run()
    res.step()
    what = "%r after %r of %r, window %r, filters %r" % (acc, hist, describe(world), model.window, model.filters)
    if err:
        res.tag("empty")
        if not isinstance(got, Exception):
            res.fail("empty", "%s: no rows are left but it gives\n%s" % (what, got))
            return False
        return True
    if isinstance(got, Exception):
        res.fail("exception", "%s: %r" % (what, got))
        return False
    want = model.value(acc)
    res.tag("pivot" if NP not in want else "plain")
    if acc in hist:
        res.tag("repeat")
    if name in ("A1", "A3"):
        res.tag("alias")
    if "." in name:
        res.tag("class-path")
    if hist and any(math.isnan(v) for vs in want.values() for v in vs[:1]):
        res.tag("late-event")
    if col == "z" and any(r[1]["z"] is None for r in world.events["e2"][1]):
        res.tag("missing-sample")
    if len({a for a, b in model.known if b == col}) > 1:
        res.tag("shared-column")
    if len(model.index()) < sum(len(world.rows(e, model.window, model.filters)) for e in {e for e, _ in model.known}):
        res.tag("shared-time")
    res.state(describe(world), model.known, model.window, repr(model.filters), acc)
    return compare(res, got, model.index(), want, what)


def histories(case):
    res = Res()
    world = World(*case["tables"])
    window, filters = tuple(case.get("window", (0, None))), case.get("filters")
    if filters:
        res.tag("filter")
    if window != (0, None):
        res.tag("window")
    for seq in case["seqs"]:
        kw = {"window": window, "filters": filters} if "window" in case else {}
        parser = Parser(world.trace, pvars=dict(world.pvars), **kw)
        model = Model(world, window, filters)
        for i, acc in enumerate(seq):
            if not step(res, world, parser, model, acc, list(seq[:i])):
                return res
        if case.get("inspect"):
            inspect(res, world, parser, model, seq)
    return res


def inspect(res, world, parser, model, seq):
    for acc in ("e1:x", "e1:nope", "A3:w", "e3:cpu", "none:x", "trappy.thermal.Thermal:temp", "e2:k"):
        name, col = acc.split(":")
        ev = ALIAS.get(name, name)
        rows = world.rows(ev, model.window, model.filters)
        pivot = world.events[ev][0]
        if pivot and not rows:
            continue
        info = parser.inspect(acc)
        want = {"length": len(rows), "pivot": pivot, "column": col, "class": world.trace.class_definitions[ev],
                "pivot_values": sorted({r[pivot] for _, r in rows}) if pivot else None,
                "column_present": any(col in r for _, r in world.events[ev][1])}
        res.run()
        res.tag("inspect")
        got = {k: info.get(k) for k in want}
        got["column_present"] = bool(got["column_present"]) if rows else want["column_present"]
        if got["pivot_values"] is not None:
            got["pivot_values"] = [int(v) for v in got["pivot_values"]]
        if got != want:
            res.fail("inspect", "inspect(%r) is %r, expected %r" % (acc, got, want))
            return


NAN = float("nan")


def div(a, b):
    if b == 0:
        return NAN if a == 0 or math.isnan(a) else math.copysign(float("inf"), a)
    return a / b


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": div, ">": lambda a, b: a > b, "<": lambda a, b: a < b,
       ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<=": lambda a, b: a <= b}


def expressions(case):
    """Expressions of accessors after a history of others"""
    res = Res()
    world = World(*case["tables"])
    for hist in case["seqs"]:
        for form in FORMS:
            parser = Parser(world.trace, pvars=dict(world.pvars))
            model = Model(world)
            for acc in hist:
                model.access(acc)
                solve(parser, acc)
            accs = form[1]
            for acc in accs:
                model.access(acc)
            got = solve(parser, form[0])
            res.run()
            res.step()
            what = "%r after %r of %r" % (form[0], hist, describe(world))
            vals = [model.value(a) for a in accs]
            want = form[2](*vals)
            if isinstance(got, Exception):
                res.fail("exception", "%s: %r" % (what, got))
                return res
            if isinstance(want, dict):
                if not compare(res, got, model.index(), want, what):
                    return res
                res.tag("mask" if got.dtypes.iloc[0] == bool else "arith")
                if got.dtypes.iloc[0] == bool:
                    if not refs(res, parser, model, got, want, hist, what):
                        return res
            else:
                res.tag("function")
                if not same(got, want):
                    res.fail("function", "%s is %r, expected %r" % (what, got, want))
                    return res
            res.state(repr(want))
    return res


def refs(res, parser, model, got, want, hist, what):
    """ref(mask): the rows of everything accessed so far where the mask holds"""
    p = sorted(want)[0]
    sel = parser.ref(got[p])
    keep = [i for i, v in enumerate(want[p]) if v]
    idx = [model.index()[i] for i in keep]
    ok = [float(t) for t in sel.index] == idx
    cols = [c for _, c in model.known]
    if ok and len(set(cols)) == len(cols):
        for ev, col in model.known:
            v = model.value(ev + ":" + col)
            for q, vals in v.items():
                ok = ok and all(same(a, vals[i]) for a, i in zip(sel[(col, q)], keep))
        ok = ok and sel.shape[1] == sum(len(model.value(e + ":" + c)) for e, c in model.known)
    if not ok:
        res.fail("ref", "ref(%s of column %r): is\n%s\nexpected the times %r" % (what, p, sel, idx))
    return ok


def each(f):
    def g(*vs):
        return {p: [f(*c) for c in zip(*[v[p] for v in vs])] for p in vs[0]}
    return g


FORMS = [("e1:x %s e2:x" % o, ["e1:x", "e2:x"], each(f)) for o, f in BIN.items()]
FORMS += [("e3:x %s A3:w" % o, ["e3:x", "e3:w"], each(f)) for o, f in BIN.items()]
FORMS += [("e1:y > 1", ["e1:y"], each(lambda a: a > 1)), ("e3:w * n - 1", ["e3:w"], each(lambda a: a * 4 - 1)),
          ("-e2:z + e2:x", ["e2:z", "e2:x"], each(lambda a, b: -a + b)), ("2 - e1:x", ["e1:x"], each(lambda a: 2 - a)),
          ("(e1:x + e1:y) / (e2:x - 1)", ["e1:x", "e1:y", "e2:x"], each(lambda a, b, c: div(a + b, c - 1))),
          ("(e1:x > 5) & (e2:x < -5)", ["e1:x", "e2:x"], each(lambda a, b: a > 5 and b < -5)),
          ("(e3:x > 100) | (e3:w == 0)", ["e3:x", "e3:w"], each(lambda a, b: a > 100 or b == 0)),
          ("total(e3:x)", ["e3:x"], lambda v: sum(a for c in v.values() for a in c if not math.isnan(a))),
          ("total(e1:x - e1:y) * n", ["e1:x", "e1:y"], lambda v, w: 4 * sum(a - b for a, b in zip(v[NP], w[NP]) if not math.isnan(a))),
          ("first(thermal:temp, n) + 1", ["thermal:temp"], lambda v: sorted(v.items())[0][1][-1] - 4 + 1)]


def unknown(case):
    res = Res()
    world = World(*case["tables"])
    for acc in ("nosuch:x", "e1:nosuch", "no.such.Module:x", "nosuch"):
        for hist in ([], ["e1:x"], ["e1:x", "e3:x"]):
            parser = Parser(world.trace, pvars=dict(world.pvars))
            model = Model(world)
            for h in hist:
                model.access(h)
                solve(parser, h)
            got = solve(parser, acc)
            res.run()
            res.tag("unknown")
            if not isinstance(got, Exception):
                res.fail("unknown", "%r gives %r" % (acc, got))
            # and the parser still answers
            if not step(res, world, parser, model, "e2:x", hist + [acc]):
                return res
    return res


def run_case(case):
    return {"histories": histories, "expressions": expressions, "unknown": unknown}[case["kind"]](case)


ACCS = ["e1:x", "e1:y", "e2:x", "e2:z", "e3:x", "e3:w"]
MORE = ["e3:v", "A1:x", "A3:w", "thermal:temp", "trappy.thermal.Thermal:temp", "none:x", "e2:k"]


def explore(ctx):
    subsets = [s for n in (1, 2, 3) for s in itertools.combinations(GRID, n)]
    pivots = [[(a, 0), (b, 1)] for a, b in itertools.combinations(GRID, 2)] + [[(1.0, 1), (2.5, 0), (4.0, 1)], [(2.5, 3)],
                                                                              [(1.0, 0), (2.5, 0), (4.0, 0)]]
    tables = [list(t) for t in itertools.product(subsets, subsets, pivots)]
    cases = []
    pairs = [list(s) for s in itertools.product(["e1:x", "e2:x", "e2:z", "e3:x"], repeat=2)]
    for t in tables:
        cases.append({"kind": "histories", "tables": t, "seqs": pairs if not ctx.quick else
                      [s for s in pairs if s[0] != s[1]]})
    some = tables[::len(tables) // (3 if ctx.quick else 15)]
    n = 3 if ctx.quick else 4
    for t in some:
        seqs = [list(s) for s in itertools.product(ACCS, repeat=n)]
        for i in range(0, len(seqs), 27):
            cases.append({"kind": "histories", "tables": t, "seqs": seqs[i:i + 27]})
        orders = [list(s) + [s[0], s[3]] for s in itertools.permutations(ACCS)][::5 if ctx.quick else 1]
        for i in range(0, len(orders), 24):
            cases.append({"kind": "histories", "tables": t, "seqs": orders[i:i + 24]})
        mixed = [list(s) for s in itertools.product(ACCS[::2] + MORE, repeat=2)]
        for i in range(0, len(mixed), 27):
            cases.append({"kind": "histories", "tables": t, "seqs": mixed[i:i + 27], "inspect": True})
    zero = [[0.0, 1.0], [0.0, 4.0], [(0.0, 1), (1.0, 0), (2.5, 1)]]
    for w in ((0, 0), (0, None), (0, 1.0), (0.0, 0.5), (1.0, 0), (-1, 0), (-1.0, None)):
        for f in (None, {"k": 0}, {"x": [0, 1, -5, 100]}, {"cpu": 1}, {"x": 0}, {"y": 0}):
            cases.append({"kind": "histories", "tables": zero, "window": list(w), "filters": f, "inspect": True,
                          "seqs": [[a, b] for a in ACCS[::2] + ["e1:y"] for b in ACCS[::2] + ["e2:k"]]})
    windows = [(0, None), (1.0, None), (1.5, None), (2.5, 2.5), (0, 1.0), (0, 0.5), (1.0, 4.0), (3.0, 4.0), (4.5, None), (0, 3.9)]
    filters = [None, {"x": 1}, {"x": [1, -5, 100]}, {"cpu": 0}, {"cpu": [0, 1, 7]}, {"k": 1}, {"k": [0], "cpu": 1}, {"nope": 3},
               {"nope": [3], "x": [101, -6, 11]}, {"cpu": []}, {"z": [0, 6]}, {"y": 0.5, "w": 7}]
    wt = [GRID, GRID, pivots[3]]
    for w, f in itertools.product(windows, filters):
        for a in ACCS:
            cases.append({"kind": "histories", "tables": wt, "window": list(w), "filters": f, "inspect": a == "e1:x",
                          "seqs": [[a, b] for b in ACCS if a != b][::2 if ctx.quick else 1]})
    for t in [wt] + some[:2 if ctx.quick else 16]:
        for a in [[]] + [[x] for x in ACCS]:
            cases.append({"kind": "expressions", "tables": t, "seqs": [a] if ctx.quick else [a + [b] for b in ACCS] + [a]})
    cases.append({"kind": "unknown", "tables": wt})
    ctx.run_cases(run_case, cases, describe=lambda c: {k: v if k != "seqs" else v[:2] for k, v in c.items()})
