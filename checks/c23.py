"""C23: traces, columns and templates are combined as documented.

Every combination of numbers of traces, columns and templates, of frames and
of traces, zipped and permuted, is given to the real ConstraintManager; every
list of pivot values of the bounded language is sorted by it.
"""
import itertools

import pandas as pd
import trappy
from mc.core import Res
from trappy.plotter import AttrConf
from trappy.plotter.Constraint import ConstraintManager

PROPERTY = "C23"
LEVEL = "model_checking"
ASSUMPTIONS = ["pivot values that are compared are all numbers or all texts"]
MUST_SEE = ("zip", "permute", "expanded-traces", "expanded-columns", "expanded-templates", "scalar", "refused", "empty", "frames", "traces", "named",
            "sorted-int", "sorted-decimal", "sorted-hex", "sorted-text", "sorted-float", "permuted-pivots")
BOUNDS = ("all numbers of traces, columns and templates from 0 to 4 (thorough 5), and of 11 or 12 traces, single values and lists, zipped and permuted, frames and traces, named or not; all orders of up to 4 "
          "(thorough 5) pivot values out of five groups, spread over up to three traces in all ways")

COLS = ["ca", "cb", "cc", "cd", "ce"]
EVS = ["ev_a", "ev_b", "ev_c", "ev_d", "ev_e"]
GROUPS = {"int": [0, 3, 10, -2, 21, 2 ** 33], "decimal": ["0", "9", "10", "-11", "21", "8589934592"], "hex": ["9", "a", "10", "f", "1b", "ff0001", "10000000a", "f0000000"],
          "text": ["zed", "apple", "9", "Zed", "00000000,00000006"], "float": [0.75, 0.5, 0.25, -0.5, 12.5]}


def frame(t, e):
    """Values name the trace, the event and the column they are from."""
    return pd.DataFrame({c: [1000.0 * t + 100 * e + 10 * i, 1000 * t + 100 * e + 10 * i + 1] for i, c in enumerate(COLS)}, index=[1.0, 2.0])


def build(kind, nt, named):
    if kind == "frames":
        return [frame(t, 0) for t in range(nt)]
    out = []
    for t in range(nt):
        tr = trappy.BareTrace(name="run%d" % (t // 2) if named else "")
        for e, ev in enumerate(EVS):
            tr.add_parsed_event(ev, frame(t, e))
        out.append(tr)
    return out


def combos(nt, nc, nm, permute):
    """[(trace, column, template, trace number)] or None if refused."""
    if min(nt, nc, nm) == 0:
        return None
    if permute:
        m = max(nc, nm)
        if any(n not in (1, m) for n in (nc, nm)):
            return None
        return [(t, c if nc > 1 else 0, c if nm > 1 else 0, t) for t in range(nt) for c in range(m)]
    m = max(nt, nc, nm)
    if any(n not in (1, m) for n in (nt, nc, nm)):
        return None
    return [(i if nt > 1 else 0, i if nc > 1 else 0, i if nm > 1 else 0, i if nt > 1 else 0) for i in range(m)]


def arg(lst, scalar):
    return lst[0] if scalar else lst


def combine(res, case):
    kind, named, nt, nc, nm, permute = case["kind"], case["named"], case["nt"], case["nc"], case["nm"], case["permute"]
    traces = build(kind, nt, named)
    cols = COLS[:nc]
    if kind == "traces":
        helper = build(kind, 1, False)[0]
        temps = [traces[0].class_definitions[e] if traces else helper.class_definitions[e] for e in EVS[:nm]]
        share = [t.class_definitions for t in traces]
        for t, d in zip(traces, share):
            for e, tmpl in zip(EVS, temps):
                d[e] = tmpl
    else:
        temps = [None] * nm
    scalars = [n == 1 for n in (nt, nc, nm)]
    for how in itertools.product(*[(False, True) if s else (False,) for s in scalars]):
        if any(how):
            res.tag("scalar")
        want = combos(nt, nc, nm, permute)
        args = (arg(traces, how[0]), arg(cols, how[1]), arg(temps, how[2]))
        what = "%d %s, %d columns, %d templates%s (single: %r)" % (nt, kind, nc, nm, ", permuted" if permute else "", how)
        res.run()
        res.step()
        try:
            mgr = ConstraintManager(args[0], args[1], args[2], AttrConf.PIVOT, {}, zip_constraints=not permute)
        except RuntimeError:
            if want is not None:
                res.fail("refused", what + ": refused")
                return
            res.tag("refused")
            if min(nt, nc, nm) == 0:
                res.tag("empty")
            res.state("refused", nt, nc, nm, permute)
            continue
        if want is None:
            res.fail("accepted", what + ": not refused, got %r" % mgr.constraint_labels())
            return
        got = [[float(x) for s in c.result.values() for x in s] for c in mgr]
        exp = []
        labels = []
        for t, c, m, number in want:
            base = 1000.0 * t + 100 * (m if kind == "traces" else 0) + 10 * c
            exp.append([base, base + 1])
            name = "DataFrame %d" % number if kind == "frames" else ("run%d" % (t // 2) if named else "Trace %d" % number)
            labels.append(":".join([name, COLS[c]] if kind == "frames" else [name, EVS[m], COLS[c]]))
        if got != exp or len(mgr) != len(exp):
            res.fail("combine", "%s: got the data of %r, expected %r" % (what, got, exp))
            return
        if mgr.constraint_labels() != labels:
            res.fail("labels", "%s: labels %r, expected %r" % (what, mgr.constraint_labels(), labels))
            return
        if [c.trace_index for c in mgr] != [w[3] for w in want]:
            res.fail("index", "%s: trace numbers %r, expected %r" % (what, [c.trace_index for c in mgr], want))
            return
        pivots, count = mgr.generate_pivots(permute)
        wantp = [(t, AttrConf.PIVOT_VAL) for t in range(nt)] if permute else [AttrConf.PIVOT_VAL]
        if list(pivots) != wantp or count != len(wantp):
            res.fail("pivots", "%s: pivots %r" % (what, pivots))
            return
        res.state(nt, nc, nm, permute, kind, named)
        res.tag(kind, "permute" if permute else "zip")
        if named and kind == "traces":
            res.tag("named")
        if len(want) > nt * (nc if permute else 1):
            res.tag("expanded-" + ("columns" if nc == 1 and nm > 1 else "traces"))
        if len(want) > nc:
            res.tag("expanded-columns")
        if len(want) > nm:
            res.tag("expanded-templates")


def rank(group):
    if group in ("int", "float"):
        return lambda x: x
    if group == "decimal":
        return int
    if group == "hex":
        return lambda x: int(x, 16)
    return lambda x: x


def sort(res, case):
    for group, vals in case["sets"]:
        keyed = "hex" if group == "text" and all(set(v) <= set("0123456789abcdef") for v in vals) else group
        if group in ("hex", "text") and all(v.isdigit() for v in vals):
            keyed = "decimal"
        want = sorted(set(vals), key=rank(keyed))
        n = len(vals)
        for owner in itertools.product(range(min(3, n)), repeat=n):
            nt = max(owner) + 1
            if sorted(set(owner)) != list(range(nt)):
                continue
            dfs = [pd.DataFrame([(v, 1.0) for v, o in zip(vals, owner) if o == t] + [(vals[0], 2.0)], columns=["k", "v"]) for t in range(nt)]
            mgr = ConstraintManager(dfs, "v", None, "k", {})
            pivots, count = mgr.generate_pivots()
            res.run()
            res.step(n)
            if list(pivots) != want or count != len(want):
                res.fail("sort", "pivots of %r: got %r (%d), expected %r" % (vals, list(pivots), count, want))
                return
            pairs, count = mgr.generate_pivots(permute=True)
            wantp = [(t, p) for t in range(nt) for p in want]
            if list(pairs) != wantp or count != len(wantp):
                res.fail("sort", "permuted pivots of %r for %d traces: %d, expected %r" % (vals, nt, count, wantp))
                return
            res.tag("permuted-pivots")
        res.state(group, want)
        if len(vals) > 2:
            res.tag("sorted-" + keyed)


def run_case(case):
    res = Res()
    if "sets" in case:
        sort(res, case)
    else:
        combine(res, case)
    return res


def explore(ctx):
    top = 4 if ctx.quick else 5
    cases = []
    for kind, named, permute in itertools.product(("frames", "traces"), (False, True), (False, True)):
        if kind == "frames" and named:
            continue
        for nt, nc, nm in itertools.product(range(top + 1), repeat=3):
            if nt or nc or nm:
                cases.append({"kind": kind, "named": named, "permute": permute, "nt": nt, "nc": nc, "nm": nm})
    for kind, permute, (nt, nc) in itertools.product(("frames", "traces"), (False, True), ((12, 1), (11, 11), (12, 2))):
        cases.append({"kind": kind, "named": False, "permute": permute, "nt": nt, "nc": min(nc, len(COLS)), "nm": 1})
    ptop = 4 if ctx.quick else 5
    for g in GROUPS:
        sets = [(g, list(p)) for n in range(1, ptop + 1) for p in itertools.permutations(GROUPS[g], n)]
        if ctx.quick:
            sets = [s for s in sets if len(s[1]) < 4 or s[1][0] < s[1][-1]]
        for i in range(0, len(sets), 10):
            cases.append({"sets": sets[i:i + 10]})
    ctx.run_cases(run_case, cases)
