"""C28: frequency and load tables have each cluster's latest value.

tables    every short table over masks and values, with every mapping, given
          to pivot_with_labels
masks     every cpumask of up to N cpus in all printed formats
traces    every sequence of up to N power events of two clusters (of
          different size) and a GPU, parsed by the real code: the tables of
          frequencies, loads and normalised loads against the latest event
          of each cluster
"""
import itertools

import numpy as np
import pandas as pd
import trappy
from mc import traces as T
from mc.core import Res
from trappy import cpu_power

PROPERTY = "C28"
LEVEL = "model_checking"
ASSUMPTIONS = ["every mapped cluster has an event of both kinds when get_all_freqs_data is called", "a mapping has different labels for different masks",
               "some power event has a non-empty load array"]
MUST_SEE = ("pivot", "missing-value", "unmapped", "unused-label", "masks", "loads", "normalised", "asymmetric", "absent-cluster", "all-freqs", "gpu", "gpu-one-way", "leading",
            "held", "again", "several-loads")
BOUNDS = ("all tables of up to 4 (thorough 5) rows over 3 masks x 3 values x 4 mappings; all masks of 8 cpus and of single bits up to 127 in 5 formats; all sequences of up to 3 "
          "(thorough 4) of 10 power events, each also after one event of every kind")

MASKS = ["000000f0", "0000000f", "00000000,00000030"]
MAPS = [{"000000f0": "big", "0000000f": "LITTLE", "00000000,00000030": "mid"}, {"000000f0": "b c", "0000000f": "A7"}, {"0000000f": "x"}, {}]
SMALL, BIG = "00000000,00000030", "00000fff"
LABELS = {SMALL: "A57", BIG: "A53"}
EVENTS = [("in", SMALL, 1900000, (74, 49)), ("in", SMALL, 450000, (0, 100)), ("in", BIG, 850000, (1, 2, 1, 3, 0, 0, 7, 0, 0, 1, 64, 100)), ("in", BIG, 425000, (100, 0, 50, 50, 0, 0, 0, 0, 0, 0, 9, 0)),
          ("out", SMALL, 1100000, None), ("out", BIG, 850000, None), ("out", BIG, 575000, None),
          ("gin", None, 600000000, 30), ("gin", None, 177500000, 90), ("gout", None, 533333000, None)]


def observe(df):
    out = {}
    for c in df.columns:
        out[str(c)] = [None if v != v else float(v) for v in df[c]]
    return [float(t) for t in df.index], out


def hold(series, times):
    """The latest value at or before each time of {time: value}."""
    out, last = [], None
    for t in times:
        if series.get(t) is not None:
            last = float(series[t])
        out.append(last)
    return out


def held(columns):
    times = sorted(set(t for s in columns.values() for t in s))
    return times, {c: hold(s, times) for c, s in columns.items()}


def near(a, b):
    if a[0] != b[0] or sorted(a[1]) != sorted(b[1]):
        return False
    return all((x is None) == (y is None) and (x is None or abs(x - y) <= 1e-9 * max(1, abs(y)))
               for c in a[1] for x, y in itertools.zip_longest(a[1][c], b[1][c]))


def pivots(res, case):
    for raw in case["tables"]:
        times = [1.5 * i for i in range(len(raw))]
        df = pd.DataFrame({"m": [MASKS[m] for m, _ in raw], "other": ["x"] * len(raw), "v": [float("nan") if v is None else v for _, v in raw]}, index=times)
        for mapping in MAPS:
            what = "rows %r with mapping %r" % (raw, mapping)
            cols = {}
            for t, (m, v) in zip(times, raw):
                cols.setdefault(MASKS[m], {})[t] = v
            before = df.copy()
            res.run()
            res.step(len(raw))
            try:
                got = observe(cpu_power.pivot_with_labels(df, "v", "m", mapping))
            except KeyError as e:
                if all(m in mapping for m in cols):
                    res.fail("refused", "%s: %s" % (what, e))
                    return
                if not any(m in str(e) for m in cols if m not in mapping):
                    res.fail("message", "%s: the error %s does not name the mask" % (what, e))
                    return
                res.tag("unmapped")
                continue
            if not all(m in mapping for m in cols):
                res.fail("accepted", what + ": a mask that is not mapped was accepted")
                return
            want = held({mapping[m]: s for m, s in cols.items()})
            if not near(got, want):
                res.fail("pivot", "%s: got %r, expected %r" % (what, got, want))
                return
            if not before.equals(df):
                res.fail("source", what + ": the table given was altered")
                return
            res.state(want)
            res.tag("pivot")
            if len(cols) < len(mapping):
                res.tag("unused-label")
            if any(v is None for _, v in raw):
                res.tag("missing-value")


def masks(res, case):
    for bits in case["masks"]:
        value = sum(1 << b for b in bits)
        text = "%x" % value
        wide = "%032x" % value
        forms = [text, "%08x" % value, text.upper(), wide, ",".join(wide[i:i + 8] for i in range(0, 32, 8))]
        if value < 1 << 64:
            forms.append("%08x,%08x" % (value >> 32, value & 0xffffffff))
        for f in forms:
            res.run()
            res.step()
            got = cpu_power.num_cpus_in_mask(f)
            if got != len(bits):
                res.fail("mask", "%d cpus in mask %r, expected %d" % (got, f, len(bits)))
                return
        res.state(value)
        res.tag("masks")


def payload(e):
    kind, mask, freq, load = e
    if kind == "in":
        return "thermal_power_cpu_get_power", "cpus=%s freq=%d load={%s} dynamic_power=45 static_power=6" % (mask, freq, " ".join(map(str, load)))
    if kind == "out":
        return "thermal_power_cpu_limit", "cpus=%s freq=%d cdev_state=1 power=14" % (mask, freq)
    if kind == "gin":
        return "thermal_power_devfreq_get_power", "type=thermal-devfreq-0 freq=%d load=%d dynamic_power=1 static_power=2" % (freq, load)
    return "thermal_power_devfreq_limit", "type=thermal-devfreq-0 freq=%d cdev_state=2 power=3" % freq


def load(evs):
    lines = []
    for i, e in enumerate(evs):
        name, data = payload(e)
        lines.append(T.line("%d.500000" % (i + 10), name, data))
    T.write("t.txt", T.text(lines))
    with T.cache(False):
        return trappy.FTrace("t.txt", scope="thermal", normalize_time=False, name="run")


def column(evs, kind, mask, fn):
    return {10.5 + i: fn(e) for i, e in enumerate(evs) if e[0] == kind and e[1] == mask}


def expected(evs):
    """{what: table} of the tables that must be there."""
    out = {}
    ins = [m for m in LABELS if any(e[0] == "in" and e[1] == m for e in evs)]
    outs = [m for m in LABELS if any(e[0] == "out" and e[1] == m for e in evs)]
    ncpu = {SMALL: 2, BIG: 12}
    if ins:
        out["in"] = held({LABELS[m]: column(evs, "in", m, lambda e: e[2] / 1000.0) for m in ins})
        out["load"] = held({LABELS[m]: column(evs, "in", m, lambda e: sum(e[3])) for m in ins})
        top = {m: max(e[2] for e in evs if e[0] == "in" and e[1] == m) for m in ins}
        out["normalised"] = held({LABELS[m]: column(evs, "in", m, lambda e: sum(e[3]) * e[2] / float(top[m] * ncpu[m])) for m in ins})
    if outs:
        out["out"] = held({LABELS[m]: column(evs, "out", m, lambda e: e[2] / 1000.0) for m in outs})
    for k in ("gin", "gout"):
        if any(e[0] == k for e in evs):
            out[k] = held({"freq": column(evs, k, None, lambda e: e[2] / 1e6)})
    if len(ins) == len(outs) == 2:
        pairs = []
        for m, label in LABELS.items():
            # the latest value of each, on the times at which any cluster has an event of that kind
            ti, tdi = out["in"]
            to, tdo = out["out"]
            pairs.append((label, held({label + "_freq_in": dict(zip(ti, tdi[label])), label + "_freq_out": dict(zip(to, tdo[label]))})))
        if "gin" in out and "gout" in out:
            pairs.append(("GPU", held({"gpu_freq_in": dict(zip(out["gin"][0], out["gin"][1]["freq"])), "gpu_freq_out": dict(zip(out["gout"][0], out["gout"][1]["freq"]))})))
        out["all"] = pairs
    return out


def calls(tr):
    return {"in": lambda: tr.cpu_in_power.get_all_freqs(LABELS), "out": lambda: tr.cpu_out_power.get_all_freqs(LABELS), "load": lambda: tr.cpu_in_power.get_load_data(LABELS),
            "normalised": lambda: tr.cpu_in_power.get_normalized_load_data(LABELS), "gin": lambda: tr.devfreq_in_power.get_all_freqs(), "gout": lambda: tr.devfreq_out_power.get_all_freqs(),
            "all": lambda: tr.get_all_freqs_data(LABELS)}


def powers(res, case):
    for seq in case["seqs"]:
        evs = [EVENTS[i] for i in seq]
        tr = load(evs)
        want = expected(evs)
        fns = calls(tr)
        what = "events %r" % (evs,)
        events = ("cpu_in_power", "cpu_out_power", "devfreq_in_power", "devfreq_out_power")
        before = [getattr(tr, e).data_frame.copy() for e in events]
        for k in list(want) + (list(want)[::-1] if case["again"] else []):
            res.run()
            res.step(len(seq))
            got = fns[k]()
            if k == "all":
                if [g[0] for g in got] != [w[0] for w in want[k]]:
                    res.fail("all", "%s: names %r, expected %r" % (what, [g[0] for g in got], [w[0] for w in want[k]]))
                    return
                for (n, g), (_, w) in zip(got, want[k]):
                    if not near(observe(g), w):
                        res.fail("all", "%s: frequencies of %s are %r, expected %r" % (what, n, observe(g), w))
                        return
            elif not near(observe(got), want[k]):
                res.fail(k, "%s: %s is %r, expected %r" % (what, k, observe(got), want[k]))
                return
        for e, b in zip(events, before):
            if not b.equals(getattr(tr, e).data_frame):
                res.fail("source", "%s: the table of %s was altered" % (what, e))
                return
        res.state(want)
        ins = set(e[1] for e in evs if e[0] == "in")
        tags = [("loads", ins), ("normalised", len(ins) == 2), ("asymmetric", len(ins) == 2), ("absent-cluster", len(ins) == 1), ("all-freqs", "all" in want), ("gpu", "gin" in want and "gout" in want),
                ("gpu-one-way", ("gin" in want) != ("gout" in want) and "all" in want), ("leading", any(None in c for w in want.values() if isinstance(w, tuple) for c in w[1].values())),
                ("again", case["again"]), ("several-loads", sum(e[0] == "in" for e in evs) > 2),
                ("held", any(len(c) > len(set(c)) for w in want.values() if isinstance(w, tuple) for c in w[1].values()))]
        res.tag(*[t for t, on in tags if on])


def run_case(case):
    res = Res()
    {"pivot": pivots, "mask": masks, "power": powers}[case["what"]](res, case)
    return res


def explore(ctx):
    cases = []
    top = 4 if ctx.quick else 5
    alpha = [(m, v) for m in range(3) for v in (1, 7, None)]
    tables = [list(s) for n in range(1, top + 1) for s in itertools.product(alpha, repeat=n)]
    if ctx.quick:
        tables = [t for t in tables if len(t) < 4 or t[0] in ((0, 1), (1, None)) and (2, 1) not in t]
    for i in range(0, len(tables), 60):
        cases.append({"what": "pivot", "tables": tables[i:i + 60]})
    sets = [[b for b in range(8) if v >> b & 1] for v in range(1, 256)] + [[b] for b in range(128)] + [[b, 127] for b in range(127)] + [list(range(b)) for b in range(1, 129)]
    for i in range(0, len(sets), 100):
        cases.append({"what": "mask", "masks": sets[i:i + 100]})
    depth = 3 if ctx.quick else 4
    n = range(len(EVENTS))
    seqs = [list(s) for k in range(1, depth + 1) for s in itertools.product(n, repeat=k)]
    prefixes = [[0, 2, 4, 5], [5, 4, 7, 3, 0], [9, 2, 5, 8, 1, 6, 4]]
    seqs += [p + list(s) for p in prefixes for k in range(depth) for s in itertools.product(n, repeat=k)]
    seqs += [list(s) for s in itertools.permutations([0, 2, 4, 5] if ctx.quick else [0, 2, 4, 5, 7, 9])]
    for i in range(0, len(seqs), 10):
        cases.append({"what": "power", "seqs": seqs[i:i + 10], "again": i % 50 == 0})
    ctx.run_cases(run_case, cases, describe=lambda c: {k: (v[:3] if isinstance(v, list) else v) for k, v in c.items()})
