"""C14: callbacks see every row of their events once, in the order of the trace.

Every file of up to N lines over an alphabet of events and time steps is
loaded on the real code (plain, windowed, from the cache) and every subset of
the events, in every order, is iterated over with recording callbacks; the
calls must be the lines of those events in the order of the file, each with
all the columns of its row.
"""
import itertools
import os
import shutil

import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C14"
LEVEL = "model_checking"
ASSUMPTIONS = ["callbacks are given for events of the trace; added events without a __line column are not iterated"]
MUST_SEE = ("empty-event", "interleaved", "windowed", "cached", "stopped", "same-time", "no-calls")
BOUNDS = ("all files of up to 5 (thorough 6) lines over 3 events x 2 time steps and an unselected event; all subsets and orders of 3 "
          "events plus one that is absent; normalised, windowed and cached loads")

EV = ["ev_one", "ev_two", "cpu_frequency", "ev_none"]
PAY = {"1": ("ev_one", "a={i} b=x{i}"), "2": ("ev_two", "_a={i} a b=7 class={i}"), "3": ("cpu_frequency", "state={i} cpu_id=1"),
       "u": ("ev_zzz", "a={i}")}
WANT = {"1": lambda i: {"a": i, "b": "x%d" % i}, "2": lambda i: {"_a": i, "b": 7, "class": i},
        "3": lambda i: {"frequency": i, "cpu": 1}}
MAPS = [list(p) for n in range(4) for p in itertools.permutations(EV[:3], n)] + [["ev_none"], ["ev_none", "ev_two", "ev_one"]]


def text(seq):
    t, out, times = 2000000, [], []
    for i, (k, step) in enumerate(seq):
        t += step
        ev, pay = PAY[k]
        times.append(t)
        out.append(T.line("%d.%06d" % divmod(t, 1000000), ev, pay.format(i=i), pid=10 + i, cpu=i % 3))
    return T.text(out), times


def calls(tr, names, stop=None):
    log = []

    def cb(name):
        def f(row):
            d = {}
            for k, v in row.items():
                c = T.num(v)
                if c is not None:
                    d[str(k)] = c[1] if isinstance(c, list) and c[0] == "s" else c
            d["Index"] = float(row["Index"])
            row.clear()
            log.append((name, d))
            if stop is not None and len(log) == stop:
                raise KeyError("stop")
        return f
    tr.apply_callbacks({n: cb(n) for n in names})
    return log


def run_case(case):
    res = Res()
    for seq in case["seqs"]:
        seq = [tuple(s) for s in seq]
        txt, times = text(seq)
        if os.path.exists(".t.txt.cache"):
            shutil.rmtree(".t.txt.cache")
        T.write("t.txt", txt)
        loads = [("plain", False, {})]
        if case["more"]:
            loads += [("window", False, {"normalize_time": False, "abs_window": (2.000001, 2.000003)}),
                      ("cold", True, {}), ("cached", True, {})]
        for kind, cached, kw in loads:
            with T.cache(cached):
                tr = trappy.FTrace("t.txt", scope="custom", events=EV, **kw)
            index = {}
            for n in EV[:3]:
                df = getattr(tr, n).data_frame
                if len(df):
                    for t, line in zip(df.index, df["__line"]):
                        index[int(line)] = float(t)
            first = 0
            for names in (MAPS if kind == "plain" else MAPS[:1] + MAPS[4:9:2] + MAPS[-2:] + MAPS[10:11]):
                want = []
                for i, (k, _) in enumerate(seq):
                    if k == "u" or PAY[k][0] not in names:
                        continue
                    if kind == "window" and not 2000001 <= times[i] <= 2000003:
                        res.tag("windowed")
                        continue
                    d = dict(WANT[k](i), __comm="task", __pid=10 + i, __cpu=i % 3, __line=i)
                    d["Index"] = index.get(i - first)
                    want.append((PAY[k][0], d))
                got = calls(tr, names)
                res.run()
                res.step(len(want))
                if got != want:
                    res.fail("calls", "%s load, lines %r, callbacks for %r: called with %r, expected %r" % (kind, seq, names, got, want))
                    return res
                if not want:
                    res.tag("no-calls")
                if names and len(set(w[0] for w in want)) < len(names):
                    res.tag("empty-event")
                if any(a[0] != b[0] for a, b in zip(want, want[1:])):
                    res.tag("interleaved")
                if len(want) > 2:
                    # a callback that raises ends the iteration
                    log = []
                    try:
                        calls(tr, names, stop=2)
                        res.fail("stop", "%s load, lines %r: the exception of a callback was swallowed" % (kind, seq))
                    except KeyError:
                        res.tag("stopped")
                res.state(kind == "window", [w[0] for w in want], names)
            if kind == "cached":
                res.tag("cached")
            if len(set(times)) < len(times):
                res.tag("same-time")
    return res


def explore(ctx):
    alpha = [(k, s) for k in "123" for s in (0, 1)] + [("u", 1)]
    cases = []
    top = 4 if ctx.quick else 5
    seqs = [s for n in range(top + 1) for s in itertools.product(alpha, repeat=n)]
    # longer files: times are all different
    seqs += [s for s in itertools.product([("1", 1), ("2", 1), ("3", 1)], repeat=top + 1)]
    for more in (True, False):
        sel = [s for i, s in enumerate(seqs) if (len(s) <= 3) == more]
        for i in range(0, len(sel), 20):
            cases.append({"seqs": sel[i:i + 20], "more": more})
    ctx.run_cases(run_case, cases, describe=lambda c: dict(c, seqs=c["seqs"][:3]))
