"""C05: windows keep exactly the events inside them.

The full product of window and abs_window bounds (before, at, between, after
the events, empty, open) is loaded on the real code for several traces and
compared with the rows of the unrestricted load.  Bounds are chosen so that
relative and absolute times are exact binary fractions.
"""
import itertools

import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C05"
LEVEL = "model_checking"
ASSUMPTIONS = ["whether an event belongs to a window is decided on its reported time (equal printed times are spread by less than 1 ns)"]
MUST_SEE = ("empty", "all", "some", "one-event-empty", "start", "end")
BOUNDS = ("8 starts x 9 ends of window times 7 starts x 9 ends of abs_window, normalised or not, for 6 traces (unselected first "
          "event, start at 0, ns times, equal times, times 30 us or 1000 s apart); thorough adds a sorted-twice trace and every pair of events")

TR = {
    "plain": [("9.000000", "u"), ("10.000000", "1"), ("10.250000", "2"), ("10.500000", "1"), ("11.000000", "2"),
              ("12.250000", "1"), ("12.250000", "2"), ("13.0", "u")],
    "zero": [("0.000000", "1"), ("0.500000", "2"), ("1.000000", "1"), ("1.500000", "2"), ("12.000000", "1")],
    "ns": [("10000000000", "1"), ("10500000000", "1"), ("11000000000", "2"), ("12250000000", "2")],
    "same": [("10.000000", "1")] * 3 + [("10.500000", "2")] * 2 + [("10.500000", "1"), ("11.000000", "2")],
    "back": [("10.500000", "1"), ("10.000000", "2"), ("11.000000", "1"), ("10.750000", "2"), ("12.000000", "1")],
}
# The trace "plain" closer together and further apart
FINE = {"fine": 2.0 ** -13, "wide": 2.0 ** 12}
for _n, _f in FINE.items():
    TR[_n] = [("%.20f" % (10 + (float(t) - 9) * _f), e) for t, e in TR["plain"]]


def scaled(name, v, absolute):
    if name not in FINE or v is None or (absolute and v == 0):
        return v
    return 10 + (v - 9) * FINE[name] if absolute else v * FINE[name]


WS = [0, 0.5, 1, 1.5, 3.25, 20, -1, 0.25]
WE = [None, 0, 0.5, 1, 1.5, 2, 3.25, 30, 0.0]
AS = [0, 9, 10, 10.5, 11.125, 12.25, 40]
AE = [None, 0, 9, 10, 10.25, 10.5, 12, 12.25, 50]
EV = ["ev_one", "ev_two"]


def lines(name):
    return T.text([T.line(t, {"1": "ev_one", "2": "ev_two", "u": "zzz"}[e], "a=%d" % i) for i, (t, e) in enumerate(TR[name])])


_full = {}


def full(name):
    if name not in _full:
        T.write("f.txt", lines(name))
        with T.cache(False):
            tr = trappy.FTrace("f.txt", scope="custom", events=EV, normalize_time=False)
        _full[name] = (tr.basetime, tr.endtime, {e: T.rows(getattr(tr, e).data_frame) for e in EV})
    return _full[name]


def run_case(case):
    res = Res()
    name = case["trace"]
    base, end, ref = full(name)
    T.write("t.txt", lines(name))
    for ws, we, as_, ae in itertools.product(case["ws"], WE, AS, AE):
        norm = bool((case["par"] + WE.index(we) + AS.index(as_) + AE.index(ae)) % 2)
        ws, we, as_, ae = scaled(name, ws, False), scaled(name, we, False), scaled(name, as_, True), scaled(name, ae, True)
        args = {}
        if (ws, we) != (0, None):
            args["window"] = (ws, we)
        if (as_, ae) != (0, None):
            args["abs_window"] = (as_, ae)
        with T.cache(False):
            tr = trappy.FTrace("t.txt", scope="custom", events=EV, normalize_time=norm, **args)
        res.run()
        what = "trace %s window %r abs_window %r normalize %s" % (name, (ws, we), (as_, ae), norm)
        if tr.basetime != base or tr.endtime != end:
            res.fail("basetime", "%s: basetime %r endtime %r, expected %r %r" % (what, tr.basetime, tr.endtime, base, end))
        kept = []
        times = []
        for e in EV:
            want = []
            for t, row in ref[e]:
                res.step()
                inside = (t >= base + ws and t >= as_ and (we is None or t <= base + we) and (ae is None or t <= ae))
                if inside:
                    want.append((t - base if norm else t, row))
                    times.append(t)
                if t == base + ws or t == as_:
                    res.tag("start")
                if (we is not None and t == base + we) or (ae is not None and t == ae):
                    res.tag("end")
            got = T.rows(getattr(tr, e).data_frame)
            if [r for _, r in got] != [r for _, r in want] or any(abs(g[0] - w[0]) > 1e-9 for g, w in zip(got, want)):
                res.fail("rows", "%s: %s has %r, expected %r" % (what, e, [(t, r["a"]) for t, r in got],
                                                                  [(t, r["a"]) for t, r in want]))
                return res
            kept.append([r["a"] for _, r in want])
        dur = max(times) - min(times) if times else 0
        if abs(tr.get_duration() - dur) > 1e-9:
            res.fail("duration", "%s: duration %r, expected %r" % (what, tr.get_duration(), dur))
        n = sum(map(len, kept))
        tot = sum(len(ref[e]) for e in EV)
        res.tag("empty" if n == 0 else "all" if n == tot else "some")
        if n and not all(kept):
            res.tag("one-event-empty")
        res.state(name, kept)
    return res


def explore(ctx):
    cases = []
    for name in sorted(TR):
        for ws in WS:
            for par in ((0,) if ctx.quick else (0, 1)):
                cases.append({"trace": name, "ws": [ws], "par": par + WS.index(ws)})
    if ctx.quick:
        cases = [c for c in cases if c["trace"] in ("plain", "zero", "same", "ns", "fine", "wide") and
                 (c["trace"] == "plain" or c["ws"][0] in (0, 0.5, 3.25, -1))]
    ctx.run_cases(run_case, cases)
