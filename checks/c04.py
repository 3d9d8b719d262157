"""C04: unique, strictly increasing times that keep the order of the trace.

Every sequence of lines up to a length over an alphabet of (printed time,
event) is parsed on the real code, normalised and not; all observable times
are compared with the rule stated in the property.
"""
import itertools

import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C04"
LEVEL = "model_checking"
ASSUMPTIONS = ["one trace prints all its times in one format; times are below 1e6 s"]
MUST_SEE = ("dup", "backwards", "s", "ns", "zero-base", "unselected-first", "no-rows")
BOUNDS = ("all sequences of up to 4 lines over 3 times x 3 events and up to 3 lines over 7 times x 3 events (thorough: 5 and 4), "
          "in us, ns-decimal and integer-ns formats; long runs of equal times; normalised and absolute")

TIMES = {"us": ["1.000002", "1.000001", "1.000003", "0.000000", "2.5", "99999.999999", "354.590477"],
         "nsd": ["1.000000002", "1.000000001", "1.000000003", "0.000000000", "7.123456789", "99999.999999999", "1.000000500"],
         "ns": ["1000000002", "1000000001", "1000000003", "0", "1", "99999999999999", "7123456789"]}
EV = ["ev_one", "ev_two", "ev_three"]


def seconds(kind, text):
    return float(text) / 1e9 if kind == "ns" else float(text)


def index(trace, name):
    df = getattr(trace, name).data_frame
    if not len(df):
        return []
    return list(zip([float(t) for t in df.index], [T.num(a) for a in df["a"].values]))


def check(res, kind, seq, what, ntimes=None):
    """seq: [(printed time, event number)]"""
    lines = [T.line(t, EV[e], "a=%d" % i) for i, (t, e) in enumerate(seq)]
    T.write("t.txt", T.text(lines))
    with T.cache(False):
        tr = trappy.FTrace("t.txt", scope="custom", events=EV[:2], normalize_time=False)
        trn = trappy.FTrace("t.txt", scope="custom", events=EV[:2])
    res.run(2)
    res.step(len(seq))
    sel = [i for i, (t, e) in enumerate(seq) if e < 2]
    times = {}
    for n in (0, 1):
        got = index(tr, EV[n])
        want = [i for i in sel if seq[i][1] == n]
        if [a for _, a in got] != want:
            return res.fail("order", "%s: rows of %s are %r, expected %r for %r" % (what, EV[n], got, want, seq))
        for t, a in got:
            times[a] = t
    # strictly increasing in file order over all events, at the printed time
    last = None
    peak = None
    for i, (text, e) in enumerate(seq):
        p = seconds(kind, text)
        if peak is None or p > peak:
            fresh = True
            peak = p
        else:
            fresh = False
            res.tag("dup" if p == peak else "backwards")
        if e == 2:
            continue
        t = times[i]
        if last is not None and not t > last:
            return res.fail("increasing", "%s: time of line %d is %r, not after %r: %r" % (what, i, t, last, seq))
        tol = 1e-9 if peak < 1e4 else 1e-8
        if fresh and peak > 0 and t != p:
            return res.fail("printed", "%s: time of line %d is %r, printed %r: %r" % (what, i, t, text, seq))
        if not peak <= t <= peak + tol:
            return res.fail("increment", "%s: time of line %d is %r, latest printed time is %r: %r" % (what, i, t, peak, seq))
        last = t
    base = seconds(kind, seq[0][0]) if seq else 0
    end = max([seconds(kind, t) for t, _ in seq]) if seq else 0
    if base == 0 and seq:
        res.tag("zero-base")
    if seq and seq[0][1] == 2:
        res.tag("unselected-first")
    for x in (tr, trn):
        if abs(x.basetime - base) > 1e-12:
            return res.fail("basetime", "%s: basetime %r, first event at %r: %r" % (what, x.basetime, base, seq))
        if not end <= x.endtime <= end + 1e-8:
            return res.fail("endtime", "%s: endtime %r, last event at %r: %r" % (what, x.endtime, end, seq))
        dur = max(times.values()) - min(times.values()) if times else 0
        if abs(x.get_duration() - dur) > 1e-10:
            return res.fail("duration", "%s: duration %r, loaded events span %r: %r" % (what, x.get_duration(), dur, seq))
    if not times:
        res.tag("no-rows")
    for n in (0, 1):
        got = index(trn, EV[n])
        want = [(t - tr.basetime, a) for t, a in index(tr, EV[n])]
        if len(got) != len(want) or any(abs(g[0] - w[0]) > 1e-10 or g[1] != w[1] for g, w in zip(got, want)):
            return res.fail("normalised", "%s: normalised rows of %s are %r, expected %r: %r" % (what, EV[n], got, want, seq))
    both = sorted([t for n in (0, 1) for t, _ in index(trn, EV[n])])
    if len(set(both)) != len(both):
        return res.fail("normalised-unique", "%s: normalised times collide: %r: %r" % (what, both, seq))
    rank = {}
    res.state(kind, [(rank.setdefault(t, len(rank)), e) for t, e in seq])


def run_case(case):
    res = Res()
    kind = case["kind"]
    res.tag("ns" if kind == "ns" else "s")
    ts = TIMES[kind]
    if "run" in case:
        n, t = case["run"]
        seq = [(ts[t], i % 3) for i in range(n)] + [(ts[2], 0), (ts[4], 1)]
        check(res, kind, seq, "run of equal times")
        return res
    for s in case["seqs"]:
        check(res, kind, [(ts[t], e) for t, e in s], kind)
        if len(res.fails) > 3:
            break
    return res


def explore(ctx):
    cases = []
    a, b = (4, 3) if ctx.quick else (5, 4)
    for kind in ("us", "nsd", "ns"):
        small = list(itertools.product(range(3), range(3)))
        big = list(itertools.product(range(7), range(3)))
        seqs = []
        top = a if kind == "us" or not ctx.quick else 3
        for d in range(0, top + 1):
            seqs += list(itertools.product(small, repeat=d))
        topb = b if kind == "us" or not ctx.quick else 2
        if not ctx.quick and kind != "us":
            topb = 3
        have = set(seqs)
        for d in range(1, topb + 1):
            alpha = big if d < 4 else [x for x in big if x[0] in (0, 3, 4, 5)]
            seqs += [s for s in itertools.product(alpha, repeat=d) if s not in have]
        cases += [{"kind": kind, "seqs": seqs[i:i + 60]} for i in range(0, len(seqs), 60)]
        cases += [{"kind": kind, "run": [n, t]} for n in (2, 3, 5, 17, 50) for t in (0, 1)]
    ctx.run_cases(run_case, cases, describe=lambda c: c if "run" in c else dict(c, seqs=c["seqs"][:2]))
