"""C15: a trace assembled by hand behaves like its events say.

Explicit-state search over the histories of operations on a BareTrace (and on
a loaded FTrace that events are added to): adding tables under new, taken and
unusual names, normalising, asking for the duration and for filters.  After
every operation everything observable is compared with the model.
"""
import itertools
import re

import pandas as pd
import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = ["added tables are sorted by time"]
MUST_SEE = ("added", "refused", "normalised", "no-events", "empty-table", "pivot", "ftrace", "duration")
BOUNDS = ("all histories of up to 4 (thorough 5) operations over 6 tables, 4 taken names and 3 normalisations, merged by the state of "
          "the trace, on a new BareTrace and on a loaded FTrace; all filter patterns of an alphabet in every state")

TABLES = {
    "sched_foo": ([1.5, 2.5], {"a": [1, 2]}, None),
    "foo": ([0.5, 1.0, 4.0], {"a": [3, 4, 5], "cpu": [0, 1, 0]}, "cpu"),
    "Bar_2": ([2.0], {"x": ["t"]}, None),
    "none": ([], {}, None),
    "cpu_frequency": ([3.0, 3.0], {"frequency": [1, 2]}, "cpu"),
    "same": ([1.5, 2.5], {"a": [1, 2]}, "a"),
    "unnamed": ([1.25, 7.5], {"v": [0.5, -1.0]}, None),
}
TAKEN = ["name", "get_duration", "class_definitions", "basetime"]
NORMS = [0.5, 0, -2.25, None]
KEYS = ["", "foo", "sched", "^foo$", "o", "[A-Z]", "zz", "_"]
FTEXT = T.text([T.line("10.5", "ev_one", "a=1"), T.line("11.25", "ev_one", "a=2"), T.line("12.0", "ev_zzz", "a=2")])


def frame(name):
    ts, cols, _ = TABLES[name]
    return pd.DataFrame(cols, index=pd.Index(ts, name=None if name == "unnamed" else "Time", dtype=float))


def build(kind):
    """(real trace, model events [name, times, data, pivot], normalised, basetime)"""
    if kind == "bare":
        return trappy.BareTrace(name="n"), [], False, 0
    T.write("t.txt", FTEXT)
    norm = kind == "ftrace"
    with T.cache(False):
        tr = trappy.FTrace("t.txt", scope="custom", events=["ev_one"], normalize_time=norm, name="n")
    ev = [["ev_one", [0.0, 0.75] if norm else [10.5, 11.25], {"a": [1, 2]}, None]]
    return tr, ev, norm, 10.5


def verify(res, tr, model, what):
    events, norm, base = model
    dur = 0
    full = [e[1] for e in events if e[1]]
    if full:
        dur = max(t[-1] for t in full) - min(t[0] for t in full)
        res.tag("duration")
    else:
        res.tag("no-events")
    res.run()
    if abs(tr.get_duration() - dur) > 1e-9:
        return res.fail("duration", "%s: duration %r, expected %r" % (what, tr.get_duration(), dur))
    if tr.normalized_time != norm or tr.basetime != base or tr.name != "n":
        return res.fail("attributes", "%s: normalized %r basetime %r name %r, expected %r %r" % (
            what, tr.normalized_time, tr.basetime, tr.name, norm, base))
    names = [e[0] for e in events]
    if sorted(tr.class_definitions) != sorted(names):
        return res.fail("classes", "%s: class_definitions has %r, expected %r" % (what, sorted(tr.class_definitions), names))
    for k in KEYS:
        want = sorted(n for n in names if re.search(k, n))
        got = sorted(tr.get_filters(k)) if k else sorted(tr.get_filters())
        if got != want:
            return res.fail("filters", "%s: get_filters(%r) is %r, expected %r" % (what, k, got, want))
    for name, ts, data, pivot in events:
        df = getattr(tr, name).data_frame
        got = [round(float(t), 9) for t in df.index]
        cols = {c: list(df[c]) for c in df.columns if not c.startswith("__")}
        if got != [round(t, 9) for t in ts] or cols != data:
            return res.fail("data", "%s: %s is %r at %r, expected %r at %r" % (what, name, cols, got, data, ts))
        obj = getattr(tr, name)
        if getattr(obj, "pivot", None) != pivot or obj.name != name:
            return res.fail("pivot", "%s: %s has name %r pivot %r, expected %r" % (what, name, obj.name, getattr(obj, "pivot", None), pivot))
        if pivot:
            res.tag("pivot")
    if not any(e[1] for e in events) and events:
        res.tag("empty-table")


def play(kind, hist, res):
    tr, events, norm, base = build(kind)
    other = trappy.BareTrace(name="m")
    model = (events, norm, base)
    sharing = trappy.BareTrace(name="s")
    givens = []
    if not hist:
        verify(res, tr, model, "new %s" % kind)
    for n, (op, arg) in enumerate(hist):
        what = "%s, history %r" % (kind, hist[:n + 1])
        if op == "add":
            given = frame(arg)
            before = given.copy()
            pivot = TABLES[arg][2]
            taken = any(e[0] == arg for e in model[0])
            try:
                tr.add_parsed_event(arg, given, pivot) if pivot else tr.add_parsed_event(arg, given)
                if taken:
                    res.fail("overwritten", "%s: a present event could be added again" % what)
                    return None
                givens.append((arg, given, before))
                sharing.add_parsed_event(arg, given)
                model[0].append([arg, list(TABLES[arg][0]), TABLES[arg][1], pivot])
                res.tag("added")
            except ValueError:
                if not taken:
                    raise
                res.tag("refused")
        elif op == "taken":
            try:
                tr.add_parsed_event(arg, frame("foo"))
                res.fail("overwritten", "%s: the attribute could be overwritten" % what)
                return None
            except ValueError:
                res.tag("refused")
        else:
            b = model[2] if arg is None else arg
            tr._normalize_time() if arg is None else tr._normalize_time(arg)
            for e in model[0]:
                e[1] = [t - b for t in e[1]]
            model = (model[0], True, b)
            res.tag("normalised")
        res.step()
        if n == len(hist) - 1:
            verify(res, tr, model, what)
            if other.class_definitions or other.get_filters() or other.get_duration() != 0:
                res.fail("shared", "%s: another trace has events %r" % (what, other.get_filters()))
            for name, given, before in givens:
                if not given.equals(before) or list(given.index) != list(before.index):
                    res.fail("input", "%s: the table given as %s is now\n%r" % (what, name, given))
                got = getattr(sharing, name).data_frame
                if list(got.index) != list(before.index):
                    res.fail("shared", "%s: %s of another trace with the same table is at %r" % (what, name, list(got.index)))
            if kind != "bare":
                res.tag("ftrace")
    return model


def replay(case):
    (kind, hist), op = case
    res = Res()
    hist = [tuple(h) for h in hist] + [tuple(op)]
    model = play(kind, hist, res)
    if model is not None and not res.fails:
        canon = [kind, sorted((e[0], [round(t, 6) for t in e[1]]) for e in model[0]), model[1], model[2]]
        res.state(canon)
        res.data = (canon, [kind, hist])
    return res


def explore(ctx):
    ops = [("add", n) for n in sorted(TABLES)] + [("taken", n) for n in TAKEN] + [("norm", b) for b in NORMS]
    for kind in ("bare", "ftrace", "ftrace-abs"):
        res = Res()
        play(kind, [], res)
        ctx.absorb([[kind, []], None], res)
    init = [([kind, 0], [kind, []]) for kind in ("bare", "ftrace", "ftrace-abs")]
    info = ctx.explore(init, lambda node: ops, replay, max_depth=4 if ctx.quick else 5)
    ctx.caps = []        # the depth is a stated bound
    ctx.notes["search"] = info
    ctx.sample({"history": [["add", "foo"], ["norm", 0.5], ["taken", "name"]]})
