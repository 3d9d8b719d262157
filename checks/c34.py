"""C34: event tables survive a CSV file, and tasks are found by name.

csv    every table of up to N rows over values of every kind written by
       write_csv and read by read_csv of an event of the same and another class
pids   every sequence of tasks, searched by every key
"""
import itertools
import os

import pandas as pd
import trappy
from mc import traces as T
from mc.core import Res
from trappy.base import Base

PROPERTY = "C34"
LEVEL = "model_checking"
ASSUMPTIONS = ["texts can't be taken for a number, a truth value or a missing value: plain CSV doesn't tell which it was"]
MUST_SEE = ("csv", "empty", "missing", "float", "text", "large", "negative-time", "parsed", "pids", "no-pid", "same-comm", "same-pid", "repeated-task")
BOUNDS = ("all tables of up to 3 (thorough 4) rows x all pairs of columns out of 14 kinds of values x 3 sets of times; all sequences of up to 4 (thorough 5) of 6 tasks x 9 keys")

TIMES = [[0.1 + 0.2, 1 / 3.0, 2.000000001, 3e5], [-1.5, -0.0, 1e-9, 7.0], [1234567.123456, 1234567.123457, 1234568.0, 1e10 / 3]]
KINDS = {"int": [1, 0, -7, 12], "zero-int": [0, 0, 0, 0], "big-int": [2 ** 62 + 1, -2 ** 62 - 1, 2 ** 53 + 1, 3], "float": [0.1 + 0.2, 1 / 3.0, 1e-300, 2.5], "whole": [1.0, 2.5, -3.0, 1e22],
         "missing-float": [None, 0.7, None, 5e-7], "first-missing": [None, 1.5, 2.5, 3.5], "text": ["a b", "x-1", "swapper/0", "00a"], "comma": ["a,b", 'q"q', "l1\nl2", "'s'"],
         "missing-text": ["one", None, "two", None], "mixed": ["word", "w=2", "{1 2}", "#x"], "mask": ["ff,ff", "0f,00", "f,0", "1f,1"], "dec": [1234567.891, 0.000123, 99999999.99, -0.1],
         "long": [3.141592653589793, 2.718281828459045, 123456789.12345678, 1.0000000000000002]}


def table(cols, n, times):
    return pd.DataFrame({"c %d" % i if i else "va": KINDS[k][:n] for i, k in enumerate(cols)}, index=pd.Index(TIMES[times][:n], name="Time", dtype=float))


def cell(v):
    if v is None or v != v:
        return None
    if isinstance(v, str):
        return v
    return repr(float(v)) if int(v) != v else repr(int(v))


def observe(df):
    return [repr(float(t)) for t in df.index], [(str(c), [cell(v) for v in df[c].tolist()]) for c in df.columns]


def csv(res, case):
    path = os.path.abspath("t%d.csv" % os.getpid())
    try:
        for cols in case["cols"]:
            for n in case["rows"]:
                for times in range(len(TIMES)):
                    df = table(cols, n, times)
                    src, dst = Base(), Base()
                    src.data_frame = df.copy()
                    want = observe(df)
                    res.run()
                    res.step(n)
                    res.state(want)
                    src.write_csv(path)
                    dst.read_csv(path)
                    what = "a table of %r at %r" % (want[1], want[0])
                    if not res.equal(observe(dst.data_frame), want, "csv", what) or not res.equal(observe(src.data_frame), want, "source", what):
                        return
                    if dst.data_frame.index.name != "Time":
                        res.fail("csv", what + ": the index is named %r" % dst.data_frame.index.name)
                        return
                    tags = [("csv", n), ("empty", n == 0), ("missing", any("missing" in c for c in cols)), ("float", "float" in cols), ("text", "text" in cols), ("large", "big-int" in cols),
                            ("negative-time", times == 1 and n)]
                    res.tag(*[t for t, on in tags if on])
    finally:
        if os.path.exists(path):
            os.unlink(path)


def parsed(res, case):
    """The event of a loaded trace, read into the event of another load."""
    lines = [T.line("%.6f" % (10.1 + i * 0.3), "ev_one", "num=%d name=%s f=%s" % (v, t, f)) for i, (v, t, f) in enumerate(case["rows"])]
    T.write("p.txt", T.text(lines))
    T.write("q.txt", T.text(lines[:1]))
    with T.cache(False):
        a = trappy.FTrace("p.txt", scope="custom", events=["ev_one"])
        b = trappy.FTrace("q.txt", scope="custom", events=["ev_one"])
    want = observe(a.ev_one.data_frame)
    a.ev_one.write_csv("p.csv")
    b.ev_one.read_csv("p.csv")
    res.run()
    res.step(len(lines))
    res.state(want)
    if res.equal(observe(b.ev_one.data_frame), want, "csv", "the parsed event with rows %r" % (case["rows"],)):
        res.tag("parsed")
    for f in ("p.txt", "q.txt", "p.csv"):
        os.unlink(f)


TASKS = [("sh", 1), ("sh", 22), ("bash", 3), ("bash", 1), ("kworker/0:1", 7), ("Shell x", 22)]
KEYS = ["", "sh", "bash", "SH", "ker/0", "x", "zzz", "Shell x", " "]


def pids(res, case):
    for seq in case["seqs"]:
        lines = [T.line("%.6f" % (1.5 + i), "sched_load_avg_task", "comm=%s pid=%d cpu=%d load_avg=%d" % (TASKS[k][0], TASKS[k][1], i % 2, 10 * i + k)) for i, k in enumerate(seq)]
        T.write("t.txt", T.text(lines))
        with T.cache(False):
            tr = trappy.FTrace("t.txt", scope="sched")
        before = observe(tr.sched_load_avg_task.data_frame)
        for key in KEYS:
            got = [(str(c), int(p)) for c, p in tr.sched_load_avg_task.get_pids(*([key] if key else []))]
            want = []
            for k in seq:
                if key in TASKS[k][0] and TASKS[k] not in want:
                    want.append(TASKS[k])
            res.run()
            res.step(len(seq))
            res.state(seq, key)
            if not res.equal(sorted(got), sorted(want), "pids", "tasks %r, get_pids(%r)" % ([TASKS[k] for k in seq], key)):
                return
            comms, nums = [w[0] for w in want], [w[1] for w in want]
            tags = [("pids", want), ("no-pid", not want), ("same-comm", len(set(comms)) < len(comms)), ("same-pid", len(set(nums)) < len(nums)), ("repeated-task", len(set(seq)) < len(seq))]
            res.tag(*[t for t, on in tags if on])
        if not res.equal(observe(tr.sched_load_avg_task.data_frame), before, "altered", "the event"):
            return


def run_case(case):
    res = Res()
    {"csv": csv, "parsed": parsed, "pids": pids}[case["what"]](res, case)
    return res


def explore(ctx):
    rows = range(4) if ctx.quick else range(5)
    cases = [{"what": "csv", "cols": [[a]] + [[a, b] for b in sorted(KINDS)], "rows": list(rows)} for a in sorted(KINDS)]
    for n in (1, 2, 3):
        for r in itertools.product([(1, "aa", "0.5"), (-5, "b-c", "1234567.125"), (1 << 40, "x/y", "word")], repeat=n):
            cases.append({"what": "parsed", "rows": r})
    for n in range(1, 5 if ctx.quick else 6):
        seqs = list(itertools.product(range(len(TASKS)), repeat=n))
        cases += [{"what": "pids", "seqs": seqs[i:i + 40]} for i in range(0, len(seqs), 40)]
    ctx.run_cases(run_case, cases)
