"""C26: the residency of tasks follows the switches of the trace.

Every history of up to N sched_switch events over two cpus, tasks that are
renamed, the idle task and a migration thread - with switches missing, too -
is given to get_trace_event_data with all filters; the intervals of every task
are compared with those found by looking ahead from each switch.
"""
import itertools
import warnings

import pandas as pd
import trappy
from mc import traces as T
from mc.core import Res
from trappy.plotter.Utils import get_trace_event_data

PROPERTY = "C26"
LEVEL = "model_checking"
ASSUMPTIONS = ["the trace has sched_switch events"]
MUST_SEE = ("open-end", "closed", "dropped", "renamed", "renamed-and-dropped", "migration", "idle", "execname", "pid-filter", "two-cpus", "same-time", "parsed", "emptied", "nothing")
BOUNDS = ("all histories of up to 3 switches (thorough 4) from 3 previous to 7 next tasks x 10 filters, of 4 (thorough 5) without filters; all histories of up to 2 through the parser")

NEXT = [(0, "swapper"), (1, "a"), (1, "b"), (2, "a"), (9, "migration/0"), (2, "ab"), (1, "my_migration")]
PREV = [0, 1, 2]
FILTERS = [(None, None), ("a", None), (["a", "b"], None), (["zz"], None), (None, 1), (None, [2, 1]), (None, [9]), ("b", [1, 2]), (["a"], 2), (None, [5, 6, 7, 8, 1])]


def model(rows, execnames, pids):
    """{name: [[start, end, cpu]]}, names, number of intervals dropped"""
    names = [execnames] if isinstance(execnames, str) else execnames
    pids = [pids] if isinstance(pids, int) else pids
    data, procs, dropped = {}, set(), 0
    for i, (t, cpu, prev, pid, comm) in enumerate(rows):
        if pid == 0 or comm.startswith("migration") or names and comm not in names or pids and pid not in pids:
            continue
        name = "%s-%d" % (comm, pid)
        procs.add(name)
        data.setdefault(name, [])
        end = rows[-1][0]
        for u, _, p, n, _ in rows[i + 1:]:
            if p == pid:
                end = u
                break
            if n == pid:
                end = None
                break
        if end is None:
            dropped += 1
        else:
            data[name].append([t, end, cpu])
    return data, procs, dropped


def history(seq, same):
    rows, t = [], 1.0
    for i, (prev, (pid, comm)) in enumerate(seq):
        if i and not (same and i == 1):
            t += 0.5
        rows.append((t, (i * (prev + 1)) % 2, prev, pid, comm))
    return rows


def tables(rows, parsed):
    if parsed:
        T.write("t.txt", T.text([T.line("%.6f" % t, "sched_switch",
                                        "prev_comm=p prev_pid=%d prev_prio=120 prev_state=0 next_comm=%s next_pid=%d next_prio=120" % (prev, comm, pid),
                                        pid=prev, cpu=cpu) for t, cpu, prev, pid, comm in rows]))
        with T.cache(False):
            return trappy.FTrace("t.txt", events=["sched_switch"], normalize_time=False)
    df = pd.DataFrame({"__cpu": [r[1] for r in rows], "prev_pid": [r[2] for r in rows], "next_pid": [r[3] for r in rows],
                       "next_comm": [r[4] for r in rows]}, index=pd.Index([r[0] for r in rows], name="Time"))
    tr = trappy.BareTrace()
    tr.add_parsed_event("sched_switch", df)
    return tr


def run_case(case):
    res = Res()
    for seq, same in case["seqs"]:
        rows = history(seq, same)
        tr = tables(rows, case["parsed"])
        before = tr.sched_switch.data_frame.copy()
        for fi in case["filters"]:
            ex, pids = FILTERS[fi]
            want, procs, dropped = model(rows, ex, pids)
            what = "switches %r (time, cpu, previous, next, name), names %r, pids %r" % (rows, ex, pids)
            with warnings.catch_warnings(record=True) as warned:
                warnings.simplefilter("always")
                data, names, window = get_trace_event_data(tr, ex, pids)
            res.run()
            res.step(len(rows))
            got = {k: [[float(a), float(b), int(c)] for a, b, c in v] for k, v in data.items()}
            if {k: v for k, v in got.items() if v} != {k: v for k, v in want.items() if v}:
                res.fail("intervals", "%s: got %r, expected %r" % (what, got, want))
                return res
            if set(names) != procs:
                res.fail("names", "%s: names %r, expected %r" % (what, names, procs))
                return res
            if [float(x) for x in window] != [rows[0][0], rows[-1][0]]:
                res.fail("window", "%s: domain %r" % (what, window))
                return res
            if not set(procs) <= set(data.keys()):
                res.fail("names", "%s: no data for a name of %r" % (what, names))
                return res
            n = sum(1 for w in warned if "Corrupted trace" in str(w.message))
            if n != dropped:
                res.fail("warnings", "%s: %d warnings, expected %d" % (what, n, dropped))
                return res
            if not before.equals(tr.sched_switch.data_frame):
                res.fail("source", what + ": the table was altered")
                return res
            res.state(want)
            ends = [e for v in want.values() for _, e, _ in v]
            tags = [("open-end", rows[-1][0] in ends), ("closed", any(e < rows[-1][0] for e in ends)), ("dropped", dropped),
                    ("renamed", len(set(n for n in procs if n.endswith("-1"))) == 2), ("migration", any(r[3] == 9 for r in rows)), ("idle", any(r[3] == 0 for r in rows)),
                    ("execname", ex), ("pid-filter", pids), ("two-cpus", len(set(r[1] for r in rows)) == 2), ("same-time", same and len(rows) > 1), ("parsed", case["parsed"]),
                    ("emptied", any(not v for v in want.values())), ("nothing", not procs), ("renamed-and-dropped", dropped and "a-1" in procs and "b-1" in procs)]
            res.tag(*[t for t, on in tags if on])
    return res


def explore(ctx):
    alpha = list(itertools.product(PREV, NEXT))
    top = 3 if ctx.quick else 4
    cases = []
    allf = list(range(len(FILTERS)))
    seqs = [(list(s), False) for n in range(1, top + 1) for s in itertools.product(alpha, repeat=n)]
    for i in range(0, len(seqs), 40):
        cases.append({"seqs": seqs[i:i + 40], "filters": allf if i < 4000 or not ctx.quick else [0, 1], "parsed": False})
    short = [(list(s), same) for same in (False, True) for n in (1, 2) for s in itertools.product(alpha, repeat=n) if not same or n == 2]
    for i in range(0, len(short), 30):
        cases.append({"seqs": short[i:i + 30], "filters": [0, 2, 5], "parsed": False})
    for i in range(0, len(short), 30):
        cases.append({"seqs": [s for s in short[i:i + 30] if not s[1]], "filters": [0, 4], "parsed": True})
    small = list(itertools.product([1, 2], NEXT[1:4])) + [(0, (1, "a")), (1, (0, "swapper"))]
    lo, hi = (4, 5) if ctx.quick else (5, 6)
    seqs = [(list(s), False) for n in range(lo, hi) for s in itertools.product(small, repeat=n)]
    for i in range(0, len(seqs), 40):
        cases.append({"seqs": seqs[i:i + 40], "filters": [0], "parsed": False})
    ctx.run_cases(run_case, cases, describe=lambda c: dict(c, seqs=c["seqs"][:3]))
