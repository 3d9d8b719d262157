"""C03: events with a built-in parser give their documented columns.

For every built-in event, all combinations of small field domains are printed
as the kernel does; every row, every ordered pair of rows and all rows together
are parsed on the real code and compared (exact set of columns and values) with
the table the abstract events must give.  Mixed traces hold every rotation of
all events, with every parser active.
"""
import itertools

import trappy
from mc import traces as T
from mc.core import Res
from trappy.stats.grammar import Parser

PROPERTY = "C03"
LEVEL = "model_checking"
ASSUMPTIONS = ["payloads are printed as `trace-cmd report` prints them; a line mentions the 'name:' of no other event"]
MUST_SEE = ("pair", "alone", "all", "mixed", "idle-exit", "mask", "pivot", "pivots")
BOUNDS = ("35 built-in events; every combination of 2-4 values per field in one table, every row alone and all ordered pairs of "
          "up to 8 (thorough 24) rows in their own trace; all rotations of one trace with all events, scope all; "
          "the 13 events with a pivot: every sequence of up to 3 of 5 (thorough 12) rows taken apart by the grammar")

COMM = ["sh", "my task", "swapper/0", "1234", "a=>b", "kworker/u:1-ev", "function_x"]


def sw():
    for p, n in itertools.product(COMM, COMM):
        for st in ("R", "S|K", "0"):
            yield ("prev_comm=%s prev_pid=5 prev_prio=120 prev_state=%s ==> next_comm=%s next_pid=0 next_prio=9" % (p, st, n),
                   dict(prev_comm=p, prev_pid=5, prev_prio=120, prev_state=st, next_comm=n, next_pid=0, next_prio=9))


def wk():
    for c, s, t in itertools.product(COMM[:4], (0, 1), ("000", "003", "007")):
        yield ("comm=%s pid=77 prio=120 success=%d target_cpu=%s" % (c, s, t),
               dict(comm=c, pid=77, prio=120, success=s, target_cpu=0 if t == "000" else t))


def migr():
    for c, o, d in itertools.product(COMM[:4], (0, 3), (0, 7)):
        yield ("comm=%s pid=12 prio=98 orig_cpu=%d dest_cpu=%d" % (c, o, d),
               dict(comm=c, pid=12, prio=98, orig_cpu=o, dest_cpu=d))


def idle():
    for s, c in itertools.product((0, 1, 2, 4294967295), (0, 3, 63)):
        yield ("state=%d cpu_id=%d" % (s, c), dict(state=-1 if s == 4294967295 else s, cpu_id=c))


def freq():
    for s, c in itertools.product((533000, 1900000, 0), (0, 3, 63)):
        yield ("state=%d cpu_id=%d" % (s, c), dict(frequency=s, cpu=c))


def cap():
    for s, c in itertools.product((430, 1024, 0), (0, 3, 63)):
        yield ("cpu_id=%d state=%d" % (c, s), dict(capacity=s, cpu=c))


def sg():
    for m, l in itertools.product(("00000002", "00000010", "10000000", "12345678", "0000000f", "ffffffff", "00000000", "00000100"), (0, 7)):
        yield ("cpus=%s load=%d utilization=%d" % (m, l, 3 * l), dict(cpus=m, load=l, utilization=3 * l))
    for m in ("f", "3", "0f", "30", "00f"):
        yield ("cpus=%s load=1 utilization=2" % m, dict(cpus=m.rjust(8, "0"), load=1, utilization=2))


def sgtask():
    for c, l in itertools.product(COMM[:4], (0, 7)):
        yield ("comm=%s pid=9 load=%d utilization=1" % (c, l), dict(comm=c, pid=9, load=l, utilization=1))


def sgcpu():
    for c, l in itertools.product((0, 5), (0, 7)):
        yield ("cpu=%d load=%d utilization=18" % (c, l), dict(cpu=c, load=l, utilization=18))


def scale():
    for c, l in itertools.product((0, 5), (426, 1024)):
        yield ("cpu=%d freq_scale_factor=%d cpu_scale_factor=1024" % (c, l), dict(cpu=c, freq_scale_factor=l, cpu_scale_factor=1024))


def clk(col):
    def gen():
        for n, s, c in itertools.product(("cpu_clk", "pll0", "12"), (0, 1, 300000000), (0, 3)):
            yield ("%s state=%d cpu_id=%d" % (n, s, c), {"clk_name": n, col: s, "cpu_id": c})
    return gen


def sysenter():
    args = ["0", "1", "7764ee9000", "ffffffffffffffff", "a", "10"]
    for nr, k in itertools.product((0, 64, 449), range(6)):
        a = args[k:] + args[:k]
        yield ("NR %d (%s)" % (nr, ", ".join(a)), dict([("nr", nr)] + [("arg%d" % i, int(x, 16)) for i, x in enumerate(a)]))


def sysexit():
    for nr, r in itertools.product((0, 64, -1), (0, 1, -1, -11, 4096)):
        yield ("NR %d = %d" % (nr, r), dict(nr=nr, ret=r))


def ext4(*cols):
    def gen():
        for vals in itertools.product(("8,13", "179,6"), ("5898483", "12"), *[("0", "4096")] * (len(cols) - 2)):
            yield (" ".join("%s %s" % (c, v) for c, v in zip(cols, vals)) + (" " if cols[2] == "parent" else ""),
                   {("inode" if c == "ino" else c): v for c, v in zip(cols, vals)})
    return gen


def f2fs(*cols):
    def gen():
        for vals in itertools.product((121, 8), *[(0, 4520)] * (len(cols) - 1)):
            yield ("dev = (7,0), " + ", ".join("%s = %s" % cv for cv in zip(cols, vals)),
                   dict([("dev", "(7 0)")] + [("inode" if c == "ino" else c, v) for c, v in zip(cols, vals)]))
    return gen


def f2sync():
    for i, m, a in itertools.product((8, 9), (0x81a0, 0), (0, 3)):
        yield ("dev = (7,0), ino = %d, pino = 3, i_mode = 0x%x, i_size = 1024, i_nlink = 1, i_blocks = 2, i_advise = 0x%x" % (i, m, a),
               dict(dev="(7 0)", inode=i, pino=3, i_mode=m, i_size=1024, i_nlink=1, i_blocks=2, i_advise=a))


def f2exit():
    for i, c, d, r in itertools.product((8, 9), ("needed", "not needed"), (0, 1), (0, -5)):
        yield ("dev = (7,0), ino = %d, checkpoint is %s, datasync = %d, ret = %d" % (i, c, d, r),
               dict(dev="(7 0)", inode=i, checkpoint=c, datasync=d, ret=r))


def temp():
    for i, (z, t) in enumerate(itertools.product(("cls0", "exynos therm"), (62357, -1))):
        yield ("thermal_zone=%s id=%d temp_prev=%d temp=%d" % (z, i // 2, t + 7, t), dict(thermal_zone=z, id=i // 2, temp_prev=t + 7, temp=t))


def gov():
    for a, b in itertools.product((0, 125), (1, 2410)):
        yield ("thermal_zone_id=%d req_power={%d %d} total_req_power=%d granted_power={%d %d} current_temperature=79553 delta_temperature=-4553"
               % (a % 2, a, b, a + b, b, a),
               dict(thermal_zone_id=a % 2, req_power0=a, req_power1=b, total_req_power=a + b, granted_power0=b, granted_power1=a,
                    current_temperature=79553, delta_temperature=-4553))


MASKS = ["000000f0", "0000000f", "00000000,00000039", "10000000"]


def inpow():
    for m, (lt, le) in itertools.product(MASKS, ((" load={100 2}", dict(load0=100, load1=2)), (" load={3 0}", dict(load0=3, load1=0)))):
        yield ("cpus=%s freq=1900000 raw_cpu_power=1259%s power=61" % (m, lt),
               dict(le, cpus=10000000 if m == "10000000" else m, freq=1900000, raw_cpu_power=1259, power=61))


def outpow():
    for m, f in itertools.product(MASKS, (533000, 1900000)):
        yield ("cpus=%s freq=%d cdev_state=4 power=0" % (m, f),
               dict(cpus=10000000 if m == "10000000" else m, freq=f, cdev_state=4, power=0))


def pid():
    for e, o in itertools.product((-4553, 12), (0, 2410)):
        yield ("thermal_zone_id=%d err=%d err_integral=%d p=-2046 i=-45 d=0 output=%d" % (e % 3, e, e, o),
               dict(thermal_zone_id=e % 3, err=e, err_integral=e, p=-2046, i=-45, d=0, output=o))


def dev(extra):
    def gen():
        for f, c in itertools.product((533000000, 177000000), ("mali", "my gpu")):
            yield ("type=%s freq=%d %s=5 power=61" % (c, f, extra), {"type": c, "freq": f, extra: 5, "power": 61})
    return gen


def mark():
    for s in ("hello world", "a=1", "B|12|draw", "load={1 2}", "x={} y={3 4}", "1234", "nan", "call function x", "q = {5}",
              "k=v k={} ", "cpu_idle state=1", "two  blanks", "sys_enter NR 1", "trailing={}"):
        yield (s, {"string": s.rstrip()})


def fun():
    for a, b in itertools.product((0xffff0000, 0x10), (0, 0xffffffffffffffff)):
        yield ("ip=0x%x parent_ip=0x%x" % (a, b), dict(ip=a, parent_ip=b))


def fge():
    for a, b in itertools.product((0xffff0000, 0x10), (0, 3)):
        yield ("func=0x%x depth=%d" % (a, b), dict(func=a, depth=b))


def fgx():
    for a, b in itertools.product((0xffff0000, 0x10), (0, 3)):
        yield ("func=0x%x calltime=0x5 rettime=0x9 overrun=0x0 depth=%d" % (a, b), dict(func=a, calltime=5, rettime=9, overrun=0, depth=b))


# (event in the trace, attribute of the trace object, rows)
EVENTS = [("sched_switch", "sched_switch", sw), ("sched_wakeup", "sched_wakeup", wk), ("sched_wakeup_new", "sched_wakeup_new", wk),
          ("sched_migrate_task", "sched_migrate_task", migr), ("cpu_idle", "cpu_idle", idle), ("cpu_frequency", "cpu_frequency", freq),
          ("cpu_capacity", "cpu_capacity", cap), ("sched_load_avg_sg", "sched_load_avg_sg", sg),
          ("sched_load_avg_task", "sched_load_avg_task", sgtask), ("sched_load_avg_cpu", "sched_load_avg_cpu", sgcpu),
          ("sched_contrib_scale_f", "sched_contrib_scale_factor", scale),
          ("clock_enable", "clock_enable", clk("state")), ("clock_disable", "clock_disable", clk("state")),
          ("clock_set_rate", "clock_set_rate", clk("rate")),
          ("sys_enter", "sys_enter", sysenter), ("sys_exit", "sys_exit", sysexit),
          ("ext4_da_write_begin", "ext4_da_write_begin", ext4("dev", "ino", "pos", "len", "flags")),
          ("ext4_da_write_end", "ext4_da_write_end", ext4("dev", "ino", "pos", "len", "copied")),
          ("ext4_sync_file_enter", "ext4_sync_file_enter", ext4("dev", "ino", "parent", "datasync")),
          ("ext4_sync_file_exit", "ext4_sync_file_exit", ext4("dev", "ino", "ret")),
          ("f2fs_write_begin", "f2fs_write_begin", f2fs("ino", "pos", "len", "flags")),
          ("f2fs_write_end", "f2fs_write_end", f2fs("ino", "pos", "len", "copied")),
          ("f2fs_sync_file_enter", "f2fs_sync_file_enter", f2sync), ("f2fs_sync_file_exit", "f2fs_sync_file_exit", f2exit),
          ("thermal_temperature", "thermal", temp), ("thermal_power_allocator", "thermal_governor", gov),
          ("thermal_power_allocator_pid", "pid_controller", pid),
          ("thermal_power_cpu_get_power", "cpu_in_power", inpow), ("thermal_power_cpu_limit", "cpu_out_power", outpow),
          ("thermal_power_devfreq_get_power", "devfreq_in_power", dev("load")),
          ("thermal_power_devfreq_limit", "devfreq_out_power", dev("cdev_state")),
          ("tracing_mark_write", "tracing_mark_write", mark), ("function", "function", fun),
          ("funcgraph_entry", "funcgraph_entry", fge), ("funcgraph_exit", "funcgraph_exit", fgx)]
# The column by which the data of an event falls apart, and one of its other columns
PIVOTS = {"cpu_idle": ("cpu_id", "state"), "cpu_frequency": ("cpu", "frequency"), "cpu_capacity": ("cpu", "capacity"),
          "sched_load_avg_sg": ("cpus", "load"), "sched_load_avg_task": ("pid", "load"), "sched_load_avg_cpu": ("cpu", "load"),
          "sys_enter": ("__pid", "nr"), "sys_exit": ("__pid", "ret"), "thermal_temperature": ("id", "temp"),
          "thermal_power_allocator": ("thermal_zone_id", "total_req_power"), "thermal_power_allocator_pid": ("thermal_zone_id", "output"),
          "thermal_power_cpu_get_power": ("cpus", "freq"), "thermal_power_cpu_limit": ("cpus", "freq")}
RAW = {"sched_switch", "sched_wakeup", "sched_wakeup_new", "function", "funcgraph_entry", "funcgraph_exit"}
BYNAME = {e[0]: e for e in EVENTS}
HIDDEN = {"__comm", "__pid", "__cpu", "__line"}


def table(trace, attr):
    df = getattr(trace, attr).data_frame
    cols = list(df.columns)
    vals = [list(df.iloc[:, i].values) for i in range(len(cols))]
    return (sorted(c for c in cols if c not in HIDDEN),
            [{c: T.num(vals[i][r]) for i, c in enumerate(cols) if c not in HIDDEN and T.num(vals[i][r]) is not None}
             for r in range(len(df))])


def canon(d):
    # a text field of a key=value event that is a number is a number
    return {k: ["s", v] if isinstance(v, str) else v for k, v in d.items()}


COMMKEYS = {"comm", "prev_comm", "next_comm", "prev_state"}


def check(res, trace, event, rows, what):
    attr = BYNAME[event][1]
    cols, got = table(trace, attr)
    want = [canon(r[1]) for r in rows]
    res.run()
    if len(got) != len(want):
        res.fail(event, "%s: %d rows for %d lines of %s: %r" % (what, len(got), len(want), event, [r[0] for r in rows]))
        return
    wcols = sorted(set(k for w in want for k in w))
    if cols != wcols:
        res.fail(event, "%s: columns of %s are %r, expected %r for %r" % (what, event, cols, wcols, [r[0] for r in rows][:3]))
        return
    for r, g, w in zip(rows, got, want):
        res.step()
        if g != w:
            res.fail(event, "%s: %s: %r gave %r, expected %r" % (what, event, r[0], g, w))
            return
    res.state(event, sorted(map(repr, want)))


def load(lines, **kw):
    T.write("t.txt", T.text(lines))
    with T.cache(False):
        return trappy.FTrace("t.txt", **kw)


def rows_of(event):
    return [(p, {k: int(v) if k in COMMKEYS and isinstance(v, str) and v.isdigit() else v for k, v in d.items()})
            for p, d in BYNAME[event][2]()]


def single(case):
    res = Res()
    ev = case["event"]
    rows = rows_of(ev)
    for seq in case["seqs"]:
        rs = [rows[i] for i in seq]
        tr = load([T.line("4.%06d" % i, ev, r[0], cpu=i % 4) for i, r in enumerate(rs)], scope="custom", events=[ev])
        check(res, tr, ev, rs, case["what"])
        res.tag(case["what"])
        for r in rs:
            if ev == "cpu_idle" and r[1]["state"] == -1:
                res.tag("idle-exit")
            if ev == "sched_load_avg_sg":
                res.tag("mask")
    return res


def mixed(case):
    res = Res()
    res.tag("mixed")
    names = [e[0] for e in EVENTS]
    k = case["rot"]
    order = names[k:] + names[:k]
    if case["rev"]:
        order.reverse()
    seq = order + order[::2]
    pick = {n: [] for n in names}
    lines = []
    for i, n in enumerate(seq):
        rows = rows_of(n)
        r = rows[(k + 5 * len(pick[n])) % len(rows)]
        pick[n].append(r)
        lines.append(T.line("4.%06d" % i, n, r[0], cpu=i % 4, comm=COMM[i % len(COMM)]))
    tr = load(lines)
    for n in names:
        check(res, tr, n, pick[n], "mixed")
    for scope, cls in (("sched", ("sched_switch", "cpu_idle", "cpu_frequency")), ("thermal", ("thermal_temperature", "sys_enter"))):
        tr = load(lines, scope=scope)
        for n in cls:
            check(res, tr, n, pick[n], "scope %s" % scope)
    return res


def pivoted(case):
    """The grammar takes the data of the event apart by its pivot."""
    res = Res()
    ev = case["event"]
    attr = BYNAME[ev][1]
    pivot, col = PIVOTS[ev]
    rows = rows_of(ev)
    for seq in case["seqs"]:
        rs = [dict(rows[i][1], __pid=40 + i % 3, line=rows[i][0]) for i in seq]
        if pivot == "cpus" and any(isinstance(r[pivot], int) for r in rs):
            continue
        tr = load([T.line("%d.0" % (4 + i), ev, r["line"], cpu=i % 4, pid=r["__pid"]) for i, r in enumerate(rs)], scope="custom", events=[ev])
        got = Parser(tr).solve("%s:%s" % (attr, col))
        want, now = [], {}
        for r in rs:
            now[r[pivot]] = r[col]
            want.append(dict(now))
        res.run()
        res.equal(sorted(got.columns), sorted(now), ev, "pivots of %s" % ev)
        res.equal([{k: v for k, v in row.items() if v == v} for row in got.to_dict("records")], want, ev, "pivoted %s" % ev)
        info = Parser(tr).inspect("%s:%s" % (attr, col))
        res.equal([info["pivot"], sorted(info["pivot_values"]), info["length"], info["column_present"]], [pivot, sorted(now), len(rs), True], ev,
                  "inspect(%s)" % ev)
        res.tag("pivot")
        if len(now) > 1:
            res.tag("pivots")
        res.state(ev, str(want))
    return res


def raw(case):
    """The events that trace-cmd has to report raw are those (once registered)."""
    res = Res()
    tr = load([T.line("4.0", "cpu_idle", "state=0 cpu_id=0")])
    for ev, attr, _ in EVENTS:
        res.run()
        res.equal(bool(tr.class_definitions[attr]().parse_raw), ev in RAW, ev, "%s is raw" % ev)
        res.state(ev)
    return res


def run_case(case):
    if case["kind"] == "pivot":
        return pivoted(case)
    if case["kind"] == "raw":
        return raw(case)
    return mixed(case) if case["kind"] == "mixed" else single(case)


def explore(ctx):
    cases = []
    for ev, _, _ in EVENTS:
        n = len(rows_of(ev))
        lim = 8 if ctx.quick else 24
        step = max(1, n // lim)
        sub = list(range(0, n, step))[:lim]
        cases.append({"kind": "single", "event": ev, "what": "all", "seqs": [list(range(n))]})
        al = list(range(n)) if n <= 64 or not ctx.quick else list(range(0, n, 3))
        for i in range(0, len(al), 24):
            cases.append({"kind": "single", "event": ev, "what": "alone", "seqs": [[j] for j in al[i:i + 24]]})
        pairs = [list(p) for p in itertools.product(sub, repeat=2)]
        for i in range(0, len(pairs), 24):
            cases.append({"kind": "single", "event": ev, "what": "pair", "seqs": pairs[i:i + 24]})
    cases.append({"kind": "raw"})
    for ev in PIVOTS:
        n = len(rows_of(ev))
        lim = 5 if ctx.quick else 12
        sub = list(range(0, n, max(1, n // lim)))[:lim]
        seqs = [list(s) for k in (1, 2, 3) for s in itertools.product(sub, repeat=k)] + [list(range(n))]
        for i in range(0, len(seqs), 40):
            cases.append({"kind": "pivot", "event": ev, "seqs": seqs[i:i + 40]})
    for k in range(len(EVENTS)):
        for rev in (False, True):
            cases.append({"kind": "mixed", "rot": k, "rev": rev})
    ctx.run_cases(run_case, cases, describe=lambda c: c if "seqs" not in c else dict(c, seqs=c["seqs"][:2]))
