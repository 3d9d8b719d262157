"""C01: every line that reports a selected event is exactly one row.

Three complete enumerations on the real parser, each compared with the rows
the abstract trace it was printed from must give:
  shapes     the product of every optional part of a line
  comms      every command name up to a length over an alphabet of the
             characters that also delimit the other fields
  sequences  every file of up to N lines over an alphabet of line kinds
"""
import itertools

import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = ["the line contains the unique word of exactly one of the selected events, and a non-empty payload",
               "command names do not start with a blank (they are right-aligned in the report)"]
MUST_SEE = ("shapes", "flags", "comms", "sequence", "dropped-line", "no-rows")
BOUNDS = ("all combinations of %s; all command names up to 3 (quick) or 4 (thorough) characters over 9 characters; every printable character at each place of 4 latency flags; all files "
          "up to 4 (quick) or 5 (thorough) lines over 9 kinds of line" % "comm x pid x cpu x tgid x flags x timestamp format x event spacing")

COMMS = ["task", "<idle>", "<...>", "kworker/0:1", "kworker/u16:3-event", "a-1", "x-12-3", "(sd-pam)", "Binder:512_1",
         "[x]", "sh -c", "a [001]", "task  two", "-", "-7", "1234", "0", "\u0436\u00e9", "a.b,c=d", "a\\b\"q'", "ev", "x ",
         "12.5: y", "mmcqd/0-7 b"]
PIDS = [0, 7, 99999, 4194304]
CPUS = ["000", "003", "07", "127", "1024", "2"]
TGIDS = ["", " (-----)", " (  512)", " (4194304)"]
FLAGS = ["", " ....", " d..3", " dN.1", " d.h."]
STAMPS = ["%d.%06d", "%d.%09d", "ns"]
EVS = ["my_ev:              ", "my_ev: ", "my_ev:\t", "0: my_ev:  ", "bprint:        func: my_ev: "]
PAD = ["%16s-%-5d", "%s-%d", " \t%s-%d"]


def stamp(kind, i):
    if kind == "ns":
        return str(5000000000 + 1000 * i)
    if kind == "%d.%06d":
        return "5.%06d" % i
    return "5.%06d000" % i


def check(res, trace, want, what, event="my_ev"):
    """want: [(ident, comm, pid, cpu, line)] in file order"""
    df = getattr(trace, event).data_frame
    got = [(d.get("a"), d.get("__comm"), d.get("__pid"), d.get("__cpu"), d.get("__line")) for _, d in T.rows(df)]
    norm = [(a, T.num(c), p, u, l) for a, c, p, u, l in want]
    gotn = [(a, ["s", c] if isinstance(c, str) else c, p, u, l) for a, c, p, u, l in got]
    res.run()
    if gotn != norm:
        for i, (g, w) in enumerate(itertools.zip_longest(gotn, norm)):
            if g != w:
                break
        res.fail("rows:%s" % what.split(":")[0], "%s: row %d of %s: got %r, expected %r (a, comm, pid, cpu, line)"
                 % (what, i, event, g, w))
        return False
    return True


def load(text, events, name="t.txt"):
    T.write(name, text)
    with T.cache(False):
        return trappy.FTrace(name, scope="custom", events=events, normalize_time=False)


def shapes(case):
    res = Res()
    res.tag("shapes")
    comm = case["comm"]
    for st in STAMPS:
        lines, want = [], []
        for pid, cpu, tg, fl, ev, pad in itertools.product(PIDS, CPUS, TGIDS, FLAGS, EVS, PAD):
            i = len(lines)
            lines.append("%s%s [%s]%s %s: %sa=%d" % (pad % (comm, pid), tg if pad != "%s-%d" or not tg else tg,
                                                      cpu, fl, stamp(st, i), ev, i))
            want.append((i, comm, pid, int(cpu), i))
        tr = load(T.text(lines), ["my_ev"])
        res.step(len(lines))
        if check(res, tr, want, "shapes: comm %r timestamps %r" % (comm, st)):
            res.state("shape", comm, st, len(want))
    return res


FLAG_CHARS = [chr(c) for c in range(33, 127)]


def flags(case):
    """Every printable character at every place of the latency flags"""
    res = Res()
    res.tag("flags")
    lines, want = [], []
    base = case["base"]
    for pos in range(4):
        for c in FLAG_CHARS:
            i = len(lines)
            lines.append("%16s-%-5d%s [003] %s 5.%06d: my_ev: a=%d" % ("task", 7, case["tgid"], base[:pos] + c + base[pos + 1:], i, i))
            want.append((i, "task", 7, 3, i))
    tr = load(T.text(lines), ["my_ev"])
    res.step(len(lines))
    if check(res, tr, want, "flags: %r with one character replaced, tgid %r" % (base, case["tgid"])):
        res.state("flags", base, case["tgid"])
    return res


ALPHA = "a-1 []:(<"


def comms(case):
    res = Res()
    res.tag("comms")
    first, n = case["first"], case["n"]
    names = [first]
    for k in range(1, n):
        names += [first + "".join(t) for t in itertools.product(ALPHA, repeat=k)]
    for tg, fl in (("", ""), (" (  512)", " d..3")):
        lines, want = [], []
        for i, c in enumerate(names):
            lines.append("%16s-%-5d%s [003]%s 5.%06d: my_ev: a=%d" % (c, 7, tg, fl, i, i))
            want.append((i, c, 7, 3, i))
            res.state(c)
        tr = load(T.text(lines), ["my_ev"])
        res.step(len(lines))
        check(res, tr, want, "comms: first %r tgid %r flags %r" % (first, tg, fl))
    return res


KINDS = {"1": "%16s-%-5d [000] 9.%06d: ev_one: a=%d", "2": "%16s-%-5d [001] 9.%06d: ev_two: a=%d",
         "u": "%16s-%-5d [001] 9.%06d: ev_three: a=%d", "i": "   %s-%d (   12) [002] d..1 9.%06d: ev_one:   a=%d",
         "j": "", "L": "CPU:0 [LOST 3 EVENTS]", "#": "# comment ev_one: a=5", "m": "ev_one: a=3", "h": "version = 6"}


def sequence(case):
    res = Res()
    for seq in case["seqs"]:
        lines = []
        w1, w2 = [], []
        start = None
        for i, k in enumerate(seq):
            tmpl = KINDS[k]
            lines.append(tmpl % ("t%d" % (i % 2), 7 + i, i, i) if "%" in tmpl else tmpl)
            if k in "12ui":
                if start is None:
                    start = i
                if k in "1i":
                    w1.append((i, "t%d" % (i % 2), 7 + i, 0 if k == "1" else 2, i - start))
                elif k == "2":
                    w2.append((i, "t%d" % (i % 2), 7 + i, 1, i - start))
            else:
                res.tag("dropped-line")
        text = T.HEADER + "\n".join(lines) + case["end"]
        tr = load(text, ["ev_one", "ev_two"])
        res.step(len(seq))
        ok = check(res, tr, w1, "sequence: lines %r end %r" % (seq, case["end"]), "ev_one")
        ok = check(res, tr, w2, "sequence: lines %r end %r" % (seq, case["end"]), "ev_two") and ok
        res.tag("sequence")
        if not w1 and not w2:
            res.tag("no-rows")
        if ok:
            res.state("seq", len(lines), w1, w2)
    return res


def long_(case):
    """More lines than any buffer, chunk or interval of a parser"""
    res = Res()
    res.tag("long")
    n, other = case["n"], case["other"]
    lines, w = [], {"ev_one": [], "ev_two": []}
    for i in range(n):
        if i % other == other - 1:
            lines.append(KINDS["L"] if i % 2 else KINDS["u"] % ("t", 7, i, i))
        else:
            ev = "ev_two" if i >= case["first"] and i % 3 == 0 else "ev_one"
            lines.append("%16s-%-5d [%03d] 9.%06d: %s: a=%d" % ("t%d" % (i % 11), i, i % 5, i, ev, i))
            w[ev].append((i, "t%d" % (i % 11), i, i % 5, i))
    tr = load(T.HEADER + "\n".join(lines) + "\n", ["ev_one", "ev_two"])
    res.step(n)
    for ev in sorted(w):
        if check(res, tr, w[ev], "long: %r" % case, ev):
            res.state("long", ev, len(w[ev]))
    return res


def run_case(case):
    return {"long": long_, "shapes": shapes, "flags": flags, "comms": comms, "sequence": sequence}[case["kind"]](case)


def explore(ctx):
    cases = [{"kind": "shapes", "comm": c} for c in COMMS]
    cases += [{"kind": "flags", "base": b, "tgid": t} for b in ("....", "d..3", "dNH2", "#.#.") for t in TGIDS]
    n = 3 if ctx.quick else 4
    cases += [{"kind": "comms", "first": c, "n": n} for c in ALPHA if c != " "]
    depth = 4 if ctx.quick else 5
    seqs = ["".join(s) for d in range(depth + 1) for s in itertools.product(sorted(KINDS), repeat=d)]
    for i in range(0, len(seqs), 60):
        cases.append({"kind": "sequence", "seqs": seqs[i:i + 60], "end": "\n"})
    short = [s for s in seqs if 0 < len(s) <= 2]
    for n in (70, 1030, 10050, 70000) if ctx.quick else (70, 1030, 4100, 10050, 33000, 70000, 140000, 400000):
        cases += [{"kind": "long", "n": n, "other": o, "first": f} for o, f in ((7, 0), (n, n - 4))]
    for end in ("", "\r\n", "\n\n", " \n"):
        cases.append({"kind": "sequence", "seqs": short, "end": end})
    ctx.run_cases(run_case, cases, describe=lambda c: {k: v if k != "seqs" else v[:3] for k, v in c.items()})
