"""C02: the payload of an event is decoded into exactly the printed fields.

Complete enumerations on the real parser against a reference decoder working
on the abstract fields the payload was printed from:
  values   every value text up to a length over the characters of numbers
  fields   every sequence of fields up to a length over an alphabet of shapes
  arrays   every sequence of lines up to a length over array payloads
  bigints  every pair of large integers in one column
"""
import itertools
import re

import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C02"
LEVEL = "model_checking"
ASSUMPTIONS = ["field names are identifiers other than Time and the reserved __ names; values have no underscore digit groups",
               "integers beyond 2**53 are printed in every line of their event (pandas turns a column with missing values into floats)"]
MUST_SEE = ("values", "fields", "arrays", "bigints", "int", "text", "continued", "padded", "parse-error")
BOUNDS = ("all value texts up to 3 (thorough 4) characters over '0179xbo-+.af_'; all sequences up to 3 (thorough 4) of 17 field "
          "shapes; all files up to 3 (thorough 4) lines over 10 array payloads; all pairs of 14 large integers")

INT = re.compile(r"[+-]?(0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+|[1-9][0-9]*|0+)$")


def value(text):
    """What a printed value means."""
    if INT.match(text):
        sign = -1 if text[0] == "-" else 1
        t = text.lstrip("+-").lower()
        for pre, base in (("0x", 16), ("0o", 8), ("0b", 2)):
            if t.startswith(pre):
                return sign * int(t[2:], base)
        return sign * int(t, 10)
    return text


def decode(fields):
    """fields: [(key or None, text)] -> {column: value}; None = bare word"""
    out, last = {}, None
    for k, t in fields:
        if k is None:
            if last is None:
                return None
            if isinstance(out[last], str):
                out[last] += " " + t
        else:
            out[k] = value(t)
            last = k
    return out


def table(payloads, name="t.txt", event="my_ev"):
    lines = [T.line("3.%06d" % i, event, p) for i, p in enumerate(payloads)]
    T.write(name, T.text(lines))
    with T.cache(False):
        tr = trappy.FTrace(name, scope="custom", events=[event], normalize_time=False)
    df = getattr(tr, event).data_frame
    got = []
    cols = list(df.columns)
    vals = [list(df.iloc[:, i].values) for i in range(len(cols))]
    for r in range(len(df)):
        got.append({c: T.num(vals[i][r]) for i, c in enumerate(cols)
                    if not c.startswith("__") and T.num(vals[i][r]) is not None})
    return got


def canon(d):
    return {k: ["s", v] if isinstance(v, str) else v for k, v in d.items()}


def compare(res, payloads, want, what):
    got = table(payloads)
    res.run()
    if len(got) != len(want):
        res.fail(what, "%s: %d rows for %d lines" % (what, len(got), len(want)))
        return
    for p, g, w in zip(payloads, got, want):
        w = canon(w)
        res.step()
        if g != w:
            res.fail(what, "%s: payload %r decoded as %r, expected %r" % (what, p, g, w))
            return
        res.state(what, sorted(w.items()))


def values(case):
    res = Res()
    res.tag("values")
    texts = case["texts"]
    want = [{"v": value(t), "z": 5} for t in texts]
    for w in want:
        res.tag("int" if isinstance(w["v"], int) else "text")
    compare(res, ["v=%s z=5" % t for t in texts], want, "values")
    # alone in the table: the kind may not depend on the other rows
    if case.get("alone"):
        for t in texts:
            compare(res, ["v=%s" % t], [{"v": value(t)}], "value alone")
    return res


SHAPES = [("a", "1"), ("b", "-2"), ("c", "0x1f"), ("d", "007"), ("e", "x"), ("f", ""), ("g", "p=q"), ("h", "1.5"),
          ("i_2", "18"), ("J", "0xZ"), ("e", "y"), ("a", "w"), ("k", "a,b:c;"), (None, "foo"), (None, "12"),
          (None, "[x]"), ("load0", "5")]


def fields(case):
    res = Res()
    res.tag("fields")
    pay, want = [], []
    for seq in case["seqs"]:
        fl = [SHAPES[i] for i in seq]
        pay.append(case["sep"].join(t if k is None else "%s=%s" % (k, t) for k, t in fl))
        want.append(decode(fl))
        if any(k is None for k, t in fl):
            res.tag("continued")
    compare(res, pay, want, "fields")
    return res


def parse_error(case):
    """A payload that starts with a bare word is an error, not silent garbage."""
    res = Res()
    for p in ("foo", "foo a=1", "12 a=1"):
        res.run()
        try:
            got = table([p])
        except trappy.TrappyParseError:
            res.tag("parse-error")
            continue
        res.fail("parse-error", "payload %r gave %r instead of TrappyParseError" % (p, got))
    got = table(["[FAILED TO PARSE] a=1 b=x", "a=2 b=y"])
    res.run()
    res.equal(got, [canon({"a": 1, "b": "x"}), canon({"a": 2, "b": "y"})], "failed-to-parse", "FAILED TO PARSE line")
    return res


ARR = [[("x", 1)], [("load", [1, 2, 3]), ("x", 1)], [("load", [4]), ("x", 2)], [("x", 3), ("load", [])],
       [("load", []), ("x", 4)], [("x", 5), ("load", [1, 2])], [("load", ["0x10", -1]), ("temp", [7, 8]), ("x", 6)],
       [("temp", []), ("load", [9]), ("x", 7)], [("load", ["a", "b"]), ("x", "s t")], [("x", 9), ("temp", [3]), ("y", "q")]]


def arr_text(fl):
    return " ".join("%s={%s}" % (k, " ".join(map(str, v))) if isinstance(v, list) else "%s=%s" % (k, v) for k, v in fl)


# digits within names, and names that end in each other's
NAMES = ["a1b", "b", "_x", "load_avg", "L2", "x2y3"]


def array_rows(seq):
    return [[(k, list(range(1, v + 1))) if v is not None else ("z", 5) for k, v in row] for row in seq]


def arrays(case):
    res = Res()
    res.tag("arrays")
    for seq in case["seqs"]:
        rows = array_rows(seq) if case.get("named") else [ARR[i] for i in seq]
        longest = {}
        for fl in rows:
            for k, v in fl:
                if isinstance(v, list):
                    longest[k] = max(longest.get(k, 0), len(v))
        want = []
        for fl in rows:
            d = {}
            for k, v in fl:
                if isinstance(v, list):
                    if not v:
                        continue
                    for i in range(longest[k]):
                        d["%s%d" % (k, i)] = value(str(v[i])) if i < len(v) else 0
                        if i >= len(v):
                            res.tag("padded")
                else:
                    d[k] = value(str(v))
            want.append(d)
        compare(res, [arr_text(fl) for fl in rows], want, "arrays")
    return res


BIG = [0, 1, -1, 2 ** 31, 2 ** 32 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1, 2 ** 64, -2 ** 63 - 1,
       10 ** 30]


def bigints(case):
    res = Res()
    res.tag("bigints")
    for seq in case["seqs"]:
        compare(res, ["v=%d" % v for v in seq], [{"v": v} for v in seq], "bigints")
        compare(res, ["v=%#x" % v for v in seq], [{"v": v} for v in seq], "bigints")
    return res


def long_(case):
    """Payloads of another shape in one row of a long table"""
    res = Res()
    res.tag("long")
    n, at, odd = case["n"], case["at"], ARR[case["odd"]]
    rows = [[("x", i)] for i in range(n)]
    rows[at] = odd
    want = [{"x": i} for i in range(n)]
    want[at] = {}
    for k, v in odd:
        if isinstance(v, list):
            want[at].update(("%s%d" % (k, i), value(str(e))) for i, e in enumerate(v))
        else:
            want[at][k] = value(str(v))
    compare(res, [arr_text(fl) for fl in rows], want, "long, row %d of %d is %r" % (at, n, odd))
    return res


def run_case(case):
    return {"values": values, "fields": fields, "long": long_, "arrays": arrays, "bigints": bigints,
            "parse_error": parse_error}[case["kind"]](case)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(ctx):
    alpha = "0179xbo-+.af_"
    texts = ["".join(t) for n in range(1, 4 if ctx.quick else 5) for t in itertools.product(alpha, repeat=n)]
    # digits of other scripts
    texts += ["".join(t) for n in range(1, 4) for t in itertools.product("1-\u0664\uff12", repeat=n)]
    cases = [{"kind": "values", "texts": c, "alone": len(c[0]) <= 2} for c in chunks(texts, 150)]
    n = 3 if ctx.quick else 4
    seqs = [s for k in range(1, n + 1) for s in itertools.product(range(len(SHAPES)), repeat=k)
            if SHAPES[s[0]][0] is not None]
    cases += [{"kind": "fields", "seqs": c, "sep": " "} for c in chunks(seqs, 200)]
    cases += [{"kind": "fields", "seqs": c, "sep": s} for s in ("  ", " \t ") for c in chunks([s for s in seqs if len(s) <= 2], 200)]
    # the same short payloads, one table each: no help from other rows
    cases += [{"kind": "fields", "seqs": [s], "sep": " "} for s in seqs if len(s) <= 2]
    n = 3 if ctx.quick else 4
    aseq = [s for k in range(1, n + 1) for s in itertools.product(range(len(ARR)), repeat=k)]
    cases += [{"kind": "arrays", "seqs": c} for c in chunks(aseq, 40)]
    lens = (0, 1, 2, 7, 9, 12, 40)
    nseq = [[[(k, a), ("z", None)], [(k, b), ("z", None)]] for k in NAMES for a in lens for b in lens]
    nseq += [[[(k, a), (l, b)], [(k, b), ("z", None)], [("z", None), (l, a)]] for k in NAMES for l in NAMES if k != l
             for a in (0, 1, 3) for b in (0, 2, 3)]
    cases += [{"kind": "arrays", "seqs": c, "named": True} for c in chunks(nseq, 40)]
    cases += [{"kind": "bigints", "seqs": c} for c in chunks(list(itertools.product(BIG, repeat=2)), 30)]
    n = 10050 if ctx.quick else 70000
    cases += [{"kind": "long", "n": n, "at": at, "odd": o} for at in (0, 1, 9999, 10000, n - 1) for o in (1, 8, 9)]
    cases.append({"kind": "parse_error"})
    ctx.run_cases(run_case, cases, describe=lambda c: {k: v if k not in ("seqs", "texts") else v[:4] for k, v in c.items()})
