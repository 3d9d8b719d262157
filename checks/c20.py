"""C20: expressions of stats.grammar mean what the table of operators says.

Every expression up to a number of operators over all operators, prefixes,
parentheses and operands is solved by the real parser and by a precedence
climbing evaluator of the documented table; so are nested function calls and
number formats.  Expressions that are no expressions must be refused.
"""
import itertools
import operator

import numpy
import trappy
from trappy.stats.grammar import Parser
from mc.core import Res

PROPERTY = "C20"
LEVEL = "model_checking"
ASSUMPTIONS = ["operands are scalars (accessors of event data are C21); a prefix is not the operand of ** (the grammar has no such expression)"]
MUST_SEE = ("binary", "prefix", "paren", "call", "number", "refused", "error", "spaces")
BOUNDS = ("all sequences of up to 3 of 17 binary operators, of 4 (thorough 5) over one operator per precedence level; all alternations of 2 up to 12 (thorough 24) operators long; all prefixes at all places and all "
          "parenthesisings of up to 2 (thorough 3) operators; calls nested up to depth 2 with 0 to 3 (some 4 to 8) arguments; 14 number formats")

LEVELS = [["**"], None, ["*", "/", "//", "%"], ["+", "-"], [">", "<", ">=", "<=", "==", "!="], ["&&", "||", "&", "|"]]
OPS = [o for l in LEVELS if l for o in l]
FN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod,
      "**": operator.pow, ">": operator.gt, "<": operator.lt, ">=": operator.ge, "<=": operator.le, "==": operator.eq,
      "!=": operator.ne, "&": operator.and_, "|": operator.or_}
REP = ["**", "//", "%", "-", ">", "&", "||"]

VARS = {"a": 7, "b": 3, "c": 2, "d_1": 5, "z": 0, "f": lambda *x: 100 + sum(v * 10 ** -i for i, v in enumerate(x)),
        "two": lambda: 2, "neg": operator.neg, "npmax": numpy.maximum}


def apply(op, x, y):
    if op == "&&":
        return x and y
    if op == "||":
        return x or y
    return FN[op](x, y)


def evaluate(tokens):
    """Reference: precedence climbing over a token list; a nested list is a
    parenthesised expression, a tuple (function, [args]) a call."""
    pos = [0]

    def peek():
        return tokens[pos[0]] if pos[0] < len(tokens) else None

    def atom():
        t = tokens[pos[0]]
        pos[0] += 1
        if isinstance(t, list):
            return evaluate(t)
        if isinstance(t, tuple):
            f = {"numpy.maximum": numpy.maximum, "math.hypot": __import__("math").hypot}.get(t[0]) or VARS[t[0]]
            return f(*[evaluate(x) for x in t[1]])
        return VARS[t] if t in VARS else float(t)

    def level(n):
        if n < 0:
            return atom()
        if LEVELS[n] is None:
            if isinstance(peek(), str) and peek() in "+-":
                sign = tokens[pos[0]]
                pos[0] += 1
                v = level(n)
                return -1 * v if sign == "-" else v
            return level(n - 1)
        v = level(n - 1)
        while isinstance(peek(), str) and peek() in LEVELS[n]:
            op = tokens[pos[0]]
            pos[0] += 1
            v = apply(op, v, level(n - 1))
        return v

    v = level(len(LEVELS) - 1)
    assert pos[0] == len(tokens), tokens
    return v


def show(tokens, sp=" "):
    out = []
    for t in tokens:
        if isinstance(t, list):
            out.append("(" + show(t, sp) + ")")
        elif isinstance(t, tuple):
            out.append(t[0] + "(" + ("," + sp).join(show(x, sp) for x in t[1]) + ")")
        else:
            out.append(t)
    return sp.join(out)


def outcome(f):
    try:
        return "value", f()
    except Exception as e:
        return "error", type(e).__name__


_parser = []


def parser():
    if not _parser:
        _parser.append(Parser(trappy.BareTrace(), pvars=dict(VARS)))
    return _parser[0]


def check(res, tokens, sp=" "):
    text = show(tokens, sp)
    got = outcome(lambda: parser().solve(text))
    want = outcome(lambda: evaluate(tokens))
    res.run()
    res.step(len(tokens) // 2)
    if got[0] != want[0]:
        res.fail("outcome", "%r is %r, expected %r" % (text, got, want))
        return False
    if want[0] == "error":
        res.tag("error")
    else:
        g, w = got[1], want[1]
        if isinstance(w, (complex, numpy.complexfloating)):
            ok = g == w
        else:
            ok = g == w or abs(g - w) <= 1e-12 * abs(w)
        if not ok or isinstance(g, (bool, numpy.bool_)) != isinstance(w, (bool, numpy.bool_)):
            res.fail("value", "%r is %r, expected %r" % (text, g, w))
            return False
    res.state(repr(want))
    return True


def sequences(case):
    res = Res()
    for ops in case["ops"]:
        tokens = [case["operands"][0]]
        for o, v in zip(ops, case["operands"][1:]):
            tokens += [o, v]
        if not check(res, tokens):
            break
        res.tag("binary")
        if case["tight"]:
            check(res, tokens, "")
            check(res, tokens, "  ")
            res.tag("spaces")
    return res


def prefixes(case):
    res = Res()
    for ops in case["ops"]:
        n = len(ops) + 1
        for pre in itertools.product(("", "-", "+", "--"), repeat=n):
            if any(p and o == "**" for p, o in zip(pre[1:], ops)):
                continue
            tokens = []
            for i in range(n):
                if i:
                    tokens.append(ops[i - 1])
                tokens += list(pre[i]) + [case["operands"][i]]
            if not check(res, tokens):
                return res
            res.tag("prefix")
    return res


def trees(ops, vals):
    """Every full parenthesising"""
    if not ops:
        return [[vals[0]]]
    out = []
    for i in range(len(ops)):
        for l in trees(ops[:i], vals[:i + 1]):
            for r in trees(ops[i + 1:], vals[i + 1:]):
                out.append([l if len(l) > 1 else l[0], ops[i], r if len(r) > 1 else r[0]])
    return out


def parens(case):
    res = Res()
    for ops in case["ops"]:
        for t in trees(ops, case["operands"]):
            if not check(res, t) or not check(res, [t, "+", "a"]) or not check(res, ["-", [t]]):
                return res
            res.tag("paren")
    return res


def calls(case):
    res = Res()
    args = [["a"], ["b", "+", "2"], ["-", "c"], ["2.5"], ["a", ">", "b"], [["a", "-", "b"], "*", "c"]]
    inner = [("two", []), ("f", [args[0]]), ("neg", [args[1]]), ("npmax", [args[0], args[3]]), ("numpy.maximum", [args[1], args[2]]),
             ("math.hypot", [["b"], ["4"]])]
    pool = args + [[c] for c in inner]
    exprs = [[("f", list(c))] for n in range(0, 3) for c in itertools.product(pool, repeat=n)]
    exprs += [[("f", list(c))] for c in itertools.product(args[:4], repeat=3)]
    exprs += [[("f", [pool[(i + j * s) % len(pool)] for j in range(n)])] for n in range(4, 9) for i in range(len(pool)) for s in (1, 5)]
    for c in inner:
        exprs.append([c])
        for op in OPS:
            exprs += [[c, op, "c"], ["a", op, c], ["a", op, [c, "+", "1"]]]
        exprs += [["-", c], ["a", "-", "-", c], [c, "**", "c", "*", c]]
    exprs += [[("f", [[("npmax", [[i], ["a"]])], ["c"]])] for i in inner]
    for e in exprs[case["part"]::8]:
        if not check(res, e) or not check(res, e, ""):
            break
        res.tag("call")
    return res


NUMBERS = ["1", "+1", "-1", "12", "0", "1.5", "-1.5", "2.", "+0.25", "1.5e2", "1.5E-2", "-2.5e+1", "007", "100000000000"]
TRAILING = ["1e5", "a + ", "2 ** -a", "a b", "a + b )", "1 + 2 $ 3", "a < ", "f(a) b", "a:", "f(a",
            "f(a,)"]
INVALID = ["", "(a", "* a", "()", "$", "nosuch", "a + nosuch", "nosuch(a)", "numpy.nosuch(a)"]


def misc(case):
    res = Res()
    for n in NUMBERS:
        res.run()
        got = outcome(lambda: parser().solve(n))
        if got != ("value", float(n)):
            res.fail("number", "%r is %r" % (n, got))
        for e in ("(%s) * a", "f(%s)", "a + %s", "%s + a", "%s < a"):
            check_text(res, e % n)
        res.tag("number")
    for t in INVALID:
        res.run()
        got = outcome(lambda: parser().solve(t))
        if got[0] != "error":
            res.fail("accepted:" + t, "%r is not an expression but gave %r" % (t, got[1]))
        res.tag("refused")
    for t in TRAILING:
        res.run()
        got = outcome(lambda: parser().solve(t))
        if got[0] != "error":
            res.fail("trailing:" + t.replace(" ", "_"), "%r gave %r, ignoring what follows the part that can be parsed" % (t, got[1]))
    return res


def check_text(res, text):
    got = outcome(lambda: parser().solve(text))
    env = dict(VARS)
    py = "".join(c for c in text)
    py = py.replace("007", "7").replace("100000000000", "1e11")
    want = outcome(lambda: eval(py, {}, env))
    res.run()
    if got[0] != want[0] or (want[0] == "value" and abs(got[1] - want[1]) > 1e-9 * max(1, abs(want[1]))):
        res.fail("number", "%r is %r, expected %r" % (text, got, want))


def run_case(case):
    return {"sequences": sequences, "prefixes": prefixes, "parens": parens, "calls": calls, "misc": misc}[case["kind"]](case)


def explore(ctx):
    cases = []

    def spread(kind, ops, operands, n, **kw):
        for i in range(0, len(ops), n):
            cases.append(dict(kind=kind, ops=ops[i:i + n], operands=operands, **kw))
    one, two, three = [[list(s) for s in itertools.product(OPS, repeat=n)] for n in (1, 2, 3)]
    for v in (["a", "b", "c"], ["c", "b", "a"], ["b", "2", "d_1"], ["4", "a", "0.5"]):
        spread("sequences", one + two, v, 40, tight=True)
    spread("sequences", three, ["d_1", "b", "c", "a"], 100, tight=False)
    if not ctx.quick:
        for v in (["c", "a", "b", "b"], ["a", "b", "z", "c"], ["3.0", "c", "2", "b"]):
            spread("sequences", three, v, 100, tight=False)
    n = 4 if ctx.quick else 5
    spread("sequences", [list(s) for s in itertools.product(REP, repeat=4)], ["a", "c", "b", "d_1", "c"], 60, tight=False)
    if not ctx.quick:
        spread("sequences", [list(s) for s in itertools.product(REP, repeat=5)], ["a", "c", "b", "d_1", "c", "b"], 60, tight=False)
    # long ones
    for n in (6, 7, 10, 12) if ctx.quick else range(5, 25):
        for pair in itertools.product(OPS, repeat=2):
            vals = ["4", "a", "0.5", "b", "c"] if "**" in pair else ["a", "c", "d_1", "b"]
            spread("sequences", [[pair[i % 2] for i in range(n)]], [vals[i % len(vals)] for i in range(n + 1)], 1, tight=False)
    spread("prefixes", one, ["a", "b"], 4)
    spread("prefixes", [list(s) for s in itertools.product(REP if ctx.quick else OPS, repeat=2)], ["a", "b", "c"], 6)
    spread("parens", one + two, ["a", "b", "c"], 20)
    if not ctx.quick:
        spread("parens", [list(s) for s in itertools.product(REP, repeat=3)], ["a", "b", "c", "d_1"], 10)
    cases += [{"kind": "calls", "part": i} for i in range(8)]
    cases.append({"kind": "misc"})
    ctx.run_cases(run_case, cases, describe=lambda c: {k: v if k != "ops" else v[:4] for k, v in c.items()})
