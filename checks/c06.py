"""C06: scopes, requested events and registrations select what is parsed.

Explicit-state search over histories of registrations and unregistrations on
the real registry; a state is the registry as the model sees it.  In every
state all load configurations are executed and compared with the model: which
events the trace has, which parser class serves each, what rows they got, or
that overlapping unique words are refused.
"""
import itertools

import trappy
from trappy.base import Base
from mc import traces as T
from mc.core import Res

PROPERTY = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = ["registrations happen in one thread", "no two registered parsers of different names have the same unique word, "
               "unless the overlap is what is being checked"]
MUST_SEE = ("registered", "two-scopes", "unregistered", "replaced", "overlap", "builtin", "generic", "by-name", "written", "free-text")
BOUNDS = ("all histories of up to 3 (thorough: 8, or fixpoint) registrations (some for a second scope) and unregistrations, merged by registry, of 8 parsers (dynamic and class based, 3 scopes, replaced and overlapping "
          "ones); 20 (thorough: 44) load configurations in every state")

# parser key: (attribute name, unique word, scope, how, pivot)
PARSERS = {
    "a": ("my_one", "ev_one:", "all", "dynamic", None),
    "s": ("my_two", "ev_two:", "sched", "dynamic", "c"),
    "t": ("ev_three", "ev_three:", "thermal", "class", None),
    "T": ("ev_three", "ev_three:", "thermal", "class", "b"),     # replaces t
    "r": ("my_one", "ev_two", "all", "dynamic", None),           # replaces a, another word
    "o": ("xev_one", "xev_one:", "all", "class", None),         # overlaps a
    "n": ("named", "ev_four", "sched", "class-named", "d"),
    "S": ("my_one", "ev_five:", "sched", "dynamic", None),       # same name, another scope
}
CAMEL = {"my_one": "MyOne", "my_two": "MyTwo"}
ALSO = {"a": "sched", "t": "sched", "n": "thermal"}      # a second scope to register it for
SCOPES = ["thermal", "sched", "all"]
EVENTS = {"ev_one": "a=1 b=x", "ev_two": "a=2 c=y", "ev_three": "a=3 b=z", "ev_four": "a=4 d=w", "ev_five": "a=5"}
TEXT = T.text([T.line("2.%06d" % i, e, EVENTS[e]) for i, e in enumerate(sorted(EVENTS) + ["ev_one", "ev_three", "ev_zzz"] if True else [])
               if e in EVENTS] + [T.line("2.5", "cpu_frequency", "state=1 cpu_id=0"), T.line("2.6", "thermal_temperature", "temp=1"),
                                  T.line("2.7", "tracing_mark_write", "hi"),
                                  T.line("2.8", "tracing_mark_write", "ev_one: " + EVENTS["ev_one"]),
                                  T.line("2.9", "tracing_mark_write", "ho")])
# One line is written to the trace marker: it is the event's if that is selected, and free text otherwise
COUNT = {"ev_one": 3, "ev_two": 1, "ev_three": 2, "ev_four": 1, "ev_five": 1}
BUILTIN = {"sched": ["cpu_frequency", "sched_switch"], "thermal": ["thermal", "cpu_in_power"], "all": ["tracing_mark_write", "cpu_idle"]}

CONFIGS = [dict(scope=s, events=e) for s in ("all", "sched", "thermal", "custom")
           for e in ([], ["ev_one"], "ev_two", ["my_one", "ev_three"], ["ev_one", "ev_two", "ev_four"], ["named", "ev_five"],
                     ["cpu_frequency", "tracing_mark_write"], ["thermal_temperature", "my_two"], ["ev_one", "ev_one"], ["xev_one", "ev_three"],
                     ["tracing_mark_write", "ev_one"])]
QUICK = [c for i, c in enumerate(CONFIGS) if c["scope"] == "custom" or i % 11 in (0, 4, 7)]


def register(key):
    name, word, scope, how, pivot = PARSERS[key]
    if how == "dynamic":
        kw = {k: v for k, v in (("scope", scope), ("pivot", pivot)) if v not in ("all", None)}
        return trappy.register_dynamic_ftrace(CAMEL[name], word, **kw)
    kw = {"unique_word": word}
    if pivot:
        kw["pivot"] = pivot
    if how == "class-named":
        kw["name"] = name
    cls = type(str("Cls" + key), (Base,), kw)
    trappy.register_ftrace_parser(cls, *[scope for s in [scope] if s != "all"])
    return cls


def apply(hist):
    """Run a history on the real registry; returns ({scope: {name: key}}, classes)"""
    model = {s: {} for s in SCOPES}
    classes = {}
    for op, key in hist:
        name, word, scope, how, pivot = PARSERS[key]
        if op == "reg":
            classes[key] = register(key)
            model[scope][name] = key
        elif op == "also":
            trappy.register_ftrace_parser(classes[key], ALSO[key])
            model[ALSO[key]][name] = key
        else:
            trappy.unregister_dynamic_ftrace(classes[key])
            for s in SCOPES:
                for n in list(model[s]):
                    if model[s][n] == key:
                        del model[s][n]
            del classes[key]
    return model, classes


def expected(model, cfg):
    """{attribute: parser key or "builtin:..." or "generic:event"} of our events"""
    known = {}
    for s in SCOPES:
        for n, k in model[s].items():
            known[n] = k
    ev = cfg["events"] if isinstance(cfg["events"], list) else [cfg["events"]]
    out = {}
    for e in ev:
        hit = [n for n, k in known.items() if e in (n, PARSERS[k][1]) or e + ":" == PARSERS[k][1]]
        if e in ("cpu_frequency", "tracing_mark_write"):
            out[e] = "builtin"
        elif e == "thermal_temperature":
            out["thermal"] = "builtin"
        elif hit:
            out[hit[0]] = known[hit[0]]
        else:
            out[e] = "generic:" + e
    scopes = {"custom": [], "all": SCOPES, "sched": ["sched", "all"], "thermal": ["thermal", "all"]}[cfg["scope"]]
    for s in scopes:
        for n, k in model[s].items():
            out[n] = k
        for n in BUILTIN[s]:
            out[n] = "builtin"
    words = []
    for n, k in out.items():
        if k.startswith("generic:"):
            words.append(k[8:] + ":")
        elif k != "builtin":
            words.append(PARSERS[k][1])
    clash = any(a in b or b in a for a, b in itertools.combinations(words, 2))
    return out, clash


def step(case):
    (hist, _), op = case
    hist = hist + [op]
    res = Res()
    res.step()
    model, classes = {}, {}
    try:
        model, classes = apply(hist)
        canon = [sorted(model[s].items()) for s in SCOPES] + [sorted(classes)]
        verify(res, hist, model, classes, replay.cfgs)
        res.state(canon)
        res.tag({"reg": "registered", "also": "two-scopes"}.get(op[0], "unregistered"))
        if op[0] == "reg" and op[1] in "Tr":
            res.tag("replaced")
        res.data = (canon, [hist, sorted(classes)])
    finally:
        for c in list(classes.values()):
            trappy.unregister_dynamic_ftrace(c)
        # nothing of ours may be left behind
        if not res.fails:
            T.write("t.txt", TEXT)
            with T.cache(False):
                left = trappy.FTrace("t.txt").get_filters("my_|ev_three|xev_one|named")
            if left:
                res.fail("leftover", "after unregistering everything %r are still parsed (history %r)" % (left, hist))
    return res


def verify(res, hist, model, classes, cfgs):
    T.write("t.txt", TEXT)
    for cfg in cfgs:
        want, clash = expected(model, cfg)
        what = "history %r, load %r" % (hist, cfg)
        res.run()
        try:
            with T.cache(False):
                # "all" is the default, and so is no further event
                kw = {k: v for k, v in cfg.items() if not (v == [] or v == "all" and cfg["events"] != "ev_two")}
                tr = trappy.FTrace("t.txt", **kw)
        except RuntimeError as e:
            if not clash:
                res.fail("refused", "%s: refused: %s" % (what, e))
            res.tag("overlap")
            continue
        if clash:
            res.fail("overlap", "%s: overlapping unique words were accepted: %r" % (what, want))
            continue
        have = set(tr.get_filters())
        ours = set(want)
        extra = [n for n in have if n not in ours and (n in [p[0] for p in PARSERS.values()] or n in EVENTS or n == "xev_one")]
        if not ours <= have or extra:
            res.fail("selected", "%s: parsed %r, expected %r" % (what, sorted(have), sorted(ours)))
            continue
        if cfg["scope"] in ("sched", "thermal", "custom"):
            other = {"sched": ["thermal"], "thermal": ["sched"], "custom": ["sched", "thermal", "all"]}[cfg["scope"]]
            bad = [n for s in other for n in BUILTIN[s] if n in have and n not in want]
            if bad:
                res.fail("scope", "%s: events %r of another scope are parsed" % (what, bad))
        if cfg["scope"] == "custom" and have != ours:
            res.fail("selected", "%s: parsed %r, expected %r" % (what, sorted(have), sorted(ours)))
        for n, k in sorted(want.items()):
            obj = getattr(tr, n)
            got = [r for _, r in T.rows(obj.data_frame)]
            if k == "builtin":
                res.tag("builtin")
                if n in ("cpu_frequency", "thermal") and len(got) != 1:
                    res.fail("rows", "%s: %s has %d rows" % (what, n, len(got)))
                if n == "tracing_mark_write":
                    taken = any((k[8:] if k.startswith("generic:") else PARSERS[k][1].rstrip(":")) == "ev_one"
                                for k in want.values() if k != "builtin")
                    texts = [r["string"] for r in got]
                    if texts != (["hi", "ho"] if taken else ["hi", EVENTS["ev_one"], "ho"]):
                        res.fail("fallback", "%s: free texts %r" % (what, texts))
                    res.tag("written" if taken else "free-text")
                continue
            if k.startswith("generic:"):
                res.tag("generic")
                ev = k[8:]
            else:
                ev = PARSERS[k][1].rstrip(":")
                if type(obj) is not classes[k]:
                    res.fail("parser", "%s: %s is parsed by %r instead of the registered %r" % (what, n, type(obj), classes[k]))
                if getattr(obj, "pivot", None) != PARSERS[k][4]:
                    res.fail("pivot", "%s: pivot of %s is %r" % (what, n, getattr(obj, "pivot", None)))
                if n != ev:
                    res.tag("by-name")
            cnt = COUNT.get(ev, 0)
            payload = dict(f.split("=") for f in EVENTS[ev].split()) if cnt else {}
            data = [{c: str(v) for c, v in r.items() if not c.startswith("__")} for r in got]
            if data != [payload] * cnt:
                res.fail("rows", "%s: %s has rows %r, expected %r" % (what, n, data, [payload] * cnt))


def replay(case):
    return step(case)


replay.cfgs = CONFIGS


def enabled(node):
    hist, live = node
    ops = []
    for k in sorted(PARSERS):
        if k in live:
            ops.append(["unreg", k])
            if k in ALSO:
                ops.append(["also", k])
        else:
            ops.append(["reg", k])
    return ops


def explore(ctx):
    replay.cfgs = QUICK if ctx.quick else CONFIGS
    res = Res()
    verify(res, [], {s: {} for s in SCOPES}, {}, CONFIGS)
    ctx.absorb([[[], []], None], res)
    info = ctx.explore([([[], [], [], []], [[], []])], enabled, step, max_depth=3 if ctx.quick else 8)
    ctx.caps = []        # the depth is a stated bound
    ctx.notes["search"] = info
    ctx.sample({"history": [["reg", "a"], ["reg", "S"], ["unreg", "a"]], "loads": QUICK[:3]})
