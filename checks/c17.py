"""C17: a topology is what was put into it.

Explicit-state search over histories of constructors and add_to_level calls on
the real class; in every state every query is compared with the model.
"""
import itertools

from trappy.stats.Topology import Topology
from mc.core import Res

PROPERTY = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = ["the level name all is not added"]
MUST_SEE = ("clusters", "appended", "unknown-level", "strings", "empty")
BOUNDS = ("5 constructors; all histories of up to 3 (thorough 4) additions of 8 group lists to 3 levels, merged by the state of the "
          "topology; all queries in every state")

INITS = [None, [], [[0, 1], [2, 3]], [[0, 3], [5]], [["little0", "little1"], ["big0"]]]
GROUPS = [[[0, 1]], [[2], [3]], [[7]], [[0, 1], [2, 3]], [], [["a", "b"]], [[1, 0], [9, 10, 11]], [[i] for i in range(20, 37)]]
LEVELS = ["cluster", "cpu", "pair"]


def play(init, hist):
    cl = None if init is None else [list(g) for g in init]
    given = [(cl, init)]
    t = Topology() if cl is None else Topology(clusters=cl)
    model, nodes = {}, set()
    if init:
        model["cluster"] = [list(g) for g in init]
        nodes = set(n for g in init for n in g)
        model["cpu"] = None                 # one group per node, in any order
    for lvl, gi in hist:
        arg = [list(g) for g in GROUPS[gi]]
        given.append((arg, GROUPS[gi]))
        t.add_to_level(lvl, arg)
        if model.get(lvl, 0) is None:
            model[lvl] = [list(g) for g in t.get_level(lvl)][:sum(len(g) for g in init)]
            if sorted(map(repr, model[lvl])) != sorted(repr([n]) for g in init for n in g):
                model[lvl] = "wrong"
                return t, model, nodes, given
        model.setdefault(lvl, [])
        model[lvl] = model[lvl] + [list(g) for g in GROUPS[gi]]
        nodes |= set(n for g in GROUPS[gi] for n in g)
    return t, model, nodes, given


def verify(res, init, hist):
    what = "Topology(%r), additions %r" % (init, [(l, GROUPS[g]) for l, g in hist])
    t, model, nodes, given = play(init, hist)
    res.run()

    def bad(key, msg):
        res.fail(key, "%s: %s" % (what, msg))
    for now, was in given:
        if was is not None and now != [list(g) for g in was]:
            return bad("input", "the list %r it was given became %r" % (was, now))
    if sorted(map(repr, t.flatten())) != sorted(map(repr, nodes)):
        return bad("flatten", "flatten() is %r, expected %r" % (t.flatten(), nodes))
    if sorted(t) != sorted(model):
        return bad("levels", "levels are %r, expected %r" % (sorted(t), sorted(model)))
    alls = t.get_level("all")
    if len(alls) != 1 or sorted(map(repr, alls[0])) != sorted(map(repr, nodes)):
        return bad("all", "get_level('all') is %r, expected one group of %r" % (alls, nodes))
    for lvl in LEVELS + ["zz"]:
        res.step()
        if t.has_level(lvl) != (lvl in model):
            return bad("has_level", "has_level(%r) is %r" % (lvl, t.has_level(lvl)))
        if lvl not in model:
            res.tag("unknown-level")
            try:
                got = t.get_level(lvl)
            except KeyError:
                continue
            return bad("unknown", "get_level(%r) is %r" % (lvl, got))
        groups = t.get_level(lvl)
        if model[lvl] is None:
            if sorted(map(repr, groups)) != sorted(repr([n]) for n in nodes if any(n in g for g in init)):
                return bad("cpu", "get_level(%r) is %r" % (lvl, groups))
        elif groups != model[lvl]:
            return bad("level", "get_level(%r) is %r, expected %r" % (lvl, groups, model[lvl]))
        if t.level_span(lvl) != len(groups):
            return bad("span", "level_span(%r) is %r of %r" % (lvl, t.level_span(lvl), groups))
        for i, g in enumerate(groups):
            if t.get_node(lvl, i) != g or t.get_index(lvl, g) != groups.index(g):
                return bad("index", "get_node(%r, %d) is %r, get_index of %r is %r" % (lvl, i, t.get_node(lvl, i), g, t.get_index(lvl, g)))
        if not groups:
            res.tag("empty")
    if t.level_span("all") != len(nodes):
        return bad("span", "level_span('all') is %r, expected %d" % (t.level_span("all"), len(nodes)))
    if any(isinstance(n, str) for n in nodes):
        res.tag("strings")
    if init:
        res.tag("clusters")
    if len([1 for l, _ in hist if l == "cluster"]) + bool(init) > 1:
        res.tag("appended")
    fresh = Topology()
    if list(fresh) or fresh.flatten():
        return bad("shared", "a new topology has levels %r nodes %r" % (list(fresh), fresh.flatten()))
    return model, nodes


def replay(case):
    (init, hist), op = case
    hist = hist + [list(op)]
    res = Res()
    out = verify(res, INITS[init], hist)
    if out:
        canon = [init, sorted(out[0].items()), sorted(map(repr, out[1]))]
        res.state(canon)
        res.data = (canon, [init, hist])
    return res


def explore(ctx):
    ops = [(l, g) for l in LEVELS for g in range(len(GROUPS))]
    init = []
    for i, c in enumerate(INITS):
        res = Res()
        verify(res, c, [])
        ctx.absorb([[i, []], None], res)
        init.append(([i], [i, []]))
    info = ctx.explore(init, lambda node: ops, replay, max_depth=3 if ctx.quick else 4)
    ctx.caps = []        # the depth is a stated bound
    ctx.notes["search"] = info
    ctx.sample({"clusters": INITS[2], "additions": [["pair", [[7]]]]})
