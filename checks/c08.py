"""C08: a cache never serves data of a superseded trace.

Explicit-state search over directory contents: transitions replace the trace
(same size, same mtime, other header, appended, truncated, swapped with
another trace together with or without its cache), remove or copy cache files,
and load; every load is compared with a fresh parse of the current content.
"""
import os
import shutil

from mc import cachework as W
from mc import fs
from mc import traces as T
from mc.core import Res

PROPERTY = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = ["trace contents with the same MD5 are the same content"]
MUST_SEE = ("invalidated", "reused", "big")
BOUNDS = ("fixpoint (histories of any length) over: 6 contents differing in one digit / header / length / start, all written "
          "with the same mtime; 2-3 load configurations; removal of a cached event; adoption of another trace's cache "
          "directory; rename of the trace over another one; traces of 9 kB to 1 MB (thorough 17 MB) replaced by ones that differ in one line at the "
          "start, middle or end")

ALT = "other.txt"


def ops(tier):
    cont = ["A", "B", "C", "E"] if tier == "quick" else sorted(W.CONTENTS)
    o = [["load", "1"], ["load", "12"], ["load", "2"]]
    o += [["write", c] for c in cont]
    o += [["rm", "ev_one.csv"], ["adopt"], ["swap"]]
    if tier != "quick":
        o += [["load", "12n"], ["rm", "ev_two.csv"], ["loadalt", "12"], ["rmcache"]]
    return o


def apply(op, cur):
    """cur: content name of trace.txt and other.txt; returns (cur, load result)"""
    got = None
    cache = ".trace.txt.cache"
    alt = "." + ALT + ".cache"
    if op[0] == "write":
        with open("trace.txt", "w") as f:
            f.write(W.CONTENTS[op[1]])
        cur = [op[1], cur[1]]
    elif op[0] == "rm":
        p = os.path.join(cache, op[1])
        if os.path.exists(p):
            os.unlink(p)
    elif op[0] == "rmcache":
        shutil.rmtree(cache, ignore_errors=True)
    elif op[0] == "adopt":       # the cache of other.txt ends up next to trace.txt
        if os.path.isdir(alt):
            shutil.rmtree(cache, ignore_errors=True)
            shutil.copytree(alt, cache)
    elif op[0] == "swap":        # mv other.txt <-> trace.txt, caches stay behind
        os.rename("trace.txt", "tmp")
        os.rename(ALT, "trace.txt")
        os.rename("tmp", ALT)
        cur = [cur[1], cur[0]]
    elif op[0] == "load":
        with T.cache(True):
            got = W.load(op[1])
    elif op[0] == "loadalt":
        with T.cache(True):
            got = W.load(op[1], ALT)
    for f in ("trace.txt", ALT):
        os.utime(f, (1000000000, 1000000000))
    return cur, got


def start():
    return {"trace.txt": W.CONTENTS["A"].encode(), ALT: W.CONTENTS["F"].encode()}


def step(case):
    (hist, cur, snap), op = case
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    want = None
    if op[0] == "load":
        want = W.reference(cur[0], op[1])
    elif op[0] == "loadalt":
        want = W.reference(cur[1], op[1])
    if snap is None:
        T.restore(root, start())
        os.chdir(root)
        try:
            c = ["A", "F"]
            with T.cache(True):
                W.load("12", ALT)
            for h in hist:
                c, _ = apply(h, c)
        finally:
            os.chdir(old)
    else:
        T.restore(root, snap)
    os.chdir(root)
    try:
        for f in ("trace.txt", ALT):
            os.utime(f, (1000000000, 1000000000))
        before = T.snapshot(root)
        new, got = apply(op, cur)
        res.step()
        if want is not None:
            res.run()
            d = T.diff(got, want)
            if d:
                res.fail("stale", "after %r, %r gives wrong data for content %s: %s" % (hist, op, cur, d))
                return res
            res.state(cur, op, [k for k in sorted(before) if "cache" in k])
        after = T.snapshot(root)
        for f, c in (("trace.txt", new[0]), (ALT, new[1])):
            if after.get(f) != W.CONTENTS[c].encode():
                res.fail("trace-modified", "%r changed %s" % (op, f))
                return res
        if op[0] == "load" and ".trace.txt.cache/metadata.json" in before:
            same = all(after.get(k) == v for k, v in before.items())
            res.tag("reused" if same else "invalidated")
        res.data = ([new, fs.canon_snapshot(after)], [hist + [op], new, after])
    finally:
        os.chdir(old)
    return res


PAD = "# comment, not an event, that makes the file larger than any buffer: %06d ........................................\n"


def big(case):
    """A trace of a given size is replaced by one that differs in one line only"""
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    n = case["size"] // len(PAD % 0)
    pads = [PAD % i for i in range(n)]
    pad, half = "".join(pads), ("".join(pads[:n // 2]), "".join(pads[n // 2:]))
    a = [l + "\n" for l in W.A]
    line = case["line"]
    b = list(a)
    b[line] = b[line].replace("a=1", "a=7").replace("5678", "5679").replace("a=2", "a=3")
    texts, want = {}, {}
    for k, ls in (("old", a), ("new", b)):
        texts[k] = T.HEADER + {"end": pad + "".join(ls), "start": "".join(ls) + pad, "middle": half[0] + "".join(ls) + half[1],
                               "spread": ls[0] + half[0] + ls[1] + half[1] + ls[2]}[case["where"]]
        T.restore(root, {"trace.txt": texts[k].encode()})
        os.chdir(root)
        try:
            with T.cache(False):
                want[k] = W.load("12")
        finally:
            os.chdir(old)
    assert want["old"] != want["new"]
    T.restore(root, {})
    os.chdir(root)
    try:
        for n, k in enumerate(case["hist"]):
            T.write("trace.txt", texts[k])
            os.utime("trace.txt", (1000000000, 1000000000))
            with T.cache(True):
                got = W.load("12")
            res.run()
            res.step()
            d = T.diff(got, want[k])
            if d:
                res.fail("stale", "%d bytes, line %d differs, %s, contents %r: wrong data: %s" % (
                    case["size"], line, case["where"], case["hist"][:n + 1], d))
                break
        res.tag("big")
        res.state("big", case["size"], line, case["where"], case["hist"])
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
    return res


def explore(ctx):
    sizes = [9000, 70000, 1100000] if ctx.quick else [5000, 9000, 20000, 70000, 140000, 300000, 1100000, 4300000, 17000000]
    cases = [{"big": True, "size": s, "line": l, "where": w, "hist": h} for s in reversed(sizes)
             for w in ("end", "start", "middle", "spread") for l in (0, 1, 2)
             for h in (["old", "new", "old"], ["old", "old", "new"])[:1 if s > 1e5 else 2]]
    ctx.run_cases(big, cases, nsamples=1)
    if not ctx.violations:
        history(ctx)


def history(ctx):
    def prep(_):
        res = Res()
        old = os.getcwd()
        root = os.path.join(old, "d")
        T.restore(root, start())
        os.chdir(root)
        try:
            with T.cache(True):
                W.load("12", ALT)
            res.data = T.snapshot(root)
        finally:
            os.chdir(old)
        return res
    [(c, r)] = ctx.pmap(prep, [0])
    if r.fails:
        ctx.absorb({"prep": 1}, r)
        return
    al = ops(ctx.tier)
    init = [([["A", "F"], fs.canon_snapshot(r.data)], [[], ["A", "F"], r.data])]
    info = ctx.explore(init, lambda node: al, step, max_depth=14, max_states=20000)
    ctx.notes["search"] = info
    ctx.notes["alphabet"] = al
    ctx.violations = [([[c[0][0], c[0][1], None], c[1]] if isinstance(c, (list, tuple)) else c, k, m)
                      for c, k, m in ctx.violations]
    ctx.sample({"ops": al[:6]})
    ctx.sample({"ops": [["load", "12"], ["write", "B"], ["load", "1"]]})


def replay(case):
    return big(case) if isinstance(case, dict) else step(case)
