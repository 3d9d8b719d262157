"""C38: the scripts that the plotters' pages need are installed whole.

The real installer and the real plotters run against a scratch Jupyter data
directory and a stand-in for the network (an opener installed in urllib).

histories   every sequence of installs with every kind of network failure,
            kills before and inside every modification of the directory, file
            system errors and leftovers; after every action each resource
            that is in place is whole, and an install with a working network
            puts all of them there
schedules   two installs, and an install while a page is being read, in all
            interleavings of their file operations up to a preemption bound
pages       what the pages of the plotters refer to is what is installed
"""
import errno
import http.client
import io
import os
import re
import urllib.error
import urllib.request
import urllib.response
from email.message import Message

from mc import fs
from mc import traces as T
from mc.core import Res, HarnessError, REPO

os.environ.setdefault("MPLBACKEND", "Agg")
from trappy.plotter import IPythonConf as I  # noqa: E402

SHIM = True
PROPERTY = "C38"
LEVEL = "model_checking"
ASSUMPTIONS = ["the network is a stand-in below urllib's opener; what the web sites really serve is not looked at",
               "processes interact only through the files of the data directory; each libc call is atomic"]
MUST_SEE = ("installed", "offline-ok", "offline-fails", "net:short", "net:reset", "net:404", "kill", "torn", "fail",
            "old-local", "two-installs", "reader", "page", "preempted")
BOUNDS = ("all histories of up to 2 (thorough 3) actions over 2 modules x 6 network behaviours at each resource, kills at every "
          "modification (and inside writes), 2 errnos at every operation; 2 processes with 1 (thorough 2) preemptions")

MODULES = ("ILinePlot", "EventPlot")
URLS = {m: [r for r in I.IPLOT_RESOURCES[m] if r.startswith("http")] for m in MODULES}
LOCAL = {m: [r for r in I.IPLOT_RESOURCES[m] if not r.startswith("http")] for m in MODULES}
BASE = "nbextensions/plotter_scripts"
OLD = b"// an older version of this script\n"


def body(url):
    return ("/* %s */ " % url).encode() + b"x" * 9000 + b";end\n"


def source(rel):
    with open(os.path.join(REPO, "trappy", "plotter", rel), "rb") as f:
        return f.read()


FILES = {}
for _m in MODULES:
    for _r in I.IPLOT_RESOURCES[_m]:
        FILES["%s/%s/%s" % (BASE, _m, _r.split("/")[-1])] = (_m, _r)


class Body(io.BytesIO):
    def __init__(self, data, how):
        io.BytesIO.__init__(self, data)
        self.how = how
        self.left = 1

    def read(self, *a):
        if self.how in ("reset", "incomplete"):
            if not self.left:
                if self.how == "reset":
                    raise ConnectionResetError(errno.ECONNRESET, "reset by peer")
                raise http.client.IncompleteRead(b"")
            self.left -= 1
            return io.BytesIO.read(self, 5000)
        return io.BytesIO.read(self, *a)


class Net(urllib.request.BaseHandler):
    """{url: behaviour}; the default is for the others."""

    def __init__(self, default="ok", special=None):
        self.default = default
        self.special = special or {}
        self.asked = []

    def default_open(self, req):
        url = req.full_url
        self.asked.append(url)
        how = self.special.get(url, self.default)
        if how == "down":
            raise urllib.error.URLError("no network")
        if how == "404":
            raise urllib.error.HTTPError(url, 404, "Not Found", Message(), io.BytesIO(b"<html>no</html>"))
        data = body(url)
        head = Message()
        head["Content-Length"] = str(len(data))
        if how == "short":
            data = data[:5000]
        return urllib.response.addinfourl(Body(data, how), head, url, 200)


def install(module, net):
    op = urllib.request.OpenerDirector()
    op.add_handler(net)
    urllib.request.install_opener(op)
    try:
        I.iplot_install(module)
    finally:
        urllib.request.install_opener(None)
    return sorted(net.asked)


def enter(root):
    os.environ["JUPYTER_DATA_DIR"] = root
    os.environ["HOME"] = os.path.join(root, "home")


def whole(snap):
    """Names of resources that are in place and not whole."""
    bad = []
    for f, (m, r) in FILES.items():
        if f in snap:
            good = [body(r)] if r.startswith("http") else [source(r), OLD]
            if snap[f] not in good:
                bad.append("%s (%d bytes)" % (f, len(snap[f])))
    return bad


def missing(snap, module, fresh=True):
    out = []
    for f, (m, r) in FILES.items():
        if m == module:
            want = body(r) if r.startswith("http") else source(r)
            if snap.get(f) != want:
                out.append(f)
    return out


def litter(snap):
    return sorted(f for f in snap if snap[f] is not None and f not in FILES)


def canon(snap):
    return [[k, "-" if v is None else ("old" if v == OLD else "whole" if k in FILES else "litter")]
            for k, v in snap.items() if k in FILES or v is None] + [["litter", bool(litter(snap))]]


def step(case):
    (snap, hist), op = case
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    T.restore(root, snap)
    enter(root)
    what = op[0]
    how = "after %s, %s: " % (hist, list(op))
    end = None
    if what == "install":
        module, default, special = op[1], op[2], dict([op[3]] if op[3] else [])
        end, val, _ = fs.run_child(lambda: install(module, Net(default, special)), prefix=root)
    elif what in ("kill", "fail"):
        module = op[1]
        mode = fs.KILL if what == "kill" else fs.FAIL
        kw = dict(partial=op[3]) if what == "kill" else dict(err=op[3], persist=op[4])
        end, val, ops = fs.run_child(lambda: install(module, Net()), mode, prefix=root, k=op[2], **kw)
        if what == "kill" and end != "killed" or len(ops) <= op[2]:
            return res
        if what == "kill" and op[3] >= 0 and ops[-1][0] != "write":
            return res
        res.tag(what if what == "fail" or op[3] < 0 else "torn")
    elif what == "old":
        f = "%s/%s/%s" % (BASE, op[1], LOCAL[op[1]][0].split("/")[-1])
        if f not in snap:
            return res
        with open(os.path.join(root, f), "wb") as fh:
            fh.write(OLD)
        res.tag("old-local")
    res.run()
    res.step()
    after = T.snapshot(root)
    bad = whole(after)
    if bad:
        res.fail("torn-resource", how + "in place but not whole: %s" % bad)
        return res
    gone = [f for f in FILES if f in snap and f not in after]
    if gone:
        res.fail("lost", how + "removed %s" % gone)
    if what == "install":
        need = [u for u in URLS[module] if body(u) not in snap.values()]
        broken = [u for u in need if special.get(u, default) != "ok"]
        if not broken:
            if end != "ok":
                res.fail("install-fails", how + "ended with %s" % val)
                return res
            if missing(after, module):
                res.fail("not-installed", how + "missing or old: %s" % missing(after, module))
            if val != sorted(need):
                res.fail("downloads", how + "received %s, needed %s" % (val, need))
            res.tag("installed" if default == "ok" and not special else "offline-ok")
        else:
            if end != "exc":
                res.fail("silent", how + "succeeded without %s" % broken)
                return res
            if not val.startswith("ImportError") and "incomplete" not in [default] + list(special.values()):
                res.fail("other-error", how + "ended with %s" % val)
            res.tag("offline-fails", *["net:" + h for h in [default] + list(special.values())])
        if litter(after) != litter(snap):
            res.fail("litter", how + "left %s" % litter(after))
    if what == "fail":
        if end == "ok" and missing(after, module):
            res.fail("silent", how + "succeeded, missing: %s" % missing(after, module))
    if not res.fails:
        res.data = ([canon(after)], (after, hist + [list(op)]))
    return res


def ops_of(node, quick):
    snap, hist = node
    out = []
    for m in MODULES:
        out.append(("install", m, "ok", None))
        out.append(("install", m, "down", None))
        for u in URLS[m]:
            for h in ("down", "short", "reset", "404", "incomplete"):
                out.append(("install", m, "ok", (u, h)))
        out.append(("old", m))
    deep = len(hist) > 0
    if not deep or not quick:
        for m in MODULES:
            out += [("kill", m, k, p) for k in range(26) for p in ((-1, 10) if deep else (-1, 0, 1, 4000))]
            out += [("fail", m, k, e, p) for k in range(50) for e, p in
                    (((errno.ENOSPC, 1), (errno.EACCES, 0)) if not deep else ((errno.ENOSPC, 0),))]
    return out


# -- schedules

def read_pages(root, module):
    """A page that is opened: reads what is in place."""
    out = {}
    for f, (m, r) in sorted(FILES.items()):
        if m == module and not r.startswith("http"):
            with open(os.path.join(root, f), "rb", buffering=0) as fh:
                data = b""
                while True:
                    b = fh.read(1 << 20)
                    if not b:
                        break
                    data += b
            out[f] = data
    return out


SCEN = [
    ("cold-same", [], ("I", "ILinePlot"), ("I", "ILinePlot")),
    ("cold-other", [], ("I", "ILinePlot"), ("I", "EventPlot")),
    ("cold-same-event", [], ("I", "EventPlot"), ("I", "EventPlot")),
    ("one-failed", [("install", "EventPlot", "ok", (URLS["EventPlot"][-1], "short"))], ("I", "EventPlot"), ("I", "EventPlot")),
    ("warm-read", [("install", "EventPlot", "ok", None)], ("I", "EventPlot"), ("R", "EventPlot")),
    ("old-read", [("install", "ILinePlot", "ok", None), ("old", "ILinePlot")], ("I", "ILinePlot"), ("R", "ILinePlot")),
]


def schedule(case):
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    scen = [s for s in SCEN if s[0] == case["scen"]][0]

    def make():
        T.restore(root, case["snap"])
        enter(root)
        fns = []
        for kind, module in scen[2:]:
            if kind == "I":
                fns.append(lambda module=module: install(module, Net()) and None)
            else:
                fns.append(lambda module=module: read_pages(root, module))
        return fns, root, None
    results, points, logs = fs.run_schedule(make, [tuple(c) for c in case["choices"]])
    after = T.snapshot(root)
    how = "%s, switches %s: " % (case["scen"], case["choices"])
    for i, (kind, module) in enumerate(scen[2:]):
        end, val = results[i][:2]
        if end != "ok":
            res.fail("schedule-fails", how + "%s %s ended with %s" % (kind, module, val))
        elif kind == "R":
            res.tag("reader")
            for f, data in val.items():
                if data not in (OLD, source(FILES[f][1])):
                    res.fail("half-read", how + "%s was seen with %d bytes" % (f, len(data)))
        elif missing(after, module):
            res.fail("not-installed", how + "missing or torn: %s" % missing(after, module))
    if litter(after):
        res.fail("litter", how + "left %s" % litter(after))
    res.tag("two-installs")
    if case["choices"]:
        res.tag("preempted")
    res.state(case["scen"], [(l[0], l[3]) for l in sum(logs, [])][:0], str(canon(after)), len(points))
    res.run()
    res.step(len(points))
    res.data = points
    return res


# -- pages

NAMES = {"EventPlot": ("EventPlot", "js/EventPlot.js"), "d3-tip": ("EventPlot", I.D3_TIP_URL),
         "d3-plotter": ("EventPlot", I.D3_PLOTTER_URL), "ILinePlot": ("ILinePlot", "js/ILinePlot.js"),
         "dygraph": ("ILinePlot", I.DYGRAPH_COMBINED_URL), "dygraph-sync": ("ILinePlot", I.DYGRAPH_SYNC_URL),
         "underscore": ("ILinePlot", I.UNDERSCORE_URL)}


def page(case):
    import pandas as pd
    import trappy
    import IPython.display
    from IPython.core.interactiveshell import InteractiveShell
    from IPython.utils.capture import capture_output
    res = Res()
    old = os.getcwd()
    root = os.path.join(old, "d")
    T.restore(root, {})
    enter(root)
    InteractiveShell.instance()
    op = urllib.request.OpenerDirector()
    net = Net()
    op.add_handler(net)
    urllib.request.install_opener(op)
    try:
        with capture_output() as c:
            if case["plot"] == "EventPlot":
                trappy.EventPlot({"a": [[0, 1, 0]]}, ["a"], [0, 2], num_lanes=1).view()
            else:
                df = pd.DataFrame({"x": [1., 2., 3.]}, index=[0., 1., 2.])
                trappy.ILinePlot(df, column=["x"], **case["kw"]).view()
    finally:
        urllib.request.install_opener(None)
    res.run()
    html = "".join(o.data.get("text/html", "") for o in c.outputs)
    found = re.findall(r"""['"]([\w-]+)['"]:\s*['"](/nbextensions/[^'"]*)['"]""", html)
    want = sorted(n for n in NAMES if NAMES[n][0] == case["plot"])
    if not found:
        res.fail("page-modules", "%s: no module is located in the page" % (case,))
        return res
    res.equal(sorted(set(n for n, _ in found)), want, "page-modules", "%s: modules located" % (case,))
    for name, path in found:
        res.step()
        f = os.path.join(root, path.lstrip("/") + ".js")
        if not os.path.isfile(f):
            res.fail("page-path", "%s: %s of the page is not installed (%s)" % (case, name, path))
            continue
        with open(f, "rb") as fh:
            data = fh.read()
        r = NAMES[name][1] if name in NAMES else None
        if r and data != (body(r) if r.startswith("http") else source(r)):
            res.fail("page-content", "%s: %s is another script (%s)" % (case, name, path))
        res.state(name, path)
    if case["plot"] == "EventPlot":
        js = source("js/EventPlot.js").decode()
        img = re.findall(r"plotter_scripts/[\w./]+\.(?:jpg|png)", js)
        for i in img:
            if not os.path.isfile(os.path.join(root, "nbextensions", i)):
                res.fail("page-path", "picture %s is not installed" % i)
    res.tag("page")
    return res


def run_case(case):
    return {"page": page}[case["fam"]](case)


def strip(snap):
    return {k: v.decode("latin1") if v is not None else None for k, v in snap.items()}


def explore(ctx):
    quick = ctx.quick
    for case, res in ctx.pmap(page, [{"fam": "page", "plot": "EventPlot", "kw": {}}] +
                              [{"fam": "page", "plot": "ILinePlot", "kw": k} for k in ({}, {"concat": True}, {"sync_zoom": True, "group": "g"})]):
        ctx.absorb(case, res)
    seen = set()
    frontier = [({}, [])]
    roots = {}
    for d in range(2 if quick else 3):
        work = [(n, op) for n in frontier for op in ops_of(n, quick or d > 1)]
        nxt = []
        for case, res in ctx.pmap(step, work):
            ctx.absorb({"node": [strip(case[0][0]), case[0][1]], "op": list(case[1])}, res)
            if res.data is None:
                continue
            c, node = res.data
            key = repr(c)
            if key not in seen:
                seen.add(key)
                ctx.states.add(T_h(key))
                nxt.append(node)
        ctx.notes["directories_depth%d" % (d + 1)] = len(nxt)
        if ctx.violations:
            return
        frontier = nxt
    ctx.sample({"history": frontier[0][1] if frontier else []})
    # from every directory reached at last, a working network is enough
    last = [(n, ("install", m, "ok", None)) for n in frontier for m in MODULES]
    for case, res in ctx.pmap(step, last):
        ctx.absorb({"node": [strip(case[0][0]), case[0][1]], "op": list(case[1])}, res)
    if ctx.violations:
        return
    bound = 1 if quick else 2
    for name, hist, _, _ in SCEN:
        snap = {}
        for op in hist:
            r = step(((snap, []), op))
            if r.data is None:
                raise HarnessError("cannot build %s: %s" % (name, r.fails))
            snap = r.data[1][0]
        todo = [[]]
        n = 0
        while todo:
            nxt = []
            for case, res in ctx.pmap(schedule, [{"fam": "schedule", "scen": name, "snap": snap, "choices": c} for c in todo]):
                ctx.absorb(dict(case, snap=strip(snap)), res)
                n += 1
                if res.data is not None and not res.fails:
                    nxt += fs.extend(case["choices"], res.data, bound)
            if ctx.violations:
                return
            todo = nxt
        ctx.notes["schedules_" + name] = n


def T_h(key):
    from mc.core import h64
    return h64(key)


def replay(case):
    un = lambda s: {k: v.encode("latin1") if v is not None else None for k, v in s.items()}
    if "node" in case:
        op = case["op"]
        if len(op) > 3 and isinstance(op[3], list):
            op[3] = tuple(op[3])
        return step(((un(case["node"][0]), case["node"][1]), tuple(op)))
    if case["fam"] == "schedule":
        return schedule(dict(case, snap=un(case["snap"])))
    return page(case)
