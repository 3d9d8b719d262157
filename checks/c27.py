"""C27: EventPlot hands all intervals over, by name and lane.

Every data set of up to three names with up to N intervals each over lanes and
durations is plotted with all subsets of keys and kinds of lanes; the JSON in
the HTML of the real EventPlot is compared with the data.
"""
import copy
import itertools
import json
import re

from mc.core import Res
from trappy.plotter.EventPlot import EventPlot

PROPERTY = "C27"
LEVEL = "model_checking"
ASSUMPTIONS = ["intervals are lists of two times and a lane, as documented"]
MUST_SEE = ("no-duration", "not-a-key", "lanes", "numbered", "refused", "one-name-two-lanes", "order", "options", "no-events", "tie")
BOUNDS = ("all lists of up to 3 intervals over 3 lanes x 3 durations for one name, of up to 2 for two names and 1 for three; all subsets of keys; 4 kinds of lanes; 7 sets of options")

NAMES = ["task-1", "kworker/0:1-22", "b \"q\" \\ é-3"]
DOMAIN = (0.5, 99.25)


def parse(html):
    m = re.search(r"""EventPlot\.generate\(\s*(['"])(\w+)\1\s*,\s*(['"])([^'"]*)\3\s*,\s*(\{.*\})\s*\)""", html)
    div = [re.findall(r"""\bid=["'](\w+)["']""", d) for d in re.findall(r"<div\b[^>]*>", html) if "eventplot" in d]
    if not m or div != [[m.group(2)]]:
        raise ValueError("no plot in the page")
    return m.group(2), json.loads(m.group(5))


def check(res, data, keys, lanes, opts):
    kw = dict(opts)
    if lanes is None and "num_lanes" in opts:
        return
    labels = None
    if lanes == "num":
        kw["num_lanes"] = 3
        labels = [kw.get("lane_prefix", "Lane: ") + str(i) for i in range(3)]
    elif lanes is not None:
        kw["lanes"] = lanes
        labels = list(lanes)
        data = {k: [[a, b, "L%d" % l] for a, b, l in v] for k, v in data.items()}
    used = set(e[2] for v in data.values() for e in v)
    what = "data %r, keys %r, lanes %r, options %r" % (data, keys, lanes, opts)
    before, kbefore = copy.deepcopy(data), list(keys)
    res.run()
    res.step(sum(map(len, data.values())))
    try:
        html = EventPlot(data, keys, DOMAIN, **kw).html()
    except RuntimeError as e:
        if lanes in (None, "num") or used <= set(labels):
            if lanes is not None:
                res.fail("refused", "%s: %s" % (what, e))
            else:
                res.tag("refused")
            return
        res.tag("refused")
        return
    if lanes is None or (lanes != "num" and not used <= set(labels)):
        res.fail("accepted", what + ": an unknown lane was accepted")
        return
    name, got = parse(html)
    if data != before or list(keys) != kbefore:
        res.fail("source", what + ": the data given was altered to %r" % data)
        return
    number = {l: i for i, l in enumerate(labels)} if lanes != "num" else {i: i for i in range(3)}
    want = {}
    for k, v in data.items():
        want[k] = {}
        for a, b, l in v:
            want[k].setdefault(str(number[l]), []).append([a, b])
    if got["data"] != want:
        res.fail("data", "%s: got %r, expected %r" % (what, got["data"], want))
        return
    avg = {k: sum(b - a for a, b, _ in v) / (len(v) + 1.0) for k, v in data.items()}
    wantk = [k for k in keys if avg.get(k)]
    if sorted(got["keys"]) != sorted(wantk):
        res.fail("keys", "%s: keys %r, expected %r" % (what, got["keys"], wantk))
        return
    vals = [avg[k] for k in got["keys"]]
    if vals != sorted(vals, reverse=True):
        res.fail("order", "%s: keys %r have average durations %r" % (what, got["keys"], vals))
        return
    if got["lanes"] != [{"id": i, "label": l} for i, l in enumerate(labels)]:
        res.fail("lanes", "%s: lanes %r" % (what, got["lanes"]))
        return
    if got["xDomain"] != list(DOMAIN) or got["showSummary"] != opts.get("summary", True) or got["stride"] != opts.get("stride", False) or got["colorMap"] != opts.get("color_map"):
        res.fail("options", "%s: %r" % (what, {k: got[k] for k in ("xDomain", "showSummary", "stride", "colorMap")}))
        return
    res.state(want, wantk, labels)
    tags = [("no-duration", any(v and not avg[k] for k, v in data.items())), ("not-a-key", any(avg[k] and k not in keys for k in data)), ("lanes", lanes != "num"), ("numbered", lanes == "num"),
            ("one-name-two-lanes", any(len(v) > 1 for v in want.values())), ("order", len(set(vals)) > 1), ("tie", len(set(vals)) < len(vals)), ("options", opts), ("no-events", not want)]
    res.tag(*[t for t, on in tags if on])


def run_case(case):
    res = Res()
    for lists in case["lists"]:
        data = {}
        for n, l in zip(NAMES, lists):
            data[n] = []
            t = 1.0
            for lane, dur in l:
                data[n].append([t, t + dur, lane])
                t += dur + 0.5
        for keys in [list(c) for k in range(len(lists) + 1) for c in itertools.combinations(NAMES[:len(lists)], k)] + [set(NAMES)]:
            for lanes in case["lanes"]:
                for opts in case["opts"]:
                    check(res, data, keys, lanes, opts)
                    if res.fails:
                        return res
    return res


LANES = [None, "num", ["L0", "L1", "L2"], ["L2", "L0"], ["L1", "L2", "L0", "L9"]]
OPTS = [{}, {"summary": False}, {"stride": True}, {"lane_prefix": "CPU :"}, {"color_map": {"task-1": "#FF0000"}}, {"stride": True, "summary": False, "color_map": {}}, {"num_lanes": 2}]


def explore(ctx):
    ev = list(itertools.product(range(3), (0.0, 1e-6, 2.5)))
    upto = lambda n: [s for k in range(n + 1) for s in itertools.product(ev, repeat=k)]
    n1, n2, n3 = (3, 1, 1) if ctx.quick else (3, 2, 1)
    lists = [()] + [(a,) for a in upto(n1)] + list(itertools.product(upto(2), upto(n2))) + list(itertools.product(upto(n3), repeat=3))
    cases = []
    for i in range(0, len(lists), 20):
        cases.append({"lists": lists[i:i + 20], "lanes": LANES[1:4], "opts": OPTS[:1]})
    few = lists[::37]
    for i in range(0, len(few), 4):
        cases.append({"lists": few[i:i + 4], "lanes": LANES, "opts": OPTS})
    ctx.run_cases(run_case, cases, describe=lambda c: dict(c, lists=c["lists"][:3]))
