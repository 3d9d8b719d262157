"""C32: exported notebooks keep everything but the marked lines.

lines      every text of up to N lines over plain and marked lines, filtered by
           the real preprocessor
notebooks  every sequence of up to three notebooks of cells of every kind
pages      every sequence of real plots exported to HTML by the real exporter,
           twice by the same exporter
"""
import copy
import itertools
import os
import re
import shutil

import nbformat
import trappy
from IPython.core.interactiveshell import InteractiveShell
from IPython.utils.capture import capture_output
from mc.core import Res
from trappy.nbexport import HTML
from trappy.plotter.EventPlot import EventPlot
from trappy.nbexport.exporter import TrappyPlotterPreprocessor

PROPERTY = "C32"
LEVEL = "model_checking"
ASSUMPTIONS = ["a line has one mark at most"]
MUST_SEE = ("plain", "removed-line", "removed-block", "unclosed", "stray-stop", "inlined", "inlined-once", "library", "library-once", "no-newline", "inlined-marks", "in-block", "other-cells", "second-notebook",
            "page", "two-plots", "again")
BOUNDS = ("all texts of up to 4 (thorough 5) lines out of 14 kinds; all pairs of texts of up to 2 lines as cells of one or two notebooks; all lists of 3 of 7 kinds of cells; all sequences of up to "
          "3 pages of ILinePlot and EventPlot, exported twice")

LINES = ["plain", "", "  indented /* TRAPPY_PUBLISH */ \t", "x = 1; /* TRAPPY_PUBLISH_REMOVE_LINE */", "  /* TRAPPY_PUBLISH_REMOVE_START */", "/* TRAPPY_PUBLISH_REMOVE_STOP */ end",
         'IMPORT:a.js', 'IMPORT:sub/b.js', 'IMPORT:marks.js', '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "http://a.b/c.js" -->', 'IMPORT:a.js', '  <!-- TRAPPY_PUBLISH_SOURCE_LIB = "http://a.b/d{0}%s" -->',
         'IMPORT:sub/a.js', '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "http://a.b/c.js?v=2#x" -->']
FILES = {"a.js": "var a = 1;\n\n  /* c */\n", "sub/b.js": "one\ntwo", "sub/a.js": "other a\n", "marks.js": "m1 /* TRAPPY_PUBLISH_REMOVE_LINE */\nm2\n"}
SRC = '<script src="%s" type="text/javascript" charset="utf-8"></script>'


class Area(object):
    """The files that can be imported, relative to the package."""

    def __init__(self):
        self.base = os.path.abspath("exp%d" % os.getpid())
        shutil.rmtree(self.base, ignore_errors=True)
        for name, text in FILES.items():
            path = os.path.join(self.base, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(text)
        self.rel = os.path.relpath(self.base, os.path.dirname(os.path.realpath(trappy.__file__)))

    def line(self, l):
        if l.startswith("IMPORT:"):
            return '  /* TRAPPY_PUBLISH_IMPORT = "%s" */' % os.path.join(self.rel, l[7:])
        return l

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def want_filtered(lines, seen, r):
    out, block = [], False
    for l in lines:
        if "REMOVE_START" in l:
            block = True
        elif "REMOVE_STOP" in l:
            r.tag("removed-block" if block else "stray-stop")
            block = False
        elif block:
            if l.startswith("IMPORT") or "SOURCE_LIB" in l:
                r.tag("in-block")
        elif "REMOVE_LINE" in l:
            r.tag("removed-line")
        elif l.startswith("IMPORT:"):
            name = l[7:]
            if name in seen:
                r.tag("inlined-once")
            else:
                seen.add(name)
                text = FILES[name]
                out += (text[:-1] if text.endswith("\n") else text).split("\n")
                r.tag("inlined")
                if name == "sub/b.js":
                    r.tag("no-newline")
                if name == "marks.js":
                    r.tag("inlined-marks")
        elif "SOURCE_LIB" in l:
            url = l.split('"')[1]
            if url in seen:
                r.tag("library-once")
            else:
                seen.add(url)
                out.append(SRC % url)
                r.tag("library")
        else:
            out.append(l)
            r.tag("plain")
    if block:
        r.tag("unclosed")
    return out


def code(html):
    c = nbformat.v4.new_code_cell("1")
    c.outputs = [nbformat.v4.new_output("display_data", {"text/html": html})]
    return c


def htmls(nb):
    return [[dict(o.get("data", {})) if o.output_type != "stream" else o.text for o in c.get("outputs", [])] for c in nb.cells]


def lines(case):
    r = Res()
    area = Area()
    try:
        for seq in case["seqs"]:
            text = [LINES[i] for i in seq]
            want = want_filtered(text, set(), r)
            nb = nbformat.v4.new_notebook()
            nb.cells = [code("\n".join(map(area.line, text)))]
            nb, _ = TrappyPlotterPreprocessor().preprocess(nb, {})
            got = htmls(nb)
            r.state(want)
            r.run()
            r.step(len(seq))
            if not r.equal(got, [[{"text/html": "\n".join(want)}]], "filtered", "lines %r" % (text,)):
                break
    finally:
        area.close()
    return r


def kinds(area):
    """Cells: (cell, lines of its display data or None)."""
    a = [LINES[6], LINES[3], LINES[9], "x"]
    text = "\n".join(map(area.line, a))
    two = code(text)
    two.outputs.append(nbformat.v4.new_output("display_data", {"text/html": area.line(LINES[7]), "text/plain": text}))
    noh = nbformat.v4.new_code_cell("1")
    noh.outputs = [nbformat.v4.new_output("display_data", {"text/plain": text}), nbformat.v4.new_output("stream", name="stdout", text=text)]
    return [(code(text), [a]), (two, [a, [LINES[7]]]), (noh, None), (nbformat.v4.new_markdown_cell(text), None), (nbformat.v4.new_code_cell(text), None), (nbformat.v4.new_raw_cell(text), None),
            (code("y"), [["y"]])]


def expected(nb, texts, r):
    out, seen = [], set()
    for cell, text in zip(htmls(nb), texts):
        if text is None:
            out.append(cell)
            r.tag("other-cells")
        else:
            out.append([dict(d, **{"text/html": "\n".join(want_filtered(t, seen, r))}) for d, t in zip(cell, text)])
    return out


def notebooks(case):
    r = Res()
    area = Area()
    try:
        if case["kind"] == "cells":
            pool = kinds(area)
        for seq in case["seqs"]:
            nbs, texts = [], []
            if case["kind"] == "cells":
                chosen = [[pool[i] for i in seq]]
            else:
                chosen = [[(code("\n".join(area.line(LINES[i]) for i in t)), [[LINES[i] for i in t]]) for t in part] for part in seq]
            pre = TrappyPlotterPreprocessor()
            for k, cells in enumerate(chosen):
                nb = nbformat.v4.new_notebook()
                nb.cells = [copy.deepcopy(c) for c, _ in cells]
                sources = [c.source for c in nb.cells]
                want = expected(nb, [t for _, t in cells], r)
                nb, _ = pre.preprocess(nb, {})
                r.state(k, want)
                r.run()
                r.step(len(cells))
                r.equal(htmls(nb), want, "notebook", "notebook %d of %r" % (k, seq))
                r.equal([c.source for c in nb.cells], sources, "source", "%r" % (seq,))
                if k:
                    r.tag("second-notebook")
            if r.fails:
                break
    finally:
        area.close()
    return r


def plot(kind, n):
    InteractiveShell.instance()
    if kind == "E":
        p = EventPlot({"task%d" % n: [[0, n + 1, 0], [n + 2, n + 3.5, 1]]}, ["task%d" % n], [0, n + 4], num_lanes=2)
        return [p.html()], '"task%d"' % n
    else:
        import pandas as pd
        tr = trappy.BareTrace(name="run%d" % n)
        tr.add_parsed_event("ev", pd.DataFrame({"va": [4.25 + n, 5.0]}, index=[0.5, 1.5]))
        p = trappy.ILinePlot(tr, signals=["ev:va"])
        mark = "%s" % (4.25 + n)
    with capture_output() as c:
        p.view(test=True)
    return [o.data["text/html"] for o in c.outputs if "text/html" in o.data], mark


JS = {"E": "EventPlot", "L": "ILinePlot"}


def pages(case):
    r = Res()
    nb = nbformat.v4.new_notebook()
    marks = []
    for n, kind in enumerate(case["plots"]):
        html, mark = plot(kind, n)
        marks.append(mark)
        nb.cells.append(code(html[0]))
        nb.cells[-1].outputs += [nbformat.v4.new_output("display_data", {"text/html": h}) for h in html[1:]]
    exp = HTML()
    for again in range(2):
        out, _ = exp.from_notebook_node(nb)
        what = "page %d of plots %s" % (again, case["plots"])
        r.run()
        r.step(len(case["plots"]))
        r.state(case["plots"], again)
        r.equal(out.count("TRAPPY_PUBLISH"), 0, "marks", what)
        for kind, name in JS.items():
            with open(os.path.join(os.path.dirname(trappy.__file__), "plotter", "js", name + ".js")) as f:
                source = f.read().rstrip("\n")
            used = case["plots"].count(kind)
            r.equal(out.count(source), min(used, 1), "source", "copies of %s.js on %s" % (name, what))
            r.equal(out.count(name + ".generate("), used, "calls", "%s plots on %s" % (name, what))
            if used and source in out:
                r.expect(out.index(source) < out.index(name + ".generate("), "order", "%s.js comes after its use on %s" % (name, what))
        for m in marks:
            r.expect(m in out, "data", "%s is missing on %s" % (m, what))
        # what loads modules from the notebook's server is removed
        r.equal(out.count('"EventPlot"], function') + out.count('"ILinePlot"], function'), 0, "server", what)
        libs = [re.search(r'src="([^"]*)"', t).group(1) for t in re.findall(r"<script[^>]*>", out) if "src=" in t and 'charset="utf-8"' in t]
        r.equal(len(libs), len(set(libs)), "libraries", "libraries %r on %s" % (libs, what))
        want = set()
        for cell in nb.cells:
            for o in cell.outputs:
                want |= set(l.split('"')[1] for l in o.data["text/html"].split("\n") if "TRAPPY_PUBLISH_SOURCE_LIB" in l)
        r.equal(set(libs), want, "libraries", what)
        if again:
            r.tag("again")
    r.tag("page")
    if len(case["plots"]) > 1:
        r.tag("two-plots")
    return r


def run_case(case):
    return {"lines": lines, "notebooks": notebooks, "pages": pages}[case["what"]](case)


def explore(ctx):
    cases = []
    for n in range(1, 4):
        cases += [{"what": "pages", "plots": "".join(p)} for p in itertools.product("EL", repeat=n)]
    seqs = list(itertools.product(range(7), repeat=3))
    cases += [{"what": "notebooks", "kind": "cells", "seqs": seqs[i:i + 50]} for i in range(0, len(seqs), 50)]
    texts = [t for n in (1, 2) for t in itertools.product(range(3, 14), repeat=n)]
    for t in texts:
        cases.append({"what": "notebooks", "kind": "two", "seqs": [[[t, u]] for u in texts] + [[[t], [u]] for u in texts]})
    for n in range(1, 5 if ctx.quick else 6):
        seqs = list(itertools.product([i for i in range(len(LINES)) if n < 3 or i != 10], repeat=n))
        cases += [{"what": "lines", "seqs": seqs[i:i + 400]} for i in range(0, len(seqs), 400)]
    ctx.run_cases(run_case, cases)
