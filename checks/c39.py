"""C39: a published notebook needs no local script, and is the same otherwise.

Every notebook of up to N cells over all kinds of cells (with the real pages of
the plotters as outputs) is published by the real script, with every way to
name the result; the scripts located in the published pages, everything else
in the notebook, and its signature are compared with what they have to be.
"""
import copy
import importlib.util
import itertools
import json
import logging
import os
import re
import subprocess
import sys

from mc import traces as T
from mc.core import Res, REPO

os.environ.setdefault("MPLBACKEND", "Agg")
from trappy.plotter import IPythonConf as I  # noqa: E402

PROPERTY = "C39"
LEVEL = "model_checking"
ASSUMPTIONS = ["require.js appends .js to the path of a module", "where the plotters' own scripts are published is not looked at"]
MUST_SEE = ("event", "iline", "text", "named", "unnamed", "locale", "signed", "both")
BOUNDS = ("all notebooks of up to 3 (thorough 4) cells out of 7 kinds; 6 ways to name the result; 3 locales")
SCRIPT = os.path.join(REPO, "scripts", "publish_interactive_plots.py")
LOCAL = re.compile(r"/nbextensions/plotter_scripts/[\w./-]+")
LIBS = {"d3-tip": I.D3_TIP_URL, "d3-plotter": I.D3_PLOTTER_URL, "dygraph": I.DYGRAPH_COMBINED_URL,
        "dygraph-sync": I.DYGRAPH_SYNC_URL, "underscore": I.UNDERSCORE_URL}
OWN = ("EventPlot", "ILinePlot")
_pages = {}


def pages():
    if not _pages:
        import pandas as pd
        import trappy
        from IPython.core.interactiveshell import InteractiveShell
        from IPython.utils.capture import capture_output
        InteractiveShell.instance()
        _pages["event"] = trappy.EventPlot({"a": [[0, 1, 0]]}, ["a"], [0, 2], num_lanes=1).html()
        with capture_output() as c:
            trappy.ILinePlot(pd.DataFrame({"x": [1., 2.]}, index=[0., 1.]), column=["x"]).view(test=True)
        _pages["iline"] = "".join(o.data.get("text/html", "") for o in c.outputs)
    return _pages


def cell(kind):
    def code(outputs, source="trappy.plot()\n"):
        return {"cell_type": "code", "execution_count": 1, "metadata": {}, "outputs": outputs, "source": [source, "x = 'µ→\\n'"]}

    def html(t):
        return {"data": {"text/html": t.splitlines(True), "text/plain": ["<IPython.core.display.HTML object>"]},
                "metadata": {}, "output_type": "display_data"}
    p = pages()
    return {
        "event": lambda: code([html(p["event"])]),
        "iline": lambda: code([html(p["iline"])]),
        "both": lambda: code([html(p["iline"]), html(p["event"])]),
        "text": lambda: {"cell_type": "markdown", "metadata": {}, "source": ["# Überblick\n", "plotter_scripts, d3.min, EventPlot/EventPlot é \u2028"]},
        "stream": lambda: code([{"name": "stdout", "output_type": "stream", "text": ["/nbextensions is nothing\n", "日本\n"]}]),
        "png": lambda: code([{"data": {"image/png": "iVBORw0KGgo="}, "metadata": {"w": 1.5}, "output_type": "display_data"}]),
        "raw": lambda: {"cell_type": "raw", "metadata": {}, "source": []},
    }[kind]()


KINDS = ["event", "iline", "both", "text", "stream", "png", "raw"]


def notebook(kinds):
    return {"cells": [cell(k) for k in kinds], "metadata": {"kernelspec": {"display_name": "Python 3", "language": "python", "name": "python3"}},
            "nbformat": 4, "nbformat_minor": 0}


def script():
    spec = importlib.util.spec_from_file_location("publish_interactive_plots", SCRIPT)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def texts(x, path=""):
    """All strings, joined lines first, with where they are."""
    if isinstance(x, str):
        yield path, x
    elif isinstance(x, list) and x and all(isinstance(i, str) for i in x):
        yield path, "".join(x)
    elif isinstance(x, list):
        yield path + "#", str(len(x))
        for i, v in enumerate(x):
            for t in texts(v, "%s/%d" % (path, i)):
                yield t
    elif isinstance(x, dict):
        for k in sorted(x):
            for t in texts(x[k], "%s/%s" % (path, k)):
                yield t
    else:
        yield path, repr(x)


def verify(res, src, out, how):
    want = list(texts(src))
    got = list(texts(out))
    if [p for p, _ in want] != [p for p, _ in got]:
        res.fail("structure", how + "the cells of the published notebook are not those of the original")
        return
    for (path, a), (_, b) in zip(want, got):
        res.step()
        if LOCAL.search(b):
            res.fail("local-path", how + "%s still refers to %s" % (path, LOCAL.search(b).group()))
            return
        parts = LOCAL.split(a)
        m = re.match("^" + r"([^'\"]+?)".join(re.escape(p) for p in parts) + r"\Z", b, re.S)
        if not m:
            res.fail("text", how + "%s differs in more than the paths of scripts" % path)
            return
        if len(parts) == 1:
            continue
        names = re.findall(r"""['"]([\w-]+)['"]:\s*['"]/nbextensions/plotter_scripts/[\w./-]+['"]""", a)
        if len(names) != len(parts) - 1:
            res.fail("modules", how + "%s: %d paths, %d modules" % (path, len(parts) - 1, len(names)))
            return
        for name, url in zip(names, m.groups()):
            if name in LIBS:
                res.equal(url + ".js", LIBS[name], "library", how + "where require.js gets " + name)
            elif not re.match("https?://", url):
                res.fail("own", how + "%s is loaded from %s" % (name, url))
            res.state(name, url)


def publish(argv, cwd, env=None):
    """Run the script like the command line does."""
    if env is not None:
        e = dict(os.environ, JUPYTER_DATA_DIR=os.path.join(cwd, "jd"), JUPYTER_CONFIG_DIR=os.path.join(cwd, "jc"), HOME=cwd,
                 PYTHONPATH=REPO)
        e.pop("LD_PRELOAD", None)
        e.update(env)
        p = subprocess.run([sys.executable, "-B", "-W", "ignore", SCRIPT] + argv, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=100)
        return None if p.returncode == 0 else p.stdout.decode("utf-8", "replace")[-300:]
    old = os.getcwd(), sys.argv, sys.stdout
    os.chdir(cwd)
    os.environ["JUPYTER_DATA_DIR"] = os.path.join(cwd, "jd")
    os.environ["JUPYTER_CONFIG_DIR"] = os.path.join(cwd, "jc")
    os.environ["HOME"] = cwd
    sys.argv = ["publish_interactive_plots.py"] + argv
    try:
        with open(os.devnull, "w") as sys.stdout:
            script().main()
        return None
    except SystemExit as e:
        return None if not e.code else "exit %s" % e.code
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    finally:
        os.chdir(old[0])
        sys.argv, sys.stdout = old[1:]


def run_case(case):
    import nbformat
    from nbformat.sign import NotebookNotary
    res = Res()
    root = os.path.join(os.getcwd(), "n")
    T.restore(root, {"sub/": None})
    for kinds, (argv, result) in case["runs"]:
        nb = notebook(kinds)
        name = argv[0]
        data = json.dumps(nb, ensure_ascii=False, indent=1).encode("utf-8")
        with open(os.path.join(root, name), "wb") as f:
            f.write(data)
        how = "cells %s, %s%s: " % (kinds, argv, " " + str(case["env"]) if case.get("env") else "")
        err = publish(argv, root, case.get("env"))
        res.run()
        if err:
            res.fail("fails", how + err)
            return res
        path = os.path.join(root, result)
        if not os.path.isfile(path):
            res.fail("result", how + "no %s" % result)
            return res
        try:
            with open(path, "rb") as f:
                out = json.loads(f.read().decode("utf-8"))
        except ValueError as e:
            res.fail("unreadable", how + "the result is no UTF-8 notebook: %s" % e)
            return res
        verify(res, copy.deepcopy(nb), out, how)
        with open(os.path.join(root, name), "rb") as f:
            if f.read() != data and name != result:
                res.fail("source", how + "the source changed")
        with NotebookNotary(data_dir=os.path.join(root, "jd")) as notary:
            if notary.check_signature(nbformat.read(path, nbformat.NO_CONVERT)):
                res.tag("signed")
            else:
                res.fail("trust", how + "the result is not trusted")
        os.unlink(path)
        res.tag(*kinds)
        res.tag("named" if len(argv) > 1 else "unnamed")
        if case.get("env"):
            res.tag("locale")
        if res.fails:
            break
    return res


NAMES = [(["a.ipynb"], "published_a.ipynb"), (["a.ipynb", "-o", "out"], "out.ipynb"), (["a.ipynb", "--outfile", "out.ipynb"], "out.ipynb"),
         (["sub/b.ipynb"], "published_b.ipynb"), (["sub/b.ipynb", "-o", "sub/x y"], "sub/x y.ipynb"), (["a.ipynb", "-o", "a.ipynb.v2"], "a.ipynb.v2.ipynb")]


def explore(ctx):
    logging.disable(logging.INFO)
    pages()
    nbs = [list(s) for n in range(1, (4 if ctx.quick else 5)) for s in itertools.product(KINDS, repeat=n)]
    runs = [(k, NAMES[0]) for k in nbs]
    runs += [(k, n) for k in nbs if len(k) < 3 for n in NAMES[1:]]
    cases = [{"runs": runs[i:i + 20]} for i in range(0, len(runs), 20)]
    for env in ({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}):
        cases += [{"runs": [(["text", "both"], n)], "env": env} for n in NAMES[:2]]
    ctx.run_cases(run_case, cases)


def replay(case):
    pages()
    return run_case(case)
