"""C13: which file a load reads, what it runs, and what it leaves behind.

Every subset of candidate trace files x path argument x behaviour of trace-cmd
(an imitation found through PATH) x cache state is executed on the real code
and compared with the documented choice: contents loaded or kind of error,
files left in the trace directory, temporary files, header metadata.
"""
import itertools
import os
import stat

import trappy
from mc import traces as T
from mc.core import Res

PROPERTY = "C13"
LEVEL = "model_checking"
ASSUMPTIONS = ["trace-cmd is imitated: it prints a prepared text, fails, or is missing"]
MUST_SEE = ("dat", "txt", "raw", "none", "cmd-fails", "cmd-missing", "parse-error", "cached", "metadata", "nothing-selected")
BOUNDS = ("all 64 subsets of trace/foo x .dat/.txt/.raw.txt x 9 path arguments x cold or disabled cache; trace-cmd behaving, failing, "
          "missing, printing undecodable bytes or unparsable events; all headers of up to 4 (thorough 5) lines over 8 kinds")

FILES = ["trace.dat", "trace.txt", "trace.raw.txt", "foo.dat", "foo.txt", "foo.raw.txt"]
PATHS = [".", "", "../d", "trace.dat", "trace.txt", "foo.dat", "./foo.txt", "foo.raw.txt", "missing", "ABS", "ABS/foo.dat"]
EV = ["my_ev", "sched_switch"]
# Registered to be reported raw
RAW = ["funcgraph_entry", "funcgraph_exit", "function", "sched_switch", "sched_wakeup", "sched_wakeup_new"]
SCRIPT = """#!/bin/sh
echo "$@" >> "%(log)s"
for last; do :; done
case "%(mode)s" in
fail) echo oops >&2; exit 3;;
partial) head -n 3 "$last"; exit 1;;
esac
exec cat "$last"
"""


def ident(name):
    return FILES.index(name) + 1


def content(name, bad=None):
    ls = [T.line("1.%06d" % i, "my_ev", "a=%d" % (100 * ident(name) + i)) for i in range(3)]
    if bad == "parse":
        ls.append(T.line("2.0", "my_ev", "no fields here"))
    t = T.text(ls, header="version = %d\ncpus=%d\n" % (6, ident(name))).encode()
    if bad == "bytes":
        t += b"       sh-5 [000] 3.0: my_ev: a=\xff\xfe\n"
    return t


def setup(present, mode, bad=None):
    root = os.path.abspath("d")
    T.restore(root, {f: content(f, bad) for f in present})
    os.makedirs("bin", exist_ok=True)
    os.makedirs("tmp", exist_ok=True)
    for f in os.listdir("tmp"):
        os.unlink(os.path.join("tmp", f))
    exe = os.path.abspath("bin/trace-cmd")
    log = os.path.abspath("log")
    for f in (exe, log):
        if os.path.exists(f):
            os.unlink(f)
    if mode != "missing":
        with open(exe, "w") as f:
            f.write(SCRIPT % {"log": log, "mode": mode})
        os.chmod(exe, stat.S_IRWXU)
    return root, log


def choose(path, present, root):
    """The documented choice: ('dat'|'txt', name) or an exception class."""
    p = path.replace("ABS", root)
    full = os.path.normpath(os.path.join(root, p)) if p else root
    name = os.path.basename(full)
    if full != root and name in present:
        stem = os.path.splitext(name)[0]
        if stem.endswith(".raw"):        # foo.raw.txt: the stem is foo.raw
            if stem + ".txt" in present and stem + ".dat" not in present:
                return ("txt", name)
            return None
    elif full == root:
        stem = "trace"
    else:
        return IOError
    if stem + ".dat" in present:
        return ("dat", stem + ".dat")
    if stem + ".txt" in present:
        return ("txt", stem + ".txt")
    if stem + ".raw.txt" in present:
        return RuntimeError
    return IOError


class sandbox(object):
    def __init__(self, root):
        self.root = root

    def __enter__(self):
        import tempfile
        self.cwd = os.getcwd()
        self.env = {k: os.environ.get(k) for k in ("PATH", "TMPDIR")}
        base = self.cwd
        os.environ["PATH"] = os.path.join(base, "bin") + ":/usr/bin:/bin" if os.path.exists("bin/trace-cmd") else os.path.join(base, "bin")
        os.environ["TMPDIR"] = os.path.join(base, "tmp")
        self.tmp = tempfile.tempdir
        tempfile.tempdir = os.path.join(base, "tmp")
        os.chdir(self.root)

    def __exit__(self, *a):
        import tempfile
        tempfile.tempdir = self.tmp
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        os.chdir(self.cwd)


def attempt(root, path, cached, events=EV):
    with sandbox(root):
        try:
            with T.cache(cached):
                kw = {} if path == "" else {"path": path.replace("ABS", root), "name": "called " + path}
                tr = trappy.FTrace(scope="custom", events=events, **kw)
            return tr, None
        except Exception as e:
            return None, e


def leftovers(res, root, before, what, cachename):
    after = T.snapshot(root)
    for f in sorted(set(before) | set(after)):
        if before.get(f, 0) != after.get(f, 0) and not (cachename and (f == cachename + "/" or f.startswith(cachename + "/"))):
            res.fail("left-behind", "%s: %r was %s in the trace directory" % (what, f, "changed" if f in before and f in after else
                                                                             "created" if f in after else "removed"))
    left = os.listdir("tmp")
    if left:
        res.fail("temporary", "%s: temporary files left behind: %r" % (what, left))


def discovery(case):
    res = Res()
    present = case["present"]
    for path, cached in itertools.product(PATHS, (False, True)):
        root, log = setup(present, "ok")
        want = choose(path, present, root)
        if want is None:
            continue
        before = T.snapshot(root)
        what = "files %r, path %r, cache %s" % (present, path, cached)
        rounds = 2 if cached else 1
        for rnd in range(rounds):
            tr, err = attempt(root, path, cached)
            res.run()
            res.step()
            calls = open(log).read().splitlines() if os.path.exists(log) else []
            if isinstance(want, tuple):
                kind, name = want
                res.tag(kind)
                if err is not None:
                    res.fail("error", "%s: %s: %s instead of reading %s" % (what, type(err).__name__, err, name))
                    break
                got = [r["a"] for _, r in T.rows(tr.my_ev.data_frame)]
                if got != [100 * ident(name) + i for i in range(3)]:
                    res.fail("contents", "%s: rows %r are not those of %s" % (what, got, name))
                if tr.name != (path and "called " + path):
                    res.fail("name", "%s: the trace is called %r" % (what, tr.name))
                if str(tr._cpus) != str(ident(name)) or str(tr._version) != "6":
                    res.fail("metadata", "%s: version %r cpus %r" % (what, tr._version, tr._cpus))
                if rnd:
                    res.tag("cached")
                if kind == "txt" and calls:
                    res.fail("ran", "%s: trace-cmd was run: %r" % (what, calls))
                if kind == "dat":
                    words = (calls or [""])[0].split()
                    asked = sorted(words[i + 1] for i, w in enumerate(words) if w == "-r")
                    if asked != RAW:
                        res.fail("raw-events", "%s: trace-cmd was asked for the raw form of %r, expected %r" % (what, asked, RAW))
                    if len(calls) != 1 or not calls[0].startswith("report ") or os.path.basename(calls[0].split()[-1]) != name:
                        res.fail("ran", "%s, load %d: trace-cmd was run as %r" % (what, rnd + 1, calls))
            else:
                res.tag("raw" if want is RuntimeError else "none")
                if err is None or not isinstance(err, want):
                    res.fail("no-error", "%s: %r instead of %s" % (what, err, want.__name__))
            leftovers(res, root, before, what, "." + want[1] + ".cache" if cached and isinstance(want, tuple) else None)
        res.state(want if isinstance(want, tuple) else want.__name__, path, cached)
    return res


def faults(case):
    """Failing loads of a .dat raise, and leave nothing behind."""
    res = Res()
    for mode, bad, cached, path in itertools.product(("ok", "fail", "partial", "missing"), (None, "parse", "bytes"), (False, True),
                                                     ("trace.dat", "foo.dat", ".")):
        name = "foo.dat" if path == "foo.dat" else "trace.dat"
        root, log = setup(["trace.dat", "foo.dat", "foo.txt"], mode, bad)
        before = T.snapshot(root)
        what = "trace-cmd %s, trace %s, cache %s, path %s" % (mode, bad or "good", cached, path)
        tr, err = attempt(root, path, cached)
        res.run()
        res.step()
        fails = mode != "ok" or bad
        if fails and err is None:
            res.fail("swallowed", "%s: the load succeeded with %r" % (what, T.rows(tr.my_ev.data_frame)))
        if not fails and err is not None:
            res.fail("error", "%s: %r" % (what, err))
        if mode == "missing" and not isinstance(err, OSError):
            res.fail("kind", "%s: %r is not an OSError" % (what, err))
        res.tag("cmd-missing" if mode == "missing" else "cmd-fails" if mode != "ok" else "parse-error" if bad else "good")
        leftovers(res, root, before, what, "." + name + ".cache" if cached else None)
        res.state(mode, bad, cached, type(err).__name__)
        # the next load, with everything in order, is right
        if fails:
            good = T.snapshot(root)
            root2, log = setup(["trace.dat", "foo.dat", "foo.txt"], "ok", None)
            good.update({f: content(f) for f in ("trace.dat", "foo.dat", "foo.txt")})
            T.restore(root2, good)
            tr, err = attempt(root2, path, cached)
            res.run()
            if err is not None or [r["a"] for _, r in T.rows(tr.my_ev.data_frame)] != [100 * ident(name) + i for i in range(3)]:
                res.fail("recover", "%s: the load after it gave %r" % (what, err or T.rows(tr.my_ev.data_frame)))
    # Loads that select nothing, or nothing that is in the trace
    for events, cached, path in itertools.product(([], ["not_there"]), (False, True), ("trace.dat", ".", "foo.txt")):
        name = "foo.dat" if path == "foo.txt" else "trace.dat"
        root, log = setup(["trace.dat", "foo.dat", "foo.txt"], "ok")
        before = T.snapshot(root)
        what = "events %r, cache %s, path %s" % (events, cached, path)
        tr, err = attempt(root, path, cached, events)
        res.run()
        res.step()
        if err is not None or any(len(getattr(tr, e).data_frame) for e in events):
            res.fail("empty-load", "%s: %r" % (what, err or "has rows"))
        leftovers(res, root, before, what, "." + name + ".cache" if cached else None)
        res.tag("nothing-selected")
    return res


HEAD = {"v": "version = 6", "V": "version = 7", "c": "cpus=4", "C": "cpus=12", "x": "xcpus=9", "s": " cpus=9", "#": "# note: cpus=9",
        "t": "trace version = 9"}


def metadata(case):
    res = Res()
    res.tag("metadata")
    for seq, late in itertools.product(case["seqs"], ("", "cpus=77\nversion = 78\n")):
        first = {}
        for k in seq:
            if k in "vV":
                first.setdefault("version", HEAD[k].split()[-1])
            if k in "cC":
                first.setdefault("cpus", HEAD[k].split("=")[1])
        text = "".join(HEAD[k] + "\n" for k in seq) + T.line("1.5", "my_ev", "a=1") + "\n" + late
        T.write("m.txt", text)
        with T.cache(False):
            tr = trappy.FTrace("m.txt", scope="custom", events=EV)
        res.run()
        res.step()
        got = [getattr(tr, "_version", None), getattr(tr, "_cpus", None)]
        want = [first.get("version"), first.get("cpus")]
        if [x and str(x) for x in got] != want:
            res.fail("metadata", "header %r: version, cpus = %r, expected %r" % (text, got, want))
        res.state("meta", want, len(seq))
    return res


def run_case(case):
    return {"discovery": discovery, "faults": faults, "metadata": metadata}[case["kind"]](case)


def explore(ctx):
    cases = [{"kind": "discovery", "present": list(c)} for n in range(7) for c in itertools.combinations(FILES, n)]
    cases.append({"kind": "faults"})
    seqs = ["".join(s) for n in range(5 if ctx.quick else 6) for s in itertools.product("vcVCx" if n > 3 else "vcVCxs#t", repeat=n)]
    cases += [{"kind": "metadata", "seqs": seqs[i:i + 40]} for i in range(0, len(seqs), 40)]
    ctx.run_cases(run_case, cases, describe=lambda c: {k: v if k != "seqs" else v[:4] for k, v in c.items()})
