"""Core of the model-checking framework.

A check module enumerates a bounded space of behaviours (inputs, operation
histories, schedules, crash points, fault points) *completely* and executes
each one on the real trappy code found in the repository's working tree,
comparing against a reference model written here.  This file provides the
machinery shared by every check:

  - Ctx         context of one run (tier, seed, scratch area, counters)
  - Res         outcome of one explored execution
  - pmap        deterministic parallel map over forked workers
  - explore     explicit-state breadth first search with deduplication
  - finish      evidence file, replay artefacts, VIOLATION / KNOWN-FINDING
"""
import hashlib
import itertools
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TRAPPY_REPO", "/repo")
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "120"))
MAX_VIOL_PER_WORKER = 4


class HarnessError(Exception):
    """The machinery itself failed: never reported as a violation."""


class Hang(Exception):
    pass


class Mismatch(Exception):
    """Raised by oracles: the implementation disagrees with the model."""


def h64(obj):
    """Stable 64 bit digest of a canonical value."""
    if not isinstance(obj, (bytes, str)):
        obj = json.dumps(obj, sort_keys=True, default=repr)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "backslashreplace")
    return hashlib.blake2b(obj, digest_size=8).digest()


class Res(object):
    """Outcome of the execution of one case on the real code."""

    def __init__(self):
        self.states = set()       # digests of distinct model states/outcomes
        self.steps = 0            # transitions taken
        self.runs = 0             # executions compared against the code
        self.fails = []           # (key, message)
        self.tags = set()         # behaviours seen (vacuity guard)
        self.data = None          # check specific payload

    def state(self, *objs):
        self.states.add(h64(objs))

    def step(self, n=1):
        self.steps += n

    def run(self, n=1):
        self.runs += n

    def tag(self, *tags):
        self.tags.update(tags)

    def fail(self, key, msg):
        self.fails.append((key, msg))

    def expect(self, cond, key, msg=""):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def equal(self, got, want, key, what=""):
        if got != want:
            self.fail(key, "%s: got %r, expected %r" % (what or key, got, want))
            return False
        return True


def _alarm(signum, frame):
    raise Hang("no answer within %d s" % CASE_TIMEOUT)


def run_guarded(fn, case):
    """Run fn(case), turning every escape into a Res."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        res = fn(case)
        if res is None:
            raise HarnessError("case function returned nothing")
        return res
    except (HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Hang as e:
        res = Res()
        res.runs = 1
        res.fail("hang", str(e))
        return res
    except Exception as e:
        res = Res()
        res.runs = 1
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [f for f in tb if "/trappy/" in f.filename]
        loc = ""
        if where:
            loc = " at %s (%s)" % (os.path.basename(where[-1].filename), where[-1].name)
        res.fail("exception:" + type(e).__name__,
                 "%s: %s%s\n%s" % (type(e).__name__, e, loc,
                                   "".join(traceback.format_exc()[-1800:])))
        return res
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _read_exact(fd, n):
    buf = b""
    while len(buf) < n:
        chunk = os.read(fd, n - len(buf))
        if not chunk:
            return None
        buf += chunk
    return buf


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<I", len(data)) + data
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def nworkers():
    n = os.environ.get("VERIF_JOBS")
    if n:
        return max(1, int(n))
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


class Ctx(object):
    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.scratch = scratch
        self.t0 = time.time()
        self.states = set()
        self.transitions = 0
        self.runs = 0
        self.cases = 0
        self.tags = {}
        self.samples = []
        self.violations = []       # (case, key, msg)
        self.notes = {}            # extra measured facts for the evidence
        self.caps = []             # bounds that were hit (must be empty to say exhaustive)

    # -- execution ---------------------------------------------------------
    def absorb(self, case, res, sample=None):
        self.cases += 1
        self.states |= res.states
        self.transitions += res.steps
        self.runs += res.runs
        for t in res.tags:
            self.tags[t] = self.tags.get(t, 0) + 1
        for key, msg in res.fails:
            self.violations.append((case, key, msg))

    def pmap(self, fn, items, chunk=None):
        """Run fn over items in forked workers; yields (item, Res) in item
        order.  Work is handed out dynamically, results are reordered, so the
        outcome does not depend on timing."""
        items = list(items)
        n = min(nworkers(), max(1, len(items)))
        if not items:
            return []
        if n == 1:
            out = []
            for it in items:
                out.append((it, run_guarded(fn, it)))
            return out
        if chunk is None:
            chunk = max(1, min(64, len(items) // (n * 8)))
        chunks = [list(range(i, min(i + chunk, len(items))))
                  for i in range(0, len(items), chunk)]
        # one shared pipe holds chunk numbers: workers take the next one
        workers = []
        job_r, job_w = os.pipe()
        os.set_blocking(job_r, True)
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.close(job_w)
                    for other in workers:
                        os.close(other[1])
                    self._worker(w, fn, items, chunks, job_r, wr)
                except BaseException:
                    try:
                        _send(wr, ("error", traceback.format_exc()))
                    except BaseException:
                        pass
                    code = 3
                os._exit(code)
            os.close(wr)
            workers.append((pid, r))
        os.close(job_r)
        results = {}
        err = None
        live = {r: pid for pid, r in workers}
        feed = itertools.chain(range(len(chunks)), itertools.repeat(0xffffffff, n))
        pending = None
        stop_feed = False
        nviol = 0
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        os.set_blocking(job_w, False)
        while live:
            wfds = [] if stop_feed else [job_w]
            rd, wt, _ = select.select(list(live), wfds, [])
            if wt:
                if pending is None:
                    nxt = next(feed, None)
                    if nxt is None:
                        stop_feed = True
                        os.close(job_w)
                    else:
                        pending = struct.pack("<I", nxt)
                if pending is not None:
                    try:
                        os.write(job_w, pending)
                        pending = None
                    except BlockingIOError:
                        pass
                    except BrokenPipeError:
                        stop_feed = True
                        os.close(job_w)
            for r in rd:
                head = _read_exact(r, 4)
                body = _read_exact(r, struct.unpack("<I", head)[0]) if head else None
                if body is None:
                    pid = live.pop(r)
                    os.close(r)
                    _, status = os.waitpid(pid, 0)
                    if status != 0 and err is None:
                        err = "worker %d ended with status %#x" % (pid, status)
                    continue
                kind, payload = pickle.loads(body)
                if kind == "error":
                    err = payload
                else:
                    for idx, res in payload:
                        results[idx] = res
                        nviol += len(res.fails)
        if not stop_feed:
            try:
                os.close(job_w)
            except OSError:
                pass
        if err:
            raise HarnessError(err)
        return [(items[i], results[i]) for i in sorted(results)]

    def _worker(self, wid, fn, items, chunks, job_r, out):
        wdir = os.path.join(self.scratch, "w%d_%d" % (os.getpid(), wid))
        os.makedirs(wdir, exist_ok=True)
        os.chdir(wdir)
        self.wdir = wdir
        nviol = 0
        while True:
            head = _read_exact(job_r, 4)
            if head is None:
                break
            c = struct.unpack("<I", head)[0]
            if c == 0xffffffff:
                break
            payload = []
            for idx in chunks[c]:
                if nviol >= MAX_VIOL_PER_WORKER * 4:
                    break
                res = run_guarded(fn, items[idx])
                nviol += len(res.fails)
                payload.append((idx, res))
            _send(out, ("res", payload))
        os.chdir("/")
        shutil.rmtree(wdir, ignore_errors=True)

    def run_cases(self, fn, cases, nsamples=3, describe=None):
        """Exhaustively run fn over every case and absorb the outcomes."""
        cases = list(cases)
        done = self.pmap(fn, cases)
        for case, res in done:
            self.absorb(case, res)
        if len(done) < len(cases) and not self.violations:
            raise HarnessError("only %d of %d cases ran" % (len(done), len(cases)))
        if cases:
            picks = sorted(set([0, len(cases) // 2, len(cases) - 1]))
            for p in picks[:nsamples]:
                self.sample(describe(cases[p]) if describe else cases[p])
        return done

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def explore(self, init, expand, fn, max_depth=None, max_states=None):
        """Explicit-state breadth first search.

        A node is (history, payload).  expand(node) lists the enabled
        operations; fn((node, op)) executes the step on the real code and
        returns a Res with .data = (canonical_state, new_node).  A successor
        whose canonical state was seen is not expanded again.
        """
        seen = set()
        frontier = []
        for canon, node in init:
            k = h64(canon)
            if k not in seen:
                seen.add(k)
                frontier.append(node)
        self.states |= seen
        depth = 0
        complete = True
        while frontier:
            if max_depth is not None and depth >= max_depth:
                complete = False
                self.caps.append("depth %d" % max_depth)
                break
            work = [(node, op) for node in frontier for op in expand(node)]
            nxt = []
            for case, res in self.pmap(fn, work):
                self.absorb(case, res)
                if res.data is None:
                    continue
                canon, node = res.data
                k = h64(canon)
                if k not in seen:
                    seen.add(k)
                    nxt.append(node)
            self.states |= seen
            depth += 1
            if self.violations:
                break
            if max_states is not None and len(seen) > max_states:
                complete = False
                self.caps.append("states %d" % max_states)
                break
            frontier = nxt
        return {"explored_states": len(seen), "depth": depth, "fixpoint": complete and not self.violations}


def load_known():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property="):
                    rest = line[len("finding: property="):]
                    prop, rest = rest.split(" ", 1)
                    assert rest.startswith("key=")
                    key, what = rest[4:].split(" :: ", 1)
                    out.append((prop, key.strip(), what.strip()))
    return out


def finish(ctx, mod):
    known = {k: w for p, k, w in load_known() if p == ctx.prop}
    seen_known = {}
    fresh = []
    for case, key, msg in ctx.violations:
        if key in known:
            seen_known.setdefault(key, (case, msg))
        else:
            fresh.append((case, key, msg))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(ctx.prop + "-"):
            os.unlink(os.path.join(rdir, old))
    lines = []
    shown = set()
    for case, key, msg in fresh:
        if key in shown:
            continue
        shown.add(key)
        if len(lines) >= 8:
            break
        path = os.path.join(rdir, "%s-%d.json" % (ctx.prop, len(lines)))
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "key": key, "case": case, "message": msg,
                       "replay": "./check %s --replay %s" % (ctx.prop, path)},
                      f, indent=1, default=repr)
        lines.append((key, path, msg))
    wall = time.time() - ctx.t0
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {}
    if level == "model_checking":
        cov["states"] = len(ctx.states)
        cov["transitions"] = ctx.transitions
        cov["traces_validated_against_impl"] = ctx.runs
    else:
        cov["evaluations"] = ctx.runs
        cov["distinct_nontrivial"] = len(ctx.states)
        cov["rule"] = mod.RULE
    cov["samples"] = ctx.samples
    cov["exhaustive"] = not ctx.caps
    cov["bounds"] = getattr(mod, "BOUNDS", "")
    if ctx.caps:
        cov["caps_hit"] = ctx.caps
    cov["cases"] = ctx.cases
    cov["behaviours_seen"] = {k: ctx.tags[k] for k in sorted(ctx.tags)}
    cov.update(ctx.notes)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 2),
          "violations": len(fresh)}
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    for key, (case, msg) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[key]))
    for key, path, msg in lines:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        print("  key=%s" % key)
        print("  " + "\n  ".join(msg.splitlines()[:14]))
    print("%s %s: %d cases, %d executions, %d distinct states, %d transitions, %d violations, %.1f s%s"
          % (ctx.prop, ctx.tier, ctx.cases, ctx.runs, len(ctx.states), ctx.transitions,
             len(fresh), wall, " CAPS " + repr(ctx.caps) if ctx.caps else ""))
    need = getattr(mod, "MUST_SEE", ())
    if not fresh:
        missing = [t for t in need if t not in ctx.tags]
        if missing:
            print("ERROR: vacuous exploration, never saw: %s" % missing)
            return 2
    return 1 if fresh else 0
