"""Small trace directories and load configurations used by the cache checks."""
import os

import trappy
from mc import traces as T

A = [T.line("1.000001", "ev_one", "a=1 b=x"), T.line("1.000002", "ev_two", "c=5678"),
     T.line("1.000003", "ev_one", "a=2 b=00000002")]
CONTENTS = {
    "A": T.text(A),
    # same size, one digit of one value differs
    "B": T.text([A[0], T.line("1.000002", "ev_two", "c=6678"), A[2]]),
    # appended to
    "C": T.text(A + [T.line("1.000004", "ev_two", "c=7")]),
    # cut at the front: another basetime
    "D": T.text(A[1:]),
    # only the header differs
    "E": T.text(A, header="version = 6\ncpus=2\n"),
    # only a timestamp differs
    "F": T.text([A[0], T.line("1.000002", "ev_two", "c=5678"), T.line("1.000009", "ev_one", "a=2 b=00000002")]),
}
CFGS = {
    "1": dict(events=["ev_one"]),
    "2": dict(events=["ev_two"]),
    "12": dict(events=["ev_one", "ev_two"]),
    "12n": dict(events=["ev_one", "ev_two"], normalize_time=False),
    "12w": dict(events=["ev_one", "ev_two"], window=(0, 1e-6)),
}
_ref = {}


def load(cfg, path="trace.txt"):
    return T.observe(trappy.FTrace(path, scope="custom", **CFGS[cfg]))


def reference(content, cfg):
    key = (content, cfg)
    if key not in _ref:
        root = os.path.join(os.getcwd(), "ref")
        T.restore(root, {"trace.txt": CONTENTS[content].encode()})
        with T.cache(False):
            _ref[key] = T.observe(trappy.FTrace(os.path.join(root, "trace.txt"), scope="custom", **CFGS[cfg]))
    return _ref[key]


def check_load(res, content, cfg, key, how):
    """Load with the cache enabled and compare with a fresh parse."""
    want = reference(content, cfg)
    try:
        with T.cache(True):
            got = load(cfg)
    except Exception as e:
        res.fail(key, "%s: load %s of trace %s raised %s: %s" % (how, cfg, content, type(e).__name__, e))
        return False
    d = T.diff(got, want)
    if d:
        res.fail(key, "%s: load %s of trace %s is wrong: %s" % (how, cfg, content, d))
        return False
    return True
