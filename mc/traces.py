"""Helpers to write trace files and observe trappy objects canonically."""
import math
import os
import shutil

import numpy as np
import pandas as pd
import trappy
from trappy.ftrace import GenericFTrace


def cell(v):
    """Canonical, JSON friendly value of one data frame cell (kind aware)."""
    if v is None:
        return None
    if isinstance(v, (bool, np.bool_)):
        return ["b", bool(v)]
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if math.isnan(f):
            return None
        return ["f", repr(f)]
    if isinstance(v, str):
        return ["s", v]
    return ["o", repr(v)]


def num(v):
    """Like cell, but int and float holding the same number are the same."""
    c = cell(v)
    if isinstance(c, list) and c[0] == "f":
        f = float(c[1])
        if f.is_integer():
            return int(f)
        return ["f", c[1]]
    if isinstance(c, list) and c[0] == "b":
        return int(c[1])
    return c


def frame(df, conv=cell):
    """[columns, [[index, [cells]]...]]; an empty frame has no columns."""
    if len(df) == 0:
        return [[], []]
    cols = [str(c) for c in df.columns]
    data = [df.iloc[:, i].tolist() if df.iloc[:, i].dtype != object
            else list(df.iloc[:, i].values) for i in range(len(cols))]
    order = sorted(range(len(cols)), key=lambda i: cols[i])
    rows = []
    idx = [float(t) for t in df.index]
    for r in range(len(df)):
        rows.append([repr(idx[r]), [conv(data[i][r]) for i in order]])
    return [[cols[i] for i in order], rows]


def rows(df):
    """List of (time, {column: value}) with missing cells left out and numbers
    canonical: what a user reads from the frame."""
    out = []
    if len(df) == 0:
        return out
    cols = list(df.columns)
    data = [list(df.iloc[:, i].values) for i in range(len(cols))]
    for r, t in enumerate(df.index):
        d = {}
        for i, c in enumerate(cols):
            v = num(data[i][r])
            if v is None:
                continue
            if isinstance(v, list):
                v = v[1] if v[0] == "s" else (float(v[1]) if v[0] == "f" else v)
            d[str(c)] = v
        out.append((float(t), d))
    return out


HEADER = "version = 6\ncpus=4\n"


def write(path, text):
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def line(ts, event, data, comm="task", pid=7, cpu=0):
    """One line of `trace-cmd report` output."""
    return "%16s-%-5d [%03d] %s: %-20s %s" % (comm, pid, cpu, ts, event + ":", data)


def text(lines, header=HEADER):
    return header + "".join(l + "\n" for l in lines)


class cache(object):
    """Enable or disable the trace cache for the duration of a block."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old = GenericFTrace.disable_cache
        GenericFTrace.disable_cache = not self.on

    def __exit__(self, *a):
        GenericFTrace.disable_cache = self.old


def observe(trace, conv=cell):
    """Everything a user can see of a loaded trace."""
    out = {"basetime": repr(float(trace.basetime)),
           "endtime": repr(float(trace.endtime)),
           "duration": repr(float(trace.get_duration())),
           "normalized": bool(trace.normalized_time),
           "cpus": str(getattr(trace, "_cpus", None)),
           "version": str(getattr(trace, "_version", None)),
           "events": {}}
    for name in sorted(trace.class_definitions):
        out["events"][name] = frame(getattr(trace, name).data_frame, conv)
    return out


def diff(got, want, path=""):
    """First difference between two observations, as text."""
    if type(got) != type(want):
        return "%s: got %r, expected %r" % (path, got, want)
    if isinstance(got, dict):
        for k in sorted(set(got) | set(want)):
            if k not in got:
                return "%s/%s missing" % (path, k)
            if k not in want:
                return "%s/%s unexpected (%r)" % (path, k, got[k])
            d = diff(got[k], want[k], path + "/" + str(k))
            if d:
                return d
        return None
    if isinstance(got, list):
        if len(got) != len(want):
            return "%s: got %r, expected %r" % (path, got, want)
        for i, (a, b) in enumerate(zip(got, want)):
            d = diff(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if got != want:
        return "%s: got %r, expected %r" % (path, got, want)
    return None


def snapshot(root):
    """{relative path: bytes or None for a directory} below root."""
    out = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            out[os.path.normpath(os.path.join(rel, d)) + "/"] = None
        for f in files:
            with open(os.path.join(base, f), "rb") as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def restore(root, snap):
    if os.path.exists(root):
        shutil.rmtree(root)
    os.makedirs(root)
    for p in sorted(snap):
        full = os.path.join(root, p)
        if snap[p] is None:
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(snap[p])
