From cb90d0d0a18d03dca4585f3d6436ea34030b2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 01/68] fix: get the same data from the cache as from the trace

Events read back from the cache had their types guessed from the text of a
CSV: values like "nan", "00000002" or an empty string, big integers and
numeric task names changed, and event specific parsing (for example the
cpu mask of sched_load_avg_sg) was undone.  Also, an event could be given
the cached data of another event handled by a class with the same name.
---
 trappy/base.py   | 81 ++++++++++++++++++++++++++++++++++++++++++++++++
 trappy/ftrace.py | 12 +++++--
 2 files changed, 91 insertions(+), 2 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 40a6f9e..988b7c3 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -22,6 +22,7 @@ from builtins import zip
 from builtins import range
 from builtins import object
 from past.builtins import basestring
+import json
 import re
 import pandas as pd
 import warnings
@@ -333,6 +334,86 @@ class Base(object):
         )
         self.optimize_dataframe()
 
+    @staticmethod
+    def __cell_to_json(cell):
+        if not (cell is None or isinstance(cell, (basestring, int, float))):
+            raise TypeError("Can't cache {!r}".format(cell))
+        return json.dumps(cell)
+
+    def write_cache(self, fname, key):
+        """Save the data frame so that :meth:`read_cache` gives it back unchanged
+
+        What can be inferred from the text of a plain CSV is not always what
+        was parsed (for example a cpu mask "00000002", a task called "nan" or
+        an empty value), so the first line describes the columns and the cells
+        of the non-numeric ones are stored as JSON.
+
+        :param fname: The name of the cached file
+        :type fname: str
+
+        :param key: JSON serializable value that identifies the origin of
+            the data
+        """
+        columns = []
+        cells = {}
+        for idx, name in enumerate(self.data_frame.columns):
+            column = self.data_frame.iloc[:, idx]
+            columns.append((name, str(column.dtype)))
+            if column.dtype == object:
+                column = pd.Series([self.__cell_to_json(cell) for cell in column],
+                                   index=column.index)
+            cells[idx] = column
+
+        with open(fname, "w") as fout:
+            json.dump({"key": key, "columns": columns,
+                       "rows": len(self.data_frame)}, fout)
+            fout.write("\n")
+            pd.DataFrame(cells).to_csv(fout, header=False)
+
+    def read_cache(self, fname, key):
+        """Read back the data frame saved with :meth:`write_cache`
+
+        :param fname: The name of the cached file
+        :type fname: str
+
+        :param key: The origin the data must have, :code:`ValueError` is
+            raised if it comes from somewhere else
+        """
+        with open(fname) as fin:
+            header = json.loads(fin.readline())
+            if header["key"] != key:
+                raise ValueError("{} doesn't match this trace".format(fname))
+            if not header["rows"]:
+                self.data_frame = pd.DataFrame()
+                return
+
+            dtypes = [str if dtype == "object" else dtype
+                      for _, dtype in header["columns"]]
+            data_frame = pd.read_csv(
+                fin,
+                header=None,
+                index_col=0,
+                dtype=dict(enumerate([float] + dtypes)),
+                keep_default_na=False,
+                na_values={idx: [""] for idx, dtype in enumerate(dtypes, 1)
+                           if dtype is not str},
+                # Get exactly the same floats back
+                float_precision="round_trip"
+            )
+
+        if len(data_frame) != header["rows"]:
+            raise ValueError("{} is incomplete".format(fname))
+
+        for idx, dtype in enumerate(dtypes, 1):
+            if dtype is str:
+                data_frame[idx] = pd.Series(
+                    [json.loads(cell) for cell in data_frame[idx]],
+                    index=data_frame.index, dtype=object)
+
+        data_frame.index.name = "Time"
+        data_frame.columns = [name for name, _ in header["columns"]]
+        self.data_frame = data_frame
+
     def normalize_time(self, basetime):
         """Substract basetime from the Time of the data frame
 
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1d26fb5..4b851e7 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -199,6 +199,10 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         path = self._trace_cache_path()
         return os.path.join(path, trace_class.__class__.__name__ + '.csv')
 
+    def _get_cache_key(self, trace_class):
+        # What the cached data of an event depends on
+        return [trace_class.unique_word, bool(trace_class.parse_raw)]
+
     def _get_cache_metadata(self):
         cache_path = self._trace_cache_path()
         metadata_path = os.path.join(cache_path, 'metadata.json')
@@ -254,7 +258,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     continue
 
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.write_csv(csv_file)
+                try:
+                    trace_class.write_cache(csv_file, self._get_cache_key(trace_class))
+                except TypeError as err:
+                    warnings.warn("TRAPpy: {} not cached: {}".format(
+                        trace_class.name, err))
         except OSError as err:
             warnings.warn(
                 "TRAPpy: Cache not created due to OS error: {0}".format(err))
@@ -290,7 +298,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         for trace_class in self.trace_classes:
             try:
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.read_csv(csv_file)
+                trace_class.read_cache(csv_file, self._get_cache_key(trace_class))
                 trace_class.cached = True
             except:
                 warnstr = "TRAPpy: Couldn't read {} from cache, reading it from trace".format(trace_class)
-- 
2.43.0


From 24926edf4711cf631230a0d235ea0283b4e27c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 02/68] fix: don't fail to load a trace because of a broken
 cache

If the process that was filling the cache died, metadata.json could be
missing or incomplete, and from then on the trace couldn't be loaded.  Treat
metadata that can't be read as an invalid cache, and don't fail if the invalid
cache can't be removed.
---
 trappy/ftrace.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 4b851e7..fdc7b8c 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -284,14 +284,24 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         if not os.path.exists(cache_path):
             return
 
-        metadata = self._get_cache_metadata()
+        try:
+            metadata = self._get_cache_metadata()
+            valid = self._is_cache_valid(metadata)
+            if valid:
+                # Load metadata
+                self._load_metadata_from_cache(metadata)
+        except Exception as err:
+            # The cache may have been left half-written, or be unreadable
+            warnings.warn(
+                "TRAPpy: Couldn't read cache metadata, invalidating cache: {}".format(err))
+            valid = False
 
-        if not self._is_cache_valid(metadata):
-            shutil.rmtree(cache_path)
+        if not valid:
+            self.basetime = 0
+            self.endtime = 0
+            shutil.rmtree(cache_path, ignore_errors=True)
             return
 
-        # Load metadata
-        self._load_metadata_from_cache(metadata)
         self.max_window = self._calc_max_window()
 
         # Load trace data
-- 
2.43.0


From 1445c5f99c1a12b25bd457098e32e7a75c0c3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 03/68] fix: never leave or read half-written files in the
 cache

A CSV that was cut short, because its writer died or because it was still
being written by another process, could be loaded as if it were complete,
with events missing or truncated values.
---
 trappy/ftrace.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index fdc7b8c..7406343 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -32,7 +32,9 @@ import hashlib
 import shutil
 import warnings
 import math
+import uuid
 
+from contextlib import contextmanager
 from tempfile import NamedTemporaryFile
 import numpy as np
 
@@ -237,6 +239,22 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             shutil.rmtree(cache_path)
         os.mkdir(cache_path)
 
+    @contextmanager
+    def _replace_cache_file(self, path):
+        """Provide a temporary path to write to, which replaces path once complete
+
+        This way a file of the cache is never seen (by another process, or
+        after this one is killed) before it's complete.
+        """
+        tmp_path = '{}.{}.tmp'.format(path, uuid.uuid4().hex)
+        try:
+            yield tmp_path
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
+
     def _update_cache(self):
         try:
             # Recreate basic cache directories only if nothing cached
@@ -248,8 +266,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                 metadata = self._get_metadata_to_cache()
 
-                with open(metadata_path, 'w') as f:
-                    json.dump(metadata, f)
+                with self._replace_cache_file(metadata_path) as tmp_path:
+                    with open(tmp_path, 'w') as f:
+                        json.dump(metadata, f)
 
             # Cache trace data
             for trace_class in self.trace_classes:
@@ -259,7 +278,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                 csv_file = self._get_csv_path(trace_class)
                 try:
-                    trace_class.write_cache(csv_file, self._get_cache_key(trace_class))
+                    with self._replace_cache_file(csv_file) as tmp_path:
+                        trace_class.write_cache(tmp_path, self._get_cache_key(trace_class))
                 except TypeError as err:
                     warnings.warn("TRAPpy: {} not cached: {}".format(
                         trace_class.name, err))
-- 
2.43.0


From 653e7ec6a85039bab0413132038b53e426a10c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 04/68] fix: never cache data under the checksum of another
 version of the trace

The checksum was calculated after parsing.  If the trace was overwritten while
it was being loaded, the events of the old trace were saved as if they
belonged to the new one and every later load returned them.
---
 trappy/ftrace.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 7406343..3ae9505 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -203,7 +203,12 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _get_cache_key(self, trace_class):
         # What the cached data of an event depends on
-        return [trace_class.unique_word, bool(trace_class.parse_raw)]
+        return [self._trace_md5sum, trace_class.unique_word,
+                bool(trace_class.parse_raw)]
+
+    def _calc_trace_md5sum(self):
+        with open(self.trace_path, 'rb') as f:
+            return hashlib.md5(f.read()).hexdigest()
 
     def _get_cache_metadata(self):
         cache_path = self._trace_cache_path()
@@ -222,10 +227,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 warnings.warn(warnstr)
                 return False
 
-        with open(self.trace_path, 'rb') as f:
-            trace_md5sum = hashlib.md5(f.read()).hexdigest()
-
-        if cache_metadata["md5sum"] != trace_md5sum:
+        if cache_metadata["md5sum"] != self._trace_md5sum:
             warnstr = "Cached data is from another trace, invalidating cache."
             warnings.warn(warnstr)
             return False
@@ -257,6 +259,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _update_cache(self):
         try:
+            # The parsed data may not be from the trace that the checksum is for
+            if self._calc_trace_md5sum() != self._trace_md5sum:
+                warnings.warn("TRAPpy: Cache not created, the trace has changed")
+                return
+
             # Recreate basic cache directories only if nothing cached
             if not any([c.cached for c in self.trace_classes]):
                 self._prepare_cache_dir()
@@ -292,9 +299,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Additionnal metadata can be saved by overriding this method
         metadata = {}
 
-        metadata["md5sum"] = hashlib.md5(
-            open(self.trace_path, 'rb').read()
-        ).hexdigest()
+        metadata["md5sum"] = self._trace_md5sum
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
         return metadata
@@ -352,6 +357,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _do_parse(self):
         if not self.__class__.disable_cache:
+            self._trace_md5sum = self._calc_trace_md5sum()
             self._load_cache()
 
             # Check if cache data is enough
-- 
2.43.0


From 3a22b86595b7824a77abfa26323dea89124560c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 05/68] fix: keep only the intersection of window and
 abs_window

An event had to be past the end of both windows to be dropped, and a
window that ends at 0 was taken for one that doesn't end.
---
 trappy/ftrace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 3ae9505..1bd842c 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -159,13 +159,13 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _calc_max_window(self):
         """
-        Compute the maximum window of the 'window' & 'abs_window' intersection
+        Compute the intersection of 'window' & 'abs_window'
         """
         max_window = [0, None]
         max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])
 
         if (self.window[1] is not None) and (self.abs_window[1] is not None):
-            max_window[1] = max(self.window[1] + self.basetime, self.abs_window[1])
+            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
         elif self.window[1] is not None:
             max_window[1] = self.window[1] + self.basetime
         elif self.abs_window[1] is not None:
@@ -183,7 +183,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Ensure it's sorted for good measure.
         trace_class.data_frame.sort_index(inplace=True)
 
-        if window[1]:
+        if window[1] is not None:
             trace_class.data_frame = trace_class.data_frame[
                 window[0]:window[1]]
         elif window[0]:
-- 
2.43.0


From 35f57734cff970a6da0bc9a9275755ddff034214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 06/68] fix: parse arrays no matter where the empty ones are

Arrays were not exploded when the first event of the trace had none (or
only empty ones), and an empty array at the end of a line was left as a
string.
---
 trappy/base.py   | 4 ----
 trappy/ftrace.py | 2 +-
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 988b7c3..90a82b8 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -158,10 +158,6 @@ class Base(object):
 
                 line = line[match.end():]
 
-            # Stop scanning if the trace doesn't have arrays
-            if len(ret) == 0:
-                break
-
         return ret
 
     def append_data(self, time, comm, pid, cpu, line, data):
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1bd842c..0e0f981 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -481,7 +481,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                     # Remove empty arrays from the trace
                     if "={}" in data_str:
-                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\} ", r"", data_str)
+                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\}( |$)", r"", data_str)
 
                     trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)
 
-- 
2.43.0


From 86d98425beea2d4380f0d8e7ca1619c53c74e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 07/68] fix: don't alter the text of free-form events that
 looks like an array

---
 trappy/base.py   | 3 ++-
 trappy/ftrace.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 90a82b8..7e91d3e 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -288,7 +288,8 @@ class Base(object):
         if not self.time_array:
             return
 
-        trace_arr_lengths = self.__get_trace_array_lengths()
+        # What looks like an array in a free-form string isn't one
+        trace_arr_lengths = {} if self.fallback else self.__get_trace_array_lengths()
 
         if trace_arr_lengths:
             for (idx, val) in enumerate(self.data_array):
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 0e0f981..3014308 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -480,7 +480,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     data_str = fields_match.group('data')
 
                     # Remove empty arrays from the trace
-                    if "={}" in data_str:
+                    if "={}" in data_str and not trace_class.fallback:
                         data_str = re.sub(r"[A-Za-z0-9_]+=\{\}( |$)", r"", data_str)
 
                     trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)
-- 
2.43.0


From b618e271ed5bb7f6b033bee891022e79f83a5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 08/68] fix: load a SysTrace that has no sched_switch events

---
 trappy/systrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 41d806f..8a93bc9 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -69,7 +69,8 @@ class SysTrace(GenericFTrace):
 
         try:
             self._cpus = 1 + self.sched_switch.data_frame["__cpu"].max()
-        except AttributeError:
+        except (AttributeError, KeyError):
+            # sched_switch is not parsed, or there are none in the trace
             pass
 
     def trace_hasnt_started(self):
-- 
2.43.0


From 55adff63e3cb372787d303b63fcdfa360d6883d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 09/68] fix: only parse the lines of an event as that event

The unique words of function, funcgraph_entry, funcgraph_exit, cpu_idle,
sys_enter and sys_exit matched any line that mentions them, for example
the name of a task or the text of a marker, which then failed to parse.
---
 trappy/function.py       | 2 +-
 trappy/function_graph.py | 4 ++--
 trappy/idle.py           | 2 +-
 trappy/raw_syscalls.py   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/trappy/function.py b/trappy/function.py
index 9de39e2..d5c3967 100644
--- a/trappy/function.py
+++ b/trappy/function.py
@@ -19,7 +19,7 @@ from trappy.dynamic import register_ftrace_parser
 
 class FunctionTracer(Base):
     """Parse 'function' events ('function' tracer)"""
-    unique_word = "function"
+    unique_word = "function:"
     parse_raw = True
 
     def __init__(self):
diff --git a/trappy/function_graph.py b/trappy/function_graph.py
index b274e41..b65c2e7 100644
--- a/trappy/function_graph.py
+++ b/trappy/function_graph.py
@@ -19,7 +19,7 @@ from trappy.dynamic import register_ftrace_parser
 
 class FuncgraphEntry(Base):
     """Parse funcgraph_entry"""
-    unique_word = "funcgraph_entry"
+    unique_word = "funcgraph_entry:"
     parse_raw = True
     def __init__(self):
         super().__init__(parse_raw=self.parse_raw)
@@ -28,7 +28,7 @@ register_ftrace_parser(FuncgraphEntry)
 
 class FuncgraphExit(Base):
     """Parse funcgraph_exit"""
-    unique_word = "funcgraph_exit"
+    unique_word = "funcgraph_exit:"
     parse_raw = True
     def __init__(self):
         super().__init__(parse_raw=self.parse_raw)
diff --git a/trappy/idle.py b/trappy/idle.py
index 19cf094..c280d42 100644
--- a/trappy/idle.py
+++ b/trappy/idle.py
@@ -22,7 +22,7 @@ from trappy.dynamic import register_ftrace_parser
 class CpuIdle(Base):
     """Parse cpu_idle"""
 
-    unique_word = "cpu_idle"
+    unique_word = "cpu_idle:"
     pivot = "cpu_id"
 
     def finalize_object(self):
diff --git a/trappy/raw_syscalls.py b/trappy/raw_syscalls.py
index dc256f2..1fce0e6 100644
--- a/trappy/raw_syscalls.py
+++ b/trappy/raw_syscalls.py
@@ -21,7 +21,7 @@ from trappy.dynamic import register_ftrace_parser
 class SysEnter(Base):
     """Parse sys enter"""
 
-    unique_word = "sys_enter"
+    unique_word = "sys_enter:"
     pivot = "pid"
     parse_raw = False
     pat = re.compile(r"NR (\d+) \(([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+)\)")
@@ -54,7 +54,7 @@ register_ftrace_parser(SysEnter)
 class SysExit(Base):
     """Parse sys exit"""
 
-    unique_word = "sys_exit"
+    unique_word = "sys_exit:"
     pivot = "pid"
     parse_raw = False
     pat = re.compile("NR ([-+]?\d+) = ([-+]?\d+)")
-- 
2.43.0


From 8c087a8aaca8983a91d70c3d92b41029ca16ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 10/68] fix: keep the text of SysTrace markers that are not
 events

Any text that started with a capital letter was taken for an event of that
letter, and was lost.
---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 8a93bc9..30270b8 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -21,7 +21,7 @@ from trappy.ftrace import GenericFTrace
 import re
 
 SYSTRACE_EVENT = re.compile(
-    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
+    r'^(?P<event>[A-Z])(?=\||$)(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
 
 class drop_before_trace(object):
     """Object that, when called, returns True if the line is not part of
-- 
2.43.0


From 57d4ff1f14c817ec509e84ae7ef4d0fd825d6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 11/68] fix: remove the temporary text trace when loading a
 trace.dat fails

---
 trappy/ftrace.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 3014308..83f4859 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -365,18 +365,19 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 self._apply_user_parameters()
                 return
 
-        self._parsing_setup()
-
-        self.__parse_trace_file(self.file_to_parse)
-        self.finalize_objects()
+        try:
+            self._parsing_setup()
 
-        # Update (or create) cache directory
-        if not self.__class__.disable_cache:
-            self._update_cache()
+            self.__parse_trace_file(self.file_to_parse)
+            self.finalize_objects()
 
-        self._apply_user_parameters()
+            # Update (or create) cache directory
+            if not self.__class__.disable_cache:
+                self._update_cache()
 
-        self._parsing_teardown()
+            self._apply_user_parameters()
+        finally:
+            self._parsing_teardown()
 
     def _parsing_setup(self):
         # By default, the file pointed by trace_path is parsed. However, an
@@ -865,7 +866,7 @@ class FTrace(GenericFTrace):
         super(FTrace, self)._parsing_teardown()
 
         # Remove the .txt trace if it was generated from a .dat
-        if self.read_from_dat:
+        if self.file_to_parse != self.trace_path:
             os.remove(self.file_to_parse)
 
     def _load_metadata_from_cache(self, metadata):
@@ -942,15 +943,17 @@ class FTrace(GenericFTrace):
 
         cmd.append(trace_dat)
 
-        with NamedTemporaryFile(delete=False) as fout:
-            try:
-                output = run(cmd, capture_output=True, check=True)
-            except OSError as exc:
-                if exc.errno == 2 and not exc.filename:
-                    raise OSError(2, "trace-cmd not found in PATH, is it installed?")
-                else:
-                    raise
+        try:
+            output = run(cmd, capture_output=True, check=True)
+        except OSError as exc:
+            if exc.errno == 2 and not exc.filename:
+                raise OSError(2, "trace-cmd not found in PATH, is it installed?")
+            else:
+                raise
 
+        with NamedTemporaryFile(delete=False) as fout:
+            # From now on it's up to _parsing_teardown() to remove it
+            self.file_to_parse = fout.name
             fout.write(output.stdout)
 
         return fout.name
-- 
2.43.0


From d483215f9bd4d676dc1fc30aa27e306791625356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 12/68] fix: keep deduplicated indexes in order and leave the
 data of the caller alone

Four or more duplicates got exponentially growing increments that could
pass the next value of the index, and the index of the caller's data was
changed in place.
---
 trappy/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 0bc6302..aef5afd 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -18,6 +18,8 @@
 from __future__ import division
 from __future__ import unicode_literals
 
+import pandas as pd
+
 def listify(to_select):
     """Utitlity function to handle both single and
     list inputs
@@ -76,10 +78,11 @@ def handle_duplicate_index(data,
     # so that the order of events is preserved after fixing the duplicated
     # timestamp.
     if '__line' in data:
-        data.sort_values(['Time', '__line'], inplace=True)
+        data = data.sort_values(['Time', '__line'])
 
     index = data.index
-    new_index = index.values
+    # Don't alter the index of the data we were given
+    new_index = index.values.astype(float)
 
     dups = index[index.duplicated()].unique()
 
@@ -102,11 +105,11 @@ def handle_duplicate_index(data,
         if delta > max_delta:
             delta = max_delta
 
-        # Add a delta to the others
-        dup_index_left += 1
-        while dup_index_left <= dup_index_right:
-            new_index[dup_index_left] += delta
-            delta += delta
-            dup_index_left += 1
+        # Add a multiple of delta to the others, so that all of them come
+        # before the next value of the index
+        for i in range(1, num_dups):
+            new_index[dup_index_left + i] += i * delta
 
-    return data.reindex(new_index)
+    result = data.copy()
+    result.index = pd.Index(new_index, name=index.name)
+    return result
-- 
2.43.0


From 1e247041951b644ac0fa283399df11dbe23ac402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 13/68] fix: let triggers take a column as value and lists of
 values in filters

A string value raised NameError (or took the column named by the last
filter), and a filter with a list of values only kept the rows that were
equal to all of them.
---
 trappy/stats/Trigger.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 586a76c..63fbc0e 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -27,7 +27,6 @@ from __future__ import unicode_literals
 from __future__ import division
 from __future__ import print_function
 
-from builtins import range
 from builtins import object
 import types
 from trappy.utils import listify
@@ -94,18 +93,18 @@ class Trigger(object):
         data_frame = trappy_event.data_frame
         data_frame = data_frame[data_frame[self._pivot] == pivot_val]
 
-        mask = [True for _ in range(len(data_frame))]
+        mask = pd.Series(True, index=data_frame.index)
 
         for key, value in self._filters.items():
             if hasattr(value, "__call__"):
-                mask = mask & (data_frame[key].apply(value))
+                mask = mask & data_frame[key].apply(value).astype(bool)
             else:
                 mask = apply_filter_kv(key, value, data_frame, mask)
 
         data_frame = data_frame[mask]
 
         if isinstance(self._value, str):
-            return data_frame[value]
+            return data_frame[self._value]
         else:
             return pd.Series(self._value, index=data_frame.index)
 
@@ -130,6 +129,4 @@ def apply_filter_kv(key, value, data_frame, mask):
     if key not in data_frame.columns:
         return mask
     else:
-        for val in value:
-            mask = mask & (data_frame[key] == val)
-        return mask
+        return mask & data_frame[key].isin(value)
-- 
2.43.0


From 7079b23d52057c16059bfec7b7ca9377964a6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 14/68] fix: don't accumulate aggregations in the base series
 of a node

Aggregating a level without a function (or with one that returns its
input) added the series of the other nodes of a group to the stored series
of the first, so that every further aggregation was wrong.
---
 trappy/stats/Aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 715d47c..fc85529 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -151,7 +151,8 @@ class MultiTriggerAggregator(AbstractAggregator):
                 else:
                     node_res = self._result[node]
 
-                level_res += node_res
+                # Not in place: level_res can be the base series of a node
+                level_res = level_res + node_res
 
             result.append(level_res)
 
-- 
2.43.0


From 60924f64e939340268e373dc8609d47f8ebd443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 15/68] fix: let MultiTriggerAggregator take a single trigger
 as documented

---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index fc85529..b71a845 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -103,7 +103,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 will be processed by the aggfunc
         :type aggfunc: function
         """
-        self._triggers = triggers
+        self._triggers = listify(triggers)
         self.topology = topology
         super(
             MultiTriggerAggregator,
-- 
2.43.0


From b259e44c52d26efa6e411a837796f30105d25ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 16/68] fix: align series on their first or last event

What is missing before the first event of a series was taken for an event
of its own.
---
 trappy/stats/Correlator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 50d929d..0b45965 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -195,8 +195,9 @@ def align(s_x, s_y, mode="front"):
     :type mode: str
     """
 
-    p_x = np.flatnonzero(s_x)
-    p_y = np.flatnonzero(s_y)
+    # A series has no value (NaN) before its first event, ignore that
+    p_x = np.flatnonzero(s_x.fillna(0))
+    p_y = np.flatnonzero(s_y.fillna(0))
 
     if not len(p_x) or not len(p_y):
         return s_x, s_y, 0
-- 
2.43.0


From 63d12362a6e657137101fa56cebb53b77d38a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 17/68] fix: call any callable variable, and functions without
 arguments, in the grammar

Functions of recent numpy are not instances of FunctionType, so that
forwarding numpy.mean failed; func() raised IndexError.
---
 trappy/stats/grammar.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 86c7144..14728b1 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -25,7 +25,6 @@ from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
     alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
 import importlib
 import pandas as pd
-import types
 import numpy as np
 from trappy.stats.Topology import Topology
 from trappy.stats import StatConf
@@ -520,13 +519,12 @@ class Parser(object):
 
         params = tokens[0]
         func_name = params[0]
-        if func_name in self._pvars and isinstance(
-                self._pvars[func_name],
-                types.FunctionType):
+        if callable(self._pvars.get(func_name)):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-        return func(*params[1])
+        args = params[1] if len(params) > 1 else []
+        return func(*args)
 
     def _get_data_frame(self, cls):
         """Get the data frame from the BareTrace object, applying the window
-- 
2.43.0


From a03469d4ce84ab02c7a799b57f9e78eb574844fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 18/68] fix: don't mix up columns of the same name of different
 events in the grammar

Once a column of one event was accessed, accesses to a column of that name
of any other event silently returned the data of the first one, and so did
unknown variables whose second letter was the name of the column.
---
 trappy/stats/grammar.py | 52 +++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 14728b1..afd2d69 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -22,7 +22,8 @@ from __future__ import division
 from __future__ import unicode_literals
 from builtins import object
 from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
-    alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
+    alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group,\
+    ParseResults
 import importlib
 import pandas as pd
 import numpy as np
@@ -344,6 +345,8 @@ class Parser(object):
         self._parse_expr = get_parse_expression(
             self._parse_func, self._parse_var_id)
         self._agg_df = pd.DataFrame()
+        # Name in _agg_df of each column of an event that was accessed
+        self._columns = {}
         self._pivot_set = set()
         self._limit = kwargs.get("limit", StatConf.REINDEX_LIMIT_DEFAULT)
         self._method = kwargs.get("method", StatConf.REINDEX_METHOD_DEFAULT)
@@ -409,6 +412,20 @@ class Parser(object):
         self._accessor.searchString(expr)
         return self._parse_expr.parseString(expr)[0]
 
+    def _get_class(self, event):
+        """Get the parser class that an accessor names"""
+
+        if event in self._pvars:
+            return self._pvars[event]
+        elif event in self.data.class_definitions:
+            return self.data.class_definitions[event]
+        else:
+            try:
+                return str_to_attr(event)
+            except KeyError:
+                raise ValueError(
+                    "Can't find parser class for event {}".format(event))
+
     def _pivot(self, cls, column):
         """Pivot Data for concatenation"""
 
@@ -447,31 +464,29 @@ class Parser(object):
         """Pre-process accessors for super-indexing"""
 
         params = tokens[0]
-        if params[1] in self._agg_df.columns:
-            return self._agg_df[params[1]]
-
-        event = params[0]
         column = params[1]
+        cls = self._get_class(params[0])
 
-        if event in self._pvars:
-            cls = self._pvars[event]
-        elif event in self.data.class_definitions:
-            cls = self.data.class_definitions[event]
-        else:
-            try:
-                cls = str_to_attr(event)
-            except KeyError:
-                raise ValueError(
-                    "Can't find parser class for event {}".format(event))
+        key = (cls.name, column)
+        if key in self._columns:
+            return self._agg_df[self._columns[key]]
 
         data_frame = self._pivot(cls, column)
+
+        name = column
+        if name in self._agg_df.columns:
+            # Another event has a column of the same name
+            name = "{}:{}".format(*key)
+            data_frame = data_frame.rename(columns={column: name}, level=0)
+        self._columns[key] = name
+
         self._agg_df = pd.concat(
             [self._agg_df, data_frame], axis=1)
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
 
-        return self._agg_df[params[1]]
+        return self._agg_df[name]
 
     def _parse_for_info(self, tokens):
         """Parse Action for inspecting data accessors"""
@@ -512,7 +527,10 @@ class Parser(object):
             try:
                 return self._pvars[params]
             except KeyError:
-                return self._agg_df[params[1]]
+                if not isinstance(params, ParseResults):
+                    raise ValueError("Can't find variable {}".format(params))
+                cls = self._get_class(params[0])
+                return self._agg_df[self._columns[(cls.name, params[1])]]
 
     def _parse_func(self, tokens):
         """A function to parse a function string"""
-- 
2.43.0


From d628e57c9842b250a011c09f8edab051123b87d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 19/68] fix: keep super-indexed data in the order of time

pandas does not sort the union of the indexes, so that missing samples were
filled with values of later events.
---
 trappy/stats/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index afd2d69..ecae9ab 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -481,7 +481,7 @@ class Parser(object):
         self._columns[key] = name
 
         self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1)
+            [self._agg_df, data_frame], axis=1).sort_index()
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
-- 
2.43.0


From 742a0ea6802a4719f9638fb0e19b392175ae7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 20/68] fix: let the grammar pivot events added with
 add_parsed_event

The pivot was only set in the event, and not in its class, where
stats.grammar looks it up.
---
 trappy/bare_trace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/bare_trace.py b/trappy/bare_trace.py
index 36a8bc2..4c54fc7 100644
--- a/trappy/bare_trace.py
+++ b/trappy/bare_trace.py
@@ -125,14 +125,15 @@ class BareTrace(object):
             "name": name,
         }
 
+        if pivot:
+            kwords["pivot"] = pivot
+
         trace_class = DynamicTypeFactory(name, (Base,), kwords)
         self.class_definitions[name] = trace_class
 
         event = trace_class()
         self.trace_classes.append(event)
         event.data_frame = dfr
-        if pivot:
-            event.pivot = pivot
 
         setattr(self, name, event)
 
-- 
2.43.0


From 60a85c91184a655374ce6405f59ccfc518ca6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 21/68] fix: keep the pid of SysTrace markers that only have a
 pid

An end marker (E|1234) lost its pid, and markers whose pid isn't a number
(B|x|y) lost everything but their first letter.
---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 30270b8..124efe2 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -21,7 +21,7 @@ from trappy.ftrace import GenericFTrace
 import re
 
 SYSTRACE_EVENT = re.compile(
-    r'^(?P<event>[A-Z])(?=\||$)(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
+    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)(\|(?P<func>[^|]*)(\|(?P<data>.*))?)?)?$')
 
 class drop_before_trace(object):
     """Object that, when called, returns True if the line is not part of
-- 
2.43.0


From 62acba2fbffb0ec863b12cc4b66e4f4ef7dce754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 22/68] fix: keep the data of a Constraint whose window starts
 before all of it

Nor fail if there is none.
---
 trappy/plotter/Constraint.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 65f3de8..6a638bd 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -107,12 +107,13 @@ class Constraint(object):
         self._dup_resolved = False
         self._data = self.populate_data_frame()
 
-        if window:
+        if window and len(self._data):
             # We want to include the previous value before the window
             # and the next after the window in the dataset
-            min_idx = self._data.loc[:window[0]].index.max()
-            max_idx = self._data.loc[window[1]:].index.min()
-            self._data = self._data.loc[min_idx:max_idx]
+            before = self._data.loc[:window[0]].index
+            after = self._data.loc[window[1]:].index
+            self._data = self._data.loc[before.max() if len(before) else None:
+                                        after.min() if len(after) else None]
 
         self.result = self._apply()
         self.trace_index = trace_index
-- 
2.43.0


From 0bcbdf284fbcd12af50e1b391ab34a43bae31869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 23/68] fix: permute any number of traces with any number of
 columns

---
 trappy/plotter/Constraint.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 6a638bd..4ecb030 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -257,10 +257,11 @@ class ConstraintManager(object):
         self._constraints = []
 
         self._trace_expanded = False
-        self._expand()
         if zip_constraints:
+            self._expand()
             self._populate_zip_constraints()
         else:
+            self._expand_signals()
             self._populate_constraints()
 
     def _expand(self):
@@ -310,21 +311,34 @@ class ConstraintManager(object):
                 self._ip_vec[val] = normalize_list(self._max_len,
                                                    self._ip_vec[val])
 
+    def _expand_signals(self):
+        """Get as many templates as columns, for every trace"""
+
+        if min(self._lens) == 0:
+            raise RuntimeError("Essential Arg Missing")
+
+        self._max_len = max(self._lens[1:])
+        for val in (1, 2):
+            if self._lens[val] == self._max_len:
+                continue
+            if self._lens[val] > 1:
+                raise RuntimeError("Cannot Expand a list of Constraints")
+            self._ip_vec[val] = normalize_list(self._max_len,
+                                               self._ip_vec[val])
+
     def _populate_constraints(self):
         """Populate the constraints creating one for each column in
         each trace
 
         In a multi-trace, multicolumn scenario, constraints are created for
-        all the columns in each of the traces.  _populate_constraints()
-        creates one constraint for the first trace and first column, the
-        next for the second trace and second column,...  This function
+        all the columns in each of the traces: first all the columns of the
+        first trace, then those of the second trace,...  This function
         creates a constraint for every combination of traces and columns
         possible.
         """
 
         for trace_idx, trace in enumerate(self._ip_vec[0]):
-            for col in self._ip_vec[1]:
-                template = self._ip_vec[2][trace_idx]
+            for col, template in zip(self._ip_vec[1], self._ip_vec[2]):
                 constraint = Constraint(trace, self._pivot, col, template,
                                         trace_idx, self._filters, self.window)
                 self._constraints.append(constraint)
-- 
2.43.0


From d520b4ad8b2834617486a73fc58c9dcb222923f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 24/68] fix: sort pivots that are not whole numbers

---
 trappy/plotter/Constraint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 4ecb030..ec0f54f 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -381,7 +381,8 @@ class ConstraintManager(object):
         traces = list(range(self._lens[0]))
 
         try:
-            sorted_plist = sorted(p_set, key=int)
+            sorted_plist = sorted(p_set, key=lambda x: int(x)
+                                  if isinstance(x, str) else x)
         except (ValueError, TypeError):
             try:
                 sorted_plist = sorted(p_set, key=lambda x: int(x, 16))
-- 
2.43.0


From 838b93afc24f32de996609de583d081ee3fe7e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 25/68] fix: draw each pivot of each constraint on its own axes
 and with its own color

Plots of several constraints and pivots failed, or drew data on the wrong axes
with the wrong legend.
---
 trappy/plotter/BarPlot.py    | 16 ++++++-----
 trappy/plotter/Constraint.py | 11 ++++----
 trappy/plotter/LinePlot.py   |  3 ++-
 trappy/plotter/StaticPlot.py | 51 ++++++++++++++++++++++++------------
 4 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 19df378..024ff13 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -101,23 +101,25 @@ class BarPlot(StaticPlot):
         end_of_previous = [0] * max(len(x) for x in value_list)
 
         for i, (constraint, pivot) in enumerate(series_list):
-            result = constraint.result
-            bar_anchor = np.arange(len(result[pivot].values))
+            series_index = self._series_index[constraint, pivot]
+            values = constraint.result[pivot].values
+            bar_anchor = np.arange(len(values))
             if not stacked:
                 bar_anchor = bar_anchor + i * bar_width
 
             line_2d_list = axis.bar(
                 bar_anchor,
-                result[pivot].values,
-                bottom=end_of_previous,
+                values,
+                bottom=end_of_previous[:len(values)],
                 width=bar_width,
-                color=self._cmap.cmap(i),
+                color=self._cmap.cmap(series_index),
                 **args_to_forward
             )
 
             if stacked:
-                end_of_previous = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
+                for j, value in enumerate(values):
+                    end_of_previous[j] += value
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-            self.add_to_legend(i, line_2d_list[0], constraint, pivot, concat, permute)
+            self.add_to_legend(series_index, line_2d_list[0], constraint, pivot, concat, permute)
diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index ec0f54f..7051699 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -189,14 +189,15 @@ class Constraint(object):
 
     def __str__(self):
 
-        name = self.get_data_name()
+        return self.get_data_name() + ":" + self.get_signal_name()
 
-        if not self._uses_trappy_trace():
-            return name + ":" + str(self.column)
+    def get_signal_name(self):
+        """Get the name of the column, and of its event if there is one"""
 
-        return name + ":" + \
-            self._template.name + ":" + self.column
+        if not self._uses_trappy_trace():
+            return str(self.column)
 
+        return self._template.name + ":" + self.column
 
     def get_data_name(self):
         """Get name for the data member. This method
diff --git a/trappy/plotter/LinePlot.py b/trappy/plotter/LinePlot.py
index 3e899ea..0f8bd0a 100644
--- a/trappy/plotter/LinePlot.py
+++ b/trappy/plotter/LinePlot.py
@@ -158,7 +158,8 @@ class LinePlot(StaticPlot):
 
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
         """Internal Method called to plot data (series_list) on a given axis"""
-        for i, (constraint, pivot) in enumerate(series_list):
+        for constraint, pivot in series_list:
+            i = self._series_index[constraint, pivot]
             result = constraint.result
             line_2d_list = axis.plot(
                 result[pivot].index,
diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 332fff2..cc43677 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -19,13 +19,14 @@ from __future__ import print_function
 
 from builtins import str
 from abc import abstractmethod, ABCMeta
-from collections import defaultdict as ddict
+from collections import OrderedDict, defaultdict as ddict
 import matplotlib.pyplot as plt
 from trappy.plotter import AttrConf
 from trappy.plotter.Constraint import ConstraintManager
 from trappy.plotter.PlotLayout import PlotLayout
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
+from trappy.utils import listify
 from future.utils import with_metaclass
 
 
@@ -209,14 +210,15 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         legend_labels = self._attr["_legend_labels"]
 
         if concat and pivot == AttrConf.PIVOT_VAL:
-            legend_labels[series_index] = self._attr["column"]
+            legend_labels[series_index] = ",".join(
+                str(column) for column in listify(self._attr["column"]))
         elif concat:
             legend_labels[series_index] = "{0}: {1}".format(
                 self._attr["pivot"],
                 self._attr["map_label"].get(pivot, pivot)
             )
         elif permute:
-            legend_labels[series_index] = constraint._template.name + ":" + constraint.column
+            legend_labels[series_index] = constraint.get_signal_name()
         else:
             legend_labels[series_index] = str(constraint)
 
@@ -238,17 +240,14 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         self._fig = self._layout.get_fig()
 
         # Determine what constraint to plot and the corresponding pivot value
+        constraints = list(self.c_mgr)
         if permute:
-            legend_len = self.c_mgr._max_len
-            pivots = [y for _, y in pivot_vals]
-            c_dict = {c : str(c) for c in self.c_mgr}
-            c_list = sorted(c_dict.items(), key=lambda x: (x[1].split(":")[-1], x[1].split(":")[0]))
-            constraints = [c[0] for c in c_list]
-            cp_pairs = [(c, p) for c in constraints for p in sorted(set(pivots))]
+            # The number of constraints of each trace
+            legend_len = len(constraints) // len(listify(self.traces))
+            pivots = list(OrderedDict.fromkeys(p for _, p in pivot_vals))
         else:
-            legend_len = len_pivots if concat else len(self.c_mgr)
+            legend_len = len_pivots if concat else len(constraints)
             pivots = pivot_vals
-            cp_pairs = [(c, p) for c in self.c_mgr for p in pivots if p in c.result]
 
         # Initialise legend data and colormap
         self._attr["_legend_handles"] = [None] * legend_len
@@ -259,11 +258,26 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         else:
             self._cmap = ColorMap(legend_len)
 
-        # Group constraints/series with the axis they are to be plotted on
+        # Group constraints/series with the axis they are to be plotted on and
+        # number them: those with the same number have a common color and label
         figure_data = ddict(list)
-        for i, (constraint, pivot) in enumerate(cp_pairs):
-            axis = self._layout.get_axis(constraint.trace_index if concat else i)
-            figure_data[axis].append((constraint, pivot))
+        self._series_index = {}
+        for i, constraint in enumerate(constraints):
+            for j, pivot in enumerate(pivots):
+                if pivot not in constraint.result:
+                    continue
+
+                if concat:
+                    axis_index, series_index = i, j
+                elif permute:
+                    axis_index = pivot_vals.index((constraint.trace_index, pivot))
+                    series_index = i % legend_len
+                else:
+                    axis_index, series_index = j, i
+
+                axis = self._layout.get_axis(axis_index)
+                figure_data[axis].append((constraint, pivot))
+                self._series_index[constraint, pivot] = series_index
 
         # Plot each axis
         for axis, series_list in figure_data.items():
@@ -280,8 +294,11 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
                 axis.set_ylim(self._attr["ylim"])
 
         # Show legend
-        legend = self._fig.legend(self._attr["_legend_handles"],
-                         self._attr["_legend_labels"],
+        entries = [(handle, label) for handle, label
+                   in zip(self._attr["_legend_handles"],
+                          self._attr["_legend_labels"]) if handle is not None]
+        legend = self._fig.legend([handle for handle, _ in entries],
+                         [label for _, label in entries],
                          loc='lower center',
                          ncol=self._attr["legend_ncol"],
                          borderaxespad=0.)
-- 
2.43.0


From 88c555ea08d9e5fe0d4172f0dad0170b11dce63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 26/68] fix: merge series in ILinePlot with current versions of
 pandas

---
 trappy/plotter/ILinePlot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 779fb63..8fe1c0f 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -301,8 +301,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        ret = pd.Series(dedup_data, index=df_columns)
-        merged_df = pd.concat(ret.get_values(), axis=1)
+        merged_df = pd.concat(dedup_data, axis=1).sort_index()
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
-- 
2.43.0


From ba6958eabe6c1032e441240424fa7cdf61f3b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 27/68] fix: permute and concat with a single trace, column or
 pivots in ILinePlot

---
 trappy/plotter/ILinePlot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 8fe1c0f..6c066f2 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -32,7 +32,7 @@ from trappy.plotter.ILinePlotGen import ILinePlotGen
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
 from trappy.plotter import IPythonConf
-from trappy.utils import handle_duplicate_index
+from trappy.utils import handle_duplicate_index, listify
 import pandas as pd
 
 if not IPythonConf.check_ipython():
@@ -230,7 +230,7 @@ class ILinePlot(AbstractDataPlotter):
                     trace_idx, pivot = p_val
                     if constraint.trace_index != trace_idx:
                         continue
-                    legend = constraint._template.name + ":" + constraint.column
+                    legend = constraint.get_signal_name()
                 else:
                     pivot = p_val
                     legend = str(constraint)
@@ -240,7 +240,8 @@ class ILinePlot(AbstractDataPlotter):
                     data_dict[legend] = result[pivot]
 
             if permute:
-                title = self.traces[plot_index].name
+                title = next(constraint.get_data_name() for constraint in self.c_mgr
+                             if constraint.trace_index == trace_idx)
             elif pivot != AttrConf.PIVOT_VAL:
                 title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
             else:
@@ -272,7 +273,7 @@ class ILinePlot(AbstractDataPlotter):
             for pivot in pivot_vals:
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
-                        key = ",".join(self._attr["column"])
+                        key = ",".join(listify(self._attr["column"]))
                     else:
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
-- 
2.43.0


From 0c8c40b71d063fdef895bcfe663ca29d897bb461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 28/68] fix: interpolate merged series in ILinePlot by time,
 not by position

---
 trappy/plotter/ILinePlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 6c066f2..4c590b9 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -313,6 +313,6 @@ class ILinePlot(AbstractDataPlotter):
             merged_df = merged_df.ffill()
         else:
             # default
-            merged_df = merged_df.interpolate()
+            merged_df = merged_df.interpolate(method="index")
 
         return merged_df
-- 
2.43.0


From 53b425982aab12b94ade178c16efdf9da2085a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 29/68] fix: plot signals of which only some have a color

---
 trappy/plotter/AbstractDataPlotter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/AbstractDataPlotter.py b/trappy/plotter/AbstractDataPlotter.py
index 9d69fe6..316a659 100644
--- a/trappy/plotter/AbstractDataPlotter.py
+++ b/trappy/plotter/AbstractDataPlotter.py
@@ -22,6 +22,7 @@ from builtins import object
 from abc import abstractmethod, ABCMeta
 from pandas import DataFrame
 import re
+from trappy.plotter.ColorMap import ColorMap
 from trappy.utils import listify
 from functools import reduce
 from future.utils import with_metaclass
@@ -127,4 +128,8 @@ class AbstractDataPlotter(with_metaclass(ABCMeta, object)):
             colors.append(color)
 
         if any(colors):
-            self._attr["colors"] = colors
+            # Signals without a color get one of the default ones
+            default = ColorMap(len(colors))
+            self._attr["colors"] = [
+                color or [int(x * 255) for x in default.cmap(i)[:3]]
+                for i, color in enumerate(colors)]
-- 
2.43.0


From 8411d855d458afa7f17334a932ba4badfd3b653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 30/68] fix: drop the interval of a corrupted task that was
 renamed in get_trace_event_data

---
 trappy/plotter/Utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 1d116e6..765195b 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -74,8 +74,6 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             data[name][-1][1] = index
             del pmap[prev_pid]
 
-        name = "{}-{}".format(next_comm, next_pid)
-
         if next_pid in pmap:
             # Corrupted trace probably due to dropped events.  We
             # don't know when the pid in pmap finished.  We just
@@ -83,8 +81,8 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
                        format(next_pid, index)
             warnings.warn(warn_str)
-            del pmap[next_pid]
-            del data[name][-1]
+            # The task may have had another name when it started
+            del data[pmap.pop(next_pid)][-1]
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
@@ -94,6 +92,7 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             if pids and next_pid not in pids:
                 continue
 
+            name = "{}-{}".format(next_comm, next_pid)
             data[name].append([index, end_idx, row["__cpu"]])
             pmap[next_pid] = name
             procs.add(name)
-- 
2.43.0


From 9e40f0c1e3f3bb98899891cad1b94cbd77aa9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 31/68] fix: use the keys and the stride that EventPlot is
 given

---
 trappy/plotter/EventPlot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index ff7aee5..bcc3d82 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -121,7 +121,7 @@ class EventPlot(AbstractDataPlotter):
             lane_prefix="Lane: ",
             num_lanes=0,
             summary=True,
-            stride=False,
+            stride=AttrConf.EVENT_PLOT_STRIDE,
             lanes=None,
             color_map=None):
 
@@ -132,13 +132,13 @@ class EventPlot(AbstractDataPlotter):
         avgFunc = lambda x: sum([(evt[1] - evt[0]) for evt in x]) / float(len(x) + 1)
         avg = {k: avgFunc(v) for k, v in data.items()}
         # Filter keys with zero average time
-        keys = [x for x in avg if avg[x] != 0]
+        keys = [x for x in avg if x in keys and avg[x] != 0]
         graph = {}
         graph["lanes"] = self._get_lanes(lanes, lane_prefix, num_lanes, _data)
         graph["xDomain"] = domain
         graph["keys"] = sorted(keys, key=lambda x: avg[x], reverse=True)
         graph["showSummary"] = summary
-        graph["stride"] = AttrConf.EVENT_PLOT_STRIDE
+        graph["stride"] = stride
         graph["colorMap"] = color_map
         graph["data"] = self._group_data_by_lanes(_data)
         self._data = json.dumps(graph)
-- 
2.43.0


From 043c890112441bc2dc1a57f4f4dfdef6172d9a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 32/68] fix: normalize the load when a mapped cluster has no
 data

---
 trappy/cpu_power.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trappy/cpu_power.py b/trappy/cpu_power.py
index 8117020..cd504d6 100644
--- a/trappy/cpu_power.py
+++ b/trappy/cpu_power.py
@@ -178,6 +178,9 @@ class CpuInPower(Base):
         for cpumask in mapping_label:
             num_cpus = num_cpus_in_mask(cpumask)
             idx = dfr["cpus"] == cpumask
+            if not idx.any():
+                continue
+
             max_freq = max(dfr[idx]["freq"])
             load_series[idx] = load_series[idx] / (max_freq * num_cpus)
 
-- 
2.43.0


From 7c73afaf24de0a2967437a5a64f1a96a4f299355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 33/68] fix: plot the temperature of the given thermal zone
 only, also if it is 0

---
 trappy/plot_utils.py |  8 +++++---
 trappy/thermal.py    | 13 +++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 516ddf6..06eaa78 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,10 +157,11 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id:
-            gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
 
         try:
+            if tz_id is not None:
+                gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
+
             current_temp = gov_dfr["current_temperature"]
             delta_temp = gov_dfr["delta_temperature"]
             control_series = (current_temp + delta_temp) / 1000
@@ -172,7 +173,8 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
                                          ax=ax, legend_label=run.name,
                                          tz_id=tz_id)
         except ValueError:
-            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name)
+            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name,
+                                                  tz_id=tz_id)
 
     post_plot_setup(ax, title="Temperature", ylim=ylim)
     plt.legend(loc="best")
diff --git a/trappy/thermal.py b/trappy/thermal.py
index f2af808..3e02d11 100644
--- a/trappy/thermal.py
+++ b/trappy/thermal.py
@@ -134,12 +134,21 @@ class ThermalGovernor(Base):
     """The Pivot along which the data is orthogonal"""
 
     def plot_temperature(self, title="", width=None, height=None, ylim="range",
-                         ax=None, legend_label=""):
-        """Plot the temperature"""
+                         ax=None, legend_label="", tz_id=None):
+        """Plot the temperature
+
+        :param tz_id: only plot the temperature of this thermal zone
+        :type tz_id: int
+        """
         from matplotlib import pyplot as plt
         from trappy.plot_utils import normalize_title, pre_plot_setup, post_plot_setup
 
         dfr = self.data_frame
+        if tz_id is not None:
+            dfr = dfr[dfr["thermal_zone_id"] == tz_id]
+            if len(dfr) == 0:
+                raise ValueError("No thermal_power_allocator trace for thermal zone {}".format(tz_id))
+
         curr_temp = dfr["current_temperature"]
         control_temp_series = (curr_temp + dfr["delta_temperature"]) / 1000
         title = normalize_title("Temperature", title)
-- 
2.43.0


From 617bd5239c95a1f83b2fa4936681fa0cde2320f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 34/68] fix: fill gaps in the order of time when plotting the
 GPU with the cpus

---
 trappy/ftrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 83f4859..515ae7b 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -687,7 +687,8 @@ is part of the trace.
         for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
-                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1)
+                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs],
+                                     axis=1).sort_index()
             else:
                 allfreqs = cpu_allfreqs
 
@@ -709,7 +710,7 @@ is part of the trace.
         try:
             gpu_data = pd.DataFrame({"GPU":
                                      self.devfreq_in_power.data_frame["load"]})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1).sort_index()
         except KeyError:
             pass
 
@@ -741,7 +742,7 @@ is part of the trace.
             gpu_load = gpu_dfr["load"] * gpu_dfr["freq"] / gpu_max_freq
 
             gpu_data = pd.DataFrame({"GPU": gpu_load})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1).sort_index()
 
         load_data = load_data.fillna(method="pad")
         title = trappy.plot_utils.normalize_title("Normalized Utilization", title)
-- 
2.43.0


From 192217892bbe0d46c2d6817fddb617b7deaf67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 35/68] fix: tell input from output frequencies, and name the
 GPU, in the titles of histograms

---
 trappy/ftrace.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 515ae7b..3f922f2 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -60,7 +60,7 @@ def _plot_freq_hists(allfreqs, what, axis, title):
         this_title = trappy.plot_utils.normalize_title(this_title, title)
         xlim = (0, allfreqs[actor].max())
 
-        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "KHz", 20,
+        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "MHz", 20,
                              "Frequency", xlim, "default")
 
 SPECIAL_FIELDS_RE = re.compile(
@@ -679,21 +679,21 @@ is part of the trace.
             devfreq_out_all_freqs = None
             devfreq_in_all_freqs = None
 
-        out_allfreqs = (self.cpu_out_power.get_all_freqs(map_label),
+        out_allfreqs = ("out", self.cpu_out_power.get_all_freqs(map_label),
                         devfreq_out_all_freqs, ax[0:in_base_idx])
-        in_allfreqs = (self.cpu_in_power.get_all_freqs(map_label),
+        in_allfreqs = ("in", self.cpu_in_power.get_all_freqs(map_label),
                        devfreq_in_all_freqs, ax[in_base_idx:])
 
-        for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
+        for what, cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
-                devfreq_freqs.name = "GPU"
+                devfreq_freqs = devfreq_freqs.rename(columns={"freq": "GPU"})
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs],
                                      axis=1).sort_index()
             else:
                 allfreqs = cpu_allfreqs
 
             allfreqs.fillna(method="pad", inplace=True)
-            _plot_freq_hists(allfreqs, "out", axis, self.name)
+            _plot_freq_hists(allfreqs, what, axis, self.name)
 
     def plot_load(self, mapping_label, title="", width=None, height=None,
                   ax=None):
-- 
2.43.0


From a2929e99b92389e57360644d771ca52b6e92c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 36/68] fix: skip the runs without temperatures in
 plot_temperature_hist

---
 trappy/plot_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 06eaa78..bcde1cc 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -310,10 +310,8 @@ def plot_freq_hists(runs, map_label):
 
 def plot_temperature_hist(runs):
     """Plot temperature histograms for all the runs"""
-    num_runs = 0
-    for run in runs:
-        if len(run.thermal.data_frame):
-            num_runs += 1
+    runs = [run for run in runs if len(run.thermal.data_frame)]
+    num_runs = len(runs)
 
     if num_runs == 0:
         return
-- 
2.43.0


From a4d7b6498d409bbe815fee1c4b0a5f544ce00143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 37/68] fix: take the weights of more than ten actors in their
 order

---
 trappy/plot_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index bcde1cc..f8e11ae 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -248,9 +248,10 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         thermal_params = sysfs.get_parameters()
 
         sorted_weights = []
-        for param in sorted(thermal_params):
-            if re.match(r"cdev\d+_weight", param):
-                sorted_weights.append(thermal_params[param])
+        params = [param for param in thermal_params
+                  if re.match(r"cdev\d+_weight", param)]
+        for param in sorted(params, key=lambda p: int(re.search(r"\d+", p).group())):
+            sorted_weights.append(thermal_params[param])
 
         actor_weights.append(list(zip(actor_order, sorted_weights)))
 
-- 
2.43.0


From a117eba9221dfefcd9d02edbdf3b412005d28d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 38/68] fix: plot the weighted input power of the runs that
 have weights

---
 trappy/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index f8e11ae..f9c1759 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -266,6 +266,9 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         axis = [axis]
 
     for ax, run, weights in zip(axis, runs, actor_weights):
+        if not weights:
+            continue
+
         run.thermal_governor.plot_weighted_input_power(weights, title=run.name,
                                                        ax=ax)
 
-- 
2.43.0


From b10c05d70fce55bd983dc286f15a17c14bdcf6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 39/68] fix: let plot_trace plot traces that don't tell the
 number of cpus

---
 trappy/plotter/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/__init__.py b/trappy/plotter/__init__.py
index d9d57c5..fd9edf8 100644
--- a/trappy/plotter/__init__.py
+++ b/trappy/plotter/__init__.py
@@ -80,7 +80,12 @@ def plot_trace(trace,
             trace = trappy.FTrace(trace)
 
     data, procs, domain = Utils.get_trace_event_data(trace, execnames, pids)
+    num_cpus = getattr(trace, "_cpus", None)
+    if num_cpus is None:
+        # Not all traces know how many cpus there are
+        num_cpus = 1 + trace.sched_switch.data_frame["__cpu"].max()
+
     trace_graph = EventPlot.EventPlot(data, procs, domain,
                                       lane_prefix="CPU :",
-                                      num_lanes=int(trace._cpus))
+                                      num_lanes=int(num_cpus))
     trace_graph.view()
-- 
2.43.0


From 535c780b91eef111a2df521d485421510c55c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 40/68] fix: don't cut the last character of sysfs files
 without a trailing newline

---
 trappy/wa/sysfs_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 1401594..43f27ed 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -68,7 +68,8 @@ class SysfsExtractor(object):
             with open(property_path) as fin:
                 contents = fin.read()
                 # Trim trailing newline
-                contents = contents[:-1]
+                if contents.endswith("\n"):
+                    contents = contents[:-1]
 
                 try:
                     ret[property_name] = int(contents)
-- 
2.43.0


From a7bf85fd0fb34cbd52b58fc0e8fc4bac9cc2fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 41/68] fix: print the parameters of sysfs with any version of
 pandas

---
 trappy/wa/sysfs_extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 43f27ed..15f6781 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -17,6 +17,7 @@ from __future__ import division
 from __future__ import print_function
 
 from builtins import object
+from collections import OrderedDict
 import os
 import pandas as pd
 import re
@@ -92,6 +93,6 @@ class SysfsExtractor(object):
             return
 
         params_items = [(key, [value]) for key, value in sorted(params.items())]
-        dfr = pd.DataFrame.from_items(params_items, orient="index",
-                                      columns=["Value"])
+        dfr = pd.DataFrame.from_dict(OrderedDict(params_items), orient="index",
+                                     columns=["Value"])
         display(HTML(dfr.to_html(header=False)))
-- 
2.43.0


From ffc71aac4e8d70d4184b3d98dd5476952dd3e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 42/68] fix: let SchedLoadAvgTask.get_pids work with any
 version of pandas

---
 trappy/sched.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/sched.py b/trappy/sched.py
index 425c2fd..98ac4a5 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -56,7 +56,7 @@ class SchedLoadAvgTask(Base):
         """Returns a list of (comm, pid) that contain
         'key' in their 'comm'."""
         dfr = self.data_frame.drop_duplicates(subset=['comm', 'pid'])
-        dfr = dfr.ix[:, ['comm', 'pid']]
+        dfr = dfr.loc[:, ['comm', 'pid']]
 
         return dfr[dfr['comm'].str.contains(key)].values.tolist()
 
-- 
2.43.0


From c15d6ec1a88314650043793aeec5fd5f1292664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 43/68] fix: keep the end of inlined files without a trailing
 newline

---
 trappy/nbexport/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index a55cc2d..abcc60e 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -82,7 +82,7 @@ class TrappyPlotterPreprocessor(Preprocessor):
                     continue
 
                 with open(import_file) as fin:
-                    final_lines.extend([l[:-1] for l in fin.readlines()])
+                    final_lines.extend([l.rstrip('\n') for l in fin.readlines()])
 
                 self.inlined_files.append(import_file)
                 continue
-- 
2.43.0


From a923c9a3fe741d80e960b68f6fc51d6ac4931418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 44/68] fix: inline scripts in every notebook that an exporter
 exports

---
 trappy/nbexport/exporter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index abcc60e..28daa0d 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -46,6 +46,15 @@ class TrappyPlotterPreprocessor(Preprocessor):
         self.inlined_files = []
         self.sourced_libs = []
 
+    def preprocess(self, nb, resources):
+        """Filter a notebook.  Each exported page needs its own copy of the
+        files and libraries"""
+
+        self.inlined_files = []
+        self.sourced_libs = []
+
+        return super(TrappyPlotterPreprocessor, self).preprocess(nb, resources)
+
     def preprocess_cell(self, cell, resources, cell_index):
         """Check if cell has text/html output and filter it"""
 
-- 
2.43.0


From 93d2dc2d6499bcb63322bab9239577e7ab7a1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 45/68] fix: enlarge the axis for results of which some are
 missing

---
 trappy/wa/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 238d39d..7f9ac2e 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -40,8 +40,8 @@ class Result(pd.DataFrame):
         (_, _, plot_y_min, plot_y_max) = plt.axis()
 
         concat_data = pd.concat(data[s] for s in data)
-        data_min = min(concat_data)
-        data_max = max(concat_data)
+        data_min = concat_data.min()
+        data_max = concat_data.max()
 
         # A good margin can be 10% of the data range
         margin = (data_max - data_min) / 10
-- 
2.43.0


From edf13aaaf2599f44b9865f07251724d11244475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 46/68] fix: read the numbers of a CSV exactly

---
 trappy/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/base.py b/trappy/base.py
index 7e91d3e..7c76bdd 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -327,7 +327,8 @@ class Base(object):
             index_col=0,
             # This ensures cached vs parsed timestamps are converted using the
             # same method, aka python's float() and not numpy's
-            converters={'Time' : float}
+            converters={'Time' : float},
+            float_precision="round_trip"
         )
         self.optimize_dataframe()
 
-- 
2.43.0


From dfc2eb435380d92925e706bee2031961827e4f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 47/68] fix: EventPlot's information on an interval looks it up
 in its lane

The intervals of a name are grouped by lane since EventPlot.py does so,
but Ctrl + Alt + right click searched them as if they were a list, and
threw or found nothing.
---
 trappy/plotter/js/EventPlot.js | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 14a0024..1696e84 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -63,23 +63,23 @@ var EventPlot = (function () {
      */
     var getCurrentInfo = function(ePlot, x0, y0) {
 
-        for (name in ePlot.items) {
+        for (var name in ePlot.items) {
+
+            var data = ePlot.items[name][y0];
+            if (!data)
+                continue;
 
-            var data = ePlot.items[name];
             var xMax = ePlot.zoomScale.domain()[1];
             var right = search_data(data, 0, xMax, 0, data.length - 1);
             var left = search_data(data, 1, x0, 0, right);
 
-            if (data) {
-                var candidate = data[left];
-                if (candidate[0] <= x0 &&
-                        candidate[1] >= x0 &&
-                        candidate[2] == y0)
-                    return {
-                            name: name,
-                            info: candidate
-                        };
-            }
+            var candidate = data[left];
+            if (candidate[0] <= x0 && candidate[1] >= x0)
+                return {
+                        name: name,
+                        lane: y0,
+                        info: candidate
+                    };
         }
     }
 
@@ -304,7 +304,7 @@ var EventPlot = (function () {
                         .toFixed(6) + ")")
 
                     removeContextRect(ePlot);
-                    ePlot.contextRect = drawContextRect(ePlot, current.info[0], current.info[1], current.info[2], true)
+                    ePlot.contextRect = drawContextRect(ePlot, current.info[0], current.info[1], current.lane, true)
                     ePlot.iDesc.currentDisp.attr("stroke", ePlot.colourAxis(current.name));
                 }
             }
-- 
2.43.0


From 55ad4659bc80c9bea45a5a229ab4600b110fbafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 48/68] fix: EventPlot gives each name the color that color_map
 has for it

Names without a color in color_map shifted the colors of those after
them.
---
 trappy/plotter/js/EventPlot.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 1696e84..cbca515 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -120,11 +120,15 @@ var EventPlot = (function () {
                 // Colour Ordinal scale. Uses Category20 Colors
                 colours = d3.scale.category20().range();
             } else {
-                // Use colours provided by user
+                // Use colours provided by user, and those of Category20
+                // for the names that were given none
+                var defaults = d3.scale.category20().range();
                 var colours = [];
-                for (var i in names)
+                for (var i = 0; i < names.length; i++)
                     if (names[i] in d.colorMap)
                         colours.push(d.colorMap[names[i]]);
+                    else
+                        colours.push(defaults[i % defaults.length]);
             }
             colourAxis = d3.scale.ordinal()
                 .range(colours)
-- 
2.43.0


From 0adcf37f4be68f0200be47e60893e5813d45affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 49/68] fix: an EventPlot without summary follows the size of
 its window

Its resize handler threw on the missing summary before it had redrawn
the view.
---
 trappy/plotter/js/EventPlot.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index cbca515..4cba94c 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -439,7 +439,8 @@ var EventPlot = (function () {
 
                 resize_main(ePlot);
                 resize_info(ePlot);
-                resize_mini(ePlot);
+                if (showSummary)
+                    resize_mini(ePlot);
                 zoomed();
 
             }
@@ -462,8 +463,6 @@ var EventPlot = (function () {
 
         d3.select(ePlot.mini.node().parentNode)
             .attr("width", ePlot.div.width());
-        ePlot.iDesc.info_svg
-            .attr("width", ePlot.div.width());
         ePlot.mini.selectAll("line")
             .attr("x2", ePlot.width);
         ePlot.mini.call(ePlot.miniAxis);
@@ -484,8 +483,10 @@ var EventPlot = (function () {
         var width_box_one = infoProps.BOX_WIDTH_RATIO * ePlot.width;
         var width_box_two = ePlot.width - width_box_one;
 
+        ePlot.iDesc.info_svg
+            .attr("width", ePlot.div.width());
         ePlot.iDesc.info
-            .attr("width", width);
+            .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
             .attr("width", width_box_one - infoProps.BOX_BUFFER);
         ePlot.iDesc.currentDisp
-- 
2.43.0


From 83e1534c23de81ae39b6390474b39b930abf6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 50/68] fix: resizing an EventPlot redraws the axis of its
 summary

It drew a second axis at the top and left the old one as it was.
---
 trappy/plotter/js/EventPlot.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 4cba94c..02b53c7 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -465,7 +465,7 @@ var EventPlot = (function () {
             .attr("width", ePlot.div.width());
         ePlot.mini.selectAll("line")
             .attr("x2", ePlot.width);
-        ePlot.mini.call(ePlot.miniAxis);
+        ePlot.mini.select(".axis").call(ePlot.miniAxis);
         ePlot.mini.selectAll(".miniItem").remove();
         drawMiniPaths(ePlot);
     }
-- 
2.43.0


From d3b594634d214be4c9501568c5a9823d1125daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 51/68] fix: EventPlots on one page don't share their scales

brushScale, width and height were globals, so that an earlier plot
moved the axis of the last one and its brush used the width of it.
---
 trappy/plotter/js/EventPlot.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 02b53c7..2b5561c 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -85,8 +85,8 @@ var EventPlot = (function () {
 
     var generate = function (div_name, base, chart_data) {
 
-        var margin, brush, x, ext, yMain, chart, main,
-            mainAxis,
+        var margin, width, mainHeight, brush, x, ext, yMain,
+            chart, main, mainAxis, brushScale,
             itemRects, items, colourAxis, tip, lanes;
 
         var process_chart_data = function (d) {
-- 
2.43.0


From be24e5cfb767265e88adbce533de775c2aaab31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 52/68] fix: zoom and brush an EventPlot correctly after a
 resize

The zoom behaviour kept the old range and the brush the old width, so
that what was drawn after a resize didn't fit the axis.
---
 trappy/plotter/js/EventPlot.js | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 2b5561c..52a418a 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -428,15 +428,25 @@ var EventPlot = (function () {
 
             var resize = function() {
 
-                var width = div.width() - margin.left
-                    - margin.right;
+                var scale = zoom.scale();
+                var t = zoom.translate();
+
+                /* Keep the same window in view */
+                t[0] /= width;
+                width = div.width() - margin.left - margin.right;
+                t[0] *= width;
 
                 /* Update scale ranges */
                 x.range([0, width]);
-                zoomScale.range([0, width]);
                 brushScale.range([0, width]);
                 ePlot.width = width;
 
+                /* The zoom behaviour works on a copy of its scale, that
+                 * has to be replaced
+                 */
+                zoomScale.domain(x.domain()).range([0, width]);
+                zoom.x(zoomScale).scale(scale).translate(t);
+
                 resize_main(ePlot);
                 resize_info(ePlot);
                 if (showSummary)
-- 
2.43.0


From c7251cfeaf6ffb9a9bb547f73a1ec3ff6d846b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 53/68] fix: ILinePlots without a group don't join that of an
 earlier plot

The default group was the hash of an object that is freed after view(),
so that plots created later often got the same one and shared axes.
---
 trappy/plotter/ILinePlotGen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index cc86cbd..e163630 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -185,6 +185,8 @@ class ILinePlotGen(object):
         self.num_plots = num_plots
         self._fig_map = {}
         self._fig_index = 0
+        # The hash of an object that is gone may be that of another one
+        self._default_group = "group_" + uuid.uuid4().hex
 
         self._single_plot = False
         if self.num_plots == 0:
@@ -249,10 +251,10 @@ class ILinePlotGen(object):
 
         self._check_add_scatter(fig_params)
 
-        # Use a hash of this object as a default for the sync group, so that if
+        # Use a name of this object as a default for the sync group, so that if
         # 'sync_zoom=True' then by default (i.e. if 'group' is not specified),
         # all the plots in a figure are synced.
-        fig_params["syncGroup"] = self._attr.get("group", str(hash(self)))
+        fig_params["syncGroup"] = self._attr.get("group", self._default_group)
         fig_params["syncZoom"] = self._attr.get("sync_zoom",
                                                 AttrConf.DEFAULT_SYNC_ZOOM)
 
-- 
2.43.0


From 98e29d5b965bfa40c7f730be97a94953bea3a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 54/68] fix: join the figures of an ILinePlot of which one has
 no data

Dygraph has no rows for a figure without data, and sync() threw on
them, leaving the other figures with axes of their own.
---
 trappy/plotter/js/ILinePlot.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 309e90d..0ff42aa 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -36,7 +36,8 @@ var ILinePlot = ( function() {
 
         for (var div_name in graphs) {
 
-            if (graphs[div_name].group == group) {
+            if (graphs[div_name].group == group &&
+                graphs[div_name].graph.numRows() > 0) {
                 syncGraphs.push(graphs[div_name].graph);
                 syncZoom = syncZoom & graphs[div_name].syncZoom;
 
-- 
2.43.0


From 2037f931a29a6b0dc6400a9f19183e46a93ee554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 55/68] fix: zooming out of joined ILinePlots shows all of
 their data

When figures were joined while they showed less than their data, the
padding was put in between of the rows and the data outside of it
could not be shown any more.
---
 trappy/plotter/js/ILinePlot.js | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 0ff42aa..7c2201d 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -32,6 +32,7 @@ var ILinePlot = ( function() {
         var syncGraphs = Array();
         var xRange;
         var yRange;
+        var xExtremes;
         var syncZoom = true;
 
         for (var div_name in graphs) {
@@ -43,6 +44,7 @@ var ILinePlot = ( function() {
 
                 var xR = graphs[div_name].graph.xAxisRange();
                 var yR = graphs[div_name].graph.yAxisRange();
+                var xE = graphs[div_name].graph.xAxisExtremes();
 
                 if (xRange != undefined) {
                     if (xR[0] < xRange[0])
@@ -59,10 +61,26 @@ var ILinePlot = ( function() {
                         yRange[1] = yR[1];
                 } else
                     yRange = yR;
+
+                if (xExtremes != undefined) {
+                    if (xE[0] < xExtremes[0])
+                        xExtremes[0] = xE[0];
+                    if (xE[1] > xExtremes[1])
+                        xExtremes[1] = xE[1];
+                } else
+                    xExtremes = xE;
             }
         }
 
         if (syncGraphs.length >= 2) {
+
+            /*
+             * The window may be smaller than the data, and the padding
+             * has to be outside of both
+             */
+            xExtremes[0] = Math.min(xExtremes[0], xRange[0]);
+            xExtremes[1] = Math.max(xExtremes[1], xRange[1]);
+
             if (syncZoom) {
                 if (syncObjs[group] != undefined)
                     syncObjs[group].detach();
@@ -87,14 +105,14 @@ var ILinePlot = ( function() {
                     var _decoy_elem = new Array(graph.rawData_[0].length);
                     graph.rawData_.unshift(_decoy_elem);
                 }
-                graph.rawData_[0][0] = xRange[0];
+                graph.rawData_[0][0] = xExtremes[0];
 
                 if (graph.padBack_ == undefined) {
                     graph.padBack_ = true;
                     var _decoy_elem = new Array(graph.rawData_[0].length);
                     graph.rawData_.push(_decoy_elem);
                 }
-                graph.rawData_[graph.rawData_.length - 1][0] = xRange[1];
+                graph.rawData_[graph.rawData_.length - 1][0] = xExtremes[1];
             });
         }
     };
-- 
2.43.0


From d106963467423ccbb7d75ac5c12bc5e431d11605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 56/68] fix: install plotter resources completely or not at all

A download that failed half way (or a killed process) left a truncated script
that was taken for the complete one from then on, and two processes that
installed at the same time could fail to create the directory or read a script
that the other one was copying.
---
 trappy/plotter/IPythonConf.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index 173ed2d..ad24099 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -25,6 +25,8 @@ standard_library.install_aliases()
 import urllib.request, urllib.parse, urllib.error
 import os
 import shutil
+import uuid
+from contextlib import contextmanager
 from distutils.version import StrictVersion as V
 
 D3_PLOTTER_URL = "https://cdnjs.cloudflare.com/ajax/libs/d3/3.5.6/d3.min.js"
@@ -54,6 +56,23 @@ PLOTTER_SCRIPTS = "plotter_scripts"
 """The installation directory of plotter JS files in the
 IPython webserver"""
 
+@contextmanager
+def _replace_resource(to_path):
+    """Provide a temporary path to write to, which replaces to_path once complete
+
+    This way a resource that is there is complete, even if receiving it
+    failed half way, or another process installs it at the same time.
+    """
+    tmp_path = "{}.{}.tmp".format(to_path, uuid.uuid4().hex)
+    try:
+        yield tmp_path
+        os.replace(tmp_path, to_path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
+
+
 def install_http_resource(url, to_path):
     """Install a HTTP Resource (eg. javascript) to
     a destination on the disk
@@ -65,7 +84,8 @@ def install_http_resource(url, to_path):
     :type to_path: str
     """
     try:
-        urllib.request.urlretrieve(url, filename=to_path)
+        with _replace_resource(to_path) as tmp_path:
+            urllib.request.urlretrieve(url, filename=tmp_path)
     except IOError:
         raise ImportError("Could not receive Web Resource {}"
                           .format(to_path))
@@ -83,7 +103,8 @@ def install_local_resource(from_path, to_path):
     """
     base_dir = os.path.dirname(__file__)
     from_path = os.path.join(base_dir, from_path)
-    shutil.copy(from_path, to_path)
+    with _replace_resource(to_path) as tmp_path:
+        shutil.copy(from_path, tmp_path)
 
 
 def install_resource(from_path, to_path):
@@ -122,8 +143,7 @@ def iplot_install(module_name):
             module_name)
 
         # Ensure if the directory exists
-        if not os.path.isdir(resource_dest_dir):
-            os.mkdir(resource_dest_dir)
+        os.makedirs(resource_dest_dir, exist_ok=True)
         resource_dest_path = os.path.join(resource_dest_dir, resource_name)
         install_resource(resource, resource_dest_path)
 
@@ -207,6 +227,5 @@ def get_scripts_path(profile=None):
     """
 
     dir_name = os.path.join(get_ipython_dir(profile), PLOTTER_SCRIPTS)
-    if not os.path.isdir(dir_name):
-        os.makedirs(dir_name)
+    os.makedirs(dir_name, exist_ok=True)
     return dir_name
-- 
2.43.0


From 62534af26ea2ea33426237d9edab1bc951f91bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 57/68] fix: sign published notebooks with nbformat

IPython.nbformat is gone, publish_interactive_plots.py couldn't start.
---
 scripts/publish_interactive_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index 1473923..76b1b64 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -25,7 +25,7 @@ from __future__ import print_function
 
 import os
 import argparse
-from IPython.nbformat.sign import TrustNotebookApp
+from nbformat.sign import TrustNotebookApp
 from argparse import RawTextHelpFormatter
 
 # Logging Configuration
@@ -81,7 +81,7 @@ def publish(source, target):
         file_fh.write(txt)
 
     trust = TrustNotebookApp()
-    trust.sign_notebook(target)
+    trust.sign_notebook_file(target)
     logging.info("Signed and Saved: %s", target)
 
 def main():
-- 
2.43.0


From a2a671eef92034d03dd1fd804f671eed7bcd2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 58/68] fix: publish EventPlot's d3 library

The pages of EventPlot call it d3.min, published notebooks kept the local path.
---
 scripts/publish_interactive_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index 76b1b64..db11969 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -45,7 +45,7 @@ def change_resource_paths(txt):
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3"),
         IPythonConf.D3_TIP_URL)
     txt = txt.replace(
-        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.v3.min"),
+        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.min"),
         IPythonConf.D3_PLOTTER_URL)
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/EventPlot"),
-- 
2.43.0


From 2c0db8debc0526cd80a0429a19b4bc5eef1a6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 59/68] fix: refer to modules without .js in published
 notebooks

require.js appends it, the libraries of published plots weren't found.
---
 scripts/publish_interactive_plots.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index db11969..7dbd602 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -35,6 +35,11 @@ from trappy.plotter import IPythonConf
 logging.basicConfig(level=logging.INFO)
 
 
+def module_url(url):
+    """The path of a module for require.js, which appends .js itself"""
+    return os.path.splitext(url)[0]
+
+
 def change_resource_paths(txt):
     """Change the resource paths from local to
        Web URLs
@@ -43,25 +48,25 @@ def change_resource_paths(txt):
     # Replace the path for d3-tip
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3"),
-        IPythonConf.D3_TIP_URL)
+        module_url(IPythonConf.D3_TIP_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.min"),
-        IPythonConf.D3_PLOTTER_URL)
+        module_url(IPythonConf.D3_PLOTTER_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/EventPlot"),
         "https://rawgit.com/sinkap/7f89de3e558856b81f10/raw/46144f8f8c5da670c54f826f0c634762107afc66/EventPlot")
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/synchronizer"),
-        IPythonConf.DYGRAPH_SYNC_URL)
+        module_url(IPythonConf.DYGRAPH_SYNC_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/dygraph-combined"),
-        IPythonConf.DYGRAPH_COMBINED_URL)
+        module_url(IPythonConf.DYGRAPH_COMBINED_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/ILinePlot"),
         "https://rawgit.com/sinkap/648927dfd6985d4540a9/raw/69d6f1f9031ae3624c15707315ce04be1a9d1ac3/ILinePlot")
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/underscore-min"),
-        IPythonConf.UNDERSCORE_URL)
+        module_url(IPythonConf.UNDERSCORE_URL))
 
     logging.info("Updated Library Paths...")
     return txt
-- 
2.43.0


From de6db8b8179e5a66a97161e6f47f46e435969b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 60/68] fix: read and write published notebooks as UTF-8

That's what notebooks are, whatever the locale.
---
 scripts/publish_interactive_plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index 7dbd602..61472c3 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -23,6 +23,7 @@ from __future__ import unicode_literals
 from __future__ import division
 from __future__ import print_function
 
+import io
 import os
 import argparse
 from nbformat.sign import TrustNotebookApp
@@ -79,10 +80,10 @@ def publish(source, target):
 
     txt = ""
 
-    with open(source, 'r') as file_fh:
+    with io.open(source, 'r', encoding='utf-8') as file_fh:
         txt = change_resource_paths(file_fh.read())
 
-    with open(target, 'w') as file_fh:
+    with io.open(target, 'w', encoding='utf-8') as file_fh:
         file_fh.write(txt)
 
     trust = TrustNotebookApp()
-- 
2.43.0


From 9fe52d16615be94c9cda9a4ae2c3f2a6bc80d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 61/68] fix: don't require a title of the layouts of plots

Correlator.plot() has none and raised KeyError.
---
 trappy/plotter/PlotLayout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/PlotLayout.py b/trappy/plotter/PlotLayout.py
index 9bbb1c5..43a3a92 100644
--- a/trappy/plotter/PlotLayout.py
+++ b/trappy/plotter/PlotLayout.py
@@ -81,7 +81,7 @@ class PlotLayout(object):
                 self._attr["width"] * self.cols,
                 self._attr["length"] * self.rows))
 
-        if self._attr['title']:
+        if self._attr.get('title'):
             self._attr["figure"].suptitle(
                     self._attr['title'],
                     fontsize=AttrConf.TITLE_SIZE,
-- 
2.43.0


From 921d58d227b830d39d9a63796550594e9f5ea12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 62/68] fix: pivot raw syscalls by a column that they have

---
 trappy/raw_syscalls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/raw_syscalls.py b/trappy/raw_syscalls.py
index 1fce0e6..c293e57 100644
--- a/trappy/raw_syscalls.py
+++ b/trappy/raw_syscalls.py
@@ -22,7 +22,7 @@ class SysEnter(Base):
     """Parse sys enter"""
 
     unique_word = "sys_enter:"
-    pivot = "pid"
+    pivot = "__pid"
     parse_raw = False
     pat = re.compile(r"NR (\d+) \(([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+)\)")
 
@@ -55,7 +55,7 @@ class SysExit(Base):
     """Parse sys exit"""
 
     unique_word = "sys_exit:"
-    pivot = "pid"
+    pivot = "__pid"
     parse_raw = False
     pat = re.compile("NR ([-+]?\d+) = ([-+]?\d+)")
 
-- 
2.43.0


From 18720b5fe54ee4120bc2fb7933112a75c0cee1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 63/68] fix: don't read the cache of an event that is cut in
 its last row

---
 trappy/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trappy/base.py b/trappy/base.py
index 7c76bdd..e5eb6fc 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -22,6 +22,7 @@ from builtins import zip
 from builtins import range
 from builtins import object
 from past.builtins import basestring
+import io
 import json
 import re
 import pandas as pd
@@ -385,10 +386,14 @@ class Base(object):
                 self.data_frame = pd.DataFrame()
                 return
 
+            data = fin.read()
+            if not data.endswith("\n"):
+                raise ValueError("{} is incomplete".format(fname))
+
             dtypes = [str if dtype == "object" else dtype
                       for _, dtype in header["columns"]]
             data_frame = pd.read_csv(
-                fin,
+                io.StringIO(data),
                 header=None,
                 index_col=0,
                 dtype=dict(enumerate([float] + dtypes)),
-- 
2.43.0


From 574ad5230151286d4e2524dc03d962ddf7f3adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 64/68] fix: normalise the time of events without altering the
 data given

---
 trappy/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index e5eb6fc..6f40326 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -425,6 +425,6 @@ class Base(object):
         :type basetime: float
         """
         if basetime and not self.data_frame.empty:
-            self.data_frame.reset_index(inplace=True)
-            self.data_frame["Time"] = self.data_frame["Time"] - basetime
-            self.data_frame.set_index("Time", inplace=True)
+            # Don't alter the data frame, which may not be (only) ours
+            self.data_frame = self.data_frame.set_index(
+                pd.Index(self.data_frame.index - basetime, name="Time"))
-- 
2.43.0


From 0af72ee9b4a75be4bda88eb5081218841a23cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 65/68] fix: stack bars over missing values

---
 trappy/plotter/BarPlot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 024ff13..b2d5f5d 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -118,7 +118,9 @@ class BarPlot(StaticPlot):
 
             if stacked:
                 for j, value in enumerate(values):
-                    end_of_previous[j] += value
+                    # A missing value has no bar to put the next one on
+                    if not np.isnan(value):
+                        end_of_previous[j] += value
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-- 
2.43.0


From b1702b40f003d4ca919bc2bdcca66a3f7540fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:55 +0000
Subject: [PATCH 66/68] fix: take only what the kernel prints for an integer
 for one

---
 trappy/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trappy/base.py b/trappy/base.py
index 6f40326..b6d9512 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -198,6 +198,10 @@ class Base(object):
         :type string: str
         """
 
+        # Python also takes text such as "1_000" for an integer
+        if not re.match(r"[-+0-9A-Fa-fxXoObB]+$", string):
+            return string
+
         try:
             # Let python figure out the base
             return int(string, base=0)
-- 
2.43.0


From a3676c3e53885e696588c08ab0282cba78823adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:05 +0000
Subject: [PATCH 67/68] fix: don't serve FTrace's cache to SysTrace, nor the
 reverse

---
 trappy/ftrace.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 3f922f2..fac6a38 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -203,8 +203,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _get_cache_key(self, trace_class):
         # What the cached data of an event depends on
-        return [self._trace_md5sum, trace_class.unique_word,
-                bool(trace_class.parse_raw)]
+        return [self.__class__.__name__, self._trace_md5sum,
+                trace_class.unique_word, bool(trace_class.parse_raw)]
 
     def _calc_trace_md5sum(self):
         with open(self.trace_path, 'rb') as f:
@@ -232,6 +232,12 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             warnings.warn(warnstr)
             return False
 
+        # FTrace and SysTrace read the same file differently
+        if cache_metadata.get("class") != self.__class__.__name__:
+            warnstr = "Cached data was read by another class, invalidating cache."
+            warnings.warn(warnstr)
+            return False
+
         return True
 
     def _prepare_cache_dir(self):
@@ -299,6 +305,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Additionnal metadata can be saved by overriding this method
         metadata = {}
 
+        metadata["class"] = self.__class__.__name__
         metadata["md5sum"] = self._trace_md5sum
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
-- 
2.43.0


From 9f4a9acd99c27be0c72a273e0464aab62e027c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 68/68] fix: plot columns that have numbers for names

---
 trappy/plotter/Constraint.py | 2 +-
 trappy/plotter/ILinePlot.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 7051699..7a252ce 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -197,7 +197,7 @@ class Constraint(object):
         if not self._uses_trappy_trace():
             return str(self.column)
 
-        return self._template.name + ":" + self.column
+        return self._template.name + ":" + str(self.column)
 
     def get_data_name(self):
         """Get name for the data member. This method
diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 4c590b9..99d56d1 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -273,7 +273,8 @@ class ILinePlot(AbstractDataPlotter):
             for pivot in pivot_vals:
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
-                        key = ",".join(listify(self._attr["column"]))
+                        key = ",".join(
+                            str(column) for column in listify(self._attr["column"]))
                     else:
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
-- 
2.43.0

