From 86ae598d50a5ccbe04cc0c62b00e322a64982bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 01/76] fix: load a systrace that has no sched_switch event

SysTrace computes the number of cpus from the sched_switch events.  A
systrace without any left the constructor with a KeyError: '__cpu'.
---
 trappy/systrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 41d806f..237980c 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -69,7 +69,8 @@ class SysTrace(GenericFTrace):
 
         try:
             self._cpus = 1 + self.sched_switch.data_frame["__cpu"].max()
-        except AttributeError:
+        except (AttributeError, KeyError):
+            # sched_switch is not parsed, or the trace has no such event
             pass
 
     def trace_hasnt_started(self):
-- 
2.43.0


From a32b210dac131879d4de3d105b802f28fabf4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 02/76] fix: find arrays in a trace whose first event has none

The scan for arrays stopped at the first event of a class without one,
but that event may just have had an empty array (load={} is removed from
the line before it gets here).  All the arrays of the class were then
reported as one string instead of one column per element.
---
 trappy/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 40a6f9e..ecf6e90 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -157,10 +157,6 @@ class Base(object):
 
                 line = line[match.end():]
 
-            # Stop scanning if the trace doesn't have arrays
-            if len(ret) == 0:
-                break
-
         return ret
 
     def append_data(self, time, comm, pid, cpu, line, data):
-- 
2.43.0


From 5b8616001691371c3f5b06697ec50053b7f76058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 03/76] fix: keep tied events apart when the time is normalized

Events with the same timestamp are told apart by moving the second one to
the next float.  When the event's time is more than twice the base time,
subtracting the latter can round both to the same value, so that a
normalized trace again has events that happen at the same time.
---
 trappy/ftrace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1d26fb5..4fd5e4c 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -425,6 +425,10 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     # nanosecond-based computation should not really see any
                     # difference. Normalized timestamps can help keeping the
                     # absolute value down.
+                    # Step over two floats, not one: normalizing the time can
+                    # round two neighbours to the same value, which would lose
+                    # the ordering again.
+                    timestamp = np.nextafter(timestamp, math.inf)
                     timestamp = np.nextafter(timestamp, math.inf)
 
                 if not self.basetime:
-- 
2.43.0


From 8161767068d18de3ece68cc5dee858e562021ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 04/76] fix: parse the trace when its cache is damaged

A cache directory without metadata.json (the loader was killed before it
wrote it, somebody removed it), with a metadata.json that is not valid
(torn by a crash or a full disk), or that cannot be removed made every
load of the trace raise an exception until the user deleted it by hand.
---
 trappy/ftrace.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 4fd5e4c..94ee1f6 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -276,14 +276,23 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         if not os.path.exists(cache_path):
             return
 
-        metadata = self._get_cache_metadata()
+        # The cache is only there to save time: whatever is wrong with it, the
+        # trace can still be parsed
+        try:
+            metadata = self._get_cache_metadata()
 
-        if not self._is_cache_valid(metadata):
-            shutil.rmtree(cache_path)
+            if not self._is_cache_valid(metadata):
+                shutil.rmtree(cache_path)
+                return
+
+            # Load metadata
+            self._load_metadata_from_cache(metadata)
+        except Exception as err:
+            warnings.warn("TRAPpy: Couldn't use the cache, reading the trace: {}".format(err))
+            self.basetime = 0
+            self.endtime = 0
             return
 
-        # Load metadata
-        self._load_metadata_from_cache(metadata)
         self.max_window = self._calc_max_window()
 
         # Load trace data
-- 
2.43.0


From 06b24de9fa16dd8c98c8af53e7f1e8b63e7f263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 05/76] fix: a trace loaded from the cache always has _cpus and
 _version

When the header of the trace doesn't say how many cpus there are, a parsed
FTrace has _cpus = None but one loaded from the cache had no such
attribute at all.
---
 trappy/ftrace.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 94ee1f6..79466df 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -940,9 +940,6 @@ class FTrace(GenericFTrace):
         metadata_keys = ["version", "cpus"]
         res = {}
 
-        for key in metadata_keys:
-            setattr(self, "_" + key, None)
-
         with io.open(self.file_to_parse, 'r', encoding='utf-8') as fin:
             for line in fin:
                 if not metadata_keys:
@@ -964,5 +961,5 @@ class FTrace(GenericFTrace):
     def __populate_trace_metadata(self, metadata):
         self.metadata = metadata
 
-        for key, value in metadata.items():
-            setattr(self, "_" + key, value)
+        for key in ["version", "cpus"]:
+            setattr(self, "_" + key, metadata.get(key))
-- 
2.43.0


From 4d571276673f7295a5ffc511a034eff4b197f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 06/76] fix: a cached load gives exactly what parsing the trace
 gives

The data went through a plain CSV file, so a load from the cache could
differ from the load that filled the cache:

 - values changed: '007', 'NA', '123' (a string), an empty string, a
   column that mixes numbers and strings, integers over 64 bits, None,
   columns of strings that look like numbers (e.g. all those of ext4
   events, the '00000030' masks)
 - a file torn by a crash, a full disk or another process writing it was
   taken for the whole data
 - a parser registered with the name of another one, or with another
   parse_raw, got the data of the old one.  So did SysTrace with the cache
   of FTrace, and tracing_mark_write when other parsers take its events.

Describe the data in the first line of each file: the types of the
columns, a checksum and all that the data depends on.  A file that isn't
what it should be is ignored, as it was already the case for one that
cannot be read.
---
 trappy/base.py   | 83 ++++++++++++++++++++++++++++++++++++++++++++++++
 trappy/ftrace.py | 54 +++++++++++++++++++++++++------
 2 files changed, 127 insertions(+), 10 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index ecf6e90..a4891b6 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -22,6 +22,9 @@ from builtins import zip
 from builtins import range
 from builtins import object
 from past.builtins import basestring
+import hashlib
+import io
+import json
 import re
 import pandas as pd
 import warnings
@@ -329,6 +332,86 @@ class Base(object):
         )
         self.optimize_dataframe()
 
+    def write_cache(self, fname, key):
+        """Save the data so that :meth:`read_cache` gets exactly the same
+
+        The first line of the file describes the data, the rest of it
+        is the data in CSV format with the cells of the columns that
+        don't have a numeric type encoded as JSON.
+
+        :param fname: The name of the file
+        :type fname: str
+
+        :param key: What the data depends on
+        :type key: dict
+        """
+        dfr = self.data_frame
+        dtypes = [str(dtype) for dtype in dfr.dtypes]
+        columns = [dfr.iloc[:, idx] for idx in range(len(dtypes))]
+
+        for idx, column in enumerate(columns):
+            if column.dtype.kind == 'O':
+                if not all(c is None or type(c) in (str, int, float, bool)
+                           for c in column):
+                    raise ValueError("Can't cache column {}".format(dfr.columns[idx]))
+                columns[idx] = column.map(json.dumps)
+            elif column.dtype.kind not in 'iufb':
+                raise ValueError("Can't cache column {}".format(dfr.columns[idx]))
+
+        data = b""
+        if dtypes:
+            if dfr.index.dtype.kind != 'f':
+                raise ValueError("Can't cache an index that isn't time")
+            data = pd.DataFrame(dict(enumerate(columns)), index=dfr.index)
+            data = data.to_csv(header=False).encode("utf-8")
+
+        header = {"key": key, "md5sum": hashlib.md5(data).hexdigest(),
+                  "columns": list(dfr.columns), "dtypes": dtypes}
+
+        with open(fname, "wb") as fout:
+            fout.write(json.dumps(header).encode("utf-8") + b"\n")
+            fout.write(data)
+
+    def read_cache(self, fname, key):
+        """Load the data saved by :meth:`write_cache`
+
+        :param fname: The name of the file
+        :type fname: str
+
+        :param key: What the data depends on
+        :type key: dict
+
+        :raises ValueError: if the file is incomplete or it was saved
+            with another key
+        """
+        with open(fname, "rb") as fin:
+            header = json.loads(fin.readline().decode("utf-8"))
+            data = fin.read()
+
+        if header["key"] != key:
+            raise ValueError("The cached data is for something else")
+        if header["md5sum"] != hashlib.md5(data).hexdigest():
+            raise ValueError("The cached data is damaged")
+
+        dfr = pd.DataFrame()
+        if header["columns"]:
+            # This ensures cached vs parsed timestamps are converted using the
+            # same method, aka python's float() and not numpy's
+            converters = {0: float}
+            dtypes = {}
+            for idx, dtype in enumerate(header["dtypes"], 1):
+                if dtype == "object":
+                    converters[idx] = json.loads
+                else:
+                    dtypes[idx] = dtype
+            dfr = pd.read_csv(io.BytesIO(data), header=None, index_col=0,
+                              converters=converters, dtype=dtypes,
+                              float_precision="round_trip")
+            dfr.columns = header["columns"]
+            dfr.index.name = "Time"
+
+        self.data_frame = dfr
+
     def normalize_time(self, basetime):
         """Substract basetime from the Time of the data frame
 
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 79466df..227bafd 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -209,21 +209,38 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
         return metadata
 
+    def _get_cache_key(self, trace_class):
+        # All that the cached data of a class depends on. Additional things can
+        # be added by overriding this method
+        key = {
+            "md5sum": self._trace_md5sum,
+            "tracer": self.__class__.__name__,
+            "unique_word": trace_class.unique_word,
+        }
+
+        if trace_class.fallback:
+            # It gets the events that nobody else wants
+            key["other_words"] = sorted(
+                c.unique_word for c in self.trace_classes if c is not trace_class)
+
+        return key
+
     def _is_cache_valid(self, cache_metadata):
-        for key in ["md5sum", "basetime", "endtime"]:
+        for key in ["md5sum", "tracer", "basetime", "endtime"]:
             if key not in cache_metadata.keys():
                 warnstr = "Cache metadata is erroneous, invalidating cache"
                 warnings.warn(warnstr)
                 return False
 
-        with open(self.trace_path, 'rb') as f:
-            trace_md5sum = hashlib.md5(f.read()).hexdigest()
-
-        if cache_metadata["md5sum"] != trace_md5sum:
+        if cache_metadata["md5sum"] != self._trace_md5sum:
             warnstr = "Cached data is from another trace, invalidating cache."
             warnings.warn(warnstr)
             return False
 
+        if cache_metadata["tracer"] != self.__class__.__name__:
+            warnings.warn("Cached data is from another parser, invalidating cache.")
+            return False
+
         return True
 
     def _prepare_cache_dir(self):
@@ -254,7 +271,10 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     continue
 
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.write_csv(csv_file)
+                try:
+                    trace_class.write_cache(csv_file, self._get_cache_key(trace_class))
+                except (TypeError, ValueError) as err:
+                    warnings.warn("TRAPpy: {} not cached: {}".format(trace_class, err))
         except OSError as err:
             warnings.warn(
                 "TRAPpy: Cache not created due to OS error: {0}".format(err))
@@ -264,9 +284,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Additionnal metadata can be saved by overriding this method
         metadata = {}
 
-        metadata["md5sum"] = hashlib.md5(
-            open(self.trace_path, 'rb').read()
-        ).hexdigest()
+        metadata["md5sum"] = self._trace_md5sum
+        metadata["tracer"] = self.__class__.__name__
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
         return metadata
@@ -299,7 +318,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         for trace_class in self.trace_classes:
             try:
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.read_csv(csv_file)
+                trace_class.read_cache(csv_file, self._get_cache_key(trace_class))
                 trace_class.cached = True
             except:
                 warnstr = "TRAPpy: Couldn't read {} from cache, reading it from trace".format(trace_class)
@@ -321,8 +340,13 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         if self.normalize_time:
             self._normalize_time()
 
+    def _get_trace_md5sum(self):
+        with open(self.trace_path, 'rb') as f:
+            return hashlib.md5(f.read()).hexdigest()
+
     def _do_parse(self):
         if not self.__class__.disable_cache:
+            self._trace_md5sum = self._get_trace_md5sum()
             self._load_cache()
 
             # Check if cache data is enough
@@ -842,6 +866,16 @@ class FTrace(GenericFTrace):
 
         self.__populate_trace_metadata(metadata["ftrace"])
 
+    def _get_cache_key(self, trace_class):
+        res = super(FTrace, self)._get_cache_key(trace_class)
+
+        if self.read_from_dat:
+            # trace-cmd prints these events differently
+            self.__get_raw_event_list()
+            res["raw_events"] = sorted(self.raw_events)
+
+        return res
+
     def _get_metadata_to_cache(self):
         res = super(FTrace, self)._get_metadata_to_cache()
 
-- 
2.43.0


From 0977825a500806d4214309aff842329543760b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 07/76] fix: don't give the events of cached classes to the
 fallback class

When only some of the classes could be loaded from the cache, the trace was
parsed without them, so the events they would have matched ended up in
tracing_mark_write.
---
 trappy/ftrace.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 227bafd..163b5a0 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -469,7 +469,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     # Now that we know the basetime, we can derive max_window
                     self.max_window = self._calc_max_window()
 
-                if trace_class:
+                # Events whose data was in the cache are matched all the same:
+                # otherwise the fallback class would take them
+                if trace_class and not trace_class.cached:
                     data_str = fields_match.group('data')
 
                     # Remove empty arrays from the trace
@@ -520,9 +522,6 @@ is part of the trace.
         cls_for_unique_word = {}
         for trace_name in self.class_definitions.keys():
             trace_class = getattr(self, trace_name)
-            if trace_class.cached:
-                continue
-
             unique_word = trace_class.unique_word
             if unique_word in cls_for_unique_word:
                 # This means TRAPpy has a nasty bug, like the one fixed in
-- 
2.43.0


From b6c0e40796876ca51da53c375ae66d7ac2e89501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 08/76] fix: read the trace even if no event of it is asked for

With scope="custom" and no events there is nothing to find in the cache, so
the cache seemed to be enough and the trace wasn't read: basetime and endtime
were 0 and the number of cpus unknown.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 163b5a0..70af7bf 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -350,7 +350,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             self._load_cache()
 
             # Check if cache data is enough
-            if all([c.cached for c in self.trace_classes]):
+            if self.trace_classes and all([c.cached for c in self.trace_classes]):
                 self._apply_user_parameters()
                 return
 
-- 
2.43.0


From 2f443ae6c329feaee12642129c724762dca259f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 09/76] fix: don't cache a trace that changes while it is read

The events that were parsed would be saved with the md5sum of the previous
contents, and given for them if they ever come back.
---
 trappy/ftrace.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 70af7bf..e3b1166 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -252,6 +252,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _update_cache(self):
         try:
+            # What was parsed may not be what the md5sum is for
+            if self._get_trace_md5sum() != self._trace_md5sum:
+                warnings.warn("TRAPpy: The trace has changed while reading it, not caching it")
+                return
+
             # Recreate basic cache directories only if nothing cached
             if not any([c.cached for c in self.trace_classes]):
                 self._prepare_cache_dir()
-- 
2.43.0


From 876a894a6db8e986df3454b787ec104cb28242fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 10/76] fix: don't leave a temporary trace behind when reading
 a .dat fails

trace-cmd ran while the temporary file was already there, and nothing removed
it if trace-cmd or anything after it failed.
---
 trappy/ftrace.py | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index e3b1166..97f3dbc 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -359,18 +359,19 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 self._apply_user_parameters()
                 return
 
-        self._parsing_setup()
-
-        self.__parse_trace_file(self.file_to_parse)
-        self.finalize_objects()
+        try:
+            self._parsing_setup()
 
-        # Update (or create) cache directory
-        if not self.__class__.disable_cache:
-            self._update_cache()
+            self.__parse_trace_file(self.file_to_parse)
+            self.finalize_objects()
 
-        self._apply_user_parameters()
+            # Update (or create) cache directory
+            if not self.__class__.disable_cache:
+                self._update_cache()
 
-        self._parsing_teardown()
+            self._apply_user_parameters()
+        finally:
+            self._parsing_teardown()
 
     def _parsing_setup(self):
         # By default, the file pointed by trace_path is parsed. However, an
@@ -861,8 +862,9 @@ class FTrace(GenericFTrace):
     def _parsing_teardown(self):
         super(FTrace, self)._parsing_teardown()
 
-        # Remove the .txt trace if it was generated from a .dat
-        if self.read_from_dat:
+        # Remove the .txt trace if it was generated from a .dat. It wasn't if
+        # the setup was interrupted before it got anywhere.
+        if getattr(self, "file_to_parse", self.trace_path) != self.trace_path:
             os.remove(self.file_to_parse)
 
     def _load_metadata_from_cache(self, metadata):
@@ -949,16 +951,21 @@ class FTrace(GenericFTrace):
 
         cmd.append(trace_dat)
 
-        with NamedTemporaryFile(delete=False) as fout:
-            try:
-                output = run(cmd, capture_output=True, check=True)
-            except OSError as exc:
-                if exc.errno == 2 and not exc.filename:
-                    raise OSError(2, "trace-cmd not found in PATH, is it installed?")
-                else:
-                    raise
+        try:
+            output = run(cmd, capture_output=True, check=True)
+        except OSError as exc:
+            if exc.errno == 2 and not exc.filename:
+                raise OSError(2, "trace-cmd not found in PATH, is it installed?")
+            else:
+                raise
 
-            fout.write(output.stdout)
+        fout = NamedTemporaryFile(delete=False)
+        try:
+            with fout:
+                fout.write(output.stdout)
+        except:
+            os.remove(fout.name)
+            raise
 
         return fout.name
 
-- 
2.43.0


From 9213f6b017a303517775d17caaf00d68304cc82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 11/76] fix: don't change the caller's data when separating
 duplicate stamps

---
 trappy/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 0bc6302..8ca0455 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -18,6 +18,8 @@
 from __future__ import division
 from __future__ import unicode_literals
 
+import pandas as pd
+
 def listify(to_select):
     """Utitlity function to handle both single and
     list inputs
@@ -76,10 +78,11 @@ def handle_duplicate_index(data,
     # so that the order of events is preserved after fixing the duplicated
     # timestamp.
     if '__line' in data:
-        data.sort_values(['Time', '__line'], inplace=True)
+        data = data.sort_values(['Time', '__line'])
 
     index = data.index
-    new_index = index.values
+    # The index may be shared with other objects, leave it as it is
+    new_index = index.values.copy()
 
     dups = index[index.duplicated()].unique()
 
@@ -109,4 +112,7 @@ def handle_duplicate_index(data,
             delta += delta
             dup_index_left += 1
 
-    return data.reindex(new_index)
+    data = data.copy()
+    data.index = pd.Index(new_index, name=index.name)
+
+    return data
-- 
2.43.0


From c245b882763ec9c9de0847a95ec8287451ddb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:30 +0000
Subject: [PATCH 12/76] fix: don't read 1_000 as a number

---
 trappy/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trappy/base.py b/trappy/base.py
index a4891b6..cdef578 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -199,6 +199,10 @@ class Base(object):
         :type string: str
         """
 
+        if "_" in string:
+            # That's not a number, even if python would read 1_000 as one
+            return string
+
         try:
             # Let python figure out the base
             return int(string, base=0)
-- 
2.43.0


From 0a269c18710035332962b291c25c8ccf08d5432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 13/76] fix: keep the parser's data sorted by time, and whole
 when interrupted

---
 trappy/stats/grammar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 86c7144..657345e 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -466,11 +466,13 @@ class Parser(object):
                     "Can't find parser class for event {}".format(event))
 
         data_frame = self._pivot(cls, column)
-        self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1)
+        agg_df = pd.concat(
+            [self._agg_df, data_frame], axis=1, sort=True)
 
         if self._fill:
-            self._agg_df = self._agg_df.fillna(method="pad")
+            agg_df = agg_df.fillna(method="pad")
+
+        self._agg_df = agg_df
 
         return self._agg_df[params[1]]
 
-- 
2.43.0


From 20fef7985ed8c8b445dc090a1eb70af777e86c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 14/76] fix: don't take a column of another event in
 expressions

---
 trappy/stats/grammar.py | 54 ++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 657345e..6f4226f 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -345,6 +345,8 @@ class Parser(object):
         self._parse_expr = get_parse_expression(
             self._parse_func, self._parse_var_id)
         self._agg_df = pd.DataFrame()
+        # The name in _agg_df of each column of an event
+        self._agg_names = {}
         self._pivot_set = set()
         self._limit = kwargs.get("limit", StatConf.REINDEX_LIMIT_DEFAULT)
         self._method = kwargs.get("method", StatConf.REINDEX_METHOD_DEFAULT)
@@ -447,34 +449,45 @@ class Parser(object):
     def _pre_process(self, tokens):
         """Pre-process accessors for super-indexing"""
 
-        params = tokens[0]
-        if params[1] in self._agg_df.columns:
-            return self._agg_df[params[1]]
+        event, column = tokens[0]
+        cls = self._get_class(event)
 
-        event = params[0]
-        column = params[1]
+        if (cls, column) in self._agg_names:
+            return self._agg_df[self._agg_names[cls, column]]
 
-        if event in self._pvars:
-            cls = self._pvars[event]
-        elif event in self.data.class_definitions:
-            cls = self.data.class_definitions[event]
-        else:
-            try:
-                cls = str_to_attr(event)
-            except KeyError:
-                raise ValueError(
-                    "Can't find parser class for event {}".format(event))
+        # Other events may have a column of the same name
+        name = column
+        if name in self._agg_df.columns:
+            name = "{}:{}".format(cls.name, column)
 
         data_frame = self._pivot(cls, column)
+        data_frame = data_frame.rename(columns={column: name}, level=0)
         agg_df = pd.concat(
             [self._agg_df, data_frame], axis=1, sort=True)
 
         if self._fill:
             agg_df = agg_df.fillna(method="pad")
 
-        self._agg_df = agg_df
+        agg_names = dict(self._agg_names)
+        agg_names[cls, column] = name
+        self._agg_df, self._agg_names = agg_df, agg_names
+
+        return self._agg_df[name]
 
-        return self._agg_df[params[1]]
+    def _get_class(self, event):
+        """Return the class of the event in an accessor"""
+
+        if event in self._pvars:
+            return self._pvars[event]
+
+        if event in self.data.class_definitions:
+            return self.data.class_definitions[event]
+
+        try:
+            return str_to_attr(event)
+        except KeyError:
+            raise ValueError(
+                "Can't find parser class for event {}".format(event))
 
     def _parse_for_info(self, tokens):
         """Parse Action for inspecting data accessors"""
@@ -512,10 +525,11 @@ class Parser(object):
         try:
             return float(params)
         except (ValueError, TypeError):
-            try:
+            if isinstance(params, str):
                 return self._pvars[params]
-            except KeyError:
-                return self._agg_df[params[1]]
+
+            event, column = params
+            return self._agg_df[self._agg_names[self._get_class(event), column]]
 
     def _parse_func(self, tokens):
         """A function to parse a function string"""
-- 
2.43.0


From 0317a4d808c694a84f67a2b3ba174c3a026ab503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 15/76] fix: don't change the kept results when aggregating

---
 trappy/stats/Aggregator.py | 13 ++++++-------
 trappy/stats/grammar.py    |  4 +++-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 715d47c..c473b1f 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -140,18 +140,17 @@ class MultiTriggerAggregator(AbstractAggregator):
 
         for group in level_groups:
             group = listify(group)
+            # The result is kept for the next call, work on copies of it
+            level_res = self._result[group[0]].copy()
             if self._aggfunc is not None:
-                level_res = self._aggfunc(self._result[group[0]], **kwargs)
-            else:
-                level_res = self._result[group[0]]
+                level_res = self._aggfunc(level_res, **kwargs)
 
             for node in group[1:]:
+                node_res = self._result[node].copy()
                 if self._aggfunc is not None:
-                    node_res = self._aggfunc(self._result[node], **kwargs)
-                else:
-                    node_res = self._result[node]
+                    node_res = self._aggfunc(node_res, **kwargs)
 
-                level_res += node_res
+                level_res = level_res + node_res
 
             result.append(level_res)
 
diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 6f4226f..01d8a4d 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -529,7 +529,9 @@ class Parser(object):
                 return self._pvars[params]
 
             event, column = params
-            return self._agg_df[self._agg_names[self._get_class(event), column]]
+            name = self._agg_names[self._get_class(event), column]
+            # The caller may change what it gets
+            return self._agg_df[name].copy()
 
     def _parse_func(self, tokens):
         """A function to parse a function string"""
-- 
2.43.0


From 3f599329bcee6c531cc46b6f7d4bc2d1ae6f8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 16/76] fix: don't save a static plot that is half drawn

---
 trappy/plotter/StaticPlot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 332fff2..7ab065f 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -235,7 +235,7 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
             length=self._attr["length"],
             title=self._attr['title'])
 
-        self._fig = self._layout.get_fig()
+        fig = self._layout.get_fig()
 
         # Determine what constraint to plot and the corresponding pivot value
         if permute:
@@ -280,7 +280,7 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
                 axis.set_ylim(self._attr["ylim"])
 
         # Show legend
-        legend = self._fig.legend(self._attr["_legend_handles"],
+        legend = fig.legend(self._attr["_legend_handles"],
                          self._attr["_legend_labels"],
                          loc='lower center',
                          ncol=self._attr["legend_ncol"],
@@ -289,6 +289,9 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         self._layout.finish(num_of_axes)
 
+        # Only a plot that is complete can be saved
+        self._fig = fig
+
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
         """Internal Method called to plot data (series_list) on a given axis"""
         raise NotImplementedError("Method Not Implemented")
-- 
2.43.0


From 66ca07f7377ef13b7a7726f6d476a797d3550294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 17/76] fix: use the column that the trigger was given

---
 trappy/stats/Trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 586a76c..05f3e03 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -105,7 +105,7 @@ class Trigger(object):
         data_frame = data_frame[mask]
 
         if isinstance(self._value, str):
-            return data_frame[value]
+            return data_frame[self._value]
         else:
             return pd.Series(self._value, index=data_frame.index)
 
-- 
2.43.0


From 78f44fdf78abc303073ea62a285cb6289473a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 18/76] fix: a trigger with no event of its pivot keeps the
 columns

---
 trappy/stats/Trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 05f3e03..5f5d55a 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -94,7 +94,7 @@ class Trigger(object):
         data_frame = trappy_event.data_frame
         data_frame = data_frame[data_frame[self._pivot] == pivot_val]
 
-        mask = [True for _ in range(len(data_frame))]
+        mask = pd.Series(True, index=data_frame.index)
 
         for key, value in self._filters.items():
             if hasattr(value, "__call__"):
-- 
2.43.0


From 359b285faa584a784e6338307d8c09cbef132fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 19/76] fix: don't use a method that pandas dropped to align
 plots

---
 trappy/plotter/ILinePlot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 779fb63..d644ee5 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -301,8 +301,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        ret = pd.Series(dedup_data, index=df_columns)
-        merged_df = pd.concat(ret.get_values(), axis=1)
+        merged_df = pd.concat(dedup_data, axis=1)
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
-- 
2.43.0


From 94e49f528e32d4adc8bc5032cf07129175609dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 20/76] fix: install the scripts of plots whole or not at all

---
 trappy/plotter/IPythonConf.py | 44 +++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index 173ed2d..60a578e 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -23,8 +23,10 @@ from __future__ import print_function
 from future import standard_library
 standard_library.install_aliases()
 import urllib.request, urllib.parse, urllib.error
+from http.client import HTTPException
 import os
 import shutil
+import uuid
 from distutils.version import StrictVersion as V
 
 D3_PLOTTER_URL = "https://cdnjs.cloudflare.com/ajax/libs/d3/3.5.6/d3.min.js"
@@ -54,6 +56,37 @@ PLOTTER_SCRIPTS = "plotter_scripts"
 """The installation directory of plotter JS files in the
 IPython webserver"""
 
+def _install_whole(to_path, write):
+    """Have a file written elsewhere, and move it to its destination when it
+    is complete
+
+    :param to_path: Destination path on the disk
+    :type to_path: str
+
+    :param write: Function that writes the file to the path it is given
+    :type write: function
+    """
+    tmp_path = "{}.{}.tmp".format(to_path, uuid.uuid4().hex)
+    try:
+        write(tmp_path)
+        with open(tmp_path, "rb+") as fout:
+            os.fsync(fout.fileno())
+        getattr(os, "replace", os.rename)(tmp_path, to_path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
+
+
+def _make_dirs(path):
+    """Make a directory, unless somebody else makes it first"""
+    try:
+        os.makedirs(path)
+    except OSError:
+        if not os.path.isdir(path):
+            raise
+
+
 def install_http_resource(url, to_path):
     """Install a HTTP Resource (eg. javascript) to
     a destination on the disk
@@ -65,8 +98,9 @@ def install_http_resource(url, to_path):
     :type to_path: str
     """
     try:
-        urllib.request.urlretrieve(url, filename=to_path)
-    except IOError:
+        _install_whole(to_path,
+                       lambda tmp: urllib.request.urlretrieve(url, filename=tmp))
+    except (IOError, HTTPException):
         raise ImportError("Could not receive Web Resource {}"
                           .format(to_path))
 
@@ -83,7 +117,7 @@ def install_local_resource(from_path, to_path):
     """
     base_dir = os.path.dirname(__file__)
     from_path = os.path.join(base_dir, from_path)
-    shutil.copy(from_path, to_path)
+    _install_whole(to_path, lambda tmp: shutil.copyfile(from_path, tmp))
 
 
 def install_resource(from_path, to_path):
@@ -123,7 +157,7 @@ def iplot_install(module_name):
 
         # Ensure if the directory exists
         if not os.path.isdir(resource_dest_dir):
-            os.mkdir(resource_dest_dir)
+            _make_dirs(resource_dest_dir)
         resource_dest_path = os.path.join(resource_dest_dir, resource_name)
         install_resource(resource, resource_dest_path)
 
@@ -208,5 +242,5 @@ def get_scripts_path(profile=None):
 
     dir_name = os.path.join(get_ipython_dir(profile), PLOTTER_SCRIPTS)
     if not os.path.isdir(dir_name):
-        os.makedirs(dir_name)
+        _make_dirs(dir_name)
     return dir_name
-- 
2.43.0


From af65373be0736e874e33bb486ddf277f430dbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 21/76] fix: give each exported notebook the scripts of its
 plots

---
 trappy/nbexport/exporter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index a55cc2d..3e20b1f 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -46,6 +46,12 @@ class TrappyPlotterPreprocessor(Preprocessor):
         self.inlined_files = []
         self.sourced_libs = []
 
+    def preprocess(self, nb, resources):
+        """Each notebook needs scripts and libraries of its own"""
+        self.inlined_files = []
+        self.sourced_libs = []
+        return super(TrappyPlotterPreprocessor, self).preprocess(nb, resources)
+
     def preprocess_cell(self, cell, resources, cell_index):
         """Check if cell has text/html output and filter it"""
 
-- 
2.43.0


From 24d9a4d2273991fe900df53d8a27ca27ed2b3d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 22/76] fix: don't cut the last character of an exported script

---
 trappy/nbexport/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index 3e20b1f..9823ac2 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -88,7 +88,7 @@ class TrappyPlotterPreprocessor(Preprocessor):
                     continue
 
                 with open(import_file) as fin:
-                    final_lines.extend([l[:-1] for l in fin.readlines()])
+                    final_lines.extend([l.rstrip("\n") for l in fin.readlines()])
 
                 self.inlined_files.append(import_file)
                 continue
-- 
2.43.0


From 0e593e1502a619c099ae8c2c215d0828bb3ae3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 23/76] fix: drop the interval of a renamed task when its
 switch was lost

---
 trappy/plotter/Utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 1d116e6..5ff068d 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -74,8 +74,6 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             data[name][-1][1] = index
             del pmap[prev_pid]
 
-        name = "{}-{}".format(next_comm, next_pid)
-
         if next_pid in pmap:
             # Corrupted trace probably due to dropped events.  We
             # don't know when the pid in pmap finished.  We just
@@ -83,8 +81,7 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
                        format(next_pid, index)
             warnings.warn(warn_str)
-            del pmap[next_pid]
-            del data[name][-1]
+            del data[pmap.pop(next_pid)][-1]
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
@@ -94,6 +91,7 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             if pids and next_pid not in pids:
                 continue
 
+            name = "{}-{}".format(next_comm, next_pid)
             data[name].append([index, end_idx, row["__cpu"]])
             pmap[next_pid] = name
             procs.add(name)
-- 
2.43.0


From a60826dba6ec4315fa4c1b4f666fd18b4de76be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 24/76] fix: show the residency of tasks whose name is a number

---
 trappy/plotter/Utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 5ff068d..23d676d 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -67,7 +67,8 @@ def get_trace_event_data(trace, execnames=None, pids=None):
     for index, row in data_frame.iterrows():
         prev_pid = row["prev_pid"]
         next_pid = row["next_pid"]
-        next_comm = row["next_comm"]
+        # A name made of digits has been read as a number
+        next_comm = str(row["next_comm"])
 
         if prev_pid in pmap:
             name = pmap[prev_pid]
-- 
2.43.0


From 1e3da90fc2c297409b3c5e764de825c3f95638ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 25/76] fix: don't show a task on a CPU that ran something else

---
 trappy/plotter/Utils.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 23d676d..911091f 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -64,25 +64,27 @@ def get_trace_event_data(trace, execnames=None, pids=None):
 
     procs = set()
 
+    def drop(pid, index):
+        """Corrupted trace probably due to dropped events.  We don't know when
+        the pid in pmap finished.  We just ignore it and don't plot it"""
+        warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
+                   format(pid, index)
+        warnings.warn(warn_str)
+        del data[pmap.pop(pid)][-1]
+
     for index, row in data_frame.iterrows():
         prev_pid = row["prev_pid"]
         next_pid = row["next_pid"]
         # A name made of digits has been read as a number
         next_comm = str(row["next_comm"])
 
-        if prev_pid in pmap:
-            name = pmap[prev_pid]
-            data[name][-1][1] = index
-            del pmap[prev_pid]
-
-        if next_pid in pmap:
-            # Corrupted trace probably due to dropped events.  We
-            # don't know when the pid in pmap finished.  We just
-            # ignore it and don't plot it
-            warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
-                       format(next_pid, index)
-            warnings.warn(warn_str)
-            del data[pmap.pop(next_pid)][-1]
+        for pid, name in list(pmap.items()):
+            same_cpu = data[name][-1][2] == row["__cpu"]
+            if pid == prev_pid and same_cpu:
+                data[name][-1][1] = index
+                del pmap[pid]
+            elif pid in (prev_pid, next_pid) or same_cpu:
+                drop(pid, index)
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
-- 
2.43.0


From 45e642ddf8e997a49b148ca7a354de25e394d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 26/76] fix: plot the residency of a trace that doesn't say how
 many CPUs there are

---
 trappy/plotter/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/__init__.py b/trappy/plotter/__init__.py
index d9d57c5..d199c90 100644
--- a/trappy/plotter/__init__.py
+++ b/trappy/plotter/__init__.py
@@ -80,7 +80,10 @@ def plot_trace(trace,
             trace = trappy.FTrace(trace)
 
     data, procs, domain = Utils.get_trace_event_data(trace, execnames, pids)
+    # The trace may not say how many CPUs there are, or not count those offline
+    num_lanes = max(int(getattr(trace, "_cpus", None) or 0),
+                    1 + int(trace.sched_switch.data_frame["__cpu"].max()))
     trace_graph = EventPlot.EventPlot(data, procs, domain,
                                       lane_prefix="CPU :",
-                                      num_lanes=int(trace._cpus))
+                                      num_lanes=num_lanes)
     trace_graph.view()
-- 
2.43.0


From 6de55a24e92f47e32dbc4dbb1b659529ebc54323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 27/76] fix: SysfsExtractor: keep the last character of values
 without a newline

Not every file of a sysfs dump ends with a newline.  The last character
of those that don't was dropped, so that a weight of 1024 read as 102.
---
 trappy/wa/sysfs_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 1401594..43f27ed 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -68,7 +68,8 @@ class SysfsExtractor(object):
             with open(property_path) as fin:
                 contents = fin.read()
                 # Trim trailing newline
-                contents = contents[:-1]
+                if contents.endswith("\n"):
+                    contents = contents[:-1]
 
                 try:
                     ret[property_name] = int(contents)
-- 
2.43.0


From cba5b5b8f1398d18be6b7874d6c652e2a0586034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 28/76] fix: SysfsExtractor: report a dump that can't be read

A directory that can't be listed and files that can't be looked at were
taken for ones that don't exist, and their parameters left out.
---
 trappy/wa/sysfs_extractor.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 43f27ed..f7084f3 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -17,6 +17,7 @@ from __future__ import division
 from __future__ import print_function
 
 from builtins import object
+import errno
 import os
 import pandas as pd
 import re
@@ -38,7 +39,9 @@ class SysfsExtractor(object):
 
         try:
             sysfs_files = os.listdir(self.thermal_path)
-        except OSError:
+        except OSError as exc:
+            if exc.errno not in (errno.ENOENT, errno.ENOTDIR):
+                raise
             sysfs_files = []
 
         for fname in sysfs_files:
@@ -62,10 +65,15 @@ class SysfsExtractor(object):
         for property_name in self.properties:
             property_path = os.path.join(self.thermal_path, property_name)
 
-            if not os.path.isfile(property_path):
+            try:
+                fin = open(property_path)
+            except (IOError, OSError) as exc:
+                # Not every kernel has all of the properties
+                if exc.errno not in (errno.ENOENT, errno.ENOTDIR, errno.EISDIR):
+                    raise
                 continue
 
-            with open(property_path) as fin:
+            with fin:
                 contents = fin.read()
                 # Trim trailing newline
                 if contents.endswith("\n"):
-- 
2.43.0


From a516a80dcc643ff99bf801868a436a70bd56e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 29/76] fix: combine_results: keep the benchmarks that only
 some results have

Benchmarks that weren't in the first of the results were dropped silently,
and ones that weren't in a later one ended in a KeyError.
---
 trappy/wa/results.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 238d39d..65d01c9 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -158,9 +158,11 @@ def combine_results(data):
 
     """
 
-    res_dict = {}
-    for benchmark in data[0].columns.levels[0]:
-        concat_objs = [d[benchmark] for d in data]
+    res_dict = collections.OrderedDict()
+    for benchmark in [b for d in data
+                      for b in d.columns.get_level_values(0).unique()]:
+        # Not every benchmark has to be in all of the results
+        concat_objs = [d[benchmark] for d in data if benchmark in d.columns]
         res_dict[benchmark] = pd.concat(concat_objs, axis=1)
 
     combined = pd.concat(res_dict.values(), axis=1, keys=res_dict.keys())
-- 
2.43.0


From cd26d3538e355ba4acff9e6aab876bb2b2673329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 30/76] fix: handle_duplicate_index: space duplicates evenly

The delta doubled with every duplicate: four values with the same index
collided with the next index, and more than four went past it, by
minutes for thirty of them.
---
 trappy/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 8ca0455..a2480ee 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -106,11 +106,9 @@ def handle_duplicate_index(data,
             delta = max_delta
 
         # Add a delta to the others
-        dup_index_left += 1
-        while dup_index_left <= dup_index_right:
-            new_index[dup_index_left] += delta
-            delta += delta
-            dup_index_left += 1
+        for num, dup_index in enumerate(range(dup_index_left + 1,
+                                              dup_index_right + 1), 1):
+            new_index[dup_index] += num * delta
 
     data = data.copy()
     data.index = pd.Index(new_index, name=index.name)
-- 
2.43.0


From 49e82ab835d22b309d2cfbb680c3710a531180d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 31/76] fix: ILinePlot: sort the merged index

pd.concat() doesn't sort the union of the indexes, so series with
different ones ended in a plot whose lines jump back in time and
whose gaps were filled from values recorded later.
---
 trappy/plotter/ILinePlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index d644ee5..8fe1c0f 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -301,7 +301,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        merged_df = pd.concat(dedup_data, axis=1)
+        merged_df = pd.concat(dedup_data, axis=1).sort_index()
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
-- 
2.43.0


From 141ae877257dc16fba818024ebb39ddea5c391a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 32/76] fix: ILinePlot: interpolate over time

The values between two samples were interpolated as if the merged
index was evenly spaced, which bends the lines wherever other series
have samples.
---
 trappy/plotter/ILinePlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 8fe1c0f..6484c6d 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -312,6 +312,6 @@ class ILinePlot(AbstractDataPlotter):
             merged_df = merged_df.ffill()
         else:
             # default
-            merged_df = merged_df.interpolate()
+            merged_df = merged_df.interpolate(method="index")
 
         return merged_df
-- 
2.43.0


From a28fd397fe7e3e32535efcfbce31598335dbe488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 33/76] fix: Constraint: windows may start before or end after
 the data

There is no event before the window then, and the comparison with the
resulting NaN left nothing to plot.
---
 trappy/plotter/Constraint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 65f3de8..633bf4e 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -110,8 +110,10 @@ class Constraint(object):
         if window:
             # We want to include the previous value before the window
             # and the next after the window in the dataset
-            min_idx = self._data.loc[:window[0]].index.max()
-            max_idx = self._data.loc[window[1]:].index.min()
+            before = self._data.loc[:window[0]].index
+            after = self._data.loc[window[1]:].index
+            min_idx = before.max() if len(before) else None
+            max_idx = after.min() if len(after) else None
             self._data = self._data.loc[min_idx:max_idx]
 
         self.result = self._apply()
-- 
2.43.0


From 7931770ca94afc1acfaa210c514a89d2a0060ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 34/76] fix: ILinePlot: don't sync unrelated figures

The hash of an object is its address, and that is used again by the next
figure as soon as the object is gone.  Such figures were synced and
shared the ranges of their axes.
---
 trappy/plotter/ILinePlotGen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index cc86cbd..2408fda 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -185,6 +185,7 @@ class ILinePlotGen(object):
         self.num_plots = num_plots
         self._fig_map = {}
         self._fig_index = 0
+        self._sync_group = uuid.uuid4().hex
 
         self._single_plot = False
         if self.num_plots == 0:
@@ -249,10 +250,10 @@ class ILinePlotGen(object):
 
         self._check_add_scatter(fig_params)
 
-        # Use a hash of this object as a default for the sync group, so that if
+        # Use a name of its own as a default for the sync group, so that if
         # 'sync_zoom=True' then by default (i.e. if 'group' is not specified),
         # all the plots in a figure are synced.
-        fig_params["syncGroup"] = self._attr.get("group", str(hash(self)))
+        fig_params["syncGroup"] = self._attr.get("group", self._sync_group)
         fig_params["syncZoom"] = self._attr.get("sync_zoom",
                                                 AttrConf.DEFAULT_SYNC_ZOOM)
 
-- 
2.43.0


From 95f2c06ce573dca1bfdc09c5c2a3677ed73fe5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 35/76] fix: ILinePlot: plot all of the traces that share a
 name

Only the last one of them was plotted.
---
 trappy/plotter/ILinePlot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 6484c6d..c356c79 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -225,6 +225,7 @@ class ILinePlot(AbstractDataPlotter):
         plot_index = 0
         for p_val in pivot_vals:
             data_dict = OrderedDict()
+            names = {}
             for constraint in self.c_mgr:
                 if permute:
                     trace_idx, pivot = p_val
@@ -234,6 +235,10 @@ class ILinePlot(AbstractDataPlotter):
                 else:
                     pivot = p_val
                     legend = str(constraint)
+                    if names.setdefault(legend, constraint.trace_index) != \
+                       constraint.trace_index:
+                        # Another trace has the same name
+                        legend = "{} ({})".format(legend, constraint.trace_index)
 
                 result = constraint.result
                 if pivot in result:
-- 
2.43.0


From ed48db077eb1cd24fee8eca7a2abcb6fee568809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 36/76] fix: ILinePlot: title permuted plots after the trace
 they show

With a pivot there is more than one plot for each trace, so the index of
the plot isn't that of the trace.  It was an error or another trace's name.
---
 trappy/plotter/ILinePlot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index c356c79..f6fc850 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -32,7 +32,7 @@ from trappy.plotter.ILinePlotGen import ILinePlotGen
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
 from trappy.plotter import IPythonConf
-from trappy.utils import handle_duplicate_index
+from trappy.utils import handle_duplicate_index, listify
 import pandas as pd
 
 if not IPythonConf.check_ipython():
@@ -245,7 +245,7 @@ class ILinePlot(AbstractDataPlotter):
                     data_dict[legend] = result[pivot]
 
             if permute:
-                title = self.traces[plot_index].name
+                title = listify(self.traces)[trace_idx].name
             elif pivot != AttrConf.PIVOT_VAL:
                 title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
             else:
-- 
2.43.0


From 8d177c729add9fef31faaacfa19a30ada88c2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 37/76] fix: ILinePlot: don't take the column's name apart

The line of column "load" was labelled "l,o,a,d" in concat plots.
---
 trappy/plotter/ILinePlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index f6fc850..656b69f 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -277,7 +277,7 @@ class ILinePlot(AbstractDataPlotter):
             for pivot in pivot_vals:
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
-                        key = ",".join(self._attr["column"])
+                        key = ",".join(listify(self._attr["column"]))
                     else:
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
-- 
2.43.0


From 669817f7cf315bce6a7fe605b109281e92a7e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 38/76] fix: ILinePlot: don't draw plots that don't exist

The last line of plots was filled up with calls for which there is no data.
---
 trappy/plotter/ILinePlotGen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index 2408fda..f65dc8a 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -162,6 +162,8 @@ class ILinePlotGen(object):
             self._begin_row()
             legend_figs = []
             for _ in range(self._attr["per_line"]):
+                if self._fig_index == self.num_plots:
+                    break
                 fig_name = self._generate_fig_name()
                 legend_figs.append(fig_name)
                 self._add_graph_cell(fig_name, color_map)
-- 
2.43.0


From b01a773297fc77045c70d6fad18b2d1de8a94958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 39/76] fix: ILinePlot: survive labels that look like HTML

A label with "</script>" in it ended the script.
---
 trappy/plotter/ILinePlotGen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index f65dc8a..c97ad52 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -265,7 +265,9 @@ class ILinePlotGen(object):
         if "xlim" in self._attr:
             fig_params["dateWindow"] = self._attr["xlim"]
 
-        fig_data = "var {}_data = {};".format(fig_name, json.dumps(fig_params))
+        # "</script>" in a label must not end the script
+        fig_data = "var {}_data = {};".format(
+            fig_name, json.dumps(fig_params).replace("<", "\\u003c"))
 
         self._js_plot_data.append("<script>")
         self._js_plot_data.append(fig_data)
-- 
2.43.0


From 3b23e0b4fb91a4412dd10de95c99cb992aad46e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 40/76] fix: EventPlot: survive names that look like HTML

A task called "</script>" ended the script.
---
 trappy/plotter/EventPlot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index ff7aee5..49f6a0f 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -141,7 +141,8 @@ class EventPlot(AbstractDataPlotter):
         graph["stride"] = AttrConf.EVENT_PLOT_STRIDE
         graph["colorMap"] = color_map
         graph["data"] = self._group_data_by_lanes(_data)
-        self._data = json.dumps(graph)
+        # "</script>" in a name must not end the script
+        self._data = json.dumps(graph).replace("<", "\\u003c")
 
         # Initialize the HTML, CSS and JS Components
         self._add_css()
-- 
2.43.0


From a3f9eda8156fc079035962f71855a2b1d7441598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 41/76] fix: EventPlot: don't ignore stride

---
 trappy/plotter/EventPlot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index 49f6a0f..7529bc3 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -121,7 +121,7 @@ class EventPlot(AbstractDataPlotter):
             lane_prefix="Lane: ",
             num_lanes=0,
             summary=True,
-            stride=False,
+            stride=AttrConf.EVENT_PLOT_STRIDE,
             lanes=None,
             color_map=None):
 
@@ -138,7 +138,7 @@ class EventPlot(AbstractDataPlotter):
         graph["xDomain"] = domain
         graph["keys"] = sorted(keys, key=lambda x: avg[x], reverse=True)
         graph["showSummary"] = summary
-        graph["stride"] = AttrConf.EVENT_PLOT_STRIDE
+        graph["stride"] = stride
         graph["colorMap"] = color_map
         graph["data"] = self._group_data_by_lanes(_data)
         # "</script>" in a name must not end the script
-- 
2.43.0


From bf05bd8c2e1d57b6d6e714decd80ee48a99dc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 42/76] fix: EventPlot: name every figure when it is shown

The figure was named when the object was created, so that viewing it
again in a notebook drew over the first figure and left the second empty.
---
 trappy/plotter/EventPlot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index 7529bc3..58b7545 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -126,8 +126,6 @@ class EventPlot(AbstractDataPlotter):
             color_map=None):
 
         _data = deepcopy(data)
-        self._html = []
-        self._fig_name = self._generate_fig_name()
         # Function to get the average duration of each event
         avgFunc = lambda x: sum([(evt[1] - evt[0]) for evt in x]) / float(len(x) + 1)
         avg = {k: avgFunc(v) for k, v in data.items()}
@@ -144,10 +142,6 @@ class EventPlot(AbstractDataPlotter):
         # "</script>" in a name must not end the script
         self._data = json.dumps(graph).replace("<", "\\u003c")
 
-        # Initialize the HTML, CSS and JS Components
-        self._add_css()
-        self._init_html()
-
     def _group_data_by_lanes(self, data):
         """Group data by lanes.
 
@@ -283,4 +277,11 @@ class EventPlot(AbstractDataPlotter):
     def html(self):
         """Return a Raw HTML string for the plot"""
 
+        # Every figure in a page needs a name of its own, so
+        # initialize the HTML, CSS and JS Components for each of them
+        self._html = []
+        self._fig_name = self._generate_fig_name()
+        self._add_css()
+        self._init_html()
+
         return "\n".join(self._html)
-- 
2.43.0


From 93067bb51e1070880423fcf4b722791d496859cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 43/76] fix: Constraint: permute signals, each with its own
 event, once per trace

---
 trappy/plotter/Constraint.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 633bf4e..421ad26 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -323,9 +323,12 @@ class ConstraintManager(object):
         possible.
         """
 
-        for trace_idx, trace in enumerate(self._ip_vec[0]):
-            for col in self._ip_vec[1]:
-                template = self._ip_vec[2][trace_idx]
+        num_traces, num_cols, num_templates = self._lens
+        signals = list(zip(self._ip_vec[1], self._ip_vec[2]))
+        signals = signals[:max(num_cols, num_templates)]
+
+        for trace_idx, trace in enumerate(self._ip_vec[0][:num_traces]):
+            for col, template in signals:
                 constraint = Constraint(trace, self._pivot, col, template,
                                         trace_idx, self._filters, self.window)
                 self._constraints.append(constraint)
-- 
2.43.0


From e2b2356a63042a55af789587fb7eb423716145da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 44/76] fix: StaticPlot: draw each series on its own axis,
 under its own legend entry

---
 trappy/plotter/BarPlot.py    | 16 ++++++-----
 trappy/plotter/LinePlot.py   |  2 +-
 trappy/plotter/StaticPlot.py | 54 ++++++++++++++++++++++++++----------
 3 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 19df378..e254086 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -97,27 +97,29 @@ class BarPlot(StaticPlot):
 
         #Keep a list of the tops of bars to plot stacks
         #Start with a list of 0s to put the first bars at the bottom
-        value_list = [c.result[p].values for (c, p) in series_list]
+        value_list = [c.result[p].values for (_, c, p) in series_list]
         end_of_previous = [0] * max(len(x) for x in value_list)
 
-        for i, (constraint, pivot) in enumerate(series_list):
+        for i, (index, constraint, pivot) in enumerate(series_list):
             result = constraint.result
-            bar_anchor = np.arange(len(result[pivot].values))
+            num_bars = len(result[pivot].values)
+            bar_anchor = np.arange(num_bars)
             if not stacked:
                 bar_anchor = bar_anchor + i * bar_width
 
             line_2d_list = axis.bar(
                 bar_anchor,
                 result[pivot].values,
-                bottom=end_of_previous,
+                bottom=end_of_previous[:num_bars],
                 width=bar_width,
-                color=self._cmap.cmap(i),
+                color=self._cmap.cmap(index),
                 **args_to_forward
             )
 
             if stacked:
-                end_of_previous = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
+                end_of_previous[:num_bars] = [
+                    x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-            self.add_to_legend(i, line_2d_list[0], constraint, pivot, concat, permute)
+            self.add_to_legend(index, line_2d_list[0], constraint, pivot, concat, permute)
diff --git a/trappy/plotter/LinePlot.py b/trappy/plotter/LinePlot.py
index 3e899ea..3763b87 100644
--- a/trappy/plotter/LinePlot.py
+++ b/trappy/plotter/LinePlot.py
@@ -158,7 +158,7 @@ class LinePlot(StaticPlot):
 
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
         """Internal Method called to plot data (series_list) on a given axis"""
-        for i, (constraint, pivot) in enumerate(series_list):
+        for i, constraint, pivot in series_list:
             result = constraint.result
             line_2d_list = axis.plot(
                 result[pivot].index,
diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 7ab065f..e686635 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -26,6 +26,7 @@ from trappy.plotter.Constraint import ConstraintManager
 from trappy.plotter.PlotLayout import PlotLayout
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
+from trappy.utils import listify
 from future.utils import with_metaclass
 
 
@@ -209,7 +210,7 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         legend_labels = self._attr["_legend_labels"]
 
         if concat and pivot == AttrConf.PIVOT_VAL:
-            legend_labels[series_index] = self._attr["column"]
+            legend_labels[series_index] = ",".join(listify(self._attr["column"]))
         elif concat:
             legend_labels[series_index] = "{0}: {1}".format(
                 self._attr["pivot"],
@@ -220,6 +221,12 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         else:
             legend_labels[series_index] = str(constraint)
 
+    @staticmethod
+    def _signal(constraint):
+        """The signal of a constraint, which it has in every trace"""
+        template = constraint._template
+        return (template.name if template else None, constraint.column)
+
     def _resolve(self, permute, concat):
         """Determine what data to plot on which axis"""
         pivot_vals, len_pivots = self.c_mgr.generate_pivots(permute)
@@ -237,18 +244,22 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         fig = self._layout.get_fig()
 
-        # Determine what constraint to plot and the corresponding pivot value
+        # Determine the axes and the series of the legend
+        constraints = list(self.c_mgr)
+        signals = []
+        for constraint in constraints:
+            if self._signal(constraint) not in signals:
+                signals.append(self._signal(constraint))
+
         if permute:
-            legend_len = self.c_mgr._max_len
-            pivots = [y for _, y in pivot_vals]
-            c_dict = {c : str(c) for c in self.c_mgr}
-            c_list = sorted(c_dict.items(), key=lambda x: (x[1].split(":")[-1], x[1].split(":")[0]))
-            constraints = [c[0] for c in c_list]
-            cp_pairs = [(c, p) for c in constraints for p in sorted(set(pivots))]
+            # An axis for each trace and pivot, a series for each signal
+            pivots = [pivot for trace, pivot in pivot_vals if trace == 0]
+            axis_keys = pivot_vals
+            legend_len = len(signals)
         else:
-            legend_len = len_pivots if concat else len(self.c_mgr)
             pivots = pivot_vals
-            cp_pairs = [(c, p) for c in self.c_mgr for p in pivots if p in c.result]
+            axis_keys = list(range(len(constraints))) if concat else pivot_vals
+            legend_len = len_pivots if concat else len(constraints)
 
         # Initialise legend data and colormap
         self._attr["_legend_handles"] = [None] * legend_len
@@ -261,9 +272,20 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         # Group constraints/series with the axis they are to be plotted on
         figure_data = ddict(list)
-        for i, (constraint, pivot) in enumerate(cp_pairs):
-            axis = self._layout.get_axis(constraint.trace_index if concat else i)
-            figure_data[axis].append((constraint, pivot))
+        for i, constraint in enumerate(constraints):
+            for j, pivot in enumerate(pivots):
+                if pivot not in constraint.result:
+                    continue
+
+                if permute:
+                    key = (constraint.trace_index, pivot)
+                    series_index = signals.index(self._signal(constraint))
+                else:
+                    key = i if concat else pivot
+                    series_index = j if concat else i
+
+                axis = self._layout.get_axis(axis_keys.index(key))
+                figure_data[axis].append((series_index, constraint, pivot))
 
         # Plot each axis
         for axis, series_list in figure_data.items():
@@ -280,8 +302,10 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
                 axis.set_ylim(self._attr["ylim"])
 
         # Show legend
-        legend = fig.legend(self._attr["_legend_handles"],
-                         self._attr["_legend_labels"],
+        drawn = [i for i, handle in enumerate(self._attr["_legend_handles"])
+                 if handle is not None]
+        legend = fig.legend([self._attr["_legend_handles"][i] for i in drawn],
+                         [self._attr["_legend_labels"][i] for i in drawn],
                          loc='lower center',
                          ncol=self._attr["legend_ncol"],
                          borderaxespad=0.)
-- 
2.43.0


From 3becf68a642e3b9f7c01d3b553c6adef4c08d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 45/76] fix: FTrace: hold loads and frequencies in time order

pd.concat() appends the times of the GPU, so its values were padded with
ones of other times.
---
 trappy/ftrace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 97f3dbc..d708052 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -684,7 +684,7 @@ is part of the trace.
         for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
-                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1)
+                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1).sort_index()
             else:
                 allfreqs = cpu_allfreqs
 
@@ -706,7 +706,7 @@ is part of the trace.
         try:
             gpu_data = pd.DataFrame({"GPU":
                                      self.devfreq_in_power.data_frame["load"]})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1).sort_index()
         except KeyError:
             pass
 
@@ -738,7 +738,7 @@ is part of the trace.
             gpu_load = gpu_dfr["load"] * gpu_dfr["freq"] / gpu_max_freq
 
             gpu_data = pd.DataFrame({"GPU": gpu_load})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1).sort_index()
 
         load_data = load_data.fillna(method="pad")
         title = trappy.plot_utils.normalize_title("Normalized Utilization", title)
-- 
2.43.0


From 44502460022329b647bb24954fea66f4c058a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 46/76] fix: FTrace: label frequency histograms with what they
 show

---
 trappy/ftrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index d708052..13ad49e 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -58,7 +58,7 @@ def _plot_freq_hists(allfreqs, what, axis, title):
         this_title = trappy.plot_utils.normalize_title(this_title, title)
         xlim = (0, allfreqs[actor].max())
 
-        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "KHz", 20,
+        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "MHz", 20,
                              "Frequency", xlim, "default")
 
 SPECIAL_FIELDS_RE = re.compile(
@@ -681,7 +681,8 @@ is part of the trace.
         in_allfreqs = (self.cpu_in_power.get_all_freqs(map_label),
                        devfreq_in_all_freqs, ax[in_base_idx:])
 
-        for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
+        for what, (cpu_allfreqs, devfreq_freqs, axis) in (("out", out_allfreqs),
+                                                          ("in", in_allfreqs)):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1).sort_index()
@@ -689,7 +690,7 @@ is part of the trace.
                 allfreqs = cpu_allfreqs
 
             allfreqs.fillna(method="pad", inplace=True)
-            _plot_freq_hists(allfreqs, "out", axis, self.name)
+            _plot_freq_hists(allfreqs, what, axis, self.name)
 
     def plot_load(self, mapping_label, title="", width=None, height=None,
                   ax=None):
-- 
2.43.0


From 7e3bac35dc609b1e28d8b7ae6d821638faf3486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 47/76] fix: plot_weighted_input_power: order the weights by
 number

The weight of cdev10 was taken for that of the third actor.
---
 trappy/plot_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 516ddf6..dbef662 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -246,9 +246,9 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         thermal_params = sysfs.get_parameters()
 
         sorted_weights = []
-        for param in sorted(thermal_params):
-            if re.match(r"cdev\d+_weight", param):
-                sorted_weights.append(thermal_params[param])
+        params = [p for p in thermal_params if re.match(r"cdev\d+_weight", p)]
+        for param in sorted(params, key=lambda p: int(re.search(r"\d+", p).group())):
+            sorted_weights.append(thermal_params[param])
 
         actor_weights.append(list(zip(actor_order, sorted_weights)))
 
-- 
2.43.0


From 725a9556d40bc77c9e281ea786405a679691fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 48/76] fix: plot_weighted_input_power: accept runs without
 weights

---
 trappy/plot_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index dbef662..a203a2f 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -263,8 +263,11 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         axis = [axis]
 
     for ax, run, weights in zip(axis, runs, actor_weights):
-        run.thermal_governor.plot_weighted_input_power(weights, title=run.name,
-                                                       ax=ax)
+        # The axis of a run without weights stays empty
+        if weights:
+            run.thermal_governor.plot_weighted_input_power(weights,
+                                                           title=run.name,
+                                                           ax=ax)
 
 def plot_input_power(runs, actor_order, width=None, height=None):
     """Make a multicolumn plot of the input power of each run"""
-- 
2.43.0


From 5707af01176397c5ec701258c09c6fd973f02fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 49/76] fix: plot_temperature_hist: skip the runs that have no
 temperature

They were left out of the number of axes, and plotted.
---
 trappy/plot_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index a203a2f..de37624 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -311,10 +311,8 @@ def plot_freq_hists(runs, map_label):
 
 def plot_temperature_hist(runs):
     """Plot temperature histograms for all the runs"""
-    num_runs = 0
-    for run in runs:
-        if len(run.thermal.data_frame):
-            num_runs += 1
+    runs = [run for run in runs if len(run.thermal.data_frame)]
+    num_runs = len(runs)
 
     if num_runs == 0:
         return
-- 
2.43.0


From 3178b6d1f6214c73fbf1ab89ff83f8819c65e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 50/76] fix: plot_temperature: thermal zone 0 is a thermal zone

---
 trappy/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index de37624..5260f49 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,7 +157,7 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id:
+        if tz_id is not None:
             gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
 
         try:
-- 
2.43.0


From c3539a7c11c8175ef1148dadbfc0305b274915ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 51/76] fix: plot_temperature: accept a zone when the governor
 was off

---
 trappy/plot_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 5260f49..3699d41 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,10 +157,10 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id is not None:
-            gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
-
         try:
+            if tz_id is not None:
+                gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
+
             current_temp = gov_dfr["current_temperature"]
             delta_temp = gov_dfr["delta_temperature"]
             control_series = (current_temp + delta_temp) / 1000
-- 
2.43.0


From 65790aebc63ccf55656fec45d04e3a49131dfe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 52/76] fix: plot_temperature: plot the zone asked for from the
 governor as well

---
 trappy/plot_utils.py |  3 ++-
 trappy/thermal.py    | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 3699d41..2af4c32 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -172,7 +172,8 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
                                          ax=ax, legend_label=run.name,
                                          tz_id=tz_id)
         except ValueError:
-            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name)
+            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name,
+                                                  tz_id=tz_id)
 
     post_plot_setup(ax, title="Temperature", ylim=ylim)
     plt.legend(loc="best")
diff --git a/trappy/thermal.py b/trappy/thermal.py
index f2af808..fb390c7 100644
--- a/trappy/thermal.py
+++ b/trappy/thermal.py
@@ -134,12 +134,21 @@ class ThermalGovernor(Base):
     """The Pivot along which the data is orthogonal"""
 
     def plot_temperature(self, title="", width=None, height=None, ylim="range",
-                         ax=None, legend_label=""):
-        """Plot the temperature"""
+                         ax=None, legend_label="", tz_id=None):
+        """Plot the temperature
+
+        :param tz_id: thermal zone id as it appears in the
+            thermal_zone_id field of the thermal_power_allocator trace
+            event
+        :type tz_id: int
+
+        """
         from matplotlib import pyplot as plt
         from trappy.plot_utils import normalize_title, pre_plot_setup, post_plot_setup
 
         dfr = self.data_frame
+        if tz_id is not None:
+            dfr = dfr[dfr["thermal_zone_id"] == tz_id]
         curr_temp = dfr["current_temperature"]
         control_temp_series = (curr_temp + dfr["delta_temperature"]) / 1000
         title = normalize_title("Temperature", title)
-- 
2.43.0


From 8bbe032bc1046a99eeb46d66fe7aa1151e8c8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 53/76] fix: SysfsExtractor: print parameters without
 DataFrame.from_items()

It is gone from pandas, so that compare_runs() failed on every Workload
Automation output that has parameters.
---
 trappy/wa/sysfs_extractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index f7084f3..a2b3908 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -99,7 +99,7 @@ class SysfsExtractor(object):
         if len(params) == 0:
             return
 
-        params_items = [(key, [value]) for key, value in sorted(params.items())]
-        dfr = pd.DataFrame.from_items(params_items, orient="index",
-                                      columns=["Value"])
+        keys = sorted(params)
+        dfr = pd.DataFrame({"Value": [params[key] for key in keys]}, index=keys,
+                           dtype=object)
         display(HTML(dfr.to_html(header=False)))
-- 
2.43.0


From 886af859194d62b11eb2d350b6c9eff0f7b2cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 54/76] fix: Parser: call functions without arguments

The IndexError was taken for a parse failure, and the function itself was
the value of the expression.
---
 trappy/stats/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 01d8a4d..f238d8b 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -544,7 +544,9 @@ class Parser(object):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-        return func(*params[1])
+        # There is no group of arguments if there are none
+        args = params[1] if len(params) > 1 else []
+        return func(*args)
 
     def _get_data_frame(self, cls):
         """Get the data frame from the BareTrace object, applying the window
-- 
2.43.0


From 449ff123f8f519750f2eb55d1c0ef93533bcd99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 55/76] fix: Parser: call any function in pvars

numpy's functions, builtins and methods in pvars raised KeyError.
---
 trappy/stats/grammar.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index f238d8b..9e4ebac 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -25,7 +25,6 @@ from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
     alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
 import importlib
 import pandas as pd
-import types
 import numpy as np
 from trappy.stats.Topology import Topology
 from trappy.stats import StatConf
@@ -538,9 +537,7 @@ class Parser(object):
 
         params = tokens[0]
         func_name = params[0]
-        if func_name in self._pvars and isinstance(
-                self._pvars[func_name],
-                types.FunctionType):
+        if callable(self._pvars.get(func_name)):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-- 
2.43.0


From f60d5dfd47276252fdaa224830dda126ba14f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 56/76] fix: MultiTriggerAggregator: accept a singular trigger

As its documentation says. It raised TypeError when aggregating.
---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index c473b1f..bd56250 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -103,7 +103,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 will be processed by the aggfunc
         :type aggfunc: function
         """
-        self._triggers = triggers
+        self._triggers = listify(triggers)
         self.topology = topology
         super(
             MultiTriggerAggregator,
-- 
2.43.0


From caa7cd7bbedecf7128529d24de160774cae727fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 57/76] fix: Trigger: a list of values selects events with any
 of them

As in the other filters. No event has all of several values, so nothing
was ever selected.
---
 trappy/stats/Trigger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 5f5d55a..5168ff2 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -130,6 +130,4 @@ def apply_filter_kv(key, value, data_frame, mask):
     if key not in data_frame.columns:
         return mask
     else:
-        for val in value:
-            mask = mask & (data_frame[key] == val)
-        return mask
+        return mask & data_frame[key].isin(value)
-- 
2.43.0


From 866b225b23882a366dbf6a8325cd2b521fb0c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 58/76] fix: Correlator: do not align on the time before the
 first event

The series that starts later has NaNs there, which counted as non-zero
samples.
---
 trappy/stats/Correlator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 50d929d..a934225 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -195,8 +195,9 @@ def align(s_x, s_y, mode="front"):
     :type mode: str
     """
 
-    p_x = np.flatnonzero(s_x)
-    p_y = np.flatnonzero(s_y)
+    # There is nothing before the first event of a series
+    p_x = np.flatnonzero(s_x.fillna(0))
+    p_y = np.flatnonzero(s_y.fillna(0))
 
     if not len(p_x) or not len(p_y):
         return s_x, s_y, 0
-- 
2.43.0


From debf6d483997d8bb35b0cf069fe2474e667f2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 59/76] fix: Correlator: weight groups with their samples only

The NaNs that shifting puts in counted as non-zero samples, so groups
without any activity lowered the total.
---
 trappy/stats/Correlator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index a934225..5b22ca1 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -91,7 +91,8 @@ class Correlator(object):
 
             series_x, series_y = shift_series(series_x, series_y, self._shift)
             corr_output.append(self._correlate(series_x, series_y))
-            weights.append(len(series_x[series_x != 0]) + len(series_y[series_y != 0]))
+            weights.append(np.count_nonzero(series_x.fillna(0)) +
+                           np.count_nonzero(series_y.fillna(0)))
 
         total = 0
         for weight, corr in zip(weights, corr_output):
-- 
2.43.0


From 83ab92135700b87efd0d640b45170ad10a038a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 60/76] fix: Correlator: align what is correlated

The arguments of the aggregation functions were not passed on to the
alignment, which raised or aligned other series.
---
 trappy/stats/Correlator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 5b22ca1..4a07802 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -158,8 +158,8 @@ class Correlator(object):
         implemented in plotter
         """
 
-        result_1 = self._first_agg.aggregate(level="all")
-        result_2 = self._second_agg.aggregate(level="all")
+        result_1 = self._first_agg.aggregate(level="all", **self._agg_kwargs)
+        result_2 = self._second_agg.aggregate(level="all", **self._agg_kwargs)
 
         s_x = self._resample(result_1[0])
         s_y = self._resample(result_2[0])
-- 
2.43.0


From fe3ee04480058e4f672bd19e2c41777f0d1b0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 61/76] fix: Correlator.plot: layouts without a title

PlotLayout raised KeyError.
---
 trappy/plotter/PlotLayout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/PlotLayout.py b/trappy/plotter/PlotLayout.py
index 9bbb1c5..43a3a92 100644
--- a/trappy/plotter/PlotLayout.py
+++ b/trappy/plotter/PlotLayout.py
@@ -81,7 +81,7 @@ class PlotLayout(object):
                 self._attr["width"] * self.cols,
                 self._attr["length"] * self.rows))
 
-        if self._attr['title']:
+        if self._attr.get('title'):
             self._attr["figure"].suptitle(
                     self._attr['title'],
                     fontsize=AttrConf.TITLE_SIZE,
-- 
2.43.0


From dc3efa9002af5fc6403d3caa41ceeea91a6cefe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 62/76] fix: window and abs_window: the trace ends at the
 earlier of both ends

It ended at the later one.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 13ad49e..eea91c6 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -163,7 +163,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])
 
         if (self.window[1] is not None) and (self.abs_window[1] is not None):
-            max_window[1] = max(self.window[1] + self.basetime, self.abs_window[1])
+            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
         elif self.window[1] is not None:
             max_window[1] = self.window[1] + self.basetime
         elif self.abs_window[1] is not None:
-- 
2.43.0


From 0142da03fff3fff6ae6581da3c75eb086803df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 63/76] fix: windows: include the events at their start and end

Events whose timestamp is exactly the start or the end of the window were
lost if their time had been rounded or separated from that of others.
---
 trappy/ftrace.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index eea91c6..4ba0f62 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -181,12 +181,14 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Ensure it's sorted for good measure.
         trace_class.data_frame.sort_index(inplace=True)
 
-        if window[1]:
-            trace_class.data_frame = trace_class.data_frame[
-                window[0]:window[1]]
-        elif window[0]:
-            trace_class.data_frame = trace_class.data_frame[
-                window[0]:]
+        # Windows are inclusive, but times are not exact: events with the same
+        # timestamp are told apart by tiny increments, and adding or
+        # substracting basetime rounds. Both are way below the resolution of
+        # the timestamps.
+        half_ns = 0.5e-9
+        start = window[0] - half_ns
+        end = None if window[1] is None else window[1] + half_ns
+        trace_class.data_frame = trace_class.data_frame[start:end]
 
     def _trace_cache_path(self):
         trace_file = self.trace_path
-- 
2.43.0


From 372aedfaead677180b7f63731610eacfb2adbed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 64/76] fix: add_parsed_event: let the grammar see the pivot

It was set in the event only, and the parser looks at its class.
---
 trappy/bare_trace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/bare_trace.py b/trappy/bare_trace.py
index 36a8bc2..4c54fc7 100644
--- a/trappy/bare_trace.py
+++ b/trappy/bare_trace.py
@@ -125,14 +125,15 @@ class BareTrace(object):
             "name": name,
         }
 
+        if pivot:
+            kwords["pivot"] = pivot
+
         trace_class = DynamicTypeFactory(name, (Base,), kwords)
         self.class_definitions[name] = trace_class
 
         event = trace_class()
         self.trace_classes.append(event)
         event.data_frame = dfr
-        if pivot:
-            event.pivot = pivot
 
         setattr(self, name, event)
 
-- 
2.43.0


From e94c46f75ba26b705dbc8361b5498caad1dac07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 65/76] fix: EventPlot.js: each plot has its own width and axis

---
 trappy/plotter/js/EventPlot.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 14a0024..4c03b46 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -85,8 +85,8 @@ var EventPlot = (function () {
 
     var generate = function (div_name, base, chart_data) {
 
-        var margin, brush, x, ext, yMain, chart, main,
-            mainAxis,
+        var margin, width, mainHeight, brush, brushScale, x, ext,
+            yMain, chart, main, mainAxis,
             itemRects, items, colourAxis, tip, lanes;
 
         var process_chart_data = function (d) {
@@ -481,7 +481,7 @@ var EventPlot = (function () {
         var width_box_two = ePlot.width - width_box_one;
 
         ePlot.iDesc.info
-            .attr("width", width);
+            .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
             .attr("width", width_box_one - infoProps.BOX_BUFFER);
         ePlot.iDesc.currentDisp
-- 
2.43.0


From be4ce4542bd18291a8f957e2280b37d0cfee4389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 66/76] fix: EventPlot.js: resize plots without a summary

---
 trappy/plotter/js/EventPlot.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 4c03b46..4a7acc7 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -435,7 +435,8 @@ var EventPlot = (function () {
 
                 resize_main(ePlot);
                 resize_info(ePlot);
-                resize_mini(ePlot);
+                if (showSummary)
+                    resize_mini(ePlot);
                 zoomed();
 
             }
@@ -458,8 +459,6 @@ var EventPlot = (function () {
 
         d3.select(ePlot.mini.node().parentNode)
             .attr("width", ePlot.div.width());
-        ePlot.iDesc.info_svg
-            .attr("width", ePlot.div.width());
         ePlot.mini.selectAll("line")
             .attr("x2", ePlot.width);
         ePlot.mini.call(ePlot.miniAxis);
@@ -480,6 +479,8 @@ var EventPlot = (function () {
         var width_box_one = infoProps.BOX_WIDTH_RATIO * ePlot.width;
         var width_box_two = ePlot.width - width_box_one;
 
+        ePlot.iDesc.info_svg
+            .attr("width", ePlot.div.width());
         ePlot.iDesc.info
             .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
-- 
2.43.0


From 88efb41c82b68858958300b98f9ff12314a65cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 67/76] fix: EventPlot.js: Ctrl+Alt+click: look in the lane
 that was clicked

---
 trappy/plotter/js/EventPlot.js | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 4a7acc7..24a6cd1 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -63,23 +63,24 @@ var EventPlot = (function () {
      */
     var getCurrentInfo = function(ePlot, x0, y0) {
 
-        for (name in ePlot.items) {
+        for (var name in ePlot.items) {
+
+            // The items of each name are grouped by lane
+            var data = ePlot.items[name][y0];
+            if (!data || !data.length)
+                continue;
 
-            var data = ePlot.items[name];
             var xMax = ePlot.zoomScale.domain()[1];
             var right = search_data(data, 0, xMax, 0, data.length - 1);
             var left = search_data(data, 1, x0, 0, right);
 
-            if (data) {
-                var candidate = data[left];
-                if (candidate[0] <= x0 &&
-                        candidate[1] >= x0 &&
-                        candidate[2] == y0)
-                    return {
-                            name: name,
-                            info: candidate
-                        };
-            }
+            var candidate = data[left];
+            if (candidate[0] <= x0 &&
+                    candidate[1] >= x0)
+                return {
+                        name: name,
+                        info: [candidate[0], candidate[1], y0]
+                    };
         }
     }
 
-- 
2.43.0


From b830a4a00307ec798c94fd2fb6f72f1888e34199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 68/76] fix: EventPlot.js: colour maps that miss names

---
 trappy/plotter/js/EventPlot.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 24a6cd1..0fb3817 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -121,11 +121,13 @@ var EventPlot = (function () {
                 // Colour Ordinal scale. Uses Category20 Colors
                 colours = d3.scale.category20().range();
             } else {
-                // Use colours provided by user
+                // Use colours provided by user, where there is one
                 var colours = [];
-                for (var i in names)
-                    if (names[i] in d.colorMap)
-                        colours.push(d.colorMap[names[i]]);
+                var defaults = d3.scale.category20().range();
+                for (var i = 0; i < names.length; i++)
+                    colours.push(names[i] in d.colorMap ?
+                        d.colorMap[names[i]] :
+                        defaults[i % defaults.length]);
             }
             colourAxis = d3.scale.ordinal()
                 .range(colours)
-- 
2.43.0


From e276015f2b699ee77de121d1e2ff5a3ef75783a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 69/76] fix: EventPlot.js: escape the names in tooltips

---
 trappy/plotter/js/EventPlot.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 0fb3817..5036750 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -214,7 +214,7 @@ var EventPlot = (function () {
                 .attr('class', 'd3-tip')
                 .html(function (d) {
                     return "<span style='color:white'>" +
-                        d.name + "</span>";
+                        $("<div/>").text(d.name).html() + "</span>";
                 })
 
             main.append('g')
-- 
2.43.0


From 92ad356323fef26384455bd3874dc4cd3059925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 70/76] fix: EventPlot.js: ignore plots that are no longer on
 the page

---
 trappy/plotter/js/EventPlot.js | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 5036750..9810873 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -97,6 +97,10 @@ var EventPlot = (function () {
             var showSummary = d.showSummary;
             var div = $("#" + div_name);
 
+            // The output was cleared before the scripts arrived
+            if (!div.length)
+                return;
+
             margin = {
                     top: 15,
                     right: 15,
@@ -427,6 +431,13 @@ var EventPlot = (function () {
 
             var resize = function() {
 
+                // The plot is no longer on the page
+                if (!$("#" + div_name).length) {
+                    d3.select(window)
+                        .on("resize." + ePlot.div_name, null);
+                    return;
+                }
+
                 var width = div.width() - margin.left
                     - margin.right;
 
-- 
2.43.0


From c58d2520786eb0cbaef340009ea135c6dbdf61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 71/76] fix: EventPlot.js: zoom in the new width after a resize

---
 trappy/plotter/js/EventPlot.js | 64 ++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 9810873..b126ffd 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -254,6 +254,36 @@ var EventPlot = (function () {
             if (showSummary)
                 drawMini(ePlot);
 
+            /* Let the zoom behaviour show the window new_domain */
+            var setZoom = function(new_domain) {
+
+                var t = zoom.translate(),
+                    scale;
+
+                /*
+                 *    scale = x.range()[1] - x.range[0]
+                 *          --------------------------
+                 *          x(x.domain()[1] - x.domain()[0])
+                 *
+                 *                             _                                   _
+                 *  new_domain[0] =  x.invert | x.range()[0]  -   z.translate()[0]  |
+                 *                            |                 ------------------- |
+                 *                            |_                     z.scale()     _|
+                 *
+                 *
+                 *
+                 *  translate[0] = x.range()[0] - x(new_domain[0])) * zoom.scale()
+                 */
+
+                scale = (ePlot.width) / x(x.domain()[0] +
+                    new_domain[1] -
+                    new_domain[0]);
+                zoom.scale(scale);
+                t[0] = x.range()[0] - (x(new_domain[
+                    0]) * scale);
+                zoom.translate(t);
+            };
+
             var outgoing;
             var zoomed = function () {
 
@@ -364,32 +394,7 @@ var EventPlot = (function () {
                     var brush_xmin = brush.extent()[0];
                     var brush_xmax = brush.extent()[1];
 
-                    var t = zoom.translate(),
-                        new_domain = brush.extent(),
-                        scale;
-
-                    /*
-                     *    scale = x.range()[1] - x.range[0]
-                     *          --------------------------
-                     *          x(x.domain()[1] - x.domain()[0])
-                     *
-                     *                             _                                   _
-                     *  new_domain[0] =  x.invert | x.range()[0]  -   z.translate()[0]  |
-                     *                            |                 ------------------- |
-                     *                            |_                     z.scale()     _|
-                     *
-                     *
-                     *
-                     *  translate[0] = x.range()[0] - x(new_domain[0])) * zoom.scale()
-                     */
-
-                    scale = (width) / x(x.domain()[0] +
-                        new_domain[1] -
-                        new_domain[0]);
-                    zoom.scale(scale);
-                    t[0] = x.range()[0] - (x(new_domain[
-                        0]) * scale);
-                    zoom.translate(t);
+                    setZoom(brush.extent());
 
 
                     brushScale.domain(brush.extent())
@@ -443,10 +448,15 @@ var EventPlot = (function () {
 
                 /* Update scale ranges */
                 x.range([0, width]);
-                zoomScale.range([0, width]);
                 brushScale.range([0, width]);
                 ePlot.width = width;
 
+                /* The zoom behaviour has copied the old range */
+                var shown = zoomScale.domain();
+                zoomScale.domain(x.domain()).range([0, width]);
+                zoom.x(zoomScale);
+                setZoom(shown);
+
                 resize_main(ePlot);
                 resize_info(ePlot);
                 if (showSummary)
-- 
2.43.0


From 25c5687aeb70f01f8010042da8ba8489016a6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 72/76] fix: EventPlot.js: a click in the summary keeps the
 window

---
 trappy/plotter/js/EventPlot.js | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index b126ffd..bfaa3c3 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -389,6 +389,11 @@ var EventPlot = (function () {
 
             if (showSummary) {
                 var _brushed_event = function () {
+
+                    // There is no window to show yet
+                    if (brush.empty())
+                        return;
+
                     main.selectAll("path")
                         .remove();
                     var brush_xmin = brush.extent()[0];
@@ -409,7 +414,12 @@ var EventPlot = (function () {
                 brush = d3.svg.brush()
                     .x(x)
                     .extent(x.domain())
-                    .on("brush", _brushed_event);
+                    .on("brush", _brushed_event)
+                    .on("brushend", function () {
+                        // A click selects nothing: keep the window
+                        if (brush.empty())
+                            zoomed();
+                    });
 
                 ePlot.mini.append('g')
                     .attr('class', 'brush')
-- 
2.43.0


From 0ec3114660f10c0e4a2599928150d61bcdf4e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 73/76] fix: ILinePlot.js: ignore plots that are no longer on
 the page

---
 trappy/plotter/js/ILinePlot.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 309e90d..2b33a25 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -99,6 +99,11 @@ var ILinePlot = ( function() {
     };
 
     var generate = function(data, colors) {
+
+        // The output was cleared before the scripts arrived
+        if (document.getElementById(data.name) == null)
+            return;
+
         create_graph(data, colors);
         purge();
         if (data.syncGroup != undefined)
-- 
2.43.0


From 231524637d1ea6c354450c00ba2abe256b311f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 74/76] fix: ILinePlot.js: any text can name a group

---
 trappy/plotter/js/ILinePlot.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 2b33a25..7174ed5 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -17,7 +17,8 @@
 var ILinePlot = ( function() {
 
    var graphs = new Array();
-   var syncObjs = new Array();
+   // An array has properties of its own, such as "sort"
+   var syncObjs = Object.create(null);
 
     var purge = function() {
         for (var div_name in graphs) {
-- 
2.43.0


From 101d887084c9d9e9365ac3635c57709ce911ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 75/76] fix: ILinePlot.js: resetting the zoom of a group shows
 all samples

---
 trappy/plotter/js/ILinePlot.js | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 7174ed5..841bb51 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -32,6 +32,7 @@ var ILinePlot = ( function() {
 
         var syncGraphs = Array();
         var xRange;
+        var xExtremes;
         var yRange;
         var syncZoom = true;
 
@@ -42,6 +43,7 @@ var ILinePlot = ( function() {
                 syncZoom = syncZoom & graphs[div_name].syncZoom;
 
                 var xR = graphs[div_name].graph.xAxisRange();
+                var xE = graphs[div_name].graph.xAxisExtremes();
                 var yR = graphs[div_name].graph.yAxisRange();
 
                 if (xRange != undefined) {
@@ -52,6 +54,12 @@ var ILinePlot = ( function() {
                 } else
                     xRange = xR;
 
+                if (xExtremes == undefined)
+                    xExtremes = xE;
+                // A zoomed graph has samples outside of its range
+                xExtremes = [Math.min(xExtremes[0], xE[0], xRange[0]),
+                             Math.max(xExtremes[1], xE[1], xRange[1])];
+
                 if (yRange != undefined) {
                     if (yR[0] < yRange[0])
                         yRange[0] = yR[0];
@@ -87,14 +95,14 @@ var ILinePlot = ( function() {
                     var _decoy_elem = new Array(graph.rawData_[0].length);
                     graph.rawData_.unshift(_decoy_elem);
                 }
-                graph.rawData_[0][0] = xRange[0];
+                graph.rawData_[0][0] = xExtremes[0];
 
                 if (graph.padBack_ == undefined) {
                     graph.padBack_ = true;
                     var _decoy_elem = new Array(graph.rawData_[0].length);
                     graph.rawData_.push(_decoy_elem);
                 }
-                graph.rawData_[graph.rawData_.length - 1][0] = xRange[1];
+                graph.rawData_[graph.rawData_.length - 1][0] = xExtremes[1];
             });
         }
     };
-- 
2.43.0


From f5f2c47e7b5dc8465567b5fa8caffa28be4b9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 76/76] fix: ILinePlot.js: plots without samples in a group of
 others

---
 trappy/plotter/js/ILinePlot.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 841bb51..e49d778 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -38,7 +38,9 @@ var ILinePlot = ( function() {
 
         for (var div_name in graphs) {
 
-            if (graphs[div_name].group == group) {
+            // Graphs without samples have nothing to show in a range
+            if (graphs[div_name].group == group &&
+                graphs[div_name].graph.numRows() > 0) {
                 syncGraphs.push(graphs[div_name].graph);
                 syncZoom = syncZoom & graphs[div_name].syncZoom;
 
-- 
2.43.0

