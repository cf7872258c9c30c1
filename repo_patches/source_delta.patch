From 2215d87695c8f17d2370aafa0ff46bb628daa7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 01/51] fix: TimeFrame.split refuses empty and half-open frames
 on Python 3

__nonzero__ is ignored by Python 3, so an empty frame was yielded as is and
a frame without start or end failed with AttributeError.
---
 nilmtk/timeframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 08e1035..c575b6f 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -218,6 +218,8 @@ class TimeFrame(object):
         else:
             return (self.start is not None) or (self.end is not None)
 
+    __bool__ = __nonzero__  # Python 3
+
     def __repr__(self):
         return ("TimeFrame(start='{}', end='{}', empty={})"
                 .format(self.start, self.end, self.empty))
@@ -273,7 +275,7 @@ class TimeFrame(object):
         -------
         generator of new TimeFrame objects
         """
-        if not self:
+        if self.empty or self.start is None or self.end is None:
             raise ValueError("Cannot split a TimeFrame if `start` or `end`"
                              " is None")
 
-- 
2.43.0


From cfc2f5a04e4d355a6e9782a6dcc400c479a95851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 02/51] fix: keep start before end when assigning bounds of a
 disabled TimeFrame

---
 nilmtk/timeframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index c575b6f..a0ee305 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -80,7 +80,7 @@ class TimeFrame(object):
             self._start = None
             return
         new_start = pd.Timestamp(new_start)
-        if self.end and new_start >= self.end:
+        if self._end and new_start >= self._end:
             raise ValueError("start date must be before end date")
         else:
             self._start = new_start
@@ -92,7 +92,7 @@ class TimeFrame(object):
             self._end = None
             return
         new_end = pd.Timestamp(new_end)
-        if self.start and new_end <= self.start:
+        if self._start and new_end <= self._start:
             raise ValueError("end date must be after start date")
         else:
             self._end = new_end
-- 
2.43.0


From d7e0bdb3ffbd2936c7b6459d2159331753b2b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 03/51] fix: comparing two TimeFrames without start raised
 TypeError

---
 nilmtk/timeframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index a0ee305..a4866e9 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -232,7 +232,7 @@ class TimeFrame(object):
     def __lt__(self, other):
         if self.start is None and other.start is not None:
             return True
-        if other.start is None and self.start is not None:
+        if other.start is None:
             return False
         return self.start < other.start
 
-- 
2.43.0


From 7180e809c075500543f99c87db63f4d33beccf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 04/51] fix: TimeFrame.slice failed on empty and open-ended
 frames

---
 nilmtk/timeframe.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index a4866e9..1bc02f2 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -202,13 +202,19 @@ class TimeFrame(object):
         -------
         frame : sliced frame
         """
-        if not self.empty:
-            if self.include_end:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index <= self.end)]
-            else:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index < self.end)]
+        if self.empty:
+            sliced = frame[:0]
+        else:
+            sliced = frame
+            if self.start is not None:
+                sliced = sliced[sliced.index >= self.start]
+            if self.end is not None:
+                if self.include_end:
+                    sliced = sliced[sliced.index <= self.end]
+                else:
+                    sliced = sliced[sliced.index < self.end]
+            if sliced is frame:
+                sliced = frame[:]
         sliced.timeframe = self
         return sliced
 
-- 
2.43.0


From f487ad8c652529c9c5b5ac277601156050e199e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 05/51] fix: np.NaN no longer exists in numpy 2

---
 nilmtk/electric.py          | 8 ++++----
 nilmtk/metergroup.py        | 8 ++++----
 nilmtk/metrics.py           | 2 +-
 nilmtk/stats/dropoutrate.py | 2 +-
 nilmtk/utils.py             | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1406120..b66eff4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -258,7 +258,7 @@ class Electric(object):
         else:
             td = self.get_timeframe().timedelta
         if not td:
-            return np.NaN
+            return np.nan
         uptime_secs = td.total_seconds()
         periods = uptime_secs / offset_alias_to_seconds(offset_alias)
         energy = self.total_energy(**load_kwargs)
@@ -285,7 +285,7 @@ class Electric(object):
         # TODO test effect of setting `sections` for other
         other_total_energy = other.total_energy(**loader_kwargs)
         if other_total_energy.sum() == 0:
-            return np.NaN
+            return np.nan
 
         total_energy = self.total_energy(**loader_kwargs)
         if total_energy.empty:
@@ -336,11 +336,11 @@ class Electric(object):
 
         x_n, x_sum = sum_and_count(self)
         if x_n <= 1:
-            return np.NaN
+            return np.nan
 
         y_n, y_sum = sum_and_count(other)
         if y_n <= 1:
-            return np.NaN
+            return np.nan
 
         x_bar = x_sum / x_n 
         y_bar = y_sum / y_n
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9ba367c..16e23e7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1093,7 +1093,7 @@ class MeterGroup(Electric):
                 print("   {:.2%}".format(prop))
         
         if all_nan:
-            proportion = np.NaN
+            proportion = np.nan
         return proportion
 
     def available_ac_types(self, physical_quantity):
@@ -1718,7 +1718,7 @@ class MeterGroup(Electric):
             series['proportion_uptime'] = (mains_uptime.total_seconds() /
                                            timeframe.timedelta.total_seconds())
         except ZeroDivisionError:
-            series['proportion_uptime'] = np.NaN
+            series['proportion_uptime'] = np.nan
         series['average_mains_energy_per_day'] = self.mains().average_energy_per_period()
 
         return series
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # See http://stackoverflow.com/a/27526721/732596
 
     DTYPE = np.float32
-    cumulator = pd.DataFrame(np.NaN, index=index, columns=columns, dtype=DTYPE)
+    cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
     columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
     timeframe = None
@@ -1827,7 +1827,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
-            cumulator_col[where_both_are_nan] = np.NaN
+            cumulator_col[where_both_are_nan] = np.nan
             del aligned
             del where_both_are_nan
             gc.collect()
diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b2467c1..9e9e5ae 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -240,7 +240,7 @@ def f1_score(predictions, ground_truth):
             warn("No aligned samples when calculating F1-score for prediction"
                  " meter {} and ground truth meter {}."
                  .format(pred_meter, ground_truth_meter))
-            avg_score = np.NaN
+            avg_score = np.nan
         f1_scores[pred_meter.instance()] = avg_score
 
     return pd.Series(f1_scores)
diff --git a/nilmtk/stats/dropoutrate.py b/nilmtk/stats/dropoutrate.py
index 817f456..02c1593 100644
--- a/nilmtk/stats/dropoutrate.py
+++ b/nilmtk/stats/dropoutrate.py
@@ -39,7 +39,7 @@ def get_dropout_rate(data, sample_period):
     """
     MIN_N_SAMPLES = 5
     if len(data) < MIN_N_SAMPLES:
-        return np.NaN
+        return np.nan
 
     index = get_index(data)
     assert(index[-1] > index[0])
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index d481f53..e2cf081 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -334,7 +334,7 @@ def normalise_timestamp(timestamp, freq):
     in the set of timestamps returned by pd.DataFrame.resample(freq=freq)
     """
     timestamp = pd.Timestamp(timestamp)
-    series = pd.Series(np.NaN, index=[timestamp])
+    series = pd.Series(np.nan, index=[timestamp])
     resampled = series.resample(freq).mean()
     return resampled.index[0]
 
@@ -434,7 +434,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
         if not df_app.empty:
             app_rms_error = np.sqrt(mean_squared_error(df_app['gt'], df_app['pr']))
         else:
-            app_rms_error = np.NaN
+            app_rms_error = np.nan
 
         if pretty:
             app_counts[app_label] += 1
-- 
2.43.0


From 85c42a84b46a3ffbc4a02be5ee398a5103091328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:11 +0000
Subject: [PATCH 06/51] fix: get_good_sections failed when every look-ahead row
 has a missing value

---
 nilmtk/stats/goodsections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index e3c1a11..11b80ab 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -126,9 +126,11 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
 
     # Use look_ahead to see if we need to append a 
     # good sect start or good sect end.
+    if look_ahead is not None:
+        look_ahead = look_ahead.dropna()
     look_ahead_valid = look_ahead is not None and not look_ahead.empty
     if look_ahead_valid:
-        look_ahead_timedelta = look_ahead.dropna().index[0] - last_index
+        look_ahead_timedelta = look_ahead.index[0] - last_index
         look_ahead_gap = look_ahead_timedelta.total_seconds()
     if last_timedeltas_check: # current chunk ends with a good section
         if not look_ahead_valid or look_ahead_gap > max_sample_period:
-- 
2.43.0


From 03208e0189f338b75644f9712caced7777dac068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:11 +0000
Subject: [PATCH 07/51] fix: good sections lost runs that start or end in a
 chunk with a single valid sample

---
 nilmtk/stats/goodsections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index 11b80ab..6fc1962 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -96,7 +96,7 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
     index = df.dropna().sort_index().index
     del df
 
-    if len(index) < 2:
+    if len(index) == 0:
         return []
 
     timedeltas_sec = timedelta64_to_secs(diff(index.values))
-- 
2.43.0


From a8c3ffa633a2a2d706d304f3dabcfa5066c0588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:12 +0000
Subject: [PATCH 08/51] fix: GoodSectionsResults.combined changed the stored
 sections

---
 nilmtk/stats/goodsectionsresults.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 9c917bb..26655d8 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -1,3 +1,4 @@
+import copy
 import pandas as pd
 from datetime import timedelta
 import matplotlib.pyplot as plt
@@ -46,7 +47,8 @@ class GoodSectionsResults(Results):
         sections = TimeFrameGroup()
         end_date_of_prev_row = None
         for index, row in self._data.iterrows():
-            row_sections = row['sections']
+            # copy, so that the stored sections stay as they are
+            row_sections = copy.deepcopy(row['sections'])
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
@@ -57,7 +59,7 @@ class GoodSectionsResults(Results):
                     <= index <=
                     end_date_of_prev_row)
 
-                if rows_are_adjacent and row_sections[0].start is None:
+                if rows_are_adjacent and row_sections and row_sections[0].start is None:
                     assert sections[-1].end is None
                     sections[-1].end = row_sections[0].end
                     row_sections.pop(0)
-- 
2.43.0


From a8c1e16b08e8352df093ccafaaf186973612b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:12 +0000
Subject: [PATCH 09/51] fix: Results.unify raised KeyError instead of
 RuntimeError for a missing period

---
 nilmtk/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index f813228..a0295ea 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -122,8 +122,8 @@ class Results(object):
         """
         assert isinstance(other, self.__class__)
         for i, row in self._data.iterrows():
-            if (other._data['end'].loc[i] != row['end'] or
-                i not in other._data.index):
+            if (i not in other._data.index or
+                other._data['end'].loc[i] != row['end']):
                 raise RuntimeError("The sections we are trying to merge"
                                    " do not have the same end times so we"
                                    " cannot merge them.")
-- 
2.43.0


From 092db00fe5a675576cda0dfc4d389f8561fb2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:40 +0000
Subject: [PATCH 10/51] fix: HDFDataStore.load without window raised when the
 row count is a multiple of the chunk size plus one

---
 nilmtk/datastore/hdfdatastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8a5aef2..1d729f3 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -73,8 +73,8 @@ class HDFDataStore(DataStore):
             terms = window_intersect.query_terms('window_intersect')
             if terms is None:
                 section_start_i = 0
-                section_end_i = self.store.get_storer(key).nrows
-                if section_end_i <= 1:
+                section_end_i = self.store.get_storer(key).nrows - 1
+                if section_end_i <= 0:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
-- 
2.43.0


From fbab03f91788263b6de85006944d4b071048c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:40 +0000
Subject: [PATCH 11/51] fix: CSVDataStore.load look-ahead skipped a row when
 the index has no name

---
 nilmtk/datastore/csvdatastore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index faac49b..08de2a5 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -89,7 +89,9 @@ class CSVDataStore(DataStore):
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-                            rows_to_skip = (len(header_rows)+1)+(chunk_idx*chunksize)+subchunk_end+1
+                            # pandas writes a line with the index name only if there is one
+                            n_header_lines = len(header_rows) + (chunk.index.name is not None)
+                            rows_to_skip = n_header_lines+(chunk_idx*chunksize)+subchunk_end+1
                             try:
                                 subchunk.look_ahead = pd.read_csv(file_path, 
                                                 index_col=0, 
-- 
2.43.0


From 6cf779a5fb87d2ad56951a3a79c54a3ebe3e2db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:40 +0000
Subject: [PATCH 12/51] fix: CSVDataStore.append wrote the header again into an
 existing table

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 08de2a5..a99c613 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -115,7 +115,7 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=True)
+                     header=not exists(file_path))
 
     @doc_inherit
     def put(self, key, value):
-- 
2.43.0


From d31c1746225cc699bd2341db4354dc1f10b4d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:40 +0000
Subject: [PATCH 13/51] fix: CSVDataStore.elements_below_key raised NameError
 below the root and kept file extensions

---
 nilmtk/datastore/csvdatastore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index a99c613..588be12 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -196,11 +196,13 @@ class CSVDataStore(DataStore):
                 if isdir(dir_path) and re.match('building[0-9]*', directory):
                     elements += [directory]
         else:
-            relative_path = key[1:]
+            relative_path = key.strip('/')
             dir_path = join(self.filename, relative_path)
             if isdir(dir_path):
                 for element in listdir(dir_path):
-                    elements += [directory]
+                    if element.endswith('.csv'):
+                        element = element[:-len('.csv')]
+                    elements += [element]
 
         return elements
 
-- 
2.43.0


From 7cf51c7d2dd1504d322c41bea49a5d337461f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:55 +0000
Subject: [PATCH 14/51] fix: HDFDataStore.save_metadata failed for a key that
 holds no table yet

---
 nilmtk/datastore/hdfdatastore.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 1d729f3..89750eb 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -7,7 +7,7 @@ import pandas as pd
 
 from nilmtk.timeframe import TimeFrame
 from nilmtk.timeframegroup import TimeFrameGroup
-from .datastore import DataStore, MAX_MEM_ALLOWANCE_IN_BYTES
+from .datastore import DataStore, MAX_MEM_ALLOWANCE_IN_BYTES, join_key
 from nilmtk.docinherit import doc_inherit
 
 class HDFDataStore(DataStore):
@@ -192,6 +192,11 @@ class HDFDataStore(DataStore):
             node = self.store.root
         else:
             node = self.store.get_node(key)
+            if node is None:
+                # metadata can be saved before any table below the key
+                parent, _, name = join_key(key).rpartition('/')
+                node = self.store._handle.create_group(
+                    parent or '/', name, createparents=True)
 
         node._v_attrs.metadata = metadata
         self.store.flush()
-- 
2.43.0


From 6a2e786c59acb2cb7c79ae6852a6e0ca57ec9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:55 +0000
Subject: [PATCH 15/51] fix: convert_datastore repeated the row shared by
 consecutive chunks

---
 nilmtk/datastore/datastore.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index f6de98f..7b0447b 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -232,7 +232,13 @@ def convert_datastore(input_store, output_store):
                     continue
                 meter_key = utility_key+'/'+meter
                 # store meter data
+                last = None
                 for df in input_store.load(meter_key):
-                    output_store.append(meter_key, df)
+                    # consecutive chunks may share their boundary row
+                    if last is not None and len(df) and df.index[0] == last:
+                        df = df.iloc[1:]
+                    if len(df):
+                        last = df.index[-1]
+                        output_store.append(meter_key, df)
 
 
-- 
2.43.0


From b837ca092c2233ddae3928b78b7d00ff3dea6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:41 +0000
Subject: [PATCH 16/51] fix: HDFDataStore.load failed for every section on
 Python 3.12 (pandas scope of a list of terms)

---
 nilmtk/datastore/hdfdatastore.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 89750eb..d3464ef 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -81,7 +81,8 @@ class HDFDataStore(DataStore):
                     continue
             else:
                 try:
-                    coords = self.store.select_as_coordinates(key=key, where=terms)
+                    coords = self.store.select_as_coordinates(
+                        key=key, where=_join_terms(terms))
                 except AttributeError as e:
                     if str(e) == ("'NoneType' object has no attribute "
                                   "'read_coordinates'"):
@@ -297,7 +298,8 @@ class HDFDataStore(DataStore):
             nrows = 0
         elif timeframe_intersect:
             terms = timeframe_intersect.query_terms('timeframe_intersect')
-            coords = self.store.select_as_coordinates(key, terms)
+            coords = self.store.select_as_coordinates(
+                key, _join_terms(terms))
             nrows = len(coords)
         else:
             storer = self._get_storer(key)
@@ -323,6 +325,12 @@ class HDFDataStore(DataStore):
             raise KeyError(key + ' not in store')
         
 
+def _join_terms(terms):
+    """Pandas does not find the variables of a *list* of query terms in the
+    scope of the caller on Python >= 3.12, so pass the terms as one string."""
+    return None if terms is None else ' & '.join('({})'.format(t) for t in terms)
+
+
 def _timeframe_for_chunk(there_are_more_subchunks, chunk_i, window_intersect, index):
     start = None
     end = None
-- 
2.43.0


From 738a1c0f27eb2172ad808a71d5bfb05659ef6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 17/51] fix: count only the samples present when training the
 mean disaggregator

Indexing a DataFrame with a boolean DataFrame blanks out values instead of
dropping rows, so missing samples were counted and the mean came out too low.
---
 nilmtk/disaggregate/mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index 08c977b..b357085 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -22,7 +22,7 @@ class Mean(Disaggregator):
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
             app_dict['sum'] += int(np.nansum(power_.values))
-            app_dict['n_elem'] += len(power_[~np.isnan(power_)])
+            app_dict['n_elem'] += int(np.sum(~np.isnan(power_.values)))
             self.model[app_name] = app_dict
         if self.save_model_path:
             self.save_model(self.save_model_path)
-- 
2.43.0


From c533b930cc2137107b30fdd9e7fc2b48800c0b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 18/51] fix: PairBuffer.add_transition failed for a transition
 given as a list

---
 nilmtk/disaggregate/hart_85.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 84510c2..6899dbf 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -78,9 +78,8 @@ class PairBuffer(object):
         assert isinstance(transition, (tuple, list))
         # Check that we have both active and reactive powers.
         assert len(transition) == self._num_measurements
-        # Convert as appropriate
-        if isinstance(transition, tuple):
-            mtransition = list(transition)
+        # Take a copy, because the matched marker is added to it
+        mtransition = list(transition)
         # Add transition to List of transitions (set marker as unpaired)
         mtransition.append(False)
         self.transition_list.append(mtransition)
-- 
2.43.0


From 66f5644552082c36bdba945071f6ab0fe9adaaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 19/51] fix: find_steady_states failed for a signal without
 power edges

---
 nilmtk/feature_detectors/steady_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index e273b8b..2f022f3 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -161,7 +161,7 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     # than the noise threshold
     #  https://github.com/nilmtk/nilmtk/issues/400
 
-    if np.sum(
+    if steady_states and np.sum(
             steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:
         transitions = transitions[1:]
         index_transitions = index_transitions[1:]
-- 
2.43.0


From 3e9961e11a814a2dd2bd18ed3b713647cc9c9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 20/51] fix: averaging meters of a group counts the values
 present, and does not fail on pandas 2

---
 nilmtk/metergroup.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 16e23e7..66d4d11 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1775,9 +1775,9 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     """
     # Regarding columns (e.g. voltage) that we need to average:
     # The approach is that we first add everything together
-    # in the first for-loop, whilst also keeping a 
-    # `columns_to_average_counter` DataFrame
-    # which tells us what to divide by in order to compute the 
+    # in the first for-loop, whilst also counting (in `n_values`) how many
+    # meters have a value for each column and row.
+    # This tells us what to divide by in order to compute the
     # mean for PHYSICAL_QUANTITIES_TO_AVERAGE.
 
     # Regarding doing an in-place addition:
@@ -1789,7 +1789,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     DTYPE = np.float32
     cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
-    columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
+    n_values = np.zeros(cumulator_arr.shape, dtype=np.uint16)
     timeframe = None
 
     # Go through each generator to try sum values together
@@ -1828,34 +1828,21 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
             cumulator_col[where_both_are_nan] = np.nan
+            n_values[:,i] += ~np.isnan(aligned)
             del aligned
             del where_both_are_nan
             gc.collect()
 
-        # Update columns_to_average_counter - this is necessary so we do not
-        # add up columns like 'voltage' which should be averaged.
-        physical_quantities = chunk_from_next_meter.columns.get_level_values('physical_quantity')
-        columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
-                              .intersection(physical_quantities))
-        if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=columns_to_average, 
-                                             dtype=np.uint16,
-                                             index=chunk_from_next_meter.index)
-            columns_to_average_counter = columns_to_average_counter.add(
-                counter_increment, fill_value=0)
-            del counter_increment
-
         del chunk_from_next_meter
         gc.collect()
 
-    del cumulator_arr
-    gc.collect()
-
     # Create mean values by dividing any columns which need dividing
-    for column in columns_to_average_counter:
-        cumulator[column] /= columns_to_average_counter[column]
+    for i, column_name in enumerate(columns):
+        if column_name[0] in PHYSICAL_QUANTITIES_TO_AVERAGE:
+            has_value = n_values[:,i] > 0
+            cumulator_arr[has_value,i] /= n_values[has_value,i]
 
-    del columns_to_average_counter
+    del cumulator_arr, n_values
     gc.collect()
     print()
     print("Done loading data all meters for this chunk.")
-- 
2.43.0


From 1c847b52f87f47bb5869c3f9841cb6d1f387a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 21/51] fix: average the phase angle of the meters of a group
 instead of adding it up

---
 nilmtk/measurement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/measurement.py b/nilmtk/measurement.py
index bda9361..5566da3 100644
--- a/nilmtk/measurement.py
+++ b/nilmtk/measurement.py
@@ -10,7 +10,8 @@ PHYSICAL_QUANTITIES = ['power', 'energy', 'cumulative energy',
                        'voltage', 'current', 'pf', 'frequency', 'power factor', 
                        'state', 'phase angle']
 PHYSICAL_QUANTITIES_WITH_AC_TYPES = ['power', 'energy', 'cumulative energy']
-PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase_angle']
+PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor', 'phase angle',
+                                  'phase_angle']
 LEVEL_NAMES = ['physical_quantity', 'type']
 
 def check_ac_type(ac_type):
-- 
2.43.0


From 4187533b00f5eaca444ecfb54d808e3f2ebf2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 22/51] fix: MeterGroup.load failed for time zones without a
 `zone` attribute and for ambiguous times

---
 nilmtk/metergroup.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 66d4d11..0206b05 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -714,10 +714,8 @@ class MeterGroup(Electric):
         for section in split_timeframes(sections, duration_threshold):
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
-            tz = None if start.tz is None else start.tz.zone
             index = pd.date_range(
-                start.tz_localize(None), section.end.tz_localize(None), tz=tz,
-                inclusive='left', freq=freq)
+                start, section.end, inclusive='left', freq=freq)
             chunk = combine_chunks_from_generators(
                 index, columns, self.meters, kwargs)
             yield chunk
-- 
2.43.0


From 5e88b46fde5e2b185d3fd14b7910f24f02412d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 23/51] fix: MeterGroup.get_timeframe failed when the time
 frame of the first meter is empty

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 0206b05..e0627f5 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1379,7 +1379,7 @@ class MeterGroup(Electric):
         """
         timeframe = None
         for meter in self.meters:
-            if timeframe is None:
+            if timeframe is None or timeframe.empty:
                 timeframe = meter.get_timeframe()
             elif meter.get_timeframe().empty:
                 pass
-- 
2.43.0


From c65930713b10213434fbd2ee32138eeeca4c4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 24/51] fix: equal meter groups had different hashes

---
 nilmtk/metergroup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index e0627f5..5550e0c 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -58,10 +58,10 @@ class MeterGroup(Electric):
     
     def __hash__(self):
         """
-        Provide a hash based on the MeterGroup's name, meters and 
-        disabled_meters
-        """ 
-        return hash((self.name, tuple(self.meters), tuple(self.disabled_meters)))
+        Provide a hash based on the set of meters, like `__eq__`, so that
+        equal MeterGroups have the same hash.
+        """
+        return hash(frozenset(self.meters))
 
     def import_metadata(self, store, elec_meters, appliances, building_id):
         """
-- 
2.43.0


From be82d16f5073a81356c2f133b45ae200a282d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 25/51] fix: selecting by a list of values listed a meter once
 per value it matches

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 5550e0c..f3bd75b 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -365,7 +365,9 @@ class MeterGroup(Electric):
                 else:
                     exception_raised_every_time = False
                     if match:
-                        selected_meters.append(meter)
+                        # a meter can match more than one of several values
+                        if meter not in selected_meters:
+                            selected_meters.append(meter)
                         no_match = False
             if no_match:
                 raise KeyError("'No match for {}'".format(_kwargs))
-- 
2.43.0


From 086aa0d3eb2db936e7da7dc3000e07ec8e025dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 26/51] fix: matching stopped at the first appliance or meter a
 key is not applicable to

---
 nilmtk/electric.py   | 11 +++++++++--
 nilmtk/metergroup.py | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b66eff4..1b216d8 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -95,9 +95,16 @@ class Electric(object):
         True if all key:value pairs in `key` match any appliance
         in `self.appliances`.
         """
+        n_not_applicable = 0
         for appliance in self.appliances:
-            if appliance.matches(key):
-                return True
+            try:
+                if appliance.matches(key):
+                    return True
+            except KeyError:
+                # `key` is not applicable to this appliance; try the others
+                n_not_applicable += 1
+                if n_not_applicable == len(self.appliances):
+                    raise
         return False
 
     def power_series_all_data(self, **kwargs):
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index f3bd75b..31e820e 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -296,9 +296,16 @@ class MeterGroup(Electric):
             raise TypeError()
 
     def matches(self, key):
+        n_not_applicable = 0
         for meter in self.meters:
-            if meter.matches(key):
-                return True
+            try:
+                if meter.matches(key):
+                    return True
+            except KeyError:
+                # `key` is not applicable to this meter; try the others
+                n_not_applicable += 1
+                if n_not_applicable == len(self.meters):
+                    raise
         return False
 
     def select(self, **kwargs):
-- 
2.43.0


From ae9b01942ffb8f6b62e5d790142aa3cea6550e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:21 +0000
Subject: [PATCH 27/51] fix: looking up an appliance stopped at the first meter
 the key is not applicable to

---
 nilmtk/metergroup.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 31e820e..2a877c1 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -260,7 +260,12 @@ class MeterGroup(Electric):
         elif isinstance(key, dict):
             meters = []
             for meter in self.meters:
-                if meter.matches_appliances(key):
+                try:
+                    match = meter.matches_appliances(key)
+                except KeyError:
+                    # `key` is not applicable to the appliances of this meter
+                    continue
+                if match:
                     meters.append(meter)
             if len(meters) == 1:
                 return meters[0]
-- 
2.43.0


From 56baed01694afac232932269ef3a0c6356ab42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 28/51] fix: metadata named count or index could not be matched
 (taken for a tuple method)

---
 nilmtk/appliance.py | 2 +-
 nilmtk/elecmeter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/appliance.py b/nilmtk/appliance.py
index a43508e..67c0f5c 100644
--- a/nilmtk/appliance.py
+++ b/nilmtk/appliance.py
@@ -116,7 +116,7 @@ class Appliance(Hashable):
 
         match = True
         for k, v in key.items():
-            if hasattr(self.identifier, k):
+            if k in getattr(self.identifier, '_fields', ()):
                 if Appliance.allow_synonyms and k == 'type':
                     synonyms = self.type.get('synonyms', [])
                     synonyms.append(self.identifier.type)
diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1df5012..2fc6d2b 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -324,7 +324,7 @@ class ElecMeter(Hashable, Electric):
 
         match = True
         for k, v in key.items():
-            if hasattr(self.identifier, k):
+            if k in getattr(self.identifier, '_fields', ()):
                 if getattr(self.identifier, k) != v:
                     match = False
 
-- 
2.43.0


From 082528a11d21ccda91a66383e1481d24b17d7e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:16 +0000
Subject: [PATCH 29/51] fix: FHMM gave states of equal mean power the
 parameters of one of them

return_sorting_mapping looked up each sorted mean by value, so two states
with the same mean (an appliance that is always off, say) both mapped to
the first: start probabilities no longer summed to one and predicting
raised ValueError. Use a stable argsort.
---
 nilmtk/disaggregate/fhmm_exact.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 8a91b59..c635632 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -128,13 +128,13 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
+    # a stable sort also tells apart states that have the same mean
+    order = np.argsort(means, axis=0, kind='stable')
 
     # Finding mapping
     mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
+    for i, val in enumerate(order):
+        mapping[i] = val[0]
     return mapping
 
 
-- 
2.43.0


From c7145056df7d80c41197800b5d89205143c4c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 30/51] fix: cached statistics are kept apart by dataset

The cache is shared by all datasets, so meter 1 of building 1 of one data set
was given the statistics of meter 1 of building 1 of another.
---
 nilmtk/elecmeter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 2fc6d2b..7bbb78f 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -789,8 +789,11 @@ class ElecMeter(Hashable, Electric):
         else:
             meter_str = "{:d}".format(self.instance())
 
-        return ("building{:d}/elec/cache/meter{}/{:s}"
-                .format(self.building(), meter_str, stat_name))
+        key = ("building{:d}/elec/cache/meter{}/{:s}"
+               .format(self.building(), meter_str, stat_name))
+        # the cache is shared by the meters of all datasets
+        dataset = self.dataset()
+        return "{}/{}".format(dataset, key) if dataset else key
 
     def clear_cache(self, verbose=False):
         """
-- 
2.43.0


From 7a279675ea096fdad32ad4dcdbe2fe3b20237552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 31/51] fix: cached statistics of some of the columns are kept
 apart

A statistic computed for some of the columns was served for all of them.
---
 nilmtk/elecmeter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 7bbb78f..837eb34 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -682,7 +682,10 @@ class ElecMeter(Hashable, Electric):
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-        key_for_cached_stat = self.key_for_cached_stat(results_obj.name)
+        # (statistics of some of the columns are kept apart)
+        stat_name = "_".join([results_obj.name] + sorted(
+            "_".join(str(level) for level in column) for column in columns))
+        key_for_cached_stat = self.key_for_cached_stat(stat_name)
         if loader_kwargs.get('preprocessing') is None:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
-- 
2.43.0


From 2b0c03d374f9702dc5b7760f73b72c735fa5f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 32/51] fix: only results for whole sections, not yet cached,
 are stored in the cache

Results for the chunks of a section were stored although they cannot be used
again and overlap the result for the whole section; results already in the cache
were stored once more.
---
 nilmtk/elecmeter.py | 14 ++++++++++----
 nilmtk/results.py   |  7 +++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 837eb34..02f3ba5 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -689,6 +689,7 @@ class ElecMeter(Hashable, Electric):
         if loader_kwargs.get('preprocessing') is None:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
+            uncached = set(sections) - set(results_obj.timeframes())
 
             def find_sections_to_compute():
                 # Get sections_to_compute
@@ -708,6 +709,7 @@ class ElecMeter(Hashable, Electric):
                     results_obj = results_obj_copy
         else:
             sections_to_compute = sections
+            uncached = set()
 
         if verbose and not results_obj._data.empty:
             print("Using cached result.")
@@ -720,14 +722,18 @@ class ElecMeter(Hashable, Electric):
             # Merge cached results with newly computed
             results_obj.update(computed_result.results)
 
-            # Save to disk newly computed stats
-            stat_for_store = computed_result.results.export_to_cache()
+            # Save to disk newly computed stats. Results for parts of a section
+            # (chunks) cannot be used again, those in the cache are there once.
+            stat_for_store = computed_result.results.for_timeframes(
+                uncached).export_to_cache()
             try:
-                self.cache.append(key_for_cached_stat, stat_for_store)
+                if not stat_for_store.empty:
+                    self.cache.append(key_for_cached_stat, stat_for_store)
             except ValueError:
                 # the old table probably had different columns
                 self.cache.remove(key_for_cached_stat)
-                self.cache.put(key_for_cached_stat, results_obj.export_to_cache())
+                self.cache.put(key_for_cached_stat,
+                               results_obj.for_timeframes(sections).export_to_cache())
 
         if full_results:
             return results_obj
diff --git a/nilmtk/results.py b/nilmtk/results.py
index a0295ea..e64bde1 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -186,6 +186,13 @@ class Results(object):
         """
         return self._data.apply(pd.to_numeric, errors='ignore')
 
+    def for_timeframes(self, timeframes):
+        """Returns a copy which has only the rows for exactly these timeframes."""
+        selected = copy.copy(self)
+        selected._data = self._data.loc[pd.Series(
+            [tf in timeframes for tf in self.timeframes()], dtype=bool).values]
+        return selected
+
     def timeframes(self):
         """Returns a list of timeframes covered by this Result."""
         # For some reason, using `iterrows()` messes with the 
-- 
2.43.0


From d784dda3eca4705e47eb2e8816eb96c0a37742f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 33/51] fix: cached statistics of sections that include their
 end are kept apart

The cache holds only the start and the end, so a section that includes its end
was given the result of one that does not.
---
 nilmtk/elecmeter.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 02f3ba5..f50a589 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -685,10 +685,17 @@ class ElecMeter(Hashable, Electric):
         # (statistics of some of the columns are kept apart)
         stat_name = "_".join([results_obj.name] + sorted(
             "_".join(str(level) for level in column) for column in columns))
-        key_for_cached_stat = self.key_for_cached_stat(stat_name)
+        # (as are those of sections that include their end)
+        keys_for_cached_stat = {
+            False: self.key_for_cached_stat(stat_name),
+            True: self.key_for_cached_stat(stat_name + "_end_included")}
         if loader_kwargs.get('preprocessing') is None:
-            cached_stat = self.get_cached_stat(key_for_cached_stat)
-            results_obj.import_from_cache(cached_stat, sections)
+            for include_end, key_for_cached_stat in keys_for_cached_stat.items():
+                cached_result = deepcopy(results_obj_copy)
+                cached_result.import_from_cache(
+                    self.get_cached_stat(key_for_cached_stat),
+                    [s for s in sections if s.include_end == include_end])
+                results_obj.update(cached_result)
             uncached = set(sections) - set(results_obj.timeframes())
 
             def find_sections_to_compute():
@@ -724,16 +731,19 @@ class ElecMeter(Hashable, Electric):
 
             # Save to disk newly computed stats. Results for parts of a section
             # (chunks) cannot be used again, those in the cache are there once.
-            stat_for_store = computed_result.results.for_timeframes(
-                uncached).export_to_cache()
-            try:
-                if not stat_for_store.empty:
-                    self.cache.append(key_for_cached_stat, stat_for_store)
-            except ValueError:
-                # the old table probably had different columns
-                self.cache.remove(key_for_cached_stat)
-                self.cache.put(key_for_cached_stat,
-                               results_obj.for_timeframes(sections).export_to_cache())
+            for include_end, key_for_cached_stat in keys_for_cached_stat.items():
+                stat_for_store = computed_result.results.for_timeframes(
+                    [s for s in uncached if s.include_end == include_end]
+                ).export_to_cache()
+                try:
+                    if not stat_for_store.empty:
+                        self.cache.append(key_for_cached_stat, stat_for_store)
+                except ValueError:
+                    # the old table probably had different columns
+                    self.cache.remove(key_for_cached_stat)
+                    self.cache.put(key_for_cached_stat, results_obj.for_timeframes(
+                        [s for s in sections if s.include_end == include_end]
+                    ).export_to_cache())
 
         if full_results:
             return results_obj
-- 
2.43.0


From c831baa5e88bfd763428ba62be56c773c3b2e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 34/51] fix: read cached periods of data without time zone as
 timestamps

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e2cf081..7f5e63b 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -259,12 +259,12 @@ def check_directory_exists(d):
 
 
 def tz_localize_naive(timestamp, tz):
-    if tz is None:
-        return timestamp
     if timestamp is None or pd.isnull(timestamp):
         return pd.NaT
 
     timestamp = pd.Timestamp(timestamp)
+    if tz is None:
+        return timestamp
     if timestamp_is_naive(timestamp):
         timestamp = timestamp.tz_localize('UTC')
 
-- 
2.43.0


From 1eeaf9928809383f9504dd3ea8d82b6a3aef0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 35/51] fix: an open-ended good section continues only in an
 adjacent chunk

---
 nilmtk/stats/goodsections.py        |  8 ++++++++
 nilmtk/stats/goodsectionsresults.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index 6fc1962..1268fff 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -22,6 +22,7 @@ class GoodSections(Node):
         
     def reset(self):
         self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = None
 
     def process(self):
         metadata = self.upstream.get_metadata()
@@ -61,6 +62,13 @@ class GoodSections(Node):
         look_ahead = getattr(df, 'look_ahead', None)
         timeframe = df.timeframe
 
+        # An open-ended good section continues only in an adjacent chunk
+        if (self.end_of_previous_chunk is not None and not
+                self.results.periods_are_adjacent(
+                    self.end_of_previous_chunk, timeframe.start)):
+            self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = timeframe.end
+
         # Process dataframe
         good_sections = get_good_sections(
             df, max_sample_period, look_ahead,
diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 26655d8..073474f 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -54,10 +54,8 @@ class GoodSectionsResults(Results):
             # last TimeFrame of previous section
             if (end_date_of_prev_row is not None):
 
-                rows_are_adjacent = (
-                    (end_date_of_prev_row - self.max_sample_period_td)
-                    <= index <=
-                    end_date_of_prev_row)
+                rows_are_adjacent = self.periods_are_adjacent(
+                    end_date_of_prev_row, index)
 
                 if rows_are_adjacent and row_sections and row_sections[0].start is None:
                     assert sections[-1].end is None
@@ -87,6 +85,12 @@ class GoodSectionsResults(Results):
 
         return sections
 
+    def periods_are_adjacent(self, end, start):
+        """Does a period that starts at `start` follow one that ends at `end`?"""
+        if end is None or start is None:
+            return False
+        return (end - self.max_sample_period_td) <= start <= end
+
     def unify(self, other):
         super(GoodSectionsResults, self).unify(other)
         for start, row in self._data.iterrows():
-- 
2.43.0


From 7a787f28be0e1c1fcb44e72ca1d9d1c9d5e1807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 36/51] fix: good sections of adjacent sections are not cached

They depend on the other section.
---
 nilmtk/elecmeter.py                 | 7 ++++---
 nilmtk/results.py                   | 5 +++++
 nilmtk/stats/goodsectionsresults.py | 9 +++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index f50a589..39220d0 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -689,14 +689,15 @@ class ElecMeter(Hashable, Electric):
         keys_for_cached_stat = {
             False: self.key_for_cached_stat(stat_name),
             True: self.key_for_cached_stat(stat_name + "_end_included")}
+        cacheable = results_obj.independent(sections)
         if loader_kwargs.get('preprocessing') is None:
             for include_end, key_for_cached_stat in keys_for_cached_stat.items():
                 cached_result = deepcopy(results_obj_copy)
                 cached_result.import_from_cache(
                     self.get_cached_stat(key_for_cached_stat),
-                    [s for s in sections if s.include_end == include_end])
+                    [s for s in cacheable if s.include_end == include_end])
                 results_obj.update(cached_result)
-            uncached = set(sections) - set(results_obj.timeframes())
+            uncached = set(cacheable) - set(results_obj.timeframes())
 
             def find_sections_to_compute():
                 # Get sections_to_compute
@@ -742,7 +743,7 @@ class ElecMeter(Hashable, Electric):
                     # the old table probably had different columns
                     self.cache.remove(key_for_cached_stat)
                     self.cache.put(key_for_cached_stat, results_obj.for_timeframes(
-                        [s for s in sections if s.include_end == include_end]
+                        [s for s in cacheable if s.include_end == include_end]
                     ).export_to_cache())
 
         if full_results:
diff --git a/nilmtk/results.py b/nilmtk/results.py
index e64bde1..667d5d7 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -186,6 +186,11 @@ class Results(object):
         """
         return self._data.apply(pd.to_numeric, errors='ignore')
 
+    def independent(self, sections):
+        """Returns those of `sections` whose results do not depend on which
+        other sections there are."""
+        return sections
+
     def for_timeframes(self, timeframes):
         """Returns a copy which has only the rows for exactly these timeframes."""
         selected = copy.copy(self)
diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 073474f..00927cf 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -108,6 +108,15 @@ class GoodSectionsResults(Results):
         timeframes = self.combined()
         return timeframes.plot(**kwargs)
         
+    def independent(self, sections):
+        # a good section may extend into the adjacent sections
+        sections = sorted(sections)
+        follows = [self.periods_are_adjacent(a.end, b.start)
+                   for a, b in zip(sections, sections[1:])]
+        return [section for section, before, after in
+                zip(sections, [False] + follows, follows + [False])
+                if not (before or after)]
+
     def import_from_cache(self, cached_stat, sections):
         # we (deliberately) use duplicate indices to cache GoodSectionResults
         grouped_by_index = cached_stat.groupby(level=0)
-- 
2.43.0


From 9fef9a33fe2649b9c99d85df69de2d24c9dd6e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 37/51] fix: correlation counted the rows shared by consecutive
 chunks twice

---
 nilmtk/electric.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1b216d8..32463fb 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -333,10 +333,21 @@ class Electric(object):
         sample_period = max(self.sample_period(), other.sample_period())
         load_kwargs.setdefault('sample_period', sample_period)
 
+        def power_chunks(electric):
+            # Consecutive chunks may share a row: use it only once
+            prev_end = None
+            for power in electric.power_series(**load_kwargs):
+                if len(power.index) > 0:
+                    if prev_end is not None and power.index[0] <= prev_end:
+                        power = power.iloc[1:]
+                    if len(power.index) > 0:
+                        prev_end = power.index[-1]
+                yield power
+
         def sum_and_count(electric):
             n = 0
             cumulator = 0.0
-            for power in electric.power_series(**load_kwargs):
+            for power in power_chunks(electric):
                 n += len(power.index)
                 cumulator += power.sum()
             return n, cumulator
@@ -355,7 +366,7 @@ class Electric(object):
         # Second pass is used to find x_s and y_s (std.devs)
         def stdev(electric, mean, n):
             s_square_sum = 0.0
-            for power in electric.power_series(**load_kwargs):
+            for power in power_chunks(electric):
                 s_square_sum += ((power - mean) * (power - mean)).sum()
             s_square = s_square_sum / (n - 1)
             return np.sqrt(s_square)
@@ -364,8 +375,8 @@ class Electric(object):
         y_s = stdev(other, y_bar, y_n)
 
         numerator = 0.0
-        for (x_power, y_power) in zip(self.power_series(**load_kwargs), 
-                                       other.power_series(**load_kwargs)):
+        for (x_power, y_power) in zip(power_chunks(self),
+                                      power_chunks(other)):
             xi_minus_xbar = x_power - x_bar
             del x_power
             gc.collect()
-- 
2.43.0


From 1959737b86d7dea643f9bf195c64ab9749104561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 38/51] fix: loading a meter changed the caller's
 resample_kwargs

---
 nilmtk/elecmeter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 39220d0..3f8aa85 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -420,7 +420,9 @@ class ElecMeter(Hashable, Electric):
 
         if kwargs.get('resample'):
             # Set default key word arguments for resampling.
-            resample_kwargs = kwargs.setdefault('resample_kwargs', {})
+            # (a copy because the caller may use theirs for other meters)
+            resample_kwargs = dict(kwargs.get('resample_kwargs') or {})
+            kwargs['resample_kwargs'] = resample_kwargs
             resample_kwargs.setdefault('fill_method', 'ffill')
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
-- 
2.43.0


From 04445aff203098af6e2ce24423a00e5864812c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 39/51] fix: loading a meter added to the caller's list of
 preprocessing nodes

---
 nilmtk/electric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 32463fb..20dbdbf 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -149,8 +149,9 @@ class Electric(object):
                 resample_kwargs['rule'] = '{:d}S'.format(sample_period)
                 return safe_resample(df, **resample_kwargs)
 
-            kwargs.setdefault('preprocessing', []).append(
-                Apply(func=resample_func))
+            # A new list because the caller may use theirs again
+            kwargs['preprocessing'] = (list(kwargs.get('preprocessing', [])) +
+                                       [Apply(func=resample_func)])
 
         return kwargs
 
-- 
2.43.0


From 0f75270e914a63901e6bfa5874244e3108d5ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 40/51] fix: load(sample_period=None) raised TypeError instead
 of using the meter's own

---
 nilmtk/elecmeter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 3f8aa85..accd9e7 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -415,7 +415,7 @@ class ElecMeter(Hashable, Electric):
             print("ElecMeter.load")
             print(self)
 
-        if 'sample_period' in kwargs:
+        if kwargs.get('sample_period') is not None:
             kwargs.setdefault('resample', True)
 
         if kwargs.get('resample'):
@@ -427,8 +427,10 @@ class ElecMeter(Hashable, Electric):
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
                 default_sample_period = self.sample_period()
-                sample_period = kwargs.get('sample_period', default_sample_period)
-                
+                sample_period = kwargs.get('sample_period')
+                if sample_period is None:
+                    sample_period = default_sample_period
+
                 if default_sample_period is not None and sample_period < default_sample_period:
                     warn("The provided sample_period ({}) is shorter than the meter's sample_period ({})".format(
                         sample_period, default_sample_period
-- 
2.43.0


From 80a7bf948af0b48f71e424c0f5e98e6d39b12a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 41/51] fix: resampling raised KeyError or NonExistentTimeError
 on days whose midnight is ambiguous or missing

---
 nilmtk/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 7f5e63b..0c01466 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -509,13 +509,13 @@ def safe_resample(data, **resample_kwargs):
             warnings.warn("Found duplicate index. Keeping first value")
             data = data[~dups_in_index]
             
-        data = _resample_chain(data, resample_kwargs)
-    except pytz.AmbiguousTimeError:
+        data = _resample_chain(data, dict(resample_kwargs))
+    except pytz.InvalidTimeError:
         # Work-around for
         # https://github.com/pydata/pandas/issues/10117
         tz = data.index.tz.zone
         data = data.tz_convert('UTC')
-        data = _resample_chain(data, resample_kwargs)
+        data = _resample_chain(data, dict(resample_kwargs))
         
         data = data.tz_convert(tz)
     return data
-- 
2.43.0


From 81feac30c92fca2b780a6dea65d23d7953a8bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:55 +0000
Subject: [PATCH 42/51] fix: loading a meter group failed on days whose
 midnight is ambiguous or missing

---
 nilmtk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 0c01466..fd0fec7 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -335,7 +335,7 @@ def normalise_timestamp(timestamp, freq):
     """
     timestamp = pd.Timestamp(timestamp)
     series = pd.Series(np.nan, index=[timestamp])
-    resampled = series.resample(freq).mean()
+    resampled = safe_resample(series, rule=freq, how='mean')
     return resampled.index[0]
 
 
-- 
2.43.0


From 33d2d4d1ad43a08b53683eb7296a5bb6cd236675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 43/51] fix: total energy of a group keeps AC types that only
 some meters measure

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 2a877c1..d4d582f 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -881,7 +881,9 @@ class MeterGroup(Electric):
                 if full_results:
                     total_energy_results.unify(meter_energy)
                 else:
-                    total_energy_results += meter_energy
+                    # a meter need not measure every AC type
+                    total_energy_results = total_energy_results.add(
+                        meter_energy, fill_value=0)
             return total_energy_results
 
     def _collect_stats_on_all_meters(self, load_kwargs, func, full_results):
-- 
2.43.0


From 9117e2d81e01c7d740a459c47352d7823e01d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 44/51] fix: full results of a group that contains meter groups

---
 nilmtk/metergroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index d4d582f..f1cdeaa 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -894,6 +894,7 @@ class MeterGroup(Electric):
                                                **load_kwargs)
             collected_stats.append(single_stat)
             if (full_results and len(self.meters) > 1 and
+                    not isinstance(meter, MeterGroup) and
                     not meter.store.all_sections_smaller_than_chunksize):
                 warnings.warn("at least one section requested from '{}' required"
                      " multiple chunks to be loaded into memory. This may cause"
-- 
2.43.0


From 97a3f1efc4ccebd1905bfb986859bab7d6549213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 45/51] fix: energy per meter with a remainder

---
 nilmtk/metergroup.py | 3 ++-
 nilmtk/utils.py      | 5 +----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index f1cdeaa..0a85203 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1194,7 +1194,8 @@ class MeterGroup(Electric):
 
     def _energy_per_meter_with_remainder(self, energy_per_meter,
                                          mains, per_period, **kwargs):
-        ac_types = energy_per_meter.keys()
+        ac_types = [ac_type for meter_id in energy_per_meter
+                    for ac_type in energy_per_meter[meter_id].dropna().index]
         energy_per_meter = energy_per_meter.sum() # Collapse AC_TYPEs into Series
 
         # Find most common ac_type in energy_per_meter:
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index fd0fec7..b8de23d 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -361,10 +361,7 @@ def most_common(lst):
     """Returns the most common entry in lst."""
     lst = list(lst)
     counts = {item: lst.count(item) for item in set(lst)}
-    counts = pd.Series(counts)
-    counts.sort()
-    most_common = counts.index[-1]
-    return most_common
+    return max(counts, key=counts.get)
 
 
 def capitalise_first_letter(string):
-- 
2.43.0


From a5f53f0d1a84793291c282dcf338a58232e97c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 46/51] fix: proportion of upstream uses an AC type that both
 meters measure

---
 nilmtk/electric.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 20dbdbf..15bfcd1 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -218,10 +218,15 @@ class Electric(object):
         """
         upstream = self.upstream_meter()
         upstream_good_sects = upstream.good_sections(**load_kwargs)
-        proportion_of_energy = (self.total_energy(sections=upstream_good_sects) /
-                                upstream.total_energy(sections=upstream_good_sects))
+        energy = self.total_energy(sections=upstream_good_sects)
+        upstream_energy = upstream.total_energy(sections=upstream_good_sects)
+        proportion_of_energy = energy / upstream_energy
         if isinstance(proportion_of_energy, pd.Series):
-            best_ac_type = select_best_ac_type(proportion_of_energy.keys())
+            # AC types which only one of the two meters measures are NaN
+            shared_ac_types = [ac_type for ac_type in energy.keys()
+                               if ac_type in upstream_energy.keys()]
+            best_ac_type = select_best_ac_type(
+                shared_ac_types or proportion_of_energy.keys())
             return proportion_of_energy[best_ac_type]
         else:
             return proportion_of_energy
-- 
2.43.0


From f483b77a710008d663f8cd14aafe3a8b7c641230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:05 +0000
Subject: [PATCH 47/51] fix: look up the upstream meter in the meter's own
 dataset

global_meter_group held only the first meter with each identifier, so after
opening a dataset twice (e.g. a train and a test window of one file), the
upstream meter of the second one's meters belonged to the first one.
---
 nilmtk/elecmeter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index accd9e7..8538dbb 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -59,7 +59,8 @@ class ElecMeter(Hashable, Electric):
         # Insert self into nilmtk.global_meter_group
         if self.identifier is not None:
             assert isinstance(self.identifier, ElecMeterID)
-            if self not in nilmtk.global_meter_group.meters:
+            if not any(meter == self and meter.store is self.store
+                       for meter in nilmtk.global_meter_group.meters):
                 nilmtk.global_meter_group.meters.append(self)
 
     @property
@@ -129,7 +130,12 @@ class ElecMeter(Hashable, Electric):
                                      building=self.identifier.building,
                                      dataset=self.identifier.dataset)
 
-        upstream_meter = nilmtk.global_meter_group[id_of_upstream]
+        # Other datasets can hold meters with the same identifiers (e.g. if
+        # the same dataset has been opened twice), so only consider
+        # meters from the same store.
+        meters_of_store = [meter for meter in nilmtk.global_meter_group.meters
+                           if meter.store is self.store]
+        upstream_meter = nilmtk.MeterGroup(meters_of_store)[id_of_upstream]
         if upstream_meter is None:
             warn("No upstream meter found for '{}'.".format(self.identifier))
         return upstream_meter
-- 
2.43.0


From 903e10153c5ae9759e96fd8f0085cc98d896527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 48/51] fix: CSV store loads the metadata of a building without
 elec_meters

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 588be12..3acb0e1 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -152,7 +152,7 @@ class CSVDataStore(DataStore):
                 filepath = self._get_metadata_path()
                 metadata = _load_file(filepath, filename)
                 # set data_location
-                for meter_instance in metadata['elec_meters']:
+                for meter_instance in metadata.get('elec_meters', {}):
                     # not sure why I need to use meter_instance-1
                     data_location = '/building{:d}/elec/meter{:d}'.format(
                         key_object.building, meter_instance)
-- 
2.43.0


From 65e92c45b8859c5e2cac2309ef0c442cbf2bdefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:02 +0000
Subject: [PATCH 49/51] fix: artificial aggregate adds up appliances of
 different AC types

---
 nilmtk/api.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 5a24499..e40abcc 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -138,9 +138,7 @@ class API():
                     
                     if self.artificial_aggregate:
                         print ("Creating an Artificial Aggregate")
-                        train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
-                        for app_reading in appliance_readings:
-                            train_df+=app_reading
+                        train_df = self.create_artificial_aggregate(appliance_readings)
                     train_appliances = []
 
                     for cnt,i in enumerate(appliance_readings):
@@ -180,9 +178,7 @@ class API():
 
                     if self.artificial_aggregate:
                         print ("Creating an Artificial Aggregate")
-                        test_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
-                        for app_reading in appliance_readings:
-                            test_df+=app_reading
+                        test_df = self.create_artificial_aggregate(appliance_readings)
 
                     test_appliances = []
 
@@ -223,9 +219,7 @@ class API():
 
                 if self.artificial_aggregate:
                     print ("Creating an Artificial Aggregate")
-                    train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
-                    for app_reading in appliance_readings:
-                        train_df+=app_reading
+                    train_df = self.create_artificial_aggregate(appliance_readings)
 
                 self.train_mains.append(train_df)
                 for i,appliance_name in enumerate(self.appliances):
@@ -263,9 +257,7 @@ class API():
                 
                     if self.artificial_aggregate:
                         print ("Creating an Artificial Aggregate")
-                        test_mains = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
-                        for app_reading in appliance_readings:
-                            test_mains+=app_reading
+                        test_mains = self.create_artificial_aggregate(appliance_readings)
                     for i, appliance_name in enumerate(self.appliances):
                         self.test_submeters.append((appliance_name,[appliance_readings[i]]))
 
@@ -296,6 +288,22 @@ class API():
         return mains_df,new_appliances_list
     
     
+    def create_artificial_aggregate(self, appliance_readings):
+        """
+        Adds up the readings of all the appliances
+        """
+        aggregate = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
+        for app_reading in appliance_readings:
+            if app_reading.empty:
+                # There is no data left for this appliance
+                continue
+            if aggregate.shape[1] == app_reading.shape[1] == 1:
+                # The appliances may be measured by different AC types
+                app_reading = app_reading.set_axis(aggregate.columns, axis=1)
+            aggregate+=app_reading
+        return aggregate
+
+
     def store_classifier_instances(self):
 
         """
-- 
2.43.0


From 2499616ca033aa2b9320ac558d9ad17512d63495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:23 +0000
Subject: [PATCH 50/51] fix: aligning two meters goes on after a stretch with
 one sample

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 15bfcd1..887f0c1 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -867,7 +867,7 @@ def align_two_meters(master, slave, func='power_series'):
     master_generator = getattr(master, func)(sections=sections)
     for master_chunk in master_generator:
         if len(master_chunk) < 2:
-            return
+            continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
-- 
2.43.0


From fdfe5b61a6e2372d32dcf8ae54817ab3103f787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:29 +0000
Subject: [PATCH 51/51] fix: the data frame of the meters of a group goes on
 after chunks that are all empty

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 0a85203..ecfa9b8 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -984,12 +984,14 @@ class MeterGroup(Electric):
         while True:
             chunks = []
             ids = []
+            exhausted = True
             for meter_id, generator in zip(identifiers, generators):
                 try:
                     chunk_from_next_meter = next(generator)
                 except StopIteration:
                     continue
 
+                exhausted = False
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
                     chunks.append(chunk_from_next_meter.sum(axis=1))
@@ -998,7 +1000,7 @@ class MeterGroup(Electric):
                 df = pd.concat(chunks, axis=1)
                 df.columns = ids
                 segments.append(df)
-            else:
+            elif exhausted:
                 break
 
         if segments:
-- 
2.43.0

