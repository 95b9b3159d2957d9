From 1d88836d370e636d94b55a22c5e156e3e656b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 01/45] fix: guard native STA/LTA against an LTA window without
 energy (0/0)

---
 quakemigrate/core/src/onsetlib.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index fe14a1d..985c218 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -49,12 +49,20 @@ overlapping_sta_lta(const double * signal,
     lta += buf;
     sta += buf - signal[i - head -> nsta];
   }
-  onset[head -> nlta - 1] = sta / lta * frac;
+  if (lta > 0.) {
+    onset[head -> nlta - 1] = sta / lta * frac;
+  } else {
+    onset[head -> nlta - 1] = 1.;
+  }
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
-    onset[i] = sta / lta * frac;
+    if (lta > 0.) {
+      onset[i] = sta / lta * frac;
+    } else {
+      onset[i] = 1.;
+    }
   }
 }
 
@@ -95,7 +103,11 @@ centred_sta_lta(const double * signal,
   }
 
   // Set first value, and loop over rest of signal
-  onset[head -> nlta - 1] = sta / lta * frac;
+  if (lta > 0.) {
+    onset[head -> nlta - 1] = sta / lta * frac;
+  } else {
+    onset[head -> nlta - 1] = 1.;
+  }
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
-- 
2.43.0


From 2cd41ebefc4f1703d3308845a92ceb172f34457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 02/45] fix: native STA/LTA read/wrote out of bounds when the
 windows exceed the data

---
 quakemigrate/core/src/onsetlib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index 985c218..12b463b 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -40,6 +40,11 @@ overlapping_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double buf, sta = 0., lta;
 
+  // Windows do not fit in the data: leave onset at its initial (null) value
+  if (head -> nsta > head -> n || head -> nlta > head -> n) {
+    return;
+  }
+
   for (i = 0; i < head -> nsta; ++i) {
     sta += signal[i];
   }
@@ -92,6 +97,11 @@ centred_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double sta = 0., lta = 0.;
 
+  // Windows do not fit in the data: leave onset at its initial (null) value
+  if (head -> nlta + head -> nsta > head -> n) {
+    return;
+  }
+
   // Calculate initial LTA
   for (i = 0; i < head -> nlta; ++i) {
     lta += signal[i];
-- 
2.43.0


From 6c11e38558ecdedfbf0722ce8ea1d4e1eb1fd56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 03/45] fix: trigger dropped events less than one sample before
 midnight

The daily batch was cut one sample interval before midnight, so an event whose
time lies within the last sample interval of the day (scan not aligned to
midnight) was reported neither by that day's batch nor by the next one.
---
 quakemigrate/signal/trigger.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 9b9c199..7810368 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -340,11 +340,12 @@ class Trigger:
             self.run, batchstart, batchend, self.pad, self.lut.unit_conversion_factor
         )
 
-        # Check if the batch extends to midnight; if so, reduce 'batchend' by one sample
-        # to ensure consistent treatment of multi-day runs (midnight = next day, so not
-        # included).
+        # Check if the batch extends to midnight; if so, reduce 'batchend' by one
+        # microsecond to ensure consistent treatment of multi-day runs (midnight = next
+        # day, so not included). The last sample of the day can be less than one sample
+        # interval before midnight, if the scan does not start on a whole sample.
         if batchend.time == time(0, 0):
-            batchend -= stats.delta
+            batchend -= 1e-6
 
         if self.smooth_coa:
             data = self._smooth_coa(data, stats.sampling_rate)
-- 
2.43.0


From b1f1220065b20b7e36816c57d7466901009240e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 04/45] fix: writing event time windows changed the columns of
 every later file

write_triggered_events extended the module-level column list in place, so the
second file had MinTime/MaxTime twice and files written later without event time
windows had them too.
---
 quakemigrate/io/triggered_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 059c5c5..920140c 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -125,7 +125,7 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fpath = run.path / "trigger" / run.subname / "events"
     fpath.mkdir(exist_ok=True, parents=True)
 
-    output_cols = OUTPUT_COLS
+    output_cols = OUTPUT_COLS.copy()
     if write_event_time_windows:
         output_cols.extend(["MinTime", "MaxTime"])
 
-- 
2.43.0


From e8a53b794c4dfde77309fcc4a5b0eb7906013d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 05/45] fix: scan samples near midnight were lost when the scan
 is not aligned to midnight

ScanmSEED cut its stream at (midnight - one sample) and let ObsPy round to the
nearest sample. With samples that do not fall on midnight the last sample of the
day could be carried over to the next day's stream, which was then written to -
and overwrote - the file of the previous day.
---
 quakemigrate/io/scanmseed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 59937b8..7f365fd 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -139,7 +139,11 @@ class ScanmSEED:
         elif stats.starttime.julday != stats.endtime.julday:
             logging.debug("Timestep doesn't fall at midnight!")
             write_start = stats.starttime
-            write_end = UTCDateTime(stats.endtime.date) - stats.delta
+            # Find the last sample before midnight; the samples are not necessarily
+            # aligned to midnight.
+            to_midnight = UTCDateTime(stats.endtime.date) - stats.starttime
+            n_samples = int(np.ceil(round(to_midnight * stats.sampling_rate, 6)))
+            write_end = stats.starttime + (n_samples - 1) * stats.delta
             self.write(write_start, write_end)
             self.stream.trim(starttime=write_end + stats.delta)
             # Set written to false, because there is residual data that has not yet been
-- 
2.43.0


From 249b3bfc4353ed87d678fd9ef806b16cfd5a2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 06/45] fix: trimming an event to the marginal window lost the
 last sample of the map

The end of the slice is exclusive: the 4-D map had one sample less than the
coalescence time series it is trimmed to match.
---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 2d44e0b..b60052a 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -431,7 +431,7 @@ class Event:
             (self.coa_data["DT"] >= window_start) & (self.coa_data["DT"] <= window_end)
         ]
         self.map4d = self.map4d[
-            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1]
+            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1] + 1
         ]
         self.coa_data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From fdc78315fbdd503fb1436c4821c4fca73c73776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 07/45] fix: trim2sample must return a whole number of samples

The result was truncated to milliseconds, so that e.g. 4.02 s at 50 Hz
became 4.019 s.
---
 quakemigrate/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index d4fd81c..ee08d62 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -266,7 +266,7 @@ def trim2sample(time, sampling_rate):
 
     """
 
-    return int(np.ceil(time * sampling_rate) / sampling_rate * 1000) / 1000
+    return float(np.ceil(time * sampling_rate) / sampling_rate)
 
 
 def wa_response(convert="DIS2DIS", obspy_def=True):
-- 
2.43.0


From 67d67652a9a3d8762f1902024f250352cc80e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 08/45] fix: do not reject complete data because of rounding of
 the expected length

timespan * sampling_rate can come out marginally above the whole number
of samples (e.g. 0.54 s at 50 Hz).
---
 quakemigrate/io/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7774784..1065401 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -604,7 +604,7 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    n_samples = timespan * st_id[0].stats.sampling_rate + 1
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 6) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From a781ea9e4c488797886d358d06a3ac0d60e42ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 09/45] fix: event window times must not lose a sample to
 truncation

4 * marginal_window * sampling_rate can come out marginally below the
whole number of samples (e.g. 0.29 s at 100 Hz); it was truncated.
---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index b60052a..eade01d 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -411,7 +411,7 @@ class Event:
         # Utilise the .times() method of `obspy.Trace` objects
         tr = Trace(
             header={
-                "npts": 4 * self.marginal_window * sampling_rate + 1,
+                "npts": int(round(4 * self.marginal_window * sampling_rate, 6)) + 1,
                 "sampling_rate": sampling_rate,
                 "starttime": self.trigger_time - 2 * self.marginal_window,
             }
-- 
2.43.0


From 28bdf15d23a478d18495e34aae97f93f5bf92f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 10/45] fix: pick peaks at the very start or end of the onset
 function

The padded peak reached outside the onset: a negative start index gave an
empty slice (and an uncaught ValueError), an index past the end a length
mismatch. A fit with too few samples left popt undefined.
---
 quakemigrate/signal/pickers/gaussian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 2fa8c89..f2593b8 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -413,7 +413,10 @@ class GaussianPicker(PhasePicker):
             # fitting more stable, and guarantees at least 3 samples --> avoids an
             # under-constrained optimisation (3 fitting params).
             padded_peak_idxs = [peak_idxs[0] - 1, peak_idxs[1] + 1]
-            padded_peak_idxs = [window[0] + p for p in padded_peak_idxs]
+            padded_peak_idxs = [
+                max(window[0] + padded_peak_idxs[0], 0),
+                min(window[0] + padded_peak_idxs[1], len(onset)),
+            ]
             logging.debug(
                 f"\t\t    padded_peak_idxmin: {padded_peak_idxs[0]},"
                 f" padded_peak_idxmax: {padded_peak_idxs[1]}"
@@ -448,6 +451,7 @@ class GaussianPicker(PhasePicker):
                 "\t\t    Failed curve_fit - too few input data?"
                 f"{e}\n\t\t    Continuing..."
             )
+            return self._pick_failure(pick_threshold)
 
         # Unpack results:
         #  popt = [height, mean (seconds), sigma (seconds)]
-- 
2.43.0


From 59d0d9dcd24e4635420d987c3ab518b4da94de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 11/45] fix: percentile pick threshold must not fail without
 noise samples

np.percentile raises IndexError when no onset sample outside the pick
windows exceeds 1.
---
 quakemigrate/signal/pickers/gaussian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index f2593b8..2d36dea 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -345,6 +345,10 @@ class GaussianPicker(PhasePicker):
         # pad windows)
         onset_noise = onset_noise[onset_noise > 1]
 
+        # Without any noise samples there is no threshold, and hence no pick
+        if not onset_noise.size:
+            return np.nan
+
         if method == "percentile":
             pick_threshold = np.percentile(
                 onset_noise, self.percentile_pick_threshold * 100
-- 
2.43.0


From 11ce648b254c91480c9d4a8f7bd97c9fd0b40509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 12/45] fix: keep the data type of the padding added when
 up-sampling

---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index ee08d62..276040c 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -562,7 +562,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"Start pad = {start_pad}")
         # Add padding data (constant value)
-        start_fill = np.full(int(start_pad), trace.data[0], dtype=int)
+        start_fill = np.full(int(start_pad), trace.data[0])
         dnew = np.append(start_fill, dnew)
         # Calculate new starttime of trace
         new_starttime = trace.stats.starttime - start_pad / (
@@ -581,7 +581,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"End pad = {end_pad}")
         # Add padding data (constant value)
-        end_fill = np.full(int(end_pad), trace.data[-1], dtype=int)
+        end_fill = np.full(int(end_pad), trace.data[-1])
         dnew = np.append(dnew, end_fill)
 
     out = Trace()
-- 
2.43.0


From c8136264d0ee89ce32e99542f5eefa62d7054a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 13/45] fix: make real and Wood-Anderson cut waveforms from all
 data read, in the units asked for

---
 quakemigrate/io/cut_waveforms.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 072321d..ec9a05c 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -105,28 +105,13 @@ def write_cut_waveforms(
             st.remove(tr)
 
     if waveform_type == "real" or waveform_type == "wa":
-        if (
-            waveform_type == "real"
-            and isinstance(event.data.real_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.real_waveforms
-        elif (
-            waveform_type == "wa"
-            and isinstance(event.data.wa_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.wa_waveforms
-        else:
-            try:
-                st = get_waveforms(st, event, waveform_type, units)
-            except AttributeError as e:
-                raise AttributeError(
-                    "To output real or Wood-Anderson cut waveforms you must supply an "
-                    "instrument response inventory."
-                ) from e
+        try:
+            st = get_waveforms(st, event, waveform_type, units)
+        except AttributeError as e:
+            raise AttributeError(
+                "To output real or Wood-Anderson cut waveforms you must supply an "
+                "instrument response inventory."
+            ) from e
 
     if bool(st):
         write_waveforms(st, fpath, fstem, file_format)
-- 
2.43.0


From 7b4ef1bf6c01007849398486c0d68cec08c9b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 14/45] fix: decimated lookup tables keep the position of their
 nodes

The first node kept is offset from the lower-left corner whenever the grid
is centred in the original, but the corner itself was left in place.
---
 quakemigrate/lut/lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 310cc96..6dcf0be 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -127,6 +127,8 @@ class Grid3D:
         else:
             grid = copy.deepcopy(self)
 
+        # The first node kept is not, in general, the first node of the original grid
+        grid.ll_corner = self.ll_corner + c1 * self.node_spacing
         grid.node_count = new_node_count
         grid.node_spacing = self.node_spacing * df
 
-- 
2.43.0


From f03753aa4ac1abb7e956f2d64eac1b9feab81258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 15/45] fix: combining lookup tables keeps the tables of
 stations already present

LUT.__add__ is documented to add only the stations not already there, but
replaced the tables of all stations the two have in common.
---
 quakemigrate/lut/lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 6dcf0be..111faa4 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -882,7 +882,8 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                self.traveltimes.update(other.traveltimes)
+                for station, traveltimes in other.traveltimes.items():
+                    self.traveltimes.setdefault(station, traveltimes)
                 return self
             else:
                 print("Grid definitions do not match - cannot combine.")
-- 
2.43.0


From b10679ba49a84e38ffc4c73b57bcbf18312e0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 16/45] fix: keep the station data of a lookup table loaded by
 the constructor

---
 quakemigrate/lut/lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 111faa4..9e70e91 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -464,11 +464,12 @@ class LUT(Grid3D):
         else:
             self.fraction_tt = fraction_tt
             self.phases = ["P", "S"]  # Handle old lookup tables
-            if lut_file is not None:
-                self.load(lut_file)
 
         self.station_data = pd.DataFrame()
 
+        if not grid_spec and lut_file is not None:
+            self.load(lut_file)
+
     def __str__(self):
         """Return short summary string of the lookup table object."""
 
-- 
2.43.0


From 145cde378cabf1e63cb3be411448ffaedfc34d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 17/45] fix: use the origin of NonLinLoc's transverse Mercator
 projection

pyproj ignores the unknown parameters 'lon' and 'lat', so that tables read
from NonLinLoc were placed as if their origin was at 0N 0E.
---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5c1b3b4..ee410c4 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -698,7 +698,7 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon=orig_lon, lat=orig_lat, units="km")
+            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From 280e2c6da571dc5ec6cd036583ca1aa2197b5d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 18/45] fix: interpolate NonLinLoc's 2-D traveltimes relative
 to the grid origin

The fraction of a cell was taken relative to zero, which is only right when
the origin (the depth of the grid top or of the station) is a multiple of
the node spacing.
---
 quakemigrate/lut/create_lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index ee410c4..c5ff7b0 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -743,10 +743,11 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     """
 
     # Get indices of the nearest node
-    i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
+    xz_nodes = (xz - xz_origin) / xz_dimensions
+    i, k = np.floor(xz_nodes).astype(int).T
 
     # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz, xz_dimensions) / xz_dimensions).T
+    x_d, z_d = (xz_nodes - np.floor(xz_nodes)).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From cd034a10e2fbec19872edb60da618cc5739fd6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 19/45] fix: tables read from NonLinLoc define the node count
 of their grid

The node count was derived from corners that had been transformed to
geographic coordinates and back, so that rounding often added a node which
the tables do not have.
---
 quakemigrate/lut/create_lut.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index c5ff7b0..e05d969 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -98,6 +98,9 @@ def read_nlloc(
                     coord_proj=cproj,
                     fraction_tt=fraction_tt,
                 )
+
+                # Rounding in the projection can make the corners one node further apart
+                lut.node_count = node_count
             else:
                 _, _, traveltimes = _read_nlloc(file)
 
-- 
2.43.0


From a04bf560e66db8e8a02132b37779b709d796e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 20/45] fix: leave the epicentral distances of the amplitude
 table alone

Distances of zero were replaced by NaN in the caller's table.
---
 quakemigrate/signal/local_mag/magnitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c2cd2b6..78e29f7 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -245,7 +245,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
         dist[dist == 0.0] = np.nan
 
         # Calculate magnitudes and associated errors
@@ -777,7 +777,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
 
         # Apply distance filter
         if self.dist_filter:
-- 
2.43.0


From f496e299b44e14ba05aa7ffefe3f7ad8df64113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 21/45] fix: weighted standard deviation of the
 network-averaged magnitude

The weights were squared along with the residuals.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 78e29f7..d9101f6 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -417,7 +417,7 @@ class Magnitude:
         # single estimate, then take the uncertainty from that value.
         if len(mags) > 1:
             mean_mag_err = np.sqrt(
-                np.sum(((mags - mean_mag) * weights) ** 2) / np.sum(weights)
+                np.sum((mags - mean_mag) ** 2 * weights) / np.sum(weights)
             )
         else:
             mean_mag_err = used_mags["ML_Err"].values[0]
-- 
2.43.0


From 84cb2e9bf429ce1baead4d762d6413c87bbc7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 22/45] fix: exclude noise observations from the custom
 magnitude r-squared

The frame without the observation was discarded.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index d9101f6..13c7f4d 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -888,7 +888,7 @@ class Magnitude:
                 # If predicted amp is more than 5x larger than noise amp, keep
                 # this observation for mag_r2 calculation
                 if predicted_amp / noise_amp < 5:
-                    magnitudes.drop(labels=mag.name)
+                    magnitudes = magnitudes.drop(labels=mag.name)
 
         # Calculate amplitudes -- including station corrections!
         amps = (
-- 
2.43.0


From c1e5e74ce5e6c0f09b8f2ef58d9aed581345a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 23/45] fix: do not use observations without a magnitude in the
 network average

A single observation at zero distance, or below the noise with a noise
filter of less than 1, made the network-averaged magnitude NaN.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 13c7f4d..afcf9b0 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -800,6 +800,8 @@ class Magnitude:
             magnitudes.loc[~magnitudes["is_picked"], "Used"] = False
         if self.noise_filter != 0.0:
             magnitudes.loc[~magnitudes["Noise_Filter"], "Used"] = False
+        # Observations without a magnitude (dist=0, or amplitude below the noise)
+        magnitudes.loc[magnitudes["ML"].isnull(), "Used"] = False
 
         return magnitudes
 
-- 
2.43.0


From 80b805321b5092f1982ce1d709b5410c237421e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 24/45] fix: keep leading zeros of sub-second times in Snuffler
 marker files

The microseconds were written without padding, so 12.050000 became 12.50000.
---
 quakemigrate/export/to_snuffler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index c578a6d..7f33409 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -98,7 +98,7 @@ def snuffler_markers(event, output_path, filename=None):
         hr=str(origin.time.hour).zfill(2),
         min=str(origin.time.minute).zfill(2),
         sec=str(origin.time.second).zfill(2),
-        msec=origin.time.microsecond,
+        msec=str(origin.time.microsecond).zfill(6),
         eventid=str(event.resource_id),
     )
 
@@ -118,7 +118,7 @@ def snuffler_markers(event, output_path, filename=None):
                 hr=str(pick.time.hour).zfill(2),
                 min=str(pick.time.minute).zfill(2),
                 sec=str(pick.time.second).zfill(2),
-                msec=pick.time.microsecond,
+                msec=str(pick.time.microsecond).zfill(6),
                 nw=pick.waveform_id.network_code,
                 stat=pick.waveform_id.station_code,
                 comp=comp,
-- 
2.43.0


From cd3f84d5e6fe3df32f2ff95ccc98fdf318539196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 25/45] fix: write each station's own network code to Snuffler
 station files

The code of the first station was kept and used for all stations that follow.
---
 quakemigrate/export/to_snuffler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index 7f33409..017af18 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -37,14 +37,15 @@ def snuffler_stations(stations, output_path, filename, network_code=None):
 
     with output.open(mode="w") as f:
         for i, station in stations.iterrows():
-            if network_code is None:
+            network = network_code
+            if network is None:
                 try:
-                    network_code = station["Network"]
+                    network = station["Network"]
                 except KeyError:
-                    network_code = ""
+                    network = ""
 
             line = line_template.format(
-                nw=network_code,
+                nw=network,
                 stat=station["Name"],
                 lat=station["Latitude"],
                 lon=station["Longitude"],
-- 
2.43.0


From 4c649bfce430a28a902b66a1e3970dea7f98333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 26/45] fix: station elevations in SAC headers are in metres

Elevations were written in kilometres for both unit systems (SAC's STEL is in metres,
as the comment says).
---
 quakemigrate/export/to_mfast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index ee45c67..26cab11 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -47,9 +47,9 @@ def sac_mfast(event, stations, output_path, units, filename=None):
 
     # Set distance conversion factor (from units of QM LUT projection units).
     if units == "km":
-        factor = 1
-    elif units == "m":
         factor = 1e3
+    elif units == "m":
+        factor = 1
     else:
         raise AttributeError(f"units must be 'km' or 'm'; not {units}")
 
@@ -75,7 +75,7 @@ def sac_mfast(event, stations, output_path, units, filename=None):
         station_header = AttribDict()
         station_header.stla = station.Latitude
         station_header.stlo = station.Longitude
-        station_header.stel = station.Elevation / factor  # convert to m
+        station_header.stel = station.Elevation * factor  # convert to m
 
         # Calculate the distance and azimuth between event and station
         dist, az, _ = gps2dist_azimuth(
-- 
2.43.0


From 436b20594f6808ec30647152db1393693941d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 27/45] fix: read events for which no local magnitude could be
 calculated

Their magnitude is not a number, which ObsPy refuses, so that the whole catalogue could
not be read.
---
 quakemigrate/export/to_obspy.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index af8b301..d08ff75 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -306,17 +306,18 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
 
                 event.amplitudes.append(amp)
 
-        mag = Magnitude()
-        mag.extra = AttribDict()
-        mag.mag = event_info["ML"]
-        mag.mag_errors.uncertainty = event_info["ML_Err"]
-        mag.magnitude_type = "ML"
-        # mag.origin_id = ?
-        mag.station_count = i
-        mag.evaluation_mode = "automatic"
-        mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
-
-        event.magnitudes = [mag]
-        event.preferred_magnitude_id = mag.resource_id
+        if not pd.isna(event_info["ML"]):
+            mag = Magnitude()
+            mag.extra = AttribDict()
+            mag.mag = event_info["ML"]
+            mag.mag_errors.uncertainty = event_info["ML_Err"]
+            mag.magnitude_type = "ML"
+            # mag.origin_id = ?
+            mag.station_count = i
+            mag.evaluation_mode = "automatic"
+            mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
+
+            event.magnitudes = [mag]
+            event.preferred_magnitude_id = mag.resource_id
 
     return event
-- 
2.43.0


From 595eb638e0883852c1d20c04ba0d4f212613d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 28/45] fix: treat unusable instrument responses as missing
 instead of aborting locate

---
 quakemigrate/io/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 1065401..30661eb 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -688,12 +688,12 @@ class WaveformData:
             # However, due to this it is significantly faster to compute.
             try:
                 response = self.response_inv.get_response(tr.id, tr.stats.starttime)
+                paz = response.get_paz()
+                sensitivity = response.instrument_sensitivity.value
             except Exception as e:
                 raise util.ResponseNotFoundError(str(e), tr.id)
 
             # Get the instrument transfer function as a PAZ dictionary
-            paz = response.get_paz()
-
             if not velocity:
                 paz.zeros.extend([0j])
 
@@ -701,7 +701,7 @@ class WaveformData:
                 "poles": paz.poles,
                 "zeros": paz.zeros,
                 "gain": paz.normalization_factor,
-                "sensitivity": response.instrument_sensitivity.value,
+                "sensitivity": sensitivity,
             }
 
             try:
@@ -728,7 +728,7 @@ class WaveformData:
                     water_level=self.water_level,
                     taper=True,
                 )
-            except ValueError as e:
+            except Exception as e:
                 raise util.ResponseRemovalError(e, tr.id)
 
         try:
-- 
2.43.0


From c8776f16e9dc7092a68d65e326a04b3f9718ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 29/45] fix: convert instrument responses given in Hertz before
 removing them

---
 quakemigrate/io/data.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 30661eb..3e24253 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -14,6 +14,7 @@ from itertools import chain
 import logging
 import pathlib
 
+import numpy as np
 from obspy import read, Stream, UTCDateTime
 
 import quakemigrate.util as util
@@ -694,13 +695,24 @@ class WaveformData:
                 raise util.ResponseNotFoundError(str(e), tr.id)
 
             # Get the instrument transfer function as a PAZ dictionary
+            poles, zeros = list(paz.poles), list(paz.zeros)
+            gain = paz.normalization_factor
+            if paz.pz_transfer_function_type == "LAPLACE (HERTZ)":
+                # Convert to radians / second
+                gain *= (2 * np.pi) ** (len(poles) - len(zeros))
+                poles = [pole * 2 * np.pi for pole in poles]
+                zeros = [zero * 2 * np.pi for zero in zeros]
+            elif paz.pz_transfer_function_type != "LAPLACE (RADIANS/SECOND)":
+                raise util.ResponseNotFoundError(
+                    f"Not an analogue response: {paz.pz_transfer_function_type}", tr.id
+                )
             if not velocity:
-                paz.zeros.extend([0j])
+                zeros.extend([0j])
 
             paz_dict = {
-                "poles": paz.poles,
-                "zeros": paz.zeros,
-                "gain": paz.normalization_factor,
+                "poles": poles,
+                "zeros": zeros,
+                "gain": gain,
                 "sensitivity": sensitivity,
             }
 
-- 
2.43.0


From 427bdaf9ca35b4e2042ea7da2d359336f4747e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 30/45] fix: take the input units of the instrument response
 into account

---
 quakemigrate/io/data.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 3e24253..3d23e89 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -706,8 +706,20 @@ class WaveformData:
                 raise util.ResponseNotFoundError(
                     f"Not an analogue response: {paz.pz_transfer_function_type}", tr.id
                 )
+            # Number of extra zeros to go from the input units to velocity/displacement
+            units = (paz.input_units or "M/S").upper()
+            if units in ("M/S**2", "M/(S**2)", "M/SEC**2", "M/(SEC**2)", "M/S/S"):
+                extra_zeros = 1
+            else:
+                extra_zeros = -1 if units == "M" else 0
             if not velocity:
-                zeros.extend([0j])
+                extra_zeros += 1
+            if extra_zeros >= 0:
+                zeros.extend([0j] * extra_zeros)
+            elif 0j in zeros:
+                zeros.remove(0j)
+            else:
+                raise util.ResponseRemovalError("Cannot convert to velocity", tr.id)
 
             paz_dict = {
                 "poles": poles,
-- 
2.43.0


From 59da41dd048abf92c893b790ac49698828c8129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:21 +0000
Subject: [PATCH 31/45] fix: use the reference ellipsoid of NonLinLoc
 traveltime grids

---
 quakemigrate/lut/create_lut.py | 97 +++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 36 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index e05d969..f92db4c 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -648,45 +648,12 @@ def _read_nlloc(fname, ignore_proj=False):
             # The simple projection is the Plate Carree/Equidistant Cylindrical
             gproj = Proj(proj="eqc", lat_0=orig_lat, lon_0=orig_lon, units="km")
         elif line[1] == "LAMBERT":
-            proj_ellipsoid = line[3]
+            proj_ellipsoid = _nlloc_ellipsoid(line[3])
             orig_lat = float(line[5])
             orig_lon = float(line[7])
             parallel_1 = float(line[9])
             parallel_2 = float(line[11])
 
-            if proj_ellipsoid == "WGS-84":
-                proj_ellipsoid = "WGS84"
-            elif proj_ellipsoid == "GRS-80":
-                proj_ellipsoid = "GRS80"
-            elif proj_ellipsoid == "WGS-72":
-                proj_ellipsoid = "WGS72"
-            elif proj_ellipsoid == "Australian":
-                proj_ellipsoid = "aust_SA"
-            elif proj_ellipsoid == "Krasovsky":
-                proj_ellipsoid = "krass"
-            elif proj_ellipsoid == "International":
-                proj_ellipsoid = "intl"
-            elif proj_ellipsoid == "Hayford-1909":
-                proj_ellipsoid = "intl"
-            elif proj_ellipsoid == "Clarke-1880":
-                proj_ellipsoid = "clrk80"
-            elif proj_ellipsoid == "Clarke-1866":
-                proj_ellipsoid = "clrk66"
-            elif proj_ellipsoid == "Airy":
-                proj_ellipsoid = "airy"
-            elif proj_ellipsoid == "Bessel":
-                proj_ellipsoid = "bessel"
-            elif proj_ellipsoid == "Hayford-1830":
-                proj_ellipsoid = "evrst30"
-            elif proj_ellipsoid == "Sphere":
-                proj_ellipsoid = "sphere"
-            else:
-                logging.info(
-                    f"Projection Ellipsoid {proj_ellipsoid} not supported!\n\tPlease "
-                    "notify the QuakeMigrate developers.\n\n\tWGS-84 used instead...\n"
-                )
-                proj_ellipsoid = "WGS84"
-
             gproj = Proj(
                 proj="lcc",
                 lon_0=orig_lon,
@@ -695,13 +662,19 @@ def _read_nlloc(fname, ignore_proj=False):
                 lat_2=parallel_2,
                 units="km",
                 ellps=proj_ellipsoid,
-                datum="WGS84",
             )
         elif line[1] == "TRANS_MERC":
+            proj_ellipsoid = _nlloc_ellipsoid(line[3])
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
+            gproj = Proj(
+                proj="tmerc",
+                lon_0=orig_lon,
+                lat_0=orig_lat,
+                units="km",
+                ellps=proj_ellipsoid,
+            )
 
         transform = [gproj, cproj, line[1]]
 
@@ -716,6 +689,58 @@ def _read_nlloc(fname, ignore_proj=False):
     return gridspec, transform, traveltimes
 
 
+def _nlloc_ellipsoid(proj_ellipsoid):
+    """
+    Translate the name of a NonLinLoc reference ellipsoid to its name in pyproj.
+
+    Parameters
+    ----------
+    proj_ellipsoid : str
+        Name of the ellipsoid in the header of a NonLinLoc file.
+
+    Returns
+    -------
+    proj_ellipsoid : str
+        Name of the ellipsoid in pyproj.
+
+    """
+
+    if proj_ellipsoid == "WGS-84":
+        proj_ellipsoid = "WGS84"
+    elif proj_ellipsoid == "GRS-80":
+        proj_ellipsoid = "GRS80"
+    elif proj_ellipsoid == "WGS-72":
+        proj_ellipsoid = "WGS72"
+    elif proj_ellipsoid == "Australian":
+        proj_ellipsoid = "aust_SA"
+    elif proj_ellipsoid == "Krasovsky":
+        proj_ellipsoid = "krass"
+    elif proj_ellipsoid == "International":
+        proj_ellipsoid = "intl"
+    elif proj_ellipsoid == "Hayford-1909":
+        proj_ellipsoid = "intl"
+    elif proj_ellipsoid == "Clarke-1880":
+        proj_ellipsoid = "clrk80"
+    elif proj_ellipsoid == "Clarke-1866":
+        proj_ellipsoid = "clrk66"
+    elif proj_ellipsoid == "Airy":
+        proj_ellipsoid = "airy"
+    elif proj_ellipsoid == "Bessel":
+        proj_ellipsoid = "bessel"
+    elif proj_ellipsoid == "Hayford-1830":
+        proj_ellipsoid = "evrst30"
+    elif proj_ellipsoid == "Sphere":
+        proj_ellipsoid = "sphere"
+    else:
+        logging.info(
+            f"Projection Ellipsoid {proj_ellipsoid} not supported!\n\tPlease "
+            "notify the QuakeMigrate developers.\n\n\tWGS-84 used instead...\n"
+        )
+        proj_ellipsoid = "WGS84"
+
+    return proj_ellipsoid
+
+
 def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     """
     Perform a bi-linear interpolation between 4 data points on the input 2-D lookup
-- 
2.43.0


From 0f3b7626d937d81cd10639f4e6d090f06a33a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:27 +0000
Subject: [PATCH 32/45] fix: project NonLinLoc grids with the SIMPLE transform
 as NonLinLoc does

---
 quakemigrate/lut/create_lut.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index f92db4c..4028ffd 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -645,8 +645,15 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[3])
             orig_lon = float(line[5])
 
-            # The simple projection is the Plate Carree/Equidistant Cylindrical
-            gproj = Proj(proj="eqc", lat_0=orig_lat, lon_0=orig_lon, units="km")
+            # The simple projection has y = (lat - orig_lat) * c111 and
+            # x = (lon - orig_lon) * c111 * cos(lat), with c111 = 10,000 / 90 km/degree
+            gproj = Proj(
+                proj="sinu",
+                lon_0=orig_lon,
+                y_0=-orig_lat * 1e7 / 90,
+                R=np.rad2deg(1e7 / 90),
+                units="km",
+            )
         elif line[1] == "LAMBERT":
             proj_ellipsoid = _nlloc_ellipsoid(line[3])
             orig_lat = float(line[5])
-- 
2.43.0


From 4c4efe7cc00baccae40207025255453fe5e71432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 33/45] fix: refuse station files without any of the required
 columns

---
 quakemigrate/io/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 99f1463..75856c7 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -89,7 +89,8 @@ def read_stations(station_file, **kwargs):
 
     stn_data = pd.read_csv(station_file, **kwargs)
 
-    if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
+    required = ["Latitude", "Longitude", "Elevation", "Name"]
+    if any(column not in stn_data.columns for column in required):
         raise util.StationFileHeaderException
 
     stn_data["Elevation"] = stn_data["Elevation"].apply(lambda x: -1 * x)
-- 
2.43.0


From a30d6510ae2d4c9f79e0e39325a4ad88936f31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 34/45] fix: keep station names as they are written in the
 station file

---
 quakemigrate/io/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 75856c7..74329de 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -87,6 +87,8 @@ def read_stations(station_file, **kwargs):
 
     """
 
+    # Read station names as they are written (e.g. "007" or "NA")
+    kwargs["converters"] = {"Name": str, **(kwargs.get("converters") or {})}
     stn_data = pd.read_csv(station_file, **kwargs)
 
     required = ["Latitude", "Longitude", "Elevation", "Name"]
-- 
2.43.0


From 90af3f09fc94f370415366d62fc855f65af80916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 35/45] fix: keep station names as they are written in the pick
 files

---
 quakemigrate/export/to_obspy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index d08ff75..663bde5 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -215,7 +215,9 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
     # --- Handle picks file ---
     pick_file = locate_dir / "picks" / event_uid
     if pick_file.with_suffix(".picks").is_file():
-        picks = pd.read_csv(pick_file.with_suffix(".picks"))
+        picks = pd.read_csv(
+            pick_file.with_suffix(".picks"), converters={"Station": str}
+        )
     else:
         return None
 
-- 
2.43.0


From 2a84344aff45cdd869b15fd44dd0725c795fdff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 36/45] fix: refuse a bandpass filter without its frequencies

---
 quakemigrate/signal/local_mag/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index b74947a..1428163 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -117,8 +117,8 @@ class Amplitude:
         self.bandpass_filter = amplitude_params.get("bandpass_filter", False)
         if self.bandpass_filter:
             try:
-                self.bandpass_lowcut = amplitude_params.get("bandpass_lowcut")
-                self.bandpass_highcut = amplitude_params.get("bandpass_highcut")
+                self.bandpass_lowcut = amplitude_params["bandpass_lowcut"]
+                self.bandpass_highcut = amplitude_params["bandpass_highcut"]
             except KeyError as e:
                 raise AttributeError(f"Bandpass filter frequencies not specified! {e}")
         self.filter_corners = amplitude_params.get("filter_corners", 4)
-- 
2.43.0


From 4dcad19f5508cf15468571d32f51481802b2e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 37/45] fix: check the arguments of locate before they are
 converted

---
 quakemigrate/signal/scan.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index e41bbea..0fa8f3f 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -373,14 +373,14 @@ class QuakeScan:
         self.run.stage = "locate"
         self.run.logger(self.log)
 
-        if not (starttime is None and endtime is None):
-            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
-            if starttime > endtime:
-                raise util.TimeSpanException
         if trigger_file is None and starttime is None and endtime is None:
             raise RuntimeError("Must supply an input argument.")
         if (starttime is None) ^ (endtime is None):
             raise RuntimeError("Must supply a starttime AND an endtime.")
+        if not (starttime is None and endtime is None):
+            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
+            if starttime > endtime:
+                raise util.TimeSpanException
 
         logging.info(util.log_spacer)
         logging.info("\tLOCATE - Determining event location and uncertainty")
-- 
2.43.0


From 11a55f85c4c3e37717c9d293b232859fdd0464f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 38/45] fix: do not check the default interval when
 minimum_repeat is given

---
 quakemigrate/signal/trigger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 7810368..d7b598a 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -218,9 +218,10 @@ class Trigger:
         self.median_multiplier = kwargs.get("median_multiplier", 1.2)
 
         self.marginal_window = kwargs.get("marginal_window", 2.0)
-        self.min_event_interval = kwargs.get("min_event_interval", 4.0)
         if kwargs.get("minimum_repeat"):
             self.minimum_repeat = kwargs.get("minimum_repeat")
+        else:
+            self.min_event_interval = kwargs.get("min_event_interval", 4.0)
         self.normalise_coalescence = kwargs.get("normalise_coalescence", False)
         self.pad = kwargs.get("pad", 120.0)
         self.smooth_coa = kwargs.get("smooth_coa", False)
-- 
2.43.0


From 9d22edcc2b104457d67fa8d1823b9a6503600524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 39/45] fix: print the latitudes of the grid corners as
 latitudes

---
 quakemigrate/lut/lut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 9e70e91..6d6e3c2 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -487,11 +487,11 @@ class LUT(Grid3D):
         )
 
         out = out.format(
-            lat1=ll[0],
-            lon1=ll[1],
+            lat1=ll[1],
+            lon1=ll[0],
             dep1=ll[2],
-            lat2=ur[0],
-            lon2=ur[1],
+            lat2=ur[1],
+            lon2=ur[0],
             dep2=ur[2],
             unit_name=self.unit_name,
         )
-- 
2.43.0


From 91fe3a71f97bbf6c80733e70c0db402809c14b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 40/45] fix: set the scan rate before the deprecated
 sampling_rate is handled

---
 quakemigrate/signal/scan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 0fa8f3f..4c279f0 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -243,8 +243,8 @@ class QuakeScan:
         # General QuakeScan parameters
         self.threads = kwargs.get("threads", 1)
         self.n_cores = kwargs.get("n_cores")  # DEPRECATING
-        self.sampling_rate = kwargs.get("sampling_rate")  # DEPRECATING
         self.scan_rate = self.onset.sampling_rate
+        self.sampling_rate = kwargs.get("sampling_rate")  # DEPRECATING
 
         # Magnitudes
         mags = kwargs.get("mags")
-- 
2.43.0


From 0cb3e5fcd850384fd4073aeaaf47a294befbbf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:30 +0000
Subject: [PATCH 41/45] fix: threshold windows given as a whole number of
 samples no longer come out one sample short

0.58 s at 50 Hz is 28.999... samples in floating point and was truncated to 28.
---
 quakemigrate/signal/trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index d7b598a..51feeec 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -460,7 +460,7 @@ class Trigger:
                 window_length = self.mad_window_length
             else:
                 window_length = self.median_window_length
-            breaks = breaks[breaks % int(window_length * sampling_rate) == 0][1:]
+            breaks = breaks[breaks % int(round(window_length * sampling_rate)) == 0][1:]
             chunks = np.split(scandata.values, breaks)
 
             # Calculate the median values
-- 
2.43.0


From e07e495634b9c9e249ef13fd6b3d959719d6dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:17 +0000
Subject: [PATCH 42/45] fix: the continuous scan after a gap is no longer
 dropped when it is read

Only the first stretch of each channel was used, so that nothing after a gap
could be triggered. Missing samples now read as zeros, as detect() writes where
there are no data.
---
 quakemigrate/io/scanmseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 7f365fd..2d4d8df 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -303,6 +303,9 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         raise util.NoScanMseedDataException
 
     scanmseed.merge(method=-1)
+    # Samples missing between stored stretches of data are filled with zeros - as
+    # detect() does where there is no data - to keep the data after them
+    scanmseed.merge(method=1, fill_value=0)
     stats = scanmseed.select(station="COA")[0].stats
 
     data = pd.DataFrame()
-- 
2.43.0


From 9bff5092c930831dccabdf2cbb365445c82397cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:08 +0000
Subject: [PATCH 43/45] fix: combining lookup tables adds the stations along
 with their traveltimes

The stations were left out of station_data, so they were not counted in the
maximum traveltime (which sets the data padding), had no amplitudes measured
and were not plotted.
---
 quakemigrate/lut/lut.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 6d6e3c2..41dfba6 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -869,7 +869,8 @@ class LUT(Grid3D):
 
         Two lookup tables which have identical grid definitions (as per "==") can be
         combined by adding the traveltime lookup tables from other.traveltimes for which
-        the station key is not already in self.traveltimes.
+        the station key is not already in self.traveltimes, along with the information
+        on these stations.
 
         Parameters
         ----------
@@ -883,8 +884,15 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                for station, traveltimes in other.traveltimes.items():
-                    self.traveltimes.setdefault(station, traveltimes)
+                added = [stat for stat in other.traveltimes if stat not in self.traveltimes]
+                for station in added:
+                    self.traveltimes[station] = other.traveltimes[station]
+                if added and not other.station_data.empty:
+                    new = other.station_data[other.station_data["Name"].isin(added)]
+                    self.station_data = pd.concat(
+                        [None if self.station_data.empty else self.station_data, new],
+                        ignore_index=True,
+                    )
                 return self
             else:
                 print("Grid definitions do not match - cannot combine.")
-- 
2.43.0


From 42bd9584e29c3cfd13114981cb434fbe6d403a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:09 +0000
Subject: [PATCH 44/45] fix: combined lookup tables no longer share their
 traveltimes with the table added

Decimating the sum in place decimated the traveltimes of the other table, but
not its grid.
---
 quakemigrate/lut/lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 41dfba6..84da1df 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -886,7 +886,7 @@ class LUT(Grid3D):
             if self == other:
                 added = [stat for stat in other.traveltimes if stat not in self.traveltimes]
                 for station in added:
-                    self.traveltimes[station] = other.traveltimes[station]
+                    self.traveltimes[station] = copy.deepcopy(other.traveltimes[station])
                 if added and not other.station_data.empty:
                     new = other.station_data[other.station_data["Name"].isin(added)]
                     self.station_data = pd.concat(
-- 
2.43.0


From 782d57fd504b04b16dc0ce75dd8ec29fb8b45262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:09 +0000
Subject: [PATCH 45/45] fix: event summary rounded the location uncertainty in
 km with the decimals for grid units

---
 quakemigrate/plot/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/plot/event.py b/quakemigrate/plot/event.py
index f37bc45..b3b61b2 100644
--- a/quakemigrate/plot/event.py
+++ b/quakemigrate/plot/event.py
@@ -340,7 +340,7 @@ def _plot_text_summary(ax, lut, event):
     precision.append(max((lut.precision[2] + 2), 0 + unit_correction))
 
     hypocentre = [round(dimh, dimp) for dimh, dimp in zip(event.hypocentre, precision)]
-    gau_unc = [round(dim, precision[2]) for dim in event.loc_uncertainty / km_cf]
+    gau_unc = [round(dim, precision[2]) / km_cf for dim in event.loc_uncertainty]
     hypo = (
         f"{hypocentre[1]}\u00b0N \u00b1 {gau_unc[1]} km\n"
         f"{hypocentre[0]}\u00b0E \u00b1 {gau_unc[0]} km\n"
-- 
2.43.0

