From a6a2c6f5371425b47b64954183478785e6ad3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 01/43] fix: durations of an empty index

---
 portfolyo/tools/duration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/duration.py b/portfolyo/tools/duration.py
index fd02fe6..99f16d7 100644
--- a/portfolyo/tools/duration.py
+++ b/portfolyo/tools/duration.py
@@ -55,7 +55,7 @@ def index(i: pd.DatetimeIndex) -> pd.Series:
         h = 1.0 if i.freq == "h" else 0.25
     else:
         # Individual calculations for non-fixed-duration frequencies.
-        h = (tools_right.index(i) - i).map(lambda td: td.total_seconds() / 3600)
+        h = (tools_right.index(i) - i).total_seconds() / 3600
 
     return pd.Series(h, i, dtype="pint[h]").rename("duration")
 
-- 
2.43.0


From f096d1848bc34567f3e5f8c78f149cdcdffa635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 02/43] fix: truthiness of nested portfolio line looks at the
 children, not at their names

---
 portfolyo/core/pfline/nested_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index ee30c05..dec4da7 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -35,7 +35,7 @@ def hedge_with(
 
 def __bool__(self: NestedPfLine) -> bool:
     # True if a) has children of which b) any are true
-    return any(self.children.keys())
+    return any(self.children.values())
 
 
 def __eq__(self: NestedPfLine, other: Any) -> bool:
-- 
2.43.0


From ff65ed7ab31e858baf0ddc86445580e792cb8256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 03/43] fix: reindex nested portfolio line

---
 portfolyo/core/pfline/nested_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index dec4da7..8e81236 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -55,8 +55,8 @@ def slice(self: NestedPfLine) -> SliceIndexer:
 
 
 def reindex(self: NestedPfLine, index: pd.DatetimeIndex) -> NestedPfLine:
-    newchildren = {name: child.reindex(index) for name, child in self.pfl.items()}
-    return self.pfl.__class__(newchildren)
+    newchildren = {name: child.reindex(index) for name, child in self.items()}
+    return self.__class__(newchildren)
 
 
 class LocIndexer:
-- 
2.43.0


From 27f4250ee9660dd7bc7968a69cf13c72f7bb83d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 04/43] fix: sum of complete portfolio lines keeps revenue
 equal to price times volume

---
 portfolyo/core/pfline/arithmatic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 7acea4f..19d4444 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -229,10 +229,11 @@ class Add:
                 "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
             )
         if pfl1.kind is Kind.COMPLETE:
-            # Calculate price from wavg instead of r/q, to handle edge case p1==p2, q==0.
-            values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
-            weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
-            newdf["p"] = tools.wavg.dataframe(values, weights, axis=1)
+            newdf["p"] = newdf["r"] / newdf["q"]
+            # Handle edge case p1==p2, q==0.
+            p1, p2 = (df["p"] for df in newdfs)
+            mask = (newdf["q"].pint.m == 0) & (p1.pint.m == p2.pint.m)
+            newdf["p"] = newdf["p"].where(~mask, p1)
         return pfl1.__class__(newdf)
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
-- 
2.43.0


From 3eb27959793f2c5979524bc85061e3df74663674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 05/43] fix: sum of nested portfolio lines covers only their
 common delivery period

---
 portfolyo/core/pfline/arithmatic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 19d4444..fbd7625 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -238,8 +238,14 @@ class Add:
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
     def two_nestedpflines(pfl1: NestedPfLine, pfl2: NestedPfLine) -> NestedPfLine:
+        idx = tools.intersect.indices(pfl1.index, pfl2.index)  # keep only common rows
+        if len(idx) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
+        pfl1, pfl2 = pfl1.loc[idx], pfl2.loc[idx]
         newchildren = {}  # collect children and add those with same name
-        for name in set([*pfl1, *pfl2]):
+        for name in dict.fromkeys([*pfl1, *pfl2]):
             if name in pfl1 and name in pfl2:
                 newchildren[name] = pfl1[name] + pfl2[name]
             elif name in pfl1:
-- 
2.43.0


From cbee5b4a70645a145736e5a9249d45a0da7bf5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 06/43] fix: weighted average of series ignores zero-weight
 values and not missing values

---
 portfolyo/tools/wavg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 2f8bf2a..23ae071 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -134,8 +134,12 @@ def series(
     except KeyError as e:  # more weights than values
         raise ValueError("No values found for one or more weights.") from e
 
-    # Unweighted average if all weights the same but not all 0.
-    if weights.nunique() == 1 and not np.isclose(weights.iloc[0], 0):
+    # Unweighted average if all weights the same but not all 0 (and no missing values).
+    if (
+        weights.nunique() == 1
+        and not np.isclose(weights.iloc[0], 0)
+        and not s.isna().any()
+    ):
         return s.mean()
 
     # Replace NaN with 0 in locations where it doesn't change the result.
@@ -162,6 +166,7 @@ def series(
     # In that case, the result is NaN in case of non-uniform values.
     weightsum = weights.sum()  # a float or quantity
     if np.isclose(weightsum, 0):  # edge case (more common)
+        s = s[weights != 0.0]  # values with weight == 0 are ignored
         is_uniform = values_areuniform(s)
         return s.iloc[0] if is_uniform else np.nan
 
-- 
2.43.0


From 8654335215830a9a6139ecb8721b726697837b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 07/43] fix: mark-to-market value in periods without sourced
 volume

---
 portfolyo/core/pfstate/pfstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfstate/pfstate.py b/portfolyo/core/pfstate/pfstate.py
index 2652e63..71c5fa9 100644
--- a/portfolyo/core/pfstate/pfstate.py
+++ b/portfolyo/core/pfstate/pfstate.py
@@ -290,7 +290,7 @@ class PfState(
 
     def mtm_of_sourced(self) -> PfLine:
         """Mark-to-Market value of sourced volume."""
-        return self.sourced.volume * (self.unsourcedprice - self.sourced.price)
+        return self.sourced.volume * self.unsourcedprice - self.sourced.revenue
 
     # Dunder methods.
 
-- 
2.43.0


From 09272b321077c0a63987103887683c6232a80dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 08/43] fix: hedge products start at the start-of-day; daily
 products

---
 portfolyo/tools/peakconvert.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 67f32fa..1eded2a 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -8,6 +8,7 @@ from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
 from . import peakfn as tools_peakfn
+from . import startofday as tools_startofday
 from . import trim as tools_trim
 from . import wavg as tools_wavg
 
@@ -18,17 +19,21 @@ def group_index(
     i: pd.DatetimeIndex, peak_fn: tools_peakfn.PeakFunction, freq: str
 ) -> pd.MultiIndex:
     """Multiindex, that is the same for all rows that belong to same delivery period."""
-    # Grouping due to delivery period.
-    groups = [i.year]
-    if freq == "MS":
-        groups.append(i.month)
+    # Grouping due to delivery period. Timestamps before the start-of-day belong to the
+    # delivery period of the previous calendar day.
+    day = i.tz_localize(None) - tools_startofday.get(i, "timedelta")
+    groups = [day.year]
+    if freq == "D":
+        groups.append(day.dayofyear)
+    elif freq == "MS":
+        groups.append(day.month)
     elif freq == "QS":
-        groups.append(i.quarter)
+        groups.append(day.quarter)
     elif freq == "YS":
         pass
     else:
         raise ValueError(
-            f"Parameter ``freq`` must be one of 'MS', 'QS', 'YS'; got '{freq}'."
+            f"Parameter ``freq`` must be one of 'D', 'MS', 'QS', 'YS'; got '{freq}'."
         )
 
     # Add grouping due to peak.
-- 
2.43.0


From f9a7684b278ed846108735914714e5cc8ebd2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 09/43] fix: resampled portfolio state keeps market price if
 nothing is unsourced

---
 portfolyo/core/pfstate/pfstate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfstate/pfstate.py b/portfolyo/core/pfstate/pfstate.py
index 71c5fa9..0eb3db8 100644
--- a/portfolyo/core/pfstate/pfstate.py
+++ b/portfolyo/core/pfstate/pfstate.py
@@ -219,7 +219,11 @@ class PfState(
         """
         # pu resampling is most important, so that prices are correctly weighted.
         offtakevolume = self.offtakevolume.asfreq(freq)
-        unsourcedprice = self.unsourced.asfreq(freq).price  # ensures weighted avg
+        unsourced = self.unsourced.asfreq(freq)  # ensures weighted avg
+        # . weighted avg is undefined if nothing is unsourced; use market price there.
+        nothing = (unsourced.q.pint.m == 0) & (unsourced.r.pint.m == 0)
+        marketprice = self.unsourcedprice.asfreq(freq).p
+        unsourcedprice = PfLine({"p": unsourced.p.where(~nothing, marketprice)})
         sourced = self.sourced.asfreq(freq)
         return PfState(offtakevolume, unsourcedprice, sourced)
 
-- 
2.43.0


From bf1667720f5dc8b950920a2fb539e23392f1ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 10/43] fix: resample to quarters and years that do not start
 in January

---
 portfolyo/tools/isboundary.py | 19 +++++++------------
 portfolyo/tools/round.py      | 11 ++---------
 2 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index a84525e..3d780d5 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -70,12 +70,13 @@ def is_X_start(i: pd.DatetimeIndex) -> np.ndarray:
 
 
 def is_X_start(i: pd.Timestamp | pd.DatetimeIndex, freq: str) -> bool | np.ndarray:
-    if freq == "MS":
+    offset = pd.tseries.frequencies.to_offset(freq)
+    if isinstance(offset, pd.tseries.offsets.MonthBegin):
         return is_month_start(i)
-    elif freq == "QS":
-        return is_quarter_start(i)
-    elif freq == "YS":
-        return is_year_start(i)
+    elif isinstance(offset, pd.tseries.offsets.QuarterBegin):
+        return (i.day == 1) & ((i.month - offset.startingMonth) % 3 == 0)
+    elif isinstance(offset, pd.tseries.offsets.YearBegin):
+        return (i.day == 1) & (i.month == offset.month)
     else:
         raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
 
@@ -105,14 +106,8 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
         return ts.minute == 0
     elif freq == "D":
         return ts.time() == start_of_day
-    elif freq == "MS":
-        return (ts.time() == start_of_day) & is_month_start(ts)
-    elif freq == "QS":
-        return (ts.time() == start_of_day) & is_quarter_start(ts)
-    elif freq == "YS":
-        return (ts.time() == start_of_day) & is_year_start(ts)
     else:
-        raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
+        return (ts.time() == start_of_day) & is_X_start(ts, freq)
 
 
 def index(i: pd.DatetimeIndex, freq: str) -> pd.Series:
diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 49329a4..05f128e 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -161,13 +161,6 @@ def _offset(freq: str, future: int):
         return pd.Timedelta(hours=future)
     elif freq == "D":
         return pd.Timedelta(days=future)
-    elif freq == "MS":
-        return pd.offsets.MonthBegin(future)
-    elif freq == "QS":
-        return pd.offsets.QuarterBegin(future, startingMonth=1)
-    elif freq == "YS":
-        return pd.offsets.YearBegin(future)
     else:
-        raise ValueError(
-            f"Parameter ``freq`` must be one of {tools_freq.ALLOWED_FREQUENCIES_DOCS}; got {freq}."
-        )
+        tools_freq.assert_freq_valid(freq)
+        return future * pd.tseries.frequencies.to_offset(freq)
-- 
2.43.0


From d809c3e24191f985df5e26cb136fa25710538304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 11/43] fix: missing value is not replaced by the preceding one
 when upsampling

---
 portfolyo/tools/changefreq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index ad26b94..23e71fc 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -113,7 +113,7 @@ def _upsample_avgable(s: pd.Series, freq: str) -> pd.Series:
     additional_stamp = tools_right.stamp(s.index[-1], s.index.freq)
     df.loc[additional_stamp, :] = None
     # ... then do upsampling ...
-    df2 = df.resample(freq, offset=offset).asfreq().ffill()  # duplicate value
+    df2 = df.resample(freq, offset=offset).ffill()  # duplicate value
     # ... and then remove final row (and turn back into series).
     return df2.iloc[:-1, 0].rename(s.name)
 
-- 
2.43.0


From 696ef294a0e226ab334956d1603a22e5f8c9d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 12/43] fix: start-of-day of resampled months that start at a
 DST change

---
 portfolyo/tools/changefreq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index 23e71fc..c53e2fc 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -64,8 +64,9 @@ def _downsample_summable(s: pd.Series, freq: str) -> pd.Series:
     if target_vs_daily > 0:
         # workaround: (a) first downsample to days...
         s2 = s2.resample(freq).sum()
-        s2.index += offset  # ...(b) add the offset manually...
-        s2.index.freq = freq  # ...(c) and set the frequency manually as well.
+        # ...(b) and then set the start-of-day manually (in wall-clock time, as the first
+        # day of a period may contain a DST-transition).
+        s2.index = tools_startofday.set(s2.index, tools_startofday.get(s.index))
     return s2.rename(s.name)
 
 
-- 
2.43.0


From 2d1ac27a16be0875bb6c76024895c3847405b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 13/43] fix: refuse multiples of a quarter or year as frequency

---
 portfolyo/tools/freq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 5dd1f66..fb8523b 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -51,6 +51,8 @@ def assert_freq_valid(freq: str) -> None:
 
     # Define restricted classes that should have n == 1
     restricted_classes = {
+        pd.tseries.offsets.YearBegin: 1,
+        pd.tseries.offsets.QuarterBegin: 1,
         pd.tseries.offsets.MonthBegin: 1,
         pd.tseries.offsets.Day: 1,
         pd.tseries.offsets.Hour: 1,
-- 
2.43.0


From 98a70566fe3a166179ed72de80c124168d4578b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:41 +0000
Subject: [PATCH 14/43] fix: intersection of single or non-overlapping
 operands, and with superfluous ignore_start_of_day

---
 portfolyo/tools/intersect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index c953d38..54890c4 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -99,7 +99,7 @@ def indices_flex(
         raise ValueError("Must specify at least one index.")
 
     if len(idxs) == 1:
-        return idxs[0]
+        return (idxs[0],)
     # convert tuple object into a list
     idxs = list(idxs)
 
@@ -114,7 +114,7 @@ def indices_flex(
 
     empty_idx = [len(i) == 0 for i in idxs]
     if any(empty_idx):
-        return pd.DatetimeIndex([])
+        return tuple([pd.DatetimeIndex([], freq=i.freq, tz=i.tz) for i in idxs])
 
     # If we land here, we have at least 2 indices, all are not empty.
 
@@ -162,7 +162,7 @@ def indices_flex(
     values = sorted(values)
 
     if len(values) == 0:
-        return tuple([pd.DatetimeIndex([]) for _ in idxs])
+        return tuple([pd.DatetimeIndex([], freq=f, tz=z) for f, z in zip(freq, tz)])
 
     idxs_out = []
     for i in range(len(idxs)):
@@ -171,7 +171,7 @@ def indices_flex(
         end = max(values)
         end = tools_right.stamp(end, longest_freq)
 
-        if ignore_start_of_day is True:
+        if ignore_start_of_day is True and len(distinct_sod) != 1:
             start = datetime.combine(pd.to_datetime(start).date(), start_of_day[i])
             end = datetime.combine(pd.to_datetime(end).date(), start_of_day[i])
             # inclusive = "left"
-- 
2.43.0


From e05261472e33340eca77dd989bc7bf1f7917df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 15/43] fix: longest and shortest frequency with quarters and
 years that do not start in January

---
 portfolyo/tools/freq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index fb8523b..2d7d72d 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -214,7 +214,8 @@ def assert_freq_sufficiently_short(freq, freq_ref, strict: bool = False) -> None
 def _longestshortest(shortest: bool, *freqs: str):
     """Determine which frequency denotes the shortest or longest time period."""
     common_ts = pd.Timestamp("2020-01-01")
-    ts = [common_ts + pd.tseries.frequencies.to_offset(fr) for fr in freqs]
+    # Several periods, as the first one may be cut short (e.g. Jan for 'QS-FEB', 'YS-FEB').
+    ts = [common_ts + 24 * pd.tseries.frequencies.to_offset(fr) for fr in freqs]
     i = (np.argmin if shortest else np.argmax)(ts)
     return freqs[i]
 
-- 
2.43.0


From b5ed0c2916819d7f6af4e85f3a943eba1f36d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 16/43] fix: intersection with other start-of-day without full
 common period

---
 portfolyo/tools/intersect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index 54890c4..9b23381 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -133,6 +133,9 @@ def indices_flex(
         name.append(idxs[i].name)
         tz.append(idxs[i].tz)
 
+    # Save a copy of the original hours and minutes
+    start_of_day = [x[0].time() for x in idxs]
+
     longest_freq = freq[0]
     if ignore_freq is True and len(distinct_freqs) != 1:
         # Find the longest frequency
@@ -149,8 +152,6 @@ def indices_flex(
             idxs[i] = idxs[i].tz_localize(None)
 
     if ignore_start_of_day is True and len(distinct_sod) != 1:
-        # Save a copy of the original hours and minutes
-        start_of_day = [x[0].time() for x in idxs]
         # Set the time components to midnight for each index in the list
         idxs = [index.normalize() for index in idxs]
 
-- 
2.43.0


From de41c59394bdcb9f9eda2f6b8c50e69ad20252c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 17/43] fix: split in peak and offpeak values considers the
 start-of-day

---
 portfolyo/tools/peakconvert.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 1eded2a..291e649 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -219,20 +219,26 @@ def tseries2poframe(
         raise ValueError(f"Parameter ``freq`` be monthly-or-longer; got '{freq}'.")
 
     # Remove partial data.
+    index = tools_changefreq.index(s.index, freq)
     s = tools_trim.frame(s, freq)
 
     # Handle possible units.
     sin, units = (s.pint.magnitude, s.pint.units) if hasattr(s, "pint") else (s, None)
 
     # Do calculations.
-    sout = sin.resample(freq, group_keys=True).apply(
-        lambda s: _tseries2po(s, peak_fn, is_summable)
-    )
+    # (not with ``.resample()``, as that does not consider the start-of-day)
+    starts = s.index.searchsorted(index)
+    stops = [*starts[1:], len(s)]
+    records = [
+        _tseries2po(sin.iloc[start:stop], peak_fn, is_summable)
+        for start, stop in zip(starts, stops)
+    ]
+    dfout = pd.DataFrame(records, index, ["peak", "offpeak"], float)
 
     # Handle possible units.
     if units is not None:
-        sout = sout.astype(f"pint[{units}]")
-    return sout.unstack()  # peak, offpeak as columns
+        dfout = dfout.astype(f"pint[{units}]")
+    return dfout
 
 
 def poframe2tseries(
-- 
2.43.0


From d692e5ee2389ebe31ae2f0636b485778e9d9053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 18/43] fix: peak and offpeak values expanded to time series
 were swapped, and totals spread over all periods

---
 portfolyo/tools/peakconvert.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 291e649..63051f4 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -292,17 +292,24 @@ def poframe2tseries(
     """
     # Prep.
     if "peak" not in df or "offpeak" not in df:  # ensure peak and offpeak available
-        df = complete_bpoframe(df, peak_fn)
+        df = complete_bpoframe(df, peak_fn, is_summable)
     df = df[["peak", "offpeak"]]
 
     # Stretch the dataframe to higher frequency
+    df2 = tools_changefreq.averagable(df, freq)
+    ispeak = peak_fn(df2.index)  # will raise error if frequency not short enough
+    s = df2["peak"].where(ispeak, df2["offpeak"])
     if is_summable:
-        df2 = tools_changefreq.summable(df, freq)
-    else:
-        df2 = tools_changefreq.averagable(df, freq)
-    df2["ispeak"] = peak_fn(df2.index)  # will raise error if frequency not short enough
+        # Value is for entire delivery period; spread over its peak (or offpeak) periods.
+        duration = tools_duration.index(df2.index).pint.m  # floats
+        durations = pd.DataFrame(
+            {"peak": duration.where(ispeak, 0), "offpeak": duration.mask(ispeak, 0)}
+        )
+        totals = tools_changefreq.summable(durations, df.index.freq)
+        totals2 = tools_changefreq.averagable(totals, freq)
+        s = s * duration / totals2["peak"].where(ispeak, totals2["offpeak"])
 
-    return df2["offpeak"].where(df2["ispeak"], df2["peak"])
+    return s.rename(None)
 
 
 # def tseries2tseries(
-- 
2.43.0


From e20e33d49670993773ea456a1f4c0046c61712bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:14 +0000
Subject: [PATCH 19/43] fix: peak function with window that starts in skipped
 hour

---
 portfolyo/tools/peakfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 802874b..595a036 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -9,7 +9,6 @@ import pandas as pd
 from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
-from . import right as tools_right
 
 PeakFunction = Callable[[pd.DatetimeIndex], pd.Series]
 
@@ -85,7 +84,8 @@ def factory(
 
     def filter_time(i: pd.DatetimeIndex) -> np.ndarray:
         time_left = i.time
-        time_right = tools_right.index(i).time
+        # Wall-clock time at which period ends (not affected by skipped or repeated hour).
+        time_right = (i.tz_localize(None) + i.freq).time
         mask = True
         if peak_left != MIDNIGHT:
             cond1 = time_left >= peak_left
-- 
2.43.0


From a8dbe199439f4d3a66514ab95bf09173298a8e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:34 +0000
Subject: [PATCH 20/43] fix: floor and ceil to (quarter)hours in hours that are
 repeated at end of DST, and of timestamps with seconds

---
 portfolyo/tools/isboundary.py | 7 +++----
 portfolyo/tools/round.py      | 9 +++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index 3d780d5..34d22b9 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -100,10 +100,9 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     bool
     """
     start_of_day = start_of_day or dt.time(0, 0)
-    if freq == "15min":
-        return ts.minute % 15 == 0
-    elif freq == "h":
-        return ts.minute == 0
+    if freq in ["15min", "h"]:
+        ts_wall = ts.tz_localize(None)
+        return ts_wall == ts_wall.floor(freq)
     elif freq == "D":
         return ts.time() == start_of_day
     else:
diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 05f128e..e295aa7 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -68,10 +68,11 @@ def stamp_current(
 
     # Fixed-duration frequency (= (quarter)hour): simply floor/ceil.
     if tools_freq.up_or_down(freq, "D") < 0:
-        if fn == "floor":
-            return ts.floor(freq, nonexistent="shift_backward")
-        else:
-            return ts.ceil(freq, nonexistent="shift_forward")
+        # (find excess in wall-clock time, but subtract it in elapsed time; repeated and
+        # skipped hours are then no problem)
+        ts_wall = ts.tz_localize(None)
+        floored = ts - (ts_wall - ts_wall.floor(freq))
+        return floored if fn == "floor" else floored + tools_freq.to_offset(freq)
 
     # If we land here, the frequency is daily-or-longer.
 
-- 
2.43.0


From 7907c597e4fe8d2efc85d2133759c15e03adfb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:53 +0000
Subject: [PATCH 21/43] fix: left-bound timestamps of daily index that ends
 after DST change

---
 portfolyo/tools/righttoleft.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/righttoleft.py b/portfolyo/tools/righttoleft.py
index 5384352..10657ec 100644
--- a/portfolyo/tools/righttoleft.py
+++ b/portfolyo/tools/righttoleft.py
@@ -5,7 +5,6 @@ Calculate the left-bound timestamp of delivery period, given the right-bound one
 import pandas as pd
 
 from . import freq as tools_freq
-from . import startofday as tools_startofday
 
 
 def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
@@ -35,15 +34,14 @@ def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
     # Must be able to handle cases where .freq is not set. A tz-naive index that contains
     # a DST-changeover will have missing or repeated timestamps.
 
-    # If frequency is known, we can use pandas built-in to make leftbound.
+    # If frequency is known, we can use it to make leftbound.
     if i.freq is None:
         i = tools_freq.guess_to_index(i)
 
     if i.freq is not None:
-        i2 = i.shift(-1)
-        # HACK: pandas does not give correct result if first timestamp is after DST-transition
-        if i.freq == "D" and tools_startofday.get(i2) != tools_startofday.get(i):
-            i2 = i - tools_freq.to_offset(i.freq)
+        # (not with ``i.shift(-1)``, which gives wrong or too few values at DST-transitions)
+        i2 = i - tools_freq.to_offset(i.freq)
+        i2.freq = i.freq
         return i2
 
     # Couldn't infer frequency. Try from median timedelta and turn into time offset.
-- 
2.43.0


From 9df7b4f817fab844b831227cec138f5270c063a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 22/43] fix: keep name and unit when converting (quarter)hourly
 data to timezone-agnostic

---
 portfolyo/tools/tzone.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 32c2df5..f04c36a 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -274,10 +274,7 @@ def _aware_to_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
     partly = fr.tz_localize(None)
     partly = partly[~partly.index.duplicated()]  # remove duplicates
 
-    def value(ts):  # Take value of prev hour if current time not found in the input.
-        try:
-            return partly.loc[ts]
-        except KeyError:
-            return partly.loc[ts - pd.Timedelta(hours=1)]
-
-    return fr.__class__([value(ts) for ts in idx_out], index=idx_out)
+    # Take value of prev hour if current time not found in the input.
+    missing = ~idx_out.isin(partly.index)
+    mapping_onto_input_index = idx_out.where(~missing, idx_out - pd.Timedelta(hours=1))
+    return partly.loc[mapping_onto_input_index].set_axis(idx_out)
-- 
2.43.0


From 21155ba1a57b07670111e39884bcd52ab6f42d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 23/43] fix: no lossy conversion between representations of the
 same timezone

---
 portfolyo/tools/tzone.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index f04c36a..9325589 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -200,6 +200,10 @@ def _A_to_A(fr: Series_or_DataFrame, *, tz: str, floating: bool) -> Series_or_Da
         # input already has wanted tz; no conversion necessary
         return fr
 
+    elif str(fr.index.tz) == str(tz):
+        # input already has wanted tz, but in other representation (e.g. zoneinfo)
+        return fr.tz_convert(tz)
+
     elif not floating:
         # convertion using universal time
         return fr.tz_convert(tz)
-- 
2.43.0


From bb747ab891ee6049062be5a29c0a95bcd9f178ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 24/43] fix: gap before the final right-bound timestamp is not
 ignored

---
 portfolyo/tools/righttoleft.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portfolyo/tools/righttoleft.py b/portfolyo/tools/righttoleft.py
index 10657ec..09d5a94 100644
--- a/portfolyo/tools/righttoleft.py
+++ b/portfolyo/tools/righttoleft.py
@@ -49,4 +49,7 @@ def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
     if i.tz or how == "A":  # if tz-aware, only one way to make leftbound.
         return i - offst
     else:  # how == "B"
+        # A DST-transition moves the final timestamp by at most 1 hour.
+        if len(i) > 1 and abs(i[-1] - offst - i[-2]) > pd.Timedelta(hours=1):
+            raise ValueError("There is a gap before the final timestamp.")
         return pd.DatetimeIndex([i[0] - offst, *i[:-1]])
-- 
2.43.0


From 566df83718bb38603e55aecf68aaa8ae0b5260dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 25/43] fix: dataframe export without units

---
 portfolyo/core/pfline/dataframeexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index bd6ee9a..077f76f 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -37,7 +37,7 @@ class Flat:
         cols = cols or "wqpr"  # in case nothing was specified.
         cols = [col for col in cols if col in "wqpr" and col in self.kind.available]
         df = pd.DataFrame({col: self.df[col] for col in cols})
-        return df if has_units else df.pint.m
+        return df if has_units else df.apply(lambda s: s.pint.m)
 
 
 class Nested:
-- 
2.43.0


From 917874459bc4186b3eef19130fa1e495a33882d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 26/43] fix: pass keyword arguments to excel export

---
 portfolyo/core/shared/excelclipboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/excelclipboard.py b/portfolyo/core/shared/excelclipboard.py
index 80d77ad..d72068d 100644
--- a/portfolyo/core/shared/excelclipboard.py
+++ b/portfolyo/core/shared/excelclipboard.py
@@ -23,4 +23,4 @@ class ExcelClipboardOutput:  # for both PfLine and PfState
 
     @functools.wraps(pd.DataFrame.to_excel)
     def to_excel(self: NDFrameLike, *args, **kwargs) -> None:
-        prepare_df(self).to_excel(*args, *kwargs)
+        prepare_df(self).to_excel(*args, **kwargs)
-- 
2.43.0


From ff2ac9a99388846e71297b3a0be05c466286e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 27/43] fix: number of timestamps when printing 1 or 2
 timestamps

---
 portfolyo/core/shared/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/text.py b/portfolyo/core/shared/text.py
index 91332f8..9bb94c7 100644
--- a/portfolyo/core/shared/text.py
+++ b/portfolyo/core/shared/text.py
@@ -44,7 +44,7 @@ def df_with_strindex(df: pd.DataFrame, num_of_ts: int):
     if len(df.index) > num_of_ts:
         i1, i2 = num_of_ts // 2, (num_of_ts - 1) // 2
         inter = pd.DataFrame([[".."] * len(df.columns)], [".."], df.columns)
-        df = pd.concat([df.iloc[:i1], inter, df.iloc[-i2:]])
+        df = pd.concat([df.iloc[:i1], inter, df.iloc[len(df.index) - i2 :]])
     return df
 
 
-- 
2.43.0


From 51e3241390bdb01206895b9ef1f7ab2e48f28db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 28/43] fix: printing of deeply nested portfolio lines

---
 portfolyo/core/shared/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/text.py b/portfolyo/core/shared/text.py
index 9bb94c7..eb6e152 100644
--- a/portfolyo/core/shared/text.py
+++ b/portfolyo/core/shared/text.py
@@ -59,7 +59,7 @@ def index_info(i: pd.DatetimeIndex) -> Iterable[str]:
 
 def treedict(depth: int, is_last_child: bool, has_children: bool) -> Dict[str, str]:
     """Dictionary with 4 strings ('00', '01', '10', '11') that are used in drawing the tree."""
-    colors = {"0": TREECOLORS[depth], "1": TREECOLORS[depth + 1]}
+    colors = {str(d): TREECOLORS[(depth + d) % len(TREECOLORS)] for d in (0, 1)}
     tree = {}
     # 00 = first chars on header text line, #10 = first chars on other text lines
     if depth == 0:
-- 
2.43.0


From c869114d7ec83d8a6b9969799dc6a10c671581c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 29/43] fix: change year of (quarter)hourly data with other
 start-of-day than midnight

---
 portfolyo/tools/changeyear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changeyear.py b/portfolyo/tools/changeyear.py
index 00f7617..e420d6c 100644
--- a/portfolyo/tools/changeyear.py
+++ b/portfolyo/tools/changeyear.py
@@ -286,7 +286,9 @@ def _map_index_to_index_hourlyandshorter(
     mapp_d = _map_index_to_index_daily(idx_source_d, idx_target_d, holiday_country)
 
     # Split timestamps in 'day' and 'offset'.
-    idx_target_part1 = idx_target.floor("D")
+    # (not with ``.floor("D")``, as that does not consider the start-of-day)
+    positions = idx_target_d.searchsorted(idx_target, side="right") - 1
+    idx_target_part1 = idx_target_d[positions]
     idx_target_part2 = idx_target - idx_target_part1
 
     return pd.Series(mapp_d[idx_target_part1].values + idx_target_part2, idx_target)
-- 
2.43.0


From 6d4b64f4365f0ca78097a4ce2506f1280e6fde35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 30/43] fix: change year of portfolio line with revenue

---
 portfolyo/tools2/changeyear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools2/changeyear.py b/portfolyo/tools2/changeyear.py
index b3274ab..ebc7414 100644
--- a/portfolyo/tools2/changeyear.py
+++ b/portfolyo/tools2/changeyear.py
@@ -69,9 +69,9 @@ def map_to_year(pfl: PfLine, year: int, holiday_country: str) -> PfLine:
         # Assume that revenue is scales proportionately with duration of period.
         # E.g. 290 Eur in leapyear Feb --> 280 Eur in non-leapyear Feb.
         df = pfl.dataframe("r")
-        df *= tools.duration.index(df.index)  # Make averageble
+        df["r"] /= tools.duration.index(df.index)  # Make averageble
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-        df2 /= tools.duration.index(df2.index)  # Make summable again
+        df2["r"] *= tools.duration.index(df2.index)  # Make summable again
     else:  # CompletePfLine
         df = pfl.dataframe(["w", "p"])  # Averagable
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-- 
2.43.0


From 59fff1c9ec41a5b766a53a4e1f141364552610a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 31/43] fix: equality of portfolio lines does not depend on the
 name of the index

---
 portfolyo/core/pfline/flat_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/flat_methods.py b/portfolyo/core/pfline/flat_methods.py
index f74eb35..822f808 100644
--- a/portfolyo/core/pfline/flat_methods.py
+++ b/portfolyo/core/pfline/flat_methods.py
@@ -72,7 +72,9 @@ def __eq__(self: FlatPfLine, other: Any) -> bool:
     if not isinstance(other, self.__class__):
         return False
     try:
-        tools.testing.assert_frame_equal(self.df, other.df, rtol=1e-7)
+        tools.testing.assert_frame_equal(
+            self.df, other.df, rtol=1e-7, check_names=False
+        )
         return True
     except AssertionError:
         return False
-- 
2.43.0


From 4ed61e7fa56e6731f580b9f8e287ee2c803fadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 32/43] fix: pair of stamps in UTC or another timezone without
 zone attribute

---
 portfolyo/tools/leftandright.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/leftandright.py b/portfolyo/tools/leftandright.py
index d89e3d3..60265ab 100644
--- a/portfolyo/tools/leftandright.py
+++ b/portfolyo/tools/leftandright.py
@@ -66,7 +66,7 @@ def stamps(
         left = tools_floor.stamp(right, "YS", back, start_of_day)
 
     # if we land here, we know left and right.
-    zones = [None if ts.tz is None else ts.tz.zone for ts in [left, right]]
+    zones = [None if ts.tz is None else str(ts.tz) for ts in [left, right]]
     if len(set(zones)) == 2:  # distinct timezones
         raise ValueError(
             f"The timestamps have distinct timezones: {left.tz} and {right.tz}."
-- 
2.43.0


From 093be0bfaf3528535065b59f7b40cdd6c9ba34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 33/43] fix: recognise quarters of 88 days and 23 hours

---
 portfolyo/tools/freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 2d7d72d..5c94f79 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -322,7 +322,7 @@ def from_tdelta(tdelta: pd.Timedelta) -> str:
         return "D"
     elif pd.Timedelta(days=27) <= tdelta <= pd.Timedelta(days=32):
         return "MS"
-    elif pd.Timedelta(days=89) <= tdelta <= pd.Timedelta(days=93):
+    elif pd.Timedelta(days=88) <= tdelta <= pd.Timedelta(days=93):
         return "QS"
     elif pd.Timedelta(days=364) <= tdelta <= pd.Timedelta(days=367):
         return "YS"
-- 
2.43.0


From 67ca7dc77f06d684ee449c8e5d47a055dc187a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 34/43] fix: fill_gaps with gaps at the edges of the series

---
 portfolyo/tools/frame.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index 512b085..b43a599 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -34,14 +34,14 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
     index_beforegap = fr[~is_gap & next_gap].index
     index_aftergap = fr[~is_gap & prev_gap].index
     # remove orphans at beginning and end
-    if index_beforegap.empty:
+    if index_beforegap.empty or index_aftergap.empty:
         return fr
-    elif index_beforegap[-1] > index_aftergap[-1]:
-        index_beforegap = index_beforegap[:-1]
-    if index_aftergap.empty:
-        return fr
-    elif index_aftergap[0] < index_beforegap[0]:
+    orphan_at_start = index_aftergap[0] <= index_beforegap[0]
+    orphan_at_end = index_beforegap[-1] >= index_aftergap[-1]
+    if orphan_at_start:
         index_aftergap = index_aftergap[1:]
+    if orphan_at_end:
+        index_beforegap = index_beforegap[:-1]
     fr = fr.copy()
     for i_before, i_after in zip(index_beforegap, index_aftergap):
         section = fr.loc[i_before:i_after]
-- 
2.43.0


From 2dd7a61494bf9ddcdab8970e5621b16bf88e4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:10 +0000
Subject: [PATCH 35/43] fix: copy nested portfolio lines

---
 portfolyo/core/pfline/children.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/children.py b/portfolyo/core/pfline/children.py
index c118f34..0155264 100644
--- a/portfolyo/core/pfline/children.py
+++ b/portfolyo/core/pfline/children.py
@@ -75,6 +75,6 @@ class ChildFunctionality(Mapping):
     def __getattr__(
         self: NestedPfLine, name: str
     ):  # allow access to children by attribute
-        if name not in self.children:
+        if name == "children" or name not in self.children:  # (unset while copying)
             raise AttributeError(f"No such attribute '{name}'.")
         return self.children[name]
-- 
2.43.0


From 6a601c43f0f86ac290a70ee9a46c4ebee887b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 36/43] fix: error for series with several dimensions

---
 portfolyo/tools/unit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/unit.py b/portfolyo/tools/unit.py
index b4824a8..12c4ae5 100644
--- a/portfolyo/tools/unit.py
+++ b/portfolyo/tools/unit.py
@@ -196,9 +196,12 @@ def avoid_frame_of_objects(fr: Series_or_DataFrame) -> Series_or_DataFrame:
         try:
             return fr.astype(f"pint[{fr.iloc[0].units}]")
         except pint.DimensionalityError as e:
-            dimensions = {v.dimensionality for v in fr.values}
             raise pint.DimensionalityError(
-                f"Expected a Series with quantities of the same dimension; got {dimensions}."
+                e.units1,
+                e.units2,
+                e.dim1,
+                e.dim2,
+                extra_msg=". Expected a Series with quantities of the same dimension.",
             ) from e
     raise TypeError(
         "Expected int-Series, float-Series, pint-Series, or Series of pint quantities (of equal dimensionality)."
-- 
2.43.0


From 5a10d9fbea4bafe68686470e03c2150855a9d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 37/43] fix: plots of years and quarters that do not start in
 January

---
 portfolyo/tools/visualize/categories.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/visualize/categories.py b/portfolyo/tools/visualize/categories.py
index f31e2c4..d49916f 100644
--- a/portfolyo/tools/visualize/categories.py
+++ b/portfolyo/tools/visualize/categories.py
@@ -58,7 +58,9 @@ class Categories:
 
 
 def create_categories(s: pd.Series) -> Iterable[Category]:
-    if s.index.freq == "YS":
+    freq = s.index.freq.name.split("-")[0]  # disregard first month of year or quarter
+
+    if freq == "YS":
         prios = priolist(len(s))
 
         def category(i, ts, y):
@@ -66,7 +68,7 @@ def create_categories(s: pd.Series) -> Iterable[Category]:
             short_label = label[-2:] if i > 0 else label
             return Category(i, y, ts, label, short_label, prios[i])
 
-    elif s.index.freq == "QS":
+    elif freq == "QS":
 
         def category(i, ts, y):
             num = ts.quarter
@@ -75,7 +77,7 @@ def create_categories(s: pd.Series) -> Iterable[Category]:
             label = short_label = f"Q{num}\n{year}"
             return Category(i, y, ts, label, short_label, prio)
 
-    elif s.index.freq == "MS":
+    elif freq == "MS":
         prios = priolist(12)
 
         def category(i, ts, y):
-- 
2.43.0


From cb93d6495bc0a7e3769e7a62eebc5a32a349927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 38/43] fix: visible range in plot of portfolio state

---
 portfolyo/core/pfstate/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfstate/plot.py b/portfolyo/core/pfstate/plot.py
index 975dac9..177af50 100644
--- a/portfolyo/core/pfstate/plot.py
+++ b/portfolyo/core/pfstate/plot.py
@@ -79,5 +79,6 @@ class PfStatePlot:
         mins_vol, maxs_vol = zip(*limit)
 
         themin, themax = min(mins_vol), max(maxs_vol)
+        margin = 0.1 * (themax - themin)
         for ax in axes:
-            ax.set_ylim(themin * 1.1, themax * 1.1)
+            ax.set_ylim(themin - margin, themax + margin)
-- 
2.43.0


From 876ead40d5f6681a120f7eee2ce4ddfe26082f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 39/43] fix: draw steps over their own delivery period

---
 portfolyo/tools/visualize/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 1ca427b..0c5599c 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -161,7 +161,7 @@ def plot_timeseries_as_step(
     splot = s.copy()  # modified with additional (repeated) datapoint
     splot[splot.index.right[-1]] = splot.values[-1]
 
-    ax.step(splot.index, splot.values, where="mid", **kwargs)
+    ax.step(splot.index, splot.values, where="post", **kwargs)
     delta = s.index.right - s.index
     set_data_labels(ax, s.index + 0.5 * delta, s.values, labelfmt, True)
     ax.autoscale()
-- 
2.43.0


From 96b0ddd353061a59d4d3b6af8e9d2e4f443db46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 40/43] fix: plots of dimensionless data

---
 portfolyo/tools/visualize/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 0c5599c..8223a66 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -271,7 +271,7 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
         "p": Colors.Wqpr.p,
     }
     # Set default color if name_unit not found
-    default_color = "white"
+    default_color = Colors.General.WHITE.value
     # Get background color based on name_unit
     background_color = unit_colors.get(name_unit, default_color)
     ax.set_ylabel(f"{unit:~P}", backgroundcolor=background_color.lighten(0.3))
-- 
2.43.0


From ce12af3c74e43df3d260959fdbfbf00f7d2b9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 41/43] fix: plot of several portfolio states

---
 portfolyo/tools2/plot.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/portfolyo/tools2/plot.py b/portfolyo/tools2/plot.py
index 9117b36..3f4c2bb 100644
--- a/portfolyo/tools2/plot.py
+++ b/portfolyo/tools2/plot.py
@@ -7,9 +7,8 @@ import numpy as np
 from matplotlib import pyplot as plt
 
 from .. import tools
-from ..core.pfline.plot import defaultkwargs
+from ..core.pfline.plot import plotfn_and_kwargs
 from ..core.pfstate import PfState
-from ..tools import visualize as vis
 
 
 def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
@@ -60,22 +59,20 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
         axes[0].axis("off")
 
         # Volumes.
-        if is_category:
-            s, kwargs = -1 * pfs.offtakevolume.q, defaultkwargs("q", is_category)
-        else:
-            s, kwargs = -1 * pfs.offtakevolume.w, defaultkwargs("w", is_category)
-        vis.plot_timeseries(axes[1], s, **kwargs)
+        col = "q" if is_category else "w"
+        fn, kwargs = plotfn_and_kwargs(col, pfs.index.freq, None)
+        fn(axes[1], -1 * getattr(pfs.offtakevolume, col), **kwargs)
 
         # Sourced fraction.
-        vis.plot_timeseries(
-            axes[2], pfs.sourcedfraction, **defaultkwargs("f", is_category)
-        )
+        fn, kwargs = plotfn_and_kwargs("f", pfs.index.freq, None)
+        fn(axes[2], pfs.sourcedfraction, **kwargs)
 
         # Empty.
         axes[3].axis("off")
 
         # Procurement Price.
-        vis.plot_timeseries(axes[4], pfs.pnl_cost.p, **defaultkwargs("p", is_category))
+        fn, kwargs = plotfn_and_kwargs("p", pfs.index.freq, None)
+        fn(axes[4], pfs.pnl_cost.p, **kwargs)
 
         # Empty.
         axes[5].axis("off")
@@ -98,8 +95,7 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
             axes[1].set_title("Offtake Volume &\nprocurement price", y=1.27)
             axes[2].set_title("Sourced fraction", y=1.27)
 
-    return
-    draw_horizontal_lines(fig, axes)  # draw horizontal lines between portfolios
+    return fig
 
 
 def draw_horizontal_lines(fig, axes):
-- 
2.43.0


From 8e6c7d2aeeb26773408f666e47a9144c294d2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:35 +0000
Subject: [PATCH 42/43] fix: weighted average with very small weights, or
 weights that cancel out apart from rounding

---
 portfolyo/tools/wavg.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 23ae071..2242221 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -137,7 +137,7 @@ def series(
     # Unweighted average if all weights the same but not all 0 (and no missing values).
     if (
         weights.nunique() == 1
-        and not np.isclose(weights.iloc[0], 0)
+        and weights.iloc[0] != 0
         and not s.isna().any()
     ):
         return s.mean()
@@ -165,7 +165,7 @@ def series(
     # Check if SUM of weights is 0.
     # In that case, the result is NaN in case of non-uniform values.
     weightsum = weights.sum()  # a float or quantity
-    if np.isclose(weightsum, 0):  # edge case (more common)
+    if sum_is0(weightsum, absolute(weights).sum()):  # edge case (more common)
         s = s[weights != 0.0]  # values with weight == 0 are ignored
         is_uniform = values_areuniform(s)
         return s.iloc[0] if is_uniform else np.nan
@@ -254,7 +254,7 @@ def dataframe_columnwavg_with_weightsdataframe(
     # . One float/quantity for each row.
     weightssum = sum(s for _, s in weights.items())  # HACK: for speed
     # . One boolean for each row.
-    weights_sum0 = weightssum == 0.0  # TODO: use np.isclose?
+    weights_sum0 = sum_is0(weightssum, sum(absolute(s) for _, s in weights.items()))
     # . One boolean for each weight.
     weight_is0 = weights == 0.0  # TODO: use np.isclose?
     # . One boolean for each row.
@@ -303,7 +303,7 @@ def dataframe_columnwavg_with_weightsseries(
     # . One fleat/quantity.
     weightssum = sum(w for w in weights.values)
     # . One boolean.
-    weights_sum0 = weightssum == 0.0
+    weights_sum0 = sum_is0(weightssum, absolute(weights).sum())
     # . One boolean for each weight.
     weight_is0 = weights == 0.0
     # . One boolean.
@@ -442,6 +442,20 @@ def rowvalue_uniformity(df: pd.DataFrame) -> pd.Series:
     return buffer
 
 
+def absolute(s: pd.Series) -> pd.Series:
+    """Absolute values."""
+    return s * ((s > 0) * 2 - 1)  # not using abs(), because it is noisy for pint-series
+
+
+def sum_is0(
+    total: float | tools_unit.Q_ | pd.Series, abstotal: float | tools_unit.Q_ | pd.Series
+) -> bool | pd.Series:
+    """Return True if sum of values (``total``) is 0, apart from rounding errors. The
+    values can have any magnitude, so this is judged relative to the sum of their
+    absolute values (``abstotal``)."""
+    return (total <= 1e-12 * abstotal) & (total >= -1e-12 * abstotal)
+
+
 def weights_as_series(weights: Iterable | Mapping, refindex: Iterable) -> pd.Series:
     # Step 1: turn into Series.
     if isinstance(weights, pd.Series):
-- 
2.43.0


From 887a9e763a606bc43233741f7f0fe33926d8031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:17 +0000
Subject: [PATCH 43/43] fix: concatenation of single days around a DST change

Pandas does not keep the frequency if the clock changes on the day before the seam, and
it cannot be inferred from two timestamps.
---
 portfolyo/tools2/concat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index ff13e1b..908401b 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -107,6 +107,9 @@ def concat_pflines(pfls: Iterable[PfLine]) -> PfLine:
         # concatenate dataframes into one
         concat_data = pd.concat(dataframes_flat, axis=0)
         try:
+            # Pandas does not keep the frequency in all cases
+            freq = sorted_pfls[0].index.freq
+            concat_data = tools.freq.set_to_frame(concat_data, freq)
             # Call create.flatpfline() and catch any ValueError
             return create.flatpfline(concat_data)
         except ValueError as e:
-- 
2.43.0

