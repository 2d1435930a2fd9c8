From 946ca77bc395849db562e56d3fce1abbd87b0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/36] fix: build triangles independently of record order and
 of how cells are split over records

Cumulative triangles were accumulated in the order in which records happened
to arrive, once per record, so unsorted data and data with several records per
cell produced wrong cumulative losses. The first development period handler
also ran once per record and modified the caller's DataFrame.
---
 trikit/triangle.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a0ba2a..11bce67 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -45,10 +45,11 @@ class _BaseTriangle(pd.DataFrame):
         dev_ = "dev" if dev is None else dev
         value_ = "value" if value is None else value
 
-        # data2 = data.copy(deep=True)
-        data2 = self._neg_handler(data, dev_, value_)
-        data2 = data2[[origin_, dev_, value_]]
-        data2 = data2.groupby([origin_, dev_], as_index=False).sum()
+        # Aggregate before handling first development period values, so that
+        # the result doesn't depend on how losses are split over records.
+        data2 = data[[origin_, dev_, value_]]
+        data2 = data2.groupby([origin_, dev_], as_index=False).sum(min_count=1)
+        data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
         tri.columns = tri.columns.droplevel(0)
@@ -461,7 +462,14 @@ class _BaseCumTriangle(_BaseTriangle):
     """
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
-        # Replace NaN values with 1.0 in value column.
+        self._validate(data, origin=origin, dev=dev, value=value)
+        origin = "origin" if origin is None else origin
+        dev = "dev" if dev is None else dev
+        value = "value" if value is None else value
+
+        # Accumulate in development period order over a single record per cell.
+        data = data.groupby([origin, dev], as_index=False)[value].sum(min_count=1)
+        data = data.sort_values(by=[origin, dev]).reset_index(drop=True)
         data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
         data = data.drop(value, axis=1)
         data = data.rename(columns={"cumval": value})
@@ -1374,7 +1382,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.rename({value: "cum"}, axis=1)
+            df = data.groupby([origin, dev], as_index=False)[value].sum(min_count=1)
+            df = df.sort_values(by=[origin, dev]).rename({value: "cum"}, axis=1)
             df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
             df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
             df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
-- 
2.43.0


From c0433bb697f2654efa0193ae380e8cd33f4b5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 02/36] fix: keep losses on either side of a missing cell in
 cumulative input

Differencing cumulative data across a missing cell dropped the development
up to and including the next reported cell (triangle-shaped input), or counted
it twice (tabular input with an explicit NaN).
---
 trikit/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 11bce67..f890989 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1367,7 +1367,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
-            incrtri = data.diff(axis=1)
+            incrtri = data.ffill(axis=1).fillna(0).diff(axis=1).where(data.notnull())
             incrtri.iloc[:, 0] = data.iloc[:, 0]
             incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
@@ -1383,6 +1383,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         if data_format.lower().strip().startswith("c"):
             df = data.groupby([origin, dev], as_index=False)[value].sum(min_count=1)
+            df = df.dropna(subset=[value])
             df = df.sort_values(by=[origin, dev]).rename({value: "cum"}, axis=1)
             df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
             df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-- 
2.43.0


From 10d15bdef24c11b8958ba11734eeaa84cb5eaf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 03/36] fix: support triangles built from custom origin, dev
 and value fields

to_tbl, latest, to_cum and every reserve estimator raised KeyError for
triangles built from data with field names other than the defaults. to_cum now
goes through totri, which also fills missing actuals as for any other
cumulative triangle.
---
 trikit/estimators/bootstrap.py |  2 +-
 trikit/triangle.py             | 32 +++++++++++++++++++++-----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3eccf34..1fddc4f 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -483,7 +483,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             1., dfm["value"].values
             )
 
-        dfi = self.tri.to_tbl(dropna=False).drop("value", axis=1)
+        dfi = self.tri._to_tbl(dropna=False).drop("value", axis=1)
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
diff --git a/trikit/triangle.py b/trikit/triangle.py
index f890989..3d12596 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -211,9 +211,9 @@ class _BaseTriangle(pd.DataFrame):
         if self._latest is None:
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
-                {0: "dev", "index": self.origin}, axis=1)
-            self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
-                {self.value: "latest"}, axis=1)
+                {0: "dev", "index": "origin"}, axis=1)
+            self._latest = dflindx.merge(self._to_tbl(), on=["origin", "dev"]).rename(
+                {"value": "latest"}, axis=1)
             self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
@@ -348,12 +348,21 @@ class _BaseTriangle(pd.DataFrame):
         -------
         pd.DataFrame
         """
+        df = self._to_tbl(dropna=dropna)
+        return(df.rename({"origin": self.origin, "dev": self.dev, "value": self.value}, axis=1))
+
+
+    def _to_tbl(self, dropna=True):
+        """
+        Tabular representation of triangle with fields "origin", "dev" and
+        "value", regardless of the field names used in the original dataset.
+        """
         tri = self.reset_index(drop=False).rename({"index": "origin"}, axis=1)
-        df = pd.melt(tri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
+        df = pd.melt(tri, id_vars=["origin"], var_name="dev", value_name="value")
         if dropna:
-            df = df[~np.isnan(df[self.value])]
-        df = df.astype({self.origin: int, self.dev: int, self.value: float})
-        df = df[[self.origin, self.dev, self.value]].sort_values(by=[self.origin, self.dev])
+            df = df[~np.isnan(df["value"])]
+        df = df.astype({"origin": int, "dev": int, "value": float})
+        df = df[["origin", "dev", "value"]].sort_values(by=["origin", "dev"])
         return(df.reset_index(drop=True))
 
 
@@ -433,7 +442,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin="origin", dev="dev", value="value"))
+        return(totri(self.to_tbl(), tri_type="cum", origin=self.origin, dev=self.dev, value=self.value))
 
 
 
@@ -899,7 +908,8 @@ class CumTriangle(_BaseCumTriangle):
         df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
         df = df[~np.isnan(df["value"])].astype({"origin": int, "dev": int, "value": float})
         df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
-        return(IncrTriangle(df, origin="origin", dev="dev", value="value"))
+        df = df.rename({"origin": self.origin, "dev": self.dev, "value": self.value}, axis=1)
+        return(IncrTriangle(df, origin=self.origin, dev=self.dev, value=self.value))
 
 
     def plot(self, display="combined", **kwargs):
@@ -973,7 +983,7 @@ class CumTriangle(_BaseCumTriangle):
         if kwargs:
             pltkwargs.update(kwargs)
 
-        data = self.to_tbl()
+        data = self._to_tbl()
         grps = data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.origins]
         xticks = np.sort(data.dev.unique())
@@ -1057,7 +1067,7 @@ class CumTriangle(_BaseCumTriangle):
             pltkwargs.update(kwargs)
 
         sns.set_context(context)
-        data = self.to_tbl()
+        data = self._to_tbl()
 
         with sns.axes_style(axes_style):
 
-- 
2.43.0


From 3cbd19131a7ce4607a11bbfe2b9a64c00831c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 04/36] fix: publish lazily computed tables only once they are
 complete

An interrupted first access (or another thread) could observe and keep using a
half-built table: forecast cells reported as actuals, index tables without
their offset column, or a modified triangle with the latest diagonal partly
removed.
---
 trikit/estimators/mack.py |  6 +++---
 trikit/triangle.py        | 43 ++++++++++++++++++++++-----------------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 81a3e20..02a9b51 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -224,12 +224,12 @@ class MackChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         if self._mod_tri is None:
-            self._mod_tri = self.tri.copy(deep=True)
+            mod_tri = self.tri.copy(deep=True)
             for ii in range(self.tri.latest.shape[0]):
                 r_indx = self.tri.latest.loc[ii, "origin"].item()
                 c_indx = self.tri.latest.loc[ii, "dev"].item()
-                self._mod_tri.at[r_indx, c_indx] = np.NaN
-            self._mod_tri = self._mod_tri.dropna(axis=0, how="all").dropna(axis=1, how="all")
+                mod_tri.at[r_indx, c_indx] = np.NaN
+            self._mod_tri = mod_tri.dropna(axis=0, how="all").dropna(axis=1, how="all")
         return(self._mod_tri)
 
 
diff --git a/trikit/triangle.py b/trikit/triangle.py
index 3d12596..5613b1c 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -148,12 +148,13 @@ class _BaseTriangle(pd.DataFrame):
         pd.DataFrame
         """
         if self._triind is None:
-            self._triind = pd.DataFrame(columns=self.columns, index=self.index)
-            self._triind.iloc[:, :] = 0
+            triind = pd.DataFrame(columns=self.columns, index=self.index)
+            triind.iloc[:, :] = 0
             for devp in self.clvi.index:
                 last_actual_origin = self.clvi[self.clvi.index == devp].origin.values[0]
                 last_actual_offset = self.clvi[self.clvi.origin == last_actual_origin].row_offset.values[0]
-                self._triind.iloc[(last_actual_offset + 1):, self.columns.get_loc(devp)] = 1
+                triind.iloc[(last_actual_offset + 1):, self.columns.get_loc(devp)] = 1
+            self._triind = triind
         return(self._triind)
 
 
@@ -167,12 +168,13 @@ class _BaseTriangle(pd.DataFrame):
         pd.DataFrame
         """
         if self._rlvi is None:
-            self._rlvi = pd.DataFrame({
+            rlvi = pd.DataFrame({
                 "dev": self.apply(
                     lambda x: x.last_valid_index(), axis=1).values
                 }, index=self.index)
-            self._rlvi["col_offset"] = \
-                self._rlvi["dev"].map(lambda x: self.columns.get_loc(x))
+            rlvi["col_offset"] = \
+                rlvi["dev"].map(lambda x: self.columns.get_loc(x))
+            self._rlvi = rlvi
         return(self._rlvi)
 
 
@@ -186,12 +188,13 @@ class _BaseTriangle(pd.DataFrame):
         pd.DataFrame
         """
         if self._clvi is None:
-            self._clvi = pd.DataFrame({
+            clvi = pd.DataFrame({
                 "origin": self.apply(lambda v: v.last_valid_index(), axis=0).values
                 }, index=self.columns
                 )
-            self._clvi["row_offset"] = \
-                self._clvi["origin"].map(lambda v: self.index.get_loc(v))
+            clvi["row_offset"] = \
+                clvi["origin"].map(lambda v: self.index.get_loc(v))
+            self._clvi = clvi
         return(self._clvi)
 
 
@@ -212,9 +215,9 @@ class _BaseTriangle(pd.DataFrame):
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
                 {0: "dev", "index": "origin"}, axis=1)
-            self._latest = dflindx.merge(self._to_tbl(), on=["origin", "dev"]).rename(
+            latest = dflindx.merge(self._to_tbl(), on=["origin", "dev"]).rename(
                 {"value": "latest"}, axis=1)
-            self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
+            self._latest = latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
 
@@ -601,8 +604,8 @@ class _BaseCumTriangle(_BaseTriangle):
         pd.DataFrame
         """
         if self._a2a is None:
-            self._a2a = self.shift(periods=-1, axis=1) / self
-            self._a2a = self._a2a.dropna(axis=1, how="all").dropna(axis=0, how="all")
+            a2a = self.shift(periods=-1, axis=1) / self
+            self._a2a = a2a.dropna(axis=1, how="all").dropna(axis=0, how="all")
         return(self._a2a.sort_index())
 
 
@@ -725,11 +728,12 @@ class _BaseCumTriangle(_BaseTriangle):
         """
         # Bind reference to last valid index by column for self.tri.a2a.
         if self._a2a_lvi is None:
-            self._a2a_lvi = pd.DataFrame({
+            a2a_lvi = pd.DataFrame({
                 "origin": self.a2a.apply(lambda v: v.last_valid_index(), axis=0).values
             }, index=self.a2a.columns
             )
-            self._a2a_lvi["row_offset"] = self._a2a_lvi["origin"].map(lambda v: self.index.get_loc(v))
+            a2a_lvi["row_offset"] = a2a_lvi["origin"].map(lambda v: self.index.get_loc(v))
+            self._a2a_lvi = a2a_lvi
         return(self._a2a_lvi)
 
 
@@ -774,7 +778,7 @@ class _BaseCumTriangle(_BaseTriangle):
         pd.DataFrame
         """
         if self._a2a_assignment is None:
-            self._a2a_assignment = pd.DataFrame(columns=self.a2a.columns, index=self.a2a.index)
+            a2a_assignment = pd.DataFrame(columns=self.a2a.columns, index=self.a2a.index)
             dfmedian = self.a2a.median(axis=0)
             for devp in self.a2a.columns:
                 devp_median = dfmedian[devp]
@@ -782,11 +786,12 @@ class _BaseCumTriangle(_BaseTriangle):
                     origin = self.a2a.index[r_indx]
                     if not np.isnan(a2a):
                         if np.allclose(a2a, devp_median):
-                            self._a2a_assignment.at[origin, devp] = 0
+                            a2a_assignment.at[origin, devp] = 0
                         elif a2a > devp_median:
-                            self._a2a_assignment.at[origin, devp] = 1
+                            a2a_assignment.at[origin, devp] = 1
                         else:
-                            self._a2a_assignment.at[origin, devp] = -1
+                            a2a_assignment.at[origin, devp] = -1
+            self._a2a_assignment = a2a_assignment
         return(self._a2a_assignment)
 
 
-- 
2.43.0


From c10b98cf1c0bece06aa5704d00b3acb4502fd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 05/36] fix: don't hand out references to cached tables

Editing a table returned by a triangle (latest, triind, rlvi, clvi, a2a_lvi,
ranked_a2a, a2a_assignment) or by a bootstrap result (origin_dist) silently
changed every later estimate. Only a2aind is documented as editable in place.
---
 trikit/estimators/bootstrap.py |  2 +-
 trikit/triangle.py             | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 1fddc4f..1eff248 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -916,7 +916,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
             dist_columns = ["latest", "ultimate", "reserve"]
             self._origin_dist = self.reserve_dist.groupby(
                 ["sim", "origin"], as_index=False)[dist_columns].sum()
-        return(self._origin_dist)
+        return(self._origin_dist.copy())
 
 
     @property
diff --git a/trikit/triangle.py b/trikit/triangle.py
index 5613b1c..20fae22 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -155,7 +155,7 @@ class _BaseTriangle(pd.DataFrame):
                 last_actual_offset = self.clvi[self.clvi.origin == last_actual_origin].row_offset.values[0]
                 triind.iloc[(last_actual_offset + 1):, self.columns.get_loc(devp)] = 1
             self._triind = triind
-        return(self._triind)
+        return(self._triind.copy())
 
 
     @property
@@ -175,7 +175,7 @@ class _BaseTriangle(pd.DataFrame):
             rlvi["col_offset"] = \
                 rlvi["dev"].map(lambda x: self.columns.get_loc(x))
             self._rlvi = rlvi
-        return(self._rlvi)
+        return(self._rlvi.copy())
 
 
     @property
@@ -195,7 +195,7 @@ class _BaseTriangle(pd.DataFrame):
             clvi["row_offset"] = \
                 clvi["origin"].map(lambda v: self.index.get_loc(v))
             self._clvi = clvi
-        return(self._clvi)
+        return(self._clvi.copy())
 
 
     @property
@@ -218,7 +218,7 @@ class _BaseTriangle(pd.DataFrame):
             latest = dflindx.merge(self._to_tbl(), on=["origin", "dev"]).rename(
                 {"value": "latest"}, axis=1)
             self._latest = latest[["origin", "dev", "latest"]].sort_index()
-        return(self._latest)
+        return(self._latest.copy())
 
 
     @property
@@ -734,7 +734,7 @@ class _BaseCumTriangle(_BaseTriangle):
             )
             a2a_lvi["row_offset"] = a2a_lvi["origin"].map(lambda v: self.index.get_loc(v))
             self._a2a_lvi = a2a_lvi
-        return(self._a2a_lvi)
+        return(self._a2a_lvi.copy())
 
 
     @property
@@ -760,7 +760,7 @@ class _BaseCumTriangle(_BaseTriangle):
                 rank_list.append(r_ii)
                 rank_list.append(s_ii)
             self._ranked_a2a = pd.concat(rank_list[1:-1], axis=1).dropna(how="all")
-        return(self._ranked_a2a)
+        return(self._ranked_a2a.copy())
 
 
     @property
@@ -792,7 +792,7 @@ class _BaseCumTriangle(_BaseTriangle):
                         else:
                             a2a_assignment.at[origin, devp] = -1
             self._a2a_assignment = a2a_assignment
-        return(self._a2a_assignment)
+        return(self._a2a_assignment.copy())
 
 
 
-- 
2.43.0


From 801413a9e20d94da6fa763d945d3995619578a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 06/36] fix: base_cl no longer appends the tail factor to the
 caller's ldf Series

---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4d42209..5c33235 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,7 +103,8 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to sel.
+                # Append tail factor to a copy of sel.
+                sel = sel.copy()
                 increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
                 sel.loc[sel.index.max() + increment] = tail
 
-- 
2.43.0


From b89317e347ba18821e91fda2244ad85057a601b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 07/36] fix: medial average of no link ratios is NaN instead of
 IndexError

Excluding every link ratio of a development period through a2aind made
a2a_avgs, and with it base_cl and boot_cl, raise.
---
 trikit/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 20fae22..ccb2701 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -570,7 +570,10 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Return first element of arr_all if all array elements are the same.
         arr_all = np.sort(np.asarray(vals, dtype=float))
-        if np.all(arr_all == arr_all[0]):
+        if arr_all.shape[0] == 0:
+            avg = np.NaN
+
+        elif np.all(arr_all == arr_all[0]):
             avg = arr_all[0]
 
         elif arr_all.shape[0] == 1:
-- 
2.43.0


From 5ce32bab35398e64f37862e11a9c4be6caceb5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 08/36] fix: volume-weighted averages honour link ratios
 excluded through a2aind

Excluded link ratios were dropped from the simple, geometric and medial
averages only, so base_cl with its default selection ignored the exclusion.
---
 trikit/triangle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index ccb2701..23a9a5d 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -825,7 +825,8 @@ class _BaseCumTriangle(_BaseTriangle):
             ]
 
         _a2a_avgs = pd.DataFrame(index=indxstrs, columns=self.a2a.columns)
-        a2a_adj = self.a2a * self.a2aind
+        a2aind = self.a2aind.copy()
+        a2a_adj = self.a2a * a2aind
 
         for a in enumerate(ldf_avg_lst):
             duration, avgtype, indxpos = a[1][1], a[1][0], a[0]
@@ -837,6 +838,7 @@ class _BaseCumTriangle(_BaseTriangle):
                 if avgtype == 'weighted':
 
                     t_ic_1, t_ic_2 = self.iloc[:, col], self.iloc[:, (col + 1)]
+                    incl = a2aind.iloc[:, col].reindex(self.index, fill_value=0)
                     # Find first NaN value in t_ic_2.
                     first_nan_year = t_ic_2.index[t_ic_2.count():][0]
                     first_nan_indx = t_ic_2.index.searchsorted(first_nan_year)
@@ -848,8 +850,8 @@ class _BaseCumTriangle(_BaseTriangle):
                             (final_cell_indx - duration) >= 0 else 0
 
                     # Divide sum of t_ic_2 by t_ic_1.
-                    sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
-                    sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_2 = (t_ic_2 * incl)[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_1 = (t_ic_1 * incl)[first_cell_indx:final_cell_indx].sum()
 
                     try:
                         iteravg = (sum_ic_2 / sum_ic_1)
-- 
2.43.0


From 0641a646cb9e702594c2fffc4c70e0eef8a2098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 09/36] fix: concurrent first accesses to a2aind share one
 table

A thread that was still computing the initial table could replace the one to
which another thread had already applied an exclusion, losing it.
---
 trikit/triangle.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 23a9a5d..8d849dd 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -7,6 +7,7 @@ instance of ``CumTriangle`` or ``IncrTriangle``, depending on the argument
 specified for ``type_``.
 """
 import itertools
+import threading
 import numpy as np
 import pandas as pd
 from scipy import stats
@@ -16,6 +17,10 @@ from .estimators.mack import MackChainLadder
 from .estimators.glm import GLMEstimator
 
 
+# Ensures that concurrent first accesses to ``a2aind`` share a single table.
+_a2aind_lock = threading.Lock()
+
+
 class _BaseTriangle(pd.DataFrame):
     """
     Transforms ``data`` into a triangle instance.
@@ -624,7 +629,10 @@ class _BaseCumTriangle(_BaseTriangle):
         pd.DataFrame
         """
         if self._a2aind is None:
-            self._a2aind = self.a2a.map(lambda v: 0 if np.isnan(v) else 1)
+            a2aind = self.a2a.map(lambda v: 0 if np.isnan(v) else 1)
+            with _a2aind_lock:
+                if self._a2aind is None:
+                    self._a2aind = a2aind
         return(self._a2aind)
 
 
-- 
2.43.0


From 427d0495df9ef3ed7e6ae0da75d4a61b8942d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 10/36] fix: bootstrap triangles whose first development period
 isn't labelled 1

The first incremental loss of each simulated origin was recognised by dev == 1,
so it was counted at a later period (amw09, labelled from 0) or dropped
(12, 24, 36, ...), distorting or losing the simulated reserves.
---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 1eff248..1874e1a 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -597,7 +597,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             columns={"cum_final": "samp_cum"})
         dfsqrd = pd.concat([dffcst, dfacts], sort=True).sort_values(
             by=["sim", "origin", "dev"])
-        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == 1) * 1
+        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == dfsqrd["dev"].values.min()) * 1
         dfsqrd["_incr_dev1"] = dfsqrd["_dev1_ind"].values * dfsqrd["samp_cum"].values
         dfsqrd["_incr_dev2"] = dfsqrd.groupby(["sim", "origin"])["samp_cum"].diff(periods=1)
         dfsqrd["_incr_dev2"] = np.where(
-- 
2.43.0


From 054bc5d31f3b3cee3ec6e92c94418c5c2655aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 11/36] fix: scale resampled residuals by sqrt(|m|) for
 negative fitted increments

The residuals themselves are scaled by sqrt(|m|); taking the square root of the
signed amount turned every simulation of such a triangle into NaN.
---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 1874e1a..550d676 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -487,7 +487,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
-        dfp["incr_sqrt"] = np.sqrt(dfp["incr"].values)
+        dfp["incr_sqrt"] = np.sqrt(np.abs(dfp["incr"].values))
         dfrtypes = {"origin": int, "dev": int, "incr": float,
                    "incr_sqrt": float, "rectype": str}
         dfrcols = ["origin", "dev", "incr", "rectype", "incr_sqrt"]
-- 
2.43.0


From 70a1283d9d561c68ce51f4a71115509ce2bf7157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 12/36] fix: resolve random_state as documented

NumPy integers and other values raised UnboundLocalError, and None used a fresh
generator instead of the one behind np.random, so that np.random.seed did not
make an unseeded bootstrap reproducible.
---
 trikit/estimators/bootstrap.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 550d676..9d5f118 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -5,11 +5,28 @@ import functools
 import warnings
 import numpy as np
 import pandas as pd
+from numbers import Integral
 from numpy.random import RandomState
 from scipy import stats
 from .base import BaseRangeEstimator, BaseRangeEstimatorResult
 
 
+def _get_prng(random_state=None):
+    """
+    Return the random number generator specified by ``random_state``: the one
+    used by np.random if None, a new one seeded with ``random_state`` if an
+    integer, or ``random_state`` itself if it is a RandomState instance.
+    """
+    if random_state is None:
+        return(np.random.mtrand._rand)
+    elif isinstance(random_state, Integral):
+        return(RandomState(int(random_state)))
+    elif isinstance(random_state, RandomState):
+        return(random_state)
+    raise ValueError("Invalid random_state specification: `{}`.".format(random_state))
+
+
+
 class BootstrapChainLadder(BaseRangeEstimator):
     """
     The purpose of the bootstrap technique is to estimate the predicition
@@ -463,13 +480,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        if random_state is not None:
-            if isinstance(random_state, int):
-                prng = RandomState(random_state)
-            elif isinstance(random_state, RandomState):
-                prng = random_state
-        else:
-            prng = RandomState()
+        prng = _get_prng(random_state)
 
         sampling_dist = sampling_dist.flatten()
         fti = fitted_tri_incr.reset_index(drop=False).rename({"index": "origin"}, axis=1)
@@ -652,13 +663,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         # Initialize pseudo random number generator.
-        if random_state is not None:
-            if isinstance(random_state, int):
-                prng = RandomState(random_state)
-            elif isinstance(random_state, RandomState):
-                prng = random_state
-        else:
-            prng = RandomState()
+        prng = _get_prng(random_state)
 
         # Parameterize distribution for the incorporation of process variance.
         if procdist.strip().lower() == "gamma":
-- 
2.43.0


From 2a501e4d7e85b586a96ca2be81b92b47c7a0325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 13/36] fix: residuals_detail works with SciPy releases whose
 mode is a scalar

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 9d5f118..af3c075 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -948,7 +948,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 unscaled_max = unscaled.max(axis=0)
                 unscaled_mean = unscaled.mean(axis=0)
                 unscaled_skew = stats.skew(unscaled, axis=0, nan_policy="omit")
-                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode[0]
+                unscaled_mode = np.ravel(stats.mode(unscaled, axis=0, nan_policy="omit").mode)[0]
                 unscaled_cvar = stats.variation(unscaled, axis=0, nan_policy="omit")
                 unscaled_kurt = stats.kurtosis(unscaled, axis=0, nan_policy="omit")
                 unscaled_var = unscaled.var(ddof=1, axis=0)
@@ -961,7 +961,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 adjusted_max = adjusted.max(axis=0)
                 adjusted_mean = adjusted.mean(axis=0)
                 adjusted_skew = stats.skew(adjusted, axis=0, nan_policy="omit")
-                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode[0]
+                adjusted_mode = np.ravel(stats.mode(adjusted, axis=0, nan_policy="omit").mode)[0]
                 adjusted_cvar = stats.variation(adjusted, axis=0, nan_policy="omit")
                 adjusted_kurt = stats.kurtosis(adjusted, axis=0, nan_policy="omit")
                 adjusted_var = adjusted.var(ddof=1, axis=0)
-- 
2.43.0


From 0cff740aa36776417831bd6efa3d12de00a846e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 14/36] fix: hist no longer adds a column to the result's
 reserve_dist

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index af3c075..cc314db 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1332,7 +1332,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         # data1 = data0.groupby("sim", as_index=False)[["reserve"]].sum()
         # data1["origin"] ="total"
         # data = pd.concat([data0, data1])
-        data = self.reserve_dist
+        data = self.reserve_dist.copy()
 
         # Get mean, min and max ultimate and reserve by origin.
         med_data = data.groupby("origin", as_index=False)[["reserve"]].median().rename(
-- 
2.43.0


From 135419bc01d6f33d1dcd37290c98084a35b20af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 15/36] fix: bootstrap result plot raised TypeError for its
 two-sided interval

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index cc314db..c6311d7 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1204,7 +1204,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        qtls, qtlhdrs = self._qtls_formatter(q=q, two_sided=True)
+        qtls, qtlhdrs = self._qtls_formatter(q=[(1 - q) / 2, (1 + q) / 2])
         data = self._bs_data_transform(qtls, qtlhdrs).dropna(how="any", subset=["loss"])
 
         with sns.axes_style(axes_style):
-- 
2.43.0


From 02ab729208ccf7148521574d54ea407d8c7f40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 16/36] fix: Mack result plot uses the estimated reserve
 densities instead of raising KeyError

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 02a9b51..fe7e5b5 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -904,7 +904,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        data = self._data_transform()
+        data = self._mack_data_transform()
 
         with sns.axes_style(axes_style):
             qtls, qtlhdrs = self._qtls_formatter(q)
-- 
2.43.0


From 53156ba3a51bd3e12f6a72d4aae95d9429467b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 17/36] fix: Mack diagnostics raised KeyError: devp

---
 trikit/estimators/mack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index fe7e5b5..a390fe8 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -1016,7 +1016,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
 
         # Upper right facet represents Chain Ladder development paths (trisqrd).
         for ii, hex_color, dforg in zip(range(len(colors_hex)), colors_hex, data_list):
-            xx = dforg["devp"].values
+            xx = dforg["dev"].values
             yy = dforg["value"].values
             marker = self._markers[ii % len(self._markers)]
             yy_divisor = 1  # 1000 if np.all(yy>1000) else 1
@@ -1035,8 +1035,8 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         ax[0, 1].set_xlabel("dev", fontsize=8)
         ax[0, 1].set_ylabel(yy_axis_label, fontsize=7)
         ax[0, 1].set_ylim(bottom=0)
-        ax[0, 1].set_xlim(left=cl_data["devp"].min())
-        ax[0, 1].set_xticks(np.sort(cl_data["devp"].unique()))
+        ax[0, 1].set_xlim(left=cl_data["dev"].min())
+        ax[0, 1].set_xticks(np.sort(cl_data["dev"].unique()))
         ax[0, 1].tick_params(axis="x", which="major", direction="in", labelsize=6)
         ax[0, 1].tick_params(axis="y", which="major", direction="in", labelsize=6)
         ax[0, 1].xaxis.set_ticks_position("none")
-- 
2.43.0


From c1e8e4b84dda333cadfd33e167833aa07cb44658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 18/36] fix: faceted triangle view raised ValueError parsing
 its own tick labels

---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8d849dd..1c18a12 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1112,9 +1112,7 @@ class CumTriangle(_BaseCumTriangle):
             for ii, _ in enumerate(g.axes):
                 ax_ = g.axes[ii]
 
-                ylabelss = [jj.get_text() for jj in list(ax_.get_yticklabels())]
-                ylabelsn = [float(jj.replace(u"\u2212", "-")) for jj in ylabelss]
-                ylabelsn = [jj for jj in ylabelsn if jj >= 0]
+                ylabelsn = [jj for jj in ax_.get_yticks() if jj >= 0]
                 ylabels = ["{:,.0f}".format(jj) for jj in ylabelsn]
                 if (len(ylabels) > 0):
                     ax_.set(yticks=ylabelsn)
-- 
2.43.0


From dd2ecf7f18e97052d59cca1f6ac8c3e1dd3e1c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 19/36] fix: chain ladder plot drew empty panels

---
 trikit/estimators/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 5c33235..d8a0df9 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -538,6 +538,7 @@ class BaseChainLadderResult:
                 sharey=False, hue_order=["forecast", "actual"]
                 )
 
+            grid.map(plt.plot, "dev", "loss")
             devp_xticks = np.sort(data.dev.unique())
             devp_xticks_str = [
                 str(ii) if ii != devp_xticks.max() else "ult" for ii in devp_xticks
-- 
2.43.0


From f6e9a3b4a0cbfb1ee8e38a1c081e5196bae7536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 20/36] fix: devp_corr_test no longer draws from NumPy's global
 generator

The root search started from np.random.rand(), which advanced the caller's
random stream and made the interval depend on it.
---
 trikit/estimators/mack.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index a390fe8..e108337 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -6,7 +6,6 @@ import numpy as np
 import pandas as pd
 from scipy import special
 from scipy.stats import norm, lognorm
-from scipy.optimize import root
 from .base import BaseRangeEstimator, BaseRangeEstimatorResult
 
 
@@ -692,11 +691,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         -------
         tuple
         """
-        def fnorm(x, p):
-            return(norm.cdf(x) - norm.cdf(-x) - p)
-
-        f = functools.partial(fnorm, p=p)
-        z = root(f, np.random.rand()).x.item()
+        z = norm.ppf((1 + p) / 2).item()
         s = np.sqrt(self._devp_corr_test_var())
         return((-z / s, z / s), self._spearman_corr_total())
 
-- 
2.43.0


From 6b17474d6a80e1d281b75d6da1e36aa8bbc156d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 21/36] fix: quantiles by development period raised TypeError,
 so no bootstrap plot was produced

---
 trikit/estimators/bootstrap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index c6311d7..146fafa 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1073,12 +1073,12 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
 
         dflist = []
         for ii, jj in zip(qtls, qtlhdrs):
-            dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).aggregate(
-                "quantile", q=ii, method="linear").rename(
+            dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).quantile(
+                q=ii, interpolation="linear").rename(
                 {"ultimate": jj}, axis=1
                 )
-            dftotal_qtl = dftotal.aggregate(
-                "quantile", q=ii, method="linear").rename({"ultimate": jj},
+            dftotal_qtl = dftotal.quantile(
+                q=ii, interpolation="linear").rename({"ultimate": jj},
                 axis=1
                 )
             dflist.append(pd.concat([dfqtl, dftotal_qtl]))
-- 
2.43.0


From 882034dd336ee9fbaedb62b6f85a29a20cb82608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 22/36] fix: triangles keep their attributes when pickled

A triangle restored from a pickle, or sent to another process, raised
AttributeError on first use and had lost its link ratio exclusions.
---
 trikit/triangle.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 1c18a12..4e20642 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -43,6 +43,13 @@ class _BaseTriangle(pd.DataFrame):
     value: str
         The fieldname in ``data`` representing loss amounts.
     """
+    # Attributes to retain when instance is pickled.
+    _metadata = [
+        "origin", "dev", "value", "_latest_by_origin", "_latest_by_devp",
+        "_nbr_cells", "_maturity", "_triind", "_devp", "_latest", "_origins",
+        "_rlvi", "_clvi", "_dof",
+        ]
+
     def __init__(self, data, origin=None, dev=None, value=None):
 
         self._validate(data, origin=origin, dev=dev, value=value)
@@ -477,6 +484,11 @@ class _BaseCumTriangle(_BaseTriangle):
     value: str
         The fieldname in ``data`` representing incremental loss amounts.
     """
+    # Attributes to retain when instance is pickled.
+    _metadata = _BaseTriangle._metadata + [
+        "_a2a_assignment", "_ranked_a2a", "_a2a_lvi", "_weights", "_a2aind", "_a2a",
+        ]
+
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
         self._validate(data, origin=origin, dev=dev, value=value)
-- 
2.43.0


From 64c823e48acef135c42047a851fa4275d87f40b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 23/36] fix: Mack process error and total standard error for
 alpha other than 1

Both used the variance assumption of alpha=1 regardless of alpha (Mack 1999
assumes Var(F_ik) = sigma_k^2 / C_ik^alpha), so alpha=2 reported standard errors
of many times the reserve; the total also ignored excluded link ratios.
---
 trikit/estimators/mack.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index e108337..a952ccc 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -120,7 +120,7 @@ class MackChainLadder(BaseRangeEstimator):
         devpvar = self._devp_variance(ldfs=ldfs, alpha=alpha)
         ldfvar = self._ldf_variance(devpvar=devpvar, alpha=alpha)
         proc_error = pd.Series(
-            self._process_error(ldfs=ldfs, devpvar=devpvar).iloc[:, -1].replace(np.NaN, 0),
+            self._process_error(ldfs=ldfs, devpvar=devpvar, alpha=alpha).iloc[:, -1].replace(np.NaN, 0),
             name="process_error", dtype=float
             )
         param_error = pd.Series(
@@ -163,15 +163,12 @@ class MackChainLadder(BaseRangeEstimator):
         # Compute mse for aggregate reserve.
         n = self.tri.devp.size
         mse_total = pd.Series(index=dfsumm.index[:-1], dtype=float)
-        quotient = pd.Series(devpvar / ldfs**2, dtype=float).reset_index(drop=True)
+        quotient = pd.Series(ldfvar / ldfs**2, dtype=float).reset_index(drop=True)
         quotient.index = quotient.index + 1
         for indx, ii in enumerate(mse_total.index[1:], start=2):
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
-            rh_sum = sum(
-                quotient[jj] / sum(trisqrd.loc[mm, jj]
-                    for mm in range(1, (n - jj) + 1)) for jj in range(n + 1 - indx, n)
-                    )
+            rh_sum = sum(quotient[jj] for jj in range(n + 1 - indx, n))
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
 
         # Reset trisqrd columns and index back to original values.
@@ -333,7 +330,7 @@ class MackChainLadder(BaseRangeEstimator):
         return(devpvar)
 
 
-    def _process_error(self, ldfs, devpvar):
+    def _process_error(self, ldfs, devpvar, alpha=1):
         """
         Return a triangle-shaped DataFrame containing elementwise process
         error. To obtain the process error for a given origin period,
@@ -350,6 +347,9 @@ class MackChainLadder(BaseRangeEstimator):
             :math:`\\hat{\\sigma}^{2}_{k}` in the literature. For a triangle with
             n development periods, devpvar will contain n-1 elements.
 
+        alpha: {0, 1, 2}
+            The variance of a link ratio is ``devpvar / C**alpha``.
+
         Returns
         -------
         pd.DataFrame
@@ -375,10 +375,10 @@ class MackChainLadder(BaseRangeEstimator):
             latest_devp = latest[latest["origin"] == ii]["dev"].item()
             latest_cum = trisqrd.at[ii, latest_devp]
             kk0 = n + 2 - ii
-            dfpe.at[ii, kk0] = latest_cum * devpvar.iloc[kk0 - 2]
+            dfpe.at[ii, kk0] = latest_cum**(2 - alpha) * devpvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
-                term1 = trisqrd.at[ii, kk - 1] * devpvar.iloc[kk - 2]
+                term1 = trisqrd.at[ii, kk - 1]**(2 - alpha) * devpvar.iloc[kk - 2]
                 dfpe.at[ii, kk] = term0 + term1
 
         # Re-index dfpe to match self.tri.
-- 
2.43.0


From 6f3039e903518a9d9169316e44f4f010e03fc518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 24/36] fix: residuals_detail no longer hands out a reference
 to its cached table

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 146fafa..c84f7fa 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -988,7 +988,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                         ]
                     )
 
-        return(self._residuals_detail)
+        return(None if self._residuals_detail is None else self._residuals_detail.copy())
 
 
     def _bs_data_transform(self, qtls, qtlhdrs):
-- 
2.43.0


From 7e1ced2c18707573b70bb209a0285affb6a2cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 25/36] fix: bootstrap result keeps its own copy of the
 requested quantiles

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index c84f7fa..97c45da 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -891,7 +891,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         self.procdist = procdist
         self.sims = sims
         self.dof = dof
-        self.q = q
+        self.q = q.copy() if hasattr(q, "copy") else q
 
         if kwargs is not None:
             for kk in kwargs:
-- 
2.43.0


From d121cb663e8a20ff4fac37a1aa0f49a7271dab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 26/36] fix: cumulative triangles of a value field named cumval

---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 4e20642..42038b9 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -499,9 +499,7 @@ class _BaseCumTriangle(_BaseTriangle):
         # Accumulate in development period order over a single record per cell.
         data = data.groupby([origin, dev], as_index=False)[value].sum(min_count=1)
         data = data.sort_values(by=[origin, dev]).reset_index(drop=True)
-        data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
-        data = data.drop(value, axis=1)
-        data = data.rename(columns={"cumval": value})
+        data[value] = data.groupby([origin], as_index=False)[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
         # Properties.
-- 
2.43.0


From ccfd737399d7e19f7099b95319a8d3276f4611ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 27/36] fix: y axis ticks for maximum losses of 1 or less, of
 powers of ten and from 1e11

_get_yticks raised ValueError for these, so base and bootstrap plots of such
triangles failed.
---
 trikit/estimators/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index d8a0df9..4f3a3f7 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -347,8 +347,10 @@ class BaseChainLadderResult:
         -------
         tuple of ndarrays
         """
-        ref_divs = np.power(10, np.arange(10))
-        div_index = np.where((x / ref_divs) > 1)[0].max()
+        ref_divs = np.power(10., np.arange(-10, 21))
+        # Use the unit axis when there are no positive losses to display.
+        x = x if x >= ref_divs[0] else .5
+        div_index = np.where((x / ref_divs) >= 1)[0].max()
         x_div = ref_divs[div_index]
 
         # Find upper limit for y-axis given origin_max_val.
-- 
2.43.0


From dd3b476402b0dad48ba408fc9d8a24e6f6542602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 28/36] fix: lognormal reserve distributions for reserves below
 1

The logarithm of the reserve was clipped at 0, so that every reserve below 1
(losses recorded in millions, say) had the quantiles of a reserve of 1.
---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index a952ccc..908aad3 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -183,7 +183,7 @@ class MackChainLadder(BaseRangeEstimator):
         elif dist == "lognorm":
             with np.errstate(divide="ignore"):
                 std_params = np.sqrt(np.log(1 + (dfsumm["std_error"] / dfsumm["reserve"])**2)).replace(np.NaN, 0)
-                mean_params = np.clip(np.log(dfsumm["reserve"]), a_min=0, a_max=None) - .50 * std_params**2
+                mean_params = np.log(dfsumm["reserve"]).replace(-np.inf, 0) - .50 * std_params**2
                 rv_list = [lognorm(scale=np.exp(ii), s=jj) for ii, jj in zip(mean_params, std_params)]
         else:
             raise ValueError(
-- 
2.43.0


From d3dcb856904e953af35f2b3e79393fc2c6d5c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 29/36] fix: Mack plot labelled facets with the wrong origin

When the reserve of an origin is negative it has no lognormal distribution and
no facet: all following facets were annotated with their predecessor's origin,
mean and quantiles.
---
 trikit/estimators/mack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 908aad3..4af24a6 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -911,7 +911,8 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             grid.set_axis_labels("", "")
             grid.map(plt.plot, "x", "y", color=dist_color, linewidth=1.25)
 
-            for origin, ax_ii in zip(self.rvs.index[1:], grid.axes):
+            # Origins without a reserve distribution have no facet.
+            for origin, ax_ii in zip(data["origin"].unique(), grid.axes):
                 # Determine reserve estimate at mean and specified quantiles.
                 rv_ii = self.rvs[origin]
                 with np.errstate(invalid="ignore"):
-- 
2.43.0


From 77920404adc0b6e7f74e2180d5a11ed216d9509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 30/36] fix: tail factor was lost when development periods
 aren't equally spaced

It was labelled with the period following the last link ratio by the smallest
spacing, or by the (negative) spacing of a Series not in period order, rather
than with the last development period.
---
 trikit/estimators/base.py | 6 ++----
 trikit/estimators/mack.py | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4f3a3f7..83eae54 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -105,8 +105,7 @@ class BaseChainLadder:
 
                 # Append tail factor to a copy of sel.
                 sel = sel.copy()
-                increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
-                sel.loc[sel.index.max() + increment] = tail
+                sel.loc[self.tri.columns[-1]] = tail
 
             elif isinstance(sel, (Sequence, np.ndarray)):
                 sel = np.asarray(sel, dtype=float)
@@ -173,8 +172,7 @@ class BaseChainLadder:
         """
         # Determine index for tail factor.
         ldfs = self.tri.a2a_avgs().loc[sel]
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.columns[-1]] = tail
         return(pd.Series(ldfs, name="ldf").sort_index())
 
 
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 4af24a6..e61b0c1 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -263,8 +263,7 @@ class MackChainLadder(BaseRangeEstimator):
         """
         C, w = self.mod_tri, self.mod_a2aind
         ldfs = (self.tri.a2a * w * C**alpha).sum(axis=0) / (w * C**alpha).sum(axis=0)
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.columns[-1]] = tail
         return(ldfs)
 
 
-- 
2.43.0


From 3a40ad327f0df17babe38f0b66c193291464d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 31/36] fix: calendar year test raised ValueError unless
 periods are equally spaced

The spacings weren't used.
---
 trikit/estimators/mack.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index e61b0c1..a6c878b 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -741,8 +741,6 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dflvi = self.tri.a2a_lvi
         dfhl = self.tri.a2a_assignment
         dflvi = dflvi.reset_index(drop=False).rename({"index": "dev"}, axis=1)
-        devpinc = dflvi["dev"].diff(1).dropna().unique().item()
-        origininc = dflvi["origin"].diff(-1).dropna().unique().item()
         diag_indx = sorted(list(enumerate(dflvi["dev"].values[::-1], start=1)), key=lambda v: v[-1])
         dfhl2 = dfhl.reset_index(drop=False).rename({"index": "origin"}, axis=1).melt(
             id_vars=["origin"], var_name=["dev"]).dropna(subset=["value"])
-- 
2.43.0


From d3bf3c45e235d66694b7da135b6f0c6388d5bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 32/36] fix: cumulative records were rejected if a field was
 named cum or incr, or the index like a field

---
 trikit/triangle.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 42038b9..90bd9a4 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1418,12 +1418,12 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.groupby([origin, dev], as_index=False)[value].sum(min_count=1)
+            df = data.reset_index(drop=True)
+            df = df.groupby([origin, dev], as_index=False)[value].sum(min_count=1)
             df = df.dropna(subset=[value])
-            df = df.sort_values(by=[origin, dev]).rename({value: "cum"}, axis=1)
-            df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
-            df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-            df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
+            df = df.sort_values(by=[origin, dev])
+            incr = df.groupby([origin])[value].diff(periods=1)
+            df[value] = np.where(np.isnan(incr), df[value], incr)
         else:
             df = data
     else:
-- 
2.43.0


From cdd9c372d8a12aa358fb0179df158dccf2c0d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 33/36] fix: triangle-shaped data with named axes, or passed
 along with field names, raised

---
 trikit/triangle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 90bd9a4..40dedda 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1396,16 +1396,19 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     """
     if data_shape == "triangle":
 
+        # Field names are irrelevant to triangle-shaped data.
+        origin, dev, value = "origin", "dev", "value"
+
         if data_format.lower().strip().startswith("i"):
             # data is in incremental triangle format (but not typed as such).
-            incrtri = data.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+            incrtri = data.rename_axis(index="origin", columns=None).reset_index(drop=False)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
             incrtri = data.ffill(axis=1).fillna(0).diff(axis=1).where(data.notnull())
             incrtri.iloc[:, 0] = data.iloc[:, 0]
-            incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+            incrtri = incrtri.rename_axis(index="origin", columns=None).reset_index(drop=False)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
 
-- 
2.43.0


From 26ab74414a4b247b01300b6ff0328d5150dec4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 34/36] fix: cumulative triangle-shaped data was differenced in
 column order instead of period order

---
 trikit/triangle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 40dedda..d2ce936 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1406,6 +1406,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
+            data = data.sort_index(axis=1, key=lambda v: v.astype(int))
             incrtri = data.ffill(axis=1).fillna(0).diff(axis=1).where(data.notnull())
             incrtri.iloc[:, 0] = data.iloc[:, 0]
             incrtri = incrtri.rename_axis(index="origin", columns=None).reset_index(drop=False)
-- 
2.43.0


From 34005ceabeef99add573468bebbf3257b63a2c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 35/36] fix: triangle classes rejected records whose index is
 named like a field

---
 trikit/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index d2ce936..847eded 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -59,7 +59,7 @@ class _BaseTriangle(pd.DataFrame):
 
         # Aggregate before handling first development period values, so that
         # the result doesn't depend on how losses are split over records.
-        data2 = data[[origin_, dev_, value_]]
+        data2 = data[[origin_, dev_, value_]].reset_index(drop=True)
         data2 = data2.groupby([origin_, dev_], as_index=False).sum(min_count=1)
         data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
@@ -497,6 +497,7 @@ class _BaseCumTriangle(_BaseTriangle):
         value = "value" if value is None else value
 
         # Accumulate in development period order over a single record per cell.
+        data = data.reset_index(drop=True)
         data = data.groupby([origin, dev], as_index=False)[value].sum(min_count=1)
         data = data.sort_values(by=[origin, dev]).reset_index(drop=True)
         data[value] = data.groupby([origin], as_index=False)[value].cumsum()
-- 
2.43.0


From 5462d1ffd9b371294dd9dc69c6ba3f5f00a7d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:22 +0000
Subject: [PATCH 36/36] fix: bootstrap of losses without development returned
 NaN

Cumulating and differencing can leave a cell without loss an ulp away from
0. Divided by a fitted amount of 0 this gave an infinite residual, an infinite
scale parameter, and NaN simulations.
---
 trikit/estimators/bootstrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 97c45da..0a8c723 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -398,7 +398,9 @@ class BootstrapChainLadder(BaseRangeEstimator):
         # I represents actual incremental losses, m fitted incremental losses.
         I = pd.DataFrame(self.tri.to_incr())
         m = fitted_tri_incr
-        return((I - m) / np.sqrt(m.abs()))
+
+        # There is no residual where the fitted amount is 0.
+        return(((I - m) / np.sqrt(m.abs())).where(m != 0))
 
 
     def _resid_adj(self, resid_us):
-- 
2.43.0

