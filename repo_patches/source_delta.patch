From d1e037311af162e38677f8a857b4fdda29c52175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 01/38] fix: place semi-annual development dates in the
 half-year they close

A '2Q' period starts at the quarter its date falls in, so a half-year-end
date was pushed three months late (or off the axis, raising ValueError).
---
 chainladder/core/base.py     | 4 ++--
 chainladder/core/triangle.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index 122e878..cf0f3d8 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -191,8 +191,8 @@ class TriangleBase(
             freq=development_grain,
         ).to_timestamp(how="e")
 
-        # If the development is semi-annual, we need to adjust further because of "2Q-DEC"
-        if development_grain == "2Q-DEC":
+        # If the development is semi-annual, we need to adjust further because of "2Q"
+        if development_grain.startswith("2Q"):
             from pandas.tseries.offsets import DateOffset
 
             d = d + DateOffset(months=-3)
diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 55303c3..bf448f8 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -155,8 +155,10 @@ class Triangle(TriangleBase):
             how="s"
         )
 
+        # A "2Q" period spans two quarters from the one its date falls in, while a
+        # semi-annual development date already falls in the last quarter of its half
         development_date = development_date.dt.to_period(
-            self.development_grain
+            self.development_grain.replace("2Q", "Q")
         ).dt.to_timestamp(how="e")
 
         # Aggregate dates to the origin/development grains
-- 
2.43.0


From aef24ee20aa509167dd64d3c16e59f009d92d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 02/38] fix: blank future cells of triangles with one origin or
 one age

nan_triangle returned all ones for any triangle with a length-one axis, so
cum_to_incr of a single-origin or two-age triangle put minus the latest
amount in the first future cell.
---
 chainladder/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index cf0f3d8..339aba3 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -211,7 +211,7 @@ class TriangleBase(
         This becomes useful when managing array arithmetic.
         """
         xp = self.get_array_module()
-        if min(self.values.shape[2:]) == 1:
+        if self.is_pattern and min(self.values.shape[2:]) == 1:
             return xp.ones(self.values.shape[2:], dtype="float16")
         val_array = np.array(self.valuation).reshape(self.shape[-2:], order="f")
         nan_triangle = np.array(pd.DataFrame(val_array) > self.valuation_date)
-- 
2.43.0


From 17db5ca632a3ce8079e86f3df7d2a956f5ea349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 03/38] fix: keep ages when moving slices between development
 and valuation views

Cells were shifted by a fixed number of positions, so a valuation slice
converted to development got ages too old by the origins it spans
(raa.dev_to_val().iloc[..., -3:]), and late-age, one-age or
every-other-origin slices landed off the axis.
---
 chainladder/core/triangle.py | 53 ++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index bf448f8..60c161c 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -532,29 +532,33 @@ class Triangle(TriangleBase):
         obj = self.set_backend("sparse")
         if not inplace:
             obj.values = obj.values.copy()
-        scale = self._dstep()[obj.development_grain][obj.origin_grain]
-        offset = np.arange(obj.shape[-2]) * scale
-        min_slide = -offset.max()
-        if (obj.values.coords[-2] == np.arange(1)).all():
-            # Unique edge case #239
-            offset = offset[-1:] * sign
-        offset = offset[obj.values.coords[-2]] * sign  # [0]
-        obj.values.coords[-1] = obj.values.coords[-1] + offset
-        ddims = obj.valuation[obj.valuation <= obj.valuation_date]
-        ddims = len(ddims.drop_duplicates())
-        if ddims == 1 and sign == -1:
-            ddims = len(obj.odims)
-        if obj.values.density > 0 and obj.values.coords[-1].min() < 0:
-            obj.values.coords[-1] = obj.values.coords[-1] - min(
-                obj.values.coords[-1].min(), min_slide
-            )
-            ddims = np.max([np.max(obj.values.coords[-1]) + 1, ddims])
+        # Elapsed development periods of each origin and age/valuation from the first
+        step = self._dstep()["M"][obj.development_grain]
+        months = lambda dates: pd.DatetimeIndex(dates).year * 12 + pd.DatetimeIndex(dates).month
+        origin, slide = months(obj.odims), 0
+        lags = months(obj.ddims) if sign == -1 else np.array(obj.ddims)
+        origin, lags = [np.array(i - i[0]) // step for i in (origin, lags)]
+        coords = obj.values.coords
+        coords[-1] = lags[coords[-1]] + origin[coords[-2]] * sign
+        if sign == 1:
+            known = obj.valuation <= obj.valuation_date
+            known = np.unique((origin[None] + lags[:, None]).flatten()[known])
+            coords[-1] = np.searchsorted(known, coords[-1])
+            ddims = len(known)
+        else:
+            if len(lags) == 1:
+                slide = -origin.max()
+            elif coords.shape[-1] > 0:
+                slide = min(coords[-1].min(), 0)
+            coords[-1] = coords[-1] - slide
+            ddims = len(obj.odims) if len(lags) == 1 else len(lags)
+            ddims = np.max([coords[-1].max(initial=0) + 1, ddims])
         obj.values.shape = tuple(list(obj.shape[:-1]) + [ddims])
         if options.AUTO_SPARSE == False or backend == "cupy":
             obj = obj.set_backend(backend)
         else:
             obj = obj._auto_sparse()
-        return obj
+        return obj, slide
 
     def dev_to_val(self, inplace=False):
         """Converts triangle from a development lag triangle to a valuation
@@ -588,7 +592,7 @@ class Triangle(TriangleBase):
                 obj = obj.iloc[..., :-1]
         else:
             obj = self
-        obj = obj._val_dev(1, inplace)
+        obj, _ = obj._val_dev(1, inplace)
         ddims = obj.valuation[obj.valuation <= obj.valuation_date]
         obj.ddims = ddims.drop_duplicates().sort_values()
         if self.is_full:
@@ -621,17 +625,14 @@ class Triangle(TriangleBase):
         if self.is_ultimate and self.shape[-1] > 1:
             ultimate = self.iloc[..., -1:]
             ultimate.ddims = np.array([9999])
-            obj = self.iloc[..., :-1]._val_dev(-1, inplace)
+            obj, slide = self.iloc[..., :-1]._val_dev(-1, inplace)
         else:
-            obj = self.copy()._val_dev(-1, inplace)
+            obj, slide = self.copy()._val_dev(-1, inplace)
         val_0 = obj.valuation[0]
-        if self.ddims.shape[-1] == 1 and self.ddims[0] == self.valuation_date:
-            origin_0 = pd.to_datetime(obj.odims[-1])
-        else:
-            origin_0 = pd.to_datetime(obj.odims[0])
+        origin_0 = pd.to_datetime(obj.odims[0])
         lag_0 = (val_0.year - origin_0.year) * 12 + val_0.month - origin_0.month + 1
         scale = self._dstep()["M"][obj.development_grain]
-        obj.ddims = np.arange(obj.values.shape[-1]) * scale + lag_0
+        obj.ddims = (np.arange(obj.values.shape[-1]) + slide) * scale + lag_0
         prune = obj[obj.origin == obj.origin.max()]
         if self.is_ultimate and self.shape[-1] > 1:
             obj = obj.iloc[..., : (prune.valuation <= prune.valuation_date).sum()]
-- 
2.43.0


From 5b3427064625e0f6222e4774716f2f90e3dab7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 04/38] fix: cum_to_incr of a triangle with a single age raised
 IndexError

---
 chainladder/core/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 60c161c..7b7bde1 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -509,7 +509,7 @@ class Triangle(TriangleBase):
                         axis=3,
                     )
                     self.values = self.values * self.nan_triangle
-                else:
+                elif self.shape[-1] > 1:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
                     self = concat((self.iloc[..., 0], diff), axis=3)
                 self.is_cumulative = False
-- 
2.43.0


From 3a9460440666c9c813973caa65ec709e5636f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 05/38] fix: align columns when only the second operand lacks
 columns

new_x_cols was only bound when the first operand lacked columns, so adding
triangles whose columns differ in order, or where only the second lacks
some, raised UnboundLocalError.
---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 137f1dd..edf9f2d 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -115,8 +115,8 @@ class TriangleDunders:
             cols_to_add_to_y = [col for col in x.columns if col not in y.columns] 
             
             # Create new columns only if necessary
+            new_x_cols = list(x.columns) + list(cols_to_add_to_x)
             if cols_to_add_to_x:
-                new_x_cols = list(x.columns) + list(cols_to_add_to_x)
                 x = x.reindex(columns=new_x_cols, fill_value=0)
             
             if cols_to_add_to_y:
-- 
2.43.0


From 4df54ef4022c83d50708aebaaa1be991cac0ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 06/38] fix: broadcast a length-one origin or age in sparse
 unioned arithmetic

When the other axis needs a union, the dense backend broadcasts a
single-origin (or single-age) operand while the sparse backend put it at
the first label only.
---
 chainladder/core/dunders.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index edf9f2d..7fbd749 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -192,7 +192,11 @@ class TriangleDunders:
                 obj_arr[:] = xp.nan
                 obj_arr[:, :, lol:loh, ldl:ldh] = obj.values
             else:
-                obj_arr, other_arr = obj.values.copy(), other.values.copy()
+                # length-one axes broadcast over the labels they were given above
+                obj_arr, other_arr = (
+                    i.values.broadcast_to(i.shape[:2] + (len(i.odims), len(i.ddims))).copy()
+                    for i in (obj, other)
+                )
                 other_arr.coords[2] = other_arr.coords[2] + rol
                 other_arr.coords[3] = other_arr.coords[3] + rdl
                 obj_arr.coords[2] = obj_arr.coords[2] + lol
-- 
2.43.0


From 875bccdbb4fb6084b2b28e41bbae4391812cd52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 07/38] fix: give each triangle its own virtual column registry

copy() passed the registry by reference once it was not empty, so adding a
virtual column to a copy or to a derived triangle added it to the source.
---
 chainladder/core/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 9eb22bd..1ea1c0b 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -329,7 +329,7 @@ class Iat(Ilocation):
 class VirtualColumns:
     def __init__(self, triangle, columns=None):
         self.triangle = triangle
-        self.columns = {} if not columns else columns
+        self.columns = dict(columns or {})
 
     def __getitem__(self, value):
         return self.columns[value](self.triangle).rename("columns", [value])
-- 
2.43.0


From b919dfb5a681dfcf9eed58f21f6cc156a7c15d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 08/38] fix: MackChainladder on triangles with several index
 rows or columns

The tail weight had a fixed (1, 1) leading shape, so concatenation with the
per-row weights raised ValueError.
---
 chainladder/methods/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 09bf479..bc780a7 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -107,7 +107,7 @@ class MackChainladder(Chainladder):
         val = xp.broadcast_to(xp.array(avg + [avg[-1]]), X.shape)
         weight = xp.sqrt(full.values[..., : len(X.ddims)] ** (2 - val))
         obj.values = X.sigma_.values / num_to_nan(weight)
-        w = lxp.concatenate((X.w_, lxp.ones((1, 1, val.shape[2], 1))), 3)
+        w = lxp.concatenate((X.w_, lxp.ones((*X.w_.shape[:2], val.shape[2], 1))), 3)
         w[xp.isnan(w)] = 1
         obj.values = xp.nan_to_num(obj.values) * xp.array(w)
         obj.valuation_date = full.valuation_date
-- 
2.43.0


From 51558bcd7bdc54bcea768d4a541a203f328df97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 09/38] fix: honour the step of open-ended positional slices

iloc[..., ::2] dropped the step and returned every element; iloc[0::-1]
returned the whole axis reversed.
---
 chainladder/core/slice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 1ea1c0b..e5b90ce 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -70,10 +70,10 @@ class _LocBase:
         l = []
         for n, i in enumerate(key):
             if type(i) is slice:
-                start = i.start if i.start > 0 else None
+                start = i.start if i.start > 0 or i.step < 0 else None
                 stop = i.stop if i.stop > -1 else None
                 stop = None if stop == self.obj.shape[n] else stop
-                step = None if start is None and stop is None else i.step
+                step = None if i.step == 1 else i.step
                 l.append(slice(start, stop, step))
             else:
                 l.append(i)
-- 
2.43.0


From 0bd13b33897d3bc23afa0d529939af5580e47e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 10/38] fix: semi-annual development dates given as period
 starts

Dates at the start of a half-year are moved to its close as well.
---
 chainladder/core/triangle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 7b7bde1..8e2d604 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -155,8 +155,12 @@ class Triangle(TriangleBase):
             how="s"
         )
 
-        # A "2Q" period spans two quarters from the one its date falls in, while a
-        # semi-annual development date already falls in the last quarter of its half
+        # A "2Q" period spans two quarters from the one its date falls in, so move
+        # semi-annual development dates to the month that closes their half first
+        if self.development_grain.startswith("2Q"):
+            close = pd.Timestamp("2000-" + (self.development_grain[3:] or "DEC") + "-01")
+            shift = (close.month - development_date.dt.month.iloc[0]) % 6
+            development_date = development_date + pd.DateOffset(months=int(shift))
         development_date = development_date.dt.to_period(
             self.development_grain.replace("2Q", "Q")
         ).dt.to_timestamp(how="e")
-- 
2.43.0


From 1ae9deda8f10e59cabb1941a56fc8dc9e36a4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 11/38] fix: grain of triangles with a partial first period or
 semi-annual development

The valuations missing from a partial first period were added as period
starts, so quarterly ages came out as 1, 4, 7..., and the semi-annual
frequency was not a valid pandas alias, raising ValueError.
---
 chainladder/core/triangle.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 8e2d604..b4a8489 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -717,23 +717,18 @@ class Triangle(TriangleBase):
             obj = obj.groupby(groups, axis=2).sum()
 
             obj.origin_close = origin_period_end
-            d_start = pd.Period(
-                obj.valuation[0],
-                freq=(
-                    dgrain_old
-                    if dgrain_old == "M"
-                    else dgrain_old + obj.origin.freqstr[-4:]
-                ),
-            ).to_timestamp(how="s")
-
-            if len(obj.ddims) > 1 and obj.origin.to_timestamp(how="s")[0] != d_start:
-                addl_ts = (
-                    pd.period_range(obj.odims[0], obj.valuation[0], freq=dgrain_old)[
-                        :-1
-                    ]
-                    .to_timestamp()
-                    .values
-                )
+            # Valuations since the start of the first new origin that it lacks
+            step = self._dstep()["M"][dgrain_old]
+            addl_ts = (
+                pd.period_range(obj.odims[0], obj.valuation[0], freq="M")[::-1][
+                    step::step
+                ]
+                .sort_values()
+                .to_timestamp(how="e")
+                .values
+            )
+
+            if len(obj.ddims) > 1 and len(addl_ts) > 0:
                 addl = obj.iloc[..., -len(addl_ts) :] * 0
                 addl.ddims = addl_ts
                 obj = concat((addl, obj), axis=-1)
-- 
2.43.0


From e9a71fd04fd60543d97c245610902008d4f315f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 12/38] fix: drop_high/drop_low with a list of n_periods

---
 chainladder/development/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index a1a2107..1e1ba19 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -95,7 +95,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
 
         if (self.drop_high is not None) | (self.drop_low is not None):
             n_periods_ = self._validate_assumption(X, self.n_periods, axis=3)[
-                0, 0, 0, :-1
+                0, 0, 0, : X.shape[3] - 1
             ]
 
             w_ = self._assign_n_periods_weight(X, n_periods_)
-- 
2.43.0


From edc570bcb9b32fc45f55b19fb642543abf433b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 13/38] fix: drop_valuation excludes the valuation for every
 index row and column

---
 chainladder/development/base.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index 1e1ba19..264ddbf 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -317,18 +317,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         else:
             drop_valuation = self.drop_valuation
         v = pd.PeriodIndex(drop_valuation, freq=X.origin_grain).to_timestamp(how="e")
-        arr = 1 - xp.nan_to_num(X[X.valuation.isin(v)].values[0, 0] * 0 + 1)
-        ofill = X.shape[-2] - arr.shape[-2]
-        dfill = X.shape[-1] - arr.shape[-1]
-        if ofill > 0:
-            arr = xp.concatenate(
-                (arr, xp.repeat(xp.ones(arr.shape[-1])[None], ofill, 0)), 0
-            )
-        if dfill > 0:
-            arr = xp.concatenate(
-                (arr, xp.repeat(xp.ones(arr.shape[-2])[..., None], dfill, -1)), -1
-            )
-        return arr[:, :-1]
+        arr = 1.0 - X.valuation.isin(v).reshape(X.shape[-2:], order="F")
+        return xp.array(arr)[:, :-1]
 
     def _drop(self, X):
         xp = X.get_array_module()
-- 
2.43.0


From bd5c9b8fe35850e68cdbf220980bbca62a5e8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 14/38] fix: n_periods one short of the origins, and
 semi-annual grains in n_periods

---
 chainladder/development/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index 264ddbf..a702a10 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -61,7 +61,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
                 "Q": {"Y": 4, "S": 2, "Q": 1},
                 "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
             }
-            if n_periods < 1 or n_periods >= X.shape[-2] - 1:
+            if n_periods < 1 or n_periods >= X.shape[-2]:
                 return X.values * 0 + 1
             else:
                 val_date_min = X.valuation[X.valuation <= X.valuation_date]
@@ -376,8 +376,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
             val_offset = {
                 "Y": {"Y": 1},
                 "S": {"Y": 2, "S": 1},
-                "Q": {"Y": 4, "Q": 1},
-                "M": {"Y": 12, "Q": 3, "M": 1},
+                "Q": {"Y": 4, "S": 2, "Q": 1},
+                "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
             }
             if n_periods < 1 or n_periods >= X.shape[-2]:
                 return X.values * 0 + 1
-- 
2.43.0


From 46d6bf8dc432b13ab1d2d6df07b9a776710710d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 15/38] fix: drop_valuation of semi-annual triangles

---
 chainladder/development/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index a702a10..db3b1d3 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -316,7 +316,9 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
             drop_valuation = [self.drop_valuation]
         else:
             drop_valuation = self.drop_valuation
-        v = pd.PeriodIndex(drop_valuation, freq=X.origin_grain).to_timestamp(how="e")
+        # "S" is the pandas alias of seconds; half-years close on a quarter end
+        freq = X.origin_grain.replace("S", "Q")
+        v = pd.PeriodIndex(drop_valuation, freq=freq).to_timestamp(how="e")
         arr = 1.0 - X.valuation.isin(v).reshape(X.shape[-2:], order="F")
         return xp.array(arr)[:, :-1]
 
@@ -435,7 +437,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
             drop_valuation_list = [self.drop_valuation]
         # turn drop_valuation to same valuation freq as factor
         v = pd.PeriodIndex(
-            drop_valuation_list, freq=factor.development_grain
+            drop_valuation_list, freq=factor.development_grain.replace("S", "Q")
         ).to_timestamp(how="e")
         # warn that some drop_valuation are outside of factor
         if np.any(~v.isin(factor.valuation)):
-- 
2.43.0


From 0c0822ba101a0249b90c059c734ce87c897f8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 16/38] fix: align development factors by age when the triangle
 starts at a later age

---
 chainladder/methods/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 26bf84f..6705773 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -26,7 +26,9 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
     def _align_cdf(self, X, sample_weight=None):
         """ Vertically align CDF to origin period latest diagonal. """
         valuation = X.valuation_date
-        cdf = X.cdf_.iloc[..., : X.shape[-1]]
+        cdf = X.cdf_
+        start = int((cdf.ddims < X.ddims[0]).sum())
+        cdf = cdf.iloc[..., start : start + X.shape[-1]]
         a = X.iloc[0, 0] * 0
         a = a + a.nan_triangle
         if X.array_backend == "sparse":
-- 
2.43.0


From 9cfc2dd09a401d28023760560433be63abee1ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 17/38] fix: sparse chain-ladder ultimates when the earlier
 valuations form a single cell

---
 chainladder/methods/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 6705773..515cd65 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -32,7 +32,9 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
         a = X.iloc[0, 0] * 0
         a = a + a.nan_triangle
         if X.array_backend == "sparse":
-            a = a - a[a.valuation < a.valuation_date]
+            # keep the latest diagonal only
+            latest = (a.valuation == a.valuation_date).reshape(a.shape[-2:], order="F")
+            a = a * latest[None, None]
         if sample_weight:
             X = X * a + sample_weight * a
         else:
-- 
2.43.0


From 4dff2978ca0885cb1e410f52dfcbd97f1a58a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 18/38] fix: tail attached at the first age

---
 chainladder/tails/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index 6243aeb..7ff59a0 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -85,7 +85,7 @@ class TailBase(DevelopmentBase):
     def _apply_decay(self, X, tail, attach_idx=None):
         """ Created Tail vector with decay over time. """
         xp = self.ldf_.get_array_module()
-        if attach_idx:
+        if attach_idx is not None:
             decay_range = self.ldf_.shape[-1] - attach_idx
         else:
             decay_range = self.ldf_.shape[-1] - X.shape[-1] + 1
-- 
2.43.0


From 00da59a4f881f60eb37887fdeea0d44cdd18dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 19/38] fix: full triangle when the known factors form a single
 cell

---
 chainladder/core/common.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 54296a2..85df6c8 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -33,12 +33,10 @@ def _get_full_triangle(X, ultimate, is_cumulative=True):
     emergence = X.ldf_.copy() * (ultimate / ultimate)
 
     # Setting LDFs for all of the known diagonals as 1
-    emergence = (
-        emergence[emergence.valuation < X.valuation_date] * 0
-        + 1
-        + emergence[emergence.valuation >= X.valuation_date]
-    )
-    
+    known = emergence.valuation < X.valuation_date
+    known = known.reshape(emergence.shape[-2:], order="F")[None, None]
+    emergence = emergence * ~known + (emergence * 0 + 1) * known
+
     emergence.valuation_date = pd.to_datetime(options.ULT_VAL)
     emergence.values = emergence.values.cumprod(axis=3) - 1 
     
-- 
2.43.0


From db6a5e4318f604757f9677f982947c44daf1a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 20/38] fix: Mack process risk of the first projected period
 with excluded link ratios

---
 chainladder/methods/mack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index bc780a7..50ba08f 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -108,7 +108,10 @@ class MackChainladder(Chainladder):
         weight = xp.sqrt(full.values[..., : len(X.ddims)] ** (2 - val))
         obj.values = X.sigma_.values / num_to_nan(weight)
         w = lxp.concatenate((X.w_, lxp.ones((*X.w_.shape[:2], val.shape[2], 1))), 3)
-        w[xp.isnan(w)] = 1
+        w[np.isnan(w)] = 1
+        # amounts still to be developed carry full weight
+        latest = (X.valuation >= X.valuation_date).reshape(X.shape[-2:], order="F")
+        w[..., latest] = 1
         obj.values = xp.nan_to_num(obj.values) * xp.array(w)
         obj.valuation_date = full.valuation_date
         obj._set_slicers()
-- 
2.43.0


From 0f990320aa80c86ecacb8668fe815c895c23acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 21/38] fix: MackChainladder total parameter risk of sparse
 triangles

---
 chainladder/methods/mack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 50ba08f..1d0703f 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -131,7 +131,8 @@ class MackChainladder(Chainladder):
             future_std_err = (
                 X._full_triangle_ - X[X.valuation < X.valuation_date]
             ).iloc[:, :, :, : X.shape[3]] * X.std_err_.values
-            t1_t = xp.nan_to_num(future_std_err.sum("origin").values)
+            future_std_err = future_std_err.sum("origin")
+            t1_t = xp.nan_to_num(future_std_err.set_backend(X.array_backend).values)
             obj.odims = obj.odims[0:1]
         else:
             nans = xp.nan_to_num(X.nan_triangle[None, None])
-- 
2.43.0


From c4ead599c0b1181c092d3c338e8b120f193de433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 22/38] fix: MackChainladder.predict in a pipeline without a
 tail

---
 chainladder/methods/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 1d0703f..807b081 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -72,8 +72,8 @@ class MackChainladder(Chainladder):
 
     def predict(self, X, sample_weight=None):
         X_new = super().predict(X, sample_weight)
-        X_new.sigma_ = getattr(X_new, "sigma_", self.X_.sigma_)
-        X_new.std_err_ = getattr(X_new, "std_err_", self.X_.std_err_)
+        # as with ldf_, predictions use the regression statistics of the fit
+        X_new.sigma_, X_new.std_err_ = self.X_.sigma_, self.X_.std_err_
         X_new.average_ = getattr(X_new, "average_", self.X_.average_)
         X_new.w_ = getattr(X_new, "w_", self.X_.w_)
         X_new._full_triangle_ = X_new.full_triangle_
-- 
2.43.0


From 57fbb7fc45f7387a6122547880a7113d4205ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 23/38] fix: default voting weights have one row per origin

---
 chainladder/workflow/voting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 896b838..008b23d 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -51,7 +51,7 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
         # return np.ones(X.shape[:3] + (len(self.estimators), ))
         return np.repeat(
             np.array(self.default_weighting)[np.newaxis, :],
-            repeats=X.shape[-1],
+            repeats=X.shape[2],
             axis=0
             )
 
-- 
2.43.0


From 0ca15c169d957f395e75256985c3c4f89b004836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 24/38] fix: voting weights with a dropped estimator

---
 chainladder/workflow/voting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 008b23d..25ba033 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -338,6 +338,10 @@ class VotingChainladder(_BaseChainladderVoting, MethodBase):
                                  f' and {X.shape[1]} for X.')
             weights = self.weights_
 
+        # dropped estimators take no part in the vote
+        kept = [i for i, (_, est) in enumerate(self.estimators) if not est == 'drop']
+        weights = weights[..., kept, :]
+
         ultimate = sum([
                 est.predict(X, sample_weight).ultimate_ * weights[..., i, :]
                 for i, est in enumerate(self.estimators_)
-- 
2.43.0


From 2a7b602ddbf59ac2963097eb5f3f327952785a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 25/38] fix: IncrementalAdditive on triangles with more ages
 than origins

---
 chainladder/development/incremental.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/chainladder/development/incremental.py b/chainladder/development/incremental.py
index fb0537e..8c49e6a 100644
--- a/chainladder/development/incremental.py
+++ b/chainladder/development/incremental.py
@@ -150,14 +150,7 @@ class IncrementalAdditive(DevelopmentBase):
         #to consolidate under full_triangle_
         y_ = xp.repeat(self.zeta_.values, len(x.odims), -2)
         obj = x.copy()
-        keeps = (
-            1
-            - xp.nan_to_num(x.nan_triangle)
-            + xp.nan_to_num(
-                x[x.valuation == x.valuation_date].values[0, 0, ...] * 0 + 1
-            )
-        )
-        obj.values = y_ * keeps
+        obj.values = y_
         obj.valuation_date = obj.valuation.max()
         obj.values = obj.values * (1 - xp.nan_to_num(x.nan_triangle)) + xp.nan_to_num(
             (X.cum_to_incr().values / sample_weight.values)
-- 
2.43.0


From 41be541a5d078d07b2214e0b8f485a74339e634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 26/38] fix: <= on a triangle includes equality

---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 7fbd749..c814d2d 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -372,5 +372,5 @@ class TriangleDunders:
     def __le__(self, value):
         obj = self.copy()
         xp = self.get_array_module()
-        obj.values = xp.nan_to_num(obj.values) < xp.nan_to_num(value)
+        obj.values = xp.nan_to_num(obj.values) <= xp.nan_to_num(value)
         return obj
-- 
2.43.0


From 75cfa91a9dd4b2a649aed5bcc3ae77229cccb5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 27/38] fix: union of origins/ages after columns were added
 keeps the added columns

---
 chainladder/core/dunders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index c814d2d..daeee60 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -188,7 +188,7 @@ class TriangleDunders:
                 other_arr = xp.zeros((other.shape[0], other.shape[1], len(odims), len(ddims)))
                 other_arr[:] = xp.nan
                 other_arr[:, :, rol:roh, rdl:rdh] = other.values
-                obj_arr = xp.zeros((self.shape[0], self.shape[1], len(odims), len(ddims)))
+                obj_arr = xp.zeros((obj.shape[0], obj.shape[1], len(odims), len(ddims)))
                 obj_arr[:] = xp.nan
                 obj_arr[:, :, lol:loh, ldl:ldh] = obj.values
             else:
@@ -202,7 +202,7 @@ class TriangleDunders:
                 obj_arr.coords[2] = obj_arr.coords[2] + lol
                 obj_arr.coords[3] = obj_arr.coords[3] + ldl
                 other_arr.shape = (other.shape[0], other.shape[1], len(odims), len(ddims))
-                obj_arr.shape = (self.shape[0], self.shape[1], len(odims), len(ddims))
+                obj_arr.shape = (obj.shape[0], obj.shape[1], len(odims), len(ddims))
             obj.odims = np.array(odims.index)
             if type(obj.ddims) == pd.DatetimeIndex:
                 obj.ddims = pd.DatetimeIndex(ddims.index)
-- 
2.43.0


From face702409af53b534ef751e518d28c52e1a5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 28/38] fix: Clark growth function works on integer ages and
 leaves the caller's ages alone

---
 chainladder/development/clark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/development/clark.py b/chainladder/development/clark.py
index 670a12a..394f9d9 100644
--- a/chainladder/development/clark.py
+++ b/chainladder/development/clark.py
@@ -60,7 +60,7 @@ class ClarkLDF(DevelopmentBase):
             theta = self.theta_.values[..., None, None]
         if omega is None:
             omega = self.omega_.values[..., None, None]
-        age[age == 0.0] = xp.nan
+        age = xp.where(age == 0.0, xp.nan, age)
         if self.growth == "loglogistic":
             out = 1 + (theta ** omega) * (age ** (-omega))
         elif self.growth == "weibull":
-- 
2.43.0


From e32aac845e1de5f522d6f0aa9f55a1f0d160dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 29/38] fix: arithmetic of a one-column triangle with different
 index rows

---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index daeee60..0f1f1f6 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -107,7 +107,7 @@ class TriangleDunders:
             y.vdims = x.vdims
         elif len(y.columns) == len(x.columns) == 1 and x.columns != y.columns:
             y.vdims = x.vdims
-        elif x.shape[1] == y.shape[1] and np.array_equal(x.columns, y.columns):
+        elif np.array_equal(x.columns, y.columns):
             return x, y
         else:            
             # Find columns to add to each triangle
-- 
2.43.0


From 9f002b984c901578301dc2f809be6928438b4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 30/38] fix: fitting a tail leaves the standard errors of the
 triangle as they were

---
 chainladder/tails/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index 7ff59a0..24e01ea 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -118,7 +118,7 @@ class TailBase(DevelopmentBase):
             xp = X.sigma_.get_array_module()
             reg = WeightedRegression(axis=3, xp=xp).fit(None, xp.log(X.sigma_.values), None)
             sigma_ = xp.exp(time_pd * reg.slope_ + reg.intercept_)
-            y = X.std_err_.values
+            y = X.std_err_.values.copy()
             y = num_to_nan(y)
             reg = WeightedRegression(axis=3, xp=xp).fit(None, xp.log(y), None)
             std_err_ = xp.exp(time_pd * reg.slope_ + reg.intercept_)
-- 
2.43.0


From e9fc3b92329fbd6336cd9370f34adac6447212f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 31/38] fix: is_full counts cells in double precision

---
 chainladder/core/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index b4a8489..89f83f0 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -400,7 +400,8 @@ class Triangle(TriangleBase):
 
     @property
     def is_full(self):
-        return self.nan_triangle.sum().sum() == np.prod(self.shape[-2:])
+        # nan_triangle is float16, which cannot count beyond 2048 cells
+        return self.nan_triangle.sum(dtype="float64").sum() == np.prod(self.shape[-2:])
 
     @property
     def is_ultimate(self):
-- 
2.43.0


From 1bd5e90f330abfdedb805cb90c9fb6be6aa750fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 32/38] fix: drop_high/drop_low rank all link ratios when there
 are more origins than ages

---
 chainladder/development/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index db3b1d3..fdb7031 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -168,8 +168,10 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         )
         preserve_array[:, :, :] = drop_array_helper(preserve)
 
-        # operationalizing the -1 option for n_period
-        n_period_array = np.where(n_period_array == -1, link_ratios_len, n_period_array)
+        # operationalizing the -1 option for n_period (all origins)
+        n_period_array = np.where(
+            n_period_array < 1, link_ratio.shape[2], n_period_array
+        )
 
         # ranking factors by itself and volume
         link_ratio_ranks = np.lexsort((X.values[..., :-1], link_ratio), axis=2).argsort(
-- 
2.43.0


From bb4c1fa09408e3b03feafe968f7289e1e50878b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 33/38] fix: n_periods on triangles with more origins than ages

---
 chainladder/development/base.py | 40 +++++++++++++--------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index fdb7031..4996bcc 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -55,21 +55,17 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
 
         def _assign_n_periods_weight_int(X, n_periods):
             xp = X.get_array_module()
-            val_offset = {
-                "Y": {"Y": 1},
-                "S": {"Y": 2, "S": 1},
-                "Q": {"Y": 4, "S": 2, "Q": 1},
-                "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
-            }
+            months = {"Y": 12, "S": 6, "Q": 3, "M": 1}
             if n_periods < 1 or n_periods >= X.shape[-2]:
                 return X.values * 0 + 1
             else:
-                val_date_min = X.valuation[X.valuation <= X.valuation_date]
-                val_date_min = val_date_min.drop_duplicates().sort_values()
-                z = -n_periods * val_offset[X.development_grain][X.origin_grain] - 1
-                val_date_min = val_date_min[z]
-                w = X[X.valuation >= val_date_min]
-                return xp.nan_to_num((w / w).values) * X.nan_triangle
+                valuation = X.valuation.to_period("M")
+                val_min = valuation[X.valuation <= X.valuation_date].max()
+                val_min = val_min - n_periods * months[X.origin_grain]
+                # masking, so that origins without a recent valuation keep their place
+                w = (valuation >= val_min).reshape(X.shape[-2:], order="F")
+                w = num_to_nan(X.values * xp.array(w))
+                return xp.nan_to_num(w / w) * X.nan_triangle
 
         xp = X.get_array_module()
 
@@ -377,21 +373,17 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
 
         def _assign_n_periods_weight_int(X, n_periods):
             xp = X.get_array_module()
-            val_offset = {
-                "Y": {"Y": 1},
-                "S": {"Y": 2, "S": 1},
-                "Q": {"Y": 4, "S": 2, "Q": 1},
-                "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
-            }
+            months = {"Y": 12, "S": 6, "Q": 3, "M": 1}
             if n_periods < 1 or n_periods >= X.shape[-2]:
                 return X.values * 0 + 1
             else:
-                val_date_min = X.valuation[X.valuation <= X.valuation_date]
-                val_date_min = val_date_min.drop_duplicates().sort_values()
-                z = -n_periods * val_offset[X.development_grain][X.origin_grain]
-                val_date_min = val_date_min[z]
-                w = X[X.valuation >= val_date_min]
-                return xp.nan_to_num((w / w).values) * X.nan_triangle
+                valuation = X.valuation.to_period("M")
+                val_min = valuation[X.valuation <= X.valuation_date].max()
+                val_min = val_min - n_periods * months[X.origin_grain] + months[X.development_grain]
+                # masking, so that origins without a recent valuation keep their place
+                w = (valuation >= val_min).reshape(X.shape[-2:], order="F")
+                w = num_to_nan(X.values * xp.array(w))
+                return xp.nan_to_num(w / w) * X.nan_triangle
 
         xp = factor.get_array_module()
 
-- 
2.43.0


From 89f90cd22cdabc6e5aa6e9d1f8b7a90de2f92a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 34/38] fix: per-age exclusions on triangles with trailing ages
 without link ratios

---
 chainladder/development/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index 4996bcc..adc3efa 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -336,6 +336,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         param_array = pd.Series(size * [default_value]).astype("object")
         # only a single parameter is provided
         if isinstance(param, list):
+            # trailing ages without any factor are not in the factor triangle
+            param = param[:size]
             param_array[range(len(param))] = np.array(param)
             param_array.loc[param_array.isna()] = default_value
             param_array = param_array.astype(type(default_value))
-- 
2.43.0


From 5ac61635b2e5619d80501a25c266915cd2ea6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 35/38] fix: drop_valuation on triangles with more origins than
 ages

---
 chainladder/development/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index adc3efa..4652a43 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -424,7 +424,6 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         return xp.nan_to_num(arr)[None, None]
 
     def _drop_valuation_func(self, factor):
-        # get the appropriate backend for nan_to_num
         xp = factor.get_array_module()
         # turn single drop_valuation parameter to list if necessary
         if isinstance(self.drop_valuation, list):
@@ -439,7 +438,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         if np.any(~v.isin(factor.valuation)):
             warnings.warn("Some valuations could not be dropped.")
         # return triangle of 0/1 where dropped factors have 0
-        b = xp.nan_to_num(factor.iloc[0, 0][~factor.valuation.isin(v)].values * 0 + 1)
+        b = ~factor.valuation.isin(v) & (factor.valuation <= factor.valuation_date)
+        b = xp.array(1.0 * b.reshape(factor.shape[-2:], order="F"))[None, None]
         # check to make sure some factors are still left
         if b.sum() == 0:
             raise Exception("The entire triangle has been dropped via drop_valuation.")
-- 
2.43.0


From d0776db6fcd014af1d3bfd703327148f592876ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 36/38] fix: development factors keep one label per factor

---
 chainladder/development/development.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/development/development.py b/chainladder/development/development.py
index e7b18a7..a0f6f09 100644
--- a/chainladder/development/development.py
+++ b/chainladder/development/development.py
@@ -223,7 +223,7 @@ class Development(DevelopmentBase):
         obj = X[X.origin == X.origin.min()]
         xp = X.get_array_module()
         obj.values = xp.ones(obj.shape)[..., :-1] * params[..., idx : idx + 1, :]
-        obj.ddims = X.link_ratio.ddims
+        obj.ddims = X.ddims[:-1]
         obj.valuation_date = pd.to_datetime(options.ULT_VAL)
         obj.is_pattern = True
         obj.is_cumulative = False
-- 
2.43.0


From 508f1381152d9d63a497f2acf66cfcb69c7cb662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 37/38] fix: grain counts calendar periods when valuations are
 missing

---
 chainladder/core/triangle.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 89f83f0..c3122dc 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -736,6 +736,23 @@ class Triangle(TriangleBase):
                 obj.values = num_to_nan(obj.values)
 
         if dgrain_old != dgrain_new and obj.shape[-1] > 1:
+            # Valuations are counted off below, so those no origin has are blank
+            regular = (
+                pd.period_range(obj.ddims[0], obj.ddims[-1], freq="M")[::-1][
+                    :: self._dstep()["M"][dgrain_old]
+                ]
+                .sort_values()
+                .to_timestamp(how="e")
+            )
+            if len(regular.difference(obj.ddims)) > 0 and not self.is_ultimate:
+                blank = obj.iloc[..., :1] * 0
+                blank.values = num_to_nan(blank.values)
+                val = {k: obj.iloc[..., num] for num, k in enumerate(obj.ddims)}
+                val = [val.get(k, blank.copy()) for k in regular]
+                for num, k in enumerate(regular):
+                    val[num].ddims = pd.DatetimeIndex([k])
+                obj = concat(val, axis=-1)
+
             step = self._dstep()[dgrain_old][dgrain_new]
             d = np.sort(
                 len(obj.development) - np.arange(0, len(obj.development), step) - 1
-- 
2.43.0


From 85bdd80db1360645daa2a39e8b17a6f8f0601a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 38/38] fix: IncrementalAdditive keeps observed increments at
 ages without a factor

---
 chainladder/development/incremental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/development/incremental.py b/chainladder/development/incremental.py
index 8c49e6a..ebaca47 100644
--- a/chainladder/development/incremental.py
+++ b/chainladder/development/incremental.py
@@ -152,7 +152,7 @@ class IncrementalAdditive(DevelopmentBase):
         obj = x.copy()
         obj.values = y_
         obj.valuation_date = obj.valuation.max()
-        obj.values = obj.values * (1 - xp.nan_to_num(x.nan_triangle)) + xp.nan_to_num(
+        obj.values = xp.nan_to_num(obj.values) * (1 - xp.nan_to_num(x.nan_triangle)) + xp.nan_to_num(
             (X.cum_to_incr().values / sample_weight.values)
         )
         obj.values[obj.values == 0] = xp.nan
-- 
2.43.0

