From 4b499cdd0354519a3b401cbe06308a9da471ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:05 +0000
Subject: [PATCH 01/68] fix: rebuild periodic axes that do not start at zero

Each period was appended with its own start offset added again, so the rebuilt
axis had a gap between periods whenever its first value was not zero.
---
 SciDataTool/Functions/symmetries.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/symmetries.py b/SciDataTool/Functions/symmetries.py
index 068be3a..c8e8c47 100644
--- a/SciDataTool/Functions/symmetries.py
+++ b/SciDataTool/Functions/symmetries.py
@@ -54,7 +54,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     elif "antiperiod" in symmetries.keys():
@@ -70,7 +73,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     return values_new
-- 
2.43.0


From 262504dbdeb3e85239a182fa34c1a741ddab698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:37 +0000
Subject: [PATCH 02/68] fix: slice periodic axes without repeating the slice or
 losing symmetries

Indices taken inside the stored period were repeated for every period, the first
index of the second period raised an IndexError, and indices in other periods
erased the symmetries of the axis. The field is now rebuilt, when needed, just
before the slice is taken, and is not rebuilt again afterwards.
---
 SciDataTool/Methods/DataND/_extract_slices.py |  9 +++++++++
 SciDataTool/Methods/DataND/_get_field.py      |  7 -------
 .../Methods/DataND/_rebuild_symmetries.py     | 19 ++++++++++++-------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index 8311ad1..404ea68 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -1,5 +1,7 @@
 from numpy import take
 
+from SciDataTool.Functions.symmetries import rebuild_symmetries
+
 
 def _extract_slices(self, values, axes_list):
     """Returns the values of the field (with symmetries and transformations).
@@ -29,6 +31,13 @@ def _extract_slices(self, values, axes_list):
                     axis_requested.indices is not None
                     and axis_requested.transform != "fft"
                 ):
+                    if (
+                        not axis_requested.is_pattern
+                        and len(axis_requested.indices) > 0
+                        and max(axis_requested.indices) >= values.shape[index]
+                    ):
+                        # Requested indices are among other periods
+                        values = rebuild_symmetries(values, index, axis.symmetries)
                     values = take(values, axis_requested.indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 95c5969..1bf7811 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -47,12 +47,5 @@ def _get_field(self, axes_list):
             axis_symmetries["antiperiod"] = 2
             values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
             axis_symmetries["antiperiod"] = nper
-        elif (
-            axis_requested.indices is not None
-            and max(axis_requested.indices) > values.shape[axis_requested.index]
-        ):
-            # Slicing case where requested indices are among other periods
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            self.axes[axis_requested.index].symmetries = dict()
 
     return values
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4a16f4f..0fa4c61 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -46,13 +46,18 @@ def _rebuild_symmetries(
             )
         ):
             values = take(values, axis.rebuild_indices, axis.index)
-        elif axis.transform != "fft" and axis.extension in [
-            "whole",
-            "interval",
-            "oneperiod",
-            "antiperiod",
-            "smallestperiod",
-        ]:
+        elif (
+            axis.transform != "fft"
+            and axis.indices is None
+            and axis.extension
+            in [
+                "whole",
+                "interval",
+                "oneperiod",
+                "antiperiod",
+                "smallestperiod",
+            ]
+        ):
             if axis.extension == "smallestperiod":
                 is_smallestperiod = True
                 is_oneperiod = False
-- 
2.43.0


From 783805ceb1424b54fcf597b4bf23d5cf4fb61f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:37 +0000
Subject: [PATCH 03/68] fix: count samples of a step-defined linspace by
 rounding

Truncating lost the last sample when the division was slightly below an integer,
while the length query rounded.
---
 SciDataTool/Methods/DataLinspace/get_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ab49789..18af576 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -52,7 +52,7 @@ def get_values(
     initial = self.initial
     if self.number == None:
         final = self.final
-        number = (final - initial + self.step) / self.step
+        number = round((final - initial + self.step) / self.step)
     elif self.final == None:
         number = self.number
         final = self.initial + (number - 1) * self.step
-- 
2.43.0


From f9159ec51547dad11310a0e9a644e15015e6ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:07 +0000
Subject: [PATCH 04/68] fix: expect the end point of a step-defined linspace in
 the field shape

The dimension check counted one sample less than the axis itself returns, so a
field on such an axis was refused.
---
 SciDataTool/Classes/_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 1e9389f..7d27085 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -355,7 +355,9 @@ def check_dimensions(values, axes):
                 try:
                     axes_shape.append(int(axis.number))
                 except:
-                    axes_shape.append(round((axis.final - axis.initial) / axis.step))
+                    axes_shape.append(
+                        round((axis.final - axis.initial + axis.step) / axis.step)
+                    )
 
         if values_shape != tuple(axes_shape):
             for i, s in enumerate(axes_shape):
-- 
2.43.0


From c034f8684c8a20e7d78f43120cef958f8583b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:02 +0000
Subject: [PATCH 05/68] fix: compare requested axis values with the axis in the
 requested unit

The number of periods to rebuild was chosen by comparing the requested values
with the axis in its own unit, so requests in another unit could miss periods.
---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 12a770c..cf49d77 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -116,8 +116,10 @@ def get_axis(self, axis, is_real):
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
+                    unit=self.unit,
                     operation=self.operation,
                     is_real=is_real,
+                    corr_unit=self.corr_unit,
                 )
                 if min(self.input_data) >= min(axis_values) and max(
                     self.input_data
@@ -128,8 +130,10 @@ def get_axis(self, axis, is_real):
                 else:
                     axis_values = axis.get_values(
                         is_oneperiod=True,
+                        unit=self.unit,
                         operation=self.operation,
                         is_real=is_real,
+                        corr_unit=self.corr_unit,
                     )
                     if min(self.input_data) >= min(axis_values) and max(
                         self.input_data
-- 
2.43.0


From bb1754544b28c2760e2eb18d17987beedfa22cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:37 +0000
Subject: [PATCH 06/68] fix: return interpolated samples in the requested order

When all requested coordinates were samples of the axis, they were returned
sorted and without repetitions, so values did not match the requested axis.
---
 SciDataTool/Functions/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2ef5e8d..be9d8e7 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -99,7 +99,7 @@ def get_interpolation(values, axis_values, new_axis_values, index):
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        indice_take = where(isin(axis_values, new_axis_values))[0]
+        indice_take = [argmin(np_abs(axis_values - value)) for value in new_axis_values]
 
         return take(
             values,
-- 
2.43.0


From 923a7725cf914cbef4c4fb38fa94ee540d482e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:19 +0000
Subject: [PATCH 07/68] fix: only skip interpolation when both axes really
 coincide

A relative tolerance of 0.1 % treated requested coordinates as samples of the
axis, which returned uninterpolated values on axes with a large offset.
---
 SciDataTool/Functions/interpolations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index be9d8e7..2c01820 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -93,7 +93,12 @@ def get_interpolation(values, axis_values, new_axis_values, index):
             idx = argmin(np_abs(axis_values - new_axis_values[0]))
             return take(values, [idx], axis=index)
     elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+        isclose(
+            axis_values,
+            new_axis_values,
+            rtol=0,
+            atol=1e-9 * np_abs(axis_values[-1] - axis_values[0]),
+        )
     ):  # Same axes -> no interpolation
         return values
     elif isin(
-- 
2.43.0


From 4e1eab27620ff92c580f1a02529308574f665476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:30 +0000
Subject: [PATCH 08/68] fix: fold axes into periods without corrupting the
 original axis

Folding truncated the normalization vectors of the original axis, ignored the
periods already stored in a sampled axis, and lost the sample spacing when a
period held a single sample.
---
 SciDataTool/Methods/Data1D/get_axis_periodic.py | 17 +++++++++++++----
 .../Methods/DataLinspace/get_axis_periodic.py   | 15 ++++++++++++---
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index f5fb4ee..5ffb19d 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -1,4 +1,5 @@
 from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
 from SciDataTool.Classes.Norm_vector import Norm_vector
 
 
@@ -27,15 +28,20 @@ def get_axis_periodic(self, Nper, is_aper=False):
     try:
         # Reduce axis to the given periodicity
         Nper = Nper * 2 if is_aper else Nper
-        values = self.values
+        values = self.get_values()
         N = self.get_length()
 
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = dict()
+        for key, norm in self.normalizations.items():
+            norm = norm.copy()
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                # Reduce normalization vector without changing the original axis
+                vector = rebuild_symmetries_axis(norm.vector, self.symmetries)
+                norm.vector = vector[: int(N / Nper)]
+            normalizations[key] = norm
 
         if is_aper:
             sym = "antiperiod"
@@ -46,13 +52,16 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1:
+                # Spacing cannot be deduced from a single sample
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = Data1D(
             values=values_per,
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations,
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index 15e6887..588b92a 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -1,4 +1,5 @@
 from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
 from SciDataTool.Classes.Norm_vector import Norm_vector
 
 
@@ -33,9 +34,14 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = dict()
+        for key, norm in self.normalizations.items():
+            norm = norm.copy()
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                # Reduce normalization vector without changing the original axis
+                vector = rebuild_symmetries_axis(norm.vector, self.symmetries)
+                norm.vector = vector[: int(N / Nper)]
+            normalizations[key] = norm
 
         if is_aper:
             sym = "antiperiod"
@@ -46,6 +52,9 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1:
+                # Spacing cannot be deduced from a single sample
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = DataLinspace(
             initial=self.initial,
@@ -55,7 +64,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations.copy(),
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
-- 
2.43.0


From 2e5537223e8fd5058acbd8090db1e73efdc2f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:17 +0000
Subject: [PATCH 09/68] fix: recognise linear axes relative to their own
 spacing

An absolute tolerance replaced irregular axes with very small steps, or with a
large offset, by a regular one. The symmetries are also copied instead of being
shared with the original axis.
---
 SciDataTool/Methods/Data1D/to_linspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 025de20..a402376 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -25,8 +25,8 @@ def to_linspace(self):
         and allclose(
             values,
             linspace(values[0], values[-1], number, endpoint=True),
-            rtol=1e-5,
-            atol=1e-8,
+            rtol=0,
+            atol=1e-5 * abs(values[-1] - values[0]) / (number - 1),
             equal_nan=False,
         )
     ):
@@ -37,7 +37,7 @@ def to_linspace(self):
             include_endpoint=True,
             name=self.name,
             unit=self.unit,
-            symmetries=self.symmetries,
+            symmetries=self.symmetries.copy(),
             normalizations=self.normalizations.copy(),
             is_components=self.is_components,
             symbol=self.symbol,
-- 
2.43.0


From 6f9af9d6305ceafc5e551debe77f02ad03167289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:59 +0000
Subject: [PATCH 10/68] fix: read pattern axes through their rebuild indices

Slices, value requests and the default first slice of a pattern axis were taken
from the pattern instead of the whole axis when they fell inside its length.
---
 SciDataTool/Methods/DataND/_extract_slices.py | 6 +++++-
 SciDataTool/Methods/DataND/_get_field.py      | 4 ++--
 SciDataTool/Methods/RequestedAxis/get_axis.py | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index 404ea68..94ddf7b 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -1,5 +1,6 @@
 from numpy import take
 
+from SciDataTool.Classes.DataPattern import DataPattern
 from SciDataTool.Functions.symmetries import rebuild_symmetries
 
 
@@ -41,5 +42,8 @@ def _extract_slices(self, values, axes_list):
                     values = take(values, axis_requested.indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
-            values = take(values, [0], axis=index)
+            first = 0
+            if isinstance(axis, DataPattern) and axis.rebuild_indices:
+                first = axis.rebuild_indices[0]
+            values = take(values, [first], axis=index)
     return values, axes_dict_other
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 1bf7811..01359b8 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -37,9 +37,9 @@ def _get_field(self, axes_list):
                 "antiderivate",
             ]
             or axis_requested.indices not in [None, []]
-            and max(axis_requested.indices) >= values.shape[axis_requested.index]
         ):
-            # DataPattern case where all values are requested
+            # DataPattern case where all values are requested (indices are those
+            # of the whole axis)
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
         elif axis_requested.transform == "fft" and "antiperiod" in axis_symmetries:
             # FFT case if axis is anti-periodic
diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index cf49d77..3df6a1d 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -112,7 +112,7 @@ def get_axis(self, axis, is_real):
             is_oneperiod = False
             is_antiperiod = False
         else:
-            if self.input_data is not None and not self.is_step:
+            if self.input_data is not None and not self.is_pattern:
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
-- 
2.43.0


From 3dfb122536634ac4a1ef107586779d5cb5030b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:47 +0000
Subject: [PATCH 11/68] fix: transform time axes in any position and with any
 origin

The zero-frequency line was identified by looking at the wrong requested axis and
at the time values, which failed when some axes were not requested and doubled
the mean value when time did not start at zero. Uniform axes that do not contain
zero were handled as non-uniform and raised an error.
---
 SciDataTool/Functions/fft_functions.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 32239cf..555c1fd 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -221,7 +221,8 @@ def comp_fftn(values, axes_list, is_real=True):
     for axis in axes_list:
         if axis.transform == "fft":
             if axis.corr_values is not None and len(axis.corr_values) > 1:  # Timesteps
-                if not is_uniform(axis.corr_values):
+                # Uniformity does not depend on the origin of the axis
+                if not is_uniform(axis.corr_values - axis.corr_values[0]):
                     is_non_uniform = True
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
@@ -289,17 +290,12 @@ def comp_fftn(values, axes_list, is_real=True):
         if is_onereal:
             values_FT = rfftn(values, axes=axes)
             # Do not multiply constant component by 2 (f=0)
-            if axes_list[axes[-1]].corr_values is not None:
-                freqs = axes_list[axes[-1]].corr_values
-            else:
-                freqs = axes_list[axes[-1]].values
-            if freqs[0] == 0:
-                slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 *= 0.5
+            if is_twice:
                 slice_0 *= 0.5
-                if is_twice:
-                    slice_0 *= 0.5
-                other_values = delete(values_FT, 0, axis=axes[-1])
-                values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
+            other_values = delete(values_FT, 0, axis=axes[-1])
+            values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
             values_FT2 = 2.0 * fftshift(values_FT, axes=axes[:-1]) / size
             if is_twice:
                 values_FT2 *= 2.0
-- 
2.43.0


From d8eaa8263327e595a6f93d1ae50ad00b28d39a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:08 +0000
Subject: [PATCH 12/68] fix: keep the dimension of reduced axes so that
 reductions combine

Maximum, minimum, mean and reductions over antiperiodic axes dropped the
dimension of the axis, so that the index of the axes that follow was no longer
valid when several axes were reduced in one request.
---
 SciDataTool/Functions/derivation_integration.py |  4 ++--
 SciDataTool/Functions/sum_mean.py               | 10 +++++-----
 SciDataTool/Methods/DataND/_apply_operations.py |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index b8c4f39..12bcd6b 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -223,8 +223,8 @@ def integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=False):
         shape = list(values.shape)
         if is_aper:
             # Integration of anti-periodic signal yields zero
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             # Swap axis to always have integration axis on 1st position
             values = np.swapaxes(values, index, 0)
diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index f84c518..56ca43a 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -27,8 +27,8 @@ def my_sum(values, index, Nper, is_aper, unit, is_fft, corr_unit="SI"):
     if is_aper:
         # Sum of anti-periodic signal yields zero
         shape = list(values.shape)
-        shape0 = [s for ii, s in enumerate(shape) if ii != index]
-        values = np.zeros(shape0, dtype=values.dtype)
+        shape[index] = 1
+        values = np.zeros(shape, dtype=values.dtype)
     else:
         # To sum dB or dBA
         if "dB" in unit:
@@ -86,8 +86,8 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
         if is_aper:
             # Average of anti-periodic signal yields zero
             shape = list(values.shape)
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             if is_fft:  # No need to multiply by Nper in fft case
                 Nper = 1
@@ -95,7 +95,7 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
             if Nper is None:
                 # Set Nper to 1 in case of non-periodic axis
                 Nper = 1
-            values = Nper * np.nanmean(values, axis=index)
+            values = Nper * np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 672dfd5..10f2c51 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -58,10 +58,10 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = False
         # max over max axes
         if extension in "max":
-            values = nanmax(values, axis=index)
+            values = nanmax(values, axis=index, keepdims=True)
         # min over max axes
         elif extension in "min":
-            values = nanmin(values, axis=index)
+            values = nanmin(values, axis=index, keepdims=True)
         # sum over sum axes
         elif extension in "sum":
             values = my_sum(
-- 
2.43.0


From ddaa122625dde24ad2442229f59d128fa91aadac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:08 +0000
Subject: [PATCH 13/68] fix: do not multiply the mean value by the number of
 periods

---
 SciDataTool/Functions/sum_mean.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index 56ca43a..d485bd7 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -89,13 +89,8 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
             shape[index] = 1
             values = np.zeros(shape, dtype=values.dtype)
         else:
-            if is_fft:  # No need to multiply by Nper in fft case
-                Nper = 1
-            # Take mean value multiplied by periodicity
-            if Nper is None:
-                # Set Nper to 1 in case of non-periodic axis
-                Nper = 1
-            values = Nper * np.nanmean(values, axis=index, keepdims=True)
+            # Mean value is the same on one period and on the whole axis
+            values = np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
-- 
2.43.0


From 20cf197957e194dbd887b20be99e2086b0b04378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:08 +0000
Subject: [PATCH 14/68] fix: account for sign changes of antiperiodic axes in
 reductions

Maximum and minimum only looked at the stored samples, and sums over spectra
and magnitudes were set to zero although these do not change sign.
---
 SciDataTool/Methods/DataND/_apply_operations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 10f2c51..493b12f 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -1,4 +1,4 @@
-from numpy import abs as np_abs, nanmax, nanmin
+from numpy import abs as np_abs, concatenate, nanmax, nanmin, negative
 
 from SciDataTool.Functions.derivation_integration import (
     derivate,
@@ -56,6 +56,12 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = True
         else:
             is_fft = False
+        if is_aper and (is_fft or is_magnitude):
+            # Spectra and magnitudes do not change sign from one period to another
+            is_aper = False
+        if is_aper and extension in ["max", "min"]:
+            # Account for the samples of opposite sign
+            values = concatenate((values, negative(values)), axis=index)
         # max over max axes
         if extension in "max":
             values = nanmax(values, axis=index, keepdims=True)
-- 
2.43.0


From f4fc211d9535567053bc90ae5b155642c7859eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:08 +0000
Subject: [PATCH 15/68] fix: derive along axes that do not start at zero and
 along patterns

The sample added before the first one was only correct for axes starting at
zero, and the first and last samples of pattern axes were removed.
---
 SciDataTool/Functions/derivation_integration.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 12bcd6b..8b1e5d0 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -311,7 +311,7 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # Create the full vector of axis values
                 ax_full = np.concatenate(
                     (
-                        np.array([ax_val[0] - ax_val[1]]),
+                        np.array([2 * ax_val[0] - ax_val[1]]),
                         ax_val,
                         np.array([ax_val[-1] + ax_val[1] - ax_val[0]]),
                     )
@@ -327,9 +327,11 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
                 values_full[0, ...] = (-1) ** int(is_aper) * values[-1, ...]
             # Derivate along axis
-            values = np.gradient(values_full, ax_full, axis=0)
-            # Get N first values and swap axes back to origin
-            values = np.swapaxes(values[1:-1, ...], 0, index)
+            values_full = np.gradient(values_full, ax_full, axis=0)
+            # Get values on input axis and swap axes back to origin
+            if values_full.shape[0] > values.shape[0]:
+                values_full = values_full[1:-1, ...]
+            values = np.swapaxes(values_full, 0, index)
 
         else:
             raise Exception("Cannot derivate along axis if axis size is 1")
-- 
2.43.0


From 12d677e0e3f16136b6fa33cea0d0b8dd364092ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:08 +0000
Subject: [PATCH 16/68] fix: start anti-derivatives from the first sample of
 the axis

The anti-derivative at the first sample was that of the end of the axis, which
only holds for signals of zero mean, and anti-periodic signals did not give
anti-periodic anti-derivatives.  Pattern axes were rebuilt twice.
---
 .../Functions/derivation_integration.py        | 18 +++++++++++-------
 .../Methods/DataND/_rebuild_symmetries.py      |  1 +
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 8b1e5d0..f0c25ad 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -64,14 +64,18 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # in case of periodicity (respectively anti-periodicity)
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
             # Anti-derivate along axis
-            values = np.roll(
-                scp_int.cumulative_trapezoid(values_full, x=ax_full, axis=0),
-                shift=1,
-                axis=0,
+            values_full = scp_int.cumulative_trapezoid(
+                values_full, x=ax_full, axis=0, initial=0
             )
-            # Integration constant is given by removing average value
-            values = values - np.mean(values, axis=0)
-            # Get N first values and swap axes back to origin
+            # Get N first values
+            values = values_full[: values.shape[0], ...]
+            if is_aper:
+                # Integration constant is such that anti-derivate is anti-periodic
+                values = values - values_full[-1, ...] / 2
+            else:
+                # Integration constant is given by removing average value
+                values = values - np.mean(values, axis=0)
+            # Swap axes back to origin
             values = np.swapaxes(values, 0, index)
 
         else:
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 0fa4c61..e955881 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -39,6 +39,7 @@ def _rebuild_symmetries(
                     "rms",
                     "integrate",
                     "integrate_local",
+                    "antiderivate",
                     "derivate",
                     "smallestperiod",
                 ]
-- 
2.43.0


From a350d38200f22a7aeb83855de6be34ebe4599ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:05 +0000
Subject: [PATCH 17/68] fix: match requests to axes by axis name only

An axis whose name appeared in a unit, a normalization or another axis name
(such as z in {Hz}) captured requests made on other axes.
---
 SciDataTool/Functions/fix_axes_order.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/fix_axes_order.py b/SciDataTool/Functions/fix_axes_order.py
index ea6db07..d0befab 100644
--- a/SciDataTool/Functions/fix_axes_order.py
+++ b/SciDataTool/Functions/fix_axes_order.py
@@ -1,3 +1,5 @@
+import re
+
 from numpy import array
 from SciDataTool.Functions.Plot import fft_dict, ifft_dict
 
@@ -6,13 +8,15 @@ def fix_axes_order(axes_list, args):
     """Put args in same order as axes_list"""
     indices = []
     for j, arg in enumerate(args):
+        # Only compare axis names (not units, extensions or normalizations)
+        name = re.split(r"[=\[<>{]|->", arg)[0].strip()
         for i, axis in enumerate(axes_list):
             if (
-                axis in arg
+                axis == name
                 or axis in fft_dict
-                and fft_dict[axis] in arg
+                and fft_dict[axis] == name
                 or axis in ifft_dict
-                and ifft_dict[axis] in arg
+                and ifft_dict[axis] == name
             ):
                 indices.append(i)
                 break
-- 
2.43.0


From 0dfbb677756fed26e0718718cef8e5eb9bc39b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:59 +0000
Subject: [PATCH 18/68] fix: combine reductions of antiperiodic axes with
 nonlinear reductions

The samples of opposite sign cannot be deduced from the values once another axis
has been reduced by a maximum, a minimum or a root mean square, so they are
rebuilt beforehand.
---
 .../Methods/DataND/_apply_operations.py       | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 493b12f..9ada251 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -33,6 +33,31 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
     if is_magnitude and "dB" not in unit:
         values = np_abs(values)
 
+    # Rebuild one full period of anti-periodic axes if the opposite samples cannot
+    # be deduced from the reduced values
+    index_rebuilt = []
+    if not is_magnitude:
+        for axis_requested in axes_list:
+            if (
+                axis_requested.extension
+                in ["max", "min", "sum", "rss", "mean", "rms", "integrate"]
+                and axis_requested.name not in ["freqs", "frequency", "wavenumber"]
+                and not axis_requested.is_pattern
+                and self.axes[axis_requested.index].get_periodicity()[1]
+                and (
+                    axis_requested.extension in ["max", "min"]
+                    or any(
+                        axis.extension in ["max", "min", "rss", "rms"]
+                        for axis in axes_list
+                        if axis is not axis_requested
+                    )
+                )
+            ):
+                index_rebuilt.append(axis_requested.index)
+                values = concatenate(
+                    (values, negative(values)), axis=axis_requested.index
+                )
+
     # Apply sums, means, etc
     for axis_requested in axes_list:
         # Get axis data
@@ -59,9 +84,14 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         if is_aper and (is_fft or is_magnitude):
             # Spectra and magnitudes do not change sign from one period to another
             is_aper = False
-        if is_aper and extension in ["max", "min"]:
-            # Account for the samples of opposite sign
-            values = concatenate((values, negative(values)), axis=index)
+        if index in index_rebuilt:
+            # Values are given on one full period (stored samples and their opposite)
+            is_aper = False
+            Nper = Nper / 2
+            if ax_val.size > 1:
+                ax_val = concatenate(
+                    (ax_val, ax_val - 2 * ax_val[0] + ax_val[1] + ax_val[-1])
+                )
         # max over max axes
         if extension in "max":
             values = nanmax(values, axis=index, keepdims=True)
-- 
2.43.0


From d5197c46c8bd65577a06e769de82165a4d7d3cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:07 +0000
Subject: [PATCH 19/68] fix: correct the dimensions of metre, gram and henry

Mass and length were swapped, so that N/m2 and Pa did not match.
---
 SciDataTool/Functions/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 25c3cad..eef4882 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -44,7 +44,7 @@ unit_symbols = [
     ("Mx", 1.0e-8, (1, 2, -2, 0, 0, -1)),  # Maxwell
     ("Hz", 1.0, (0, 0, -1, 0, 0, 0)),  # Herz
     ("Pa", 1.0, (1, -1, -2, 0, 0, 0)),  # Pascal
-    ("g", 1.0e-3, (0, 1, 0, 0, 0, 0)),  # gram
+    ("g", 1.0e-3, (1, 0, 0, 0, 0, 0)),  # gram
     ("s", 1.0, (0, 0, 1, 0, 0, 0)),  # second
     ("h", 3600.0, (0, 0, 1, 0, 0, 0)),  # hour
     #    ("K",       1.0, (0,0,0,1,0,0)),   # Kelvin
@@ -57,8 +57,8 @@ unit_symbols = [
     ("G", 1.0e-4, (1, 0, -2, 0, 0, -1)),  # Gauss
     ("V", 1.0, (1, 2, -3, 0, 0, -1)),  # Volt
     ("F", 1.0, (-1, -2, 4, 0, 0, 2)),  # Farrad
-    ("H", 1.0, (1, -2, -2, 0, 0, -2)),  # Henry
-    ("m", 1.0, (1, 0, 0, 0, 0, 0)),  # meter
+    ("H", 1.0, (1, 2, -2, 0, 0, -2)),  # Henry
+    ("m", 1.0, (0, 1, 0, 0, 0, 0)),  # meter
 ]
 # Dictionnary of the prefixes and their values
 unit_prefixes = {
-- 
2.43.0


From a59f8915d0a940f38e9bc958e71cdc46450568b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:59 +0000
Subject: [PATCH 20/68] fix: read unit strings as products of prefix, symbol
 and power

Symbols were searched anywhere in the string, so that prefixes such as in TV, Gm
or hA were taken for units and further factors (Nm, kgm2) were ignored.
---
 SciDataTool/Functions/conversions.py | 42 ++++++++++++++++------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index eef4882..6d2d9f5 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -1,3 +1,5 @@
+from re import escape, fullmatch
+
 from SciDataTool.Functions import UnitError
 from SciDataTool.Functions.fft_functions import (
     comp_fft_freqs,
@@ -89,24 +91,28 @@ unit_prefixes = {
 
 
 def get_dim_prefix(unit_str):
+    unit_str = unit_str.strip("* ")
     if unit_str == "":
         unit_str = "dimless"
-    p = 1  # power of the unit
-    dim = None
-    for key in unit_symbols:
-        if key[0] in unit_str:
-            if unit_str.rsplit(key[0], 1)[1].isdigit():
-                p = int(unit_str.rsplit(key[0], 1)[1])
-            dim = [p * d for d in key[2]]
-            prefix_str = unit_str.rsplit(key[0], 1)[0]
-            if prefix_str in unit_prefixes.keys():
-                prefix = (unit_prefixes.get(prefix_str) * key[1]) ** p
-            else:
-                raise UnitError("Prefix " + prefix_str + " unknown")
-            break
-    if not dim:
-        raise UnitError("Unit " + unit_str + " unknown")
-    return (dim, prefix)
+    # Look for a single unit (prefix, symbol and power), then for a product of units
+    for i in range(len(unit_str), 0, -1):
+        for symbol, value, dimensions in unit_symbols:
+            match = fullmatch("(.*)" + escape(symbol) + "([0-9]*)", unit_str[:i])
+            if match is None or match.group(1) not in unit_prefixes:
+                continue
+            p = int(match.group(2) or 1)  # power of the unit
+            dim = [p * d for d in dimensions]
+            prefix = (unit_prefixes[match.group(1)] * value) ** p
+            rest = unit_str[i:].lstrip("* ")
+            if rest == "":
+                return (dim, prefix)
+            elif not rest[0].isdigit():
+                try:
+                    dim_rest, prefix_rest = get_dim_prefix(rest)
+                except UnitError:
+                    continue
+                return ([d + dr for d, dr in zip(dim, dim_rest)], prefix * prefix_rest)
+    raise UnitError("Unit " + unit_str + " unknown")
 
 
 def get_unit_derivate(unit_str, axis_unit):
@@ -235,8 +241,8 @@ def convert(values, unit1, unit2):
         unit1_save = unit1
         unit2_save = unit2
         # Format the strings
-        unit1 = unit1.replace("*", "").replace(" ", "").replace("^", "")
-        unit2 = unit2.replace("*", "").replace(" ", "").replace("^", "")
+        unit1 = unit1.replace("^", "")
+        unit2 = unit2.replace("^", "")
         # Unit1 parsing
         if "/" in unit1:
             dim1_denom, prefix1_denom = get_dim_prefix(unit1.split("/")[1])
-- 
2.43.0


From 4dd493dbcc7777cbc38478c5b626514732e18dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:59 +0000
Subject: [PATCH 21/68] fix: find the axis unit as a factor when naming units
 of integrals

The unit of the axis was searched anywhere in the unit of the field, which broke
units such as Ohm, rpm or dimless.
---
 SciDataTool/Functions/conversions.py | 118 +++++++++------------------
 1 file changed, 38 insertions(+), 80 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 6d2d9f5..037b02a 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -1,4 +1,4 @@
-from re import escape, fullmatch
+from re import escape, finditer, fullmatch
 
 from SciDataTool.Functions import UnitError
 from SciDataTool.Functions.fft_functions import (
@@ -115,100 +115,58 @@ def get_dim_prefix(unit_str):
     raise UnitError("Unit " + unit_str + " unknown")
 
 
-def get_unit_derivate(unit_str, axis_unit):
+def get_unit_power(unit_str, axis_unit):
+    """Returns the power of axis_unit in a product of units, and the other units"""
+    for match in finditer(escape(axis_unit) + "([0-9]*)", unit_str):
+        others = (unit_str[: match.start()], unit_str[match.end() :])
+        try:
+            # Check that axis_unit is not a part of another unit (such as m in Ohm)
+            for other in others:
+                get_dim_prefix(other)
+        except UnitError:
+            continue
+        return int(match.group(1) or 1), others
+    return 0, (unit_str, "")
+
+
+def multiply_unit(unit_str, axis_unit, power):
+    """Multiplies unit_str by axis_unit at given power (+1 or -1)"""
     unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
     if axis_unit == "Hz":
         axis_unit = "s"
     if axis_unit == "rad":
         axis_unit = "m"
-    p = 0
     if "/" in unit_str:
         unit_num = unit_str.split("/")[0]
         unit_denom = unit_str.split("/")[1]
     else:
         unit_num = unit_str
         unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
+    p_num, others_num = get_unit_power(unit_num, axis_unit)
+    p_denom, others_denom = get_unit_power(unit_denom, axis_unit)
+
+    def join(others, p):
+        if p == 0:
+            return others[0] + others[1]
+        return others[0] + axis_unit + (str(p) if p > 1 else "") + others[1]
+
+    if p_num > 0 or (p_denom == 0 and power > 0):
+        unit_num = join(others_num, p_num + power)
     else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str += axis_unit
-        else:
-            unit_str += "/" + axis_unit
-    return unit_str
+        unit_denom = join(others_denom, p_denom - power)
+    if unit_denom == "":
+        return unit_num
+    return unit_num + "/" + unit_denom
+
+
+def get_unit_derivate(unit_str, axis_unit):
+    """Returns the unit of the derivate along an axis of unit axis_unit"""
+    return multiply_unit(unit_str, axis_unit, -1)
 
 
 def get_unit_integrate(unit_str, axis_unit):
-    unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
-    if axis_unit == "Hz":
-        axis_unit = "s"
-    if axis_unit == "rad":
-        axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
-    else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_denom = unit_denom.replace(axis_unit, "")
-            if unit_denom == "":
-                unit_str = unit_num
-            else:
-                unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str = unit_num + axis_unit + "/" + unit_denom
-        else:
-            unit_str += axis_unit
-    return unit_str
+    """Returns the unit of the integral along an axis of unit axis_unit"""
+    return multiply_unit(unit_str, axis_unit, 1)
 
 
 def convert(values, unit1, unit2):
-- 
2.43.0


From 89374efca85362509b75c237549d5b2df72ef5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:18 +0000
Subject: [PATCH 22/68] fix: remove the average value when antideriving spectra
 instead of dividing by zero

---
 SciDataTool/Functions/derivation_integration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index f0c25ad..97c7df2 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -35,7 +35,13 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
         dim_array = np.ones((1, values.ndim), int).ravel()
         dim_array[index] = -1
         axis_reshaped = ax_val.reshape(dim_array)
-        values = values / (axis_reshaped * 2 * 1j * np.pi)
+        # Integration constant is given by removing average value (zero frequency)
+        is_zero = axis_reshaped == 0
+        values = np.where(
+            is_zero,
+            0,
+            values / (np.where(is_zero, 1, axis_reshaped) * 2 * 1j * np.pi),
+        )
 
     elif is_phys:
 
-- 
2.43.0


From 4f43489db11b2b56ae4e076567ae26a778efd7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:09 +0000
Subject: [PATCH 23/68] fix: name units and keep symmetries of extracted fields
 from the matching request

Requests were looked up by the position of the axis in the field, which failed or
used another request when axes were omitted or named in another order, and
values requested in another unit were labelled with the original unit.
---
 SciDataTool/Methods/DataND/get_data_along.py | 25 ++++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index cfb4e2f..814ce25 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -70,20 +70,23 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                         is_components = axis.is_components
                         axis_values = results[axis_name]
                         ax_unit = rev_axes_dict[axis_name][2]
+            # Requested axis corresponding to this axis
+            axis_requested = [axis for axis in axes_list if axis.index == index][0]
             # Update symmetries
-            if (
-                "smallestperiod" in args[index]
-                or args[index]
-                in [
-                    "freqs",
-                    "wavenumber",
-                ]
-                or "antiderivate" in args[index]
-                or "derivate" in args[index]
+            if axis_requested.extension in [
+                "smallestperiod",
+                "antiderivate",
+                "derivate",
+            ] or (
+                axis_requested.name in ["freqs", "wavenumber"]
+                and axis_requested.extension == "whole"
             ):
                 symmetries = self.axes[index].symmetries.copy()
             else:
                 symmetries = dict()
+            # Update unit if axis is requested in another unit
+            if axis_requested.unit not in ["SI", *self.axes[index].normalizations]:
+                ax_unit = axis_requested.unit
             Axis = Data1D(
                 name=name,
                 unit=ax_unit,
@@ -102,8 +105,10 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if "dB" in unit:
         unit = unit
     else:
+        # Update unit if field is requested in another unit
+        if unit == "SI" or unit in self.normalizations:
+            unit = self.unit
         # Update unit if derivation or integration
-        unit = self.unit
         for axis in axes_list:
             if axis.extension in ["antiderivate", "integrate", "integrate_local"]:
                 unit = get_unit_integrate(unit, axis.corr_unit)
-- 
2.43.0


From 2050acc426fb717a2e5f3eef981e90655b803eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:46 +0000
Subject: [PATCH 24/68] fix: do not share values and normalizations with
 extracted fields

---
 SciDataTool/Methods/DataND/get_data_along.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index 814ce25..708b1ee 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from SciDataTool import Data1D
 from SciDataTool.Functions import axes_dict, rev_axes_dict
 from SciDataTool.Functions.conversions import get_unit_derivate, get_unit_integrate
@@ -30,7 +32,7 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         results = self.get_along(
             *args, is_squeeze=False, unit=unit, is_norm=is_norm, axis_data=axis_data
         )
-    values = results.pop(self.symbol)
+    values = results.pop(self.symbol).copy()
     del results["axes_dict_other"]
     axes_list = results.pop("axes_list")
     Axes = []
@@ -90,9 +92,9 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             Axis = Data1D(
                 name=name,
                 unit=ax_unit,
-                values=axis_values,
+                values=axis_values.copy(),
                 is_components=is_components,
-                normalizations=self.axes[index].normalizations.copy(),
+                normalizations=deepcopy(self.axes[index].normalizations),
                 symmetries=symmetries,
             ).to_linspace()
             if hasattr(self.axes[index], "sort_indices") and hasattr(
@@ -121,6 +123,6 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         symbol=self.symbol,
         axes=Axes,
         values=values,
-        normalizations=self.normalizations.copy(),
+        normalizations=deepcopy(self.normalizations),
         is_real=self.is_real,
     )
-- 
2.43.0


From 0653481d23342c301c7c6c82d92bbc4eb196e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:50 +0000
Subject: [PATCH 25/68] fix: accept any numpy number where a number is expected

Integers other than int32 were refused, which prevented from extracting fields
along integer axes such as wavenumbers.
---
 SciDataTool/Classes/_check.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 7d27085..77b7848 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -1,4 +1,4 @@
-from numpy import array, empty, int32, squeeze, expand_dims
+from numpy import array, empty, expand_dims, floating, integer, number, squeeze
 
 
 def set_array(obj, prop, value):
@@ -75,8 +75,11 @@ def check_var(var_name, value, expect_type, Vmin=None, Vmax=None):
     """
     if value is not None:
         type_value = type(value).__name__
-        if type_value == "float64":
+        # Numpy numbers are checked as Python numbers
+        if isinstance(value, floating):
             type_value = "float"
+        elif isinstance(value, integer):
+            type_value = "int"
         # Check if value has the good type
         check_type(var_name, value, expect_type, type_value)
         # Check if value is in the good range (if needed)
@@ -108,9 +111,8 @@ def check_type(var_name, value, expect_type, type_value):
     """
     if expect_type == "float":  # float variable can take int value
         if not (
-            (isinstance(value, int32) and not isinstance(value, bool))
-            or (isinstance(value, int) and not isinstance(value, bool))
-            or isinstance(value, float)
+            (isinstance(value, int) and not isinstance(value, bool))
+            or isinstance(value, (float, integer, floating))
         ):
             raise CheckTypeError(
                 "For " + var_name + " : Double expected, " + type_value + " given"
@@ -119,8 +121,7 @@ def check_type(var_name, value, expect_type, type_value):
         # complex variable can take float or int value
         if not (
             (isinstance(value, int) and not isinstance(value, bool))
-            or isinstance(value, float)
-            or isinstance(value, complex)
+            or isinstance(value, (float, complex, number))
         ):
             raise CheckTypeError(
                 "For " + var_name + " : Complex expected, " + type_value + " given"
@@ -140,11 +141,6 @@ def check_type(var_name, value, expect_type, type_value):
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
             )
-    elif expect_type == "int" and type_value == "int32":
-        if value % 1 != 0:  # If not an Integer
-            raise CheckTypeError(
-                "For " + var_name + " : Integer expected, " + type_value + " given"
-            )
     elif expect_type[0] == "[" and expect_type[-1] == "]":  # List of type
         if not isinstance(value, list):
             raise CheckTypeError(
@@ -262,9 +258,9 @@ def check_min(var_name, value, type_value, Vmin):
     """
     # Work only for number and matrix
     msg = "Check : You can't specify the min of variable of type " + type_value
-    assert type_value in ["ndarray", "int", "long", "float", "int32"], msg
+    assert type_value in ["ndarray", "int", "long", "float"], msg
     # For number
-    if (isinstance(value, int) or isinstance(value, float)) and value < Vmin:
+    if isinstance(value, (int, float, integer, floating)) and value < Vmin:
         raise CheckMinError(
             var_name + " must be >= " + str(Vmin) + ", " + str(value) + " given"
         )
@@ -302,9 +298,9 @@ def check_max(var_name, value, type_value, Vmax):
     """
     # Work only for number and matrix
     msg = "Check : You can't specify the max of variable of type " + type_value
-    assert type_value in ["ndarray", "int", "long", "float", "int32"], msg
+    assert type_value in ["ndarray", "int", "long", "float"], msg
     # For number
-    if (isinstance(value, int) or isinstance(value, float)) and value > Vmax:
+    if isinstance(value, (int, float, integer, floating)) and value > Vmax:
         raise CheckMaxError(
             var_name + " must be <= " + str(Vmax) + ", " + str(value) + " given"
         )
-- 
2.43.0


From 66aa7b81da3e8e2632e41c21b91b19d37849b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:33 +0000
Subject: [PATCH 26/68] fix: do not alter vector normalizations while reading
 axis values

---
 SciDataTool/Methods/Data1D/get_values.py      | 26 +++++++++----------
 .../Methods/DataLinspace/get_values.py        | 26 +++++++++----------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index d691c22..4be6751 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -51,6 +51,10 @@ def get_values(
 
     values = self.values
     norm_vector = None
+    if normalization in self.normalizations and isinstance(
+        self.normalizations[normalization], Norm_vector
+    ):
+        norm_vector = self.normalizations[normalization].vector
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -69,6 +73,8 @@ def get_values(
             nper = self.symmetries["antiperiod"]
             self.symmetries["antiperiod"] = 2
             values = rebuild_symmetries_axis(values, self.symmetries)
+            if norm_vector is not None:
+                norm_vector = rebuild_symmetries_axis(norm_vector, self.symmetries)
             self.symmetries["antiperiod"] = nper
             pass
         elif "period" in self.symmetries:
@@ -77,15 +83,8 @@ def get_values(
             pass
     else:
         values = rebuild_symmetries_axis(values, self.symmetries)
-        if (
-            normalization is not None
-            and normalization in self.normalizations
-            and isinstance(self.normalizations[normalization], Norm_vector)
-        ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+        if norm_vector is not None:
+            norm_vector = rebuild_symmetries_axis(norm_vector, self.symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -108,7 +107,11 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                norm = self.normalizations[normalization]
+                if norm_vector is not None:
+                    # Vector on the same (rebuilt) axis as the values
+                    norm = Norm_vector(vector=norm_vector, unit=norm.unit)
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -121,7 +124,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 18af576..ea4ecb4 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -62,6 +62,10 @@ def get_values(
     values = linspace(initial, final, int(number), endpoint=self.include_endpoint)
 
     norm_vector = None
+    if normalization in self.normalizations and isinstance(
+        self.normalizations[normalization], Norm_vector
+    ):
+        norm_vector = self.normalizations[normalization].vector
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -80,6 +84,8 @@ def get_values(
             nper = self.symmetries["antiperiod"]
             self.symmetries["antiperiod"] = 2
             values = rebuild_symmetries_axis(values, self.symmetries)
+            if norm_vector is not None:
+                norm_vector = rebuild_symmetries_axis(norm_vector, self.symmetries)
             self.symmetries["antiperiod"] = nper
             pass
         elif "period" in self.symmetries:
@@ -88,15 +94,8 @@ def get_values(
             pass
     else:
         values = rebuild_symmetries_axis(values, self.symmetries)
-        if (
-            normalization is not None
-            and normalization in self.normalizations
-            and isinstance(self.normalizations[normalization], Norm_vector)
-        ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+        if norm_vector is not None:
+            norm_vector = rebuild_symmetries_axis(norm_vector, self.symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -119,7 +118,11 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                norm = self.normalizations[normalization]
+                if norm_vector is not None:
+                    # Vector on the same (rebuilt) axis as the values
+                    norm = Norm_vector(vector=norm_vector, unit=norm.unit)
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -132,7 +135,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
-- 
2.43.0


From 122c05b6cec47913b218b4b24a34e33e26a9a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:32 +0000
Subject: [PATCH 27/68] fix: report harmonics at their own wavenumber when
 angle precedes time

---
 SciDataTool/Methods/DataND/get_harmonics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_harmonics.py b/SciDataTool/Methods/DataND/get_harmonics.py
index dbf42cf..4449e52 100644
--- a/SciDataTool/Methods/DataND/get_harmonics.py
+++ b/SciDataTool/Methods/DataND/get_harmonics.py
@@ -40,7 +40,11 @@ def get_harmonics(
         f = return_dict["freqs"]
         # Flatten the data
         values_flat = values.flatten()
-        R, F = meshgrid(r, f)
+        names = list(return_dict)
+        if names.index("freqs") < names.index("wavenumber"):
+            R, F = meshgrid(r, f)
+        else:
+            F, R = meshgrid(f, r)
         f = F.flatten()
         r = R.flatten()
         # Get the N_harm largest peaks
-- 
2.43.0


From 0e2aa196341e84a97ce917ea48a007967e033f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:46 +0000
Subject: [PATCH 28/68] fix: read thresholds requested on normalized axes

---
 SciDataTool/Functions/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 44775bb..71f0848 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -34,9 +34,9 @@ def read_input_strings(args, axis_data):
             elif "[" in elems[1]:
                 unit = elems[1].split("[")[0]
             elif ">" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split(">")[0]
             elif "<" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split("<")[0]
             else:
                 unit = elems[1]
             name = elems[0]
-- 
2.43.0


From fa80374a626ed17c6180548793887173ade544ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:46 +0000
Subject: [PATCH 29/68] fix: normalize wavenumbers after accounting for the
 symmetries of the angle

---
 SciDataTool/Functions/fft_functions.py         | 8 +++++++-
 SciDataTool/Methods/Data1D/get_values.py       | 9 ++++-----
 SciDataTool/Methods/DataLinspace/get_values.py | 9 ++++-----
 SciDataTool/Methods/RequestedAxis/get_axis.py  | 9 +--------
 4 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 555c1fd..2222a39 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -269,6 +269,12 @@ def comp_fftn(values, axes_list, is_real=True):
     for axis in axes_list:
         if axis.index not in axes_dict_non_uniform:
             if axis.transform == "fft":
+                wavenumber = axis.values
+                if axis.name == "wavenumber" and axis.corr_values is not None:
+                    # Wavenumbers before normalization
+                    wavenumber = array(comp_fft_freqs(axis.corr_values, False, is_real))
+                    if axis.indices is not None:
+                        wavenumber = wavenumber[axis.indices]
                 if is_real and axis.name == "freqs":
                     axes.append(axis.index)
                     shape.append(values.shape[axis.index])
@@ -277,7 +283,7 @@ def comp_fftn(values, axes_list, is_real=True):
                     is_real
                     and axis.name == "wavenumber"
                     and "freqs" not in axis_names
-                    and min(axis.values) >= 0
+                    and min(wavenumber) >= 0
                 ):
                     axes.append(axis.index)
                     shape.append(values.shape[axis.index])
diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index 4be6751..366d9d9 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -91,13 +91,12 @@ def get_values(
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, operation)  # Conversion function
         values = array(func(values, is_real=is_real))
-        if is_full and (self.name == "freqs" or self.name == "wavenumber"):
+        if is_full and self.name != "time":
+            # Transform of the whole axis
             if "period" in self.symmetries:
-                if self.name != "time":
-                    values = values * self.symmetries["period"]
+                values = values * self.symmetries["period"]
             elif "antiperiod" in self.symmetries:
-                if self.name != "time":
-                    values = values * self.symmetries["antiperiod"] / 2
+                values = values * self.symmetries["antiperiod"] / 2
 
     # Normalization
     if normalization is not None:
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ea4ecb4..921ad32 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -102,13 +102,12 @@ def get_values(
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, operation)  # Conversion function
         values = array(func(values, is_real=is_real))
-        if is_full and (self.name == "freqs" or self.name == "wavenumber"):
+        if is_full and self.name != "time":
+            # Transform of the whole axis
             if "period" in self.symmetries:
-                if self.name != "time":
-                    values = values * self.symmetries["period"]
+                values = values * self.symmetries["period"]
             elif "antiperiod" in self.symmetries:
-                if self.name != "time":
-                    values = values * self.symmetries["antiperiod"] / 2
+                values = values * self.symmetries["antiperiod"] / 2
 
     # Normalization
     if normalization is not None:
diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 3df6a1d..0d66c21 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -181,16 +181,9 @@ def get_axis(self, axis, is_real):
             operation=self.operation,
             is_real=is_real,
             corr_unit=self.corr_unit,
+            is_full=self.transform == "fft",  # Rebuild symmetries in fft case
         )
 
-        # Rebuild symmetries in fft case
-        if self.transform == "fft":
-            if "period" in axis.symmetries:
-                if axis.name != "time":
-                    values = values * axis.symmetries["period"]
-            elif "antiperiod" in axis.symmetries:
-                if axis.name != "time":
-                    values = values * axis.symmetries["antiperiod"] / 2
         # Rebuild symmetries in ifft case
         if self.transform == "ifft":
             if self.extension not in [
-- 
2.43.0


From 57b061b46bf871650ff717af66aceda4d6ee405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:21 +0000
Subject: [PATCH 30/68] fix: invert spectra of real angle fields and of odd or
 small sizes

---
 SciDataTool/Functions/fft_functions.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 2222a39..23927e0 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -76,11 +76,10 @@ def comp_fft_time(freqs, is_angle, is_real):
     else:
         if is_real and not is_angle:
             N_tot = 2 * (len(freqs) - 1)  # Number of samples
-            fs = freqs[-1] / (N_tot)
         else:
             N_tot = len(freqs)  # Number of samples
-            fs = freqs[-1] / (N_tot - 2)
-        tf = 1 / (fs * 2)
+        # Duration is the inverse of the frequency step
+        tf = (len(freqs) - 1) / (freqs[-1] - freqs[0])
         time = linspace(0, tf, N_tot, endpoint=False)
         # fsampt = freqs[-1] * 2.0
         # timestep = 1.0 / fsampt
@@ -453,7 +452,13 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                 axes.append(axis.index)
                 shape.append(2 * (values.shape[axis.index] - 1))
                 is_onereal = True
-            elif is_real and axis.name == "angle" and "time" not in axis_names:
+            elif (
+                is_real
+                and axis.name == "angle"
+                and "time" not in axis_names
+                and axis.corr_values is not None
+                and min(axis.corr_values) >= 0
+            ):
                 axes.append(axis.index)
                 shape.append(values.shape[axis.index])
                 is_half = True
@@ -475,13 +480,9 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
             values = insert(other_values, 0, slice_0, axis=axes[-1])
             values_IFT = irfftn(values, axes=axes)
         elif is_half:
-            values = values * size / 2
-            values_shift = ifftshift(values, axes=axes[:-1])
-            slice_0 = take(values_shift, 0, axis=axes[-1])
-            slice_0 *= 2
-            other_values = delete(values_shift, 0, axis=axes[-1])
-            values = insert(other_values, 0, slice_0, axis=axes[-1])
-            values_IFT = ifftn(values, axes=axes)
+            # Real part of one-sided components
+            values_shift = ifftshift(values, axes=axes[:-1]) * size
+            values_IFT = ifftn(values_shift, axes=axes)
         else:
             values_shift = ifftshift(values, axes=axes) * size
             values_IFT = ifftn(values_shift, axes=axes)
-- 
2.43.0


From d4b9883cf7c89d98ea7c4c915fff74db57e3e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:11 +0000
Subject: [PATCH 31/68] fix: load files holding SciDataTool objects

---
 SciDataTool/Functions/load.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index d79d61a..bd23cc8 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -4,6 +4,7 @@ from SciDataTool.Functions.Load.load_json import load_json
 from SciDataTool.Functions.Load.load_hdf5 import load_hdf5
 from SciDataTool.Functions.Load.load_pkl import load_pkl
 from SciDataTool.Functions.Load.import_class import import_class
+from SciDataTool.Classes._check import InitUnKnowClassError
 
 
 def init_data(obj, file_path):
@@ -43,8 +44,11 @@ def init_data(obj, file_path):
         # --- pyleecan class (has to be checked befor 'normal' dict) ---
         # Check if the dictionay has a "__class__" key
         if "__class__" in obj:
-            # Check if data is a pyleecan class
-            class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
+            # Check if data is a SciDataTool or pyleecan class
+            try:
+                class_obj = import_class("SciDataTool.Classes", obj["__class__"], "")
+            except InitUnKnowClassError:
+                class_obj = import_class("pyleecan.Classes", obj["__class__"], "")
             if folder_path != "":
                 wd = getcwd()
                 chdir(folder_path)
-- 
2.43.0


From 924a60b6f361c667358fb4eab49cdb6dc46c2181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:11 +0000
Subject: [PATCH 32/68] fix: save complex values and numpy numbers

---
 SciDataTool/Classes/DataDual.py           |  4 ++++
 SciDataTool/Functions/save.py             | 21 ++++++++++++++++++++-
 SciDataTool/Methods/DataND/_set_values.py |  2 ++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 7da5841..29ffb48 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -458,6 +458,8 @@ class DataDual(DataND):
         elif type(value) is list:
             try:
                 value = array(value)
+                if value.dtype.kind == "U":  # Complex numbers loaded from a file
+                    value = value.astype(complex)
             except:
                 pass
         check_var("values_dt", value, "ndarray")
@@ -525,6 +527,8 @@ class DataDual(DataND):
         elif type(value) is list:
             try:
                 value = array(value)
+                if value.dtype.kind == "U":  # Complex numbers loaded from a file
+                    value = value.astype(complex)
             except:
                 pass
         check_var("values_df", value, "ndarray")
diff --git a/SciDataTool/Functions/save.py b/SciDataTool/Functions/save.py
index 46036b0..697579d 100644
--- a/SciDataTool/Functions/save.py
+++ b/SciDataTool/Functions/save.py
@@ -1,5 +1,6 @@
 from json import dump
 from os.path import join, basename, isdir
+from numpy import generic
 
 
 def fix_file_name(save_path, obj):
@@ -19,6 +20,17 @@ def is_json_serializable(obj):
         return False
 
 
+def convert_number(obj):
+    """Convert the numbers that json doesn't know (numpy and complex numbers)"""
+    if isinstance(obj, generic):
+        obj = obj.item()
+        if not isinstance(obj, complex):
+            return obj
+    if isinstance(obj, complex):
+        return str(obj)
+    raise TypeError(type(obj).__name__ + " is not JSON serializable")
+
+
 def has_as_dict(obj):
     """Check if object has 'as_dict' method."""
     return hasattr(obj, "as_dict") and callable(getattr(obj, "as_dict", None))
@@ -77,7 +89,14 @@ def save_data(obj, save_path=""):
     # save
     obj = build_data(obj)
     with open(file_path, "w") as json_file:
-        dump(obj, json_file, sort_keys=True, indent=4, separators=(",", ": "))
+        dump(
+            obj,
+            json_file,
+            sort_keys=True,
+            indent=4,
+            separators=(",", ": "),
+            default=convert_number,
+        )
 
 
 def save(self, save_path=""):
diff --git a/SciDataTool/Methods/DataND/_set_values.py b/SciDataTool/Methods/DataND/_set_values.py
index 90b0bd9..f24f6c2 100644
--- a/SciDataTool/Methods/DataND/_set_values.py
+++ b/SciDataTool/Methods/DataND/_set_values.py
@@ -9,6 +9,8 @@ def _set_values(self, value):
     elif type(value) is list:
         try:
             value = array(value)
+            if value.dtype.kind == "U":  # Complex numbers loaded from a file
+                value = value.astype(complex)
         except:
             pass
     check_var("values", value, "ndarray")
-- 
2.43.0


From 8ce18a3a1677c8d1ff39f63a1bfd1abdc79b540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:11 +0000
Subject: [PATCH 33/68] fix: copy the lists of the filter of an axis

---
 SciDataTool/Classes/Data1D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Classes/Data1D.py b/SciDataTool/Classes/Data1D.py
index a4f05bc..c84179a 100644
--- a/SciDataTool/Classes/Data1D.py
+++ b/SciDataTool/Classes/Data1D.py
@@ -449,7 +449,7 @@ class Data1D(Data):
         Data1D_dict["sort_indices"] = (
             self.sort_indices.copy() if self.sort_indices is not None else None
         )
-        Data1D_dict["filter"] = self.filter.copy() if self.filter is not None else None
+        Data1D_dict["filter"] = deepcopy(self.filter) if self.filter is not None else None
         Data1D_dict["char_to_rm"] = (
             self.char_to_rm.copy() if self.char_to_rm is not None else None
         )
@@ -480,7 +480,7 @@ class Data1D(Data):
         if self.filter is None:
             filter_val = None
         else:
-            filter_val = self.filter.copy()
+            filter_val = deepcopy(self.filter)
         if self.char_to_rm is None:
             char_to_rm_val = None
         else:
-- 
2.43.0


From ca71e5b2cbb092fef7306f7626c26f75f94eb4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:11 +0000
Subject: [PATCH 34/68] fix: leave the lists and dictionaries given to fields
 unchanged

---
 SciDataTool/Classes/DataDual.py                 | 2 ++
 SciDataTool/Classes/DataND.py                   | 1 +
 SciDataTool/Classes/VectorField.py              | 1 +
 SciDataTool/Methods/Data/_set_normalizations.py | 1 +
 4 files changed, 5 insertions(+)

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 29ffb48..f04abaa 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -416,6 +416,7 @@ class DataDual(DataND):
     def _set_axes_dt(self, value):
         """setter of axes_dt"""
         if type(value) is list:
+            value = value.copy()  # The input must not be changed
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
@@ -485,6 +486,7 @@ class DataDual(DataND):
     def _set_axes_df(self, value):
         """setter of axes_df"""
         if type(value) is list:
+            value = value.copy()  # The input must not be changed
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 8ea31f5..2b9d5c0 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -761,6 +761,7 @@ class DataND(Data):
     def _set_axes(self, value):
         """setter of axes"""
         if type(value) is list:
+            value = value.copy()  # The input must not be changed
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index d62d39e..f317b69 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -546,6 +546,7 @@ class VectorField(FrozenClass):
     def _set_components(self, value):
         """setter of components"""
         if type(value) is dict:
+            value = value.copy()  # The input must not be changed
             for key, obj in value.items():
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Methods/Data/_set_normalizations.py b/SciDataTool/Methods/Data/_set_normalizations.py
index cfb722f..9b82f13 100644
--- a/SciDataTool/Methods/Data/_set_normalizations.py
+++ b/SciDataTool/Methods/Data/_set_normalizations.py
@@ -6,6 +6,7 @@ from numpy import ndarray, int32, int64, float32, float64
 def _set_normalizations(self, value):
     """setter of normalizations"""
     if type(value) is dict:
+        value = value.copy()  # The input must not be changed
         for key, obj in value.items():
             if type(obj) is dict:
                 class_obj = import_class(
-- 
2.43.0


From fe60f759a20dd709aa03087f1110565c64b4580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:06 +0000
Subject: [PATCH 35/68] fix: compare objects whose normalizations or components
 have other names

---
 SciDataTool/Classes/Data.py        | 3 +++
 SciDataTool/Classes/VectorField.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/SciDataTool/Classes/Data.py b/SciDataTool/Classes/Data.py
index 0409550..4f66eef 100644
--- a/SciDataTool/Classes/Data.py
+++ b/SciDataTool/Classes/Data.py
@@ -169,6 +169,9 @@ class Data(FrozenClass):
             diff_list.append("len(" + name + "normalizations)")
         else:
             for key in self.normalizations:
+                if key not in other.normalizations:
+                    diff_list.append(name + ".normalizations[" + str(key) + "]")
+                    continue
                 diff_list.extend(
                     self.normalizations[key].compare(
                         other.normalizations[key],
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index f317b69..89df488 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -420,6 +420,9 @@ class VectorField(FrozenClass):
             diff_list.append("len(" + name + "components)")
         else:
             for key in self.components:
+                if key not in other.components:
+                    diff_list.append(name + ".components[" + str(key) + "]")
+                    continue
                 diff_list.extend(
                     self.components[key].compare(
                         other.components[key],
-- 
2.43.0


From f009a8ea655773b5791c06b94781264c7167e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:02 +0000
Subject: [PATCH 36/68] fix: rotate vector field components on whole axes
 before extraction

Asking for the other coordinate system sliced or scaled components twice,
rotated along the wrong axis, and left the field changed after an error.
Components are now rotated along the angle axis first and queried after.
Conversions keep the axial component.
---
 SciDataTool/Functions/conversions.py          |  50 +++-----
 SciDataTool/Functions/rotate_components.py    | 110 ++++++++++++++++++
 .../VectorField/get_harm_rphiz_along.py       |  69 +++--------
 .../Methods/VectorField/get_harm_xyz_along.py |  69 +++--------
 .../VectorField/get_mag_rphiz_along.py        |  64 +++-------
 .../Methods/VectorField/get_mag_xyz_along.py  |  64 +++-------
 .../Methods/VectorField/get_rphiz_along.py    |  75 +++---------
 .../Methods/VectorField/get_xyz_along.py      |  88 +++-----------
 SciDataTool/Methods/VectorField/to_rphiz.py   |  18 ++-
 SciDataTool/Methods/VectorField/to_xyz.py     |   6 +-
 10 files changed, 228 insertions(+), 385 deletions(-)
 create mode 100644 SciDataTool/Functions/rotate_components.py

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 037b02a..287790a 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -471,14 +471,14 @@ def rphiz_to_xyz(values):
 
     r = values[:, 0]
     phi = values[:, 1]
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         z = values[:, 2]
 
     affixe = r * exp(1j * phi)
     x = real(affixe)
     y = imag(affixe)
 
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         return column_stack((x, y, z))
     else:
         return column_stack((x, y))
@@ -574,41 +574,29 @@ def rphi_to_xy(r, phi):
     return (x, y)
 
 
-def cart2pol(field_x, field_y, phi):
-    cos_phi = cos(phi)
-    sin_phi = sin(phi)
-
-    dim_array = ones((1, field_x.ndim), int).ravel()
-    dim_array[1] = -1
+def cart2pol(field_x, field_y, phi, axis=None):
+    cos_phi, sin_phi = reshape_cos_sin(phi, field_x.ndim, axis)
 
-    # Reshape b with dim_array and perform elementwise multiplication with
-    # broadcasting along the singleton dimensions for the final output
-    cos_phi_reshaped = cos_phi.reshape(dim_array)
-    sin_phi_reshaped = sin_phi.reshape(dim_array)
-
-    field_r = field_x * cos_phi_reshaped + field_y * sin_phi_reshaped
-    field_phi = -field_x * sin_phi_reshaped + field_y * cos_phi_reshaped
+    field_r = field_x * cos_phi + field_y * sin_phi
+    field_phi = -field_x * sin_phi + field_y * cos_phi
 
     return (field_r, field_phi)
 
 
-def pol2cart(field_r, field_phi, phi):
-    cos_phi = cos(phi)
-    sin_phi = sin(phi)
+def pol2cart(field_r, field_phi, phi, axis=None):
+    cos_phi, sin_phi = reshape_cos_sin(phi, field_r.ndim, axis)
 
-    dim_array = ones((1, field_r.ndim), int).ravel()
-    if len(dim_array) > 1:
-        dim_array[1] = -1
+    field_x = field_r * cos_phi - field_phi * sin_phi
+    field_y = field_r * sin_phi + field_phi * cos_phi
 
-        # Reshape b with dim_array and perform elementwise multiplication with
-        # broadcasting along the singleton dimensions for the final output
-        cos_phi_reshaped = cos_phi.reshape(dim_array)
-        sin_phi_reshaped = sin_phi.reshape(dim_array)
-    else:
-        cos_phi_reshaped = cos_phi
-        sin_phi_reshaped = sin_phi
+    return (field_x, field_y)
 
-    field_x = field_r * cos_phi_reshaped - field_phi * sin_phi_reshaped
-    field_y = field_r * sin_phi_reshaped + field_phi * cos_phi_reshaped
 
-    return (field_x, field_y)
+def reshape_cos_sin(phi, ndim, axis=None):
+    """Returns cos and sin of the angle with singleton dimensions for the other axes (second axis by default)"""
+    dim_array = ones(ndim, int)
+    if axis is None:
+        axis = min(1, ndim - 1)
+    dim_array[axis] = -1
+
+    return (cos(phi).reshape(dim_array), sin(phi).reshape(dim_array))
diff --git a/SciDataTool/Functions/rotate_components.py b/SciDataTool/Functions/rotate_components.py
new file mode 100644
index 0000000..be043b3
--- /dev/null
+++ b/SciDataTool/Functions/rotate_components.py
@@ -0,0 +1,110 @@
+from numpy import zeros
+
+from SciDataTool.Functions.conversions import cart2pol, pol2cart
+from SciDataTool.Functions.symmetries import rebuild_symmetries
+
+
+def get_angle_data(data, args):
+    """Returns a copy of a field, defined along the whole angle axis (or along its smallest period if it is requested)
+    Parameters
+    ----------
+    data: DataND
+        a DataND object
+    args: list of strings
+        List of axes requested by the user
+    Returns
+    -------
+    a DataND object
+    """
+
+    angle_args = [arg for arg in args if "angle" in arg]
+    is_time = any(arg.startswith("time") for arg in args)
+    is_smallestperiod = angle_args != [] and "smallestperiod" in angle_args[0]
+
+    # Go back from wavenumber to angle (and from freqs to time if requested)
+    if len(data.get_axes("wavenumber")) > 0:
+        new_args = []
+        for axis in data.axes:
+            if axis.name == "wavenumber":
+                new_args.append("angle[smallestperiod]" if is_smallestperiod else "angle")
+            elif axis.name == "freqs" and is_time:
+                new_args.append("time")
+            elif axis.name == "freqs" or hasattr(axis, "rebuild_indices"):
+                new_args.append(axis.name)
+            else:
+                new_args.append(axis.name + "[smallestperiod]")
+        return data.get_data_along(*new_args)
+
+    # Rebuild the symmetries of the angle
+    new_data = data.copy()
+    if not is_smallestperiod:
+        index = [axis.name for axis in data.axes].index("angle")
+        axis = new_data.axes[index]
+        values = rebuild_symmetries(new_data.values, index, axis.symmetries)
+
+        # Dynamic import to avoid loop
+        module = __import__("SciDataTool.Classes.Data1D", fromlist=["Data1D"])
+        Data1D = getattr(module, "Data1D")
+        new_data.axes[index] = Data1D(
+            name=axis.name,
+            symbol=axis.symbol,
+            unit=axis.unit,
+            values=axis.get_values(),
+            normalizations=axis.normalizations,
+        ).to_linspace()
+        new_data.values = values
+
+    return new_data
+
+
+def rotate_components(components, name_1, name_2, args, rotate):
+    """Returns two components of a vector field in the other coordinate system"""
+
+    data_1, data_2 = None, None
+    if name_1 in components:
+        data_1 = get_angle_data(components[name_1], args)
+    if name_2 in components:
+        data_2 = get_angle_data(components[name_2], args)
+    # Missing component is null
+    if data_1 is None:
+        data_1 = data_2.copy()
+        data_1.values = zeros(data_2.values.shape, dtype=data_2.values.dtype)
+    elif data_2 is None:
+        data_2 = data_1.copy()
+        data_2.values = zeros(data_1.values.shape, dtype=data_1.values.dtype)
+
+    index = [axis.name for axis in data_1.axes].index("angle")
+    phi = data_1.axes[index].get_values(is_smallestperiod=True)
+    data_1.values, data_2.values = rotate(data_1.values, data_2.values, phi, index)
+
+    return data_1, data_2
+
+
+def get_cartesian(components, args):
+    """Returns the components along x and y of a vector field with radial and/or tangential components
+    Parameters
+    ----------
+    components: dict
+        Dict of the components of the vector field
+    args: list of strings
+        List of axes requested by the user
+    Returns
+    -------
+    two DataND objects
+    """
+    return rotate_components(components, "radial", "tangential", args, pol2cart)
+
+
+def get_cylindrical(components, args):
+    """Returns the radial and tangential components of a vector field with components along x and/or y
+    Parameters
+    ----------
+    components: dict
+        Dict of the components of the vector field
+    args: list of strings
+        List of axes requested by the user
+    Returns
+    -------
+    two DataND objects
+    """
+    return rotate_components(components, "comp_x", "comp_y", args, cart2pol)
diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 0e226d2..59cdc97 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -1,6 +1,6 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.rotate_components import get_cylindrical
 from SciDataTool.Functions import AxisError
 
 
@@ -26,66 +26,27 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Change coordinates along the whole axes
+        Datar, Dataphi = get_cylindrical(self.components, args)
+        # Extract along the requested axes
+        resultr = Datar.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        resultphi = Dataphi.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultphi[Dataphi.symbol]
+        shape = field_r.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
@@ -108,7 +69,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "tangential" in self.components.keys():
         resultphi = self.components["tangential"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 7822786..129a08a 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -1,6 +1,6 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.rotate_components import get_cartesian
 from SciDataTool.Functions import AxisError
 
 
@@ -26,66 +26,27 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
+        # Change coordinates along the whole axes
+        Datax, Datay = get_cartesian(self.components, args)
+        # Extract along the requested axes
+        resultx = Datax.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datax.symbol]
+        resulty = Datay.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Datay.symbol]
+        shape = field_x.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
@@ -109,7 +70,7 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 6dc0444..f8fef1f 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -1,6 +1,6 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.rotate_components import get_cylindrical
 from SciDataTool.Functions import AxisError
 
 
@@ -26,63 +26,25 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Change coordinates along the whole axes
+        Datar, Dataphi = get_cylindrical(self.components, args)
+        # Extract along the requested axes
+        resultr = Datar.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        resultphi = Dataphi.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultphi[Dataphi.symbol]
+        shape = field_r.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_magnitude_along(
@@ -103,7 +65,7 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 92fb5ab..e767779 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -1,6 +1,6 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.rotate_components import get_cartesian
 from SciDataTool.Functions import AxisError
 
 
@@ -26,63 +26,25 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
+        # Change coordinates along the whole axes
+        Datax, Datay = get_cartesian(self.components, args)
+        # Extract along the requested axes
+        resultx = Datax.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datax.symbol]
+        resulty = Datay.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Datay.symbol]
+        shape = field_x.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_magnitude_along(
@@ -104,7 +66,7 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 3a733a8..ac3b388 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -1,6 +1,6 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.rotate_components import get_cylindrical
 from SciDataTool.Functions import AxisError
 
 
@@ -28,72 +28,27 @@ def get_rphiz_along(
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle"
-            else:
-                new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Change coordinates along the whole axes
+        Datar, Dataphi = get_cylindrical(self.components, args)
+        # Extract along the requested axes
+        resultr = Datar.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        resultphi = Dataphi.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        if string != [] and "smallestperiod" in string[0]:
-            phi = Datax.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        else:
-            phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_c) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datax.values = field_r
-            Datay.values = field_c
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_c = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_c = resultphi[Dataphi.symbol]
+        shape = field_r.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_along(
@@ -116,7 +71,7 @@ def get_rphiz_along(
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_along(
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 67fffff..b2e7a4b 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -1,6 +1,6 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.rotate_components import get_cartesian
 from SciDataTool.Functions import AxisError
 
 
@@ -27,78 +27,26 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         args = args[0]  # if called from another script with *args
 
     if "radial" in self.components.keys() or "tangential" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle[smallestperiod]"
-            else:
-                new_args.extend(["angle[smallestperiod]"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+        # Change coordinates along the whole axes
+        Datax, Datay = get_cartesian(self.components, args)
+        # Extract along the requested axes
+        resultx = Datax.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_r = Datar.values
-        shape = field_r.shape
-        if "tangential" in self.components.keys():
-            Dataphi = self.components["tangential"].get_data_along(
-                *new_args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_c = Dataphi.values
-        else:
-            field_c = zeros(shape, dtype=field_r.dtype)
-            Dataphi = type(Datar)(
-                name=Datar.name,
-                unit=Datar.unit,
-                symbol=Datar.symbol,
-                axes=Datar.axes,
-                values=field_c,
-            )
-        phi = Datar.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_x = resultx[Datax.symbol]
+        resulty = Datay.get_along(
+            args,
+            unit=unit,
+            is_norm=is_norm,
+            axis_data=axis_data,
+            is_squeeze=is_squeeze,
+        )
+        field_y = resulty[Datay.symbol]
+        shape = field_x.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_along(
@@ -122,7 +70,7 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_along(
diff --git a/SciDataTool/Methods/VectorField/to_rphiz.py b/SciDataTool/Methods/VectorField/to_rphiz.py
index 7c2e411..d17cc7d 100644
--- a/SciDataTool/Methods/VectorField/to_rphiz.py
+++ b/SciDataTool/Methods/VectorField/to_rphiz.py
@@ -13,11 +13,7 @@ def to_rphiz(self):
     module = __import__("SciDataTool.Classes.VectorField", fromlist=["VectorField"])
     VectorField = getattr(module, "VectorField")
 
-    if (
-        "radial" in self.components
-        or "tangential" in self.components
-        or "axial" in self.components
-    ):
+    if "radial" in self.components or "tangential" in self.components:
         return self.copy()
 
     else:
@@ -28,7 +24,7 @@ def to_rphiz(self):
             else axis.name + "[smallestperiod]"
             for axis in self.components["comp_x"].axes
         ]
-        result = self.get_rphiz_along(*arg_list)
+        result = self.get_rphiz_along(*arg_list, is_squeeze=False)
         # Store in new VectorField
         comp_dict = dict()
 
@@ -44,12 +40,12 @@ def to_rphiz(self):
         Comp_t.name = "Tangential " + self.components["comp_x"].name.lower().replace(
             " along x-axis", ""
         )
-        Comp_t.symbol = self.components["comp_x"].symbol.replace("_r", "_y")
+        Comp_t.symbol = self.components["comp_x"].symbol.replace("_x", "_t")
         Comp_t.values = result["tangential"]
-        comp_dict["comp_y"] = Comp_t
+        comp_dict["tangential"] = Comp_t
 
-        if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+        for name in ["axial", "comp_z"]:
+            if name in self.components:
+                comp_dict["axial"] = self.components[name].copy()
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
diff --git a/SciDataTool/Methods/VectorField/to_xyz.py b/SciDataTool/Methods/VectorField/to_xyz.py
index 027ac91..12527d3 100644
--- a/SciDataTool/Methods/VectorField/to_xyz.py
+++ b/SciDataTool/Methods/VectorField/to_xyz.py
@@ -46,8 +46,8 @@ def to_xyz(self):
         Comp_y.values = result["comp_y"]
         comp_dict["comp_y"] = Comp_y
 
-        if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+        for name in ["axial", "comp_z"]:
+            if name in self.components:
+                comp_dict["comp_z"] = self.components[name].copy()
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From d70a88dc2dcbb47d9dab11205ec5385fea68273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 37/68] fix: group values within tolerance wherever they lie

Tolerant unique and intersection rounded values to multiples of the
tolerance, which separated close values lying on both sides of a rounding
limit. Indices were also wrong with a stable order, along the second axis,
or when only counts were requested.
---
 SciDataTool/Functions/set_routines.py | 70 +++++++++++++++++++++------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index dc6ec5c..59c586d 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -94,26 +94,25 @@ def unique_tol(
     if not is_abs_tol:
         tol = get_relative_tolerance(a, tol)
 
-    res_tuple = np.unique(
-        np.round(a / tol),
+    # Group values along each line of the array
+    groups = np.apply_along_axis(get_groups, axis, a, tol)
+
+    _, Ia, Ib, count0 = np.unique(
+        groups,
         return_index=True,
-        return_inverse=return_inverse,
-        return_counts=return_counts,
+        return_inverse=True,
+        return_counts=True,
         axis=axis,
     )
 
     if is_stable:
-        Ia = np.sort(res_tuple[1])
-    else:
-        Ia = res_tuple[1]
-
-    b = a[Ia]
+        # Order groups by first occurence
+        order = np.argsort(Ia)
+        Ia = Ia[order]
+        count0 = count0[order]
+        Ib = np.argsort(order)[Ib]
 
-    if return_inverse:
-        Ib = res_tuple[2]
-
-    if return_counts:
-        count0 = res_tuple[3]
+    b = np.take(a, Ia, axis=axis)
 
     if return_index and return_inverse and return_counts:
         return b, Ia, Ib, count0
@@ -166,9 +165,12 @@ def intersect1d_tol(
     if not is_abs_tol:
         tol = get_relative_tolerance(ar1, tol)
 
+    # Group values of both arrays
+    groups = get_groups(np.concatenate((ar1, ar2)), tol)
+
     _, Ia, Ib = np.intersect1d(
-        np.floor(ar1 / tol),
-        np.floor(ar2 / tol),
+        groups[: ar1.size],
+        groups[ar1.size :],
         assume_unique=assume_unique,
         return_indices=True,
     )
@@ -181,6 +183,42 @@ def intersect1d_tol(
         return b
 
 
+def get_groups(a, tol):
+    """Return the index of the group to which each value of the input array belongs, a group
+    gathering the values which are within the tolerance of its smallest value
+
+    Parameters
+    ----------
+    a : ndarray
+        1D array of values to group
+    tol : Float
+        the absolute tolerance value
+
+    Returns
+    -------
+    groups : ndarray
+        array of group indices, which increase with the values
+    """
+
+    if np.iscomplexobj(a):
+        return get_groups(a.real, tol) + 1j * get_groups(a.imag, tol)
+
+    values, inverse = np.unique(a, return_inverse=True)
+
+    # Start a new group wherever the gap with previous value exceeds the tolerance
+    is_new = np.append(True, np.diff(values) > tol)
+
+    # Split groups which are wider than the tolerance
+    starts = np.append(np.where(is_new)[0], values.size)
+    for ii in np.where(values[starts[1:] - 1] - values[starts[:-1]] > tol)[0]:
+        start, end = starts[ii], starts[ii + 1]
+        while start < end:
+            is_new[start] = True
+            start += np.searchsorted(values[start:end], values[start] + tol, "right")
+
+    return (np.cumsum(is_new) - 1)[inverse]
+
+
 def get_relative_tolerance(a, atol):
     """Calculate relative tolerance given an array a and an absolute tolerance
 
-- 
2.43.0


From e6fb581813cff0a96f6bf837ec22e50acd593ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:23 +0000
Subject: [PATCH 38/68] fix: sum and convolve spectra on any kind of frequency
 axis

Evenly spaced axes and single precision values made both operations fail,
negative frequencies were not refused, and the result shared the
normalizations of the first operand.
---
 SciDataTool/Functions/sum_convolution.py |  4 ++--
 SciDataTool/Methods/DataFreq/conv.py     | 21 ++++++++++++++++-----
 SciDataTool/Methods/DataFreq/sum.py      | 21 ++++++++++++++++-----
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/SciDataTool/Functions/sum_convolution.py b/SciDataTool/Functions/sum_convolution.py
index a3b94ca..aba2c78 100644
--- a/SciDataTool/Functions/sum_convolution.py
+++ b/SciDataTool/Functions/sum_convolution.py
@@ -131,7 +131,7 @@ def get_conv_amplitudes(amp1, amp2, I0a, I0b, I1, I2):
         amp_full = np.outer(amp1_1, amp2_2).ravel("F")[I0a] / 2
 
     # Sum all contributions which have the same index
-    if amp_full.dtype == complex:
+    if np.iscomplexobj(amp_full):
         amp = np.bincount(I1, weights=amp_full.real) + 1j * np.bincount(
             I1, weights=amp_full.imag
         )
@@ -203,7 +203,7 @@ def get_sum_amplitudes(amp1, amp2, I0b):
     amp_full = np.concatenate((amp1, amp2), axis=0)
 
     # Sum all contributions which have the same orders and wavenumber
-    if amp_full.dtype == complex:
+    if np.iscomplexobj(amp_full):
         amp = np.bincount(I0b, weights=amp_full.real) + 1j * np.bincount(
             I0b, weights=amp_full.imag
         )
diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 9d64694..1e24f35 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -1,5 +1,6 @@
 from numpy import inf, any as np_any
 
+from SciDataTool.Functions.Load.import_class import import_class
 from SciDataTool.Functions.sum_convolution import get_conv_indices, get_conv_amplitudes
 
 
@@ -56,14 +57,14 @@ def conv(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
@@ -74,7 +75,9 @@ def conv(
     if unit is None:
         unit = self.unit
     if normalizations is None:
-        normalizations = self.normalizations
+        normalizations = {
+            key: norm.copy() for key, norm in self.normalizations.items()
+        }
 
     # Compute spectrum orders resulting from convolution
     freqs_un, I0a, I0b, I1, I2 = get_conv_indices(
@@ -85,8 +88,16 @@ def conv(
     amp = get_conv_amplitudes(self.values, other.values, I0a, I0b, I1, I2)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+    Freqs = Data1D(
+        name="freqs",
+        unit=self.axes[0].unit,
+        symbol=self.axes[0].symbol,
+        values=freqs_un,
+        normalizations={
+            key: norm.copy() for key, norm in self.axes[0].normalizations.items()
+        },
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 45c8f73..04cefaa 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -1,5 +1,6 @@
 from numpy import any as np_any
 
+from SciDataTool.Functions.Load.import_class import import_class
 from SciDataTool.Functions.sum_convolution import get_sum_indices, get_sum_amplitudes
 
 
@@ -50,14 +51,14 @@ def sum(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
@@ -68,7 +69,9 @@ def sum(
     if unit is None:
         unit = self.unit
     if normalizations is None:
-        normalizations = self.normalizations
+        normalizations = {
+            key: norm.copy() for key, norm in self.normalizations.items()
+        }
 
     # Compute spectrum orders resulting from convolution
     freqs_un, I0b = get_sum_indices(freqs1, freqs2, tol_freq)
@@ -77,8 +80,16 @@ def sum(
     amp = get_sum_amplitudes(self.values, other.values, I0b)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+    Freqs = Data1D(
+        name="freqs",
+        unit=self.axes[0].unit,
+        symbol=self.axes[0].symbol,
+        values=freqs_un,
+        normalizations={
+            key: norm.copy() for key, norm in self.axes[0].normalizations.items()
+        },
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
-- 
2.43.0


From 6ea20dfbad2b2c2fbf227dd0bcfe5848b4025629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:34 +0000
Subject: [PATCH 39/68] fix: keep all lines of a spectrum when changing its
 referential

Lines of a real spectrum moved to negative frequencies were dropped instead
of being replaced by their conjugate, the first line was halved even if it
was not the constant one, vector fields lost the lines absent from their
first component, and waveforms failed on non-linspace or shifted axes.
---
 SciDataTool/Functions/change_referential.py   | 68 +++++++++++++++++--
 .../Methods/DataND/change_referential.py      | 44 ++++++------
 .../Methods/VectorField/change_referential.py | 29 ++++----
 3 files changed, 99 insertions(+), 42 deletions(-)

diff --git a/SciDataTool/Functions/change_referential.py b/SciDataTool/Functions/change_referential.py
index e857f54..94efd0b 100644
--- a/SciDataTool/Functions/change_referential.py
+++ b/SciDataTool/Functions/change_referential.py
@@ -78,6 +78,9 @@ def change_referential_spectrum(
             is_abs_tol=True,
         )
 
+        # Frequencies which cancel out are zero up to the tolerance
+        freqs_new[np.abs(freqs_new) < atol_freq] = 0
+
         # Get frequency/wavenumber_circ position in new matrix [Nf_new, Nr]
         Ir0 = np.tile(np.arange(Nr, dtype=int), Nf)
         Irf = np.concatenate((If0[:, None], Ir0[:, None]), axis=1)
@@ -102,7 +105,7 @@ def change_referential_spectrum(
         # Reshape values for kth slice columnwise
         amp_k = spectrum[:, :, k].ravel("C")
         # Sum all contributions which have the same orders and wavenumber as given by I1
-        if spectrum.dtype == complex:
+        if np.iscomplexobj(spectrum):
             # bincount fails on complex numbers, real and imaginary parts must be treated separately
             amp_new_k = np.bincount(I1, weights=amp_k.real) + 1j * np.bincount(
                 I1, weights=amp_k.imag
@@ -132,6 +135,61 @@ def change_referential_spectrum(
     return spectrum_new, freqs_new, I1, Irf_un
 
 
+def rebuild_negative_freqs(freqs, wavenumbers_circ, spectrum):
+    """Rebuild the spectrum in four quadrants of a real spectrum restricted to positive frequencies, using
+    conjugate property (line at frequency f and wavenumber r is conjugate of the one at -f and -r)
+
+    Parameters
+    ----------
+    freqs : ndarray
+        frequencies vector
+    wavenumbers_circ : ndarray
+        circumferential wavenumbers vector
+    spectrum : ndarray
+        2D/3D spectrum with freqs/wavenumbers_circ as two first axes
+
+    Returns
+    -------
+    freqs : ndarray
+        frequencies vector with opposite frequencies
+    wavenumbers_circ : ndarray
+        circumferential wavenumbers vector
+    spectrum : ndarray
+        spectrum with half amplitudes on frequencies and opposite frequencies
+    """
+
+    wn = wavenumbers_circ
+    is_missing = ~np.isin(-wn, wn)
+    if (
+        np.sum(is_missing) == 1
+        and is_missing[0]
+        and wn.size > 1
+        and np.allclose(np.diff(wn, append=-wn[0]), wn[1] - wn[0])
+    ):
+        # Lowest wavenumber of an even number of samples is its own opposite
+        is_missing[0] = False
+
+    if np.any(is_missing):
+        # Add opposite wavenumbers
+        wn = np.concatenate((wn, -wn[is_missing]))
+        shape = list(spectrum.shape)
+        shape[1] = np.sum(is_missing)
+        spectrum = np.concatenate(
+            (spectrum, np.zeros(shape, dtype=spectrum.dtype)), axis=1
+        )
+        Isort = np.argsort(wn)
+        wn = wn[Isort]
+        spectrum = spectrum[:, Isort, ...]
+
+    Iopp = [np.where(wn == -r)[0][0] if -r in wn else ii for ii, r in enumerate(wn)]
+
+    return (
+        np.concatenate((freqs, -freqs)),
+        wn,
+        np.concatenate((spectrum, np.conj(spectrum[:, Iopp, ...])), axis=0) / 2,
+    )
+
+
 def change_referential_waveform(
     val0,
     time0,
@@ -205,12 +263,14 @@ def change_referential_waveform(
         Xtime0, Xangle0 = Xtime0.ravel("C"), Xangle0.ravel("C")
 
         # Shift angle according to rotation speed
-        Xangle_new = (Xangle0 + 2 * np.pi * rotation_speed / 60 * Xtime0) % alphaf
+        Xangle_new = angle0[0] + (
+            Xangle0 - angle0[0] + 2 * np.pi * rotation_speed / 60 * Xtime0
+        ) % (alphaf - angle0[0])
         ta_out = (Xtime0, Xangle_new)
 
     # 2D interpolate for new angle array
-    val_new = np.zeros(shape0)
-    valk = np.zeros((Nt + 1, Na + 1))
+    val_new = np.zeros(shape0, dtype=np.result_type(val0, float))
+    valk = np.zeros((Nt + 1, Na + 1), dtype=val_new.dtype)
     for k in range(Nslice):
         # Make current slice periodic along time and space
         valk[0:Nt, 0:Na] = val0[:, :, k]
diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b81b14e..6b07bf8 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -3,6 +3,7 @@ import numpy as np
 from SciDataTool.Functions.change_referential import (
     change_referential_spectrum,
     change_referential_waveform,
+    rebuild_negative_freqs,
 )
 from SciDataTool.Functions.Load.import_class import import_class
 
@@ -115,7 +116,12 @@ def change_referential(
         is_real = True
 
     # Extract data from vectorfield on one period
-    result = self.get_along(*arg_list, is_squeeze=False)
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+    finally:
+        if not is_waveform and hasattr(self, "is_real"):
+            # Reset data
+            self.is_real = is_real
     values = result[self.symbol]
 
     if is_waveform:
@@ -127,7 +133,7 @@ def change_referential(
         is_aper_t = "antiperiod" in sym_t_new
 
         # Get angle periodicity on one period
-        per_a, is_aper_a = axes_list[1].get_periodicity()
+        per_a, is_aper_a = self.get_axes("angle")[0].get_periodicity()
         per_a = int(per_a / 2) if is_aper_a else per_a
 
         val_new, time_new, angle_new, ta_in, ta_out = change_referential_waveform(
@@ -144,6 +150,12 @@ def change_referential(
         freqs = result["freqs"]
         wavenumber = result["wavenumber"]
 
+        if is_real and "freqs" in axes_name:
+            # Input data is a real DataFreq, get all spectrum
+            freqs, wavenumber, values = rebuild_negative_freqs(
+                freqs, wavenumber, values
+            )
+
         val_new, freqs_new, I1, Irf_un = change_referential_spectrum(
             freqs,
             wavenumber,
@@ -153,26 +165,16 @@ def change_referential(
             freqs_new=freqs_new,
             I1=I1,
             Irf_un=Irf_un,
-            is_double_f0=is_real and "freqs" in axes_name,
             atol_freq=atol_freq,
         )
 
         if is_real:
-            # Adapt spectrum amplitude
-            if "time" in axes_name:
-                # Input data is DataTime, FFT has just been performed in four quadrants
-                # so all amplitudes are multiplied by 2 after restriction to positive frequencies
-                coeff = 2
-            else:
-                # Input data is DataFreq, since data is a real spectrum no need to multiply again
-                # all harmonics by two
-                coeff = 1
-
-            # Restrict spectrum to positive frequencies only and multiply amplitudes by coeff
+            # Spectrum is known in four quadrants so all amplitudes are multiplied by 2
+            # after restriction to positive frequencies, except f=0
             Ifreq_pos = freqs_new >= 0
             freqs_store = freqs_new[Ifreq_pos]
-            val_new = val_new[Ifreq_pos] * coeff
-            val_new[0] = val_new[0] / coeff
+            val_new = val_new[Ifreq_pos] * 2
+            val_new[freqs_store == 0] /= 2
         else:
             freqs_store = freqs_new
 
@@ -183,12 +185,12 @@ def change_referential(
             if axis.name == "time" and is_waveform:
                 axis_new = axis.copy()
                 axis_new.symmetries = sym_t_new
-                axis_new.number = time_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = time_new.size
                     axis_new.final = time_new[-1]
                     axis_new.include_endpoint = True
                 else:
-                    axis_new.values = time0
+                    axis_new.values = time_new
 
             elif axis.name == "angle" and is_waveform:
                 axis_new = axis.copy()
@@ -196,8 +198,8 @@ def change_referential(
                     axis_new.symmetries = {"antiperiod": int(2 * per_a)}
                 else:
                     axis_new.symmetries = {"period": per_a}
-                axis_new.number = angle_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = angle_new.size
                     axis_new.final = angle_new[-1]
                     axis_new.include_endpoint = True
                 else:
@@ -238,8 +240,4 @@ def change_referential(
         is_real=is_real,
     )
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Reset data
-        self.is_real = is_real
-
     return data_new, axes_list_change, arg_list, freqs_new, I1, Irf_un, ta_in, ta_out
diff --git a/SciDataTool/Methods/VectorField/change_referential.py b/SciDataTool/Methods/VectorField/change_referential.py
index 15c3f63..e8c98ac 100644
--- a/SciDataTool/Methods/VectorField/change_referential.py
+++ b/SciDataTool/Methods/VectorField/change_referential.py
@@ -36,7 +36,6 @@ def change_referential(
     freqs_new = np.array([])
     I1 = np.array([])
     Irf_un = np.array([])
-    Imask = np.array([])
     ta_in = tuple()
     ta_out = tuple()
     for comp, data in self.components.items():
@@ -66,23 +65,23 @@ def change_referential(
             atol_freq=atol_freq,
         )
 
-        # Filter harmonics that are below input absolute tolerance
-        if atol > 0 and not is_waveform:
+        # Copy axis not to change axis in axes_list_change
+        data_new.axes = [axis.copy() for axis in data_new.axes]
 
-            # Copy axis not to change axis in axes_list_change
-            data_new.axes = [axis.copy() for axis in data_new.axes]
+        # Store referential changed data in VectorField
+        vf_new.components[comp] = data_new
 
-            # Filter harmonics that are below input absolute tolerance
-            if Imask.size == 0:
-                val = np.abs(data_new.values)
-                val_max = np.max(val)
-                while val.ndim > 1:
-                    val = np.sum(val, axis=-1)
-                Imask = val > val_max * atol
+    # Filter harmonics that are below input absolute tolerance in all components
+    if atol > 0 and not is_waveform and len(vf_new.components) > 0:
+        Imask = False
+        for data_new in vf_new.components.values():
+            val = np.abs(data_new.values)
+            val_max = np.max(val)
+            while val.ndim > 1:
+                val = np.sum(val, axis=-1)
+            Imask = np.logical_or(Imask, val > val_max * atol)
+        for data_new in vf_new.components.values():
             data_new.axes[0].values = data_new.axes[0].values[Imask]
             data_new.values = data_new.values[Imask, ...]
 
-        # Store referential changed data in VectorField
-        vf_new.components[comp] = data_new
-
     return vf_new
-- 
2.43.0


From 85079a8951054f79b0723c99a61c692136b945d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:55 +0000
Subject: [PATCH 40/68] fix: change the periodicity of vector fields with any
 axes

The length of antiperiodic or shifted axes was wrong after the change, and
fields in cartesian coordinates or without a third axis were not handled.
---
 .../Methods/VectorField/change_periodicity.py | 141 ++++++------------
 1 file changed, 47 insertions(+), 94 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index 0d5af32..b58e891 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -30,116 +30,69 @@ def change_periodicity(
     DataLinspace = import_class("SciDataTool.Classes", "DataLinspace")
     DataPattern = import_class("SciDataTool.Classes", "DataPattern")
 
-    # Get axes list in original VectorField
-    # Assumes axes are the following: time, angle, z and z is DataPattern or radius
-    axes_list = self.get_axes()
-
-    # Get replicating number for time axis
-    per_t, is_aper_t = axes_list[0].get_periodicity()
-    per_t = int(per_t / 2) if is_aper_t else per_t
-    Nrep_t = int(per_t / per_t_new)
-    Nt = Nrep_t * axes_list[0].get_length(
-        is_oneperiod=Nrep_t > 1 or (Nrep_t == 1 and not is_aper_t_new),
-        is_antiperiod=Nrep_t == 1 and is_aper_t_new,
-    )
-
-    # Get replicating number for angle axis
-    per_a, is_aper_a = axes_list[1].get_periodicity()
-    if is_aper_a_new is None:
-        is_aper_a_new = is_aper_a
-    per_a = int(per_a / 2) if is_aper_a else per_a
-    Nrep_a = int(per_a / per_a_new)
-    Na = Nrep_a * axes_list[1].get_length(
-        is_oneperiod=Nrep_a > 1 or (Nrep_a == 1 and not is_aper_a_new),
-        is_antiperiod=Nrep_a == 1 and is_aper_a_new,
-    )
+    # Get requested axes and replicating numbers
+    axes_list_new = list()
+    arg_list = list()
+    rep_list = list()
+    for axis in self.get_axes():
+        axis_new = axis.copy()
+        arg = axis.name
+        Nrep = 1
+        if isinstance(axis, DataPattern):
+            arg += "[smallestpattern]"
+        elif axis.name in ["time", "angle"]:
+            per, is_aper = axis.get_periodicity()
+            per = int(per / 2) if is_aper else per
+            if axis.name == "time":
+                per_new, is_aper_new = per_t_new, is_aper_t_new
+            else:
+                per_new, is_aper_new = per_a_new, is_aper_a_new
+                if is_aper_new is None:
+                    is_aper_new = is_aper
+            Nrep = int(per / per_new)
+            if Nrep == 1 and (is_aper_new or not is_aper):
+                # Keep axis as it is, including anti-periodicity if it exists
+                arg += "[smallestperiod]"
+            else:
+                # Replicate one period
+                arg += "[oneperiod]"
+                values = axis.get_values(is_oneperiod=True)
+                step = axis.get_values()[1] - values[0]
+                N = Nrep * values.size
+                axis_new.symmetries = {"period": per_new}
+                if isinstance(axis_new, DataLinspace):
+                    axis_new.number = N
+                    axis_new.final = values[0] + N * step
+                    axis_new.include_endpoint = False
+                else:
+                    axis_new.values = np.concatenate(
+                        [values + k * values.size * step for k in range(Nrep)]
+                    )
+        elif axis.has_period():
+            arg += "[smallestperiod]"
+        axes_list_new.append(axis_new)
+        arg_list.append(arg)
+        rep_list.append(Nrep)
 
-    if Nrep_t == 1 and Nrep_a == 1:
+    if all(Nrep == 1 for Nrep in rep_list):
         # Return VectorField as it is
         return self.copy()
 
     # Init periodicity changed VectorField
     vf_new = type(self)(name=self.name, symbol=self.symbol, components=dict())
 
-    # Keep time anti-periodicity if it exists
-    if Nrep_t == 1 and is_aper_t_new:
-        time_arg = "time[smallestperiod]"
-    else:
-        time_arg = "time[oneperiod]"
-
-    # Keep spatial anti-periodicity if it exists
-    if Nrep_a == 1 and is_aper_a_new:
-        angle_arg = "angle[smallestperiod]"
-    else:
-        angle_arg = "angle[oneperiod]"
-
-    # Get argument list for call to get_rphiz_along on one time and space period
-    arg_list = [time_arg, angle_arg]
-    if isinstance(self.get_axes()[-1], DataPattern):
-        arg_list.append("z[smallestpattern]")
-    else:
-        arg_list.append(self.get_axes()[-1].name)
-
-    # Get axes values on requested axes
-    result = self.get_rphiz_along(*arg_list, is_squeeze=False)
-    axes_list_new = list()
-    for axis in axes_list:
-        axis_new = axis.copy()
-        # Change time periodicity
-        if Nrep_t > 1 and axis.name == "time":
-            axis_new.symmetries = {"period": per_t_new}
-            time_full = result["time"]
-            if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    t_final = time_full[-1] + time_full[1] - time_full[0]
-                else:
-                    t_final = axis.final
-                axis_new.number = Nt
-                axis_new.final = Nrep_t * t_final
-                axis_new.include_endpoint = False
-            else:
-                t_final = time_full[-1] + time_full[1] - time_full[0]
-                for k in range(1, Nrep_t):
-                    time_full = np.append(time_full, result["time"] + k * t_final)
-                axis_new.values = time_full
-        # Change angle periodicity
-        if Nrep_a > 1 and axis.name == "angle":
-            axis_new.symmetries = {"period": per_a_new}
-            angle_full = result["angle"]
-            if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                else:
-                    a_final = axis.final
-                axis_new.number = Na
-                axis_new.final = Nrep_a * a_final
-                axis_new.include_endpoint = False
-            else:
-                a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                for k in range(1, Nrep_a):
-                    angle_full = np.append(angle_full, result["angle"] + k * a_final)
-                axis_new.values = angle_full
-
-        axes_list_new.append(axis_new)
-
     # Replicate values by the number of repetitions
     for comp, data in self.components.items():
 
-        # Duplicate values
-        if Nrep_t > 1 and Nrep_a > 1:
-            val_new = np.tile(result[comp], (Nrep_t, Nrep_a, 1))
-        elif Nrep_t > 1:
-            val_new = np.tile(result[comp], (Nrep_t, 1, 1))
-        elif Nrep_a > 1:
-            val_new = np.tile(result[comp], (1, Nrep_a, 1))
+        result = data.get_along(*arg_list, is_squeeze=False)
 
         # Create new data object with updated periodicities
         data_new = type(data)(
             name=data.name,
             symbol=data.symbol,
             unit=data.unit,
-            axes=axes_list_new,
-            values=val_new,
+            axes=[axis.copy() for axis in axes_list_new],
+            values=np.tile(result[data.symbol], rep_list),
             normalizations=data.normalizations.copy(),
             is_real=data.is_real,
         )
-- 
2.43.0


From b2f452111ee2d04d0991626278cabde864b8b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:04 +0000
Subject: [PATCH 41/68] fix: remove spectral leakage of fields with any angle
 axis and slices

Fields with an odd number of angle samples failed, mirrored lines were taken
from the wrong slice, spectra given in Fourier form used a wrong time step,
and complex fields were declared as real.
---
 .../Methods/DataND/filter_spectral_leakage.py | 52 ++++++-------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 8c8ee07..331cc70 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -74,7 +74,10 @@ def filter_spectral_leakage(
 
     is_real = self.is_real
     self.is_real = False  # To have negative frequencies
-    result = self.get_along(*arg_list, is_squeeze=False)
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+    finally:
+        self.is_real = is_real
     freqs = result["freqs"]
     spectrum = result[self.symbol]
 
@@ -94,22 +97,18 @@ def filter_spectral_leakage(
     if is_real and np.where(freqs < 0)[0].size == 0:
         # Mirror values to negative frequencies
         If0 = freqs != 0
+        spectrum = np.array(spectrum, dtype=complex)
         spectrum[If0, ...] *= 0.5
-        If0[-1] = bool(np.mod(freqs.size, 2) == 0)
-        freqs = np.concatenate((-np.flip(freqs), freqs[If0]))
-        spectrum = np.concatenate(
-            (
-                np.flip(np.conj(spectrum)),
-                spectrum[If0, ...],
-            ),
-            axis=0,
-        )
-
-    # Restrict filtering to negative wavenumber only
-    if is_real and "wavenumber" in result:
-        wavenumber = result["wavenumber"]
-        Irn = wavenumber <= 0
-        spectrum = spectrum[:, Irn, ...]
+        spectrum_neg = np.flip(np.conj(spectrum[If0, ...]), axis=0)
+        if "wavenumber" in result:
+            # Mirror values to opposite wavenumbers
+            wn = result["wavenumber"]
+            Iopp = [
+                np.where(wn == -r)[0][0] if -r in wn else ii for ii, r in enumerate(wn)
+            ]
+            spectrum_neg = spectrum_neg[:, Iopp, ...]
+        freqs = np.concatenate((-np.flip(freqs[If0]), freqs))
+        spectrum = np.concatenate((spectrum_neg, spectrum), axis=0)
 
     spectrum_filt, freqs_th, Wmatf, If = filter_spectral_leakage_fct(
         spectrum, freqs, freqs_th, Nt, dt, is_freq_pos=False, Wmatf=Wmatf, If=If
@@ -124,22 +123,7 @@ def filter_spectral_leakage(
         # Keep only positive frequencies
         Ifp = freqs_th >= 0
         freqs_th_store = freqs_th[Ifp]
-
-        # Mirror spectrum
-        if "wavenumber" in result:
-            # Mirror negative frequencies to negative wavenumbers
-            Ifn = ~Ifp
-            if freqs_th_store[0] == 0:
-                Ifn[I0] = True
-            spectrum_filt = np.concatenate(
-                (
-                    spectrum_filt[Ifp, ...],
-                    np.flip(np.conj(spectrum_filt[Ifn, 1:-1, ...])),
-                ),
-                axis=1,
-            )
-        else:
-            spectrum_filt = spectrum_filt[Ifp, ...]
+        spectrum_filt = spectrum_filt[Ifp, ...]
 
     else:
         freqs_th_store = np.array(freqs_th)
@@ -184,11 +168,9 @@ def filter_spectral_leakage(
         axes=axes_list_filt,
         values=spectrum_filt,
         normalizations=self.normalizations,
-        is_real=True,
+        is_real=is_real,
     )
 
-    self.is_real = is_real
-
     if is_return_calc_data:
         return data_filt, axes_list_filt, arg_list, Wmatf, If, freqs_th
 
-- 
2.43.0


From 71e5132b18e5b3ceb1b7b5bc359418ee678e155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:02 +0000
Subject: [PATCH 42/68] fix: compute octave band centres for any frequency
 range

The centres of 1/n octave bands (n other than 1 and 3) were never found when
the range started at 0 Hz, and were wrong for ranges below or above 1 kHz.
---
 SciDataTool/Functions/fft_functions.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 23927e0..418ce0c 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -3,6 +3,8 @@ from numpy import (
     pi,
     exp,
     ceil,
+    floor,
+    log2,
     isin,
     take,
     insert,
@@ -158,19 +160,17 @@ def comp_nthoctave_axis(noct, freqmin, freqmax):
         f_oct = [f for f in table if (f >= freqmin and f <= freqmax)]
     else:
         f0 = 1000
-        f_oct = [f0]
-        i = 1
-        while f_oct[-1] <= freqmax:
-            f = f0 * 2.0 ** (i / noct)
-            f_oct.append(0.5 * ceil(2.0 * f))
+        f_oct = []
+        # Same lowest band as in the table of third octaves
+        freqmin = max(freqmin, 12.5)
+        i = int(floor(noct * log2(freqmin / f0))) - 1
+        f = freqmin
+        while f <= freqmax:
+            f = 0.5 * ceil(2.0 * f0 * 2.0 ** (i / noct))
+            # Narrow bands can be rounded to the same frequency
+            if f >= freqmin and f <= freqmax and f not in f_oct:
+                f_oct.append(f)
             i = i + 1
-        f_oct = f_oct[:-1]
-        i = -1
-        while f_oct[0] > freqmin:
-            f = f0 * 2.0 ** (i / noct)
-            f_oct = [0.5 * ceil(2.0 * f)] + f_oct
-            i = i - 1
-        f_oct = f_oct[1:]
     return f_oct
 
 
-- 
2.43.0


From d746a3967acf350fd8c4f71051793ebefcb646d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:02 +0000
Subject: [PATCH 43/68] fix: compute levels of sliced, summed and multi-axis
 spectra

- dB conversion overwrote the values it was given
- A-weighting used the wrong dimension or frequencies when another axis was
  sliced, or when frequencies were requested in another unit
- summing levels over frequencies dropped the other axes, and was not energetic
  for waveforms
- frequency of an order is order * speed / 60
- the last octave band was always empty, and bands only worked on one axis
---
 SciDataTool/Functions/apply_dBA.py            |  91 ++++++
 SciDataTool/Functions/conversions.py          |  26 +-
 SciDataTool/Methods/DataND/_convert.py        |  50 +---
 SciDataTool/Methods/DataND/_get_freqs.py      |   6 +-
 .../Methods/DataND/get_magnitude_along.py     | 274 +++++-------------
 5 files changed, 190 insertions(+), 257 deletions(-)
 create mode 100644 SciDataTool/Functions/apply_dBA.py

diff --git a/SciDataTool/Functions/apply_dBA.py b/SciDataTool/Functions/apply_dBA.py
new file mode 100644
index 0000000..0b9dc32
--- /dev/null
+++ b/SciDataTool/Functions/apply_dBA.py
@@ -0,0 +1,91 @@
+import numpy as np
+
+from SciDataTool.Functions import UnitError
+from SciDataTool.Functions.conversions import convert, dB_to_dBA, to_dB
+
+
+def apply_dBA(field, values, axes_list, ref_value=1.0):
+    """Converts the values of a field into dBA
+    Parameters
+    ----------
+    field: Data
+        a Data object
+    values: ndarray
+        magnitude of the field (not squeezed)
+    axes_list: list
+        a list of RequestedAxis objects
+    ref_value: float
+        Reference value
+    Returns
+    -------
+    ndarray of the converted field
+    """
+
+    for axis in axes_list:
+        if axis.name in ["freqs", "frequency"]:
+            freqs = get_freqs_Hz(field, axis)
+            index = [axis.index]
+            break
+    else:
+        axes_speed = [axis for axis in axes_list if is_speed(field, axis)]
+        axes_order = [axis for axis in axes_list if axis.corr_name == "order"]
+        if len(axes_speed) == 0 or len(axes_order) == 0:
+            raise UnitError("dBA conversion only available for fft with frequencies")
+        # Frequencies of the requested speeds and orders
+        speed = get_speed(field, axes_speed[0])
+        orders = [int(s.split(";")[0].replace("H", "")) for s in axes_order[0].values]
+        freqs = np.outer(speed, orders) / 60
+        index = [axes_speed[0].index, axes_order[0].index]
+        if index[0] > index[1]:
+            freqs = freqs.T
+            index = index[::-1]
+
+    shape = [1] * values.ndim
+    for i, ind in enumerate(index):
+        shape[ind] = freqs.shape[i]
+        if values.shape[ind] != freqs.shape[i]:
+            raise UnitError("dBA conversion only available for fft with frequencies")
+
+    values = to_dB(values, field.unit, ref_value)
+    return dB_to_dBA(values, freqs.reshape(shape))
+
+
+def is_speed(field, axis):
+    """Returns True if the requested axis is the speed axis of the field"""
+    if axis.corr_name == "speed":
+        return True
+    return "speed" in field.axes[axis.index].normalizations
+
+
+def get_speed(field, axis):
+    """Returns the speeds of a requested speed axis"""
+    if axis.corr_name == "speed" and axis.unit in ["SI", axis.corr_unit]:
+        return axis.values
+    if axis.corr_name == "speed":
+        speed = field.axes[axis.index].get_values()
+    elif axis.unit == "speed":
+        return axis.values
+    else:
+        speed = field.axes[axis.index].get_values(normalization="speed")
+    return speed if axis.indices is None else np.take(speed, axis.indices)
+
+
+def get_freqs_Hz(field, axis):
+    """Returns the frequencies of a requested frequency axis in Hz"""
+    if axis.unit in ["SI", axis.corr_unit]:
+        freqs = axis.values
+    elif axis.unit not in field.axes[axis.index].normalizations:
+        freqs = convert(axis.values, axis.unit, axis.corr_unit)
+    else:  # Frequencies before normalization
+        if axis.transform == "fft":
+            freqs = field.axes[axis.index].get_values(
+                is_oneperiod=True,
+                operation=axis.operation.split(" to ")[0],
+                is_real=field.is_real,
+                is_full=True,
+            )
+        else:
+            freqs = axis.corr_values
+        if axis.indices is not None:
+            freqs = np.take(freqs, axis.indices)
+    return np.array(freqs)
diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 287790a..14136db 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -246,11 +246,7 @@ def to_dB(values, unit, ref_value=1.0):
     ndarray of the converted field
     """
     if ref_value != 1:
-        if isinstance(values, ndarray):
-            values[values < ref_value] = ref_value
-        else:
-            if values < ref_value:
-                values = ref_value
+        values = where(values < ref_value, ref_value, values)
     mask = values != 0
     try:
         convert(values, unit, "W")
@@ -365,11 +361,11 @@ def dB_to_dBA(values, freqs, noct=None):
             -6.6,
             -9.3,
         ]
-        mask = argwhere(freqs in freqs_ref)
-        Aweight = take(Aweight, mask)
+        indices = [freqs_ref.index(freq) for freq in freqs]
+        Aweight = take(Aweight, indices)
     else:
-        freq2 = square(freqs)
-        freq2[freq2 == 0] = nan
+        freq2 = square(array(freqs, dtype=float))
+        freq2 = where(freq2 == 0, nan, freq2)
         RA = (
             12200.0 ** 2
             * freq2 ** 2
@@ -380,9 +376,9 @@ def dB_to_dBA(values, freqs, noct=None):
             )
         )
         Aweight = 2.0 + 20.0 * log10(RA)
-        Aweight[isnan(Aweight)] = -100  # replacing NaN by -100 dB
-        values_dBA = values + Aweight
-        return values_dBA
+        Aweight = where(isnan(Aweight), -100, Aweight)  # replacing NaN by -100 dB
+
+    return values + Aweight
 
 
 def to_noct(values, freqs, noct=3):
@@ -402,16 +398,18 @@ def to_noct(values, freqs, noct=3):
     """
     # Compute the 1/n octave axis
     f_oct = comp_nthoctave_axis(noct, freqs[0], freqs[-1])
+    if len(f_oct) == 0:  # No band in the frequency range
+        return [array([]), array([])]
     # Compute sum over each interval
     freqbds = [f / (2 ** (1.0 / (2.0 * noct))) for f in f_oct]
-    freqbds.append(freqbds[-1])
+    freqbds.append(f_oct[-1] * 2 ** (1.0 / (2.0 * noct)))
     # freqbds = [0] + f_oct
     values_oct = []
     N = zeros(len(freqbds) - 1)
     for i in range(len(freqbds) - 1):
         f1 = freqbds[i]
         f2 = freqbds[i + 1]
-        indices = argwhere((freqs >= f1) & (freqs <= f2))
+        indices = argwhere((freqs >= f1) & (freqs < f2))
         N[i] = len(indices)
         if len(indices) == 0:
             values_oct.append(0)
diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index dfbb73e..c9516b2 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -1,7 +1,8 @@
 import numpy as np
 
-from SciDataTool.Functions import NormError, UnitError
-from SciDataTool.Functions.conversions import convert as convert_unit, to_dB, to_dBA
+from SciDataTool.Functions import NormError
+from SciDataTool.Functions.apply_dBA import apply_dBA
+from SciDataTool.Functions.conversions import convert as convert_unit, to_dB
 
 
 def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
@@ -22,7 +23,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         values of the field
     """
 
-    if is_squeeze:
+    if is_squeeze and (unit != "dBA" or unit == self.unit):
         values = np.squeeze(values)
 
     if unit == self.unit or unit == "SI":
@@ -40,46 +41,9 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         ref_value = 1.0
         if "ref" in self.normalizations:
             ref_value *= self.normalizations["ref"].ref
-        is_match = False
-        for axis in axes_list:
-            if axis.name == "freqs" or axis.corr_name == "freqs":
-                if axis.corr_values is not None and axis.unit not in [
-                    "SI",
-                    axis.corr_unit,
-                ]:
-                    axis_values = axis.corr_values
-                else:
-                    axis_values = axis.values
-                index = axis.index
-                values = np.apply_along_axis(
-                    to_dBA, index, values, axis_values, self.unit, ref_value
-                )
-                is_match = True
-            elif axis.name == "frequency":
-                if axis.corr_values is None:
-                    axis_values = axis.values
-                else:
-                    axis_values = axis.corr_values
-                index = axis.index
-                values = np.apply_along_axis(
-                    to_dBA, index, values, axis_values, self.unit, ref_value
-                )
-                is_match = True
-        if not is_match:
-            axis_names = [axis.name for axis in self.axes]
-            if "speed" in axis_names and "order" in axis_names:
-                freqs = self._get_freqs()
-                freqs = freqs.ravel("C")
-                shape = values.shape
-                values = values.reshape(freqs.shape + shape[2:])
-                values = np.apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
-                )
-                values = values.reshape(shape)
-            else:
-                raise UnitError(
-                    "dBA conversion only available for fft with frequencies"
-                )
+        values = apply_dBA(self, np.abs(values), axes_list, ref_value)
+        if is_squeeze:
+            values = np.squeeze(values)
     elif unit in self.normalizations:
         values = self.normalizations.get(unit).normalize(values)
     else:
diff --git a/SciDataTool/Methods/DataND/_get_freqs.py b/SciDataTool/Methods/DataND/_get_freqs.py
index 71b7437..17fc8c1 100644
--- a/SciDataTool/Methods/DataND/_get_freqs.py
+++ b/SciDataTool/Methods/DataND/_get_freqs.py
@@ -27,7 +27,7 @@ def _get_freqs(self):
     elif "frequency" in axis_names:
         index = axis_names.index("frequency")
     elif "time" in axis_names:
-        index = axis_names.index("frequency")
+        index = axis_names.index("time")
         operation = "time_to_freqs"
     elif "speed" in axis_names and "order" in axis_names:
         index_speed = axis_names.index("speed")
@@ -45,7 +45,7 @@ def _get_freqs(self):
 
     if index is not None:
         freqs = self.get_axes()[index].get_values(operation=operation)
-    else:  # f = speed * 60 / order
+    else:  # f = order * speed / 60
         if is_norm:
             normalization = "speed"
         else:
@@ -54,6 +54,6 @@ def _get_freqs(self):
         order_strings = self.get_axes()[index_order].get_values().tolist()
         orders = array([int(s.split(";")[0].replace("H", "")) for s in order_strings])
         os, so = meshgrid(orders, speed)
-        freqs = so * 60 / os
+        freqs = os * so / 60
 
     return freqs
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 47b9efe..b6ed2b8 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,11 @@
-from SciDataTool.Functions import AxisError, NormError, UnitError
-from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
+import re
+
+from SciDataTool.Functions import AxisError, NormError
+from SciDataTool.Functions.apply_dBA import apply_dBA, get_freqs_Hz
+from SciDataTool.Functions.conversions import convert, to_dB, to_noct
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, take
+from SciDataTool.Methods.RequestedAxis.get_axis import operation_list
+from numpy import apply_along_axis, squeeze, take
 
 
 def get_magnitude_along(
@@ -40,134 +44,66 @@ def get_magnitude_along(
     # For dB/dBA conversions, first extraction with freqs axis
     if "dB" in unit and unit != self.unit and is_sum:
         new_args = list(args).copy()
-        freq_name = None
-        index_freq = None
-        index_speed = None
-        index_order = None
+        indices_sum = []
+        names = [re.split(r"[=\[<>{]|->", arg)[0].strip() for arg in args]
         args_freqs = ["freqs", "frequency", "time"]
-        for i, axis in enumerate(self.axes):  # Find frequency axis
-            if axis.name in args_freqs:
-                freq_name = axis.name
-        if freq_name is not None:
+        if any(axis.name in args_freqs for axis in self.axes):
             for i, arg in enumerate(args):
-                if freq_name in arg:
-                    if "sum" in arg or "rss" in arg:
-                        new_args[i] = freq_name
-                        index_freq = i
-            if index_freq is None:  # No sum on freqs axis -> can extract directly
-                return self.get_magnitude_along(
-                    *args,
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                )
-            else:
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along freqs axis
-                return data.get_magnitude_along(
-                    *[args[index_freq]],
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on freqs axis
+                if names[i] in args_freqs and ("sum" in arg or "rss" in arg):
+                    new_args[i] = names[i]
+                    indices_sum.append(i)
         else:  # Try speed/order
-            is_match = 0
-            for i, axis in enumerate(self.axes):  # Find frequency axis
-                if axis.name == "speed":
-                    is_match += 1
-                    arg_speed = "speed"
-                elif axis.name == "order":
-                    is_match += 1
-                elif "speed" in axis.normalizations:
-                    is_match += 1
-                    arg_speed = axis.name + "->speed"
-            if is_match == 2:
-                for i, arg in enumerate(args):
-                    if "speed" in arg:
-                        if arg.split("{")[0] != arg_speed:
-                            new_args[i] = arg_speed
-                            index_speed = i
-                    elif "order" in arg:
-                        if arg.split("{")[0] != "order":
-                            new_args[i] = "order"
-                            index_order = i
-            elif is_match == 1:
-                for i, arg in enumerate(args):
-                    if "speed" in arg:
-                        if arg.split("{")[0] != arg_speed:
-                            new_args[i] = arg_speed
-                            index_speed = i
-            elif unit == "dB" or "A-weight" in self.normalizations:
-                self.get_magnitude_along(
-                    *args,
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                )
-            else:
-                raise AxisError(
-                    "Cannot convert to " + unit + " without a frequency axis"
-                )
-            if (
-                index_speed is None and index_order is None
-            ):  # No sum on freqs axis -> can extract directly
-                return self.get_magnitude_along(
-                    *args,
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                )
-            elif index_speed is None:  # Sum on order axis
-                if "[" in args[-1]:
-                    new_args[-1] = args[-1].split("[")[0]
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along order axis
-                return data.get_magnitude_along(
-                    *[arg_speed, args[index_order]] + args[2:],
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on order axis
-            elif index_order is None:  # Sum on speed axis
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along speed axis
-                return data.get_magnitude_along(
-                    *args,
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on speed axis
-            else:  # Sum on speed and order axes
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along speed and order axes
-                return data.get_magnitude_along(
-                    *[args[index_speed], args[index_order]],
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on speed and order axes
+            names_speed = [
+                axis.name
+                for axis in self.axes
+                if axis.name == "speed" or "speed" in axis.normalizations
+            ]
+            is_order = any(axis.name == "order" for axis in self.axes)
+            if len(names_speed) == 0 and not is_order:
+                if unit != "dB" and "A-weight" not in self.normalizations:
+                    raise AxisError(
+                        "Cannot convert to " + unit + " without a frequency axis"
+                    )
+            for i, arg in enumerate(args):
+                if any("=" + operation in arg for operation in operation_list):
+                    if names[i] in names_speed:
+                        new_args[i] = names[i]
+                        if names[i] != "speed":
+                            new_args[i] += "->speed"
+                        indices_sum.append(i)
+                    elif names[i] == "order" and len(names_speed) > 0:
+                        new_args[i] = "order"
+                        indices_sum.append(i)
+        if len(indices_sum) == 0:  # No sum on freqs axis -> can extract directly
+            return self.get_magnitude_along(
+                *args,
+                axis_data=axis_data,
+                unit=unit,
+                is_squeeze=is_squeeze,
+                is_sum=False,
+            )
+        else:
+            data = self.get_data_along(
+                *new_args, axis_data=axis_data, unit=unit
+            )  # Extract first along freqs axis
+            args_sum = {names[i]: args[i] for i in indices_sum}
+            return data.get_magnitude_along(
+                *[
+                    args_sum.get(axis.name, axis.name + "[smallestperiod]")
+                    for axis in data.axes
+                ],
+                unit=unit,
+                is_squeeze=is_squeeze,
+                is_sum=False,
+                corr_unit=self.unit,
+            )  # Then sum on freqs axis (other axes are already extracted)
 
     else:
 
         return_dict = self.get_along(
             *args,
             axis_data=axis_data,
-            is_squeeze=is_squeeze,
+            is_squeeze=False,
             is_magnitude=True,
             corr_unit=corr_unit,
         )
@@ -178,10 +114,15 @@ def get_magnitude_along(
             if axis.name == "freqs" or axis.corr_name == "freqs":
                 index = axis.index
                 if axis.noct is not None:
-                    (values, foct) = apply_along_axis(
-                        to_noct, index, values, return_dict["freqs"], noct=axis.noct
+                    freqs = get_freqs_Hz(self, axis)
+                    foct = to_noct(freqs, freqs, noct=axis.noct)[1]
+                    values = apply_along_axis(
+                        lambda v: to_noct(v, freqs, noct=axis.noct)[0], index, values
                     )
+                    axis.values = foct
                     return_dict[axis.name] = foct
+        if is_squeeze and (unit != "dBA" or unit == self.unit):
+            values = squeeze(values)
         # Convert into right unit (apart because of dBA conversion)
         if unit == self.unit or unit == "SI":
             if is_norm:
@@ -202,82 +143,21 @@ def get_magnitude_along(
                 values = to_dB(values, self.unit, ref_value)
                 # Extract requested indices from A-weight
                 axes_list = return_dict["axes_list"]
-                index_list = []
-                for ii, axis in enumerate(axes_list):
-                    if (
-                        axis.indices is not None
-                        and len(axis.indices) > 1
-                        and len(axis.indices) < len(axis.values)
-                    ):
-                        index_list.append(ii)
                 A_weight = self.normalizations["A-weight"].vector
-                for index in index_list:
-                    A_weight = take(
-                        A_weight,
-                        axes_list[index].indices,
-                        axis=index,
-                    )
-                # Flatten to apply A-weighting
-                A_weight = A_weight.ravel("C")
-                shape = values.shape
-                values = values.reshape(
-                    A_weight.shape
-                    + shape[len(self.normalizations["A-weight"].vector.shape) :]
-                )
-                values = apply_along_axis(add, 0, values, A_weight)
-                values = values.reshape(shape)
-            elif "freqs" in return_dict.keys():
-                for axis in return_dict["axes_list"]:
-                    if axis.name == "freqs" or axis.corr_name == "freqs":
-                        index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["freqs"]
-                values = apply_along_axis(
-                    to_dBA, index, values, freqs, self.unit, ref_value
+                indices = [[0]] * values.ndim
+                for axis in axes_list:
+                    indices[axis.index] = axis.indices
+                for index in range(A_weight.ndim):
+                    if indices[index] is not None:
+                        A_weight = take(A_weight, indices[index], axis=index)
+                # Same A-weighting along the other axes
+                values = values + A_weight.reshape(
+                    A_weight.shape + (1,) * (values.ndim - A_weight.ndim)
                 )
-            elif "frequency" in return_dict.keys():
-                for axis in return_dict["axes_list"]:
-                    if axis.name == "frequency" or axis.corr_name == "frequency":
-                        index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["frequency"]
-                values = apply_along_axis(
-                    to_dBA, index, values, freqs, self.unit, ref_value
-                )
-            elif "order" in return_dict:
-                freqs = self._get_freqs()
-                freqs = freqs.ravel("C")
-                shape = values.shape
-                values = values.reshape(freqs.shape + shape[2:])
-                values = apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
-                )
-                values = values.reshape(shape)
             else:
-                raise UnitError(
-                    "dBA conversion only available for fft with frequencies"
-                )
-
+                values = apply_dBA(self, values, return_dict["axes_list"], ref_value)
+            if is_squeeze:
+                values = squeeze(values)
         elif unit in self.normalizations:
             values = self.normalizations.get(unit).normalize(values)
         else:
-- 
2.43.0


From bd6d8af9302701140397f122d71f939293d90e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:57 +0000
Subject: [PATCH 44/68] fix: compare fields along common coordinates

Comparing with at least one other field always failed: the interpolation was
called without the dimension to interpolate, and single points, operations or
component axes were interpolated too. The common coordinates skipped samples
when the range of one axis started between two samples of the other.
---
 SciDataTool/Functions/compare_fields.py       | 67 +++++++++++++++++++
 SciDataTool/Functions/interpolations.py       | 31 ++++-----
 SciDataTool/Methods/DataND/compare_along.py   | 44 ++----------
 .../Methods/DataND/compare_magnitude_along.py | 44 ++----------
 .../Methods/DataND/compare_phase_along.py     | 44 ++----------
 5 files changed, 101 insertions(+), 129 deletions(-)
 create mode 100644 SciDataTool/Functions/compare_fields.py

diff --git a/SciDataTool/Functions/compare_fields.py b/SciDataTool/Functions/compare_fields.py
new file mode 100644
index 0000000..63d710b
--- /dev/null
+++ b/SciDataTool/Functions/compare_fields.py
@@ -0,0 +1,67 @@
+from numpy import array, array_equal, moveaxis
+
+from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+
+
+def compare_fields(data_list, results_list):
+    """Interpolates the answers of several fields to the same request on common axes
+    Parameters
+    ----------
+    data_list: list
+        list of Data objects to compare
+    results_list: list
+        list of the dictionaries returned by each Data object
+    Returns
+    -------
+    dictionary of the common axes values and of the fields (the first one under its
+    symbol, the others under their symbol followed by their position)
+    """
+    return_dict = {}
+    values_list = [results[data.symbol] for data, results in zip(data_list, results_list)]
+    axes_names = [axis.name for axis in results_list[0]["axes_list"]]
+    # Put the dimensions of all fields in the same order
+    for i, results in enumerate(results_list):
+        names = [axis.name for axis in results["axes_list"]]
+        names = [name for name in names if is_dimension(results[name])]
+        new_names = [name for name in axes_names if name in names]
+        values_list[i] = moveaxis(
+            values_list[i],
+            [names.index(name) for name in new_names],
+            range(len(new_names)),
+        )
+
+    index = 0
+    for name in axes_names:
+        axes_values = [results[name] for results in results_list]
+        common_values = axes_values[0]
+        if is_dimension(common_values):
+            if array(common_values).dtype.kind in "US":
+                # Components cannot be interpolated
+                for axis_values in axes_values[1:]:
+                    if not array_equal(axis_values, common_values):
+                        raise AxisError("Cannot compare fields with other " + name)
+            else:
+                # Get the common base
+                for axis_values in axes_values[1:]:
+                    common_values = get_common_base(common_values, axis_values)
+                # Interpolate over common axis values
+                for i, axis_values in enumerate(axes_values):
+                    values_list[i] = get_interpolation(
+                        values_list[i], axis_values, common_values, index
+                    )
+            index += 1
+        return_dict[name] = common_values
+
+    # Return axis and values
+    return_dict[data_list[0].symbol] = values_list[0]
+    return_dict["axes_list"] = results_list[0]["axes_list"]
+    return_dict["axes_dict_other"] = results_list[0]["axes_dict_other"]
+    for i, data in enumerate(data_list[1:]):
+        return_dict[data.symbol + "_" + str(i)] = values_list[i + 1]
+    return return_dict
+
+
+def is_dimension(axis_values):
+    """Returns True if the values are not those of a single point or an operation"""
+    return not isinstance(axis_values, str) and len(axis_values) > 1
diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2c01820..64a4124 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -37,27 +37,22 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
     else:
         initial = max(values1[0], values2[0])
         final = min(values1[-1], values2[-1])
+    # Samples of each axis in the common range
+    common1 = [i for i in values1 if i >= initial and i <= final]
+    common2 = [i for i in values2 if i >= initial and i <= final]
     if is_downsample:
-        number = min(
-            len([i for i in values1 if i >= initial and i <= final]),
-            len([i for i in values2 if i >= initial and i <= final]),
+        return linspace(
+            initial, final, min(len(common1), len(common2)), endpoint=True
         )
+    elif is_extrap:
+        return linspace(
+            initial, final, max(len(common1), len(common2)), endpoint=True
+        )
+    # Keep the samples of the finest axis
+    elif len(common1) > len(common2):
+        return array(common1)
     else:
-        length1 = len([i for i in values1 if i >= initial and i <= final])
-        length2 = len([i for i in values2 if i >= initial and i <= final])
-        if length1 > length2:
-            number = length1
-            if initial not in values1:
-                initial = values1[argmin(np_abs([i - initial for i in values1])) + 1]
-            if final not in values1:
-                final = values1[argmin(np_abs([i - final for i in values1])) - 1]
-        else:
-            number = length2
-            if initial not in values2:
-                initial = values2[argmin(np_abs([i - initial for i in values2])) + 1]
-            if final not in values2:
-                final = values2[argmin(np_abs([i - final for i in values2])) - 1]
-    return linspace(initial, final, int(number), endpoint=True)
+        return array(common2)
 
 
 def get_interpolation(values, axis_values, new_axis_values, index):
diff --git a/SciDataTool/Methods/DataND/compare_along.py b/SciDataTool/Methods/DataND/compare_along.py
index 18cd2dd..f9578c9 100644
--- a/SciDataTool/Methods/DataND/compare_along.py
+++ b/SciDataTool/Methods/DataND/compare_along.py
@@ -1,4 +1,4 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.compare_fields import compare_fields
 
 
 def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
@@ -23,39 +23,9 @@ def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
         return self.get_along(args, unit=unit, is_norm=is_norm)
     else:
         # Extract requested axes + field values
-        results = self.get_along(args, unit=unit, is_norm=is_norm)
-        values = results.pop(self.symbol)
-        axes_list = results.pop("axes_list")
-        axes_dict_other = results.pop("axes_dict_other")
-        axes = results
-        data_axis_values = []
-        data_values = []
-        return_dict = {}
-        for data in data_list:
-            results = data.get_along(args, unit=unit, is_norm=is_norm)
-            data_values.append(results.pop(data.symbol))
-            data_axis_values.append(results)
-        # Get the common bases
-        common_axis_values = {}
-        for axis in axes.keys():
-            common_axis_values[axis] = axes[axis]
-            for i, data in enumerate(data_list):
-                common_axis_values[axis] = get_common_base(
-                    common_axis_values[axis], data_axis_values[i][axis]
-                )
-            # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
-            for i, data in enumerate(data_list):
-                data_values[i] = get_interpolation(
-                    data_values[i],
-                    data_axis_values[i][axis],
-                    common_axis_values[axis],
-                )
-            return_dict[axis] = common_axis_values[axis]
-        # Return axis and values
-        return_dict[self.symbol] = values
-        return_dict["axes_list"] = axes_list
-        return_dict["axes_dict_other"] = axes_dict_other
-        for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
-        return return_dict
+        data_list = [self] + list(data_list)
+        results_list = [
+            data.get_along(args, unit=unit, is_norm=is_norm) for data in data_list
+        ]
+        # Interpolate over common axis values
+        return compare_fields(data_list, results_list)
diff --git a/SciDataTool/Methods/DataND/compare_magnitude_along.py b/SciDataTool/Methods/DataND/compare_magnitude_along.py
index 4fd0ea9..e702b41 100644
--- a/SciDataTool/Methods/DataND/compare_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/compare_magnitude_along.py
@@ -1,4 +1,4 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.compare_fields import compare_fields
 
 
 def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False):
@@ -23,39 +23,9 @@ def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False)
         return self.get_magnitude_along(args, unit=unit, is_norm=is_norm)
     else:
         # Extract requested axes + field values
-        results = self.get_magnitude_along(args, unit=unit, is_norm=is_norm)
-        values = results.pop(self.symbol)
-        axes_list = results.pop("axes_list")
-        axes_dict_other = results.pop("axes_dict_other")
-        axes = results
-        data_axis_values = []
-        data_values = []
-        return_dict = {}
-        for data in data_list:
-            results = data.get_magnitude_along(args, unit=unit, is_norm=is_norm)
-            data_values.append(results.pop(data.symbol))
-            data_axis_values.append(results)
-        # Get the common bases
-        common_axis_values = {}
-        for axis in axes.keys():
-            common_axis_values[axis] = axes[axis]
-            for i, data in enumerate(data_list):
-                common_axis_values[axis] = get_common_base(
-                    common_axis_values[axis], data_axis_values[i][axis]
-                )
-            # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
-            for i, data in enumerate(data_list):
-                data_values[i] = get_interpolation(
-                    data_values[i],
-                    data_axis_values[i][axis],
-                    common_axis_values[axis],
-                )
-            return_dict[axis] = common_axis_values[axis]
-        # Return axis and values
-        return_dict[self.symbol] = values
-        return_dict["axes_list"] = axes_list
-        return_dict["axes_dict_other"] = axes_dict_other
-        for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
-        return return_dict
+        data_list = [self] + list(data_list)
+        results_list = [
+            data.get_magnitude_along(args, unit=unit, is_norm=is_norm) for data in data_list
+        ]
+        # Interpolate over common axis values
+        return compare_fields(data_list, results_list)
diff --git a/SciDataTool/Methods/DataND/compare_phase_along.py b/SciDataTool/Methods/DataND/compare_phase_along.py
index bf45c0d..1498ee1 100644
--- a/SciDataTool/Methods/DataND/compare_phase_along.py
+++ b/SciDataTool/Methods/DataND/compare_phase_along.py
@@ -1,4 +1,4 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.compare_fields import compare_fields
 
 
 def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
@@ -23,39 +23,9 @@ def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
         return self.get_phase_along(args, unit=unit, is_norm=is_norm)
     else:
         # Extract requested axes + field values
-        results = self.get_phase_along(args, unit=unit, is_norm=is_norm)
-        values = results.pop(self.symbol)
-        axes_list = results.pop("axes_list")
-        axes_dict_other = results.pop("axes_dict_other")
-        axes = results
-        data_axis_values = []
-        data_values = []
-        return_dict = {}
-        for data in data_list:
-            results = data.get_phase_along(args, unit=unit, is_norm=is_norm)
-            data_values.append(results.pop(data.symbol))
-            data_axis_values.append(results)
-        # Get the common bases
-        common_axis_values = {}
-        for axis in axes.keys():
-            common_axis_values[axis] = axes[axis]
-            for i, data in enumerate(data_list):
-                common_axis_values[axis] = get_common_base(
-                    common_axis_values[axis], data_axis_values[i][axis]
-                )
-            # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
-            for i, data in enumerate(data_list):
-                data_values[i] = get_interpolation(
-                    data_values[i],
-                    data_axis_values[i][axis],
-                    common_axis_values[axis],
-                )
-            return_dict[axis] = common_axis_values[axis]
-        # Return axis and values
-        return_dict[self.symbol] = values
-        return_dict["axes_list"] = axes_list
-        return_dict["axes_dict_other"] = axes_dict_other
-        for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
-        return return_dict
+        data_list = [self] + list(data_list)
+        results_list = [
+            data.get_phase_along(args, unit=unit, is_norm=is_norm) for data in data_list
+        ]
+        # Interpolate over common axis values
+        return compare_fields(data_list, results_list)
-- 
2.43.0


From 81391af7c4602005e345f82c7fc1b92e33fac9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:58 +0000
Subject: [PATCH 45/68] fix: curves overlaid along the right axis, with the
 unit of the abscissa

Curves were split along another axis of the same length, the abscissa
could be labelled after the overlaid axis, angles in radians were labelled
in degrees, and bounds on wavenumbers were not accepted.
---
 SciDataTool/Functions/Plot/get_axis_unit.py | 31 +++++++++++
 SciDataTool/Methods/DataND/plot_2D_Data.py  | 59 +++++++++++----------
 2 files changed, 62 insertions(+), 28 deletions(-)
 create mode 100644 SciDataTool/Functions/Plot/get_axis_unit.py

diff --git a/SciDataTool/Functions/Plot/get_axis_unit.py b/SciDataTool/Functions/Plot/get_axis_unit.py
new file mode 100644
index 0000000..0544f65
--- /dev/null
+++ b/SciDataTool/Functions/Plot/get_axis_unit.py
@@ -0,0 +1,31 @@
+from SciDataTool.Functions.Plot import norm_dict, unit_dict
+
+
+def get_axis_unit(axis):
+    """Returns the unit of the values of a requested axis, to be displayed in labels.
+
+    Parameters
+    ----------
+    axis: RequestedAxis
+        a RequestedAxis object
+
+    Returns
+    -------
+    axis_unit: str
+        unit of the axis values ("" if dimensionless)
+    """
+
+    if axis.unit == "SI":
+        # No conversion requested: values are in the unit of the axis
+        axis_unit = axis.corr_unit
+        if axis_unit == "SI":
+            axis_unit = unit_dict.get(axis.name, axis_unit)
+    elif axis.unit in norm_dict and axis.unit != "Hz":
+        axis_unit = norm_dict[axis.unit]
+    else:
+        axis_unit = axis.unit
+
+    if axis_unit == "dimless":
+        axis_unit = ""
+
+    return axis_unit
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 6420809..2f7a5e1 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -1,6 +1,6 @@
 from SciDataTool.Functions.Plot.plot_2D import plot_2D
+from SciDataTool.Functions.Plot.get_axis_unit import get_axis_unit
 from SciDataTool.Functions.Plot import (
-    unit_dict,
     norm_dict,
     axes_dict,
     fft_dict,
@@ -15,7 +15,6 @@ from numpy import (
     squeeze,
     split,
     array,
-    where,
     unique,
     nanmax as np_max,
     array2string,
@@ -157,7 +156,7 @@ def plot_2D_Data(
 
     # In case of 1D fft, keep only positive wavenumbers
     for i, arg in enumerate(arg_list_along):
-        if "wavenumber" in arg and "=" not in arg and "[" not in arg:
+        if "wavenumber" in arg and not any(char in arg for char in "=[<>"):
             liste = list(arg_list_along)
             liste[i] = arg.replace("wavenumber", "wavenumber>0")
             arg_list_along = tuple(liste)
@@ -212,6 +211,7 @@ def plot_2D_Data(
     # Extract field and axes
     Xdatas = []
     Ydatas = []
+    dims = []
     data_list2 = [self] + data_list
     for i, d in enumerate(data_list2):
         if is_fft or "dB" in unit:
@@ -231,6 +231,15 @@ def plot_2D_Data(
                 axes_dict_other = result.pop("axes_dict_other")
                 result_0 = result
         Ydatas.append(result.pop(d.symbol))
+        # Store names of the dimensions of the field
+        dims.append(
+            [
+                axis.name
+                for axis in axes_list
+                if not isinstance(result[axis.name], str)
+                and len(result[axis.name]) > 1
+            ]
+        )
         # in string case not overlay, Xdatas is a linspace
         if (
             axes_list[list(result.keys()).index(axes_names[0])].is_components
@@ -246,7 +255,9 @@ def plot_2D_Data(
     # Build xlabel and title
     title1 = self.name[0].capitalize() + self.name[1:] + " "
     title2 = "for "
-    for axis in axes_list:
+    main_axis_name = None
+    # Start with first requested axis, as it is the abscissa
+    for axis in sorted(axes_list, key=lambda axis: axis.name != axes_names[0]):
         if axis.unit in norm_dict and axis.unit != "Hz":
             name = norm_dict[axis.unit].split(" [")[0]
         elif axis.name in axes_dict:
@@ -268,25 +279,25 @@ def plot_2D_Data(
             or (len(axis.values) == 1 and len(axes_list) == 1)
         ):
             if axis.unit == "SI":
-                if axis.name in unit_dict:
-                    axis_unit = unit_dict[axis.name]
-                else:
-                    axis_unit = axis.unit
+                axis_unit = get_axis_unit(axis)
                 if xlabel is None:
                     xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
-                main_axis_name = name
+                if main_axis_name is None:
+                    main_axis_name = name
             elif axis.unit in norm_dict:
                 if xlabel is None:
                     xlabel = norm_dict[axis.unit]
-                if axis.unit == "Hz":
-                    main_axis_name = "frequency"
-                else:
-                    main_axis_name = axis.unit
+                if main_axis_name is None:
+                    if axis.unit == "Hz":
+                        main_axis_name = "frequency"
+                    else:
+                        main_axis_name = axis.unit
             else:
                 axis_unit = axis.unit
                 if xlabel is None:
                     xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
-                main_axis_name = name
+                if main_axis_name is None:
+                    main_axis_name = name
             if (
                 axis.name == "angle"
                 and axis.unit == "°"
@@ -306,10 +317,7 @@ def plot_2D_Data(
                 xticks = None
         else:
             if axis.corr_unit == "SI":
-                if axis.name in unit_dict:
-                    axis_unit = unit_dict[axis.name]
-                else:
-                    axis_unit = axis.unit
+                axis_unit = get_axis_unit(axis)
             elif axis.corr_unit in norm_dict and axis.corr_unit != "Hz":
                 axis_unit = norm_dict[axis.corr_unit]
             else:
@@ -399,11 +407,9 @@ def plot_2D_Data(
                 if linestyles is None:
                     linestyles = ["dashed"]
                 n_curves = len(axis.values)
+                overlay_name = axis.name
                 if axis.unit == "SI":
-                    if axis.name in unit_dict:
-                        axis_unit = unit_dict[axis.name]
-                    else:
-                        axis_unit = axis.unit
+                    axis_unit = get_axis_unit(axis)
                 elif axis.unit in norm_dict:
                     axis_unit = norm_dict[axis.unit]
                 else:
@@ -445,12 +451,9 @@ def plot_2D_Data(
     # Split Ydatas if the plot overlays several curves
     if is_overlay:
         Ydata = []
-        for d in Ydatas:
-            if d.ndim != 1:
-                axis_index = where(array(d.shape) == n_curves)[0]
-                if axis_index.size > 1:
-                    print("WARNING, several axes with same dimensions")
-                Ydata += split(d, n_curves, axis=axis_index[-1])
+        for d, dim in zip(Ydatas, dims):
+            if d.ndim != 1 and overlay_name in dim:
+                Ydata += split(d, n_curves, axis=dim.index(overlay_name))
             else:
                 Ydata += [d]
         Ydatas = [squeeze(d) for d in Ydata]
-- 
2.43.0


From 7eba90d1d8cc910f029608933c527b4337fadec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:58 +0000
Subject: [PATCH 46/68] fix: maps along two axes requested in any order

Requests in another order than the axes of the field, meshes, stems and
logarithmic scales failed, decreasing axes flipped the wrong dimension and
switched axes kept their tick labels.
---
 SciDataTool/Functions/Plot/plot_3D.py      |  9 +++---
 SciDataTool/Functions/Plot/plot_4D.py      |  4 +--
 SciDataTool/Methods/DataND/plot_3D_Data.py | 33 ++++++++++++++--------
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 5da8692..3c791d0 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -162,6 +162,7 @@ def plot_3D(
         x_max, y_max = y_max, x_max
         xlabel, ylabel = ylabel, xlabel
         xticks, yticks = yticks, xticks
+        xticklabels, yticklabels = yticklabels, xticklabels
         is_logscale_x, is_logscale_y = is_logscale_y, is_logscale_x
 
     # Plot
@@ -243,10 +244,10 @@ def plot_3D(
         # Handle descending order axes (e.g. spectrogram of run-down in freq/rpm map)
         if Ydata[-1] < Ydata[0]:
             Ydata = Ydata[::-1]
-            Zdata = Zdata[:, ::-1]
+            Zdata = Zdata[::-1, :]
         if Xdata[-1] < Xdata[0]:
             Xdata = Xdata[::-1]
-            Zdata = Zdata[::-1, :]
+            Zdata = Zdata[:, ::-1]
         im = NonUniformImage(
             ax,
             interpolation=interpolation,
@@ -369,10 +370,10 @@ def plot_3D(
     ax.set_ylabel(ylabel)
 
     if is_logscale_x:
-        ax.xscale("log")
+        ax.set_xscale("log")
 
     if is_logscale_y:
-        ax.yscale("log")
+        ax.set_yscale("log")
 
     if is_disp_title:
         ax.set_title(title)
diff --git a/SciDataTool/Functions/Plot/plot_4D.py b/SciDataTool/Functions/Plot/plot_4D.py
index edec72b..38c7cc9 100644
--- a/SciDataTool/Functions/Plot/plot_4D.py
+++ b/SciDataTool/Functions/Plot/plot_4D.py
@@ -246,10 +246,10 @@ def plot_4D(
     ax.set_ylim([y_min, y_max])
 
     if is_logscale_x:
-        ax.xscale("log")
+        ax.set_xscale("log")
 
     if is_logscale_y:
-        ax.yscale("log")
+        ax.set_yscale("log")
 
     if is_disp_title:
         ax.set_title(title)
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index be9bea4..a4db25f 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -1,7 +1,8 @@
 from numpy.core.numeric import zeros_like
 from SciDataTool.Functions.Plot.plot_4D import plot_4D
 from SciDataTool.Functions.Plot.plot_3D import plot_3D
-from SciDataTool.Functions.Plot import unit_dict, norm_dict, axes_dict
+from SciDataTool.Functions.Plot import norm_dict, axes_dict
+from SciDataTool.Functions.Plot.get_axis_unit import get_axis_unit
 from SciDataTool.Functions.Load.import_class import import_class
 from SciDataTool.Functions.parser import read_input_strings
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
@@ -11,6 +12,7 @@ from numpy import (
     where,
     meshgrid,
     unique,
+    isin,
     nanmax as np_max,
     nanmin as np_min,
     array2string,
@@ -211,10 +213,13 @@ def plot_3D_Data(
     else:
         Ydata = result[axes_names[1]]
     Zdata = result[self.symbol]
-    if Xdata.size == 1:
-        Zdata = Zdata[None, ...]
-    if Ydata.size == 1:
-        Zdata = Zdata[..., None]
+    if not is_fft or is_2D_view:
+        # Set first requested axis in rows and second one in columns
+        names = [axis.name for axis in axes_list]
+        if names.index(axes_names[0]) < names.index(axes_names[1]):
+            Zdata = Zdata.reshape((Xdata.size, Ydata.size))
+        else:
+            Zdata = Zdata.reshape((Ydata.size, Xdata.size)).T
     if is_fft and not is_2D_view:
         X_flat = Xdata
         Y_flat = Ydata
@@ -255,7 +260,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = get_axis_unit(axis)
         if xlabel is None:
             xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -293,7 +298,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = get_axis_unit(axis)
         if ylabel is None:
             ylabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -366,7 +371,7 @@ def plot_3D_Data(
             is_display = False
         if is_display:
             if axis.unit == "SI":
-                axis_unit = unit_dict[axis.name]
+                axis_unit = get_axis_unit(axis)
             elif axis.unit in norm_dict:
                 axis_unit = norm_dict[axis.unit]
             else:
@@ -458,8 +463,14 @@ def plot_3D_Data(
             threshold = max(10 * log10(thresh) + abs(np_max(Zdata)), 0)
         else:
             threshold = abs(thresh * np_max(Zdata))
-        indices_x = np_any(where(Zdata > threshold, True, False), axis=1)
-        indices_y = np_any(where(Zdata > threshold, True, False), axis=0)
+        if is_2D_view:
+            indices_x = np_any(where(Zdata > threshold, True, False), axis=1)
+            indices_y = np_any(where(Zdata > threshold, True, False), axis=0)
+        else:
+            # One point per harmonic: only keep distinct coordinates as ticks
+            Xdata, Ydata = unique(X_flat), unique(Y_flat)
+            indices_x = isin(Xdata, X_flat[Z_flat > threshold])
+            indices_y = isin(Ydata, Y_flat[Z_flat > threshold])
 
         if is_filter_x:
             xticks = Xdata[indices_x]
@@ -659,7 +670,7 @@ def plot_3D_Data(
                     y_min -= 0.5
                     y_max -= 0.5
                 Ydata, Xdata = meshgrid(Ydata, Xdata)
-            if type_plot == "pcolor":
+            if type_plot == "pcolor" or Xdata.ndim == 1:
                 Zdata = Zdata.T
             plot_3D(
                 Xdata,
-- 
2.43.0


From c8f611308945bd90f9b9ac5051c086c4311c596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:58 +0000
Subject: [PATCH 47/68] fix: export several curves, any axis name and levels
 without reference

As many curves as samples were exported transposed, the unit was repeated
in each file, and axes with other names than the usual ones failed.
---
 SciDataTool/Methods/DataND/export_along.py | 55 ++++++++++++----------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 4f51040..9b208b1 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -1,4 +1,4 @@
-from SciDataTool.Functions.Plot import unit_dict
+from SciDataTool.Functions.Plot.get_axis_unit import get_axis_unit
 
 import csv
 import numpy as np
@@ -89,19 +89,15 @@ def export_along(
         slices = ""
         for axis in axes_list:
             if axis.unit == "SI":
-                axis.unit = unit_dict[axis.name]
-            if len(results[axis.name]) == 1:
-                slices += axis.name + "=" + str(results[axis.name][0])
-            elif isinstance(results[axis.name], str):
-                slices += axis.name + "=" + results[axis.name]
+                axis.unit = get_axis_unit(axis)
+            if isinstance(results[axis.name], str):
+                slices = add_slice(slices, axis.name, results[axis.name])
+            elif len(results[axis.name]) == 1:
+                slices = add_slice(slices, axis.name, results[axis.name][0])
             else:
                 axes_list_new.append(axis)
         for axis in results["axes_dict_other"]:
-            if slices != "":
-                slices = slices + ", "
-            slices += axis + "=" + str(results["axes_dict_other"][axis][0])
-        if slices != "":
-            slices = "sliced at " + slices
+            slices = add_slice(slices, axis, results["axes_dict_other"][axis][0])
 
     # Default file_name
     if file_name is None:
@@ -121,6 +117,16 @@ def export_along(
         else:
             raise Exception("cannot export more than 3 dimensions in csv file")
 
+        # Unit of the field
+        if unit == "SI":
+            unit = self.unit
+        if "dB" in unit:
+            if "ref" in self.normalizations:
+                ref = self.normalizations["ref"].ref
+            else:
+                ref = 1
+            unit += " re. " + str(ref) + " " + self.unit
+
         for i in range(nfiles):
             if nfiles > 1:
                 file_name_i = (
@@ -129,13 +135,8 @@ def export_along(
                     + axes_list_new[2].name
                     + str(axes_list_new[2].values[i])
                 )
-                if slices == "":
-                    slices = "sliced at "
-                slices_i = (
-                    slices
-                    + axes_list_new[2].name
-                    + "="
-                    + str(axes_list_new[2].values[i])
+                slices_i = add_slice(
+                    slices, axes_list_new[2].name, axes_list_new[2].values[i]
                 )
             else:
                 file_name_i = file_name
@@ -145,13 +146,6 @@ def export_along(
             ) as my_csv:
                 csvWriter = csv.writer(my_csv, delimiter=",")
                 # First line: meta-data
-                if unit == "SI":
-                    unit = self.unit
-                if "dB" in unit:
-                    unit += (
-                        " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
-                    )
-
                 meta_data = [self.symbol, self.name, "[" + unit + "]", slices_i]
                 csvWriter.writerow(meta_data)
 
@@ -176,7 +170,8 @@ def export_along(
                     if len(Ydatas) == 1:
                         field = np.array(Ydatas[0])
                     else:
-                        field = np.array(Ydatas)
+                        # One curve per column
+                        field = np.array(Ydatas).T
                     if field.shape[0] != len(Xdata[0]):
                         field = field.T
                     matrix = format_matrix(
@@ -235,6 +230,14 @@ def export_along(
         raise Exception("export format not supported")
 
 
+def add_slice(slices, name, value):
+    if slices == "":
+        slices = "sliced at "
+    else:
+        slices += ", "
+    return slices + name + "=" + str(value)
+
+
 def format_matrix(a, char_list):
     for char in char_list:
         a = np.char.replace(a, char, "")
-- 
2.43.0


From 25d1d00e8f8d9b329701d27d5034d2fc5649a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:24 +0000
Subject: [PATCH 48/68] fix: spectra and signals at arbitrary points are direct
 Fourier sums

Points off the natural grid were interpolated when going back to time,
complex fields and spectra of both axes were doubled, wavenumbers of
non-uniform angles missed a factor 2*pi and lists of points failed.
---
 SciDataTool/Functions/fft_functions.py   | 57 +++++++++++++++++++++---
 SciDataTool/Functions/nudft_functions.py |  8 +++-
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 418ce0c..6c449a8 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -223,9 +223,15 @@ def comp_fftn(values, axes_list, is_real=True):
                 # Uniformity does not depend on the origin of the axis
                 if not is_uniform(axis.corr_values - axis.corr_values[0]):
                     is_non_uniform = True
+                    # Convert wavenumbers to frequencies if needed
+                    frequencies = (
+                        array(axis.input_data)
+                        if axis.name == "freqs"
+                        else array(axis.input_data) / (2 * pi)
+                    )
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
-                        axis.input_data,
+                        frequencies,
                     ]
                     # Keep only interpolation data
                     axis.values = axis.input_data
@@ -248,9 +254,9 @@ def comp_fftn(values, axes_list, is_real=True):
                     is_non_uniform = True
                     # Convert wavenumbers to frequencies if needed
                     frequencies = (
-                        axis.input_data
+                        array(axis.input_data)
                         if axis.name == "freqs"
-                        else axis.input_data / (2 * pi)
+                        else array(axis.input_data) / (2 * pi)
                     )
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
@@ -260,10 +266,6 @@ def comp_fftn(values, axes_list, is_real=True):
                     axis.values = axis.input_data
                     axis.input_data = None
 
-    # Apply DFT on non-uniform axes
-    if is_non_uniform:
-        values = nudftn(values, axes_dict=axes_dict_non_uniform)
-
     # Find other fft axes
     for axis in axes_list:
         if axis.index not in axes_dict_non_uniform:
@@ -274,6 +276,8 @@ def comp_fftn(values, axes_list, is_real=True):
                     wavenumber = array(comp_fft_freqs(axis.corr_values, False, is_real))
                     if axis.indices is not None:
                         wavenumber = wavenumber[axis.indices]
+                    elif axis.input_data is not None:
+                        wavenumber = axis.input_data
                 if is_real and axis.name == "freqs":
                     axes.append(axis.index)
                     shape.append(values.shape[axis.index])
@@ -316,9 +320,46 @@ def comp_fftn(values, axes_list, is_real=True):
             values_FT2 = fftshift(values_FT, axes=axes) / size
     else:
         values_FT2 = values
+
+    # Apply DFT on non-uniform axes, with same convention as FFT
+    if is_non_uniform:
+        axes_onesided = [
+            axis.index
+            for axis in axes_list
+            if is_real and (axis.name == "freqs" or "freqs" not in axis_names)
+        ]
+        values_FT2 = nudftn(
+            values_FT2,
+            axes_dict=axes_dict_non_uniform,
+            axes_onesided=axes_onesided,
+        )
+
     return values_FT2
 
 
+def is_on_grid(points, grid):
+    """Tests if all points are on a uniform grid
+    Parameters
+    ----------
+    points: array
+        vector of points
+    grid: array
+        uniform grid
+    Returns
+    -------
+    True if all points are on the grid
+    """
+    grid = array(grid)
+    if grid.size < 2:
+        return False
+    index = (array(points) - grid[0]) / (grid[1] - grid[0])
+    return bool(
+        (abs(index - around(index)) < 1e-6).all()
+        and (around(index) >= 0).all()
+        and (around(index) < grid.size).all()
+    )
+
+
 # def _comp_ifft(values, is_positive=False):
 #     """Computes the Inverse Fourier Transform
 #     Parameters
@@ -411,6 +452,8 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                                     len(freqs) != len(axis.corr_values)
                                     and not isin(freqs, axis.corr_values).all()
                                 )
+                                # Only use FFT if requested points are on its grid
+                                or not is_on_grid(axis.input_data, axis.values)
                                 or (
                                     len(freqs) == len(axis.corr_values)
                                     and not allclose(
diff --git a/SciDataTool/Functions/nudft_functions.py b/SciDataTool/Functions/nudft_functions.py
index 938a387..93927ca 100644
--- a/SciDataTool/Functions/nudft_functions.py
+++ b/SciDataTool/Functions/nudft_functions.py
@@ -17,7 +17,9 @@ def matrice_D(t: ndarray, f: ndarray) -> ndarray:
     return exp(-1j * outer(f * 2 * pi, t))
 
 
-def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
+def nudftn(
+    a: ndarray, axes_dict: Dict[int, List[ndarray]], axes_onesided: List[int] = None
+) -> ndarray:
     """
     Compute the non uniform discrete Fourier Transform
 
@@ -26,6 +28,8 @@ def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
 
     a: Input data
     axes_dict: Axes to perform dft with corresponding space and freqsampling
+    axes_onesided: Axes whose coefficients are doubled if every frequency is >=0
+        (all axes by default)
 
     Returns
     res: DFT result
@@ -62,7 +66,7 @@ def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
             res /= len(s)
 
             # Check if every frequency is >=0 (rfft equivalent)
-            if np_all(f >= 0):
+            if np_all(f >= 0) and (axes_onesided is None or idx_axe in axes_onesided):
                 idx = where(f != 0)
                 slice_list = tuple(
                     slice(None) if i != idx_axe else idx[0] for i in range(res.ndim)
-- 
2.43.0


From f1824dbf449974c4348d738a07c70f263a38f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:24 +0000
Subject: [PATCH 49/68] fix: two points given as axis data are not an interval

Outside the first period they were read as the bounds of an interval.
---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 0d66c21..ded8992 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -31,6 +31,8 @@ def get_axis(self, axis, is_real):
         an Axis object
     """
 
+    # Extension can be changed below according to symmetries
+    is_axis_data = self.extension == "axis_data"
     if self.operation is not None:
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, self.operation)  # Conversion function
@@ -207,7 +209,7 @@ def get_axis(self, axis, is_real):
         if self.input_data is None:
             self.values = values
         else:
-            if len(self.input_data) == 2 and self.extension != "axis_data":
+            if len(self.input_data) == 2 and not is_axis_data:
                 indices = [
                     i
                     for i, x in enumerate(values)
-- 
2.43.0


From 56363c4560d68cc3ac80d0c829e608aa414a588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:24 +0000
Subject: [PATCH 50/68] fix: filters accept items which belong to several keys

Each match added a key, so the following items were compared with the
wrong ones.
---
 SciDataTool/Methods/Data1D/check_filter.py | 26 +++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/check_filter.py b/SciDataTool/Methods/Data1D/check_filter.py
index 8e45899..76a2ac3 100644
--- a/SciDataTool/Methods/Data1D/check_filter.py
+++ b/SciDataTool/Methods/Data1D/check_filter.py
@@ -1,3 +1,5 @@
+from itertools import permutations
+
 from SciDataTool.Functions import AxisError
 
 
@@ -12,19 +14,23 @@ def check_filter(self):
     keys: list
         list of filter keys in same order as in values
     """
-    keys = []
-    for i, value in enumerate(self.values):
+    items_list = []
+    for value in self.values:
         items = value.split(self.delimiter)
         if len(items) != len(self.filter.keys()):
             raise AxisError("Filter is not correctly defined")
         for item in items:
-            is_match = False
-            for key in self.filter:
-                if item in self.filter[key]:
-                    is_match = True
-                    if i == 0:
-                        keys.append(key)
-            if not is_match:
+            if not any(item in self.filter[key] for key in self.filter):
                 raise AxisError("Missing item in filter: " + item)
+        items_list.append(items)
+
+    # Find the order of keys which suits all values (items can belong to several keys)
+    for keys in permutations(self.filter):
+        if all(
+            item in self.filter[key]
+            for items in items_list
+            for item, key in zip(items, keys)
+        ):
+            return list(keys)
 
-    return keys
+    raise AxisError("Filter is not correctly defined")
-- 
2.43.0


From a30a2aff6eb54fcc641dd16f20c4ce3e8b66d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:24 +0000
Subject: [PATCH 51/68] fix: extracted fields keep the ranking of their axis
 values

The ranking of the whole axis was copied on a part of it, or lost on
regular axes.
---
 SciDataTool/Methods/DataND/get_data_along.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index 708b1ee..1c4f8ad 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -89,6 +89,11 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             # Update unit if axis is requested in another unit
             if axis_requested.unit not in ["SI", *self.axes[index].normalizations]:
                 ax_unit = axis_requested.unit
+            # Update ranking of the axis values
+            sort_indices = getattr(self.axes[index], "sort_indices", None)
+            if sort_indices is not None and axis_requested.indices is not None:
+                indices = list(axis_requested.indices)
+                sort_indices = [indices.index(i) for i in sort_indices if i in indices]
             Axis = Data1D(
                 name=name,
                 unit=ax_unit,
@@ -96,11 +101,10 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 is_components=is_components,
                 normalizations=deepcopy(self.axes[index].normalizations),
                 symmetries=symmetries,
-            ).to_linspace()
-            if hasattr(self.axes[index], "sort_indices") and hasattr(
-                Axis, "sort_indices"
-            ):
-                Axis.sort_indices = self.axes[index].sort_indices
+                sort_indices=sort_indices,
+            )
+            if sort_indices is None:
+                Axis = Axis.to_linspace()
             Axes.append(Axis)
 
     # Update unit if dB/dBA conversion
-- 
2.43.0


From cb47a6b00bccaa790c74baf7d946650fdadec6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:24 +0000
Subject: [PATCH 52/68] fix: dual fields can be complex, hold one domain and
 give levels

Magnitudes in dB failed before any other query, fields with a single
domain failed and complex fields became real.
---
 SciDataTool/Methods/DataDual/get_axes.py          | 3 ++-
 SciDataTool/Methods/DataFreq/to_datadual.py       | 1 +
 SciDataTool/Methods/DataND/get_magnitude_along.py | 9 +++++----
 SciDataTool/Methods/DataTime/to_datadual.py       | 1 +
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/DataDual/get_axes.py b/SciDataTool/Methods/DataDual/get_axes.py
index b0eb845..1511ba5 100644
--- a/SciDataTool/Methods/DataDual/get_axes.py
+++ b/SciDataTool/Methods/DataDual/get_axes.py
@@ -12,7 +12,8 @@ def get_axes(self, *args):
     """
 
     if self.axes is None:
-        axes = self.axes_dt + self.axes_df
+        # One of the two domains can be missing
+        axes = (self.axes_dt or []) + (self.axes_df or [])
     else:
         axes = self.axes
 
diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index 492c0be..db82904 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -21,6 +21,7 @@ def to_datadual(self, datatime=None):
         symbol=self.symbol,
         unit=self.unit,
         normalizations=self.normalizations.copy(),
+        is_real=self.is_real,
         axes_df=self.axes,
         values_df=self.values,
     )
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index b6ed2b8..c4977b4 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -39,7 +39,8 @@ def get_magnitude_along(
         args = args[0]  # if called from another script with *args
 
     # Fix axes order
-    args = fix_axes_order([axis.name for axis in self.get_axes()], args)
+    axes = self.get_axes()
+    args = fix_axes_order([axis.name for axis in axes], args)
 
     # For dB/dBA conversions, first extraction with freqs axis
     if "dB" in unit and unit != self.unit and is_sum:
@@ -47,7 +48,7 @@ def get_magnitude_along(
         indices_sum = []
         names = [re.split(r"[=\[<>{]|->", arg)[0].strip() for arg in args]
         args_freqs = ["freqs", "frequency", "time"]
-        if any(axis.name in args_freqs for axis in self.axes):
+        if any(axis.name in args_freqs for axis in axes):
             for i, arg in enumerate(args):
                 if names[i] in args_freqs and ("sum" in arg or "rss" in arg):
                     new_args[i] = names[i]
@@ -55,10 +56,10 @@ def get_magnitude_along(
         else:  # Try speed/order
             names_speed = [
                 axis.name
-                for axis in self.axes
+                for axis in axes
                 if axis.name == "speed" or "speed" in axis.normalizations
             ]
-            is_order = any(axis.name == "order" for axis in self.axes)
+            is_order = any(axis.name == "order" for axis in axes)
             if len(names_speed) == 0 and not is_order:
                 if unit != "dB" and "A-weight" not in self.normalizations:
                     raise AxisError(
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index b3f2da8..f204858 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -21,6 +21,7 @@ def to_datadual(self, datafreq=None):
         symbol=self.symbol,
         unit=self.unit,
         normalizations=self.normalizations.copy(),
+        is_real=self.is_real,
         axes_dt=self.axes,
         values_dt=self.values,
     )
-- 
2.43.0


From 976d1f745d89e963b934185c45297f8fd2d66288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:49 +0000
Subject: [PATCH 53/68] fix: matching pursuit handles any axis order and given
 dictionaries

The field was assumed to have its time axis first and the given synthesis
dictionary was replaced by the default one.
---
 SciDataTool/Functions/omp.py                | 3 +--
 SciDataTool/Methods/DataND/orthogonal_mp.py | 7 ++++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Functions/omp.py b/SciDataTool/Functions/omp.py
index d73e8c5..ea72218 100644
--- a/SciDataTool/Functions/omp.py
+++ b/SciDataTool/Functions/omp.py
@@ -152,6 +152,7 @@ def omp(
 
     if dictionary is None:
         dictionary_decomp = comp_dictionary(n, M)
+        dictionary_synth = comp_dictionary(n, arange(n))
     else:
         dictionary_decomp = dictionary[0]
         dictionary_synth = dictionary[1]
@@ -172,8 +173,6 @@ def omp(
             X=dictionary_decomp, y=Y, n_nonzero_coefs=n_coefs, precompute=precompute
         )
 
-    dictionary_synth = comp_dictionary(n, arange(n))
-
     Y_full = dictionary_synth @ sparse_decomposition
 
     if return_path:
diff --git a/SciDataTool/Methods/DataND/orthogonal_mp.py b/SciDataTool/Methods/DataND/orthogonal_mp.py
index ab82eda..6cb02df 100644
--- a/SciDataTool/Methods/DataND/orthogonal_mp.py
+++ b/SciDataTool/Methods/DataND/orthogonal_mp.py
@@ -30,6 +30,7 @@ def orthogonal_mp(
 
     axes_name = [self.axes[i].name for i in range(nombre_axes)]
     assert "time" in axes_name, "There is no time axe"
+    is_time_first = axes_name[0] == "time"
     axes_name.remove("time")
 
     # Extract the axes
@@ -42,7 +43,7 @@ def orthogonal_mp(
     n = len(Time.values)
 
     # Stack the signals into the columns of the matrix Y (n,n_targets)
-    Y = self.values
+    Y = self.values if is_time_first else self.values.T
 
     # Compute the OMP
     Y_full = omp(Y, M, n, n_coefs=n_coefs, precompute=precompute, dictionary=dictionary)
@@ -62,8 +63,8 @@ def orthogonal_mp(
             name=self.name,
             symbol=self.symbol,
             unit=self.unit,
-            axes=[Time, Angle],
-            values=Y_full,
+            axes=[Time, Angle] if is_time_first else [Angle, Time],
+            values=Y_full if is_time_first else Y_full.T,
             is_real=self.is_real,
         )
 
-- 
2.43.0


From 2cb4797d45bacf1e78c5d39aa4dcb93c209d2f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:43 +0000
Subject: [PATCH 54/68] fix: recognise operations and spans in requests only
 where they are written

Axes whose name contains a word of the request syntax (max, sum, mean,
pattern...) were taken for requests of that operation.
---
 SciDataTool/Functions/parser.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 71f0848..7ddbbfc 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -42,74 +42,74 @@ def read_input_strings(args, axis_data):
             name = elems[0]
             axis_str = axis_str.replace("->" + unit, "")
         # Detect max
-        if "max" in axis_str:
+        if "=max" in axis_str:
             elems = axis_str.split("=max")
             name = elems[0]
             extension = "max"
         # Detect min
-        elif "min" in axis_str:
+        elif "=min" in axis_str:
             elems = axis_str.split("=min")
             name = elems[0]
             extension = "min"
         # Detect rms sum
-        elif "rss" in axis_str:
+        elif "=rss" in axis_str:
             elems = axis_str.split("=rss")
             name = elems[0]
             extension = "rss"
         # Detect sum
-        elif "sum" in axis_str:
+        elif "=sum" in axis_str:
             elems = axis_str.split("=sum")
             name = elems[0]
             extension = "sum"
         # Detect rms mean
-        elif "rms" in axis_str:
+        elif "=rms" in axis_str:
             elems = axis_str.split("=rms")
             name = elems[0]
             extension = "rms"
         # Detect mean
-        elif "mean" in axis_str:
+        elif "=mean" in axis_str:
             elems = axis_str.split("=mean")
             name = elems[0]
             extension = "mean"
         # Detect integrate
-        elif "integrate_local" in axis_str:
+        elif "=integrate_local" in axis_str:
             elems = axis_str.split("=integrate_local")
             name = elems[0]
             extension = "integrate_local"
-        elif "integrate" in axis_str:
+        elif "=integrate" in axis_str:
             elems = axis_str.split("=integrate")
             name = elems[0]
             extension = "integrate"
         # Detect antiderivate
-        elif "antiderivate" in axis_str:
+        elif "=antiderivate" in axis_str:
             elems = axis_str.split("=antiderivate")
             name = elems[0]
             extension = "antiderivate"
         # Detect derivate
-        elif "derivate" in axis_str:
+        elif "=derivate" in axis_str:
             elems = axis_str.split("=derivate")
             name = elems[0]
             extension = "derivate"
         # Detect periods
-        elif "oneperiod" in axis_str:
+        elif "oneperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "oneperiod"
-        elif "antiperiod" in axis_str:
+        elif "antiperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "antiperiod"
-        elif "smallestperiod" in axis_str:
+        elif "smallestperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "smallestperiod"
         # Detect pattern
-        elif "pattern" in axis_str:
+        elif "pattern]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "pattern"
         # Detect axis_data input
-        elif "axis_data" in axis_str:
+        elif "=axis_data" in axis_str:
             elems = axis_str.split("=axis_data")
             name = elems[0]
             if name in axis_data:
@@ -191,7 +191,7 @@ def read_input_strings(args, axis_data):
             name = axis_str
             extension = "whole"
         # Detect 1/nth octave band
-        if "oct" in unit:
+        if unit.startswith("1/") and unit.endswith("oct"):
             noct = int(unit.split("oct")[0].split("/")[1])
             unit = "SI"
         else:
-- 
2.43.0


From 4364d938ec478af4fcd9021d2328b91f52c69428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:01 +0000
Subject: [PATCH 55/68] fix: plots of vector field components keep the
 extension and the folders of the file name

---
 SciDataTool/Methods/VectorField/plot_2D_Data.py          | 7 ++++---
 SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py | 6 +++---
 SciDataTool/Methods/VectorField/plot_3D_Data.py          | 8 +++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data.py b/SciDataTool/Methods/VectorField/plot_2D_Data.py
index 3a13017..804e3b3 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data.py
@@ -1,3 +1,5 @@
+from os.path import splitext
+
 from numpy import column_stack, array, exp, real, squeeze, array2string
 from SciDataTool.Functions.Plot.plot_2D import plot_2D
 from SciDataTool.Functions.conversions import (
@@ -308,9 +310,8 @@ def plot_2D_Data(
             # (fig, axes, patch_leg, label_leg) = init_fig(None, shape="rectangle")
 
             if save_path is not None and len(component_list) > 1:
-                save_path_comp = (
-                    save_path.split(".")[0] + "_" + comp + "." + save_path.split(".")[1]
-                )
+                root, ext = splitext(save_path)
+                save_path_comp = root + "_" + comp + ext
             else:
                 save_path_comp = save_path
 
diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
index 27d1bb6..99759d7 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
@@ -1,4 +1,5 @@
 from copy import copy
+from os.path import splitext
 import numpy as np
 import imageio
 import matplotlib.pyplot as plt
@@ -259,9 +260,8 @@ def plot_2D_Data_Animated(
             # (fig, axes, patch_leg, label_leg) = init_fig(None, shape="rectangle")
 
             if save_path is not None and len(component_list) > 1:
-                save_path_comp = (
-                    save_path.split(".")[0] + "_" + comp + "." + save_path.split(".")[1]
-                )
+                root, ext = splitext(save_path)
+                save_path_comp = root + "_" + comp + ext
             else:
                 save_path_comp = save_path
 
diff --git a/SciDataTool/Methods/VectorField/plot_3D_Data.py b/SciDataTool/Methods/VectorField/plot_3D_Data.py
index c610ded..373551b 100644
--- a/SciDataTool/Methods/VectorField/plot_3D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_3D_Data.py
@@ -1,3 +1,6 @@
+from os.path import splitext
+
+
 def plot_3D_Data(
     self,
     *arg_list,
@@ -95,9 +98,8 @@ def plot_3D_Data(
     for i, comp in enumerate(component_list):
 
         if save_path is not None and len(component_list) > 1:
-            save_path_comp = (
-                save_path.split(".")[0] + "_" + comp + "." + save_path.split(".")[1]
-            )
+            root, ext = splitext(save_path)
+            save_path_comp = root + "_" + comp + ext
         else:
             save_path_comp = save_path
 
-- 
2.43.0


From d62b72036c86a527f59c55a2cc913a51ef504744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:01 +0000
Subject: [PATCH 56/68] fix: animate plots along any axis request, with the
 requested number of frames

The animated axis was only recognised when written with brackets and a unit.
Rounding could add a frame.  Limits of partial spectra were complex.
Component animations of vector fields took their first request as title.
---
 .../Methods/DataND/plot_2D_Data_Animated.py   | 29 ++++++++++---------
 .../Methods/DataND/plot_3D_Data_Animated.py   | 23 ++++++++-------
 .../VectorField/plot_2D_Data_Animated.py      |  1 +
 3 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py b/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
index 2a6f644..dc0632c 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
@@ -1,5 +1,5 @@
 import matplotlib.pyplot as plt
-from numpy import arange, nanmax, nanmin, frombuffer
+from numpy import linspace, nanmax, nanmin, frombuffer
 import imageio
 from SciDataTool.Functions.Plot import fft_dict, ifft_dict, PARAM_3D
 
@@ -28,32 +28,36 @@ def plot_2D_Data_Animated(
         if param in plot_options:
             del plot_options[param]
 
+    # Splitting the name and the unit of the animated axis
+    animated_axis_name = animated_axis.split("[")[0].split("{")[0]
+    animated_axis_unit = ""
+    if "{" in animated_axis:
+        animated_axis_unit = "{" + animated_axis.split("{")[1]
+
     # Detecting if animated axis is a DataPattern, if true changing the input given to the function
     for ax_obj in self.get_axes():
         if (
-            ax_obj.name == animated_axis.split("[")[0]
-            or animated_axis.split("[")[0] in fft_dict
-            and fft_dict[animated_axis.split("[")[0]] == ax_obj.name
-            or animated_axis.split("[")[0] in ifft_dict
-            and ifft_dict[animated_axis.split("[")[0]] == ax_obj.name
+            ax_obj.name == animated_axis_name
+            or animated_axis_name in fft_dict
+            and fft_dict[animated_axis_name] == ax_obj.name
+            or animated_axis_name in ifft_dict
+            and ifft_dict[animated_axis_name] == ax_obj.name
         ):
             animated_axis_obj = ax_obj
             break
 
     if isinstance(animated_axis_obj, DataPattern):
         # Removing "[one_period]" as it is not available with a DataPattern
-        animated_axis_unit = "{" + animated_axis.split("{")[1]
-        animated_axis = animated_axis.split("[")[0] + animated_axis_unit
+        animated_axis = animated_axis_name + animated_axis_unit
 
-    if "freqs" in param_list or "wavenumber" in param_list:
+    if any("freqs" in param or "wavenumber" in param for param in param_list):
         result = self.get_magnitude_along(
             animated_axis, *param_list, unit=param_dict["unit"]
         )
     else:
         result = self.get_along(animated_axis, *param_list, unit=param_dict["unit"])
 
-    animated_axis_unit = "{" + animated_axis.split("{")[1]
-    animated_axis = animated_axis.split("{")[0].split("[")[0]
+    animated_axis = animated_axis_name
 
     # Creating a list of frames that will need to create the animation
     if isinstance(animated_axis_obj, DataPattern):
@@ -65,9 +69,8 @@ def plot_2D_Data_Animated(
     else:
         value_max = nanmax(result[animated_axis])
         value_min = nanmin(result[animated_axis])
-        variation_step = (value_max - value_min) / nb_frames
 
-        frames_list = arange(start=value_min, stop=value_max, step=variation_step)
+        frames_list = linspace(value_min, value_max, nb_frames, endpoint=False)
         frames_list = ["=" + str(frame) for frame in frames_list]
 
     # detecting if we are animating a regular plot (=> computing limit for y) or a "fft" plot (=> limit already set)
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py b/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
index f138dea..67048d6 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
@@ -1,5 +1,5 @@
 import matplotlib.pyplot as plt
-from numpy import arange, nanmax, nanmin, frombuffer
+from numpy import linspace, nanmax, nanmin, frombuffer
 import imageio
 from ...Functions.Plot import ifft_dict, PARAM_2D
 
@@ -29,29 +29,33 @@ def plot_3D_Data_Animated(
         if param in plot_options:
             del plot_options[param]
 
+    # Splitting the name and the unit of the animated axis
+    animated_axis_name = animated_axis.split("[")[0].split("{")[0]
+    animated_axis_unit = ""
+    if "{" in animated_axis:
+        animated_axis_unit = "{" + animated_axis.split("{")[1]
+
     # Detecting if animated axis is a DataPattern, if true changing the input given to the function
     for ax_obj in self.get_axes():
         if ax_obj.name in ifft_dict:
-            if ifft_dict[ax_obj.name] == animated_axis.split("[")[0]:
+            if ifft_dict[ax_obj.name] == animated_axis_name:
                 animated_axis_obj = ax_obj
                 break
         else:
-            if ax_obj.name == animated_axis.split("[")[0]:
+            if ax_obj.name == animated_axis_name:
                 animated_axis_obj = ax_obj
                 break
 
     if isinstance(animated_axis_obj, DataPattern):
         # Removing one_period as it is not available with a DataPattern
-        animated_axis_unit = "{" + animated_axis.split("{")[1]
-        animated_axis = animated_axis.split("[")[0] + animated_axis_unit
+        animated_axis = animated_axis_name + animated_axis_unit
 
-    if "freqs" in param_list or "wavenumber" in param_list:
+    if any("freqs" in param or "wavenumber" in param for param in param_list):
         result = self.get_magnitude_along(animated_axis, *param_list)
     else:
         result = self.get_along(animated_axis, *param_list)
 
-    animated_axis_unit = "{" + animated_axis.split("{")[1]
-    animated_axis = animated_axis.split("{")[0].split("[")[0]
+    animated_axis = animated_axis_name
 
     # Creating a list of frames that will need to create the animation
     if isinstance(animated_axis_obj, DataPattern):
@@ -63,9 +67,8 @@ def plot_3D_Data_Animated(
     else:
         value_max = nanmax(result[animated_axis])
         value_min = nanmin(result[animated_axis])
-        variation_step = (value_max - value_min) / nb_frames
 
-        frames_list = arange(start=value_min, stop=value_max, step=variation_step)
+        frames_list = linspace(value_min, value_max, nb_frames, endpoint=False)
         frames_list = ["=" + str(frame) for frame in frames_list]
 
     plot_options["is_show_fig"] = False
diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
index 99759d7..a45774f 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
@@ -267,6 +267,7 @@ def plot_2D_Data_Animated(
 
             self.components[comp].plot_2D_Data_Animated(
                 animated_axis,
+                "",
                 *arg_list,
                 nb_frames=nb_frames,
                 fps=fps,
-- 
2.43.0


From 400734f6d0c6bea0588a29f746c2af1ba0971b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:43 +0000
Subject: [PATCH 57/68] fix: read steps at the requested values whatever their
 order and the position of the axis

Values closer than 0.1 % of their own size were taken for the bound of a step
and averaged, or set to zero.  Unsorted or repeated values were merged.
---
 SciDataTool/Functions/interpolations.py | 82 ++++---------------------
 1 file changed, 13 insertions(+), 69 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 64a4124..4b666ad 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -8,9 +8,9 @@ from numpy import (
     isin,
     all,
     abs as np_abs,
+    searchsorted,
     where,
     zeros,
-    unique,
 )
 from scipy.interpolate import interp1d
 
@@ -128,78 +128,22 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
     """
     if str(axis_values) == "whole":  # Whole axis -> no interpolation
         return values
+    tol = 1e-9 * np_abs(axis_values[-1] - axis_values[0])
     # elif len(new_axis_values) == 1:  # Single point -> use argmin
     #     idx = argmin(np_abs(axis_values - new_axis_values[0]))
     #     return take(values, [idx])
-    elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+    if len(axis_values) == len(new_axis_values) and all(
+        isclose(axis_values, new_axis_values, rtol=0, atol=tol)
     ):  # Same axes -> no interpolation
         return values
-    elif isin(
-        new_axis_values, axis_values
-    ).all():  # New axis is subset -> no interpolation
+    else:
         values_slices = []
-        indice_take = where(isin(axis_values, new_axis_values))[0]
-        _, idx_start, count = unique(
-            axis_values[indice_take], return_counts=True, return_index=True
-        )
-        if len(idx_start) > 0:
-            for i, ii in enumerate(idx_start):
-                values_slices.append(
-                    take(values, indice_take[ii : ii + count[i]], axis=index).mean(
-                        axis=index
-                    )
-                )
-            return stack(values_slices, axis=index)
-        else:
+        for value in new_axis_values:
+            # Samples at this value (both sides of a step), or else the previous sample
+            indices = where(isclose(axis_values, value, rtol=0, atol=tol))[0]
+            if len(indices) == 0:
+                indices = [max(searchsorted(axis_values, value) - 1, 0)]
+            values_slices.append(take(values, indices, axis=index).mean(axis=index))
+        if len(values_slices) == 0:
             return take(values, [], axis=index)
-
-    else:
-        new_shape = list(values.shape)
-        new_shape[index] = len(new_axis_values)
-        new_values = zeros(tuple(new_shape), dtype=values.dtype)
-        if len(axis_values) == 1 or all(axis_values == axis_values[0]):
-            for i in range(len(new_axis_values)):
-                new_values[(slice(None),) * index + (i,)] = take(values, 0, axis=index)
-            return new_values
-        else:
-            for i in range(len(new_axis_values)):
-                for j in range(len(axis_values) - 1):
-                    if isclose(
-                        new_axis_values[i], axis_values[j], rtol=1e-03
-                    ) and isclose(new_axis_values[i], axis_values[j + 1], rtol=1e-03):
-                        new_values[(slice(None),) * index + (i,)] = (
-                            take(values, j, axis=index)
-                            + take(values, j + 1, axis=index)
-                        ) / 2
-                        break
-                    elif (
-                        new_axis_values[i] >= axis_values[j]
-                        and new_axis_values[i] < axis_values[j + 1]
-                        and not isclose(
-                            new_axis_values[i], axis_values[j + 1], rtol=1e-03
-                        )
-                    ):
-                        new_values[(slice(None),) * index + (i,)] = take(
-                            values, j, axis=index
-                        )
-                        break
-                    elif (
-                        j == len(axis_values) - 2
-                        and new_axis_values[i] == axis_values[j + 1]
-                    ):
-                        new_values[(slice(None),) * index + (i,)] = take(
-                            values, j + 1, axis=index
-                        )
-                        break
-                    else:
-                        # Extrapolate for outer bounds
-                        if new_axis_values[i] <= axis_values[0]:
-                            new_values[(slice(None),) * index + (i,)] = take(
-                                values, 0, axis=index
-                            )
-                        elif new_axis_values[i] >= axis_values[-1]:
-                            new_values[(slice(None),) * index + (i,)] = take(
-                                values, -1, axis=index
-                            )
-            return array(new_values)
+        return stack(values_slices, axis=index)
-- 
2.43.0


From 2fc5e71853124fb9a7a0f19ea90abb95bd2d5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:12:26 +0000
Subject: [PATCH 58/68] fix: load texts, missing values and integers of hdf5
 files

Texts of hdf5 files are read as bytes, so that missing values were never
recognised and texts of variable length were not decoded. Integers such as
numbers of periods became floats, which cannot be used to unfold axes.
---
 SciDataTool/Functions/Load/load_hdf5.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/Load/load_hdf5.py b/SciDataTool/Functions/Load/load_hdf5.py
index 4068d6b..a517886 100644
--- a/SciDataTool/Functions/Load/load_hdf5.py
+++ b/SciDataTool/Functions/Load/load_hdf5.py
@@ -1,5 +1,5 @@
 from h5py import File, Group
-from numpy import bool_, int64, string_, array
+from numpy import bool_, int64, array
 from cloudpickle import loads
 
 
@@ -29,16 +29,16 @@ def construct_dict_from_group(group):
             else:  # Dataset
                 dataset = group["list_" + str(i)]
                 value = dataset[()]
+                if isinstance(value, bytes):  # String
+                    value = value.decode("ISO-8859-2")
                 if "array_list" in dataset.attrs.keys():  # List saved as an array
                     value = value.tolist()
-                elif value == "NoneValue":  # Handle None values
+                elif isinstance(value, str) and value == "NoneValue":  # None values
                     value = None
                 elif isinstance(value, bool_):  # bool
                     value = bool(value)
-                elif isinstance(value, int64):  # float
-                    value = float(value)
-                elif isinstance(value, string_):  # String
-                    value = value.decode("ISO-8859-2")
+                elif isinstance(value, int64):  # int
+                    value = int(value)
 
                 list_.append(value)
         return list_
@@ -50,16 +50,16 @@ def construct_dict_from_group(group):
                 dict_[key] = construct_dict_from_group(val)
             else:  # Dataset
                 value = val[()]
+                if isinstance(value, bytes):  # String
+                    value = value.decode("ISO-8859-2")
                 if "array_list" in val.attrs.keys():  # List saved as an array
                     value = value.tolist()
-                elif value == "NoneValue":  # Handle None values
+                elif isinstance(value, str) and value == "NoneValue":  # None values
                     value = None
                 elif isinstance(value, bool_):  # bool
                     value = bool(value)
-                elif isinstance(value, int64):  # float
-                    value = float(value)
-                elif isinstance(value, string_):  # String
-                    value = value.decode("ISO-8859-2")
+                elif isinstance(value, int64):  # int
+                    value = int(value)
                 dict_[key] = value
         return dict_
 
-- 
2.43.0


From b3de2d20e402d9602e0789c793e238dc5e379d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:13 +0000
Subject: [PATCH 59/68] fix: restore the working directory when loading a file
 fails

---
 SciDataTool/Functions/load.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index bd23cc8..d51bc0c 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -52,9 +52,10 @@ def init_data(obj, file_path):
             if folder_path != "":
                 wd = getcwd()
                 chdir(folder_path)
-                new_obj = class_obj(init_dict=obj)
-                chdir(wd)
-                return new_obj
+                try:
+                    return class_obj(init_dict=obj)
+                finally:
+                    chdir(wd)
             else:
                 return class_obj(init_dict=obj)
 
-- 
2.43.0


From fa31e9fca30b5b15cf8116ea9405cffe9be2391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:19 +0000
Subject: [PATCH 60/68] fix: largest harmonics of the cylindrical components of
 a vector field

---
 .../VectorField/get_harm_rphiz_along.py       | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 59cdc97..c141b1c 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -71,19 +71,41 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         return_dict = dict(resultr)
         del return_dict[Datar.symbol]
 
+    elif "radial" in self.components.keys():
+        resultr = self.components["radial"].get_harmonics(
+            N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+        )
+        field_r = resultr[self.components["radial"].symbol]
+        shape = field_r.shape
+        if "tangential" in self.components.keys():
+            resultphi = self.components["tangential"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+            )
+            field_t = resultphi[self.components["tangential"].symbol]
+        else:
+            field_t = zeros(shape)
+        if "axial" in self.components.keys():
+            resultz = self.components["axial"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+            )
+            field_z = resultz[self.components["axial"].symbol]
+        elif "comp_z" in self.components.keys():
+            resultz = self.components["comp_z"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+            )
+            field_z = resultz[self.components["comp_z"].symbol]
+        else:
+            field_z = zeros(shape)
+        return_dict = dict(resultr)
+        del return_dict[self.components["radial"].symbol]
+
     elif "tangential" in self.components.keys():
         resultphi = self.components["tangential"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
         )
         field_t = resultphi[self.components["tangential"].symbol]
         shape = field_t.shape
-        if "radial" in self.components.keys():
-            resultr = self.components["radial"].get_harmonics(
-                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
-            )
-            field_r = resultphi[self.components["radial"].symbol]
-        else:
-            field_r = zeros(shape)
+        field_r = zeros(shape)
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
                 N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
@@ -111,7 +133,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         del return_dict[self.components["axial"].symbol]
 
     elif "comp_z" in self.components.keys():
-        resultz = self.components["z"].get_harmonics(
+        resultz = self.components["comp_z"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
         )
         field_z = resultz[self.components["comp_z"].symbol]
-- 
2.43.0


From 4596edd9683aa075b7354f27d2854740e282a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:19 +0000
Subject: [PATCH 61/68] fix: abscissa and requests of the overall curve of 2D
 plots

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 25 +++++++++-------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 2f7a5e1..b078413 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -494,18 +494,22 @@ def plot_2D_Data(
             op = "=sum"
         else:
             op = "=rss"
-        arg_list_ovl = [0 for i in range(len(arg_list))]
+        names_along = [
+            axis.name
+            for axis in read_input_strings(arg_list_along, axis_data=axis_data)
+        ]
+        arg_list_ovl = [0 for i in range(len(arg_list_along))]
         # Add sum to overall_axes
         for axis in overall_axes:
             is_match = False
-            for i, arg in enumerate(arg_list):
-                if axis in arg:
+            for i, name in enumerate(names_along):
+                if axis == name:
                     is_match = True
                     arg_list_ovl[i] = axis + op
             if not is_match:
                 arg_list_ovl.append(axis + op)
         # Add other requested axes
-        for i, arg in enumerate(arg_list):
+        for i, arg in enumerate(arg_list_along):
             if arg_list_ovl[i] == 0:
                 arg_list_ovl[i] = arg
         if is_fft or "dB" in unit:
@@ -515,18 +519,9 @@ def plot_2D_Data(
         else:
             result = self.get_along(*arg_list_ovl, unit=unit, axis_data=axis_data)
         Y_overall = result[self.symbol]
-        # in string case not overlay, Xdatas is a linspace
-        if (
-            axes_list[list(result.keys()).index(axes_names[0])].is_components
-            and axes_list[list(result.keys()).index(axes_names[0])].extension != "list"
-        ):
-            xdata = linspace(
-                0, len(result[axes_names[0]]) - 1, len(result[axes_names[0]])
-            )
-        else:
-            xdata = result[list(result)[0]]
         Ydatas.insert(0, Y_overall)
-        Xdatas.insert(0, xdata)
+        # Overall has the same abscissa as the other curves
+        Xdatas.insert(0, Xdatas[0])
         new_color_list = new_color_list.copy()
         new_color_list.insert(0, "#000000")
         legends.insert(0, "Overall")
-- 
2.43.0


From f70d0652fda61590f7163a3487c04336b8e18fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 62/68] fix: queries return copies instead of the arrays stored
 in the object

---
 SciDataTool/Methods/DataND/get_along.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_along.py b/SciDataTool/Methods/DataND/get_along.py
index c9427a3..7a1c3c7 100644
--- a/SciDataTool/Methods/DataND/get_along.py
+++ b/SciDataTool/Methods/DataND/get_along.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from SciDataTool.Functions.parser import read_input_strings
 from SciDataTool.Functions.fft_functions import comp_fftn, comp_ifftn
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
@@ -86,7 +88,7 @@ def get_along(
     )
     # Conversions
     values = self._convert(values, unit, is_norm, is_squeeze, axes_list)
-    # Return axes and values
+    # Return axes and values (copied not to share the arrays stored in the object)
     return_dict = {}
     for axis_requested in axes_list:
         if axis_requested.extension in [
@@ -100,8 +102,8 @@ def get_along(
         ]:
             return_dict[axis_requested.name] = axis_requested.extension
         else:
-            return_dict[axis_requested.name] = axis_requested.values
-    return_dict[self.symbol] = values
+            return_dict[axis_requested.name] = copy(axis_requested.values)
+    return_dict[self.symbol] = copy(values)
     return_dict["axes_list"] = axes_list
     return_dict["axes_dict_other"] = axes_dict_other
     return return_dict
-- 
2.43.0


From d39ff275b0f47fa0347538358d08f94959593d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:02:28 +0000
Subject: [PATCH 63/68] fix: reduced axis no longer shares the coordinates of
 the original axis

---
 SciDataTool/Methods/Data1D/get_axis_periodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index 5ffb19d..3ad9319 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -33,7 +33,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
 
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
-        values_per = values[: int(N / Nper)]
+        values_per = values[: int(N / Nper)].copy()
         normalizations = dict()
         for key, norm in self.normalizations.items():
             norm = norm.copy()
-- 
2.43.0


From 30d8164d11eff6b5657455bac1939cb2e2160525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:22:08 +0000
Subject: [PATCH 64/68] fix: detect irregular sampling of very fine axes

The absolute tolerance of 1e-8 used to decide whether samples are evenly
spaced is larger than the step of axes sampled at nanoseconds, so irregular
samples were taken for regular ones and went through the FFT.
The tolerance is now at most a small fraction of the mean step.
---
 SciDataTool/Functions/nudft_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SciDataTool/Functions/nudft_functions.py b/SciDataTool/Functions/nudft_functions.py
index 93927ca..b7cd848 100644
--- a/SciDataTool/Functions/nudft_functions.py
+++ b/SciDataTool/Functions/nudft_functions.py
@@ -146,6 +146,9 @@ def is_uniform(vect_a, rtol=1e-05, atol=1e-8):
 
     y_target = linspace(minimum, maximum, n)
 
+    # Absolute tolerance must remain small compared to the step
+    atol = min(atol, rtol * (maximum - minimum) / max(n - 1, 1))
+
     if 0 not in y_target:
         return False
 
-- 
2.43.0


From fc7915944b991037c8d7a28d1e70a0ad849de582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:22:14 +0000
Subject: [PATCH 65/68] fix: inverse transform of wavenumbers which are not
 centred on zero

Evenly spaced spectrum lines were inverted with an FFT even if they are not
laid out as an FFT expects, for example wavenumbers -2, -1, 0.
Every line was then taken for another wavenumber.
Such spectra now go through the direct transform.
---
 SciDataTool/Functions/fft_functions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 6c449a8..fd279b7 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -440,10 +440,20 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                             freqs = [
                                 f * axis_obj.symmetries["antiperiod"] / 2 for f in freqs
                             ]
+                    # Position of the zero frequency in the FFT grid
+                    if is_real and (
+                        axis.name == "time"
+                        or "time" not in axis_names
+                        and min(axis.corr_values) >= 0
+                    ):
+                        zero_index = 0
+                    else:
+                        zero_index = len(axis.corr_values) // 2
                     # If already one non uniform axis, use NUDFT
                     if (
                         axes_dict_non_uniform
                         or len(axis.corr_values) == 1
+                        or not isclose(axis.corr_values[zero_index], 0)
                         or (
                             len(axis.corr_values) > 1
                             and (
-- 
2.43.0


From 0eb395fd84026596b29bbcd6b6ac0e6c381794e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:31 +0000
Subject: [PATCH 66/68] fix: local integration of integer values no longer
 truncates

The integrals along step axes were stored with the type of the values, so
integer fields lost the fractional part of every segment.
---
 SciDataTool/Functions/derivation_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 97c7df2..096c148 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -177,7 +177,7 @@ def integrate_local_pattern(values, ax_val, index):
         # Init output arrays
         shape = list(values.shape[1:])
         shape.insert(0, values.shape[0] - 1)
-        values_int = np.zeros(shape, dtype=values.dtype)
+        values_int = np.zeros(shape, dtype=np.result_type(values, float))
         ax_int = np.zeros(shape[0])
 
         # Trapezoidal integration on each segment and calculate position of each segment middle
-- 
2.43.0


From dfe26081159ca9e36ab90bf84bcf7430528ad0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:37 +0000
Subject: [PATCH 67/68] fix: integer fields requested outside the range of an
 axis

Missing values cannot be stored in an integer array, so that the request
failed with a TypeError instead of returning missing values.
---
 SciDataTool/Functions/interpolations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 4b666ad..b16872c 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -11,6 +11,7 @@ from numpy import (
     searchsorted,
     where,
     zeros,
+    result_type,
 )
 from scipy.interpolate import interp1d
 
@@ -81,7 +82,7 @@ def get_interpolation(values, axis_values, new_axis_values, index):
         ):
             new_shape = list(values.shape)
             new_shape[index] = 1
-            new_values = zeros(tuple(new_shape), dtype=values.dtype)
+            new_values = zeros(tuple(new_shape), dtype=result_type(values, float))
             new_values[(slice(None),) * index] = None
             return new_values
         else:
-- 
2.43.0


From 081a1f454a8c9fc9f7ce48a3e773b0545f5840a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:47:43 +0000
Subject: [PATCH 68/68] fix: undersampling no longer resets the random numbers
 of the caller

The samples to keep were drawn from the global generator after seeding it, so
that every later random number of the program became predictable.
A generator of its own draws the same samples.
---
 SciDataTool/Functions/omp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/omp.py b/SciDataTool/Functions/omp.py
index ea72218..8135b49 100644
--- a/SciDataTool/Functions/omp.py
+++ b/SciDataTool/Functions/omp.py
@@ -62,8 +62,8 @@ def comp_undersampling(K: float, Time: Data1D, seed: int = 42) -> ndarray:
     n = len(Time.values)
     m = floor(K * n)
 
-    np.random.seed(seed)
-    M = np.random.choice(n, m, replace=False)
+    # Own generator, so that the random numbers of the caller are not affected
+    M = np.random.RandomState(seed).choice(n, m, replace=False)
     M.sort()
     M = asarray(M)
 
-- 
2.43.0

