From 63640c300bd0628b3badb824888682dd423b76c4 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 01/27] fix: noise variance of data downsampled by a factor of
 integer part >= 3

Within the branch where the fractional phase does not complete a full turn,
the variance of an output sample is (k-1) + wmin^2 + wmax^2 on average, i.e.
(k-1) + 1 - x + 2/3 x^2: the k-1 fully covered samples each contribute 1, not
k-1. For k >= 3 S/N values were too small by up to sqrt((k-1)^2+1)/sqrt(k).
---
 riptide/cpp/downsample.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index f0d780d..01eb631 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -34,7 +34,7 @@ double downsampled_variance(size_t num_samples, double f)
     if (x > 1)
         return f - 1.0 / 3.0;
     else
-        return pow(k-1, 2) + 2.0/3.0 * pow(x, 2) - x + 1.0;
+        return (k-1) + 2.0/3.0 * pow(x, 2) - x + 1.0;
     }
 
 
-- 
2.43.0


From f3912a7c1fed1d083430aff94aa6afe552a2633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 02/27] fix: circular_prefix_sum() binding wrote past its
 output array

The output was allocated with the size of the input instead of nsum elements:
a heap overflow for nsum > size, and an uninitialised tail for nsum < size.
---
 riptide/cpp/python_bindings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index dfd45da..00a657e 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,7 +75,11 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    auto arr_output = new_cstyle_array<float>({size});
+    if (size == 0)
+    {
+        throw std::invalid_argument("Input array must not be empty");
+    }
+    auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
 }
-- 
2.43.0


From ae25c5785c1bc1042e2b0ae0fb16149e9d9cac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 03/27] fix: stack overflow in snr1() on profiles with a very
 large number of bins

The prefix sum was stored in a variable length array on the stack, which
crashed the interpreter for profiles with around two million bins or more.
---
 riptide/cpp/snr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7f8ab73..5986e52 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <memory>
 
 #include "block.hpp"
 #include "kernels.hpp"
@@ -37,7 +38,9 @@ output must have capacity for num_widths elements.
 void snr1(const float* __restrict__ arr, size_t size, const size_t* widths, size_t num_widths, float stdnoise, float* __restrict__ out)
     {
     const size_t wmax = *std::max_element(widths, widths + num_widths);
-    float cpfsum[size + wmax];
+    // NOTE: must not be on the stack, the number of bins is arbitrarily large
+    std::unique_ptr<float[]> cpfsum_mem(new float[size + wmax]);
+    float* cpfsum = cpfsum_mem.get();
     circular_prefix_sum(arr, size, size + wmax, cpfsum);
     const float sum = cpfsum[size - 1]; // sum of input array
 
-- 
2.43.0


From e5af36f762524289f2964ddc6f70f082aab1276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 04/27] fix: searching a range with no or one trial period
 crashed

When no trial period of the requested range fits in the data, periodogram()
raised IndexError instead of returning an empty periodogram. find_peaks() then
failed on periodograms with no trial (IndexError) or a single one
(ZeroDivisionError).
---
 riptide/cpp/python_bindings.cpp | 2 +-
 riptide/peak_detection.py       | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index 00a657e..ecdabda 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -206,7 +206,7 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
     riptide::periodogram(
         data.data(0), size, tsamp, widths.data(0), num_widths, 
         period_min, period_max, bins_min, bins_max, 
-        periods.mutable_data(0), foldbins.mutable_data(0), snrs.mutable_data(0)
+        periods.mutable_data(), foldbins.mutable_data(), snrs.mutable_data()
         );
 
     return std::make_tuple(periods, foldbins, snrs);
diff --git a/riptide/peak_detection.py b/riptide/peak_detection.py
index 1949504..e24613c 100644
--- a/riptide/peak_detection.py
+++ b/riptide/peak_detection.py
@@ -68,7 +68,8 @@ def segment_stats(f, s, T, segwidth=5.0):
     #log.debug("Segment width (Hz): {:.6f}".format(w))
 
     # NOTE: the spacing of frequency trials is almost constant
-    m = ceil(abs(f[-1] - f[0]) / w) # number of segments
+    # NOTE: there is always at least one segment, even with a single trial
+    m = max(1, ceil(abs(f[-1] - f[0]) / w)) # number of segments
     #log.debug("Segments: {:d}".format(m))
 
     p = len(f) // m # number of complete segments
@@ -115,6 +116,10 @@ def find_peaks_single(f, s, T, smin=6.0, segwidth=5.0, nstd=7.0, minseg=10, poly
     """
     peak_indices = []
 
+    # No trial periods means no peaks
+    if not len(f):
+        return peak_indices, [smin]
+
     # Control points
     fc, smed, sstd = segment_stats(f, s, T, segwidth=segwidth)
     sc = smed + nstd * sstd
-- 
2.43.0


From 96e66081c0661ed83083a6835862ecf67d23b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 05/27] fix: ffa_search() ignored its fpmin argument

fpmin is documented as placing a cap on period_max equal to
DATA_LENGTH / fpmin, both in ffa_search() and in the pipeline configuration
file, but it had no effect. If the whole range lies above the cap, the output
is an empty periodogram: the pipeline may search a range too long for its data.
---
 riptide/search.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/riptide/search.py b/riptide/search.py
index c6d00ef..5d009e4 100644
--- a/riptide/search.py
+++ b/riptide/search.py
@@ -74,9 +74,18 @@ def ffa_search(tseries, period_min=1.0, period_max=30.0, fpmin=8, bins_min=240,
         tseries = tseries.normalise()
 
     widths = generate_width_trials(bins_min, ducy_max=ducy_max, wtsp=wtsp)
-    periods, foldbins, snrs = libcpp.periodogram(
-        tseries.data, tseries.tsamp, widths, 
-        period_min, period_max, bins_min, bins_max
-        )
+
+    # At least fpmin periods must fit in the data
+    period_cap = tseries.length / fpmin
+    if period_max > period_min >= period_cap:
+        # Nothing to search, which is not an error
+        periods = np.empty(0, dtype=np.float64)
+        foldbins = np.empty(0, dtype=np.uint32)
+        snrs = np.empty((0, len(widths)), dtype=np.float32)
+    else:
+        periods, foldbins, snrs = libcpp.periodogram(
+            tseries.data, tseries.tsamp, widths, 
+            period_min, min(period_max, period_cap), bins_min, bins_max
+            )
     pgram = Periodogram(widths, periods, foldbins, snrs, metadata=tseries.metadata)
     return tseries, pgram
-- 
2.43.0


From c5826d86190cdaa7a4beafde1163114d785514bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 06/27] fix: TimeSeries.normalise(inplace=True) turned the data
 into float64

TimeSeries data are float32 by contract, and are with inplace=False.
---
 riptide/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ebeb294..ed91d6f 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -85,7 +85,7 @@ class TimeSeries(object):
         norm = v ** 0.5
         
         if inplace:
-            self._data = (self.data - m) / norm
+            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
         else:
             return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 3cb4fa3bcab28390f6800192890593510460ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 07/27] fix: TimeSeries.downsample(inplace=True) left
 metadata['tobs'] out of date

The number of samples is rounded down, hence the length may change. With
inplace=False, the new TimeSeries has the right value.
---
 riptide/time_series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ed91d6f..a7edef7 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -141,6 +141,7 @@ class TimeSeries(object):
         if inplace:
             self._data = downsample(self.data, factor)
             self._tsamp *= factor
+            self.metadata['tobs'] = self.length
         else:
             return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 69e311b6e13d7aae4925f1a2586507bc46bd5f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 08/27] fix: arrays loaded from JSON were read-only

In-place methods failed on any TimeSeries loaded from a file.
---
 riptide/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 122d778..2fb0f78 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -88,7 +88,8 @@ def object_hook(items):
     if typename == 'numpy.ndarray':
         b64_bytes = items['data'].encode()
         data = base64.b64decode(b64_bytes)
-        return np.frombuffer(data, items['dtype']).reshape(items['shape'])
+        # NOTE: copy() is needed, frombuffer() returns a read-only array
+        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
 
     # NOTE: decoding is done from the deepest nodes of the tree first
     # Which means items['values'] is already a numpy array here
-- 
2.43.0


From 48577da622bd8432b2968b51c6fc0e1b3d0a811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 09/27] fix: fold() could return one sub-integration less than
 requested

The output size of the vertical downsampling is floor(m / (m / subints)),
which is subints - 1 for some pairs of values due to rounding errors,
e.g. m = 9 and subints = 7.
---
 riptide/folding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/folding.py b/riptide/folding.py
index 78c8f08..6f53e1a 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -78,4 +78,8 @@ def fold(ts, period, bins, subints=None):
     else:
         # vertical downsampling factor
         vf = m / subints
+        # NOTE: m / vf may be rounded to just below 'subints', which would
+        # result in one less output line than requested
+        if int(m / vf) < subints:
+            vf = np.nextafter(vf, 0)
         return downsample_vertical(folded, vf)
-- 
2.43.0


From 7feebfe51fae6abd93fd2e3af73b552212711f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 10/27] fix: pipeline configuration did not allow
 candidates.subints to be null

The model configuration file documents null as a valid value, meaning the
number of full periods that fit inside the data.
---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 3d0a298..6f79692 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -48,7 +48,9 @@ SEARCH_RANGE_SCHEMA = Schema({
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-        'subints': And(int, strictly_positive, error="candidates.subints must be an int > 0"),
+        'subints': Or(
+            And(int, strictly_positive), None,
+            error="candidates.subints must be an int > 0 or null/blank"),
         },
 })
 
-- 
2.43.0


From 7dafaa8c081ed85d7ab2c5b6d724bb6560940ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 11/27] fix: rseek crashed when the --rmed_minpts option was
 specified

It must be an int, but was converted to float.
---
 riptide/apps/rseek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/apps/rseek.py b/riptide/apps/rseek.py
index 91ce8b8..1c17d72 100644
--- a/riptide/apps/rseek.py
+++ b/riptide/apps/rseek.py
@@ -54,7 +54,7 @@ def get_parser():
         help="Width (in seconds) of the running median filter to subtract from the input data before processing"
     )
     parser.add_argument(
-        "--rmed_minpts", type=float, default=101, 
+        "--rmed_minpts", type=int, default=101, 
         help=(
         "The running median is calculated of a time scrunched version of the"
         " input data to save time: rmed_minpts is the minimum number of"
-- 
2.43.0


From e59c90a44a4b5d780f6261bf09484e7f7f77dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 12/27] fix: plotting a Candidate with a single sub-integration
 crashed

---
 riptide/candidate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 56fbe0e..2167f40 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -223,6 +223,8 @@ def plot_subints(X, T):
     T : float
         Integration time in seconds
     """
+    # Candidates with a single sub-integration have a 1D array
+    X = np.atleast_2d(X)
     __, nbins = X.shape
 
     X = np.hstack((X, X[:, :nbins//2]))
-- 
2.43.0


From 66e14736d8cd7cd6d13ce40f8e1baf78159cb6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 13/27] fix: Metadata refuses keys that are not strings, as
 documented

---
 riptide/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/metadata.py b/riptide/metadata.py
index 80353eb..f17ab99 100644
--- a/riptide/metadata.py
+++ b/riptide/metadata.py
@@ -20,7 +20,7 @@ SCHEMA_ITEMS = {
     Optional(str): json.dumps
     }
 
-SCHEMA = Schema(SCHEMA_ITEMS, ignore_extra_keys=True)
+SCHEMA = Schema(SCHEMA_ITEMS)
 
 
 class Metadata(dict):
-- 
2.43.0


From e2bad9214c1995e642df7cda440270d5ee8119b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 14/27] fix: accept an empty find_peaks section in the pipeline
 configuration, as documented

---
 riptide/pipeline/config_validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 6f79692..3d6ae4b 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -31,7 +31,8 @@ SEARCH_RANGE_SCHEMA = Schema({
             float, lambda x: 0 < x < 1, error='ducy_max must be strictly between 0 and 1'),
         },
 
-    'find_peaks': {
+    # NOTE: a section left empty in YAML is parsed as None
+    'find_peaks': And(Use(lambda x: {} if x is None else x), {
         Optional('smin'): And(
             Use(float), strictly_positive, error="smin must be a number > 0"),
         Optional('segwidth'): And(
@@ -44,7 +45,7 @@ SEARCH_RANGE_SCHEMA = Schema({
             Use(float), strictly_positive, error="polydeg must be a number > 0"),
         Optional('clrad'): Or(
             And(Use(float), strictly_positive), None, error="clrad must be a number > 0"),
-        },
+        }),
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-- 
2.43.0


From 3569cb88ac7eb3fd2d64148b0b753f2728e55cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 15/27] fix: refuse a pipeline configuration without any search
 range

---
 riptide/pipeline/config_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 3d6ae4b..e65e2df 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -87,7 +87,7 @@ PIPELINE_CONFIG_SCHEMA = Schema({
         'rmed_minpts': Schema(strictly_positive, error="rmed_minpts must be a number > 0")
         },
 
-    'ranges': [SEARCH_RANGE_SCHEMA],
+    'ranges': And([SEARCH_RANGE_SCHEMA], Schema(len, error="ranges must have at least one item")),
 
     'clustering': {
         'radius': Schema(strictly_positive, error="clustering radius must be a number > 0"),
-- 
2.43.0


From 89d7538e1b44ea8cf7ff4a70421ebf1fac42ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:40 +0000
Subject: [PATCH 16/27] fix: refuse a null clrad in the pipeline configuration,
 it crashed the search

---
 riptide/pipeline/config_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index e65e2df..60b8423 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -43,8 +43,8 @@ SEARCH_RANGE_SCHEMA = Schema({
             int, strictly_positive, error="minseg must be an int > 0"),
         Optional('polydeg'): And(
             Use(float), strictly_positive, error="polydeg must be a number > 0"),
-        Optional('clrad'): Or(
-            And(Use(float), strictly_positive), None, error="clrad must be a number > 0"),
+        Optional('clrad'): And(
+            Use(float), strictly_positive, error="clrad must be a number > 0"),
         }),
 
     'candidates': {
-- 
2.43.0


From 7f215cc043d4cabfae72dabc4890d3c66fa5c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 17/27] fix: FFA shifts in double precision; float misplaced
 rows beyond 2^14 periods and read out of bounds beyond 2^24

---
 riptide/cpp/transforms.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riptide/cpp/transforms.hpp b/riptide/cpp/transforms.hpp
index e093242..26d9ab7 100644
--- a/riptide/cpp/transforms.hpp
+++ b/riptide/cpp/transforms.hpp
@@ -14,13 +14,14 @@ void merge(ConstBlock thead, ConstBlock ttail, Block out)
     {
     const size_t m = out.rows;
     const size_t p = out.cols;
-    const float kh = (thead.rows - 1.0f) / (m - 1.0f);
-    const float kt = (ttail.rows - 1.0f) / (m - 1.0f);
+    // NOTE: must be double precision, float cannot represent large row indices exactly
+    const double kh = (thead.rows - 1.0) / (m - 1.0);
+    const double kt = (ttail.rows - 1.0) / (m - 1.0);
 
     for (size_t s = 0; s < m; ++s)
         {
-        const size_t h = kh * s + 0.5f;
-        const size_t t = kt * s + 0.5f;
+        const size_t h = kh * s + 0.5;
+        const size_t t = kt * s + 0.5;
         const size_t b = s - (h + t);
         fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));
         }
-- 
2.43.0


From bcfd3277d483831f5ec1b4f7aa398bb101c62911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 18/27] fix: benchmark_ffa2 crashed the interpreter for zero
 rows or columns

---
 riptide/cpp/python_bindings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index ecdabda..c70df2c 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -102,6 +102,10 @@ py::array_t<float> ffa2(py::array_t<float> arr_input)
 /* Benchmark the ffa2() function. Returns the time per loop in seconds */
 double benchmark_ffa2(size_t rows, size_t cols, size_t loops)
 {
+    if (rows == 0 || cols == 0)
+    {
+        throw std::invalid_argument("rows and cols must be > 0");
+    }
     const size_t size = rows * cols;
 
     // NOTE: performance slightly increases when all buffers are contiguous
-- 
2.43.0


From 1100a56bcfa9eba6b9a5949aa6cb164bacd14088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 19/27] fix: check the trial widths given to the native
 periodogram(), refuse an empty list of widths

---
 riptide/cpp/python_bindings.cpp | 1 +
 riptide/cpp/snr.hpp             | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index c70df2c..c13aeb8 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -202,6 +202,7 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
     size_t num_widths = widths.size();
 
     size_t length = riptide::periodogram_length(size, tsamp, period_min, period_max, bins_min, bins_max);
+    riptide::check_trial_widths(widths.data(0), num_widths, bins_min);
 
     auto periods = new_cstyle_array<double>({length});
     auto foldbins = new_cstyle_array<uint32_t>({length});
diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 5986e52..451a95c 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -21,6 +21,9 @@ void check_stdnoise(float stdnoise)
 // Check that all trial widths are > 0 and < bins; throw std::invalid_argument if that is not the case
 void check_trial_widths(const size_t* widths, size_t num_widths, size_t bins)
     {
+    if (num_widths == 0)
+        throw std::invalid_argument("there must be at least one trial width");
+
     bool b = std::all_of(
         widths, 
         widths + num_widths, 
-- 
2.43.0


From 61f1056ca82ccbb44d4f560180131f4e18e8ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:05 +0000
Subject: [PATCH 20/27] fix: native functions read misaligned input arrays
 through float pointers (undefined behaviour), copy them

---
 riptide/cpp/python_bindings.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index c13aeb8..f3e1b8b 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -19,6 +19,12 @@
 namespace py = pybind11;
 
 
+// Type of input arrays. NPY_ARRAY_ALIGNED_ means that numpy makes an aligned
+// copy if necessary: reading a misaligned float is undefined behaviour.
+template <typename T>
+using input_array = py::array_t<T, py::array::forcecast | py::detail::npy_api::NPY_ARRAY_ALIGNED_>;
+
+
 // Shorthand for allocating a new array to be returned as a numpy array to the
 // python caller. Also a sneaky workaround the fact that the constructor of
 // pybind11::array_t now expects an initializer list of ssize_t (signed),
@@ -31,7 +37,7 @@ py::array_t<T> new_cstyle_array(std::initializer_list<size_t> shape) {
 
 
 template<typename T>
-void assert_c_contiguous(py::array_t<T> arr)
+void assert_c_contiguous(input_array<T> arr)
 {
     const bool b = arr.flags() & py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_;
     if (!b)
@@ -41,7 +47,7 @@ void assert_c_contiguous(py::array_t<T> arr)
 }
 
 
-py::array_t<float> rollback(py::array_t<float> arr_x, size_t shift)
+py::array_t<float> rollback(input_array<float> arr_x, size_t shift)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
@@ -52,7 +58,7 @@ py::array_t<float> rollback(py::array_t<float> arr_x, size_t shift)
 }
 
 
-py::array_t<float> fused_rollback_add(py::array_t<float> arr_x, py::array_t<float> arr_y, size_t shift)
+py::array_t<float> fused_rollback_add(input_array<float> arr_x, input_array<float> arr_y, size_t shift)
 {
     if (arr_x.size() != arr_y.size())
     {
@@ -70,7 +76,7 @@ py::array_t<float> fused_rollback_add(py::array_t<float> arr_x, py::array_t<floa
 }
 
 
-py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
+py::array_t<float> circular_prefix_sum(input_array<float> arr_x, size_t nsum)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
@@ -85,7 +91,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
 }
 
 
-py::array_t<float> ffa2(py::array_t<float> arr_input)
+py::array_t<float> ffa2(input_array<float> arr_input)
 {
     assert_c_contiguous(arr_input);
     auto input = arr_input.unchecked<2>();
@@ -126,7 +132,7 @@ double benchmark_ffa2(size_t rows, size_t cols, size_t loops)
 }
 
 
-py::array_t<float> snr1(py::array_t<float> arr_x, py::array_t<size_t> arr_widths, float stdnoise)
+py::array_t<float> snr1(input_array<float> arr_x, input_array<size_t> arr_widths, float stdnoise)
 {
     assert_c_contiguous(arr_x);
     assert_c_contiguous(arr_widths);
@@ -146,7 +152,7 @@ py::array_t<float> snr1(py::array_t<float> arr_x, py::array_t<size_t> arr_widths
 }
 
 
-py::array_t<float> snr2(py::array_t<float> arr_x, py::array_t<size_t> arr_widths, float stdnoise)
+py::array_t<float> snr2(input_array<float> arr_x, input_array<size_t> arr_widths, float stdnoise)
 {
     assert_c_contiguous(arr_x);
     assert_c_contiguous(arr_widths);
@@ -168,7 +174,7 @@ py::array_t<float> snr2(py::array_t<float> arr_x, py::array_t<size_t> arr_widths
 }
 
 
-py::array_t<float> downsample(py::array_t<float> arr_x, double f)
+py::array_t<float> downsample(input_array<float> arr_x, double f)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
@@ -186,9 +192,9 @@ py::array_t<float> downsample(py::array_t<float> arr_x, double f)
 
 
 std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > periodogram(
-    py::array_t<float> arr_data,
+    input_array<float> arr_data,
     double tsamp,
-    py::array_t<size_t> arr_widths,
+    input_array<size_t> arr_widths,
     double period_min,
     double period_max,
     size_t bins_min,
@@ -218,7 +224,7 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
 }
 
 
-py::array_t<float> running_median(py::array_t<float> arr_x, size_t width)
+py::array_t<float> running_median(input_array<float> arr_x, size_t width)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
-- 
2.43.0


From d298f72e9257aaf37015be7c6a1af63a6498ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 21/27] fix: do not carry peaks, clusters and candidates over
 from one Pipeline.process() call to the next

---
 riptide/pipeline/pipeline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptide/pipeline/pipeline.py b/riptide/pipeline/pipeline.py
index c0a1ee1..b11157c 100644
--- a/riptide/pipeline/pipeline.py
+++ b/riptide/pipeline/pipeline.py
@@ -143,6 +143,12 @@ class Pipeline(object):
         log.debug("Input files: {}".format(len(files)))
         conf = self.config
 
+        # Discard the results of any previous run
+        self.peaks = []
+        self.clusters = []
+        self.clusters_filtered = []
+        self.candidates = []
+
         # The DM iterator is in charge of:
         # - checking the time series
         # - selecting the DM trials in the right range with the right dynamic step
-- 
2.43.0


From 1c7af7d79e8a4f0a9cd245dc1cd9b9c761b2c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 22/27] fix: periodograms and candidates share the metadata of
 the time series they were made from, in-place operations on it change their
 tobs

---
 riptide/candidate.py | 5 ++++-
 riptide/search.py    | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 2167f40..f34004d 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -7,6 +7,8 @@ from matplotlib.gridspec import GridSpec
 import astropy.units as uu
 from astropy.time import Time
 
+from .metadata import Metadata
+
 
 log = logging.getLogger('riptide.candidate')
 
@@ -95,7 +97,8 @@ class Candidate(object):
             subints = None
 
         subints_array = ts.fold(centre.period, bins, subints=subints)
-        return cls(centre.summary_dict(), ts.metadata, peak_cluster.summary_dataframe(), subints_array)
+        # NOTE: Metadata() makes a copy, the metadata of 'ts' change if it is later modified in-place
+        return cls(centre.summary_dict(), Metadata(ts.metadata), peak_cluster.summary_dataframe(), subints_array)
 
     @classmethod
     def from_dict(cls, items):
diff --git a/riptide/search.py b/riptide/search.py
index 5d009e4..0ca7583 100644
--- a/riptide/search.py
+++ b/riptide/search.py
@@ -3,6 +3,7 @@ import numpy as np
 ### Local module imports
 import riptide.libcpp as libcpp
 from .ffautils import generate_width_trials
+from .metadata import Metadata
 from .periodogram import Periodogram
 from .timing import timing
 
@@ -87,5 +88,6 @@ def ffa_search(tseries, period_min=1.0, period_max=30.0, fpmin=8, bins_min=240,
             tseries.data, tseries.tsamp, widths, 
             period_min, min(period_max, period_cap), bins_min, bins_max
             )
-    pgram = Periodogram(widths, periods, foldbins, snrs, metadata=tseries.metadata)
+    # NOTE: Metadata() makes a copy, the metadata of 'tseries' change if it is later modified in-place
+    pgram = Periodogram(widths, periods, foldbins, snrs, metadata=Metadata(tseries.metadata))
     return tseries, pgram
-- 
2.43.0


From a840621d8ece37dd70dcd4bf0a13e2c5508d2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 23/27] fix: fold() lost a period, crashed or refused valid
 subints and bins when the period is a whole fraction of the data length

---
 riptide/folding.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/riptide/folding.py b/riptide/folding.py
index 6f53e1a..e5cccfb 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -45,25 +45,32 @@ def fold(ts, period, bins, subints=None):
     e.g. bin width is shorter than sampling time, or subint length is shorter
     than requested period
     """
-    if period > ts.length:
-        raise ValueError("Period exceeds data length")
+    # NOTE: rounding errors on the period must not change the number of periods
+    eps = 1.0e-12
 
     tbin = period / bins
-    if not tbin > ts.tsamp:
+    if not tbin > ts.tsamp * (1 - eps):
         raise ValueError("Bin width is shorter than sampling time")
 
+    # Number of full periods that fit in the data
+    m = int(ts.length / period * (1 + eps))
+    if m < 1:
+        raise ValueError("Period exceeds data length")
+
     if subints is not None:
         subints = int(subints)
         if not subints >= 1:
             raise ValueError("subints must be >= 1 or None")
 
-        full_periods = ts.length / period
-        if subints > full_periods:
-            raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})")
+        if subints > m:
+            raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({m})")
 
     factor = tbin / ts.tsamp
-    tsdown = ts.downsample(factor)
-    m = tsdown.nsamp // bins
+    if int(ts.nsamp / factor) < m * bins:
+        factor = np.nextafter(ts.nsamp / (m * bins), 0)
+
+    # NOTE: downsample() requires factor > 1
+    tsdown = ts.downsample(factor) if factor > 1 + eps else ts.copy()
     nsamp_eff = m * bins
     
     folded = tsdown.data[:nsamp_eff].reshape(m, bins)
-- 
2.43.0


From 60350fceaccc4e12c2c1797ca38687e80fa149d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 24/27] fix: candidates without source name, date or sky
 coordinates, or with non-equatorial ones, could not be plotted

---
 riptide/candidate.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index f34004d..64549ea 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -163,7 +163,8 @@ class TableEntry(TableEntryBase):
         assert(len(X) == 3)
         fmt = "{{:{}}}".format(self.formatter)
         plt.text(X[0], y, self.name, **kwargs)
-        plt.text(X[1], y, fmt.format(self.value), ha='right', **kwargs)
+        text = fmt.format(self.value) if self.value is not None else 'N/A'
+        plt.text(X[1], y, text, ha='right', **kwargs)
         plt.text(X[2], y, self.unit, **kwargs)
 
 
@@ -171,14 +172,20 @@ def plot_table(params, tsmeta):
     """
     """
     plt.axis('off')
-    coord = tsmeta['skycoord']
-    ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
-    dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
+    # NOTE: coordinates, date and source name are None if unknown
+    ra_hms, dec_hms, mjd, utc = None, None, None, None
+
+    if tsmeta['skycoord'] is not None:
+        coord = tsmeta['skycoord'].icrs
+        ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
+        dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
 
     # TODO: Check that the scale is actually UTC in the general case
     # PRESTO, SIGPROC and other packages may not have the same
     # date/time standard
-    obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+    if tsmeta['mjd'] is not None:
+        obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+        mjd, utc = obsdate.mjd, obsdate.iso
 
     blank = TableEntry(name='', value='', formatter='s', unit='')
 
@@ -192,8 +199,8 @@ def plot_table(params, tsmeta):
         TableEntry(name='Source', value=tsmeta['source_name'], formatter='s', unit=''),
         TableEntry(name='RA', value=ra_hms, formatter='s', unit=''),
         TableEntry(name='Dec', value=dec_hms, formatter='s', unit=''),
-        TableEntry(name='MJD', value=obsdate.mjd, formatter='.6f', unit=''),
-        TableEntry(name='UTC', value=obsdate.iso, formatter='s', unit=''),
+        TableEntry(name='MJD', value=mjd, formatter='.6f', unit=''),
+        TableEntry(name='UTC', value=utc, formatter='s', unit=''),
     ]
 
     y0 = 0.94  # Y coordinate of first line
-- 
2.43.0


From 5d02e0c9646e77fdd72f47b5805375526e5e4e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 25/27] fix: DataFrames with non-numeric columns could not be
 loaded back from JSON

---
 riptide/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 2fb0f78..29fc414 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -51,7 +51,8 @@ class JSONEncoder(json.JSONEncoder):
         if isinstance(obj, pandas.DataFrame):
             return {
                 '__type__': 'pandas.DataFrame',
-                'values': self.default(obj.values),
+                # NOTE: columns that are not numeric cannot be saved as raw binary data
+                'values': obj.values.tolist() if obj.values.dtype.hasobject else self.default(obj.values),
                 'columns': list(obj.columns)
             }
 
-- 
2.43.0


From c95e7cb497f36e3df1a9db1223627d9f17947973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 26/27] fix: candidates of data with an unknown DM could not be
 plotted

---
 riptide/candidate.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 64549ea..24126b0 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -212,15 +212,17 @@ def plot_table(params, tsmeta):
 
 
 def plot_dm_curve(dm, snr):
-    dm_min = dm.min()
-    dm_max = dm.max()
     plt.plot(dm, snr, color='r', marker='o', markersize=3)
 
-    # Avoid matplotlib warning when calling xlim() with two equal values 
-    if dm_min == dm_max:
-        plt.xlim(dm_min - 0.5, dm_min + 0.5)
-    else:
-        plt.xlim(dm_min, dm_max)
+    # NOTE: the curve has no points if the DM of the data is unknown
+    if len(dm):
+        dm_min = dm.min()
+        dm_max = dm.max()
+        # Avoid matplotlib warning when calling xlim() with two equal values
+        if dm_min == dm_max:
+            plt.xlim(dm_min - 0.5, dm_min + 0.5)
+        else:
+            plt.xlim(dm_min, dm_max)
     plt.grid(linestyle=':')
     plt.xlabel("DM (pc cm$^{-3}$)")
     plt.ylabel("Best S/N")
-- 
2.43.0


From 99933f60f15e144f85fc85ab3eda04f28d8dd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 27/27] fix: find_peaks with a segwidth smaller than the
 spacing of the trials

---
 riptide/peak_detection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptide/peak_detection.py b/riptide/peak_detection.py
index e24613c..2ec63a0 100644
--- a/riptide/peak_detection.py
+++ b/riptide/peak_detection.py
@@ -68,8 +68,9 @@ def segment_stats(f, s, T, segwidth=5.0):
     #log.debug("Segment width (Hz): {:.6f}".format(w))
 
     # NOTE: the spacing of frequency trials is almost constant
-    # NOTE: there is always at least one segment, even with a single trial
-    m = max(1, ceil(abs(f[-1] - f[0]) / w)) # number of segments
+    # NOTE: there is always at least one segment, even with a single trial, and
+    # every segment has at least one trial, even if segwidth is very small
+    m = min(max(1, ceil(abs(f[-1] - f[0]) / w)), len(f)) # number of segments
     #log.debug("Segments: {:d}".format(m))
 
     p = len(f) // m # number of complete segments
-- 
2.43.0

