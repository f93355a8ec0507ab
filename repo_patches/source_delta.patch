From eaf81a5aaeaa99047b739f133c9d063bff4deca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:00 +0000
Subject: [PATCH 01/54] fix: geodesic distance and mean deviation wrap
 differences beyond one turn

---
 pycircstat2/descriptive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index ff1ae71..c266314 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -773,7 +773,7 @@ def circ_mean_deviation_chunked(
     for start in range(0, beta_arr.size, chunk_size):
         stop = start + chunk_size
         beta_chunk = beta_arr[start:stop]
-        angdist = np.pi - np.abs(np.pi - np.abs(alpha_arr - beta_chunk[:, None]))
+        angdist = np.pi - np.abs(np.pi - np.abs(alpha_arr - beta_chunk[:, None]) % (2 * np.pi))
         chunk_mean = np.round(np.mean(angdist, axis=1), 5)
         result[start : start + beta_chunk.size] = chunk_mean
 
@@ -823,7 +823,7 @@ def circ_mean_deviation(
     beta_arr = np.atleast_1d(np.asarray(beta, dtype=float))
 
     mean_dist = np.mean(
-        np.abs(np.pi - np.abs(alpha_arr - beta_arr[:, None])),
+        np.abs(np.pi - np.abs(alpha_arr - beta_arr[:, None]) % (2 * np.pi)),
         axis=1,
     )
     return np.round(np.pi - mean_dist, 5)
@@ -1427,7 +1427,7 @@ def circ_dist(
     metric : str, optional
         Distance metric to use, options:
         - "center" (default): Standard circular difference wrapped to [-π, π].
-        - "geodesic": π - |π - |x - y||.
+        - "geodesic": π - |π - (|x - y| mod 2π)|.
         - "angularseparation": 1 - cos(x - y).
         - "chord": sqrt(2 * (1 - cos(x - y))).
     return_sum : bool, optional
@@ -1457,7 +1457,7 @@ def circ_dist(
         distances = np.angle(np.exp(1j * x) / np.exp(1j * y))
 
     elif metric == "geodesic":
-        distances = np.pi - np.abs(np.pi - np.abs(x - y))
+        distances = np.pi - np.abs(np.pi - np.abs(x - y) % (2 * np.pi))
 
     elif metric == "angularseparation":
         distances = 1 - np.cos(x - y)
-- 
2.43.0


From 98619018b5aa640466eac8c124d4334523de4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:33 +0000
Subject: [PATCH 02/54] fix: bootstrap standardisation uses the square root of
 the covariance matrix

---
 pycircstat2/descriptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index c266314..fb0924b 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1134,7 +1134,7 @@ def _circ_mean_ci_bootstrap(
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq (8.27)
 
     denom = np.sqrt(1 + beta_param**2)
@@ -1183,7 +1183,7 @@ def _circ_mean_resample(alpha, z0, v0):
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq(8.27)
 
     denom = np.sqrt(1 + beta_param**2)
-- 
2.43.0


From 8e1e749cad10db3c6de8d3f890f60d33c8fc836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:12 +0000
Subject: [PATCH 03/54] fix: circ_median_ci wraps an upper rank equal to the
 sample size

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index fb0924b..a291a0e 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1284,7 +1284,7 @@ def circ_median_ci(
         if np.round(median, 5) in alpha.round(5):  # don't count the median per se
             idx_ub += 1
 
-        if idx_ub > n:
+        if idx_ub >= n:
             idx_ub = idx_ub - n
 
         if idx_lb < 0:
-- 
2.43.0


From 70a70295a35690a919730d037fd603a65b4675da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:01 +0000
Subject: [PATCH 04/54] fix: circ_median_ci ranks small samples along the
 circle cut opposite the median

---
 pycircstat2/descriptive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index a291a0e..cd3f39d 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1263,7 +1263,11 @@ def circ_median_ci(
         )
 
     n = len(alpha)
-    alpha = np.sort(alpha)
+    if n > 15:
+        alpha = np.sort(alpha)
+    else:
+        # rank the data along the circle cut opposite to the median
+        alpha = np.asarray(alpha)[np.argsort(circ_dist(alpha, median))]
 
     if n > 15:
         z = norm.ppf(1 - 0.5 * (1 - ci))
-- 
2.43.0


From fd8f82e7619557ba10851609d3a4bed6b09b11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:13 +0000
Subject: [PATCH 05/54] fix: circ_kappa small-sample correction at zero
 resultant length

---
 pycircstat2/descriptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index cd3f39d..a30e345 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1405,7 +1405,8 @@ def circ_kappa(r: float, n: Union[int, None] = None) -> float:
     if n is not None:
         if n <= 15 and r < 0.7:
             if kappa < 2:
-                kappa = np.max([kappa - 2 * 1 / (n * kappa), 0])
+                # the limit of the correction at kappa = 0 is 0
+                kappa = np.max([kappa - 2 * 1 / (n * kappa), 0]) if kappa > 0 else 0.0
             else:
                 kappa = (n - 1) ** 3 * kappa / (n**3 + n)
 
-- 
2.43.0


From f5a324747d111efdf703090ad1829937a6df44df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:16 +0000
Subject: [PATCH 06/54] fix: kernel density estimate wraps distances for data
 outside one turn

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index a30e345..6191839 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1696,7 +1696,7 @@ def nonparametric_density_estimation(
     a = np.asarray(alpha, dtype=float)
     n = len(a)
     x = np.linspace(0, 2 * np.pi, 100)
-    d = np.abs(x[:, None] - a)
+    d = np.abs(x[:, None] - a) % (2 * np.pi)
     e = np.minimum(d, 2 * np.pi - d)
     e = np.minimum(e, h)
     weight_sum = np.sum((1 - e**2 / h**2) ** 2, axis=1)
-- 
2.43.0


From d3d8a0318a18d7b277528c25b120e8d05ffa9d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 07/54] fix: rayleigh_test and V_test accept samples whose
 resultant length rounds above 1

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6d83463..dc8acfd 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -462,7 +462,7 @@ def rayleigh_test(
         if not np.isclose(n_total, round(n_total)):
             raise ValueError("Rayleigh's test requires integer sample sizes when weights are used.")
         n = int(round(n_total))
-        r = circ_r(alpha, w)
+        r = min(float(circ_r(alpha, w)), 1.0)  # rounding may exceed 1
     else:
         r = float(r)
 
@@ -639,6 +639,7 @@ def V_test(
         if n <= 0:
             raise ValueError("Sample size inferred from `w` must be positive.")
         mean, r = circ_mean_and_r(alpha, w)
+        r = min(float(r), 1.0)  # rounding may exceed 1
     else:
         mean = float(mean)
         r = float(r)
-- 
2.43.0


From 017a820dcb366a98eaca7c0bc491e2470ca3b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:34 +0000
Subject: [PATCH 08/54] fix: omnibus test counts the data on both sides of
 every diameter

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index dc8acfd..43b7d46 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -800,7 +800,8 @@ def omnibus_test(
     right = n - np.logical_and(
         lines_rotated > 0.0, lines_rotated < np.pi
     ).sum(axis=1)
-    m = int(np.min(right))
+    # the smaller count over both sides of every line
+    m = int(min(np.min(right), np.min(n - right)))
 
     # ------------------------------------------------------------------
     # 2. p-value   ———  analytical formula and its log form
-- 
2.43.0


From 15817302c58de8cb9278a111e93c1bf23118b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 09/54] fix: omnibus test does not reject when every diameter
 halves the data

---
 pycircstat2/hypothesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 43b7d46..94c9608 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -830,8 +830,8 @@ def omnibus_test(
 
     denom = n - 2 * m
     if denom <= 0:
-        logp = -np.inf
-        pval = 0.0
+        # every diameter halves the data: the least extreme outcome
+        pval = 1.0
         A = np.inf
     else:
         logp = (
-- 
2.43.0


From c3fcb931fae28e5f190ef3238dc4e7d38a3e937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:05 +0000
Subject: [PATCH 10/54] fix: watson_u2 and wheeler_watson accept unsorted and
 nearly equal angles

---
 pycircstat2/hypothesis.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 94c9608..b810956 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1099,8 +1099,6 @@ def watson_u2_test(
     P639-640, Section 27.5, Example 27.10 of Zar, 2010
     """
 
-    from scipy.stats import rankdata
-
     normalized = _coerce_circular_samples(samples)
     if len(normalized) != 2:
         raise ValueError("`watson_u2_test` requires exactly two samples.")
@@ -1110,15 +1108,8 @@ def watson_u2_test(
         if expanded.size == 0:
             raise ValueError("Each sample must contain at least one observation.")
 
-        idx = [np.where(np.isclose(alpha_unique, val, atol=1e-10))[0] for val in expanded]
-        idx = np.concatenate(idx)
-        idx = np.hstack([0, idx, alpha_unique.size])
-
-        freq_cumsum = rankdata(expanded, method="max") / sample.n
-        freq_cumsum = np.hstack([0, freq_cumsum])
-
-        tiles = np.diff(idx)
-        return np.repeat(freq_cumsum, tiles)
+        # fraction of the sample at or below each distinct angle
+        return np.searchsorted(np.sort(expanded), alpha_unique, side="right") / sample.n
 
     expanded_samples = [sample.expand() for sample in normalized]
     a, t = np.unique(np.hstack(expanded_samples), return_counts=True)
@@ -1186,9 +1177,7 @@ def wheeler_watson_test(
 
     def get_circrank(alpha: np.ndarray, sample: _CircularSample, N: int) -> np.ndarray:
         expanded = sample.expand()
-        rank_of_direction = (
-            np.squeeze([np.where(np.isclose(alpha, value))[0] for value in expanded]) + 1
-        )
+        rank_of_direction = np.searchsorted(alpha, expanded) + 1
         return 2 * np.pi / N * rank_of_direction
 
     N = sum(sample.n for sample in normalized)
-- 
2.43.0


From f340d5eb614126c0398ae2f231ac1eb1ca9a1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 11/54] fix: wallraff_test and angular_randomisation_test use
 the frequencies of grouped samples

---
 pycircstat2/hypothesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index b810956..c51d883 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1260,7 +1260,7 @@ def wallraff_test(
         angles = angle_arr
 
     ns = [sample.n for sample in normalized]
-    distances = [angular_distance(normalized[i].alpha, angles[i]) for i in range(len(normalized))]
+    distances = [angular_distance(normalized[i].expand(), angles[i]) for i in range(len(normalized))]
 
     rs = rankdata(np.hstack(distances))
 
@@ -1475,7 +1475,7 @@ def angular_randomisation_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    sample_arrays = [np.asarray(sample.alpha, dtype=float) for sample in normalized]
+    sample_arrays = [np.asarray(sample.expand(), dtype=float) for sample in normalized]
     if any(arr.size == 0 for arr in sample_arrays):
         raise ValueError("Each sample must contain at least one observation.")
 
-- 
2.43.0


From 1b16fe487162394979775187fec1c3e2da9f68b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 12/54] fix: watson_u2_test p-value does not exceed 1

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index c51d883..50a4800 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1122,7 +1122,7 @@ def watson_u2_test(
         / N**2
         * (np.sum(t * d**2) - np.sum(t * d) ** 2 / N)
     )
-    pval = 2 * np.exp(-19.74 * U2)
+    pval = min(2 * np.exp(-19.74 * U2), 1.0)
     # Approximated P-value from Watson (1961)
     # https://github.com/pierremegevand/watsons_u2/blob/master/watsons_U2_approx_p.m
 
-- 
2.43.0


From a33dc165a5981059b6f6b73280600d386b4857ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:26 +0000
Subject: [PATCH 13/54] fix: sample comparisons wrap angles given outside one
 turn

---
 pycircstat2/hypothesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 50a4800..535f8a1 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -348,6 +348,7 @@ def _coerce_circular_samples(samples: Sequence[Any]) -> list[_CircularSample]:
             raise ValueError("Angles must be finite.")
         if not np.all(np.isfinite(weights_arr)):
             raise ValueError("Weights must be finite.")
+        alpha_arr = np.mod(alpha_arr, 2 * np.pi)
 
         rounded_weights = np.round(weights_arr).astype(int)
         if not np.allclose(weights_arr, rounded_weights):
-- 
2.43.0


From 817836f5740285e31bcc5e395e3ca32f97f9d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:27 +0000
Subject: [PATCH 14/54] fix: uniformity tests wrap angles given outside one
 turn

---
 pycircstat2/hypothesis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 535f8a1..5712d45 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1610,6 +1610,7 @@ def kuiper_test(
     alpha = np.asarray(alpha, dtype=float)
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
+    alpha = np.mod(alpha, 2 * np.pi)
 
     def compute_V(sample):
         ordered = np.sort(sample) / (2 * np.pi)
@@ -1718,6 +1719,7 @@ def watson_test(
     alpha = np.asarray(alpha, dtype=float)
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
+    alpha = np.mod(alpha, 2 * np.pi)
 
     def compute_U2(sample):
         ordered = np.sort(sample)
@@ -1816,6 +1818,7 @@ def rao_spacing_test(
     alpha = np.asarray(alpha, dtype=float)
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
+    alpha = np.mod(alpha, 2 * np.pi)
 
     def compute_U(sample):
         ordered = np.sort(sample)
-- 
2.43.0


From df189695ef93d418a54ce53c66c54e91726f4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:50 +0000
Subject: [PATCH 15/54] fix: rao_spacing_test rounds frequencies instead of
 truncating them

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 5712d45..4d70a3a 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1832,7 +1832,7 @@ def rao_spacing_test(
             raise ValueError("`w` must contain non-negative frequencies.")
         if not np.all(np.isclose(w, np.round(w))):
             raise ValueError("`w` must contain integer frequencies.")
-        w = w.astype(int)
+        w = np.round(w).astype(int)
         if w.shape != alpha.shape:
             raise ValueError("`w` must have the same shape as `alpha`.")
         n = int(np.sum(w))
-- 
2.43.0


From 8012787ea874389b401545c0c29d652c809faa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:23 +0000
Subject: [PATCH 16/54] fix: asymptotic p-values of kuiper_test and watson_test
 stay within [0, 1]

---
 pycircstat2/hypothesis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 4d70a3a..66e2ce7 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1638,12 +1638,12 @@ def kuiper_test(
     if n_simulation == 1:
         # asymptotic p-value
         mode = "asymptotic"
-        m = (np.arange(1, 50, dtype=float)) ** 2
+        m = (np.arange(1, max(50, int(5 * np.sqrt(n))), dtype=float)) ** 2
         a1 = 4 * m * Vo**2
         a2 = np.exp(-2 * m * Vo**2)
         b1 = 2 * (a1 - 1) * a2
         b2 = 8 * Vo / (3 * f) * m * (a1 - 3) * a2
-        pval = float(np.sum(b1 - b2))
+        pval = float(np.clip(np.sum(b1 - b2), 0.0, 1.0))
     else:
         mode = "simulation"
         rng = _init_rng(seed)
@@ -1744,8 +1744,10 @@ def watson_test(
 
     if n_simulation == 1:
         mode = "asymptotic"
-        m = np.arange(1, 51)
-        pval = float(2 * sum((-1) ** (m - 1) * np.exp(-2 * m**2 * np.pi**2 * U2o)))
+        m = np.arange(1, max(51, int(5 * np.sqrt(n))))
+        pval = float(
+            np.clip(2 * sum((-1) ** (m - 1) * np.exp(-2 * m**2 * np.pi**2 * U2o)), 0.0, 1.0)
+        )
     else:
         mode = "simulation"
         rng = _init_rng(seed)
-- 
2.43.0


From 838d27e49e9fde658c170d654413e73ed131a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:34 +0000
Subject: [PATCH 17/54] fix: common_median_test does not count the median
 observation by rounding error

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 66e2ce7..c117b44 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2707,7 +2707,8 @@ def common_median_test(
     m = np.zeros(k, dtype=float)
     for i, group in enumerate(arrays):
         deviations = circ_dist(group, common_median)
-        m[i] = np.sum(deviations < 0)
+        # the observation that is the median deviates from it by rounding only
+        m[i] = np.sum(deviations < -1e-12)
 
     # Compute test statistic
     M = np.sum(m)
-- 
2.43.0


From e45a5c621fc452a4602cd25fa572c20aa3a93bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:12 +0000
Subject: [PATCH 18/54] fix: wallraff_test continuity correction does not
 overshoot the mean

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index c117b44..7b4d7b1 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1273,7 +1273,7 @@ def wallraff_test(
     U2 = np.prod(ns) - U1
     U = np.min([U1, U2])
 
-    z = (U - np.prod(ns) / 2 + 0.5) / np.sqrt(np.prod(ns) * (N + 1) / 12)
+    z = min(U - np.prod(ns) / 2 + 0.5, 0.0) / np.sqrt(np.prod(ns) * (N + 1) / 12)
     pval = float(2 * norm.sf(abs(z)))
 
     if verbose:
-- 
2.43.0


From 87bb471853a1fe2292fa343b185f53e00da527bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:56 +0000
Subject: [PATCH 19/54] fix: rayleigh_test, V_test and one_sample_test refuse
 negative weights; V_test refuses fractional totals

---
 pycircstat2/hypothesis.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 7b4d7b1..2f5e06a 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -457,6 +457,8 @@ def rayleigh_test(
             w = np.asarray(w, dtype=float)
             if w.shape != alpha.shape:
                 raise ValueError("`w` must have the same shape as `alpha`.")
+            if np.any(w < 0):
+                raise ValueError("`w` must contain non-negative frequencies.")
         n_total = float(np.sum(w))
         if n_total <= 0:
             raise ValueError("Sample size inferred from `w` must be positive.")
@@ -636,9 +638,16 @@ def V_test(
             w = np.asarray(w, dtype=float)
             if w.shape != alpha.shape:
                 raise ValueError("`w` must have the same shape as `alpha`.")
-        n = int(np.sum(w))
-        if n <= 0:
+            if np.any(w < 0):
+                raise ValueError("`w` must contain non-negative frequencies.")
+        n_total = float(np.sum(w))
+        if n_total <= 0:
             raise ValueError("Sample size inferred from `w` must be positive.")
+        if not np.isclose(n_total, round(n_total)):
+            raise ValueError(
+                "The V test requires integer sample sizes when weights are used."
+            )
+        n = int(round(n_total))
         mean, r = circ_mean_and_r(alpha, w)
         r = min(float(r), 1.0)  # rounding may exceed 1
     else:
@@ -722,6 +731,8 @@ def one_sample_test(
             w = np.asarray(w, dtype=float)
             if w.shape != alpha.shape:
                 raise ValueError("`w` must have the same shape as `alpha`.")
+            if np.any(w < 0):
+                raise ValueError("`w` must contain non-negative frequencies.")
         lb, ub = circ_mean_ci(alpha=alpha, w=w)
 
     lb = float(lb)
-- 
2.43.0


From caff398f36a33ab15afb8db7bc0f40e815c8394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 20/54] fix: nonparametric circular correlation wraps angles
 before ranking

---
 pycircstat2/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 535fb87..fdabe8c 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -261,8 +261,8 @@ def _circ_corrcc_np(
         raise ValueError("At least three paired observations are required for the nonparametric test.")
     C = 2 * np.pi / n
 
-    rank_a = rankdata(a_alpha)
-    rank_b = rankdata(b_alpha)
+    rank_a = rankdata(np.mod(a_alpha, 2 * np.pi))
+    rank_b = rankdata(np.mod(b_alpha, 2 * np.pi))
     rank_diff = rank_a - rank_b
     rank_sum = rank_a + rank_b
 
-- 
2.43.0


From 608c3629fb844479966d0b11a42442386ea9efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:55 +0000
Subject: [PATCH 21/54] fix: strict circular correlation reads the Rayleigh
 p-value of data objects

---
 pycircstat2/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index fdabe8c..b4cff6e 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -95,7 +95,9 @@ def _coerce_angles(
     """Return angle array (in radians) and mean p-value if available."""
 
     if isinstance(data, Circular):
-        return np.asarray(data.alpha, dtype=float), getattr(data, "mean_pval", None)
+        mean_test = getattr(data, "mean_test_result", None)
+        pval = None if mean_test is None else mean_test.pval
+        return np.asarray(data.alpha, dtype=float), pval
 
     array = np.asarray(data, dtype=float)
     if array.ndim == 0:
-- 
2.43.0


From 335063e2a1dd4f0872863a614328b6ad1b6969c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 22/54] fix: mixed circular-linear regression updates beta by
 its score

---
 pycircstat2/regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 53410f6..da5be56 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -270,14 +270,14 @@ class CLRegression:
                 S = np.sum(kappa * np.sin(raw_deviation))
                 C = np.sum(kappa * np.cos(raw_deviation))
                 mu = np.arctan2(S, C)
-                residuals = theta - mu
 
                 # Step 2: Update beta
                 denom = 1 + (X @ beta) ** 2
                 G = 2 * X / denom[:, None]
                 weights_beta = kappa * self._A1(kappa)
                 XtWX_beta = G.T @ (weights_beta[:, None] * G)
-                rhs_beta = G.T @ (weights_beta * np.sin(residuals))
+                u_beta = kappa * np.sin(raw_deviation - mu)
+                rhs_beta = G.T @ u_beta + XtWX_beta @ beta
                 beta_new = _safe_solve(
                     XtWX_beta + 1e-8 * np.eye(X.shape[1]), rhs_beta
                 )
-- 
2.43.0


From d435b33c62de03cc56df1b56bc990e7aeab13a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 23/54] fix: CLRegression reports the likelihood of the
 coefficients it reports when iterations run out

---
 pycircstat2/regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index da5be56..4c4ff28 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -307,7 +307,9 @@ class CLRegression:
                 print(
                     f"Iteration {iter_count + 1}: Log-Likelihood = {log_likelihood:.5f}, diff = {diff:.2e}"
                 )
-            if diff < self.tol:
+            # On the last iteration stop before updating, so that mu, kappa and the
+            # log-likelihood belong to the reported coefficients.
+            if diff < self.tol or iter_count + 1 == self.max_iter:
                 break
 
             beta, alpha, gamma = beta_new, alpha_new, gamma_new
-- 
2.43.0


From 9ed68908ad54269ce45d8b877d658ad4304da5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 24/54] fix: CircHAC merges by the absolute distance between
 centres

---
 pycircstat2/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 39a6678..bead0a8 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1412,7 +1412,7 @@ class CircHAC:
             best_pair: Optional[Tuple[int, int]] = None
             for idx, cid_i in enumerate(cluster_ids):
                 for cid_j in cluster_ids[idx + 1 :]:
-                    dist_ij = circ_dist(means[cid_i], means[cid_j], metric=self.metric)
+                    dist_ij = abs(circ_dist(means[cid_i], means[cid_j], metric=self.metric))
                     if dist_ij < best_dist:
                         best_dist = dist_ij
                         best_pair = (cid_i, cid_j)
-- 
2.43.0


From 963c9bc07862541d369a988292d16283ba1de154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 25/54] fix: silhouette_score leaves the point itself out of
 its own cluster's mean distance

---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index bead0a8..853c55f 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1562,7 +1562,8 @@ class CircHAC:
             in_cluster_i = (labels == c_i)
             # average distance to own cluster
             # excluding the point itself
-            a_i = pairwise[i, in_cluster_i].mean() if in_cluster_i.sum() > 1 else 0.0
+            n_i = in_cluster_i.sum()
+            a_i = pairwise[i, in_cluster_i].sum() / (n_i - 1) if n_i > 1 else 0.0
 
             # find min average distance to another cluster
             b_i = np.inf
-- 
2.43.0


From 4212c6b5c72e5c20e33281d5fafaf79b9aef271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 26/54] fix: CircKMeans.predict works when there were fewer
 points than clusters

---
 pycircstat2/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 853c55f..8bb013a 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1751,7 +1751,8 @@ class CircKMeans:
             alpha = X
 
         n_samples = len(alpha)
-        dist_mat = np.zeros((self.n_clusters, n_samples))
-        for c in range(self.n_clusters):
+        n_centers = len(self.centers_)
+        dist_mat = np.zeros((n_centers, n_samples))
+        for c in range(n_centers):
             dist_mat[c] = np.abs(circ_dist(alpha, self.centers_[c], metric=self.metric))
         return dist_mat.argmin(axis=0)
-- 
2.43.0


From e55ab6672239cedd762dc9934fa6121edcd18360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 27/54] fix: MovM keeps a defined mean direction when the
 weighted observations are balanced

---
 pycircstat2/clustering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 8bb013a..dbc470c 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -166,7 +166,8 @@ class MovM:
         for c in range(n_clusters_init):
             subset = x[labels == c]
             m_c, r_c = circ_mean_and_r(subset)
-            means[c] = m_c
+            # the mean direction of balanced observations is undefined
+            means[c] = m_c if np.isfinite(m_c) else 0.0
             resultants[c] = r_c
             kappa_c = circ_kappa(r=r_c)
             if not np.isfinite(kappa_c):
@@ -229,7 +230,8 @@ class MovM:
                     resultants[c] = 0.0
                 else:
                     mc, rc = circ_mean_and_r(alpha, w=weights)
-                    means_updated[c] = mc
+                    # any direction fits balanced weights: keep the current one
+                    means_updated[c] = mc if np.isfinite(mc) else means[c]
                     resultants[c] = rc
 
             kappas = np.array([max(circ_kappa(r=rc), 1e-3) for rc in resultants])
-- 
2.43.0


From 0a9717c21b2fdab06616afaf94ce93ead61041aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 28/54] fix: MoCD.bic evaluates the likelihood at the
 observations (they were converted to radians twice)

---
 pycircstat2/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index dbc470c..1bd49ee 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1252,7 +1252,7 @@ class MoCD:
     def bic(self) -> float:
         if self.alpha is None or self.p_ is None or self.params_ is None:
             raise ValueError("Model must be fitted before computing BIC.")
-        log_likelihood = self.score_samples(self.alpha)
+        log_likelihood = self.score_samples(self.data)
         nLL = -float(np.sum(log_likelihood))
         n_params_component = len(self.param_names)
         n_params_total = self.n_clusters * n_params_component + (self.n_clusters - 1)
-- 
2.43.0


From cc29a134a07baf0ee54b8fff8a7a1dce843d9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 29/54] fix: the default density grid of mixtures covers one
 turn in the data's own unit

---
 pycircstat2/clustering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 1bd49ee..622aa78 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -388,7 +388,7 @@ class MovM:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = x * full_cycle / (2 * np.pi)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -875,7 +875,7 @@ class MoKJ:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = x * full_cycle / (2 * np.pi)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -1238,7 +1238,7 @@ class MoCD:
         if X is None:
             X = np.linspace(0.0, 2.0 * np.pi, 200, endpoint=False)
             if unit == "degree":
-                X = np.rad2deg(X)
+                X = X * full_cycle / (2 * np.pi)
 
         X = np.asarray(X, dtype=float).reshape(-1)
         alpha = X if unit == "radian" else data2rad(X, k=full_cycle)
-- 
2.43.0


From 429ebcb7370914a225d006d94821a3efb890ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 30/54] fix: Circular accepts any number of bins (61, 122, ...
 were refused by a rounding error in a vacuous check)

---
 pycircstat2/base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index d06c9e3..4c7e6ce 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -196,9 +196,6 @@ class Circular:
                 self.bin_size = bin_size = 0.0
             else:  # grouped data
                 assert len(w) == len(alpha), "`w` and `data` must be the same length."
-                assert len(w) == len(
-                    np.arange(0, 2 * np.pi, 2 * np.pi / len(w))
-                ), "Grouped data should included empty bins."
                 self.w = w = np.asarray(w)
                 self.grouped = grouped = True
                 self.bin_size = bin_size = np.diff(alpha).min()
-- 
2.43.0


From f931252fb48c99002c716c344116b30762a9a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 31/54] fix: bin size of grouped data whose bins are rotated
 past zero

---
 pycircstat2/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 4c7e6ce..e9ec89b 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -198,7 +198,7 @@ class Circular:
                 assert len(w) == len(alpha), "`w` and `data` must be the same length."
                 self.w = w = np.asarray(w)
                 self.grouped = grouped = True
-                self.bin_size = bin_size = np.diff(alpha).min()
+                self.bin_size = bin_size = np.diff(np.sort(alpha)).min()
                 self.alpha_lb = alpha - bin_size / 2
                 self.alpha_ub = alpha + bin_size / 2
 
-- 
2.43.0


From 4c9b7d7fcf393d6bc3402db6c63d4ee57f7a15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 32/54] fix: Circular bins directions outside one turn instead
 of dropping them

---
 pycircstat2/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index e9ec89b..36d37b2 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -205,6 +205,12 @@ class Circular:
         # bin data usingse np.histogram
         else:
             if isinstance(bins, int) or isinstance(bins, np.ndarray):
+                # directions outside the turn spanned by the bins would be dropped
+                start = 0.0 if isinstance(bins, int) else bins[0]
+                outside = (alpha < start) | (alpha >= start + 2 * np.pi)
+                alpha = np.where(
+                    outside, start + np.mod(alpha - start, 2 * np.pi), alpha
+                )
                 w, alpha = np.histogram(
                     alpha, bins=bins, range=(0, 2 * np.pi)
                 )  # np.histogram return bin edges
-- 
2.43.0


From c29aebdc6720bc1a33a319199df9c1ad7b1d69af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 33/54] fix: Circular leaves the caller's kwargs_mean_ci
 unchanged

---
 pycircstat2/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 36d37b2..75ca32a 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -252,7 +252,7 @@ class Circular:
                 self.method_mean_ci = method_mean_ci = None
                 self.mean_ci_level = mean_ci_level = np.nan
         else:
-            self.method_mean_ci = method_mean_ci = kwargs_mean_ci.pop(
+            self.method_mean_ci = method_mean_ci = kwargs_mean_ci.get(
                 "method", "bootstrap"
             )
             self.mean_ci_level = mean_ci_level = 0.95
-- 
2.43.0


From a9a3b2198b32ffeaaf569e8caf3cff8c286f38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 34/54] fix: Axial halves the median and its limits like the
 mean

---
 pycircstat2/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 75ca32a..ae87bbc 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -514,3 +514,7 @@ class Axial(Circular):
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
+        self.median /= 2
+        if hasattr(self, "median_lb"):
+            self.median_lb /= 2
+            self.median_ub /= 2
-- 
2.43.0


From f914b3138d1e5bbce0379acc6be0d0d8bfa016e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 35/54] fix: bootstrap interval of the mean counts the
 frequencies of grouped data

---
 pycircstat2/descriptive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 6191839..ee060b1 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -920,6 +920,11 @@ def circ_mean_ci(
 
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
+        if w is not None:
+            counts = np.rint(w)
+            if not np.allclose(w, counts):
+                raise ValueError("The bootstrap interval requires integer frequencies.")
+            alpha = np.repeat(alpha, counts.astype(int))
         (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci)
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
-- 
2.43.0


From 1d79b25bb608b06bdd08edc15863a3b26a5a833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 36/54] fix: binned Axial data keep one angle per count

---
 pycircstat2/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index ae87bbc..54ebb3e 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -510,7 +510,10 @@ class Axial(Circular):
         self.data_double = data_double
         self.data = data
         self.alpha_double = self.alpha
-        self.alpha = data2rad(data, k=self.full_cycle)
+        # with bins the observations are the bin centres, one per count in `w`
+        self.alpha = (
+            data2rad(data, k=self.full_cycle) if bins is None else self.alpha / 2
+        )
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
-- 
2.43.0


From 6bc96b5df041fd58a97245b660356b7b72d7ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 37/54] fix: Axial reduces doubled data by the full cycle it is
 given

---
 pycircstat2/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 54ebb3e..203d596 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -487,15 +487,17 @@ class Axial(Circular):
     ):
         
         data = np.array(data) if isinstance(data, list) else data
-        # doubling original data and reducing them modulo 360 degrees
-        if unit == "degree":
+        # doubling original data and reducing them modulo the full cycle
+        if full_cycle is not None:
+            data_double = 2 * data % full_cycle
+        elif unit == "degree":
             data_double = 2 * data % 360
         elif unit == "radian":
             data_double = 2 * data % (2 * np.pi)
         elif unit == "hour":
             data_double = 2 * data % 24
         else:
-            data_double = 2 * data % full_cycle
+            data_double = 2 * data  # refused below: the cycle is unknown
 
         super().__init__(
             data=data_double,
-- 
2.43.0


From bcdc083692fba01344a2a23ecae6037f47ad5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 38/54] fix: von Mises density, CDF and likelihood do not
 overflow at large kappa

---
 pycircstat2/distributions.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 636a90c..906274c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -13,7 +13,9 @@ from scipy.special import (
     i1,
     ndtr,
     ndtri,
+    i1e,
     iv,
+    ive,
     betainc,
     betaincinv,
     gammaln,
@@ -3326,7 +3328,8 @@ class vonmises_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, kappa):
-        return np.exp(kappa * np.cos(x - mu)) / (2 * np.pi * i0(kappa))
+        # exponentially scaled so that large kappa does not overflow
+        return np.exp(kappa * (np.cos(x - mu) - 1)) / (2 * np.pi * i0e(kappa))
 
     def pdf(self, x, mu, kappa, *args, **kwargs):
         r"""
@@ -3353,7 +3356,7 @@ class vonmises_gen(CircularContinuous):
         return super().pdf(x, mu, kappa, *args, **kwargs)
 
     def _logpdf(self, x, mu, kappa):
-        return kappa * np.cos(x - mu) - np.log(2 * np.pi * i0(kappa))
+        return kappa * (np.cos(x - mu) - 1) - np.log(2 * np.pi * i0e(kappa))
 
     def logpdf(self, x, mu, kappa, *args, **kwargs):
         """
@@ -3405,7 +3408,7 @@ class vonmises_gen(CircularContinuous):
             result[np.isclose(arr, two_pi)] = 1.0
             return result
 
-        denom = i0(kappa_val)
+        denom = i0e(kappa_val)
         if not np.isfinite(denom) or denom == 0.0:
             return self._cdf_from_pdf(x, mu, kappa)
 
@@ -3419,7 +3422,7 @@ class vonmises_gen(CircularContinuous):
         converged = False
 
         for n in range(1, max_terms + 1):
-            coeff = iv(n, kappa_val) / (denom * n)
+            coeff = ive(n, kappa_val) / (denom * n)
             if not np.isfinite(coeff):
                 continue
 
@@ -3538,7 +3541,7 @@ class vonmises_gen(CircularContinuous):
         theta_curr = theta.copy()
         for _ in range(max_iter):
             cdf_vals = np.asarray(self.cdf(theta_curr, mu_val, kappa_val), dtype=float)
-            pdf_vals = np.exp(kappa_val * np.cos(theta_curr - mu_val)) / (2.0 * np.pi * i0(kappa_val))
+            pdf_vals = self._pdf(theta_curr, mu_val, kappa_val)
             delta = cdf_vals - q_clipped
 
             L = np.where(delta <= 0.0, theta_curr, L)
@@ -3722,7 +3725,7 @@ class vonmises_gen(CircularContinuous):
             The circular variance, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return 1 - i1(kappa) / i0(kappa)
+        return 1 - i1e(kappa) / i0e(kappa)
 
     def std(self, *args, **kwargs):
         """
@@ -3734,7 +3737,7 @@ class vonmises_gen(CircularContinuous):
             The circular standard deviation, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        r = i1(kappa) / i0(kappa)
+        r = i1e(kappa) / i0e(kappa)
 
         return np.sqrt(-2 * np.log(r))
 
@@ -3839,7 +3842,7 @@ class vonmises_gen(CircularContinuous):
                 return np.inf
             cos_term = np.cos(x - mu_param)
             sum_cos = np.sum(w * cos_term)
-            log_i0_val = np.log(i0(kappa_param))
+            log_i0_val = np.log(i0e(kappa_param)) + kappa_param
             return float(
                 -kappa_param * sum_cos + w_sum * (np.log(2.0 * np.pi) + log_i0_val)
             )
@@ -3850,7 +3853,7 @@ class vonmises_gen(CircularContinuous):
             sin_term = np.sin(x - mu_param)
             sum_sin = np.sum(w * sin_term)
             sum_cos = np.sum(w * cos_term)
-            ratio = i1(kappa_param) / i0(kappa_param)
+            ratio = i1e(kappa_param) / i0e(kappa_param)
             g_mu = kappa_param * sum_sin
             g_kappa = -sum_cos + w_sum * ratio
             return np.array([g_mu, g_kappa], dtype=float)
@@ -7379,7 +7382,7 @@ def _slmbdinv(x, lmbd):
 
 
 def _A1(kappa):
-    return i1(kappa) / i0(kappa)
+    return i1e(kappa) / i0e(kappa)
 
 
 def _c_invbatschelet(kappa, lmbd):
-- 
2.43.0


From 70479415df894e8cdc9c6f17b8b20681871f4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 39/54] fix: entropy of the von Mises distribution

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 906274c..982648c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3751,7 +3751,7 @@ class vonmises_gen(CircularContinuous):
             The entropy of the distribution.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return -np.log(i0(kappa)) + (kappa * i1(kappa)) / i0(kappa)
+        return np.log(2 * np.pi * i0e(kappa)) + kappa * (1 - i1e(kappa) / i0e(kappa))
 
     def _nnlf(self, theta, data):
         """
-- 
2.43.0


From d1384b76bbde2fbcb6434f59730be8296adb7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 40/54] fix: Cartwright density does not overflow at small zeta

---
 pycircstat2/distributions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 982648c..167f7a3 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1786,9 +1786,13 @@ class cartwright_gen(CircularContinuous):
 
     def _pdf(self, x, mu, zeta):
         return (
-            (2 ** (-1 + 1 / zeta) * (gamma(1 + 1 / zeta)) ** 2)
-            * (1 + np.cos(x - mu)) ** (1 / zeta)
-            / (np.pi * gamma(1 + 2 / zeta))
+            np.exp(
+                (2 / zeta) * np.log(2.0)
+                + 2 * gammaln(1 + 1 / zeta)
+                - gammaln(1 + 2 / zeta)
+            )
+            * (0.5 * (1 + np.cos(x - mu))) ** (1 / zeta)
+            / (2 * np.pi)
         )
 
     def pdf(self, x, mu, zeta, *args, **kwargs):
-- 
2.43.0


From 2b66465104ee8e20a4c7c5919269ae602302ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 41/54] fix: sign of the skewness of the wrapped stable
 distribution at alpha = 1

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 167f7a3..a54facb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8024,7 +8024,7 @@ class wrapstable_gen(CircularContinuous):
         rho_vals = np.exp(-((gamma * p) ** alpha))
 
         if abs(alpha - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            mu_vals = delta * p + (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
+            mu_vals = delta * p - (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
         else:
             mu_vals = delta * p + beta * np.tan(0.5 * np.pi * alpha) * (
                 (gamma * p) ** alpha - gamma * p
-- 
2.43.0


From ca1fad91d98e4be3c77ad3acd12d76aed195d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 42/54] fix: enough terms of the von Mises series at large
 kappa

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index a54facb..2f3cc4d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3422,7 +3422,7 @@ class vonmises_gen(CircularContinuous):
         term_sum = np.zeros_like(phi)
         term_base = 0.0
         tol = 1e-12
-        max_terms = 500
+        max_terms = max(500, int(10.0 * np.sqrt(kappa_val)))
         converged = False
 
         for n in range(1, max_terms + 1):
-- 
2.43.0


From d957688e00b54afe0b8abc1ec7fddf92825ce1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 43/54] fix: Cartwright CDF and quantiles do not overflow at
 small zeta

---
 pycircstat2/distributions.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2f3cc4d..e5b6adc 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5,9 +5,7 @@ import numpy as np
 from scipy.integrate import quad, quad_vec
 from scipy.interpolate import PchipInterpolator
 from scipy.optimize import minimize, minimize_scalar, brentq, root_scalar
-from scipy.special import beta as beta_fn
 from scipy.special import (
-    gamma,
     i0,
     i0e,
     i1,
@@ -1867,14 +1865,7 @@ class cartwright_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
         a = 0.5
         b = 1.0 / zeta_val + 0.5
-        const = (
-            2.0 ** (-1.0 + 1.0 / zeta_val)
-            * gamma(1.0 + 1.0 / zeta_val) ** 2
-            / (np.pi * gamma(1.0 + 2.0 / zeta_val))
-        )
-        beta_term = beta_fn(a, b)
-        half_norm = const * (2.0 ** (1.0 / zeta_val)) * beta_term  # equals 0.5
-        half_norm = float(np.clip(half_norm, np.finfo(float).tiny, None))
+        half_norm = 0.5  # the density is symmetric about mu
 
         phi_start = (-mu_val) % two_pi
         phi_end = (flat - mu_val) % two_pi
@@ -1939,13 +1930,7 @@ class cartwright_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
         a = 0.5
         b = 1.0 / zeta_val + 0.5
-        const = (
-            2.0 ** (-1.0 + 1.0 / zeta_val)
-            * gamma(1.0 + 1.0 / zeta_val) ** 2
-            / (np.pi * gamma(1.0 + 2.0 / zeta_val))
-        )
-        half_norm = const * (2.0 ** (1.0 / zeta_val)) * beta_fn(a, b)
-        half_norm = float(np.clip(half_norm, np.finfo(float).tiny, None))
+        half_norm = 0.5  # the density is symmetric about mu
 
         phi_start = (-mu_val) % two_pi
         H_start = self._cartwright_cumulative(np.array([phi_start]), a, b, half_norm)[0]
-- 
2.43.0


From 8b7d4f4e1e9f85225412e56b6d50ed260abe1c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 44/54] fix: CDFs do not jump to 1 shortly before the end of
 the support

---
 pycircstat2/distributions.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index e5b6adc..7fb4f32 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1885,10 +1885,10 @@ class cartwright_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if float(wrapped) >= 2.0 * np.pi else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        result[arr >= 2.0 * np.pi] = 1.0
         return result
 
     def cdf(self, x, mu, zeta, *args, **kwargs):
@@ -2386,9 +2386,9 @@ class wrapnorm_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if float(wrapped) >= two_pi else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[arr >= two_pi] = 1.0
             return result
 
         rho_clipped = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
@@ -2397,10 +2397,10 @@ class wrapnorm_gen(CircularContinuous):
         cdf_flat, _ = self._wrapnorm_cdf_pdf(flat, mu_val, sigma)
         if arr.ndim == 0:
             value = float(cdf_flat.reshape(-1)[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if float(wrapped) >= two_pi else value
 
         result = cdf_flat.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[arr >= two_pi] = 1.0
         return result
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -2935,9 +2935,9 @@ class wrapcauchy_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if float(wrapped) >= 2.0 * np.pi else value
         reshaped = cdf.reshape(arr.shape)
-        reshaped[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        reshaped[arr >= 2.0 * np.pi] = 1.0
         return reshaped
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -3392,9 +3392,9 @@ class vonmises_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if float(wrapped) >= two_pi else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[arr >= two_pi] = 1.0
             return result
 
         denom = i0e(kappa_val)
@@ -3437,10 +3437,10 @@ class vonmises_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if float(wrapped) >= two_pi else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[arr >= two_pi] = 1.0
         return result
 
     def cdf(self, x, mu, kappa, *args, **kwargs):
@@ -7613,7 +7613,7 @@ class wrapstable_gen(CircularContinuous):
         # Ensure exact endpoints
         two_pi = 2.0 * np.pi
         cdf_vals[np.isclose(theta_flat[0], 0.0, atol=1e-12)] = 0.0
-        cdf_vals[np.isclose(theta_flat[0], two_pi, atol=1e-12)] = 1.0
+        cdf_vals[np.isclose(theta_flat[0], two_pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_vals.reshape(-1)[0])
@@ -8213,7 +8213,7 @@ class katojones_gen(CircularContinuous):
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
-        cdf_flat[np.isclose(flat, 2.0 * np.pi, atol=1e-12)] = 1.0
+        cdf_flat[np.isclose(flat, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_flat[0])
@@ -8319,7 +8319,7 @@ class katojones_gen(CircularContinuous):
             if np.isclose(q_val, 0.0, atol=1e-12):
                 result[idx] = 0.0
                 continue
-            if np.isclose(q_val, 1.0, atol=1e-12):
+            if np.isclose(q_val, 1.0, rtol=0.0, atol=1e-12):
                 result[idx] = two_pi
                 continue
 
-- 
2.43.0


From 67073089db40750c10447cebc7cca3f69855322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 45/54] fix: wrapped stable CDF is not 1 where rounding makes
 it negative

---
 pycircstat2/distributions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 7fb4f32..62656fe 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7607,7 +7607,6 @@ class wrapstable_gen(CircularContinuous):
 
         anchor = (1.0 / np.pi) * np.sum((rho_vals / p_vals) * np.sin(-mu_vals))
         cdf_vals = cdf_vals - anchor
-        cdf_vals = np.where(cdf_vals < 0.0, cdf_vals + 1.0, cdf_vals)
         cdf_vals = np.clip(cdf_vals, 0.0, 1.0)
 
         # Ensure exact endpoints
-- 
2.43.0


From 1d3cbf60291a04a1bc240854cbea972f3e47a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 46/54] fix: Kato-Jones CDF at rho = 0 and where rounding
 leaves [0, 1]

---
 pycircstat2/distributions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 62656fe..a37a311 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8208,7 +8208,7 @@ class katojones_gen(CircularContinuous):
         else:
             series = self._get_series_terms(mu_val, gamma_val, rho_val, lam_val)
             cdf_raw = self._evaluate_cdf_series(flat, mu_val, gamma_val, rho_val, lam_val, series=series)
-            cdf_flat = np.mod(cdf_raw, 1.0)
+            cdf_flat = cdf_raw
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
@@ -8309,7 +8309,6 @@ class katojones_gen(CircularContinuous):
 
         def cdf_single(theta):
             value = self._evaluate_cdf_series(theta, mu_val, gamma_val, rho_val, lam_val, series=series)
-            value = np.mod(value, 1.0)
             return float(np.clip(value, 0.0, 1.0))
 
         for idx, q_val in enumerate(flat):
@@ -8651,7 +8650,7 @@ class katojones_gen(CircularContinuous):
         return cache[key]
 
     def _compute_series_terms(self, mu, gamma, rho, lam):
-        if gamma <= _KJ_GAMMA_TOL or rho <= _KJ_GAMMA_TOL:
+        if gamma <= _KJ_GAMMA_TOL:
             return {
                 "coeffs": np.empty(0, dtype=float),
                 "phases": np.empty(0, dtype=float),
-- 
2.43.0


From 0d89bb55bc3ce37ae39728f19096de6fc2c2a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 47/54] fix: CDFs of Cartwright, wrapped normal and wrapped
 Cauchy accept arrays of points

---
 pycircstat2/distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index a37a311..b289ef8 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1854,7 +1854,7 @@ class cartwright_gen(CircularContinuous):
 
         mu_arr = np.asarray(mu, dtype=float)
         zeta_arr = np.asarray(zeta, dtype=float)
-        if mu_arr.size != 1 or zeta_arr.size != 1:
+        if np.unique(mu_arr).size != 1 or np.unique(zeta_arr).size != 1:
             raise ValueError("cartwright parameters must be scalar-valued.")
 
         mu_val = float(mu_arr.reshape(-1)[0])
@@ -2375,7 +2375,7 @@ class wrapnorm_gen(CircularContinuous):
 
         mu_arr = np.asarray(mu, dtype=float)
         rho_arr = np.asarray(rho, dtype=float)
-        if mu_arr.size != 1 or rho_arr.size != 1:
+        if np.unique(mu_arr).size != 1 or np.unique(rho_arr).size != 1:
             raise ValueError("wrapnorm parameters must be scalar-valued.")
 
         mu_val = float(mu_arr.reshape(-1)[0])
@@ -2904,11 +2904,11 @@ class wrapcauchy_gen(CircularContinuous):
         flat = arr.reshape(-1)
 
         mu_arr = np.asarray(mu, dtype=float)
-        if mu_arr.size != 1:
+        if np.unique(mu_arr).size != 1:
             raise ValueError("wrapcauchy parameters must be scalar-valued.")
         mu_val = float(mu_arr.reshape(-1)[0])
         rho_arr = np.asarray(rho, dtype=float)
-        if rho_arr.size != 1:
+        if np.unique(rho_arr).size != 1:
             raise ValueError("wrapcauchy parameters must be scalar-valued.")
         rho_val = float(rho_arr.reshape(-1)[0])
         rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
-- 
2.43.0


From 7a1cec35bb3f978b5adc0024596f1aa333ca6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 48/54] fix: wrapped normal density for rho near 1

---
 pycircstat2/distributions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index b289ef8..8883aab 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2285,11 +2285,17 @@ class wrapnorm_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, rho):
-        return (
+        series = (
             1
             + 2
             * np.sum([rho ** (p**2) * np.cos(p * (x - mu)) for p in range(1, 30)], 0)
         ) / (2 * np.pi)
+        # the truncated series is useless for rho near 1, where a few turns of the
+        # unwrapped normal suffice
+        sigma = np.sqrt(-2 * np.log(rho))
+        diff = np.mod(x - mu + np.pi, 2 * np.pi) - np.pi
+        turns = [np.exp(-0.5 * ((diff + 2 * np.pi * k) / sigma) ** 2) for k in (-1, 0, 1)]
+        return np.where(rho > 0.8, INV_SQRT_2PI / sigma * np.sum(turns, 0), series)
 
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
-- 
2.43.0


From 878aa9e050bd1902b500a46e041f60f4f0143129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 49/54] fix: wrapped Cauchy samples are not constant for rho
 just below 1

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8883aab..063cb2d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3050,7 +3050,7 @@ class wrapcauchy_gen(CircularContinuous):
         if np.isclose(rho_val, 0.0, atol=1e-15):
             return rng.uniform(0.0, two_pi, size=size)
 
-        if np.isclose(rho_val, 1.0, atol=1e-15):
+        if rho_val >= 1.0 - 1e-15:
             angle = float(np.mod(mu_val, two_pi))
             if size is None:
                 return angle
-- 
2.43.0


From bed02a969c8505235b56146f9cc4438bb5da6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:48 +0000
Subject: [PATCH 50/54] fix: normalising constant of the Jones-Pewsey
 distribution

---
 pycircstat2/distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 063cb2d..39f7ac7 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -18,7 +18,7 @@ from scipy.special import (
     betaincinv,
     gammaln,
     digamma,
-    lpmv,
+    eval_legendre,
     logsumexp,
 )
 from scipy.stats import rv_continuous
@@ -5447,7 +5447,8 @@ def _jp_legendre_normalizer(kappa, psi):
     A = kappa * psi
     z = np.cosh(A)
     try:
-        legendre = lpmv(0, nu, z)
+        # lpmv is only accurate for arguments in [-1, 1]
+        legendre = eval_legendre(nu, z)
     except ValueError:
         return np.nan
 
-- 
2.43.0


From d6d88b97c10798fec4650ae3076f9d0ea08aa47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 51/54] fix: sine-skewed Jones-Pewsey cdf and ppf with kappa
 near zero

The density keeps its sine skew when kappa is (nearly) zero, but the cdf was
measured from xi instead of from 0, so it disagreed with the density and
jumped at the end of the support for any xi other than 0, and the quantile
function ignored lambda altogether.
---
 pycircstat2/distributions.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 39f7ac7..74df22f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5572,9 +5572,8 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
 
         if kappa_val < _JP_KAPPA_TOL:
-            phi = (flat - xi_val) % two_pi
-            base = phi / two_pi
-            skew = (1.0 - np.cos(phi)) / (2.0 * np.pi)
+            base = flat / two_pi
+            skew = (np.cos(xi_val) - np.cos(flat - xi_val)) / two_pi
             cdf = base + lmbd_val * skew
             return np.clip(cdf, 0.0, 1.0).reshape(arr.shape)
 
@@ -5650,9 +5649,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                 q_int = q_valid[interior]
                 eps = 1e-15
                 q_clipped = np.clip(q_int, eps, 1.0 - eps)
-                if kappa_val < _JP_KAPPA_TOL:
-                    theta_vals[interior] = two_pi * q_clipped
-                elif abs(lmbd_val) < 1e-12:
+                if abs(lmbd_val) < 1e-12:
                     theta_vals[interior] = jonespewsey.ppf(
                         q_clipped, mu=xi_val, kappa=kappa_val, psi=psi_val
                     )
-- 
2.43.0


From b4604e0e36325fa6c77a6a48c0ff89d61a508d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 52/54] fix: inverse Batschelet cdf does not change later
 densities

Building the table behind cdf/ppf/rvs replaced the cached normaliser of the
density by the trapezoidal one of that table (and of that table's nu), so
pdf(x) returned different values before and after a call of cdf: by 1.3 % for
kappa=5, lmbd=1.
---
 pycircstat2/distributions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 74df22f..a34d49c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7277,8 +7277,6 @@ class inverse_batschelet_gen(CircularContinuous):
             pdf *= scale
             log_norm += np.log(scale)
             mass = 1.0
-            cache = self._get_normalization_cache()
-            cache[(kappa, lmbd)] = np.exp(log_norm)
 
         avg = 0.5 * (pdf[:-1] + pdf[1:])
         cumulative = np.concatenate(([0.0], np.cumsum(avg))) * step
-- 
2.43.0


From fcf3fc15e3e05a17506dce318616493036ada6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 53/54] fix: inadmissible kappa is refused by every method of
 two families

vonmises_flattopped.pdf and inverse_batschelet.cdf/ppf clipped kappa before
the argument check, so kappa = -2 gave the uniform distribution where the
other methods return nan.
---
 pycircstat2/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index a34d49c..ca1eec0 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4013,7 +4013,7 @@ class vonmises_flattopped_gen(CircularContinuous):
             - When $\kappa = 0$, the distribution becomes uniform on $[0, 2\pi)$.
         """
         mu_val = _vmft_ensure_scalar(mu, "mu")
-        kappa_val = float(np.clip(_vmft_ensure_scalar(kappa, "kappa"), 0.0, _VMFT_KAPPA_UPPER))
+        kappa_val = _vmft_ensure_scalar(kappa, "kappa")
         nu_val = _vmft_ensure_scalar(nu, "nu")
         return super().pdf(x, mu_val, kappa_val, nu_val, *args, **kwargs)
 
@@ -6716,7 +6716,7 @@ class inverse_batschelet_gen(CircularContinuous):
             Cumulative probabilities corresponding to `x`.
         """
         xi_val = _invbat_ensure_scalar(xi, "xi")
-        kappa_val = float(np.clip(_invbat_ensure_scalar(kappa, "kappa"), 0.0, _INVBAT_KAPPA_UPPER))
+        kappa_val = _invbat_ensure_scalar(kappa, "kappa")
         nu_val = _invbat_ensure_scalar(nu, "nu")
         lmbd_val = _invbat_ensure_scalar(lmbd, "lmbd")
         return super().cdf(x, xi_val, kappa_val, nu_val, lmbd_val, *args, **kwargs)
@@ -6841,7 +6841,7 @@ class inverse_batschelet_gen(CircularContinuous):
             Angles corresponding to the probabilities in `q`.
         """
         xi_val = _invbat_ensure_scalar(xi, "xi")
-        kappa_val = float(np.clip(_invbat_ensure_scalar(kappa, "kappa"), 0.0, _INVBAT_KAPPA_UPPER))
+        kappa_val = _invbat_ensure_scalar(kappa, "kappa")
         nu_val = _invbat_ensure_scalar(nu, "nu")
         lmbd_val = _invbat_ensure_scalar(lmbd, "lmbd")
         return super().ppf(q, xi_val, kappa_val, nu_val, lmbd_val, *args, **kwargs)
-- 
2.43.0


From fb8b7da820ec904f8b8a8e1da1ce14e5a99e3d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:04 +0000
Subject: [PATCH 54/54] fix: standard deviation of inadmissible parameters is
 nan

max(0.0, nan) is 0.0, so e.g. cardioid(1, 0.7).std() reported 0.0, a point
mass, where every other summary is nan.
---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ca1eec0..885073f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -637,7 +637,7 @@ class CircularContinuous(rv_continuous):
         R = np.clip(self.r(*args, **kwargs), 0.0, 1.0)
         if np.isclose(R, 0.0, atol=1e-12):
             return float("inf")
-        return float(np.sqrt(max(0.0, -2.0 * np.log(np.clip(R, np.finfo(float).tiny, 1.0)))))
+        return float(np.sqrt(np.maximum(0.0, -2.0 * np.log(np.clip(R, np.finfo(float).tiny, 1.0)))))
 
     def dispersion(self, *args, **kwargs) -> float:
         """Circular dispersion δ̂ = (1 - ρ₂) / (2 ρ₁²)."""
@@ -701,7 +701,7 @@ class CircularContinuous(rv_continuous):
             kurt = float((r2 * np.cos(u2 - 2.0 * u1) - r1**4) / (denom_base**2))
 
         std_val = float("inf") if r1_is_zero else float(
-            np.sqrt(max(0.0, -2.0 * np.log(np.clip(r1, np.finfo(float).tiny, 1.0))))
+            np.sqrt(np.maximum(0.0, -2.0 * np.log(np.clip(r1, np.finfo(float).tiny, 1.0))))
         )
         dispersion_val = float("inf") if r1_is_zero else float((1.0 - r2) / (2.0 * r1 * r1))
 
-- 
2.43.0

