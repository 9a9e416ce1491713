From d4be13e31bdb9487726eee3a9a8c99ba06879508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 01/17] fix: honour trade directions and prices given as any
 array-like in spreads and price impact

---
 src/frds/measures/price_impact.py | 6 ++++--
 src/frds/measures/spread.py       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 40b8d53..9fe63e0 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -25,11 +25,12 @@ def simple_price_impact(
     Returns:
         float: simple price impact
     """
+    price = np.asarray(price)
     midpoint_later = np.asarray(midpoint_later)
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
-    assert midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(midpoint_later - midpoint) / midpoint * 100
@@ -37,6 +38,7 @@ def simple_price_impact(
             spread = 2 * np.absolute(np.log(midpoint_later) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert midpoint.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100
diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index 30504c2..ab90809 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -50,7 +50,7 @@ def effective_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint) / midpoint * 100
@@ -58,6 +58,7 @@ def effective_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint) / midpoint * 100
@@ -98,7 +99,7 @@ def realized_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint_later) / midpoint * 100
@@ -106,6 +107,7 @@ def realized_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint_later))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint_later) / midpoint * 100
-- 
2.43.0


From fabcd535236e1fb8f5173410a5b7bf7c2c7e764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 02/17] fix: use the sample correlation matrix as Q_bar in the
 compiled DCC recursion

---
 src/frds/algorithms/utils/mgarch.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/frds/algorithms/utils/mgarch.hpp b/src/frds/algorithms/utils/mgarch.hpp
index 7db5f1f..8fb708c 100644
--- a/src/frds/algorithms/utils/mgarch.hpp
+++ b/src/frds/algorithms/utils/mgarch.hpp
@@ -25,17 +25,22 @@ std::vector<double> conditional_correlations(double a, double b,
             std::sqrt(*((double *)PyArray_GETPTR1(sigma2_2, t)));
   }
 
-  // Compute Q_bar (correlation matrix)
-  // Since z1 z2 have zero mean, covariance matrix is same as correlation matrix
-  double q_11_bar = 0.0, q_12_bar = 0.0, q_22_bar = 0.0;
+  // Compute Q_bar, the sample correlation matrix of z1 and z2
+  double mean1 = 0.0, mean2 = 0.0;
   for (int t = 0; t < T; ++t) {
-    q_11_bar += z1[t] * z1[t];
-    q_12_bar += z1[t] * z2[t];
-    q_22_bar += z2[t] * z2[t];
+    mean1 += z1[t];
+    mean2 += z2[t];
   }
-  q_11_bar /= T;
-  q_12_bar /= T;
-  q_22_bar /= T;
+  mean1 /= T;
+  mean2 /= T;
+  double var1 = 0.0, var2 = 0.0, cov12 = 0.0;
+  for (int t = 0; t < T; ++t) {
+    var1 += (z1[t] - mean1) * (z1[t] - mean1);
+    var2 += (z2[t] - mean2) * (z2[t] - mean2);
+    cov12 += (z1[t] - mean1) * (z2[t] - mean2);
+  }
+  double q_11_bar = 1.0, q_22_bar = 1.0;
+  double q_12_bar = cov12 / std::sqrt(var1) / std::sqrt(var2);
 
   // Initialize q11, q12, q22
   std::vector<double> q11(T);
-- 
2.43.0


From 8a8ec2a2c5cea7a4fd97e3c8a6e911727d57ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 03/17] fix: honour strides and check sizes in the compiled
 GARCH functions

---
 src/frds/algorithms/utils/utils_module.cpp | 99 ++++++++++++++++++++++
 1 file changed, 99 insertions(+)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index dba85ae..f9f4ab2 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -13,6 +13,31 @@
 
 #include "numpy/arrayobject.h"
 
+// Contiguous double array with the elements of `array` (new reference)
+static PyArrayObject *as_contiguous(PyArrayObject *array) {
+  return (PyArrayObject *)PyArray_FROM_OTF((PyObject *)array, NPY_DOUBLE,
+                                           NPY_ARRAY_IN_ARRAY);
+}
+
+// Checks the sizes that the variance recursions rely on
+static bool check_sizes(const std::vector<double> &params, size_t n_params,
+                        PyArrayObject *resids, PyArrayObject *var_bounds) {
+  if (PyErr_Occurred()) {
+    return false;
+  }
+  if (params.size() != n_params) {
+    PyErr_SetString(PyExc_ValueError, "Invalid number of parameters");
+    return false;
+  }
+  if (PyArray_DIM(resids, 0) < 1 ||
+      PyArray_DIM(var_bounds, 0) < PyArray_DIM(resids, 0) ||
+      PyArray_DIM(var_bounds, 1) != 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return false;
+  }
+  return true;
+}
+
 // The wrapper function to be called from Python
 static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
   PyArrayObject *resids_in;
@@ -24,11 +49,24 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  // Check dimensions
+  if (PyArray_NDIM(resids_in) != 1 || PyArray_DIM(resids_in, 0) < 1) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+
+  // The core function needs contiguous data
+  resids_in = as_contiguous(resids_in);
+  if (resids_in == NULL) {
+    return NULL;
+  }
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
   PyObject *variance_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
   if (variance_out == NULL) {
+    Py_DECREF(resids_in);
     return NULL;
   }
 
@@ -37,6 +75,7 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
        (double *)PyArray_DATA((PyArrayObject *)variance_out), T, initial_value,
        lam);
 
+  Py_DECREF(resids_in);
   return variance_out;
 }
 
@@ -51,6 +90,14 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
   }
 
   // Extract lower and upper bounds
+  if (PyArray_NDIM(var_bounds_in) != 1 || PyArray_DIM(var_bounds_in, 0) < 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+  var_bounds_in = as_contiguous(var_bounds_in);
+  if (var_bounds_in == NULL) {
+    return NULL;
+  }
   double *bounds_ptr = (double *)PyArray_DATA(var_bounds_in);
   double lower = bounds_ptr[0];
   double upper = bounds_ptr[1];
@@ -58,6 +105,7 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
   // Call the core bounds_check function
   double result = bounds_check(sigma2, lower, upper);
 
+  Py_DECREF(var_bounds_in);
   return PyFloat_FromDouble(result);
 }
 
@@ -84,6 +132,9 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   // Extract parameters
   std::vector<double> params;
   PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return NULL;
+  }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
@@ -91,11 +142,26 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   }
   Py_DECREF(iter);
 
+  if (!check_sizes(params, 3, resids_in, var_bounds_in)) {
+    return NULL;
+  }
+
+  // The core function needs contiguous data
+  resids_in = as_contiguous(resids_in);
+  var_bounds_in = as_contiguous(var_bounds_in);
+  if (resids_in == NULL || var_bounds_in == NULL) {
+    Py_XDECREF(resids_in);
+    Py_XDECREF(var_bounds_in);
+    return NULL;
+  }
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
   PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
   if (sigma2_out == NULL) {
+    Py_DECREF(resids_in);
+    Py_DECREF(var_bounds_in);
     return NULL;
   }
 
@@ -105,6 +171,8 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
                          (double *)PyArray_DATA(var_bounds_in), T, params,
                          backcast);
 
+  Py_DECREF(resids_in);
+  Py_DECREF(var_bounds_in);
   return sigma2_out;
 }
 
@@ -131,6 +199,9 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   // Extract parameters
   std::vector<double> params;
   PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return NULL;
+  }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
@@ -138,11 +209,26 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   }
   Py_DECREF(iter);
 
+  if (!check_sizes(params, 4, resids_in, var_bounds_in)) {
+    return NULL;
+  }
+
+  // The core function needs contiguous data
+  resids_in = as_contiguous(resids_in);
+  var_bounds_in = as_contiguous(var_bounds_in);
+  if (resids_in == NULL || var_bounds_in == NULL) {
+    Py_XDECREF(resids_in);
+    Py_XDECREF(var_bounds_in);
+    return NULL;
+  }
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
   PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
   if (sigma2_out == NULL) {
+    Py_DECREF(resids_in);
+    Py_DECREF(var_bounds_in);
     return NULL;
   }
 
@@ -152,6 +238,8 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
                             (double *)PyArray_DATA(var_bounds_in), T, params,
                             backcast);
 
+  Py_DECREF(resids_in);
+  Py_DECREF(var_bounds_in);
   return sigma2_out;
 }
 
@@ -169,6 +257,17 @@ static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
     return NULL;
   }
 
+  // Check dimensions
+  PyArrayObject *inputs[4] = {resids1, resids2, sigma2_1, sigma2_2};
+  for (PyArrayObject *input : inputs) {
+    if (PyArray_NDIM(input) != 1 || PyArray_DIM(input, 0) < 1 ||
+        PyArray_DIM(input, 0) != PyArray_DIM(resids1, 0) ||
+        PyArray_TYPE(input) != NPY_DOUBLE) {
+      PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+      return NULL;
+    }
+  }
+
   std::vector<double> rho =
       DCC::conditional_correlations(a, b, resids1, resids2, sigma2_1, sigma2_2);
 
-- 
2.43.0


From fbf8757f806d8a5d273e02709e77aa40663aa715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 04/17] fix: return the estimates when an estimated (GJR-)GARCH
 model is fitted again

---
 src/frds/algorithms/_garch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9857305..d5911dd 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -56,7 +56,7 @@ class GARCHModel:
         """
         # No repeated estimation?
         if self.estimation_success:
-            return
+            return self.parameters
 
         starting_vals = self.preparation()
 
@@ -359,6 +359,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
         """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
         starting_vals = self.preparation()
 
         bounds = [
-- 
2.43.0


From d7e1e8fec866e1b2cc19847004fce7e744247886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 05/17] fix: start the (GJR-)GARCH and DCC estimations from the
 grid point with the highest likelihood

---
 src/frds/algorithms/_garch.py  | 8 ++++++--
 src/frds/algorithms/_mgarch.py | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index d5911dd..fd46c4a 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -229,7 +229,9 @@ class GARCHModel:
             sigma2 = self.compute_variance(
                 params, resids, self.backcast_value, self.var_bounds
             )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
                 initial_params = params
         return initial_params
 
@@ -497,7 +499,9 @@ class GJRGARCHModel(GARCHModel):
             omega = var * (1 - p)
             params = [omega, alpha, gamma, beta]
             sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
                 initial_params = params
         return initial_params
 
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c2c8a14..f38fdf3 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -313,6 +313,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 continue
             ll = -self.loglikelihood_model([a, b])
             if ll > max_ll:
+                max_ll = ll
                 initial_values = [a, b]
         return initial_values
 
-- 
2.43.0


From 4b1c0babffc7ab3dbcd98b528d3a411af171cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 06/17] fix: store the conditional variances of the fitted
 parameters, not of the optimiser's last evaluation

---
 src/frds/algorithms/_garch.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index fd46c4a..a0fb676 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -98,6 +98,10 @@ class GARCHModel:
                 else:
                     self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                 self.resids = self.returns - self.parameters.mu
+                # The last evaluation of the objective may not be at the solution
+                self.sigma2 = self.compute_variance(
+                    opt.x[-3:], self.resids, self.backcast_value, self.var_bounds
+                )
 
         return self.parameters
 
@@ -408,6 +412,10 @@ class GJRGARCHModel(GARCHModel):
                         *list(opt.x), loglikelihood=-opt.fun
                     )
                 self.resids = self.returns - self.parameters.mu
+                # The last evaluation of the objective may not be at the solution
+                self.sigma2 = self.compute_variance(
+                    opt.x[-4:], self.resids, self.backcast_value, self.var_bounds
+                )
 
         return self.parameters
 
-- 
2.43.0


From 6505c6547115b8b2700d1c20393f4521190e16b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 07/17] fix: aggregate SRISK of a single firm without a
 systemic event

---
 src/frds/measures/_srisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index b709b6c..2819e02 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -94,4 +94,4 @@ class SRISK:
         if not aggregate_srisk:
             return srisk
         else:
-            return np.sum(srisk.clip(min=0.0))
+            return np.sum(np.maximum(srisk, 0.0))
-- 
2.43.0


From 2290bf59bc989246054c4a8f9adba1b6963a7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 08/17] fix: DIP threshold slot, largest loss slot and zero
 tail probability

The threshold was truncated (0.29*100 -> 28), a loss in the last interval
indexed past the end, and no loss beyond the threshold gave NaN.
---
 .../measures/_distress_insurance_premium.py   | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 37dea74..cbb2542 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -67,7 +67,8 @@ class DistressInsurancePremium:
         intervals = 100
         loss_given_default *= intervals
 
-        prob_losses = np.zeros(n_banks * intervals)
+        # A loss can be as large as N, so there is one slot more than intervals
+        prob_losses = np.zeros(n_banks * intervals + 1)
         for i in range(n_banks):
             for j in range(n_simulations):
                 # Multiply losses_given_default(i,j) by intervals to find the right slot
@@ -77,14 +78,10 @@ class DistressInsurancePremium:
 
         # Convert to probabilities
         prob_losses = prob_losses / n_simulations
-        pct_threshold = int(default_threshold * 100)
+        # The first interval at or above the threshold
+        first = math.ceil(default_threshold * intervals * n_banks - 1e-9)
 
-        # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
-        prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
-
-        exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks)),
-            prob_losses[pct_threshold * n_banks :],
-        ) / (100 * prob_great_losses)
-
-        return exp_losses * prob_great_losses
+        # Expected losses beyond e.g. 0.15 of the total liabilities i.e. > 0.15*N
+        return np.dot(
+            np.arange(first, intervals * n_banks + 1), prob_losses[first:]
+        ) / intervals
-- 
2.43.0


From bc8f7b1e2f4a09181a3c9d493860ed017e37c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 09/17] fix: PIN accepts only finite optima and resets the
 success flag

The first successful run was accepted even with an infinite or undefined
likelihood, and a failed re-estimation kept reporting success.
---
 src/frds/measures/_probability_of_informed_trading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index b7e804b..df5ffe6 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -73,6 +73,7 @@ class PIN:
 
         # Reset params
         self.parameters = type(self).Parameters()
+        self.estimation_success = False
         if method == "EHO2010":
             func = self.loglikelihood_EHO2010
         elif method == "LK2011":
@@ -93,7 +94,7 @@ class PIN:
                     method="L-BFGS-B",
                     bounds=bounds,
                 )
-                if opt.success:
+                if opt.success and np.isfinite(opt.fun):
                     loglikelihood = self.parameters.loglikelihood
                     if np.isnan(loglikelihood) or (-opt.fun<np.inf and -opt.fun > loglikelihood):
                         self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-- 
2.43.0


From c4e6ac4034b11d32dbebf97054619591f32aedad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 10/17] fix: import blsprice from the module that defines it

frds.measures.option_price does not exist, so no modified Merton module could
be imported.
---
 src/frds/measures/modified_merton/find_face_value_indiv.py | 2 +-
 src/frds/measures/modified_merton/merton_solution.py       | 2 +-
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/find_face_value_indiv.py b/src/frds/measures/modified_merton/find_face_value_indiv.py
index 19de9fa..eafb1f3 100644
--- a/src/frds/measures/modified_merton/find_face_value_indiv.py
+++ b/src/frds/measures/modified_merton/find_face_value_indiv.py
@@ -1,5 +1,5 @@
 import numpy as np
-from frds.measures.option_price import blsprice
+from frds.measures._option_price import blsprice
 
 
 def find_face_value_indiv(
diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index d844421..36a4090 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -3,7 +3,7 @@ from scipy.optimize import fsolve
 from scipy.stats import norm
 from typing import Tuple
 
-from frds.measures.option_price import blsprice
+from frds.measures._option_price import blsprice
 
 
 def merton_solution(
diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 07c3835..de318db 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,7 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
-from frds.measures.option_price import blsprice
+from frds.measures._option_price import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
 from frds.measures.modified_merton.mod_merton_create_lookup import (
-- 
2.43.0


From bc376758613d9c310584f1dc3726ee8a40ae471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 11/17] fix: Merton solution penalises the negative trial value
 itself

The penalty was computed from the values already reset to zero, so it was
always zero.
---
 src/frds/measures/modified_merton/merton_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index 36a4090..61364cc 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -53,7 +53,7 @@ def merton_solution(
     # A includes PV(div), but B-S derivative prices don't
     # Merton asset volatility too high
 
-    penalty = esig * sig**2 + eA * A**2
+    penalty = esig * x[1] ** 2 + eA * x[0] ** 2
     err = (E - C + penalty, sigE - v + penalty)
 
     return err
-- 
2.43.0


From 5df0fb03ded9c3186edf088eb9da95bbdd671a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 12/17] fix: grow every isolation tree on its own fresh sample
 and random engine, whatever the number of workers

---
 .../isolation_forest/IsolationForest.cpp      | 26 +++++++++----------
 .../isolation_forest/IsolationForest.hpp      | 11 ++++----
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 576d94b..4fd8870 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -11,7 +11,7 @@
 
 void IsolationForest::growTree(std::vector<size_t> &sample,
                                std::unique_ptr<IsolationTree::Node> &node,
-                               int const height, std::mt19937_64 randomGen) {
+                               int const height, std::mt19937_64 &randomGen) {
   auto nObs = sample.size();
   if ((nObs <= 1) || (height >= this->maxTreeHeight)) {
     node = std::make_unique<IsolationTree::Node>(-1, NAN, nullptr, true, nObs);
@@ -94,7 +94,7 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       nObs(PyArray_DIM(num_data, 1)) {
   this->num_data = num_data;
   this->char_data = char_data;
-  this->trees.reserve(forestSize);
+  this->trees.resize(forestSize);
   this->anomalyScores.resize(this->nObs);
   // this->randomGen = std::mt19937_64(randomSeed);
   this->uniformDist =
@@ -145,30 +145,28 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const unsigned int thread_id,
-                                  const unsigned int jobs) {
-  return std::thread([this, thread_id, jobs] {
+std::thread IsolationForest::grow(const size_t start_tree, const size_t n) {
+  return std::thread([this, start_tree, n] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
-    std::vector<size_t> sample;
     // Make use of nObs and randomSeed in later random engine init
     auto random_offset =
         this->nObs %
         (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
-    for (size_t i = thread_id * jobs; i < thread_id * jobs + jobs; i++) {
+    for (size_t i = start_tree; i < start_tree + n; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      std::mt19937_64 randomGen(i + random_offset);
+      std::vector<size_t> sample;
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
       growTree(sample, tree->root, 0, randomGen);
-      this->mylock.lock();
-      this->trees.push_back(std::move(tree));
-      this->mylock.unlock();
+      // no need to lock because a tree is grown in one thread
+      this->trees[i] = std::move(tree);
     }
   });
 };
@@ -180,12 +178,14 @@ void IsolationForest::grow() {
 
   Py_BEGIN_ALLOW_THREADS
 
-      for (size_t i = 0; i < this->workers; i++) {
+      size_t start_tree = 0;
+  for (size_t i = 0; i < this->workers; i++) {
     auto jobs =
         i == 0 ? this->forestSize - jobs_per_processor * (this->workers - 1)
                : jobs_per_processor;
-    auto t = this->grow(i, jobs);
+    auto t = this->grow(start_tree, jobs);
     ts.push_back(std::move(t));
+    start_tree += jobs;
   }
 
   for (auto &t : ts) {
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e7c2ffd..ebca7b1 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -2,8 +2,8 @@
 #define FRDS_ALGO_ISOLATION_FOREST_H
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
+#include <algorithm>
 #include <memory>
-#include <mutex>
 #include <random>
 #include <thread>
 #include <vector>
@@ -50,9 +50,10 @@ class IsolationForest {
   std::uniform_int_distribution<size_t> uniformDist;
   const size_t treeSize, forestSize, randomSeed, maxTreeHeight;
   const size_t n_num_attrs, n_char_attrs, nObs;
-  const unsigned int workers = std::thread::hardware_concurrency();
+  // hardware_concurrency() is 0 if it is unknown
+  const unsigned int workers =
+      std::max(1u, std::thread::hardware_concurrency());
   std::vector<std::unique_ptr<IsolationTree>> trees;
-  std::mutex mylock;
 
   /* methods */
   inline double averagePathLength(size_t const &nObs);
@@ -60,8 +61,8 @@ class IsolationForest {
                     std::unique_ptr<IsolationTree::Node> &node, int length = 0);
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
-                std::mt19937_64 randomGen);
-  std::thread grow(const unsigned int thread_id, const unsigned int jobs);
+                std::mt19937_64 &randomGen);
+  std::thread grow(const size_t start_tree, const size_t n);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
-- 
2.43.0


From b4a2e7783e61738d46e87e080ef7c57a7c4c7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 13/17] fix: send missing values down the branch the isolation
 tree was grown with

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 4fd8870..57f73f6 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -123,7 +123,9 @@ double IsolationForest::pathLength(size_t const &ob,
   if (node->splitAttribute < this->n_num_attrs) {
     DataType val =
         *(DataType *)PyArray_GETPTR2(this->num_data, node->splitAttribute, ob);
-    if (val < node->splitValue) {
+    // Same rule as in growTree: NAN is "smaller" than any value
+    if (isnan(node->splitValue) ? isnan(val)
+                                : (isnan(val) || val < node->splitValue)) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From d65c88746895c37906ae3768d54bf718cddf1ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 14/17] fix: do not read past the cells of string columns in
 the isolation forest

---
 .../isolation_forest/IsolationForest.cpp         | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 57f73f6..c07a86b 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstring>
 #include <iterator>
 #include <numeric>
 
@@ -57,16 +58,18 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
     // The datatype of the attribute is string
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, attr - this->n_num_attrs, sample[dist(randomGen)]);
-    const auto val_len = strlen(val);
+    // A string that fills its cell is not followed by a NUL
+    const size_t cell_size = PyArray_ITEMSIZE(this->char_data);
+    const auto val_len = strnlen(val, cell_size);
     for (auto &i : sample) {
       auto obsVal = (CharDataType)PyArray_GETPTR2(this->char_data,
                                                   attr - this->n_num_attrs, i);
-      const auto obsVal_len = strlen(obsVal);
+      const auto obsVal_len = strnlen(obsVal, cell_size);
       if (obsVal_len < val_len) {
         lobs.push_back(i);
       } else if (obsVal_len > val_len) {
         robs.push_back(i);
-      } else if (strcmp(obsVal, val) < 0) {
+      } else if (memcmp(obsVal, val, val_len) < 0) {
         lobs.push_back(i);
       } else {
         robs.push_back(i);
@@ -133,13 +136,14 @@ double IsolationForest::pathLength(size_t const &ob,
   } else {
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, node->splitAttribute - this->n_num_attrs, ob);
-    const auto val_len = strlen(val);
-    const auto splitVal_len = strlen(node->splitChar);
+    const size_t cell_size = PyArray_ITEMSIZE(this->char_data);
+    const auto val_len = strnlen(val, cell_size);
+    const auto splitVal_len = strnlen(node->splitChar, cell_size);
     if (val_len < splitVal_len) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else if (val_len > splitVal_len) {
       return this->pathLength(ob, node->rnode, length + 1);
-    } else if (strcmp(val, node->splitChar) < 0) {
+    } else if (memcmp(val, node->splitChar, val_len) < 0) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 03851f7adb9271e95083bc66e77b96a8477a64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:06 +0000
Subject: [PATCH 15/17] fix: reject isolation forests without trees, samples or
 columns instead of reading invalid memory

---
 .../algorithms/isolation_forest/iforest_module.cpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index a044a4a..39f2765 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -40,6 +40,18 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  if (forestSize < 1 || treeSize < 1) {
+    PyErr_SetString(PyExc_ValueError, "Forest and tree size must be positive");
+  } else if (PyArray_DIM(num_arr, 0) + PyArray_DIM(char_arr, 0) < 1) {
+    PyErr_SetString(PyExc_ValueError, "No columns to isolate observations by");
+  }
+  if (PyErr_Occurred()) {
+    Py_DECREF(num_arr);
+    Py_DECREF(char_arr);
+    Py_DECREF(outArr);
+    return NULL;
+  }
+
   // number of obervations
   auto nObs = PyArray_DIM(num_arr, 1);
 
-- 
2.43.0


From ef7368173cbef90a4530e1f11f0be33bf6992ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 16/17] fix: the single-cohort error function leaves the
 caller's parameters alone

---
 src/frds/measures/modified_merton/mod_single_cohort_solution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/modified_merton/mod_single_cohort_solution.py b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
index e7c5ee3..8c989f5 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_solution.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
@@ -5,6 +5,7 @@ from frds.measures.modified_merton.mod_single_cohort_computation import (
 
 def mod_single_cohort_solution(b, param, N, Nsim2, E, sigE):
     fs = b[0]
+    param = list(param)  # the caller's parameters are left as they are
     param[2] = b[1]
 
     # fmt: off
-- 
2.43.0


From 5a8c6eb28cff810d02f38b82a9dfe8e28705dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 17/17] fix: GARCH variance recursions and forecast keep
 fractions when the residuals are integers

---
 src/frds/algorithms/_garch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index a0fb676..59e5dfd 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -195,7 +195,7 @@ class GARCHModel:
         if USE_CPP_EXTENSION:
             return ext.compute_garch_variance(params, resids, backcast, var_bounds)
         omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = omega + (alpha + beta) * backcast
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
@@ -441,7 +441,7 @@ class GJRGARCHModel(GARCHModel):
             return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
         # fmt: off
         omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
@@ -467,7 +467,7 @@ class GJRGARCHModel(GARCHModel):
         """
         # fmt: off
         omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = initial_variance
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-- 
2.43.0

