From 8375164c68c8979b3b2d123ca449ee4036ca70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 01/10] fix: rotational weight uses the square root of the
 product of the moments of inertia

---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3ca8d9b..96304c5 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -241,7 +241,7 @@ class RotationalPF(PartitionFunction):
             functions for each of the N minima in the given temperature range.
         """
         moments_product = np.prod(self.moments, axis=1)[:, None]
-        partition_function = moments_product * np.ones_like(temperature)
+        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
         partition_function /= self.symmetry_order[:, None]
 
         return partition_function
-- 
2.43.0


From 29f0495b681942d5ee0fd858a8a3e8f0da680096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 02/10] fix: sign of the logarithmic derivative of the quantum
 vibrational partition function

---
 occuprob/partitionfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 96304c5..cf7405d 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -445,7 +445,7 @@ class QuantumHarmonicPF(PartitionFunction):
         multiplied by :math:`\\beta`:
 
         .. math::
-            \\beta W_{vib,a} = \\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
+            \\beta W_{vib,a} = -\\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
                                 \\textrm{coth}(\\beta h\\nu_{a,i}/2)
 
         Parameters
@@ -466,7 +466,7 @@ class QuantumHarmonicPF(PartitionFunction):
 
         aux_w = np.multiply(exponent, coth, where=temperature > 0,
                             out=np.zeros_like(exponent))
-        part_func_w = np.sum(aux_w, axis=1)
+        part_func_w = -np.sum(aux_w, axis=1)
 
         return part_func_w
 
-- 
2.43.0


From ffc82d3846131d649b3c321e464cdf68dbb94916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 03/10] fix: rounding noise in the vanishing moment of inertia
 of linear structures

---
 occuprob/partitionfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index cf7405d..faf7d6f 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -217,7 +217,10 @@ class RotationalPF(PartitionFunction):
 
     def __init__(self, symmetry_order, moments):
         self.symmetry_order = symmetry_order
-        self.moments = np.where(moments > 0, moments, 1.)
+        # The vanishing moment of a linear structure is seldom exactly zero, so
+        # it is identified by its size relative to the largest moment
+        threshold = 1.e-6 * np.amax(moments, axis=1, keepdims=True)
+        self.moments = np.where(moments > threshold, moments, 1.)
 
     def calc_part_func(self, temperature):
         """
-- 
2.43.0


From eb9124f1320cbdb631698c8500ccea29987f55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 04/10] fix: classical vibrational weights of structures with
 hundreds of modes leave the double range

---
 occuprob/partitionfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index faf7d6f..375a18a 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -312,7 +312,9 @@ class ClassicalHarmonicPF(PartitionFunction):
     """
 
     def __init__(self, frequencies):
-        self.frequencies = frequencies
+        # Frequencies array is cast to long double type to avoid overflows for
+        # large numbers of vibrational modes
+        self.frequencies = frequencies.astype(np.longdouble)
         self.num_vib = frequencies.shape[1]  # Number of vibrational modes
 
     def calc_part_func(self, temperature):
-- 
2.43.0


From 32a3c3b79993d6bf76c44b1bbc583cad53296215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 05/10] fix: heat capacity of an empty superposition is None
 instead of a TypeError

---
 occuprob/superpositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index d79dbcd..bf15a03 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,6 +225,9 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        if part_func_d['w'] is None or part_func_d['v'] is None:
+            return None
+
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                          self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                          self.calc_ensemble_average(temperature, part_func_d['w'])**2)
-- 
2.43.0


From 882a18430b3e41f05314a2f23b169b081df0bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 06/10] fix: plot file name when the output path contains 'dat'

---
 occuprob/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 91b771c..e1920eb 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -167,7 +167,7 @@ def main():
         save_results(results[key], temperature, outfile)
 
         if args.plot:
-            plotfile = outfile.replace('dat', args.plot_format.lower())
+            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
             plot_results(results[key], key, temperature, plotfile, args.size)
 
 
-- 
2.43.0


From 937a7421e1f09b7c6de6a14d24ec55f0355ec6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 07/10] fix: result file name when a directory of the input
 path contains '.xyz'

---
 occuprob/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index e1920eb..ed7c9e0 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -23,6 +23,7 @@
 # SOFTWARE.
 
 import argparse
+import re
 
 import numpy as np
 
@@ -162,7 +163,7 @@ def main():
         if args.out_file:
             outfile = args.out_file + '_' + key + '.dat'
         else:
-            outfile = args.in_file.replace('.xyz', '_') + key + '.dat'
+            outfile = re.sub(r'\.xyz$', '_', args.in_file) + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
-- 
2.43.0


From 18c85ed40e603c211f863c85ec4455a23394b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 08/10] fix: temperature grid exceeds max_temp when the range
 is not a whole number of kelvin

---
 occuprob/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index ed7c9e0..8fd1203 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -149,6 +149,7 @@ def main():
         superposition.add_partition_functions(partition_functions)
 
         temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
+        temperature = temperature[temperature <= args.max_temp]
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0


From 8684c8f976cd92456ca605a90cf6f1233110fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 09/10] fix: comparison of dictionaries holding arrays of
 different shapes

---
 occuprob/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/utils.py b/occuprob/utils.py
index 3c88696..742314a 100644
--- a/occuprob/utils.py
+++ b/occuprob/utils.py
@@ -103,4 +103,5 @@ def compare_numpy_dictionaries(dict1, dict2):
     if dict1.keys() != dict2.keys():
         return False
 
-    return all(np.allclose(dict1[key], dict2[key]) for key in dict1)
+    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and
+               np.allclose(dict1[key], dict2[key]) for key in dict1)
-- 
2.43.0


From 382698d964dbf27e9264ef29a7696f06ec273e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 10/10] fix: max_temp missing from the grid when rounding
 pushes it past the limit

---
 occuprob/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 8fd1203..b190407 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -148,8 +148,11 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
-        temperature = temperature[temperature <= args.max_temp]
+        # The limit itself belongs to the grid when it is a whole number of
+        # kelvins away, regardless of rounding (e.g. from 1.2 to 4.2)
+        num_steps = np.floor(args.max_temp - args.min_temp + 1.e-9)
+        temperature = args.min_temp + np.arange(num_steps + 1.)
+        temperature = np.minimum(temperature, args.max_temp)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0

