From ea402040945a703abbd0549a1bf6fa040e1d275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 01/58] fix: umath.frexp() of a number with uncertainty has a
 readable uncertainty

---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fde92fe..b0580cd 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -395,7 +395,7 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([2**-exponent, aff_func._linear_part])),
+                LinearCombination([(2**-exponent, aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From 98f596e50ce09dce59eef679160c2ebbb86bbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 02/58] fix: int % (number with uncertainty) does not raise
 TypeError

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818615e..f616adc 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2521,7 +2521,7 @@ def get_ops_with_reflection():
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
+        'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y**2")
-- 
2.43.0


From 8906dc97a29a8d444005387006d5613d23e36e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 03/58] fix: division by very large or very small numbers with
 uncertainties

y**2 raised OverflowError, or underflowed to 0 (ZeroDivisionError), for
divisors beyond about 1e+-154, even when the quotient and its derivative
were both representable.
---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f616adc..79fd19e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2517,14 +2517,14 @@ def get_ops_with_reflection():
         # effect.  Since '/' is applied to
         # AffineScalarFunc._nominal_value numbers, it is applied on
         # floats, and is therefore the "usual" mathematical division.
-        'div': ("1/y", "-x/y**2"),
+        'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
         'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
-        'truediv': ("1/y", "-x/y**2")
+        'truediv': ("1/y", "-x/y/y")
         }
 
     # Conversion to Python functions:
-- 
2.43.0


From 2523c97b382018f333eba6c1c463aec3e57dd69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 04/58] fix: minus infinity is refused as a standard deviation

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 79fd19e..af13f78 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2783,7 +2783,7 @@ class Variable(AffineScalarFunc):
         # (Note: if NaN < 0 is False, there is no need to test
         # separately for NaN. But this is not guaranteed, even if it
         # should work on most platforms.)
-        if std_dev < 0 and not isinfinite(std_dev):
+        if std_dev < 0 and not isnan(std_dev):
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From 6ff80abe834e18079dc55aa1ac3b16c9c05ecbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 05/58] fix: ufloat_fromstr() refuses numbers with an empty
 exponent

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index af13f78..dbd346f 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3022,7 +3022,7 @@ def parse_error_in_parentheses(representation):
                              % representation)
 
     # Global exponent:
-    if exponent:
+    if exponent is not None:  # An empty exponent ("1.2e") is invalid
         factor = 10.**nrmlze_superscript(exponent)
     else:
         factor = 1
-- 
2.43.0


From e57fd4884a25d11e9b2de1ea4dd11c8cf90a033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 06/58] fix: unumpy.arcsinh() is available under its NumPy name

---
 uncertainties/unumpy/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 3507db4..31083d2 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -673,7 +673,8 @@ def define_vectorized_funcs():
     # module:
     func_name_translations = dict([
         (f_name, 'arc'+f_name[1:])
-        for f_name in ['acos', 'acosh', 'asin', 'atan', 'atan2', 'atanh']])
+        for f_name in ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2',
+                       'atanh']])
 
     new_func_names = [
         func_name_translations.get(function_name, function_name)
@@ -726,3 +727,7 @@ Original documentation:
         __all__.append(unumpy_name)
 
 define_vectorized_funcs()
+
+# unumpy.arcsinh() used to be only available under its math module name:
+asinh = arcsinh
+__all__.append('asinh')
-- 
2.43.0


From 1d79568ae722f5f489d26fe64fd61e00b657dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 07/58] fix: interrupted or concurrent reads do not corrupt
 numbers with uncertainties

Reading the uncertainty of a result emptied its linear combination in
place: an exception during the calculation (KeyboardInterrupt, MemoryError),
or a simultaneous read by another thread, silently lost terms.
---
 uncertainties/core.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index dbd346f..776fe45 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1547,7 +1547,17 @@ class LinearCombination(object):
         # Final derivatives, constructed progressively:
         derivatives = collections.defaultdict(float)
 
-        while self.linear_combo:  # The list of terms is emptied progressively
+        # The terms are copied because the current representation of
+        # self must remain valid until it is replaced by the final
+        # one: the expansion can be interrupted (KeyboardInterrupt...),
+        # and self can be concurrently read by another thread (which
+        # might even expand it, or any of its sub-expressions, first).
+        terms = self.linear_combo
+        if isinstance(terms, dict):
+            return
+        terms = list(terms)
+
+        while terms:  # The list of terms is emptied progressively
 
             # One of the terms is expanded or, if no expansion is
             # needed, simply added to the existing derivatives.
@@ -1559,21 +1569,27 @@ class LinearCombination(object):
             # remaining terms allows this term to be quickly put in
             # the final result, which limits the number of terms
             # remaining (and whose size can temporarily grow):
-            (main_factor, main_expr) = self.linear_combo.pop()
+            (main_factor, main_expr) = terms.pop()
 
             # print "MAINS", main_factor, main_expr
 
-            if main_expr.expanded():
-                for (var, factor) in main_expr.linear_combo.items():
+            main_combo = main_expr.linear_combo
+
+            if isinstance(main_combo, dict):  # Expanded form
+                for (var, factor) in main_combo.items():
                     derivatives[var] += main_factor*factor
 
             else:  # Non-expanded form
-                for (factor, expr) in main_expr.linear_combo:
+                for (factor, expr) in main_combo:
                     # The main_factor is applied to expr:
-                    self.linear_combo.append((main_factor*factor, expr))
+                    terms.append((main_factor*factor, expr))
 
             # print "DERIV", derivatives
 
+        # Attempts to get the contribution of a variable that the
+        # function does not depend on raise a KeyError:
+        derivatives.default_factory = None
+
         self.linear_combo = derivatives
 
     def __getstate__(self):
@@ -1696,9 +1712,6 @@ class AffineScalarFunc(object):
 
         if not self._linear_part.expanded():
             self._linear_part.expand()
-            # Attempts to get the contribution of a variable that the
-            # function does not depend on raise a KeyError:
-            self._linear_part.linear_combo.default_factory = None
 
         return self._linear_part.linear_combo
 
-- 
2.43.0


From 2a36cd35e5a67df96c966796e34abf84ee6ffd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 08/58] fix: numbers with uncertainties from long calculations
 can be pickled and copied

Pickling or deep-copying the result of a long sum raised RecursionError,
unless its uncertainty had been read before.
---
 uncertainties/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 776fe45..9e3eebd 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1593,6 +1593,11 @@ class LinearCombination(object):
         self.linear_combo = derivatives
 
     def __getstate__(self):
+        # The nesting of a non-expanded linear combination can be
+        # arbitrarily deep (sums of many terms...), which the
+        # (recursive) pickle and copy modules cannot handle:
+        if not self.expanded():
+            self.expand()
         # Not false, otherwise __setstate__() will not be called:
         return (self.linear_combo,)
 
-- 
2.43.0


From 1331fbfe278cc8f1d090d4515435d2e1f541c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 09/58] fix: exact variables do not contribute to covariances,
 even with NaN derivatives

---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 9e3eebd..4aa653c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2929,7 +2929,10 @@ def covariance_matrix(nums_with_uncert):
                 ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
                 # var is a variable common to both numbers with
                 # uncertainties:
-                for var in vars1.intersection(derivatives2)),
+                for var in vars1.intersection(derivatives2)
+                # Exact variables never contribute, even with a NaN
+                # derivative (see error_components()):
+                if var._std_dev != 0),
                 # The result is always a float (sum() with no terms
                 # returns an integer):
                 0.))
-- 
2.43.0


From bc829d2542b4a474c2fdfd9dbd8f3523e5a71c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 10/58] fix: umath.hypot() accepts any number of arguments,
 like math.hypot()

---
 uncertainties/umath_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b0580cd..937b9d6 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -197,8 +197,9 @@ fixed_derivatives = {
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-    'hypot': [lambda x, y: x/math.hypot(x, y),
-              lambda x, y: y/math.hypot(x, y)],
+    # Python 3.8+ accepts any number of coordinates:
+    'hypot': [lambda x, *others: x/math.hypot(x, *others),
+              lambda x, y, *others: y/math.hypot(x, y, *others)],
     'log': [log_der0,
             lambda x, y: -math.log(x, y)/y/math.log(y)],
     'log10': [lambda x: 1/x/math.log(10)],
-- 
2.43.0


From f17f74b73110a918937d603cde5b459423b6c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 11/58] fix: defined derivatives of atan(), asinh(), erf()...
 for large arguments

x**2 raised OverflowError for large floats, which was converted to a NaN
derivative (and thus to a NaN uncertainty).
---
 uncertainties/umath_core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 937b9d6..32ec211 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -180,20 +180,20 @@ erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()
 fixed_derivatives = {
     # In alphabetical order, here:
     'acos': [lambda x: -1/math.sqrt(1-x**2)],
-    'acosh': [lambda x: 1/math.sqrt(x**2-1)],
+    'acosh': [lambda x: 1/(math.sqrt(x-1)*math.sqrt(x+1))],
     'asin': [lambda x: 1/math.sqrt(1-x**2)],
-    'asinh': [lambda x: 1/math.sqrt(1+x**2)],
-    'atan': [lambda x: 1/(1+x**2)],
-    'atan2': [lambda y, x: x/(x**2+y**2),  # Correct for x == 0
-              lambda y, x: -y/(x**2+y**2)],  # Correct for x == 0
+    'asinh': [lambda x: 1/math.hypot(1, x)],
+    'atan': [lambda x: 1/(1+x*x)],
+    'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),  # Correct for x == 0
+              lambda y, x: -y/math.hypot(x, y)/math.hypot(x, y)],  # Correct for x == 0
     'atanh': [lambda x: 1/(1-x**2)],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
     'cos': [lambda x: -math.sin(x)],
     'cosh': [math.sinh],
     'degrees': [lambda x: math.degrees(1)],
-    'erf': [lambda x: math.exp(-x**2)*erf_coef],
-    'erfc': [lambda x: -math.exp(-x**2)*erf_coef],
+    'erf': [lambda x: math.exp(-x*x)*erf_coef],
+    'erfc': [lambda x: -math.exp(-x*x)*erf_coef],
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-- 
2.43.0


From 30eb741be45a115d81ef52e996d38435496d83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 12/58] fix: very large or very small standard deviations are
 propagated

Squaring them raised OverflowError beyond about 1e154, and silently gave a
zero uncertainty below about 1e-162.
---
 uncertainties/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 4aa653c..f0df4cf 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1849,8 +1849,18 @@ class AffineScalarFunc(object):
         #std_dev value (in fact, many intermediate AffineScalarFunc do
         #not need to have their std_dev calculated: only the final
         #AffineScalarFunc returned to the user does).
-        return CallableStdDev(sqrt(sum(
-            delta**2 for delta in self.error_components().values())))
+        deltas = list(self.error_components().values())
+        std_dev = sqrt(sum(delta*delta for delta in deltas))
+
+        # Very large or very small errors cannot be squared accurately
+        # (overflow and underflow): they are first scaled.
+        if not (1e-140 < std_dev < 1e140 or isnan(std_dev)):
+            scale = max(deltas or [0])
+            if scale and not isinf(scale):
+                std_dev = scale*sqrt(
+                    sum((delta/scale)**2 for delta in deltas))
+
+        return CallableStdDev(std_dev)
 
     # Abbreviation (for formulas, etc.):
     s = std_dev
-- 
2.43.0


From 283ae5d9009aecc926557c96f8067cfbbecb4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 13/58] fix: wrapped functions can be first called
 simultaneously by multiple threads

Two threads that simultaneously needed new derivatives shifted their
positions: later calls used the derivative of the wrong argument.
---
 uncertainties/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f0df4cf..3ad8af0 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -33,6 +33,7 @@ except ImportError:
         return isinf(x) or isnan(x)
 
 import copy
+import threading
 import warnings
 import itertools
 import inspect
@@ -406,6 +407,7 @@ class IndexableIter(object):
         self.iterable = iterable
         self.returned_elements = []
         self.none_converter = none_converter
+        self.lock = threading.RLock()
 
     def __getitem__(self, index):
 
@@ -417,14 +419,18 @@ class IndexableIter(object):
 
         except IndexError:  # Element not yet cached
 
-            for pos in range(len(returned_elements), index+1):
+            # Elements must be cached in order, even if multiple threads
+            # need new elements:
+            with self.lock:
 
-                value = next(self.iterable)
+                for pos in range(len(returned_elements), index+1):
 
-                if value is None:
-                    value = self.none_converter(pos)
+                    value = next(self.iterable)
 
-                returned_elements.append(value)
+                    if value is None:
+                        value = self.none_converter(pos)
+
+                    returned_elements.append(value)
 
             return returned_elements[index]
 
-- 
2.43.0


From 57cf7881e8a210fb08e274bc818351fedeff099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 14/58] fix: covariances with very large or very small
 derivatives or deviations

Representable covariances raised OverflowError (standard deviations beyond
about 1e154), or were incorrectly null or infinite.
---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3ad8af0..051660c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2942,7 +2942,10 @@ def covariance_matrix(nums_with_uncert):
         for expr2 in nums_with_uncert[:i1]:
             derivatives2 = expr2.derivatives  # Optimization
             coefs_expr1.append(sum(
-                ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
+                # (The products below only overflow or underflow if
+                # the covariance does.)
+                ((derivatives1[var]*var._std_dev)
+                 *(derivatives2[var]*var._std_dev)
                 # var is a variable common to both numbers with
                 # uncertainties:
                 for var in vars1.intersection(derivatives2)
-- 
2.43.0


From 3eba02fed9575b823fe16bf52f75c885cd53b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 15/58] fix: subclasses with private or weak reference slots
 can be pickled

---
 uncertainties/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 051660c..f251186 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2457,9 +2457,18 @@ class AffineScalarFunc(object):
             # Slot names can be given in various forms (string,
             # sequence, iterable):
             if isinstance(slot_names, basestring):
-                all_slots.add(slot_names)  # Single name
-            else:
-                all_slots.update(slot_names)
+                slot_names = (slot_names,)  # Single name
+
+            for name in slot_names:
+                # Weak references are not data (and cannot be set):
+                if name == '__weakref__':
+                    continue
+                # The attributes of private slots have a mangled name:
+                if name.startswith('__') and not name.endswith('__'):
+                    class_name = cls.__name__.lstrip('_')
+                    if class_name:
+                        name = '_%s%s' % (class_name, name)
+                all_slots.add(name)
 
         # The slot values are stored:
         for name in all_slots:
-- 
2.43.0


From afc7d5cbac18200408293daa0466f037a44f892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 16/58] fix: umath.modf(), ldexp() and frexp() raise the
 exceptions of math for non-numbers

---
 uncertainties/umath_core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 32ec211..9c5c2c0 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -337,7 +337,10 @@ def modf(x):
     # simpler because only 1 argument is given, and there is no
     # delegation to other functions involved (as for __mul__, etc.).
 
-    aff_func = to_affine_scalar(x)  # Uniform treatment of all numbers
+    if not isinstance(x, AffineScalarFunc):
+        return math.modf(x)
+
+    aff_func = x
 
     (frac_part, int_part) = math.modf(aff_func.nominal_value)
 
@@ -357,7 +360,10 @@ def ldexp(x, i):
     # uncert_core.wrap() so that some arguments are automatically
     # considered as constants.
 
-    aff_func = to_affine_scalar(x)  # y must be an integer, for math.ldexp
+    if not isinstance(x, AffineScalarFunc):
+        return math.ldexp(x, i)  # i must be an integer
+
+    aff_func = x
 
     if aff_func._linear_part:
         return AffineScalarFunc(
@@ -386,7 +392,10 @@ def frexp(x):
     # simpler because only 1 argument is given, and there is no
     # delegation to other functions involved (as for __mul__, etc.).
 
-    aff_func = to_affine_scalar(x)
+    if not isinstance(x, AffineScalarFunc):
+        return math.frexp(x)
+
+    aff_func = x
 
     if aff_func._linear_part:
         (mantissa, exponent) = math.frexp(aff_func.nominal_value)
-- 
2.43.0


From a53139b606b1dcaccdac2404d264f4d6678065ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 17/58] fix: numbers with uncertainties can be compared with
 complex numbers (they are different)

---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f251186..a0516c7 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -282,7 +282,10 @@ def to_affine_scalar(x):
     if isinstance(x, AffineScalarFunc):
         return x
 
-    if isinstance(x, CONSTANT_TYPES):
+    if isinstance(x, CONSTANT_TYPES) and not (
+        # Complex numbers cannot be nominal values:
+        isinstance(x, numbers.Complex) and not isinstance(x, numbers.Real)):
+
         # No variable => no derivative:
         return AffineScalarFunc(x, LinearCombination({}))
 
-- 
2.43.0


From 3f407e8e071cfaf4557b34b753fbac48e8bb5955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 18/58] fix: correlated values can be created from covariance
 matrices that are NumPy matrices

---
 uncertainties/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index a0516c7..4d3796e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -169,6 +169,9 @@ else:
         # such variables (with the help of numpy.ix_()), and creating 
         # them separately.
         
+        # NumPy matrices would be handled differently by the operations below:
+        covariance_mat = numpy.asarray(covariance_mat, dtype=float)
+
         std_devs = numpy.sqrt(numpy.diag(covariance_mat))
 
         # For numerical stability reasons, we go through the correlation
@@ -229,7 +232,9 @@ else:
         #
         # The covariance matrix is diagonalized in order to define
         # the independent variables that model the given values:
-        (variances, transform) = numpy.linalg.eigh(correlation_mat)
+        (variances, transform) = numpy.linalg.eigh(
+            # NumPy matrices would be handled differently below:
+            numpy.asarray(correlation_mat, dtype=float))
 
         # Numerical errors might make some variances negative: we set
         # them to zero:
-- 
2.43.0


From 7008f92c7a2c61b189a6518c18cbd695e271f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 19/58] fix: wrap() uses the derivatives of the right
 parameters for methods and positional-only parameters

---
 uncertainties/core.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 4d3796e..d21c771 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -604,7 +604,24 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments (and therefore to use inspect.getfullargspec())
         # because they are already handled by derivatives_kwargs.
 
-        for (index, name) in enumerate(argspec.args):
+        arg_names = argspec.args
+
+        # The argument bound to methods is not an argument of f:
+        if inspect.ismethod(f) and f.__self__ is not None:
+            arg_names = arg_names[1:]
+            num_bound = 1
+        else:
+            num_bound = 0
+
+        # Positional-only parameters (Python 3.8+) cannot be given by
+        # name (a keyword argument with this name is another parameter):
+        num_pos_only = getattr(
+            getattr(f, '__code__', None), 'co_posonlyargcount', 0)
+
+        for (index, name) in enumerate(arg_names):
+
+            if index < num_pos_only-num_bound:
+                continue
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
-- 
2.43.0


From 500d81ff0dc160ff6a206fd2765585b6fdb746d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 20/58] fix: precise derivative of the modulo operator with
 respect to the divisor

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index d21c771..52e8f20 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2589,7 +2589,7 @@ def get_ops_with_reflection():
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
+        'mod': ("1.", "-float(x//y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y/y")
-- 
2.43.0


From 561eb09e542cda54dd7e7331f6642b667a6b9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 21/58] fix: precise derivatives of umath.fmod()

---
 uncertainties/umath_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 9c5c2c0..90c17d0 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -59,7 +59,7 @@ many_scalars_to_scalar_funcs = []
 # Functions with numerical derivatives:
 #
 # !! Python2.7+: {..., ...}
-num_deriv_funcs = set(['fmod', 'gamma', 'lgamma'])
+num_deriv_funcs = set(['gamma', 'lgamma'])
 
 # Functions are by definition locally constant (on real
 # numbers): their value does not depend on the uncertainty (because
@@ -198,6 +198,9 @@ fixed_derivatives = {
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
     # Python 3.8+ accepts any number of coordinates:
+    'fmod': [lambda x, y: 1.,
+             # fmod(x, y) = x - n*y, where integer n is locally constant:
+             lambda x, y: -(x-math.fmod(x, y))/y],
     'hypot': [lambda x, *others: x/math.hypot(x, *others),
               lambda x, y, *others: y/math.hypot(x, y, *others)],
     'log': [log_der0,
-- 
2.43.0


From 08840d0bc76edd4915577b9e711519e776d1a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 22/58] fix: precise derivatives of umath.acos(), asin(),
 atanh() close to 1 and tanh() for large arguments

---
 uncertainties/umath_core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 90c17d0..12f7fea 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -175,18 +175,24 @@ def _deriv_pow_1(x, y):
     else:
         return math.log(x) * math.pow(x, y)
 
+def _deriv_tanh(x):
+    # Precise for large |x| (contrary to 1-tanh(x)**2), and no overflow
+    # (contrary to 1/cosh(x)**2):
+    t = math.exp(-2*abs(x))
+    return 4*t/(1+t)**2
+
 erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()
 
 fixed_derivatives = {
     # In alphabetical order, here:
-    'acos': [lambda x: -1/math.sqrt(1-x**2)],
+    'acos': [lambda x: -1/math.sqrt((1-x)*(1+x))],  # Precise for |x| ~ 1
     'acosh': [lambda x: 1/(math.sqrt(x-1)*math.sqrt(x+1))],
-    'asin': [lambda x: 1/math.sqrt(1-x**2)],
+    'asin': [lambda x: 1/math.sqrt((1-x)*(1+x))],
     'asinh': [lambda x: 1/math.hypot(1, x)],
     'atan': [lambda x: 1/(1+x*x)],
     'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),  # Correct for x == 0
               lambda y, x: -y/math.hypot(x, y)/math.hypot(x, y)],  # Correct for x == 0
-    'atanh': [lambda x: 1/(1-x**2)],
+    'atanh': [lambda x: 1/((1-x)*(1+x))],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
     'cos': [lambda x: -math.sin(x)],
@@ -213,7 +219,7 @@ fixed_derivatives = {
     'sinh': [math.cosh],
     'sqrt': [lambda x: 0.5/math.sqrt(x)],
     'tan': [lambda x: 1+math.tan(x)**2],
-    'tanh': [lambda x: 1-math.tanh(x)**2]
+    'tanh': [_deriv_tanh]
     }
 
 # Many built-in functions in the math module are wrapped with a
-- 
2.43.0


From 5cfa9be587cfb2c0435012e66e2b4004ba9b1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:53 +0000
Subject: [PATCH 23/58] fix: readable uncertainties of umath.ldexp() and
 frexp() results with large exponents

---
 uncertainties/umath_core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 12f7fea..5e06941 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -363,6 +363,9 @@ def modf(x):
         return (frac_part, int_part)
 many_scalars_to_scalar_funcs.append('modf')
 
+# Float 2**i (NaN if too large):
+_power_of_2 = uncert_core.nan_if_exception(lambda i: math.ldexp(1., i))
+
 @uncert_core.set_doc(math.ldexp.__doc__)
 def ldexp(x, i):
     # Another approach would be to add an additional argument to
@@ -377,7 +380,7 @@ def ldexp(x, i):
     if aff_func._linear_part:
         return AffineScalarFunc(
             math.ldexp(aff_func.nominal_value, i),
-            LinearCombination([(2**i, aff_func._linear_part)]))
+            LinearCombination([(_power_of_2(i), aff_func._linear_part)]))
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
@@ -414,7 +417,8 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([(2**-exponent, aff_func._linear_part)])),
+                LinearCombination([(_power_of_2(-exponent),
+                                    aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From e51520cb25e23248f5201f344d9c2bd6bb3024d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 24/58] fix: comment on the derivative of the modulo operator

---
 uncertainties/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 52e8f20..3d4396f 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2587,8 +2587,7 @@ def get_ops_with_reflection():
         # floats, and is therefore the "usual" mathematical division.
         'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
-        # The derivative wrt the 2nd arguments is something like (..., x//y),
-        # but it is calculated numerically, for convenience:
+        # x % y = x - y*(x//y), where x//y is locally constant:
         'mod': ("1.", "-float(x//y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
-- 
2.43.0


From b1d5ef7f5dffbba6dd5c5cac85311d4e43ccd552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 25/58] fix: analytical derivatives of umath.hypot() with
 respect to any coordinate

---
 uncertainties/umath_core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 5e06941..00cdc4a 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -155,6 +155,13 @@ def _deriv_copysign(x,y):
     else:
         return -math.copysign(1, y)
 
+def _deriv_hypot(index):
+    """
+    Return the derivative of hypot() with respect to the argument of
+    the given index.
+    """
+    return lambda *coords: coords[index]/math.hypot(*coords)
+
 def _deriv_fabs(x):
     if x >= 0:
         return 1
@@ -203,12 +210,11 @@ fixed_derivatives = {
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-    # Python 3.8+ accepts any number of coordinates:
     'fmod': [lambda x, y: 1.,
              # fmod(x, y) = x - n*y, where integer n is locally constant:
              lambda x, y: -(x-math.fmod(x, y))/y],
-    'hypot': [lambda x, *others: x/math.hypot(x, *others),
-              lambda x, y, *others: y/math.hypot(x, y, *others)],
+    # Python 3.8+ accepts any number of coordinates:
+    'hypot': (_deriv_hypot(index) for index in itertools.count()),
     'log': [log_der0,
             lambda x, y: -math.log(x, y)/y/math.log(y)],
     'log10': [lambda x: 1/x/math.log(10)],
@@ -268,7 +274,8 @@ for name in dir(math):
         # that cannot be calculated indicates a non-defined derivative
         # (the derivatives in fixed_derivatives must be written this way):
         wrapped_func = uncert_core.wrap(
-            func, map(uncert_core.nan_if_exception, derivatives))
+            func,
+            (uncert_core.nan_if_exception(deriv) for deriv in derivatives))
 
     # !! The same effect could be achieved with globals()[...] = ...
     setattr(this_module, name, wraps(wrapped_func, func))
-- 
2.43.0


From 73f5110931d8a41dc1d33f96c21600c2379d35ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 26/58] fix: the precision of the general formats is not used
 as a width (numbers with a null, NaN or infinite part)

---
 uncertainties/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3d4396f..815dd11 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1182,6 +1182,15 @@ def format_num(nom_val_main, error_main, common_exp,
     # over common_exp):
     special_error = not error_main or isinfinite(error_main)
 
+    # Format of the parts that can be represented independently of each
+    # other (only used for the following presentation types: '', g, G).
+    # With a precision, the empty type could add an exponent (even for
+    # numbers between 1 and 10), contrary to g:
+    if fmt_parts['prec']:
+        general_suffix = '.%s%s' % (fmt_parts['prec'], fmt_parts['type'] or 'g')
+    else:
+        general_suffix = fmt_parts['type']
+
     # Nicer representation of the main nominal part, with no trailing
     # zeros, when the error does not have a defined number of
     # significant digits:
@@ -1190,7 +1199,7 @@ def format_num(nom_val_main, error_main, common_exp,
         # exponent is taken care of by common_exp, so it is
         # formatted without an exponent (otherwise, the exponent
         # would have to be handled for the LaTeX option):
-        fmt_suffix_n = (fmt_parts['prec'] or '')+fmt_parts['type']
+        fmt_suffix_n = general_suffix
     else:
         fmt_suffix_n = '.%d%s' % (prec, main_pres_type)
 
@@ -1400,7 +1409,7 @@ def format_num(nom_val_main, error_main, common_exp,
                 # Only some formats have a nicer representation:
                 and fmt_parts['type'] in ('', 'g', 'G')):
                 # The error can be formatted independently:
-                fmt_suffix_e = (fmt_parts['prec'] or '')+fmt_parts['type']
+                fmt_suffix_e = general_suffix
             else:
                 fmt_suffix_e = '.%d%s' % (prec, main_pres_type)
         else:
-- 
2.43.0


From 82ca1fa89f3dbdd3c4b83a1cf3e62708100ca843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 27/58] fix: formatting of numbers close to the largest and
 smallest floats

---
 uncertainties/core.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 815dd11..95c2a30 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -917,6 +917,19 @@ def first_digit(value):
     except ValueError:  # Case of value == 0
         return 0
 
+def rounded_first_digit(value, limit):
+    '''
+    Return the first digit position (as in first_digit()) of the given value
+    rounded at the given position limit.
+    '''
+    try:
+        return first_digit(round(value, -limit))
+    except OverflowError:
+        # The rounded value is too large for a float, but has the same
+        # first digit position (no float is close to the next power of
+        # 10 in this case):
+        return first_digit(value)
+
 def PDG_precision(std_dev):
     '''
     Return the number of significant digits to be used for the given
@@ -1249,10 +1262,10 @@ def format_num(nom_val_main, error_main, common_exp,
 
             else:
                 if uncert:
-                    # The round is important because 566.99999999 can
-                    # first be obtained when 567 is wanted (%d prints the
-                    # integer part, not the rounded value):
-                    uncert_str = '%d' % round(uncert*10.**prec)
+                    # All the digits are kept, without the decimal point
+                    # (10.**prec is not used because it can be too large):
+                    uncert_str = (
+                        ('%.*f' % (prec, uncert)).replace('.', '').lstrip('0'))
                 else:
                     # The decimal point indicates a truncated float
                     # (this is easy to do, in this case, since
@@ -1514,8 +1527,7 @@ def signif_dgt_to_limit(value, num_signif_d):
     # the rounded value at that limit is 1.0, i.e. has 2
     # significant digits instead of num_signif_d = 1). We correct for
     # this effect by adjusting limit if necessary:
-    rounded = round(value, -limit_no_rounding)
-    fst_digit_rounded = first_digit(rounded)
+    fst_digit_rounded = rounded_first_digit(value, limit_no_rounding)
 
     if fst_digit_rounded > fst_digit:
         # The rounded limit is fst_digit_rounded-num_signif_d+1;
@@ -2276,7 +2288,7 @@ class AffineScalarFunc(object):
                 # for instance when using the .0e format:
                 # signif_dgt_to_limit() was called before, which
                 # prompted a similar calculation:
-                common_exp = first_digit(round(exp_ref_value, -digits_limit))
+                common_exp = rounded_first_digit(exp_ref_value, digits_limit)
 
         else:  # None, g, G
 
@@ -2304,7 +2316,7 @@ class AffineScalarFunc(object):
                 use_exp = False
             else:
                 # Common exponent *if* used:
-                common_exp = first_digit(round(exp_ref_value, -digits_limit))
+                common_exp = rounded_first_digit(exp_ref_value, digits_limit)
 
                 # print "COMMON EXP TEST VALUE", common_exp
                 # print "LIMIT EXP", common_exp-digits_limit+1
@@ -2330,11 +2342,15 @@ class AffineScalarFunc(object):
 
         if use_exp:
 
-            # Not 10.**(-common_exp), for limit values of common_exp:
-            factor = 10.**common_exp
+            # Not 10.**(-common_exp), for limit values of common_exp. For
+            # the smallest values, 10.**common_exp would be 0 or
+            # inaccurate:
+            (scale, factor) = (
+                (1e300, 10.**(common_exp+300)) if common_exp < -300
+                else (1., 10.**common_exp))
 
-            nom_val_mantissa = nom_val/factor
-            std_dev_mantissa = std_dev/factor
+            nom_val_mantissa = nom_val*scale/factor
+            std_dev_mantissa = std_dev*scale/factor
             # Limit for the last digit of the mantissas:
             signif_limit = digits_limit - common_exp
 
-- 
2.43.0


From 5ba7eec0cf4b7a5c093ea27b5d9ff357e5d9ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 28/58] fix: format specifications not accepted by floats and
 not documented are refused (d, n, s, fill without alignment...)

---
 uncertainties/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 95c2a30..5123745 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2063,7 +2063,9 @@ class AffineScalarFunc(object):
         # Format specification parsing:
 
         match = re.match(r'''
-            (?P<fill>[^{}]??)(?P<align>[<>=^]?)  # fill cannot be { or }
+            # The fill character requires an alignment, like for floats:
+            (?P<fill>(?:[^{}](?=[<>=^]))?)  # fill cannot be { or }
+            (?P<align>[<>=^]?)
             (?P<sign>[-+ ]?)
             (?P<zero>0?)
             (?P<width>\d*)
@@ -2073,9 +2075,9 @@ class AffineScalarFunc(object):
             # The type can be omitted. Options must not go here:
             (?P<type>[eEfFgG%]??)  # n not supported
             (?P<options>[PSLp]*)  # uncertainties-specific flags
-            $''',
+            \Z''',
             format_spec,
-            re.VERBOSE)
+            re.VERBOSE | re.DOTALL)
 
         # Does the format specification look correct?
         if not match:
-- 
2.43.0


From a01a3205a56e607b2a0363215c283eca63cf7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 29/58] fix: common exponent of the smallest floats when
 printed with one digit

---
 uncertainties/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 5123745..b9888bb 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -923,13 +923,20 @@ def rounded_first_digit(value, limit):
     rounded at the given position limit.
     '''
     try:
-        return first_digit(round(value, -limit))
+        rounded = round(value, -limit)
     except OverflowError:
         # The rounded value is too large for a float, but has the same
         # first digit position (no float is close to the next power of
         # 10 in this case):
         return first_digit(value)
 
+    if not rounded:
+        return first_digit(rounded)
+
+    # Rounding to a power of 10 can give a float smaller than this power of
+    # 10, for the smallest floats, which are not accurate:
+    return max(first_digit(rounded), first_digit(value))
+
 def PDG_precision(std_dev):
     '''
     Return the number of significant digits to be used for the given
-- 
2.43.0


From 8873248d4ab491b56c2e1ca2743b422caadedd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 30/58] fix: common exponent of the smallest floats when their
 uncertainty rounds to a power of 10

---
 uncertainties/core.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index b9888bb..3ae70f4 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -922,20 +922,16 @@ def rounded_first_digit(value, limit):
     Return the first digit position (as in first_digit()) of the given value
     rounded at the given position limit.
     '''
-    try:
-        rounded = round(value, -limit)
-    except OverflowError:
-        # The rounded value is too large for a float, but has the same
-        # first digit position (no float is close to the next power of
-        # 10 in this case):
-        return first_digit(value)
-
-    if not rounded:
-        return first_digit(rounded)
-
-    # Rounding to a power of 10 can give a float smaller than this power of
-    # 10, for the smallest floats, which are not accurate:
-    return max(first_digit(rounded), first_digit(value))
+    # Number of digits kept, after the first digit:
+    num_digits = first_digit(value)-limit
+
+    if num_digits >= 0:
+        # round(value, -limit) would be too large for a float, for some of
+        # the largest floats, and would not be accurate for the smallest
+        # ones:
+        return int(('%.*e' % (num_digits, value)).split('e')[1])
+    else:
+        return limit if round(value, -limit) else 0
 
 def PDG_precision(std_dev):
     '''
-- 
2.43.0


From d68757a9c5caf0e96e8c4fba88053be7502976ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 31/58] fix: exact position of the first digit of printed
 numbers

---
 uncertainties/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3ae70f4..c10cf33 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -912,10 +912,11 @@ def first_digit(value):
 
     Return 0 for a null value.
     '''
-    try:
-        return int(math.floor(math.log10(abs(value))))
-    except ValueError:  # Case of value == 0
-        return 0
+    # The decimal representation is used because math.log10() is not exact:
+    # it would give 23 for 1e23, which is smaller than 10**23. 17 digits
+    # after the first one distinguish any float from a power of 10. (A null
+    # value is represented as 0.00…e+00.)
+    return int(('%.17e' % value).split('e')[1])
 
 def rounded_first_digit(value, limit):
     '''
-- 
2.43.0


From fdafacfbca48fb39b01d9c7da36bc887125a9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 32/58] fix: numbers with an exponent are parsed exactly,
 whatever the exponent

---
 uncertainties/core.py | 59 +++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c10cf33..13fc9c8 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3127,12 +3127,12 @@ def parse_error_in_parentheses(representation):
 
     # Global exponent:
     if exponent is not None:  # An empty exponent ("1.2e") is invalid
-        factor = 10.**nrmlze_superscript(exponent)
+        exponent = nrmlze_superscript(exponent)
     else:
-        factor = 1
+        exponent = 0
 
     # Nominal value:
-    value = float((sign or '')+main)*factor
+    value = to_float((sign or '')+main, exponent)
 
     if uncert is None:
         # No uncertainty was found: an uncertainty of 1 on the last
@@ -3141,7 +3141,7 @@ def parse_error_in_parentheses(representation):
 
     # Do we have a fully explicit uncertainty?
     if uncert_dec is not None or uncert in {'nan', 'NAN', 'inf', 'INF'}:
-        uncert_value = float(uncert)
+        uncert_value = to_float(uncert, exponent)
     else:
         # uncert_int represents an uncertainty on the last digits:
 
@@ -3152,17 +3152,14 @@ def parse_error_in_parentheses(representation):
         else:
             num_digits_after_period = len(main_dec)-1
 
-        uncert_value = int(uncert_int)/10.**num_digits_after_period
-
-    # We apply the exponent to the uncertainty as well:
-    uncert_value *= factor
+        uncert_value = to_float(uncert_int, exponent-num_digits_after_period)
 
     return (value, uncert_value)
 
 # Regexp for catching the two variable parts of -1.2×10⁻¹²:
 PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\s*×\\s*10(.*)').match
 
-def to_float(value_str):
+def to_float(value_str, exponent=0):
     '''
     Converts a string representing a float to a float.
 
@@ -3172,26 +3169,40 @@ def to_float(value_str):
     In addition, the pretty-print notation -1.2×10⁻¹² is also
     converted.
 
+    The float is multiplied by 10**exponent, without any other rounding than
+    the one of the result, and without any overflow or underflow of
+    10**exponent.
+
     ValueError is raised if no float can be obtained.
     '''
 
     try:
-        return float(value_str)
+        value = float(value_str)
     except ValueError:
-        pass
 
-    # The pretty-print notation is tried:
-    match = PRETTY_PRINT_MATCH(value_str)
-    if match:
+        # The pretty-print notation is tried:
+        match = PRETTY_PRINT_MATCH(value_str)
+        if not match:
+            raise ValueError('No valid Python float or pretty-print form'
+                             ' recognized in %s' % value_str)
+
         try:
-            return float(match.group(1))*10.**nrmlze_superscript(match.group(2))
+            return to_float(
+                match.group(1), exponent+nrmlze_superscript(match.group(2)))
         except ValueError:
             raise ValueError('Mantissa or exponent incorrect in pretty-print'
                              ' form %s' % value_str)
-    else:
-        raise ValueError('No valid Python float or pretty-print form'
-                         ' recognized in %s' % value_str)
 
+    if not exponent or isinfinite(value):
+        return value
+
+    # Multiplying by 10.**exponent would give a different float than the
+    # direct conversion of the string by Python:
+    (mantissa_str, _, exponent_str) = value_str.lower().partition('e')
+    if exponent_str:
+        exponent += int(exponent_str)
+
+    return float('%se%d' % (mantissa_str.strip(), exponent))
 
 cannot_parse_ufloat_msg_pat = (
     'Cannot parse %s: see the documentation for ufloat_fromstr() for a'
@@ -3223,8 +3234,8 @@ def str_to_number_with_uncert(representation):
 
     match = NUMBER_WITH_UNCERT_GLOBAL_EXP_RE_MATCH(representation)
 
-    # The representation is simplified, but the global factor is
-    # calculated:
+    # The representation is simplified, but the global exponent is
+    # kept:
 
     if match:
 
@@ -3238,11 +3249,9 @@ def str_to_number_with_uncert(representation):
         except ValueError:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-        factor = 10.**exponent
-
         representation = match.group('simple_num_with_uncert')
     else:
-        factor = 1  # No global exponential factor
+        exponent = 0  # No global exponent
 
     match = re.match(u'(.*)(?:\\+/-|±)(.*)', representation)
     if match:
@@ -3252,8 +3261,8 @@ def str_to_number_with_uncert(representation):
         try:
             # Simple form 1234.45+/-1.2 or 1234.45±1.2, or 1.23e-10+/-1e-23
             # or -1.2×10⁻¹²±1e23:
-            parsed_value = (to_float(nom_value)*factor,
-                            to_float(uncert)*factor)
+            parsed_value = (to_float(nom_value, exponent),
+                            to_float(uncert, exponent))
         except ValueError:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-- 
2.43.0


From fe8e295aa0055d78143e8d737d23aad9b695aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:51 +0000
Subject: [PATCH 33/58] fix: a factored exponent is not lost when parsing
 (1.2(3))e5 and (1.2)e5

---
 uncertainties/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 13fc9c8..2229b29 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3096,7 +3096,7 @@ class NotParenUncert(ValueError):
     found.
     '''
 
-def parse_error_in_parentheses(representation):
+def parse_error_in_parentheses(representation, global_exponent=0):
     # !!!! The code seems to handle superscript exponents, but the
     # docstring doesn't reflect this!?
     """
@@ -3108,7 +3108,9 @@ def parse_error_in_parentheses(representation):
     The digits between parentheses correspond to the same number of digits
     at the end of the nominal value (the decimal point in the uncertainty
     is optional). Example: 12.34(142) = 12.34±1.42.
-    
+
+    Both numbers are multiplied by 10**global_exponent.
+
     Raises ValueError if the string cannot be parsed.
     """
 
@@ -3127,9 +3129,9 @@ def parse_error_in_parentheses(representation):
 
     # Global exponent:
     if exponent is not None:  # An empty exponent ("1.2e") is invalid
-        exponent = nrmlze_superscript(exponent)
+        exponent = global_exponent+nrmlze_superscript(exponent)
     else:
-        exponent = 0
+        exponent = global_exponent
 
     # Nominal value:
     value = to_float((sign or '')+main, exponent)
@@ -3269,7 +3271,8 @@ def str_to_number_with_uncert(representation):
     else:
         # Form with error parentheses or no uncertainty:
         try:
-            parsed_value = parse_error_in_parentheses(representation)
+            parsed_value = parse_error_in_parentheses(
+                representation, exponent)
         except NotParenUncert:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-- 
2.43.0


From cf0bb5f676b8e41b3a585bf5a36b29351f6a1608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:16 +0000
Subject: [PATCH 34/58] fix: position of the uncertainty digits in shorthand
 with a NaN or infinite nominal value

---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 2229b29..1fe8a60 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1259,7 +1259,10 @@ def format_num(nom_val_main, error_main, common_exp,
             # makes the result easier to read); the shorthand
             # notation then essentially coincides with the +/-
             # notation:
-            if first_digit(uncert) >= 0 and prec > 0:
+            # A NaN or infinite nominal value has no last digit that would
+            # give the position of the uncertainty digits:
+            if ((first_digit(uncert) >= 0 or isinfinite(nom_val_main))
+                and prec > 0):
                 # This case includes a zero rounded error with digits
                 # after the decimal point:
                 uncert_str = '%.*f' % (prec, uncert)
-- 
2.43.0


From 0ea2a7d21407903de4df11bd92a5a76e7130cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:25 +0000
Subject: [PATCH 35/58] fix: text after a line break was ignored when parsing
 numbers with +/-

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1fe8a60..15646a3 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3258,7 +3258,7 @@ def str_to_number_with_uncert(representation):
     else:
         exponent = 0  # No global exponent
 
-    match = re.match(u'(.*)(?:\\+/-|±)(.*)', representation)
+    match = re.match(u'(.*)(?:\\+/-|±)(.*)\\Z', representation)
     if match:
 
         (nom_value, uncert) = match.groups()
-- 
2.43.0


From ea514e41cd7268ac69533169a3acb453958bc8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:59 +0000
Subject: [PATCH 36/58] fix: product of a unumpy matrix by a number with
 uncertainty (m*x)

---
 uncertainties/unumpy/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 31083d2..b9bd8f4 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -603,6 +603,14 @@ class matrix(numpy.matrix):
     matrix contains numbers with uncertainties.
     """
 
+    def __mul__(self, other):
+        # NumPy's matrix __mul__ only handles NumPy's scalars, and objects
+        # that cannot perform a multiplication:
+        if isinstance(other, uncert_core.AffineScalarFunc):
+            return numeric.dot(self, other)
+        else:
+            return super(matrix, self).__mul__(other)
+
     def __rmul__(self, other):
         # ! NumPy's matrix __rmul__ uses an apparently restrictive
         # dot() function that cannot handle the multiplication of a
-- 
2.43.0


From 745ead2f0aef0bbebead5919636a25b50fa4c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:01 +0000
Subject: [PATCH 37/58] fix: unumpy.isnan() and isinf() of empty arrays

---
 uncertainties/unumpy/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index b9bd8f4..e28cb20 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -702,13 +702,15 @@ def define_vectorized_funcs():
 
         # Data type of the result of the unumpy function:
         otypes = (
+            # vectorize() cannot guess the type for empty arrays:
+            {'otypes': [bool]} if function_name in ('isinf', 'isnan')
             # It is much more convenient to preserve the type of
             # functions that return a number without
             # uncertainty. Thus, for example, unumpy.isnan() can
             # return an array with a boolean data type (instead of
             # object), which allows the result to be used with NumPy's
             # boolean indexing.
-            {} if function_name in umath_core.locally_cst_funcs
+            else {} if function_name in umath_core.locally_cst_funcs
             # If by any chance a function returns, in a particular
             # case, an integer instead of a number with uncertainty,
             # side-effects in vectorize() would fix the resulting
-- 
2.43.0


From a768ac5ca3290fcab70332155e09cf97de6c09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 38/58] fix: negative powers of unumpy matrices that contain
 numbers with uncertainties

---
 uncertainties/unumpy/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index e28cb20..122d45a 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -622,6 +622,14 @@ class matrix(numpy.matrix):
         else:
             return numeric.dot(other, self)  # The order is important
 
+    def __pow__(self, other):
+        # NumPy's matrix __pow__ uses numpy.linalg.inv(), which cannot
+        # handle matrices containing objects:
+        if isinstance(other, (int, numpy.integer)) and other < 0:
+            return (self.I**(-other)).view(type(self))
+        else:
+            return super(matrix, self).__pow__(other)
+
     def getI(self):
         """Matrix inverse or pseudo-inverse."""
         m, n = self.shape
-- 
2.43.0


From 8028fb90e72d4e2e2bbc1dd757eadcb832d4e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:31 +0000
Subject: [PATCH 39/58] fix: unumpy.ceil(), floor() and trunc() of empty,
 integer and large arrays

---
 uncertainties/unumpy/core.py | 53 +++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 122d45a..de08e94 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -15,6 +15,7 @@ from __future__ import division
 from builtins import next
 from builtins import zip
 from builtins import range
+import functools
 import sys
 import inspect
 
@@ -676,6 +677,27 @@ def umatrix(nominal_values, std_devs=None):
 
 ###############################################################################
 
+class VectorizedIntFunc(numpy.vectorize):
+    '''
+    Vectorized version of a function that returns integers. The result is
+    an array of integers, unless some are too large (array of objects).
+
+    Contrary to what numpy.vectorize() does, the data type of the result
+    does not depend on the first element only, so that empty arrays can be
+    handled. The elements are always passed to the function as objects
+    from Python (some NumPy integers do not support math.trunc()).
+    '''
+
+    def __init__(self, func, doc=None):
+        numpy.vectorize.__init__(self, func, otypes=[object], doc=doc)
+
+    def __call__(self, *args, **kwargs):
+        result = numpy.vectorize.__call__(self, *args, **kwargs)
+        try:
+            return result.astype(int)
+        except OverflowError:
+            return result
+
 def define_vectorized_funcs():
     """
     Defines vectorized versions of functions from uncertainties.umath_core.
@@ -708,17 +730,17 @@ def define_vectorized_funcs():
         # numpy.float... (equality tests succeed, though).
         func = getattr(umath_core, function_name)
 
-        # Data type of the result of the unumpy function:
-        otypes = (
-            # vectorize() cannot guess the type for empty arrays:
-            {'otypes': [bool]} if function_name in ('isinf', 'isnan')
-            # It is much more convenient to preserve the type of
-            # functions that return a number without
-            # uncertainty. Thus, for example, unumpy.isnan() can
-            # return an array with a boolean data type (instead of
-            # object), which allows the result to be used with NumPy's
-            # boolean indexing.
-            else {} if function_name in umath_core.locally_cst_funcs
+        # It is much more convenient to preserve the type of
+        # functions that return a number without
+        # uncertainty. Thus, for example, unumpy.isnan() can
+        # return an array with a boolean data type (instead of
+        # object), which allows the result to be used with NumPy's
+        # boolean indexing.
+        if function_name in ('isinf', 'isnan'):
+            vectorize = functools.partial(numpy.vectorize, otypes=[bool])
+        elif function_name in umath_core.locally_cst_funcs:
+            vectorize = VectorizedIntFunc
+        else:
             # If by any chance a function returns, in a particular
             # case, an integer instead of a number with uncertainty,
             # side-effects in vectorize() would fix the resulting
@@ -726,20 +748,19 @@ def define_vectorized_funcs():
             # vectorize(), at least in NumPy around 2010 maybe,
             # decided about the output data type by looking at the
             # type of first element only).
-            else {'otypes': [object]})
+            vectorize = functools.partial(numpy.vectorize, otypes=[object])
 
         setattr(
             this_module, unumpy_name,
             #!!!! For umath_core.locally_cst_funcs, would it make sense
             # to optimize this by using instead the equivalent (? see
             # above) vectorized NumPy function on the nominal values?
-            numpy.vectorize(func,
-                            doc="""\
+            vectorize(func,
+                      doc="""\
 Vectorized version of umath.%s.
 
 Original documentation:
-%s""" % (function_name, func.__doc__),
-                            **otypes))
+%s""" % (function_name, func.__doc__)))
 
 
         __all__.append(unumpy_name)
-- 
2.43.0


From 5f1b8d9bcb0407a382282fcf74341ccf10b67335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 40/58] fix: parse mantissas beyond the floating-point range
 that have a factored exponent

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 15646a3..59fe333 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3198,7 +3198,7 @@ def to_float(value_str, exponent=0):
             raise ValueError('Mantissa or exponent incorrect in pretty-print'
                              ' form %s' % value_str)
 
-    if not exponent or isinfinite(value):
+    if not exponent or 'n' in value_str.lower():  # nan, inf: no exponent
         return value
 
     # Multiplying by 10.**exponent would give a different float than the
-- 
2.43.0


From b9f735407d49c729b9e37dbdb629f0b9ff245c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 41/58] fix: interrupting the first call of a wrapped function
 does not shift its derivatives

---
 uncertainties/core.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 59fe333..a03f557 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -423,24 +423,23 @@ class IndexableIter(object):
 
         try:
 
-            return returned_elements[index]
+            value = returned_elements[index]
 
         except IndexError:  # Element not yet cached
 
             # Elements must be cached in order, even if multiple threads
-            # need new elements:
+            # need new elements, and none must be lost if this is
+            # interrupted (KeyboardInterrupt...):
             with self.lock:
+                returned_elements.extend(itertools.islice(
+                    self.iterable, max(0, index+1-len(returned_elements))))
 
-                for pos in range(len(returned_elements), index+1):
+            value = returned_elements[index]
 
-                    value = next(self.iterable)
+        if value is None:
+            value = returned_elements[index] = self.none_converter(index)
 
-                    if value is None:
-                        value = self.none_converter(pos)
-
-                    returned_elements.append(value)
-
-            return returned_elements[index]
+        return value
 
     def __str__(self):
         return '<%s: [%s...]>' % (
-- 
2.43.0


From 7c2318975e56426ca7cc77f3dd5aab4295d5d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 42/58] fix: the code updater broke uarray(*args) (transformed
 into uarray(**args)) and uarray(nominal_values=args)

---
 uncertainties/lib1to2/fixes/fix_uarray_umatrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
index a47284a..b4dc90e 100644
--- a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
+++ b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
@@ -63,8 +63,10 @@ class FixUarrayUmatrix(BaseFix):
 
             args_node = results['args']
 
-            # We must make sure that there is a single argument:
-            if args_node.type == syms.arglist:
+            # We must make sure that there is a single argument (and not
+            # an argument of the form *arg, **arg or name=arg, which is
+            # not obsolete, or could not be preceded by a star):
+            if args_node.type in (syms.arglist, syms.argument):
                 return  # Nothing modified
 
             # Single argument (in position 1):
-- 
2.43.0


From 5b591115065b54d8c56a00b725541c8ec5534f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 43/58] fix: the code updater ignored std_dev() and std_devs()
 calls followed by anything: x.std_dev()**2, m.std_devs()[0]...

---
 uncertainties/lib1to2/fixes/fix_std_dev.py  | 4 ++--
 uncertainties/lib1to2/fixes/fix_std_devs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index fd15912..bf62cb6 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -12,7 +12,7 @@ from lib2to3.fixer_util import Name, Assign
 class FixStdDev(BaseFix):
     
     PATTERN = """
-    power< any* trailer< '.' 'std_dev' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_dev' > call=trailer< '(' ')' > any* >
     |
     power< any* trailer< '.' 'set_std_dev' > trailer< '(' set_arg=any ')' > >
     """
@@ -34,5 +34,5 @@ class FixStdDev(BaseFix):
         else:
             # '.std_dev' is followed by a call with no argument: the call
             # is removed:
-            node.children[-1].remove()
+            results['call'].remove()
         
diff --git a/uncertainties/lib1to2/fixes/fix_std_devs.py b/uncertainties/lib1to2/fixes/fix_std_devs.py
index 31afaf7..9ecc1c9 100644
--- a/uncertainties/lib1to2/fixes/fix_std_devs.py
+++ b/uncertainties/lib1to2/fixes/fix_std_devs.py
@@ -12,11 +12,11 @@ from lib2to3.fixer_util import Name, Assign
 class FixStdDevs(BaseFix):
 
     PATTERN = """
-    power< any* trailer< '.' 'std_devs' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_devs' > call=trailer< '(' ')' > any* >
     """
 
     def transform(self, node, results):
 
         # '.std_dev' is followed by a call with no argument: the call
         # is removed:
-        node.children[-1].remove()
+        results['call'].remove()
-- 
2.43.0


From fb2dc64a1002b231672298859074c68b86c47624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 44/58] fix: the code updater produced invalid code for
 set_std_dev() in expressions, with a named argument or with an argument on
 multiple lines

---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 61 +++++++++++++++++++---
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index bf62cb6..b9a5b32 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -6,11 +6,17 @@ Transforms .std_dev() calls into .std_dev attribute access.
 (c) 2013 by Eric O. LEBIGOT.
 '''
 
+from lib2to3.pgen2 import token
 from lib2to3.fixer_base import BaseFix
-from lib2to3.fixer_util import Name, Assign
+from lib2to3.fixer_util import (
+    Name, Assign, Call, Comma, String, parenthesize, syms)
 
 class FixStdDev(BaseFix):
-    
+
+    # The (cloned) object in object.set_std_dev() must first be modified by
+    # the other fixers:
+    run_order = 6
+
     PATTERN = """
     power< any* trailer< '.' 'std_dev' > call=trailer< '(' ')' > any* >
     |
@@ -21,16 +27,55 @@ class FixStdDev(BaseFix):
 
         if 'set_arg' in results:  # Case of .set_std_dev()
 
+            arg = results['set_arg']
+
+            # Argument given by name:
+            if arg.type == syms.argument and arg.children[1].type == token.EQUAL:
+                arg = arg.children[2]
+
+            # Other forms (*args, invalid calls...) cannot be transformed:
+            if arg.type in (syms.argument, syms.arglist):
+                return  # Nothing modified
+
             # set_std_dev => std_dev
             attribute = node.children[-2]  # .set_std_dev
-            attribute.children[1].replace(Name('std_dev'))
 
-            # Call "(arg)": removed
-            node.children[-1].remove()
+            if node.parent.type == syms.simple_stmt:
+
+                attribute.children[1].replace(Name('std_dev'))
+
+                # Call "(arg)": removed
+                node.children[-1].remove()
+
+                value = arg.clone()
+                value.prefix = ''
+                if '\n' in str(value):  # Still on a single logical line
+                    value = parenthesize(value)
+
+                # Replacement by an assignment:
+                node.replace(Assign(node.clone(), value))
+
+            else:
+
+                # An assignment would not be valid inside an expression
+                # (lambda function, list comprehension, etc.):
+
+                prefix = node.prefix
+
+                # Object whose standard deviation is set:
+                attribute.remove()
+                node.children[-1].remove()
+                obj = node.clone()
+                obj.prefix = ''
+
+                value = arg.clone()
+                value.prefix = ' '
+
+                node.replace(Call(
+                    Name('setattr'),
+                    [obj, Comma(), String("'std_dev'", prefix=' '), Comma(),
+                     value], prefix))
 
-            # Replacement by an assignment:
-            node.replace(Assign(node.clone(), results['set_arg'].clone()))
-            
         else:
             # '.std_dev' is followed by a call with no argument: the call
             # is removed:
-- 
2.43.0


From 72b4f896a106dd7e5abdbde52cdbca8a6e307c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 45/58] fix: the code updater ignored ufloat() and uarray()
 accessed through a package path, and calls with a trailing comma or adjacent
 strings

---
 .../lib1to2/fixes/fix_uarray_umatrix.py       | 14 ++++++----
 uncertainties/lib1to2/fixes/fix_ufloat.py     | 28 +++++++++----------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
index b4dc90e..056a98c 100644
--- a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
+++ b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
@@ -18,7 +18,7 @@ from lib2to3.fixer_util import String, ArgList, Comma, syms
 # (tuple):
 tuple_call = """
         trailer< '('
-            atom< '(' testlist_gexp< arg0=any ',' arg1=any > ')' >
+            atom< '(' testlist_gexp< arg0=any ',' arg1=any [','] > ')' >
         ')' >"""
 
 
@@ -31,11 +31,11 @@ class FixUarrayUmatrix(BaseFix):
     PATTERN = """
         power< 'uarray' {tuple_call} any* >
         |
-        power< object=NAME trailer< '.' 'uarray' > {tuple_call} any* >
+        power< object=NAME trailer< '.' NAME >* method=trailer< '.' 'uarray' > {tuple_call} any* >
         |
         power< 'uarray' trailer< '(' args=any ')' > any* >
         |
-        power< object=NAME trailer< '.' 'uarray' >
+        power< object=NAME trailer< '.' NAME >* method=trailer< '.' 'uarray' >
             trailer< '(' args=any ')' >
         any* >
         """.format(tuple_call=tuple_call)
@@ -46,7 +46,7 @@ class FixUarrayUmatrix(BaseFix):
     def transform(self, node, results):
 
         if 'object' in results:  # If dotted access: unc.uarray()
-            args = node.children[2]
+            args = results['method'].next_sibling
         else:
             args = node.children[1]
 
@@ -63,6 +63,10 @@ class FixUarrayUmatrix(BaseFix):
 
             args_node = results['args']
 
+            # Single argument followed by a comma:
+            if args_node.type == syms.arglist and len(args_node.children) == 2:
+                args_node = args_node.children[0]
+
             # We must make sure that there is a single argument (and not
             # an argument of the form *arg, **arg or name=arg, which is
             # not obsolete, or could not be preceded by a star):
@@ -70,7 +74,7 @@ class FixUarrayUmatrix(BaseFix):
                 return  # Nothing modified
 
             # Single argument (in position 1):
-            new_args = [String('*'), args.children[1].clone()]
+            new_args = [String('*'), args_node.clone()]
             
         else:  # Tuple argument
 
diff --git a/uncertainties/lib1to2/fixes/fix_ufloat.py b/uncertainties/lib1to2/fixes/fix_ufloat.py
index a6e92f7..7693384 100644
--- a/uncertainties/lib1to2/fixes/fix_ufloat.py
+++ b/uncertainties/lib1to2/fixes/fix_ufloat.py
@@ -18,15 +18,15 @@ from lib2to3.fixer_util import ArgList, Call, Comma, Name, syms
 # (tuple):
 tuple_call = """
         trailer< '('
-            atom< '(' testlist_gexp< arg0=any ',' arg1=any > ')' >
+            atom< '(' testlist_gexp< arg0=any ',' arg1=any [','] > ')' >
         ')' >"""
 
 # (tuple, any):
 tuple_any_call = """
         trailer< '('
             arglist<
-                atom< '(' testlist_gexp< arg0=any ',' arg1=any > ')' >
-                ',' tag=any
+                atom< '(' testlist_gexp< arg0=any ',' arg1=any [','] > ')' >
+                ',' [tag=any [',']]
             >
         ')' >"""
 
@@ -43,25 +43,25 @@ class FixUfloat(BaseFix):
         |
         power< 'ufloat' {tuple_any_call} any* >
         |
-        power< 'ufloat' trailer< '(' string=STRING ')' > any* >
+        power< 'ufloat' trailer< '(' (string=STRING | string=atom< STRING+ >) ')' > any* >
         |
         power< 'ufloat' trailer< '('
             arglist<
-                string=STRING
-                ',' tag=any
+                (string=STRING | string=atom< STRING+ >)
+                ',' [tag=any [',']]
             >
         ')' > any* >
         |
-        power< object=NAME trailer< '.' 'ufloat' > {tuple_call} any* >
+        power< object=NAME trailer< '.' NAME >* method=trailer< '.' 'ufloat' > {tuple_call} any* >
         |
-        power< object=NAME trailer< '.' 'ufloat' > {tuple_any_call} any* >
+        power< object=NAME trailer< '.' NAME >* method=trailer< '.' 'ufloat' > {tuple_any_call} any* >
         |
-        power< object=NAME trailer< '.' 'ufloat' >
-        trailer< '(' string=STRING ')' >
+        power< object=NAME trailer< '.' NAME >* method=trailer< '.' 'ufloat' >
+        trailer< '(' (string=STRING | string=atom< STRING+ >) ')' >
         any* >
         |
-        power< object=NAME trailer< '.' 'ufloat' >
-        trailer< '(' arglist< string=STRING ',' tag=any > ')' >
+        power< object=NAME trailer< '.' NAME >* method=trailer< '.' 'ufloat' >
+        trailer< '(' arglist< (string=STRING | string=atom< STRING+ >) ',' [tag=any [',']] > ')' >
         any* >
         """.format(tuple_call=tuple_call,
                    tuple_any_call=tuple_any_call)
@@ -91,8 +91,8 @@ class FixUfloat(BaseFix):
             new_args.extend([Comma(), results['tag'].clone()])            
 
         if 'object' in results:  # If dotted access: unc.ufloat()
-            func_name = node.children[1].children[1]
-            args = node.children[2]
+            func_name = results['method'].children[1]
+            args = results['method'].next_sibling
         else:
             func_name = node.children[0]
             args = node.children[1]
-- 
2.43.0


From 66bf5acae0934f56459227851cb9d8fb0732a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 46/58] fix: the code updater did not import ufloat_fromstr in
 programs that import ufloat by name

---
 uncertainties/lib1to2/fixes/fix_ufloat.py | 41 +++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/uncertainties/lib1to2/fixes/fix_ufloat.py b/uncertainties/lib1to2/fixes/fix_ufloat.py
index 7693384..02acbc9 100644
--- a/uncertainties/lib1to2/fixes/fix_ufloat.py
+++ b/uncertainties/lib1to2/fixes/fix_ufloat.py
@@ -8,8 +8,46 @@ ufloat(nominal_value, std_dev,...) and ufloat_fromstr
 '''
 
 from lib2to3.fixer_base import BaseFix
+from lib2to3.pgen2 import token
 from lib2to3.fixer_util import ArgList, Call, Comma, Name, syms
 
+###############################################################################
+# Imports
+
+def import_ufloat_fromstr(node):
+    """
+    Add ufloat_fromstr to the "from uncertainties import ufloat"
+    statements of the program that contains the given lib2to3 node.
+    """
+
+    while node.parent:
+        node = node.parent
+
+    for statement in list(node.pre_order()):
+
+        if (statement.type != syms.import_from
+            or str(statement.children[1]).strip() != 'uncertainties'):
+            continue
+
+        # Imported names, possibly inside parentheses:
+        names = statement.children[
+            4 if statement.children[3].type == token.LPAR else 3]
+
+        # Names imported without the "as" keyword:
+        imported = [
+            name for name in (
+                names.children if names.type == syms.import_as_names
+                else [names])
+            if name.type == token.NAME]
+
+        imported_strs = [name.value for name in imported]
+
+        if 'ufloat' in imported_strs and 'ufloat_fromstr' not in imported_strs:
+            name = imported[imported_strs.index('ufloat')]
+            # No need for independent nodes:
+            name.value = 'ufloat, ufloat_fromstr'
+            name.changed()
+
 ###############################################################################
 # lib2to3 grammar parts.
 
@@ -96,6 +134,9 @@ class FixUfloat(BaseFix):
         else:
             func_name = node.children[0]
             args = node.children[1]
+
+            if 'string' in results:
+                import_ufloat_fromstr(node)
             
         # Function name update:
         func_name.value = new_func_name
-- 
2.43.0


From 2b351b63f69d76e71ec789b9999617af43cdc640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 47/58] fix: the code updater ignored set_std_dev() calls with
 a trailing comma

---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index b9a5b32..6d0ec8c 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -29,6 +29,10 @@ class FixStdDev(BaseFix):
 
             arg = results['set_arg']
 
+            # Argument followed by a comma:
+            if arg.type == syms.arglist and len(arg.children) == 2:
+                arg = arg.children[0]
+
             # Argument given by name:
             if arg.type == syms.argument and arg.children[1].type == token.EQUAL:
                 arg = arg.children[2]
-- 
2.43.0


From 5eb0a8e30484b7510017b68b8203517b46987ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 48/58] fix: the code updater glued std_dev to what follows
 std_dev(): x.std_dev()if c else 0 became x.std_devif c else 0

---
 uncertainties/lib1to2/fixes/fix_std_dev.py  | 24 ++++++++++++++++++++-
 uncertainties/lib1to2/fixes/fix_std_devs.py |  4 +++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index 6d0ec8c..91d3bed 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -11,6 +11,28 @@ from lib2to3.fixer_base import BaseFix
 from lib2to3.fixer_util import (
     Name, Assign, Call, Comma, String, parenthesize, syms)
 
+def remove_call(call):
+    """
+    Remove the given call from the code.
+
+    call -- lib2to3 node: "()" in "x.std_dev()".
+    """
+
+    # Node that follows the call:
+    node = call
+    while node.next_sibling is None:
+        node = node.parent
+    node = node.next_sibling
+
+    # The attribute must not be glued to what follows (as in
+    # "x.std_dev()if condition else 0"):
+    for leaf in node.leaves():
+        if leaf.type == token.NAME and not leaf.prefix:
+            leaf.prefix = ' '
+        break
+
+    call.remove()
+
 class FixStdDev(BaseFix):
 
     # The (cloned) object in object.set_std_dev() must first be modified by
@@ -83,5 +105,5 @@ class FixStdDev(BaseFix):
         else:
             # '.std_dev' is followed by a call with no argument: the call
             # is removed:
-            results['call'].remove()
+            remove_call(results['call'])
         
diff --git a/uncertainties/lib1to2/fixes/fix_std_devs.py b/uncertainties/lib1to2/fixes/fix_std_devs.py
index 9ecc1c9..e205393 100644
--- a/uncertainties/lib1to2/fixes/fix_std_devs.py
+++ b/uncertainties/lib1to2/fixes/fix_std_devs.py
@@ -9,6 +9,8 @@ Transform .std_devs() calls into .std_devs attribute access.
 from lib2to3.fixer_base import BaseFix
 from lib2to3.fixer_util import Name, Assign
 
+from .fix_std_dev import remove_call
+
 class FixStdDevs(BaseFix):
 
     PATTERN = """
@@ -19,4 +21,4 @@ class FixStdDevs(BaseFix):
 
         # '.std_dev' is followed by a call with no argument: the call
         # is removed:
-        results['call'].remove()
+        remove_call(results['call'])
-- 
2.43.0


From 607aca25d117c60b1b3476d1ae88f56d829ea893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 49/58] fix: standard scores of NumPy values with a zero
 standard deviation raise ValueError, as documented, instead of giving inf

---
 uncertainties/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index a03f557..fca9fc9 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2445,14 +2445,17 @@ class AffineScalarFunc(object):
 
         Raises a ValueError exception if the standard deviation is zero.
         """
-        try:
-            # The ._nominal_value is a float: there is no integer division,
-            # here:
-            return (value - self._nominal_value) / self.std_dev
-        except ZeroDivisionError:
+        std_dev = self.std_dev
+
+        # (NumPy objects do not raise ZeroDivisionError.)
+        if std_dev == 0:
             raise ValueError("The standard deviation is zero:"
                              " undefined result")
 
+        # The ._nominal_value is a float: there is no integer division,
+        # here:
+        return (value - self._nominal_value) / std_dev
+
     def __deepcopy__(self, memo):
         """
         Hook for the standard copy module.
-- 
2.43.0


From 65ea00a08fbd8fbe0e06c9dc465ac3b2a1891da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 50/58] fix: decimal.Decimal NaN standard deviations are
 accepted

---
 uncertainties/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index fca9fc9..7539cef 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2883,10 +2883,9 @@ class Variable(AffineScalarFunc):
 
         # We force the error to be float-like.  Since it is considered
         # as a standard deviation, it must be either positive or NaN:
-        # (Note: if NaN < 0 is False, there is no need to test
-        # separately for NaN. But this is not guaranteed, even if it
-        # should work on most platforms.)
-        if std_dev < 0 and not isnan(std_dev):
+        # (Note: NaN < 0 is not guaranteed to be False: for example, it
+        # raises an exception with decimal.Decimal.)
+        if not isnan(std_dev) and std_dev < 0:
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From bdd687f516385808eb3088a5d16d48a2f8049f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 51/58] fix: the refused conversions mention the right type
 (int(x) mentioned float)

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7539cef..ff5516e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2801,7 +2801,7 @@ def add_operators_to_AffineScalarFunc():
     # Conversions to pure numbers are meaningless.  Note that the
     # behavior of float(1j) is similar.
     for coercion_type in ('complex', 'int', 'long', 'float'):
-        def raise_error(self):
+        def raise_error(self, coercion_type=coercion_type):
             raise TypeError("can't convert an affine function (%s)"
                             ' to %s; use x.nominal_value'
                             # In case AffineScalarFunc is sub-classed:
-- 
2.43.0


From b73aa60ffbf1982878de24b6e34a8d74cdba78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 52/58] fix: the obsolete form ufloat((nominal_value, std_dev,
 ...)) silently ignored additional values

---
 uncertainties/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index ff5516e..7cbad7c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3356,7 +3356,8 @@ def ufloat_obsolete(representation, tag=None):
     '''
 
     if isinstance(representation, tuple):
-        return ufloat(representation[0], representation[1], tag)
+        (nominal_value, std_dev) = representation
+        return ufloat(nominal_value, std_dev, tag)
     else:
         return ufloat_fromstr(representation, tag)
 
-- 
2.43.0


From 8e63234ba377cf9d2206f817f9772f9f41b2835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 53/58] fix: wrap_array_func() gave undefined uncertainties to
 elements independent from a variable with a NaN or infinite standard
 deviation

---
 uncertainties/unumpy/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index de08e94..6aafcec 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -224,7 +224,11 @@ def wrap_array_func(func):
             # derivative value might be quite incorrect, but this does
             # not matter as long as the uncertainty of var remains 0,
             # since it is, in this case, a constant.
-            if not shift_var:
+            #
+            # A shift that is not finite (NaN or infinite standard
+            # deviation or nominal value) would make all the elements
+            # undefined, including those that do not depend on var.
+            if not shift_var or not numpy.isfinite(shift_var):
                 shift_var = 1e-8
 
             # Shift of all the elements of arr when var changes by shift_var:
-- 
2.43.0


From 5c1d12cf0f4fb2c94e0b082f25e19b39eea5b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 54/58] fix: wrap_array_func() gave wrong derivatives for
 functions that modify their array

---
 uncertainties/unumpy/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 6aafcec..4775d8b 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -165,7 +165,9 @@ def wrap_array_func(func):
     def wrapped_func(arr, *args, **kwargs):
         # Nominal value:
         arr_nominal_value = nominal_values(arr)
-        func_nominal_value = func(arr_nominal_value, *args, **kwargs)
+        # (a copy is used because func() might modify its argument, whose
+        # original value is needed below)
+        func_nominal_value = func(arr_nominal_value.copy(), *args, **kwargs)
 
         # The algorithm consists in numerically calculating the derivatives
         # of func:
-- 
2.43.0


From 911b40bc2950d9ca762282728eddccf75c903b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 55/58] fix: wrap_array_func() failed for functions that return
 an empty array

---
 uncertainties/unumpy/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 4775d8b..5e74054 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -194,7 +194,9 @@ def wrap_array_func(func):
         # others.  The derivatives have the same shape as the output
         # array (which might differ from the shape of the input array,
         # in the case of the pseudo-inverse).
-        derivatives = numpy.vectorize(lambda _: {})(func_nominal_value)
+        # (the types are set so that the array can be empty)
+        derivatives = numpy.vectorize(lambda _: {}, otypes=[object])(
+            func_nominal_value)
         for var in variables:
 
             # A basic assumption of this package is that the user
@@ -250,9 +252,10 @@ def wrap_array_func(func):
                     derivative_dict[var] = derivative_value
 
         # numbers with uncertainties are built from the result:
-        return numpy.vectorize(uncert_core.AffineScalarFunc)(
+        return numpy.vectorize(uncert_core.AffineScalarFunc, otypes=[object])(
             func_nominal_value,
-            numpy.vectorize(uncert_core.LinearCombination)(derivatives))
+            numpy.vectorize(uncert_core.LinearCombination, otypes=[object])(
+                derivatives))
 
     wrapped_func = uncert_core.set_doc("""\
     Version of %s(...) that works even when its first argument is a NumPy
-- 
2.43.0


From d5ae63588cbac87abe7d852c7fef981e8fb01fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 56/58] fix: time exponential in the number of operations when
 intermediate results are used several times

---
 uncertainties/core.py | 80 ++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7cbad7c..f6c1042 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1598,51 +1598,53 @@ class LinearCombination(object):
         yet expanded.
         """
 
-        # The derivatives are built progressively by expanding each
-        # term of the linear combination until there is no linear
-        # combination to be expanded.
-
         # Final derivatives, constructed progressively:
         derivatives = collections.defaultdict(float)
 
-        # The terms are copied because the current representation of
-        # self must remain valid until it is replaced by the final
-        # one: the expansion can be interrupted (KeyboardInterrupt...),
-        # and self can be concurrently read by another thread (which
-        # might even expand it, or any of its sub-expressions, first).
-        terms = self.linear_combo
-        if isinstance(terms, dict):
-            return
-        terms = list(terms)
-
-        while terms:  # The list of terms is emptied progressively
-
-            # One of the terms is expanded or, if no expansion is
-            # needed, simply added to the existing derivatives.
-            #
-            # Optimization note: since Python's operations are
-            # left-associative, a long sum of Variables can be built
-            # such that the last term is essentially a Variable (and
-            # not a NestedLinearCombination): popping from the
-            # remaining terms allows this term to be quickly put in
-            # the final result, which limits the number of terms
-            # remaining (and whose size can temporarily grow):
-            (main_factor, main_expr) = terms.pop()
-
-            # print "MAINS", main_factor, main_expr
-
-            main_combo = main_expr.linear_combo
-
-            if isinstance(main_combo, dict):  # Expanded form
-                for (var, factor) in main_combo.items():
+        # The sub-expressions are listed so that each one comes after
+        # the sub-expressions that it contains (depth-first search).
+        #
+        # Their representation is read only once because it must be the
+        # same for the whole calculation: the expansion can be
+        # interrupted (KeyboardInterrupt...), and self can be concurrently
+        # read by another thread (which might even expand it, or any of
+        # its sub-expressions, first).
+        combos = {}  # Maps the id() of each sub-expression to its contents
+        sorted_exprs = []
+
+        to_visit = [(self, False)]
+        while to_visit:
+            (expr, contents_visited) = to_visit.pop()
+            if contents_visited:
+                sorted_exprs.append(expr)
+            elif id(expr) not in combos:
+                combo = combos[id(expr)] = expr.linear_combo
+                to_visit.append((expr, True))
+                if not isinstance(combo, dict):  # Non-expanded form
+                    to_visit.extend(
+                        [(term, False) for (_, term) in reversed(combo)])
+
+        # Each sub-expression is expanded only once, when its factor is
+        # complete: the time needed is proportional to the number of
+        # operations even if intermediate results are used many times
+        # (the number of terms in a fully developed sum can be
+        # exponentially large).
+        main_factors = collections.defaultdict(float)
+        main_factors[id(self)] = 1.
+
+        for expr in reversed(sorted_exprs):
+
+            main_factor = main_factors[id(expr)]
+            combo = combos[id(expr)]
+
+            if isinstance(combo, dict):  # Expanded form
+                for (var, factor) in combo.items():
                     derivatives[var] += main_factor*factor
 
             else:  # Non-expanded form
-                for (factor, expr) in main_combo:
-                    # The main_factor is applied to expr:
-                    terms.append((main_factor*factor, expr))
-
-            # print "DERIV", derivatives
+                for (factor, term) in combo:
+                    # The main_factor is applied to the term:
+                    main_factors[id(term)] += main_factor*factor
 
         # Attempts to get the contribution of a variable that the
         # function does not depend on raise a KeyError:
-- 
2.43.0


From fcd76abea1b2487701619ee7fd4b1fe71841042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 57/58] fix: wrap() and wrap_array_func() on callables that
 have no name

functools.partial objects and other callable objects could not be wrapped;
the arguments of callable objects are now correctly identified.
---
 uncertainties/core.py        | 64 ++++++++++++++++++++++--------------
 uncertainties/unumpy/core.py |  9 +++--
 2 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f6c1042..8c4aa2f 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -446,6 +446,34 @@ class IndexableIter(object):
             self.__class__.__name__,
             ', '.join(map(str, self.returned_elements)))
 
+def positional_or_keyword_params(f):
+    """
+    Return the (index, name) pairs of the positional parameters of f that
+    can also be given by name.
+
+    f -- callable: function, method, object with a __call__() method,
+    functools.partial object, etc. The argument bound to a method is not
+    considered to be an argument of f.
+
+    Raises a TypeError or ValueError if f does not provide meta-data about
+    its arguments.
+    """
+
+    try:
+        signature = inspect.signature
+    except AttributeError:  # !! Python 2
+        arg_names = getargspec(f).args
+        if inspect.ismethod(f) and f.__self__ is not None:
+            arg_names = arg_names[1:]
+        return list(enumerate(arg_names))
+
+    # Positional-only parameters are excluded because they cannot be given
+    # by name (a keyword argument with this name is another parameter):
+    return [
+        (index, name) for (index, (name, param)) in enumerate(
+            signature(f, follow_wrapped=False).parameters.items())
+        if param.kind == param.POSITIONAL_OR_KEYWORD]
+
 def wrap(f, derivatives_args=[], derivatives_kwargs={}):
     """
     Wraps a function f into a function that also accepts numbers with
@@ -561,6 +589,9 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
     with uncertainty is likely to make it slower.
     """
 
+    # Some callable objects have no name (functools.partial objects, etc.):
+    f_name = getattr(f, '__name__', type(f).__name__)
+
     derivatives_args_index = IndexableIter(
         # Automatic addition of numerical derivatives in case the
         # supplied derivatives_args is shorter than the number of
@@ -591,8 +622,8 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
     # additional derivatives:
 
     try:
-        argspec = getargspec(f)
-    except TypeError:
+        named_params = positional_or_keyword_params(f)
+    except (TypeError, ValueError):
         # Some functions do not provide meta-data about their
         # arguments (see PEP 362). One cannot use keyword arguments
         # for positional-or-keyword parameters with them: nothing has
@@ -600,27 +631,10 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         pass
     else:
         # With Python 3, there is no need to handle keyword-only
-        # arguments (and therefore to use inspect.getfullargspec())
-        # because they are already handled by derivatives_kwargs.
-
-        arg_names = argspec.args
-
-        # The argument bound to methods is not an argument of f:
-        if inspect.ismethod(f) and f.__self__ is not None:
-            arg_names = arg_names[1:]
-            num_bound = 1
-        else:
-            num_bound = 0
-
-        # Positional-only parameters (Python 3.8+) cannot be given by
-        # name (a keyword argument with this name is another parameter):
-        num_pos_only = getattr(
-            getattr(f, '__code__', None), 'co_posonlyargcount', 0)
-
-        for (index, name) in enumerate(arg_names):
+        # arguments because they are already handled by
+        # derivatives_kwargs.
 
-            if index < num_pos_only-num_bound:
-                continue
+        for (index, name) in named_params:
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
@@ -672,7 +686,7 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
     uncertainties.Variable objects will be incorrect.
 
     Original documentation:
-    %s""" % (f.__name__, f.__doc__))
+    %s""" % (f_name, f.__doc__))
     def f_with_affine_output(*args, **kwargs):
 
         ########################################
@@ -793,12 +807,12 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
     uncertainties.Variable objects will be incorrect.
 
     Original documentation:
-    %s""" % (f.__name__, f.__doc__))(f_with_affine_output)
+    %s""" % (f_name, f.__doc__))(f_with_affine_output)
 
     # It is easier to work with f_with_affine_output, which represents
     # a wrapped version of 'f', when it bears the same name as 'f':
     # ! __name__ is read-only, in Python 2.3:
-    f_with_affine_output.name = f.__name__
+    f_with_affine_output.name = f_name
 
     return f_with_affine_output
 
diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 5e74054..86d6a66 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -151,6 +151,9 @@ def wrap_array_func(func):
     and which returns a NumPy array.
     """
 
+    # Some callable objects have no name (functools.partial objects, etc.):
+    func_name = getattr(func, '__name__', type(func).__name__)
+
     @uncert_core.set_doc("""\
     Version of %s(...) that works even when its first argument is a NumPy
     array that contains numbers with uncertainties.
@@ -161,7 +164,7 @@ def wrap_array_func(func):
     uncert_core.Variable objects will be incorrect.
 
     Original documentation:
-    %s""" % (func.__name__, func.__doc__))
+    %s""" % (func_name, func.__doc__))
     def wrapped_func(arr, *args, **kwargs):
         # Nominal value:
         arr_nominal_value = nominal_values(arr)
@@ -267,12 +270,12 @@ def wrap_array_func(func):
     uncert_core.Variable objects will be incorrect.
 
     Original documentation:
-    %s""" % (func.__name__, func.__doc__))(wrapped_func)
+    %s""" % (func_name, func.__doc__))(wrapped_func)
 
     # It is easier to work with wrapped_func, which represents a
     # wrapped version of 'func', when it bears the same name as
     # 'func' (the name is used by repr(wrapped_func)).
-    wrapped_func.__name__ = func.__name__
+    wrapped_func.__name__ = func_name
 
     return wrapped_func
 
-- 
2.43.0


From b889a582af8dcb51476041ea98487a333b49460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 58/58] fix: correlation matrix of numbers with very small or
 large uncertainties

Variances that underflow or overflow gave NaN correlations.
---
 uncertainties/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 8c4aa2f..49ce992 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -24,7 +24,7 @@ from builtins import object
 import sys
 import re
 import math
-from math import sqrt, log, isnan, isinf  # Optimization: no attribute look-up
+from math import sqrt, log, frexp, isnan, isinf  # Optimization: no attribute look-up
 
 try:
     from math import isinfinite  # !! Python 3.2+
@@ -3060,7 +3060,19 @@ else:
         numbers with uncertainties, as a NumPy array of floats.
         '''
 
-        cov_mat = numpy.array(covariance_matrix(nums_with_uncert))
+        # The scale of each number has no impact on correlations: it is
+        # (exactly) set to be around 1, so that the variances do not
+        # underflow or overflow:
+        scaled_nums = []
+        for num in nums_with_uncert:
+            (_, exponent) = frexp(num.std_dev)
+            # (Powers of two are limited to the float range.)
+            scale = 2.**min(max(-exponent, -1000), 1000)
+            scaled_nums.append(AffineScalarFunc(
+                num.nominal_value,
+                LinearCombination([(scale, num._linear_part)])))
+
+        cov_mat = numpy.array(covariance_matrix(scaled_nums))
 
         std_devs = numpy.sqrt(cov_mat.diagonal())
 
-- 
2.43.0

