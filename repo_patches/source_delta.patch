From b7750ac3bc3f13c6b4b70dd756f4168fba246914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 01/30] fix: fold every free vector of a two-sided numeric
 array within its bounds

Large free values overflowed to nan, and rounding could push saturated
values just outside the bounds, so that the folded value was invalid.
Also remove the shadowed duplicate definition of _constrain_array.
---
 paragami/numeric_array_patterns.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 83ea445..5a2dcf3 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -54,8 +54,10 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # This is exp(x) / (1 + exp(x)), but does not overflow.
+            ratio = np.exp(-1 * np.logaddexp(0., -1 * free_array))
+            # Rounding must not push the value out of bounds.
+            return np.clip((ub - lb) * ratio + lb, lb, ub)
 
 
 def _constrain_array_jacobian(free_array, lb, ub):
@@ -93,24 +95,6 @@ def _get_inbounds_value(lb, ub):
             return 0.0
 
 
-def _constrain_array(free_array, lb, ub):
-    # Assume that lb < ub, which is checked in the pattern.
-    if ub == float("inf"):
-        if lb == -float("inf"):
-            # For consistency, never return a reference.
-            #return copy.deepcopy(free_array)
-            #return free_array
-            return copy.copy(free_array)
-        else:
-            return np.exp(free_array) + lb
-    else:  # the upper bound is finite
-        if lb == -float("inf"):
-            return ub - np.exp(-1 * free_array)
-        else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
-
-
 class NumericArrayPattern(Pattern):
     """
     A pattern for (optionally bounded) arrays of numbers.
-- 
2.43.0


From 4ed3f145920ed0b9f8ee1c36fb6666d555cfefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 02/30] fix: keep simplexes normalized when folding large free
 values

---
 paragami/simplex_patterns.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 78ca980..35fa079 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -29,6 +29,10 @@ def _constrain_simplex_matrix(free_mat):
     reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)
     free_mat_aug = np.concatenate([reference_col, free_mat], axis=-1)
 
+    # Softmax is invariant to shifts.  Keeping the largest entry at zero
+    # avoids losing precision (and so normalization) to large free values.
+    free_mat_aug = free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True)
+
     # Note that autograd needs to update their logsumexp to be in special
     # not misc before this can be changed.  Furthermore, logsumexp is
     # not even available in the pypi version of autograd.
-- 
2.43.0


From 7e39ad6e413cdd367acaa7f645b79d8119746c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/30] fix: validate_folded reports a wrong shape instead of
 raising

It is documented to return a boolean and an error message, as it does for
the other patterns.  flatten still raises ValueError with the same message.
---
 paragami/psdmatrix_patterns.py | 2 +-
 paragami/simplex_patterns.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 43affc4..db2c3ad 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -272,7 +272,7 @@ class PSDSymmetricMatrixPattern(Pattern):
         """
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
 
         if validate_value is None:
             validate_value = self.default_validate
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 35fa079..fbd880b 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -151,7 +151,7 @@ class SimplexArrayPattern(Pattern):
     def validate_folded(self, folded_val, validate_value=None):
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
-- 
2.43.0


From 0a1327cc7c6f80b62bcf47ae6d633ed19477a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 04/30] fix: return dense simplex Jacobians as arrays, not
 numpy.matrix

---
 paragami/simplex_patterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index fbd880b..aa7befa 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -198,7 +198,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         array_ranges = [ range(i) for i in self.__array_shape ]
@@ -211,7 +211,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     @classmethod
     def from_json(cls, json_string):
-- 
2.43.0


From b2496417f4e6409fad5fa0bd436ac575283f4033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 05/30] fix: reject flat values that are not 1d when folding
 simplexes

---
 paragami/simplex_patterns.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index aa7befa..f16b4fd 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -164,8 +164,11 @@ class SimplexArrayPattern(Pattern):
 
     def fold(self, flat_val, free=None, validate_value=None):
         free = self._free_with_default(free)
+        flat_val = np.atleast_1d(flat_val)
+        if flat_val.ndim != 1:
+            raise ValueError('The argument to fold must be a 1d vector.')
         flat_size = self.flat_length(free)
-        if len(flat_val) != flat_size:
+        if flat_val.size != flat_size:
             raise ValueError('flat_val is the wrong length.')
         if free:
             free_mat = np.reshape(flat_val, self.__free_shape)
-- 
2.43.0


From 61fb57c4f56d1da5f4c810a53d6ae6797267be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 06/30] fix: keep free_default when converting patterns to and
 from JSON

Only numeric arrays recorded it, so other patterns restored from JSON (or
from a file) raised an error, or compared equal, where the original did not.
---
 paragami/pattern_containers.py | 11 +++++++----
 paragami/psdmatrix_patterns.py |  3 ++-
 paragami/simplex_patterns.py   |  6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 20c06c0..8954a25 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -206,7 +206,8 @@ class PatternDict(Pattern):
         return {
             'pattern': self.json_typename(),
             'keys': keys,
-            'contents': contents}
+            'contents': contents,
+            'free_default': self.free_default}
 
     def _check_lock(self):
         if self.__lock:
@@ -376,7 +377,7 @@ class PatternDict(Pattern):
                  'pattern type was {}.').format(
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
-        pattern_dict = cls()
+        pattern_dict = cls(free_default=json_dict.get('free_default'))
         for pattern_name in json_dict['keys']:
             pattern_dict[pattern_name] = get_pattern_from_json(
                 json_dict['contents'][pattern_name])
@@ -487,7 +488,8 @@ class PatternArray(Pattern):
             'pattern': self.json_typename(),
             'shape': self.__shape,
             'array_shape': self.__array_shape,
-            'base_pattern': self.__base_pattern.to_json() }
+            'base_pattern': self.__base_pattern.to_json(),
+            'free_default': self.free_default }
 
     def array_shape(self):
         """The shape of the array of parameters.
@@ -639,7 +641,8 @@ class PatternArray(Pattern):
             raise ValueError(error_string)
         base_pattern = get_pattern_from_json(json_dict['base_pattern'])
         return cls(
-            array_shape=json_dict['array_shape'], base_pattern=base_pattern)
+            array_shape=json_dict['array_shape'], base_pattern=base_pattern,
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         free = self._free_with_default(free)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index db2c3ad..45a1efa 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -212,7 +212,8 @@ class PSDSymmetricMatrixPattern(Pattern):
             'pattern': self.json_typename(),
             'size': self.__size,
             'diag_lb': self.__diag_lb,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def size(self):
         """Returns the matrix size.
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index f16b4fd..41bef9a 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -134,7 +134,8 @@ class SimplexArrayPattern(Pattern):
             'pattern': self.json_typename(),
             'simplex_size': self.__simplex_size,
             'array_shape': self.__array_shape,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def empty(self, valid):
         if valid:
@@ -226,7 +227,8 @@ class SimplexArrayPattern(Pattern):
         return cls(
             simplex_size=json_dict['simplex_size'],
             array_shape=tuple(json_dict['array_shape']),
-            default_validate=json_dict['default_validate'])
+            default_validate=json_dict['default_validate'],
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         # If no indices are specified, save time and return an empty array.
-- 
2.43.0


From 9f6194c839c160a0b0ff8a8aa14d91e60ddf24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 07/30] fix: log a copy of the argument of an optimization
 objective

Updating the argument in place changed the entries already in the log.
---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ea2a538..fa78d2a 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -458,7 +458,8 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, x, f_val))
+        # The caller may modify x in place after the evaluation.
+        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From 48475c712cd710cc48806fa57c747b0958b9a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 08/30] fix: truncate integer eigenvalues to fractional limits

The limits were rounded towards zero, leaving values beyond them.
---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index fa78d2a..a803d85 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -31,7 +31,8 @@ def truncate_eigenvalues(evals, ev_min=None, ev_max=None):
     eig_val_trunc
         A truncated version of ``evals``.
     """
-    eig_val_trunc = copy.deepcopy(evals)
+    # Integers cannot represent the limits.
+    eig_val_trunc = np.array(evals, dtype=np.result_type(evals, float))
     if not ev_min is None:
         if not np.isreal(ev_min):
             raise ValueError('ev_min must be real-valued.')
-- 
2.43.0


From db6e0232616c4995086f4a84e09d03ac36910e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 09/30] fix: raise ValueError for missing return values of any
 callable

Callables without a __name__ (e.g. functools.partial objects or paragami's
own function wrappers) raised AttributeError while formatting the message.
---
 paragami/function_patterns.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/paragami/function_patterns.py b/paragami/function_patterns.py
index c10a421..13560eb 100644
--- a/paragami/function_patterns.py
+++ b/paragami/function_patterns.py
@@ -219,10 +219,10 @@ class TransformFunctionOutput:
         # parameters with their transformed values.
         rets = self._fun(*args, **kwargs)
         if not isinstance(rets, tuple):
-            if not self._retnums == [0]:
-                err_msg = ('{} returned only one value, but multiple' +
-                           'retnums were specified: {}'.format(
-                            self._fun.__name__, self._retnums))
+            if not np.array_equal(self._retnums, [0]):
+                err_msg = ('{} returned only one value, but multiple ' +
+                           'retnums were specified: {}').format(
+                            self._fun, self._retnums)
                 raise ValueError(err_msg)
             if self._original_is_flat:
                 return self._patterns[0].fold(rets, free=self.free[0])
@@ -235,11 +235,11 @@ class TransformFunctionOutput:
         for i in self._retnum_sort:
             retnum = self._retnums[i]
             if len(rets) <= retnum:
-                err_msg = ('Not enough return values in {} ({}) for' +
-                           'specified retnums {}.'.format(
-                            self._fun.__name__,
+                err_msg = ('Not enough return values in {} ({}) for ' +
+                           'specified retnums {}.').format(
+                            self._fun,
                             len(rets),
-                            self._retnums))
+                            self._retnums)
                 raise ValueError(err_msg)
             if self._original_is_flat:
                 new_ret = \
-- 
2.43.0


From dccedaf6563b47e1aa1dd0fd4e7aaa6d8715f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 10/30] fix: invert 1x1 sparse preconditioners

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index a803d85..cd52443 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -200,7 +200,8 @@ class PreconditionedFunction():
         """
         if osp.sparse.issparse(a):
             if a_inv is None:
-                a_inv = osp.sparse.linalg.inv(a)
+                # For 1x1 matrices, scipy returns a dense vector.
+                a_inv = osp.sparse.csc_matrix(osp.sparse.linalg.inv(a))
             a_times, _ = get_sparse_product(a)
             a_inv_times, _ = get_sparse_product(a_inv)
             self.set_preconditioner_functions(a_times, a_inv_times)
-- 
2.43.0


From ea59d5dc66edc7b8c7e0f04606c775afc1f0dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 11/30] fix: return the thresholded Hessian when setting the
 preconditioner

set_preconditioner_with_hessian is documented to return it.
---
 paragami/optimization_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index cd52443..2bd573f 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -292,6 +292,10 @@ class PreconditionedFunction():
                     hessian, ev_min=ev_min, ev_max=ev_max)
         self.set_preconditioner_functions(mult_hess_inv_sqrt, mult_hess_sqrt)
 
+        hess_sqrt = _get_matrix_from_operator(
+            mult_hess_sqrt, np.atleast_2d(hessian).shape[0])
+        return hess_sqrt @ hess_sqrt
+
     def precondition(self, x):
         """
         Multiply by the inverse of the preconditioner to convert
-- 
2.43.0


From b17b21f0af86ca923b2c2145b517e6990d204a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 12/30] fix: use the dictionary's free_default for its flat
 names

With free unspecified, members used their own defaults, which may be unset
or disagree with one another.
---
 paragami/pattern_containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 8954a25..62167b9 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -407,6 +407,7 @@ class PatternDict(Pattern):
             return np.array([], dtype=int)
 
     def flat_names(self, free, delim='_'):
+        free = self._free_with_default(free)
         flat_names_list = []
         for pattern_name, pattern in self.__pattern_dict.items():
             pattern_flat_names = pattern.flat_names(free)
-- 
2.43.0


From e2f8a68e74d61c706baf774f4d5c0311fd6a2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 13/30] fix: support empty pattern dictionaries

Flattening (also as a member of another dictionary) and Jacobians raised
IndexError or ValueError, and deleting the last member left a non-integer
flat length.
---
 paragami/pattern_containers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 62167b9..9189e9b 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -318,16 +318,19 @@ class PatternDict(Pattern):
                     free=free,
                     validate_value=validate_value))
             #offset += pattern_flat_length
+        if len(flat_vals) == 0:
+            return np.array([])
         return np.hstack(flat_vals)
 
     def _update_flat_length(self, free):
         # This is a little wasteful with the benefit of being less error-prone
         # than adding and subtracting lengths as keys are changed.
-        return np.sum([pattern.flat_length(free) for pattern_name, pattern in
-                       self.__pattern_dict.items()])
+        return int(np.sum([pattern.flat_length(free) for pattern_name, pattern
+                           in self.__pattern_dict.items()]))
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
-        jacobians = []
+        # Start with an empty block, as block_diag needs at least one.
+        jacobians = [ coo_matrix((0, 0)) ]
         for pattern_name, pattern in self.__pattern_dict.items():
             jac = pattern.unfreeing_jacobian(
                 folded_val[pattern_name], sparse=True)
@@ -341,7 +344,8 @@ class PatternDict(Pattern):
             return np.array(sp_jac.todense())
 
     def freeing_jacobian(self, folded_val, sparse=True):
-        jacobians = []
+        # Start with an empty block, as block_diag needs at least one.
+        jacobians = [ coo_matrix((0, 0)) ]
         for pattern_name, pattern in self.__pattern_dict.items():
             jac = pattern.freeing_jacobian(
                 folded_val[pattern_name], sparse=True)
@@ -415,6 +419,8 @@ class PatternDict(Pattern):
             pattern_flat_names = \
                 [ pattern_name + delim + t for t in pattern_flat_names]
             flat_names_list.append(pattern_flat_names)
+        if len(flat_names_list) == 0:
+            return np.array([], dtype=str)
         return np.hstack(flat_names_list)
 
 
-- 
2.43.0


From 56635372acf1c32dea0b9bba0fc3f0d59f637c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 14/30] fix: accept array-like values in numeric array
 Jacobians

A list is a valid folded value for flatten and validate_folded, but raised
TypeError in the Jacobians of bounded patterns.
---
 paragami/numeric_array_patterns.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 5a2dcf3..1f7125d 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -258,6 +258,7 @@ class NumericArrayPattern(Pattern):
             return self.__nonfree_folded_indices[folded_bool]
 
     def freeing_jacobian(self, folded_val, sparse=True):
+        folded_val = np.atleast_1d(folded_val)
         jac_array = \
             _unconstrain_array_jacobian(folded_val, self._lb, self._ub)
         jac_array = np.atleast_1d(jac_array).flatten()
@@ -267,6 +268,7 @@ class NumericArrayPattern(Pattern):
             return np.diag(jac_array)
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
+        folded_val = np.atleast_1d(folded_val)
         jac_array = \
             _constrain_array_jacobian(
                 _unconstrain_array(folded_val, self._lb, self._ub),
@@ -278,11 +280,13 @@ class NumericArrayPattern(Pattern):
             return np.diag(jac_array)
 
     def log_abs_det_freeing_jacobian(self, folded_val):
+        folded_val = np.atleast_1d(folded_val)
         jac_array = \
             _unconstrain_array_jacobian(folded_val, self._lb, self._ub)
         return np.sum(np.log(np.abs(jac_array)))
 
     def log_abs_det_unfreeing_jacobian(self, folded_val):
+        folded_val = np.atleast_1d(folded_val)
         jac_array = \
             _constrain_array_jacobian(
                 _unconstrain_array(folded_val, self._lb, self._ub),
-- 
2.43.0


From 4bb5650c5ab67b156ad9e76f04a84dd0c963ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:33 +0000
Subject: [PATCH 15/30] fix: grouped_sum: differentiate with groups given as
 tuples or floats

---
 paragami/autograd_supplement_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 75d47fe..65bbff9 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -225,6 +225,9 @@ def grouped_sum(x, groups, num_groups=None):
     return result
 
 def _ungroup(v, groups):
+    # Interpret groups as in grouped_sum; in particular, indexing with a tuple
+    # would select a single element.
+    groups = np.atleast_1d(groups).astype('int64')
     if v.ndim > 1:
         return v[groups, :]
     else:
-- 
2.43.0


From 227865fea804cd8f792429c377a2af31062bbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 16/30] fix: truncate eigenvalues given as a list

---
 paragami/optimization_lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 2bd573f..fe01b9b 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -32,7 +32,9 @@ def truncate_eigenvalues(evals, ev_min=None, ev_max=None):
         A truncated version of ``evals``.
     """
     # Integers cannot represent the limits.
-    eig_val_trunc = np.array(evals, dtype=np.result_type(evals, float))
+    eig_val_trunc = np.array(evals)
+    eig_val_trunc = eig_val_trunc.astype(
+        np.result_type(eig_val_trunc.dtype, float))
     if not ev_min is None:
         if not np.isreal(ev_min):
             raise ValueError('ev_min must be real-valued.')
-- 
2.43.0


From 1f6b50972ffac0059e40df104e0ce919003e488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 17/30] fix: leave a pattern dictionary unchanged when a
 non-pattern is inserted

---
 paragami/pattern_containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 9189e9b..5b05013 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -216,6 +216,9 @@ class PatternDict(Pattern):
 
     def __setitem__(self, pattern_name, pattern):
         self._check_lock()
+        # Check first, so that a rejected value leaves the dictionary unchanged.
+        if not isinstance(pattern, Pattern):
+            raise ValueError('The values of a PatternDict must be patterns.')
         # if pattern_name in self.__pattern_dict.keys():
         #     self.__delitem__(pattern_name)
 
-- 
2.43.0


From a3d5bd979d56457ef451c15439c6203a0861cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:11 +0000
Subject: [PATCH 18/30] fix: keep the unfreeing Jacobian of two-sided bounds
 accurate near the bounds

---
 paragami/numeric_array_patterns.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 1f7125d..9b01ba2 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -73,10 +73,12 @@ def _constrain_array_jacobian(free_array, lb, ub):
             return np.exp(-1 * free_array)
         else:
             # d/dx exp(x) / (1 + exp(x)) =
-            #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2
-            exp_vec = np.exp(free_array)
-            ratio = exp_vec / (1 + exp_vec)
-            return (ub - lb) * ratio * (1 - ratio)
+            #    1 / ((1 + exp(x)) * (1 + exp(-x))), but does not overflow
+            # and does not lose precision near the bounds.
+            log_ratio_prod = \
+                -1 * np.logaddexp(0., free_array) - \
+                np.logaddexp(0., -1 * free_array)
+            return (ub - lb) * np.exp(log_ratio_prod)
 
 
 def _get_inbounds_value(lb, ub):
-- 
2.43.0


From 2bcaf15385e8a28dbe2fea52b1b87f56bc3f5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 19/30] fix: keep small and large diagonals when freeing and
 folding PSD matrices

Adding the exponentiated (or logged) diagonal and then subtracting the
original one cancelled: eye(2) * 1e-40 and eye(2) * 1e40 folded back to
zero and one.
---
 paragami/psdmatrix_patterns.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 45a1efa..6387772 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -125,8 +125,7 @@ def _exp_matrix_diagonal(mat):
     # NB: make_diagonal() is only defined in the autograd version of numpy
     mat_exp_diag = np.make_diagonal(
         np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_exp_diag + mat - mat_diag
+    return mat_exp_diag + np.tril(mat, -1) + np.triu(mat, 1)
 
 
 def _log_matrix_diagonal(mat):
@@ -134,8 +133,7 @@ def _log_matrix_diagonal(mat):
     # NB: make_diagonal() is only defined in the autograd version of numpy
     mat_log_diag = np.make_diagonal(
         np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_log_diag + mat - mat_diag
+    return mat_log_diag + np.tril(mat, -1) + np.triu(mat, 1)
 
 
 def _pack_posdef_matrix(mat, diag_lb=0.0):
-- 
2.43.0


From d026bb06f4d5ca3872160441cddfa53769cb8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:30 +0000
Subject: [PATCH 20/30] fix: serialize patterns configured with numpy scalars

Sizes, shapes, bounds and defaults given as numpy scalars made to_json, and
comparing containers of such patterns, raise TypeError.
---
 paragami/base_patterns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paragami/base_patterns.py b/paragami/base_patterns.py
index 482d5c7..308f07f 100644
--- a/paragami/base_patterns.py
+++ b/paragami/base_patterns.py
@@ -367,7 +367,9 @@ class Pattern(ABC):
         ------------
         Pattern.from_json
         """
-        return json.dumps(self.as_dict())
+        # Sizes and bounds may be numpy scalars.
+        return json.dumps(
+            self.as_dict(), default=lambda x: np.asarray(x).tolist())
 
     def flat_names(self, free):
         """Return a tidy named vector for the flat values.
-- 
2.43.0


From 692f00a9b9fd29548a08a5628c9de2189d5a4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 21/30] fix: compare containers by their members, not by the
 members' JSON

PatternDicts and PatternArrays whose members compare equal, but were given
a bound as 0 and as 0.0, compared unequal.
---
 paragami/pattern_containers.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 5b05013..e98b239 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -209,6 +209,14 @@ class PatternDict(Pattern):
             'contents': contents,
             'free_default': self.free_default}
 
+    def __eq__(self, other):
+        # The JSON of equal members may differ, e.g., for bounds 0 and 0.0.
+        return \
+            type(other) == type(self) and \
+            self.free_default == other.free_default and \
+            list(self.keys()) == list(other.keys()) and \
+            all(self[key] == other[key] for key in self.keys())
+
     def _check_lock(self):
         if self.__lock:
             raise ValueError(
@@ -501,6 +509,15 @@ class PatternArray(Pattern):
             'base_pattern': self.__base_pattern.to_json(),
             'free_default': self.free_default }
 
+    def __eq__(self, other):
+        # The JSON of equal base patterns may differ, e.g., for bounds 0 and
+        # 0.0.
+        return \
+            type(other) == type(self) and \
+            self.free_default == other.free_default and \
+            self.array_shape() == other.array_shape() and \
+            self.base_pattern() == other.base_pattern()
+
     def array_shape(self):
         """The shape of the array of parameters.
 
-- 
2.43.0


From b66a7f2bc48d176875d56fb7b128b455043a2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 22/30] fix: lock members whose class is derived from
 PatternDict

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index e98b239..6781628 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -237,7 +237,7 @@ class PatternDict(Pattern):
         # since we have no way of updating the parent dictionary's size.
         # To avoid unexpected errors, lock any dictionary that is set as
         # a member.
-        if type(self.__pattern_dict[pattern_name]) is PatternDict:
+        if isinstance(self.__pattern_dict[pattern_name], PatternDict):
             self.__pattern_dict[pattern_name].lock()
 
         self._free_flat_length = self._update_flat_length(free=True)
-- 
2.43.0


From 832ae978c759cb42d27d1a871a1aecf4b78e0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:28 +0000
Subject: [PATCH 23/30] fix: bounded numeric arrays of small integer types
 overflowed or lost precision when freed

The difference of, e.g., an int8 array and an integer bound was taken in int8,
and its logarithm in half precision.
---
 paragami/numeric_array_patterns.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 9b01ba2..9e958db 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -11,6 +11,8 @@ from scipy import sparse
 def _unconstrain_array(array, lb, ub):
     # Assume that the inputs obey the constraints, lb < ub and
     # lb <= array <= ub, which are checked in the pattern.
+    # Differences with integer bounds could overflow small integer types.
+    lb, ub = float(lb), float(ub)
     if ub == float("inf"):
         if lb == -float("inf"):
             # For consistent behavior, never return a reference.
@@ -28,6 +30,8 @@ def _unconstrain_array(array, lb, ub):
 def _unconstrain_array_jacobian(array, lb, ub):
     # The Jacobian of the unconstraining mapping in the same shape as
     # the original array.
+    # Differences with integer bounds could overflow small integer types.
+    lb, ub = float(lb), float(ub)
     if ub == float("inf"):
         if lb == -float("inf"):
             return np.ones_like(array)
-- 
2.43.0


From 766ef10376db6f011985483161ad188abac4870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:08 +0000
Subject: [PATCH 24/30] fix: log a deep copy of the argument of the objective

---
 paragami/optimization_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index fe01b9b..ba93323 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -467,7 +467,7 @@ class OptimizationObjective():
             The value of the objective at ``x``.
         """
         # The caller may modify x in place after the evaluation.
-        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
+        self.optimization_log.append((num_f_evals, copy.deepcopy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From 6b52fd26010e5317397f9e627439855a59682b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:11 +0000
Subject: [PATCH 25/30] fix: grouped sums of no rows

---
 paragami/autograd_supplement_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 65bbff9..5ac43ce 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -208,7 +208,8 @@ def grouped_sum(x, groups, num_groups=None):
     n_obs = len(groups)
     if x.shape[0] != n_obs:
         raise ValueError('The first dimension of x must match the length of groups')
-    max_group = np.max(groups)
+    # There may be no rows at all.
+    max_group = np.max(groups, initial=-1)
     if num_groups is None:
         num_groups = max_group + 1
     else:
-- 
2.43.0


From 0ea31ed65842e76787a89e51eb40c46ceab774f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:14 +0000
Subject: [PATCH 26/30] fix: Jacobians of simplex arrays without elements

---
 paragami/simplex_patterns.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 41bef9a..dbabace 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -193,7 +193,8 @@ class SimplexArrayPattern(Pattern):
 
     def freeing_jacobian(self, folded_val, sparse=True):
         array_ranges = [ range(i) for i in self.__array_shape ]
-        jacobians = []
+        # Start with an empty block, as block_diag needs at least one.
+        jacobians = [ coo_matrix((0, 0)) ]
         for item in itertools.product(*array_ranges):
             jac = _unconstrain_simplex_jacobian(folded_val[item][:])
             jacobians.append(jac)
@@ -206,7 +207,8 @@ class SimplexArrayPattern(Pattern):
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         array_ranges = [ range(i) for i in self.__array_shape ]
-        jacobians = []
+        # Start with an empty block, as block_diag needs at least one.
+        jacobians = [ coo_matrix((0, 0)) ]
         for item in itertools.product(*array_ranges):
             jac = _constrain_simplex_jacobian(folded_val[item][:])
             jacobians.append(jac)
-- 
2.43.0


From b064ccaba2e78de9e3c8308e825088d759bab269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 27/30] fix: function wrappers unpacked user-defined patterns
 that are sequences

---
 paragami/function_patterns.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/paragami/function_patterns.py b/paragami/function_patterns.py
index 13560eb..ee47ccf 100644
--- a/paragami/function_patterns.py
+++ b/paragami/function_patterns.py
@@ -2,6 +2,23 @@ import copy
 import numpy as np
 import warnings
 
+from .base_patterns import Pattern
+
+
+def _get_pattern_array(patterns):
+    """Return an array of patterns from a single pattern or a list of patterns.
+    """
+    if isinstance(patterns, Pattern):
+        patterns = [patterns]
+    if isinstance(patterns, (list, tuple)) and \
+            all(isinstance(pattern, Pattern) for pattern in patterns):
+        # A pattern may itself be a sequence, which numpy would unpack.
+        pattern_array = np.empty(len(patterns), dtype=object)
+        for i, pattern in enumerate(patterns):
+            pattern_array[i] = pattern
+        return pattern_array
+    return np.atleast_1d(patterns)
+
 
 class TransformFunctionInput:
     """
@@ -60,7 +77,7 @@ class TransformFunctionInput:
         """
 
         self._fun = original_fun
-        self._patterns = np.atleast_1d(patterns)
+        self._patterns = _get_pattern_array(patterns)
         if argnums is None:
             argnums = np.arange(0, len(self._patterns))
         self._argnums = np.atleast_1d(argnums)
@@ -179,7 +196,7 @@ class TransformFunctionOutput:
         """
 
         self._fun = original_fun
-        self._patterns = np.atleast_1d(patterns)
+        self._patterns = _get_pattern_array(patterns)
         if retnums is None:
             retnums = np.arange(0, len(self._patterns))
         self._retnums = np.atleast_1d(retnums)
-- 
2.43.0


From be73c88cb9a47a35f65eac4060b2fe2267308207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:19 +0000
Subject: [PATCH 28/30] fix: lengths of pattern arrays of shape () were not
 integers

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 6781628..759c43e 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -467,7 +467,7 @@ class PatternArray(Pattern):
         self.__array_shape = tuple(array_shape)
         self.__array_ranges = [range(0, t) for t in self.__array_shape]
 
-        num_elements = np.prod(self.__array_shape)
+        num_elements = int(np.prod(self.__array_shape))
         self.__base_pattern = base_pattern
 
         # Check whether the base_pattern takes values that are numpy arrays.
-- 
2.43.0


From 9c6de51d907d314552a40bc1c8bd1f038c66ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:22 +0000
Subject: [PATCH 29/30] fix: flat values and Jacobians of pattern arrays
 without elements

---
 paragami/pattern_containers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 759c43e..1a66087 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -615,10 +615,13 @@ class PatternArray(Pattern):
         if not valid:
             raise ValueError(msg)
 
-        return np.hstack(np.array([
+        flat_vals = [
             self.__base_pattern.flatten(
                 folded_val[item], free=free, validate_value=validate_value)
-            for item in itertools.product(*self.__array_ranges)]))
+            for item in itertools.product(*self.__array_ranges)]
+        if len(flat_vals) == 0:
+            return np.array([])
+        return np.hstack(np.array(flat_vals))
 
     def flat_length(self, free=None):
         free = self._free_with_default(free)
@@ -628,7 +631,8 @@ class PatternArray(Pattern):
         base_flat_length = self.__base_pattern.flat_length(free=True)
         base_freeflat_length = self.__base_pattern.flat_length(free=True)
 
-        jacobians = []
+        # Start with an empty block, as block_diag needs at least one.
+        jacobians = [ coo_matrix((0, 0)) ]
         for item in itertools.product(*self.__array_ranges):
             jac = self.__base_pattern.unfreeing_jacobian(
                 folded_val[item], sparse=True)
@@ -644,7 +648,8 @@ class PatternArray(Pattern):
         base_flat_length = self.__base_pattern.flat_length(free=True)
         base_freeflat_length = self.__base_pattern.flat_length(free=True)
 
-        jacobians = []
+        # Start with an empty block, as block_diag needs at least one.
+        jacobians = [ coo_matrix((0, 0)) ]
         for item in itertools.product(*self.__array_ranges):
             jac = self.__base_pattern.freeing_jacobian(
                 folded_val[item], sparse=True)
-- 
2.43.0


From b8e52a36b88aba8357fb8d1e21875b42482e9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:09 +0000
Subject: [PATCH 30/30] fix: small numpy types of two-sided bounds overflowed
 or were rounded when folding free values

---
 paragami/numeric_array_patterns.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 9e958db..3b134d4 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -46,6 +46,8 @@ def _unconstrain_array_jacobian(array, lb, ub):
 
 def _constrain_array(free_array, lb, ub):
     # Assume that lb < ub, which is checked in the pattern.
+    # The difference of bounds could overflow or be rounded in small types.
+    lb, ub = float(lb), float(ub)
     if ub == float("inf"):
         if lb == -float("inf"):
             # For consistency, never return a reference.
@@ -67,6 +69,8 @@ def _constrain_array(free_array, lb, ub):
 def _constrain_array_jacobian(free_array, lb, ub):
     # The Jacobian of the constraining mapping in the same shape as the
     # original array.
+    # The difference of bounds could overflow or be rounded in small types.
+    lb, ub = float(lb), float(ub)
     if ub == float("inf"):
         if lb == -float("inf"):
             return np.ones_like(free_array)
@@ -87,6 +91,8 @@ def _constrain_array_jacobian(free_array, lb, ub):
 
 def _get_inbounds_value(lb, ub):
     assert lb < ub
+    # The difference of bounds could overflow or be rounded in small types.
+    lb, ub = float(lb), float(ub)
     if lb > -float('inf') and ub < float('inf'):
         return 0.5 * (ub - lb) + lb
     else:
-- 
2.43.0

