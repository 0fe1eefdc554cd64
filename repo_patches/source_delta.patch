From 32bc3d1c7edcafdbafe941a39877939e8b970c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:07 +0000
Subject: [PATCH 01/29] fix: do not compute the CP error from a stale MTTKRP
 cache

The cache was kept after the fit and across changes of target, so refitting a
used decomposer crashed or reported the error of another model.  Also never
report a negative squared error (the RMSE was NaN).
---
 src/tenkit/decomposition/cp.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 4154beb..bc7432f 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -86,6 +86,11 @@ class BaseCP(BaseDecomposer):
         self.ridge_penalties = ridge_penalties
         self.rel_loss_tol = rel_loss_tol
 
+    def set_target(self, X):
+        super().set_target(X)
+        # The cached MTTKRP belongs to the previous target
+        self._last_updated_mode = None
+
     def init_random(self):
         """Random initialisation of the factor matrices.
 
@@ -171,11 +176,13 @@ class BaseCP(BaseDecomposer):
         if hasattr(self, '_last_updated_mode') and self._last_updated_mode is not None:
             # ||X - Y||_F^2 = ||X||_F^2 + ||Y||_F^2 - 2<X, Y>_F
             # Y = [U_0, U_1, U_2], <X, Y> = sum(U_i*mttkrp(X, Y, skip=i))
+            # Rounding can make this expression (slightly) negative for perfect fits
             
-            return (
+            return max(
                 self.X_norm**2
                  + np.linalg.norm(self.reconstructed_X)**2
-                 - 2*self._inner_prod_X_reconstructed_X
+                 - 2*self._inner_prod_X_reconstructed_X,
+                0.0
             )
             
         return np.linalg.norm(self.X - self.reconstructed_X)**2
@@ -384,23 +391,33 @@ class CP_ALS(BaseCP):
 
     def _update_als_factor(self, mode):
         """Solve least squares problem to get factor for one mode."""
+        # The cached MTTKRP is not valid while this factor is being updated
+        self._last_updated_mode = None
+
         lhs = self._get_als_lhs(mode)
         rhs = self._get_als_rhs(mode)
 
         rightsolve = self._get_rightsolve(mode)
 
-        self._last_updated_mode = mode
-        self._matrix_khatri_rao_product_cache = rhs
-
         new_factor = rightsolve(lhs, rhs)
         self.factor_matrices[mode][...] = new_factor
 
+        self._last_updated_mode = mode
+        self._matrix_khatri_rao_product_cache = rhs
+
     def _update_als_factors(self):
         """Updates factors with alternating least squares."""
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
             self._update_als_factor(mode)
    
+    def _after_fit_iteration(self):
+        try:
+            super()._after_fit_iteration()
+        finally:
+            # The factor matrices can be changed from the outside from here on
+            self._last_updated_mode = None
+
     def _update_convergence(self):
         self._rel_function_change = (self.prev_SSE - self.SSE)/self.prev_SSE
         self.prev_SSE = self.SSE 
-- 
2.43.0


From 62c56c09ef933242579db0b502c70d40be3a4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 02/29] fix: make non-negative CMTF fits work

They called a method that does not exist, and unconstrained uncoupled factors
failed when no constraints were given.
---
 src/tenkit/decomposition/cmtf.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 704f0c3..4b5541f 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -146,10 +146,7 @@ class CMTF_ALS(CP_ALS):
     def _update_als_factors(self):
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
-            if self.non_negativity_constraints[mode]:
-                self._update_als_factor_non_negative(mode) 
-            else:
-                self._update_als_factor(mode)
+            self._update_als_factor(mode)
         self._update_uncoupled_matrix_factors()
 
     def _get_als_lhs(self, mode):
@@ -177,10 +174,7 @@ class CMTF_ALS(CP_ALS):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-            if self.non_negativity_constraints is None:
-                self.uncoupled_factor_matrices[cm_idx][...] = base.rightsolve(lhs, rhs)
-
-            if self.non_negativity_constraints[mode]:
+            if self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]:
                 new_fm = base.non_negative_rightsolve(lhs, rhs)
                 self.uncoupled_factor_matrices[cm_idx][...] = new_fm
             else:
-- 
2.43.0


From 32f5e817f3b53466beaca255e54ecf23c1fec5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 03/29] fix: keep the constraint settings as given when fitting
 CP

They were overwritten with lists for the order of the first tensor, which broke
fitting the same decomposer to a tensor of another order.
---
 src/tenkit/decomposition/cp.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index bc7432f..f7425f5 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -343,11 +343,10 @@ class CP_ALS(BaseCP):
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
         self.decomposition.reset_weights()
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False]*len(self.factor_matrices)
-        if self.orthonormality_constraints is None:
-            self.orthonormality_constraints = [False]*len(self.factor_matrices)
-        for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
+        orthonormality_constraints = self.orthonormality_constraints
+        if orthonormality_constraints is None:
+            orthonormality_constraints = [False]*len(self.factor_matrices)
+        for mode, (orthogonality) in enumerate(orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
                 self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
@@ -372,11 +371,14 @@ class CP_ALS(BaseCP):
 
     def _get_rightsolve(self, mode):
         rightsolve = base.rightsolve
-        if self.non_negativity_constraints[mode]:
+        non_negative = self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]
+        orthonormal = self.orthonormality_constraints is not None and self.orthonormality_constraints[mode]
+
+        if non_negative:
             rightsolve = base.non_negative_rightsolve
         
-        if self.orthonormality_constraints[mode]:
-            if self.non_negativity_constraints[mode]:
+        if orthonormal:
+            if non_negative:
                 raise ValueError('Cannot perform nonnegative orthogonal solve')
 
             rightsolve = base.orthogonal_rightsolve
-- 
2.43.0


From 7a90249073947769da54a4facaafc81770250ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:22 +0000
Subject: [PATCH 04/29] fix: checkpoint on schedule, and continue with the next
 iteration

- number checkpoints by the last completed iteration everywhere (the final one
  was off by one, missing, or duplicated depending on what ended the fit)
- store the last iteration when there is no frequency, and nothing without path
- a resumed fit no longer repeats the checkpointed iteration, and can use the
  same file
- a fit without iterations left is a no-op instead of a NameError
- loading a checkpoint or changing target restarts the convergence test
---
 src/tenkit/decomposition/base_decomposer.py | 42 ++++++++++++++++-----
 src/tenkit/decomposition/cmtf.py            | 11 ------
 src/tenkit/decomposition/cp.py              |  4 +-
 src/tenkit/decomposition/parafac2.py        |  9 ++---
 4 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 56fbe82..8eccd38 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -47,6 +47,7 @@ class BaseDecomposer(ABC):
         None and negative values leads to no printing.
     """
     DecompositionType = decompositions.BaseDecomposedTensor
+    _checkpointed_iteration = None  # Value of current_iteration when last checkpointed
     @abstractmethod
     def __init__(
         self,
@@ -90,6 +91,7 @@ class BaseDecomposer(ABC):
         """
         self.X = X
         self.X_norm = np.linalg.norm(X)
+        self._rel_function_change = np.inf
 
     @property
     def explained_variance(self):
@@ -138,6 +140,7 @@ class BaseDecomposer(ABC):
             initial decomposition. If class's init is not 'precomputed' it is ignored.
         """
         self.current_iteration = 0
+        self._checkpointed_iteration = None
         self.set_target(X)
         self.init_components(initial_decomposition=initial_decomposition)
         if max_its is not None:
@@ -176,19 +179,25 @@ class BaseDecomposer(ABC):
         self._fit()
     
     def store_checkpoint(self):
+        """Store the decomposition and logs, labelled with the last completed iteration.
+        """
+        it = max(self.current_iteration - 1, 0)
         with h5py.File(self.checkpoint_path, 'a') as h5:
-            if 'checkpoint_its' not in h5.attrs:
-                h5.attrs['checkpoint_its'] = [self.current_iteration]
-            else:
-                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], self.current_iteration]
+            # A refit or a resumed fit can reach the same iteration again
+            previous_its = [prev for prev in h5.attrs.get('checkpoint_its', []) if prev != it]
+            h5.attrs['checkpoint_its'] = [*previous_its, it]
 
-            h5.attrs['final_iteration'] = self.current_iteration
+            h5.attrs['final_iteration'] = it
             h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
+            group_name = f'checkpoint_{it:05d}'
+            if group_name in h5:
+                del h5[group_name]
+            checkpoint_group = h5.create_group(group_name)
             self.decomposition.store_in_hdf5_group(checkpoint_group)
 
             for logger in self.loggers:
                 logger.write_to_hdf5_group(h5)
+        self._checkpointed_iteration = self.current_iteration
     
     @abstractmethod
     def _check_valid_components(self, decomposition):
@@ -206,7 +215,6 @@ class BaseDecomposer(ABC):
 
             if load_it is None:
                 load_it = h5.attrs['final_iteration']
-            self.current_iteration = load_it
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -217,13 +225,27 @@ class BaseDecomposer(ABC):
 
         self._check_valid_components(initial_decomposition)
         self.decomposition = initial_decomposition
+        # The checkpointed iteration is completed, continue with the next one
+        self.current_iteration = int(load_it) + 1
+        self._checkpointed_iteration = None
+        self._rel_function_change = np.inf
     
     def _after_fit_iteration(self):
         for logger in self.loggers:
             logger.log(self)
 
-        it = self.current_iteration
-        if ((it+1) % self.checkpoint_frequency == 0) and (self.checkpoint_frequency > 0):
+        self.current_iteration += 1
+        if (
+            self.checkpoint_path is not None and
+            self.checkpoint_frequency > 0 and
+            self.current_iteration % self.checkpoint_frequency == 0
+        ):
             self.store_checkpoint()
 
-        self.current_iteration += 1
\ No newline at end of file
+    def _after_fit(self):
+        """Checkpoint the last iteration unless that is already done.
+        """
+        if self.checkpoint_path is None or self.current_iteration == 0:
+            return
+        if self._checkpointed_iteration != self.current_iteration:
+            self.store_checkpoint()
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 4b5541f..f9e4b63 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -1,4 +1,3 @@
-import h5py
 import numpy as np
 from .cp import CP_ALS
 
@@ -8,16 +7,6 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
-    def store_checkpoint(self):
-        #TODO: store the matrices as well
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = self.current_iteration
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
-            for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
-
-
     @property
     def coupled_factor_matrices(self):
         return [self.factor_matrices[mode] for mode in self.coupling_modes]
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index f7425f5..7344a27 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -427,6 +427,7 @@ class CP_ALS(BaseCP):
     def _fit(self):
         """Fit a CP model with Alternating Least Squares.
         """
+        self.prev_SSE = self.SSE
         for it in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
             if (
@@ -442,8 +443,7 @@ class CP_ALS(BaseCP):
 
             self._after_fit_iteration()
 
-        if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
-            self.store_checkpoint()
+        self._after_fit()
 
     def init_random(self):
         super().init_random()
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a804457..6156453 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -93,6 +93,7 @@ class BaseParafac2(BaseDecomposer):
         self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
         self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
         self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
+        self._rel_function_change = np.inf
 
     def init_random(self):
         """Random initialisation of the factor matrices
@@ -389,6 +390,7 @@ class Parafac2_ALS(BaseParafac2):
     def _fit(self):
 
         self._prepare_cp_decomposer()
+        self.prev_loss = self.loss
         for it in range(self.max_its - self.current_iteration):
             if abs(self._rel_function_change) < self.convergence_tol:
                 break
@@ -402,12 +404,7 @@ class Parafac2_ALS(BaseParafac2):
 
             self._after_fit_iteration()
 
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
+        self._after_fit()
 
     def _update_convergence(self):
         loss = self.loss
-- 
2.43.0


From fcb54932d2264127171531e4511b90f24f6205a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:43 +0000
Subject: [PATCH 05/29] fix: never leave a damaged file behind when storing
 checkpoints and tensors

A crash or a failed write while a checkpoint was added left the whole file,
including all earlier checkpoints, unreadable.  Write to a copy which replaces
the file when it is complete.
---
 src/tenkit/decomposition/base_decomposer.py |  3 +-
 src/tenkit/decomposition/decompositions.py  |  2 +-
 src/tenkit/utils.py                         | 44 ++++++++++++++++++++-
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 8eccd38..5aa9fce 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -5,6 +5,7 @@ Contains the base class for all decomposition methods in TensorKit
 
 from abc import ABC, abstractmethod, abstractproperty
 from . import decompositions
+from ..utils import atomic_h5_file
 import numpy as np
 import h5py
 
@@ -182,7 +183,7 @@ class BaseDecomposer(ABC):
         """Store the decomposition and logs, labelled with the last completed iteration.
         """
         it = max(self.current_iteration - 1, 0)
-        with h5py.File(self.checkpoint_path, 'a') as h5:
+        with atomic_h5_file(self.checkpoint_path) as h5:
             # A refit or a resumed fit can reach the same iteration again
             previous_its = [prev for prev in h5.attrs.get('checkpoint_its', []) if prev != it]
             h5.attrs['checkpoint_its'] = [*previous_its, it]
diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f8c9afa..518bf61 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -23,7 +23,7 @@ class BaseDecomposedTensor(ABC):
         raise NotImplementedError
 
     def store(self, filename):
-        with h5py.File(filename, 'w') as h5:
+        with utils.atomic_h5_file(filename, mode='w') as h5:
             self.store_in_hdf5_group(h5)
     
     @abstractmethod
diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index d36b61f..da4ad7f 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -1,5 +1,10 @@
-import numpy as np
+import os
+import shutil
+from contextlib import contextmanager
 from copy import deepcopy
+
+import h5py
+import numpy as np
 from . import base
 
 
@@ -217,6 +222,43 @@ def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
     fixed_evolving_tensor._C = fixed_evolve_over_factor
     return fixed_evolving_tensor
 
+@contextmanager
+def atomic_h5_file(filename, mode='a', on_failure=None):
+    """Open a copy of a HDF5 file that replaces the file once it is safely stored.
+
+    If writing fails or the process dies at any point, then the file is left as it was.
+
+    Arguments
+    ---------
+    filename : str or Path
+        The file to update (mode='a') or write anew (mode='w').
+    mode : str
+        Mode to open the copy with.
+    on_failure : callable (optional)
+        Called if the writing failed and the file is left as it was.
+    """
+    filename = os.path.realpath(filename)
+    temporary_file = f'{filename}.tmp'
+    if os.path.lexists(temporary_file):
+        os.remove(temporary_file)
+
+    try:
+        if mode == 'a' and os.path.exists(filename):
+            shutil.copy(filename, temporary_file)
+        with h5py.File(temporary_file, mode) as h5:
+            yield h5
+        with open(temporary_file, 'rb+') as f:
+            os.fsync(f.fileno())
+        os.replace(temporary_file, filename)
+    except BaseException:
+        # An interrupt can also arrive after the file was replaced
+        if os.path.lexists(temporary_file):
+            if on_failure is not None:
+                on_failure()
+            os.remove(temporary_file)
+        raise
+
+
 def iter_checkpoints(h5_checkpoint_file):
     for groupname in sorted(h5_checkpoint_file):
         if groupname.startswith('checkpoint'):
-- 
2.43.0


From 40ebbe9157739b9fbf848736cd5b7671feba3549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:44 +0000
Subject: [PATCH 06/29] fix: write the logs again after a checkpoint that could
 not be stored

The loggers considered them stored, so they were missing from later checkpoints.
---
 src/tenkit/decomposition/base_decomposer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 5aa9fce..8924858 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -183,7 +183,16 @@ class BaseDecomposer(ABC):
         """Store the decomposition and logs, labelled with the last completed iteration.
         """
         it = max(self.current_iteration - 1, 0)
-        with atomic_h5_file(self.checkpoint_path) as h5:
+        logged = [
+            (logger, logger.prev_checkpoint_it) for logger in self.loggers if hasattr(logger, 'prev_checkpoint_it')
+        ]
+
+        def rewind_loggers():
+            # Nothing was stored, so the logs must be written by the next checkpoint
+            for logger, prev_checkpoint_it in logged:
+                logger.prev_checkpoint_it = prev_checkpoint_it
+
+        with atomic_h5_file(self.checkpoint_path, on_failure=rewind_loggers) as h5:
             # A refit or a resumed fit can reach the same iteration again
             previous_its = [prev for prev in h5.attrs.get('checkpoint_its', []) if prev != it]
             h5.attrs['checkpoint_its'] = [*previous_its, it]
-- 
2.43.0


From f0b4ea0695a572ce7c1285744deeeb475f4263c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:44 +0000
Subject: [PATCH 07/29] fix: let Parafac2 fit_transform use max_its and
 initial_decomposition

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 6156453..4fcab1b 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -206,7 +206,7 @@ class BaseParafac2(BaseDecomposer):
         self._fit()
 
     def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
+        self.fit(X, y=None, max_its=max_its, initial_decomposition=initial_decomposition)
         return self.decomposition
 
     @property
-- 
2.43.0


From 291023e1b11ebc721baddd822d47a94d9c6bc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:44 +0000
Subject: [PATCH 08/29] fix: give each slice its own projection matrix with CP
 initialisation

They shared one array, which is updated in place.
---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 4fcab1b..da0fa2c 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -128,7 +128,7 @@ class BaseParafac2(BaseDecomposer):
         cp_als.fit(X)
         C, A, B = cp_als.factor_matrices
         P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
+        P = [P.copy() for _ in range(len(self.X))]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
     def init_components(self, initial_decomposition=None):
-- 
2.43.0


From d5d3fba942b03df0e36f2181ef9d22130ffb5f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:44 +0000
Subject: [PATCH 09/29] fix: make the SVD initialisation of Parafac2 work

It confused the first and second mode and did not handle the list of slice sizes.
---
 src/tenkit/decomposition/parafac2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index da0fa2c..486fdf6 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -103,19 +103,19 @@ class BaseParafac2(BaseDecomposer):
     def init_svd(self):
         """SVD initalisation
         """
-        # TODO: This does not work for irregular tensors
+        I = self.X_shape[0]
         K = self.X_shape[2]
         J = self.X_shape[1]
-        Y = np.zeros([J, J])
+        Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k].T @ self.X[k]
+            Y += self.X[k] @ self.X[k].T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
         C = np.ones((K, self.rank))
 
-        P = [np.eye(J, self.rank) for k in range(K)]
+        P = [np.eye(J[k], self.rank) for k in range(K)]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
         self._update_projection_matrices()
-- 
2.43.0


From 385a4a32ebe84c948d495ec80faf49570e52b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 10/29] fix: make orthonormality constraints have effect on
 Parafac2

The initial QR decomposition replaced the factor matrix that Parafac2 shares
with its inner CP decomposer, so that all later updates of it were lost.
---
 src/tenkit/decomposition/cp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 7344a27..c7a1fb4 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -348,8 +348,10 @@ class CP_ALS(BaseCP):
             orthonormality_constraints = [False]*len(self.factor_matrices)
         for mode, (orthogonality) in enumerate(orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
-            if orthogonality:
-                self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
+            if orthogonality and not np.allclose(fm.T @ fm, np.identity(self.rank)):
+                # In place, since Parafac2 shares its factor matrices with this decomposition
+                q, r = np.linalg.qr(fm)
+                fm[...] = q*np.where(np.diag(r) < 0, -1, 1)
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From 2a30fa2f7a43c6e33ddd6a7997e7b8cc8bc4c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 11/29] fix: solve the constrained and penalised least squares
 problems of CP

The normal equations were given to the non-negative, orthonormal and ridge
solvers as if they were the least squares problem itself, which minimises a
different norm, so the loss could increase from one iteration to the next.
---
 src/tenkit/base.py               | 21 +++++++++++++++++++++
 src/tenkit/decomposition/cmtf.py |  5 +++++
 src/tenkit/decomposition/cp.py   |  8 +++++++-
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4d63dc8..383eb65 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -60,6 +60,27 @@ def add_rightsolve_ridge(rightsolve, ridge_penalty):
     return ridge_rightsolve
 
 
+def normal_equations_to_least_squares(V, M):
+    """Convert X*V = M, with V = K*K.T and M = B*K.T, to least squares form.
+
+    The unconstrained minimiser of ||X*K - B|| solves the normal equations X*V = M. This
+    is not so for minimisers under constraints or with penalties. However, they are the
+    same as those of ||X*L - C||, where L has few columns and satisfies L*L.T = V, C*L.T = M.
+
+    Returns
+    -------
+    L : np.ndarray
+    C : np.ndarray
+    """
+    eigenvalues, Q = np.linalg.eigh(V)
+    keep = eigenvalues > V.shape[0] * np.finfo(float).eps * max(eigenvalues[-1], 0)
+    if not keep.any():
+        return V, M
+
+    singular_values = np.sqrt(eigenvalues[keep])
+    return Q[:, keep] * singular_values, (M @ Q[:, keep]) / singular_values
+
+
 def kron_binary_vectors(u, v):
     """Efficient Kronecker product between two vectors.
     """
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index f9e4b63..ca2b96d 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -156,6 +156,11 @@ class CMTF_ALS(CP_ALS):
             return super()._get_als_rhs(mode)
 
 
+    def _get_least_squares_system(self, mode, lhs, rhs):
+        if mode in self.mode_to_cm_idx:
+            return lhs, rhs  # These are not normal equations
+        return super()._get_least_squares_system(mode, lhs, rhs)
+
     def _update_uncoupled_matrix_factors(self):
         for mode, cm_idx in self.mode_to_cm_idx.items():
             cm_idx = self.mode_to_cm_idx[mode][0]
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index c7a1fb4..643c6cc 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -393,6 +393,12 @@ class CP_ALS(BaseCP):
 
         return rightsolve
 
+    def _get_least_squares_system(self, mode, lhs, rhs):
+        """Convert the normal equations if they are not solved without constraints."""
+        if self._get_rightsolve(mode) is base.rightsolve:
+            return lhs, rhs
+        return base.normal_equations_to_least_squares(lhs, rhs)
+
     def _update_als_factor(self, mode):
         """Solve least squares problem to get factor for one mode."""
         # The cached MTTKRP is not valid while this factor is being updated
@@ -403,7 +409,7 @@ class CP_ALS(BaseCP):
 
         rightsolve = self._get_rightsolve(mode)
 
-        new_factor = rightsolve(lhs, rhs)
+        new_factor = rightsolve(*self._get_least_squares_system(mode, lhs, rhs))
         self.factor_matrices[mode][...] = new_factor
 
         self._last_updated_mode = mode
-- 
2.43.0


From 465a9945531ca1184915e9cb59ca76ca470d0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 12/29] fix: divide by the number of data elements in the MSE
 of Parafac2 and CMTF

---
 src/tenkit/decomposition/cmtf.py     | 2 +-
 src/tenkit/decomposition/parafac2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index ca2b96d..7de85bf 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -36,7 +36,7 @@ class CMTF_ALS(CP_ALS):
     def MSE(self):
         #raise NotImplementedError('Not implemented') 
         # TODO: fix this
-        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_factor_matrices)
+        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_matrices)
         return self.SSE/num_elements
 
     @property
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 486fdf6..71b14e1 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -225,7 +225,7 @@ class BaseParafac2(BaseDecomposer):
 
     @property
     def MSE(self):
-        return self.SSE/self.decomposition.num_elements
+        return self.SSE/sum(np.prod(X_k.shape) for X_k in self.X)
         
     @property
     def reconstructed_X(self):
-- 
2.43.0


From 8d31176acf89e983c46ae487f029858648959620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 13/29] fix: make stored evolving tensors loadable

---
 src/tenkit/decomposition/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 518bf61..7131d78 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -438,9 +438,8 @@ class EvolvingTensor(BaseDecomposedTensor):
         B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
         C = group['C'][...]
         warning = group.attrs['warning']
-        all_same_size = group.attrs['all_same_size']
 
-        return cls(A, B, C, all_same_size=all_same_size, warning=warning)
+        return cls(A, B, C, warning=warning)
     
     def __getitem__(self, item):
         if item == 0:
-- 
2.43.0


From 73a083b7a4750c2f5cc312d8b90cb55fcea984eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 14/29] fix: include the ridge penalties in the CMTF loss

They are part of the updates and of the documented loss.
---
 src/tenkit/decomposition/cmtf.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 7de85bf..b5e4305 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -43,10 +43,6 @@ class CMTF_ALS(CP_ALS):
     def RMSE(self):
         return np.sqrt(self.MSE)
 
-    @property
-    def loss(self):
-        return self.SSE  # TODO: skal det være property?
-
     def set_coupled_matrices(self, coupled_matrices, coupling_modes):
         self.coupled_matrices = coupled_matrices
         self.coupling_modes = coupling_modes
-- 
2.43.0


From b9ee64def01ac0ab34fea751b9d09c43b7cf48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 15/29] fix: do not drop the weights of normalised models

A normalised model (a precomputed start, or any fitted CMTF model) was continued
with weights that the updates do not take into account.
---
 src/tenkit/decomposition/cmtf.py | 11 +++++++++--
 src/tenkit/decomposition/cp.py   | 10 +++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index b5e4305..423f677 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -63,8 +63,6 @@ class CMTF_ALS(CP_ALS):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-        
-        self.decomposition.normalize_components()
 
     def _fit(self):
         super()._fit()
@@ -128,7 +126,16 @@ class CMTF_ALS(CP_ALS):
                  y=y, max_its=max_its, initial_decomposition=initial_decomposition)
         return self.decomposition, [[A,V] for A, V in zip(self.coupled_factor_matrices, self.uncoupled_factor_matrices)]
 
+    def _absorb_weights(self):
+        if 0 in self.mode_to_cm_idx:
+            # Keep the model of the coupled matrix
+            weights = np.where(self.weights == 0, 1, self.weights)
+            for cm_idx in self.mode_to_cm_idx[0]:
+                self.uncoupled_factor_matrices[cm_idx][...] /= weights
+        super()._absorb_weights()
+
     def _update_als_factors(self):
+        self._absorb_weights()
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
             self._update_als_factor(mode)
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 643c6cc..220a894 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -342,7 +342,6 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.decomposition.reset_weights()
         orthonormality_constraints = self.orthonormality_constraints
         if orthonormality_constraints is None:
             orthonormality_constraints = [False]*len(self.factor_matrices)
@@ -415,8 +414,17 @@ class CP_ALS(BaseCP):
         self._last_updated_mode = mode
         self._matrix_khatri_rao_product_cache = rhs
 
+    def _absorb_weights(self):
+        """Move the weights, which the updates assume to be one, to the first mode.
+
+        The weights are not one for normalised models.
+        """
+        self.factor_matrices[0][...] *= self.weights
+        self.decomposition.reset_weights()
+
     def _update_als_factors(self):
         """Updates factors with alternating least squares."""
+        self._absorb_weights()
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
             self._update_als_factor(mode)
-- 
2.43.0


From c310a65258ef94bfc51c016a1ef144b57efbcdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 16/29] fix: store the uncoupled factor matrices in CMTF
 checkpoints

Without them a CMTF fit could not be resumed.
---
 src/tenkit/decomposition/base_decomposer.py | 14 +++++---
 src/tenkit/decomposition/cmtf.py            | 37 +++++++++++++++++++--
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 8924858..7b66779 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -203,12 +203,20 @@ class BaseDecomposer(ABC):
             if group_name in h5:
                 del h5[group_name]
             checkpoint_group = h5.create_group(group_name)
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
+            self._store_model(checkpoint_group)
 
             for logger in self.loggers:
                 logger.write_to_hdf5_group(h5)
         self._checkpointed_iteration = self.current_iteration
     
+    def _store_model(self, checkpoint_group):
+        self.decomposition.store_in_hdf5_group(checkpoint_group)
+
+    def _load_model(self, checkpoint_group):
+        initial_decomposition = self.DecompositionType.load_from_hdf5_group(checkpoint_group)
+        self._check_valid_components(initial_decomposition)
+        self.decomposition = initial_decomposition
+
     @abstractmethod
     def _check_valid_components(self, decomposition):
         pass
@@ -231,10 +239,8 @@ class BaseDecomposer(ABC):
                 raise ValueError(f'There is no checkpoint {group_name} in {checkpoint_path}')
 
             checkpoint_group = h5[f'checkpoint_{load_it:05d}']
-            initial_decomposition = self.DecompositionType.load_from_hdf5_group(checkpoint_group)
+            self._load_model(checkpoint_group)
 
-        self._check_valid_components(initial_decomposition)
-        self.decomposition = initial_decomposition
         # The checkpointed iteration is completed, continue with the next one
         self.current_iteration = int(load_it) + 1
         self._checkpointed_iteration = None
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 423f677..a02ae1b 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -7,6 +7,37 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
+    uncoupled_template = 'uncoupled_factor_matrix{:03d}'
+
+    def _store_model(self, checkpoint_group):
+        super()._store_model(checkpoint_group)
+        for i, factor_matrix in enumerate(self.uncoupled_factor_matrices):
+            checkpoint_group[self.uncoupled_template.format(i)] = factor_matrix
+
+    def _load_model(self, checkpoint_group):
+        if self.uncoupled_template.format(0) not in checkpoint_group:
+            # Stored by CP, so there is only a decomposition of the tensor
+            super()._load_model(checkpoint_group)
+            return
+
+        uncoupled_factor_matrices = []
+        for i, matrix in enumerate(self.coupled_matrices):
+            name = self.uncoupled_template.format(i)
+            if name not in checkpoint_group:
+                raise ValueError(f'There is no factor matrix for coupled matrix {i} in the checkpoint')
+
+            factor_matrix = checkpoint_group[name][...]
+            if factor_matrix.shape != (matrix.shape[1], self.rank):
+                raise ValueError(
+                    f"The shape of the uncoupled factor matrix {i} {factor_matrix.shape}"
+                    f" does not agree with the coupled matrix and rank {(matrix.shape[1], self.rank)}"
+                )
+            uncoupled_factor_matrices.append(factor_matrix)
+
+        super()._load_model(checkpoint_group)
+        self.uncoupled_factor_matrices = uncoupled_factor_matrices
+        self.coupled_weights = [np.ones((self.rank,)) for _ in uncoupled_factor_matrices]
+
     @property
     def coupled_factor_matrices(self):
         return [self.factor_matrices[mode] for mode in self.coupling_modes]
@@ -295,6 +326,8 @@ class CMTF_ALS(CP_ALS):
 
 
     def init_components(self, initial_decomposition=None):
-        
+        previous = getattr(self, 'uncoupled_factor_matrices', None)
         super().init_components(initial_decomposition=initial_decomposition)
-        self._init_coupled_matrices()
\ No newline at end of file
+        if getattr(self, 'uncoupled_factor_matrices', None) is previous:
+            # They were not loaded from a checkpoint
+            self._init_coupled_matrices()
-- 
2.43.0


From 0c6b1c94f46a2f4deb16628b92cd44ea48d0310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 17/29] fix: refuse initial decompositions of the wrong order

---
 src/tenkit/decomposition/cp.py       | 6 ++++++
 src/tenkit/decomposition/parafac2.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 220a894..f8e4bd6 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -119,6 +119,12 @@ class BaseCP(BaseDecomposer):
     def _check_valid_components(self, decomposition):
         """Check if provided factor matrices have correct shape.
         """
+        if len(decomposition.factor_matrices) != len(self.X.shape):
+            raise ValueError(
+                f"The number of factor matrices ({len(decomposition.factor_matrices)}) is not the same"
+                f" as the number of modes of X ({len(self.X.shape)})."
+            )
+
         for i, factor_matrix in enumerate(decomposition.factor_matrices):
             len_, rank = factor_matrix.shape
             if rank != self.rank:
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 71b14e1..414fde5 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -161,6 +161,12 @@ class BaseParafac2(BaseDecomposer):
                     f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
                 )
         
+        if len(decomposition.projection_matrices) != len(self.X):
+            raise ValueError(
+                f"The number of projection matrices ({len(decomposition.projection_matrices)})"
+                f" is not the same as the number of slices ({len(self.X)})"
+            )
+
         for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
             if B.shape[0] != X_slice.shape[1]:
                 raise ValueError(
-- 
2.43.0


From a5a4e0efaffa3c23781cedea1035689910ba9cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 18/29] fix: do not let HDF5 write to a failing disk itself

The HDF5 library crashes the process (SIGSEGV) when the disk is full while it
closes a file, so a full disk killed the fit instead of making it raise.
---
 src/tenkit/utils.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index da4ad7f..c9f13b6 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -1,3 +1,4 @@
+import io
 import os
 import shutil
 from contextlib import contextmanager
@@ -227,6 +228,7 @@ def atomic_h5_file(filename, mode='a', on_failure=None):
     """Open a copy of a HDF5 file that replaces the file once it is safely stored.
 
     If writing fails or the process dies at any point, then the file is left as it was.
+    The copy is in memory, since the HDF5 library can crash if the disk fails while it writes.
 
     Arguments
     ---------
@@ -239,23 +241,32 @@ def atomic_h5_file(filename, mode='a', on_failure=None):
     """
     filename = os.path.realpath(filename)
     temporary_file = f'{filename}.tmp'
-    if os.path.lexists(temporary_file):
-        os.remove(temporary_file)
-
+    replacing = False
     try:
+        content = io.BytesIO()
         if mode == 'a' and os.path.exists(filename):
-            shutil.copy(filename, temporary_file)
-        with h5py.File(temporary_file, mode) as h5:
+            with open(filename, 'rb') as f:
+                content.write(f.read())
+        else:
+            mode = 'w'
+        with h5py.File(content, mode) as h5:
             yield h5
-        with open(temporary_file, 'rb+') as f:
+
+        with open(temporary_file, 'wb') as f:
+            f.write(content.getbuffer())
+            f.flush()
             os.fsync(f.fileno())
+        if os.path.exists(filename):
+            shutil.copymode(filename, temporary_file)
+        replacing = True
         os.replace(temporary_file, filename)
     except BaseException:
         # An interrupt can also arrive after the file was replaced
-        if os.path.lexists(temporary_file):
+        if not replacing or os.path.lexists(temporary_file):
             if on_failure is not None:
                 on_failure()
-            os.remove(temporary_file)
+            if os.path.lexists(temporary_file):
+                os.remove(temporary_file)
         raise
 
 
-- 
2.43.0


From a0db71cbe297eb950d2d20a16a19c0e54a21eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 19/29] fix: do not absorb the weights in an orthonormal factor
 matrix

The factor is orthonormalised by the next update, which then starts from
differently scaled factors, so the loss of a normalised model could increase.
---
 src/tenkit/decomposition/cmtf.py |  4 ++--
 src/tenkit/decomposition/cp.py   | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index a02ae1b..4130806 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -158,10 +158,10 @@ class CMTF_ALS(CP_ALS):
         return self.decomposition, [[A,V] for A, V in zip(self.coupled_factor_matrices, self.uncoupled_factor_matrices)]
 
     def _absorb_weights(self):
-        if 0 in self.mode_to_cm_idx:
+        if self._weight_mode in self.mode_to_cm_idx:
             # Keep the model of the coupled matrix
             weights = np.where(self.weights == 0, 1, self.weights)
-            for cm_idx in self.mode_to_cm_idx[0]:
+            for cm_idx in self.mode_to_cm_idx[self._weight_mode]:
                 self.uncoupled_factor_matrices[cm_idx][...] /= weights
         super()._absorb_weights()
 
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index f8e4bd6..5b5c8b2 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -420,12 +420,19 @@ class CP_ALS(BaseCP):
         self._last_updated_mode = mode
         self._matrix_khatri_rao_product_cache = rhs
 
+    @property
+    def _weight_mode(self):
+        """The first mode whose factor matrix can be scaled."""
+        if self.orthonormality_constraints is None:
+            return 0
+        return next((mode for mode, orthonormal in enumerate(self.orthonormality_constraints) if not orthonormal), 0)
+
     def _absorb_weights(self):
-        """Move the weights, which the updates assume to be one, to the first mode.
+        """Move the weights, which the updates assume to be one, to one of the modes.
 
         The weights are not one for normalised models.
         """
-        self.factor_matrices[0][...] *= self.weights
+        self.factor_matrices[self._weight_mode][...] *= self.weights
         self.decomposition.reset_weights()
 
     def _update_als_factors(self):
-- 
2.43.0


From 46cff68c0ab8f84e1d795f98edecfcb9edd46570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 20/29] fix: do not divide by a Python zero after a perfect CP
 fit

---
 src/tenkit/decomposition/cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 5b5c8b2..b79e770 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -184,7 +184,7 @@ class BaseCP(BaseDecomposer):
             # Y = [U_0, U_1, U_2], <X, Y> = sum(U_i*mttkrp(X, Y, skip=i))
             # Rounding can make this expression (slightly) negative for perfect fits
             
-            return max(
+            return np.maximum(
                 self.X_norm**2
                  + np.linalg.norm(self.reconstructed_X)**2
                  - 2*self._inner_prod_X_reconstructed_X,
-- 
2.43.0


From 981d13f71dd7e2f1dfd0616bd99ec3aa8f2dc673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 21/29] fix: do not divide by singular values that are zero up
 to rounding

---
 src/tenkit/base.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 383eb65..f88b62f 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -7,10 +7,17 @@ from abc import ABC, abstractmethod, abstractclassmethod
 def rightsolve(A, B):
     """Solve the equation X*A = B wrt X.
     """
-    U, S, Vh = np.linalg.svd(A, full_matrices=False)
-    S[S != 0] = 1/S[S != 0]
+    # The scale of a row only affects the scale of the corresponding column of X
+    norms = np.linalg.norm(A, axis=1)
+    norms[norms == 0] = np.inf
+    U, S, Vh = np.linalg.svd(A / norms[:, np.newaxis], full_matrices=False)
 
-    return B @ (Vh.T * S @ U.T)
+    # Singular values that are zero up to rounding
+    is_zero = S <= max(A.shape) * np.finfo(float).eps * S[0]
+    S[~is_zero] = 1/S[~is_zero]
+    S[is_zero] = 0
+
+    return B @ (Vh.T * S @ U.T) / norms
 
 
 def non_negative_rightsolve(A, B):
@@ -72,13 +79,15 @@ def normal_equations_to_least_squares(V, M):
     L : np.ndarray
     C : np.ndarray
     """
-    eigenvalues, Q = np.linalg.eigh(V)
+    row_norms = np.sqrt(np.diag(V))
+    norms = np.where(row_norms == 0, np.inf, row_norms)
+    eigenvalues, Q = np.linalg.eigh(V / np.outer(norms, norms))
     keep = eigenvalues > V.shape[0] * np.finfo(float).eps * max(eigenvalues[-1], 0)
     if not keep.any():
         return V, M
 
     singular_values = np.sqrt(eigenvalues[keep])
-    return Q[:, keep] * singular_values, (M @ Q[:, keep]) / singular_values
+    return row_norms[:, np.newaxis] * Q[:, keep] * singular_values, (M / norms @ Q[:, keep]) / singular_values
 
 
 def kron_binary_vectors(u, v):
-- 
2.43.0


From d5e4ab29f0ea70661c3ec0bbdaddc241b175308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 22/29] fix: do not let a zero weight erase the model of a
 coupled matrix

A component whose weight is zero because one of its factor vectors is zero
contributes nothing to the tensor, but another of its factor vectors can still
model a coupled matrix. Absorbing the weight erased that factor vector.
---
 src/tenkit/decomposition/cmtf.py | 3 ++-
 src/tenkit/decomposition/cp.py   | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 4130806..aaa5d15 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -160,7 +160,8 @@ class CMTF_ALS(CP_ALS):
     def _absorb_weights(self):
         if self._weight_mode in self.mode_to_cm_idx:
             # Keep the model of the coupled matrix
-            weights = np.where(self.weights == 0, 1, self.weights)
+            weights = self._weights_to_absorb
+            weights = np.where(weights == 0, 1, weights)
             for cm_idx in self.mode_to_cm_idx[self._weight_mode]:
                 self.uncoupled_factor_matrices[cm_idx][...] /= weights
         super()._absorb_weights()
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index b79e770..3789f30 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -427,12 +427,19 @@ class CP_ALS(BaseCP):
             return 0
         return next((mode for mode, orthonormal in enumerate(self.orthonormality_constraints) if not orthonormal), 0)
 
+    @property
+    def _weights_to_absorb(self):
+        """The weights, but one for components that are zero because one of their factors is.
+        """
+        is_zero = np.any([~np.any(fm, axis=0) for fm in self.factor_matrices], axis=0)
+        return np.where(is_zero, 1, self.weights)
+
     def _absorb_weights(self):
         """Move the weights, which the updates assume to be one, to one of the modes.
 
         The weights are not one for normalised models.
         """
-        self.factor_matrices[self._weight_mode][...] *= self.weights
+        self.factor_matrices[self._weight_mode][...] *= self._weights_to_absorb
         self.decomposition.reset_weights()
 
     def _update_als_factors(self):
-- 
2.43.0


From 8d6fcf3ac3d0ffb9522f5d09c4fa669d44495f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 23/29] fix: keep the targets of a log aligned when a target
 function fails

The targets evaluated before the failing one had already got a value, so the
logs had different lengths from then on and could not be saved any more.
---
 src/tenkit/log.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/log.py b/src/tenkit/log.py
index a1f6072..150f7ab 100644
--- a/src/tenkit/log.py
+++ b/src/tenkit/log.py
@@ -35,9 +35,10 @@ class Logger:
         self.target_values = {target: [] for target in targets}
     
     def log(self, parameters):
-        for target, values in self.target_values.items():
-            f = self.target_functions[target]
-            values.append(f(parameters, *self.args))
+        # If a target function fails, then no target gets a value for these parameters
+        new_values = {target: f(parameters, *self.args) for target, f in self.target_functions.items()}
+        for target, value in new_values.items():
+            self.target_values[target].append(value)
     
 
 class HDF5Logger(Logger):
-- 
2.43.0


From 880cbbc5fb7e8adfbe6e565021ae9a50c9a0b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 24/29] fix: report disk errors while metrics are stored

HDF5 ignores write errors while a dataset is closed implicitly (the values
are then lost without notice), or crashes the process.
---
 src/tenkit/log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/log.py b/src/tenkit/log.py
index 150f7ab..87190b8 100644
--- a/src/tenkit/log.py
+++ b/src/tenkit/log.py
@@ -92,8 +92,12 @@ class HDF5Logger(Logger):
         with h5py.File(self.fname, 'a') as h5:
             g = h5[self.ex_name]
             for target, values in self.target_values.items(): 
-                g[target].resize([self._it_num])
-                g[target][self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] 
+                dataset = g[target]
+                dataset.resize([self._it_num])
+                dataset[self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] 
+                # The HDF5 library ignores (or crashes on) disk errors while it closes a dataset
+                dataset.flush()
+            h5.flush()
         self._prev_write_it = self._it_num
 
 class Experiment:
-- 
2.43.0


From 5650f886663d67f941563e5d57debad3547a342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:59 +0000
Subject: [PATCH 25/29] fix: do not take an iteration that was interrupted for
 convergence

---
 src/tenkit/decomposition/base_decomposer.py | 13 +++++++++++++
 src/tenkit/decomposition/cp.py              | 11 ++++++-----
 src/tenkit/decomposition/parafac2.py        | 13 +++++++------
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 7b66779..9fd4be6 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -4,6 +4,7 @@ Contains the base class for all decomposition methods in TensorKit
 
 
 from abc import ABC, abstractmethod, abstractproperty
+from contextlib import contextmanager
 from . import decompositions
 from ..utils import atomic_h5_file
 import numpy as np
@@ -246,6 +247,18 @@ class BaseDecomposer(ABC):
         self._checkpointed_iteration = None
         self._rel_function_change = np.inf
     
+    @contextmanager
+    def _iteration(self):
+        """Perform one iteration, which does not count unless all of it, also the logging, is completed.
+        """
+        iteration = self.current_iteration
+        try:
+            yield
+        except BaseException:
+            if self.current_iteration == iteration:
+                self._rel_function_change = np.inf
+            raise
+
     def _after_fit_iteration(self):
         for logger in self.loggers:
             logger.log(self)
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 3789f30..c3a425e 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -471,13 +471,14 @@ class CP_ALS(BaseCP):
                 or rel_loss < self.rel_loss_tol
             ):
                 break
-            self._update_als_factors()
-            self._update_convergence()
+            with self._iteration():
+                self._update_als_factors()
+                self._update_convergence()
 
-            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
-                print(f'    {self.current_iteration}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, improvement is {self._rel_function_change:4g}')
+                if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
+                    print(f'    {self.current_iteration}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, improvement is {self._rel_function_change:4g}')
 
-            self._after_fit_iteration()
+                self._after_fit_iteration()
 
         self._after_fit()
 
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 414fde5..50ba603 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -401,14 +401,15 @@ class Parafac2_ALS(BaseParafac2):
             if abs(self._rel_function_change) < self.convergence_tol:
                 break
 
-            self._update_parafac2_factors()
-            self._update_convergence()
+            with self._iteration():
+                self._update_parafac2_factors()
+                self._update_convergence()
 
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
-                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
-                      f'improvement is {self._rel_function_change:g}')
+                if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+                    print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
+                          f'improvement is {self._rel_function_change:g}')
 
-            self._after_fit_iteration()
+                self._after_fit_iteration()
 
         self._after_fit()
 
-- 
2.43.0


From 965515523a35822b538b0163484ffc395d7a2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:23 +0000
Subject: [PATCH 26/29] fix: do not log an iteration twice if another logger
 was interrupted

---
 src/tenkit/decomposition/base_decomposer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 9fd4be6..cfafe9e 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -6,6 +6,7 @@ Contains the base class for all decomposition methods in TensorKit
 from abc import ABC, abstractmethod, abstractproperty
 from contextlib import contextmanager
 from . import decompositions
+from .logging.logger import BaseLogger
 from ..utils import atomic_h5_file
 import numpy as np
 import h5py
@@ -252,11 +253,18 @@ class BaseDecomposer(ABC):
         """Perform one iteration, which does not count unless all of it, also the logging, is completed.
         """
         iteration = self.current_iteration
+        logged = [
+            (logger, len(logger.log_metrics), len(logger.log_iterations))
+            for logger in self.loggers if isinstance(logger, BaseLogger)
+        ]
         try:
             yield
         except BaseException:
             if self.current_iteration == iteration:
                 self._rel_function_change = np.inf
+                for logger, num_metrics, num_iterations in logged:
+                    del logger.log_metrics[num_metrics:]
+                    del logger.log_iterations[num_iterations:]
             raise
 
     def _after_fit_iteration(self):
-- 
2.43.0


From 77d937ad61f7e17cae839fda6088b1b70f21a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:23 +0000
Subject: [PATCH 27/29] fix: forget the cached MTTKRP of CP when an iteration
 is interrupted

---
 src/tenkit/decomposition/cp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index c3a425e..b298efb 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -1,4 +1,5 @@
 from abc import abstractmethod
+from contextlib import contextmanager
 from pathlib import Path
 
 import h5py
@@ -449,9 +450,11 @@ class CP_ALS(BaseCP):
         for mode in range(num_modes):
             self._update_als_factor(mode)
    
-    def _after_fit_iteration(self):
+    @contextmanager
+    def _iteration(self):
         try:
-            super()._after_fit_iteration()
+            with super()._iteration():
+                yield
         finally:
             # The factor matrices can be changed from the outside from here on
             self._last_updated_mode = None
-- 
2.43.0


From bbc15a94dd2cfc834f4d11bf12a51393773da9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:23 +0000
Subject: [PATCH 28/29] fix: leave the model as it was when its normalisation
 is interrupted

---
 src/tenkit/decomposition/cmtf.py           | 8 ++++----
 src/tenkit/decomposition/decompositions.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index aaa5d15..35f85ab 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -100,11 +100,11 @@ class CMTF_ALS(CP_ALS):
         self._normalize_components()
     
     def _normalize_components(self):
-        for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
-            fm = self.decomposition.factor_matrices[coupling_mode]
-            uncoupled_matrix[...] = uncoupled_matrix*np.linalg.norm(fm, axis=0, keepdims=True)
-        
+        # All norms are computed before anything is changed, so that nothing is changed if that is interrupted
+        norms = [np.linalg.norm(fm, axis=0, keepdims=True) for fm in self.coupled_factor_matrices]
         self.decomposition.normalize_components()
+        for uncoupled_matrix, norm in zip(self.uncoupled_factor_matrices, norms):
+            uncoupled_matrix[...] = uncoupled_matrix*norm
 
    
     def fit(self, X, coupled_matrices, coupling_modes, y=None, *, max_its=None, initial_decomposition=None):
diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 7131d78..1c960cc 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -151,8 +151,8 @@ class KruskalTensor(BaseDecomposedTensor):
             If true, then the weights of this Kruskal tensor will be set to the product of the
             component norms.
         """
-        for i, factor_matrix in enumerate(self.factor_matrices):
-            norms = np.linalg.norm(factor_matrix, axis=0)
+        all_norms = [np.linalg.norm(factor_matrix, axis=0) for factor_matrix in self.factor_matrices]
+        for i, (factor_matrix, norms) in enumerate(zip(self.factor_matrices, all_norms)):
             self.factor_matrices[i][...] = factor_matrix/(norms[np.newaxis] + eps)
             if update_weights:
                 self.weights *= norms
-- 
2.43.0


From 30a5ab29c962ab5d956587dbf5c9431cd66fa86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:35 +0000
Subject: [PATCH 29/29] fix: account for the scales of components in
 unconstrained least squares problems of CP

---
 src/tenkit/decomposition/cp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index b298efb..a4b1488 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -400,9 +400,10 @@ class CP_ALS(BaseCP):
         return rightsolve
 
     def _get_least_squares_system(self, mode, lhs, rhs):
-        """Convert the normal equations if they are not solved without constraints."""
-        if self._get_rightsolve(mode) is base.rightsolve:
-            return lhs, rhs
+        """Convert the normal equations, whose solutions only minimise the loss without constraints.
+
+        The factor matrices may have components of very different scales, which is accounted for.
+        """
         return base.normal_equations_to_least_squares(lhs, rhs)
 
     def _update_als_factor(self, mode):
-- 
2.43.0

