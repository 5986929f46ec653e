From 72c6989507e39da33f8c16acf73c2f07f096cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:41 +0000
Subject: [PATCH 01/34] fix: recompute automatic eigenvalue rescaling at every
 fit

With rescale_mode='auto' the operator overwrote the setting with the singular
values of the first fit and reused them (or failed) on every later fit.
---
 pydmd/dmdoperator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdoperator.py b/pydmd/dmdoperator.py
index 5495f8d..7950ad6 100644
--- a/pydmd/dmdoperator.py
+++ b/pydmd/dmdoperator.py
@@ -54,6 +54,10 @@ class DMDOperator:
     ):
         self._exact = exact
         self._rescale_mode = rescale_mode
+        # compute_operator() replaces "auto" with the singular values at hand
+        self._auto_rescale = (
+            isinstance(rescale_mode, str) and rescale_mode == "auto"
+        )
         self._svd_rank = svd_rank
         self._forward_backward = forward_backward
         self._sorted_eigs = sorted_eigs
@@ -90,7 +94,7 @@ class DMDOperator:
                 msg = "Casting atilde from np.complex256 to np.complex128"
                 logging.info(msg)
 
-        if isinstance(self._rescale_mode, str) and self._rescale_mode == "auto":
+        if self._auto_rescale:
             self._rescale_mode = s
 
         self._Atilde = atilde
-- 
2.43.0


From f743c74201aa1de3af28d7115d8b2d7909605968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:55 +0000
Subject: [PATCH 02/34] fix: draw a new test matrix at every RDMD fit

The test matrix drawn for the first data set was kept and reused for later
fits, which then depended on the first data set or failed on another shape.
---
 pydmd/rdmd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/rdmd.py b/pydmd/rdmd.py
index 1eb8aa0..a5ffa6a 100644
--- a/pydmd/rdmd.py
+++ b/pydmd/rdmd.py
@@ -71,7 +71,7 @@ class RDMD(CDMD):
         :return: the compressed snapshots
         :rtype: numpy.ndarray
         """
-        Q, B, test_matrix = compute_rqb(
+        Q, B, _ = compute_rqb(
             self.snapshots,
             self._svd_rank,
             self._oversampling,
@@ -80,6 +80,5 @@ class RDMD(CDMD):
             self._seed,
         )
         self._compression_matrix = Q.conj().T
-        self._test_matrix = test_matrix
 
         return B
-- 
2.43.0


From 2c550860efff64d89e73c9b7815679a863a562ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:55 +0000
Subject: [PATCH 03/34] fix: start every MrDMD fit from a new tree

A fit on a short series lowered max_level for all later fits, and a fit which
failed half-way left a tree mixing leaves of two fits.
---
 pydmd/mrdmd.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index a1ca06f..7e1cea4 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -75,8 +75,8 @@ class MrDMD(DMDBase):
     def __init__(self, dmd, max_level=2, max_cycles=1):
         self.dmd = dmd
         self.max_cycles = max_cycles
-        self.max_level = max_level
-        self._build_tree()
+        self._requested_max_level = max_level
+        self._build_tree(max_level)
 
     def __iter__(self):
         return self.dmd_tree.__iter__()
@@ -147,7 +147,7 @@ class MrDMD(DMDBase):
             axis=0,
         )
 
-    def _dmd_builder(self):
+    def _dmd_builder(self, max_level):
         """
         Builds a function which takes in input a level and a leaf count
         (i.e. coordinates inside the binary tree) and produces an appropriate
@@ -207,11 +207,11 @@ class MrDMD(DMDBase):
         if callable(self.dmd):
             builder_func = self.dmd
         elif isinstance(self.dmd, (list, tuple)):
-            if len(self.dmd) != self.max_level + 1:
+            if len(self.dmd) != max_level + 1:
                 raise ValueError(
                     """
 Expected one item per level, got {} out of {} levels.""".format(
-                        len(self.dmd), self.max_level
+                        len(self.dmd), max_level
                     )
                 )
 
@@ -225,23 +225,28 @@ Expected one item per level, got {} out of {} levels.""".format(
 
         return builder_func
 
-    def _build_tree(self):
+    def _build_tree(self, max_level):
         """
         Build the internal binary tree that contain the DMD subclasses.
+
+        :param int max_level: the maximum level (inclusive).
         """
-        self.dmd_tree = BinaryTree(self.max_level)
+        dmd_tree = BinaryTree(max_level)
 
         # we build a function which takes the level and leaf and returns a DMD
-        builder_func = self._dmd_builder()
+        builder_func = self._dmd_builder(max_level)
 
         # Empty init
-        for level in self.dmd_tree.levels:
-            for leaf in self.dmd_tree.index_leaves(level):
+        for level in dmd_tree.levels:
+            for leaf in dmd_tree.index_leaves(level):
                 # we construct the dmd before in order to trigger a better
                 # exception in case the function fails (otherwise it would
                 # be an IndexError)
                 dmd = builder_func(level, leaf)
-                self.dmd_tree[level, leaf] = dmd
+                dmd_tree[level, leaf] = dmd
+
+        self.max_level = max_level
+        self.dmd_tree = dmd_tree
 
     def time_window_bins(self, t0, tend):
         """
@@ -482,9 +487,10 @@ Expected one item per level, got {} out of {} levels.""".format(
         lvl_threshold = (
             int(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)) + 1
         )
-        if self.max_level > lvl_threshold:
-            self.max_level = lvl_threshold
-            self._build_tree()
+        # Every fit starts from a new tree, in order not to mix with (or be
+        # limited by) the previous one.
+        self._build_tree(min(self._requested_max_level, lvl_threshold))
+        if self.max_level < self._requested_max_level:
             print(
                 "Too many levels... "
                 "Redefining `max_level` to {}".format(self.max_level)
-- 
2.43.0


From c77b519bc8e879f00ff5cf3a8e5e5787fcfe251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 04/34] fix: a failed fit does not leave a mixture of two fits
 readable

Modes of the previous fit could be combined with eigenvalues (or snapshots) of
the failed one, and SpDMD left the non-sparse amplitudes behind.
---
 pydmd/dmd.py     |  1 +
 pydmd/dmdbase.py |  6 ++++++
 pydmd/spdmd.py   | 37 +++++++++++++++++++++----------------
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/pydmd/dmd.py b/pydmd/dmd.py
index d7a64e9..6617897 100644
--- a/pydmd/dmd.py
+++ b/pydmd/dmd.py
@@ -57,6 +57,7 @@ class DMD(DMDBase):
         :type Y: numpy.ndarray or iterable
         """
         self._reset()
+        self._svd_modes = None
         self._snapshots_holder = Snapshots(X)
         n_samples = self.snapshots.shape[1]
 
diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 2397a38..2b8ffa4 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -636,6 +636,12 @@ _set_initial_time_dictionary() has not been called, did you call fit()?"""
         self._snapshots_holder = None
         self._snapshots_holder_y = None
 
+        # a fit which fails must not leave modes of the previous fit next to
+        # eigenvalues of the new one
+        operator = getattr(self, "_Atilde", None)
+        if operator is not None:
+            operator._modes = None
+
     def save(self, fname):
         """
         Save the object to `fname` using the pickle module.
diff --git a/pydmd/spdmd.py b/pydmd/spdmd.py
index 7eb4df9..7557dbd 100644
--- a/pydmd/spdmd.py
+++ b/pydmd/spdmd.py
@@ -131,22 +131,27 @@ class SpDMD(DMD):
         """
         super().fit(X)
 
-        P, q = self._optimal_dmd_matrices()
-
-        self._P = sparse(P)
-        self._q = q
-        # Cholesky factorization of matrix P + (rho/2)*I
-        Prho = P + np.identity(len(self.amplitudes)) * self.rho / 2
-        self._Plow = np.linalg.cholesky(Prho)
-
-        # find which amplitudes are to be set to 0
-        zero_amplitudes = self._find_zero_amplitudes()
-
-        # compute the (sparse) vector of optimal DMD amplitudes
-        self._b = self._optimal_amplitudes(zero_amplitudes)
-        # re-allocate the Proxy to avoid problems due to the fact that we
-        # re-computed the amplitudes
-        self._allocate_modes_bitmask_proxy()
+        try:
+            P, q = self._optimal_dmd_matrices()
+
+            self._P = sparse(P)
+            self._q = q
+            # Cholesky factorization of matrix P + (rho/2)*I
+            Prho = P + np.identity(len(self.amplitudes)) * self.rho / 2
+            self._Plow = np.linalg.cholesky(Prho)
+
+            # find which amplitudes are to be set to 0
+            zero_amplitudes = self._find_zero_amplitudes()
+
+            # compute the (sparse) vector of optimal DMD amplitudes
+            self._b = self._optimal_amplitudes(zero_amplitudes)
+            # re-allocate the Proxy to avoid problems due to the fact that we
+            # re-computed the amplitudes
+            self._allocate_modes_bitmask_proxy()
+        except BaseException:
+            # do not leave the non-sparse amplitudes behind
+            self._reset()
+            raise
 
         # release memory
         if self._release_memory:
-- 
2.43.0


From 78ca255984b590f49996d61cc31044f36574c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:21 +0000
Subject: [PATCH 05/34] fix: values computed by a BOPDMD fit do not configure
 the next one

---
 pydmd/bopdmd.py | 95 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 28 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index b0f7fbd..2470363 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -348,6 +348,7 @@ class BOPDMDOperator(DMDOperator):
             eigenvalues = np.copy(new_eigs)
 
         if "stable" in self._eig_constraints:
+            eigenvalues = np.copy(eigenvalues)
             right_half = eigenvalues.real > 0.0
             eigenvalues[right_half] = 1j * eigenvalues[right_half].imag
         elif "imag" in self._eig_constraints:
@@ -1080,6 +1081,12 @@ class BOPDMD(DMDBase):
         self._eig_constraints = eig_constraints
         self._mode_prox = mode_prox
 
+        # Values used by the last fit, kept apart from what was requested so
+        # that they do not turn into the configuration of the next fit.
+        self._fit_rank = None
+        self._fit_basis = None
+        self._fit_alpha = None
+
         self._snapshots_holder = None
         self._time = None
         self._Atilde = None
@@ -1091,11 +1098,14 @@ class BOPDMD(DMDBase):
         :return: the rank used for the svd truncation.
         :rtype: int or float
         """
+        if self._fit_rank is not None:
+            return self._fit_rank
         return self._svd_rank
 
     @svd_rank.setter
     def svd_rank(self, value):
         self._svd_rank = value
+        self._fit_rank = None
 
     @property
     def compute_A(self):
@@ -1119,6 +1129,8 @@ class BOPDMD(DMDBase):
         :return: initial guess used for the continuous-time DMD eigenvalues.
         :rtype: numpy.ndarray
         """
+        if self._fit_alpha is not None:
+            return self._fit_alpha
         if self._init_alpha is None:
             msg = (
                 "fit() hasn't been called "
@@ -1134,6 +1146,7 @@ class BOPDMD(DMDBase):
         :param value: The new eigenvalue guess.
         """
         self._init_alpha = value
+        self._fit_alpha = None
 
     @property
     def proj_basis(self):
@@ -1141,6 +1154,8 @@ class BOPDMD(DMDBase):
         :return: the projection basis used, with modes stored by column.
         :rtype: numpy.ndarray
         """
+        if self._fit_basis is not None:
+            return self._fit_basis
         if self._proj_basis is None:
             msg = (
                 "fit() hasn't been called "
@@ -1156,6 +1171,7 @@ class BOPDMD(DMDBase):
         :param new_proj_basis: The new projection basis to assign.
         """
         self._proj_basis = new_proj_basis
+        self._fit_basis = None
 
     @property
     def num_trials(self):
@@ -1351,7 +1367,7 @@ class BOPDMD(DMDBase):
                     msg = "Invalid eigenvalue constraint combination provided."
                     raise ValueError(msg)
 
-    def _initialize_alpha(self, s=None, V=None):
+    def _initialize_alpha(self, svd_rank, proj_basis, s=None, V=None):
         """
         Uses projected trapezoidal rule to approximate the eigenvalues of A in
             z' = Az.
@@ -1360,6 +1376,10 @@ class BOPDMD(DMDBase):
         will be used to compute the projection. Otherwise, the snapshot data
         will be projected onto the projection basis.
 
+        :param svd_rank: the rank of the fit.
+        :type svd_rank: int
+        :param proj_basis: the projection basis of the fit.
+        :type proj_basis: numpy.ndarray
         :param s: the singular values of the snapshot matrix. If provided, they
             will be used along with V to compute the projection.
         :type s: numpy.ndarray
@@ -1375,7 +1395,7 @@ class BOPDMD(DMDBase):
             ux = np.diag(s).dot(V)
         else:
             # Project the snapshot data onto the projection basis.
-            ux = self._proj_basis.conj().T.dot(self.snapshots)
+            ux = proj_basis.conj().T.dot(self.snapshots)
         ux1 = ux[:, :-1]
         ux2 = ux[:, 1:]
 
@@ -1384,7 +1404,7 @@ class BOPDMD(DMDBase):
         Y = (ux1 + ux2) / 2
         # Element-wise division by time differences. w/o large T
         Z = (ux2 - ux1) / (self._time[1:] - self._time[:-1])
-        U, s, V = compute_svd(Y, self._svd_rank)
+        U, s, V = compute_svd(Y, svd_rank)
         S = np.diag(s)
 
         # Compute the matrix Atilde and return its eigenvalues.
@@ -1403,6 +1423,9 @@ class BOPDMD(DMDBase):
         """
         # Process the input data and convert to numpy.ndarrays.
         self._reset()
+        self._fit_rank = None
+        self._fit_basis = None
+        self._fit_alpha = None
         self._snapshots_holder = Snapshots(X)
         self._time = np.array(t).squeeze()
 
@@ -1420,39 +1443,41 @@ class BOPDMD(DMDBase):
             raise ValueError(msg)
 
         # Compute the rank of the fit.
-        self._svd_rank = int(compute_rank(self.snapshots, self._svd_rank))
+        svd_rank = int(compute_rank(self.snapshots, self._svd_rank))
 
         # Set/check the projection basis.
-        if self._proj_basis is None and self._use_proj:
-            self._proj_basis = compute_svd(self.snapshots, self._svd_rank)[0]
-        elif self._proj_basis is None and not self._use_proj:
-            self._proj_basis = compute_svd(self.snapshots, -1)[0]
+        proj_basis = self._proj_basis
+        if proj_basis is None and self._use_proj:
+            proj_basis = compute_svd(self.snapshots, svd_rank)[0]
+        elif proj_basis is None and not self._use_proj:
+            proj_basis = compute_svd(self.snapshots, -1)[0]
         elif (
-            not isinstance(self._proj_basis, np.ndarray)
-            or self._proj_basis.ndim != 2
-            or self._proj_basis.shape[1] != self._svd_rank
+            not isinstance(proj_basis, np.ndarray)
+            or proj_basis.ndim != 2
+            or proj_basis.shape[1] != svd_rank
         ):
             msg = "proj_basis must be a 2D np.ndarray with {} columns."
-            raise ValueError(msg.format(self._svd_rank))
+            raise ValueError(msg.format(svd_rank))
 
         # Set/check the initial guess for the continuous-time DMD eigenvalues.
-        if self._init_alpha is None:
-            self._init_alpha = self._initialize_alpha()
+        init_alpha = self._init_alpha
+        if init_alpha is None:
+            init_alpha = self._initialize_alpha(svd_rank, proj_basis)
         elif (
-            not isinstance(self._init_alpha, np.ndarray)
-            or self._init_alpha.ndim > 1
-            or len(self._init_alpha) != self._svd_rank
+            not isinstance(init_alpha, np.ndarray)
+            or init_alpha.ndim > 1
+            or len(init_alpha) != svd_rank
         ):
             msg = "init_alpha must be a 1D np.ndarray with {} entries."
-            raise ValueError(msg.format(self._svd_rank))
+            raise ValueError(msg.format(svd_rank))
 
         # Build the BOP-DMD operator now that the initial alpha and
         # the projection basis have been defined.
         self._Atilde = BOPDMDOperator(
             self._compute_A,
             self._use_proj,
-            self._init_alpha,
-            self._proj_basis,
+            init_alpha,
+            proj_basis,
             self._num_trials,
             self._trial_size,
             self._eig_sort,
@@ -1466,13 +1491,17 @@ class BOPDMD(DMDBase):
 
         # Define the snapshots that will be used for fitting.
         if self._use_proj:
-            snp = self._proj_basis.conj().T.dot(self.snapshots)
+            snp = proj_basis.conj().T.dot(self.snapshots)
         else:
             snp = self.snapshots
 
         # Fit the data.
         self._b = self.operator.compute_operator(snp.T, self._time)
 
+        self._fit_rank = svd_rank
+        self._fit_basis = proj_basis
+        self._fit_alpha = init_alpha
+
         return self
 
     def fit_econ(self, s, V, t):
@@ -1494,7 +1523,10 @@ class BOPDMD(DMDBase):
         :type t: numpy.ndarray
         """
         self._reset()
-        self._time = np.asarray(t).squeeze()
+        self._fit_rank = None
+        self._fit_basis = None
+        self._fit_alpha = None
+        self._time = np.array(t).squeeze()
         s = np.asarray(s).squeeze()
 
         if self._proj_basis is None or not self._use_proj:
@@ -1535,12 +1567,15 @@ class BOPDMD(DMDBase):
             raise ValueError(msg)
 
         # Set/check the initial guess for the continuous-time DMD eigenvalues.
-        if self._init_alpha is None:
-            self._init_alpha = self._initialize_alpha(s=s, V=V)
+        init_alpha = self._init_alpha
+        if init_alpha is None:
+            init_alpha = self._initialize_alpha(
+                self._svd_rank, self._proj_basis, s=s, V=V
+            )
         elif (
-            not isinstance(self._init_alpha, np.ndarray)
-            or self._init_alpha.ndim > 1
-            or len(self._init_alpha) != self._svd_rank
+            not isinstance(init_alpha, np.ndarray)
+            or init_alpha.ndim > 1
+            or len(init_alpha) != self._svd_rank
         ):
             msg = "init_alpha must be a 1D np.ndarray with {} entries."
             raise ValueError(msg.format(self._svd_rank))
@@ -1550,7 +1585,7 @@ class BOPDMD(DMDBase):
         self._Atilde = BOPDMDOperator(
             self._compute_A,
             self._use_proj,
-            self._init_alpha,
+            init_alpha,
             self._proj_basis,
             self._num_trials,
             self._trial_size,
@@ -1572,6 +1607,10 @@ class BOPDMD(DMDBase):
         # Store the singular values
         self._singular_values = s
 
+        self._fit_rank = self._svd_rank
+        self._fit_basis = self._proj_basis
+        self._fit_alpha = init_alpha
+
         return self
 
     def forecast(self, t):
-- 
2.43.0


From d32f423a2ba13d8c782d4ab7669424116ec936f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:30 +0000
Subject: [PATCH 06/34] fix: a COSTS fit starts from the requested settings and
 publishes only complete results

---
 pydmd/costs.py | 69 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 040322b..daaa57f 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -116,6 +116,11 @@ class COSTS:
         self._window_means_array = None
         self._non_integer_n_slide = None
         self._svd_rank_pre_allocate = None
+        self._fit_rank = None
+
+        # The number of components requested by the user. Clustering replaces
+        # `_n_components` until the next fit.
+        self._requested_n_components = n_components
 
         # Specify default keywords to hand to BOPDMD.
         if pydmd_kwargs is None:
@@ -125,7 +130,7 @@ class COSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
@@ -141,6 +146,8 @@ class COSTS:
         :return: the rank used for the svd truncation.
         :rtype: int or float
         """
+        if self._fit_rank is not None:
+            return self._fit_rank
         return self._svd_rank
 
     @property
@@ -383,7 +390,6 @@ class COSTS:
         :return: SVD projection basis for COSTS.
         :rtype: numpy.ndarray
         """
-        self._svd_rank = compute_rank(data, svd_rank=svd_rank)
         # Recover the first r modes of the global svd
         return compute_svd(data, svd_rank=svd_rank)[0]
 
@@ -404,10 +410,10 @@ class COSTS:
         ):
             init_alpha = np.repeat(
                 np.sqrt(self._cluster_centroids) * 1j,
-                int(self._svd_rank / self._n_components),
+                int(self.svd_rank / self._n_components),
             )
             init_alpha = init_alpha * np.tile(
-                [1, -1], int(self._svd_rank / self._n_components)
+                [1, -1], int(self.svd_rank / self._n_components)
             )
             return init_alpha
         # The user accidentally provided both methods of initializing the
@@ -454,6 +460,16 @@ class COSTS:
         :type corner_sharpness: float or int
         """
 
+        # Discard the results of the previous fit.
+        self._fit_rank = None
+        self._time_array = None
+        self._modes_array = None
+        self._omega_array = None
+        self._amplitudes_array = None
+        self._window_means_array = None
+        self._omega_classes = None
+        self._transform_method = None
+
         # Prepare window and data properties.
         self._window_length = window_length
         self._step_size = step_size
@@ -495,8 +511,8 @@ class COSTS:
             self._pydmd_kwargs["use_proj"] = self._pydmd_kwargs.get(
                 "use_proj", False
             )
-            self._svd_rank = compute_rank(data, svd_rank=self._svd_rank)
-            self._svd_rank_pre_allocate = self._svd_rank
+            self._fit_rank = compute_rank(data, svd_rank=self._svd_rank)
+            self._svd_rank_pre_allocate = self._fit_rank
         elif not self._global_svd and self._svd_rank > 0:
             if self._force_even_eigs and self._svd_rank % 2:
                 raise ValueError(
@@ -520,26 +536,28 @@ class COSTS:
             self._svd_rank_pre_allocate = self._n_data_vars
 
         # Pre-allocate all elements for the sliding window DMD.
-        self._time_array = np.zeros((self._n_slides, self._window_length))
-        self._modes_array = np.zeros(
+        time_array = np.zeros((self._n_slides, self._window_length))
+        modes_array = np.zeros(
             (self._n_slides, self._n_data_vars, self._svd_rank_pre_allocate),
             np.complex128,
         )
-        self._omega_array = np.zeros(
+        omega_array = np.zeros(
             (self._n_slides, self._svd_rank_pre_allocate), np.complex128
         )
-        self._amplitudes_array = np.zeros(
+        amplitudes_array = np.zeros(
             (self._n_slides, self._svd_rank_pre_allocate), np.complex128
         )
-        self._window_means_array = np.zeros((self._n_slides, self._n_data_vars))
+        window_means_array = np.zeros((self._n_slides, self._n_data_vars))
 
         # Get initial values for the eigenvalues.
-        self._init_alpha = self._build_initialization()
+        init_alpha = self._build_initialization()
+        self._cluster_centroids = None
+        self._n_components = self._requested_n_components
 
         # Initialize the BOPDMD object.
         optdmd = BOPDMD(
-            svd_rank=self._svd_rank,
-            init_alpha=self._init_alpha,
+            svd_rank=self.svd_rank,
+            init_alpha=init_alpha,
             **self._pydmd_kwargs,
         )
 
@@ -590,20 +608,18 @@ class COSTS:
             optdmd.fit(data_window, time_window)
 
             # Assign the results from this window.
-            self._modes_array[k, :, : optdmd.modes.shape[-1]] = optdmd.modes
-            self._omega_array[k, : optdmd.eigs.shape[0]] = optdmd.eigs
-            self._amplitudes_array[k, : optdmd.eigs.shape[0]] = (
-                optdmd.amplitudes
-            )
-            self._window_means_array[k] = c.flatten()
-            self._time_array[k] = original_time_window
+            modes_array[k, :, : optdmd.modes.shape[-1]] = optdmd.modes
+            omega_array[k, : optdmd.eigs.shape[0]] = optdmd.eigs
+            amplitudes_array[k, : optdmd.eigs.shape[0]] = optdmd.amplitudes
+            window_means_array[k] = c.flatten()
+            time_array[k] = original_time_window
 
             # Reset optdmd between iterations
             if not self._global_svd:
                 # The default behavior is to reset the optdmd object to use
                 # the initial value from the first window.
                 if not self._use_last_freq and not self._reset_alpha_init:
-                    optdmd.init_alpha = self._init_alpha
+                    optdmd.init_alpha = init_alpha
                 # Use the eigenvalues from this window to seed the next window.
                 elif self._use_last_freq:
                     optdmd.init_alpha = optdmd.eigs
@@ -611,6 +627,15 @@ class COSTS:
                 # is much more computationally expensive.
                 elif self._reset_alpha_init:
                     optdmd.init_alpha = None
+            elif k == 0:
+                # All windows start from the initial guess of the first one.
+                optdmd.init_alpha = optdmd.init_alpha
+
+        self._time_array = time_array
+        self._modes_array = modes_array
+        self._omega_array = omega_array
+        self._amplitudes_array = amplitudes_array
+        self._window_means_array = window_means_array
 
     def get_window_indices(self, k):
         """Returns the window indices for slide `k`.
-- 
2.43.0


From 05d449cda735dc59a89000fb49627cbad755db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:05 +0000
Subject: [PATCH 07/34] fix: a mrCOSTS fit starts from the requested settings
 and publishes only complete results

---
 pydmd/mrcosts.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index b2de48a..f981f32 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -58,6 +58,7 @@ class mrCOSTS:
         cluster_sweep=False,
         transform_method=None,
     ):
+        self._requested_n_components_array = n_components_array
         self._n_components_array = n_components_array
         self._step_size_array = step_size_array
         self._window_length_array = window_length_array
@@ -95,7 +96,7 @@ class mrCOSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
@@ -286,22 +287,31 @@ class mrCOSTS:
         n_decompositions = self._n_decompositions
         transform_method = self._transform_method
 
+        # Discard the results of the previous fit.
+        self._costs_array = None
+        self._omega_classes = None
+        self._da_omega = None
+        self._n_components_global = None
+        self._cluster_centroids = None
+        n_components_array = copy.copy(self._requested_n_components_array)
+        self._n_components_array = n_components_array
+
         # Check for the n_components array and cluster sweeping.
         if self._cluster_sweep:
-            if self._n_components_array is not None:
+            if n_components_array is not None:
                 raise ValueError(
                     (
                         "Only one of `cluster_sweep` and `n_components_array` "
                         "can be provided."
                     )
                 )
-            self._n_components_array = np.zeros(self._n_decompositions) * np.nan
+            n_components_array = np.zeros(self._n_decompositions) * np.nan
 
         # Set the global_svd flag if none was provided.
         if self._global_svd_array is None:
             self._global_svd_array = [True] * n_decompositions
 
-        self._costs_array = []
+        costs_array = []
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
 
         x_iter = data
@@ -323,15 +333,13 @@ class mrCOSTS:
             mrd.fit(x_iter, np.atleast_2d(time), window, step, verbose=verbose)
 
             # Cluster the frequency bands
-            if self._cluster_sweep or np.isnan(
-                self._n_components_array[n_decomp]
-            ):
+            if self._cluster_sweep or np.isnan(n_components_array[n_decomp]):
                 n_components = mrd.cluster_hyperparameter_sweep(
                     transform_method=transform_method
                 )
-                self._n_components_array[n_decomp] = n_components
+                n_components_array[n_decomp] = n_components
             else:
-                n_components = self._n_components_array[n_decomp]
+                n_components = n_components_array[n_decomp]
 
             mrd.cluster_omega(
                 n_components=n_components, transform_method=transform_method
@@ -355,7 +363,10 @@ class mrCOSTS:
                 x_iter = xr_low_frequency
 
             # Save the fitted costs object.
-            self._costs_array.append(copy.copy(mrd))
+            costs_array.append(copy.copy(mrd))
+
+        self._n_components_array = n_components_array
+        self._costs_array = costs_array
 
     @staticmethod
     def interp_fill(
-- 
2.43.0


From b17f44a66ffeb44ef57206d949bcf9fef76c8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:10 +0000
Subject: [PATCH 08/34] fix: subsets of modes carry current values and share
 nothing with their model

---
 pydmd/dmdbase.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 2b8ffa4..c556a9e 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -37,9 +37,10 @@ class ActivationBitmaskProxy:
     """
 
     def __init__(self, dmd_operator, amplitudes):
-        self._original_modes = dmd_operator.modes
-        self._original_eigs = np.atleast_1d(dmd_operator.eigenvalues)
-        self._original_amplitudes = np.atleast_1d(amplitudes)
+        # copies, since the same operator may be shared among several proxies
+        self._original_modes = np.array(dmd_operator.modes)
+        self._original_eigs = np.array(dmd_operator.eigenvalues, ndmin=1)
+        self._original_amplitudes = np.array(amplitudes, ndmin=1)
 
         self.old_bitmask = None
         self.change_bitmask(np.full(len(dmd_operator.eigenvalues), True))
@@ -63,10 +64,11 @@ class ActivationBitmaskProxy:
             self._original_eigs[self.old_bitmask] = self.eigs
             self._original_amplitudes[self.old_bitmask] = self.amplitudes
 
-        self._modes = np.array(self._original_modes)[:, value]
-        self._eigs = np.array(self._original_eigs)[value]
-        self._amplitudes = np.array(self._original_amplitudes)[value]
+        modes = np.array(self._original_modes)[:, value]
+        eigs = np.array(self._original_eigs)[value]
+        amplitudes = np.array(self._original_amplitudes)[value]
 
+        self._modes, self._eigs, self._amplitudes = modes, eigs, amplitudes
         self.old_bitmask = value
 
     @property
@@ -533,7 +535,14 @@ class DMDBase:
         mask[key] = True
 
         shallow_copy = copy(self)
-        shallow_copy._allocate_modes_bitmask_proxy()
+        # what can be modified through the subset must not be shared
+        shallow_copy._Atilde = copy(self._Atilde)
+        shallow_copy._modes_activation_bitmask_proxy = deepcopy(
+            self._modes_activation_bitmask_proxy
+        )
+        for time in ("_original_time", "_dmd_time"):
+            if hasattr(self, time):
+                setattr(shallow_copy, time, deepcopy(getattr(self, time)))
         shallow_copy.modes_activation_bitmask = mask
 
         return shallow_copy
-- 
2.43.0


From 309de6c0bfd17da54a9bb14876c150c1b81245da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:10 +0000
Subject: [PATCH 09/34] fix: criteria select among the active modes and leave
 the model untouched

---
 pydmd/dmd_modes_tuner.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index e8c3388..88ddfba 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -3,11 +3,13 @@ A module which contains several functions to tune (i.e. improve) DMD instances
 through the "manual" modification of DMD modes.
 """
 
-from copy import deepcopy
+from copy import copy, deepcopy
 from functools import partial
 
 import numpy as np
 
+from .preprocessing.pre_post_processing import PrePostProcessingDMD
+
 
 def select_modes(
     dmd,
@@ -69,7 +71,8 @@ def select_modes(
 
     if len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
-        tmp[cut_indexes] = False
+        # the criteria is evaluated on the active modes only
+        tmp[np.where(tmp)[0][cut_indexes]] = False
         dmd.modes_activation_bitmask = tmp
 
     if return_indexes:
@@ -333,16 +336,15 @@ and `max_distance_from_unity_outside` can be not `None`"""
             that the corresponding DMD mode is selected.
         """
 
-        # temporary reset dmd_time to original_time
-        temp = dmd.dmd_time
+        # use original_time instead of dmd_time, without touching `dmd`
+        while isinstance(dmd, PrePostProcessingDMD):
+            dmd = dmd.pre_post_processed_dmd
+        dmd = copy(dmd)
         dmd._dmd_time = dmd.original_time
 
         dynamics = dmd.dynamics
         modes = dmd.modes
 
-        # reset dmd_time
-        dmd._dmd_time = temp
-
         n_of_modes = modes.shape[1]
         integral_contributions = [
             ModesSelectors._compute_integral_contribution(*tp)
-- 
2.43.0


From e9727a346e2ab3a630aa8658749d1b7205bc6f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:18 +0000
Subject: [PATCH 10/34] fix: nullify_amplitudes of select_modes has effect

---
 pydmd/dmd_modes_tuner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index 88ddfba..f394bf1 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -69,7 +69,9 @@ def select_modes(
     all_indexes = set(np.arange(len(dmd.eigs)))
     cut_indexes = np.array(list(all_indexes - set(selected_indexes)))
 
-    if len(cut_indexes) > 0:
+    if len(cut_indexes) > 0 and nullify_amplitudes:
+        dmd.amplitudes[cut_indexes] = 0
+    elif len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
         # the criteria is evaluated on the active modes only
         tmp[np.where(tmp)[0][cut_indexes]] = False
-- 
2.43.0


From fc94948154d7b86013a2f9b20da56a9ec689ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:08 +0000
Subject: [PATCH 11/34] fix: PiDMD with sparse manifolds is reproducible

---
 pydmd/pidmd_utils.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 181e0fb..f6153b9 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -7,6 +7,8 @@ Steven L. Brunton. Physics-informed dynamic mode decomposition (pidmd). 2021.
 arXiv:2112.04307.
 """
 
+from inspect import signature
+
 import numpy as np
 from numpy.fft import fft, fft2, ifft
 from scipy import sparse
@@ -15,6 +17,19 @@ from scipy.linalg import block_diag, rq
 from .utils import compute_rank, compute_svd
 
 
+def _sparse_eigs(A_sparse, r):
+    """
+    Compute the r largest eigenvalues of A_sparse and their eigenvectors,
+    without any random choice so that the result is reproducible.
+    """
+    rng = np.random.default_rng(0)
+    kwargs = {"v0": rng.standard_normal(A_sparse.shape[0])}
+    # recent versions of SciPy draw further vectors if the iteration restarts
+    if "rng" in signature(sparse.linalg.eigs).parameters:
+        kwargs["rng"] = rng
+    return sparse.linalg.eigs(A_sparse, k=r, **kwargs)
+
+
 def compute_unitary(X, Y, svd_rank):
     """
     Given the data matrices X and Y and the rank truncation svd_rank, solves
@@ -96,7 +111,7 @@ def compute_diagonal(X, Y, svd_rank, manifold_opt, compute_A):
     if compute_A:
         return {"A": A_sparse.toarray()}
     r = compute_rank(X, svd_rank)
-    eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
+    eigenvalues, modes = _sparse_eigs(A_sparse, r)
     return {"eigenvalues": eigenvalues, "modes": modes}
 
 
@@ -265,7 +280,7 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
         return {"A": A_sparse.toarray()}
 
     r = compute_rank(X, svd_rank)
-    eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
+    eigenvalues, modes = _sparse_eigs(A_sparse, r)
     return {"eigenvalues": eigenvalues, "modes": modes}
 
 
-- 
2.43.0


From a4f26a1d3abe602a06023c92ed3604d5c8b296fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:12 +0000
Subject: [PATCH 12/34] fix: LANDO fits start afresh and failed fits, analyses
 and updates change nothing

---
 pydmd/lando.py | 58 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index ea487e7..6a9b20d 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -10,6 +10,7 @@ nonlinear disambiguation optimization. Proc. R. Soc. A. 478: 20210830.
 """
 
 import warnings
+from functools import wraps
 from inspect import isfunction
 
 import numpy as np
@@ -22,6 +23,25 @@ from .snapshots import Snapshots
 from .utils import compute_svd, compute_tlsq
 
 
+def _all_or_nothing(method):
+    """
+    Make a method of LANDO leave the model as it was whenever it fails.
+    """
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        model = dict(self.__dict__)
+        operator = dict(self.operator.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = model
+            self.operator.__dict__ = operator
+            raise
+
+    return wrapper
+
+
 class LANDOOperator(DMDOperator):
     """
     LANDO operator class, which is used to compute and keep track of the
@@ -250,6 +270,16 @@ class LANDOOperator(DMDOperator):
             else:  # use the pseudo-inverse
                 self._weights = Y.dot(np.linalg.pinv(K_mat))
 
+    def reset_linear_operator(self):
+        """
+        Discard the results of the last fixed point analysis.
+        """
+        self._eigenvalues = None
+        self._eigenvectors = None
+        self._modes = None
+        self._Atilde = None
+        self._A = None
+
     def compute_linear_operator(
         self, fixed_point, compute_A, kernel_gradient, x_rescale
     ):
@@ -271,6 +301,7 @@ class LANDOOperator(DMDOperator):
         kernel_grad = kernel_gradient(self._sparse_dictionary, fixed_point)
         kernel_grad = np.multiply(kernel_grad, x_rescale)
         U, s, V = compute_svd(kernel_grad.T, self._svd_rank)
+        self._A = None
         if compute_A:
             self._A = self.weights.dot(kernel_grad)
             self._Atilde = np.linalg.multi_dot([U.conj().T, self._A, U])
@@ -375,7 +406,7 @@ class LANDOOperator(DMDOperator):
                 ((y - self._weights.dot(k_tilde)).dot(h)).T,
                 rcond=None,
             )[0].T
-            self._weights += weights_update
+            self._weights = self._weights + weights_update
 
 
 class LANDO(DMDBase):
@@ -503,6 +534,7 @@ class LANDO(DMDBase):
 
         # Keep track of the data rescaling factor.
         self._x_rescale = x_rescale
+        self._x_rescale_flat = x_rescale
 
         # Keep track of the last fixed point analysis.
         self._compute_A = False
@@ -628,7 +660,7 @@ class LANDO(DMDBase):
         if isinstance(self._x_rescale, np.ndarray):
             return np.divide(
                 self.operator.sparse_dictionary,
-                self._x_rescale[..., None],
+                self._x_rescale_flat[..., None],
             )
         return self.operator.sparse_dictionary / self._x_rescale
 
@@ -738,7 +770,7 @@ class LANDO(DMDBase):
                 self.operator.sparse_dictionary,
                 self._rescale(self._fixed_point.flatten()),
             ),
-            self._x_rescale,
+            self._x_rescale_flat,
         )
 
         # Define the f(x) term.
@@ -756,6 +788,7 @@ class LANDO(DMDBase):
             )
         )
 
+    @_all_or_nothing
     def fit(self, X, Y=None):
         """
         Compute the linear and nonlinear disambiguation optimization (LANDO).
@@ -767,6 +800,11 @@ class LANDO(DMDBase):
         :type Y: numpy.ndarray or iterable
         """
         self._reset()
+        self.operator.reset_linear_operator()
+        self._compute_A = False
+        self._fixed_point = None
+        self._bias = None
+        self._updated = False
         self._snapshots_holder = Snapshots(X)
         self._check_x_rescale()
 
@@ -790,6 +828,7 @@ class LANDO(DMDBase):
 
         return self
 
+    @_all_or_nothing
     def analyze_fixed_point(self, fixed_point, compute_A=False):
         """
         Use a partially-fitted LANDO model to examine the system perturbed
@@ -820,6 +859,7 @@ class LANDO(DMDBase):
             msg = "Input fixed point must have shape {}."
             raise ValueError(msg.format(self.snapshots_shape))
 
+        self._modes_activation_bitmask_proxy = None
         self._compute_A = compute_A
         self._fixed_point = fixed_point
         self._bias = self.f(fixed_point[..., None])
@@ -827,11 +867,12 @@ class LANDO(DMDBase):
             self._rescale(fixed_point.flatten()),
             self._compute_A,
             self.kernel_gradient,
-            self._x_rescale,
+            self._x_rescale_flat,
         )
 
         self._b = self._compute_amplitudes()
 
+    @_all_or_nothing
     def update(self, X, Y=None):
         """
         Update a fitted LANDO model using new data.
@@ -871,12 +912,13 @@ class LANDO(DMDBase):
 
         # If a fixed point analysis was already done, redo it.
         if self.fitted:
+            self._modes_activation_bitmask_proxy = None
             self._bias = self.f(self._fixed_point[..., None])
             self.operator.compute_linear_operator(
                 self._rescale(self._fixed_point.flatten()),
                 self._compute_A,
                 self.kernel_gradient,
-                self._x_rescale,
+                self._x_rescale_flat,
             )
             self._b = self._compute_amplitudes()
 
@@ -962,8 +1004,8 @@ class LANDO(DMDBase):
         """
         if isinstance(self._x_rescale, np.ndarray):
             if np.ndim(X) == 1:
-                return np.multiply(X, self._x_rescale)
-            return np.multiply(X, self._x_rescale[..., None])
+                return np.multiply(X, self._x_rescale_flat)
+            return np.multiply(X, self._x_rescale_flat[..., None])
         return X * self._x_rescale
 
     def _check_x_rescale(self):
@@ -981,7 +1023,7 @@ class LANDO(DMDBase):
                     "same shape {} as the input features X."
                 )
                 raise ValueError(msg.format(self.snapshots_shape))
-            self._x_rescale = self._x_rescale.flatten()
+            self._x_rescale_flat = self._x_rescale.flatten()
 
     def _test_kernel_inputs(self, kernel_metric, kernel_params):
         """
-- 
2.43.0


From 928cf3fcefec9df293f06345b49961948f3a942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:26 +0000
Subject: [PATCH 13/34] fix: VarProDMD fits discard the previous state,
 forecasts follow the selected modes

---
 pydmd/varprodmd.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 88d336e..0797035 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -550,8 +550,8 @@ class VarProOperator(DMDOperator):
         :rtype: Tuple[np.ndarray, OptimizeResult, np.ndarray]
         """
         (
-            self._modes,
-            self._eigenvalues,
+            modes,
+            eigenvalues,
             eigenf,
             indices,
             opt,
@@ -571,9 +571,9 @@ class VarProOperator(DMDOperator):
 
         if isinstance(self._sorted_eigs, str):
             if self._sorted_eigs == "auto":
-                eigs_real = self._eigenvalues.real
-                eigs_imag = self._eigenvalues.imag
-                _eigs_abs = np.abs(self._eigenvalues)
+                eigs_real = eigenvalues.real
+                eigs_imag = eigenvalues.imag
+                _eigs_abs = np.abs(eigenvalues)
                 var_real = np.var(eigs_real)
                 var_imag = np.var(eigs_imag)
                 var_abs = np.var(_eigs_abs)
@@ -581,21 +581,24 @@ class VarProOperator(DMDOperator):
                 eigs_abs = (eigs_real, eigs_imag, _eigs_abs)[np.argmax(array)]
 
             elif self._sorted_eigs == "real":
-                eigs_abs = np.abs(self._eigenvalues.real)
+                eigs_abs = np.abs(eigenvalues.real)
 
             elif self._sorted_eigs == "imag":
-                eigs_abs = np.abs(self._eigenvalues.imag)
+                eigs_abs = np.abs(eigenvalues.imag)
 
             elif self._sorted_eigs == "abs":
-                eigs_abs = np.abs(self._eigenvalues)
+                eigs_abs = np.abs(eigenvalues)
             else:
                 raise ValueError(f"{self._sorted_eigs} not supported!")
 
             idx = np.argsort(eigs_abs)[::-1]  # sort from biggest to smallest
-            self._eigenvalues = self._eigenvalues[idx]
-            self._modes = self._modes[:, idx]
+            eigenvalues = eigenvalues[idx]
+            modes = modes[:, idx]
             eigenf = eigenf[idx]
 
+        self._modes = modes
+        self._eigenvalues = eigenvalues
+
         return eigenf, opt, indices
 
 
@@ -699,7 +702,9 @@ class VarProDMD(DMDBase):
         :rtype: object
         """
 
+        self._reset()
         self._snapshots_holder = Snapshots(X)
+        time = np.array(time)
         (self._b, self._optres, self._indices) = self._Atilde.compute_operator(
             self._snapshots_holder.snapshots.astype(np.complex128), time
         )
@@ -722,9 +727,7 @@ class VarProDMD(DMDBase):
         if not self.fitted:
             raise ValueError("Nothing fitted yet. Call fit-method first!")
 
-        return varprodmd_predict(
-            self._Atilde.modes, self._Atilde.eigenvalues, self._b, time
-        )
+        return varprodmd_predict(self.modes, self.eigs, self.amplitudes, time)
 
     @property
     def ssr(self) -> float:
-- 
2.43.0


From cf231c2d7a5cb18250ba1bd902d358ccaa4141f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:35 +0000
Subject: [PATCH 14/34] fix: a failed HAVOK fit changes nothing

---
 pydmd/havok.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 9325af8..e719794 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -383,20 +383,20 @@ class HAVOK:
         # Perform structured HAVOK (sHAVOK).
         if self._structured:
             U, s, V = compute_svd(hankel_matrix[:, :-1], self._svd_rank)
-            self._r = len(s)
-            V2 = compute_svd(hankel_matrix[:, 1:], self._r)[-1]
+            r = len(s)
+            V2 = compute_svd(hankel_matrix[:, 1:], r)[-1]
             V_dot = (V2 - V) / dt
 
         # Perform standard HAVOK.
         else:
             U, s, V = compute_svd(hankel_matrix, self._svd_rank)
-            self._r = len(s)
+            r = len(s)
             V_dot = differentiate(V.T, dt).T
 
         # Generate an error if too few HAVOK embeddings are being used.
-        if self._r < self._num_chaos + 1:
+        if r < self._num_chaos + 1:
             raise ValueError(
-                f"HAVOK is attempting to use r = {self._r} embeddings "
+                f"HAVOK is attempting to use r = {r} embeddings "
                 f"when r should be at least {self._num_chaos + 1}. "
                 "Try increasing the number of delays or providing "
                 "a positive integer argument for svd_rank."
@@ -431,6 +431,10 @@ class HAVOK:
                 ]
             )
 
+        eigenvalues = np.linalg.eig(
+            havok_operator[: -self._num_chaos, : -self._num_chaos]
+        )[0]
+
         # Set the input data information.
         self._snapshots = X
         self._ho_snapshots = hankel_matrix
@@ -440,12 +444,11 @@ class HAVOK:
         self._singular_vecs = U
         self._singular_vals = s
         self._delay_embeddings = V
+        self._r = r
 
         # Save the full HAVOK operator.
         self._havok_operator = havok_operator
-        self._eigenvalues = np.linalg.eig(
-            havok_operator[: -self._num_chaos, : -self._num_chaos]
-        )[0]
+        self._eigenvalues = eigenvalues
 
         return self
 
-- 
2.43.0


From 3a1a249ac42a0b02ed3fa555f4405ce2458993a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:35 +0000
Subject: [PATCH 15/34] fix: PrePostProcessingDMD forwards dmd_time and drops
 the state of failed fits

---
 pydmd/preprocessing/pre_post_processing.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 7ff0253..d6b6b57 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -90,15 +90,27 @@ class PrePostProcessingDMD(Generic[S]):
     def modes_activation_bitmask(self, value):
         self._dmd.modes_activation_bitmask = value
 
+    @property
+    def dmd_time(self):
+        return self._dmd.dmd_time
+
+    @dmd_time.setter
+    def dmd_time(self, value):
+        self._dmd.dmd_time = value
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
-        self._pre_processing_output, pre_processed_training_data = (
+        pre_processing_output, pre_processed_training_data = (
             self._pre_post_processing.pre_processing(X)
         )
         new_args, new_kwargs = PrePostProcessingDMD._replace_training_data(
             pre_processed_training_data, *args, **kwargs
         )
-        return self._dmd.fit(*new_args, **new_kwargs)
+        # not to be combined with another fit of the DMD instance, if this fails
+        self._pre_processing_output = None
+        fitted = self._dmd.fit(*new_args, **new_kwargs)
+        self._pre_processing_output = pre_processing_output
+        return fitted
 
     def _reconstructed_data_with_post_processing(self) -> np.ndarray:
         data = self._dmd.reconstructed_data
-- 
2.43.0


From e2ef9e142b2560f5ced6d2e38e8a0365fa54a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:35 +0000
Subject: [PATCH 16/34] fix: save replaces a file only with a complete model

---
 pydmd/dmdbase.py  |  5 ++---
 pydmd/paramdmd.py |  5 +++--
 pydmd/utils.py    | 37 +++++++++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index c556a9e..4cc91f1 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -8,7 +8,7 @@ from copy import copy, deepcopy
 import numpy as np
 
 from .dmdoperator import DMDOperator
-from .utils import compute_svd
+from .utils import compute_svd, save_pickle
 
 
 class ActivationBitmaskProxy:
@@ -665,8 +665,7 @@ _set_initial_time_dictionary() has not been called, did you call fit()?"""
         >>> dmd.fit(...)
         >>> dmd.save('pydmd.dmd')
         """
-        with open(fname, "wb") as output:
-            pickle.dump(self, output, pickle.HIGHEST_PROTOCOL)
+        save_pickle(self, fname)
 
     @staticmethod
     def load(fname):
diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 6c0d969..0c056d9 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -11,6 +11,8 @@ import pickle
 
 import numpy as np
 
+from .utils import save_pickle
+
 
 # roll by one position the shape of X. if X.shape == (a,b,c), the returned
 # NumPy array's shape is (b,c,a)
@@ -575,8 +577,7 @@ Unknown parameters not found. Did you set `ParametricDMD.parameters`?"""
         >>> pdmd.fit(...)
         >>> pdmd.save('pydmd.pdmd')
         """
-        with open(fname, "wb") as output:
-            pickle.dump(self, output, pickle.HIGHEST_PROTOCOL)
+        save_pickle(self, fname)
 
     @staticmethod
     def load(fname):
diff --git a/pydmd/utils.py b/pydmd/utils.py
index 5f8927f..37cb810 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -1,5 +1,9 @@
 """Utilities module."""
 
+import os
+import pickle
+import shutil
+import uuid
 import warnings
 from numbers import Number
 from typing import NamedTuple
@@ -16,6 +20,39 @@ TLSQ = namedtuple("TLSQ", ["X_denoised", "Y_denoised"])
 RQB = namedtuple("RQB", ["Q", "B", "test_matrix"])
 
 
+def save_pickle(obj, fname):
+    """
+    Save an object to a file using the pickle module. The file is replaced only
+    once the object has been written completely, therefore its former content
+    survives if something goes wrong.
+
+    :param obj: the object to be saved.
+    :param str fname: the name of the file.
+    """
+    target = os.path.realpath(fname)
+    if os.path.exists(target) and not os.path.isfile(target):
+        # something that cannot be replaced, like a device or a pipe
+        with open(target, "wb") as output:
+            pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
+        return
+
+    temporary = os.path.join(
+        os.path.dirname(target), f".pydmd-{uuid.uuid4().hex}.tmp"
+    )
+    try:
+        with open(temporary, "xb") as output:
+            pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
+            output.flush()
+            os.fsync(output.fileno())
+        if os.path.exists(target):
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
+
+
 def _svht(sigma_svd: np.ndarray, rows: int, cols: int) -> int:
     """
     Singular Value Hard Threshold.
-- 
2.43.0


From ce8327bdc02d2ef3b792072f603904c625703bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:39 +0000
Subject: [PATCH 17/34] fix: saving a PrePostProcessingDMD keeps the
 pre/post-processing

---
 pydmd/preprocessing/pre_post_processing.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index d6b6b57..50eeaef 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -10,6 +10,7 @@ from typing import Any, Dict, Generic, Tuple, TypeVar
 import numpy as np
 
 from pydmd.dmdbase import DMDBase
+from pydmd.utils import save_pickle
 
 # Pre-processing output type
 S = TypeVar("S")
@@ -98,6 +99,15 @@ class PrePostProcessingDMD(Generic[S]):
     def dmd_time(self, value):
         self._dmd.dmd_time = value
 
+    def save(self, fname):
+        """
+        Save the object (including the pre/post-processing) to `fname` using
+        the pickle module.
+
+        :param str fname: the name of file where the object will be saved.
+        """
+        save_pickle(self, fname)
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         pre_processing_output, pre_processed_training_data = (
-- 
2.43.0


From 55e2e2406d7392bf01032e550d70501660e06cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:56 +0000
Subject: [PATCH 18/34] fix: plotting functions do not write into the options
 of the caller

---
 pydmd/costs.py | 21 +++++++--------------
 pydmd/havok.py |  3 +--
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index daaa57f..af68ee6 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1114,19 +1114,16 @@ class COSTS:
             scale_reconstruction_kwargs
         )
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = {} if fig_kwargs is None else dict(fig_kwargs)
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get("figsize", (6, 4))
 
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = {} if hf_plot_kwargs is None else dict(hf_plot_kwargs)
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_high_frequency).max()
         )
@@ -1218,8 +1215,7 @@ class COSTS:
 
         xr_sep = self.scale_reconstruction(**scale_reconstruction_kwargs)
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = {} if fig_kwargs is None else dict(fig_kwargs)
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get(
             "figsize", (6, 1.5 * len(self._cluster_centroids) + 1)
@@ -1227,15 +1223,13 @@ class COSTS:
 
         # Low frequency and input data often require separate plotting
         # parameters.
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
         # High frequency components often require separate plotting parameters.
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = {} if hf_plot_kwargs is None else dict(hf_plot_kwargs)
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_sep[1:, :, :]).max()
         )
@@ -1319,8 +1313,7 @@ class COSTS:
         """
         if scale_reconstruction_kwargs is None:
             scale_reconstruction_kwargs = {}
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -3)
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", 3)
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "RdBu_r")
diff --git a/pydmd/havok.py b/pydmd/havok.py
index e719794..02be9cc 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -581,8 +581,7 @@ class HAVOK:
 
         if plot:
             # Set the plotting parameters first.
-            if plot_kwargs is None:
-                plot_kwargs = {}
+            plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
             if "figsize" not in plot_kwargs:
                 plot_kwargs["figsize"] = (5, 4)
             if "semilogy" not in plot_kwargs:
-- 
2.43.0


From 46931762a49696a2ca0aa1dfb3b4ab2000a9d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:36 +0000
Subject: [PATCH 19/34] fix: ParametricDMD, MrDMD and COSTS cannot be read
 half-way through a failed fit

---
 pydmd/costs.py    |  3 +++
 pydmd/mrdmd.py    | 43 +++++++++++++++++++++++--------------------
 pydmd/paramdmd.py | 18 ++++++++++++++----
 3 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index af68ee6..ea988a4 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -984,6 +984,9 @@ class COSTS:
         :rtype: numpy.ndarray
         """
 
+        if self._omega_array is None or self._omega_classes is None:
+            raise ValueError("The object must be fit and clustered first.")
+
         # Each individual reconstructed window
         xr_sep = np.zeros(
             (self._n_components, self._n_data_vars, self._n_time_steps)
diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 7e1cea4..5d4fc72 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -76,7 +76,8 @@ class MrDMD(DMDBase):
         self.dmd = dmd
         self.max_cycles = max_cycles
         self._requested_max_level = max_level
-        self._build_tree(max_level)
+        self.max_level = max_level
+        self.dmd_tree = self._build_tree(max_level)
 
     def __iter__(self):
         return self.dmd_tree.__iter__()
@@ -230,6 +231,8 @@ Expected one item per level, got {} out of {} levels.""".format(
         Build the internal binary tree that contain the DMD subclasses.
 
         :param int max_level: the maximum level (inclusive).
+        :return: the new tree.
+        :rtype: BinaryTree
         """
         dmd_tree = BinaryTree(max_level)
 
@@ -245,8 +248,7 @@ Expected one item per level, got {} out of {} levels.""".format(
                 dmd = builder_func(level, leaf)
                 dmd_tree[level, leaf] = dmd
 
-        self.max_level = max_level
-        self.dmd_tree = dmd_tree
+        return dmd_tree
 
     def time_window_bins(self, t0, tend):
         """
@@ -479,33 +481,31 @@ Expected one item per level, got {} out of {} levels.""".format(
         :param X: the input snapshots.
         :type X: numpy.ndarray or iterable
         """
-        self._reset()
-
-        self._snapshots_holder = Snapshots(X)
+        snapshots_holder = Snapshots(X)
+        n_samples = snapshots_holder.snapshots.shape[1]
 
         # Redefine max level if it is too big.
-        lvl_threshold = (
-            int(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)) + 1
-        )
+        lvl_threshold = int(np.log(n_samples / 4.0) / np.log(2.0)) + 1
         # Every fit starts from a new tree, in order not to mix with (or be
         # limited by) the previous one.
-        self._build_tree(min(self._requested_max_level, lvl_threshold))
-        if self.max_level < self._requested_max_level:
+        max_level = min(self._requested_max_level, lvl_threshold)
+        dmd_tree = self._build_tree(max_level)
+        if max_level < self._requested_max_level:
             print(
                 "Too many levels... "
-                "Redefining `max_level` to {}".format(self.max_level)
+                "Redefining `max_level` to {}".format(max_level)
             )
 
         def slow_modes(dmd, rho):
             return np.abs(np.log(dmd.eigs)) < rho * 2 * np.pi
 
-        X = self.snapshots.copy()
-        for level in self.dmd_tree.levels:
+        X = snapshots_holder.snapshots.copy()
+        for level in dmd_tree.levels:
             n_leaf = 2**level
             Xs = np.array_split(X, n_leaf, axis=1)
 
             for leaf, x in enumerate(Xs):
-                current_dmd = self.dmd_tree[level, leaf]
+                current_dmd = dmd_tree[level, leaf]
                 current_dmd.fit(x)
 
                 rho = self.max_cycles / x.shape[1]
@@ -515,14 +515,17 @@ Expected one item per level, got {} out of {} levels.""".format(
 
             newX = np.hstack(
                 [
-                    self.dmd_tree[level, leaf].reconstructed_data
-                    for leaf in self.dmd_tree.index_leaves(level)
+                    dmd_tree[level, leaf].reconstructed_data
+                    for leaf in dmd_tree.index_leaves(level)
                 ]
             ).astype(X.dtype)
             X -= newX
 
-        self._set_initial_time_dictionary(
-            dict(t0=0, tend=self.snapshots.shape[1], dt=1)
-        )
+        # The new tree replaces the previous one only when it is complete.
+        self._reset()
+        self._snapshots_holder = snapshots_holder
+        self.max_level = max_level
+        self.dmd_tree = dmd_tree
+        self._set_initial_time_dictionary(dict(t0=0, tend=n_samples, dt=1))
 
         return self
diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 0c056d9..053dc2f 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -94,6 +94,7 @@ class ParametricDMD:
         self._space_dim = None
         self._light = light
         self._training_modal_coefficients = None
+        self._incomplete_fit = False
 
     @property
     def is_partitioned(self):
@@ -373,16 +374,21 @@ class ParametricDMD:
                 )
             )
 
-        # we store these values for faster access
-        self._ntrain, self._space_dim, self._time_instants = X.shape
-        if self.is_partitioned and self._ntrain != len(self._dmd):
+        if self.is_partitioned and X.shape[0] != len(self._dmd):
             raise ValueError(
                 "Invalid number of DMD instances provided: "
                 "expected n_train={}, got {}".format(
-                    self._ntrain, len(self._dmd)
+                    X.shape[0], len(self._dmd)
                 )
             )
 
+        # nothing can be predicted until the POD and all the DMDs come from
+        # the same training set
+        self._incomplete_fit = True
+
+        # we store these values for faster access
+        self._ntrain, self._space_dim, self._time_instants = X.shape
+
         # store the training parameters: they will be used in
         # `reconstructed_data`
         self._set_training_parameters(training_parameters)
@@ -411,6 +417,8 @@ class ParametricDMD:
                 spacemu_time, *self._dmd_fit_args, **self._dmd_fit_kwargs
             )
 
+        self._incomplete_fit = False
+
     # ------------------------------------------------------------
     # getter properties for intermediate values of the computation
 
@@ -482,6 +490,8 @@ Property not available now, did you call `fit()`?"""
             `n`: number of snapshots).
         :rtype: numpy.ndarray
         """
+        if self._incomplete_fit:
+            raise RuntimeError("The last call to fit() did not complete.")
         if self.is_partitioned:
             for dmd in self._dmd:
                 # we want to "bound" this DMD objects' dmd_time
-- 
2.43.0


From 840f17dbd7d1bb9772dde2f509fd6b8159dfdc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:42 +0000
Subject: [PATCH 20/34] fix: VarProDMD with default options can be saved and
 copied

---
 pydmd/varprodmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 0797035..eebbc0f 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -521,7 +521,8 @@ class VarProOperator(DMDOperator):
         self._sorted_eigs = sorted_eigs
         self._svd_rank = svd_rank
         self._exact = exact
-        self._optargs: Dict[str, Any] = optargs
+        # A copy, and a plain dictionary: read-only views cannot be saved.
+        self._optargs: Dict[str, Any] = dict(optargs)
         self._compression: float = compression
         self._modes: np.ndarray = None
         self._eigenvalues: np.ndarray = None
-- 
2.43.0


From 13622361ec18ad29e1d0af358fce7e5da3e50bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:06 +0000
Subject: [PATCH 21/34] fix: HankelDMD reconstructs the requested instants for
 every time step

Windows with a time step other than that of the data, or with an original
time axis not starting at zero, returned the values of other instants.
---
 pydmd/hankeldmd.py | 62 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index d9c73d0..fbf8eb1 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -15,9 +15,23 @@ import numpy as np
 from .dmd import DMD
 from .dmdbase import DMDBase
 from .preprocessing.hankel import hankel_preprocessing
+from .preprocessing.pre_post_processing import PrePostProcessingDMD
 from .snapshots import Snapshots
 
 
+def _with_dmd_time(dmd, dmd_time):
+    """
+    Return a shallow copy of the given (pre-processed) DMD instance with another
+    `dmd_time`, the given instance is left untouched.
+    """
+    dmd = copy(dmd)
+    if isinstance(dmd, PrePostProcessingDMD):
+        dmd._dmd = _with_dmd_time(dmd.pre_post_processed_dmd, dmd_time)
+    else:
+        dmd.dmd_time = dmd_time
+    return dmd
+
+
 class HankelDMD(DMDBase):
     """
     Hankel Dynamic Mode Decomposition
@@ -129,10 +143,17 @@ class HankelDMD(DMDBase):
         assert isinstance(time, Number) or np.asarray(time).ndim == 1
         return max(
             0,
-            (time - self.original_time["t0"]) // self.dmd_time["dt"]
-            - (self.original_time["t0"] + self._d - 1),
+            np.floor(self._steps(time)) - (self._d - 1),
         )
 
+    def _steps(self, time):
+        """
+        Number of time steps of the original data (not necessarily integer)
+        from the first snapshot to the given time instant(s).
+        """
+        steps = (time - self.original_time["t0"]) / self.original_time["dt"]
+        return np.round(steps, 8)
+
     def _update_sub_dmd_time(self):
         """
         Update the time dictionaries (`dmd_time` and `original_time`) of
@@ -151,17 +172,32 @@ class HankelDMD(DMDBase):
     def reconstructed_data(self):
         self._update_sub_dmd_time()
 
-        # we want to return only the requested timesteps
-        time_index = min(
-            self._d - 1,
-            int(
-                (self.dmd_time["t0"] - self.original_time["t0"])
-                // self.dmd_time["dt"]
-            ),
-        )
-        return self._sub_dmd.reconstructed_data[
-            :, time_index : time_index + len(self.dmd_timesteps)
-        ]
+        steps = self._steps(self.dmd_timesteps)
+        whole = np.floor(steps).astype(int)
+        offsets = steps - whole
+
+        # The columns of the Hankel matrix are one time step of the original
+        # data apart, therefore instants which are not a whole number of steps
+        # apart belong to different sequences of columns.
+        reconstruction = None
+        for offset in np.unique(offsets):
+            selected = offsets == offset
+            first, last = whole[selected].min(), whole[selected].max()
+            # first column which contains the instant
+            first = min(first, max(0, first - self._d + 1))
+            last = min(last, max(0, last - self._d + 1))
+            sub_dmd = _with_dmd_time(
+                self._sub_dmd,
+                {"t0": first + offset, "tend": last + offset, "dt": 1},
+            )
+            # we want to return only the requested timesteps
+            data = sub_dmd.reconstructed_data[:, whole[selected] - first]
+            if reconstruction is None:
+                reconstruction = np.empty(
+                    (data.shape[0], len(steps)), dtype=data.dtype
+                )
+            reconstruction[:, selected] = data
+        return reconstruction
 
     @property
     def modes(self):
-- 
2.43.0


From 7b1b7ea7095038ce47d2bfadf2dd688e2e4f2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 22/34] fix: LANDO amplitudes follow the latest analysis and
 update

---
 pydmd/lando.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 6a9b20d..ac87a2d 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -859,6 +859,8 @@ class LANDO(DMDBase):
             msg = "Input fixed point must have shape {}."
             raise ValueError(msg.format(self.snapshots_shape))
 
+        # The amplitudes of the previous analysis are void.
+        self._b = None
         self._modes_activation_bitmask_proxy = None
         self._compute_A = compute_A
         self._fixed_point = fixed_point
@@ -912,6 +914,7 @@ class LANDO(DMDBase):
 
         # If a fixed point analysis was already done, redo it.
         if self.fitted:
+            self._b = None
             self._modes_activation_bitmask_proxy = None
             self._bias = self.f(self._fixed_point[..., None])
             self.operator.compute_linear_operator(
-- 
2.43.0


From 232fa904dbb56c709e9048c387a9536f556969f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:42 +0000
Subject: [PATCH 23/34] fix: COSTS.to_xarray accepts ranks computed per window

---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index ea988a4..2c575a2 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1496,7 +1496,7 @@ class COSTS:
             coords={
                 "window_time_means": np.mean(self.time_array, axis=1),
                 "slide": ("window_time_means", np.arange(self._n_slides)),
-                "svd_rank": np.arange(self.svd_rank),
+                "svd_rank": np.arange(self.omega_array.shape[1]),
                 "space": np.arange(self._n_data_vars),
                 "frequency_band": np.arange(self.n_components),
                 "window_index": np.arange(self._window_length),
-- 
2.43.0


From be210fe71f865edfa06766ec6dca4e390c76aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:42 +0000
Subject: [PATCH 24/34] fix: a failed COSTS.from_xarray leaves the object as it
 was

---
 pydmd/costs.py | 54 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 2c575a2..b6870af 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1535,36 +1535,46 @@ class COSTS:
         :return: Previously fitted COSTS object.
         """
 
-        self._omega_array = ds.omega.values
-        self._omega_classes = ds.omega_classes.values
-        self._amplitudes_array = ds.amplitudes.values
-        self._modes_array = ds.modes.values
-        self._window_means_array = ds.window_means.values
-        self._cluster_centroids = ds.cluster_centroids.values
-        self._time_array = ds.time.values
-        self._n_slides = ds.attrs["n_slides"]
-        self._svd_rank = ds.attrs["svd_rank"]
-        self._n_data_vars = ds.attrs["n_data_vars"]
-        self._n_time_steps = ds.attrs["n_time_steps"]
-        self._n_components = ds.attrs["num_frequency_bands"]
-        self._non_integer_n_slide = ds.attrs["non_integer_n_slide"]
-        self._step_size = ds.attrs["step_size"]
-        self._window_length = ds.attrs["window_length"]
-        self._global_svd = ds.attrs["global_svd"]
-
-        self._pydmd_kwargs = {}
+        # Read everything before changing the object, such that a dataset which
+        # cannot be read leaves it as it was.
+        state = {
+            "_omega_array": ds.omega.values,
+            "_omega_classes": ds.omega_classes.values,
+            "_amplitudes_array": ds.amplitudes.values,
+            "_modes_array": ds.modes.values,
+            "_window_means_array": ds.window_means.values,
+            "_cluster_centroids": ds.cluster_centroids.values,
+            "_time_array": ds.time.values,
+            "_n_slides": ds.attrs["n_slides"],
+            "_svd_rank": ds.attrs["svd_rank"],
+            "_n_data_vars": ds.attrs["n_data_vars"],
+            "_n_time_steps": ds.attrs["n_time_steps"],
+            "_n_components": ds.attrs["num_frequency_bands"],
+            "_non_integer_n_slide": ds.attrs["non_integer_n_slide"],
+            "_step_size": ds.attrs["step_size"],
+            "_window_length": ds.attrs["window_length"],
+            "_global_svd": ds.attrs["global_svd"],
+        }
+
+        pydmd_kwargs = {}
         for attr in ds.attrs:
             if "pydmd_kwargs" in attr:
                 new_attr_name = attr.replace("pydmd_kwargs__", "")
-                self._pydmd_kwargs[new_attr_name] = self._xarray_unsanitize(
+                pydmd_kwargs[new_attr_name] = self._xarray_unsanitize(
                     ds.attrs[attr]
                 )
                 if new_attr_name == "eig_constraints":
-                    self._pydmd_kwargs[new_attr_name] = set(
-                        self._pydmd_kwargs[new_attr_name]
+                    pydmd_kwargs[new_attr_name] = set(
+                        pydmd_kwargs[new_attr_name]
                     )
             elif "omega_transformation" in attr:
-                self._transform_method = self._xarray_unsanitize(ds.attrs[attr])
+                state["_transform_method"] = self._xarray_unsanitize(
+                    ds.attrs[attr]
+                )
+        state["_pydmd_kwargs"] = pydmd_kwargs
+
+        for name, value in state.items():
+            setattr(self, name, value)
 
         return self
 
-- 
2.43.0


From 5a7ab6876cd7a7842ee3da0683d18b91595ff0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:42 +0000
Subject: [PATCH 25/34] fix: COSTS.from_xarray restores the number of allocated
 eigenvalues

---
 pydmd/costs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index b6870af..754f832 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1554,6 +1554,8 @@ class COSTS:
             "_step_size": ds.attrs["step_size"],
             "_window_length": ds.attrs["window_length"],
             "_global_svd": ds.attrs["global_svd"],
+            "_svd_rank_pre_allocate": ds.omega.shape[1],
+            "_fit_rank": None,
         }
 
         pydmd_kwargs = {}
-- 
2.43.0


From c59f4cbb8ace005d63ebc627d405d0fc120873fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:42 +0000
Subject: [PATCH 26/34] fix: COSTS.from_xarray restores a single eigenvalue
 constraint

---
 pydmd/costs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 754f832..be4dc03 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1565,9 +1565,11 @@ class COSTS:
                 pydmd_kwargs[new_attr_name] = self._xarray_unsanitize(
                     ds.attrs[attr]
                 )
-                if new_attr_name == "eig_constraints":
+                value = pydmd_kwargs[new_attr_name]
+                if new_attr_name == "eig_constraints" and value is not None:
+                    # A list of one string comes back from file as a string.
                     pydmd_kwargs[new_attr_name] = set(
-                        pydmd_kwargs[new_attr_name]
+                        np.atleast_1d(value).tolist()
                     )
             elif "omega_transformation" in attr:
                 state["_transform_method"] = self._xarray_unsanitize(
-- 
2.43.0


From 0fa234814191d1c81680f3138204f463abe29b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:42 +0000
Subject: [PATCH 27/34] fix: mrCOSTS.from_netcdf restores the frequency
 transformation

---
 pydmd/mrcosts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index f981f32..2d136da 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -563,6 +563,7 @@ class mrCOSTS:
             global_svd_array=global_svd_array,
             pydmd_kwargs=pydmd_kwargs,
             n_components_array=n_components_array,
+            transform_method=mrd_list[0]._transform_method,
         )
 
         # Initialize variables that are defined in fitting.
-- 
2.43.0


From a8ab2ba09285785fd67ab9c227f33fab50d34bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:39 +0000
Subject: [PATCH 28/34] fix: concurrent reads of a ParametricDMD do not share
 the interpolator

---
 pydmd/paramdmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 053dc2f..72efb3f 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -7,6 +7,7 @@ Dynamical Systems, F. Andreuzzi, N. Demo, G. Rozza, 2023, SIAM Journal on
 Applied Dynamical Systems
 """
 
+import copy
 import pickle
 
 import numpy as np
@@ -529,7 +530,9 @@ Property not available now, did you call `fit()`?"""
 Unknown parameters not found. Did you set `ParametricDMD.parameters`?"""
             )
 
-        approx = self._approximation
+        # The interpolator is fitted on a copy: concurrent readers must not
+        # share its state.
+        approx = copy.deepcopy(self._approximation)
         forecasted_modal_coefficients = forecasted_modal_coefficients.reshape(
             (self._ntrain, -1, forecasted_modal_coefficients.shape[1]),
             order="C",
-- 
2.43.0


From 3e773481eb3a45d903f940615f460d6dee8b3eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 29/34] fix: a failed global clustering keeps the previous
 number of bands

---
 pydmd/mrcosts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 2d136da..fd1763e 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -971,16 +971,17 @@ class mrCOSTS:
                     " `n_components`"
                 )
             )
-        if n_components is not None:
-            self._n_components_global = n_components
+        if n_components is None:
+            n_components = self._n_components_global
 
         omega_classes, cluster_centroids, omega_array = self._global_cluster(
-            n_components=self._n_components_global,
+            n_components=n_components,
             method=method,
             transform_method=transform_method,
             clustering_kwargs=clustering_kwargs,
         )
 
+        self._n_components_global = n_components
         self._cluster_centroids = cluster_centroids
         self._omega_classes = omega_classes
 
-- 
2.43.0


From ccdfce3432bc5c07033cc94fa19de899f072ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 30/34] fix: global reconstruction uses the bands of the
 clustering, not of a later sweep

---
 pydmd/mrcosts.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index fd1763e..9c282be 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -1043,10 +1043,12 @@ class mrCOSTS:
         """
 
         # Each individual reconstructed window
+        # A sweep made after the clustering may have found another number.
+        n_components = len(self.cluster_centroids)
         xr_sep = np.zeros(
             (
                 self.n_decompositions,
-                self._n_components_global,
+                n_components,
                 self._n_data_vars,
                 self._n_time_steps,
             )
@@ -1083,7 +1085,7 @@ class mrCOSTS:
                 # Reconstruct each frequency band separately.
                 xr_sep_window = np.zeros(
                     (
-                        self._n_components_global,
+                        n_components,
                         self._n_data_vars,
                         mrd.window_length,
                     )
@@ -1100,7 +1102,7 @@ class mrCOSTS:
                         k * mrd.step_size + mrd.window_length,
                     )
 
-                for j in np.arange(0, self._n_components_global):
+                for j in np.arange(0, n_components):
                     class_ind = classification == j
                     xr_sep_window[j, :, :] = np.linalg.multi_dot(
                         [
-- 
2.43.0


From 6eb26c3da45c185708c1157aa67b82e4f03e2378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 31/34] fix: global clustering sees levels clustered anew since
 the last call

---
 pydmd/mrcosts.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 9c282be..4f237b9 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -429,6 +429,16 @@ class mrCOSTS:
         """
         Interpolate the mrCOSTS eigenvalues to the smallest decomposition level.
 
+        :return: Interpolated mrCOSTS eigenvalues
+        :rtype: xarray DataArray
+        """
+        self._da_omega = self._interpolated_omega()
+
+    def _interpolated_omega(self):
+        """
+        The mrCOSTS eigenvalues interpolated to the smallest decomposition
+        level, without the current low-frequency bands.
+
         :return: Interpolated mrCOSTS eigenvalues
         :rtype: xarray DataArray
         """
@@ -478,7 +488,7 @@ class mrCOSTS:
             np.arange(len(da_omega.window_length)),
         )
 
-        self._da_omega = da_omega
+        return da_omega
 
     def multi_res_deterp(self):
         """
@@ -789,6 +799,7 @@ class mrCOSTS:
 
     def _global_cluster(
         self,
+        da_omega,
         n_components=None,
         method=MiniBatchKMeans,
         transform_method=None,
@@ -796,6 +807,8 @@ class mrCOSTS:
     ):
         """Helper function for clustering global frequency bands.
 
+        :param da_omega: Interpolated mrCOSTS eigenvalues.
+        :type da_omega: xarray DataArray
         :param method: Clustering method following the sklearn pattern (has
             `fit_predict` and `n_clusters` keywords). Default is
             MiniBatchKMeans.
@@ -815,9 +828,6 @@ class mrCOSTS:
         :rtype omega_array: numpy.ndarray
         """
 
-        if self._da_omega is None:
-            self.multi_res_interp()
-
         if transform_method is None:
             transform_method = self._transform_method
 
@@ -825,7 +835,7 @@ class mrCOSTS:
         # indexing to remove NaNs. NaNs, which must be exlcuded from
         # clustering, can appear as a result of the multi-resolution
         # interpolation.
-        omega_array = self._da_omega.values
+        omega_array = da_omega.values
         omega_array = omega_array[~np.isnan(omega_array)]
         omega_array = self.transform_omega(
             omega_array, transform_method=transform_method
@@ -893,11 +903,13 @@ class mrCOSTS:
         """
 
         score = np.zeros_like(n_components_range, float)
+        da_omega = self._interpolated_omega()
 
         for nind, n in enumerate(n_components_range):
             if verbose:
                 print(f"fitting n_components = {n:}")
             omega_classes, _, omega = self._global_cluster(
+                da_omega,
                 n_components=n,
                 transform_method=transform_method,
                 method=method,
@@ -974,13 +986,17 @@ class mrCOSTS:
         if n_components is None:
             n_components = self._n_components_global
 
+        # The levels may have been clustered anew since the last call.
+        da_omega = self._interpolated_omega()
         omega_classes, cluster_centroids, omega_array = self._global_cluster(
+            da_omega,
             n_components=n_components,
             method=method,
             transform_method=transform_method,
             clustering_kwargs=clustering_kwargs,
         )
 
+        self._da_omega = da_omega
         self._n_components_global = n_components
         self._cluster_centroids = cluster_centroids
         self._omega_classes = omega_classes
-- 
2.43.0


From 577504d09183a8d9b6cb6882acee610720508cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:23 +0000
Subject: [PATCH 32/34] fix: DMDc keeps control input and B of its own, not the
 caller's arrays

---
 pydmd/dmdc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index 63572a8..10c2716 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -305,7 +305,7 @@ class DMDc(DMDBase):
         :type B: numpy.ndarray or iterable
         """
         self._reset()
-        self._controlin = np.atleast_2d(np.asarray(I))
+        self._controlin = np.array(I, ndmin=2)
 
         self._snapshots_holder = Snapshots(X)
         n_samples = self.snapshots.shape[-1]
@@ -330,7 +330,7 @@ class DMDc(DMDBase):
             U, _, _ = self.operator.compute_operator(X, Y, B, self._controlin)
 
             self._basis = U
-            self._B = B
+            self._B = np.array(B)
 
         self._b = self._compute_amplitudes()
 
-- 
2.43.0


From 2f2781f6c502ca4a54f4cdb7f54ac3581fbf56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:23 +0000
Subject: [PATCH 33/34] fix: ParametricDMD keeps parameters of its own, not the
 caller's arrays

---
 pydmd/paramdmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 72efb3f..cd48bb7 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -204,7 +204,7 @@ class ParametricDMD:
         if params.ndim > 2:
             raise ValueError("Parameters must be stored in 2D arrays.")
 
-        self._training_parameters = params
+        self._training_parameters = np.array(params)
 
     @property
     def parameters(self):
@@ -247,7 +247,7 @@ class ParametricDMD:
         elif value.ndim > 2:
             raise ValueError("Parameters must be stored in 2D arrays.")
 
-        self._parameters = value
+        self._parameters = np.array(value)
 
     def _arrange_parametric_snapshots(self, X):
         """
-- 
2.43.0


From 9adfbbaef482af618532d6d5558d35c6622e42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:23 +0000
Subject: [PATCH 34/34] fix: Snapshots copies arrays as it does lists, so
 callers may reuse them

---
 pydmd/snapshots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/snapshots.py b/pydmd/snapshots.py
index 2e65faf..02324bc 100644
--- a/pydmd/snapshots.py
+++ b/pydmd/snapshots.py
@@ -46,7 +46,8 @@ class Snapshots:
                 raise ValueError(
                     "Expected at least a 2D matrix (space x time)."
                 )
-            snapshots = X.reshape((-1, X.shape[-1]))
+            # a copy, as for lists: the caller may reuse his array
+            snapshots = X.reshape((-1, X.shape[-1])).copy(order="K")
             shapes = set((X.shape[:-1],))
         else:
             shapes, arrays = zip(
-- 
2.43.0

