From f1c2b0fee0478bd90c2ce0789a55c5ddfa143e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 01/72] fix: let TransformerMulti train a TransformerPipeline

---
 src/opinf/pre/_multi.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 77fd728..6dfd8c7 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -86,7 +86,18 @@ class TransformerPipeline(TransformerTemplate):
         for tf in self.transformers:
             if (r := tf.state_dimension) is not None:
                 return r
-        return None
+        return TransformerTemplate.state_dimension.fget(self)
+
+    @state_dimension.setter
+    def state_dimension(self, n):
+        """Set the state dimension :math:`n` before training."""
+        for tf in self.transformers:
+            if (n2 := tf.state_dimension) is not None and n != n2:
+                raise AttributeError(
+                    "can't set attribute 'state_dimension'"
+                    f" to {n} != {n2} = transformers state_dimension"
+                )
+        TransformerTemplate.state_dimension.fset(self, n)
 
     def __str__(self):
         lines = super().__str__().split("\n  ")
-- 
2.43.0


From df3c1662df9a0b2de9eca9e216a1523cf644da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 02/72] fix: restore name=None in TransformerPipeline.load()

---
 src/opinf/pre/_multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 6dfd8c7..ce5766f 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -180,7 +180,7 @@ class TransformerPipeline(TransformerTemplate):
                 for i in range(num_transformers)
             ]
 
-            return cls(transformers, name=name)
+            return cls(transformers, name=(None if name == "None" else name))
 
 
 # Vertical joining ============================================================
-- 
2.43.0


From 87e3855762dbf1c5776fd6343e33b3ca16172a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 03/72] fix: keep the smallest positive eigenvalue in
 method_of_snapshots()

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a549f1..ccff633 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -123,7 +123,7 @@ def method_of_snapshots(
     # By definition the Gramian is symmetric positive semi-definite.
     # If any eigenvalues are smaller than zero, they are only measuring
     # numerical error and can be truncated.
-    positives = eigvals > max(minthresh, abs(np.min(eigvals)))
+    positives = eigvals > max(minthresh, -np.min(eigvals))
     eigvecs = eigvecs[:, positives]
     eigvals = eigvals[positives]
 
-- 
2.43.0


From 672c8f65f2405af14d23af0a6a9e9b60a30d9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 04/72] fix: PODBasis residual criteria select the smallest
 admissible dimension

---
 src/opinf/basis/_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index ccff633..998ed25 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -578,7 +578,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "residual_energy":
-            r = np.count_nonzero(1 - energy >= value) + 1
+            r = np.count_nonzero(1 - energy > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "residual energy is being estimated from only "
@@ -586,7 +586,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "projection_error":
-            r = np.count_nonzero(np.sqrt(1 - energy) >= value) + 1
+            r = np.count_nonzero(np.sqrt(1 - energy) > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "projection error is being estimated from only "
-- 
2.43.0


From 1489ad68862b07750d03fa4e93daf5e62e93f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 05/72] fix: PODBasis.load() restores the saved reduced state
 dimension

---
 src/opinf/basis/_pod.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 998ed25..b71694e 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -985,6 +985,9 @@ class PODBasis(LinearBasis):
                 hf.create_dataset("weights", data=w)
 
             if self.leftvecs is not None:
+                meta.attrs["reduced_state_dimension"] = (
+                    self.reduced_state_dimension
+                )
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
                 hf.create_dataset("rightvecs", data=self.rightvecs)
@@ -1024,11 +1027,15 @@ class PODBasis(LinearBasis):
                 if (r := max_vectors) is not None:
                     r = min(r, hf["leftvecs"].shape[1])
                     if "num_vectors" in kwargs:
-                        kwargs["num_vectors"] = r
+                        kwargs["num_vectors"] = min(r, kwargs["num_vectors"])
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
                 kwargs["rightvecs"] = hf["rightvecs"][:, :r]
-                return cls.from_svd(**kwargs)
+                basis = cls.from_svd(**kwargs)
+                if "reduced_state_dimension" in attrs:
+                    r = int(attrs["reduced_state_dimension"])
+                    basis.reduced_state_dimension = min(r, basis.max_vectors)
+                return basis
 
             return cls(**kwargs)
 
-- 
2.43.0


From 80045f454632755f7ef418d44a4f190e93713405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 06/72] fix: save a PODBasis that has no right singular vectors

---
 src/opinf/basis/_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index b71694e..234c757 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -990,7 +990,8 @@ class PODBasis(LinearBasis):
                 )
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
-                hf.create_dataset("rightvecs", data=self.rightvecs)
+                if self.rightvecs is not None:
+                    hf.create_dataset("rightvecs", data=self.rightvecs)
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1030,7 +1031,8 @@ class PODBasis(LinearBasis):
                         kwargs["num_vectors"] = min(r, kwargs["num_vectors"])
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
-                kwargs["rightvecs"] = hf["rightvecs"][:, :r]
+                if "rightvecs" in hf:
+                    kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 basis = cls.from_svd(**kwargs)
                 if "reduced_state_dimension" in attrs:
                     r = int(attrs["reduced_state_dimension"])
-- 
2.43.0


From 5ca516679cce86cc54bba811718ae1c2f5ac230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 07/72] fix: implement PolynomialOperator.jacobian()

The inherited method returned 0 for every polynomial order.
---
 src/opinf/operators/_polynomial_operator.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 7d2c4e3..9cd071f 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -221,6 +221,25 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    def jacobian(self, state: np.ndarray, input_=None) -> np.ndarray:
+        r"""Construct the state Jacobian of the operator. Input is not used.
+        See OpInfOperator.jacobian for description.
+        """
+        if (p := self.polynomial_order) == 0:
+            return 0
+
+        # Product rule: d(q ⊗ x) = (I ⊗ x) + (q ⊗ dx), where x = q^(p-1).
+        q = np.atleast_1d(state)
+        kept = self.nonredudant_entries
+        x, dx = q, np.eye(q.shape[0])
+        for i in range(2, p + 1):
+            dx = (
+                np.kron(np.eye(q.shape[0]), x[:, np.newaxis])
+                + np.kron(q[:, np.newaxis], dx)
+            )[kept[i]]
+            x = np.kron(q, x)[kept[i]]
+        return self.entries @ dx
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From 29ff2a78d77770b534717b06299cae835684e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 08/72] fix: keep the polynomial order in PolynomialOperator
 copy(), save(), and load()

---
 src/opinf/operators/_polynomial_operator.py | 37 ++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 9cd071f..ae801c8 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,4 +1,4 @@
-# from .. import utils
+from .. import utils
 from ._base import OpInfOperator
 
 import numpy as np
@@ -252,3 +252,38 @@ class PolynomialOperator(OpInfOperator):
             PolynomialOperator.keptIndices_p(r=self.state_dimension, p=i)
             for i in range(self.polynomial_order + 1)
         ]
+
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Return a copy of the operator."""
+        entries = self.entries.copy() if self.entries is not None else None
+        return self.__class__(self.polynomial_order, entries)
+
+    def save(self, savefile: str, overwrite: bool = False) -> None:
+        """Save the operator to an HDF5 file.
+        See OpInfOperator.save for description.
+        """
+        with utils.hdf5_savehandle(savefile, overwrite) as hf:
+            meta = hf.create_dataset("meta", shape=(0,))
+            meta.attrs["class"] = self.__class__.__name__
+            meta.attrs["polynomial_order"] = self.polynomial_order
+            if self.entries is not None:
+                hf.create_dataset("entries", data=self.entries)
+
+    @classmethod
+    def load(cls, loadfile: str):
+        """Load an operator from an HDF5 file.
+        See OpInfOperator.load for description.
+        """
+        with utils.hdf5_loadhandle(loadfile) as hf:
+            if (
+                ClassName := hf["meta"].attrs["class"]
+            ) != cls.__name__:  # pragma: no cover
+                raise TypeError(
+                    f"file '{loadfile}' contains '{ClassName}' "
+                    f"object, use '{ClassName}.load()"
+                )
+            return cls(
+                int(hf["meta"].attrs["polynomial_order"]),
+                hf["entries"][:] if "entries" in hf else None,
+            )
-- 
2.43.0


From 014a180f78e6399bb8721d32bd39ff5c28161b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 09/72] fix: ConstantOperator.apply() does not truncate for
 integer states

---
 src/opinf/operators/_nonparametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index 84f892c..dda56d7 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -112,7 +112,7 @@ class ConstantOperator(OpInfOperator):
         if self.entries.shape[0] == 1:
             if state is None or np.isscalar(state):  # r = k = 1.
                 return self.entries[0]
-            return np.full_like(state, self.entries[0])  # r = 1, k > 1.
+            return np.full(np.shape(state), self.entries[0])  # r = 1, k > 1.
         # if state is None or np.ndim(state) == 1:
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
-- 
2.43.0


From 85244dfc5d95c5790174213301ff86630e1f3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 10/72] fix: sort the training parameters for cubic splines
 however they are chosen

Only the default interpolator sorted them, but it then stored CubicSpline as
the chosen class, so copying, loading, projecting, or refitting an operator
with unsorted training parameters raised an error.
---
 src/opinf/operators/_interpolate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 629d199..e20490c 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -267,12 +267,15 @@ class _InterpOperator(ParametricOpInfOperator):
             if InterpolatorClass is None:
                 if (dim := params.ndim) == 1:
                     InterpolatorClass = spinterp.CubicSpline
-                    paramsort = np.argsort(params)
-                    params = params[paramsort]
-                    entries = self.entries[paramsort]
                 elif dim == 2:
                     InterpolatorClass = spinterp.LinearNDInterpolator
 
+            # Cubic splines require sorted data points.
+            if InterpolatorClass is spinterp.CubicSpline:
+                paramsort = np.argsort(params)
+                params = params[paramsort]
+                entries = self.entries[paramsort]
+
             # Do the interpolation.
             self.__interpolator = InterpolatorClass(params, entries)
 
-- 
2.43.0


From d7cb9def145b1940668168fea389b331928c467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 11/72] fix: load an affine operator with integer coeffs

The parameter dimension was set a second time, which raises an error.
---
 src/opinf/operators/_affine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index eb8ee04..b0d8c58 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -499,7 +499,9 @@ class _AffineOperator(ParametricOpInfOperator):
 
             op = cls(coeffs, nterms=nterms, entries=entries, fromblock=False)
 
-            if (key := "parameter_dimension") in hf["meta"].attrs:
+            if (
+                key := "parameter_dimension"
+            ) in hf["meta"].attrs and op.parameter_dimension is None:
                 op.parameter_dimension = int(hf["meta"].attrs[key])
             return op
 
-- 
2.43.0


From e93b35d0891c0a9ff339f797c7669fabc07cc2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 12/72] fix: fit parametric models that have a known
 interpolated operator

set_training_parameters() is not allowed after the entries are set.
---
 src/opinf/models/mono/_parametric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9e109a1..507a980 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -275,7 +275,8 @@ class _ParametricModel(_OpInfModel):
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
 
         # Set training_parameters for interpolatory operators.
-        for op in self.operators:
+        for i in self._indices_of_operators_to_infer:
+            op = self.operators[i]
             if oputils.is_interpolated(op):
                 op.set_training_parameters(parameters_)
 
-- 
2.43.0


From ba4406dd17bb83ae8378fd3541c5a35a94bbbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 13/72] fix: account for known operators exactly once in
 interpolated model fits

The known operators were subtracted from the left-hand side by the parametric
model and once more by each of the nonparametric submodels, were taken at the
wrong parameter values if the training parameters are ordered differently, and
were replaced after the fit.
---
 src/opinf/models/mono/_parametric.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 507a980..c8c2e0b 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1134,7 +1134,7 @@ class _InterpModel(_ParametricModel):
         (
             parameters_,
             states_,
-            lhs_,
+            _,
             inputs_,
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
         n_datasets = len(parameters)
@@ -1144,16 +1144,19 @@ class _InterpModel(_ParametricModel):
         for i in range(n_datasets):
             model_i = self._ModelFitClass(
                 operators=[
-                    op._OperatorClass(
-                        op.entries[i] if op.entries is not None else None
+                    (
+                        op._OperatorClass()
+                        if oputils.is_uncalibrated(op)
+                        else op.evaluate(parameters_[i])
                     )
                     for op in self.operators
                 ],
                 solver=self.solver.copy(),
             )
+            # The submodel subtracts the known operators from the LHS.
             model_i._fit_solver(
                 states_[i],
-                lhs_[i],
+                lhs[i],
                 inputs_[i],
             )
             nonparametric_models.append(model_i)
@@ -1173,7 +1176,8 @@ class _InterpModel(_ParametricModel):
             submodel.refit()
 
         # Interpolate the resulting operators.
-        for ell, op in enumerate(self.operators):
+        for ell in self._indices_of_operators_to_infer:
+            op = self.operators[ell]
             op._clear()
             op.set_training_parameters(self._training_parameters)
             op.set_entries(
-- 
2.43.0


From bf7c46b641bd88754f731392e8fb232c40bb6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 14/72] fix: TruncatedSVDSolver.fit() uses the requested number
 of modes

After training once, None and negative values of num_svdmodes were replaced
by the number of modes for that data set, so training again with another data
set silently truncated to the old number.
---
 src/opinf/lstsq/_tsvd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 2432800..cb6c6ea 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -76,18 +76,21 @@ class TruncatedSVDSolver(SolverTemplate):
     def num_svdmodes(self, nmodes: int):
         """Set the number of columns."""
         if nmodes is None:
+            self.__request = None
             self.__nmodes = self.max_modes
             return
 
         if not isinstance(nmodes, int):
             raise TypeError("num_svdmodes must be an integer")
 
+        request = nmodes
         if self.data_matrix is not None:
             d = self.max_modes
             if nmodes <= 0:
                 nmodes = d + nmodes
             if nmodes > d:
                 raise ValueError(f"only {d} SVD modes available")
+        self.__request = request
         self.__nmodes = nmodes
 
     @property
@@ -129,9 +132,10 @@ class TruncatedSVDSolver(SolverTemplate):
         self._ZPhi = self.lhs_matrix @ Phi
         self._SinvPsiT = PsiT / svals.reshape((-1, 1))
 
-        # Reset num_svdmodes.
+        # Reset num_svdmodes from the requested number (which may be relative
+        # to the number of modes available in this data matrix).
         d = self._ZPhi.shape[1]
-        if (n := self.num_svdmodes) is None:
+        if (n := self.__request) is None:
             n = d
         if n <= 0:
             n = d + n
@@ -220,9 +224,10 @@ class TruncatedSVDSolver(SolverTemplate):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            num_svdmodes=self.num_svdmodes,
+            num_svdmodes=self.__request,
             lapack_driver=self.options["lapack_driver"],
         )
+        solver.__nmodes = self.__nmodes
         if self.data_matrix is not None:
             SolverTemplate.fit(solver, self.data_matrix, self.lhs_matrix)
             for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
-- 
2.43.0


From fb329cf8403ca89e65a9e2936c6bf7bede3a97b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 15/72] fix: save and load a TruncatedSVDSolver with
 num_svdmodes=None

save() failed for an untrained solver, leaving an incomplete file.
---
 src/opinf/lstsq/_tsvd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index cb6c6ea..e5498a7 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -187,7 +187,8 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             self._save_dict(hf, "options")
-            hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
+            if self.__request is not None:
+                hf.create_dataset("num_svdmodes", data=[self.__request])
             if self.data_matrix is not None:
                 hf.create_dataset("data_matrix", data=self.data_matrix)
                 hf.create_dataset("lhs_matrix", data=self.lhs_matrix)
@@ -211,7 +212,9 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             options = cls._load_dict(hf, "options")
-            num_svdmodes = int(hf["num_svdmodes"][0])
+            num_svdmodes = None
+            if "num_svdmodes" in hf:
+                num_svdmodes = int(hf["num_svdmodes"][0])
             solver = cls(num_svdmodes, lapack_driver=options["lapack_driver"])
             if "data_matrix" in hf:
                 D = hf["data_matrix"][:]
@@ -219,6 +222,9 @@ class TruncatedSVDSolver(SolverTemplate):
                 SolverTemplate.fit(solver, D, Z)
                 for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                     setattr(solver, attr, hf[attr][:])
+                d = solver.max_modes
+                n = d if num_svdmodes is None else num_svdmodes
+                solver.__nmodes = min(n if n > 0 else d + n, d)
         return solver
 
     def copy(self):
-- 
2.43.0


From 20d5e9feb80ae15fa876398651febda7bb36740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 16/72] fix: TikhonovDecoupledSolver.solve() passes its options
 to lstsq()

---
 src/opinf/lstsq/_tikhonov.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 02ef0c7..9f61c77 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1211,7 +1211,11 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         for i, Gamma in enumerate(self.regularizer):
             if self.method == "lstsq":
                 Dpad = np.vstack((self.data_matrix, Gamma))
-                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i])[0]
+                Ohat[i] = la.lstsq(
+                    Dpad,
+                    self._ZtPad[:, i],
+                    **self.options,
+                )[0]
             elif self.method == "normal":
                 regD = self._DtD + Gamma.T @ Gamma
                 Ohat[i] = la.solve(regD, self._DtZt[:, i], assume_a="pos")
-- 
2.43.0


From cc9e5d5ee04223b02d9e702c00965b4efe122e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 17/72] fix: do not keep intermediate results of older data
 after a rejected fit()

TotalLeastSquaresSolver kept the old solution next to the new data, and
TikhonovSolver kept the old padded left-hand side, which solve() combined
with the new data matrix.
---
 src/opinf/lstsq/_tikhonov.py | 4 ++--
 src/opinf/lstsq/_total.py    | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 9f61c77..d143ba2 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -921,8 +921,6 @@ class TikhonovSolver(_BaseRegularizedSolver):
             "Left-hand side" data matrix :math:`\Z` (not its transpose!).
         """
         _BaseRegularizedSolver.fit(self, data_matrix, lhs_matrix)
-        if self.regularizer is not None:
-            self._check_regularizer_shape()
         D, Z = self.data_matrix, self.lhs_matrix
 
         # Pad lhs matrix for "svd" solve.
@@ -932,6 +930,8 @@ class TikhonovSolver(_BaseRegularizedSolver):
         self._DtD = D.T @ D
         self._DtZt = D.T @ Z.T
 
+        if self.regularizer is not None:
+            self._check_regularizer_shape()
         return self
 
     @_require_trained
diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index 253954d..d8f454c 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -89,10 +89,12 @@ class TotalLeastSquaresSolver(SolverTemplate):
         """
         SolverTemplate.fit(self, data_matrix, lhs_matrix)
         if self.k < self.d + self.r:
-            raise ValueError(
+            message = (
                 "total least-squares system is underdetermined, k > d + r "
                 f"is required (k = {self.k}, d = {self.d}, r = {self.r})"
             )
+            self.reset()
+            raise ValueError(message)
 
         # Compute the SVD of the concatenation [D Z^T].
         D_Zt = np.hstack((self.data_matrix, self.lhs_matrix.T))
-- 
2.43.0


From f4ed0e6638edd6df274bd0b7c452f2320b8d3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 18/72] fix: L2 solver regcond() for underdetermined problems

The d - k zero singular values of the data matrix were left out, although
their regularized values determine the condition number.
---
 src/opinf/lstsq/_tikhonov.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index d143ba2..7078416 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -380,6 +380,12 @@ class L2Solver(_BaseRegularizedSolver):
         """
         return self._svals.max() / self._svals.min()
 
+    def _padded_svals(self):
+        """All d singular values of the data matrix, which has only k < d
+        nonzero singular values if the problem is underdetermined.
+        """
+        return np.pad(self._svals, (0, self.d - self._svals.size))
+
     @_require_trained
     def regcond(self) -> float:
         r"""Compute the :math:`2`-norm condition number of the regularized
@@ -392,7 +398,7 @@ class L2Solver(_BaseRegularizedSolver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer**2
+        svals2 = self._padded_svals() ** 2 + self.regularizer**2
         return np.sqrt(svals2.max() / svals2.min())
 
     @_require_trained
@@ -617,7 +623,9 @@ class L2DecoupledSolver(L2Solver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer.reshape((-1, 1)) ** 2
+        svals2 = (
+            self._padded_svals() ** 2 + self.regularizer.reshape((-1, 1)) ** 2
+        )
         return np.sqrt(svals2.max(axis=1) / svals2.min(axis=1))
 
     def regresidual(self, Ohat: np.ndarray) -> np.ndarray:
-- 
2.43.0


From c4f69da453df11177c1e528277420130360e8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 19/72] fix: a rejected regularizer does not replace the
 previous one

---
 src/opinf/lstsq/_tikhonov.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 7078416..3582320 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -512,8 +512,8 @@ class L2DecoupledSolver(L2Solver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.r,)):
+    def _check_regularizer_shape(self, regularizer):
+        if (shape1 := regularizer.shape) != (shape2 := (self.r,)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (r,)"
             )
@@ -536,9 +536,9 @@ class L2DecoupledSolver(L2Solver):
                 raise ValueError(
                     "regularization constants must be nonnegative"
                 )
-        self.__regs = regs
         if self.r is not None and regs is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(regs)
+        self.__regs = regs
 
     # Main methods ------------------------------------------------------------
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
@@ -555,7 +555,7 @@ class L2DecoupledSolver(L2Solver):
         """
         L2Solver.fit(self, data_matrix, lhs_matrix)
         if self.regularizer is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(self.regularizer)
         return self
 
     def posterior(self):
@@ -752,8 +752,8 @@ class TikhonovSolver(_BaseRegularizedSolver):
             [SolverTemplate.__str__(self), f"regularizer: {regstr}", spstr]
         )
 
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.d, self.d)):
+    def _check_regularizer_shape(self, regularizer):
+        if (shape1 := regularizer.shape) != (shape2 := (self.d, self.d)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (d, d)"
             )
@@ -781,10 +781,9 @@ class TikhonovSolver(_BaseRegularizedSolver):
                     )
                 G = np.diag(G)
 
-        self.__reg = G
-
         if self.d is not None and G is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(G)
+        self.__reg = G
 
     @classmethod
     def get_operator_regularizer(
@@ -939,7 +938,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
         self._DtZt = D.T @ Z.T
 
         if self.regularizer is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(self.regularizer)
         return self
 
     @_require_trained
@@ -1159,11 +1158,11 @@ class TikhonovDecoupledSolver(TikhonovSolver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
+    def _check_regularizer_shape(self, regularizer):
         """Check that the regularizer has the correct shape."""
-        if len(self.regularizer) != self.r:
+        if len(regularizer) != self.r:
             raise ValueError("len(regularizer) != r")
-        for i, G in enumerate(self.regularizer):
+        for i, G in enumerate(regularizer):
             if (shape1 := G.shape) != (shape2 := (self.d, self.d)):
                 raise ValueError(
                     f"regularizer[{i}].shape = {shape1} != {shape2} = (d, d)"
@@ -1197,9 +1196,9 @@ class TikhonovDecoupledSolver(TikhonovSolver):
                     G = np.diag(G)
                 regs.append(G)
 
-        self.__regs = regs
         if self.d is not None and Gs is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(regs)
+        self.__regs = regs
 
     # Main methods ------------------------------------------------------------
     @_require_trained
-- 
2.43.0


From d13b66d1449fa5f97b8c16b9b8105ca351831f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 20/72] fix: TikhonovDecoupledSolver.regresidual() accepts
 one-dimensional Ohat for r=1

---
 src/opinf/lstsq/_tikhonov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 3582320..f915d1e 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1326,5 +1326,8 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
         residual = self.residual(Ohat)
-        rg = [np.sum((G @ oi) ** 2) for G, oi in zip(self.regularizer, Ohat)]
+        rg = [
+            np.sum((G @ oi) ** 2)
+            for G, oi in zip(self.regularizer, np.atleast_2d(Ohat))
+        ]
         return residual + np.array(rg)
-- 
2.43.0


From eafcececd349096c558e5bde97f10456e4701f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 21/72] fix: copied and loaded models keep their structure,
 dimensions, and solver

The copy of a trained model treated every inferred operator as known, so its
fit() and refit() did nothing, and explicitly set dimensions were lost.
Models loaded from a file in addition lost the solver that was saved with
them; interpolated models lost solver and interpolator.
---
 src/opinf/models/mono/_base.py          | 45 +++++++++++++++++++++++--
 src/opinf/models/mono/_nonparametric.py | 16 ++++-----
 src/opinf/models/mono/_parametric.py    | 36 ++++++++++++++------
 3 files changed, 76 insertions(+), 21 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index c21e056..a19f8de 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -316,8 +316,49 @@ class _Model(abc.ABC):
     # Model persistence -------------------------------------------------------
     def copy(self):
         """Make a copy of the model."""
-        sol = self.solver.copy() if self.solver is not None else None
-        return self.__class__([op.copy() for op in self.operators], solver=sol)
+        model = self.__class__([op.copy() for op in self.operators])
+        model._restore(
+            self._indices_of_operators_to_infer,
+            self._indices_of_known_operators,
+            self.state_dimension,
+            self.input_dimension,
+            self.solver.copy() if self.solver is not None else None,
+        )
+        return model
+
+    def _restore(self, toinfer, known, r, m, solver):
+        """Restore attributes that cannot be determined from operators that
+        may already be calibrated (see :meth:`copy()` and ``load()``).
+        """
+        self._indices_of_operators_to_infer = list(toinfer)
+        self._indices_of_known_operators = list(known)
+        self._fully_intrusive = len(toinfer) == 0
+        if r:
+            self.state_dimension = r
+        if m and self._has_inputs:
+            self.input_dimension = m
+        self.solver = solver
+
+    def _save_solver(self, hf):
+        """Save the solver in a group of an open HDF5 file."""
+        if self.solver is not None:
+            group = hf.create_group("solver")
+            group.attrs["class"] = self.solver.__class__.__name__
+            self.solver.save(group)
+
+    @staticmethod
+    def _load_solver(hf, toinfer):
+        """Load the solver from an open HDF5 file."""
+        if len(toinfer) == 0:
+            return None
+        if "solver" in hf and "class" in (group := hf["solver"]).attrs:
+            if hasattr(lstsq, name := group.attrs["class"]):
+                return getattr(lstsq, name).load(group)
+        warnings.warn(
+            "could not load solver, using default solver",
+            errors.OpInfWarning,
+        )
+        return None
 
 
 class _OpInfModel(_Model):
diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 3f99e50..0aecc62 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -429,8 +429,7 @@ class _NonparametricModel(_OpInfModel):
             )
             for i, op in enumerate(self.operators):
                 op.save(hf.create_group(f"operator_{i}"))
-            if self.solver is not None:
-                self.solver.save(hf.create_group("solver"))
+            self._save_solver(hf)
 
     @classmethod
     def load(cls, loadfile: str):
@@ -462,12 +461,13 @@ class _NonparametricModel(_OpInfModel):
 
             # Construct the model.
             model = cls(ops)
-            model._indices_of_operators_to_infer = indices_infer
-            model._indices_of_known_operators = indices_known
-            if r := int(hf["meta"].attrs["r"]):
-                model.state_dimension = r
-            if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
-                model.input_dimension = m
+            model._restore(
+                indices_infer,
+                indices_known,
+                int(hf["meta"].attrs["r"]),
+                int(hf["meta"].attrs["m"]),
+                cls._load_solver(hf, indices_infer),
+            )
 
         return model
 
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index c8c2e0b..006c5f5 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -29,6 +29,7 @@ class _ParametricModel(_OpInfModel):
     """Base class for parametric monolithic models."""
 
     _ModelClass = NotImplemented  # Must be specified by child classes.
+    __s = None  # Number of training parameter values.
 
     # ModelClass properties ---------------------------------------------------
     @property
@@ -392,6 +393,13 @@ class _ParametricModel(_OpInfModel):
         self._fit_solver(parameters, states, lhs, inputs)
         return self.refit()
 
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Make a copy of the model."""
+        model = super().copy()
+        model.__s = self.__s
+        return model
+
     # Parametric evaluation ---------------------------------------------------
     def evaluate(self, parameter):
         """Construct a nonparametric model by fixing the parameter value.
@@ -1243,6 +1251,8 @@ class _InterpModel(_ParametricModel):
                 for i, op in enumerate(self.operators):
                     op.save(hf.create_group(f"operator_{i}"))
 
+            self._save_solver(hf)
+
     @classmethod
     def load(cls, loadfile: str, InterpolatorClass: type = None):
         """Load a serialized model from an HDF5 file, created previously from
@@ -1303,22 +1313,26 @@ class _InterpModel(_ParametricModel):
                 ops.append(OpClass.load(gp, InterpolatorClass))
 
             # Construct the model.
-            model = cls(ops)
-            model._indices_of_operators_to_infer = indices_infer
-            model._indices_of_known_operators = indices_known
-            if r := int(hf["meta"].attrs["r"]):
-                model.state_dimension = r
-            if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
-                model.input_dimension = m
+            model = cls(ops, InterpolatorClass=InterpolatorClass)
+            model._restore(
+                indices_infer,
+                indices_known,
+                int(hf["meta"].attrs["r"]),
+                int(hf["meta"].attrs["m"]),
+                cls._load_solver(hf, indices_infer),
+            )
 
         return model
 
     def copy(self):
         """Make a copy of the model."""
-        return self.__class__(
-            operators=[op.copy() for op in self.operators],
-            InterpolatorClass=self.__InterpolatorClass,
-        )
+        model = _ParametricModel.copy(self)
+        model.__InterpolatorClass = self.__InterpolatorClass
+        if self._submodels is not None:
+            model._submodels = [mdl.copy() for mdl in self._submodels]
+            model.solvers = [mdl.solver for mdl in model._submodels]
+            model._training_parameters = self._training_parameters
+        return model
 
 
 class InterpDiscreteModel(_ParametricDiscreteMixin, _InterpModel):
-- 
2.43.0


From 897607e3a4399b0cf52bc4328d7ee88cd8946815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 22/72] fix: ddt_uniform() does not truncate derivatives of
 integer states

---
 src/opinf/ddt/_finite_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index d7491c2..f9b3a49 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -1047,7 +1047,7 @@ def ddt_uniform(states, dt, order=2):
     if not np.isscalar(dt):
         raise TypeError("time step dt must be a scalar (e.g., float)")
 
-    ddts = np.empty_like(states)
+    ddts = np.empty(states.shape, dtype=np.result_type(states, float))
 
     if order == 2:
         # TODO: Does this next line do what the rest does?
-- 
2.43.0


From 545c3d22b056ffd3043fdae3077b58f832e24ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 23/72] fix: detect nonuniform time domains with small time
 steps

---
 src/opinf/ddt/_finite_difference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index f9b3a49..9629d94 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -826,7 +826,8 @@ class UniformFiniteDifferencer(DerivativeEstimatorTemplate):
 
         # Check for uniform spacing.
         diffs = np.diff(time_domain)
-        if not np.allclose(diffs, diffs[0]):
+        roundoff = 4 * np.finfo(float).eps * np.abs(time_domain).max()
+        if not np.allclose(diffs, diffs[0], atol=roundoff):
             raise ValueError("time domain must be uniformly spaced")
 
         # Set the finite difference scheme.
-- 
2.43.0


From 9fa96d6da67f3b833715db3f383984ed09082a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 24/72] fix: interpolate along time if InterpolatorClass is
 given as a class

---
 src/opinf/ddt/_interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index a6177c1..19c40d8 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -83,6 +83,7 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
                     f"options: {options}"
                 )
             InterpolatorClass = self._interpolators[InterpolatorClass]
+        if InterpolatorClass in self._interpolators.values():
             options["axis"] = 1
         self.__IC = InterpolatorClass
 
-- 
2.43.0


From 2383ab37977d0af57448bde5bf576bd99cd3ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 25/72] fix: InterpDerivativeEstimator.mask() accepts
 one-dimensional arrays

---
 src/opinf/ddt/_interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index 19c40d8..b7baeb4 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -227,11 +227,14 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
         if self.new_time_domain is None:
             return arr
 
-        # Interpolate to the new time domain.
+        # Interpolate to the new time domain (the last axis is time).
+        options = dict(self.options)
+        if "axis" in options:
+            options["axis"] = np.ndim(arr) - 1
         statespline = self.InterpolatorClass(
             self.time_domain,
             arr,
-            **self.options,
+            **options,
         )
         return statespline(self.new_time_domain)
 
-- 
2.43.0


From bf22501035b7d86cb2a73c8a480ff68dcc9d9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 26/72] fix: PolynomialLifter.unlift() recovers negative states
 from odd powers

---
 src/opinf/lift/_polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 6e9374b..3e19124 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -180,6 +180,9 @@ class PolynomialLifter(LifterTemplate):
         variables = np.split(lifted_states, self.num_variables, axis=0)
         if 1 in self.__orders:
             return variables[self.__orders.index(1)]
+        for var, p in zip(variables, self.__orders):
+            if p % 2 == 1:  # Odd powers keep the sign of the state.
+                return np.sign(var) * np.abs(var) ** (1 / p)
         for var, p in zip(variables, self.__orders):
             if p != 0:
                 return var ** (1 / p)
-- 
2.43.0


From a74117e5f700b422840298292bbbe2dafa09b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 27/72] fix: PolynomialLifter keeps a fractional order given as
 a number

---
 src/opinf/lift/_polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 3e19124..8bc6d40 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -100,7 +100,7 @@ class PolynomialLifter(LifterTemplate):
     def orders(self, ps: tuple):
         """Set the polynomial orders."""
         if isinstance(ps, numbers.Number):
-            ps = (int(ps),)
+            ps = (ps,)
         for p in ps:
             if not isinstance(p, numbers.Number):
                 raise TypeError("'orders' must be a sequence of numbers")
-- 
2.43.0


From f60cd703f6cc55530f3696f50c9565eb82e82325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 28/72] fix: lifted time derivatives are zero for order zero,
 also at zero states

---
 src/opinf/lift/_polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 8bc6d40..33b7583 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -161,7 +161,10 @@ class PolynomialLifter(LifterTemplate):
             Time derivatives of the learning variables.
         """
         return np.concatenate(
-            [p * states ** (p - 1) * ddts for p in self.__orders]
+            [
+                p * states ** (p - 1) * ddts if p != 0 else 0 * ddts
+                for p in self.__orders
+            ]
         )
 
     def unlift(self, lifted_states):
-- 
2.43.0


From b4b031ea0a8e03cca94c908750b6c698e57db159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 29/72] fix: ROM.decode() selects the locations if there is no
 basis

---
 src/opinf/roms/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e9448ca..df84051 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -251,6 +251,8 @@ class _BaseROM(abc.ABC):
         if self.basis is not None:
             inplace = True
             states = self.basis.decompress(states, locs=locs)
+        elif locs is not None:
+            states = states[locs]
 
         # Reverse preprocessing.
         if self.transformer is not None:
-- 
2.43.0


From ef2114fb2fdc5b333980151d6eda5e56be541119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 30/72] fix: OperatorPosterior.rvs() draws entire rows, also
 after load()

---
 src/opinf/roms/_bayes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index d0dad63..c27b1f5 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -156,7 +156,10 @@ class OperatorPosterior:
         Ohat : (r, d) ndarray
             Operator matrix sampled from :math:`p(\Ohat)`.
         """
-        ohats = [rv.rvs()[0] for rv in self.randomvariables]
+        ohats = [
+            np.reshape(rv.rvs(), np.shape(rv.mean))
+            for rv in self.randomvariables
+        ]
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-- 
2.43.0


From 59db225d0c84057271b85fd8d47bfe62ff056849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 31/72] fix: reset the solver in regularization selection

---
 src/opinf/roms/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index df84051..6bce99c 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -673,7 +673,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time.
@@ -896,7 +896,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-- 
2.43.0


From ae5b73f6523d962ade97349e994c07b7b3ba8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 32/72] fix: models with non-finite predictions are unstable in
 regularization selection

---
 src/opinf/roms/_base.py  | 2 +-
 src/opinf/roms/_bayes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 6bce99c..df853f5 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -696,7 +696,7 @@ class _BaseROM(abc.ABC):
 
         def unstable(_Q, ell, size):
             """Return ``True`` if the solution is unstable."""
-            if _Q.shape[-1] != size:
+            if _Q.shape[-1] != size or not np.isfinite(_Q).all():
                 return True
             return np.abs(_Q - shifts[ell]).max() > limits[ell]
 
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index c27b1f5..6a480bf 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -317,7 +317,7 @@ class _BayesianROMMixin:
 
         def unstable(_Q, ell, size):
             """Return ``True`` if the solution is unstable."""
-            if _Q.shape[-1] != size:
+            if _Q.shape[-1] != size or not np.isfinite(_Q).all():
                 return True
             return np.abs(_Q - shifts[ell]).max() > limits[ell]
 
-- 
2.43.0


From 8a22fcb3499ae49f16f0724bce4a7cd89a3c51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 33/72] fix: a failed time integration disqualifies a
 regularization candidate

---
 src/opinf/roms/_base.py        | 13 ++++++++-----
 src/opinf/roms/_bayes.py       | 13 ++++++++-----
 src/opinf/utils/_gridsearch.py |  9 ++++++---
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index df853f5..73cdf8d 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -756,11 +756,14 @@ class _BaseROM(abc.ABC):
                 else:
                     Q, input_func, t = entries
                     predict_args = (Q[:, 0], t, input_func)
-                with warnings.catch_warnings():
-                    warnings.simplefilter("ignore")
-                    solution = self.model.predict(
-                        *predict_args, **predict_options
-                    )
+                try:
+                    with warnings.catch_warnings():
+                        warnings.simplefilter("ignore")
+                        solution = self.model.predict(
+                            *predict_args, **predict_options
+                        )
+                except (ArithmeticError, ValueError):  # failed integration
+                    return np.inf
                 if unstable(solution, ell, t.size):
                     return np.inf
                 trainsize = Q.shape[-1]
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 6a480bf..1d9155a 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -377,11 +377,14 @@ class _BayesianROMMixin:
                 trainsize = Q.shape[-1]
                 for _ in range(num_posterior_draws):
                     self.draw_operators()
-                    with warnings.catch_warnings():
-                        warnings.simplefilter("ignore")
-                        solution = self.model.predict(
-                            *predict_args, **predict_options
-                        )
+                    try:
+                        with warnings.catch_warnings():
+                            warnings.simplefilter("ignore")
+                            solution = self.model.predict(
+                                *predict_args, **predict_options
+                            )
+                    except (ArithmeticError, ValueError):  # failed integration
+                        return np.inf
                     if unstable(solution, ell, t.size):
                         return np.inf
                     draws.append(solution[:, :trainsize])
diff --git a/src/opinf/utils/_gridsearch.py b/src/opinf/utils/_gridsearch.py
index 63f7db8..27b1a75 100644
--- a/src/opinf/utils/_gridsearch.py
+++ b/src/opinf/utils/_gridsearch.py
@@ -213,9 +213,12 @@ class _RegTest(abc.ABC):
             ``True`` if the ``model`` produces a stable solution under the test
             case conditions, ``False`` otherwise.
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            solution = model.predict(*self.predict_args, **predict_options)
+        try:
+            with warnings.catch_warnings():
+                warnings.simplefilter("ignore")
+                solution = model.predict(*self.predict_args, **predict_options)
+        except (ArithmeticError, ValueError):  # failed integration
+            return False
         return not self.unstable(solution)
 
     @abc.abstractmethod
-- 
2.43.0


From 328e6a937c41aed64802e1aaa5088ca27bb13108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 34/72] fix: gridsearch() accepts the candidate zero

---
 src/opinf/utils/_gridsearch.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/opinf/utils/_gridsearch.py b/src/opinf/utils/_gridsearch.py
index 27b1a75..548f578 100644
--- a/src/opinf/utils/_gridsearch.py
+++ b/src/opinf/utils/_gridsearch.py
@@ -133,6 +133,15 @@ def gridsearch(
     if gridsearch_only:
         return gridsearch_winner
 
+    # The optimization is over the logarithm of the parameters.
+    if np.min(gridsearch_winner) <= 0:
+        warnings.warn(
+            f"{label} grid search winner is not positive, "
+            "skipping optimization",
+            errors.OpInfWarning,
+        )
+        return gridsearch_winner
+
     # Post-process results if the candidates are scalars.
     if scalar_regularization:
         if num_tests == 1:
@@ -156,6 +165,8 @@ def gridsearch(
                 candidates[winner_index - 1],
                 candidates[winner_index + 1],
             ]
+        if search_bounds[0] <= 0:
+            search_bounds[0] = gridsearch_winner / 1e2
 
     # Follow up grid search with minimization-based search.
     if verbose:
-- 
2.43.0


From e1c6794007fda7c76933c3d10229249032a3cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 35/72] fix: TimedBlock measures the actual time, not the
 processor time

---
 src/opinf/utils/_timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index af7e39f..880149a 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -139,7 +139,7 @@ class TimedBlock:
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
-        self._tic = time.process_time()
+        self._tic = time.perf_counter()
         if self.timelimit is not None:
             signal.signal(signal.SIGALRM, self._signal_handler)
             signal.alarm(self.timelimit)
@@ -147,7 +147,7 @@ class TimedBlock:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
-        self._toc = time.process_time()
+        self._toc = time.perf_counter()
         if self.timelimit is not None:
             signal.alarm(0)
         elapsed = self._toc - self._tic
-- 
2.43.0


From 27cf55ff9136b49216a47d4294317349db71a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 36/72] fix: TimedBlock reinstates the previous alarm and its
 handler

---
 src/opinf/utils/_timer.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index 880149a..1742bce 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -128,6 +128,30 @@ class TimedBlock:
     def _signal_handler(signum, frame):
         raise TimeoutError("timed out!")
 
+    def _start_alarm(self):
+        """Set the alarm, unless an enclosing block has less time left."""
+        handler = signal.signal(signal.SIGALRM, self._signal_handler)
+        outer = signal.setitimer(signal.ITIMER_REAL, self.timelimit)
+        self.__outer_alarm = (handler, *outer)
+        enclosed = isinstance(getattr(handler, "__self__", None), TimedBlock)
+        if enclosed and 0 < outer[0] < self.timelimit:
+            signal.signal(signal.SIGALRM, handler)
+            signal.setitimer(signal.ITIMER_REAL, *outer)
+            self.__outer_alarm = None
+
+    def _stop_alarm(self):
+        """Cancel the alarm and reinstate the enclosing alarm."""
+        if self.__outer_alarm is None:
+            return
+        signal.setitimer(signal.ITIMER_REAL, 0)
+        handler, delay, interval = self.__outer_alarm
+        if handler is None:  # Handler was not installed from Python.
+            handler = signal.SIG_DFL
+        signal.signal(signal.SIGALRM, handler)
+        if delay > 0:
+            remaining = max(delay - (self._toc - self._tic), 1e-6)
+            signal.setitimer(signal.ITIMER_REAL, remaining, interval)
+
     def _reset_stdout(self):
         text = self.__new_buffer.getvalue()
         sys.stdout = self.__original_stdout
@@ -141,15 +165,14 @@ class TimedBlock:
             print(f"{self.message}...", end=self.__front, flush=True)
         self._tic = time.perf_counter()
         if self.timelimit is not None:
-            signal.signal(signal.SIGALRM, self._signal_handler)
-            signal.alarm(self.timelimit)
+            self._start_alarm()
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
         self._toc = time.perf_counter()
         if self.timelimit is not None:
-            signal.alarm(0)
+            self._stop_alarm()
         elapsed = self._toc - self._tic
         if exc_type:  # Report an exception if present.
             if self.timelimit is not None and exc_type is TimeoutError:
-- 
2.43.0


From a05c6aaad24953fb5b2fce0c78d565ed0f21753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 37/72] fix: TimedBlock.elapsed is set if the block raises an
 exception

---
 src/opinf/utils/_timer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index 1742bce..3929eb6 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -173,7 +173,7 @@ class TimedBlock:
         self._toc = time.perf_counter()
         if self.timelimit is not None:
             self._stop_alarm()
-        elapsed = self._toc - self._tic
+        self.__elapsed = elapsed = self._toc - self._tic
         if exc_type:  # Report an exception if present.
             if self.timelimit is not None and exc_type is TimeoutError:
                 if self.message:
@@ -196,7 +196,6 @@ class TimedBlock:
             if self.verbose and self.message:
                 print(f"done in {elapsed:.2f} s.", flush=True, end=self.__back)
             logging.info(f"{self.message}...done in {elapsed:.6f} s.")
-        self.__elapsed = elapsed
         if self.rebuffer:
             self._reset_stdout()
         return
-- 
2.43.0


From e7fac3f6065d5d1c7b9da1d3e7a59d5afb860d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 38/72] fix: TimedBlock lets TimeoutErrors of the block through

---
 src/opinf/utils/_timer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index 3929eb6..9c4d2a5 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -113,6 +113,7 @@ class TimedBlock:
             timelimit = max(int(timelimit), 1)
         self.__timelimit = timelimit
         self.__elapsed = None
+        self.__timed_out = False
 
     @property
     def timelimit(self):
@@ -124,8 +125,8 @@ class TimedBlock:
         """Actual time (in seconds) the block took to complete."""
         return self.__elapsed
 
-    @staticmethod
-    def _signal_handler(signum, frame):
+    def _signal_handler(self, signum, frame):
+        self.__timed_out = True
         raise TimeoutError("timed out!")
 
     def _start_alarm(self):
@@ -163,6 +164,7 @@ class TimedBlock:
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
+        self.__timed_out = False
         self._tic = time.perf_counter()
         if self.timelimit is not None:
             self._start_alarm()
@@ -175,7 +177,7 @@ class TimedBlock:
             self._stop_alarm()
         self.__elapsed = elapsed = self._toc - self._tic
         if exc_type:  # Report an exception if present.
-            if self.timelimit is not None and exc_type is TimeoutError:
+            if self.__timed_out and exc_type is TimeoutError:
                 if self.message:
                     print(flush=True)
                 report = f"TIMED OUT after {elapsed:.2f} s."
-- 
2.43.0


From 8b96795927e5fb6192f6d25bb9f242377c80ea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 39/72] fix: TimedBlock with rebuffer restores the stdout of
 the block

---
 src/opinf/utils/_timer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index 9c4d2a5..91f3037 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -104,7 +104,6 @@ class TimedBlock:
         """Store print/log message."""
         if not message:
             message = ""
-        self.__original_stdout = sys.stdout
         self.__new_buffer = None
         self.__front = "\n" if message.endswith("\n") else ""
         self.message = "" if message is None else message.rstrip()
@@ -156,11 +155,13 @@ class TimedBlock:
     def _reset_stdout(self):
         text = self.__new_buffer.getvalue()
         sys.stdout = self.__original_stdout
+        self.__new_buffer = None
         print(text, end="", flush=True)
 
     def __enter__(self):
         """Print the message and record the current time."""
         if self.rebuffer:
+            self.__original_stdout = sys.stdout
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
@@ -182,7 +183,7 @@ class TimedBlock:
                     print(flush=True)
                 report = f"TIMED OUT after {elapsed:.2f} s."
                 logging.info(f"{self.message}...{report}")
-                if self.rebuffer:
+                if self.__new_buffer is not None:
                     self._reset_stdout()
                 raise TimeoutError(report)
             print(f"{exc_type.__name__}: {exc_value}")
@@ -191,14 +192,14 @@ class TimedBlock:
                 f"({exc_type.__name__}) {exc_value} "
                 f"(raised after {elapsed:.6f} s)"
             )
-            if self.rebuffer:
+            if self.__new_buffer is not None:
                 self._reset_stdout()
             raise
         else:  # If no exception, report execution time.
             if self.verbose and self.message:
                 print(f"done in {elapsed:.2f} s.", flush=True, end=self.__back)
             logging.info(f"{self.message}...done in {elapsed:.6f} s.")
-        if self.rebuffer:
+        if self.__new_buffer is not None:
             self._reset_stdout()
         return
 
-- 
2.43.0


From d42cd22ef541282ccbe52fa0b3111bc097fe1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 40/72] fix: operators with sparse entries can be compared,
 saved, and loaded

---
 src/opinf/operators/_base.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index c4c7db2..fa46543 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -12,6 +12,7 @@ __all__ = [
 import os
 import abc
 import copy
+import h5py
 import types
 import numpy as np
 import scipy.linalg as la
@@ -617,6 +618,11 @@ class OpInfOperator(OperatorTemplate):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
+            if sparse.issparse(self.entries) or sparse.issparse(other.entries):
+                diff = self.entries - other.entries
+                if sparse.issparse(diff):
+                    return diff.count_nonzero() == 0
+                return not np.any(diff)
             return np.all(self.entries == other.entries)
         return True
 
@@ -796,7 +802,9 @@ class OpInfOperator(OperatorTemplate):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
-            if self.entries is not None:
+            if sparse.issparse(self.entries):
+                utils.save_sparray(hf.create_group("entries"), self.entries)
+            elif self.entries is not None:
                 hf.create_dataset("entries", data=self.entries)
 
     @classmethod
@@ -816,7 +824,13 @@ class OpInfOperator(OperatorTemplate):
                     f"file '{loadfile}' contains '{ClassName}' "
                     f"object, use '{ClassName}.load()"
                 )
-            return cls(hf["entries"][:] if "entries" in hf else None)
+            entries = None
+            if "entries" in hf:
+                if isinstance(hf["entries"], h5py.Group):
+                    entries = utils.load_sparray(hf["entries"])
+                else:
+                    entries = hf["entries"][:]
+            return cls(entries)
 
     # Verification ------------------------------------------------------------
     def verify(
-- 
2.43.0


From 7b66f503009706c9bcdb4f95f011a28911d3e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 41/72] fix: load_sparray() returns sparse arrays, not matrices

---
 src/opinf/utils/_hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 5de10ff..890f713 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -232,8 +232,8 @@ def load_sparray(group: h5py.Group) -> sparse.sparray:
       (np.int32(0), np.int32(5))    12.0
       (np.int32(4), np.int32(1))    123.456
     """
-    A = sparse.coo_matrix(
-        (group["data"], (group["row"], group["col"])),
+    A = sparse.coo_array(
+        (group["data"][:], (group["row"][:], group["col"][:])),
         shape=group.attrs["shape"],
     )
     arrtype = str(group.attrs["arrtype"])
-- 
2.43.0


From b97391875162983c55b9299b80b49aab68879740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 42/72] fix: load a ScaleTransformer with a one-dimensional
 array scaler

---
 src/opinf/pre/_shiftscale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 38e953d..33bc325 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -634,6 +634,7 @@ class ScaleTransformer(TransformerTemplate):
             meta.attrs["name"] = str(self.name)
             if (n := self.state_dimension) is not None:
                 meta.attrs["state_dimension"] = n
+            meta.attrs["byrow"] = self.byrow
             scaler = self.scaler if self.byrow else [self.scaler]
             hf.create_dataset("scaler", data=scaler)
 
@@ -643,7 +644,7 @@ class ScaleTransformer(TransformerTemplate):
             meta = hf["meta"]
             name = meta.attrs["name"]
             scaler = hf["scaler"][:]
-            if scaler.shape == (1,):
+            if scaler.shape == (1,) and not meta.attrs.get("byrow", False):
                 scaler = scaler[0]
             out = cls(scaler, name=(None if name == "None" else name))
             if not out.byrow and "state_dimension" in meta.attrs:
-- 
2.43.0


From f4206e1c90480e0b545c19ac65ef79e71a2ece37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 43/72] fix: BasisMulti.load() restores the sizes of the state
 variables

---
 src/opinf/basis/_multi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index a4e59bf..3c2925e 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -477,6 +477,8 @@ class BasisMulti:
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             hf.create_dataset("num_variables", data=[self.num_variables])
+            if None not in (sizes := self.full_variable_sizes):
+                hf.create_dataset("full_variable_sizes", data=sizes)
             for i, basis in enumerate(self.bases):
                 basis.save(hf.create_group(f"variable{i}"))
 
@@ -511,7 +513,11 @@ class BasisMulti:
                 for i in range(num_variables)
             ]
 
-            return cls(bases)
+            sizes = None
+            if "full_variable_sizes" in hf:
+                sizes = [int(n) for n in hf["full_variable_sizes"][:]]
+
+            return cls(bases, full_variable_sizes=sizes)
 
     # Verification ------------------------------------------------------------
     def verify(self):
-- 
2.43.0


From 2187d47c070f6767ebdf30c8ecf881668867f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 44/72] fix: PODBasis.load() restores the SVD solver and its
 options

---
 src/opinf/basis/_pod.py | 48 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 234c757..fa83126 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -970,6 +970,24 @@ class PODBasis(LinearBasis):
             if self.name:
                 meta.attrs["name"] = self.name
 
+            meta.attrs["svdsolver"] = self.svdsolver
+            if self.svdsolver == "custom":
+                warnings.warn(
+                    "cannot serialize custom svdsolver, "
+                    "loaded basis will use svdsolver='dense'",
+                    errors.OpInfWarning,
+                )
+            else:
+                options = hf.create_dataset("svdsolver_options", shape=(0,))
+                for key, value in self.svdsolver_options.items():
+                    try:
+                        options.attrs[key] = "NULL" if value is None else value
+                    except TypeError:
+                        warnings.warn(
+                            f"cannot serialize svdsolver option '{key}'",
+                            errors.OpInfWarning,
+                        )
+
             meta.attrs["criterion_type"] = self.__criterion[0]
             hf.create_dataset("criterion_value", data=[self.__criterion[1]])
 
@@ -984,9 +1002,12 @@ class PODBasis(LinearBasis):
                     w = w.data[0]
                 hf.create_dataset("weights", data=w)
 
+            if (r := self.reduced_state_dimension) is not None:
+                meta.attrs["reduced_state_dimension"] = r
+
             if self.leftvecs is not None:
-                meta.attrs["reduced_state_dimension"] = (
-                    self.reduced_state_dimension
+                meta.attrs["energy_is_being_estimated"] = (
+                    self.__energy_is_being_estimated
                 )
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
@@ -1034,12 +1055,29 @@ class PODBasis(LinearBasis):
                 if "rightvecs" in hf:
                     kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 basis = cls.from_svd(**kwargs)
+                basis.__energy_is_being_estimated = bool(
+                    attrs.get("energy_is_being_estimated", False)
+                )
                 if "reduced_state_dimension" in attrs:
                     r = int(attrs["reduced_state_dimension"])
                     basis.reduced_state_dimension = min(r, basis.max_vectors)
-                return basis
-
-            return cls(**kwargs)
+            else:
+                basis = cls(**kwargs)
+                if "reduced_state_dimension" in attrs:
+                    r = int(attrs["reduced_state_dimension"])
+                    BasisTemplate.reduced_state_dimension.fset(basis, r)
+
+            # Settings for future calls to fit().
+            if attrs.get("svdsolver", "custom") != "custom":
+                basis.svdsolver = attrs["svdsolver"]
+                options = dict(hf["svdsolver_options"].attrs)
+                basis.svdsolver_options = {
+                    key: None if isinstance(value, str) and value == "NULL"
+                    else value
+                    for key, value in options.items()
+                }
+
+            return basis
 
 
 # Functional API ==============================================================
-- 
2.43.0


From b9c2c43612c55827e2ce2f26a5fe0bc8850e94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 45/72] fix: copies of Tikhonov solvers do not share the
 regularizer

---
 src/opinf/lstsq/_tikhonov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index f915d1e..6af6c23 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -9,6 +9,7 @@ __all__ = [
 ]
 
 import abc
+import copy
 import types
 import warnings
 import numpy as np
@@ -1087,7 +1088,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            regularizer=self.regularizer,
+            regularizer=copy.deepcopy(self.regularizer),
             method=self.method,
             cond=self.options["cond"],
             lapack_driver=self.options["lapack_driver"],
-- 
2.43.0


From e36d9aaf7b4da727548b5799fd07d0bcd8034d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 46/72] fix: TotalLeastSquaresSolver.solve() does not expose
 its stored solution

---
 src/opinf/lstsq/_total.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index d8f454c..c3d746f 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -123,7 +123,7 @@ class TotalLeastSquaresSolver(SolverTemplate):
         Ohat : (r, d) ndarray
             Operator matrix :math:`\Ohat` (not its transpose!).
         """
-        return self._Ohat
+        return self._Ohat.copy()
 
     # Post-processing ---------------------------------------------------------
     @property
-- 
2.43.0


From deb4ebd330d4a4fc4c9fda09d274d27f9bd01ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 47/72] fix: ShiftTransformer.transform_ddts() rejects
 misaligned derivatives

---
 src/opinf/pre/_shiftscale.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 33bc325..85214ab 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -301,6 +301,7 @@ class ShiftTransformer(TransformerTemplate):
         ValueError
             If the ``ddts`` do not align with the :attr:`state_dimension`.
         """
+        self._check_shape(ddts)
         return ddts if inplace else ddts.copy()
 
     def inverse_transform(self, states_shifted, inplace=False, locs=None):
-- 
2.43.0


From 089bdb565ab0ea6eeafedbf961abcaabc2ae4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 48/72] fix: shift() rejects shifts that are not aligned with
 the states

---
 src/opinf/pre/_shiftscale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 85214ab..b873966 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -63,6 +63,8 @@ def shift(states: np.ndarray, shift_by: np.ndarray = None):
             shift_by = shift_by[:, 0]
         else:
             raise ValueError("'shift_by' must be one-dimensional")
+    if shift_by.size != states.shape[0]:
+        raise ValueError("'states' and 'shift_by' not aligned")
 
     # Shift the columns by the mean.
     states_shifted = states - shift_by.reshape((-1, 1))
-- 
2.43.0


From 13415853ebad4cd9ee8aaf096403b331c4cfa8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 49/72] fix: LinearBasis rejects weights that are not aligned
 with the entries

---
 src/opinf/basis/_linear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 4334ff3..9a3f265 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -93,6 +93,8 @@ class LinearBasis(BasisTemplate):
                 weights = sparse.dia_array(([weights], [0]), shape=(n, n))
             elif dim != 2:
                 raise ValueError("expected one- or two-dimensional weights")
+            if weights.shape[0] != entries.shape[0]:
+                raise ValueError("entries and weights not aligned")
         self.__weights = weights
 
         # Verify orthogonality if desired.
-- 
2.43.0


From b5ef17699e84a053c4eca920e00c45cf1dd60fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 50/72] fix: finite difference schemes reject inputs not
 aligned with the states

---
 src/opinf/ddt/_finite_difference.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index 9629d94..4f49ca5 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -35,6 +35,14 @@ from .. import errors
 from ._base import DerivativeEstimatorTemplate
 
 
+def _check_inputs_aligned(states, inputs):
+    """Ensure there is one input for each state snapshot."""
+    if (k := states.shape[-1]) != (k2 := inputs.shape[-1]):
+        raise errors.DimensionalityError(
+            f"states not aligned with inputs ({k} != {k2})"
+        )
+
+
 def _finite_difference(states, coeffs, mode, inputs=None):
     r"""Compute the first time derivative with a finite difference scheme.
 
@@ -87,6 +95,7 @@ def _finite_difference(states, coeffs, mode, inputs=None):
             ddts += coeff * states[:, j : k - order + j]
 
     if inputs is not None:
+        _check_inputs_aligned(states, inputs)
         return states[:, cols], ddts, inputs[..., cols]
     return states[:, cols], ddts
 
@@ -593,6 +602,7 @@ def _mixed_differences(states, dt, order, inputs):
     """Mixed finite differences on a uniform time domain."""
     ddts = ddt_uniform(states, dt, order=order)
     if inputs is not None:
+        _check_inputs_aligned(states, inputs)
         return states, ddts, inputs
     return states, ddts
 
-- 
2.43.0


From 0d5f4b5109e295ac04279c2183b07c2ff73eee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 51/72] fix: parametric discrete models reject too many input
 trajectories

---
 src/opinf/models/mono/_parametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 006c5f5..43fb7de 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -602,7 +602,7 @@ class _ParametricDiscreteMixin:
         if nextstates is None:
             nextstates = [Q[:, 1:] for Q in states]
             states = [Q[:, :-1] for Q in states]
-        if inputs is not None:
+        if inputs is not None and len(inputs) == len(states):
             inputs = [U[..., : Q.shape[1]] for U, Q in zip(inputs, states)]
         return super().fit(parameters, states, nextstates, inputs)
 
-- 
2.43.0


From 002f89c668a01f181841c2bb370961d3b8983e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 52/72] fix: polynomial operators reject states of the wrong
 dimension

---
 src/opinf/operators/_nonparametric.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index dda56d7..e9ea617 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -17,7 +17,7 @@ import scipy.linalg as la
 import scipy.sparse as sparse
 import scipy.special as special
 
-from .. import utils
+from .. import errors, utils
 from ._base import OpInfOperator, InputMixin
 
 
@@ -492,6 +492,11 @@ class QuadraticOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**2  # r = 1
+        if state.shape[0] != self.state_dimension:
+            raise errors.DimensionalityError(
+                f"state not aligned with operator "
+                f"({state.shape[0]} != {self.state_dimension})"
+            )
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
@@ -977,6 +982,11 @@ class CubicOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**3  # r = 1.
+        if state.shape[0] != self.state_dimension:
+            raise errors.DimensionalityError(
+                f"state not aligned with operator "
+                f"({state.shape[0]} != {self.state_dimension})"
+            )
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
@@ -1452,6 +1462,11 @@ class QuarticOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**4  # r = 1.
+        if state.shape[0] != self.state_dimension:
+            raise errors.DimensionalityError(
+                f"state not aligned with operator "
+                f"({state.shape[0]} != {self.state_dimension})"
+            )
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
-- 
2.43.0


From 3137d3b3e4291a948da49b5f7dd6f2b249d52473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 53/72] fix: a rejected BayesianROM.fit() does not keep the
 previous posterior

---
 src/opinf/roms/_bayes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 1d9155a..cfd82f0 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -225,6 +225,10 @@ class _BayesianROMMixin:
         """Posterior distribution for the operator matrices."""
         return self.__posterior
 
+    def _clear_posterior(self):
+        """Discard the operator posterior."""
+        self.__posterior = None
+
     def _initialize_posterior(self):
         """Set the operator posterior if numerically possible."""
         try:
@@ -631,6 +635,7 @@ class BayesianROM(ROM, _BayesianROMMixin):
         fit_transformer: bool = True,
         fit_basis: bool = True,
     ):
+        self._clear_posterior()
         ROM.fit(
             self,
             states=states,
-- 
2.43.0


From 7a6df4f768d2542fa66245e30a1c29025bf8ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 54/72] fix: report errors without arguments as file format
 errors in hdf5_loadhandle()

---
 src/opinf/utils/_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 890f713..7723143 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -125,7 +125,8 @@ class hdf5_loadhandle(_hdf5_filehandle):
         except errors.LoadfileFormatError:
             raise
         except Exception as ex:
-            raise errors.LoadfileFormatError(ex.args[0]) from ex
+            message = ex.args[0] if ex.args else type(ex).__name__
+            raise errors.LoadfileFormatError(message) from ex
 
 
 # Other tools =================================================================
-- 
2.43.0


From 40c586633b5b694114c54469c68ad91691c397ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 55/72] fix: compare all weights of linear bases, whether
 sparse or dense

---
 src/opinf/basis/_linear.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 9a3f265..8866585 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -239,13 +239,20 @@ class LinearBasis(BasisTemplate):
             return False
         if self.shape != other.shape:
             return False
-        if self.weights is None and other.weights is not None:
+        w1, w2 = self.weights, other.weights
+        if w1 is None or w2 is None:
+            if w1 is not w2:
+                return False
+        elif w1.shape != w2.shape:
             return False
-        if (w1 := self.weights) is not None:
-            if (w2 := other.weights) is None:
+        elif sparse.issparse(w1) and sparse.issparse(w2):
+            if ((abs(w1 - w2) - 1e-5 * abs(w2)) > 1e-8).nnz > 0:
                 return False
-            if sparse.issparse(w1) and sparse.issparse(w2):
-                w1, w2 = w1.data[0], w2.data[0]
+        else:
+            if sparse.issparse(w1):
+                w1 = w1.toarray()
+            if sparse.issparse(w2):
+                w2 = w2.toarray()
             if not np.allclose(w1, w2):
                 return False
         return np.all(self.entries == other.entries)
-- 
2.43.0


From aa5b1712fbb4fd8c7d57d13b8690f8154dd1f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 56/72] fix: polynomial operators of different order are not
 equal

---
 src/opinf/operators/_polynomial_operator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index ae801c8..52925a1 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -240,6 +240,15 @@ class PolynomialOperator(OpInfOperator):
             x = np.kron(q, x)[kept[i]]
         return self.entries @ dx
 
+    def __eq__(self, other) -> bool:
+        """Return ``True`` if two operators have the same polynomial order and
+        the same entries.
+        """
+        return (
+            OpInfOperator.__eq__(self, other)
+            and self.polynomial_order == other.polynomial_order
+        )
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From c7050e94d21e798e216ca61440255e8ffb3a0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 57/72] fix: a trained and an untrained ShiftScaleTransformer
 are not equal

---
 src/opinf/pre/_shiftscale.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index b873966..9da24f7 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -979,17 +979,15 @@ class ShiftScaleTransformer(TransformerTemplate):
                 return False
         if self.state_dimension != other.state_dimension:
             return False
-        if self.centering and self.mean_ is not None:
-            if other.mean_ is None:
+        attrs = ["mean_"] if self.centering else []
+        if self.scaling:
+            attrs += ["scale_", "shift_"]
+        for attr in attrs:
+            sat, oat = getattr(self, attr), getattr(other, attr)
+            if (sat is None) != (oat is None):
                 return False
-            if not np.all(self.mean_ == other.mean_):
+            if sat is not None and not np.all(sat == oat):
                 return False
-        if self.scaling and self.scale_ is not None:
-            for attr in ("scale_", "shift_"):
-                if (oat := getattr(other, attr)) is None:
-                    return False
-                if not np.all(getattr(self, attr) == oat):
-                    return False
         return True
 
     # Printing ----------------------------------------------------------------
-- 
2.43.0


From dce18bc73f7d1e8d5e13a101f39c6c5b18878055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 58/72] fix: OperatorPosterior can be compared with other
 objects

---
 src/opinf/roms/_bayes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index cfd82f0..5b19407 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -136,6 +136,8 @@ class OperatorPosterior:
         return [rv.cov for rv in self.randomvariables]
 
     def __eq__(self, other):
+        if not isinstance(other, self.__class__):
+            return False
         if self.nrows != other.nrows:
             return False
         for m1, m2 in zip(self.means, other.means):
-- 
2.43.0


From c1febf72ba1e1f2874a67a2ea75fc58f7d29ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 59/72] fix: TransformerMulti can be compared with any object

---
 src/opinf/pre/_multi.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index ce5766f..c42b04a 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -455,10 +455,7 @@ class TransformerMulti:
 
     def __eq__(self, other) -> bool:
         """Test two TransformerMulti objects for equality."""
-        if not (
-            isinstance(other, self.__class__)
-            or isinstance(self, other.__class__)
-        ):
+        if not isinstance(other, self.__class__):
             return False
         if self.num_variables != other.num_variables:
             return False
-- 
2.43.0


From ab03a404254eaaa52bfede7aded8861c5febf858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 60/72] fix: BasisMulti can be compared with any object

---
 src/opinf/basis/_multi.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index 3c2925e..8d2c719 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -153,10 +153,7 @@ class BasisMulti:
 
     def __eq__(self, other) -> bool:
         """Test two BasisMulti objects for equality."""
-        if not (
-            isinstance(other, self.__class__)
-            or isinstance(self, other.__class__)
-        ):
+        if not isinstance(other, self.__class__):
             return False
         if self.num_variables != other.num_variables:
             return False
-- 
2.43.0


From 642709ed2042f01ad3c05a974c773e9a5935d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 61/72] fix: PolynomialOperator.jacobian() requires entries

---
 src/opinf/operators/_polynomial_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 52925a1..0496116 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -221,6 +221,7 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    @utils.requires("entries")
     def jacobian(self, state: np.ndarray, input_=None) -> np.ndarray:
         r"""Construct the state Jacobian of the operator. Input is not used.
         See OpInfOperator.jacobian for description.
-- 
2.43.0


From c7f8731e16c58e5cf9fc75a265952a7824cdd77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 62/72] fix: restore the time domain when a derivative
 estimator's verify() raises

---
 src/opinf/ddt/_base.py          | 46 +++++++++++++++++----------------
 src/opinf/ddt/_interpolation.py |  7 ++---
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index bca7c1a..4388208 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -271,28 +271,31 @@ class DerivativeEstimatorTemplate(abc.ABC):
         estimation_errors["dts"] = dts
 
         t_base = np.arange(1001)
-        for dt in dts:
-            # Construct test cases.
-            t = 1 + (dt * t_base)
-            Q = np.array([test[1](t) for test in self.__tests])
-            dQdt = np.array([test[2](t) for test in self.__tests])
-            self.__t = t
-
-            # Call the derivative estimator.
-            Q_est, dQdt_est = self.estimate(Q, None)
-
-            # Use new states to infer the indices of the returns.
-            start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
-            )
-            s = slice(start, start + Q_est.shape[1])
-            truth = dQdt[:, s]
+        try:
+            for dt in dts:
+                # Construct test cases.
+                t = 1 + (dt * t_base)
+                Q = np.array([test[1](t) for test in self.__tests])
+                dQdt = np.array([test[2](t) for test in self.__tests])
+                self.__t = t
+
+                # Call the derivative estimator.
+                Q_est, dQdt_est = self.estimate(Q, None)
+
+                # Use new states to infer the indices of the returns.
+                start = np.argmin(
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                )
+                s = slice(start, start + Q_est.shape[1])
+                truth = dQdt[:, s]
 
-            # Calculate the relative error of the time derivative estimate.
-            denom = la.norm(truth, axis=1)
-            errs = la.norm(dQdt_est - truth, axis=1) / denom
-            for test, err in zip(self.__tests, errs):
-                estimation_errors[test[0]].append(err)
+                # Calculate the relative error of the time derivative estimate.
+                denom = la.norm(truth, axis=1)
+                errs = la.norm(dQdt_est - truth, axis=1) / denom
+                for test, err in zip(self.__tests, errs):
+                    estimation_errors[test[0]].append(err)
+        finally:
+            self.__t = time_domain  # Restore original time domain.
 
         if plot:
             _, ax = plt.subplots(1, 1)
@@ -325,6 +328,5 @@ class DerivativeEstimatorTemplate(abc.ABC):
                 for dt, err in zip(dts, estimation_errors[name]):
                     print(f"dt = {dt:.1e}:\terror = {err:.4e}")
 
-        self.__t = time_domain  # Restore original time domain.
         if return_errors:
             return estimation_errors
diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index b7baeb4..3269297 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -242,6 +242,7 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
     def verify(self, plot=False, return_errors=False):
         new_time_domain = self.__t2
         self.__t2 = None
-        out = super().verify(plot, return_errors)
-        self.__t2 = new_time_domain
-        return out
+        try:
+            return super().verify(plot, return_errors)
+        finally:
+            self.__t2 = new_time_domain
-- 
2.43.0


From a59b971ec868fd21831802a8bd21d493224a44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 63/72] fix: align estimated derivatives with the exact ones in
 verify()

---
 src/opinf/ddt/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index 4388208..f979e1d 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -284,7 +284,7 @@ class DerivativeEstimatorTemplate(abc.ABC):
 
                 # Use new states to infer the indices of the returns.
                 start = np.argmin(
-                    la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
                 )
                 s = slice(start, start + Q_est.shape[1])
                 truth = dQdt[:, s]
-- 
2.43.0


From e2a1683000f3e7bdc7bfe073d2c0859fa6352172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 64/72] fix: save and load empty basis names

---
 src/opinf/basis/_linear.py | 2 +-
 src/opinf/basis/_pod.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 8866585..db5c656 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -270,7 +270,7 @@ class LinearBasis(BasisTemplate):
             already exists.
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
-            if self.name:
+            if self.name is not None:
                 meta = hf.create_dataset("meta", shape=(0,))
                 meta.attrs["name"] = self.name
             hf.create_dataset("entries", data=self.entries)
diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index fa83126..5238404 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -967,7 +967,7 @@ class PODBasis(LinearBasis):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
-            if self.name:
+            if self.name is not None:
                 meta.attrs["name"] = self.name
 
             meta.attrs["svdsolver"] = self.svdsolver
-- 
2.43.0


From acae8dfaaa6d058f57b128c21363641a3fe29297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 65/72] fix: linear bases with different small weights are not
 equal

---
 src/opinf/basis/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index db5c656..890310d 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -246,14 +246,14 @@ class LinearBasis(BasisTemplate):
         elif w1.shape != w2.shape:
             return False
         elif sparse.issparse(w1) and sparse.issparse(w2):
-            if ((abs(w1 - w2) - 1e-5 * abs(w2)) > 1e-8).nnz > 0:
+            if (w1 != w2).nnz > 0:
                 return False
         else:
             if sparse.issparse(w1):
                 w1 = w1.toarray()
             if sparse.issparse(w2):
                 w2 = w2.toarray()
-            if not np.allclose(w1, w2):
+            if not np.array_equal(w1, w2):
                 return False
         return np.all(self.entries == other.entries)
 
-- 
2.43.0


From c603299dbffa2779330a9fef64357de2feba40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 66/72] fix: interpolated operators with different small
 entries are not equal

---
 src/opinf/operators/_interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index e20490c..a09b47f 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -315,7 +315,7 @@ class _InterpOperator(ParametricOpInfOperator):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
-            return np.allclose(self.entries, other.entries)
+            return np.array_equal(self.entries, other.entries)
         return True
 
     def __str__(self):
-- 
2.43.0


From db72342839b8fa780e65eace10db44aa74e3c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 67/72] fix: posterior() accepts regressions with small data

The residuals were compared with an absolute tolerance, so that data in
units in which they are small were reported as a perfect regression.
---
 src/opinf/lstsq/_tikhonov.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 6af6c23..3b3ef3a 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -25,8 +25,11 @@ def _symmetrize(A):
     return (A.T + A) / 2
 
 
-def _check_sigmas(sigmas):
-    if np.any(sigmas < np.finfo(np.float64).eps):
+def _check_sigmas(sigmas, lhs_matrix):
+    # Compare with the size of the data so that small data are not mistaken
+    # for a perfect regression.
+    sizes = np.minimum(1, np.sum(lhs_matrix**2, axis=1))
+    if np.any(sigmas <= np.finfo(np.float64).eps * sizes):
         raise RuntimeError("zero residual --> posterior is deterministic")
     return sigmas
 
@@ -370,7 +373,8 @@ class L2Solver(_BaseRegularizedSolver):
         Ohat = self.solve()
         DTD = _symmetrize(self.data_matrix.T @ self.data_matrix)
         invcov_unscaled = DTD + (self.regularizer**2 * np.eye(self.d))
-        sigmas = _check_sigmas(self.regresidual(Ohat)) / self.k
+        residuals = self.regresidual(Ohat)
+        sigmas = _check_sigmas(residuals, self.lhs_matrix) / self.k
         return Ohat, [invcov_unscaled / sig for sig in sigmas]
 
     # Post-processing ---------------------------------------------------------
@@ -603,7 +607,8 @@ class L2DecoupledSolver(L2Solver):
         Ohat = self.solve()
         DTD = _symmetrize(self.data_matrix.T @ self.data_matrix)
         Id = np.eye(self.d)
-        sigmas = _check_sigmas(self.regresidual(Ohat)) / self.k
+        residuals = self.regresidual(Ohat)
+        sigmas = _check_sigmas(residuals, self.lhs_matrix) / self.k
         precisions = [
             (DTD + (reg**2 * Id)) / sig
             for reg, sig in zip(self.regularizer, sigmas)
@@ -1006,7 +1011,8 @@ class TikhonovSolver(_BaseRegularizedSolver):
         DTD = _symmetrize(self.data_matrix.T @ self.data_matrix)
         GTG = _symmetrize(self.regularizer.T @ self.regularizer)
         invcov_unscaled = DTD + GTG
-        sigmas = _check_sigmas(self.regresidual(Ohat)) / self.k
+        residuals = self.regresidual(Ohat)
+        sigmas = _check_sigmas(residuals, self.lhs_matrix) / self.k
         return Ohat, [invcov_unscaled / sig for sig in sigmas]
 
     # Post-processing ---------------------------------------------------------
@@ -1272,7 +1278,8 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         """
         Ohat = self.solve()
         DTD = _symmetrize(self.data_matrix.T @ self.data_matrix)
-        sigmas = _check_sigmas(self.regresidual(Ohat)) / self.k
+        residuals = self.regresidual(Ohat)
+        sigmas = _check_sigmas(residuals, self.lhs_matrix) / self.k
         precisions = [
             (DTD + _symmetrize(Gamma.T @ Gamma)) / sig
             for Gamma, sig in zip(self.regularizer, sigmas)
-- 
2.43.0


From 0997b1334762452862bd90ddf3c40187775ebfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 68/72] fix: PODBasis with weights can change its svdsolver
 before fitting

---
 src/opinf/basis/_pod.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 5238404..056cb93 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -286,23 +286,30 @@ class PODBasis(LinearBasis):
         self.__residual_energy = None
 
         # Store weights (separate from LinearBasis.__weights)
+        self.__sqrt_weights = None
         if (
             weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
-            if weights.ndim == 1:
-                self.__sqrt_weights = np.sqrt(weights)
-            else:  # (weights.ndim == 2, checked by LinearBasis)
-                if sparse.issparse(weights):
-                    weights = weights.toarray()
-                if weights.shape[0] > 100:  # pragma: no cover
-                    warnings.warn(
-                        "computing the square root of a large weight matrix, "
-                        "consider using svdsolver='method-of-snapshots'",
-                        errors.OpInfWarning,
-                    )
-                self.__sqrt_weights = la.sqrtm(weights)
-                self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
+            self._set_sqrt_weights(weights)
+
+    def _set_sqrt_weights(self, weights):
+        """Compute the square root of the weights, needed for all SVD solvers
+        except the method of snapshots.
+        """
+        if weights.ndim == 1:
+            self.__sqrt_weights = np.sqrt(weights)
+        else:  # (weights.ndim == 2, checked by LinearBasis)
+            if sparse.issparse(weights):
+                weights = weights.toarray()
+            if weights.shape[0] > 100:  # pragma: no cover
+                warnings.warn(
+                    "computing the square root of a large weight matrix, "
+                    "consider using svdsolver='method-of-snapshots'",
+                    errors.OpInfWarning,
+                )
+            self.__sqrt_weights = la.sqrtm(weights)
+            self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
 
     @classmethod
     def from_svd(
@@ -700,6 +707,8 @@ class PODBasis(LinearBasis):
             self.weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
+            if self.__sqrt_weights is None:  # svdsolver changed after init
+                self._set_sqrt_weights(self.weights)
             if states.shape[0] != (nW := self.__sqrt_weights.shape[0]):
                 raise errors.DimensionalityError(
                     f"states not aligned with weights, should have {nW:d} rows"
-- 
2.43.0


From 0e9acc61f24ef7ac26223fa6a003343b777ceb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:14 +0000
Subject: [PATCH 69/72] fix: a rejected training leaves objects as they were

A training that fails (data with NaNs, of another number of variables,
without snapshots, ...) stored a part of the new training: e.g., the first
transformers of a pipeline were retrained while the others were not, or a
solver kept the old decomposition with the new data matrix and solve()
returned numbers that belong to neither.
---
 src/opinf/basis/_multi.py            |  1 +
 src/opinf/basis/_pod.py              |  1 +
 src/opinf/lstsq/_tikhonov.py         |  3 ++
 src/opinf/lstsq/_total.py            |  1 +
 src/opinf/lstsq/_tsvd.py             |  1 +
 src/opinf/models/mono/_base.py       |  3 +-
 src/opinf/models/mono/_parametric.py |  1 +
 src/opinf/pre/_multi.py              |  2 ++
 src/opinf/pre/_shiftscale.py         |  2 ++
 src/opinf/roms/_bayes.py             |  1 +
 src/opinf/roms/_nonparametric.py     |  2 ++
 src/opinf/roms/_parametric.py        |  2 ++
 src/opinf/utils/__init__.py          |  1 +
 src/opinf/utils/_training.py         | 47 ++++++++++++++++++++++++++++
 14 files changed, 67 insertions(+), 1 deletion(-)
 create mode 100644 src/opinf/utils/_training.py

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index 8d2c719..14dd529 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -294,6 +294,7 @@ class BasisMulti:
         return [states[s] for s in self._slices(reduced=False)]
 
     # Main routines -----------------------------------------------------------
+    @utils.all_or_nothing
     def fit(self, states):
         """Construct the joint basis by calling ``fit()`` on the basis for
         each variable.
diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 056cb93..aad91dd 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -662,6 +662,7 @@ class PODBasis(LinearBasis):
         self.__svdvals = svdvals / svdvals[0]
         self.__rightvecs = right
 
+    @utils.all_or_nothing
     def fit(self, states):
         """Compute the POD basis entries by taking the SVD of the states.
 
diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 3b3ef3a..f5574f6 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -293,6 +293,7 @@ class L2Solver(_BaseRegularizedSolver):
         )
 
     # Main methods ------------------------------------------------------------
+    @utils.all_or_nothing
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and compute the singular value decomposition of
         the data matrix in preparation to solve the least-squares problem.
@@ -546,6 +547,7 @@ class L2DecoupledSolver(L2Solver):
         self.__regs = regs
 
     # Main methods ------------------------------------------------------------
+    @utils.all_or_nothing
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and compute the singular value decomposition of
         the data matrix in preparation to solve the least-squares problem.
@@ -922,6 +924,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
         self.__method = method
 
     # Main routines -----------------------------------------------------------
+    @utils.all_or_nothing
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and precompute quantities in preparation to
         solve the least-squares problem.
diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index c3d746f..7a5b91b 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -75,6 +75,7 @@ class TotalLeastSquaresSolver(SolverTemplate):
         return start + f"\n  SVD solver: scipy.linalg.svd({kwargs})"
 
     # Main methods ------------------------------------------------------------
+    @utils.all_or_nothing
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions, compute the singular value decomposition of
         the data matrix, and solve the problem.
diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index e5498a7..0099212 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -123,6 +123,7 @@ class TruncatedSVDSolver(SolverTemplate):
         return f"{start}\n  " + "\n  ".join(out)
 
     # Main methods ------------------------------------------------------------
+    @utils.all_or_nothing
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         """Save data matrices and prepare to solve the regression problem."""
         SolverTemplate.fit(self, data_matrix, lhs_matrix)
diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index a19f8de..20495a7 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -7,7 +7,7 @@ import abc
 import warnings
 import numpy as np
 
-from ... import errors, lstsq, operators as _operators
+from ... import errors, lstsq, utils, operators as _operators
 from ...operators import _utils as oputils
 
 
@@ -70,6 +70,7 @@ class _Model(abc.ABC):
         return self.__operators
 
     @operators.setter
+    @utils.all_or_nothing
     def operators(self, ops):
         """Set the operators."""
         if self._isvalidoperator(ops):
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 43fb7de..a1a8050 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -93,6 +93,7 @@ class _ParametricModel(_OpInfModel):
         return _OpInfModel.operators.fget(self)
 
     @operators.setter
+    @utils.all_or_nothing
     def operators(self, ops):
         """Set the operators."""
         _OpInfModel.operators.fset(self, ops)
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index c42b04a..428475c 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -122,6 +122,7 @@ class TransformerPipeline(TransformerTemplate):
             Y = func(Y, inplace=True, **kwargs)
         return Y
 
+    @utils.all_or_nothing
     def fit_transform(self, states, inplace=False):
         return self._chain("fit_transform", states, inplace=inplace)
 
@@ -567,6 +568,7 @@ class TransformerMulti:
         self.fit_transform(states, inplace=False)
         return self
 
+    @utils.all_or_nothing
     def fit_transform(self, states, inplace=False):
         """Learn and apply the transformation.
 
diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 9da24f7..bbc9996 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -493,6 +493,7 @@ class ScaleTransformer(TransformerTemplate):
         self._check_shape(states)
         return self
 
+    @utils.all_or_nothing
     def fit_transform(self, states, inplace=False):
         """Set the :attr:`state_dimension` if :attr:`scaler` is not an array,
         and apply the scaling.
@@ -1025,6 +1026,7 @@ class ShiftScaleTransformer(TransformerTemplate):
                 "transformer not trained, call fit() or fit_transform()"
             )
 
+    @utils.all_or_nothing
     def fit_transform(self, states, inplace: bool = False):
         """Learn and apply the transformation.
 
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 5b19407..a6cd6b7 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -629,6 +629,7 @@ class BayesianROM(ROM, _BayesianROMMixin):
         )
         _BayesianROMMixin.__init__(self)
 
+    @utils.all_or_nothing
     def fit(
         self,
         states,
diff --git a/src/opinf/roms/_nonparametric.py b/src/opinf/roms/_nonparametric.py
index 8e6373f..7c97cf2 100644
--- a/src/opinf/roms/_nonparametric.py
+++ b/src/opinf/roms/_nonparametric.py
@@ -7,6 +7,7 @@ __all__ = [
 
 import numpy as np
 
+from .. import utils
 from ..models import _utils as modutils
 from ._base import _BaseROM
 
@@ -55,6 +56,7 @@ class ROM(_BaseROM):
         super().__init__(model, lifter, transformer, basis, ddt_estimator)
 
     # Training ----------------------------------------------------------------
+    @utils.all_or_nothing
     def fit(
         self,
         states,
diff --git a/src/opinf/roms/_parametric.py b/src/opinf/roms/_parametric.py
index f17af87..9ddd686 100644
--- a/src/opinf/roms/_parametric.py
+++ b/src/opinf/roms/_parametric.py
@@ -5,6 +5,7 @@ __all__ = [
     "ParametricROM",
 ]
 
+from .. import utils
 from ..models import _utils as modutils
 from ._base import _BaseROM
 
@@ -55,6 +56,7 @@ class ParametricROM(_BaseROM):
         super().__init__(model, lifter, transformer, basis, ddt_estimator)
 
     # Training ----------------------------------------------------------------
+    @utils.all_or_nothing
     def fit(
         self,
         parameters,
diff --git a/src/opinf/utils/__init__.py b/src/opinf/utils/__init__.py
index 6160656..b5120b0 100644
--- a/src/opinf/utils/__init__.py
+++ b/src/opinf/utils/__init__.py
@@ -8,3 +8,4 @@ from ._mpl_config import *
 from ._repr import *
 from ._requires import *
 from ._timer import *
+from ._training import *
diff --git a/src/opinf/utils/_training.py b/src/opinf/utils/_training.py
new file mode 100644
index 0000000..e022a2f
--- /dev/null
+++ b/src/opinf/utils/_training.py
@@ -0,0 +1,47 @@
+# utils/_training.py
+"""Wrapper for training methods."""
+
+__all__ = [
+    "all_or_nothing",
+]
+
+import functools
+import typing
+
+
+def _attributes(obj, found: dict = None) -> list:
+    """Current attributes of an object and of the other objects of this package
+    that it consists of.
+    """
+    found = {} if found is None else found
+    if isinstance(obj, (list, tuple)):
+        for part in obj:
+            _attributes(part, found)
+    elif id(obj) not in found and any(
+        cls.__module__.split(".")[0] == __name__.split(".")[0]
+        for cls in type(obj).__mro__
+    ):
+        if hasattr(obj, "__dict__"):
+            found[id(obj)] = (obj, obj.__dict__.copy())
+            for part in found[id(obj)][1].values():
+                _attributes(part, found)
+    return list(found.values())
+
+
+def all_or_nothing(fit: typing.Callable) -> typing.Callable:
+    """Wrapper for training methods: if the training fails, the object stays
+    as it was before the call.
+    """
+
+    @functools.wraps(fit)
+    def _decorator(self, *args, **kwargs):
+        saved = _attributes(self)
+        try:
+            return fit(self, *args, **kwargs)
+        except BaseException:
+            for obj, attributes in saved:
+                obj.__dict__.clear()
+                obj.__dict__.update(attributes)
+            raise
+
+    return _decorator
-- 
2.43.0


From c6e52d69ea6ba25747e9cca70dba5e3dd6c1514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:19 +0000
Subject: [PATCH 70/72] fix: a rejected set_dimension() leaves the basis as it
 was

---
 src/opinf/basis/_pod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index aad91dd..204d4ce 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -603,6 +603,7 @@ class PODBasis(LinearBasis):
 
         self.reduced_state_dimension = r
 
+    @utils.all_or_nothing
     def set_dimension(
         self,
         num_vectors: int = None,
-- 
2.43.0


From babfe368f716cd4ba17fb1d386f339c7a36bd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:19 +0000
Subject: [PATCH 71/72] fix: a failed regularization selection leaves the ROM
 as it was

---
 src/opinf/roms/_base.py  | 2 ++
 src/opinf/roms/_bayes.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 73cdf8d..6ce3804 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -524,6 +524,7 @@ class _BaseROM(abc.ABC):
 
         return states
 
+    @utils.all_or_nothing
     def fit_regselect_continuous(
         self,
         candidates: list,
@@ -783,6 +784,7 @@ class _BaseROM(abc.ABC):
         update_model(best_regularization)
         return self
 
+    @utils.all_or_nothing
     def fit_regselect_discrete(
         self,
         candidates: list,
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index a6cd6b7..9efc525 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -245,6 +245,7 @@ class _BayesianROMMixin:
         """
         self.model._extract_operators(self.posterior.rvs())
 
+    @utils.all_or_nothing
     def fit_regselect_continuous(
         self,
         candidates: list,
@@ -409,6 +410,7 @@ class _BayesianROMMixin:
         update_model(best_regularization)
         return self
 
+    @utils.all_or_nothing
     def fit_regselect_discrete(
         self,
         candidates: list,
-- 
2.43.0


From dbbbff28d8b4172d07f38654761f342f5e4d7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:19 +0000
Subject: [PATCH 72/72] fix: get_var() with an index from the end returns the
 variable

---
 src/opinf/basis/_multi.py | 1 +
 src/opinf/pre/_multi.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index 14dd529..a386c47 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -249,6 +249,7 @@ class BasisMulti:
         dimsum = np.cumsum((0,) + ds)
 
         if varindex is not None:
+            varindex = range(self.num_variables)[varindex]
             return slice(dimsum[varindex], dimsum[varindex + 1])
 
         return [
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 428475c..e542231 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -507,6 +507,7 @@ class TransformerMulti:
         """
         dimsum = np.cumsum((0,) + self.variable_sizes)
         if varindex is not None:
+            varindex = range(self.num_variables)[varindex]
             return slice(dimsum[varindex], dimsum[varindex + 1])
 
         return tuple(
-- 
2.43.0

