From 9166baecbc41a1c0c30f846da36faf010dd1c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 01/10] fix: quasi-Newton updates use the signed update
 residuals

The vector y of the quasi-Newton update formulas (and the c vector of the first
Greenstadt method) is defined from the values of F, i.e. the update residuals
the jacobian has been computed with. The absolute values of the stopping
residuals were used instead, violating the secant equation as soon as a
residual is negative or the two normalizations differ.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 1eb4d65..8a8e961 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -340,8 +340,10 @@ where
     where
         M: model::Model<D>,
     {
-        let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
+        let max_error = self.evaluate_errors(model).amax();
+        let update_residuals = self
+            .residuals_config
+            .evaluate_update_residuals(&model.get_residuals());
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
@@ -377,9 +379,13 @@ where
             ResolutionMethod::NewtonRaphson => (),
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
+                let update_residuals_next = self
+                    .residuals_config
+                    .evaluate_update_residuals(&model.get_residuals());
+
                 self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
-                self.residuals_step_size = Some(errors_next.clone() - errors);
-                self.residuals_values_current = Some(errors_next.clone())
+                self.residuals_step_size = Some(&update_residuals_next - update_residuals);
+                self.residuals_values_current = Some(update_residuals_next);
             }
         };
 
-- 
2.43.0


From a17cefe0b84bd225722e03d52dcf3f7c09ca6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 02/10] fix: relative normalization of an exactly satisfied 0 =
 0 equation is zero

normalization(0.0, 0.0, Rel) was evaluated as 0 / 0 = NaN.
---
 src/solver_n_dimensional/residuals/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver_n_dimensional/residuals/mod.rs b/src/solver_n_dimensional/residuals/mod.rs
index d7ba7ff..bfefafe 100644
--- a/src/solver_n_dimensional/residuals/mod.rs
+++ b/src/solver_n_dimensional/residuals/mod.rs
@@ -87,6 +87,8 @@ impl fmt::Display for NormalizationMethod {
 pub fn normalization(x: f64, y: f64, normalization_method: NormalizationMethod) -> f64 {
     match normalization_method {
         NormalizationMethod::Abs => x - y,
+        // The equation 0 = 0 is satisfied, do not evaluate 0 / 0
+        NormalizationMethod::Rel if x == 0.0 && y == 0.0 => 0.0,
         NormalizationMethod::Rel => (x - y) / ((x + y).abs() / 2.0),
         NormalizationMethod::Adapt => (x - y) / (1.0 + (x + y).abs() / 2.0),
     }
-- 
2.43.0


From 897be3bd29553d06560fcf11d28c080bb979be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 03/10] fix: undefined residuals (NaN) are not a converged
 solution

'NaN > tolerance' is false and amax() ignores NaN values, so that solve()
returned Ok(()) with undefined residuals.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 8a8e961..8489a79 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,15 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    /// Each error must be below the tolerance
+    ///
+    /// An undefined error (NaN) is never below the tolerance
+    fn is_converged(&self, errors: &nalgebra::OVector<f64, D>) -> bool {
+        errors
+            .iter()
+            .all(|&error| error <= self.parameters.get_tolerance())
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -412,7 +421,6 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = errors.amax();
 
         if self.debug {
             self.parameters_to_log();
@@ -421,9 +429,7 @@ where
 
         // Warning: unrolling by hand the first iteration (which is always a Newton-Raphson step)
         //          is actually slowing down the code (run benchmarks to see it)
-        while max_error > self.parameters.get_tolerance()
-            && self.iter < self.parameters.get_max_iter()
-        {
+        while !self.is_converged(&errors) && self.iter < self.parameters.get_max_iter() {
             self.iter += 1;
 
             let proposed_guess = match self.parameters.get_resolution_method() {
@@ -442,11 +448,9 @@ where
                     return Err(errors::SolverError::JacobianError(error));
                 }
             }
-
-            max_error = errors.amax();
         }
 
-        if max_error > self.parameters.get_tolerance() {
+        if !self.is_converged(&errors) {
             Err(crate::errors::SolverError::NonConvergenceError)
         } else if self.valid_last_model_evaluation {
             Ok(())
-- 
2.43.0


From 05432a70108804ff9fc2c87be255e13398d64ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 04/10] fix: handle the model errors during the damped
 evaluation

The damped evaluation was unwrapped, so that a model error panicked, and its
accuracy was not used for the exit status.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 45 ++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 8489a79..f4fc7d1 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -306,6 +306,29 @@ where
         self.iters_params.step_limitations(&iter_values, &raw_step)
     }
 
+    /// Evaluate the model after an update of the iteratives
+    ///
+    /// Recovers from inaccurate values
+    fn evaluate_update<M>(&mut self, model: &mut M) -> Result<(), errors::SolverError<M, D>>
+    where
+        M: model::Model<D>,
+    {
+        match model.evaluate() {
+            Ok(()) => {
+                self.valid_last_model_evaluation = true;
+            }
+            Err(ModelError::InaccurateValuesError(_)) => {
+                self.valid_last_model_evaluation = false;
+            }
+            Err(e) => {
+                self.valid_last_model_evaluation = false;
+                return Err(errors::SolverError::ModelEvaluationError(e));
+            }
+        }
+
+        Ok(())
+    }
+
     fn damping<M>(
         &mut self,
         model: &mut M,
@@ -313,7 +336,8 @@ where
         current_guess: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
         errors_next: &mut nalgebra::OVector<f64, D>,
-    ) where
+    ) -> Result<(), errors::SolverError<M, D>>
+    where
         M: model::Model<D>,
     {
         let max_error_next = errors_next.amax();
@@ -331,7 +355,7 @@ where
                 let damped_guess =
                     current_guess * (1.0 - damping_factor) + proposed_guess * damping_factor;
                 model.set_iteratives(&damped_guess);
-                model.evaluate().unwrap();
+                self.evaluate_update(model)?;
                 *errors_next = self.evaluate_errors(model);
 
                 if self.debug {
@@ -339,6 +363,8 @@ where
                 }
             }
         }
+
+        Ok(())
     }
 
     fn update_model<M>(
@@ -356,18 +382,7 @@ where
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
-        match model.evaluate() {
-            Ok(()) => {
-                self.valid_last_model_evaluation = true;
-            }
-            Err(ModelError::InaccurateValuesError(_)) => {
-                self.valid_last_model_evaluation = false;
-            }
-            Err(e) => {
-                self.valid_last_model_evaluation = false;
-                return Err(errors::SolverError::ModelEvaluationError(e));
-            }
-        }
+        self.evaluate_update(model)?;
         let mut errors_next = self.evaluate_errors(model);
 
         if self.debug {
@@ -381,7 +396,7 @@ where
                 &current_guess,
                 proposed_guess,
                 &mut errors_next,
-            );
+            )?;
         }
 
         match self.parameters.get_resolution_method() {
-- 
2.43.0


From ea0cf0d41bef8990ba0e3de4793ec3acbf588c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 05/10] fix: report an inaccurate analytical jacobian instead
 of panicking

get_jacobian() returning an InaccurateValuesError provides no values to go on
with: the error was ignored and the missing inverse was unwrapped afterwards.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index f4fc7d1..482e9a8 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -168,7 +168,7 @@ where
     where
         M: model::Model<D>,
     {
-        let successful_jac_computation = if model.jacobian_provided() {
+        if model.jacobian_provided() {
             evaluate_jacobian_from_analytical_function(
                 &mut self.jacobian,
                 model,
@@ -181,14 +181,6 @@ where
                 self.iters_params,
                 self.residuals_config,
             )
-        };
-
-        match successful_jac_computation {
-            Ok(())
-            | Err(errors::SolverInternalError::InvalidJacobianError(
-                ModelError::InaccurateValuesError(_),
-            )) => Ok(()),
-            Err(model_error) => Err(model_error),
         }
     }
 
-- 
2.43.0


From 1f3dc723dd95a25224a27c3c4f2435838c04c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 06/10] fix: inaccurate initial evaluation satisfying the
 tolerance is a FinalEvaluationError

The initial evaluation is the final one when no iteration is needed.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 482e9a8..ac995bb 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -418,8 +418,8 @@ where
         // The first evaluation must yield usuable values
         // However, then don't need to be accurate
         match model.evaluate() {
-            Ok(()) => (),
-            Err(ModelError::InaccurateValuesError(_)) => (),
+            Ok(()) => self.valid_last_model_evaluation = true,
+            Err(ModelError::InaccurateValuesError(_)) => self.valid_last_model_evaluation = false,
             Err(ModelError::UnusableValuesError(error)) => {
                 return Err(crate::errors::SolverError::ModelInitialEvaluationError(
                     error.to_string(),
-- 
2.43.0


From 69612068786c9543b9b51fb8da4b67f0cabb9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 07/10] fix: reset the solver state at the beginning of a
 resolution

A second call to solve() started with the iteration count and the jacobian of
the previous one.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index ac995bb..061059e 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -413,6 +413,10 @@ where
     where
         M: model::Model<D>,
     {
+        // A previous resolution must not affect this one
+        self.iter = 0;
+        self.jacobian = JacobianMatrix::new();
+
         model.set_iteratives(&self.initial_guess);
 
         // The first evaluation must yield usuable values
-- 
2.43.0


From 3d40e35eaa107bd484b7ec45c0c38b17dc14b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 08/10] fix: report a non finite inverse of the jacobian as non
 invertible

A null step with a quasi-Newton method leads to a 0 / 0 update, and the NaN
step was turned by the step limitation into a jump to the minimal value.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 061059e..82eb1d5 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -197,7 +197,7 @@ where
             self.jac_to_log();
         }
         match successful_jac_computation {
-            Ok(()) => Ok(self.compute_next_from_inv_jac(model)),
+            Ok(()) => self.compute_next_from_inv_jac(model),
             Err(error) => Err(error),
         }
     }
@@ -273,7 +273,7 @@ where
         M: model::Model<D>,
     {
         match self.evaluate_jacobian_quasi_newton_step(model, resolution_method) {
-            Ok(()) => Ok(self.compute_next_from_inv_jac(model)),
+            Ok(()) => self.compute_next_from_inv_jac(model),
             Err(crate::errors::SolverInternalError::InvalidJacobianError(error)) => Err(
                 crate::errors::SolverInternalError::InvalidJacobianError(error),
             ),
@@ -283,19 +283,29 @@ where
         }
     }
 
-    fn compute_next_from_inv_jac<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
+    fn compute_next_from_inv_jac<M>(
+        &self,
+        model: &M,
+    ) -> Result<nalgebra::OVector<f64, D>, crate::errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
     {
+        let inverse = self.jacobian.get_inverse().as_ref().unwrap();
+
+        // A null update step or infinite values can lead to an undefined inverse
+        if inverse.iter().any(|value| !value.is_finite()) {
+            return Err(errors::SolverInternalError::InvalidJacobianInverseError);
+        }
+
         let residuals = self
             .residuals_config
             .evaluate_update_residuals(&model.get_residuals());
 
-        let raw_step = -self.jacobian.get_inverse().as_ref().unwrap() * residuals;
+        let raw_step = -inverse * residuals;
 
         let iter_values = model.get_iteratives();
 
-        self.iters_params.step_limitations(&iter_values, &raw_step)
+        Ok(self.iters_params.step_limitations(&iter_values, &raw_step))
     }
 
     /// Evaluate the model after an update of the iteratives
-- 
2.43.0


From 7a3cc92c30cfee01159be9763ea8054ca96a7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 09/10] fix: reject NaN parameters of the iteratives

Comparisons with NaN are false, so that the validations accepted it.
---
 src/solver_n_dimensional/iteratives/iterative_var.rs    | 6 +++---
 src/solver_n_dimensional/iteratives/iterative_var_fd.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index 38f4598..d00e58f 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -19,20 +19,20 @@ impl IterativeParams {
     ///
     /// The `min_value` must be lower than the `max_value`
     pub fn new(max_step_abs: f64, max_step_rel: f64, min_value: f64, max_value: f64) -> Self {
-        if max_step_abs <= 0.0 {
+        if max_step_abs.is_nan() || max_step_abs <= 0.0 {
             panic!(
                 "max_step_abs must be strictly positive, provided value was {}",
                 max_step_abs
             );
         }
-        if max_step_rel <= 0.0 {
+        if max_step_rel.is_nan() || max_step_rel <= 0.0 {
             panic!(
                 "max_step_rel must be strictly positive, provided value was {}",
                 max_step_rel
             );
         }
 
-        if min_value >= max_value {
+        if min_value.is_nan() || max_value.is_nan() || min_value >= max_value {
             panic!(
                 "min_value must be strictly inferior to max_value, provided values are {} > {}",
                 min_value, max_value
diff --git a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
index 9bcb7a5..79c2eeb 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
@@ -56,13 +56,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
@@ -121,13 +121,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
-- 
2.43.0


From 8e4dc5d479984571cf81e0dc9e5246a51c12d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 10/10] fix: tell the methods updating the inverse of the
 jacobian from those updating the jacobian

---
 src/solver_n_dimensional/solver/resolution_method.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/resolution_method.rs b/src/solver_n_dimensional/solver/resolution_method.rs
index 995851f..9dcfd99 100644
--- a/src/solver_n_dimensional/solver/resolution_method.rs
+++ b/src/solver_n_dimensional/solver/resolution_method.rs
@@ -67,11 +67,11 @@ impl fmt::Display for QuasiNewtonMethod {
         match self {
             QuasiNewtonMethod::StationaryNewton => content.push_str("Frozen Jacobian matrix"),
             QuasiNewtonMethod::JacobianUpdate(method) => {
-                content.push_str("Jacobian matrix approximated");
+                content.push_str("Jacobian matrix approximated: ");
                 content.push_str(&method.to_string());
             }
             QuasiNewtonMethod::InverseJacobianUpdate(method) => {
-                content.push_str("Jacobian matrix approximated");
+                content.push_str("Inverse jacobian matrix approximated: ");
                 content.push_str(&method.to_string());
             }
         }
-- 
2.43.0

