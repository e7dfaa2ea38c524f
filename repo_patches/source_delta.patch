From 3c5c94393c79e0ceeffc371a2db5e44b0eadc7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 01/38] fix: judge gradient convergence at the iterate, not at
 a rejected evaluation

A failed or rejected evaluation (e.g. fval=inf, grad=0) satisfied the GTOL
criterion although the point that is returned is not stationary.
---
 fides/minimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 3ae0166..4dd4bb8 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -604,7 +604,10 @@ class Optimizer:
             Function output generated by a :py:class:`FunEvaluator`
         """
         converged = False
-        fval, grad = funout.fval, funout.grad
+        fval = funout.fval
+        # gradient at the point that would be returned: a rejected (possibly
+        # failed) evaluation says nothing about stationarity of the iterate
+        grad = funout.grad if self.tr_ratio > 0.0 else self.grad
 
         fatol = self.get_option(Options.FATOL)
         frtol = self.get_option(Options.FRTOL)
-- 
2.43.0


From 3a0ac592da55e80dc1661816ec97e61a003267cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 02/38] fix: step back the whole Steihaug step

Only the last conjugate gradient increment was scaled in transformed
coordinates, so a truncated step was inconsistent with the model value, the
trust region ratio, the radius update and reflections computed from it.
---
 fides/steps.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ee9f00..5cd6ad5 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -334,7 +334,15 @@ class CGStep(Step):
     def calculate(self):
         nsg = norm(self.sg)
         self.conj_grad(min(0.5, np.sqrt(nsg)) * nsg)
-        self.s = self.scaling.dot(self.ss + self.ss0)
+        # step back, reflection and truncation act on the step as a whole, so
+        # merge the contribution of previous cg iterations (ss0) into ss
+        self.ss = self.ss + self.ss0
+        self.ss0 = np.zeros_like(self.ss)
+        self.s = self.scaling.dot(self.ss)
+        self.sc = norm(self.ss) * np.ones((1,))
+        direction = self.ss.copy()
+        normalize(direction)
+        self.subspace = np.expand_dims(direction, 1)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss + self.ss0)
 
-- 
2.43.0


From 391ed439e58501a776faa980e33e70d532e7d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 03/38] fix: return a zero step from Steihaug's method for a
 zero gradient

The residual of a zero gradient is not strictly smaller than the (zero)
tolerance, so 0/0 was computed and the objective was evaluated at NaN.
---
 fides/steps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 5cd6ad5..02c6fb5 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -368,7 +368,7 @@ class TRStepSteihaug(CGStep):
         z = np.zeros_like(self.sg)
         r = self.sg.copy()
         d = -self.sg.copy()
-        if norm(r) < eps:
+        if norm(r) <= eps:
             self.ss = z
             return
 
-- 
2.43.0


From b66dabf79425fb4790d8878462d9cbdaecbf5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 04/38] fix: bound the number of conjugate gradient iterations

Steihaug's method looped forever for non-symmetric Hessian approximations for
which neither negative curvature nor the residual tolerance is ever met.
---
 fides/steps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 02c6fb5..2e6aee6 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -372,7 +372,9 @@ class TRStepSteihaug(CGStep):
             self.ss = z
             return
 
-        while True:
+        # n iterations suffice in exact arithmetic, but there is no guarantee of
+        # termination for ill-conditioned or non-symmetric approximations
+        for _ in range(10 * len(self.sg)):
             bd = self.shess.dot(d)
             c = d.dot(bd)
             r2 = np.dot(r, r)
@@ -405,6 +407,9 @@ class TRStepSteihaug(CGStep):
             z = zp.copy()
             r = rp.copy()
 
+        # not converged, use the last iterate inside the trust region
+        self.ss = z
+
 
 class TRStepReflected(Step):
     """
-- 
2.43.0


From 1b78603aafa25bcf20316cf2aacedab13d13c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 05/38] fix: keep the 2D subspace orthonormal

If the gradient was parallel to the Newton direction up to rounding, the
remainder of the projection was normalized and added to the subspace, which
then was not orthonormal, so that steps could exceed the trust region radius.
---
 fides/steps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 2e6aee6..5173a95 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -312,9 +312,10 @@ class TRStep2D(Step):
             s_grad = scaling.dot(np.sign(sg) + (sg == 0))
 
         normalize(s_newt)
+        n_grad = norm(s_grad)
         s_grad = s_grad - s_newt * s_newt.dot(s_grad)
-        # if non-zero, add s_grad to subspace
-        if norm(s_grad) > np.spacing(1):
+        # if not (numerically) parallel, add s_grad to subspace
+        if norm(s_grad) > np.sqrt(np.spacing(1)) * n_grad:
             normalize(s_grad)
             self.subspace = np.vstack([s_newt, s_grad]).T
         else:
-- 
2.43.0


From 42aab93f9a4599cfbe671bf1f45d9424b7ba3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 06/38] fix: never evaluate outside of the bounds due to
 rounding

If theta is close to one, rounding of x + s could exceed a boundary, which
evaluated the objective outside of the feasible region and, if the step was
accepted, aborted the optimization.
---
 fides/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 4dd4bb8..a81f3ff 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -411,7 +411,8 @@ class Optimizer:
                 logger=self.logger,
             )
 
-            x_new = self.x + step.s + step.s0
+            # rounding must not push the step across a boundary
+            x_new = np.clip(self.x + step.s + step.s0, self.lb, self.ub)
             funout_new = self.fevaler(x_new)
 
             if np.isfinite(funout_new.fval):
-- 
2.43.0


From 0ef249e0317e09f27d88a304f298d4646f0590c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 07/38] fix: check the shape of every reply of the objective
 function

Only the first reply was checked, and only after it had been used, so that
malformed replies were accepted, or raised unrelated errors after the state of
the optimizer had been modified.
---
 fides/minimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index a81f3ff..dd378db 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -361,6 +361,7 @@ class Optimizer:
         self.check_in_bounds()
 
         funout = self.fevaler(self.x)
+        funout.checkdims()
 
         self.fval, self.grad = funout.fval, funout.grad
         if self.hessian_update is not None:
@@ -372,8 +373,6 @@ class Optimizer:
         else:
             self.hess = funout.hess.copy()
 
-        funout.checkdims()
-
         self.track_minimum(funout)
         self.log_header()
         self.log_step_initial()
@@ -414,6 +413,7 @@ class Optimizer:
             # rounding must not push the step across a boundary
             x_new = np.clip(self.x + step.s + step.s0, self.lb, self.ub)
             funout_new = self.fevaler(x_new)
+            funout_new.checkdims()
 
             if np.isfinite(funout_new.fval):
                 self.check_finite(funout_new)
-- 
2.43.0


From 56212b0e7ec29b541972507a210705b0f0b1e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 08/38] fix: skip quasi-Newton updates that are not defined

The Broyden class update for a step without (approximate) curvature and the
SR1 update for an already satisfied secant equation computed 0/0, so that the
Hessian approximation was not finite.
---
 fides/hessian_approximation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index aeb07b9..02d1d60 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -213,7 +213,7 @@ class SR1(IterativeHessianApproximation):
         d = z.T.dot(s)
 
         # [NocedalWright2006] (6.26) reject if update degenerate
-        if np.abs(d) >= np.sqrt(np.spacing(1)) * norm(s) * norm(z):
+        if np.abs(d) > np.sqrt(np.spacing(1)) * norm(s) * norm(z):
             self._diff = np.outer(z, z.T) / d
         else:
             self._diff = np.zeros_like(self._hess)
@@ -633,6 +633,10 @@ def broyden_class_update(
     if b <= 0 and enforce_curv_cond:
         return np.zeros_like(mat)
 
+    if b == 0 or c == 0:
+        # update is not defined
+        return np.zeros_like(mat)
+
     update = np.outer(y, y.T) / b - np.outer(u, u.T) / c
 
     if phi != 0.0:
-- 
2.43.0


From da198dc10766fc1af22a70e38e9dc8cd65d27a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 09/38] fix: do not divide by the norm of zero residuals in
 TSSM

The returned Hessian approximation was not finite for zero residual problems.
---
 fides/hessian_approximation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 02d1d60..856b301 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -547,9 +547,17 @@ class TSSM(StructuredApproximation):
         # Equation (2.6)
         ys = hess.dot(s) + yb
         # Equation (2.10)
-        self._structured_diff = broyden_class_update(
-            ys, s, bs, phi=self.phi, enforce_curv_cond=self.enforce_curv_cond
-        ) / norm(r)
+        if norm(r) > 0:
+            self._structured_diff = broyden_class_update(
+                ys,
+                s,
+                bs,
+                phi=self.phi,
+                enforce_curv_cond=self.enforce_curv_cond,
+            ) / norm(r)
+        else:
+            # second order term vanishes and cannot be identified
+            self._structured_diff = np.zeros_like(self.A)
         self.A += self._structured_diff
         # Equation (2.9)
         self._update_hess_and_store_diff(hess + norm(r) * self.A)
-- 
2.43.0


From 00fb5f438b939f6b385db98c736fa9d0b100df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 10/38] fix: forget that the hybrid scheme switched when a new
 run starts

A second run with the same optimizer started with the iterative scheme.
---
 fides/hessian_approximation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 856b301..24bc59a 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -274,6 +274,10 @@ class HybridApproximation(HessianApproximation):
 
 
 class HybridSwitchApproximation(HybridApproximation):
+    def _init_mat(self, dim: int, hess: np.ndarray | None = None):
+        super()._init_mat(dim, hess)
+        self._switched = False
+
     def _switched_update(self, s: np.ndarray, y: np.ndarray, hess: np.ndarray):
         self.hessian_update.update(s, y)
         new_hess = self.hessian_update.get_mat() if self._switched else hess
-- 
2.43.0


From c343f21e77c21631ba7c6a0336e438242f001139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 11/38] fix: reset the exitflag when a new run starts

If a run failed with an exception, the exitflag of the previous run, which may
signal convergence, was still reported.
---
 fides/minimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index dd378db..935c5d5 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -301,6 +301,7 @@ class Optimizer:
         self.iterations_since_tr_update = 0
         self.n_intermediate_tr_radius = 0
         self.converged = False
+        self.exitflag = ExitFlag.DID_NOT_RUN
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
         self.fval_min = np.inf
-- 
2.43.0


From 41c58a29c3e576ea9d31e9bdd3fe4ee238c85b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 12/38] fix: apply the update of Broyden's bad method

BB computed (and reported as history) an update that was never applied to the
approximation, which remained the identity. The computed update also did not
satisfy the secant equation. Use the direct form of the update of the inverse
in Broyden 1965 (via Sherman-Morrison) and apply it.
---
 fides/hessian_approximation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 24bc59a..4201060 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -244,13 +244,14 @@ class BB(IterativeHessianApproximation):
     This scheme only works with a function that returns (fval, grad)
     """
 
-    def update(self, s: np.ndarray, y: np.ndarray) -> None:
-        b = y.T.dot(s)
-        z = y - self._hess.dot(s)
-        if b <= 0:
+    def _compute_update(self, s: np.ndarray, y: np.ndarray) -> None:
+        bs = self._hess.dot(s)
+        z = y - bs
+        d = y.T.dot(bs)
+        if y.T.dot(s) <= 0 or d <= 0:
             self._diff = np.zeros_like(self._hess)
         else:
-            self._diff = np.outer(z, s.T) / b
+            self._diff = np.outer(z, y.T.dot(self._hess)) / d
 
 
 class HybridApproximation(HessianApproximation):
-- 
2.43.0


From 07517d69a16e936b3e976874376d03f571908aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 13/38] fix: measure the runtime budget on a monotonic clock

Adjustments of the system time during optimization ended it prematurely, or
disabled the maxtime option.
---
 fides/minimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 935c5d5..bb7bdc5 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -175,7 +175,8 @@ class Optimizer:
     :ivar grad_min: Objective function gradient at x_min
     :ivar hess: Objective function Hessian (approximation) at x
     :ivar hessian_update: Object that performs hessian updates
-    :ivar starttime: Time at which optimization was started
+    :ivar starttime: Time (on a monotonic clock) at which optimization was
+        started
     :ivar iteration: Current iteration
     :ivar converged: Flag indicating whether optimization has converged
     :ivar exitflag: ExitFlag to indicate reason for termination
@@ -296,7 +297,7 @@ class Optimizer:
         self.start_id: str = ''
 
     def _reset(self, start_id: str | None = None):
-        self.starttime = time.time()
+        self.starttime = time.monotonic()
         self.iteration = 0
         self.iterations_since_tr_update = 0
         self.n_intermediate_tr_radius = 0
@@ -680,7 +681,7 @@ class Optimizer:
             )
             return False
 
-        time_elapsed = time.time() - self.starttime
+        time_elapsed = time.monotonic() - self.starttime
         maxtime = self.get_option(Options.MAXTIME)
         time_remaining = maxtime - time_elapsed
         avg_iter_time = time_elapsed / (self.iteration + (self.iteration == 0))
-- 
2.43.0


From d55630fe8b24d93024df86ab0d6f67d7926a707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 14/38] fix: do not share loggers between threads

The logger count was incremented and read non-atomically, so that two threads
could get the same logger, with duplicated messages at the wrong level.
---
 fides/logging.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fides/logging.py b/fides/logging.py
index ce2112f..95f870d 100644
--- a/fides/logging.py
+++ b/fides/logging.py
@@ -8,9 +8,10 @@ optimizer as well as debugging information
     logging.Logger instance that can be used throughout fides
 """
 
+import itertools
 import logging
 
-logger_count = 0
+logger_count = itertools.count(1)
 
 
 def create_logger(level: int) -> logging.Logger:
@@ -24,11 +25,10 @@ def create_logger(level: int) -> logging.Logger:
     :return:
         logger instance
     """
-    global logger_count
-    logger_count += 1
     # add logger count to differentiate between different fides
     # optimization instances and avoid deadlocks
-    logger = logging.getLogger(f'fides_{logger_count}')
+    # (drawing the next number is atomic)
+    logger = logging.getLogger(f'fides_{next(logger_count)}')
     ch = logging.StreamHandler()
     formatter = logging.Formatter(
         fmt='%(asctime)s fides(%(levelname)s) %(message)s',
-- 
2.43.0


From a257a06c62525a92de1689cbb9ae820962f83110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 15/38] fix: do not share arrays with the objective function

An objective function that modifies its argument, or that reuses the arrays it
returns between calls, corrupted the state of the optimizer.
---
 fides/minimize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index bb7bdc5..1e0c8c3 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -49,7 +49,8 @@ class FunEvaluator:
         self.funargs = funargs
 
     def __call__(self, x: np.ndarray):
-        ret = self.fun(x, **self.funargs)
+        # the objective may modify or keep its argument
+        ret = self.fun(x.copy(), **self.funargs)
 
         if not isinstance(ret, tuple) or len(ret) != self.nargout:
             nargout = len(ret) if isinstance(ret, tuple) else 1
@@ -63,6 +64,9 @@ class FunEvaluator:
                 f'needs to return 3 values (fval, grad, hess).'
             )
 
+        # ... and may reuse the arrays it returns
+        ret = tuple(r.copy() if isinstance(r, np.ndarray) else r for r in ret)
+
         if self.resfun:
             res, sres = ret
             return Funout(
-- 
2.43.0


From c6e08702efe87b238e1c7d34ddf05a54e14c115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 16/38] fix: use orthonormal eigenvectors in the nd trust
 region subproblem

linalg.eig does not return orthogonal eigenvectors for repeated eigenvalues or
non-symmetric matrices, so that steps could exceed the trust region radius.
---
 fides/subproblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 692be3e..61b1163 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -135,9 +135,9 @@ def solve_nd_trust_region_subproblem(
 
     # instead of a cholesky factorization, we go with an eigenvalue
     # decomposition, which works pretty well for n=2
-    eigvals, eigvecs = linalg.eig(b)
-    eigvals = np.real(eigvals)
-    eigvecs = np.real(eigvecs)
+    # (only the symmetric part of b contributes to the quadratic form, and
+    # eigenvectors must be orthonormal for the expressions below to hold)
+    eigvals, eigvecs = linalg.eigh(0.5 * (b + b.T))
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
-- 
2.43.0


From 94217a1abae9be1933d8772a037ea01bf538cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 17/38] fix: orthonormalize the subspace of truncated steps

Removing variables from the subspace basis leaves it neither orthogonal nor
linearly independent, so that steps could exceed the trust region radius.
---
 fides/steps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 5173a95..78ac26d 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -498,9 +498,9 @@ class TRStepTruncated(Step):
         subspace[iminbr, :] = 0
         # reduce subspace
         subspace = subspace[:, (subspace != 0).any(axis=0)]
-        # normalize subspace
-        for ix in range(subspace.shape[1]):
-            normalize(subspace[:, ix])
+        # orthonormalize subspace
+        if subspace.shape[1] > 0:
+            subspace = linalg.orth(subspace)
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From 67f4c362701e1a562741307ea54455dcfd02b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 18/38] fix: do not divide by vanishing curvature in one
 dimensional problems

The objective was evaluated at NaN if the Hessian was zero.
---
 fides/steps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 78ac26d..65ab698 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -284,8 +284,8 @@ class TRStep2D(Step):
         self.posdef = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
 
         if len(sg) == 1:
-            s_newt = -sg[0] / self.shess[0]
-            self.subspace = np.expand_dims(s_newt, 1)
+            # covers the full space, also if curvature or gradient vanish
+            self.subspace = np.ones((1, 1))
             return
 
         self.newton = False
-- 
2.43.0


From 0d99b390e0c1761c501b23160f3ac8b882f02021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 19/38] fix: keep hard case solutions of the subproblem in the
 trust region

For (numerically) singular Hessians, eigenvalues that differ by rounding only
were divided by, so that steps exceeded the trust region radius by orders of
magnitude.
---
 fides/subproblem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 61b1163..2d79925 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -210,8 +210,12 @@ def solve_nd_trust_region_subproblem(
             pass  # may end up here due to ill-conditioning, treat as hard case
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
-    w[(eigvals - mineig) == 0] = 0
+    # eigenvalues that only differ from mineig by rounding are equal to mineig
+    tol = len(w) * np.spacing(1) * np.max(np.abs(eigvals))
+    w[(eigvals - mineig) <= tol] = 0
     s = slam(-mineig, w, eigvals, eigvecs)
+    # may exceed delta if we end up here due to ill-conditioning
+    s *= min(1.0, delta / max(norm(s), np.spacing(0.0)))
     # we know that ||s(lam) + sigma*v_jmin|| = delta, since v_jmin is
     # orthonormal, we can just substract the difference in norm to get
     # the right length.
-- 
2.43.0


From cb5cd83b94f8c8dc95fd1654fd34abaf08404e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 20/38] fix: use relative tolerances for the norm of subproblem
 solutions

With absolute tolerances, steps could exceed small trust region radii (below
1e-8) by orders of magnitude.
---
 fides/subproblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 2d79925..22f7a41 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -154,7 +154,7 @@ def solve_nd_trust_region_subproblem(
     # POSITIVE DEFINITE
     if mineig > 0:  # positive definite
         s = np.real(slam(0, w, eigvals, eigvecs))  # s = - self.cB\self.cg_hat
-        if norm(s) <= delta + np.sqrt(np.spacing(1)):  # CASE 0
+        if norm(s) <= delta * (1 + np.sqrt(np.spacing(1))):  # CASE 0
             logger.debug('Interior subproblem solution')
             return s, 'posdef'
         else:
@@ -178,7 +178,7 @@ def solve_nd_trust_region_subproblem(
                 args=(w, eigvals, eigvecs, delta),
             )
             s = slam(r, w, eigvals, eigvecs)
-            if norm(s) <= delta + 1e-12:
+            if norm(s) <= delta * (1 + 1e-12):
                 logger.debug('Found boundary subproblem solution via newton')
                 return s, 'indef'
         except RuntimeError:
@@ -201,7 +201,7 @@ def solve_nd_trust_region_subproblem(
                     args=(w, eigvals, eigvecs, delta),
                 )
                 s = slam(r, w, eigvals, eigvecs)
-                if norm(s) <= delta + np.sqrt(np.spacing(1)):
+                if norm(s) <= delta * (1 + np.sqrt(np.spacing(1))):
                     logger.debug(
                         'Found boundary subproblem solution via brentq'
                     )
-- 
2.43.0


From ebf7f6d11321b79e0cc4756bb267b215c657d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 21/38] fix: keep truncated variables out of the
 orthonormalized subspace

---
 fides/steps.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 65ab698..d987fc7 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -498,9 +498,12 @@ class TRStepTruncated(Step):
         subspace[iminbr, :] = 0
         # reduce subspace
         subspace = subspace[:, (subspace != 0).any(axis=0)]
-        # orthonormalize subspace
+        # orthonormalize subspace, truncated variables must not reenter
+        free = (subspace != 0).any(axis=1)
         if subspace.shape[1] > 0:
-            subspace = linalg.orth(subspace)
+            basis = linalg.orth(subspace[free, :])
+            subspace = np.zeros((len(free), basis.shape[1]))
+            subspace[free, :] = basis
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From fad821d4c110431b5a07d6ee8b92c1f58c8d1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 22/38] fix: treat integer start points as floating point
 vectors

---
 fides/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 1e0c8c3..6c50c1e 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -360,7 +360,7 @@ class Optimizer:
         """
         self._reset(start_id)
 
-        self.x = np.array(x0).copy()
+        self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
-- 
2.43.0


From 6bc30c468b995c667df0a1bf3e715fec7774e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 23/38] fix: move large values off the bounds as well

---
 fides/minimize.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 6c50c1e..6568bd6 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -715,15 +715,16 @@ class Optimizer:
         :param eps: degeneracy threshold
         """
         if eps is None:
-            eps = 1e2 * np.spacing(1)
-        if (
-            np.min(np.abs(self.ub - self.x)) < eps
-            or np.min(np.abs(self.x - self.lb)) < eps
+            # must not vanish due to rounding for large values
+            eps = 1e2 * np.spacing(np.maximum(np.abs(self.x), 1.0))
+        eps = eps * np.ones_like(self.x)
+        if np.any(np.abs(self.ub - self.x) < eps) or np.any(
+            np.abs(self.x - self.lb) < eps
         ):
             upperi = (self.ub - self.x) < eps
             loweri = (self.x - self.lb) < eps
-            self.x[upperi] = self.x[upperi] - eps
-            self.x[loweri] = self.x[loweri] + eps
+            self.x[upperi] = self.x[upperi] - eps[upperi]
+            self.x[loweri] = self.x[loweri] + eps[loweri]
 
     def get_affine_scaling(self) -> tuple[np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From 4a5b790d58e95597b7fcc7e469c29934ef802973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 24/38] fix: keep refined steps in the trust region

---
 fides/steps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index d987fc7..eec3a75 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -577,7 +577,9 @@ class RefinedStep(Step):
             constraints=self.constraints,
             options={'verbose': 0, 'maxiter': 100, 'gtol': 0, 'xtol': 0},
         )
-        self.sc = res.x
+        # may be infeasible if the iteration limit was reached
+        sc_norm = max(norm(res.x), np.spacing(0.0))
+        self.sc = res.x * min(1.0, self.delta / sc_norm)
         self.ss = self.subspace.dot(self.sc)
         self.s = self.scaling.dot(self.ss)
         self.step_back()
-- 
2.43.0


From 5148df61c25c37dd2cf304da4aef0470258535d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 25/38] fix: solve subproblems with a small component along the
 lowest eigenvector

---
 fides/subproblem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 22f7a41..c09ed77 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -151,6 +151,13 @@ def solve_nd_trust_region_subproblem(
     # \phi(lam) = 1/||s(lam)|| - 1/delta
     # \phi'(lam) = - s(lam).T*ds(lam)/||s(lam)||^3
 
+    # values of lambda and eigenvalues that cannot be told apart
+    tol = (
+        len(w)
+        * np.spacing(1)
+        * max(np.max(np.abs(eigvals)), norm(w) / delta)
+    )
+
     # POSITIVE DEFINITE
     if mineig > 0:  # positive definite
         s = np.real(slam(0, w, eigvals, eigvecs))  # s = - self.cB\self.cg_hat
@@ -160,7 +167,8 @@ def solve_nd_trust_region_subproblem(
         else:
             laminit = 0
     else:
-        laminit = -mineig
+        # s(-mineig) is not defined, start right of the singularity
+        laminit = -mineig + tol
 
     # INDEFINITE CASE
     # note that this includes what Nocedal calls the "hard case" but with
@@ -211,7 +219,6 @@ def solve_nd_trust_region_subproblem(
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
     # eigenvalues that only differ from mineig by rounding are equal to mineig
-    tol = len(w) * np.spacing(1) * np.max(np.abs(eigvals))
     w[(eigvals - mineig) <= tol] = 0
     s = slam(-mineig, w, eigvals, eigvecs)
     # may exceed delta if we end up here due to ill-conditioning
-- 
2.43.0


From 7925efb5484ddd62a64b6da1eefe3fd0ba34d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 26/38] fix: copy the initial Hessian before the objective is
 evaluated

---
 fides/minimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index 6568bd6..b2e1f32 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -360,6 +360,9 @@ class Optimizer:
         """
         self._reset(start_id)
 
+        if isinstance(hess0, np.ndarray):
+            # may be modified while the initial point is evaluated
+            hess0 = hess0.copy()
         self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
-- 
2.43.0


From c897c4c568ae2434b9a487f3d72e405d00e1df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 27/38] fix: reset the trust-region ratio when a new run starts

---
 fides/minimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index b2e1f32..0ed52ed 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -309,6 +309,7 @@ class Optimizer:
         self.exitflag = ExitFlag.DID_NOT_RUN
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
+        self.tr_ratio = 1
         self.fval_min = np.inf
         self.logger = create_logger(self.verbose)
         if not start_id:
-- 
2.43.0


From fb57beb8039605503555cbee1ccea038647a10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 28/38] fix: rounding must not turn a step around

A reflected step starts at the breakpoint of the previous one, which may lie
beyond the boundary by rounding. The fraction of the step that can be taken
was then negative, up to arbitrarily large for short steps.
---
 fides/steps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index eec3a75..ca68bbc 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -191,6 +191,8 @@ class Step:
                     [
                         (self.ub[nonzero] - self.x[nonzero]) / self.s[nonzero],
                         (self.lb[nonzero] - self.x[nonzero]) / self.s[nonzero],
+                        # x may be beyond a boundary due to rounding
+                        np.zeros(np.sum(nonzero)),
                     ]
                 ),
                 axis=0,
-- 
2.43.0


From 6bd36a17b0a4c62a91c2aab5faecfa96bed7379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 29/38] fix: integer bounds truncated the bounds of the other
 side

get_affine_scaling copies the lower bounds and fills in upper ones: with an
integer array for the lower bounds, fractional upper bounds were rounded down
and the run stopped at the wrong point.
---
 fides/minimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 0ed52ed..34b05f5 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -255,8 +255,9 @@ class Optimizer:
                 f'function with argument resfun set to `True`.'
             )
 
-        self.lb: np.ndarray = np.array(lb)
-        self.ub: np.ndarray = np.array(ub)
+        # integer arrays would truncate whatever is derived from them
+        self.lb: np.ndarray = np.array(lb, dtype=float)
+        self.ub: np.ndarray = np.array(ub, dtype=float)
 
         if options is None:
             options = {}
-- 
2.43.0


From 6a4e18b4fad801e2fd91561c62a616b783d6d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 30/38] fix: integer gradients and Hessians truncated what is
 derived from them

The affine scaling takes over the type of the gradient, so that for an integer
gradient the distances to the bounds were rounded to integers.
---
 fides/minimize.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 34b05f5..bacd02c 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -65,7 +65,9 @@ class FunEvaluator:
             )
 
         # ... and may reuse the arrays it returns
-        ret = tuple(r.copy() if isinstance(r, np.ndarray) else r for r in ret)
+        ret = tuple(
+            _float_copy(r) if isinstance(r, np.ndarray) else r for r in ret
+        )
 
         if self.resfun:
             res, sres = ret
@@ -963,6 +965,14 @@ class Optimizer:
         return self.options.get(option, DEFAULT_OPTIONS.get(option))
 
 
+def _float_copy(a: np.ndarray) -> np.ndarray:
+    """
+    Copies an array and converts it to double precision, as whatever is derived
+    from integers would be truncated
+    """
+    return a.astype(float, order='C') if a.dtype.kind in 'biuf' else a.copy()
+
+
 def _min_max_evs(mat: np.ndarray):
     evs = np.linalg.eigvals(mat)
     return np.real(np.min(evs)), np.real(np.max(evs))
-- 
2.43.0


From 375e18ad45a6256da942be258f289cd8228f2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 31/38] fix: initial Hessian approximations with integer
 entries failed to update

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 4201060..57530fc 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -45,7 +45,7 @@ class HessianApproximation:
                     f'dimension, was {hess.shape[0]}, '
                     f'but should be {dim}.'
                 )
-            self._hess = hess.copy()
+            self._hess = hess.astype(float, order='C')
         self._diff = np.zeros_like(self._hess)
 
     def get_mat(self) -> np.ndarray:
-- 
2.43.0


From c401e68e7eec0efdf1fae82debbfd7421dac1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 32/38] fix: strategies that do not exist were accepted under
 plain option names

The choice was only validated when the key was a member of Options, so that
{'stepback_strategy': 'typo'} silently ran without any strategy.
---
 fides/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/constants.py b/fides/constants.py
index b5161be..9dce9f8 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -128,10 +128,10 @@ def validate_options(options: dict):
                 f'{option_key} is not a valid options field.'
             ) from None
 
-        if option_key is Options.SUBSPACE_DIM:
+        if option is Options.SUBSPACE_DIM:
             option_value = SubSpaceDim(option_value)
 
-        if option_key is Options.STEPBACK_STRAT:
+        if option is Options.STEPBACK_STRAT:
             option_value = StepBackStrategy(option_value)
 
         expected_type = expected_types[option]
-- 
2.43.0


From 0a9e627246e40b200858a8ac1bd53d91d1d5652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:24 +0000
Subject: [PATCH 33/38] fix: function values that are numpy integers wrapped
 around

The difference of two unsigned values is never negative, so that uphill steps
were accepted.
---
 fides/minimize.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index bacd02c..d5711f5 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -66,7 +66,10 @@ class FunEvaluator:
 
         # ... and may reuse the arrays it returns
         ret = tuple(
-            _float_copy(r) if isinstance(r, np.ndarray) else r for r in ret
+            _float_copy(r)
+            if isinstance(r, np.ndarray)
+            else _float_scalar(r)
+            for r in ret
         )
 
         if self.resfun:
@@ -973,6 +976,16 @@ def _float_copy(a: np.ndarray) -> np.ndarray:
     return a.astype(float, order='C') if a.dtype.kind in 'biuf' else a.copy()
 
 
+def _float_scalar(v):
+    """
+    Converts integers and numbers of another precision to double precision, as
+    differences of such numbers can wrap around or overflow
+    """
+    if isinstance(v, (int, np.integer, np.floating)):
+        return np.float64(v)
+    return v
+
+
 def _min_max_evs(mat: np.ndarray):
     evs = np.linalg.eigvals(mat)
     return np.real(np.min(evs)), np.real(np.max(evs))
-- 
2.43.0


From 9f99775f2de247b8417bf35f20a2b32d1418efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 34/38] fix: the trust-region radius inherited the precision of
 numpy options

np.int8 or np.float16 values of delta_init and gamma2 made it overflow.
---
 fides/minimize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index d5711f5..bbd654d 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -965,7 +965,11 @@ class Optimizer:
                 )
 
     def get_option(self, option):
-        return self.options.get(option, DEFAULT_OPTIONS.get(option))
+        value = self.options.get(option, DEFAULT_OPTIONS.get(option))
+        if isinstance(value, (np.integer, np.floating)):
+            # the trust region radius would inherit their precision
+            value = float(value)
+        return value
 
 
 def _float_copy(a: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 97db0a2f8b46fa03cbdf0c589ea9c1846d861c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 35/38] fix: tolerances for lambda scale with the eigenvalues
 of the subproblem

---
 fides/subproblem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index c09ed77..a4f15dd 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -176,12 +176,14 @@ def solve_nd_trust_region_subproblem(
     # the respective w should be close to 0 anyways
     if secular(laminit, w, eigvals, eigvecs, delta) < 0:
         maxiter = 100
+        # lambda scales with the eigenvalues, which may be tiny
+        lamtol = max(min(1e-12, tol), np.spacing(0.0))
         try:
             r = newton(
                 secular,
                 laminit,
                 dsecular,
-                tol=1e-12,
+                tol=lamtol,
                 maxiter=maxiter,
                 args=(w, eigvals, eigvecs, delta),
             )
@@ -204,7 +206,7 @@ def solve_nd_trust_region_subproblem(
                     secular,
                     xa,
                     xb,
-                    xtol=1e-12,
+                    xtol=lamtol,
                     maxiter=maxiter,
                     args=(w, eigvals, eigvecs, delta),
                 )
-- 
2.43.0


From 8e073b00d89062c57c69b1ce30a1d992a43bc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 36/38] fix: hard case of the subproblem steps downhill and
 ignores all eigenvalues lost in rounding

---
 fides/subproblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index a4f15dd..1c3d38a 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -221,7 +221,8 @@ def solve_nd_trust_region_subproblem(
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
     # eigenvalues that only differ from mineig by rounding are equal to mineig
-    w[(eigvals - mineig) <= tol] = 0
+    downhill = -1.0 if w[jmin] < 0 else 1.0
+    w[(eigvals - mineig) <= 10 * tol] = 0
     s = slam(-mineig, w, eigvals, eigvecs)
     # may exceed delta if we end up here due to ill-conditioning
     s *= min(1.0, delta / max(norm(s), np.spacing(0.0)))
@@ -229,7 +230,7 @@ def solve_nd_trust_region_subproblem(
     # orthonormal, we can just substract the difference in norm to get
     # the right length.
 
-    sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
+    sigma = downhill * np.sqrt(max(delta**2 - norm(s) ** 2, 0))
     s = s + sigma * eigvecs[:, jmin]
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
-- 
2.43.0


From f28b01e4b14ae049e62d11138aa36c00775644fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:50 +0000
Subject: [PATCH 37/38] fix: squares of radii above 1e154 raised an
 OverflowError

---
 fides/steps.py      |  3 ++-
 fides/subproblem.py | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index ca68bbc..b0a41f3 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -228,7 +228,8 @@ class Step:
             self.sc, _ = solve_nd_trust_region_subproblem(
                 self.chess,
                 self.cg,
-                np.sqrt(max(self.delta**2 - norm(self.ss0) ** 2, 0.0)),
+                self.delta
+                * np.sqrt(max(1.0 - (norm(self.ss0) / self.delta) ** 2, 0.0)),
                 self.logger,
             )
         else:
diff --git a/fides/subproblem.py b/fides/subproblem.py
index 1c3d38a..218bc6b 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -71,12 +71,14 @@ def solve_1d_trust_region_subproblem(
 
 
 def get_1d_trust_region_boundary_solution(b, g, s, s0, delta):
+    # in units of delta, whose square may overflow
+    u0 = s0 / delta
     a = np.dot(s, s)
-    b_coef = 2 * np.dot(s0, s)
-    c = np.dot(s0, s0) - delta**2
+    b_coef = 2 * np.dot(u0, s)
+    c = np.dot(u0, u0) - 1.0
 
     aux = b_coef + math.copysign(np.sqrt(b_coef**2 - 4 * a * c), b_coef)
-    ts = [-aux / (2 * a), -2 * c / aux]
+    ts = [-aux / (2 * a) * delta, -2 * c / aux * delta]
     qs = [quadratic_form(b, g, s0 + t * s) for t in ts]
     return ts[np.argmin(qs)]
 
@@ -230,7 +232,7 @@ def solve_nd_trust_region_subproblem(
     # orthonormal, we can just substract the difference in norm to get
     # the right length.
 
-    sigma = downhill * np.sqrt(max(delta**2 - norm(s) ** 2, 0))
+    sigma = downhill * delta * np.sqrt(max(1.0 - (norm(s) / delta) ** 2, 0.0))
     s = s + sigma * eigvecs[:, jmin]
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
-- 
2.43.0


From 934ec793a8716eccbe59a808a2e112855f43b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:50 +0000
Subject: [PATCH 38/38] fix: limit the growth of the trust-region radius on
 unbounded objectives

---
 fides/minimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index bbd654d..643c43f 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -595,6 +595,8 @@ class Optimizer:
             ):
                 # increase radius
                 self.delta = self.get_option(Options.GAMMA2) * self.delta
+                # no further than where squares of steps may overflow
+                self.delta = min(self.delta, max(self.delta_iter, 1e100))
                 self.iterations_since_tr_update = 0
             elif self.tr_ratio <= self.get_option(Options.MU):
                 # decrease radius
-- 
2.43.0

