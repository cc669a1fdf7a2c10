From daec92bfd26dd5b2edb52bc66a3924a3848e4391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 01/29] fix: QP scaling of problems without constraints

---
 include/smooth/feedback/qp_solver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4f98562..1021301 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -726,7 +726,10 @@ protected:
       sx_.applyOnTheLeft(sx_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
       sy_.applyOnTheLeft(sy_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
     } while (iter++ < 10
-             && std::max((sx_inc_.array() - 1).abs().maxCoeff(), (sy_inc_.array() - 1).abs().maxCoeff()) > 0.1);
+             && std::max(
+                  (sx_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>(),
+                  (sy_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>())
+                 > 0.1);
   }
 
 private:
-- 
2.43.0


From a68c6a7128ab71f7a9362edc7c3481d1fe54d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 02/29] fix: use only the upper triangular part of the QP cost,
 as documented

---
 include/smooth/feedback/qp_solver.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 1021301..40ae105 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -544,7 +544,8 @@ public:
     sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
     sol_.primal    = sx_.cwiseProduct(sol_.primal);
     sol_.dual      = sy_.cwiseProduct(sol_.dual) / c_;
-    sol_.objective = sol_.primal.dot(0.5 * pbm.P * sol_.primal + pbm.q);
+    Px_.noalias()  = pbm.P.template selfadjointView<Eigen::Upper>() * sol_.primal;
+    sol_.objective = sol_.primal.dot(Scalar(0.5) * Px_ + pbm.q);
     sol_.iter      = iter;
 
     if (prm_.verbose) {
@@ -586,7 +587,7 @@ protected:
     Ax_ -= z_us_;
     if (norm(Ax_) <= prm_.eps_abs + prm_.eps_rel * std::max<Scalar>(Ax_norm, norm(z_us_))) {
       // primal succeeded, check dual
-      Px_.noalias()           = pbm.P * x_us_;
+      Px_.noalias()           = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
       Aty_.noalias()          = pbm.A.transpose() * y_us_;
       const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
       Px_ += pbm.q + Aty_;
@@ -624,7 +625,7 @@ protected:
 
     Ax_.noalias()        = pbm.A * dx_us_;  // note new value A * dx
     const Scalar dx_norm = norm(dx_us_);
-    Px_.noalias()        = pbm.P * dx_us_;
+    Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     bool dual_infeasible =
       (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
@@ -680,6 +681,8 @@ protected:
     // find "norm" of cost function
     for (auto i = 0u; i < pbm.P.outerSize(); ++i) {
       for (Eigen::InnerIterator it(pbm.P, i); it; ++it) {
+        if (it.row() > it.col()) { continue; }  // only upper triangular part is used
+        sx_inc_(it.row()) = std::max(sx_inc_(it.row()), std::fabs(it.value()));
         sx_inc_(it.col()) = std::max(sx_inc_(it.col()), std::fabs(it.value()));
       }
     }
@@ -701,10 +704,10 @@ protected:
       for (auto k = 0u; k < pbm.P.outerSize(); ++k) {
         for (Eigen::InnerIterator it(pbm.P, k); it; ++it) {
           // upper left block of H
-          sx_inc_(it.col()) = std::max({
-            sx_inc_(it.col()),
-            std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value()),
-          });
+          if (it.row() > it.col()) { continue; }  // only upper triangular part is used
+          const Scalar Pij  = std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value());
+          sx_inc_(it.row()) = std::max(sx_inc_(it.row()), Pij);
+          sx_inc_(it.col()) = std::max(sx_inc_(it.col()), Pij);
         }
       }
       for (auto k = 0u; k < pbm.A.outerSize(); ++k) {
-- 
2.43.0


From a0d1af655583bda21e12c8dcb5dc3cb90f3b5b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 03/29] fix: redo symbolic factorization when a QPSolver is
 re-analyzed

---
 include/smooth/feedback/qp_solver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 40ae105..ccbae3d 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -326,6 +326,9 @@ public:
     Aty_.resize(n);
     Ax_.resize(m);
 
+    // symbolic factorization of a previous problem is not valid
+    ldlt_.first = true;
+
     // preallocate nonzeros in H
     H_.setZero();
     H_.resize(k, k);
-- 
2.43.0


From d714b0fe134f7e8cae6ce88d92155b6a2c9fd72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 04/29] fix: check QP stopping criteria when stop_check_iter is
 1

---
 include/smooth/feedback/qp_solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index ccbae3d..262daf9 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -465,7 +465,7 @@ public:
         ldlt_.ldlt.solveInPlace(p_);
       }
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // termination checking requires difference, store old scaled values
         dx_us_ = sol_.primal, dy_us_ = sol_.dual;
       }
@@ -479,7 +479,7 @@ public:
                 - rho_.cwiseProduct(z_next_);
       std::swap(z_, z_next_);
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // unscale solution
         x_us_  = sx_.cwiseProduct(sol_.primal);
         y_us_  = sy_.cwiseProduct(sol_.dual) / c_;
-- 
2.43.0


From 874b7afbd352a20a0127f0b658910c213a0dd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 05/29] fix: QP dual infeasibility certificate for zero cost
 change and for free rows

---
 include/smooth/feedback/qp_solver.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 262daf9..cd207c1 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -631,15 +631,10 @@ protected:
     Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     bool dual_infeasible =
-      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
+      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
-      if (pbm.u(i) == inf) {
-        dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm);
-      } else if (pbm.l(i) == -inf) {
-        dual_infeasible &= (Ax_(i) <= prm_.eps_dual_inf * dx_norm);
-      } else {
-        dual_infeasible &= std::fabs(Ax_(i)) < prm_.eps_dual_inf * dx_norm;
-      }
+      if (pbm.l(i) != -inf) { dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm); }
+      if (pbm.u(i) != inf) { dual_infeasible &= (Ax_(i) <= prm_.eps_dual_inf * dx_norm); }
     }
 
     if (dual_infeasible) { return QPSolutionStatus::DualInfeasible; }
-- 
2.43.0


From 1a7415fecbc43aa7dcc5f8d2eb787d0b4b80f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 06/29] fix: warm starting a QPSolver from its own solution

---
 include/smooth/feedback/qp_solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index cd207c1..f1aecc7 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -437,10 +437,10 @@ public:
 
     // initialize solver variables
     if (warmstart.has_value()) {
-      // warmstart variables must be scaled
+      // warmstart variables must be scaled (z first since warmstart may refer to sol_)
+      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
       sol_.primal  = sx_.cwiseInverse().cwiseProduct(warmstart.value().get().primal);
       sol_.dual    = c_ * sy_.cwiseInverse().cwiseProduct(warmstart.value().get().dual);
-      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
     } else {
       sol_.primal.setZero();
       sol_.dual.setZero();
-- 
2.43.0


From 3cffa269507597598a5e4b5c15533c10db269e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 07/29] fix: QP polishing must not return a worse solution, and
 must report failure

---
 include/smooth/feedback/qp_solver.hpp | 33 +++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index f1aecc7..f114eb0 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -516,13 +516,30 @@ public:
 
     // polish solution if optimal
     if (ret_code.has_value() && ret_code.value() == QPSolutionStatus::Optimal && prm_.polish) {
-      if (detail::polish_qp(pbm, sol_, prm_, c_, sx_, sy_)) {
-        if (prm_.verbose) {
-          // unscale solution
-          x_us_ = sx_.cwiseProduct(sol_.primal);
-          y_us_ = sy_.cwiseProduct(sol_.dual) / c_;
-          z_us_ = sy_.cwiseInverse().cwiseProduct(z_);
+      const Rn unpolished_primal = sol_.primal;
+      const Rm unpolished_dual   = sol_.dual;
+
+      bool polished = detail::polish_qp(pbm, sol_, prm_, c_, sx_, sy_) && sol_.primal.allFinite() && sol_.dual.allFinite();
+
+      if (polished) {
+        // unscale solution
+        x_us_ = sx_.cwiseProduct(sol_.primal);
+        y_us_ = sy_.cwiseProduct(sol_.dual) / c_;
+
+        // project onto normal cone so that multipliers have correct sign
+        Ax_.noalias() = pbm.A * x_us_;
+        Ax_ += y_us_;
+        z_us_ = Ax_.cwiseMax(pbm.l).cwiseMin(pbm.u);
+        y_us_ = Ax_ - z_us_;
 
+        // wrong active set can move solution away from optimum
+        polished = check_stopping(pbm) == QPSolutionStatus::Optimal;
+      }
+
+      if (polished) {
+        sol_.dual = c_ * sy_.cwiseInverse().cwiseProduct(y_us_);
+
+        if (prm_.verbose) {
           using std::cout, std::setw, std::right, std::chrono::microseconds;
           // clang-format off
           cout << setw(8) << right << "polish:"
@@ -537,7 +554,9 @@ public:
 
       } else {
         if (prm_.verbose) { std::cout << "Polish failed" << '\n'; }
-        sol_.code = QPSolutionStatus::PolishFailed;
+        sol_.primal = unpolished_primal;
+        sol_.dual   = unpolished_dual;
+        ret_code    = QPSolutionStatus::PolishFailed;
       }
     }
 
-- 
2.43.0


From caa289f21ae732b38c80acdaa10513afeab8bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 08/29] fix: set_zero on a block of a compressed sparse matrix
 zeroed other coefficients

---
 include/smooth/feedback/utils/sparse.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/smooth/feedback/utils/sparse.hpp b/include/smooth/feedback/utils/sparse.hpp
index 11718e2..3900695 100644
--- a/include/smooth/feedback/utils/sparse.hpp
+++ b/include/smooth/feedback/utils/sparse.hpp
@@ -132,19 +132,14 @@ inline void block_write_identity(
  * @brief Zero a sparse matrix expression without changing allocation.
  *
  * @note Expression must be write-able.
- *
- * @note More efficient for compressed expressions.
  */
 template<typename SparseMat>
   requires(std::is_base_of_v<Eigen::SparseCompressedBase<std::decay_t<SparseMat>>, std::decay_t<SparseMat>>)
 inline void set_zero(SparseMat && mat)
 {
-  if (mat.isCompressed()) {
-    mat.coeffs().setZero();
-  } else {
-    for (auto i = 0; i < mat.outerSize(); ++i) {
-      for (typename std::decay_t<decltype(mat)>::InnerIterator it(mat, i); it; ++it) { it.valueRef() = 0; }
-    }
+  // note: coeffs() of a block expression starts at the first coefficient of the whole matrix
+  for (auto i = 0; i < mat.outerSize(); ++i) {
+    for (typename std::decay_t<decltype(mat)>::InnerIterator it(mat, i); it; ++it) { it.valueRef() = 0; }
   }
 }
 
-- 
2.43.0


From 22f378ed2540c6409e0421768321dc5b77744e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 09/29] fix: NLPs without Hessians can be solved with Ipopt

---
 include/smooth/feedback/compat/ipopt.hpp | 64 ++++++++++++------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7501e11..cde1d5e 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -184,47 +184,49 @@ public:
    * @brief IPOPT method to define problem Hessian
    */
   inline bool eval_h(
-    Ipopt::Index n,
-    const Ipopt::Number * x,
+    [[maybe_unused]] Ipopt::Index n,
+    [[maybe_unused]] const Ipopt::Number * x,
     [[maybe_unused]] bool new_x,
-    Ipopt::Number sigma,
-    Ipopt::Index m,
-    const Ipopt::Number * lambda,
+    [[maybe_unused]] Ipopt::Number sigma,
+    [[maybe_unused]] Ipopt::Index m,
+    [[maybe_unused]] const Ipopt::Number * lambda,
     [[maybe_unused]] bool new_lambda,
     [[maybe_unused]] Ipopt::Index nele_hess,
-    Ipopt::Index * iRow,
-    Ipopt::Index * jCol,
-    Ipopt::Number * values) override
+    [[maybe_unused]] Ipopt::Index * iRow,
+    [[maybe_unused]] Ipopt::Index * jCol,
+    [[maybe_unused]] Ipopt::Number * values) override
   {
-    assert(use_hessian_);
-    assert(HessianNLP<Problem>);
-    assert(H_.isCompressed());
-    assert(H_.nonZeros() == nele_hess);
+    if constexpr (HessianNLP<Problem>) {
+      assert(use_hessian_);
+      assert(H_.isCompressed());
+      assert(H_.nonZeros() == nele_hess);
+
+      H_.coeffs().setZero();
+
+      if (values == NULL) {
+        for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
+          for (Eigen::InnerIterator it(H_, od); it; ++it) {
+            // transpose: H upper triangular but ipopt expects lower-triangular
+            iRow[cntr]   = it.col();
+            jCol[cntr++] = it.row();
+          }
+        }
+      } else {
+        Eigen::Map<const Eigen::VectorXd> xvar(x, n);
+        Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
 
-    H_.coeffs().setZero();
+        H_ += nlp_.d2f_dx2(xvar);
+        H_ *= sigma;
+        H_ += nlp_.d2g_dx2(xvar, lvar);
 
-    if (values == NULL) {
-      for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
-        for (Eigen::InnerIterator it(H_, od); it; ++it) {
-          // transpose: H upper triangular but ipopt expects lower-triangular
-          iRow[cntr]   = it.col();
-          jCol[cntr++] = it.row();
+        for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
+          for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
         }
       }
+      return true;
     } else {
-      Eigen::Map<const Eigen::VectorXd> xvar(x, n);
-      Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
-
-      H_ += nlp_.d2f_dx2(xvar);
-      H_ *= sigma;
-      H_ += nlp_.d2g_dx2(xvar, lvar);
-
-      for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
-        for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
-      }
+      return false;
     }
-
-    return true;
   }
 
   /**
-- 
2.43.0


From 24bbdaa5f3978f7ea41c09ede33c6e92f9ced6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 10/29] fix: use a limited-memory Hessian in Ipopt when exact
 Hessian is not requested

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index cde1d5e..12b5c16 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -328,6 +328,9 @@ inline NLPSolution solve_nlp_ipopt(
     ipopt_nlp->sol().x.setZero(n);
   }
 
+  // Ipopt default is exact Hessian, which must not be requested when Hessian is not used
+  if (!use_hessian) { app->Options()->SetStringValue("hessian_approximation", "limited-memory"); }
+
   // override with user-provided options
   for (auto [opt, val] : opts_integer) { app->Options()->SetIntegerValue(opt, val); }
   for (auto [opt, val] : opts_string) { app->Options()->SetStringValue(opt, val); }
-- 
2.43.0


From 057ba9e0d8ef7e167475c2df9e73bd0cd1ba87b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 11/29] fix: Ipopt solution without solver data when all
 variables are fixed

---
 include/smooth/feedback/compat/ipopt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 12b5c16..c966f42 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -269,7 +269,7 @@ public:
       break;
     }
 
-    sol_.iter = ip_data->iter_count();
+    sol_.iter = ip_data ? ip_data->iter_count() : 0;  // no data if all variables are fixed
 
     sol_.x      = Eigen::Map<const Eigen::VectorXd>(x, n);
     sol_.zl     = Eigen::Map<const Eigen::VectorXd>(z_L, n);
-- 
2.43.0


From e752bede0a0870d3c794e3ced3eb6a7a3eb8d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 12/29] fix: NLP solution status when Ipopt does not run

---
 include/smooth/feedback/compat/ipopt.hpp | 3 ++-
 include/smooth/feedback/nlp.hpp          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index c966f42..01456a8 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -321,7 +321,8 @@ inline NLPSolution solve_nlp_ipopt(
   if (warmstart.has_value()) {
     // initial guess is given
     app->Options()->SetStringValue("warm_start_init_point", "yes");
-    ipopt_nlp->sol() = warmstart.value();
+    ipopt_nlp->sol()        = warmstart.value();
+    ipopt_nlp->sol().status = NLPSolution::Status::Unknown;
   } else {
     // initial guess not given, set to zero
     app->Options()->SetStringValue("warm_start_init_point", "no");
diff --git a/include/smooth/feedback/nlp.hpp b/include/smooth/feedback/nlp.hpp
index df25eb2..3d81827 100644
--- a/include/smooth/feedback/nlp.hpp
+++ b/include/smooth/feedback/nlp.hpp
@@ -79,7 +79,7 @@ struct NLPSolution
   };
 
   /// @brief Solver status
-  Status status;
+  Status status{Status::Unknown};
 
   /// @brief Number of iterations
   std::size_t iter{0};
-- 
2.43.0


From b8597048ab26e93c37ae5db8aef22b14f65adbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 13/29] fix: stray #endif in osqp compatibility header

---
 include/smooth/feedback/compat/osqp.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 596b0e5..cfeab61 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -149,5 +149,3 @@ QPSolution<-1, -1, double> solve_qp_osqp(
 }
 
 }  // namespace smooth::feedback
-
-#endif  // SMOOTH__FEEDBACK__COMPAT__OSQP_HPP_
-- 
2.43.0


From 23bd6ce5f9b26df781357ed77a26e1da3254ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 14/29] fix: OSQP bridge must not use the workspace when setup
 fails, nor ignore solver errors

---
 include/smooth/feedback/compat/osqp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index cfeab61..fffd2de 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -89,21 +89,21 @@ QPSolution<-1, -1, double> solve_qp_osqp(
   data->l         = const_cast<double *>(pbm.l.data());
   data->u         = const_cast<double *>(pbm.u.data());
 
-  OSQPWorkspace * work;
+  OSQPWorkspace * work = nullptr;
 
   QPSolution<-1, -1, double> ret;
   ret.code = QPSolutionStatus::Unknown;
 
   c_int error = osqp_setup(&work, data, settings);
 
-  if (warmstart) {
+  if (!error && warmstart) {
     osqp_warm_start(work, warmstart.value().get().primal.data(), warmstart.value().get().dual.data());
     settings->warm_start = 1;
   } else {
     settings->warm_start = 0;
   }
 
-  if (!error) { error &= osqp_solve(work); }
+  if (!error) { error = osqp_solve(work); }
 
   if (!error) {
     switch (work->info->status_val) {
-- 
2.43.0


From 4c45eea3294cb6ccefbd071fbfcb09d5ffdbb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 15/29] fix: splitting a mesh interval must set the degree of
 its first part to Kmin

---
 include/smooth/feedback/collocation/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index f8c9f09..0316020 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -153,6 +153,8 @@ public:
       const double tauf = i + 1 < intervals_.size() ? intervals_[i + 1].tau0 : 1.;
       const double taum = (tauf - tau0) / static_cast<double>(n);
 
+      intervals_[i].K = Kmin;
+
       while (n-- > 1) {
         intervals_.insert(
           std::next(intervals_.begin(), static_cast<intptr_t>(i + 1)),
-- 
2.43.0


From d7a08b10c9be59ff75599a6b1738c2103cf987c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 16/29] fix: mesh error refinement with intervals of degree one
 or infinite errors

---
 include/smooth/feedback/collocation/mesh.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 0316020..a75a01e 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -7,6 +7,7 @@
  * @brief Refinable Legendre-Gauss-Radau mesh of time interval [0, 1]
  */
 
+#include <limits>
 #include <ranges>
 #include <span>
 #include <vector>
@@ -184,7 +185,10 @@ public:
       const auto Ki = N_colloc_ival(i);
 
       if (e > target_err) {
-        const auto Ktarget = Ki + std::lround(std::log(e / target_err) / std::log(Ki) + 1);
+        // keep the logarithms finite for unbounded errors and for intervals of degree one
+        const double ratio = std::min<double>(e / target_err, std::numeric_limits<double>::max());
+        const double base  = static_cast<double>(std::max<std::size_t>(Ki, 2));
+        const auto Ktarget = Ki + std::lround(std::log(ratio) / std::log(base) + 1);
         refine_ph(i, Ktarget);
       }
     }
-- 
2.43.0


From 54645bd7be2a539d67c293f83a07a6082e4ce527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 17/29] fix: Mesh::eval derivatives did not account for the
 interval length

---
 include/smooth/feedback/collocation/mesh.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index a75a01e..929b2aa 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -7,6 +7,7 @@
  * @brief Refinable Legendre-Gauss-Radau mesh of time interval [0, 1]
  */
 
+#include <cmath>
 #include <limits>
 #include <ranges>
 #include <span>
@@ -432,7 +433,7 @@ public:
    *
    * @param t time value in [0, 1]
    * @param r values for the collocation points (size N [extend=false] or N+1 [extend=true])
-   * @param p derivative to evaluate
+   * @param p derivative (w.r.t. t) to evaluate
    * @param extend set to true if a value is provided for t=+1
    */
   template<smooth::RnType RetT>
@@ -473,7 +474,8 @@ public:
       }
     });
 
-    return ret;
+    // derivatives above are w.r.t. u
+    return ret * std::pow(2. / (tauf - tau0), static_cast<double>(p));
   }
 
 private:
-- 
2.43.0


From 338f18b1a84713d10365ba917f63d4e5946a252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 18/29] fix: NLP Hessians lost the second derivatives w.r.t.
 integrals and endpoint states

---
 include/smooth/feedback/ocp_to_nlp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_nlp.hpp b/include/smooth/feedback/ocp_to_nlp.hpp
index ab4c4d8..717fdb0 100644
--- a/include/smooth/feedback/ocp_to_nlp.hpp
+++ b/include/smooth/feedback/ocp_to_nlp.hpp
@@ -236,10 +236,10 @@ public:
 
     block_add(d2f_dx2_, x0var_B, x0var_B, d2fval.block(         1,          1, Nx, Nx), 1, true);  // x0x0
     block_add(d2f_dx2_, x0var_B, xfvar_B, d2fval.block(         1,     1 + Nx, Nx, Nx), 1, true);  // x0xf
-    block_add(d2f_dx2_, x0var_B,  qvar_B, d2fval.block(         1, 1 + 2 * Nx, Nx, Nq), 1, true);  // x0q
+    block_add(d2f_dx2_,  qvar_B, x0var_B, d2fval.block(1 + 2 * Nx,          1, Nq, Nx), 1, true);  // qx0
 
     block_add(d2f_dx2_, xfvar_B, xfvar_B, d2fval.block(    1 + Nx,     1 + Nx, Nx, Nx), 1, true);  // xfxf
-    block_add(d2f_dx2_, xfvar_B,  qvar_B, d2fval.block(    1 + Nx, 1 + 2 * Nx, Nx, Nq), 1, true);  // xfq
+    block_add(d2f_dx2_,  qvar_B, xfvar_B, d2fval.block(1 + 2 * Nx,     1 + Nx, Nq, Nx), 1, true);  // qxf
 
     block_add(d2f_dx2_,  qvar_B,  qvar_B, d2fval.block(1 + 2 * Nx, 1 + 2 * Nx, Nq, Nq), 1, true);  // qq
     // clang-format on
@@ -402,10 +402,10 @@ public:
 
       block_add(d2g_dx2_, x0var_B, x0var_B, d2ceval.block(         1, b0 +          1, Nx, Nx), lambda(cecon_B + j), true);  // x0x0
       block_add(d2g_dx2_, x0var_B, xfvar_B, d2ceval.block(         1, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // x0xf
-      block_add(d2g_dx2_, x0var_B,  qvar_B, d2ceval.block(         1, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // x0q
+      block_add(d2g_dx2_,  qvar_B, x0var_B, d2ceval.block(1 + 2 * Nx, b0 +          1, Nq, Nx), lambda(cecon_B + j), true);  // qx0
 
       block_add(d2g_dx2_, xfvar_B, xfvar_B, d2ceval.block(    1 + Nx, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // xfxf
-      block_add(d2g_dx2_, xfvar_B,  qvar_B, d2ceval.block(    1 + Nx, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // xfq
+      block_add(d2g_dx2_,  qvar_B, xfvar_B, d2ceval.block(1 + 2 * Nx, b0 +     1 + Nx, Nq, Nx), lambda(cecon_B + j), true);  // qxf
 
       block_add(d2g_dx2_,  qvar_B,  qvar_B, d2ceval.block(1 + 2 * Nx, b0 + 1 + 2 * Nx, Nq, Nq), lambda(cecon_B + j), true);  // qq
       // clang-format on
-- 
2.43.0


From dd06f152f31621eef264ff455df4010bd6a1f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 19/29] fix: ocp_to_qp halved the Hessian of the end point cost

---
 include/smooth/feedback/ocp_to_qp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index 0e8b223..a0bd66d 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -186,9 +186,9 @@ void ocp_to_qp_update_cost(
   //// ENDPOINT COST ////
   ///////////////////////
 
-  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 0.5, true);                      // d2q / dx0x0
-  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 0.5, true);            // d2q / dx0xf
-  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 0.5, true);  // d2q / dxfxf
+  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 1, true);                      // d2q / dx0x0
+  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 1, true);            // d2q / dx0xf
+  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 1, true);  // d2q / dxfxf
 
   qp.q.segment(0, Nx) += qo_x0;       // dq / dx0
   qp.q.segment(Nx * N, Nx) += qo_xf;  // dq / dxf
-- 
2.43.0


From a569167e08a7ca72dd5c44d3366e0531572fdf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 20/29] fix: qpsol_to_ocpsol swapped the number of running and
 end constraints

---
 include/smooth/feedback/ocp_to_qp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index a0bd66d..d2c4cd0 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -490,7 +490,7 @@ auto qpsol_to_ocpsol(
     return rplus(ul_fun(t), tngnt);
   };
 
-  return OCPSolution<X, U, Nq, Nce, Ncr>{
+  return OCPSolution<X, U, Nq, Ncr, Nce>{
     .t0 = 0.,
     .tf = tf,
     .u  = std::move(ufun),
-- 
2.43.0


From 1b2631cd3b29a646abcb125ceed81e8f18ef82b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 21/29] fix: MPC input weights were selected by the sparsity of
 the state weights

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 1a9a19b..76c4592 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -218,7 +218,7 @@ struct MPCIntegrand
     }
     for (auto i = 0u; i < Nu; ++i) {
       for (auto j = 0u; j < Nu; ++j) {
-        if (Q(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
+        if (R(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
       }
     }
 
-- 
2.43.0


From ea0730fe2d7e90d2028827cce324ac3dc979ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 22/29] fix: MPC terminal weight was applied to the initial
 state

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 76c4592..baf8ed9 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -109,7 +109,7 @@ struct MPCObj
 
     for (auto i = 0u; i < Nx; ++i) {
       for (auto j = 0u; j < Nx; ++j) {
-        if (Qtf(i, j) != 0) { hess.coeffRef(1 + i, 1 + j) = Qtf(i, j); }
+        if (Qtf(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = Qtf(i, j); }
       }
     }
 
-- 
2.43.0


From 9862bcdb5861cb9bf7556a4d893e4b92d628adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 23/29] fix: MPC running constraints must follow the
 linearization point

---
 include/smooth/feedback/mpc.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index baf8ed9..d8e83f4 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -479,10 +479,8 @@ public:
 
     // transcribe to QP
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    if constexpr (requires(CR & crvar, T tvar) { crvar.set_time(tvar); }) {
-      // only update if running constraints are time-dependent
-      ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    }
+    // constraints must be updated even if they are not time-dependent since the linearization point changes
+    ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
-- 
2.43.0


From 638dac4c89ddb0ba2ff822b41df2432159654ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 24/29] fix: MPC::set_weights had no effect

---
 include/smooth/feedback/mpc.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index d8e83f4..34a1fa4 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -478,12 +478,20 @@ public:
     ocp_.ce.x0_fix    = x;
 
     // transcribe to QP
+    if (new_weights_) {
+      ocp_to_qp_update_cost<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
+    }
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     // constraints must be updated even if they are not time-dependent since the linearization point changes
     ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
+    if (new_weights_) {
+      // sparsity of the cost may have changed
+      qp_solver_.analyze(qp_);
+      new_weights_ = false;
+    }
 
     // solve QP
     const auto & sol = qp_solver_.solve(qp_, warmstart_);
@@ -593,6 +601,7 @@ public:
     ocp_.g.R       = weights.R;
     ocp_.g.Q       = weights.Q;
     ocp_.theta.Qtf = weights.Qtf;
+    new_weights_   = true;
   }
 
   /**
@@ -622,6 +631,9 @@ private:
   // parameters
   MPCParams prm_{};
 
+  // set when weights have changed since the cost was transcribed
+  bool new_weights_{false};
+
   // internal allocation
   detail::OcpToQpWorkmemory work_;
   QuadraticProgramSparse<double> qp_;
-- 
2.43.0


From 9f6de1c1290f3ad38850c6c3a41c7d06f5f9bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 25/29] fix: copies of an MPC shared its desired trajectories

---
 include/smooth/feedback/mpc.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 34a1fa4..7b21773 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -434,12 +434,20 @@ public:
   {}
   /// @brief Default constructor
   inline MPC() = default;
-  /// @brief Default copy constructor
-  inline MPC(const MPC &) = default;
+  /// @brief Copy constructor (desired trajectories are not shared with the copy)
+  inline MPC(const MPC & o)
+      : xdes_{o.xdes_ ? std::make_shared<detail::XDes<T, X>>(*o.xdes_) : nullptr},
+        udes_{o.udes_ ? std::make_shared<detail::UDes<T, U>>(*o.udes_) : nullptr}, mesh_{o.mesh_}, ocp_{o.ocp_},
+        prm_{o.prm_}, new_weights_{o.new_weights_}, work_{o.work_}, qp_{o.qp_}, qp_solver_{o.qp_solver_},
+        warmstart_{o.warmstart_}
+  {
+    ocp_.g.xdes = xdes_;
+    ocp_.g.udes = udes_;
+  }
   /// @brief Default move constructor
   inline MPC(MPC &&) = default;
-  /// @brief Default copy assignment
-  inline MPC & operator=(const MPC &) = default;
+  /// @brief Copy assignment (desired trajectories are not shared with the copy)
+  inline MPC & operator=(const MPC & o) { return *this = MPC(o); }
   /// @brief Default move assignment
   inline MPC & operator=(MPC &&) = default;
   /// @brief Default destructor
-- 
2.43.0


From daf1b194ebe9e91945707c484af1a1ce3806e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 26/29] fix: MPC could not be used with an explicit
 differentiation method

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 7b21773..b9df0cf 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -419,7 +419,7 @@ public:
         },
         prm_{std::move(prm)}, qp_solver_{prm_.qp}
   {
-    detail::ocp_to_qp_allocate<DT>(qp_, work_, ocp_, mesh_);
+    detail::ocp_to_qp_allocate<diff::Type::Analytic>(qp_, work_, ocp_, mesh_);
     ocp_to_qp_update<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_solver_.analyze(qp_);
   }
-- 
2.43.0


From 0fefd28cc3f0af83ee04e0aa44ae48ca52ddfdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 27/29] fix: ASIF constraint instants overshot when the step
 did not divide the spacing

The length of the last integration step before a constraint instant was
only computed once per instant, so that instants were late by up to one
step whenever dt does not divide T / K (also by rounding, as with the
default parameters).
---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 9362474..74c9cbf 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -171,8 +171,8 @@ void asif_to_qp_update(
     qp.u.template segment<nh>(k * nh).setConstant(std::numeric_limits<double>::infinity());
 
     // integrate system and sensitivity forward until next constraint
-    double dt_act = std::min(dt, tau * (k + 1) - t);
     while (t < tau * (k + 1)) {
+      const double dt_act = std::min(dt, tau * (k + 1) - t);
       state_stepper.do_step(x_ode, x, t, dt_act);
       sensi_stepper.do_step(dx_dx0_ode, dx_dx0, t, dt_act);
       t += dt_act;
-- 
2.43.0


From 0719f44a06b0716f5f39399016aef4dd00da9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 28/29] fix: asif_to_qp ignored the requested differentiation
 method

---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 74c9cbf..268e087 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -254,7 +254,7 @@ asif_to_qp(const ASIFProblem<X, U> & pbm, const ASIFtoQPParams & prm, auto && f,
   const int nu_ineq = pbm.ulim.A.rows();
   QuadraticProgram<-1, -1, double> qp;
   asif_to_qp_allocate<X, U>(qp, prm.K, nu_ineq, nh);
-  asif_to_qp_update(
+  asif_to_qp_update<X, U, DT>(
     qp, pbm, prm, std::forward<decltype(f)>(f), std::forward<decltype(h)>(h), std::forward<decltype(bu)>(bu));
   return qp;
 }
-- 
2.43.0


From 295c4d473f481567237b3ea0358c40ab3cec923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 29/29] fix: test_ocp_derivatives accepted derivatives
 containing NaN

---
 include/smooth/feedback/ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp.hpp b/include/smooth/feedback/ocp.hpp
index b9e3c19..45f4bb1 100644
--- a/include/smooth/feedback/ocp.hpp
+++ b/include/smooth/feedback/ocp.hpp
@@ -201,7 +201,7 @@ bool test_ocp_derivatives(OCPType auto & ocp, uint32_t num_trials = 1, double ep
       && (m1.rows() == m2.rows())
       && (
           m1.isApprox(m2, 1e-4) ||
-          Eigen::MatrixXd(m1 - m2).cwiseAbs().maxCoeff() < eps
+          (Eigen::MatrixXd(m1 - m2).cwiseAbs().array() < eps).all()
       )
       // clang-format on
     );
-- 
2.43.0

