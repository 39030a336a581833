From 7f87c486fcb4864ac98973e7fd087506d846db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 01/18] fix: make FmpcSolver compile with dynamic inequality
 dimension

Identity() without size is only available for fixed-size matrices.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42503b1..0787fee 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -886,7 +886,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
       merit_func_const += const_func.template lpNorm<1>();
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity().eval(), delta_s);
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
     }
   }
 
-- 
2.43.0


From fb767437138cdae6b9bf8be777dbe60e56a48f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 02/18] fix: handle steps without inequality constraints in
 FMPC

minCoeff()/maxCoeff() of an empty vector is undefined and dividing by a zero
total inequality dimension made the barrier parameter NaN.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 0787fee..4a58f6a 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -379,15 +379,16 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   {
     // (19.19) in "Nocedal, Wright. Numerical optimization"
     double s_nu_ave = 0.0;
-    double s_nu_min = std::numeric_limits<double>::max();
     int total_ineq_dim = 0;
     for(int i = 0; i < config_.horizon_steps; i++)
     {
       s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
-      s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
       total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
     }
-    s_nu_ave /= total_ineq_dim;
+    if(total_ineq_dim > 0)
+    {
+      s_nu_ave /= total_ineq_dim;
+    }
 
     double sigma = 0.5;
     // The following equations follow (19.20) in "Nocedal, Wright. Numerical optimization" but does not work
@@ -909,7 +910,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());
 
-      if(i < config_.horizon_steps)
+      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
       {
         merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
       }
-- 
2.43.0


From 7f5ef544075ff7e3edfcf0dea40b854b70de3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:59 +0000
Subject: [PATCH 03/18] fix: initialize unused members of terminal FMPC
 coefficient

Fixed-size members were left uninitialized but read by containsNaN(), so a solve
could fail depending on what an earlier solve left in memory.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 27 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 4a58f6a..0634676 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -122,12 +122,27 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim,
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
 {
-  Lx.resize(state_dim);
-  Lxx.resize(state_dim, state_dim);
-  Lx_bar.resize(state_dim);
-
-  s.resize(state_dim);
-  P.resize(state_dim, state_dim);
+  // Members not used in the terminal step are also initialized because containsNaN() checks all members
+  A.setZero();
+  B.setZero();
+  C.setZero();
+  D.setZero();
+
+  Lx.setZero(state_dim);
+  Lu.setZero();
+  Lxx.setZero(state_dim, state_dim);
+  Luu.setZero();
+  Lxu.setZero();
+
+  x_bar.setZero();
+  g_bar.setZero();
+  Lx_bar.setZero(state_dim);
+  Lu_bar.setZero();
+
+  k.setZero();
+  K.setZero();
+  s.setZero(state_dim);
+  P.setZero(state_dim, state_dim);
 }
 
 template<int StateDim, int InputDim, int IneqDim>
-- 
2.43.0


From 327bba96dc128da830351e0a068a91d4c2549880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 04/18] fix: check size of FMPC initial variables before using
 them

With init_complementary_variable the sequences were indexed and passed to the
problem before their lengths and dimensions were checked.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h   |  5 ++++-
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 22 +++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
index e529562..b503bae 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
@@ -345,7 +345,10 @@ public:
   void dumpTraceDataList(const std::string & file_path) const;
 
 protected:
-  /** \brief Check optimization variables. */
+  /** \brief Check sequence length and input dimension of optimization variables. */
+  void checkVariableSize() const;
+
+  /** \brief Check complementarity variables of optimization variables. */
   void checkVariable() const;
 
   /** \brief Process one iteration.
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 0634676..4a5e576 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -183,6 +183,9 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   variable_ = initial_variable;
   variable_.print_level = config_.print_level;
 
+  // Check variable_ before accessing its elements
+  checkVariableSize();
+
   // Initialize complementarity variables
   if(config_.init_complementary_variable)
   {
@@ -202,7 +205,7 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
     }
   }
 
-  // Check variable_
+  // Check complementarity variables
   checkVariable();
 
   // Setup delta_variable_
@@ -297,7 +300,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::dumpTraceDataList(const std::strin
   }
 }
 template<int StateDim, int InputDim, int IneqDim>
-void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariableSize() const
 {
   // Check sequence length
   if(static_cast<int>(variable_.x_list.size()) != config_.horizon_steps + 1)
@@ -326,10 +329,10 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                 + std::to_string(variable_.nu_list.size()) + ".");
   }
 
-  // Check element dimension
-  for(int i = 0; i < config_.horizon_steps; i++)
+  // Check input dimension
+  if constexpr(InputDim == Eigen::Dynamic)
   {
-    if constexpr(InputDim == Eigen::Dynamic)
+    for(int i = 0; i < config_.horizon_steps; i++)
     {
       double t = current_t_ + i * problem_->dt();
       int input_dim = problem_->inputDim(t);
@@ -340,6 +343,15 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                  + ", time: " + std::to_string(t));
       }
     }
+  }
+}
+
+template<int StateDim, int InputDim, int IneqDim>
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+{
+  // Check inequality dimension
+  for(int i = 0; i < config_.horizon_steps; i++)
+  {
     if constexpr(IneqDim == Eigen::Dynamic)
     {
       double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From acab25fe0141f8f03e78558663800815e98d5788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 05/18] fix: impose input limits on initial guess and in
 forward pass of DDP

The feedback term and an infeasible initial guess could move inputs out of the
limits given by input_limits_func (as in the reference implementation, clamp them).
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a34bc82..bd1eec0 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -81,6 +81,14 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
 
   // Initialize state and cost sequence
   control_data_.u_list = initial_u_list;
+  if(config_.with_input_constraint)
+  {
+    for(int i = 0; i < config_.horizon_steps; i++)
+    {
+      const auto & u_limits = input_limits_func_(current_t_ + i * problem_->dt());
+      control_data_.u_list[i] = control_data_.u_list[i].cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
+    }
+  }
   control_data_.x_list.resize(config_.horizon_steps + 1);
   control_data_.cost_list.resize(config_.horizon_steps + 1);
   control_data_.x_list[0] = current_x;
@@ -541,14 +549,21 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
 
   for(int i = 0; i < config_.horizon_steps; i++)
   {
+    double t = current_t_ + i * problem_->dt();
+
     // Calculate input
     candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                         + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);
 
-    // \todo Impose constraints on input
+    // Impose constraints on input
+    if(config_.with_input_constraint)
+    {
+      const auto & u_limits = input_limits_func_(t);
+      candidate_control_data_.u_list[i] =
+          candidate_control_data_.u_list[i].cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
+    }
 
     // Calculate next state and cost
-    double t = current_t_ + i * problem_->dt();
     candidate_control_data_.x_list[i + 1] =
         problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
     candidate_control_data_.cost_list[i] =
-- 
2.43.0


From 2959d4b3962e540fb34d2414b91d00f477b0e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 06/18] fix: do not report success of DDP based on NaN or
 infinity

std::max() dropped NaN of the gains, so that a solve with NaN gains could terminate
successfully, and a trajectory with infinite cost update could be accepted.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.h   | 11 +++++++++++
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.h b/nmpc_ddp/include/nmpc_ddp/DDPSolver.h
index da59986..6bc074b 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.h
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.h
@@ -2,6 +2,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <functional>
 #include <memory>
@@ -112,6 +113,16 @@ public:
   /*! \brief Control data. */
   struct ControlData
   {
+    /** \brief Check whether NaN or infinity is contained.
+        \return whether NaN or infinity is contained
+     */
+    inline bool containsNaN() const
+    {
+      auto has_nan = [](const auto & vec) { return !vec.allFinite(); };
+      return std::any_of(x_list.begin(), x_list.end(), has_nan) || std::any_of(u_list.begin(), u_list.end(), has_nan)
+             || has_nan(cost_list);
+    }
+
     //! Sequence of state (x[0], ..., x[N-1], x[N])
     std::vector<StateDimVector> x_list;
 
diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index bd1eec0..a3cc905 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -145,7 +145,7 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
               << " [ms], optimization duration: " << computation_duration_.opt << " [ms]." << std::endl;
   }
 
-  return retval == 1;
+  return retval == 1 && !control_data_.containsNaN();
 }
 
 template<int StateDim, int InputDim>
@@ -265,7 +265,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
         }
         cost_update_ratio = (cost_update_actual >= 0 ? 1 : -1);
       }
-      if(cost_update_ratio > config_.cost_update_ratio_thre)
+      if(cost_update_ratio > config_.cost_update_ratio_thre && !candidate_control_data_.containsNaN())
       {
         forward_pass_success = true;
         break;
@@ -526,6 +526,16 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
 
     computation_duration_.gain += calcDuration(start_time_gain, std::chrono::system_clock::now());
 
+    // Check that gains are finite
+    if(!k.allFinite() || !K.allFinite())
+    {
+      if(config_.print_level >= 1)
+      {
+        std::cout << "[DDP/Backward] Gain contains NaN or infinity." << std::endl;
+      }
+      return false;
+    }
+
     // Update cost-to-go approximation
     dV_ += Eigen::Vector2d(k.dot(Qu), 0.5 * k.dot(Quu * k));
     Vx.noalias() = Qx + K.transpose() * Quu * k + K.transpose() * Qu + Qux.transpose() * k;
-- 
2.43.0


From e4830c73b00862f1beca5f6b416947a1ed789db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 07/18] fix: record cost and variables in trace data of the
 last iteration

The trace entry of an iteration that returns early (small gradient, failure in
backward pass, termination of BoxQP) had zero cost, regularization and variables.
---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h       | 4 ++--
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index 0b42fa5..a172aea 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -171,6 +171,8 @@ public:
       trace_data_list_.push_back(TraceData(var_dim_));
       auto & trace_data = trace_data_list_.back();
       trace_data.iter = iter;
+      trace_data.x = x;
+      trace_data.obj = obj;
 
       // Check relative improvement
       if(iter > 1 && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
@@ -317,8 +319,6 @@ public:
       }
 
       // Set trace data
-      trace_data.x = x;
-      trace_data.obj = obj;
       trace_data.search_dir = search_dir;
       trace_data.clamped_flag = clamped_flag;
       trace_data.factorization_num = factorization_num;
diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a3cc905..7ff3522 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -160,6 +160,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
   trace_data_list_.push_back(TraceData());
   auto & trace_data = trace_data_list_.back();
   trace_data.iter = iter;
+  trace_data.cost = control_data_.cost_list.sum();
+  trace_data.lambda = lambda_;
+  trace_data.dlambda = dlambda_;
 
   // Step 1: differentiate dynamics and cost along new trajectory
   {
@@ -208,6 +211,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
           std::cout << "[DDP/Backward] Failure due to large lambda. (time: " << current_t_ << ", iter: " << iter << ")"
                     << std::endl;
         }
+        trace_data.lambda = lambda_;
+        trace_data.dlambda = dlambda_;
         return -1; // Failure
       }
       if(config_.print_level >= 3)
@@ -215,6 +220,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
         std::cout << "[DDP/Backward] Increase lambda to " << lambda_ << std::endl;
       }
     }
+    trace_data.lambda = lambda_;
+    trace_data.dlambda = dlambda_;
 
     double duration_backward = calcDuration(start_time, std::chrono::system_clock::now());
     trace_data.duration_backward = duration_backward;
-- 
2.43.0


From 4ae4769ff10f090dfc929342825a4fc33e02568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 08/18] fix: print nothing in DDP with print level zero

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 7ff3522..6553e46 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -265,7 +265,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       cost_update_ratio = cost_update_actual / cost_update_expected;
       if(cost_update_expected < 0)
       {
-        if((!config_.with_input_constraint && config_.print_level >= 0)
+        if((!config_.with_input_constraint && config_.print_level >= 1)
            || (config_.with_input_constraint && config_.print_level >= 2))
         {
           std::cout << "[DDP/Forward] Value is not expected to decrease." << std::endl;
@@ -482,6 +482,7 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
         }
 
         BoxQP<Eigen::Dynamic> qp(static_cast<int>(Quu_F.cols()));
+        qp.config().print_level = std::min(config_.print_level, qp.config().print_level);
         const auto & u_limits = input_limits_func_(t);
         k = qp.solve(Quu_F, Qu, u_limits[0] - control_data_.u_list[i], u_limits[1] - control_data_.u_list[i],
                      initial_k);
-- 
2.43.0


From 14d481e6c1dd6e7694ee224edc9bc8bd32be0ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 09/18] fix: apply changed print level to all FMPC variables

delta_variable_ kept the print level of an earlier solve with the same horizon.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 4a5e576..2ea0069 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -212,8 +212,8 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(delta_variable_.horizon_steps != config_.horizon_steps)
   {
     delta_variable_ = Variable(config_.horizon_steps);
-    delta_variable_.print_level = config_.print_level;
   }
+  delta_variable_.print_level = config_.print_level;
 
   // Setup coeff_list_
   if constexpr(InputDim == Eigen::Dynamic || IneqDim == Eigen::Dynamic)
-- 
2.43.0


From a0c12f42bcd52d4d1cc6fa71ac97f1d43d6564a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 10/18] fix: do not access empty trace data when FMPC max_iter
 is zero

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 2ea0069..13a9cca 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -268,7 +268,7 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(config_.print_level >= 3)
   {
     std::cout << "[FMPC] Solve finised. status: " << static_cast<int>(status)
-              << ", iter: " << trace_data_list_.back().iter << std::endl;
+              << ", iter: " << (trace_data_list_.empty() ? 0 : trace_data_list_.back().iter) << std::endl;
   }
 
   return status;
-- 
2.43.0


From edbc08f22108d24e880665960ad044eb8f870394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 11/18] fix: calculate exact directional derivative of merit
 function in FMPC

The L1 norm is not additive over the blocks of the constraint Jacobian when a
constraint residual is exactly zero, where the derivative was overestimated and
the line search accepted steps that increase the merit function.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 13a9cca..69f020f 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -903,18 +903,16 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       StateDimVector const_func = problem_->stateEq(t, x, u) - next_x;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.A, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.B, delta_u);
-      merit_deriv_const +=
-          l1NormDirectionalDeriv(const_func, (-1 * StateStateDimMatrix::Identity()).eval(), delta_next_x);
+      StateDimVector const_dir = coeff.A * delta_x + coeff.B * delta_u - delta_next_x;
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, StateStateDimMatrix::Identity().eval(), const_dir);
     }
 
     {
       IneqDimVector const_func = problem_->ineqConst(t, x, u) + s;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
+      IneqDimVector const_dir = coeff.C * delta_x + coeff.D * delta_u + delta_s;
+      merit_deriv_const +=
+          l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), const_dir);
     }
   }
 
-- 
2.43.0


From fe1df008f62f946bf7c69abf20988e2927be092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 12/18] fix: allow DDPSolver.h and FmpcSolver.h in one
 translation unit

Both defined calcDuration in the global unnamed namespace.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp    | 6 ++----
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 6553e46..e78dae5 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -6,17 +6,15 @@
 
 #include <nmpc_ddp/BoxQP.h>
 
-namespace
+namespace nmpc_ddp
 {
+/** \brief Calculate duration [msec]. */
 template<class Clock>
 double calcDuration(const std::chrono::time_point<Clock> & start_time, const std::chrono::time_point<Clock> & end_time)
 {
   return 1e3 * std::chrono::duration_cast<std::chrono::duration<double>>(end_time - start_time).count();
 }
-} // namespace
 
-namespace nmpc_ddp
-{
 template<int StateDim, int InputDim>
 DDPSolver<StateDim, InputDim>::DDPSolver(const std::shared_ptr<DDPProblem<StateDim, InputDim>> & problem)
 : problem_(problem)
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 69f020f..e4317a1 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -17,17 +17,15 @@
     return true;                                                                                          \
   }
 
-namespace
+namespace nmpc_fmpc
 {
+/** \brief Calculate duration [msec]. */
 template<class Clock>
 double calcDuration(const std::chrono::time_point<Clock> & start_time, const std::chrono::time_point<Clock> & end_time)
 {
   return 1e3 * std::chrono::duration_cast<std::chrono::duration<double>>(end_time - start_time).count();
 }
-} // namespace
 
-namespace nmpc_fmpc
-{
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Variable::Variable(int _horizon_steps) : horizon_steps(_horizon_steps)
 {
-- 
2.43.0


From f3758c29531b70bf56bed7b4655bdb26c6e7223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 13/18] fix: include the standard headers used in BoxQP.h

---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index a172aea..dc1ca6a 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -2,6 +2,12 @@
 
 #pragma once
 
+#include <cmath>
+#include <iostream>
+#include <memory>
+#include <stdexcept>
+#include <string>
+#include <unordered_map>
 #include <vector>
 
 #include <Eigen/Dense>
-- 
2.43.0


From aa90ae24ccd24c1c4be52b23bd65d3cda60b8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:49 +0000
Subject: [PATCH 14/18] fix: do not report success of DDP based on infinite
 curvature

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index e78dae5..805a7ae 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -549,6 +549,16 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
     Vxx_symmetric = 0.5 * (Vxx + Vxx.transpose());
     Vxx = Vxx_symmetric;
 
+    // Check that cost-to-go is finite (infinite curvature results in finite gain)
+    if(!dV_.allFinite() || !Vx.allFinite() || !Vxx.allFinite())
+    {
+      if(config_.print_level >= 1)
+      {
+        std::cout << "[DDP/Backward] Cost-to-go contains NaN or infinity." << std::endl;
+      }
+      return false;
+    }
+
     // Save gains
     k_list_[i] = k;
     K_list_[i] = K;
-- 
2.43.0


From 51617fbd338d8640b272342af3844be05fff2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:56 +0000
Subject: [PATCH 15/18] fix: do not stop box QP before the minimum when
 variable approaches its limit

A variable that comes close to its limit without reaching it shortened every
following step, so that the small relative improvement (or rounding of the
objective difference) ended the optimization far from the minimum.
---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 42 +++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index dc1ca6a..b96d389 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -2,8 +2,10 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -169,6 +171,7 @@ public:
     VarDimVector grad = VarDimVector::Zero(var_dim_);
     VarDimArray clamped_flag = VarDimArray::Zero(var_dim_);
     VarDimArray old_clamped_flag = clamped_flag;
+    bool full_step = false;
     int iter = 1;
     free_idxs_.clear();
     for(;; iter++)
@@ -181,7 +184,8 @@ public:
       trace_data.obj = obj;
 
       // Check relative improvement
-      if(iter > 1 && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
+      // (improvement of shortened step can be small far from the minimum, e.g., when variable approaches its limit)
+      if(iter > 1 && full_step && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
       {
         retval_ = 4;
         break;
@@ -298,17 +302,34 @@ public:
         break;
       }
 
+      // Calculate step with which the first variable reaches its limit
+      double limit_step = std::numeric_limits<double>::infinity();
+      for(int i : free_idxs_)
+      {
+        double limit_dist = (search_dir[i] > 0 ? upper[i] : lower[i]) - x[i];
+        if(search_dir[i] != 0 && limit_dist != 0)
+        {
+          // Slightly enlarge the step so that the variable is clipped exactly to its limit
+          limit_step = std::min(limit_step, (1 + 1e-12) * limit_dist / search_dir[i]);
+        }
+      }
+
       // Armijo linesearch
       double step = 1;
       int step_num = 0;
       VarDimVector x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
-      double obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
-      while((obj_candidate - old_obj) / (step * search_dir_grad) < config_.armijo_param)
+      // Calculate objective update from variables update because difference of objective values is canceled by rounding
+      VarDimVector x_update = x_candidate - x;
+      double obj_update = x_update.dot(grad) + 0.5 * x_update.dot(H * x_update);
+      while(obj_update / (step * search_dir_grad) < config_.armijo_param)
       {
-        step = step * config_.step_factor;
+        // Do not skip limit_step because otherwise variable may approach its limit without reaching it
+        double next_step = step * config_.step_factor;
+        step = (next_step < limit_step && limit_step < step) ? limit_step : next_step;
         step_num++;
         x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
-        obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
+        x_update = x_candidate - x;
+        obj_update = x_update.dot(grad) + 0.5 * x_update.dot(H * x_update);
         if(step < config_.min_step)
         {
           retval_ = 2;
@@ -320,7 +341,7 @@ public:
       if(config_.print_level >= 3)
       {
         std::cout << "[BoxQP] iter: " << iter << ", obj: " << obj << ", grad_norm: " << grad_norm
-                  << ", obj_update, : " << old_obj - obj_candidate << ", step: " << step
+                  << ", obj_update, : " << -1 * obj_update << ", step: " << step
                   << ", clamped_flag_num: " << clamped_idxs.size() << std::endl;
       }
 
@@ -330,9 +351,16 @@ public:
       trace_data.factorization_num = factorization_num;
       trace_data.step_num = step_num;
 
+      // Check for linesearch failure
+      if(retval_ == 2)
+      {
+        break;
+      }
+
       // Accept candidate
       x = x_candidate;
-      obj = obj_candidate;
+      obj = x.dot(g) + 0.5 * x.dot(H * x);
+      full_step = (step_num == 0);
 
       // Check loop termination
       if(iter == config_.max_iter)
-- 
2.43.0


From fb2617124fa0894976e7e54353227856e27241e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:26 +0000
Subject: [PATCH 16/18] fix: stop GMRES when the Krylov space cannot be
 extended

---
 nmpc_cgmres/include/nmpc_cgmres/Gmres.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
index 2c908c3..692c92d 100644
--- a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
+++ b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
@@ -126,6 +126,8 @@ public:
             H_(j, k - 1) += h_tmp;
             new_basis -= h_tmp * basis_[j];
           }
+          new_basis_norm = new_basis.norm();
+          H_(k, k - 1) = new_basis_norm;
         }
       }
 
@@ -176,6 +178,12 @@ public:
       }
 
       err_list_.push_back(rho);
+
+      // Krylov space cannot be extended anymore because new basis contains only rounding errors
+      if(new_basis_norm <= 1e-14 * Avk.norm())
+      {
+        break;
+      }
     }
 
     if(make_triangular_)
-- 
2.43.0


From 2ac381a90c98a4f66a35a7b0c5f68beee7f7ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:33 +0000
Subject: [PATCH 17/18] fix: stop GMRES when the residual contains only
 rounding errors

---
 nmpc_cgmres/include/nmpc_cgmres/Gmres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
index 692c92d..974c63c 100644
--- a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
+++ b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
@@ -179,8 +179,8 @@ public:
 
       err_list_.push_back(rho);
 
-      // Krylov space cannot be extended anymore because new basis contains only rounding errors
-      if(new_basis_norm <= 1e-14 * Avk.norm())
+      // Krylov space cannot be extended anymore because new basis or residual contains only rounding errors
+      if(new_basis_norm <= 1e-14 * Avk.norm() || rho <= 1e-14 * err_list_.front())
       {
         break;
       }
-- 
2.43.0


From 5176994f84376c531bcc57999954b985633eed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:22 +0000
Subject: [PATCH 18/18] fix: DDP solve read freed memory when the initial state
 refers to the solver's own previous result

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 805a7ae..c88c128 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -32,6 +32,7 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
 
   // Initialize variables
   current_t_ = current_t;
+  const StateDimVector initial_x = current_x; // Copied because current_x may refer to an element of control_data_
   lambda_ = config_.initial_lambda;
   dlambda_ = config_.initial_dlambda;
 
@@ -89,7 +90,7 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
   }
   control_data_.x_list.resize(config_.horizon_steps + 1);
   control_data_.cost_list.resize(config_.horizon_steps + 1);
-  control_data_.x_list[0] = current_x;
+  control_data_.x_list[0] = initial_x;
   for(int i = 0; i < config_.horizon_steps; i++)
   {
     double t = current_t_ + i * problem_->dt();
-- 
2.43.0

