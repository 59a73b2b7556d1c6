From 38d2ac0de11b54e836452e4666975c929bb2a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 01/16] fix: stage times of the explicit Runge-Kutta steppers
 (off-by-one left the last stage weight out)

---
 source/simulation/stepper/explicit_ssp_rk_stepper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
index f6b8872..f796085 100644
--- a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
+++ b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
@@ -260,10 +260,10 @@ void ESSPRKStepper::InitializeCoefficients() {
     // Compute the time dependent parameters
 
     for (uint i = 0; i < this->nstages; ++i) {
-        for (uint k = 0; k < i; ++k) {
+        for (uint k = 0; k <= i; ++k) {
             double casum = 0.;
-            for (uint l = k + 1; l < i; ++l) {
-                casum += this->crk.at(l).at(k) * this->ark.at(i).at(l);
+            for (uint l = k + 1; l <= i; ++l) {
+                casum += this->crk.at(l - 1).at(k) * this->ark.at(i).at(l);
             }
             this->crk.at(i).at(k) = this->brk.at(i).at(k) + casum;
         }
-- 
2.43.0


From fbb72c19510c134beee321465f83b5689515b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 02/16] fix: spherical projection factor of the exterior state
 in the LLF flux

---
 .../numerical_fluxes/rkdg_swe_LLF_flux.hpp                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
index 9b577c6..619e205 100644
--- a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
+++ b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
@@ -52,9 +52,9 @@ void LLF_flux(const double gravity,
     double uvh_ex = u_ex * q_ex[SWE::Variables::qy];
     double pe_ex  = gravity * (std::pow(q_ex[SWE::Variables::ze], 2) / 2 + q_ex[SWE::Variables::ze] * bath);
 
-    Fn_ex[SWE::Variables::ze] = q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
-    Fn_ex[SWE::Variables::qx] = (uuh_ex + pe_ex) * nx + uvh_ex * ny;
-    Fn_ex[SWE::Variables::qy] = uvh_ex * nx + (vvh_ex + pe_ex) * ny;
+    Fn_ex[SWE::Variables::ze] = sp * q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
+    Fn_ex[SWE::Variables::qx] = sp * (uuh_ex + pe_ex) * nx + uvh_ex * ny;
+    Fn_ex[SWE::Variables::qy] = sp * uvh_ex * nx + (vvh_ex + pe_ex) * ny;
 
     F_hat = 0.5 * (Fn_in + Fn_ex + max_eigenvalue * (q_in - q_ex));
 }
-- 
2.43.0


From 1911da47260617e933cd65af3ec11ac570a7f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 03/16] fix: LF stabilization evaluated with the gravity it is
 given

---
 .../SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp b/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
index abf025b..f3ae417 100644
--- a/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
+++ b/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
@@ -35,7 +35,7 @@ void get_tau_LF(double gravity,
     double nx = surface_normal[GlobalCoord::x];
     double ny = surface_normal[GlobalCoord::y];
 
-    double c  = std::sqrt(Global::g * h);
+    double c  = std::sqrt(gravity * h);
     double un = u * nx + v * ny;
 
     tau = (c + std::abs(un)) * IdentityMatrix<double>(3);
-- 
2.43.0


From 24276b72d19e43cfe54c1f097d92d854d589828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 04/16] fix: IHDG tide and flow phases are in degrees in the
 Newton residual too

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp                  | 4 ++--
 .../boundary_conditions/ihdg_swe_bc_tide.hpp                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index a6455f1..4f36ea7 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -156,8 +156,8 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
     for (uint con = 0; con < this->frequency.size(); ++con) {
         for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
             this->qn[gp] += stepper.GetRampNext() * this->forcing_fact[con] * this->amplitude_gp[con][gp] *
-                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() + this->equilib_arg[con] -
-                                this->phase_gp[con][gp]);
+                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
+                                (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 23c7fc5..89c7a82 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -153,7 +153,7 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
             this->q_ex(SWE::Variables::ze, gp) += stepper.GetRampNext() * this->forcing_fact[con] *
                                                   this->amplitude_gp[con][gp] *
                                                   cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
-                                                      this->equilib_arg[con] - this->phase_gp[con][gp]);
+                                                      (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
-- 
2.43.0


From 94c1e335b207c1a4e76b00dc6f5d3136c3601afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 05/16] fix: each thread resizes the states of its own
 sub-domains only in the GN preprocessor

---
 .../kernels_preprocessor/ehdg_gn_pre_ompi.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
index d4598a8..747d56d 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
@@ -254,7 +254,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
                         ? stepper.GetFirstStepper().GetNumStages()
                         : stepper.GetSecondStepper().GetNumStages();
 
-    for (uint su_id = 0; su_id < sim_units.size(); ++su_id) {
+    for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
         sim_units[su_id]->discretization.mesh.CallForEachElement(
             [n_stages](auto& elt) { elt.data.resize(n_stages + 1); });
     }
-- 
2.43.0


From 0d5d515521f1e10578b277224568a93b40b41f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 06/16] fix: a sub-domain without rank boundaries has nothing
 to communicate

---
 source/communication/ompi_communicator.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 4f0ba95..5d13ad3 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -19,6 +19,9 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
 }
 
 void OMPICommunicator::InitializeCommunication() {
+    if (this->rank_boundaries.empty())
+        return;
+
     uint ncomm   = this->rank_boundaries.begin()->send_buffer.size();
     uint nrbound = this->rank_boundaries.size();
 
@@ -59,18 +62,30 @@ void OMPICommunicator::InitializeCommunication() {
 }
 
 void OMPICommunicator::SendAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Startall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front());
 }
 
 void OMPICommunicator::ReceiveAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Startall(this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front());
 }
 
 void OMPICommunicator::WaitAllSends(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Waitall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
 
 void OMPICommunicator::WaitAllReceives(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Waitall(
         this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
\ No newline at end of file
-- 
2.43.0


From b47cf21fb3b5e458c42e758d90013cd0529f7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 07/16] fix: a rank without submeshes takes part in the GN
 solver set-up

---
 .../kernels_preprocessor/ehdg_gn_pre_ompi.hpp               | 6 +++++-
 .../kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
index 747d56d..14e3157 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
@@ -64,7 +64,11 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
         }
         MPI_Bcast(&n_dc_global_dofs, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
-        const uint n_global_dofs = (sim_units.front()->discretization.mesh.GetP() + 1) * GN::n_dimensions;
+        // a rank without submeshes learns the polynomial order from the others
+        uint p = sim_units.empty() ? 0 : sim_units.front()->discretization.mesh.GetP();
+        MPI_Allreduce(MPI_IN_PLACE, &p, 1, MPI_UNSIGNED, MPI_MAX, MPI_COMM_WORLD);
+
+        const uint n_global_dofs = (p + 1) * GN::n_dimensions;
         MatCreateBAIJ(MPI_COMM_WORLD,
                       n_global_dofs,
                       n_global_dofs * dc_global_dof_offset,
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index de2db49..af1db1c 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -472,7 +472,11 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
     }
     MPI_Bcast(&n_dc_global_dofs, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
-    const uint n_global_dofs = (sim_units.front()->discretization.mesh.GetP() + 1) * GN::n_dimensions;
+    // a rank without submeshes learns the polynomial order from the others
+    uint p = sim_units.empty() ? 0 : sim_units.front()->discretization.mesh.GetP();
+    MPI_Allreduce(MPI_IN_PLACE, &p, 1, MPI_UNSIGNED, MPI_MAX, MPI_COMM_WORLD);
+
+    const uint n_global_dofs = (p + 1) * GN::n_dimensions;
     MatCreateBAIJ(MPI_COMM_WORLD,
                   n_global_dofs,
                   n_global_dofs * dc_global_dof_offset,
-- 
2.43.0


From fc762e89a3415990a3130a44c259826fa5a1ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 08/16] fix: the trouble indicator measures inflow with the
 discharges, not the surface elevation

---
 .../SWE/problem_slope_limiter/swe_trouble_check.hpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
index 774b1ef..b9b9704 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
@@ -27,12 +27,12 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
                 row(boundary_ex.q_at_gp, SWE::Variables::ze) + row(boundary_ex.aux_at_gp, SWE::Auxiliaries::bath);
 
             const auto qn_in =
-                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::x), row(boundary_in.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::y), row(boundary_in.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::x), row(boundary_in.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::y), row(boundary_in.q_at_gp, SWE::Variables::qy));
 
             const auto qn_ex =
-                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::x), row(boundary_ex.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::y), row(boundary_ex.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::x), row(boundary_ex.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::y), row(boundary_ex.q_at_gp, SWE::Variables::qy));
 
             if (intface.IntegrationIN(qn_in) < 0.0) {
                 const uint ngp                              = intface.data_in.get_ngp_boundary(intface.bound_id_in);
@@ -66,8 +66,8 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
 
         if (dbound.data.wet_dry_state.wet) {
             const auto qn =
-                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::x), row(boundary.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::y), row(boundary.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::x), row(boundary.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::y), row(boundary.q_at_gp, SWE::Variables::qy));
 
             if (dbound.Integration(qn) < 0.0) {
                 const uint ngp                       = dbound.data.get_ngp_boundary(dbound.bound_id);
-- 
2.43.0


From 4b6335e3db904d24812ea8ccd0ac9fca522c6817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 09/16] fix: a dry cell sends its depths along a rank boundary,
 as its neighbor compares them

---
 .../problem_slope_limiter/swe_CS_slope_limiter.hpp  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp b/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
index 347a497..06e410d 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
@@ -58,15 +58,16 @@ void slope_limiting_distributed_boundary_send_kernel(const StepperType& stepper,
     std::vector<double> message(1 + SWE::n_variables + ngp);
     message[0] = (double)wd_state.wet;
     if (wd_state.wet) {
-        boundary.q_at_gp = dbound.ComputeUgp(state.q);
-        row(boundary.aux_at_gp, SWE::Auxiliaries::h) =
-            row(boundary.q_at_gp, SWE::Variables::ze) + row(boundary.aux_at_gp, SWE::Auxiliaries::bath);
         for (uint var = 0; var < SWE::n_variables; ++var) {
             message[1 + var] = sl_state.q_at_baryctr[var];
         }
-        for (uint gp = 0; gp < ngp; ++gp) {
-            message[1 + SWE::n_variables + gp] = boundary.aux_at_gp(SWE::Auxiliaries::h, gp);
-        }
+    }
+    // a wet neighbor compares its depth with ours whether we are wet or dry
+    boundary.q_at_gp = dbound.ComputeUgp(state.q);
+    row(boundary.aux_at_gp, SWE::Auxiliaries::h) =
+        row(boundary.q_at_gp, SWE::Variables::ze) + row(boundary.aux_at_gp, SWE::Auxiliaries::bath);
+    for (uint gp = 0; gp < ngp; ++gp) {
+        message[1 + SWE::n_variables + gp] = boundary.aux_at_gp(SWE::Auxiliaries::h, gp);
     }
     dbound.boundary_condition.exchanger.SetToSendBuffer(comm_type, message);
 }
-- 
2.43.0


From 43ba3be127f7462b7529ad440bc4573f30759c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 10/16] fix: the IHDG friction Jacobian is finite for water at
 rest

The derivative of the bottom friction stress divided by the flow speed, so the
Newton system of a cell at rest was NaN.
---
 .../kernels_processor/ihdg_swe_proc_source.hpp             | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index a999ba1..af66209 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -47,8 +47,11 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
                 }
             }
 
-            double bottom_friction_stress = Cf * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
-            double C                      = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            double speed = std::hypot(u, v);
+
+            double bottom_friction_stress = Cf * speed / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
+            // water at rest: the friction and its derivatives vanish
+            double C = speed > 0.0 ? Cf / (speed * internal.aux_at_gp(SWE::Auxiliaries::h, gp)) : 0.0;
 
             internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
                 -2.0 * bottom_friction_stress * u +
-- 
2.43.0


From 3a9802b875c379d5d8b0b521701576043374dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 11/16] fix: IHDG source Jacobian includes the derivative of
 the bed slope term

---
 .../kernels_processor/ihdg_swe_proc_source.hpp                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index af66209..ceee3f9 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -26,6 +26,10 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
 
     set_constant(internal.dsource_dq_at_gp, 0.0);
 
+    // compute contribution of hydrostatic pressure
+    row(internal.dsource_dq_at_gp, JacobianVariables::qx_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::x);
+    row(internal.dsource_dq_at_gp, JacobianVariables::qy_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::y);
+
     if (SWE::SourceTerms::bottom_friction) {
         double Cf      = SWE::SourceTerms::Cf;
         double dCf_dze = 0.0;
-- 
2.43.0


From b16e2c93c48d4fb86983b3a1d266c0603705d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 12/16] fix: GN back-substitution reads the solution only for
 wet elements

The number of an edge between dry elements is not assigned (it keeps the value
of an earlier numbering), so the segment of the solution taken for it could lie
outside the solved vector: an abort in a debug build, a read out of bounds
otherwise.
---
 .../ehdg_gn_proc_ompi_sol_glob_prob.hpp       | 26 ++++++++++++-------
 .../ehdg_gn_proc_serial_sol_glob_prob.hpp     | 14 ++++++----
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index af1db1c..fe26e1d 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -334,14 +334,18 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary_ex   = edge_int.interface.data_ex.boundary[edge_int.interface.bound_id_ex];
 
             const uint n_global_dofs = edge_int.edge_data.get_ndof() * GN::n_dimensions;
-            const auto w1_hat =
-                subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_int.interface.data_in.wet_dry_state.wet /*&&
-                edge_int.interface.data_in.source.dispersive_correction*/)
+                edge_int.interface.data_in.source.dispersive_correction*/) {
+                const auto w1_hat =
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
                 internal_in.w1_rhs -= boundary_in.w1_w1_hat * w1_hat;
+            }
             if (edge_int.interface.data_ex.wet_dry_state.wet /*&&
-                edge_int.interface.data_ex.source.dispersive_correction*/)
+                edge_int.interface.data_ex.source.dispersive_correction*/) {
+                const auto w1_hat =
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
                 internal_ex.w1_rhs -= boundary_ex.w1_w1_hat * w1_hat;
+            }
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeBoundary([&global_data](auto& edge_bound) {
@@ -350,11 +354,12 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
 
             const uint n_global_dofs = edge_bound.edge_data.get_ndof() * GN::n_dimensions;
-            const auto w1_hat =
-                subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_bound.boundary.data.wet_dry_state.wet /*&&
-                edge_bound.boundary.data.source.dispersive_correction*/)
+                edge_bound.boundary.data.source.dispersive_correction*/) {
+                const auto w1_hat =
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
                 internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+            }
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeDistributed([&global_data](auto& edge_dbound) {
@@ -363,11 +368,12 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary      = edge_dbound.boundary.data.boundary[edge_dbound.boundary.bound_id];
 
             const uint n_global_dofs = edge_dbound.edge_data.get_ndof() * GN::n_dimensions;
-            const auto w1_hat =
-                subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_dbound.boundary.data.wet_dry_state.wet /*&&
-                edge_dbound.boundary.data.source.dispersive_correction*/)
+                edge_dbound.boundary.data.source.dispersive_correction*/) {
+                const auto w1_hat =
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
                 internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+            }
         });
 
         sim_units[su_id]->discretization.mesh.CallForEachElement([&stepper](auto& elt) {
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
index dd220c1..d8d1d55 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
@@ -192,11 +192,14 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
         auto& boundary_ex   = edge_int.interface.data_ex.boundary[edge_int.interface.bound_id_ex];
 
         const uint n_global_dofs = edge_int.edge_data.get_ndof() * GN::n_dimensions;
-        const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
-        if (edge_int.interface.data_in.wet_dry_state.wet /*&& edge_int.interface.data_in.source.dispersive_correction*/)
+        if (edge_int.interface.data_in.wet_dry_state.wet /*&& edge_int.interface.data_in.source.dispersive_correction*/) {
+            const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
             internal_in.w1_rhs -= boundary_in.w1_w1_hat * w1_hat;
-        if (edge_int.interface.data_ex.wet_dry_state.wet /*&& edge_int.interface.data_ex.source.dispersive_correction*/)
+        }
+        if (edge_int.interface.data_ex.wet_dry_state.wet /*&& edge_int.interface.data_ex.source.dispersive_correction*/) {
+            const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
             internal_ex.w1_rhs -= boundary_ex.w1_w1_hat * w1_hat;
+        }
     });
 
     discretization.mesh_skeleton.CallForEachEdgeBoundary([&w1_hat_rhs](auto& edge_bound) {
@@ -205,9 +208,10 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
         auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
 
         const uint n_global_dofs = edge_bound.edge_data.get_ndof() * GN::n_dimensions;
-        const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
-        if (edge_bound.boundary.data.wet_dry_state.wet /*&& edge_bound.boundary.data.source.dispersive_correction*/)
+        if (edge_bound.boundary.data.wet_dry_state.wet /*&& edge_bound.boundary.data.source.dispersive_correction*/) {
+            const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
             internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+        }
     });
 
     discretization.mesh.CallForEachElement([&w1_hat_rhs, &stepper](auto& elt) {
-- 
2.43.0


From 7248c2e3c6dd29a646be072186619f46f9b717c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 13/16] fix: store the nodes of clockwise ADCIRC elements
 counterclockwise

The element shapes order their corners counterclockwise and number their sides
by that order; the edge dictionary used the order of the file, so the sides 0
and 2 of a clockwise element were linked to each other's neighbours.
---
 source/preprocessor/mesh_metadata.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 337a1dc..3350f6d 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -23,8 +23,17 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
         uint ID = elt.first;
         this->elements.insert({ID, ElementMetaData(3)});
 
+        std::vector<uint>& node_ID = this->elements.at(ID).node_ID;
         for (uint i = 0; i < 3; ++i) {
-            this->elements.at(ID).node_ID[i] = elt.second[i + 1];
+            node_ID[i] = elt.second[i + 1];
+        }
+
+        // element shapes list their nodes counterclockwise, side k is opposite to node k in that order
+        const Point<3>& A = this->nodes.at(node_ID[0]).coordinates;
+        const Point<3>& B = this->nodes.at(node_ID[1]).coordinates;
+        const Point<3>& C = this->nodes.at(node_ID[2]).coordinates;
+        if ((B[0] - A[0]) * (C[1] - A[1]) - (C[0] - A[0]) * (B[1] - A[1]) < 0.0) {
+            std::swap(node_ID[0], node_ID[2]);
         }
     }
 
@@ -33,7 +42,7 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
     std::unordered_map<std::uint64_t, std::pair<eltID_faceID, eltID_faceID>> edge_dictionary;
 
     for (const auto& elt : mesh_file.elements) {
-        std::vector<uint> node{elt.second[1], elt.second[2], elt.second[3]};
+        const std::vector<uint>& node = this->elements.at(elt.first).node_ID;
 
         for (uint k = 0; k < 3; ++k) {
             std::uint64_t curr_key = static_cast<std::uint64_t>(std::min(node[(k + 1) % 3], node[(k + 2) % 3])) << 32 |
@@ -66,8 +75,8 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
             uint elt_id  = edge.second.first.first;
             uint face_id = edge.second.first.second;
 
-            std::array<uint, 2> nodes{mesh_file.elements.at(elt_id)[(face_id + 1) % 3 + 1],
-                                      mesh_file.elements.at(elt_id)[(face_id + 2) % 3 + 1]};
+            const std::vector<uint>& node = this->elements.at(elt_id).node_ID;
+            std::array<uint, 2> nodes{node[(face_id + 1) % 3], node[(face_id + 2) % 3]};
 
             this->elements.at(elt_id).neighbor_ID[face_id]   = DEFAULT_ID;
             this->elements.at(elt_id).boundary_type[face_id] = mesh_file.get_ibtype(nodes);
-- 
2.43.0


From 348915306b66e637a1ed3ad03a9155b3d5df282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 14/16] fix: island boundaries of ADCIRC meshes are land

The reader accepts IBTYPE 1, 11 and 21, the lookup of boundary kinds did not
know them and aborted.
---
 source/preprocessor/ADCIRC_reader/adcirc_format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index 0f992dc..e4574cd 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -223,6 +223,13 @@ SWE::BoundaryTypes AdcircFormat::get_ibtype(std::array<uint, 2>& node_pair) cons
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::land;
             }
+        } else if (this->IBTYPE[segment_id] % 10 == 1) {  // island, its last node is connected to the first
+            auto& island = this->NBVV[segment_id];
+            if (has_edge(island.cbegin(), island.cend(), node_pair) ||
+                (node_pair[0] == island.back() && node_pair[1] == island.front()) ||
+                (node_pair[0] == island.front() && node_pair[1] == island.back())) {
+                return SWE::BoundaryTypes::land;
+            }
         } else if (this->IBTYPE[segment_id] % 10 == 2) {
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::flow;
-- 
2.43.0


From 10d7c17489ab44bbc7dba7ab13941248288170c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 15/16] fix: an ADCIRC mesh without generic boundaries has none

NGEN and NNGN stayed uninitialised, and writing the mesh looped over them.
---
 source/preprocessor/ADCIRC_reader/adcirc_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
index 6f2fc79..c706c39 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
@@ -28,8 +28,8 @@ struct AdcircFormat {
     std::map<uint, std::vector<double>> BARINCFSB;  // for internal barrier segment k
     std::map<uint, std::vector<double>> BARINCFSP;  // for internal barrier segment k
 
-    uint NGEN;  // number of generic boundaries
-    uint NNGN;  // total number of nodes for generic boundaries
+    uint NGEN = 0;  // number of generic boundaries
+    uint NNGN = 0;  // total number of nodes for generic boundaries
 
     std::vector<std::vector<uint>> NBGN;  // node numbers for a segment of generic boundary
 
-- 
2.43.0


From 6a4e260cd5954283cf7b077134297edef23fcae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 16/16] fix: forcing records are counted in time steps of the
 input, not of a split stepper

---
 .../problem/SWE/problem_parser/swe_parser.hpp  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 31b6b55..5a3e586 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -9,6 +9,7 @@ class Parser {
   private:
     bool parsing_input = false;
 
+    double dt;
     uint meteo_parse_frequency;
     std::string meteo_data_file;
     std::map<uint, std::map<uint, std::vector<double>>> node_meteo_data_step;
@@ -27,6 +28,12 @@ class Parser {
     void ParseInput(const StepperType& stepper, MeshType& mesh);
 
   private:
+    // data are given per time step of the input; a stepper of a split scheme takes several steps in one of these
+    template <typename StepperType>
+    uint GetInputStep(const StepperType& stepper) const {
+        return stepper.GetStep() / (uint)std::round(this->dt / stepper.GetDT());
+    }
+
     template <typename StepperType>
     void ParseMeteoInput(const StepperType& stepper);
     template <typename StepperType>
@@ -38,6 +45,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
     if (input.problem_input.meteo_forcing.type == MeteoForcingType::Enable) {
         this->parsing_input = true;
 
+        this->dt = input.stepper_input.dt;
         this->meteo_parse_frequency =
             (uint)std::ceil(input.problem_input.meteo_forcing.frequency / input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
@@ -51,7 +59,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input, const uin
 template <typename StepperType, typename MeshType>
 void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
     if (SWE::SourceTerms::meteo_forcing) {
-        if (stepper.GetStep() % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
+        if (this->GetInputStep(stepper) % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
             this->ParseMeteoInput(stepper);
         }
 
@@ -84,7 +92,7 @@ void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
 
 template <typename StepperType>
 void Parser::ParseMeteoInput(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetInputStep(stepper);
 
     if (this->node_meteo_data_step.find(step - this->meteo_parse_frequency) != this->node_meteo_data_step.end()) {
         this->node_meteo_data_step.erase(this->node_meteo_data_step.find(step - this->meteo_parse_frequency));
@@ -144,13 +152,13 @@ void Parser::ParseMeteoInput(const StepperType& stepper) {
 
 template <typename StepperType>
 void Parser::InterpolateMeteoData(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetInputStep(stepper);
 
     uint step_start = step - step % this->meteo_parse_frequency;
     uint step_end   = step_start + this->meteo_parse_frequency;
 
-    double t_start = step_start * stepper.GetDT();
-    double t_end   = step_end * stepper.GetDT();
+    double t_start = step_start * this->dt;
+    double t_end   = step_end * this->dt;
 
     double interp_factor = (stepper.GetTimeAtCurrentStage() - t_start) / (t_end - t_start);
 
-- 
2.43.0

