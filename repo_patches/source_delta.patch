From b0571ed42c1838d75fb28249e73da88ae5745f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:53 +0000
Subject: [PATCH 01/36] fix: do not let the first time step overshoot
 milestones or the final time

---
 festim/generic_simulation.py | 9 +++++++++
 festim/stepsize.py           | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb556f..ea701b8 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -475,6 +475,10 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
+        # the first step must not overshoot a milestone or the final time
+        self.dt.limit_to_next_milestone(self.t)
+        self.limit_stepsize_to_final_time()
+
         #  Time-stepping
         festim.festim_print("Time stepping...")
         while self.t < self.settings.final_time and not np.isclose(
@@ -517,6 +521,11 @@ class Simulation:
         self.run_post_processing()
 
         # avoid t > final_time
+        self.limit_stepsize_to_final_time()
+
+    def limit_stepsize_to_final_time(self):
+        """Shortens the stepsize if the next step would go beyond the final
+        time"""
         next_time = self.t + float(self.dt.value)
         if next_time > self.settings.final_time:
             self.dt.value.assign(self.settings.final_time - self.t)
diff --git a/festim/stepsize.py b/festim/stepsize.py
index f601069..7aeaaa7 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -114,6 +114,15 @@ class Stepsize:
                     self.value.assign(max_stepsize)
 
         # adapt for next milestone
+        self.limit_to_next_milestone(t)
+
+    def limit_to_next_milestone(self, t):
+        """Shortens the stepsize if the next step would overshoot the next
+        milestone.
+
+        Args:
+            t (float): current time.
+        """
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
             if t + float(self.value) > next_milestone and not np.isclose(
-- 
2.43.0


From 9e3ee05d7fe13946ebe2433cdfe59cee7e11bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:11 +0000
Subject: [PATCH 02/36] fix: a milestone reached within round-off no longer
 hides the next one

---
 festim/stepsize.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 7aeaaa7..2f078a6 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -125,9 +125,7 @@ class Stepsize:
         """
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
-            if t + float(self.value) > next_milestone and not np.isclose(
-                t, next_milestone, atol=0
-            ):
+            if t + float(self.value) > next_milestone:
                 self.value.assign((next_milestone - t))
 
     def next_milestone(self, current_time: float):
@@ -143,6 +141,9 @@ class Stepsize:
         if self.milestones is None:
             return None
         for milestone in self.milestones:
-            if current_time < milestone:
+            # a milestone reached within round-off is already passed
+            if current_time < milestone and not np.isclose(
+                current_time, milestone, atol=0
+            ):
                 return milestone
         return None
-- 
2.43.0


From 6e078b77a1bd39e5e6deab2ed88d1df8ea5bb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 03/36] fix: reduce the stepsize exactly once when the solver
 diverges

The convergence-based change was applied on top of the reduction: with fewer
than five iterations it cancelled the reduction and the same step was
attempted forever.
---
 festim/stepsize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 2f078a6..177e6d3 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -102,7 +102,7 @@ class Stepsize:
                 self.value.assign(float(self.value) / change_ratio)
                 if float(self.value) < dt_min:
                     raise ValueError("stepsize reached minimal value")
-            if nb_it < 5:
+            elif nb_it < 5:
                 self.value.assign(float(self.value) * change_ratio)
             else:
                 self.value.assign(float(self.value) / change_ratio)
-- 
2.43.0


From 7e6e779374d62c8361805e1c6dac0c32d692dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:00 +0000
Subject: [PATCH 04/36] fix: raise an error when the solver diverges with a
 fixed stepsize

The same step was attempted forever.
---
 festim/h_transport_problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 24cc3f5..4402966 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -339,6 +339,8 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
+            if not converged and dt.adaptive_stepsize is None:
+                raise ValueError("Solver diverged but the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
 
-- 
2.43.0


From 7ed72d971c2005d9be1714455ec9eec34a2b4ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:40 +0000
Subject: [PATCH 05/36] fix: keep the previous temperature until the hydrogen
 step is solved

HeatTransferProblem replaced the previous temperature right after its own
solve, so the hydrogen problem saw the same temperature twice and lost or
created hydrogen when the solubility depends on temperature. The temperature
was also zero before the first step.
---
 festim/temperature/temperature_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index c520463..7792e72 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -125,6 +125,8 @@ class HeatTransferProblem(festim.Temperature):
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
                 self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
                 self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+            # before the first step, the temperature is the initial one
+            self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
@@ -260,6 +262,8 @@ class HeatTransferProblem(festim.Temperature):
             t (float): the time
         """
         if self.transient:
+            # T_n is the temperature at the previous step until the next update
+            self.T_n.assign(self.T)
             festim.update_expressions(self.sub_expressions, t)
             # Solve heat transfers
             dT = f.TrialFunction(self.T.function_space())
@@ -272,7 +276,5 @@ class HeatTransferProblem(festim.Temperature):
             self.newton_solver.solve(problem, self.T.vector())
             f.end()
 
-            self.T_n.assign(self.T)
-
     def is_steady_state(self):
         return not self.transient
-- 
2.43.0


From 6695e4ef69173206cfc08d8536aef24ccd5de131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 06/36] fix: leave the initial temperature untouched so a heat
 transfer problem can be initialised again

---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 7792e72..67283d8 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -123,8 +123,8 @@ class HeatTransferProblem(festim.Temperature):
                         )
             else:
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
-                self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
-                self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+                T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
+                self.T_n.assign(f.interpolate(T_ini, V))
             # before the first step, the temperature is the initial one
             self.T.assign(self.T_n)
 
-- 
2.43.0


From e5da1df6fb68a79b98563566409e56f7b945e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:41 +0000
Subject: [PATCH 07/36] fix: advance the time by the stepsize actually solved
 after a divergence

The time had already been advanced by the rejected stepsize: the solution,
the temperature and the time-dependent inputs belonged to different times.
---
 festim/generic_simulation.py  |  3 ++-
 festim/h_transport_problem.py | 28 ++++++++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index ea701b8..9b134e8 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -512,7 +512,8 @@ class Simulation:
         # update temperature
         self.T.update(self.t)
         # update H problem
-        self.h_transport_problem.update(self.t, self.dt)
+        # the time reached is earlier if the stepsize had to be reduced
+        self.t = self.h_transport_problem.update(self.t, self.dt)
 
         # Display time
         self.display_time()
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 4402966..7921a04 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -325,24 +325,38 @@ class HTransportProblem:
         self.J = derivative(self.F, self.u, du)
 
     def update(self, t, dt):
-        """Updates the H transport problem.
+        """Updates the H transport problem. If the solver diverges, the step is
+        attempted again with a smaller stepsize.
 
         Args:
             t (float): the current time (s)
             dt (festim.Stepsize): the stepsize
+
+        Returns:
+            float: the time of the solution (s), earlier than t if the stepsize
+                had to be reduced
         """
         festim.update_expressions(self.expressions, t)
 
-        converged = False
+        t_previous = t - float(dt.value)
         u_ = Function(self.u.function_space())
         u_.assign(self.u)
+        nb_it, converged = self.solve_once()
         while converged is False:
+            if dt.adaptive_stepsize is None:
+                raise ValueError("Solver diverged but the stepsize is not adaptive.")
+            dt.adapt(t_previous, nb_it, converged)
+
+            # go back to the previous step and attempt a shorter one
+            t = t_previous + float(dt.value)
+            self.T.T.assign(self.T.T_n)
+            self.T.update(t)
+            festim.update_expressions(self.expressions, t)
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
-            if not converged and dt.adaptive_stepsize is None:
-                raise ValueError("Solver diverged but the stepsize is not adaptive.")
-            if dt.adaptive_stepsize is not None or dt.milestones is not None:
-                dt.adapt(t, nb_it, converged)
+
+        if dt.adaptive_stepsize is not None or dt.milestones is not None:
+            dt.adapt(t, nb_it, converged)
 
         # Update previous solutions
         self.update_previous_solutions()
@@ -350,6 +364,8 @@ class HTransportProblem:
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
 
+        return t
+
     def solve_once(self):
         """Solves non linear problem
 
-- 
2.43.0


From 01f632718dedfba175b6fbe25f7243fabf46f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:57 +0000
Subject: [PATCH 08/36] fix: integrate extrinsic trap densities with the
 stepsize of the current step

The stepsize was adapted for the next step before the densities were solved.
---
 festim/h_transport_problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 7921a04..82ce579 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -355,15 +355,16 @@ class HTransportProblem:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
 
-        if dt.adaptive_stepsize is not None or dt.milestones is not None:
-            dt.adapt(t, nb_it, converged)
-
         # Update previous solutions
         self.update_previous_solutions()
 
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
 
+        # set the next stepsize once everything is solved with the current one
+        if dt.adaptive_stepsize is not None or dt.milestones is not None:
+            dt.adapt(t, nb_it, converged)
+
         return t
 
     def solve_once(self):
-- 
2.43.0


From b522016bb24497647ac84d57ef720a0be76482b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:34 +0000
Subject: [PATCH 09/36] fix: update the time-dependent parameters of extrinsic
 and neutron-induced traps

---
 festim/concentration/traps/extrinsic_trap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/traps/extrinsic_trap.py b/festim/concentration/traps/extrinsic_trap.py
index 8eeef4d..ea8813f 100644
--- a/festim/concentration/traps/extrinsic_trap.py
+++ b/festim/concentration/traps/extrinsic_trap.py
@@ -1,5 +1,5 @@
 from festim import Trap, as_constant_or_expression, festim_print
-from fenics import NewtonSolver, MPI
+from fenics import Expression, NewtonSolver, MPI, UserExpression
 
 
 class ExtrinsicTrapBase(Trap):
@@ -51,7 +51,11 @@ class ExtrinsicTrapBase(Trap):
 
         self.newton_solver = None
         for name, val in kwargs.items():
-            setattr(self, name, as_constant_or_expression(val))
+            parameter = as_constant_or_expression(val)
+            setattr(self, name, parameter)
+            # time-dependent parameters are updated at each step
+            if isinstance(parameter, (Expression, UserExpression)):
+                self.sub_expressions.append(parameter)
         self.density_previous_solution = None
         self.density_test_function = None
 
-- 
2.43.0


From 483d353734fe9f873a3e8a4a257161cf464e9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:40 +0000
Subject: [PATCH 10/36] fix: start the exports afresh when a simulation is
 initialised again

The iteration counter, the final time and the XDMF files of the previous run
were kept.
---
 festim/exports/exports.py    | 11 +++++++++++
 festim/generic_simulation.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 989a4ae..6bf17e3 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -43,6 +43,17 @@ class Exports(list):
             return value
         raise TypeError("festim.Exports must be a list of festim.Export")
 
+    def reset(self):
+        """Forgets the previous run so that the exports can be used again"""
+        self.t = None
+        self.final_time = None
+        self.nb_iterations = 0
+        for export in self:
+            if isinstance(export, festim.XDMFExport):
+                # start the file afresh
+                export.define_xdmf_file()
+                export.append = False
+
     def write(self, label_to_function, dx):
         """writes to file
 
diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 9b134e8..272f2d8 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -362,6 +362,7 @@ class Simulation:
 
         self.V_DG1 = FunctionSpace(self.mesh.mesh, "DG", 1)
         self.exports.V_DG1 = self.V_DG1
+        self.exports.reset()
 
         # Define temperature
         if isinstance(self.T, festim.HeatTransferProblem):
-- 
2.43.0


From 70fe1f4489ac34212cc52adc5a278fa9d8aae7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:59 +0000
Subject: [PATCH 11/36] fix: export to a file in the current directory

---
 festim/exports/derived_quantities/derived_quantities.py | 2 +-
 festim/exports/txt_export.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index dec5644..42eec15 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -147,7 +147,7 @@ class DerivedQuantities(list):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 6137b8b..283fa79 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -201,7 +201,7 @@ class TXTExport(festim.Export):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # if steady, add the corresponding label
-- 
2.43.0


From 98042dfd751aca3e866a1b73649567e580c06859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:16 +0000
Subject: [PATCH 12/36] fix: XDMFExport with mode 'last' in steady state

---
 festim/exports/xdmf_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 14383fa..582effc 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -152,8 +152,9 @@ class XDMFExport(Export):
         Returns:
             bool: True if export should be exported, else False
         """
-        if self.mode == "last" and np.isclose(t, final_time, atol=0):
-            return True
+        if self.mode == "last":
+            # in steady state, the only solution is the last one
+            return final_time is None or bool(np.isclose(t, final_time, atol=0))
         elif isinstance(self.mode, int):
             if nb_iterations % self.mode == 0:
                 return True
-- 
2.43.0


From aed6e92856c719bec0a92e90a8ae21ccf0968d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:37 +0000
Subject: [PATCH 13/36] fix: CustomDirichlet with conservation of chemical
 potential

---
 festim/boundary_conditions/dirichlets/custom_dc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/custom_dc.py b/festim/boundary_conditions/dirichlets/custom_dc.py
index fa84daf..5481c60 100644
--- a/festim/boundary_conditions/dirichlets/custom_dc.py
+++ b/festim/boundary_conditions/dirichlets/custom_dc.py
@@ -39,7 +39,7 @@ class CustomDirichlet(DirichletBC):
             **self.prms,
         )
         self.expression = value_BC
-        self.sub_expressions = self.prms.values()
+        self.sub_expressions = list(self.prms.values())
 
     def convert_prms(self):
         """Creates Expressions or Constant for all parameters"""
-- 
2.43.0


From 1927ad74716f64ad0cf9f15711c7b4f1d6c63b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:55 +0000
Subject: [PATCH 14/36] fix: do not ignore flux boundary conditions with field
 '0'

---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 82ce579..2e96183 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -298,7 +298,7 @@ class HTransportProblem:
         and its field is 0, and assign fluxes to self.mobile
         """
         for bc in self.boundary_conditions:
-            if isinstance(bc, festim.FluxBC) and bc.field == 0:
+            if isinstance(bc, festim.FluxBC) and bc.field in [0, "0"]:
                 self.mobile.boundary_conditions.append(bc)
 
     def create_dirichlet_bcs(self, materials, mesh):
-- 
2.43.0


From de5652715ca9561c8cfc5be0ef73b2f717569488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:29 +0000
Subject: [PATCH 15/36] fix: DirichletBC with the field given as a string and
 traps

---
 festim/boundary_conditions/dirichlets/dirichlet_bc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/dirichlet_bc.py b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
index 3bc72c5..7e971ff 100644
--- a/festim/boundary_conditions/dirichlets/dirichlet_bc.py
+++ b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
@@ -86,7 +86,7 @@ class DirichletBC(BoundaryCondition):
         if V.num_sub_spaces() == 0:
             funspace = V
         else:  # if only one field, use subspace
-            funspace = V.sub(self.field)
+            funspace = V.sub(int(self.field))
         for surface in self.surfaces:
             bci = f.DirichletBC(funspace, self.expression, surface_markers, surface)
             self.dirichlet_bc.append(bci)
-- 
2.43.0


From 7bebfaac7f124c22c459c5d0c6253ea9e4114c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:09 +0000
Subject: [PATCH 16/36] fix: traps, sources and chemical potential in materials
 made of several subdomains

---
 festim/concentration/mobile.py      |  4 ++--
 festim/concentration/theta.py       | 10 +++++-----
 festim/concentration/traps/trap.py  | 11 +++++++----
 festim/exports/trap_density_xdmf.py |  2 +-
 festim/materials/material.py        |  7 +++++++
 festim/materials/materials.py       |  4 ++--
 6 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index af57b0d..ca648ff 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -162,14 +162,14 @@ class Mobile(Concentration):
                         * c_m
                         * (density - trap.solution)
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(mat.subdomains)
                     )
                     F_trapping += (
                         p_0
                         * exp(-E_p / k_B / T.T)
                         * trap.solution
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(mat.subdomains)
                     )
         F += -F_trapping
 
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 51fb816..63fdc36 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -32,11 +32,11 @@ class Theta(Mobile):
         F = 0
         for mat in self.materials:
             S = mat.S_0 * f.exp(-mat.E_S / k_B / self.T.T)
-            F += -prev_sol * v * dx(mat.id)
+            F += -prev_sol * v * dx(mat.subdomains)
             if mat.solubility_law == "sievert":
-                F += comp / S * v * dx(mat.id)
+                F += comp / S * v * dx(mat.subdomains)
             elif mat.solubility_law == "henry":
-                F += (comp / S) ** 0.5 * v * dx(mat.id)
+                F += (comp / S) ** 0.5 * v * dx(mat.subdomains)
         f.solve(F == 0, prev_sol, bcs=[])
 
         f.assign(self.previous_solution, prev_sol)
@@ -113,10 +113,10 @@ class Theta(Mobile):
         for mat in materials:
             if mat.solubility_law == "sievert":
                 # for sievert materials c = theta * S
-                F += self.solution * self.S * v * dx(mat.id)
+                F += self.solution * self.S * v * dx(mat.subdomains)
             elif mat.solubility_law == "henry":
                 # for henry materials c = theta**2 * S
-                F += self.solution**2 * self.S * v * dx(mat.id)
+                F += self.solution**2 * self.S * v * dx(mat.subdomains)
 
         self.form_post_processing = F
         self.post_processing_solution = f.Function(V)
diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 1fef133..09839d9 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -152,7 +152,7 @@ class Trap(Concentration):
             # add c_t = 0 to the form in this subdomain
             for mat in materials:
                 if mat not in self.materials:
-                    F_trapping += solution * test_function * dx(mat.id)
+                    F_trapping += solution * test_function * dx(mat.subdomains)
 
         for i, mat in enumerate(self.materials):
             if type(self.k_0) is list:
@@ -186,10 +186,10 @@ class Trap(Concentration):
                 * c_0
                 * (density - solution)
                 * test_function
-                * dx(mat.id)
+                * dx(mat.subdomains)
             )
             F_trapping += (
-                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(mat.id)
+                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(mat.subdomains)
             )
 
         self.F_trapping = F_trapping
@@ -205,7 +205,10 @@ class Trap(Concentration):
         for source in self.sources:
             if isinstance(source, RadioactiveDecay):
                 source.value = source.form(self.solution)
-            self.F_source = -source.value * self.test_function * dx(source.volume)
+            volumes = source.volume
+            if isinstance(volumes, list):
+                volumes = tuple(volumes)  # as accepted by fenics.Measure
+            self.F_source = -source.value * self.test_function * dx(volumes)
             self.F += self.F_source
             if isinstance(source.value, (Expression, UserExpression)):
                 self.sub_expressions.append(source.value)
diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 2da2463..7113ebf 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -29,7 +29,7 @@ class TrapDensityXDMF(XDMFExport):
         F = f.inner(u, v) * dx
 
         for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.id)
+            F -= f.inner(self.trap.density[0], v) * dx(mat.subdomains)
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
diff --git a/festim/materials/material.py b/festim/materials/material.py
index 247af5a..bf8b61f 100644
--- a/festim/materials/material.py
+++ b/festim/materials/material.py
@@ -70,6 +70,13 @@ class Material:
         self.solubility_law = solubility_law
         self.check_properties()
 
+    @property
+    def subdomains(self):
+        """The id(s) of the material's subdomains as accepted by fenics.Measure"""
+        if isinstance(self.id, list):
+            return tuple(self.id)
+        return self.id
+
     def check_properties(self):
         """Checks that if S_0 is None E_S is not None and reverse.
 
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c88c7be..2a8b958 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -299,8 +299,8 @@ class Materials(list):
         dx = mesh.dx
         F = 0
         for mat in self:
-            F += -S * vS * dx(mat.id)
-            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.id)
+            F += -S * vS * dx(mat.subdomains)
+            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.subdomains)
         f.solve(F == 0, S, bcs=[])
 
         self.S = S
-- 
2.43.0


From 77ca07626f60ecd2f823e9dea1da173ff7816eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:26 +0000
Subject: [PATCH 17/36] fix: export the density of each material of a
 conglomerate trap

---
 festim/exports/trap_density_xdmf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 7113ebf..c92dabe 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -28,8 +28,13 @@ class TrapDensityXDMF(XDMFExport):
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
-        for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.subdomains)
+        for i, mat in enumerate(self.trap.materials):
+            # a conglomerate of traps has one density per material
+            if len(self.trap.density) > 1:
+                density = self.trap.density[i]
+            else:
+                density = self.trap.density[0]
+            F -= f.inner(density, v) * dx(mat.subdomains)
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
-- 
2.43.0


From 52fa71d3dd8ef24a0016d5a28b5927273ee907df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:44 +0000
Subject: [PATCH 18/36] fix: do not share the default lists between simulations

---
 festim/generic_simulation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 272f2d8..1a41c39 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -78,13 +78,13 @@ class Simulation:
         self,
         mesh=None,
         materials=None,
-        sources=[],
-        boundary_conditions=[],
+        sources=None,
+        boundary_conditions=None,
         traps=None,
         dt=None,
         settings=None,
         temperature=None,
-        initial_conditions=[],
+        initial_conditions=None,
         exports=None,
         log_level=40,
     ):
@@ -96,12 +96,17 @@ class Simulation:
         self.traps = traps
         self.materials = materials
 
-        self.boundary_conditions = boundary_conditions
-        self.initial_conditions = initial_conditions
+        # each simulation has its own lists
+        self.boundary_conditions = (
+            [] if boundary_conditions is None else boundary_conditions
+        )
+        self.initial_conditions = (
+            [] if initial_conditions is None else initial_conditions
+        )
         self.T = temperature
         self.exports = exports
         self.mesh = mesh
-        self.sources = sources
+        self.sources = [] if sources is None else sources
 
         # internal attributes
         self.h_transport_problem = None
-- 
2.43.0


From 5c749e37850aa1a028d014379545cb1cd46dd321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 19/36] fix: SurfaceKinetics with conservation of chemical
 potential

The previous mobile concentration was taken to be the previous potential.
---
 festim/concentration/mobile.py |  5 ++++-
 festim/concentration/theta.py  | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index ca648ff..711a6ba 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -219,7 +219,7 @@ class Mobile(Concentration):
                     if isinstance(bc, SurfaceKinetics):
                         bc.create_form(
                             solute,
-                            self.previous_solution,
+                            self.previous_mobile_concentration(),
                             self.test_function,
                             T,
                             ds,
@@ -242,3 +242,6 @@ class Mobile(Concentration):
 
     def mobile_concentration(self):
         return self.solution
+
+    def previous_mobile_concentration(self):
+        return self.previous_solution
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 63fdc36..dd50d7a 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,5 @@
 from festim import Mobile, k_B
+from festim.materials.materials import ArheniusCoeff
 import fenics as f
 
 
@@ -81,12 +82,27 @@ class Theta(Mobile):
             + self.materials.sievert_marker * sieverts_to_concentration
         )
 
+    def previous_mobile_concentration(self):
+        """Returns the hydrogen concentration at the previous step.
+        This is needed for the SurfaceKinetics boundary condition.
+
+        Returns:
+            ufl.algebra.Sum: the previous hydrogen mobile concentration
+        """
+        S_n = ArheniusCoeff(
+            self.materials, self.volume_markers, self.T.T_n, "S_0", "E_S", degree=2
+        )
+        return (
+            self.materials.henry_marker * self.previous_solution**2 * S_n
+            + self.materials.sievert_marker * self.previous_solution * S_n
+        )
+
     def post_processing_solution_to_concentration(self):
         """Converts the post_processing_solution from theta to mobile
         concentration.
         c = theta * S.
         The attribute post_processing_solution is fenics.Product (if self.S is
-        festim.ArheniusCoeff)
+        ArheniusCoeff)
         """
         problem = f.LinearVariationalProblem(
             a=f.lhs(self.form_post_processing),
-- 
2.43.0


From 5b0f410fe7b7323f831b12fd00d53b6b945d8112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:12 +0000
Subject: [PATCH 20/36] fix: compute derived quantities of retention in
 cylindrical and spherical coordinates

---
 festim/exports/exports.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 6bf17e3..88e6a5f 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -67,9 +67,11 @@ class Exports(list):
                 if export.is_compute(self.nb_iterations):
                     # check if function has to be projected
                     for quantity in export:
+                        # needed for extrema and in cylindrical and spherical
+                        # coordinates
                         if isinstance(
                             quantity, (festim.MaximumVolume, festim.MinimumVolume)
-                        ):
+                        ) or hasattr(quantity, "r"):
                             if not isinstance(
                                 label_to_function[quantity.field], f.Function
                             ):
-- 
2.43.0


From 33764a4e292b5d4bc9e79775f3c14d7a2c8f783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 21/36] fix: derived quantities in cylindrical and spherical
 coordinates after a change of mesh

---
 festim/exports/derived_quantities/derived_quantities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 42eec15..b15583f 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -110,6 +110,9 @@ class DerivedQuantities(list):
             quantity.dx = dx
             quantity.ds = ds
             quantity.n = f.FacetNormal(dx.subdomain_data().mesh())
+            if hasattr(quantity, "r"):
+                # the radial coordinate of a previous mesh must not be reused
+                quantity.r = None
 
     def assign_properties_to_quantities(self, materials):
         """Assign properties attributes to all DerivedQuantity objects
-- 
2.43.0


From 486fe6743eb12731dab7f7b1c3873e591d4f8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:39 +0000
Subject: [PATCH 22/36] fix: evaluate time-dependent inputs at the initial time
 when initialising again

---
 festim/generic_simulation.py             | 2 ++
 festim/temperature/temperature_solver.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 1a41c39..a1fe90e 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -390,6 +390,8 @@ class Simulation:
                 self.materials.solubility_as_function(self.mesh, self.T.T)
 
         self.h_transport_problem.initialise(self.mesh, self.materials, self.dt)
+        # expressions may hold the time of a previous run
+        festim.update_expressions(self.h_transport_problem.expressions, self.t)
 
         for export in self.exports:
             if isinstance(export, festim.DerivedQuantities):
diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 67283d8..0640e11 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -137,6 +137,9 @@ class HeatTransferProblem(festim.Temperature):
         if not self.transient:
             festim.festim_print("Solving stationary heat equation")
 
+            # expressions may hold the time of a previous run
+            festim.update_expressions(self.sub_expressions, 0)
+
             dT = f.TrialFunction(self.T.function_space())
             JT = f.derivative(self.F, self.T, dT)
             problem = festim.Problem(JT, self.F, self.dirichlet_bcs)
-- 
2.43.0


From 22e5af8add8e7ddb41d4cfbacec0462a4a9d990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:59 +0000
Subject: [PATCH 23/36] fix: initial guess of the chemical potential with traps
 or surface kinetics

The guess was assigned to a sub-function and never reached the solution
vector, so the first solve started from zero, where the Henry law has a
singular Jacobian.
---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 2e96183..eac844c 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -228,7 +228,7 @@ class HTransportProblem:
             initial_guess = project(
                 self.mobile.previous_solution + Constant(DOLFIN_EPS), functionspace
             )
-            self.mobile.solution.assign(initial_guess)
+            assign(self.mobile.solution, initial_guess)
         # this is needed to correctly create the formulation
         # TODO: write a test for this?
         if self.V.num_sub_spaces() != 0:
-- 
2.43.0


From 647fff7f758155dfff25a0a4e041eb10bb3ca7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:44 +0000
Subject: [PATCH 24/36] fix: restore a fixed stepsize after a milestone

A stepsize shortened to land on a milestone stayed shortened for the rest
of the run when it was not adaptive.
---
 festim/stepsize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 177e6d3..4e47338 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -112,6 +112,9 @@ class Stepsize:
             if max_stepsize is not None:
                 if float(self.value) > max_stepsize:
                     self.value.assign(max_stepsize)
+        else:
+            # the stepsize may have been shortened to reach a milestone
+            self.value.assign(self.initial_value)
 
         # adapt for next milestone
         self.limit_to_next_milestone(t)
-- 
2.43.0


From db98b4a876bd4609349ccf3d48bd8bb2c4023b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:31 +0000
Subject: [PATCH 25/36] fix: text export when a material covers several
 subdomains

---
 festim/exports/txt_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 283fa79..db70ea7 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -154,7 +154,8 @@ class TXTExport(festim.Export):
             borders = []
             for material in materials:
                 if material.borders:
-                    for border in material.borders:
+                    # borders is nested for a material with several subdomains
+                    for border in np.ravel(material.borders):
                         borders.append(border)
             borders = np.unique(borders)
 
-- 
2.43.0


From 31fb230b5757e5885e57262fe45d539ca87d99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:31 +0000
Subject: [PATCH 26/36] fix: checkpoint the right dofs when a component of a
 mixed function is exported

---
 festim/exports/xdmf_export.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 582effc..01b5cb1 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -131,8 +131,16 @@ class XDMFExport(Export):
                 msg += "https://github.com/festim-dev/festim/issues/134)"
                 warnings.warn(msg)
 
+            # a component of a mixed function has to be collapsed, otherwise
+            # the wrong degrees of freedom are written
+            function = self.function
+            functionspace = function.function_space()
+            if functionspace.component():
+                function = f.Function(functionspace.collapse())
+                f.assign(function, self.function)
+
             self.file.write_checkpoint(
-                self.function,
+                function,
                 self.label,
                 t,
                 f.XDMFFile.Encoding.HDF5,
-- 
2.43.0


From bb17024e3ada8da9f7b5125d74d3d9f2105dc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:55 +0000
Subject: [PATCH 27/36] fix: look a trap's materials up again when the
 simulation's materials changed

---
 festim/concentration/traps/trap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 09839d9..f0fa75f 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -64,6 +64,8 @@ class Trap(Concentration):
                     "Accepted types for materials are str or festim.Material"
                 )
         self._materials = value
+        # what the user gave: looked up again if the simulation's materials change
+        self._given_materials = value
 
     def make_materials(self, materials):
         """Ensure all entries in self.materials are of type festim.Material
@@ -76,10 +78,10 @@ class Trap(Concentration):
         """
         new_materials = []
 
-        for material in self.materials:
+        for material in self._given_materials:
             new_materials.append(materials.find_material(material))
 
-        self.materials = new_materials
+        self._materials = new_materials
 
         if len(self.materials) != len(list(set(self.materials))):
             raise ValueError("Duplicate materials in trap")
-- 
2.43.0


From b0fb7a8b436e14d6aa309a9ecb93efbf0f970cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 28/36] fix: start from a discontinuous concentration with
 conservation of chemical potential

---
 festim/concentration/theta.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index dd50d7a..584ae4e 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,6 +1,7 @@
 from festim import Mobile, k_B
 from festim.materials.materials import ArheniusCoeff
 import fenics as f
+import xml.etree.ElementTree as ET
 
 
 class Theta(Mobile):
@@ -42,6 +43,17 @@ class Theta(Mobile):
 
         f.assign(self.previous_solution, prev_sol)
 
+    def get_comp(self, V, value, label=None, time_step=None):
+        if type(value) == str and value.endswith(".xdmf"):
+            # concentrations exported with conservation of chemical potential
+            # are discontinuous at the interfaces
+            for attribute in ET.parse(value).iter("Attribute"):
+                if attribute.get("Name") == label:
+                    if attribute.get("ElementFamily") == "DG":
+                        V = f.FunctionSpace(V.mesh(), "DG", 1)
+                    break
+        return super().get_comp(V, value, label=label, time_step=time_step)
+
     def get_concentration_for_a_given_material(self, material, T):
         """Returns the concentration (and previous concentration) for a given
         material
-- 
2.43.0


From 852db08cbc286e40be7aac6a50f6d6b8cc339105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:44 +0000
Subject: [PATCH 29/36] fix: assign a trap's id again when the trap is used in
 another list of traps

An id assigned at initialisation stayed with the trap object, so a trap kept
from a longer or differently ordered list was found under the wrong field (or
not at all).
---
 festim/concentration/traps/trap.py  | 1 +
 festim/concentration/traps/traps.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index f0fa75f..83f6639 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -40,6 +40,7 @@ class Trap(Concentration):
     def __init__(self, k_0, E_k, p_0, E_p, materials, density, id=None):
         super().__init__()
         self.id = id
+        self._assigned_id = None
         self.k_0 = k_0
         self.E_k = E_k
         self.p_0 = p_0
diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index f99cec5..aa51f31 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -46,8 +46,10 @@ class Traps(list):
 
     def assign_traps_ids(self):
         for i, trap in enumerate(self, 1):
-            if trap.id is None:
+            # an id assigned for another list of traps is assigned again
+            if trap.id is None or trap.id == trap._assigned_id:
                 trap.id = i
+                trap._assigned_id = i
 
     def create_forms(self, mobile, materials, T, dx, dt=None):
         self.F = 0
-- 
2.43.0


From fbc2c35f6b30cbea09779db366df1a2ce4a9db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:06 +0000
Subject: [PATCH 30/36] fix: initial condition of a trap whose id is not its
 position in the list

---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index eac844c..54d6a5f 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -204,7 +204,7 @@ class HTransportProblem:
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
             else:
-                trap = self.traps.get_trap(component)
+                trap = self.traps[component - 1]
                 trap.initialise(
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
-- 
2.43.0


From be72ff77295294b64e466dca01f60c38e7744f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:04 +0000
Subject: [PATCH 31/36] fix: export the density of a trap when no trap has the
 id 1

---
 festim/exports/exports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 88e6a5f..0b04e4f 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -100,10 +100,11 @@ class Exports(list):
                             label_to_function["retention"] = f.project(
                                 label_to_function["retention"], self.V_DG1
                             )
-                    export.function = label_to_function[export.field]
                     if isinstance(export, festim.TrapDensityXDMF):
+                        export.function = label_to_function[str(export.trap.id)]
                         export.write(self.t, dx)
                     else:
+                        export.function = label_to_function[export.field]
                         export.write(self.t)
                     export.append = True
 
-- 
2.43.0


From 90b95e6780d1b482f29286a794494c8ecd5ef2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:29 +0000
Subject: [PATCH 32/36] fix: initial condition with chemical potential lost on
 small meshes

The initial potential is the solution of a linear problem that was given to
a Newton solver with an absolute tolerance of 1e-10: with a mesh of a few
microns (or small potentials) the residual of the zero field is already
below it and the initial condition was silently replaced by zero.
---
 festim/concentration/theta.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 584ae4e..3216276 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -29,17 +29,19 @@ class Theta(Mobile):
         comp = self.get_comp(V, value, label=label, time_step=time_step)
 
         prev_sol = f.Function(V)
+        u = f.TrialFunction(V)
         v = f.TestFunction(V)
         dx = f.Measure("dx", subdomain_data=self.volume_markers)
         F = 0
         for mat in self.materials:
             S = mat.S_0 * f.exp(-mat.E_S / k_B / self.T.T)
-            F += -prev_sol * v * dx(mat.subdomains)
+            F += -u * v * dx(mat.subdomains)
             if mat.solubility_law == "sievert":
                 F += comp / S * v * dx(mat.subdomains)
             elif mat.solubility_law == "henry":
                 F += (comp / S) ** 0.5 * v * dx(mat.subdomains)
-        f.solve(F == 0, prev_sol, bcs=[])
+        # the problem is linear, a Newton solver would stop straight away on small meshes
+        f.solve(f.lhs(F) == f.rhs(F), prev_sol, bcs=[])
 
         f.assign(self.previous_solution, prev_sol)
 
-- 
2.43.0


From e83b64ea6560a8cf3d743e5ece4fd3464123dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:29 +0000
Subject: [PATCH 33/36] fix: solubility and solubility-law markers left at zero
 on small meshes

Both are linear projections that were given to a Newton solver with an
absolute tolerance of 1e-10, which returns the zero field on small meshes.
---
 festim/materials/materials.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index 2a8b958..f033be1 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -295,13 +295,15 @@ class Materials(list):
         """
         V = f.FunctionSpace(mesh.mesh, "DG", 1)
         S = f.Function(V, name="S")
+        uS = f.TrialFunction(V)
         vS = f.TestFunction(V)
         dx = mesh.dx
         F = 0
         for mat in self:
-            F += -S * vS * dx(mat.subdomains)
+            F += -uS * vS * dx(mat.subdomains)
             F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.subdomains)
-        f.solve(F == 0, S, bcs=[])
+        # the problem is linear, a Newton solver would stop straight away on small meshes
+        f.solve(f.lhs(F) == f.rhs(F), S, bcs=[])
 
         self.S = S
 
@@ -317,12 +319,14 @@ class Materials(list):
         henry = f.Function(V)
         sievert = f.Function(V)
 
+        trial_function = f.TrialFunction(V)
         test_function_henry = f.TestFunction(V)
         test_function_sievert = f.TestFunction(V)
 
         # initialise formulations
-        F_henry = -henry * test_function_henry * mesh.dx
-        F_sievert = -sievert * test_function_sievert * mesh.dx
+        zero = f.Constant(0)
+        F_henry = (zero - trial_function) * test_function_henry * mesh.dx
+        F_sievert = (zero - trial_function) * test_function_sievert * mesh.dx
 
         # build the formulation depending on the
         for mat in self:
@@ -337,9 +341,10 @@ class Materials(list):
                 elif mat.solubility_law == "sievert":
                     F_sievert += 1 * test_function_sievert * mesh.dx(mat_id)
 
-        # solve the problems
-        f.solve(F_henry == 0, henry, [])
-        f.solve(F_sievert == 0, sievert, [])
+        # solve the problems (these are linear, a Newton solver would stop straight
+        # away on small meshes)
+        f.solve(f.lhs(F_henry) == f.rhs(F_henry), henry, [])
+        f.solve(f.lhs(F_sievert) == f.rhs(F_sievert), sievert, [])
 
         self.henry_marker = henry
         self.sievert_marker = sievert
-- 
2.43.0


From 08286279c53153832d25831b07c37302a2cae255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:29 +0000
Subject: [PATCH 34/36] fix: exported trap density zero on small meshes

The projection is linear, the Newton solver with an absolute tolerance of
1e-10 returned the zero field on small meshes.
---
 festim/exports/trap_density_xdmf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index c92dabe..ed33e14 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -24,7 +24,8 @@ class TrapDensityXDMF(XDMFExport):
             dx (fenics.Measure): the measure for dx
         """
         functionspace = self.function.function_space().collapse()
-        u = f.Function(functionspace)
+        n = f.Function(functionspace)
+        u = f.TrialFunction(functionspace)
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
@@ -36,7 +37,8 @@ class TrapDensityXDMF(XDMFExport):
                 density = self.trap.density[0]
             F -= f.inner(density, v) * dx(mat.subdomains)
 
-        f.solve(F == 0, u, bcs=[])
-        self.function = u
+        # the problem is linear, a Newton solver would stop straight away on small meshes
+        f.solve(f.lhs(F) == f.rhs(F), n, bcs=[])
+        self.function = n
 
         super().write(t)
-- 
2.43.0


From f4e8061983a15d74e031c800d9163931f8cbd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:41 +0000
Subject: [PATCH 35/36] fix: changed tolerances of a heat transfer problem
 ignored when initialised again

---
 festim/temperature/temperature_solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 0640e11..31a5140 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -62,6 +62,7 @@ class HeatTransferProblem(festim.Temperature):
         self.boundary_conditions = []
         self.sub_expressions = []
         self.newton_solver = None
+        self._default_newton_solver = None
 
     @property
     def newton_solver(self):
@@ -131,8 +132,12 @@ class HeatTransferProblem(festim.Temperature):
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
 
-        if not self.newton_solver:
+        # a solver given by the user is kept, the default one is defined again as
+        # its parameters may have changed
+        if not self.newton_solver or self.newton_solver is self._default_newton_solver:
+            self.newton_solver = None
             self.define_newton_solver()
+            self._default_newton_solver = self.newton_solver
 
         if not self.transient:
             festim.festim_print("Solving stationary heat equation")
-- 
2.43.0


From d7884d1b93da9748edcea00c6fc33873717f70bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:49 +0000
Subject: [PATCH 36/36] fix: milestones added for the text exports of a
 previous run were kept when the exports change

---
 festim/generic_simulation.py |  2 ++
 festim/stepsize.py           | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index a1fe90e..0dcf75a 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -349,6 +349,7 @@ class Simulation:
         # initialise dt
         if self.settings.transient:
             self.dt.initialise_value()
+            self.dt.forget_export_milestones()
 
         self.h_transport_problem = HTransportProblem(
             self.mobile, self.traps, self.T, self.settings, self.initial_conditions
@@ -446,6 +447,7 @@ class Simulation:
                             msg += "TXTExport.times are added to milestones"
                             warnings.warn(msg)
                             self.dt.milestones.append(time)
+                            self.dt._export_milestones.append(time)
                     self.dt.milestones.sort()
 
         self.exports.initialise_derived_quantities(
diff --git a/festim/stepsize.py b/festim/stepsize.py
index 4e47338..232d907 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -76,6 +76,17 @@ class Stepsize:
             self._milestones = sorted(value)
         else:
             self._milestones = value
+        # milestones added by festim.Simulation for the exports
+        self._export_milestones = []
+
+    def forget_export_milestones(self):
+        """Removes the milestones added for the exports of a previous run"""
+        if self._export_milestones:
+            self.milestones = [
+                milestone
+                for milestone in self.milestones
+                if milestone not in self._export_milestones
+            ]
 
     def initialise_value(self):
         """Creates a fenics.Constant object initialised with self.initial_value
-- 
2.43.0

