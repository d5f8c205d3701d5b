From cfaa63ee450b18c3edcb3b273ce496a5f2646026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:32 +0000
Subject: [PATCH 01/33] fix: materials and sources defined on several volume
 ids with traps or chemical potential

UFL measures do not accept lists of ids, a simulation with Material(id=[1, 2]) and traps
(or chemical_pot=True), or with a trap source on several volumes, crashed.
---
 festim/__init__.py                  |  1 +
 festim/concentration/mobile.py      |  5 +++--
 festim/concentration/theta.py       | 12 ++++++------
 festim/concentration/traps/trap.py  | 25 ++++++++++++++++++++-----
 festim/exports/trap_density_xdmf.py |  3 ++-
 festim/helpers.py                   | 14 ++++++++++++++
 festim/materials/materials.py       |  6 +++---
 7 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/festim/__init__.py b/festim/__init__.py
index b22e350..d91f1f5 100644
--- a/festim/__init__.py
+++ b/festim/__init__.py
@@ -27,6 +27,7 @@ from .helpers import (
     as_constant,
     as_expression,
     as_constant_or_expression,
+    as_subdomain_id,
     festim_print,
 )
 
diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index af57b0d..4529a6d 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -3,6 +3,7 @@ from festim import (
     FluxBC,
     k_B,
     RadioactiveDecay,
+    as_subdomain_id,
     SurfaceKinetics,
     festim_print,
 )
@@ -162,14 +163,14 @@ class Mobile(Concentration):
                         * c_m
                         * (density - trap.solution)
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(as_subdomain_id(mat.id))
                     )
                     F_trapping += (
                         p_0
                         * exp(-E_p / k_B / T.T)
                         * trap.solution
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(as_subdomain_id(mat.id))
                     )
         F += -F_trapping
 
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 51fb816..5daab70 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,4 @@
-from festim import Mobile, k_B
+from festim import Mobile, k_B, as_subdomain_id
 import fenics as f
 
 
@@ -32,11 +32,11 @@ class Theta(Mobile):
         F = 0
         for mat in self.materials:
             S = mat.S_0 * f.exp(-mat.E_S / k_B / self.T.T)
-            F += -prev_sol * v * dx(mat.id)
+            F += -prev_sol * v * dx(as_subdomain_id(mat.id))
             if mat.solubility_law == "sievert":
-                F += comp / S * v * dx(mat.id)
+                F += comp / S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
-                F += (comp / S) ** 0.5 * v * dx(mat.id)
+                F += (comp / S) ** 0.5 * v * dx(as_subdomain_id(mat.id))
         f.solve(F == 0, prev_sol, bcs=[])
 
         f.assign(self.previous_solution, prev_sol)
@@ -113,10 +113,10 @@ class Theta(Mobile):
         for mat in materials:
             if mat.solubility_law == "sievert":
                 # for sievert materials c = theta * S
-                F += self.solution * self.S * v * dx(mat.id)
+                F += self.solution * self.S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
                 # for henry materials c = theta**2 * S
-                F += self.solution**2 * self.S * v * dx(mat.id)
+                F += self.solution**2 * self.S * v * dx(as_subdomain_id(mat.id))
 
         self.form_post_processing = F
         self.post_processing_solution = f.Function(V)
diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 1fef133..4d1e390 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -1,4 +1,11 @@
-from festim import Concentration, k_B, Material, Theta, RadioactiveDecay
+from festim import (
+    Concentration,
+    k_B,
+    Material,
+    Theta,
+    RadioactiveDecay,
+    as_subdomain_id,
+)
 from fenics import *
 import sympy as sp
 
@@ -152,7 +159,7 @@ class Trap(Concentration):
             # add c_t = 0 to the form in this subdomain
             for mat in materials:
                 if mat not in self.materials:
-                    F_trapping += solution * test_function * dx(mat.id)
+                    F_trapping += solution * test_function * dx(as_subdomain_id(mat.id))
 
         for i, mat in enumerate(self.materials):
             if type(self.k_0) is list:
@@ -186,10 +193,14 @@ class Trap(Concentration):
                 * c_0
                 * (density - solution)
                 * test_function
-                * dx(mat.id)
+                * dx(as_subdomain_id(mat.id))
             )
             F_trapping += (
-                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(mat.id)
+                p_0
+                * exp(-E_p / k_B / T.T)
+                * solution
+                * test_function
+                * dx(as_subdomain_id(mat.id))
             )
 
         self.F_trapping = F_trapping
@@ -205,7 +216,11 @@ class Trap(Concentration):
         for source in self.sources:
             if isinstance(source, RadioactiveDecay):
                 source.value = source.form(self.solution)
-            self.F_source = -source.value * self.test_function * dx(source.volume)
+            self.F_source = (
+                -source.value
+                * self.test_function
+                * dx(as_subdomain_id(source.volume))
+            )
             self.F += self.F_source
             if isinstance(source.value, (Expression, UserExpression)):
                 self.sub_expressions.append(source.value)
diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 2da2463..492917c 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -1,3 +1,4 @@
+from festim.helpers import as_subdomain_id
 from festim.exports.xdmf_export import XDMFExport
 import fenics as f
 
@@ -29,7 +30,7 @@ class TrapDensityXDMF(XDMFExport):
         F = f.inner(u, v) * dx
 
         for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.id)
+            F -= f.inner(self.trap.density[0], v) * dx(as_subdomain_id(mat.id))
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
diff --git a/festim/helpers.py b/festim/helpers.py
index f790050..2f37662 100644
--- a/festim/helpers.py
+++ b/festim/helpers.py
@@ -44,6 +44,20 @@ def as_constant_or_expression(val):
         return Expression(expr_ccode, degree=2, t=0)
 
 
+def as_subdomain_id(ids):
+    """Makes an id (or a list of ids) usable as the argument of a fenics.Measure
+
+    Args:
+        ids (int, list): the id(s) of the subdomain(s)
+
+    Returns:
+        int, tuple: ids, as a tuple if it is a list
+    """
+    if isinstance(ids, list):
+        return tuple(ids)
+    return ids
+
+
 def kJmol_to_eV(energy):
     """Converts an energy value given in units kJ mol^{-1} to eV
 
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c88c7be..0224826 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -1,7 +1,7 @@
 from operator import itemgetter
 import warnings
 import numpy as np
-from festim import k_B, Material, HeatTransferProblem
+from festim import k_B, Material, HeatTransferProblem, as_subdomain_id
 import festim
 import fenics as f
 from typing import Union
@@ -299,8 +299,8 @@ class Materials(list):
         dx = mesh.dx
         F = 0
         for mat in self:
-            F += -S * vS * dx(mat.id)
-            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.id)
+            F += -S * vS * dx(as_subdomain_id(mat.id))
+            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(as_subdomain_id(mat.id))
         f.solve(F == 0, S, bcs=[])
 
         self.S = S
-- 
2.43.0


From eac733bf83804bfacec801ea2be95e631a44bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:32 +0000
Subject: [PATCH 02/33] fix: TrapDensityXDMF exports the density of each
 material

---
 festim/exports/trap_density_xdmf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 492917c..16524c0 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -29,8 +29,12 @@ class TrapDensityXDMF(XDMFExport):
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
-        for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(as_subdomain_id(mat.id))
+        for i, mat in enumerate(self.trap.materials):
+            if len(self.trap.density) > 1:
+                density = self.trap.density[i]
+            else:
+                density = self.trap.density[0]
+            F -= f.inner(density, v) * dx(as_subdomain_id(mat.id))
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
-- 
2.43.0


From 79f4bfbee1aaae66bb7b071ba8f859ffdb69560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:32 +0000
Subject: [PATCH 03/33] fix: CustomDirichlet with chemical_pot=True

sub_expressions was a dict view without append, normalise_by_solubility crashed.
---
 festim/boundary_conditions/dirichlets/custom_dc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/custom_dc.py b/festim/boundary_conditions/dirichlets/custom_dc.py
index fa84daf..5481c60 100644
--- a/festim/boundary_conditions/dirichlets/custom_dc.py
+++ b/festim/boundary_conditions/dirichlets/custom_dc.py
@@ -39,7 +39,7 @@ class CustomDirichlet(DirichletBC):
             **self.prms,
         )
         self.expression = value_BC
-        self.sub_expressions = self.prms.values()
+        self.sub_expressions = list(self.prms.values())
 
     def convert_prms(self):
         """Creates Expressions or Constant for all parameters"""
-- 
2.43.0


From 68cc561582188e1af51b7c7116b095712658b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:32 +0000
Subject: [PATCH 04/33] fix: initial conditions of traps with user-defined ids

component is the position of the trap, not its id.
---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 24cc3f5..d6162bf 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -204,7 +204,7 @@ class HTransportProblem:
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
             else:
-                trap = self.traps.get_trap(component)
+                trap = self.traps[component - 1]
                 trap.initialise(
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
-- 
2.43.0


From 1375d1fc04f1d6daadd318909faaa101fbbbb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:22 +0000
Subject: [PATCH 05/33] fix: boundary conditions with the field given as a
 string of digits

FluxBC(field="0") was silently ignored, DirichletBC(field="1") crashed and conflicting
conditions on 0 and "0" were not detected.
---
 festim/boundary_conditions/boundary_condition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/boundary_conditions/boundary_condition.py b/festim/boundary_conditions/boundary_condition.py
index 2f23ebc..2108331 100644
--- a/festim/boundary_conditions/boundary_condition.py
+++ b/festim/boundary_conditions/boundary_condition.py
@@ -15,6 +15,8 @@ class BoundaryCondition:
 
         if field == "solute":
             self.field = 0
+        elif isinstance(field, str) and field.isdigit():
+            self.field = int(field)
         else:
             self.field = field
         self.expression = None
-- 
2.43.0


From 11abbeebcb46b3a8b9da8839ff2f8820f5b4bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:54 +0000
Subject: [PATCH 06/33] fix: sources and boundary conditions of traps with
 user-defined ids

The field of a source or a boundary condition was taken as the position of the trap while
initial conditions and exports use its id.
---
 .../boundary_conditions/dirichlets/dirichlet_bc.py   |  5 ++++-
 festim/generic_simulation.py                         | 12 +++++++-----
 festim/h_transport_problem.py                        |  3 +++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/festim/boundary_conditions/dirichlets/dirichlet_bc.py b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
index 3bc72c5..bfd3c0f 100644
--- a/festim/boundary_conditions/dirichlets/dirichlet_bc.py
+++ b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
@@ -59,6 +59,7 @@ class DirichletBC(BoundaryCondition):
         chemical_pot=False,
         materials=None,
         volume_markers=None,
+        component=None,
     ):
         """creates a list of fenics.DirichletBC and stores it in
         self.dirichlet_bc
@@ -74,6 +75,8 @@ class DirichletBC(BoundaryCondition):
                 chemical_pot is True. Defaults to None.
             volume_markers (fenics.MeshFunction, optional): the volume markers,
                 only needed when chemical_pot is True. Defaults to None.
+            component (int, optional): the position of the field in V. If
+                None, the field is its own position. Defaults to None.
         """
         self.dirichlet_bc = []
         self.create_expression(T)
@@ -86,7 +89,7 @@ class DirichletBC(BoundaryCondition):
         if V.num_sub_spaces() == 0:
             funspace = V
         else:  # if only one field, use subspace
-            funspace = V.sub(self.field)
+            funspace = V.sub(self.field if component is None else component)
         for surface in self.surfaces:
             bci = f.DirichletBC(funspace, self.expression, surface_markers, surface)
             self.dirichlet_bc.append(bci)
diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb556f..7140cad 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -215,9 +215,10 @@ class Simulation:
             "mobile": self.mobile,
             "T": self.T,
         }
-        for i, trap in enumerate(self.traps, 1):
-            field_to_object[i] = trap
-            field_to_object[str(i)] = trap
+        self.traps.assign_traps_ids()
+        for trap in self.traps:
+            field_to_object[trap.id] = trap
+            field_to_object[str(trap.id)] = trap
 
         # set sources
         for source in self.sources:
@@ -239,10 +240,11 @@ class Simulation:
     def check_boundary_conditions(self):
         """Runs a series of checks on the BCs and raise errors accordingly"""
 
+        self.traps.assign_traps_ids()
         valid_fields = (
             ["T", 0, "0"]  # temperature and mobile concentration
-            + [str(i + 1) for i, _ in enumerate(self.traps)]
-            + [i + 1 for i, _ in enumerate(self.traps)]
+            + [str(trap.id) for trap in self.traps]
+            + [trap.id for trap in self.traps]
         )
 
         # collect all DirichletBCs and SurfaceKinetics objects
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index d6162bf..6ed836a 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -306,6 +306,8 @@ class HTransportProblem:
         problem and add them to self.bcs
         """
         self.bcs = []
+        # position of each field in the function space
+        components = {trap.id: i for i, trap in enumerate(self.traps, 1)}
         for bc in self.boundary_conditions:
             if bc.field != "T" and isinstance(bc, festim.DirichletBC):
                 bc.create_dirichletbc(
@@ -315,6 +317,7 @@ class HTransportProblem:
                     chemical_pot=self.settings.chemical_pot,
                     materials=materials,
                     volume_markers=mesh.volume_markers,
+                    component=components.get(bc.field),
                 )
                 self.bcs += bc.dirichlet_bc
                 self.expressions += bc.sub_expressions
-- 
2.43.0


From 2bd8e3775be508264bc62ca45be9efe18f76024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:40 +0000
Subject: [PATCH 07/33] fix: the stepsize is reduced once when the solver
 diverges

After a divergence the stepsize was divided and then multiplied back (or divided twice)
depending on the number of iterations, so that the same stepsize was tried forever or the
stepsize went below dt_min.
---
 festim/stepsize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index f601069..1d65393 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -102,7 +102,7 @@ class Stepsize:
                 self.value.assign(float(self.value) / change_ratio)
                 if float(self.value) < dt_min:
                     raise ValueError("stepsize reached minimal value")
-            if nb_it < 5:
+            elif nb_it < 5:
                 self.value.assign(float(self.value) * change_ratio)
             else:
                 self.value.assign(float(self.value) / change_ratio)
-- 
2.43.0


From 25bdce3395198b44a39ff4a11cc1601961e1400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:40 +0000
Subject: [PATCH 08/33] fix: a milestone reached to rounding error does not
 hide the next one

---
 festim/stepsize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 1d65393..d98bfae 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -116,9 +116,7 @@ class Stepsize:
         # adapt for next milestone
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
-            if t + float(self.value) > next_milestone and not np.isclose(
-                t, next_milestone, atol=0
-            ):
+            if t + float(self.value) > next_milestone:
                 self.value.assign((next_milestone - t))
 
     def next_milestone(self, current_time: float):
@@ -134,6 +132,8 @@ class Stepsize:
         if self.milestones is None:
             return None
         for milestone in self.milestones:
-            if current_time < milestone:
+            if current_time < milestone and not np.isclose(
+                current_time, milestone, atol=0
+            ):
                 return milestone
         return None
-- 
2.43.0


From e8ba6585c062bed25bebd916970b4755500ba572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:09 +0000
Subject: [PATCH 09/33] fix: the first time step neither misses a milestone nor
 exceeds final_time

---
 festim/generic_simulation.py | 5 +++++
 festim/stepsize.py           | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 7140cad..e822b29 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -477,6 +477,11 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
+        # the first step must not miss a milestone nor exceed final_time
+        self.dt.limit_to_next_milestone(self.t)
+        if self.t + float(self.dt.value) > self.settings.final_time:
+            self.dt.value.assign(self.settings.final_time - self.t)
+
         #  Time-stepping
         festim.festim_print("Time stepping...")
         while self.t < self.settings.final_time and not np.isclose(
diff --git a/festim/stepsize.py b/festim/stepsize.py
index d98bfae..359fa10 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -113,7 +113,14 @@ class Stepsize:
                 if float(self.value) > max_stepsize:
                     self.value.assign(max_stepsize)
 
-        # adapt for next milestone
+        self.limit_to_next_milestone(t)
+
+    def limit_to_next_milestone(self, t):
+        """Reduces the stepsize if the next milestone would be missed.
+
+        Args:
+            t (float): current time.
+        """
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
             if t + float(self.value) > next_milestone:
-- 
2.43.0


From 6a1048ae9d409545a86b7cb71b2967353c575bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:09 +0000
Subject: [PATCH 10/33] fix: a constant stepsize is restored after it was
 reduced to hit a milestone

---
 festim/stepsize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 359fa10..a8e03fa 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -112,6 +112,9 @@ class Stepsize:
             if max_stepsize is not None:
                 if float(self.value) > max_stepsize:
                     self.value.assign(max_stepsize)
+        else:
+            # may have been reduced to hit a milestone
+            self.value.assign(self.initial_value)
 
         self.limit_to_next_milestone(t)
 
-- 
2.43.0


From 4d1c84806f7a98ed1ca45441c5c7070836015b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:27 +0000
Subject: [PATCH 11/33] fix: densities of extrinsic traps are advanced with the
 current stepsize

They were solved after the stepsize had been adapted for the next time step.
---
 festim/h_transport_problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 6ed836a..a6d2712 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -342,7 +342,7 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
-            if dt.adaptive_stepsize is not None or dt.milestones is not None:
+            if not converged and dt.adaptive_stepsize is not None:
                 dt.adapt(t, nb_it, converged)
 
         # Update previous solutions
@@ -351,6 +351,10 @@ class HTransportProblem:
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
 
+        # Adapt the stepsize for the next time step
+        if dt.adaptive_stepsize is not None or dt.milestones is not None:
+            dt.adapt(t, nb_it, converged)
+
     def solve_once(self):
         """Solves non linear problem
 
-- 
2.43.0


From 2b1221d4ec0adcae2847f9b1ad0780dc4e00af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:27 +0000
Subject: [PATCH 12/33] fix: a diverging simulation with a constant stepsize
 stops

The same time step was attempted forever.
---
 festim/h_transport_problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index a6d2712..eeb5f5a 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -342,7 +342,11 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
-            if not converged and dt.adaptive_stepsize is not None:
+            if not converged:
+                if dt.adaptive_stepsize is None:
+                    raise ValueError(
+                        "Solver diverged but the stepsize is not adaptive."
+                    )
                 dt.adapt(t, nb_it, converged)
 
         # Update previous solutions
-- 
2.43.0


From c5e10639095fed67205c58a62732cc5343d23f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:55 +0000
Subject: [PATCH 13/33] fix: a simulation with a transient heat transfer
 problem can be initialised again

The value of the initial condition was replaced by a fenics.Expression.
---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index c520463..8a23afa 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -123,8 +123,8 @@ class HeatTransferProblem(festim.Temperature):
                         )
             else:
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
-                self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
-                self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+                T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
+                self.T_n.assign(f.interpolate(T_ini, V))
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
-- 
2.43.0


From 1da150f8ed4ecd11169cc44a3ee38d0c1a99fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:10 +0000
Subject: [PATCH 14/33] fix: T_n is the temperature of the previous time step
 in heat transfer problems

It was overwritten with the new temperature before the H transport problem was solved, and
T was zero until the first time step: the previous concentration and the initial condition
of chemical potential simulations were computed with the wrong temperature.
---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 8a23afa..ca966fb 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -125,6 +125,7 @@ class HeatTransferProblem(festim.Temperature):
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
                 T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
                 self.T_n.assign(f.interpolate(T_ini, V))
+            self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
@@ -260,6 +261,7 @@ class HeatTransferProblem(festim.Temperature):
             t (float): the time
         """
         if self.transient:
+            self.T_n.assign(self.T)
             festim.update_expressions(self.sub_expressions, t)
             # Solve heat transfers
             dT = f.TrialFunction(self.T.function_space())
@@ -272,7 +274,5 @@ class HeatTransferProblem(festim.Temperature):
             self.newton_solver.solve(problem, self.T.vector())
             f.end()
 
-            self.T_n.assign(self.T)
-
     def is_steady_state(self):
         return not self.transient
-- 
2.43.0


From 320499dfe79857a4091ed5edba01bb1c6046437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:35 +0000
Subject: [PATCH 15/33] fix: a time step retried with a smaller stepsize ends
 at the corresponding time

After a divergence the stepsize was reduced but the time, the temperature and the time
dependent parameters of the first attempt were kept.
---
 festim/generic_simulation.py  |  2 +-
 festim/h_transport_problem.py | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index e822b29..5364852 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -515,7 +515,7 @@ class Simulation:
         # update temperature
         self.T.update(self.t)
         # update H problem
-        self.h_transport_problem.update(self.t, self.dt)
+        self.t = self.h_transport_problem.update(self.t, self.dt)
 
         # Display time
         self.display_time()
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index eeb5f5a..a5eec4e 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -333,7 +333,12 @@ class HTransportProblem:
         Args:
             t (float): the current time (s)
             dt (festim.Stepsize): the stepsize
+
+        Returns:
+            float: the time reached (s), smaller than t if the solver diverged and
+                the stepsize had to be reduced
         """
+        t_n = t - float(dt.value)
         festim.update_expressions(self.expressions, t)
 
         converged = False
@@ -347,7 +352,12 @@ class HTransportProblem:
                     raise ValueError(
                         "Solver diverged but the stepsize is not adaptive."
                     )
-                dt.adapt(t, nb_it, converged)
+                # try again with a smaller step from the previous time
+                dt.adapt(t_n, nb_it, converged)
+                t = t_n + float(dt.value)
+                self.T.T.assign(self.T.T_n)
+                self.T.update(t)
+                festim.update_expressions(self.expressions, t)
 
         # Update previous solutions
         self.update_previous_solutions()
@@ -359,6 +369,8 @@ class HTransportProblem:
         if dt.adaptive_stepsize is not None or dt.milestones is not None:
             dt.adapt(t, nb_it, converged)
 
+        return t
+
     def solve_once(self):
         """Solves non linear problem
 
-- 
2.43.0


From 75e0a8f81ea7e741fb56571b40b6c23a8b191670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:16 +0000
Subject: [PATCH 16/33] fix: time-dependent parameters of extrinsic traps are
 updated

---
 festim/concentration/traps/extrinsic_trap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/concentration/traps/extrinsic_trap.py b/festim/concentration/traps/extrinsic_trap.py
index 8eeef4d..bdf4f4d 100644
--- a/festim/concentration/traps/extrinsic_trap.py
+++ b/festim/concentration/traps/extrinsic_trap.py
@@ -52,6 +52,8 @@ class ExtrinsicTrapBase(Trap):
         self.newton_solver = None
         for name, val in kwargs.items():
             setattr(self, name, as_constant_or_expression(val))
+            # parameters may be time-dependent
+            self.sub_expressions.append(getattr(self, name))
         self.density_previous_solution = None
         self.density_test_function = None
 
-- 
2.43.0


From d450686cdd2864124b04ab57e22ccfa7167fda30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:16 +0000
Subject: [PATCH 17/33] fix: XDMFExport with mode="last" in steady state
 simulations

---
 festim/exports/xdmf_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 14383fa..0d96685 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -152,8 +152,9 @@ class XDMFExport(Export):
         Returns:
             bool: True if export should be exported, else False
         """
-        if self.mode == "last" and np.isclose(t, final_time, atol=0):
-            return True
+        if self.mode == "last":
+            # final_time is None in steady state simulations
+            return bool(final_time is None or np.isclose(t, final_time, atol=0))
         elif isinstance(self.mode, int):
             if nb_iterations % self.mode == 0:
                 return True
-- 
2.43.0


From 4e4e17b4e1cf50400e1b063c8280488ceaf5e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:23 +0000
Subject: [PATCH 18/33] fix: TXTExport and DerivedQuantities files in the
 current directory

os.makedirs("") raised FileNotFoundError for filenames without a directory.
---
 festim/exports/derived_quantities/derived_quantities.py | 2 +-
 festim/exports/txt_export.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index dec5644..42eec15 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -147,7 +147,7 @@ class DerivedQuantities(list):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 6137b8b..283fa79 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -201,7 +201,7 @@ class TXTExport(festim.Export):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # if steady, add the corresponding label
-- 
2.43.0


From b20d83f41a24cb4af69f55d8e293baa6beaadb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:56 +0000
Subject: [PATCH 19/33] fix: cylindrical and spherical derived quantities of
 the retention

With traps the retention is a sum of functions, which has no function space.
---
 festim/exports/derived_quantities/average_surface.py |  5 ++---
 festim/exports/derived_quantities/average_volume.py  | 10 ++++------
 festim/exports/derived_quantities/total_surface.py   | 10 ++++------
 festim/exports/derived_quantities/total_volume.py    | 10 ++++------
 4 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/festim/exports/derived_quantities/average_surface.py b/festim/exports/derived_quantities/average_surface.py
index c56e0d7..8f154d7 100644
--- a/festim/exports/derived_quantities/average_surface.py
+++ b/festim/exports/derived_quantities/average_surface.py
@@ -89,9 +89,8 @@ class AverageSurfaceCylindrical(AverageSurface):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            # the function may be a sum of functions (retention)
+            mesh = self.function.ufl_domain().ufl_cargo()
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
 
diff --git a/festim/exports/derived_quantities/average_volume.py b/festim/exports/derived_quantities/average_volume.py
index 6428c0e..14bb4ed 100644
--- a/festim/exports/derived_quantities/average_volume.py
+++ b/festim/exports/derived_quantities/average_volume.py
@@ -88,9 +88,8 @@ class AverageVolumeCylindrical(AverageVolume):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            # the function may be a sum of functions (retention)
+            mesh = self.function.ufl_domain().ufl_cargo()
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
 
@@ -131,9 +130,8 @@ class AverageVolumeSpherical(AverageVolume):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            # the function may be a sum of functions (retention)
+            mesh = self.function.ufl_domain().ufl_cargo()
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
 
diff --git a/festim/exports/derived_quantities/total_surface.py b/festim/exports/derived_quantities/total_surface.py
index db8c1c7..8148941 100644
--- a/festim/exports/derived_quantities/total_surface.py
+++ b/festim/exports/derived_quantities/total_surface.py
@@ -125,9 +125,8 @@ class TotalSurfaceCylindrical(TotalSurface):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            # the function may be a sum of functions (retention)
+            mesh = self.function.ufl_domain().ufl_cargo()
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
 
@@ -209,9 +208,8 @@ class TotalSurfaceSpherical(TotalSurface):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            # the function may be a sum of functions (retention)
+            mesh = self.function.ufl_domain().ufl_cargo()
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
 
diff --git a/festim/exports/derived_quantities/total_volume.py b/festim/exports/derived_quantities/total_volume.py
index b197ca3..17109ae 100644
--- a/festim/exports/derived_quantities/total_volume.py
+++ b/festim/exports/derived_quantities/total_volume.py
@@ -124,9 +124,8 @@ class TotalVolumeCylindrical(TotalVolume):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            # the function may be a sum of functions (retention)
+            mesh = self.function.ufl_domain().ufl_cargo()
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
 
@@ -206,9 +205,8 @@ class TotalVolumeSpherical(TotalVolume):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            # the function may be a sum of functions (retention)
+            mesh = self.function.ufl_domain().ufl_cargo()
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
 
-- 
2.43.0


From 396294a4365eb476729c85c6467ad255d19038df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:10 +0000
Subject: [PATCH 20/33] fix: MaximumSurface and MinimumSurface in derived
 quantities

They were computed without the surface markers (TypeError) and the facet
indices were used as cell indices.
---
 .../derived_quantities/derived_quantities.py  |  5 ++++
 .../derived_quantities/derived_quantity.py    | 28 +++++++++++++++++++
 .../derived_quantities/maximum_surface.py     | 14 +---------
 .../derived_quantities/minimum_surface.py     | 14 +---------
 festim/exports/exports.py                     |  8 +++++-
 5 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 42eec15..eb62026 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -1,4 +1,6 @@
 from festim import (
+    MinimumSurface,
+    MaximumSurface,
     MinimumVolume,
     MaximumVolume,
     DerivedQuantity,
@@ -106,6 +108,7 @@ class DerivedQuantities(list):
 
     def assign_measures_to_quantities(self, dx, ds):
         self.volume_markers = dx.subdomain_data()
+        self.surface_markers = ds.subdomain_data()
         for quantity in self:
             quantity.dx = dx
             quantity.ds = ds
@@ -129,6 +132,8 @@ class DerivedQuantities(list):
         for quantity in self:
             if isinstance(quantity, (MaximumVolume, MinimumVolume)):
                 value = quantity.compute(self.volume_markers)
+            elif isinstance(quantity, (MaximumSurface, MinimumSurface)):
+                value = quantity.compute(self.surface_markers)
             else:
                 value = quantity.compute()
 
diff --git a/festim/exports/derived_quantities/derived_quantity.py b/festim/exports/derived_quantities/derived_quantity.py
index 9df98d8..54ef134 100644
--- a/festim/exports/derived_quantities/derived_quantity.py
+++ b/festim/exports/derived_quantities/derived_quantity.py
@@ -1,4 +1,6 @@
 from festim import Export
+import fenics as f
+import numpy as np
 
 
 class DerivedQuantity(Export):
@@ -96,3 +98,29 @@ class SurfaceQuantity(DerivedQuantity):
         if not isinstance(value, int) or isinstance(value, bool):
             raise TypeError("surface should be an int")
         self._surface = value
+
+    def get_surface_dofs(self, surface_markers):
+        """Finds the degrees of freedom of the function on the surface
+
+        Args:
+            surface_markers (fenics.MeshFunction): the markers of the surfaces
+
+        Returns:
+            numpy.array: the indices of the degrees of freedom
+        """
+        V = self.function.function_space()
+        mesh = V.mesh()
+        dm = V.dofmap()
+        mesh.init(surface_markers.dim(), mesh.topology().dim())
+
+        dofs = []
+        for entity in f.SubsetIterator(surface_markers, self.surface):
+            vertices = entity.entities(0)
+            for index in entity.entities(mesh.topology().dim()):
+                # the first dofs of a cell are those of its vertices
+                for vertex, dof in zip(
+                    f.Cell(mesh, index).entities(0), dm.cell_dofs(index)
+                ):
+                    if vertex in vertices:
+                        dofs.append(dof)
+        return np.unique(dofs)
diff --git a/festim/exports/derived_quantities/maximum_surface.py b/festim/exports/derived_quantities/maximum_surface.py
index e83bc0e..6ec7b04 100644
--- a/festim/exports/derived_quantities/maximum_surface.py
+++ b/festim/exports/derived_quantities/maximum_surface.py
@@ -1,5 +1,4 @@
 from festim import SurfaceQuantity
-import fenics as f
 import numpy as np
 
 
@@ -45,17 +44,6 @@ class MaximumSurface(SurfaceQuantity):
 
     def compute(self, surface_markers):
         """Maximum of f over subdomains facets marked with self.surface"""
-        V = self.function.function_space()
-
-        dm = V.dofmap()
-
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
-        )
+        subd_dofs = self.get_surface_dofs(surface_markers)
 
         return np.max(self.function.vector().get_local()[subd_dofs])
diff --git a/festim/exports/derived_quantities/minimum_surface.py b/festim/exports/derived_quantities/minimum_surface.py
index ec81482..978055f 100644
--- a/festim/exports/derived_quantities/minimum_surface.py
+++ b/festim/exports/derived_quantities/minimum_surface.py
@@ -1,5 +1,4 @@
 from festim import SurfaceQuantity
-import fenics as f
 import numpy as np
 
 
@@ -45,17 +44,6 @@ class MinimumSurface(SurfaceQuantity):
 
     def compute(self, surface_markers):
         """Minimum of f over subdomains facets marked with self.surface"""
-        V = self.function.function_space()
-
-        dm = V.dofmap()
-
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
-        )
+        subd_dofs = self.get_surface_dofs(surface_markers)
 
         return np.min(self.function.vector().get_local()[subd_dofs])
diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 989a4ae..b5fc94e 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -57,7 +57,13 @@ class Exports(list):
                     # check if function has to be projected
                     for quantity in export:
                         if isinstance(
-                            quantity, (festim.MaximumVolume, festim.MinimumVolume)
+                            quantity,
+                            (
+                                festim.MaximumVolume,
+                                festim.MinimumVolume,
+                                festim.MaximumSurface,
+                                festim.MinimumSurface,
+                            ),
                         ):
                             if not isinstance(
                                 label_to_function[quantity.field], f.Function
-- 
2.43.0


From 5d7cbf41198b2a0257ababa377f51a6b5313f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:59 +0000
Subject: [PATCH 21/33] fix: TXTExport with nested and flat material borders

---
 festim/exports/txt_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 283fa79..8958423 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -154,8 +154,8 @@ class TXTExport(festim.Export):
             borders = []
             for material in materials:
                 if material.borders:
-                    for border in material.borders:
-                        borders.append(border)
+                    # borders can be nested
+                    borders.extend(np.ravel(material.borders))
             borders = np.unique(borders)
 
             # Find indices of the closest duplicates to interfaces
-- 
2.43.0


From 4def797f235c567b44211dd91f3f594fd90b3580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:59 +0000
Subject: [PATCH 22/33] fix: a material with a single nested pair of borders

---
 festim/materials/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index 0224826..c5244a1 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -256,7 +256,7 @@ class Materials(list):
                 return material.id
             # else find the correct material
             else:
-                if isinstance(material.borders[0], list) and len(material.borders) > 1:
+                if isinstance(material.borders[0], list):
                     list_of_borders = material.borders
                 else:
                     list_of_borders = [material.borders]
-- 
2.43.0


From 1a38cfecfd1bbfabc9133e9666011cae0d644a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:33 +0000
Subject: [PATCH 23/33] fix: initialising a simulation again restarts its
 exports

The iteration counter and the append flag of the previous run decided which
time steps were exported and mixed the data of both runs.
---
 festim/generic_simulation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 5364852..3cd60ac 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -365,6 +365,10 @@ class Simulation:
         self.V_DG1 = FunctionSpace(self.mesh.mesh, "DG", 1)
         self.exports.V_DG1 = self.V_DG1
 
+        # forget the previous run
+        self.exports.nb_iterations = 0
+        self.exports.final_time = None
+
         # Define temperature
         if isinstance(self.T, festim.HeatTransferProblem):
             self.T.create_functions(self.materials, self.mesh, self.dt)
@@ -416,6 +420,11 @@ class Simulation:
                         q.soret = self.settings.soret
                         q.T = self.T.T
 
+            if isinstance(export, festim.XDMFExport):
+                # overwrite the data of a previous run
+                export.define_xdmf_file()
+                export.append = False
+
             if isinstance(export, festim.TXTExport):
                 # pre-process data depending on the chemical potential flag, trap element type,
                 #  and material borders
-- 
2.43.0


From b2b6ab744e89e0195dbb8524ba72adbffbdbfe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:53 +0000
Subject: [PATCH 24/33] fix: SurfaceKinetics with chemical_pot=True

The storage term of the subsurface mixed the current concentration with the
previous chemical potential.
---
 festim/concentration/mobile.py |  5 ++++-
 festim/concentration/theta.py  | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index 4529a6d..46f768b 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -220,7 +220,7 @@ class Mobile(Concentration):
                     if isinstance(bc, SurfaceKinetics):
                         bc.create_form(
                             solute,
-                            self.previous_solution,
+                            self.previous_mobile_concentration(),
                             self.test_function,
                             T,
                             ds,
@@ -243,3 +243,6 @@ class Mobile(Concentration):
 
     def mobile_concentration(self):
         return self.solution
+
+    def previous_mobile_concentration(self):
+        return self.previous_solution
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 5daab70..394b982 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,5 @@
 from festim import Mobile, k_B, as_subdomain_id
+from festim.materials.materials import ArheniusCoeff
 import fenics as f
 
 
@@ -81,6 +82,20 @@ class Theta(Mobile):
             + self.materials.sievert_marker * sieverts_to_concentration
         )
 
+    def previous_mobile_concentration(self):
+        """Returns the hydrogen concentration at the previous time step
+
+        Returns:
+            ufl.algebra.Sum: the previous hydrogen mobile concentration
+        """
+        S_n = ArheniusCoeff(
+            self.materials, self.volume_markers, self.T.T_n, "S_0", "E_S", degree=2
+        )
+        return (
+            self.materials.henry_marker * self.previous_solution**2 * S_n
+            + self.materials.sievert_marker * self.previous_solution * S_n
+        )
+
     def post_processing_solution_to_concentration(self):
         """Converts the post_processing_solution from theta to mobile
         concentration.
-- 
2.43.0


From 799d3a6594810817ed2f6d8b9fcae40d95b5479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:51 +0000
Subject: [PATCH 25/33] fix: extrinsic traps with lists of parameters

The density of an extrinsic trap is a single function: a trap with
parameters given per material raised an IndexError.
---
 festim/concentration/mobile.py     | 7 ++++++-
 festim/concentration/traps/trap.py | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index 46f768b..bad4a0d 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -149,7 +149,12 @@ class Mobile(Concentration):
                         E_k = trap.E_k[i]
                         p_0 = trap.p_0[i]
                         E_p = trap.E_p[i]
-                        density = trap.density[i]
+                        # extrinsic traps have a single density function
+                        density = (
+                            trap.density[i]
+                            if len(trap.density) > 1
+                            else trap.density[0]
+                        )
                     else:
                         k_0 = trap.k_0
                         E_k = trap.E_k
diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 4d1e390..527a45c 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -167,7 +167,8 @@ class Trap(Concentration):
                 E_k = self.E_k[i]
                 p_0 = self.p_0[i]
                 E_p = self.E_p[i]
-                density = self.density[i]
+                # extrinsic traps have a single density function
+                density = self.density[i] if len(self.density) > 1 else self.density[0]
             else:
                 k_0 = self.k_0
                 E_k = self.E_k
-- 
2.43.0


From d146facf192ebfb3c4f26a1b8be1f9023a99144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 26/33] fix: each trap has its own id

Automatically numbered traps could be given the id of another trap of the
simulation, and two traps could be given the same id. The fields of one of
them then silently stood for the other.
---
 festim/concentration/traps/traps.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index f99cec5..90818b2 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -45,9 +45,16 @@ class Traps(list):
             trap.make_materials(materials)
 
     def assign_traps_ids(self):
+        ids = [trap.id for trap in self if trap.id is not None]
+        if len(set(ids)) != len(ids):
+            raise ValueError("Some traps have the same id")
         for i, trap in enumerate(self, 1):
             if trap.id is None:
+                # don't reuse an id given by the user to another trap
+                while i in ids:
+                    i += 1
                 trap.id = i
+                ids.append(i)
 
     def create_forms(self, mobile, materials, T, dx, dt=None):
         self.F = 0
-- 
2.43.0


From 9ec78f6b7eda4649a2580de7c068dcd7358e3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 27/33] fix: a flux boundary condition on a trap is rejected

It passed the checks and was then ignored.
---
 festim/generic_simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 3cd60ac..b3bc289 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -258,6 +258,12 @@ class Simulation:
             if bc.field not in valid_fields:
                 raise ValueError(f"{bc.field} is not a valid field for BC")
 
+            # fluxes can only be applied to the mobile concentration and temperature
+            if isinstance(bc, festim.FluxBC) and bc.field not in ["T", 0]:
+                raise ValueError(
+                    f"{type(bc).__name__} cannot be applied to trap {bc.field}"
+                )
+
             # check SurfaceKinetics in 1D simulations
             if (
                 isinstance(bc, festim.SurfaceKinetics)
-- 
2.43.0


From b8ce9242863eca314ed088361b2a2d81ecb1c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:57 +0000
Subject: [PATCH 28/33] fix: XDMFExport of field "0" is labelled as the mobile
 concentration

---
 festim/exports/xdmf_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 0d96685..aa39cd1 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -6,6 +6,7 @@ import numpy as np
 
 field_to_label = {
     "solute": "mobile_concentration",
+    "0": "mobile_concentration",
     "T": "temperature",
     "retention": "retention",
     "trap": "trap_i_concentration",
-- 
2.43.0


From 079084454fa54ff12ce3e634359349554b7b990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 29/33] fix: TrapDensityXDMF of traps with user-defined ids

---
 festim/exports/exports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index b5fc94e..fd7109d 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -93,10 +93,11 @@ class Exports(list):
                             label_to_function["retention"] = f.project(
                                 label_to_function["retention"], self.V_DG1
                             )
-                    export.function = label_to_function[export.field]
                     if isinstance(export, festim.TrapDensityXDMF):
+                        export.function = label_to_function[export.trap.id]
                         export.write(self.t, dx)
                     else:
+                        export.function = label_to_function[export.field]
                         export.write(self.t)
                     export.append = True
 
-- 
2.43.0


From 35b5a0d619fbd4128a9b3e74880c1b18ee609963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:20 +0000
Subject: [PATCH 30/33] fix: extrinsic traps are rejected in steady state

Their density was never solved for and the trap was silently empty.
---
 festim/generic_simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index b3bc289..18a6cd6 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -346,6 +346,12 @@ class Simulation:
             )
         if self.settings.transient and self.dt is None:
             raise AttributeError("dt must be provided in transient simulations")
+        if not self.settings.transient and any(
+            isinstance(trap, festim.ExtrinsicTrapBase) for trap in self.traps
+        ):
+            raise AttributeError(
+                "Extrinsic traps can only be used in transient simulations"
+            )
         if not self.T:
             raise AttributeError("Temperature is not defined")
 
-- 
2.43.0


From 25c105ed8d671c5e47099e9a9df07bb4568fe75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:25 +0000
Subject: [PATCH 31/33] fix: extract_xdmf_labels returns the labels of all the
 fields of a file

Only the first field was considered and TemperatureFromXDMF rejected the others.
---
 festim/helpers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/festim/helpers.py b/festim/helpers.py
index 2f37662..13bcfdc 100644
--- a/festim/helpers.py
+++ b/festim/helpers.py
@@ -111,14 +111,13 @@ def extract_xdmf_labels(filename):
 
     domains = list(root)
     domain = domains[0]
-    grids = list(domain)
-    grid = grids[0]
 
     labels = []
-    for c in grid:
-        for element in c:
-            if "Attribute" in element.tag:
-                labels.append(element.attrib["Name"])
+    for grid in domain:
+        for c in grid:
+            for element in c:
+                if "Attribute" in element.tag:
+                    labels.append(element.attrib["Name"])
 
     unique_labels = list(set(labels))
     return unique_labels
-- 
2.43.0


From c9e86bc6693f4953f6bcc2ae0661a3b1759e1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:18 +0000
Subject: [PATCH 32/33] fix: derived quantities use the radial coordinate of
 the current mesh

Running a simulation again with another mesh raised a KeyError for the
cylindrical and spherical derived quantities, which kept the coordinate of the
first mesh.
---
 festim/exports/derived_quantities/derived_quantities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index eb62026..04d81f4 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -113,6 +113,9 @@ class DerivedQuantities(list):
             quantity.dx = dx
             quantity.ds = ds
             quantity.n = f.FacetNormal(dx.subdomain_data().mesh())
+            if hasattr(quantity, "r"):
+                # the radial coordinate of the mesh of these measures
+                quantity.r = f.SpatialCoordinate(dx.subdomain_data().mesh())[0]
 
     def assign_properties_to_quantities(self, materials):
         """Assign properties attributes to all DerivedQuantity objects
-- 
2.43.0


From b5941895cd3a26b0bec0069f5b44e4d445f5a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:16 +0000
Subject: [PATCH 33/33] fix: do not share the default sources, boundary and
 initial conditions between simulations

---
 festim/generic_simulation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 18a6cd6..d0b0f98 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -78,13 +78,13 @@ class Simulation:
         self,
         mesh=None,
         materials=None,
-        sources=[],
-        boundary_conditions=[],
+        sources=None,
+        boundary_conditions=None,
         traps=None,
         dt=None,
         settings=None,
         temperature=None,
-        initial_conditions=[],
+        initial_conditions=None,
         exports=None,
         log_level=40,
     ):
@@ -96,12 +96,16 @@ class Simulation:
         self.traps = traps
         self.materials = materials
 
-        self.boundary_conditions = boundary_conditions
-        self.initial_conditions = initial_conditions
+        self.boundary_conditions = (
+            [] if boundary_conditions is None else boundary_conditions
+        )
+        self.initial_conditions = (
+            [] if initial_conditions is None else initial_conditions
+        )
         self.T = temperature
         self.exports = exports
         self.mesh = mesh
-        self.sources = sources
+        self.sources = [] if sources is None else sources
 
         # internal attributes
         self.h_transport_problem = None
-- 
2.43.0

