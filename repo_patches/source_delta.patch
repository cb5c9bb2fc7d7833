From a7c8e3fe1de35c3ff78d1da8e703e72f112dd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 01/62] fix: gravity applied to particles stored its result
 under a nonexistent index attribute

---
 hydraxmpm/forces/gravity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 38a2af0..8821397 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -164,7 +164,7 @@ class Gravity(Force):
                 (mp_state.force_stack + gravity_impulse),
             )
 
-            mp_states[self.p_idx] = mp_state
+            mp_states[p_idx] = mp_state
 
         f_states[self.f_idx] = f_state
 
-- 
2.43.0


From 2e11e20e47ef03f539841421460af6162b220bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 02/62] fix: gather_from_grid read the stencil size from the
 cache, which has none

---
 hydraxmpm/shapefunctions/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index ee63ae5..d7e2ee8 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -329,7 +329,7 @@ class ShapeFunctionMapping(eqx.Module):
 
         # accumulate (gather)
         particle_accum = jnp.zeros(
-            (point_ids.shape[0] // cache.window_size, flat_data.shape[1])
+            (point_ids.shape[0] // self.window_size, flat_data.shape[1])
         )
         particle_accum = particle_accum.at[point_ids].add(flat_data)
 
-- 
2.43.0


From 5ec4def46ceb1deddc65ca295f363047e351495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 03/62] fix: bodies sharing a grid overwrote each other's grid
 forces

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c5ccdfb..604c82e 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -493,7 +493,7 @@ class USLSolver(BaseSolver):
             )
 
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(weighted_intern_force_stack + weighted_ext_force_stack)
             )
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 26e61c1..7c522e2 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -267,7 +267,7 @@ class USLAFLIP(USLSolver):
                 weighted_moment_stack
             )
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(total_intr_force)
             )
-- 
2.43.0


From c8fc0ce0242ef205caf3b7d00c8a71e3ae014085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 04/62] fix: affine state was read by solver index but gathered
 and stored by point index

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 7c522e2..3aef672 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -311,7 +311,7 @@ class USLAFLIP(USLSolver):
             grid_domain = self.grid_domains[c.g_idx]
             mp_state = mp_states[c.p_idx]
             intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]
-            solver_state = solver_states[c.p_idx]
+            solver_state = solver_states[c.s_idx]
 
             # --- Operations in interaction space ---
             # Gather grid data
@@ -542,7 +542,7 @@ class USLAFLIP(USLSolver):
                 (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L_next, p_F_store_next),
             )
 
-            solver_states[c.p_idx] = eqx.tree_at(
+            solver_states[c.s_idx] = eqx.tree_at(
                 lambda s: s.Bp_stack, solver_state, p_Bp
             )
 
-- 
2.43.0


From 4d44aa0978b9f0dbdbb2bf1dd25c69db46188402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 05/62] fix: volume of a single-point body collapsed to a
 scalar in grid-to-particle

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 604c82e..6e1c921 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -714,7 +714,7 @@ class USLSolver(BaseSolver):
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
             J = jnp.linalg.det(p_F_next)
-            p_volume_next = (J[:, None] * mp_state.volume0_stack[:, None]).squeeze()
+            p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
                 lambda s: (
                     s.velocity_stack,
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 3aef672..5ebd965 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -507,9 +507,7 @@ class USLAFLIP(USLSolver):
 
             J_next = jnp.linalg.det(p_F_next)
 
-            p_volume_next = (
-                J_next[:, None] * mp_state.volume0_stack[:, None]
-            ).squeeze()
+            p_volume_next = J_next * mp_state.volume0_stack
 
             # Separable correction to avoid avoid positional trap
             # Use a mix of PIC and FLIP specifically for position to avoid noise
-- 
2.43.0


From 817af559168b7f76489f25fbfc09cc94254a96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 06/62] fix: shear reset in plane strain zeroed the
 out-of-plane stretch, making det(F) zero

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 9fda52c..6269cee 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -42,7 +42,7 @@ class ConstitutiveLaw(eqx.Module):
             if dim == 2:
 
                 scale = jnp.sqrt(J)
-                return jnp.diag(jnp.array([scale, scale, 0.0]))
+                return jnp.diag(jnp.array([scale, scale, 1.0]))
             else:
                 # 3D cbar element-wise cube root
                 scale = jnp.cbrt(J)
-- 
2.43.0


From 4db12d543710adf53b60a1bc2aaa9bf91b9f3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 07/62] fix: the stored deformation gradient lost its history
 at every shear reset and was not advanced by USL

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 7 +------
 hydraxmpm/solvers/usl.py                        | 8 ++++++++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 6269cee..a9dba2c 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -51,12 +51,7 @@ class ConstitutiveLaw(eqx.Module):
 
         new_F_stack = jax.vmap(compute_cbar)(mp_state.F_stack)
 
-        if mp_state.F_store_stack is not None:
-            new_F_store_stack = mp_state.F_stack
-        else:
-            new_F_store_stack = None
-
-        new_mp = eqx.tree_at(lambda m: (m.F_stack,m.F_store_stack), mp_state, (new_F_stack, new_F_store_stack))
+        new_mp = eqx.tree_at(lambda m: m.F_stack, mp_state, new_F_stack)
 
 
         return new_mp
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 6e1c921..be27fa1 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -713,6 +713,14 @@ class USLSolver(BaseSolver):
             if grid_cache.dim == 2:
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
+            if mp_state.F_store_stack is not None:
+                p_F_store_next = jnp.einsum(
+                    "ijk,ikl->ijl", F_inc, mp_state.F_store_stack
+                )
+                mp_state = eqx.tree_at(
+                    lambda s: s.F_store_stack, mp_state, p_F_store_next
+                )
+
             J = jnp.linalg.det(p_F_next)
             p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
-- 
2.43.0


From 5b0cf53401f7a654204ed2aff5c6450aedc6b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 08/62] fix: solver received grids and laws per coupling
 although they are addressed by registration index

---
 hydraxmpm/common/builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index a9476b8..c4a1835 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -319,13 +319,9 @@ class SimBuilder:
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
 
-        grid_domains = tuple(self.grid_domains[coupling.g_idx] for coupling in couplings)
-
-        # law can be None if rigid particles are used
-        laws = tuple(
-            self.law_logics[coupling.c_idx] if coupling.c_idx is not None else None
-            for coupling in couplings
-        )
+        # couplings and forces address grids and laws by their global index
+        grid_domains = tuple(self.grid_domains)
+        laws = tuple(self.law_logics)
 
         if scheme.lower() == "usl":
             solver = USLSolver(
-- 
2.43.0


From 077bb60b28dc035e2613c8a57dfcaae9c958dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 09/62] fix: solver states were appended per solver although
 couplings address them by coupling index

---
 hydraxmpm/common/builder.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index c4a1835..333be91 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -343,16 +343,15 @@ class SimBuilder:
             )
 
         # Here we assume that each coupling maps
-        # to one solver state
+        # to one solver state, stored at the index of its coupling
+        while len(self.solver_states) < len(self.couplings):
+            self.solver_states.add(None)
+
         for coupling in couplings:
             mp_state = self.particle_states[coupling.p_idx]
 
-            if isinstance(mp_state, RigidMaterialPointState):
-                solver_state = None
-            else:
-                solver_state = solver.create_state(mp_state)
-
-            self.solver_states.add(solver_state)
+            if not isinstance(mp_state, RigidMaterialPointState):
+                self.solver_states[coupling.s_idx] = solver.create_state(mp_state)
 
         s_idx = self.solver_logics.add(solver)
         return s_idx
-- 
2.43.0


From 35d3de7912009d07a9761af27cf83d572a88a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 10/62] fix: adding an obstacle collider shifted the states of
 all forces added after it

---
 hydraxmpm/common/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 333be91..2ba9248 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -438,6 +438,7 @@ class SimBuilder:
         )
 
         f_idx = self.force_logics.add(sdf_collider)
+        self.force_states.append(None)  # keep states aligned with logics
 
         return f_idx
 
-- 
2.43.0


From 3800a87c268e397b82786f2a4fb278c2acc0bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 11/62] fix: the friction given to add_sdf_collider was ignored

---
 hydraxmpm/common/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 2ba9248..1408413 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -419,7 +419,7 @@ class SimBuilder:
         self,
         sdf_idx: int = None,
         g_idx_list: list[int] = None,
-        friction: float = 0.0,
+        friction: float = 1.0,
         gap: float = 1e-4,
     ):
         """Convenience method for adding objects."""
@@ -435,6 +435,7 @@ class SimBuilder:
             sdf_idx=sdf_idx,
             g_idx_list=g_idx_list,
             gap=gap,
+            friction=friction,
         )
 
         f_idx = self.force_logics.add(sdf_collider)
-- 
2.43.0


From 702ff26071e2bf65a3897a1203ff58e5e30d6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 12/62] fix: the classic APIC update failed on a missing
 attribute and had the opposite sign of the MLS one

---
 hydraxmpm/solvers/usl_asflip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 5ebd965..547a8c0 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -409,7 +409,8 @@ class USLAFLIP(USLSolver):
                 dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size
 
                 # shape_vals (N,) * outer(v (N,3), dist (N,3)) -> (N,3,3)
-                weighted_Bp_term = intr_cache.shape_vals[:, None, None] * jnp.einsum(
+                # compression positive, as in the MLS update
+                weighted_Bp_term = -intr_cache.shape_vals[:, None, None] * jnp.einsum(
                     "ni,nj->nij", intr_vels_nt_3d, dist_vec_phys
                 )
 
@@ -444,7 +445,7 @@ class USLAFLIP(USLSolver):
             else:
                 # classic APIC needs the inverse of Dp, where
                 # Dp = 1/4 * dx^2 * I (Quadratic) or 1/3 * dx^2 * I (Cubic)
-                if c.shapefunction == "cubic":
+                if c.shape_map.shapefunction == "cubic":
                     coeff = 1.0 / 3.0
                 else:
                     coeff = 1.0 / 4.0
-- 
2.43.0


From 54d6139751e58620712fcd6da5187a3f67e50747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 13/62] fix: USL accumulated the transposed velocity gradient

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index be27fa1..51935ba 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -670,7 +670,7 @@ class USLSolver(BaseSolver):
             # As L_ij = v_i * grad_j
             # compression positive convention for L, 
             weighted_L = jnp.einsum(
-                "ij,ik->ijk", intr_cache.shape_grads, -intr_vels_nt_3d
+                "ij,ik->ijk", -intr_vels_nt_3d, intr_cache.shape_grads
             )
 
   
-- 
2.43.0


From 83ed17c98842281e1a7a5362da3e1bbfe9d6ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 14/62] fix: Newtonian fluid pressure had the sign of the
 tension-positive convention and pulled compressed fluid together

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 439a17e..83e4b5d 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -119,8 +119,8 @@ class NewtonFluid(ConstitutiveLaw):
         p = jnp.maximum(p, 0.0) 
 
         # Cauchy stress calculation
-        # sigma = -pI + 2*mu*dev(D)
-        stress = -p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
+        # compression positive: sigma = pI + 2*mu*dev(D)
+        stress = p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
 
 
         return stress
-- 
2.43.0


From 0d1f8e45e7821daf4e55c855de239c68edea306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 15/62] fix: NewtonFluid.create_state passed the density
 argument twice

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 83e4b5d..00c14f7 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -81,8 +81,8 @@ class NewtonFluid(ConstitutiveLaw):
         density_initial_stack = material_points.mass_stack/ material_points.volume0_stack
         
         return self.create_state_from_density(
-            material_points.pressure_stack,
-            density_stack=density_initial_stack
+            density_stack=density_initial_stack,
+            pressure_stack=material_points.pressure_stack,
         )
  
 
-- 
2.43.0


From 4304fc29fcccc4a3ff56cf0f9c99f47fa3049934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 16/62] fix: Drucker-Prager time-step estimate read a
 nonexistent attribute

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 2a9142b..91afc84 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -208,7 +208,7 @@ class DruckerPrager(ConstitutiveLaw):
 
     def get_dt_crit(self, mp_state: MaterialPointState, cell_size: float, alpha: float = 0.5):
         """Critical timestep for stability based on P-wave speed."""
-        rho_stack = mp_state.rho_stack
+        rho_stack = mp_state.density_stack
 
         c_p = jnp.sqrt((self.K + (4.0 / 3.0) * self.G) / rho_stack)
         
-- 
2.43.0


From bc919d0118ff0ab693a1933aa5905fd068bb187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 17/62] fix: ModifiedCamClay.create_state built its
 overconsolidation ratios with an invalid shape

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index a68f85b..9b377f0 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -337,7 +337,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
         mcc_state,*_ = self.create_state_from_ocr(
             p_stack=mp_state.pressure_stack,
-            ocr_stack =jnp.full((mp_state.position_stack.shape[0], 1.0))
+            ocr_stack =jnp.full((mp_state.position_stack.shape[0],), 1.0)
         )
 
         return mcc_state
-- 
2.43.0


From 26e82316f01c0610d5e8913c7a6075740d0b6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 18/62] fix: ModifiedCamClay.create_state_from_ocr pushed
 admissible deviatoric stresses onto the yield surface

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 9b377f0..b81e424 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -238,7 +238,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             q_p_ys_stack = get_qp_ys(p_c_stack, p_stack, self.M)
             
-            yf_check = jnp.abs(q_p_inp_stack - q_p_ys_stack)
+            yf_check = q_p_inp_stack - q_p_ys_stack
 
             q_p_stack = jnp.where(yf_check > 0, q_p_ys_stack, q_p_inp_stack)
 
-- 
2.43.0


From be81c9b5aa127a1784a9690cd4b0ba589e3fca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 19/62] fix: ModifiedCamClay states created from stress or
 density lacked the reference stress the update needs

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index b81e424..9b4fb5a 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -285,7 +285,12 @@ class ModifiedCamClay(ConstitutiveLaw):
         density_stack = self.rho_p / specific_volume_stack
 
         eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
-        return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e),density_stack
+        stress_ref_stack = reconstruct_stress_from_triaxial(
+            p_stack=p_stack, q_stack=q_stack
+        )
+        return ModifiedCamClayState(
+            p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e
+        ), density_stack
 
 
     def create_state_from_density(
@@ -327,7 +332,12 @@ class ModifiedCamClay(ConstitutiveLaw):
             eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
             
             # Return same specific volume back confirms it was used
-            return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e), specific_volume_stack
+            stress_ref_stack = reconstruct_stress_from_triaxial(
+                p_stack=p_stack, q_stack=jnp.zeros_like(p_stack)
+            )
+            return ModifiedCamClayState(
+                p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e
+            ), specific_volume_stack
 
     def create_state(
         self,
-- 
2.43.0


From b4458dea016d8f624477fa01f05bd8815b17c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 20/62] fix: Drucker-Prager apex return decreased the
 accumulated plastic strain and softened a hardening material

---
 hydraxmpm/constitutive_laws/druckerprager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 91afc84..59a0547 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -184,10 +184,11 @@ class DruckerPrager(ConstitutiveLaw):
                 alpha = self.mu_2 / jnp.maximum(self.mu_1, 1e-8)
                 
                 # Solve deps_p_v
-                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 - self.H * self.mu_2 * alpha, 1e-12)
+                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 + self.H * self.mu_2 * alpha, 1e-12)
                 
                 p_apex = p_tr - self.K * deps_p_v
-                eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v
+                # compression positive: dilation has deps_p_v < 0
+                eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v
                 
                 stress_apex = +p_apex * jnp.eye(3)
                 eps_e_v_apex = (p_apex - p_0) / self.K
-- 
2.43.0


From 752e2845443356a68f3d8608099259f20d506170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 21/62] fix: dilatant Drucker-Prager flow lowered the pressure
 and returned stresses outside the yield cone

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 59a0547..ca44292 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -159,7 +159,7 @@ class DruckerPrager(ConstitutiveLaw):
             # Pull to Cone
             pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)
             
-            p_cone = p_tr - self.K * pmulti * self.mu_1_hat
+            p_cone = p_tr + self.K * pmulti * self.mu_1_hat
             sqrt_J2_cone = sqrt_J2_tr - self.G * pmulti
             
             # If sqrt_J2_cone < 0, we hit the apex
-- 
2.43.0


From 826431c2252ec3f52f98b0b7b0c89d7d328ea73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 22/62] fix: the plastic laws rotated their stress against the
 material's spin

---
 hydraxmpm/constitutive_laws/druckerprager.py   | 3 ++-
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index ca44292..3709c82 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -127,7 +127,8 @@ class DruckerPrager(ConstitutiveLaw):
     ):
         # kinematics
         D = get_sym_tensor(L)
-        W = get_spin_tensor(L)
+        # L is compression positive, so the material spins with its negative
+        W = -get_spin_tensor(L)
         deps = D * dt
 
         # objective rate correction (Jaumann)
diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 9b4fb5a..6a39b88 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -395,7 +395,8 @@ class ModifiedCamClay(ConstitutiveLaw):
 
     
         D = get_sym_tensor(L) # symmetric part
-        W = get_spin_tensor(L) # skew-symmetric part
+        # L is compression positive, so the material spins with its negative
+        W = -get_spin_tensor(L)
 
 
         deps_next = D * dt
-- 
2.43.0


From 8f1be6b833838d00ede7891af88b2a94999addeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 23/62] fix: get_dev_strain_stack called itself forever

---
 hydraxmpm/utils/math_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 8ac1291..ea9db54 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -285,8 +285,8 @@ def get_hencky_strain_stack(F_stack):
 
 
 def get_dev_strain_stack(strain_stack):
-    """Get strain rate tensor from a stack of velocity gradients."""
-    return get_dev_strain_stack(strain_stack)
+    """Get deviatoric strain tensor from a stack of strain tensors."""
+    return get_dev_strain(strain_stack)
 
 def get_strain_rate_tensor_stack(L_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
-- 
2.43.0


From 0a6e337970513736f3e092f5d081a240b42cef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 24/62] fix: get_scalar_shear_strain passed an argument its
 helper does not take

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index ea9db54..cfbdde5 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -309,7 +309,7 @@ def get_scalar_shear_strain(
 ):
     """Get scalar shear strain gamma = sqrt(1/2 trace(e_dev @ e_dev.T))."""
     if dev_strain is None:
-        dev_strain = get_dev_strain(strain, volumetric_strain, dim)
+        dev_strain = get_dev_strain(strain, volumetric_strain)
 
     return jnp.sqrt(0.5 * jnp.trace(dev_strain @ dev_strain.T))
 
-- 
2.43.0


From f76cd495e8d01d41092b829c752d75cd3471f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 25/62] fix: void ratio from densities was the specific volume,
 so the solid fraction was wrong too

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index cfbdde5..16060b2 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -519,7 +519,7 @@ def get_phi_from_L(L, phi_prev, dt):
 
 def get_e_from_bulk_density(absolute_density, bulk_density):
     """Get void ratio from absolute and bulk density."""
-    return absolute_density / bulk_density
+    return absolute_density / bulk_density - 1.0
 
 
 def get_phi_from_bulk_density(absolute_density, bulk_density):
-- 
2.43.0


From c5124692e184f9289b69a2e36902e3bf760300db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 26/62] fix: a 3D hollow cylinder ignored its height and filled
 the half space below its centre

---
 hydraxmpm/sdf/sdfcollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f010aca..c74b017 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -170,7 +170,7 @@ class HollowCylinderSDF(SDFObjectBase):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
             r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
-            d_y = pos_local[1]
+            d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
-- 
2.43.0


From 6530cfbdb760bd316c77d9af150648fbaed81e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 27/62] fix: obstacle normals were not-a-number at a shape's
 centre, axis or edge, poisoning every point around such a node

---
 hydraxmpm/sdf/sdfcollection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index c74b017..9c15a98 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -79,7 +79,7 @@ class SphereSDF(SDFObjectBase):
         self, state: SDFObjectState, p_local: Float[Array, "dim"]
     ) -> Float[Array, ""]:
         # length(p) - r
-        return jnp.linalg.norm(p_local) - self.radius
+        return safe_norm(p_local) - self.radius
 
     def signed_distance(
         self, state: SDFObjectState, pos_world: Float[Array, "dim"]
@@ -169,14 +169,14 @@ class HollowCylinderSDF(SDFObjectBase):
     def signed_distance_local(self, state, pos_local):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
-            r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
+            r = safe_norm(pos_local[jnp.array([0, 2])])
             d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
                 # Radial distance is magnitude of vector (x,y)
                 r_xz = jnp.abs(pos_local[0])
-                r = jnp.linalg.norm(pos_local)
+                r = safe_norm(pos_local)
 
                 # Height is irrelevant/infinite for a 2D ring shape
                 d_y = -1e9
@@ -271,7 +271,7 @@ class TorusSDF(SDFObjectBase):
         q = jnp.array([q_x, q_y])
 
         # Distance from the circle is the norm minus tube radius
-        return jnp.linalg.norm(q) - self.minor_r
+        return safe_norm(q) - self.minor_r
 
 
 class StarSDF(SDFObjectBase):
@@ -350,7 +350,7 @@ class StarSDF(SDFObjectBase):
 
         # Distance vector
         dist_vec = p_wedge - closest
-        dist = jnp.linalg.norm(dist_vec)
+        dist = safe_norm(dist_vec)
 
         # sign Correction (Inside vs Outside)
         cross = edge[0] * (p_wedge[1] - v1[1]) - edge[1] * (p_wedge[0] - v1[0])
-- 
2.43.0


From 9086023f6ecc032ad1d16a47a83ccd039120e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 28/62] fix: USL with obstacles crashed for single-point bodies

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 51935ba..c053346 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -616,7 +616,7 @@ class USLSolver(BaseSolver):
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
-                        sim_cache.mp_geoms[(c.p_idx, s)].dists.squeeze()
+                        sim_cache.mp_geoms[(c.p_idx, s)].dists
                         for s in range(num_sdfs)
                     ]
                 )
-- 
2.43.0


From 5ef4ff282288befad1b879303753cd23e452898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 29/62] fix: round-off in the number of cells made grids drop
 their last row of nodes

---
 hydraxmpm/grid/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 248473a..a115771 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -62,7 +62,8 @@ class GridDomain(eqx.Module):
 
         # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        grid_size = tuple(int(s + 1) for s in raw_size)
+        # tolerate round-off in the division, else a domain of n cells may lose its last node
+        grid_size = tuple(int(s + 1 + 1e-4) for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From 3f443e9017bd9c1b60be7008ee2d6af997ebc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 30/62] fix: add_gravity rejected the gravity tuples it
 documents

---
 hydraxmpm/common/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 1408413..f73b0a2 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -1,5 +1,6 @@
 
 import jax
+import jax.numpy as jnp
 
 from hydraxmpm.solvers.usl import USLSolver
 from ..grid.grid import GridDomain
@@ -259,7 +260,7 @@ class SimBuilder:
             f_idx=f_idx,
         )
         f_idx = self.force_logics.add(gravity_force)
-        self.force_states.append(gravity_force.create_state(gravity=gravity))
+        self.force_states.append(gravity_force.create_state(gravity=jnp.asarray(gravity)))
 
         return f_idx
 
-- 
2.43.0


From 5a9d8e39e517b15b5af78647431490dbde418850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 31/62] fix: forces on points defaulted to all bodies and
 crashed on rigid ones

---
 hydraxmpm/common/builder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index f73b0a2..66068e2 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -235,6 +235,14 @@ class SimBuilder:
 
         return couple_idx
 
+    def _deformable_ids(self) -> List[int]:
+        """Indices of all bodies that carry forces (rigid bodies do not)."""
+        return [
+            p_idx
+            for p_idx, mp_state in enumerate(self.particle_states)
+            if not isinstance(mp_state, RigidMaterialPointState)
+        ]
+
     # Forces and force  handles
     def add_gravity(
         self,
@@ -249,7 +257,7 @@ class SimBuilder:
             list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
         )
         p_idx_list = (
-            list(range(len(self.particle_states))) if p_idx_list is None else p_idx_list
+            self._deformable_ids() if p_idx_list is None else p_idx_list
         )
 
         f_idx = len(self.force_logics)
@@ -277,7 +285,7 @@ class SimBuilder:
             list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
         )
         p_idx_list = (
-            list(range(len(self.particle_states))) if p_idx_list is None else p_idx_list
+            self._deformable_ids() if p_idx_list is None else p_idx_list
         )
 
         f_idx = len(self.force_logics)
-- 
2.43.0


From b3f41e1f1c38dc456678aef2107e2d71d4e5c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 32/62] fix: the configured support range of the dynamic
 blending was ignored

---
 hydraxmpm/solvers/usl_asflip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 547a8c0..061cbee 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -472,7 +472,12 @@ class USLAFLIP(USLSolver):
                 )
 
                 support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)
-                alpha_scale = jnp.clip((support_ratio - 1.1) / 0.4, 0.0, 1.0)
+                alpha_scale = jnp.clip(
+                    (support_ratio - self.alpha_support_min)
+                    / (self.alpha_support_max - self.alpha_support_min),
+                    0.0,
+                    1.0,
+                )
                 dynamic_alpha = self.alpha * alpha_scale[:, None]
             else:
                 dynamic_alpha = self.alpha
-- 
2.43.0


From 50360a90d755e20050576c09959c40e4eba6e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 33/62] fix: giving a solver a subset of the obstacles
 mismatched and dropped obstacle states

---
 hydraxmpm/common/builder.py     |  6 ++++--
 hydraxmpm/solvers/usl.py        | 12 +++++++++---
 hydraxmpm/solvers/usl_asflip.py |  2 ++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 66068e2..5b135a6 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -325,10 +325,10 @@ class SimBuilder:
         
         couplings = tuple(self.couplings[i] for i in b_idx_list)
         forces = tuple(self.force_logics[i] for i in f_idx_list)
-        sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
 
-        # couplings and forces address grids and laws by their global index
+        # couplings and forces address grids, laws and objects by their global index
+        sdf_logics = tuple(self.sdf_logics)
         grid_domains = tuple(self.grid_domains)
         laws = tuple(self.law_logics)
 
@@ -338,6 +338,7 @@ class SimBuilder:
                 couplings=couplings,
                 forces=forces,
                 sdf_logics=sdf_logics,
+                sdf_idx_list=tuple(sdf_idx_list),
                 grid_domains=grid_domains,
                 **solver_params,
             )
@@ -347,6 +348,7 @@ class SimBuilder:
                 forces=forces,
                 couplings=couplings,
                 sdf_logics=sdf_logics,
+                sdf_idx_list=tuple(sdf_idx_list),
                 grid_domains=grid_domains,
                 **solver_params,
             )
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c053346..c8da078 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -81,6 +81,9 @@ class USLSolver(BaseSolver):
 
     sdf_mp_sharpness: float = eqx.field(static=True, default=1000.0)
 
+    # objects advanced by this solver (None: all), as indices of sdf_logics
+    sdf_idx_list: Optional[Tuple[int, ...]] = eqx.field(static=True, default=None)
+
     def __init__(
         self,
         *,
@@ -91,6 +94,7 @@ class USLSolver(BaseSolver):
         sdf_logics: Optional[Tuple[SDFObjectBase, ...]] = (),
         alpha=0.99,
         sdf_mp_sharpness: float = 1000.0,
+        sdf_idx_list: Optional[Tuple[int, ...]] = None,
     ):
         self.constitutive_laws = constitutive_laws
         self.couplings = couplings
@@ -100,6 +104,7 @@ class USLSolver(BaseSolver):
         self.alpha = alpha
 
         self.sdf_mp_sharpness = sdf_mp_sharpness
+        self.sdf_idx_list = sdf_idx_list
         p_set = sorted(list(set(c.p_idx for c in couplings)))
         g_set = sorted(list(set(c.g_idx for c in couplings)))
 
@@ -196,11 +201,12 @@ class USLSolver(BaseSolver):
                 world, mechanics, self.sdf_logics, self.couplings, dt, time
             )
 
-        new_sdf_states = []
+        new_sdf_states = list(world.sdfs)
         for i, sdf_logic in enumerate(self.sdf_logics):
+            if self.sdf_idx_list is not None and i not in self.sdf_idx_list:
+                continue
 
-            sdf_state = sdf_logic.update_kinematics(world.sdfs[i], dt)
-            new_sdf_states.append(sdf_state)
+            new_sdf_states[i] = sdf_logic.update_kinematics(world.sdfs[i], dt)
 
         # Repack
         world = eqx.tree_at(lambda w: w.sdfs, world, tuple(new_sdf_states))
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 061cbee..a334513 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -141,6 +141,7 @@ class USLAFLIP(USLSolver):
         use_mls_update: bool = True,
         small_mass_cutoff: float = 1.0e-7,
         cfl_limit: float = 0.5,
+        sdf_idx_list: Optional[Tuple[int, ...]] = None,
     ):
 
         # MLS Update in G2P
@@ -167,6 +168,7 @@ class USLAFLIP(USLSolver):
         self.couplings = couplings
         self.forces = forces
         self.sdf_logics = sdf_logics
+        self.sdf_idx_list = sdf_idx_list
 
         p_set = sorted(list(set(c.p_idx for c in couplings)))
         g_set = sorted(list(set(c.g_idx for c in couplings)))
-- 
2.43.0


From bd13c04313908f11808cefbf3cf9e43c7eb4785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 34/62] fix: compiled code put points at cell centers on a
 stencil one cell off with the quadratic kernel

---
 hydraxmpm/shapefunctions/mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index d7e2ee8..e110a69 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -172,7 +172,10 @@ class ShapeFunctionMapping(eqx.Module):
             
             # apply shift for quadratic splines
             if needs_shift:
-                base_id_float = jnp.floor(base_pos - 0.5)
+                # floor(base_pos - 0.5), counted in half cells: a compiler may contract the
+                # subtraction into a fused multiply-add in some uses of the index and not
+                # in others, which puts points at cell centers on different stencils
+                base_id_float = jnp.floor(0.5 * (jnp.floor(2.0 * base_pos) - 1.0))
             else:
                 base_id_float = jnp.floor(base_pos)
 
-- 
2.43.0


From 4770474e89547feb820fb93811807ad2a61694a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 35/62] fix: regular filling placed its points a whole unit
 instead of a cell apart, repeating some and missing most

---
 hydraxmpm/utils/generate_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 351621b..fab6bce 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -74,7 +74,7 @@ def generate_particles_in_sdf(
         # offsets has shape  (1, N_offsets, dim)
         # gives shifted origins and we reshape (N_cells * N_offsets, dim)
         candidate_point_stack = (
-            grid_origins_flat[:, None, :] + offsets[None, :, :]
+            grid_origins_flat[:, None, :] + offsets[None, :, :] * cell_size
         ).reshape(-1, dim)
 
     dists = sdf_obj.get_signed_distance_stack(sdf_state, candidate_point_stack)
-- 
2.43.0


From 061ee92dcaccc3c6119642edc60444d7684962db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 36/62] fix: whole-number wall frictions of a container or
 union were rejected when evaluated

---
 hydraxmpm/sdf/sdfcollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index 9c15a98..ff7370e 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -369,7 +369,7 @@ class CompositeSDF(SDFObjectBase):
 
     def __init__(self, shapes, frictions):
         self.shapes = shapes
-        self.frictions = jnp.asarray(frictions)
+        self.frictions = jnp.asarray(frictions, dtype=float)
 
     def signed_distance_local(self, state, p_local):
         # Evaluate all
@@ -421,9 +421,9 @@ class DomainSDF(SDFObjectBase):
 
         # Handle Friction inputs (Broadcast scalar -> array)
         if isinstance(frictions, (float, int)):
-            self.frictions = jnp.full((num_walls,), frictions)
+            self.frictions = jnp.full((num_walls,), float(frictions))
         else:
-            self.frictions = jnp.asarray(frictions)
+            self.frictions = jnp.asarray(frictions, dtype=float)
             if self.frictions.shape[0] != num_walls:
                 raise ValueError(
                     f"Expected {num_walls} frictions, got {self.frictions.shape[0]}"
-- 
2.43.0


From e1904184dfa18ba1c0a813a13975179b59a43ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 37/62] fix: granular law mobilised only half of its friction
 coefficient

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a9dd603..6eb7dbb 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -177,7 +177,8 @@ class MuI_LC(ConstitutiveLaw):
             eta_total = eta_s + eta_d
             
 
-            stress = p_safe * jnp.eye(3) + eta_total * deps_dev
+            # shear rate tensor of Jop et al. is twice the strain rate
+            stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev
             return stress
 
 
-- 
2.43.0


From 933b2df9fbfbc1b37a79c8c2d44c662d5610d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 38/62] fix: Drucker-Prager state dropped the initial shear
 stress, which vanished on the first update

---
 hydraxmpm/constitutive_laws/druckerprager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 3709c82..889d624 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -79,8 +79,14 @@ class DruckerPrager(ConstitutiveLaw):
         # Initial pressure from the material point state
         p_0_stack = jax.vmap(get_pressure)(stress_stack)
         
+        # Initial shear stress is carried by the elastic strain (pressure by p_0)
+        G_safe = jnp.where(self.G > 0.0, self.G, 1.0)
+        eps_e_stack = jnp.where(
+            self.G > 0.0, get_dev_stress(stress_stack, p_0_stack) / (2.0 * G_safe), 0.0
+        )
+
         return DruckerPragerState(
-            eps_e_stack=jnp.zeros((num_points, 3, 3)),
+            eps_e_stack=eps_e_stack,
             eps_p_acc_stack=jnp.zeros(num_points),
             p_0_stack=p_0_stack,
         )
-- 
2.43.0


From e393bb77d3b45112c8507e77d7b6a72d2a059818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 39/62] fix: compiled Cam-Clay lost the stress of a state on
 its yield surface when round-off differed between two evaluations of the
 yield check

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 6a39b88..a5fd08f 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -450,14 +450,15 @@ class ModifiedCamClay(ConstitutiveLaw):
 
         def pull_to_ys():
             # https://github.com/patrick-kidger/optimistix/issues/132
-            # Here we have safe values to avoid nan during compile time
-            safe_mask = lambda x, default: jnp.where(is_ep, x, default)
-
-            deps_e_v_tr_safe = safe_mask(deps_e_v_tr, 0.0)
-            p_prev_safe = safe_mask(p_prev, 1.0) #
-            p_c_prev_safe = safe_mask(p_c_prev, 2.0)
-            q_tr_safe = safe_mask(q_tr, 1.0)
-            q_tr_safe = jnp.maximum(q_tr_safe, 1e-6)
+            # Elastic trials are treated as if on their yield surface, to avoid nan.
+            # No dependence on `is_ep`: compiled code may re-evaluate it with another
+            # round-off than the branch, and a state on the yield surface would be lost.
+            p_c_ys = jax.lax.stop_gradient(p_tr + (q_tr / self.M) ** 2 / p_tr)
+
+            deps_e_v_tr_safe = deps_e_v_tr
+            p_prev_safe = p_prev
+            p_c_prev_safe = jnp.minimum(p_c_prev, p_c_ys)
+            q_tr_safe = jnp.maximum(q_tr, 1e-6)
 
             # using logarithmic critical state pressure for better numerical stability
             u_p_c_prev =jnp.log(p_c_prev_safe)
-- 
2.43.0


From ed0d81f628402457000c621d329975ac4b3e4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 40/62] fix: Drucker-Prager points that lost contact came back
 with their initial pressure instead of stress free

---
 hydraxmpm/constitutive_laws/druckerprager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 889d624..1d06aab 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -209,7 +209,8 @@ class DruckerPrager(ConstitutiveLaw):
         stress_next, eps_e_next, eps_p_acc_next = jax.lax.cond(
             rho >= self.rho_0,
             lambda: jax.lax.cond(is_ep, plastic_update, elastic_update),
-            lambda: (jnp.zeros((3, 3)), jnp.zeros((3, 3)), eps_p_acc_prev)
+            # elastic strain of zero stress, so that a point that reconnects starts there
+            lambda: (jnp.zeros((3, 3)), -p_0 / (3.0 * self.K) * jnp.eye(3), eps_p_acc_prev)
         )
 
         return stress_next, eps_e_next, eps_p_acc_next
-- 
2.43.0


From 089c979b2792df40adc146d5b42e56eb6a272567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 41/62] fix: element test evaluated the law at the density of
 the previous step

---
 hydraxmpm/element_tests/driver.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index ac1703d..8ab0889 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -19,22 +19,22 @@ class ElementTestDriver(eqx.Module):
             else:
                 F_next = jax.scipy.linalg.expm(-L_input * dt) @  mp_state.F_stack
 
-            # we temporarily update L_stack on the particle so the law sees it
+            # update volume/density
+            J = jnp.linalg.det(F_next)
+            
+            vol_next = J * mp_state.volume0_stack
+
+            # we temporarily update the kinematics on the particle so the law sees it
             mp_temp = eqx.tree_at(
-                 lambda m: (m.L_stack, m.F_stack), 
+                 lambda m: (m.L_stack, m.F_stack, m.volume_stack), 
                  mp_state, 
-                 (L_input, F_next)
+                 (L_input, F_next, vol_next)
                  )
             
 
 
             mp_next, law_next = self.constitutive_law.update(mp_temp, law_state, dt)
             
-            # update volume/density
-            J = jnp.linalg.det(F_next)
-            
-            vol_next = J * mp_state.volume0_stack
-            
             # mass is kept constant (not used for now...)
             mass_next = mp_state.mass_stack 
             
-- 
2.43.0


From 92eec94be51d317c4217c78da8079e008fbf84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 42/62] fix: element test driver ignored its is_F_linear_approx
 option

---
 hydraxmpm/element_tests/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index 8ab0889..4bbe450 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -13,6 +13,9 @@ class ElementTestDriver(eqx.Module):
 
 
 
+            if is_F_linear_approx is None:
+                is_F_linear_approx = self.is_F_linear_approx
+
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
                 F_next = F_inc @ mp_state.F_stack
-- 
2.43.0


From dd7bb0278f18a4d0eedd76900ec2588aaac00e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 43/62] fix: axial strains of a triaxial test did not belong to
 its snapshots

---
 hydraxmpm/element_tests/triaxial_test.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hydraxmpm/element_tests/triaxial_test.py b/hydraxmpm/element_tests/triaxial_test.py
index 47f49d7..7494fc7 100644
--- a/hydraxmpm/element_tests/triaxial_test.py
+++ b/hydraxmpm/element_tests/triaxial_test.py
@@ -24,16 +24,18 @@ class TriaxialTest(eqx.Module):
 
     @property
     def axial_strain_stack(self):
-        # Handle scalar vs array case for strain calculation
-        if hasattr(self.dt, "shape") and self.dt.shape:
-            # Array case: Cumulative sum
-            incr_strain = self.axial_rate * self.dt
-            return jnp.cumsum(incr_strain)[:: self.stride]
-        else:
-            # Scalar case (legacy)
-            return jnp.linspace(
-                0, self.axial_rate * self.dt * self.num_steps, self.num_steps
-            )[:: self.stride]
+        # strain at the end of the step of each snapshot
+        num_steps = (
+            len(self.axial_rate)
+            if (hasattr(self.axial_rate, "ndim") and self.axial_rate.ndim > 0)
+            else self.num_steps
+        )
+        incr_strain = jnp.broadcast_to(
+            jnp.asarray(self.axial_rate * self.dt, dtype=float), (num_steps,)
+        )
+        if self.start_static:
+            incr_strain = incr_strain.at[0].set(0.0)
+        return jnp.cumsum(incr_strain)[self.stride - 1 :: self.stride]
 
     def run(self, mp_init, law_init):
 
-- 
2.43.0


From 8fb54716c4f9f95dcd1b3de9875a9c336588104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 44/62] fix: triaxial test crashed when the stride did not
 divide the number of steps

---
 hydraxmpm/element_tests/triaxial_test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/element_tests/triaxial_test.py b/hydraxmpm/element_tests/triaxial_test.py
index 7494fc7..a8a8f73 100644
--- a/hydraxmpm/element_tests/triaxial_test.py
+++ b/hydraxmpm/element_tests/triaxial_test.py
@@ -149,7 +149,9 @@ class TriaxialTest(eqx.Module):
         all_indices = jnp.arange(num_steps)
 
         num_snapshots = num_steps // self.stride
-        reshaped_indices = all_indices.reshape((num_snapshots, self.stride))
+        reshaped_indices = all_indices[: num_snapshots * self.stride].reshape(
+            (num_snapshots, self.stride)
+        )
 
 
         _, trajectory = jax.lax.scan(run_inner, (mp_init, law_init), reshaped_indices)
-- 
2.43.0


From 73110968330982392b7756029377d81e2873f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 45/62] fix: solid volume fraction from the velocity gradient
 grew in expansion

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 16060b2..7269bc4 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -513,7 +513,7 @@ def get_phi_from_L(L, phi_prev, dt):
     """
     deps = get_sym_tensor(L) * dt
     deps_v = get_volumetric_strain(deps)
-    phi_next = phi_prev / (1.0 - deps_v)
+    phi_next = phi_prev / (1.0 + deps_v)
     return phi_next
 
 
-- 
2.43.0


From 9ccae1e551732cee71318b1459b080d6ac6ad9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 46/62] fix: material points ignored the documented
 points_per_cell

---
 hydraxmpm/material_points/material_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 95e5338..0e83a95 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -200,7 +200,7 @@ class MaterialPointState(BaseMaterialPointState):
         # Assumes uniform distribution based on cell size and points per cell.
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
-            points_per_cell = kwargs.get("ppc", 4.0)
+            points_per_cell = kwargs.get("points_per_cell", kwargs.get("ppc", 4.0))
             default_volume = (cell_size**2) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
-- 
2.43.0


From c36b31b6cea7b3abab85b9803b79384bae3c013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 47/62] fix: default volume of material points was an area in
 3D

---
 hydraxmpm/material_points/material_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 0e83a95..3d6f3c0 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -201,7 +201,7 @@ class MaterialPointState(BaseMaterialPointState):
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
             points_per_cell = kwargs.get("points_per_cell", kwargs.get("ppc", 4.0))
-            default_volume = (cell_size**2) / points_per_cell
+            default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
         volume0_stack = volume0_stack if volume0_stack is not None else volume_stack
-- 
2.43.0


From 039fa3c5602bc8b81cc5872494075fda8457fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 48/62] fix: contact without sliding had NaN derivatives

---
 hydraxmpm/forces/sdf_collider.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/forces/sdf_collider.py b/hydraxmpm/forces/sdf_collider.py
index 6e84b58..e4733d3 100644
--- a/hydraxmpm/forces/sdf_collider.py
+++ b/hydraxmpm/forces/sdf_collider.py
@@ -46,14 +46,14 @@ def apply_frictional_contact(
     v_rel_corrected = v_corrected_n - v_wall
     v_n_vec = jnp.dot(v_rel_corrected, normal) * normal
     v_t_vec = v_rel_corrected - v_n_vec
-    vt_mag = jnp.linalg.norm(v_t_vec)
+    # floored so that the derivative is finite without sliding
+    vt_mag = jnp.sqrt(jnp.maximum(jnp.sum(v_t_vec**2), 1e-24))
 
     # Coulomb Law: Friction Limit
     friction_limit = friction_coeff * delta_v_kinematic
-    reduction = jnp.where(vt_mag > 1e-12, jnp.minimum(vt_mag, friction_limit), 0.0)
-    
-    # Apply reduction safely
-    v_t_frictional = v_t_vec * (1.0 - reduction / (vt_mag + 1e-12))
+
+    # Stick when the limit exceeds the sliding velocity
+    v_t_frictional = v_t_vec * jnp.maximum(0.0, 1.0 - friction_limit / vt_mag)
 
     # Final Velocity = Wall + Normal Component + Frictional Tangent
     return v_wall + v_n_vec + v_t_frictional
-- 
2.43.0


From 09ca91b0ed9f9744814af20af4101eb55845f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 49/62] fix: AFLIP step of a point at rest had NaN derivatives

---
 hydraxmpm/solvers/usl_asflip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index a334513..f64cbe0 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -491,7 +491,11 @@ class USLAFLIP(USLSolver):
             # --- CFL Clamping ---
             # Clamp velocity magnitude to prevent particles crossing >50% of a cell in one step
             max_speed = self.cfl_limit * grid_domain.cell_size / dt
-            speed = jnp.linalg.norm(p_velocity_next, axis=1, keepdims=True)
+            speed = jnp.sqrt(
+                jnp.maximum(
+                    jnp.sum(p_velocity_next**2, axis=1, keepdims=True), 1e-24
+                )
+            )
             clamp_factor = jnp.minimum(1.0, max_speed / (speed + 1e-12))
             p_velocity_next = p_velocity_next * clamp_factor
 
-- 
2.43.0


From db3fc1a9d9aeb7c7b08e77a778062a02d19940f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 50/62] fix: surface normal had NaN derivatives where the
 distance is stationary

---
 hydraxmpm/sdf/sdfobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfobject.py b/hydraxmpm/sdf/sdfobject.py
index 1dd1c4f..8e02b41 100644
--- a/hydraxmpm/sdf/sdfobject.py
+++ b/hydraxmpm/sdf/sdfobject.py
@@ -152,7 +152,7 @@ class SDFObjectBase(eqx.Module):
         normal = grad_fn(sdf_state, pos_world)
         
         # Safe normalization
-        norm = jnp.linalg.norm(normal)
+        norm = jnp.sqrt(jnp.maximum(jnp.sum(normal**2), 1e-24))
         return normal / (norm + 1e-12)
     def get_velocity(self, sdf_state: SDFObjectState, pos_world: Float[Array, "dim"],dt) -> Float[Array, "dim"]:
         """
-- 
2.43.0


From 347b39f5431be630d6b46da32d09381334f0d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 51/62] fix: mu(I) stress without shear had NaN derivatives

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index 6eb7dbb..d11187e 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -149,7 +149,8 @@ class MuI_LC(ConstitutiveLaw):
         deps_dev = deps_dt - (deps_v / 3.0) * jnp.eye(3)
         
 
-        dot_gamma = jnp.sqrt(2.0 * jnp.sum(deps_dev * deps_dev))
+        # floored so that the derivative is finite without shear
+        dot_gamma = jnp.sqrt(jnp.maximum(2.0 * jnp.sum(deps_dev * deps_dev), 1e-24))
 
 
         current_density = mass / volume
-- 
2.43.0


From bc09feefe71c569218a4060670047a36d88f7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 52/62] fix: particle export without a property failed, and of
 a missing one wrote the text None

---
 hydraxmpm/common/vtk_io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 3a086dd..597b202 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -70,6 +70,7 @@ class VTKVisualizer:
 
         _point_radius = _point_radius * scale_radius
         
+        prop_data = None
         if property_name is not None:
             prop_data = getattr(mp_state, property_name, None)
         if positions.shape[1] == 2:
@@ -81,10 +82,10 @@ class VTKVisualizer:
 
         # print(prop_data.mean())
 
-        prop_data = np.array(prop_data)
-        # print(prop_data.shape)
-
         if prop_data is not None:
+            prop_data = np.array(prop_data)
+            # print(prop_data.shape)
+
             if len(prop_data.shape) > 1:
                 if  prop_data.shape[1] == 2:
                     zeros = np.zeros((prop_data.shape[0], 1))
@@ -94,7 +95,8 @@ class VTKVisualizer:
 
         cloud = pv.PolyData(positions_3d)
 
-        cloud.point_data[property_name] = prop_data
+        if prop_data is not None:
+            cloud.point_data[property_name] = prop_data
 
         cloud.point_data["Radius"] = np.full(len(positions), _point_radius)
         
-- 
2.43.0


From 8c1565a2aa43d52110e711c8e7df22e108d7c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 53/62] fix: boundary export without a step number failed

---
 hydraxmpm/common/vtk_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 597b202..dfcabbf 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -214,4 +214,4 @@ class VTKVisualizer:
 
                 suffix = f"step_{int(step):05d}" if step is not None else "static"
                 # Standardized save via your _save_vtk method
-                path = self._save_vtk(mesh, label, f"step_{int(step):05d}.vtp")
\ No newline at end of file
+                path = self._save_vtk(mesh, label, f"{suffix}.vtp")
\ No newline at end of file
-- 
2.43.0


From fad6e127ee285c53cbefb050a75e2e02c70636c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 54/62] fix: boundary export left out part of domains below the
 origin

---
 hydraxmpm/common/vtk_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index dfcabbf..6ab4648 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -153,9 +153,9 @@ class VTKVisualizer:
             end = np.array(end)
             
             # Setup sampling grid
-            domain_size = end * 1.05 - start * 0.95
+            domain_size = (end - start) * 1.05
             step_size = np.max(domain_size) / resolution
-            aspect_size = np.ceil(domain_size / step_size).astype(int)
+            aspect_size = np.ceil(domain_size / step_size).astype(int) + 1
             
             indices = np.indices(aspect_size)
             coords = np.moveaxis(indices, 0, -1) * step_size + start
-- 
2.43.0


From dd1e2e1416b0b50d3f8482edcfe496b1293afc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 55/62] fix: rerun boundary normals had their first two
 components swapped

---
 hydraxmpm/common/rerun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 2f4af76..07d24e8 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -383,9 +383,8 @@ class RerunVisualizer:
                 world_z = start[2] + verts[:, 2] * step_size
                 world_verts = np.stack([world_x, world_y, world_z], axis=1)
 
-                # Fix Normal permutation (skimage normals align with index axes Y, X, Z)
-                # We need X, Y, Z
-                world_normals = normals[:, [1, 0, 2]]
+                # the sampling grid is indexed (X, Y, Z) and so are the normals
+                world_normals = normals
 
                 rr.log(
                     f"{self.root_path}/{label}",
-- 
2.43.0


From c31b9a9c46a0b1c3b2a46cc20f1d5fd50978d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 56/62] fix: rerun boundary left out part of domains below the
 origin

---
 hydraxmpm/common/rerun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 07d24e8..b1f2504 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -324,10 +324,10 @@ class RerunVisualizer:
         end = np.array(end)
         start = np.array(start)
         # Here we generate a bunch of points in the domain
-        domain_size = end * 1.05 - start * 0.95
+        domain_size = (end - start) * 1.05
         step_size = np.max(domain_size) / resolution
 
-        aspect_size = np.ceil(domain_size / step_size).astype(int)
+        aspect_size = np.ceil(domain_size / step_size).astype(int) + 1
         indices = np.indices(aspect_size)
         coords = np.moveaxis(indices, 0, -1) * step_size + start
         flat_coords = coords.reshape(-1, dim)
-- 
2.43.0


From f0b545ffaa6bbf04fae4eb8c9e954e7f745ade4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 57/62] fix: Gauss-Legendre filling failed for want of its
 points

---
 hydraxmpm/utils/generate_body.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index fab6bce..2febe14 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -55,19 +55,21 @@ def generate_particles_in_sdf(
         meshes = jnp.meshgrid(*id_ranges, indexing="ij")
 
         grid_origins_flat = jnp.stack(meshes, axis=-1).reshape(-1, dim) * cell_size
-        offsets = None
 
-        if mode == "regular":
+        # Do linear subdivision: e.g., ppc=4 (2D) -> 2x2 grid inside cell
+        pts_per_dim = int(np.ceil(ppc ** (1 / dim)))
 
-            # Do linear subdivision: e.g., ppc=4 (2D) -> 2x2 grid inside cell
-            pts_per_dim = int(np.ceil(ppc ** (1 / dim)))
+        if mode == "regular":
 
             # Linspace from 0 to 1 to shift center points
             # e.g., 2 points -> [0.25, 0.75]
             lin = jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]
+        else:
+            # Gauss-Legendre points, moved from [-1, 1] to [0, 1]
+            lin = jnp.asarray((np.polynomial.legendre.leggauss(pts_per_dim)[0] + 1) / 2)
 
-            offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
-            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
+        offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
+        offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
 
         # Perform a broadcast add
         # grid_origins_flat has shape (N_cells, 1, dim)
-- 
2.43.0


From 5a8a88dab9b96dd357003a5cca8b2fb05b4847c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 58/62] fix: documented filling mode rejection and the default
 mode failed

---
 hydraxmpm/utils/generate_body.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 2febe14..192ff2d 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -14,7 +14,7 @@ def generate_particles_in_sdf(
     center_of_mass=None,
     rotation=None,
     shapefunction="cubic",
-    mode="uniform",
+    mode="regular",
     cell_size=None,  # For 'regular'/'gauss_legendre' modes
     ppc=None,  # For 'regular'/'gauss_legendre' modes
 ):
@@ -22,7 +22,7 @@ def generate_particles_in_sdf(
     Generates particles inside the SDF using Rejection Sampling.
 
     mode options:
-    "rejection" - rejection sampling monte carlo
+    "rejection" or "random" - rejection sampling monte carlo
     "regular" - uniform grid sampling (requires cell_size and ppc)
     "gauss_legendre - gauss legendre quadrature sampling (requires cell_size and ppc)
     """
@@ -36,7 +36,7 @@ def generate_particles_in_sdf(
         )
 
     candidate_point_stack = None
-    if mode == "random":
+    if mode in ["rejection", "random"]:
         if num_particles is None or key is None:
             raise ValueError("Mode 'random' requires 'num_particles' and 'key'.")
 
-- 
2.43.0


From 2a70c2db589918f53e28cf119f376f6d19caf194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 59/62] Revert "fix: triaxial test crashed when the stride did
 not divide the number of steps"

This reverts commit 8fb54716c4f9f95dcd1b3de9875a9c336588104c.
---
 hydraxmpm/element_tests/triaxial_test.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hydraxmpm/element_tests/triaxial_test.py b/hydraxmpm/element_tests/triaxial_test.py
index a8a8f73..7494fc7 100644
--- a/hydraxmpm/element_tests/triaxial_test.py
+++ b/hydraxmpm/element_tests/triaxial_test.py
@@ -149,9 +149,7 @@ class TriaxialTest(eqx.Module):
         all_indices = jnp.arange(num_steps)
 
         num_snapshots = num_steps // self.stride
-        reshaped_indices = all_indices[: num_snapshots * self.stride].reshape(
-            (num_snapshots, self.stride)
-        )
+        reshaped_indices = all_indices.reshape((num_snapshots, self.stride))
 
 
         _, trajectory = jax.lax.scan(run_inner, (mp_init, law_init), reshaped_indices)
-- 
2.43.0


From eaf916e85c90b39211b277f5c94e813a9dbfb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 60/62] Revert "fix: axial strains of a triaxial test did not
 belong to its snapshots"

This reverts commit dd7bb0278f18a4d0eedd76900ec2588aaac00e9c.
---
 hydraxmpm/element_tests/triaxial_test.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/hydraxmpm/element_tests/triaxial_test.py b/hydraxmpm/element_tests/triaxial_test.py
index 7494fc7..47f49d7 100644
--- a/hydraxmpm/element_tests/triaxial_test.py
+++ b/hydraxmpm/element_tests/triaxial_test.py
@@ -24,18 +24,16 @@ class TriaxialTest(eqx.Module):
 
     @property
     def axial_strain_stack(self):
-        # strain at the end of the step of each snapshot
-        num_steps = (
-            len(self.axial_rate)
-            if (hasattr(self.axial_rate, "ndim") and self.axial_rate.ndim > 0)
-            else self.num_steps
-        )
-        incr_strain = jnp.broadcast_to(
-            jnp.asarray(self.axial_rate * self.dt, dtype=float), (num_steps,)
-        )
-        if self.start_static:
-            incr_strain = incr_strain.at[0].set(0.0)
-        return jnp.cumsum(incr_strain)[self.stride - 1 :: self.stride]
+        # Handle scalar vs array case for strain calculation
+        if hasattr(self.dt, "shape") and self.dt.shape:
+            # Array case: Cumulative sum
+            incr_strain = self.axial_rate * self.dt
+            return jnp.cumsum(incr_strain)[:: self.stride]
+        else:
+            # Scalar case (legacy)
+            return jnp.linspace(
+                0, self.axial_rate * self.dt * self.num_steps, self.num_steps
+            )[:: self.stride]
 
     def run(self, mp_init, law_init):
 
-- 
2.43.0


From cfed8683f4135aa631c0155deacbfdb974208bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 61/62] Revert "fix: element test driver ignored its
 is_F_linear_approx option"

This reverts commit 92eec94be51d317c4217c78da8079e008fbf84a8.
---
 hydraxmpm/element_tests/driver.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index 4bbe450..8ab0889 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -13,9 +13,6 @@ class ElementTestDriver(eqx.Module):
 
 
 
-            if is_F_linear_approx is None:
-                is_F_linear_approx = self.is_F_linear_approx
-
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
                 F_next = F_inc @ mp_state.F_stack
-- 
2.43.0


From 0b4f0d23c34cea1ff16d19e750b12f10445144ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 62/62] Revert "fix: element test evaluated the law at the
 density of the previous step"

This reverts commit 089c979b2792df40adc146d5b42e56eb6a272567.
---
 hydraxmpm/element_tests/driver.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index 8ab0889..ac1703d 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -19,22 +19,22 @@ class ElementTestDriver(eqx.Module):
             else:
                 F_next = jax.scipy.linalg.expm(-L_input * dt) @  mp_state.F_stack
 
-            # update volume/density
-            J = jnp.linalg.det(F_next)
-            
-            vol_next = J * mp_state.volume0_stack
-
-            # we temporarily update the kinematics on the particle so the law sees it
+            # we temporarily update L_stack on the particle so the law sees it
             mp_temp = eqx.tree_at(
-                 lambda m: (m.L_stack, m.F_stack, m.volume_stack), 
+                 lambda m: (m.L_stack, m.F_stack), 
                  mp_state, 
-                 (L_input, F_next, vol_next)
+                 (L_input, F_next)
                  )
             
 
 
             mp_next, law_next = self.constitutive_law.update(mp_temp, law_state, dt)
             
+            # update volume/density
+            J = jnp.linalg.det(F_next)
+            
+            vol_next = J * mp_state.volume0_stack
+            
             # mass is kept constant (not used for now...)
             mass_next = mp_state.mass_stack 
             
-- 
2.43.0

