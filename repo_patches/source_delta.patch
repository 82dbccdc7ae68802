From f49cd3c661ecbd5fc159a3e5063a1654d368b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 01/29] fix: allow tracking without diagnostics (n_diags=0, the
 Tracker default)

---
 wake_t/tracking/tracker.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 0a3600e..d3a3ba7 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -126,13 +126,11 @@ class Tracker():
                 self.auto_dt_bunches.append(self.bunches[i])
 
         # If needed, add diagnostics to objects to track.
+        self.bunch_list = [[] for bunch in self.bunches]
         if self.n_diags > 0:
             self.objects_to_track.append('diags')
             self.dt_diags = self.t_final/self.n_diags
             self.dt_objects.append(self.dt_diags)
-            self.bunch_list = []
-            for bunch in bunches:
-                self.bunch_list.append([])
 
         # Initialize tracking time.
         self.t_tracking = 0.
@@ -164,7 +162,8 @@ class Tracker():
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-        self.generate_diagnostics()
+        if self.n_diags > 0:
+            self.generate_diagnostics()
 
         # Allocate arrays containing the time step and current time of all
         # objects during tracking.
-- 
2.43.0


From 5e4eb3093c4eeae105f8948549b036c3c16913c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:58:54 +0000
Subject: [PATCH 02/29] fix: evolve bunches whose first time step is longer
 than the stage

---
 wake_t/tracking/tracker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index d3a3ba7..5af0197 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -176,6 +176,10 @@ class Tracker():
                 dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])
             else:
                 dt_objects[i] = dt
+            # Make sure the first push does not go beyond `t_final`. Otherwise,
+            # the bunch would never be evolved.
+            if isinstance(self.objects_to_track[i], ParticleBunch):
+                dt_objects[i] = min(dt_objects[i], self.t_final)
 
         # Start tracking loop.
         while True:
-- 
2.43.0


From 5dd59857a40be9b64f1319b020b32d632a4c1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:10 +0000
Subject: [PATCH 03/29] fix: add blowout model fields to those gathered before
 instead of overwriting them

---
 wake_t/fields/analytical_field.py                           | 2 +-
 wake_t/physics_models/plasma_wakefields/custom_blowout.py   | 6 +++---
 wake_t/physics_models/plasma_wakefields/focusing_blowout.py | 4 ++--
 wake_t/physics_models/plasma_wakefields/simple_blowout.py   | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/wake_t/fields/analytical_field.py b/wake_t/fields/analytical_field.py
index f69a6a3..d5835a1 100644
--- a/wake_t/fields/analytical_field.py
+++ b/wake_t/fields/analytical_field.py
@@ -53,7 +53,7 @@ class AnalyticalField(Field):
     >>> def linear_ex(x, y, z, t, ex, constants):
     ...     ex_slope = constants[0]
     ...     for i in prange(x.shape[0]):
-    ...         ex[i] = ex_slope * x[i]
+    ...         ex[i] += ex_slope * x[i]
     ...
     >>> ex = AnalyticField(e_x=linear_ex, constants=[1e6])
 
diff --git a/wake_t/physics_models/plasma_wakefields/custom_blowout.py b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
index 1f1a364..50c1b4d 100644
--- a/wake_t/physics_models/plasma_wakefields/custom_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
@@ -38,12 +38,12 @@ class CustomBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_0 = constants[1]
@@ -53,7 +53,7 @@ class CustomBlowoutWakefield(AnalyticalField):
 
             xi_off = - xi_fields + (1 - b_w) * ct.c * t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_0 + e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_0 + e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
diff --git a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
index 23bc5ed..de59416 100644
--- a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
@@ -11,11 +11,11 @@ class FocusingBlowoutField(AnalyticalField):
 
         def e_x(x, y, xi, t, ex, k):
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k[i] * x[i]
+                ex[i] += ct.c * k[i] * x[i]
 
         def e_y(x, y, xi, t, ey, k):
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k[i] * y[i]
+                ey[i] += ct.c * k[i] * y[i]
 
         super().__init__(e_x=e_x, e_y=e_y)
 
diff --git a/wake_t/physics_models/plasma_wakefields/simple_blowout.py b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
index 41caa13..85c2ea3 100644
--- a/wake_t/physics_models/plasma_wakefields/simple_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
@@ -18,12 +18,12 @@ class SimpleBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_p = constants[1]
@@ -35,7 +35,7 @@ class SimpleBlowoutWakefield(AnalyticalField):
             # Precalculate offset.
             xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
-- 
2.43.0


From 2f654af161eac1a96d72d99a36897db03206cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:41 +0000
Subject: [PATCH 04/29] fix: use the correct coefficients in the last row of
 the tridiagonal solver

---
 wake_t/physics_models/laser/tdma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/tdma.py b/wake_t/physics_models/laser/tdma.py
index f41f9c5..42e8b68 100644
--- a/wake_t/physics_models/laser/tdma.py
+++ b/wake_t/physics_models/laser/tdma.py
@@ -42,7 +42,7 @@ def TDMA(a, b, c, d, p):
         g[i] = (d[i] - a_im1 * g[i - 1]) * inv_coef
         w[i] = c[i] * inv_coef
 
-    g[-1] = (d[-1] - a[-2] * g[-2]) / (b[-1] - a[-2] * w[-2])
+    g[-1] = (d[-1] - a[-1] * g[-2]) / (b[-1] - a[-1] * w[-1])
 
     # Fill in output array.
     p[-1] = g[-1]
-- 
2.43.0


From c8795b0c82feac4bb8ed063ae6cee5c6ec3fa85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:41 +0000
Subject: [PATCH 05/29] fix: reject any change of the laser grid once the
 envelope is initialized

---
 wake_t/physics_models/laser/laser_pulse.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 7576e95..0413e32 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -124,20 +124,21 @@ class LaserPulse():
             'dt': dt / nt,
             'use_phase': use_phase
         }
-        # Check if laser pulse has already been initialized.
-        if self.n_steps > 0:
-            # Check that grid parameters have not changed.
+        # If the envelope has already been initialized, check that the grid
+        # parameters have not changed.
+        if self.a_env is not None:
             if (
-                solver_params['zmin'] != self.solver_params['zmin'] and
-                solver_params['zmax'] != self.solver_params['zmax'] and
-                solver_params['rmax'] != self.solver_params['rmax'] and
-                solver_params['nz'] != self.solver_params['nz'] and
+                solver_params['zmin'] != self.solver_params['zmin'] or
+                solver_params['zmax'] != self.solver_params['zmax'] or
+                solver_params['rmax'] != self.solver_params['rmax'] or
+                solver_params['nz'] != self.solver_params['nz'] or
                 solver_params['nr'] != self.solver_params['nr']
             ):
                 raise ValueError(
                     'Laser envelope grid parameters cannot be changed once '
                     'envelope has been initialized.'
                 )
+        if self.n_steps > 0:
             # If time step has changed, set `n_steps` to 0 so that the
             # non-centered envelope solver is used for the next step.
             if solver_params['dt'] != self.solver_params['dt']:
-- 
2.43.0


From 4a18b6b75a7b9cf0332271a2827287b68253d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:41 +0000
Subject: [PATCH 06/29] fix: keep the polarization of the laser pulses when
 summing them

---
 wake_t/physics_models/laser/laser_pulse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 0413e32..4412dd6 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -339,7 +339,11 @@ class SummedPulse(LaserPulse):
             raise ValueError(
                 'Only laser pulses with the same central wavelength'
                 ' can currently be summed.')
-        super().__init__(pulse_1.l_0)
+        if pulse_1.polarization != pulse_2.polarization:
+            raise ValueError(
+                'Only laser pulses with the same polarization'
+                ' can currently be summed.')
+        super().__init__(pulse_1.l_0, pulse_1.polarization)
         self.pulse_1 = pulse_1
         self.pulse_2 = pulse_2
 
-- 
2.43.0


From 72095ebe789762344d51a5044e6e66ef38aee5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:51 +0000
Subject: [PATCH 07/29] fix: compare the z position with the number of z cells
 in the linear depositions

---
 wake_t/particles/deposition.py                                  | 2 +-
 .../plasma_wakefields/qs_rz_baxevanis/deposition.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/deposition.py b/wake_t/particles/deposition.py
index 33e1dda..b3a1eaa 100644
--- a/wake_t/particles/deposition.py
+++ b/wake_t/particles/deposition.py
@@ -117,7 +117,7 @@ def deposit_3d_distribution_linear(z, x, y, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
index a4938a9..5b302df 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
@@ -87,7 +87,7 @@ def deposit_plasma_particles_linear(z_cell, r, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
-- 
2.43.0


From 0074ff6c65d7bba7249cf695b7b2a630054c39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:15 +0000
Subject: [PATCH 08/29] fix: also clear the element steps when resetting the
 CSR calculator

---
 wake_t/physics_models/collective_effects/csr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 098b0d8..2a5869d 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -52,6 +52,7 @@ class CSRCalculator():
         self._ref_traj = None
         self._lattice_elements = []
         self._lattice_element_steps = []
+        self._lattice_element_traj_steps = []
 
     def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
         """
-- 
2.43.0


From 03bc57b7a91054ca1e673ef2d072208a2085513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:15 +0000
Subject: [PATCH 09/29] fix: do not lose the last CSR step of an element due to
 float truncation

---
 wake_t/beamline_elements/tm_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index bf1647d..4f34051 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -206,9 +206,9 @@ class TMElement():
             frac_out = 0
         if self.csr_on:
             csr_track_step = self.csr_calculator.get_csr_step(self)
-            n_csr = int(self.length / csr_track_step)
+            n_csr = int(round(self.length / csr_track_step))
             if self.n_out is not None:
-                frac_out = int(n_csr / self.n_out)
+                frac_out = int(round(n_csr / self.n_out))
             l_step = csr_track_step
             n_track = n_csr
         track_steps = np.arange(0, n_track)
-- 
2.43.0


From 6114c6b33a6b5dd8362b5fa0a6dd994df2eccd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:33 +0000
Subject: [PATCH 10/29] fix: use the average gamma of each tracked bunch when
 no gamma_ref is given

---
 wake_t/beamline_elements/tm_elements.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 4f34051..c5e51f2 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -110,9 +110,8 @@ class TMElement():
 
         """
         # Convert bunch to ocelot units and reference frame
-        bunch_mat, g_avg = self._get_beam_matrix_for_tracking(bunch)
-        if self.gamma_ref is None:
-            self.gamma_ref = g_avg
+        # (if no `gamma_ref` was given, the average gamma of the bunch is used).
+        bunch_mat, gamma_ref = self._get_beam_matrix_for_tracking(bunch)
 
         # Add element to CSR calculator
         if self.csr_on:
@@ -155,15 +154,15 @@ class TMElement():
             # Track with transfer matrix
             bunch_mat = track_with_transfer_map(
                 bunch_mat, l_step, self.length, -self.theta, self.k1, self.k2,
-                self.gamma_ref, order=self.order)
+                gamma_ref, order=self.order)
             # Apply CSR
             if self.csr_on:
                 self.csr_calculator.apply_csr(bunch_mat, bunch.q,
-                                              self.gamma_ref, self, l_curr)
+                                              gamma_ref, self, l_curr)
             # Add bunch to output list
             if i in output_steps:
                 new_bunch_mat = convert_from_ocelot_matrix(
-                    bunch_mat, self.gamma_ref)
+                    bunch_mat, gamma_ref)
                 new_bunch = self._create_new_bunch(
                     bunch, new_bunch_mat, l_curr)
                 output_bunch_list.append(new_bunch)
@@ -172,7 +171,8 @@ class TMElement():
                         l_curr/ct.c, l_step/ct.c, [output_bunch_list[-1]])
 
         # Update bunch data
-        self._update_input_bunch(bunch, bunch_mat, output_bunch_list)
+        self._update_input_bunch(
+            bunch, bunch_mat, output_bunch_list, gamma_ref)
 
         # Add element length to diagnostics position
         if opmd_diag is not None:
@@ -218,10 +218,11 @@ class TMElement():
             output_steps = []
         return l_step, track_steps, output_steps
 
-    def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list):
+    def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list,
+                            gamma_ref):
         if len(output_bunch_list) == 0:
             new_bunch_mat = convert_from_ocelot_matrix(
-                bunch_mat, self.gamma_ref)
+                bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
                                                 self.length)
         else:
-- 
2.43.0


From 1947ad2942bd8744a2697b153d598de76ce1b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:53 +0000
Subject: [PATCH 11/29] fix: update the tracked bunch also with
 out_initial=True and no outputs

---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index c5e51f2..a510ab9 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -220,7 +220,7 @@ class TMElement():
 
     def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list,
                             gamma_ref):
-        if len(output_bunch_list) == 0:
+        if self.n_out is None:
             new_bunch_mat = convert_from_ocelot_matrix(
                 bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
-- 
2.43.0


From 63116754866cefb4e3fa31f0e65de13d40cc22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:53 +0000
Subject: [PATCH 12/29] fix: do not share the particle weights between the
 outputs of transfer-map elements

---
 wake_t/beamline_elements/tm_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index a510ab9..48cd80a 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -258,7 +258,8 @@ class TMElement():
             new_bunch_mat = np.dot(rot, new_bunch_mat)
         new_bunch_mat[0] += new_x_ref
         # create new bunch
-        new_bunch = ParticleBunch(old_bunch.w, bunch_matrix=new_bunch_mat,
+        new_bunch = ParticleBunch(old_bunch.w.copy(),
+                                  bunch_matrix=new_bunch_mat,
                                   prop_distance=new_prop_dist,
                                   name=old_bunch.name,
                                   q_species=old_bunch.q_species,
-- 
2.43.0


From 53a5af3816d55a518b0d8c79bb3812c073a92301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:53 +0000
Subject: [PATCH 13/29] fix: keep tags, t_flight and z_injection when copying a
 bunch

---
 wake_t/particles/particle_bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 09e3018..01d6f8e 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -311,7 +311,10 @@ class ParticleBunch():
             px=deepcopy(self.px),
             py=deepcopy(self.py),
             pz=deepcopy(self.pz),
+            tags=deepcopy(self.tags),
             prop_distance=deepcopy(self.prop_distance),
+            t_flight=deepcopy(self.t_flight),
+            z_injection=deepcopy(self.z_injection),
             name=deepcopy(self.name),
             q_species=deepcopy(self.q_species),
             m_species=deepcopy(self.m_species)
-- 
2.43.0


From ed7df62875ff2e839076d3511af95e7a2cba7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:53 +0000
Subject: [PATCH 14/29] fix: reallocate the auxiliary arrays when the number of
 particles changes

---
 wake_t/particles/particle_bunch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 01d6f8e..0b31e99 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -325,7 +325,8 @@ class ParticleBunch():
 
     def get_field_arrays(self):
         """Get the arrays where the gathered fields will be stored."""
-        if not self.__field_arrays_allocated:
+        if (not self.__field_arrays_allocated or
+                len(self.__e_x) != len(self.x)):
             self.__preallocate_field_arrays()
         return (
             self.__e_x, self.__e_y, self.__e_z,
@@ -334,7 +335,8 @@ class ParticleBunch():
 
     def get_rk4_arrays(self):
         """Get the arrays needed by the RK4 pusher."""
-        if not self.__rk4_arrays_allocated:
+        if (not self.__rk4_arrays_allocated or
+                len(self.__x_rk4) != len(self.x)):
             self.__preallocate_rk4_arrays()
         return (
             self.__x_rk4, self.__y_rk4, self.__xi_rk4,
-- 
2.43.0


From f39d72d3c8f2f3b94f117caf682d1a33062a1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:53 +0000
Subject: [PATCH 15/29] fix: return dp as documented, so that the alternative
 matrix can be set back

---
 wake_t/particles/particle_bunch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 0b31e99..625bad3 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -223,8 +223,7 @@ class ParticleBunch():
         """
         g = np.sqrt(1 + self.px**2 + self.py**2 + self.pz**2)
         g_avg = np.average(g, weights=self.w)
-        b_avg = np.sqrt(1 - g_avg**(-2))
-        dp = (g-g_avg)/(g_avg*b_avg)
+        dp = (g-g_avg)/g_avg
         p_kin = np.sqrt(g**2 - 1)
         return np.array([self.x, self.px/p_kin, self.y, self.py/p_kin,
                          self.xi, dp]), g_avg
-- 
2.43.0


From 6ab86bd3abac35b3af23b3908967ff9fdfc13e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:05 +0000
Subject: [PATCH 16/29] fix: read saved bunch parameters with current h5py
 versions

---
 wake_t/diagnostics/bunch_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/diagnostics/bunch_analysis.py b/wake_t/diagnostics/bunch_analysis.py
index b25d119..032b7df 100644
--- a/wake_t/diagnostics/bunch_analysis.py
+++ b/wake_t/diagnostics/bunch_analysis.py
@@ -89,7 +89,7 @@ def read_parameters_from_file(file_path):
     bunch_params = {}
     with H5File(file_path, 'r') as h5_file:
         for param in h5_file.keys():
-            bunch_params[param] = h5_file.get(param).value
+            bunch_params[param] = h5_file[param][()]
     return bunch_params
 
 
-- 
2.43.0


From 802fc48f610716cdb30312f02dc60af0d64f775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:20 +0000
Subject: [PATCH 17/29] fix: avoid NaN fields at particles located exactly on
 axis

---
 wake_t/particles/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wake_t/particles/interpolation.py b/wake_t/particles/interpolation.py
index 7bfe378..0d16803 100644
--- a/wake_t/particles/interpolation.py
+++ b/wake_t/particles/interpolation.py
@@ -124,7 +124,8 @@ def gather_main_fields_cyl_linear(
         y_i = y[i]
         z_i = z[i]
         r_i = math.sqrt(x_i**2 + y_i**2)
-        inv_r_i = 1./r_i
+        # On axis, the transverse fields vanish.
+        inv_r_i = 1./r_i if r_i > 0. else 0.
 
         # Gather field only if particle is within field boundaries.
         if z_i >= z_min and z_i <= z_max and r_i <= r_max:
-- 
2.43.0


From 45210d3e73b7997c92e7aff484dc6e9e85e49252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:25 +0000
Subject: [PATCH 18/29] fix: print the element properties with the gamma_ref
 used for the tracking

---
 wake_t/beamline_elements/tm_elements.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 48cd80a..f76e602 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -132,7 +132,7 @@ class TMElement():
             print('')
             print(self.element_name.capitalize())
             print('-'*len(self.element_name))
-            self._print_element_properties()
+            self._print_element_properties(gamma_ref)
             csr_string = 'on' if self.csr_on else 'off'
             print('CSR {}.'.format(csr_string))
             print('')
@@ -268,7 +268,7 @@ class TMElement():
         new_bunch.x_ref = new_x_ref
         return new_bunch
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         "To be implemented by each element. Prints the element properties"
         raise NotImplementedError
 
@@ -308,7 +308,7 @@ class Drift(TMElement):
         super().__init__(length, 0, 0, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'drift'
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         print('Length = {:1.4f} m'.format(self.length))
 
 
@@ -351,9 +351,9 @@ class Dipole(TMElement):
         super().__init__(length, theta, 0, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'dipole'
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         ang_deg = self.theta * 180/ct.pi
-        b_field = (ct.m_e*ct.c/ct.e) * self.theta*self.gamma_ref/self.length
+        b_field = (ct.m_e*ct.c/ct.e) * self.theta*gamma_ref/self.length
         print('Bending angle = {:1.4f} rad ({:1.4f} deg)'.format(
             self.theta, ang_deg))
         print('Dipole field = {:1.4f} T'.format(b_field))
@@ -397,8 +397,8 @@ class Quadrupole(TMElement):
         super().__init__(length, 0, k1, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'quadrupole'
 
-    def _print_element_properties(self):
-        g = self.k1 * self.gamma_ref*(ct.m_e*ct.c/ct.e)
+    def _print_element_properties(self, gamma_ref):
+        g = self.k1 * gamma_ref*(ct.m_e*ct.c/ct.e)
         print('Quadrupole gradient = {:1.4f} T/m'.format(g))
 
 
@@ -440,6 +440,6 @@ class Sextupole(TMElement):
         super().__init__(length, 0, 0, k2, gamma_ref, csr_on, n_out, order)
         self.element_name = 'sextupole'
 
-    def _print_element_properties(self):
-        g = self.k2 * self.gamma_ref*(ct.m_e*ct.c/ct.e)
+    def _print_element_properties(self, gamma_ref):
+        g = self.k2 * gamma_ref*(ct.m_e*ct.c/ct.e)
         print('Sextupole gradient = {:1.4f} T/m^2'.format(g))
-- 
2.43.0


From 0db6582ca17c9e8defe8f10d34ae4a0204944349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:59 +0000
Subject: [PATCH 19/29] fix: missing factor in the vertical integrals of the
 second-order transfer map

---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 9fe4119..b0e6ae8 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -133,7 +133,7 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     s2y = sy * cy
     c2y = np.cos(2 * ky * L).real
     fx = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    f2y = (L - s2y) / ky2 if ky2 != 0 else L3 / 6
+    f2y = (L - s2y) / (4 * ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
     J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + kx2*sx2*sx) /
-- 
2.43.0


From 9e43b4257a011e2311fa57c6e95def3982eb9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:59 +0000
Subject: [PATCH 20/29] fix: missing factor in the J3 integral of the
 second-order transfer map

---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index b0e6ae8..7086d1b 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -136,7 +136,7 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     f2y = (L - s2y) / (4 * ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
-    J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + kx2*sx2*sx) /
+    J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + 0.5*kx2*sx2*sx) /
           (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
     # J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx ) / (
     #        6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
-- 
2.43.0


From 735ec06fc92066a390c03aee6fae1b8341bf79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:20 +0000
Subject: [PATCH 21/29] fix: wrong power in the longitudinal derivative of the
 psi boundary condition

---
 .../plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
index e9d6642..aa178e6 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
@@ -153,7 +153,7 @@ def calculate_psi_and_derivatives_at_particles(
     if r_right <= r_max:
         dxi_psi_pp += sum_3
     else:
-        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max/4)
+        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max**4/4)
                                * pr_i / (r_right * (1 + psi_i)))
 
     # Again, near the peak of a strong blowout, very large and unphysical
-- 
2.43.0


From 9439f5e4c3af58e966d25f82899804376dabf313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:19 +0000
Subject: [PATCH 22/29] fix: locate correctly an element used more than once in
 a beamline with CSR

---
 .../physics_models/collective_effects/csr.py  | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 2a5869d..3da0c27 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -37,7 +37,7 @@ class CSRCalculator():
 
     def get_csr_step(self, element):
         """Return the CSR step size used in the specified lattice element."""
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
         return ds_csr
 
@@ -79,16 +79,13 @@ class CSRCalculator():
             element.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
 
         # Get current position along trajectory.
-        s_current = 0
-        for el in self._lattice_elements:
-            if el is element:
-                break
+        s_current = element_pos
+        for el in self._lattice_elements[:el_idx]:
             s_current += el.length
-        s_current += element_pos
 
         # Get line charge profile of bunch as a histogram.
         z = -bunch_matrix[4]
@@ -128,6 +125,15 @@ class CSRCalculator():
         delta_p = dE * 1e-9 / pc_ref
         bunch_matrix[5] += delta_p
 
+    def _get_element_index(self, element):
+        """
+        Get the index of the last time that an element has been added (the
+        same element can appear more than once in a beamline).
+
+        """
+        n_el = len(self._lattice_elements)
+        return n_el - 1 - self._lattice_elements[::-1].index(element)
+
     def _set_element_steps(self, element):
         """
         Calculate and store the csr and trajectory step size for the
@@ -156,7 +162,7 @@ class CSRCalculator():
         M. Dohlus.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
         n_steps = int(np.ceil(element.length / ds_traj))
         ds_traj = element.length / n_steps
-- 
2.43.0


From 63c5d2bc29d621cbe0a1a5304304d7bf3fa5a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:23 +0000
Subject: [PATCH 23/29] fix: initialize the numerical fields at the beginning
 of each tracking

---
 wake_t/tracking/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 5af0197..20cfcd1 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -157,8 +157,10 @@ class Tracker():
             disable=not self.show_progress_bar,
         )
 
-        # Calculate fields at t=0.
+        # Calculate fields at t=0. Their properties need to be initialized also
+        # if the fields have already been used in a previous tracking.
         for field in self.num_fields:
+            field.initialized = False
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-- 
2.43.0


From 68c46d755b22e47733ee5ca71bf65457fedac05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:59 +0000
Subject: [PATCH 24/29] fix: check the laser grid before modifying the pulse,
 including the plasma grid

---
 wake_t/physics_models/laser/laser_pulse.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 4412dd6..9e8faeb 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -107,19 +107,17 @@ class LaserPulse():
                 'Number of laser envelope substeps cannot be smaller than 1.')
 
         # Determine whether to run laser envelope in a subgrid.
-        self.use_subgrid = subgrid_nz is not None or subgrid_nr is not None
-        if self.use_subgrid:
+        use_subgrid = subgrid_nz is not None or subgrid_nr is not None
+        if use_subgrid:
             subgrid_nz = nz if subgrid_nz is None else subgrid_nz
             subgrid_nr = nr if subgrid_nr is None else subgrid_nr
-            self._create_laser_subgrid(
-                nz, nr, subgrid_nz, subgrid_nr, xi_max, xi_min, r_max)
 
         solver_params = {
             'zmin': xi_min,
             'zmax': xi_max,
             'rmax': r_max,
-            'nz': subgrid_nz if self.use_subgrid else nz,
-            'nr': subgrid_nr if self.use_subgrid else nr,
+            'nz': subgrid_nz if use_subgrid else nz,
+            'nr': subgrid_nr if use_subgrid else nr,
             'nt': nt,
             'dt': dt / nt,
             'use_phase': use_phase
@@ -132,7 +130,8 @@ class LaserPulse():
                 solver_params['zmax'] != self.solver_params['zmax'] or
                 solver_params['rmax'] != self.solver_params['rmax'] or
                 solver_params['nz'] != self.solver_params['nz'] or
-                solver_params['nr'] != self.solver_params['nr']
+                solver_params['nr'] != self.solver_params['nr'] or
+                self.a_env.shape != (nz, nr)
             ):
                 raise ValueError(
                     'Laser envelope grid parameters cannot be changed once '
@@ -144,6 +143,10 @@ class LaserPulse():
             if solver_params['dt'] != self.solver_params['dt']:
                 self.n_steps = 0
         self.solver_params = solver_params
+        self.use_subgrid = use_subgrid
+        if self.use_subgrid:
+            self._create_laser_subgrid(
+                nz, nr, subgrid_nz, subgrid_nr, xi_max, xi_min, r_max)
 
     def initialize_envelope(self) -> None:
         """Initialize laser envelope arrays."""
-- 
2.43.0


From 0ca2efb7cdd76cfe95a860ba0256e7a5fb51bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:45 +0000
Subject: [PATCH 25/29] fix: sign and magnitude of the CSR energy kick
 according to the particle species

---
 wake_t/beamline_elements/tm_elements.py         | 5 +++--
 wake_t/physics_models/collective_effects/csr.py | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index f76e602..461d51a 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -157,8 +157,9 @@ class TMElement():
                 gamma_ref, order=self.order)
             # Apply CSR
             if self.csr_on:
-                self.csr_calculator.apply_csr(bunch_mat, bunch.q,
-                                              gamma_ref, self, l_curr)
+                self.csr_calculator.apply_csr(
+                    bunch_mat, bunch.q, gamma_ref, self, l_curr,
+                    bunch.q_species, bunch.m_species)
             # Add bunch to output list
             if i in output_steps:
                 new_bunch_mat = convert_from_ocelot_matrix(
diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 3da0c27..087b20e 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -54,7 +54,8 @@ class CSRCalculator():
         self._lattice_element_steps = []
         self._lattice_element_traj_steps = []
 
-    def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
+    def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos,
+                  q_species=-ct.e, m_species=ct.m_e):
         """
         Apply the CSR kick to the specified particle bunch at a certain
         lattice location.
@@ -77,6 +78,8 @@ class CSRCalculator():
         element_pos : float
             Current position (longitudinal) of the bunch in the lattice
             element.
+        q_species, m_species : float
+            Charge and mass of a single particle of the bunch species.
 
         """
         el_idx = self._get_element_index(element)
@@ -121,7 +124,8 @@ class CSRCalculator():
         # Calculate and apply energy kick
         z_norm = z * (1./bin_size) - bin_center_0/bin_size
         dE = np.interp(z_norm, np.arange(len(lam_K1)), lam_K1)
-        pc_ref = np.sqrt(gamma**2 - 1) * 0.511e-3
+        dE *= q_species / ct.e
+        pc_ref = np.sqrt(gamma**2 - 1) * m_species * ct.c**2 / ct.e * 1e-9
         delta_p = dE * 1e-9 / pc_ref
         bunch_matrix[5] += delta_p
 
-- 
2.43.0


From 9b9570d60e84b0dac1085651ebddf5df066eb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:58 +0000
Subject: [PATCH 26/29] fix: include the transverse offset term in all points
 of the CSR kernel

---
 wake_t/physics_models/collective_effects/csr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 087b20e..06cf9e3 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -379,7 +379,7 @@ class CSRCalculator():
               (beta_sq * np.dot(ev1, evo) - 1.) * np.log(
                   (winf - s + R) / (winf - s[0] + R[0])) +
               gamma_sq_inv * np.log(w_range[0]/w_range))
-        if a2/R[1]**2 > 1e-7:
+        if a != 0:
             KS -= (beta * np.dot(uup, evo) *
                    (np.arctan((s[0] - winf)/a) - np.arctan((s-winf)/a)))
         return KS
-- 
2.43.0


From b1f02a15a901d966775b2908dfed388d74d58a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:17 +0000
Subject: [PATCH 27/29] fix: match bunches of any species to the plasma
 focusing fields

---
 wake_t/utilities/bunch_generation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wake_t/utilities/bunch_generation.py b/wake_t/utilities/bunch_generation.py
index 784489c..c6cac04 100644
--- a/wake_t/utilities/bunch_generation.py
+++ b/wake_t/utilities/bunch_generation.py
@@ -243,6 +243,8 @@ def get_matched_bunch(
     if n_p is not None:
         n_p *= 1e-6
     b_m = ge.matched_plasma_beta_function(ene, n_p, k_x)
+    # The expression above is for electrons. Generalize to any species.
+    b_m *= np.sqrt(m_species / ct.m_e * ct.e / np.abs(q_species))
     return get_gaussian_bunch_from_twiss(
         en_x, en_y, 0, 0, b_m, b_m, ene, ene_sp, s_t, xi_c, q_tot, n_part,
         x_off, y_off, theta_x, theta_y, name=name, q_species=q_species,
-- 
2.43.0


From 6e5c7edaeea99503dd1b85e6ffb8e417de77bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:29 +0000
Subject: [PATCH 28/29] fix: adjusting the update period of a field again keeps
 it unchanged

---
 wake_t/fields/numerical_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wake_t/fields/numerical_field.py b/wake_t/fields/numerical_field.py
index 6fe68f9..56a513c 100644
--- a/wake_t/fields/numerical_field.py
+++ b/wake_t/fields/numerical_field.py
@@ -95,7 +95,9 @@ class NumericalField(Field):
     ) -> None:
         """Autoadjust the time step of the field update."""
         if self.force_even_updates:
-            n_updates = np.ceil(t_final / self.dt_update)
+            # Tolerate rounding errors, so that adjusting the same field again
+            # (e.g., when tracking twice through a stage) changes nothing.
+            n_updates = np.ceil(t_final / self.dt_update * (1 - 1e-12))
             self.dt_update = t_final / n_updates
 
     def _initialize_properties(self, bunches):
-- 
2.43.0


From f7b481dc45cf34497b7bb5edffecf486219ed697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:04 +0000
Subject: [PATCH 29/29] fix: track through a generic TMElement with the
 progress report on

TMElement is documented for arbitrary elements, but tracking raised
NotImplementedError unless show_progress_bar=False.
---
 wake_t/beamline_elements/tm_elements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 461d51a..8a9244b 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -270,8 +270,10 @@ class TMElement():
         return new_bunch
 
     def _print_element_properties(self, gamma_ref):
-        "To be implemented by each element. Prints the element properties"
-        raise NotImplementedError
+        "Print the element properties. Can be overridden by each element."
+        print('Length = {:1.4f} m'.format(self.length))
+        print('theta = {:1.4f} rad, k1 = {:1.4f} 1/m^2, k2 = {:1.4f} 1/m^3'
+              .format(self.theta, self.k1, self.k2))
 
 
 class Drift(TMElement):
-- 
2.43.0

