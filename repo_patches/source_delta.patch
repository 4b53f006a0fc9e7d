From eb207ab7e76bde08f22b5d6cf3807cc0dea09be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:38 +0000
Subject: [PATCH 01/28] fix: count interior chordwise vortex legs once in ring
 solvers' loads

Interior left and right legs are shared by two neighbouring panels. Each panel
applied the full strength difference to its copy, so the force on every interior
chordwise segment was counted twice.
---
 .../steady_ring_vortex_lattice_method.py          | 15 +++++++++------
 .../unsteady_ring_vortex_lattice_method.py        | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index d392b07..546b3b9 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -494,13 +494,14 @@ class SteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective right vortex line strength from zero
-                        # to the difference between this panel's ring vortex's
+                        # to half of the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
-                        # right of it.
+                        # right of it. The other half belongs to the panel to the
+                        # right, which shares this leg.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -544,12 +545,14 @@ class SteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective left vortex line strength from zero to
-                        # the difference between this panel's ring vortex's strength,
-                        # and the ring vortex strength of the panel to the left of it.
+                        # half of the difference between this panel's ring vortex's
+                        # strength, and the ring vortex strength of the panel to the
+                        # left of it. The other half belongs to the panel to the left,
+                        # which shares this leg.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5f48792..a3a1d88 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -903,13 +903,14 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective right vortex line strength from zero
-                        # to the difference between this panel's ring vortex's
+                        # to half of the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
-                        # right of it.
+                        # right of it. The other half belongs to the panel to the
+                        # right, which shares this leg.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -953,12 +954,14 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective left vortex line strength from zero to
-                        # the difference between this panel's ring vortex's strength,
-                        # and the ring vortex strength of the panel to the left of it.
+                        # half of the difference between this panel's ring vortex's
+                        # strength, and the ring vortex strength of the panel to the
+                        # left of it. The other half belongs to the panel to the left,
+                        # which shares this leg.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
-- 
2.43.0


From 89e6d708a88b8d83e3357469b8548221012cd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 02/28] fix: keep viscosity and external thrust in generated
 operating points

---
 pterasoftware/movement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 8ba9b6e..d081178 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1332,6 +1332,8 @@ class OperatingPointMovement:
         density = self.base_operating_point.density
         alpha = self.base_operating_point.alpha
         beta = self.base_operating_point.beta
+        external_thrust = self.base_operating_point.external_thrust
+        nu = self.base_operating_point.nu
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -1340,7 +1342,12 @@ class OperatingPointMovement:
 
             # Make a new operating point object for this time step.
             this_operating_point = operating_point.OperatingPoint(
-                density=density, velocity=velocity, alpha=alpha, beta=beta
+                density=density,
+                velocity=velocity,
+                alpha=alpha,
+                beta=beta,
+                external_thrust=external_thrust,
+                nu=nu,
             )
 
             # Add this new object to the list of operating points.
-- 
2.43.0


From a0b41ca5793cb48f84b26ce527431360cdbc39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 03/28] fix: keep weight and user-given reference dimensions in
 generated airplanes

---
 pterasoftware/geometry.py |  6 ++++++
 pterasoftware/movement.py | 17 ++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 7ed0784..2fa4a21 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -99,6 +99,12 @@ class Airplane:
         self.z_ref = z_ref
         self.weight = weight
 
+        # Keep the reference dimensions the user passed (or None), so that they can be
+        # passed on to copies of this airplane.
+        self.user_s_ref = s_ref
+        self.user_c_ref = c_ref
+        self.user_b_ref = b_ref
+
         # Create a (3,) array to hold the moment reference point coordinates.
         self.xyz_ref = np.array([self.x_ref, self.y_ref, self.z_ref])
 
diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index d081178..f2256f3 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -429,6 +429,13 @@ class AirplaneMovement:
         # Generate the airplane name.
         name = self.base_airplane.name
 
+        # Get the other non-changing airplane attributes. The reference dimensions are
+        # None unless the user specified them for the base airplane.
+        weight = self.base_airplane.weight
+        s_ref = self.base_airplane.user_s_ref
+        c_ref = self.base_airplane.user_c_ref
+        b_ref = self.base_airplane.user_b_ref
+
         # Iterate through the time steps.
         for step in range(num_steps):
             # Get the reference position at this time step.
@@ -439,7 +446,15 @@ class AirplaneMovement:
 
             # Make a new airplane object for this time step.
             this_airplane = geometry.Airplane(
-                name=name, x_ref=x_ref, y_ref=y_ref, z_ref=z_ref, wings=these_wings
+                name=name,
+                x_ref=x_ref,
+                y_ref=y_ref,
+                z_ref=z_ref,
+                wings=these_wings,
+                weight=weight,
+                s_ref=s_ref,
+                c_ref=c_ref,
+                b_ref=b_ref,
             )
 
             # Add this new object to the list of airplanes.
-- 
2.43.0


From 3c7e3aebe61b55d49c5f5ba9d5d0c010776b9f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 04/28] fix: keep wing and section orientation vectors in
 generated wings

---
 pterasoftware/movement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index f2256f3..3c72448 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -799,6 +799,8 @@ class WingMovement:
         symmetric = self.base_wing.symmetric
         num_chordwise_panels = self.base_wing.num_chordwise_panels
         chordwise_spacing = self.base_wing.chordwise_spacing
+        unit_normal_vector = self.base_wing.unit_normal_vector
+        unit_chordwise_vector = self.base_wing.unit_chordwise_vector
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -816,7 +818,9 @@ class WingMovement:
                 y_le=y_le,
                 z_le=z_le,
                 wing_cross_sections=cross_sections,
+                unit_normal_vector=unit_normal_vector,
                 symmetric=symmetric,
+                unit_chordwise_vector=unit_chordwise_vector,
                 num_chordwise_panels=num_chordwise_panels,
                 chordwise_spacing=chordwise_spacing,
             )
@@ -1200,6 +1204,7 @@ class WingCrossSectionMovement:
 
         # Generate the non-changing wing cross section attributes.
         chord = self.base_wing_cross_section.chord
+        unit_normal_vector = self.base_wing_cross_section.unit_normal_vector
         airfoil = self.base_wing_cross_section.airfoil
         control_surface_deflection = self.control_surface_deflection_base
         control_surface_type = self.base_wing_cross_section.control_surface_type
@@ -1223,6 +1228,7 @@ class WingCrossSectionMovement:
                 y_le=y_le,
                 z_le=z_le,
                 chord=chord,
+                unit_normal_vector=unit_normal_vector,
                 twist=twist,
                 airfoil=airfoil,
                 control_surface_type=control_surface_type,
-- 
2.43.0


From a7045d7eaf7384f5700c34b3f2f11ff7fb5e3b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 05/28] fix: make flapping motion start from the base wing
 geometry

The sweep and heave angles of the base sections were computed so that sections
offset both in x and z, or towards negative y, were moved even without motion, and
were measured from the inner section's position at the first time step instead of
its base position.
---
 pterasoftware/movement.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 3c72448..8751f0c 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -731,33 +731,34 @@ class WingMovement:
                     last_y_les.append(last_wing_cross_section.y_le)
                     last_z_les.append(last_wing_cross_section.z_le)
 
+                # Find the vector from the inner base wing cross section's leading
+                # edge to this base wing cross section's leading edge.
+                last_base_wing_cross_section = self.wing_cross_section_movements[
+                    wing_cross_section_movement_location - 1
+                ].base_wing_cross_section
+                delta_x_le = this_x_le - last_base_wing_cross_section.x_le
+                delta_y_le = this_y_le - last_base_wing_cross_section.y_le
+                delta_z_le = this_z_le - last_base_wing_cross_section.z_le
+
                 # Find the span between this wing cross section and the inner wing
                 # cross section.
                 wing_cross_section_span = np.sqrt(
-                    (this_x_le - last_x_les[0]) ** 2
-                    + (this_y_le - last_y_les[0]) ** 2
-                    + (this_z_le - last_z_les[0]) ** 2
+                    delta_x_le**2 + delta_y_le**2 + delta_z_le**2
                 )
 
-                if this_y_le != last_y_les[0]:
+                if delta_y_le != 0:
                     # Find the base sweep angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section.
                     base_wing_cross_section_sweep = (
-                        np.arctan(
-                            (this_z_le - last_z_les[0]) / (this_y_le - last_y_les[0])
-                        )
+                        np.arctan2(delta_z_le, np.hypot(delta_x_le, delta_y_le))
                         * 180
                         / np.pi
                     )
 
                     # Find the base heave angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section.
                     base_wing_cross_section_heave = (
-                        np.arctan(
-                            (this_x_le - last_x_les[0]) / (this_y_le - last_y_les[0])
-                        )
-                        * 180
-                        / np.pi
+                        np.arctan2(delta_x_le, delta_y_le) * 180 / np.pi
                     )
                 else:
                     base_wing_cross_section_sweep = 0.0
-- 
2.43.0


From 3c1a76bc95b72fd21fa92e4122bb34694eece6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:17 +0000
Subject: [PATCH 06/28] fix: keep the global trim search's local steps within
 the bounds

---
 pterasoftware/trim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index d4e6bb9..483e752 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -187,6 +187,7 @@ def analyze_steady_trim(
             maxfun=num_calls,
             minimizer_kwargs={
                 "method": "L-BFGS-B",
+                "bounds": bounds,
                 "options": {"maxfun": num_calls, "eps": 0.01},
             },
         )
@@ -345,6 +346,7 @@ def analyze_unsteady_trim(
             maxfun=num_calls,
             minimizer_kwargs={
                 "method": "L-BFGS-B",
+                "bounds": bounds,
                 "options": {"maxfun": num_calls, "eps": 0.01},
             },
         )
-- 
2.43.0


From 1564862f0763cf95a5ff726ba0a2f939474ae2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 07/28] fix: read the existing final coefficients in the
 unsteady trim analysis

---
 pterasoftware/trim.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index 483e752..3d1dd49 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -284,12 +284,22 @@ def analyze_unsteady_trim(
 
         this_solver.run(logging_level="Critical")
 
-        force_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_force_coefficients_wind_axes
-        )
-        moment_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_moment_coefficients_wind_axes
-        )
+        # Get the airplane's final coefficients. They are those of the final time step
+        # if the movement is static, and cycle-averaged otherwise.
+        if this_problem.max_period == 0:
+            force_coefficients = (
+                this_problem.final_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_near_field_moment_coefficients_wind_axes[0]
+            )
+        else:
+            force_coefficients = (
+                this_problem.final_mean_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_mean_near_field_moment_coefficients_wind_axes[0]
+            )
 
         net_force_coefficients = np.linalg.norm(
             force_coefficients - external_force_coefficients
-- 
2.43.0


From c99c8c4ab6f7af18ea05fe8ead6ffe87f43114d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 08/28] fix: print the final results of unsteady solvers with
 static movement

---
 pterasoftware/output.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 23baf45..7612ebd 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -979,14 +979,26 @@ def print_unsteady_results(unsteady_solver):
         This is the solver object with the results to be printed.
     :return: None
     """
-    forces = unsteady_solver.unsteady_problem.final_mean_near_field_forces_wind_axes
-    moments = unsteady_solver.unsteady_problem.final_mean_near_field_moments_wind_axes
-    force_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
-    )
-    moment_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
-    )
+    this_problem = unsteady_solver.unsteady_problem
+
+    # If the movement is static, there are no cycles to average over. In that case,
+    # print the final time step's results.
+    if this_problem.max_period == 0:
+        forces = this_problem.final_near_field_forces_wind_axes
+        moments = this_problem.final_near_field_moments_wind_axes
+        force_coefficients = this_problem.final_near_field_force_coefficients_wind_axes
+        moment_coefficients = (
+            this_problem.final_near_field_moment_coefficients_wind_axes
+        )
+    else:
+        forces = this_problem.final_mean_near_field_forces_wind_axes
+        moments = this_problem.final_mean_near_field_moments_wind_axes
+        force_coefficients = (
+            this_problem.final_mean_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            this_problem.final_mean_near_field_moment_coefficients_wind_axes
+        )
 
     # For each airplane object, calculate and print the average force, moment,
     # force coefficient, and moment coefficient values.
-- 
2.43.0


From 9e9554423dd76fd769706a5cec9875f348e68492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 09/28] fix: animate scalars of solvers that only calculated
 final results

---
 pterasoftware/output.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 7612ebd..947dfd4 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -378,9 +378,10 @@ def animate(
     # Check if the user wants to show scalars on the wing panels.
     if show_scalars:
 
-        # Now iterate through each time step and gather all the scalars for its list
-        # of airplanes. These values will be used to configure the color map.
-        for airplanes in step_airplanes:
+        # Now iterate through each time step with results and gather all the scalars
+        # for its list of airplanes. These values will be used to configure the color
+        # map.
+        for airplanes in step_airplanes[first_results_step:]:
             scalars_to_add = get_scalars(airplanes, scalar_type)
             all_scalars = np.hstack((all_scalars, scalars_to_add))
 
-- 
2.43.0


From 66b02e8d882d33b828181c5a58ebc898948b02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:31 +0000
Subject: [PATCH 10/28] fix: make running a solver again repeat its results

A second run of the steady ring solver used the first run's vortex strengths as unit
strengths, and the solvers appended to the seed points, wake lists and final loads of
the previous run.
---
 .../steady_horseshoe_vortex_lattice_method.py |  3 +++
 .../steady_ring_vortex_lattice_method.py      |  5 ++++
 .../unsteady_ring_vortex_lattice_method.py    | 23 +++++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 597273b..1e31a67 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -115,6 +115,9 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Discard the seed points of any previous run.
+        self.seed_points = np.empty((0, 3))
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing the panel vortices.")
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index 546b3b9..921f3f2 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -137,6 +137,11 @@ class SteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Discard the vortex strengths and seed points of any previous run. The
+        # influence calculations require unit strengths.
+        self.vortex_strengths = np.ones(self.num_panels)
+        self.seed_points = np.empty((0, 3))
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing panel vortices.")
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index a3a1d88..5621238 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -205,6 +205,15 @@ class UnsteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Discard the wake data of any previous run.
+        self.num_wake_ring_vortices_list = []
+        self.wake_ring_vortex_strengths_list = []
+        self.wake_ring_vortex_ages_list = []
+        self.wake_ring_vortex_front_right_vertices_list = []
+        self.wake_ring_vortex_front_left_vertices_list = []
+        self.wake_ring_vortex_back_left_vertices_list = []
+        self.wake_ring_vortex_back_right_vertices_list = []
+
         # The following loop iterates through the steps to populate currently empty
         # attributes with lists of pre-allocated arrays. During the simulation,
         # these arrays will be filled with data that describe the wake. Using this
@@ -1643,6 +1652,20 @@ class UnsteadyRingVortexLatticeMethodSolver:
 
             results_step += 1
 
+        # Discard the final loads and load coefficients of any previous run.
+        self.unsteady_problem.final_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moment_coefficients_wind_axes = []
+
         # For each airplane object, calculate and then save the final or
         # cycle-averaged forces, moments, force coefficients, and moment coefficients.
         for airplane_id, airplane in enumerate(self.steady_problems[0].airplanes):
-- 
2.43.0


From c6c35b5cd0c701008ce276ffb170fe579c905046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 11/28] fix: implement the panels' induced velocity queries

They called methods that the vortex classes don't have.
---
 pterasoftware/panel.py | 78 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 71 insertions(+), 7 deletions(-)

diff --git a/pterasoftware/panel.py b/pterasoftware/panel.py
index b581018..dd90aa2 100644
--- a/pterasoftware/panel.py
+++ b/pterasoftware/panel.py
@@ -12,6 +12,8 @@ This module contains the following functions:
 
 import numpy as np
 
+from . import aerodynamics
+
 
 class Panel:
     """This class is used to contain the panels of a wing.
@@ -359,12 +361,12 @@ class Panel:
         normalized_induced_velocity = np.zeros(3)
 
         if self.ring_vortex is not None:
-            normalized_induced_velocity += (
-                self.ring_vortex.calculate_normalized_induced_velocity(point=point)
+            normalized_induced_velocity += self._calculate_ring_vortex_velocity(
+                point=point, strength=1.0
             )
         if self.horseshoe_vortex is not None:
-            normalized_induced_velocity += (
-                self.horseshoe_vortex.calculate_normalized_induced_velocity(point=point)
+            normalized_induced_velocity += self._calculate_horseshoe_vortex_velocity(
+                point=point, strength=1.0
             )
 
         return normalized_induced_velocity
@@ -385,14 +387,76 @@ class Panel:
         induced_velocity = np.zeros(3)
 
         if self.ring_vortex is not None:
-            induced_velocity += self.ring_vortex.calculate_induced_velocity(point=point)
+            induced_velocity += self._calculate_ring_vortex_velocity(
+                point=point, strength=self.ring_vortex.strength
+            )
         if self.horseshoe_vortex is not None:
-            induced_velocity += self.horseshoe_vortex.calculate_induced_velocity(
-                point=point
+            induced_velocity += self._calculate_horseshoe_vortex_velocity(
+                point=point, strength=self.horseshoe_vortex.strength
             )
 
         return induced_velocity
 
+    def _calculate_ring_vortex_velocity(self, point, strength):
+        """This method calculates the velocity induced at a point by this panel's ring
+        vortex with a given strength.
+
+        :param point: 1D array
+            This is a vector containing the x, y, and z coordinates of the point to
+            find the induced velocity at.
+        :param strength: float
+            This is the vortex strength to use.
+        :return: 1D array
+            This is a vector containing the x, y, and z components of the induced
+            velocity.
+        """
+        return aerodynamics.collapsed_velocities_from_ring_vortices(
+            points=np.array([point], dtype=float),
+            back_right_vortex_vertices=np.array(
+                [self.ring_vortex.back_right_vertex], dtype=float
+            ),
+            front_right_vortex_vertices=np.array(
+                [self.ring_vortex.front_right_vertex], dtype=float
+            ),
+            front_left_vortex_vertices=np.array(
+                [self.ring_vortex.front_left_vertex], dtype=float
+            ),
+            back_left_vortex_vertices=np.array(
+                [self.ring_vortex.back_left_vertex], dtype=float
+            ),
+            strengths=np.array([strength], dtype=float),
+        )[0]
+
+    def _calculate_horseshoe_vortex_velocity(self, point, strength):
+        """This method calculates the velocity induced at a point by this panel's
+        horseshoe vortex with a given strength.
+
+        :param point: 1D array
+            This is a vector containing the x, y, and z coordinates of the point to
+            find the induced velocity at.
+        :param strength: float
+            This is the vortex strength to use.
+        :return: 1D array
+            This is a vector containing the x, y, and z components of the induced
+            velocity.
+        """
+        return aerodynamics.collapsed_velocities_from_horseshoe_vortices(
+            points=np.array([point], dtype=float),
+            back_right_vortex_vertices=np.array(
+                [self.horseshoe_vortex.right_leg.origin], dtype=float
+            ),
+            front_right_vortex_vertices=np.array(
+                [self.horseshoe_vortex.right_leg.termination], dtype=float
+            ),
+            front_left_vortex_vertices=np.array(
+                [self.horseshoe_vortex.left_leg.origin], dtype=float
+            ),
+            back_left_vortex_vertices=np.array(
+                [self.horseshoe_vortex.left_leg.termination], dtype=float
+            ),
+            strengths=np.array([strength], dtype=float),
+        )[0]
+
     def calculate_projected_area(self, n_hat):
         """This method calculates the area of the panel projected on some plane
         defined by its unit normal vector.
-- 
2.43.0


From 3729af92464cc78a50605cdf4c8a5f44df1c2a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:59 +0000
Subject: [PATCH 12/28] fix: discard other solvers' vortices when initializing
 panel vortices

---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 4 ++++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 4 ++++
 pterasoftware/unsteady_ring_vortex_lattice_method.py    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 1e31a67..2e40ef8 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -184,6 +184,10 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
                         front_left_vortex_vertex = panel.front_left_vortex_vertex
                         front_right_vortex_vertex = panel.front_right_vortex_vertex
 
+                        # Discard the ring vortex of any ring vortex solver that was
+                        # previously run on this panel.
+                        panel.ring_vortex = None
+
                         # Initialize the horseshoe vortex at this panel.
                         panel.horseshoe_vortex = aerodynamics.HorseshoeVortex(
                             finite_leg_origin=front_right_vortex_vertex,
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index 921f3f2..ab8f1b0 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -215,6 +215,10 @@ class SteadyRingVortexLatticeMethodSolver:
                         # Pull the panel object out of the wing's list of panels.
                         panel = wing.panels[chordwise_position, spanwise_position]
 
+                        # Discard the horseshoe vortex of any solver that was
+                        # previously run on this panel.
+                        panel.horseshoe_vortex = None
+
                         # Find the location of the panel's front left and right
                         # vortex vertices.
                         front_left_vortex_vertex = panel.front_left_vortex_vertex
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5621238..5f0bc61 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -517,6 +517,10 @@ class UnsteadyRingVortexLatticeMethodSolver:
                             # Get the panel object from the wing's list of panels.
                             panel = wing.panels[chordwise_position, spanwise_position]
 
+                            # Discard the horseshoe vortex of any steady solver that
+                            # was previously run on this panel.
+                            panel.horseshoe_vortex = None
+
                             # Find the location of the panel's front left and right
                             # vortex vertices.
                             front_left_vortex_vertex = panel.front_left_vortex_vertex
-- 
2.43.0


From 09d373339ca1a3aab4f09a67103b0a96f467525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:30 +0000
Subject: [PATCH 13/28] fix: keep short wing sections in coarse convergence
 iterations

The number of spanwise panels of a short section could round to zero, which removed
the section from the mesh.
---
 pterasoftware/convergence.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 9d8bdea..c8447aa 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -204,8 +204,9 @@ def analyze_steady_convergence(
                                 / (section_standard_mean_chord * panel_aspect_ratio)
                             )
 
-                            this_num_spanwise_panels = math.ceil(
-                                this_num_spanwise_panels
+                            # Every section needs at least one spanwise panel.
+                            this_num_spanwise_panels = max(
+                                1, math.ceil(this_num_spanwise_panels)
                             )
                         else:
                             this_num_spanwise_panels = 0
@@ -778,8 +779,10 @@ def analyze_unsteady_convergence(
                                         )
                                     )
 
-                                    this_num_spanwise_panels = math.ceil(
-                                        this_num_spanwise_panels
+                                    # Every section needs at least one spanwise
+                                    # panel.
+                                    this_num_spanwise_panels = max(
+                                        1, math.ceil(this_num_spanwise_panels)
                                     )
                                 else:
                                     this_num_spanwise_panels = 0
-- 
2.43.0


From 7f22dfddcec53213df80bdc645543525469bcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 14/28] fix: load and repanel every readable airfoil of the
 database

---
 pterasoftware/geometry.py | 69 +++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 2fa4a21..b4b95ff 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -892,24 +892,37 @@ class Airfoil:
                 package="pterasoftware",
             )
 
-            # Read the text from the airfoil file.
-            raw_text = importlib.resources.read_text(airfoils, name + ".dat")
-
-            # Trim the text at the return characters.
-            trimmed_text = raw_text[raw_text.find("\n") :]
+            # Find the airfoil file, whose name might contain upper case letters.
+            file_name = name + ".dat"
+            for this_file_name in importlib.resources.contents(airfoils):
+                if this_file_name.lower() == file_name:
+                    file_name = this_file_name
+                    break
 
-            # Input the coordinates into a 1D array.
-            coordinates_1d = np.fromstring(trimmed_text, sep="\n")
+            # Read the text from the airfoil file.
+            raw_text = importlib.resources.read_text(
+                airfoils, file_name, encoding="latin-1"
+            )
 
-            # Check to make sure the number of elements in the array is even.
-            assert len(coordinates_1d) % 2 == 0, (
+            # Keep the rows after the title that contain exactly two numbers (which
+            # might be in parentheses), as other rows are remarks or placeholders.
+            rows = []
+            for line in raw_text.splitlines()[1:]:
+                try:
+                    row = [float(entry.strip("()")) for entry in line.split()]
+                except ValueError:
+                    continue
+                if len(row) == 2:
+                    rows.append(row)
+
+            # Check to make sure that the file contains coordinates.
+            assert len(rows) > 0, (
                 "File was found in airfoil database, "
                 "but it could not be read correctly."
             )
 
-            # Reshape the 1D coordinates array into an N x 2 array, where N is the
-            # number of rows.
-            coordinates = np.reshape(coordinates_1d, (-1, 2))
+            # Convert the rows into an N x 2 array, where N is the number of rows.
+            coordinates = np.array(rows)
 
             # Populate the coordinates attribute and return.
             self.coordinates = coordinates
@@ -1105,15 +1118,29 @@ class Airfoil:
         # Generate a cosine-spaced list of points from 0 to 1.
         cosine_spaced_x_values = functions.cosspace(0, 1, n_points_per_side)
 
-        # Create interpolated functions for the x and y values of the upper and lower
-        # surfaces as a function of the chord fractions
-        upper_func = sp_interp.PchipInterpolator(
-            x=np.flip(upper_original_coordinates[:, 0]),
-            y=np.flip(upper_original_coordinates[:, 1]),
-        )
-        lower_func = sp_interp.PchipInterpolator(
-            x=lower_original_coordinates[:, 0], y=lower_original_coordinates[:, 1]
-        )
+        # Order both surfaces from leading edge to trailing edge and skip the points
+        # that don't lie behind all the points before them, as interpolation requires
+        # strictly increasing chord fractions.
+        surface_functions = []
+        for surface in [
+            np.flipud(upper_original_coordinates),
+            lower_original_coordinates,
+        ]:
+            furthest_x_values = np.maximum.accumulate(surface[:, 0])
+            is_behind = np.hstack((True, surface[1:, 0] > furthest_x_values[:-1]))
+            surface_functions.append(
+                sp_interp.PchipInterpolator(
+                    x=surface[is_behind, 0], y=surface[is_behind, 1]
+                )
+            )
+
+        # Create interpolated functions for the y values of the upper and lower
+        # surfaces as a function of the chord fractions. The surfaces end at their
+        # first and last points, as extrapolating them would distort the airfoil.
+        upper_func, lower_func = [
+            lambda x, func=func: func(np.clip(x, func.x[0], func.x[-1]))
+            for func in surface_functions
+        ]
 
         # Find the x and y coordinates of the upper and lower surfaces at each of the
         # cosine-spaced x values.
-- 
2.43.0


From d34b8b68263a32be06209349d1ae5ccf9ab7c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 15/28] fix: correct the closing points of two airfoil files

---
 pterasoftware/airfoils/naca23015.dat | 2 +-
 pterasoftware/airfoils/naca23018.dat | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/airfoils/naca23015.dat b/pterasoftware/airfoils/naca23015.dat
index b65ca98..d91dcca 100644
--- a/pterasoftware/airfoils/naca23015.dat
+++ b/pterasoftware/airfoils/naca23015.dat
@@ -36,4 +36,4 @@ NACA 23015
 0.9000     -0.0159
 0.9500     -0.0090
 1.0000     (-0.0016)
-100.00     0.0000
+1.0000     0.0000
diff --git a/pterasoftware/airfoils/naca23018.dat b/pterasoftware/airfoils/naca23018.dat
index 176227c..3d854ac 100644
--- a/pterasoftware/airfoils/naca23018.dat
+++ b/pterasoftware/airfoils/naca23018.dat
@@ -36,4 +36,4 @@ NACA 23018
 0.9000     -0.0194
 0.9500     -0.0109
 1.0000     (-0.0019)
-100.00     0.0000
+1.0000     0.0000
-- 
2.43.0


From 9062a2bf36ee88d5a0535ef7ece63a2d00f52fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 16/28] fix: let each ring's own side legs carry its strength
 in the loads

Where a control surface starts or ends, neighbouring panels' side legs do not
coincide, so sharing the strength difference between them left the mutual forces
of the two legs unbalanced: half a degree of aileron rolled the wrong way.
---
 .../steady_ring_vortex_lattice_method.py      | 65 ++++---------------
 .../unsteady_ring_vortex_lattice_method.py    | 65 ++++---------------
 2 files changed, 28 insertions(+), 102 deletions(-)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index ab8f1b0..b90f957 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -485,32 +485,13 @@ class SteadyRingVortexLatticeMethodSolver:
                 # Iterate through this wing's 1D array panels.
                 for panel in panels:
 
-                    # Check if this panel is on its wing's right edge.
-                    if panel.is_right_edge:
-
-                        # Change the effective right vortex line strength from zero
-                        # to this panel's ring vortex's strength.
-                        effective_right_vortex_line_strengths[global_panel_position] = (
-                            self.vortex_strengths[global_panel_position]
-                        )
-
-                    else:
-
-                        # Get the panel directly to the right of this panel.
-                        panel_to_right = wing.panels[
-                            panel.local_chordwise_position,
-                            panel.local_spanwise_position + 1,
-                        ]
-
-                        # Change the effective right vortex line strength from zero
-                        # to half of the difference between this panel's ring vortex's
-                        # strength, and the ring vortex strength of the panel to the
-                        # right of it. The other half belongs to the panel to the
-                        # right, which shares this leg.
-                        effective_right_vortex_line_strengths[global_panel_position] = (
-                            self.vortex_strengths[global_panel_position]
-                            - panel_to_right.ring_vortex.strength
-                        ) / 2
+                    # Change the effective right vortex line strength from zero to this
+                    # panel's ring vortex's strength. If there is a panel to the right
+                    # of it, that panel's coincident leg runs in the opposite direction,
+                    # so together they account for the difference in strengths.
+                    effective_right_vortex_line_strengths[global_panel_position] = (
+                        self.vortex_strengths[global_panel_position]
+                    )
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -537,31 +518,13 @@ class SteadyRingVortexLatticeMethodSolver:
                             - panel_to_front.ring_vortex.strength
                         )
 
-                    # Check if this panel is on its wing's left edge.
-                    if panel.is_left_edge:
-
-                        # Change the effective left vortex line strength from zero to
-                        # this panel's ring vortex's strength.
-                        effective_left_vortex_line_strengths[global_panel_position] = (
-                            self.vortex_strengths[global_panel_position]
-                        )
-                    else:
-
-                        # Get the panel directly to the left of this panel.
-                        panel_to_left = wing.panels[
-                            panel.local_chordwise_position,
-                            panel.local_spanwise_position - 1,
-                        ]
-
-                        # Change the effective left vortex line strength from zero to
-                        # half of the difference between this panel's ring vortex's
-                        # strength, and the ring vortex strength of the panel to the
-                        # left of it. The other half belongs to the panel to the left,
-                        # which shares this leg.
-                        effective_left_vortex_line_strengths[global_panel_position] = (
-                            self.vortex_strengths[global_panel_position]
-                            - panel_to_left.ring_vortex.strength
-                        ) / 2
+                    # Change the effective left vortex line strength from zero to this
+                    # panel's ring vortex's strength. If there is a panel to the left
+                    # of it, that panel's coincident leg runs in the opposite direction,
+                    # so together they account for the difference in strengths.
+                    effective_left_vortex_line_strengths[global_panel_position] = (
+                        self.vortex_strengths[global_panel_position]
+                    )
 
                     # Increment the global panel position.
                     global_panel_position += 1
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5f0bc61..87d0c5d 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -898,32 +898,13 @@ class UnsteadyRingVortexLatticeMethodSolver:
                 # Iterate through this wing's 1D array panels.
                 for panel in panels:
 
-                    # Check if this panel is on its wing's right edge.
-                    if panel.is_right_edge:
-
-                        # Change the effective right vortex line strength from zero
-                        # to this panel's ring vortex's strength.
-                        effective_right_vortex_line_strengths[global_panel_position] = (
-                            self.current_vortex_strengths[global_panel_position]
-                        )
-
-                    else:
-
-                        # Get the panel directly to the right of this panel.
-                        panel_to_right = wing.panels[
-                            panel.local_chordwise_position,
-                            panel.local_spanwise_position + 1,
-                        ]
-
-                        # Change the effective right vortex line strength from zero
-                        # to half of the difference between this panel's ring vortex's
-                        # strength, and the ring vortex strength of the panel to the
-                        # right of it. The other half belongs to the panel to the
-                        # right, which shares this leg.
-                        effective_right_vortex_line_strengths[global_panel_position] = (
-                            self.current_vortex_strengths[global_panel_position]
-                            - panel_to_right.ring_vortex.strength
-                        ) / 2
+                    # Change the effective right vortex line strength from zero to this
+                    # panel's ring vortex's strength. If there is a panel to the right
+                    # of it, that panel's coincident leg runs in the opposite direction,
+                    # so together they account for the difference in strengths.
+                    effective_right_vortex_line_strengths[global_panel_position] = (
+                        self.current_vortex_strengths[global_panel_position]
+                    )
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -950,31 +931,13 @@ class UnsteadyRingVortexLatticeMethodSolver:
                             - panel_to_front.ring_vortex.strength
                         )
 
-                    # Check if this panel is on its wing's left edge.
-                    if panel.is_left_edge:
-
-                        # Change the effective left vortex line strength from zero to
-                        # this panel's ring vortex's strength.
-                        effective_left_vortex_line_strengths[global_panel_position] = (
-                            self.current_vortex_strengths[global_panel_position]
-                        )
-                    else:
-
-                        # Get the panel directly to the left of this panel.
-                        panel_to_left = wing.panels[
-                            panel.local_chordwise_position,
-                            panel.local_spanwise_position - 1,
-                        ]
-
-                        # Change the effective left vortex line strength from zero to
-                        # half of the difference between this panel's ring vortex's
-                        # strength, and the ring vortex strength of the panel to the
-                        # left of it. The other half belongs to the panel to the left,
-                        # which shares this leg.
-                        effective_left_vortex_line_strengths[global_panel_position] = (
-                            self.current_vortex_strengths[global_panel_position]
-                            - panel_to_left.ring_vortex.strength
-                        ) / 2
+                    # Change the effective left vortex line strength from zero to this
+                    # panel's ring vortex's strength. If there is a panel to the left
+                    # of it, that panel's coincident leg runs in the opposite direction,
+                    # so together they account for the difference in strengths.
+                    effective_left_vortex_line_strengths[global_panel_position] = (
+                        self.current_vortex_strengths[global_panel_position]
+                    )
 
                     # Increment the global panel position.
                     global_panel_position += 1
-- 
2.43.0


From d5769abce943a339b8f5083e1a829c3d0611990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:26 +0000
Subject: [PATCH 17/28] fix: build airfoils whose surfaces have different
 numbers of points

---
 pterasoftware/geometry.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index b4b95ff..510dd12 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -950,6 +950,14 @@ class Airfoil:
         upper = np.flipud(self.upper_coordinates())
         lower = self.lower_coordinates()
 
+        # The two surfaces of airfoils that haven't been repaneled might have different
+        # numbers of points. If so, find the lower surface's points at the chord
+        # fractions of the upper surface's points.
+        if len(upper) != len(lower):
+            lower = np.column_stack(
+                (upper[:, 0], np.interp(upper[:, 0], lower[:, 0], lower[:, 1]))
+            )
+
         # Calculate the approximate mean camber line and populate the class attribute.
         mcl_coordinates = (upper + lower) / 2
         self.mcl_coordinates = mcl_coordinates
-- 
2.43.0


From f9e1b95f59a27ed11e225acf5b1227e5ca45ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:35 +0000
Subject: [PATCH 18/28] fix: draw the wake option of simulations with a single
 time step

A simulation with one step has no wake yet, and pyvista refuses empty meshes.
---
 pterasoftware/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 947dfd4..d53a33f 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -156,8 +156,8 @@ def draw(
         airplanes = solver.steady_problems[draw_step].airplanes
 
         # If the user wants to show the wake ring vortices, then get their surfaces and
-        # plot them.
-        if show_wake_vortices:
+        # plot them. There are no wake ring vortices to plot at the first time step.
+        if show_wake_vortices and draw_step > 0:
             wake_ring_vortex_surfaces = get_wake_ring_vortex_surfaces(solver, draw_step)
             plotter.add_mesh(
                 wake_ring_vortex_surfaces,
-- 
2.43.0


From 1a2a8a08c5b7c6c7938fd679230e20cb546803b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:21 +0000
Subject: [PATCH 19/28] fix: save animations of simulations with time steps
 over a second

Rounding the frame rate down gave zero frames per second.
---
 pterasoftware/output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index d53a33f..7e19faa 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -35,7 +35,6 @@ This module contains the following functions:
     plot_scalars: This function plots a scalar bar, the mesh panels with a particular
     set of scalars, and labels for the minimum and maximum scalar values."""
 
-import math
 import time
 
 import matplotlib.pyplot as plt
@@ -340,7 +339,7 @@ def animate(
     speed = 1
     if requested_fps > 50:
         speed = 50 / requested_fps
-    actual_fps = math.floor(requested_fps * speed)
+    actual_fps = requested_fps * speed
 
     # Initialize the plotter and get the color map.
     plotter = pv.Plotter(window_size=window_size, lighting=None)
-- 
2.43.0


From 30b1be87982b64cef87146b031b901317a846dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:28 +0000
Subject: [PATCH 20/28] fix: reverse the unsteady force's direction

Circulation is negative on panels lifting along their normals (a positive ring
induces velocity along the normal), so the unsteady Bernoulli term is minus density
times its rate of change. With the wrong sign the lift of a plunging or pitching wing
lags Theodorsen's result by 16 to 90 degrees, and an impulsively started wing begins
with almost no lift instead of at least half of it.
---
 pterasoftware/unsteady_ring_vortex_lattice_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 87d0c5d..ede3ae0 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -986,7 +986,7 @@ class UnsteadyRingVortexLatticeMethodSolver:
             )
         )
         unsteady_near_field_forces_geometry_axes = (
-            self.current_operating_point.density
+            -self.current_operating_point.density
             * np.expand_dims(
                 (self.current_vortex_strengths - self.last_panel_vortex_strengths),
                 axis=1,
-- 
2.43.0


From 250790204dd0c00ea50d13fe162fdd9d3347424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 21/28] fix: judge closeness to a vortex line relative to its
 length

---
 pterasoftware/aerodynamics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pterasoftware/aerodynamics.py b/pterasoftware/aerodynamics.py
index 48d4ce8..ffd8db6 100644
--- a/pterasoftware/aerodynamics.py
+++ b/pterasoftware/aerodynamics.py
@@ -877,10 +877,10 @@ def collapsed_velocities_from_line_vortices(
             c_3 = r_1_x * r_2_x + r_1_y * r_2_y + r_1_z * r_2_z
 
             # If part of the vortex is so close to the point that they are touching (
-            # within machine epsilon), there is a removable discontinuity. In this
-            # case, continue to the next point because there is no velocity induced
-            # by the current vortex at this point.
-            if r_1 < eps or r_2 < eps or r_3**2 < eps:
+            # within machine epsilon, relative to the lengths involved), there is a
+            # removable discontinuity. In this case, continue to the next point
+            # because there is no velocity induced by the current vortex at this point.
+            if r_3**2 <= eps * max(r_0**2, r_1 * r_2) ** 2:
                 continue
             else:
                 c_4 = (
@@ -1008,10 +1008,10 @@ def expanded_velocities_from_line_vortices(
             c_3 = r_1_x * r_2_x + r_1_y * r_2_y + r_1_z * r_2_z
 
             # If part of the vortex is so close to the point that they are touching (
-            # within machine epsilon), there is a removable discontinuity. In this
-            # case, set the velocity components to their true values, which are 0.0
-            # meters per second.
-            if r_1 < eps or r_2 < eps or r_3**2 < eps:
+            # within machine epsilon, relative to the lengths involved), there is a
+            # removable discontinuity. In this case, set the velocity components to
+            # their true values, which are 0.0 meters per second.
+            if r_3**2 <= eps * max(r_0**2, r_1 * r_2) ** 2:
                 continue
             else:
                 c_4 = (
-- 
2.43.0


From c9be95f6723fe68ff8de712fec1f8cf85f5bc77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 22/28] fix: study convergence with the wings' own orientation

---
 pterasoftware/convergence.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index c8447aa..d0c2cb5 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -184,12 +184,11 @@ def analyze_steady_convergence(
                             next_ref_wing_cross_section = ref_wing_cross_sections[
                                 ref_wing_cross_section_id + 1
                             ]
-                            # ToDo: Modify this to allow for new geometry with custom
-                            #  planes for the wing cross sections. As of now,
-                            #  it fails for vertical wings.
-                            section_length = (
-                                next_ref_wing_cross_section.y_le
-                                - ref_wing_cross_section.y_le
+                            # Find the section's length along the wing's normal.
+                            section_length = np.dot(
+                                next_ref_wing_cross_section.leading_edge
+                                - ref_wing_cross_section.leading_edge,
+                                ref_wing.unit_normal_vector,
                             )
                             root_chord = ref_wing_cross_section.chord
                             tip_chord = next_ref_wing_cross_section.chord
@@ -220,6 +219,7 @@ def analyze_steady_convergence(
                                 z_le=ref_wing_cross_section.z_le,
                                 chord=ref_wing_cross_section.chord,
                                 twist=ref_wing_cross_section.twist,
+                                unit_normal_vector=ref_wing_cross_section.unit_normal_vector,
                                 control_surface_type=ref_wing_cross_section.control_surface_type,
                                 control_surface_hinge_point=ref_wing_cross_section.control_surface_hinge_point,
                                 control_surface_deflection=ref_wing_cross_section.control_surface_deflection,
@@ -243,6 +243,8 @@ def analyze_steady_convergence(
                             y_le=ref_wing.y_le,
                             z_le=ref_wing.z_le,
                             symmetric=ref_wing.symmetric,
+                            unit_normal_vector=ref_wing.unit_normal_vector,
+                            unit_chordwise_vector=ref_wing.unit_chordwise_vector,
                             chordwise_spacing=ref_wing.chordwise_spacing,
                             # These values change.
                             num_chordwise_panels=num_chordwise_panels,
@@ -755,12 +757,12 @@ def analyze_unsteady_convergence(
                                             ref_wing_cross_section_movement_id + 1
                                         ].base_wing_cross_section
                                     )
-                                    # ToDo: Modify this to allow for new geometry
-                                    #  with custom planes for the wing cross
-                                    #  sections. As of now, it fails for vertical wings.
-                                    section_length = (
-                                        next_ref_base_wing_cross_section.y_le
-                                        - ref_base_wing_cross_section.y_le
+                                    # Find the section's length along the wing's
+                                    # normal.
+                                    section_length = np.dot(
+                                        next_ref_base_wing_cross_section.leading_edge
+                                        - ref_base_wing_cross_section.leading_edge,
+                                        ref_base_wing.unit_normal_vector,
                                     )
                                     root_chord = ref_base_wing_cross_section.chord
                                     tip_chord = next_ref_base_wing_cross_section.chord
@@ -810,6 +812,7 @@ def analyze_unsteady_convergence(
                                     z_le=ref_base_wing_cross_section.z_le,
                                     chord=ref_base_wing_cross_section.chord,
                                     twist=ref_base_wing_cross_section.twist,
+                                    unit_normal_vector=ref_base_wing_cross_section.unit_normal_vector,
                                     control_surface_type=ref_base_wing_cross_section.control_surface_type,
                                     control_surface_hinge_point=ref_base_wing_cross_section.control_surface_hinge_point,
                                     control_surface_deflection=ref_base_wing_cross_section.control_surface_deflection,
@@ -865,6 +868,8 @@ def analyze_unsteady_convergence(
                                 y_le=ref_base_wing.y_le,
                                 z_le=ref_base_wing.z_le,
                                 symmetric=ref_base_wing.symmetric,
+                                unit_normal_vector=ref_base_wing.unit_normal_vector,
+                                unit_chordwise_vector=ref_base_wing.unit_chordwise_vector,
                                 chordwise_spacing=ref_base_wing.chordwise_spacing,
                                 # These values change.
                                 num_chordwise_panels=num_chordwise_panels,
-- 
2.43.0


From fa19c58d2a5482db3269b2b1edcd779f52adfe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 23/28] fix: accept wing directions that are only perpendicular
 to within rounding

---
 pterasoftware/geometry.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 510dd12..e86e534 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -297,8 +297,11 @@ class Wing:
                 "the wing's leading edge."
             )
 
-        # Check that the wing's chordwise and normal directions are perpendicular.
-        if np.dot(self.unit_chordwise_vector, self.unit_normal_vector) != 0:
+        # Check that the wing's chordwise and normal directions are perpendicular, to
+        # within rounding.
+        if not np.isclose(
+            np.dot(self.unit_chordwise_vector, self.unit_normal_vector), 0.0
+        ):
             raise Exception(
                 "Every wing cross section's plane must intersect with the wing's "
                 "symmetry plane along a line that is parallel with the wing's "
@@ -324,9 +327,11 @@ class Wing:
                 self.unit_normal_vector, wing_cross_section.unit_normal_vector
             )
 
-            # If this vector is not parallel to the wing's chordwise vector, raise an
-            # exception.
-            if np.any(np.cross(plane_intersection_vector, self.unit_chordwise_vector)):
+            # If this vector is not parallel to the wing's chordwise vector, to within
+            # rounding, raise an exception.
+            if not np.allclose(
+                np.cross(plane_intersection_vector, self.unit_chordwise_vector), 0.0
+            ):
                 raise Exception(
                     "Every wing cross section's plane must intersect with the wing's "
                     "symmetry plane along a line that is parallel with the wing's "
-- 
2.43.0


From 4f009d9634ae1a43f9ae8b6a49e584edf1858a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:57 +0000
Subject: [PATCH 24/28] fix: give wings without span trailing vortices of
 nonzero length

---
 .../steady_horseshoe_vortex_lattice_method.py        | 12 ++++++++++--
 pterasoftware/steady_ring_vortex_lattice_method.py   | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 2e40ef8..963bc1a 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -170,8 +170,16 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
 
                 # Find a suitable length for the "infinite" legs of the horseshoe
                 # vortices on this wing. At twenty-times the wing's span, these legs
-                # are essentially infinite.
-                infinite_leg_length = wing.span * 20
+                # are essentially infinite. A wing which doesn't extend along its
+                # normal (for example, a vertical stabilizer) has no span, so also
+                # consider the distance between its root and tip leading edges.
+                infinite_leg_length = 20 * max(
+                    wing.span,
+                    np.linalg.norm(
+                        wing.wing_cross_sections[-1].leading_edge
+                        - wing.wing_cross_sections[0].leading_edge
+                    ),
+                )
 
                 # Iterate through the wing's chordwise and spanwise panel positions.
                 for chordwise_position in range(wing.num_chordwise_panels):
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index b90f957..dbbe352 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -205,8 +205,16 @@ class SteadyRingVortexLatticeMethodSolver:
 
                 # Find a suitable length for the "infinite" legs of the horseshoe
                 # vortices on this wing. At twenty-times the wing's span, these legs
-                # are essentially infinite.
-                infinite_leg_length = wing.span * 20
+                # are essentially infinite. A wing which doesn't extend along its
+                # normal (for example, a vertical stabilizer) has no span, so also
+                # consider the distance between its root and tip leading edges.
+                infinite_leg_length = 20 * max(
+                    wing.span,
+                    np.linalg.norm(
+                        wing.wing_cross_sections[-1].leading_edge
+                        - wing.wing_cross_sections[0].leading_edge
+                    ),
+                )
 
                 # Iterate through the wing's chordwise and spanwise positions.
                 for chordwise_position in range(wing.num_chordwise_panels):
-- 
2.43.0


From ba395a7d6278a5e2f16f675fd3b1df23d986d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:08 +0000
Subject: [PATCH 25/28] fix: measure the sections' own length in convergence
 studies

---
 pterasoftware/convergence.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index d0c2cb5..c47798c 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -184,11 +184,14 @@ def analyze_steady_convergence(
                             next_ref_wing_cross_section = ref_wing_cross_sections[
                                 ref_wing_cross_section_id + 1
                             ]
-                            # Find the section's length along the wing's normal.
-                            section_length = np.dot(
-                                next_ref_wing_cross_section.leading_edge
-                                - ref_wing_cross_section.leading_edge,
-                                ref_wing.unit_normal_vector,
+                            # Find the section's length across the wing's chordwise
+                            # direction.
+                            section_length = np.linalg.norm(
+                                np.cross(
+                                    next_ref_wing_cross_section.leading_edge
+                                    - ref_wing_cross_section.leading_edge,
+                                    ref_wing.unit_chordwise_vector,
+                                )
                             )
                             root_chord = ref_wing_cross_section.chord
                             tip_chord = next_ref_wing_cross_section.chord
@@ -757,12 +760,14 @@ def analyze_unsteady_convergence(
                                             ref_wing_cross_section_movement_id + 1
                                         ].base_wing_cross_section
                                     )
-                                    # Find the section's length along the wing's
-                                    # normal.
-                                    section_length = np.dot(
-                                        next_ref_base_wing_cross_section.leading_edge
-                                        - ref_base_wing_cross_section.leading_edge,
-                                        ref_base_wing.unit_normal_vector,
+                                    # Find the section's length across the wing's
+                                    # chordwise direction.
+                                    section_length = np.linalg.norm(
+                                        np.cross(
+                                            next_ref_base_wing_cross_section.leading_edge
+                                            - ref_base_wing_cross_section.leading_edge,
+                                            ref_base_wing.unit_chordwise_vector,
+                                        )
                                     )
                                     root_chord = ref_base_wing_cross_section.chord
                                     tip_chord = next_ref_base_wing_cross_section.chord
-- 
2.43.0


From 7d483dac7566f3e835171904e9fe3ea1bc1aee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:02 +0000
Subject: [PATCH 26/28] fix: monitor resultant coefficients in unsteady
 convergence studies by default

---
 pterasoftware/convergence.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index c47798c..ba0b9ef 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -575,6 +575,11 @@ def analyze_unsteady_convergence(
         it is in units of percent. Refer to the description above for more details on
         how it affects the solver. In short, set this value to 5.0 for a lenient
         convergence, and 1.0 for a strict convergence. The default value is 5.0.
+    :param coefficient_mask: list of bools, optional
+        If given, these six values select which of the induced drag, side force,
+        lift, rolling moment, pitching moment, and yawing moment coefficients are
+        monitored individually instead of the resultant force and moment
+        coefficients. The default value is None.
     :return: list
         This function returns a list of four ints. In order, they are the converged
         wake state, the converged wake length, the converged of panel aspect ratio
@@ -590,10 +595,12 @@ def analyze_unsteady_convergence(
     ref_airplane_movements = ref_movement.airplane_movements
     ref_operating_point_movement = ref_movement.operating_point_movement
 
+    # If there isn't a mask, then monitor the resultant force coefficient and the
+    # resultant moment coefficient.
     if coefficient_mask is None:
-        coefficient_mask = [True, True, True, True, True, True]
-
-    num_coefficients = coefficient_mask.count(True)
+        num_coefficients = 2
+    else:
+        num_coefficients = coefficient_mask.count(True)
 
     wake_list = []
     if prescribed_wake:
@@ -1008,13 +1015,19 @@ def analyze_unsteady_convergence(
                                 airplane_id
                             ]
 
-                        all_coefficients = np.concatenate(
-                            [all_force_coefficients, all_moment_coefficients]
-                        )
+                        if coefficient_mask is None:
+                            these_coefficients[airplane_id] = [
+                                np.linalg.norm(all_force_coefficients),
+                                np.linalg.norm(all_moment_coefficients),
+                            ]
+                        else:
+                            all_coefficients = np.concatenate(
+                                [all_force_coefficients, all_moment_coefficients]
+                            )
 
-                        these_coefficients[airplane_id] = all_coefficients[
-                            coefficient_mask
-                        ]
+                            these_coefficients[airplane_id] = all_coefficients[
+                                coefficient_mask
+                            ]
 
                     # Populate the arrays that store information of all the
                     # iterations with the data from this iteration.
-- 
2.43.0


From 5480967acb0392a09ca9dad13525728949613d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:30 +0000
Subject: [PATCH 27/28] fix: run the example chosen in the GUI's menu

---
 main.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/main.py b/main.py
index 36000a0..6b0b4ed 100644
--- a/main.py
+++ b/main.py
@@ -48,15 +48,20 @@ class MainWindow(QMainWindow, Ui_MainWindowDesign):
         self.displayText = ""
 
     def exampleMenu(self, ex_num):
+        # The menu lists the examples in alphabetical order.
         files = []
-        for i, filename in enumerate(os.listdir("examples")):
-            f = "examples." + filename
-            files.append(f)
+        for filename in sorted(os.listdir("examples")):
+            if filename.endswith(".py") and filename != "__init__.py":
+                files.append("examples." + filename)
         file = files[ex_num]
         file = file.replace(".py", "")
         self.printTerminalOutput(f"Example {ex_num + 1} executed")
         print(file)
-        importlib.import_module(file)
+        # Importing a module that was already imported wouldn't execute it again.
+        if file in sys.modules:
+            importlib.reload(sys.modules[file])
+        else:
+            importlib.import_module(file)
 
     def printTerminalOutput(self, text):
         print("Printing terminal output")
-- 
2.43.0


From 3b8f93832675258ed1f49d95604fb9fad5316265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:30 +0000
Subject: [PATCH 28/28] fix: show updated texts in the GUI's terminal output

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 6b0b4ed..0ef62b9 100644
--- a/main.py
+++ b/main.py
@@ -70,7 +70,7 @@ class MainWindow(QMainWindow, Ui_MainWindowDesign):
 
     def updateDisplayText(self, text):
         self.displayText = text
-        self.printTerminalOutput(self, text)
+        self.printTerminalOutput(text)
 
     def menuREADME(self):
         from PySide6.QtGui import QTextDocument
-- 
2.43.0

