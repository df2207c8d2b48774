From 403b717425c9b157abfee147c447fc905491b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 01/85] fix: UFac partials follow the branches of compute
 (lift_ratio, tailless BWB)

---
 .../aerodynamics/gasp_based/gaspaero.py           | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index cc5c2ac..65e0b8e 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -616,13 +616,20 @@ class UFac(om.ExplicitComponent):
         bbar = inputs['bbar_alt']
         sigma = inputs['sigma']
         sigstr = inputs['sigstr']
+        wingspan = inputs[Aircraft.Wing.SPAN]
+
+        # compute() replaces a vanishing bbar by a constant for a tailless "BWB"
+        dbbar = 1.0
+        if design_type is AircraftTypes.BLENDED_WING_BODY and bbar < 0.01 * wingspan:
+            bbar = 1.0
+            dbbar = 0.0
 
         numer = (1 + lift_ratio) ** 2
         denom = sigstr * (lift_ratio / bbar) ** 2 + 2 * sigma * lift_ratio / bbar + 1
         ufac = numer / denom
 
         # w.r.t. lift_ratio
-        dnumer = 2 * (1 + lift_ratio) / bbar
+        dnumer = 2 * (1 + lift_ratio)
         ddenom = 2 * sigstr * (lift_ratio / bbar) / bbar + 2 * sigma / bbar
         dufac_dlift_ratio = (dnumer * denom - numer * ddenom) / denom**2
 
@@ -633,17 +640,21 @@ class UFac(om.ExplicitComponent):
             -2 * sigstr * (lift_ratio / bbar) * lift_ratio / bbar**2
             - 2 * sigma * lift_ratio / bbar**2
         )
-        dufac_dbbar = -numer * ddenom_dbbar / denom**2
+        dufac_dbbar = -numer * ddenom_dbbar / denom**2 * dbbar
 
         if design_type is AircraftTypes.BLENDED_WING_BODY:
             smooth = self.options['smooth_ufac']
             if smooth:
                 mu = self.options['mu']
+                dufac_dlift_ratio = d_smooth_min(ufac, 0.975, mu) * dufac_dlift_ratio
                 dufac_dsigstr = d_smooth_min(ufac, 0.975, mu) * dufac_dsigstr
                 dufac_dsigma = d_smooth_min(ufac, 0.975, mu) * dufac_dsigma
                 dufac_dbbar = d_smooth_min(ufac, 0.975, mu) * dufac_dbbar
             else:
                 ufac = np.minimum(ufac, 0.975)
+                dufac_dlift_ratio = (
+                    np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dlift_ratio
+                )
                 dufac_dsigstr = (
                     np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dsigstr
                 )
-- 
2.43.0


From fc703c9126303a811960d03e745ce052cfed166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 02/85] fix: AeroGeom declares the drag factors of SA7 and the
 strut chord, strut Reynolds factor per node

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 65e0b8e..e202b28 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -900,9 +900,11 @@ class AeroGeom(om.ExplicitComponent):
         )
         self.declare_partials(
             'SA7',
-            most_params + [Aircraft.Wing.ASPECT_RATIO, Aircraft.Wing.SWEEP] + ['siwb'],
+            most_params + drag_factors + [Aircraft.Wing.ASPECT_RATIO, Aircraft.Wing.SWEEP] + ['siwb'],
             method='cs',
         )
+        if self.options[Aircraft.Wing.HAS_STRUT]:
+            self.declare_partials(['SA5', 'SA7'], Aircraft.Strut.CHORD, method='cs')
 
     def compute(self, inputs, outputs):
         mach = inputs[Dynamic.Atmosphere.MACH]
@@ -1002,7 +1004,7 @@ class AeroGeom(om.ExplicitComponent):
         fhtre[good_mask] = (np.log10(reli[good_mask] * htail_chord) / 7) ** -2.6
         include_strut = self.options[Aircraft.Wing.HAS_STRUT]
         if include_strut:
-            fstrtre = (np.log10(reli[good_mask] * strut_chord) / 7) ** -2.6
+            fstrtre[good_mask] = (np.log10(reli[good_mask] * strut_chord) / 7) ** -2.6
 
         # fuselage form drag factor
         # fffus = 1 + 1.5 * (cabin_width / fus_len) ** 1.5 + 7 * (cabin_width / fus_len) ** 3
-- 
2.43.0


From 6a3705ca412ef0d4307b91c91ba786818b54cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 03/85] fix: DragCoefClean declares the drag coefficient
 factors it uses

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index e202b28..751100e 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -1406,6 +1406,10 @@ class DragCoefClean(om.ExplicitComponent):
             Dynamic.Vehicle.DRAG_COEFFICIENT,
             [
                 Aircraft.Design.DRAG_DIVERGENCE_SHIFT,
+                Aircraft.Design.SUBSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.SUPERSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
+                Aircraft.Design.ZERO_LIFT_DRAG_COEFF_FACTOR,
                 Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
             ],
             method='cs',
-- 
2.43.0


From 3cb04696444bae024e3b665e486b7ce78ab98a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 04/85] fix: every node of the cruise distance depends on the
 initial distance

---
 aviary/mission/two_dof/ode/simple_cruise_eom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/two_dof/ode/simple_cruise_eom.py b/aviary/mission/two_dof/ode/simple_cruise_eom.py
index 792f81f..690a035 100644
--- a/aviary/mission/two_dof/ode/simple_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/simple_cruise_eom.py
@@ -55,8 +55,8 @@ class DistanceComp(om.ExplicitComponent):
         self.declare_partials(
             Dynamic.Mission.DISTANCE,
             'cruise_distance_initial',
-            rows=[0],
-            cols=[0],
+            rows=row_col,
+            cols=np.zeros(nn, dtype=int),
             val=1.0,
         )
 
-- 
2.43.0


From b47fede5a489a2fd8883a766315b4b1b1d7bdf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 05/85] fix: a vanished canard resets its characteristic length
 and fineness

---
 .../subsystems/geometry/flops_based/characteristic_lengths.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
index 4b72422..4cdd43b 100644
--- a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
+++ b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
@@ -600,6 +600,8 @@ class CanardCharacteristicLength(om.ExplicitComponent):
         area = inputs[Aircraft.Canard.AREA]
 
         if area <= 0.0:
+            outputs[Aircraft.Canard.CHARACTERISTIC_LENGTH] = 0.0
+            outputs[Aircraft.Canard.FINENESS] = 0.0
             return
 
         thickness_to_chord = inputs[Aircraft.Canard.THICKNESS_TO_CHORD]
-- 
2.43.0


From 8bd93f5749ab2747ae5f7e6abfa51e590037fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 06/85] fix: PreHamiltonStandard leaves its velocity input
 alone and has no derivative where it is clipped

---
 .../subsystems/propulsion/propeller/hamilton_standard.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/propulsion/propeller/hamilton_standard.py b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
index b8fd84d..51170a6 100644
--- a/aviary/subsystems/propulsion/propeller/hamilton_standard.py
+++ b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
@@ -530,7 +530,7 @@ class PreHamiltonStandard(om.ExplicitComponent):
         rho_sea_level = self.options[Mission.SEA_LEVEL_DENSITY][0]
 
         # arbitrarily small number to keep advance ratio nonzero, which allows for static thrust prediction
-        vtas[np.where(vtas <= 1e-6)] = 1e-6
+        vtas = np.where(vtas <= 1e-6, 1e-6, vtas)
         density_ratio = inputs[Dynamic.Atmosphere.DENSITY] / rho_sea_level
 
         if diam_prop <= 0.0:
@@ -571,7 +571,11 @@ class PreHamiltonStandard(om.ExplicitComponent):
         # partials["density_ratio", Dynamic.Atmosphere.DENSITY] = 1 / rho_sea_level
         partials['tip_mach', Dynamic.Vehicle.Propulsion.PROPELLER_TIP_SPEED] = 1 / sos
         partials['tip_mach', Dynamic.Atmosphere.SPEED_OF_SOUND] = -tipspd / sos**2
-        partials['advance_ratio', Dynamic.Mission.VELOCITY] = math.pi / tipspd
+        clipped = vtas <= 1e-6
+        vtas = np.where(clipped, 1e-6, vtas)
+        partials['advance_ratio', Dynamic.Mission.VELOCITY] = np.where(
+            clipped, 0.0, math.pi / tipspd
+        )
         partials['advance_ratio', Dynamic.Vehicle.Propulsion.PROPELLER_TIP_SPEED] = (
             -math.pi * vtas / (tipspd * tipspd)
         )
-- 
2.43.0


From 4deaf9cecb01657ec1f121f70444f7aac5ebb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 07/85] fix: passenger service mass derivative for 10 to 19
 passengers

---
 .../mass/gasp_based/passenger_service.py          | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/passenger_service.py b/aviary/subsystems/mass/gasp_based/passenger_service.py
index 82d0a38..aa94247 100644
--- a/aviary/subsystems/mass/gasp_based/passenger_service.py
+++ b/aviary/subsystems/mass/gasp_based/passenger_service.py
@@ -70,12 +70,12 @@ class PassengerServiceMass(om.ExplicitComponent):
     def compute_partials(self, inputs, J):
         num_pax = self.options[Aircraft.CrewPayload.Design.NUM_PASSENGERS]
 
-        if num_pax > 19.0:
-            J[
-                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
-                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
-            ] = num_pax
+        J[
+            Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
+            Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
+        ] = num_pax if num_pax > 9.0 else 0
 
+        if num_pax > 19.0:
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.WATER_MASS_PER_OCCUPANT,
@@ -87,11 +87,6 @@ class PassengerServiceMass(om.ExplicitComponent):
             ] = num_pax
 
         else:
-            J[
-                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
-                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
-            ] = 0
-
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.WATER_MASS_PER_OCCUPANT,
-- 
2.43.0


From e9208db08a78786bc5d012e804ebe537ea40edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 08/85] fix: smoothed furnishing mass blends its two branches;
 CPX between the cabin width limits

---
 aviary/subsystems/mass/gasp_based/furnishings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/furnishings.py b/aviary/subsystems/mass/gasp_based/furnishings.py
index dfc3a8c..1935311 100644
--- a/aviary/subsystems/mass/gasp_based/furnishings.py
+++ b/aviary/subsystems/mass/gasp_based/furnishings.py
@@ -95,7 +95,7 @@ def common_compute(
             )
             furnishing_wt_2 = CPX * PAX + 310.0
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         furnishing_wt = smooth_max(furnishing_wt, 30.0, mu)
     else:
         if gross_wt_init <= 10000.0:
@@ -122,6 +122,7 @@ def common_compute(
                 )
             else:
                 CPX_lin = 28.0 + 10.516 * (cabin_width - 5.667)
+                CPX = CPX_lin
                 if cabin_width <= 5.667:
                     CPX = 28.0
                 elif cabin_width > 8.90:
@@ -198,7 +199,6 @@ def common_compute_partials(
             dCPX_dcabin_width_2 = (
                 1 * dSigmoidXdx(CPX_lin / 28, 1, 0.01) * -dCPX_lin_dcabin_width
                 + dCPX_lin_dcabin_width
-                * CPX_lin
                 * sigmoidX(CPX_lin / 28, 1, 0.01)
                 * sigmoidX(CPX_lin / 62, 1, -0.01)
                 + CPX_lin
@@ -222,7 +222,7 @@ def common_compute_partials(
 
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
         dsmoother_dgross_wt_init = dSigmoidXdx(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         dfurnishing_wt_dcabin_width = (
             1 - smoother
         ) * dfurnishing_wt_dcabin_width_1 + smoother * dfurnishing_wt_dcabin_width_2
@@ -296,6 +296,7 @@ def common_compute_partials(
                 dfurnishing_wt_dacabin = dfurnishing_wt_additional_dacabin + 0.5
             else:
                 CPX_lin = 28.0 + 10.516 * (cabin_width - 5.667)
+                CPX = CPX_lin
                 if cabin_width <= 5.667:
                     CPX = 28.0
                 elif cabin_width > 8.90:
@@ -303,6 +304,7 @@ def common_compute_partials(
                 furnishing_wt = CPX * PAX + 310.0
 
                 dCPX_lin_dcabin_width = 10.516
+                dCPX_dcabin_width = dCPX_lin_dcabin_width
                 if cabin_width <= 5.667:
                     dCPX_dcabin_width = 0.0
                 if cabin_width > 8.90:
-- 
2.43.0


From 83986412f7aabd50668e4dc348d8e26ff486ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 09/85] fix: nacelle diameter derivatives of starter and
 anti-icing mass with several engine models

---
 aviary/subsystems/mass/flops_based/distributed_prop.py |  5 +++--
 aviary/subsystems/mass/flops_based/starter.py          | 10 +++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/distributed_prop.py b/aviary/subsystems/mass/flops_based/distributed_prop.py
index 8edab19..0bbcebd 100644
--- a/aviary/subsystems/mass/flops_based/distributed_prop.py
+++ b/aviary/subsystems/mass/flops_based/distributed_prop.py
@@ -78,9 +78,10 @@ def distributed_nacelle_diam_factor_deriv(num_eng: int) -> float:
     except TypeError:
         total_num_engines = num_eng
 
-    deriv = 1.0
+    # share of each engine model in the average diameter
+    deriv = np.asarray(num_eng) / total_num_engines
     if total_num_engines > 4:
-        deriv = num_eng * (0.5 * total_num_engines**0.5) / total_num_engines
+        deriv = deriv * 0.5 * total_num_engines**0.5
 
     return deriv
 
diff --git a/aviary/subsystems/mass/flops_based/starter.py b/aviary/subsystems/mass/flops_based/starter.py
index 7def8a5..f6ef4d0 100644
--- a/aviary/subsystems/mass/flops_based/starter.py
+++ b/aviary/subsystems/mass/flops_based/starter.py
@@ -68,23 +68,23 @@ class TransportStarterMass(om.ExplicitComponent):
 
         diam_deriv_fact = distributed_nacelle_diam_factor_deriv(num_engines)
         max_mach_exp = max_mach**0.32
-        d_avg = sum(adjusted_d_nacelle * num_engines) / total_engines
+        f_nacelle = distributed_nacelle_diam_factor(adjusted_d_nacelle, num_engines)
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
             11.0
             * 1.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
+            * diam_deriv_fact
             * np.sqrt(thrust_ratio)
-            * d_avg**0.6
+            * f_nacelle**0.6
         ) / GRAV_ENGLISH_LBM
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Engine.SCALE_FACTOR] = (
             17.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
-            * d_avg**0.6
+            * diam_deriv_fact
+            * f_nacelle**0.6
             * (d_nacelle * 0.5 / np.sqrt(thrust_ratio))
         ) / GRAV_ENGLISH_LBM
-- 
2.43.0


From f58691f37843898e88ebd41d438ce7c77fca1b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 10/85] fix: fuel system mass derivative with more than four
 engines

---
 aviary/subsystems/mass/flops_based/fuel_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/flops_based/fuel_system.py b/aviary/subsystems/mass/flops_based/fuel_system.py
index 5e37d5b..c583d9d 100644
--- a/aviary/subsystems/mass/flops_based/fuel_system.py
+++ b/aviary/subsystems/mass/flops_based/fuel_system.py
@@ -52,7 +52,7 @@ class TransportFuelSystemMass(om.ExplicitComponent):
             1.07
             * 0.58
             * capacity**-0.42
-            * num_eng**0.43
+            * num_eng_fact**0.43
             * max_mach**0.34
             * scaler
             / GRAV_ENGLISH_LBM
-- 
2.43.0


From 8921728421806f3cb2b766d27ea6f9d309bbb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 11/85] fix: main gear length derivatives with several engine
 models and dimensional engine locations

---
 .../subsystems/geometry/flops_based/landing_gear.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/landing_gear.py b/aviary/subsystems/geometry/flops_based/landing_gear.py
index 791fc71..6827025 100644
--- a/aviary/subsystems/geometry/flops_based/landing_gear.py
+++ b/aviary/subsystems/geometry/flops_based/landing_gear.py
@@ -144,7 +144,7 @@ class MainGearLength(om.ExplicitComponent):
                 yee = y_eng_aft
 
             dyee_dwel = 1.0
-            dyee_dspan = 1.0
+            dyee_dspan = 0.0
             if yee < 1.0:
                 dyee_dwel = 6.0 * inputs[Aircraft.Wing.SPAN]
                 dyee_dspan = 6.0 * yee
@@ -184,13 +184,20 @@ class MainGearLength(om.ExplicitComponent):
                 dcmlg_dhw * dhw_dfuse_wid
             )
 
+            # only the first engine model and location matter, see issue #1183
+            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER] = (
+                0.0
+            )
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER][
-                :
+                0, 0
             ] = dcmlg_dnac
 
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Engine.WING_LOCATIONS] = (
-                dcmlg_dyee * dyee_dwel
+                0.0
             )
+            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Engine.WING_LOCATIONS][
+                0, 0
+            ] = (dcmlg_dyee * dyee_dwel).item()
 
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Wing.DIHEDRAL] = (
                 dcmlg_dtan * dtan_dih
-- 
2.43.0


From 9173596b20fd80772a4d0c5e75faa7c548562917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 12/85] fix: tail mass derivatives include the mass scalers

---
 aviary/subsystems/mass/gasp_based/fixed.py | 95 ++++++++++++++++------
 1 file changed, 68 insertions(+), 27 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index 7de2945..6b68969 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -660,6 +660,7 @@ class HorizontalTailMass(om.ExplicitComponent):
         htail_mom_arm = inputs[Aircraft.HorizontalTail.MOMENT_ARM]
         tc_ratio_root_htail = inputs[Aircraft.HorizontalTail.THICKNESS_TO_CHORD]
         root_chord_htail = inputs[Aircraft.HorizontalTail.ROOT_CHORD]
+        CK9 = inputs[Aircraft.HorizontalTail.MASS_SCALER]
 
         FH = (
             gross_wt_initial
@@ -725,7 +726,8 @@ class HorizontalTailMass(om.ExplicitComponent):
         )
 
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.AREA] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -737,7 +739,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_area ** (-0.46)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Design.GROSS_MASS] = (
-            350.0
+            CK9
+            * 350.0
             * 0.54
             * (
                 htail_area
@@ -749,7 +752,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dGrossWtInitial
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -762,7 +766,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dCoefHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Fuselage.LENGTH] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -775,7 +780,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dFusLen
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -788,7 +794,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dSpanHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -801,7 +808,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dHookFac
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -814,7 +822,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dTaperRatioHtail
         )
         J[Aircraft.HorizontalTail.MASS, 'min_dive_vel'] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (htail_area * FH / (100.0 * htail_mom_arm * tc_ratio_root_htail * root_chord_htail))
@@ -823,7 +832,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MOMENT_ARM] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -836,7 +846,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_mom_arm ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.THICKNESS_TO_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -849,7 +860,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * tc_ratio_root_htail ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.ROOT_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -1025,6 +1037,7 @@ class VerticalTailMass(om.ExplicitComponent):
         vtail_mom_arm = inputs[Aircraft.VerticalTail.MOMENT_ARM]
         tc_ratio_root_vtail = inputs[Aircraft.VerticalTail.THICKNESS_TO_CHORD]
         root_chord_vtail = inputs[Aircraft.VerticalTail.ROOT_CHORD]
+        CK10 = inputs[Aircraft.VerticalTail.MASS_SCALER]
 
         tan_sweep_vtail_LE = (1.0 - taper_ratio_vtail) / (
             1.0 + taper_ratio_vtail
@@ -1195,36 +1208,55 @@ class VerticalTailMass(om.ExplicitComponent):
         )
 
         J[Aircraft.VerticalTail.MASS, Aircraft.Design.GROSS_MASS] = (
-            temp
+            CK10
+            * temp
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * (dFV_dGrossWtInitial + htail_loc * dFH_dGrossWtInitial / 2)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MASS_COEFFICIENT] = (
-            temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dCoefVtail / GRAV_ENGLISH_LBM
+            CK10
+            * temp
+            * 0.54
+            * (FV + htail_loc * FH / 2.0) ** (-0.46)
+            * dFV_dCoefVtail
+            / GRAV_ENGLISH_LBM
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.Fuselage.LENGTH] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * (dFV_dFusLen + htail_loc * dFH_dFusLen / 2)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.Wing.SPAN] = (
-            temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dWingspan / GRAV_ENGLISH_LBM
+            CK10
+            * temp
+            * 0.54
+            * (FV + htail_loc * FH / 2.0) ** (-0.46)
+            * dFV_dWingspan
+            / GRAV_ENGLISH_LBM
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.SPAN] = (
-            temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dSpanVtail / GRAV_ENGLISH_LBM
+            CK10
+            * temp
+            * 0.54
+            * (FV + htail_loc * FH / 2.0) ** (-0.46)
+            * dFV_dSpanVtail
+            / GRAV_ENGLISH_LBM
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.TAPER_RATIO] = (
-            temp
+            CK10
+            * temp
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * dFV_dTaperRatioVtail
             / GRAV_ENGLISH_LBM
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
@@ -1233,7 +1265,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
@@ -1242,7 +1275,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
@@ -1251,7 +1285,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
@@ -1260,7 +1295,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 vtail_area
@@ -1274,7 +1310,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.AREA] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1286,7 +1323,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_area ** (-0.46)
         )
         J[Aircraft.VerticalTail.MASS, 'min_dive_vel'] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1299,7 +1337,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MOMENT_ARM] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1312,7 +1351,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_mom_arm ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.THICKNESS_TO_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1325,7 +1365,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * tc_ratio_root_vtail ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.ROOT_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
-- 
2.43.0


From ef34b696da7abdefdb2625d3e4e9884789059246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 13/85] fix: a canard of negative area has no wetted area
 derivatives

---
 aviary/subsystems/geometry/flops_based/canard.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aviary/subsystems/geometry/flops_based/canard.py b/aviary/subsystems/geometry/flops_based/canard.py
index efa4762..1c78715 100644
--- a/aviary/subsystems/geometry/flops_based/canard.py
+++ b/aviary/subsystems/geometry/flops_based/canard.py
@@ -48,6 +48,14 @@ class CanardWettedArea(om.ExplicitComponent):
     def compute_partials(self, inputs, J, discrete_inputs=None):
         area = inputs[Aircraft.Canard.AREA]
 
+        # at zero area, the derivative is the one toward a canard that exists
+        if area < 0.0:
+            J[Aircraft.Canard.WETTED_AREA, Aircraft.Canard.AREA] = 0.0
+            J[Aircraft.Canard.WETTED_AREA, Aircraft.Canard.THICKNESS_TO_CHORD] = 0.0
+            J[Aircraft.Canard.WETTED_AREA, Aircraft.Canard.WETTED_AREA_SCALER] = 0.0
+
+            return
+
         thickness_to_chord = inputs[Aircraft.Canard.THICKNESS_TO_CHORD]
         XMULTC = calc_lifting_surface_scaler(thickness_to_chord)
         scaler = inputs[Aircraft.Canard.WETTED_AREA_SCALER]
-- 
2.43.0


From abb3595b7e33800a2dbe6417b091394e0664fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 14/85] fix: surface control mass derivatives include the mass
 scaler

---
 aviary/subsystems/mass/gasp_based/control.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/control.py b/aviary/subsystems/mass/gasp_based/control.py
index 26347d9..b5ec232 100644
--- a/aviary/subsystems/mass/gasp_based/control.py
+++ b/aviary/subsystems/mass/gasp_based/control.py
@@ -201,8 +201,10 @@ class SurfaceControlMass(om.ExplicitComponent):
         )
 
         # Aircraft.Wing.AREA
-        dSCW_dWA = 0.317 * (
-            c_mass_trend_wing_control
+        dSCW_dWA = (
+            CK18
+            * 0.317
+            * c_mass_trend_wing_control
             * wing_area ** (0.317 - 1)
             * (gross_wt_initial / 1000.0) ** 0.602
             * ULF**0.525
@@ -222,7 +224,8 @@ class SurfaceControlMass(om.ExplicitComponent):
 
         # Aircraft.Wing.ULTIMATE_LOAD_FACTOR
         dSCW_dULF = (
-            0.525
+            CK18
+            * 0.525
             * c_mass_trend_wing_control
             * wing_area**0.317
             * (gross_wt_initial / 1000.0) ** 0.602
@@ -232,7 +235,8 @@ class SurfaceControlMass(om.ExplicitComponent):
 
         # min_dive_vel
         dSCW_dMDV = (
-            0.345
+            CK18
+            * 0.345
             * c_mass_trend_wing_control
             * wing_area**0.317
             * (gross_wt_initial / 1000.0) ** 0.602
-- 
2.43.0


From 66d988df1e51d6465cf850adeba1060812b9c285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 15/85] fix: pylon mass derivatives include the nacelle mass
 scaler

---
 aviary/subsystems/mass/gasp_based/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 2592027..7549980 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -131,6 +131,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * nacelle_area
         )
         dNW_dNSA = scaler * spec_nacelle_wt
@@ -138,6 +139,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * spec_nacelle_wt
         )
         dPW_dPF = (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** 0.736
-- 
2.43.0


From 9dfca127fa0332a40b46e9b50ada70afab67ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 16/85] fix: wing mounted mass derivative uses the installed
 mass that compute uses

---
 aviary/subsystems/mass/gasp_based/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 7549980..bdc3546 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -531,7 +531,7 @@ class WingMountEngineMass(om.ExplicitComponent):
 
         dry_wt_eng = eng_spec_wt * Fn_SLS
         pod_wt = inputs[Aircraft.Engine.POD_MASS] * GRAV_ENGLISH_LBM
-        eng_instl_wt = c_instl * dry_wt_eng
+        eng_instl_wt = inputs[Aircraft.Engine.ADDITIONAL_MASS] / CK7 * GRAV_ENGLISH_LBM
         prop_wt = inputs[Aircraft.Engine.Propeller.MASS] * GRAV_ENGLISH_LBM
         # prop_wt_all = sum(num_engines * prop_wt) / GRAV_ENGLISH_LBM
         span_frac_factor = eng_span_frac / (eng_span_frac + 0.001)
-- 
2.43.0


From a5179872abf1325d5439485d351485be98e10c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 17/85] fix: fuselage mass derivative of the acoustic treatment
 includes the mass scaler

---
 aviary/subsystems/mass/gasp_based/fuel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 5cd41be..2273205 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1137,7 +1137,7 @@ class FuselageMass(om.ExplicitComponent):
         J[Aircraft.Fuselage.MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
             dFusWt_dULF / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.Fuselage.MASS, 'MAT'] = 1
+        J[Aircraft.Fuselage.MASS, 'MAT'] = CK11
 
 
 class BWBFuselageMass(om.ExplicitComponent):
-- 
2.43.0


From 5996081156547dac214d0c7e991660c3062734e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 18/85] fix: landing gear mass derivatives include the mass
 scaler and every engine model

---
 aviary/subsystems/mass/gasp_based/landing.py | 38 +++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/landing.py b/aviary/subsystems/mass/gasp_based/landing.py
index da0cd6b..fb6909a 100644
--- a/aviary/subsystems/mass/gasp_based/landing.py
+++ b/aviary/subsystems/mass/gasp_based/landing.py
@@ -114,6 +114,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
         wing_loc = inputs[Aircraft.Wing.VERTICAL_MOUNT_LOCATION]
         clearance_ratio = inputs[Aircraft.Nacelle.CLEARANCE_RATIO]
         nacelle_diam = inputs[Aircraft.Nacelle.AVG_DIAMETER]
+        CK12 = inputs[Aircraft.LandingGear.TOTAL_MASS_SCALER]
 
         val = (1.0 + clearance_ratio) * nacelle_diam
         gear_height_temp = KSfunction.compute(val, 50.0)
@@ -129,47 +130,40 @@ class TotalLandingGearMass(om.ExplicitComponent):
             + sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
         ) * landing_wt
 
-        dGH_dCR = (
-            (
-                sigmoidX(gear_height_temp, 6, 1 / 320.0) * nacelle_diam
-                + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * nacelle_diam
-            )
-            + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * -nacelle_diam)
-        ) * dKS
-
-        dGH_dND = (
-            sigmoidX(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-            + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-        ) * dKS + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio))
+        dGH_dGHT = (
+            sigmoidX(gear_height_temp, 6, 1 / 320.0)
+            + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0)
+            - 6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0)
+        )
+        dGH_dCR = dGH_dGHT * nacelle_diam * dKS
+        dGH_dND = dGH_dGHT * (1 + clearance_ratio) * dKS
 
         c_gear_mass_modified = (c_gear_mass * 0.85 * (1.0 + 0.1765 * gear_height / 6.0)) * sigmoidX(
             wing_loc, 0.005, -0.01 / 320.0
         ) + c_gear_mass * sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
 
-        dLGW_dCR = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        dLGW_dCR = (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt) * sigmoidX(
+            wing_loc, 0.005, -0.01 / 320.0
         )
 
-        dLGW_dND = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        dLGW_dND = (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt) * sigmoidX(
+            wing_loc, 0.005, -0.01 / 320.0
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.MASS_COEFFICIENT] = (
-            dLGW_dCGW / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCGW / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.CLEARANCE_RATIO] = (
-            dLGW_dCR / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCR / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
-            dLGW_dND / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dND / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Design.TOUCHDOWN_MASS_MAX] = (
-            c_gear_mass_modified
+            CK12 * c_gear_mass_modified
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.TOTAL_MASS_SCALER] = (
-- 
2.43.0


From 8bc5363affdab7193ad566fff26442dcc0f0f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:01 +0000
Subject: [PATCH 19/85] fix: load speed derivatives of category 1 airplanes
 follow the branch compute takes

---
 aviary/subsystems/mass/gasp_based/design_load.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index c3291d7..300ec80 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -203,11 +203,6 @@ class LoadSpeeds(om.ExplicitComponent):
                     dVCMIN_dmax_struct_speed_mph = dVCMAX_dmax_struct_speed_mph
                     dVCMIN_dwing_loading = 0.0
 
-            # why this block?
-            if CATD == 1:
-                dVCMIN_dwing_loading = 0.0
-                dVCMIN_dmax_struct_speed_mph = 0.9 / 1.15
-
             VDCOF = 1.4
             dVDCOF_dwing_loading = 0.0
 
-- 
2.43.0


From 7ec697fd803d48a4f4aa74d24d09d47e043937a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 20/85] fix: smoothed ultimate load factor derivatives (dive
 gust branch, dive velocity)

---
 .../subsystems/mass/gasp_based/design_load.py | 85 +++++++++++++++----
 1 file changed, 69 insertions(+), 16 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index 300ec80..11a2269 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -820,9 +820,9 @@ class LoadFactors(om.ExplicitComponent):
         ) / (498.0 * wing_loading)
         ddive_load_factor_dCl_alpha = (
             dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-            + k_load_factor * 50 * min_dive_vel
+            + k_load_factor * 25 * min_dive_vel
         ) / (498.0 * wing_loading)
-        (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
+        ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
         ddive_load_factor_dV9 = 0.0
 
         dgust_load_factor_dwing_loading = dquotient(
@@ -847,13 +847,12 @@ class LoadFactors(om.ExplicitComponent):
         if smooth:
             SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
             SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-            DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
             DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
             gust_load_factor_1 = dive_load_factor * SigG + cruise_load_factor * SigH
             dgust_load_factor_dwing_loading = (
                 ddive_load_factor_dwing_loading * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -862,7 +861,7 @@ class LoadFactors(om.ExplicitComponent):
                 )
                 + dcruise_load_factor_dwing_loading * SigH
                 + cruise_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (cruise_load_factor - dive_load_factor),
                     dive_load_factor,
@@ -873,7 +872,7 @@ class LoadFactors(om.ExplicitComponent):
             dgust_load_factor_ddensity_ratio = (
                 ddive_load_factor_ddensity_ratio * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -949,6 +948,25 @@ class LoadFactors(om.ExplicitComponent):
                     ddive_load_factor_dV9,
                 )
             )
+            dgust_load_factor_dmin_dive_vel = (
+                ddive_load_factor_dmin_dive_vel * SigG
+                + dive_load_factor
+                * DSigH
+                * dquotient(
+                    (dive_load_factor - cruise_load_factor),
+                    dive_load_factor,
+                    ddive_load_factor_dmin_dive_vel,
+                    ddive_load_factor_dmin_dive_vel,
+                )
+                + cruise_load_factor
+                * DSigH
+                * dquotient(
+                    (cruise_load_factor - dive_load_factor),
+                    dive_load_factor,
+                    -ddive_load_factor_dmin_dive_vel,
+                    ddive_load_factor_dmin_dive_vel,
+                )
+            )
             gust_load_factor = gust_load_factor_1
         else:
             if cruise_load_factor > dive_load_factor:  # note: this creates a discontinuity
@@ -1082,7 +1100,25 @@ class LoadFactors(om.ExplicitComponent):
                     dgust_load_factor_dV9,
                 )
             )
-            dULF_dmin_dive_vel = 0.0
+            dULF_dmin_dive_vel = 1.5 * (
+                dgust_load_factor_dmin_dive_vel * SigK
+                + gust_load_factor
+                * DSigL
+                * dquotient(
+                    (gust_load_factor - max_maneuver_factor),
+                    gust_load_factor,
+                    dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+                + max_maneuver_factor
+                * DSigL
+                * dquotient(
+                    (max_maneuver_factor - gust_load_factor),
+                    gust_load_factor,
+                    -dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+            )
         else:
             if gust_load_factor > max_maneuver_factor:  # note: this creates a discontinuity
                 dULF_dmax_maneuver_factor = 0.0
@@ -1804,7 +1840,7 @@ class BWBLoadFactors(om.ExplicitComponent):
             ) / (498.0 * wing_loading)
             ddive_load_factor_dCl_alpha = (
                 dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-                + k_load_factor * 50 * min_dive_vel
+                + k_load_factor * 25 * min_dive_vel
             ) / (498.0 * wing_loading)
             ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (
                 498.0 * wing_loading
@@ -1815,13 +1851,12 @@ class BWBLoadFactors(om.ExplicitComponent):
             if smooth:
                 SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
                 SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-                DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
                 DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
                 gust_load_factor = dive_load_factor * SigG + cruise_load_factor * SigH
                 dgust_load_factor_dgross_mass = (
                     ddive_load_factor_dgross_mass * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1830,7 +1865,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dgross_mass * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1841,7 +1876,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_dexp_wing_areas = (
                     ddive_load_factor_dexp_wing_areas * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1850,7 +1885,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dexp_wing_areas * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1861,7 +1896,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_ddensity_ratio = (
                     ddive_load_factor_ddensity_ratio * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1937,7 +1972,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                         ddive_load_factor_dV9,
                     )
                 )
-                dgust_loading_dmin_dive_vel = (
+                dgust_load_factor_dmin_dive_vel = (
                     ddive_load_factor_dmin_dive_vel * SigG
                     + dive_load_factor
                     * DSigH
@@ -2136,7 +2171,25 @@ class BWBLoadFactors(om.ExplicitComponent):
                         dgust_load_factor_dV9,
                     )
                 )
-                dULF_dmin_dive_vel = 0.0
+                dULF_dmin_dive_vel = 1.5 * (
+                    dgust_load_factor_dmin_dive_vel * SigK
+                    + gust_load_factor
+                    * DSigL
+                    * dquotient(
+                        (gust_load_factor - max_maneuver_factor),
+                        gust_load_factor,
+                        dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                    + max_maneuver_factor
+                    * DSigL
+                    * dquotient(
+                        (max_maneuver_factor - gust_load_factor),
+                        gust_load_factor,
+                        -dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                )
             else:
                 if gust_load_factor > max_maneuver_factor:
                     # ULF = 1.5 * gust_load_factor
-- 
2.43.0


From 6697d668c25f8ae90780d620df10bf0288341259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 21/85] fix: wing volume derivative across the smoothed main
 gear location

---
 aviary/subsystems/geometry/gasp_based/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/gasp_based/wing.py b/aviary/subsystems/geometry/gasp_based/wing.py
index 2969b13..1a5b6e5 100644
--- a/aviary/subsystems/geometry/gasp_based/wing.py
+++ b/aviary/subsystems/geometry/gasp_based/wing.py
@@ -612,7 +612,7 @@ class BWBWingVolume(om.ExplicitComponent):
 
         if smooth:
             WID_GRX = 6 * sigmoidX(loc_main_gear, 0.0, mu)
-            dWID_GRX_dloc_main_gear = dSigmoidXdx(loc_main_gear, 0.0, mu) / mu
+            dWID_GRX_dloc_main_gear = 6 * dSigmoidXdx(loc_main_gear, 0.0, mu)
         else:
             if loc_main_gear > 0:
                 WID_GRX = 6.0
-- 
2.43.0


From 3648e4c12a2fedce145047c65d8e26713e5257ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 22/85] fix: derivative of the smoothed gear location factor

---
 aviary/subsystems/mass/gasp_based/fixed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index 6b68969..9b6ae66 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -241,9 +241,9 @@ class MassParameters(om.ExplicitComponent):
         J['c_strut_braced', Aircraft.Strut.ATTACHMENT_LOCATION_DIMENSIONLESS] = -2 * strut_x
 
         if smooth:
-            J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = 0.95 * (-100) * dSigmoidXdx(
-                loc_main_gear, 0.005, 0.01 / 320.0
-            ) + 1 * (100) * dSigmoidXdx(loc_main_gear, 0.005, 0.01 / 320.0)
+            J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = (
+                1 - 0.95
+            ) * dSigmoidXdx(loc_main_gear, 0.005, 0.01 / 320.0)
         else:
             J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = 0.0
 
-- 
2.43.0


From 06e94cef9618fc8bca0501d4de7a62646dfda50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 23/85] fix: sign of the furnishing mass derivative at the
 upper cabin width limit

---
 aviary/subsystems/mass/gasp_based/furnishings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/gasp_based/furnishings.py b/aviary/subsystems/mass/gasp_based/furnishings.py
index 1935311..4318ca2 100644
--- a/aviary/subsystems/mass/gasp_based/furnishings.py
+++ b/aviary/subsystems/mass/gasp_based/furnishings.py
@@ -210,7 +210,7 @@ def common_compute_partials(
                 * sigmoidX(CPX_lin / 28, 1, 0.01)
                 * dSigmoidXdx(CPX_lin / 62, 1, -0.01)
                 / 62
-                * -dCPX_lin_dcabin_width
+                * dCPX_lin_dcabin_width
                 + 1 * dSigmoidXdx(CPX_lin / 62, 1, 0.01) * dCPX_lin_dcabin_width
             )
 
-- 
2.43.0


From 6bbd07b1181221a0fc03c7d9122ce55f83ea3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 24/85] fix: smoothed density ratio and gust velocity
 derivatives

---
 aviary/subsystems/mass/gasp_based/design_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index 11a2269..14a2fff 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -487,7 +487,7 @@ class LoadParameters(om.ExplicitComponent):
                 + 661.7
                 * dmax_mach_dmax_airspeed
                 * SigF
-                * 661.7
+                + 661.7
                 * max_mach
                 * DSigF
                 * ddensity_ratio_dmax_airspeed
@@ -508,7 +508,7 @@ class LoadParameters(om.ExplicitComponent):
                     / 0.6820
                     + ddensity_ratio_dmax_airspeed
                     * sigmoidX(density_ratio / 0.6820, 1, 0.01)
-                    * SigF
+                    * SigE
                     + density_ratio
                     * (
                         dSigmoidXdx(density_ratio / 0.6820, 1, 0.01)
-- 
2.43.0


From cb708c31007285f2d36b96d1e98c50515b502695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 25/85] fix: maximum wing fuel mass derivatives where the
 limits cross

---
 aviary/subsystems/mass/gasp_based/fuel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 2273205..bde22b2 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -670,7 +670,7 @@ class FuelComponents(om.ExplicitComponent):
             dMaxWFWt_dGTOW = (
                 OEM_wingfuel_wt
                 * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
-                * dOEMwingfuelWt_dGTOW
+                * -dOEMwingfuelWt_dGTOW
                 + dOEMwingfuelWt_dGTOW * sigmoidX(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                 + volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
@@ -679,7 +679,7 @@ class FuelComponents(om.ExplicitComponent):
             dMaxWFWt_dOEW = (
                 OEM_wingfuel_wt
                 * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
-                * dOEMwingfuelWt_dOEW
+                * -dOEMwingfuelWt_dOEW
                 + dOEMwingfuelWt_dOEW * sigmoidX(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                 + volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
@@ -691,7 +691,7 @@ class FuelComponents(om.ExplicitComponent):
                 * rho_fuel
                 + volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
-                * rho_fuel
+                * -rho_fuel
                 + rho_fuel * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
             )
             dMaxWFWt_dRhoFuel = (
@@ -700,7 +700,7 @@ class FuelComponents(om.ExplicitComponent):
                 * geometric_fuel_vol
                 + volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
-                * geometric_fuel_vol
+                * -geometric_fuel_vol
                 + geometric_fuel_vol * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
             )
 
-- 
2.43.0


From 1a61f967b51d5e37090c51687aea5472ca206997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 26/85] fix: smoothed body tank derivatives (transition widths,
 minimum wing fuel)

---
 aviary/subsystems/mass/gasp_based/fuel.py | 36 +++++++----------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index bde22b2..294adb0 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -261,19 +261,13 @@ class BodyTankCalculations(om.ExplicitComponent):
         dextra_fuel_wt_dreq_fuel_wt = 1
         dextra_fuel_wt_dmax_wingfuel_wt = -1
         if smooth:
-            extra_fuel_wt = extra_fuel_wt * sigmoidX(extra_fuel_wt, 0, 1 / 50.0)
             dextra_fuel_wt_dreq_fuel_wt = (
                 sigmoidX(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
                 + (req_fuel_wt - max_wingfuel_wt)
                 * dSigmoidXdx(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
-                * 1
-                / 50
             )
-            dextra_fuel_wt_dmax_wingfuel_wt = -1 * sigmoidX(
-                (req_fuel_wt - max_wingfuel_wt), 0, 1 / 50.0
-            ) + (req_fuel_wt - max_wingfuel_wt) * dSigmoidXdx(
-                req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0
-            ) * (-1 / 50)
+            dextra_fuel_wt_dmax_wingfuel_wt = -dextra_fuel_wt_dreq_fuel_wt
+            extra_fuel_wt = extra_fuel_wt * sigmoidX(extra_fuel_wt, 0, 1 / 50.0)
         else:
             if extra_fuel_wt < 0:
                 extra_fuel_wt = 0.0
@@ -288,7 +282,6 @@ class BodyTankCalculations(om.ExplicitComponent):
         dwingfuel_wt_min_dgeom_fuel_vol = -dmax_extra_fuel_wt_dgeom_fuel_vol
         dwingfuel_wt_min_drho_fuel = -dmax_extra_fuel_wt_drho_fuel
         if smooth:
-            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
             dwingfuel_wt_min_dfuel_wt_min = (
                 dwingfuel_wt_min_dfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
                 + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_dfuel_wt_min
@@ -315,6 +308,7 @@ class BodyTankCalculations(om.ExplicitComponent):
                 dwingfuel_wt_min_drho_fuel * sigmoidX(wingfuel_wt_min, 0)
                 + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_drho_fuel
             )
+            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
         else:
             if wingfuel_wt_min < 0.0:
                 wingfuel_wt_min = 0.0
@@ -345,37 +339,29 @@ class BodyTankCalculations(om.ExplicitComponent):
             Int2 = sigmoidX(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
 
             # max_fuel_avail = max_fuel_avail_est * Int1 + max_fuel_avail_new * Int2
-            dInt1_dfuel_wt_des = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (
-                -1 / 110.0
-            )
+            dInt1_dfuel_wt_des = -dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
             dInt1_dreq_fuel_wt = (
                 dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
                 * -dextra_fuel_wt_dreq_fuel_wt
-                / 100.0
             )
             dInt1_dmax_wingfuel_wt = (
                 dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
-                * -dmax_extra_fuel_wt_dmax_wingfuel_vol
-                / 100.0
+                * -dextra_fuel_wt_dmax_wingfuel_wt
             )
-            dInt1_dgross_wt_initial = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) / 110.0
-            dInt1_dOEW = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (-1 / 110.0)
+            dInt1_dgross_wt_initial = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
+            dInt1_dOEW = -dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
 
-            dInt2_dfuel_wt_des = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
+            dInt2_dfuel_wt_des = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
             dInt2_dreq_fuel_wt = (
                 dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
                 * dextra_fuel_wt_dreq_fuel_wt
-                / 100.0
             )
             dInt2_dmax_wingfuel_wt = (
                 dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
-                * dmax_extra_fuel_wt_dmax_wingfuel_vol
-                / 100.0
-            )
-            dInt2_dgross_wt_initial = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) * (
-                -1 / 110.0
+                * dextra_fuel_wt_dmax_wingfuel_wt
             )
-            dInt2_dOEW = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
+            dInt2_dgross_wt_initial = -dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
+            dInt2_dOEW = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
             dmax_fuel_avail_dfuel_wt_des = (
                 dmax_fuel_avail_est_dfuel_wt_des * Int1
                 + max_fuel_avail_est * dInt1_dfuel_wt_des
-- 
2.43.0


From 736f8f43b099fa3fd6688b1ef3a81b117e1e1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 27/85] fix: BWB fuselage mass derivatives include the mass
 scaler

---
 aviary/subsystems/mass/gasp_based/fuel.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 294adb0..85f891c 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1181,6 +1181,7 @@ class BWBFuselageMass(om.ExplicitComponent):
         area_aft_to_total = inputs[Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL]
         uwt_aft = inputs[Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] * GRAV_ENGLISH_LBM
         fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
+        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]
 
         dFusWt_dc_fuselage = (
             1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
@@ -1196,14 +1197,16 @@ class BWBFuselageMass(om.ExplicitComponent):
         dFusWt_duwt_aft = c_fuselage * fus_SA * area_aft_to_total
         dFusWt_dfus_SA = c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = dFusWt_dc_fuselage
-        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = dFusWt_dgross_wt_initial
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = dFusWt_darea_cabin
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = CK11 * dFusWt_dc_fuselage
+        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = CK11 * dFusWt_dgross_wt_initial
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = CK11 * dFusWt_darea_cabin
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL] = (
-            dFusWt_darea_aft_to_total
+            CK11 * dFusWt_darea_aft_to_total
+        )
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = (
+            CK11 * dFusWt_duwt_aft
         )
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = dFusWt_duwt_aft
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = dFusWt_dfus_SA
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = CK11 * dFusWt_dfus_SA
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_SCALER] = (
             c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
             + c_fuselage * fus_SA * area_aft_to_total * uwt_aft
-- 
2.43.0


From 8c92a65418e2ef55ca48b5bdb4e02c5fa2e6c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 28/85] fix: wing volume derivatives with respect to the main
 gear location

---
 aviary/subsystems/geometry/gasp_based/wing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/wing.py b/aviary/subsystems/geometry/gasp_based/wing.py
index 1a5b6e5..fff3378 100644
--- a/aviary/subsystems/geometry/gasp_based/wing.py
+++ b/aviary/subsystems/geometry/gasp_based/wing.py
@@ -644,7 +644,9 @@ class BWBWingVolume(om.ExplicitComponent):
             1.0 + 2.0 * (0.5 * fuselage_width + WID_GRX) * (taper_ratio - 1.0) / wingspan
         )
         dCFUEL_dSWF = (taper_ratio - 1.0) * center_chort / wingspan
-        dCFUEL_dloc_main_gear = 2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) / wingspan
+        dCFUEL_dloc_main_gear = (
+            2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) * center_chort / wingspan
+        )
         dCFUEL_dtaper_ratio = 2.0 * (0.5 * fuselage_width + WID_GRX) * center_chort / wingspan
         dCFUEL_dwingspan = (
             -2.0
@@ -664,7 +666,10 @@ class BWBWingVolume(om.ExplicitComponent):
             -0.5 * (CFUEL + taper_ratio * center_chort)
             + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dSWF
         )
-        dSW_NFX_dloc_main_gear = -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+        dSW_NFX_dloc_main_gear = (
+            -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+            + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dloc_main_gear
+        )
         dSW_NFX_dtaper_ratio = (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * (
             dCFUEL_dtaper_ratio + center_chort
         )
@@ -700,7 +705,8 @@ class BWBWingVolume(om.ExplicitComponent):
             - (wingspan - fuselage_width - 2.0 * WID_GRX) ** 2 * dSW_NFX_dSWF / SW_NFX**2
         )
         dAR_NFX_dloc_main_gear = (
-            -((wingspan - fuselage_width - 2.0 * WID_GRX) ** 2) * dSW_NFX_dloc_main_gear / SW_NFX**2
+            -4 * (wingspan - fuselage_width - 2.0 * WID_GRX) * dWID_GRX_dloc_main_gear / SW_NFX
+            - ((wingspan - fuselage_width - 2.0 * WID_GRX) ** 2) * dSW_NFX_dloc_main_gear / SW_NFX**2
         )
         dAR_NFX_dwingspan = (
             2 * (wingspan - fuselage_width - 2.0 * WID_GRX) / SW_NFX
-- 
2.43.0


From ebb65817aa4242f86608e0effa30b06935bbe3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 29/85] fix: hydraulic diameter derivative of the aisle width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index 667c704..b0d3e46 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -412,8 +412,8 @@ class BWBFuselageParameters1(om.ExplicitComponent):
             0.5 * body_width * cabin_width / hydraulic_diameter
         )
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.AISLE_WIDTH] = (
-            cabin_width * num_aisle * nose_height_to_length / hydraulic_diameter / 12
-        )
+            0.5 * num_aisle / 12 * (cabin_width + body_width) * nose_height_to_length
+        ) / hydraulic_diameter
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.SEAT_WIDTH_ECONOMY] = (
             0.5 * seats_abreast / 12 * (cabin_width + body_width) * nose_height_to_length
         ) / hydraulic_diameter
-- 
2.43.0


From 8a124596708110434b90c81003132ad938aa79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 30/85] fix: BWB fuselage wetted area derivative with respect
 to additional pressurized width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index b0d3e46..99eab6c 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -1082,7 +1082,7 @@ class BWBFuselageSize(om.ExplicitComponent):
         d_cabin_area_d_nose_area = 2.0
 
         d_aft_d_body_width = 2.0 * diag_a_c
-        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 * diag_a_c
+        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 / diag_a_a
         d_aft_d_aft_len = (
             2 * body_width - additional_width
         ) * aftbody_len / diag_a_c + cabin_height * aftbody_len / diag_a_a
-- 
2.43.0


From d0e4019a6c303ff6f4da770ca5f538e496b7ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 31/85] fix: landing gear mass derivative with respect to the
 wing vertical location

---
 aviary/subsystems/mass/gasp_based/landing.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aviary/subsystems/mass/gasp_based/landing.py b/aviary/subsystems/mass/gasp_based/landing.py
index fb6909a..eb63fe0 100644
--- a/aviary/subsystems/mass/gasp_based/landing.py
+++ b/aviary/subsystems/mass/gasp_based/landing.py
@@ -70,6 +70,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
                 Aircraft.Design.TOUCHDOWN_MASS_MAX,
                 Aircraft.Nacelle.CLEARANCE_RATIO,
                 Aircraft.Nacelle.AVG_DIAMETER,
+                Aircraft.Wing.VERTICAL_MOUNT_LOCATION,
                 Aircraft.LandingGear.TOTAL_MASS_SCALER,
             ],
         )
@@ -162,6 +163,15 @@ class TotalLandingGearMass(om.ExplicitComponent):
             CK12 * dLGW_dND / GRAV_ENGLISH_LBM
         )
 
+        dCGM_dWL = (
+            c_gear_mass
+            * (1.0 - 0.85 * (1.0 + 0.1765 * gear_height / 6.0))
+            * dSigmoidXdx(wing_loc, 0.005, 0.01 / 320.0)
+        )
+        J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Wing.VERTICAL_MOUNT_LOCATION] = (
+            CK12 * dCGM_dWL * landing_wt / GRAV_ENGLISH_LBM
+        )
+
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Design.TOUCHDOWN_MASS_MAX] = (
             CK12 * c_gear_mass_modified
         )
-- 
2.43.0


From 8121f6ae00cc507d8a9a0cdc9d72d2015c6c874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 32/85] fix: BWB load path sweep derivatives cover every
 segment

---
 aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py b/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
index 7293e37..ba33fe9 100644
--- a/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
+++ b/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
@@ -118,8 +118,8 @@ class BWBUpdateDetailedWingDist(om.ExplicitComponent):
                 val=1,
             )
 
-            rows = np.arange(nn - 3) + 2
-            cols = np.arange(nn - 3) + 1
+            rows = np.arange(nn - 2) + 1
+            cols = np.arange(nn - 2)
             self.declare_partials(
                 'BWB_LOAD_PATH_SWEEP_DISTRIBUTION',
                 Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION,
-- 
2.43.0


From 9982a66377ab6f586efb6cf55d2c6346b5a1b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 33/85] fix: unsteady solved flight conditions speed rate
 derivatives for EAS and MACH inputs

---
 .../ode/unsteady_solved_flight_conditions.py  | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
index 0f1f4e6..8278c0d 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
@@ -294,7 +294,15 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
 
             self.declare_partials(
-                of='dTAS_dt_approx', wrt=['dmach_dr', 'dsos_dh'], rows=ar, cols=ar
+                of='dTAS_dt_approx',
+                wrt=[
+                    'dmach_dr',
+                    'dsos_dh',
+                    Dynamic.Atmosphere.SPEED_OF_SOUND,
+                    Dynamic.Atmosphere.MACH,
+                ],
+                rows=ar,
+                cols=ar,
             )
 
     def compute(self, inputs, outputs):
@@ -394,6 +402,15 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
                 -0.5 * EAS * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
             )
 
+            deas_dt_factor = inputs['dEAS_dr'] * cgam * (rho_sl / rho) ** 1.5
+            drho_dt_factor = 0.5 * inputs['drho_dh'] * sgam * rho_sl**1.5 / rho_sl**2.5
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.DENSITY] = (
+                deas_dt_factor * (dTAS_dRho - 1.5 * TAS / rho) - EAS * drho_dt_factor * dTAS_dRho
+            )
+            partials['dTAS_dt_approx', 'EAS'] = (
+                deas_dt_factor * dTAS_dEAS - drho_dt_factor * (TAS + EAS * dTAS_dEAS)
+            )
+
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
                     -TAS * sgam * (rho_sl / rho) ** 1.5 * inputs['dEAS_dr']
@@ -422,6 +439,13 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
             partials['dTAS_dt_approx', 'dmach_dr'] = TAS * cgam * sos
             partials['dTAS_dt_approx', 'dsos_dh'] = TAS**2 * sgam / sos
+            # dTAS_dt_approx = dmach_dr * cgam * mach * sos**2 + dsos_dh * sgam * mach**2 * sos
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.SPEED_OF_SOUND] = (
+                2.0 * inputs['dmach_dr'] * cgam * TAS + inputs['dsos_dh'] * sgam * mach**2
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.MACH] = (
+                inputs['dmach_dr'] * cgam * sos**2 + 2.0 * inputs['dsos_dh'] * sgam * TAS
+            )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-- 
2.43.0


From 02390dc143150eebdee71c9c728b96d544714758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 34/85] fix: derivative of the speed of sound lapse rate in the
 atmosphere component

---
 aviary/subsystems/atmosphere/atmosphere.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 06c3bef..16afbfc 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -309,11 +309,12 @@ class AtmosphereComp(om.ExplicitComponent):
 
         # similar to method in dymos
         coeffs = self.source_data.akima_dT[idx]
+        table_dT_dh = coeffs[:, 0] + dx * (coeffs[:, 1] + dx * (coeffs[:, 2] + dx * coeffs[:, 3]))
         d2T_dh2 = coeffs[:, 1] + dx * (2.0 * coeffs[:, 2] + 3.0 * coeffs[:, 3] * dx)
         # dsos_dh = 0.5 * (self._K * T)**(-0.5) * dT_dh * self._K
         # product rule & chain rule
         partials['dsos_dh', Dynamic.Mission.ALTITUDE] = (
-            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (dT_dh * self._K)
+            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (table_dT_dh * self._K)
             + 0.5 * (self._K * T) ** (-0.5) * d2T_dh2 * self._K
         )
 
@@ -333,4 +334,4 @@ class AtmosphereComp(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.DENSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.DYNAMIC_VISCOSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.SPEED_OF_SOUND, Dynamic.Mission.ALTITUDE][...] *= dz_dh
-            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh**2
+            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh
-- 
2.43.0


From 7d4b2fa606ad2fb65adae4028bca8ab859b09474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 35/85] fix: the engine pod mass scaler scales the pod mass of
 each engine

---
 aviary/subsystems/mass/gasp_based/engine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index bdc3546..b761c87 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -216,6 +216,7 @@ class EnginePodMass(om.ExplicitComponent):
             Aircraft.Engine.POD_MASS,
             [
                 Aircraft.Nacelle.MASS,
+                Aircraft.Engine.POD_MASS_SCALER,
                 'pylon_mass',
             ],
             rows=shape,
@@ -237,7 +238,7 @@ class EnginePodMass(om.ExplicitComponent):
         nacelle_wt = inputs[Aircraft.Nacelle.MASS] * GRAV_ENGLISH_LBM
         pylon_wt = inputs['pylon_mass'] * GRAV_ENGLISH_LBM
         pod_wt = nacelle_wt + pylon_wt
-        outputs[Aircraft.Engine.POD_MASS] = pod_wt / GRAV_ENGLISH_LBM
+        outputs[Aircraft.Engine.POD_MASS] = CK14 * pod_wt / GRAV_ENGLISH_LBM
         # TODO TOTAL_ENGINE_POD_MASS by definition includes everything *in* the pod too! This component
         #      should probably use a new/different variable name (same for pod mass scaler)
         pod_wt_sum = np.dot(CK14 * pod_wt, num_engines)
@@ -245,15 +246,15 @@ class EnginePodMass(om.ExplicitComponent):
 
     def compute_partials(self, inputs, J):
         num_engines = self.options[Aircraft.Engine.NUM_ENGINES]
-        num_engine_type = len(self.options[Aircraft.Engine.NUM_ENGINES])
 
         CK14 = inputs[Aircraft.Engine.POD_MASS_SCALER]
         nacelle_wt = inputs[Aircraft.Nacelle.MASS] * GRAV_ENGLISH_LBM
         pylon_wt = inputs['pylon_mass'] * GRAV_ENGLISH_LBM
         pod_wt = nacelle_wt + pylon_wt
 
-        J[Aircraft.Engine.POD_MASS, Aircraft.Nacelle.MASS] = np.ones(num_engine_type)
-        J[Aircraft.Engine.POD_MASS, 'pylon_mass'] = np.ones(num_engine_type)
+        J[Aircraft.Engine.POD_MASS, Aircraft.Nacelle.MASS] = CK14
+        J[Aircraft.Engine.POD_MASS, 'pylon_mass'] = CK14
+        J[Aircraft.Engine.POD_MASS, Aircraft.Engine.POD_MASS_SCALER] = pod_wt / GRAV_ENGLISH_LBM
 
         J[Aircraft.Propulsion.TOTAL_ENGINE_POD_MASS, Aircraft.Nacelle.MASS] = CK14 * num_engines
 
-- 
2.43.0


From 569190f60c8de015371de3062df28e48bd2e9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:39 +0000
Subject: [PATCH 36/85] fix: the detailed cabin layout counts the engines of
 every engine model

---
 aviary/subsystems/geometry/flops_based/fuselage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/flops_based/fuselage.py b/aviary/subsystems/geometry/flops_based/fuselage.py
index e984787..729a22e 100644
--- a/aviary/subsystems/geometry/flops_based/fuselage.py
+++ b/aviary/subsystems/geometry/flops_based/fuselage.py
@@ -401,7 +401,7 @@ class DetailedCabinLayout(om.ExplicitComponent):
 
         # Calculate the passenger compartment length
 
-        num_engines = self.options[Aircraft.Engine.NUM_ENGINES][0]
+        num_engines = int(np.sum(self.options[Aircraft.Engine.NUM_ENGINES]))
         eng_flag = num_engines - 2 * int(num_engines / 2)  # a center mounted engine if 1.
         first_class_len = num_first_class_pax * seat_pitch_first / num_seat_abreast_first
         business_class_len = (
-- 
2.43.0


From 710d7645de7ce292e6fe24078ce09fee692c6719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:39 +0000
Subject: [PATCH 37/85] fix: the BWB aft body mass supports several engine
 models

---
 aviary/subsystems/mass/flops_based/fuselage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/fuselage.py b/aviary/subsystems/mass/flops_based/fuselage.py
index 478b910..1787fcb 100644
--- a/aviary/subsystems/mass/flops_based/fuselage.py
+++ b/aviary/subsystems/mass/flops_based/fuselage.py
@@ -1,3 +1,4 @@
+import numpy as np
 import openmdao.api as om
 
 from aviary.constants import GRAV_ENGLISH_LBM
@@ -244,7 +245,7 @@ class BWBAftBodyMass(om.ExplicitComponent):
 
     def compute(self, inputs, outputs):
         verbosity = self.options[Settings.VERBOSITY]
-        num_fuse_eng = self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES]
+        num_fuse_eng = np.sum(self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES])
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         fuse_area = inputs[Aircraft.Fuselage.PLANFORM_AREA]
         cabin_area = inputs[Aircraft.Fuselage.CABIN_AREA]
@@ -282,7 +283,7 @@ class BWBAftBodyMass(om.ExplicitComponent):
         outputs[Aircraft.Wing.BWB_AFTBODY_MASS] = aftbody_weight_adjusted / GRAV_ENGLISH_LBM
 
     def compute_partials(self, inputs, J):
-        num_fuse_eng = self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES]
+        num_fuse_eng = np.sum(self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES])
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         fuse_area = inputs[Aircraft.Fuselage.PLANFORM_AREA]
         cabin_area = inputs[Aircraft.Fuselage.CABIN_AREA]
-- 
2.43.0


From e0cb5ba5db45ae5a0374b48a15b60278ea45d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:39 +0000
Subject: [PATCH 38/85] fix: the exposed nacelle fraction supports several
 engine models

---
 .../subsystems/geometry/gasp_based/engine.py  | 56 +++++++++----------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/engine.py b/aviary/subsystems/geometry/gasp_based/engine.py
index c8f94df..1d27cb7 100644
--- a/aviary/subsystems/geometry/gasp_based/engine.py
+++ b/aviary/subsystems/geometry/gasp_based/engine.py
@@ -127,36 +127,36 @@ class PercentNotInFuselage(om.ExplicitComponent):
         )
 
     def compute(self, inputs, outputs):
-        x = inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]
-        if x >= epsilon and x <= 1 - epsilon:
-            diff = 0.5 - x
-            pct_swn = 1.0 - np.arccos(2.0 * diff) / np.pi
-        elif x >= 0.0 and x < epsilon:
-            pct_swn = g1(x)
-        elif x <= 1.0 and x > 1 - epsilon:
-            pct_swn = g2(x)
-        else:
-            raise om.AnalysisError(
-                'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
-            )
-
-        outputs['percent_exposed'] = pct_swn
+        for i, x in enumerate(inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]):
+            if x >= epsilon and x <= 1 - epsilon:
+                diff = 0.5 - x
+                pct_swn = 1.0 - np.arccos(2.0 * diff) / np.pi
+            elif x >= 0.0 and x < epsilon:
+                pct_swn = g1(x)
+            elif x <= 1.0 and x > 1 - epsilon:
+                pct_swn = g2(x)
+            else:
+                raise om.AnalysisError(
+                    'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
+                )
+
+            outputs['percent_exposed'][i] = pct_swn
 
     def compute_partials(self, inputs, J):
-        x = inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]
-        if x >= epsilon and x <= 1 - epsilon:
-            diff = 0.5 - x
-            d_pct_swn = -2.0 / np.sqrt(1.0 - 4 * diff * diff) / np.pi
-        elif x >= 0.0 and x < epsilon:
-            d_pct_swn = dg1(x)
-        elif x <= 1.0 and x > 1 - epsilon:
-            d_pct_swn = dg2(x)
-        else:
-            raise om.AnalysisError(
-                'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
-            )
-
-        J['percent_exposed', Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE] = d_pct_swn
+        for i, x in enumerate(inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]):
+            if x >= epsilon and x <= 1 - epsilon:
+                diff = 0.5 - x
+                d_pct_swn = -2.0 / np.sqrt(1.0 - 4 * diff * diff) / np.pi
+            elif x >= 0.0 and x < epsilon:
+                d_pct_swn = dg1(x)
+            elif x <= 1.0 and x > 1 - epsilon:
+                d_pct_swn = dg2(x)
+            else:
+                raise om.AnalysisError(
+                    'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
+                )
+
+            J['percent_exposed', Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE][i] = d_pct_swn
 
 
 class GASPEngineDiameter(om.ExplicitComponent):
-- 
2.43.0


From b5dccbb5a3080974308f50a0cd5f19b092725981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 39/85] fix: a long passenger compartment warns at every
 verbosity level instead of failing at some

---
 aviary/subsystems/geometry/flops_based/fuselage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/flops_based/fuselage.py b/aviary/subsystems/geometry/flops_based/fuselage.py
index 729a22e..b289780 100644
--- a/aviary/subsystems/geometry/flops_based/fuselage.py
+++ b/aviary/subsystems/geometry/flops_based/fuselage.py
@@ -147,7 +147,7 @@ class SimpleCabinLayout(om.ExplicitComponent):
         pax_compart_length = 0.6085 * length * (np.arctan(length / 59.0)) ** 1.1
         if pax_compart_length > 190.0:
             if verbosity > Verbosity.BRIEF:
-                raise UserWarning(
+                warnings.warn(
                     'Passenger compartment length is longer than recommended maximum'
                     ' length. Suggest using detailed layout algorithm.'
                 )
-- 
2.43.0


From 4ea40afc2a0b3f25d33ef7ead1ca8137ebd87eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 40/85] fix: BWB fuselage masses reject invalid inputs at every
 verbosity level

---
 aviary/subsystems/mass/flops_based/fuselage.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/fuselage.py b/aviary/subsystems/mass/flops_based/fuselage.py
index 1787fcb..be65659 100644
--- a/aviary/subsystems/mass/flops_based/fuselage.py
+++ b/aviary/subsystems/mass/flops_based/fuselage.py
@@ -169,14 +169,12 @@ class BWBFuselageMass(om.ExplicitComponent):
         self.declare_partials(Aircraft.Fuselage.MASS, '*')
 
     def compute(self, inputs, outputs):
-        verbosity = self.options[Settings.VERBOSITY]
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         cabin_area = inputs[Aircraft.Fuselage.CABIN_AREA]
         mass_scaler = inputs[Aircraft.Fuselage.MASS_SCALER]
 
         if gross_weight <= 0.0:
-            if verbosity > Verbosity.BRIEF:
-                raise om.AnalysisError('Aircraft.Design.GROSS_MASS must be positive.')
+            raise om.AnalysisError('Aircraft.Design.GROSS_MASS must be positive.')
 
         outputs[Aircraft.Fuselage.MASS] = mass_scaler * 1.8 * gross_weight**0.167 * cabin_area**1.06
 
@@ -244,7 +242,6 @@ class BWBAftBodyMass(om.ExplicitComponent):
         )
 
     def compute(self, inputs, outputs):
-        verbosity = self.options[Settings.VERBOSITY]
         num_fuse_eng = np.sum(self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES])
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         fuse_area = inputs[Aircraft.Fuselage.PLANFORM_AREA]
@@ -256,16 +253,13 @@ class BWBAftBodyMass(om.ExplicitComponent):
         comp_frac = inputs[Aircraft.Wing.COMPOSITE_FRACTION]
 
         if rear_spar_percent_chord <= 0.0 or rear_spar_percent_chord >= 1.0:
-            if verbosity > Verbosity.BRIEF:
-                msg = f'{Aircraft.BWB.REAR_SPAR_PERCENT_CHORD_ROOT} must be within 0 and 1.'
-                raise ValueError(msg)
+            msg = f'{Aircraft.BWB.REAR_SPAR_PERCENT_CHORD_ROOT} must be within 0 and 1.'
+            raise ValueError(msg)
         if rear_spar_percent_chord_centerline <= 0.0 or rear_spar_percent_chord_centerline >= 1.0:
-            if verbosity > Verbosity.BRIEF:
-                msg = f'{Aircraft.BWB.REAR_SPAR_PERCENT_CHORD_CENTERLINE} must be within 0 and 1.'
-                raise ValueError()
+            msg = f'{Aircraft.BWB.REAR_SPAR_PERCENT_CHORD_CENTERLINE} must be within 0 and 1.'
+            raise ValueError(msg)
         if length <= 0.0:
-            if verbosity > Verbosity.BRIEF:
-                raise ValueError('Aircraft.Fuselage.LENGTH must be positive.')
+            raise ValueError('Aircraft.Fuselage.LENGTH must be positive.')
 
         aftbody_area = fuse_area - cabin_area
         aftbody_tr = ((1.0 - rear_spar_percent_chord) * root_chord) / (
-- 
2.43.0


From 0d8f58fba7f190e6a0232e9a66697eb7a288cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 41/85] fix: payload range is declined for unconverged and
 multi-mission problems at every verbosity level

---
 aviary/core/aviary_problem.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f4b1f42..fb15df3 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1682,16 +1682,18 @@ class AviaryProblem(om.Problem):
         """
         verbosity = self._override_verbosity(verbosity)
 
-        if not self.result.success and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
-            )
+        if not self.result.success:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
+                )
             return ()
-        elif self.problem_type is ProblemType.MULTI_MISSION and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams currently cannot be generated for aircraft designed '
-                'using multimission capability.'
-            )
+        elif self.problem_type is ProblemType.MULTI_MISSION:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams currently cannot be generated for aircraft designed '
+                    'using multimission capability.'
+                )
             return ()
 
         # Off-design missions are not tested with 2DOF missions.
-- 
2.43.0


From 5e9ea0555a9a4e3030ba154f2ed08c3cee49375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 42/85] fix: objects that are no subsystem builders are skipped
 at every verbosity level

---
 aviary/core/aviary_group.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 7f56f0d..b3c5d8e 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -384,11 +384,12 @@ class AviaryGroup(om.Group):
         verbosity = self._override_verbosity(verbosity)
 
         for subsystem in external_subsystems:
-            if not isinstance(subsystem, SubsystemBuilder) and verbosity >= verbosity.BRIEF:
-                warnings.warn(
-                    'Provided external subsystem is not a SubsystemBuilder object and will not be '
-                    'loaded.'
-                )
+            if not isinstance(subsystem, SubsystemBuilder):
+                if verbosity >= verbosity.BRIEF:
+                    warnings.warn(
+                        'Provided external subsystem is not a SubsystemBuilder object and will not '
+                        'be loaded.'
+                    )
             else:
                 if isinstance(subsystem, EngineModel):
                     self.engine_models.append(subsystem)
-- 
2.43.0


From b878c93106c72532508fbf7e76c5885bbb458980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 43/85] fix: redundant corrected shaft power is dropped from an
 engine deck at every verbosity level

---
 aviary/subsystems/propulsion/engine_deck.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 777e3bc..f26769a 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -510,16 +510,13 @@ class EngineDeck(EngineModel):
         # consistency, as that requires information not available during setup (freestream air temp
         # and pressure). Instead, we must trust the source and assume either data set is valid and
         # can be used.
-        if (
-            SHAFT_POWER in engine_variables
-            and SHAFT_POWER_CORRECTED in engine_variables
-            and self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF
-        ):
-            warnings.warn(
-                'Both corrected and uncorrected shaft horsepower are present in '
-                f'{self.error_message}. The two cannot be validated for consistency, and only '
-                'uncorrected shaft power will be used.'
-            )
+        if SHAFT_POWER in engine_variables and SHAFT_POWER_CORRECTED in engine_variables:
+            if self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF:
+                warnings.warn(
+                    'Both corrected and uncorrected shaft horsepower are present in '
+                    f'{self.error_message}. The two cannot be validated for consistency, and only '
+                    'uncorrected shaft power will be used.'
+                )
             engine_variables.pop(SHAFT_POWER_CORRECTED)
             self.data.pop(SHAFT_POWER_CORRECTED)
 
-- 
2.43.0


From c27d249a7ce9c61cd9825a2e7fea36086bae0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 44/85] fix: DragPolar passes the shape of the nacelle lengths
 as units

---
 aviary/subsystems/aerodynamics/flops_based/drag_polar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/flops_based/drag_polar.py b/aviary/subsystems/aerodynamics/flops_based/drag_polar.py
index 5967dad..16e03a9 100644
--- a/aviary/subsystems/aerodynamics/flops_based/drag_polar.py
+++ b/aviary/subsystems/aerodynamics/flops_based/drag_polar.py
@@ -40,7 +40,7 @@ class DragPolar(om.ExplicitComponent):
         add_aviary_input(self, Aircraft.Fuselage.CHARACTERISTIC_LENGTH, units='ft')
         add_aviary_input(self, Aircraft.HorizontalTail.CHARACTERISTIC_LENGTH, units='ft')
         add_aviary_input(
-            self, Aircraft.Nacelle.CHARACTERISTIC_LENGTH, np.zeros(num_engine_type), units='ft'
+            self, Aircraft.Nacelle.CHARACTERISTIC_LENGTH, shape=num_engine_type, units='ft'
         )
         add_aviary_input(self, Aircraft.VerticalTail.CHARACTERISTIC_LENGTH, units='ft')
         add_aviary_input(self, Aircraft.Wing.CHARACTERISTIC_LENGTH, units='ft')
-- 
2.43.0


From 1fbc004d8516a03271e8d8570b375610b8afe1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 45/85] fix: engine_deck_conversion run as a script imports
 what does not exist

---
 aviary/utils/engine_deck_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/engine_deck_conversion.py b/aviary/utils/engine_deck_conversion.py
index 2cd96f2..fe2f87b 100644
--- a/aviary/utils/engine_deck_conversion.py
+++ b/aviary/utils/engine_deck_conversion.py
@@ -747,7 +747,7 @@ class AtmosCalc(om.ExplicitComponent):
 
 
 if __name__ == '__main__':
-    from aviary.utils.engine_deck_conversion_cmd import setup_EDC, _setup_EDC_parser
+    from aviary.utils.engine_deck_conversion_cmd import _exec_EDC, _setup_EDC_parser
 
     parser = argparse.ArgumentParser()
     _setup_EDC_parser(parser)
-- 
2.43.0


From 4afb0f52e5f95388f14befe85149af2928c35fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 46/85] fix: FLOPS decks without tail sweep or aspect ratio
 cannot be converted

---
 aviary/utils/fortran_to_aviary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 04d1ae9..0d18a59 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -1236,7 +1236,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.SWEEP not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0] < -90.0
     ):
-        if Aircraft.WING.SWEEP in input_values:
+        if Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.HorizontalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1247,7 +1247,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         if Aircraft.HorizontalTail.SWEEP in input_values:
             SWPHT = input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWPHT], 'deg')
-        elif Aircraft.WING.SWEEP in input_values:
+        elif Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1255,8 +1255,8 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.ASPECT_RATIO not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.ASPECT_RATIO)[0] < 0
     ):
-        if Aircraft.WING.ASPECT_RATIO in input_values:
-            AR = input_values.get_val(Aircraft.WING.ASPECT_RATIO)
+        if Aircraft.Wing.ASPECT_RATIO in input_values:
+            AR = input_values.get_val(Aircraft.Wing.ASPECT_RATIO)[0]
             input_values.set_val(Aircraft.HorizontalTail.ASPECT_RATIO, [AR], 'unitless')
 
     if (
-- 
2.43.0


From 69866d1614ef30589d14dafc225382d60d00e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 47/85] fix: GASP decks with a gear ratio cannot be converted

---
 aviary/utils/fortran_to_aviary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 0d18a59..3ef30b6 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -349,9 +349,9 @@ def process_and_store_data(
         vehicle_data['input_values'] = set_value(
             Aircraft.Engine.Gearbox.GEAR_RATIO,
             var_values,
+            data_units,
             vehicle_data['input_values'],
             var_ind=var_ind,
-            units=data_units,
         )
 
     for name in list_of_equivalent_aviary_names:
-- 
2.43.0


From d4fe9a14d68b1c11ec15782af0fce8f1600abb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 48/85] fix: the 3D model never finds the mount location of the
 wing

---
 aviary/visualization/aircraft_3d_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/visualization/aircraft_3d_model.py b/aviary/visualization/aircraft_3d_model.py
index 77fa707..ff72085 100644
--- a/aviary/visualization/aircraft_3d_model.py
+++ b/aviary/visualization/aircraft_3d_model.py
@@ -587,7 +587,7 @@ class HorizontalWing(object):
             if self._wing_type == WingType.WING:
                 try:
                     mount_location = self._reader.get_variable_from_case(
-                        'aircraft:wing:mount_location'
+                        av.Aircraft.Wing.VERTICAL_MOUNT_LOCATION
                     )
                 except AircraftModelReaderError:
                     mount_location = 0.0
-- 
2.43.0


From 2e937552745041689e7891565a0f76c277c37a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 49/85] fix: PropellerBuilder.mission_inputs cannot be called
 like every other builder

---
 aviary/subsystems/propulsion/propeller/propeller_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/propeller/propeller_builder.py b/aviary/subsystems/propulsion/propeller/propeller_builder.py
index 0c778f6..7523fb7 100644
--- a/aviary/subsystems/propulsion/propeller/propeller_builder.py
+++ b/aviary/subsystems/propulsion/propeller/propeller_builder.py
@@ -39,7 +39,7 @@ class PropellerBuilder(SubsystemBuilder):
             num_nodes=num_nodes, aviary_options=aviary_inputs, propeller_data=self.data
         )
 
-    def mission_inputs(self, aviary_inputs=None, subsystem_options=None):
+    def mission_inputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
         inputs = [
             Dynamic.Atmosphere.MACH,
             Aircraft.Engine.Propeller.TIP_SPEED_MAX,
-- 
2.43.0


From b7a51ed09220ab8ae0da79751ee7c3e8d4bbbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 50/85] fix: partials of the oxygen system mass are undefined
 for gross weights up to 3000 lbf

---
 aviary/subsystems/mass/gasp_based/oxygen_system.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/oxygen_system.py b/aviary/subsystems/mass/gasp_based/oxygen_system.py
index 347d9bc..fdab832 100644
--- a/aviary/subsystems/mass/gasp_based/oxygen_system.py
+++ b/aviary/subsystems/mass/gasp_based/oxygen_system.py
@@ -61,8 +61,7 @@ class OxygenSystemMass(om.ExplicitComponent):
                     3 * dSigmoidXdx(gross_wt_initial / 3000, 1, 0.01) * 1 / 3000
                 )
             else:
-                if gross_wt_initial > 3000.0:
-                    d_aux_wt_dgross_wt_initial = 0.0
+                d_aux_wt_dgross_wt_initial = 0.0
         else:
             d_aux_wt_dgross_wt_initial = 0.0
 
-- 
2.43.0


From d81c420ba89d8a1f5e52e442231855b0f62db6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 51/85] fix: dSigmoidXdx cannot be called with a scalar

---
 aviary/utils/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 57a17f2..9cd2493 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -89,8 +89,12 @@ def dSigmoidXdx(x, x0, mu=1.0):
         term2[calc_idx] = (1 + term[calc_idx]) * (1 + term[calc_idx])
         y[calc_idx] = term[calc_idx] / mu / term2[calc_idx]
     else:
+        if isinstance(x, float):
+            dtype = float
+        else:
+            dtype = complex
         y = 0
-        if (x - x0) * mu > -320:
+        if (x - x0) / mu > -320:
             term = np.exp(-(x - x0) / mu)
             term2 = (1 + term) * (1 + term)
             y = term / mu / term2
-- 
2.43.0


From cb041b1cf423e9c965799ae5656db45ce209f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 52/85] fix: a turboprop without a gearbox cannot be set up

---
 aviary/subsystems/propulsion/turboprop_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/propulsion/turboprop_model.py b/aviary/subsystems/propulsion/turboprop_model.py
index 81fab4c..75917f9 100644
--- a/aviary/subsystems/propulsion/turboprop_model.py
+++ b/aviary/subsystems/propulsion/turboprop_model.py
@@ -757,6 +757,8 @@ class TurbopropMission(om.Group):
 
         shp_inputs = []
         shp_outputs = []
+        gearbox_input_list = []
+        gearbox_output_list = []
 
         if has_gearbox:
             gearbox_model = self._get_subsystem(self.options['gearbox_model'].name)
-- 
2.43.0


From 9c3995d5c47a02d60265428870b4054268ef2d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 53/85] fix: a propeller map cannot be given as in-memory data

---
 aviary/subsystems/propulsion/propeller/propeller_map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/propulsion/propeller/propeller_map.py b/aviary/subsystems/propulsion/propeller/propeller_map.py
index 9c24d0a..58ab6ae 100644
--- a/aviary/subsystems/propulsion/propeller/propeller_map.py
+++ b/aviary/subsystems/propulsion/propeller/propeller_map.py
@@ -58,6 +58,8 @@ class PropellerMap(om.Group):
             if verbosity > Verbosity.BRIEF:
                 print(f'Reading propeller performance data from {data_file}')
         else:
+            # data passed in-memory does not label its outputs
+            outputs = ['thrust_coefficient']
             if verbosity > Verbosity.BRIEF:
                 if data_file is not None:
                     warnings.warn(
-- 
2.43.0


From efba6b1b415fef53620612a10c05191406482cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 54/85] fix: the interactive XY plot fails on an unassigned
 name when there is no recorder file

---
 aviary/visualization/dashboard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index 7c39aac..4062898 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -926,6 +926,10 @@ def _create_interactive_xy_plot_mission_variables(documentation, problem_recorde
             ),
             interactive_mission_var_plot_pane,
         )
+    else:
+        interactive_mission_var_plot_pane_with_doc = _create_message_pane(
+            documentation, 'No recorder file was specified.'
+        )
 
     return interactive_mission_var_plot_pane_with_doc
 
-- 
2.43.0


From 9daa3bd98157f163a064c6bb8456e64e75f9e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 55/85] fix: the fuel volume capacity is declared by the
 unusable fuel mass but never computed

---
 .../subsystems/mass/flops_based/unusable_fuel.py   | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/unusable_fuel.py b/aviary/subsystems/mass/flops_based/unusable_fuel.py
index 48b37d3..18d8e44 100644
--- a/aviary/subsystems/mass/flops_based/unusable_fuel.py
+++ b/aviary/subsystems/mass/flops_based/unusable_fuel.py
@@ -32,9 +32,7 @@ class TransportUnusableFuelMass(om.ExplicitComponent):
         add_aviary_input(self, Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST, units='lbf')
         add_aviary_input(self, Aircraft.Wing.AREA, units='ft**2')
 
-        add_aviary_output(
-            self, Aircraft.Fuel.MAX_CAPACITY_VOLUME, units='galUS'
-        )  # not computed nor used
+        add_aviary_output(self, Aircraft.Fuel.MAX_CAPACITY_VOLUME, units='galUS')
         add_aviary_output(self, Aircraft.Fuel.UNUSABLE_FUEL_MASS, units='lbm')
 
     def setup_partials(self):
@@ -67,7 +65,7 @@ class TransportUnusableFuelMass(om.ExplicitComponent):
         wing_area = inputs[Aircraft.Wing.AREA]
 
         # This is a volume: lbm / (lbm/galUS)
-        # outputs[Aircraft.Fuel.MAX_CAPACITY_VOLUME] = total_capacity / density_ratio
+        outputs[Aircraft.Fuel.MAX_CAPACITY_VOLUME] = total_capacity / inputs[Aircraft.Fuel.DENSITY]
 
         outputs[Aircraft.Fuel.UNUSABLE_FUEL_MASS] = (
             (
@@ -96,11 +94,11 @@ class TransportUnusableFuelMass(om.ExplicitComponent):
         term1 = thrust_factor**0.2
         term2 = total_capacity**0.28
 
-        # J[Aircraft.Fuel.MAX_CAPACITY_VOLUME, Aircraft.Fuel.MAX_CAPACITY_MASS] = (
-        #     1.0 / density_ratio)
+        density = inputs[Aircraft.Fuel.DENSITY]
 
-        # J[Aircraft.Fuel.MAX_CAPACITY_VOLUME, Aircraft.Fuel.DENSITY_RATIO] = (
-        #     -total_capacity / (density_ratio * density_ratio))
+        J[Aircraft.Fuel.MAX_CAPACITY_VOLUME, Aircraft.Fuel.MAX_CAPACITY_MASS] = 1.0 / density
+
+        J[Aircraft.Fuel.MAX_CAPACITY_VOLUME, Aircraft.Fuel.DENSITY] = -total_capacity / density**2
 
         J[Aircraft.Fuel.UNUSABLE_FUEL_MASS, Aircraft.Fuel.UNUSABLE_FUEL_MASS_SCALER] = (
             (11.5 * num_eng_fact * term1 + 0.07 * wing_area + 1.6 * tank_count * term2)
-- 
2.43.0


From f8ed664596f9f5738d31cd5b6266d6f79021e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 56/85] fix: set_aviary_initial_values no longer hides failures
 other than a missing variable

---
 aviary/utils/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index f5aae7c..60aefe0 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -55,7 +55,7 @@ def set_aviary_initial_values(prob, aviary_inputs: AviaryValues):
         try:
             prob.set_val(key, val, units)
 
-        except BaseException:
+        except KeyError:
             # Should be an option or an overridden output.
             continue
 
-- 
2.43.0


From d352822a06f76da51a645824fb63c48acff36614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 57/85] fix: raise the error that add_aviary_group only created

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index fb15df3..d50b951 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -293,7 +293,7 @@ class AviaryProblem(om.Problem):
         verbosity = self._override_verbosity(verbosity)
 
         if self.problem_type is not ProblemType.MULTI_MISSION:
-            ValueError(
+            raise ValueError(
                 'add_aviary_group() should only be called when ProblemType is MULTI_MISSION.'
             )
 
-- 
2.43.0


From c5fa41d851a78b5f2be519609cce1f3c52784492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 58/85] fix: issue the warnings that were only created
 (reports, get_outputs, EngineModel._setup)

---
 aviary/interface/reports.py                  | 3 ++-
 aviary/subsystems/propulsion/engine_model.py | 5 +++--
 aviary/subsystems/subsystem_builder.py       | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index d7c874f..a232203 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -2,6 +2,7 @@ import datetime
 import json
 import sys
 import time
+import warnings
 from pathlib import Path
 
 import numpy as np
@@ -543,7 +544,7 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
             time_str = f'traj.{phase_name}.timeseries.time'
 
             if variable_str not in timeseries_outputs:
-                Warning(
+                warnings.warn(
                     f'Variable {variable_str} not found in timeseries_outputs for phase '
                     f'{phase_name}.'
                 )
diff --git a/aviary/subsystems/propulsion/engine_model.py b/aviary/subsystems/propulsion/engine_model.py
index b8848b3..bdb4b89 100644
--- a/aviary/subsystems/propulsion/engine_model.py
+++ b/aviary/subsystems/propulsion/engine_model.py
@@ -66,8 +66,9 @@ class EngineModel(SubsystemBuilder):
         All attributes and values for options in EngineModel are finalized for
         analysis.
         """
-        DeprecationWarning(
-            'EngineModel._setup() is redundant and will be removed in a future update.'
+        warnings.warn(
+            'EngineModel._setup() is redundant and will be removed in a future update.',
+            DeprecationWarning,
         )
         self._preprocess_inputs()
 
diff --git a/aviary/subsystems/subsystem_builder.py b/aviary/subsystems/subsystem_builder.py
index 7130a34..50b4f63 100644
--- a/aviary/subsystems/subsystem_builder.py
+++ b/aviary/subsystems/subsystem_builder.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import warnings
 from abc import ABC
 from pathlib import Path
 from typing import TYPE_CHECKING
@@ -463,9 +464,10 @@ class SubsystemBuilder(ABC):
         return aviary_inputs
 
     def get_outputs(self):
-        DeprecationWarning(
+        warnings.warn(
             '"get_outputs()" has been renamed to "get_timeseries()" for more clarity on the '
-            'function\'s purpose. "get_outputs()" will be removed in a future version of Aviary.'
+            'function\'s purpose. "get_outputs()" will be removed in a future version of Aviary.',
+            DeprecationWarning,
         )
         return self.get_timeseries()
 
-- 
2.43.0


From 4b82de93fc3b6f2a337a206d54a19c7e421b3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 59/85] fix: report the invalid values that the deck converter
 only created errors for

---
 aviary/utils/fortran_to_aviary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 3ef30b6..f55bb92 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -425,7 +425,7 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
             elif var_value[0] == 0:
                 var_value = ['False']
             else:
-                ValueError(f'{var_name} allows 0 and 1 only, but it is {var_value[0]}')
+                raise ValueError(f'{var_name} allows 0 and 1 only, but it is {var_value[0]}')
         value_dict.set_val(var_name, var_value, units)
     return value_dict
 
@@ -734,7 +734,7 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
             Mission.RESERVE_FUEL_MASS_ADDITIONAL, [0], units='lbm'
         )  # then clear out the unused value
     if reserve_fuel_mass_additional > 0 and reserve_fuel_mass_additional < 10:
-        ValueError(
+        warnings.warn(
             '"FRESF" is not valid between 0 and 10. To set a reserve mission flight time you must setup a reserve mission definition with a target_duration.'
         )
         input_values.set_val(Mission.RESERVE_FUEL_MASS_ADDITIONAL, [0], units='lbm')
@@ -746,10 +746,10 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     reserve_fuel_volume = input_values.get_val(Aircraft.Fuel.VOLUME_MARGIN, units='unitless')[0]
 
     if reserve_fuel_volume < 0:
-        ValueError(
+        warnings.warn(
             '"FVOL_MRG" is not valid below 0. Cannot set fuel volume reserves to less than zero'
         )  #
-        input_values.set_val(Aircraft.Fuel.VOLUME_MARGIN, [0], units='lbm')
+        input_values.set_val(Aircraft.Fuel.VOLUME_MARGIN, [0], units='unitless')
 
     # FLARE LOAD FACTOR ##
     if Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR in input_values:
-- 
2.43.0


From efb0c1b19f37ecceab1f595693adc645e816bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 60/85] fix: raise ValueError instead of a plain string (BWB
 wing, horizontal tail)

---
 aviary/subsystems/geometry/gasp_based/wing.py        | 12 +++++++++---
 .../subsystems/mass/flops_based/horizontal_tail.py   |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/wing.py b/aviary/subsystems/geometry/gasp_based/wing.py
index fff3378..d18d836 100644
--- a/aviary/subsystems/geometry/gasp_based/wing.py
+++ b/aviary/subsystems/geometry/gasp_based/wing.py
@@ -1625,7 +1625,9 @@ class BWBWingGroup(om.Group):
             if verbosity >= 1:
                 print('BWB does not have strut implemented.')
         if not self.options[Aircraft.Wing.CHOOSE_FOLD_LOCATION]:
-            raise ('There is no strut. Aircraft.Wing.CHOOSE_FOLD_LOCATION must be True.')
+            raise ValueError(
+                'There is no strut. Aircraft.Wing.CHOOSE_FOLD_LOCATION must be True.'
+            )
 
         self.add_subsystem(
             'size',
@@ -1829,7 +1831,9 @@ class ExposedWing(om.ExplicitComponent):
         elif h_wing <= 1.0 and h_wing > 1.0 - epsilon:
             sqt = g2(h_wing)
         else:
-            raise 'The given parameter Aircraft.Wing.VERTICAL_MOUNT_LOCATION is out of range.'
+            raise ValueError(
+                'The given parameter Aircraft.Wing.VERTICAL_MOUNT_LOCATION is out of range.'
+            )
 
         if design_type is AircraftTypes.BLENDED_WING_BODY:
             cabin_height = body_width * inputs[Aircraft.Fuselage.HEIGHT_TO_WIDTH_RATIO]
@@ -1871,7 +1875,9 @@ class ExposedWing(om.ExplicitComponent):
             sqt = g2(h_wing)
             d_sqt = dg2(h_wing)
         else:
-            raise 'The given parameter Aircraft.Wing.VERTICAL_MOUNT_LOCATION is out of range.'
+            raise ValueError(
+                'The given parameter Aircraft.Wing.VERTICAL_MOUNT_LOCATION is out of range.'
+            )
 
         if design_type is AircraftTypes.BLENDED_WING_BODY:
             cabin_height = body_width * height_to_width
diff --git a/aviary/subsystems/mass/flops_based/horizontal_tail.py b/aviary/subsystems/mass/flops_based/horizontal_tail.py
index 2121aaa..27e1834 100644
--- a/aviary/subsystems/mass/flops_based/horizontal_tail.py
+++ b/aviary/subsystems/mass/flops_based/horizontal_tail.py
@@ -40,7 +40,7 @@ class HorizontalTailMass(om.ExplicitComponent):
         elif num_tails == 0:
             outputs[Aircraft.HorizontalTail.MASS] = 0.0
         else:
-            raise ('User needs to provide a mass equation for horizontal tail.')
+            raise ValueError('User needs to provide a mass equation for horizontal tail.')
 
     def compute_partials(self, inputs, J):
         num_tails = self.options[Aircraft.HorizontalTail.NUM_TAILS]
-- 
2.43.0


From a19ca1fc67190ab46cb66803a5707a764723578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 61/85] fix: name the phase in the error about an invalid phase
 builder

---
 aviary/mission/energy_state_problem_configurator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 5dd67c7..08ebdfa 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -143,7 +143,7 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
             phase_builder = phase_options['phase_type']
             if not issubclass(phase_builder, PhaseBuilder):
                 raise TypeError(
-                    'phase_builder for the phase called {phase_name} must be a PhaseBuilder object.'
+                    f'phase_builder for the phase called {phase_name} must be a PhaseBuilder object.'
                 )
         else:
             phase_builder = EnergyPhase
-- 
2.43.0


From cb90be7b476abed19165da324a07d69041f7820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 62/85] fix: compare the values, not their truth value, in the
 guards of the lift and propeller models

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py     | 4 ++--
 .../subsystems/propulsion/propeller/hamilton_standard.py  | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 751100e..1ecb76f 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -388,7 +388,7 @@ class Xlifts(om.ExplicitComponent):
         eps5 = cs.abs(xt) / (np.pi * art * np.sqrt(xt**2 + h**2 + art**2 * cbar**2 / 4))
 
         denom = 1 - clat0 * claw0 * (eps1 + eps2 + eps3) * (eps4 - eps5 - cbar * eps1)
-        if np.any(denom) == 0.0:
+        if np.any(denom == 0.0):
             if verbosity > Verbosity.BRIEF:
                 warnings.warn(
                     'lift_curve_slope is undefined because the denominator is 0.0 in Xlift.'
@@ -397,7 +397,7 @@ class Xlifts(om.ExplicitComponent):
 
         clat = clat0 * (1 - claw * (eps1 + eps2 + eps3))
 
-        if np.any(claw) == 0.0:
+        if np.any(claw == 0.0):
             if verbosity > Verbosity.BRIEF:
                 warnings.warn('lift_ratio is undefined because the denominator is 0.0 in Xlift.')
         abar = clat / claw
diff --git a/aviary/subsystems/propulsion/propeller/hamilton_standard.py b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
index 51170a6..9217974 100644
--- a/aviary/subsystems/propulsion/propeller/hamilton_standard.py
+++ b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
@@ -535,15 +535,15 @@ class PreHamiltonStandard(om.ExplicitComponent):
 
         if diam_prop <= 0.0:
             raise om.AnalysisError('Aircraft.Engine.Propeller.DIAMETER must be positive.')
-        if any(tipspd) <= 0.0:
+        if any(tipspd <= 0.0):
             raise om.AnalysisError(
                 'Dynamic.Vehicle.Propulsion.PROPELLER_TIP_SPEED must be positive.'
             )
-        if any(sos) <= 0.0:
+        if any(sos <= 0.0):
             raise om.AnalysisError('Dynamic.Atmosphere.SPEED_OF_SOUND must be positive.')
-        if any(density_ratio) <= 0.0:
+        if any(density_ratio <= 0.0):
             raise om.AnalysisError('Dynamic.Atmosphere.DENSITY must be positive.')
-        if any(shp) < 0.0:
+        if any(shp < 0.0):
             raise om.AnalysisError('Dynamic.Vehicle.Propulsion.SHAFT_POWER must be non-negative.')
 
         # outputs['density_ratio'] = density_ratio
-- 
2.43.0


From 82d2a8cfd804f0deb6d08c0bd1c8010ecb3de108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 63/85] fix: the dashboard command reports a missing script
 name instead of failing on its own error

---
 aviary/visualization/dashboard_cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/visualization/dashboard_cmd.py b/aviary/visualization/dashboard_cmd.py
index 6e207a5..517e8a9 100644
--- a/aviary/visualization/dashboard_cmd.py
+++ b/aviary/visualization/dashboard_cmd.py
@@ -80,7 +80,7 @@ def _dashboard_cmd(options, user_args):
             options.save = True
 
     if not options.script_name:
-        raise argparse.ArgumentError('script_name argument missing')
+        raise argparse.ArgumentError(None, 'script_name argument missing')
 
     if isinstance(options.script_name, list):
         options.script_name = options.script_name[0]
-- 
2.43.0


From 5f88f698062cf89b02fed3540692e3583723946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 64/85] fix: the error about an invalid time_duration failed on
 its own message

---
 aviary/core/aviary_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index b3c5d8e..2415758 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -431,8 +431,8 @@ class AviaryGroup(om.Group):
                     if time_duration <= 0:
                         raise ValueError(
                             f'Invalid time_duration in phase_info[{phase_name}]'
-                            f'[user_options]. Current (value: {time_duration[0]}), '
-                            f'(units: {time_duration[1]}) <= 0")'
+                            f'[user_options]. Current (value: {time_duration}), '
+                            f'(units: {units}) <= 0")'
                         )
 
                     if 'initial_guesses' not in phase:
-- 
2.43.0


From a948bf54da3cfad7e824f557a9e783060794b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 65/85] fix: the cargo mismatch warning showed the design value
 for both

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index ef2be90..1cf9dd3 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -420,7 +420,6 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
                 if des_cargo is not None:
                     if problem_type == ProblemType.SIZING and cargo != des_cargo:
                         # user has set all three check, if self consistent
-                        cargo = des_cargo
                         if verbosity >= Verbosity.BRIEF:  # BRIEF, VERBOSE, DEBUG
                             warnings.warn(
                                 f'Aircraft.CrewPayload.CARGO_MASS ({cargo} lbm) does not equal '
@@ -428,6 +427,7 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
                                 'SIZING mission. Setting as-flown CARGO_MASS equal to '
                                 f'Design.CARGO_MASS ({des_cargo} lbm)'
                             )
+                        cargo = des_cargo
                 else:
                     # user has set cargo & max: assume des = max
                     des_cargo = max_cargo
-- 
2.43.0


From c399b19bcb44d31147c3901ac7a61951f0053a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 66/85] fix: BWB wing mass group promotes the wing mass scaler
 also without fold or strut

---
 aviary/subsystems/mass/gasp_based/wing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aviary/subsystems/mass/gasp_based/wing.py b/aviary/subsystems/mass/gasp_based/wing.py
index a7dca01..f6980d6 100644
--- a/aviary/subsystems/mass/gasp_based/wing.py
+++ b/aviary/subsystems/mass/gasp_based/wing.py
@@ -771,6 +771,7 @@ class BWBWingMassGroup(om.Group):
             'isolated_wing_mass',
         ]
         connected_inputs_total = [
+            Aircraft.Wing.MASS_SCALER,
             'isolated_wing_mass',
         ]
 
-- 
2.43.0


From 73f65706b0915a9cef546358bf40016bd202e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 67/85] fix: wing characteristic length receives the root chord

---
 aviary/subsystems/geometry/flops_based/prep_geom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/prep_geom.py b/aviary/subsystems/geometry/flops_based/prep_geom.py
index 483ef9f..f0b2645 100644
--- a/aviary/subsystems/geometry/flops_based/prep_geom.py
+++ b/aviary/subsystems/geometry/flops_based/prep_geom.py
@@ -20,6 +20,7 @@ from aviary.subsystems.geometry.flops_based.fuselage import (
     SimpleCabinLayout,
 )
 from aviary.subsystems.geometry.flops_based.landing_gear import MainGearLength, NoseGearLength
+from aviary.subsystems.geometry.flops_based.utils import Names
 from aviary.subsystems.geometry.flops_based.wetted_area_total import WettedAreaGroup
 from aviary.subsystems.geometry.flops_based.wetted_area_total import TotalWettedArea
 from aviary.subsystems.geometry.flops_based.wing import WingPrelim
@@ -137,6 +138,10 @@ class PrepGeom(om.Group):
                 promotes_inputs=['aircraft*'],
                 promotes_outputs=['*'],
             )
+            self.connect(
+                f'prelim_swet.{Names.CROOT}',
+                f'wing_characteristic_lengths.{Names.CROOT}',
+            )
 
         self.add_subsystem(
             'nacelle_characteristic_lengths',
@@ -152,8 +157,6 @@ class PrepGeom(om.Group):
             promotes_outputs=['*'],
         )
 
-        # self.connect(f'prelim.{Names.CROOT}', f'other_characteristic_lengths.{Names.CROOT}')
-
         self.add_subsystem(
             'total_wetted_area', TotalWettedArea(), promotes_inputs=['*'], promotes_outputs=['*']
         )
-- 
2.43.0


From e2c8af9a5cbca649817bbe166aceb0a6448e19fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 68/85] fix: the pre-mission mux of a propulsion output one
 engine model lacks takes its input value instead of an impossible
 self-connection

---
 aviary/subsystems/propulsion/propulsion_premission.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 808196d..bf7ad3f 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -80,6 +80,7 @@ class PropulsionPreMission(om.Group):
         # pre_mission components only the value they need, then mux all the outputs back together.
 
         engine_models = self.options['engine_models']
+        aviary_options = self.options['aviary_options']
         num_engine_type = len(engine_models)
 
         # determine if openMDAO messages and warnings should be suppressed
@@ -177,13 +178,14 @@ class PropulsionPreMission(om.Group):
                             engine + '.' + output,
                             'pre_mission_mux.' + output + '_' + str(i),
                         )
-                    else:
+                    elif output in aviary_options:
                         # If this component does not provide the output, pass the existing value for
                         # that index to the mux
-                        self.connect(
-                            output,
+                        units = unique_outputs[output]
+                        self.set_input_defaults(
                             'pre_mission_mux.' + output + '_' + str(i),
-                            src_indices=om.slicer[i],
+                            val=aviary_options.get_val(output, units)[i],
+                            units=units,
                         )
 
 
-- 
2.43.0


From 0012f1366496e07124496be183d7bcc5bd975bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 69/85] fix: loading inputs copies the phase_info instead of
 completing the caller's (or the shared default) dictionary in place

---
 aviary/core/aviary_group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 2415758..8f211f7 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1,6 +1,7 @@
 import inspect
 import sys
 import warnings
+from copy import deepcopy
 from importlib.util import module_from_spec, spec_from_file_location
 import numpy as np
 from pathlib import Path
@@ -350,6 +351,10 @@ class AviaryGroup(om.Group):
                     'of motion.'
                 )
 
+        # The phase_info is completed while the model is built. Work on a copy, so that neither the
+        # user's dictionary nor the shared default one is changed.
+        phase_info = deepcopy(phase_info)
+
         # create a new dictionary that only contains the phases from phase_info
         self.mission_info = {}
 
-- 
2.43.0


From 8d51ea7d1ef53fca25a1ddb0b3e9a8fa231fa8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 70/85] fix: an off-design mission no longer sets its target
 range in the phase_info it was given

---
 aviary/core/aviary_problem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index d50b951..47a4dd6 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1483,8 +1483,11 @@ class AviaryProblem(om.Problem):
         if phase_info is None:
             # model phase_info only contains mission information, recreate the whole thing here
             phase_info = self.model.mission_info.copy()
-            phase_info['pre_mission'] = self.model.pre_mission_info.copy()
-            phase_info['post_mission'] = self.model.post_mission_info.copy()
+            phase_info['pre_mission'] = self.model.pre_mission_info
+            phase_info['post_mission'] = self.model.post_mission_info
+
+        # the target range is set below, leave the original phase_info as it is
+        phase_info = deepcopy(phase_info)
 
         # update passenger count and cargo masses
         mass_method = inputs.get_val(Settings.MASS_METHOD)
-- 
2.43.0


From 88b5f332eb66b022ebf0fba7413070c0b2e5f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 71/85] fix: the payload-range runs no longer double the cruise
 duration bound of the sized problem's phase_info

---
 aviary/core/aviary_problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 47a4dd6..2c04e47 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1704,9 +1704,9 @@ class AviaryProblem(om.Problem):
         equations_of_motion = self.model.aviary_inputs.get_val(Settings.EQUATIONS_OF_MOTION)
         if equations_of_motion is EquationsOfMotion.ENERGY_STATE:
             # make a copy of the phase_info to avoid modifying the original.
-            phase_info = self.model.mission_info.copy()
-            phase_info['pre_mission'] = self.model.pre_mission_info.copy()
-            phase_info['post_mission'] = self.model.post_mission_info.copy()
+            phase_info = deepcopy(self.model.mission_info)
+            phase_info['pre_mission'] = deepcopy(self.model.pre_mission_info)
+            phase_info['post_mission'] = deepcopy(self.model.post_mission_info)
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
             if phase_info['cruise']:
-- 
2.43.0


From 9bba6eba8e23d6be3d6044e23bc1d33ed6ca6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 72/85] fix: add_throttle_control creates its default group per
 call instead of sharing one between problems

---
 aviary/mission/two_dof/ode/two_dof_ode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/mission/two_dof/ode/two_dof_ode.py b/aviary/mission/two_dof/ode/two_dof_ode.py
index ca71530..74536d9 100644
--- a/aviary/mission/two_dof/ode/two_dof_ode.py
+++ b/aviary/mission/two_dof/ode/two_dof_ode.py
@@ -168,7 +168,7 @@ class TwoDOFODE(_BaseODE):
 
     def add_throttle_control(
         self,
-        prop_group=om.Group(),
+        prop_group=None,
         num_nodes=1,
         atol=1e-12,
         rtol=1e-12,
@@ -178,6 +178,9 @@ class TwoDOFODE(_BaseODE):
         """This is used when throttle in an ODE needs to be controlled directly."""
         nn = num_nodes
 
+        if prop_group is None:
+            prop_group = om.Group()
+
         thrust_bal = om.BalanceComp(
             name=Dynamic.Vehicle.Propulsion.THROTTLE,
             val=np.ones(nn),
-- 
2.43.0


From ad6f759e5ff8b0034a8518a7c9e9133f731e2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 73/85] fix: reading and writing data files leaves the caller's
 aliases and comments as they were

---
 aviary/utils/csv_data_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 4498bbe..44b7fb5 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -68,6 +68,7 @@ def read_data_file(
 
     # prep aliases for case-insensitive matching, with spaces == underscores
     if aliases:
+        aliases = dict(aliases)
         for key in aliases:
             if isinstance(aliases[key], str):
                 aliases[key] = [aliases[key]]
@@ -256,6 +257,9 @@ def write_data_file(
     if type(comments) is str:
         comments = [comments]
 
+    # work on a copy, the caller may use the same comments again
+    comments = list(comments)
+
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
         if len(line) > 0:
-- 
2.43.0


From a02132ba7b948cb4ed71d87098643f4e6238db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 74/85] fix: an engine deck no longer changes the default units
 of all other engine decks

---
 aviary/subsystems/propulsion/engine_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index f26769a..8c5a713 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -784,7 +784,7 @@ class EngineDeck(EngineModel):
             method=interp_method, extrapolate=True, vec_size=num_nodes
         )
 
-        units = default_units
+        units = default_units.copy()
         for key in self.engine_variables:
             units[key] = self.engine_variables[key]
         self.engine_variable_units = units
-- 
2.43.0


From c91c6e0540514388904d4721d72cf53d978b1b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 75/85] fix: initial guesses of one converted Fortran deck no
 longer leak into the next conversion

---
 aviary/utils/fortran_to_aviary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index f55bb92..ea1e36b 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -61,7 +61,7 @@ def fortran_to_aviary(
     vehicle_data = {
         'input_values': NamedValues(),
         'unused_values': NamedValues(),
-        'initialization_guesses': initialization_guesses,
+        'initialization_guesses': initialization_guesses.copy(),
     }
 
     fortran_deck: Path = get_path(fortran_deck, verbosity=verbosity)
-- 
2.43.0


From 9b0d0ac778a5019dbd6487f98d158e2a46fd4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 76/85] fix: a copy of named values no longer shares its
 contents with the original

---
 aviary/utils/named_values.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 0a38a78..73234c5 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -95,7 +95,9 @@ class NamedValues(Collection):
         -------
         NamedValues()
         """
-        return copy.copy(self)
+        duplicate = copy.copy(self)
+        duplicate._mapping = self._mapping.copy()
+        return duplicate
 
     def deepcopy(self):
         """
-- 
2.43.0


From 31e26983a0cb9b3bd786adb52f55c6fb62907c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 77/85] fix: tabular aerodynamics parameters can be extended
 for the BWB (the shared input lists have no add)

---
 aviary/subsystems/aerodynamics/aerodynamics_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/aerodynamics_builder.py b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
index c233be8..dfddfd7 100644
--- a/aviary/subsystems/aerodynamics/aerodynamics_builder.py
+++ b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
@@ -671,9 +671,9 @@ class CoreAerodynamicsBuilder(AerodynamicsBuilder):
             elif method == 'cruise':
                 all_vars = set(AERO_2DOF_INPUTS + AERO_CLEAN_2DOF_INPUTS)
             elif method == 'tabular_low_speed':
-                all_vars = AERO_2DOF_TABULAR_LS_INPUTS
+                all_vars = set(AERO_2DOF_TABULAR_LS_INPUTS)
             elif method == 'tabular_cruise':
-                all_vars = TABULAR_CORE_INPUTS
+                all_vars = set(TABULAR_CORE_INPUTS)
             else:
                 raise ValueError(
                     'GASP-based aero method is not one of the following: (cruise, '
-- 
2.43.0


From 9461bb5faa6f972d8302d7a34d13f2eadcbfa084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 78/85] fix: an engine deck built from memory no longer renames
 the columns of the caller's data

---
 aviary/subsystems/propulsion/engine_deck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 8c5a713..0edcbfe 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -373,7 +373,8 @@ class EngineDeck(EngineModel):
                         alias_dict[var] = key
                         break
 
-            # replace old names with aliased ones
+            # replace old names with aliased ones, in a copy as the data belongs to the caller
+            raw_data = raw_data.deepcopy()
             for name in alias_dict:
                 val, units = raw_data.get_item(name)
                 raw_data.delete(name)
-- 
2.43.0


From b4adc13e5ca4081646c5923878a78066faa72c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 79/85] fix: preprocessing the engine mounts no longer writes
 into the user's own array

---
 aviary/utils/preprocessors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 1cf9dd3..cd015df 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -886,7 +886,8 @@ def preprocess_propulsion(
     except KeyError:
         num_fuse_engines_all = np.zeros(num_engine_type).astype(int)
     try:
-        num_wing_engines_all = aviary_options.get_val(Aircraft.Engine.NUM_WING_ENGINES)
+        # entries are filled in below, the array itself may belong to the user
+        num_wing_engines_all = np.array(aviary_options.get_val(Aircraft.Engine.NUM_WING_ENGINES))
     except KeyError:
         num_wing_engines_all = np.zeros(num_engine_type).astype(int)
 
-- 
2.43.0


From 1783f9d767e2c3e21a35c17beb048ed48c7bde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 80/85] fix: saving the results no longer turns the problem's
 enum and path options into strings

---
 aviary/core/aviary_problem.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 2c04e47..4d1e529 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1915,11 +1915,9 @@ class AviaryProblem(om.Problem):
                     # Lists are fine except if they contain enums or Paths
                     if type_value is list:
                         if isinstance(value[0], Enum):
-                            for i in range(len(value)):
-                                value[i] = value[i].name
+                            value = [item.name for item in value]
                         elif isinstance(value[0], Path):
-                            for i in range(len(value)):
-                                value[i] = str(value[i])
+                            value = [str(item) for item in value]
 
                     # Enums and Paths need converting to a string
                     if isinstance(value, Enum):
-- 
2.43.0


From fde919b1d495d914a7243e10a73f09858284f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 81/85] fix: creating a phase builder no longer rewrites the
 user options of the phase_info it is given

---
 aviary/mission/phase_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index bd14bc2..c44f756 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -324,12 +324,13 @@ class PhaseBuilder(ABC):
         """
         # loop over user_options dict entries
         # if the value is not a tuple, wrap it in a tuple with the second entry of 'unitless'
+        user_options = {}
         for key, value in phase_info['user_options'].items():
             if not isinstance(value, tuple):
-                phase_info['user_options'][key] = (value, 'unitless')
+                value = (value, 'unitless')
+            user_options[key] = value
 
         subsystem_options = phase_info.get('subsystem_options', {})  # TODO: aero info?
-        user_options = phase_info.get('user_options', ())
         initial_guesses = AviaryValues(phase_info.get('initial_guesses', ()))
 
         # TODO some of these may be purely programming API hooks, rather than for use
-- 
2.43.0


From 2a02e9ed4382309527ca4d738528f8ce6c5f7418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 82/85] fix: preprocessing the engine counts no longer writes
 into the user's own arrays

---
 aviary/utils/preprocessors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index cd015df..9f839dc 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -877,16 +877,18 @@ def preprocess_propulsion(
     # Make sure number of engines based on mount location match expected total
     sum_engines_provided = False
     try:
-        num_engines_all = aviary_options.get_val(Aircraft.Engine.NUM_ENGINES)
+        num_engines_all = np.array(aviary_options.get_val(Aircraft.Engine.NUM_ENGINES))
         sum_engines_provided = True
     except KeyError:
         num_engines_all = np.zeros(num_engine_type).astype(int)
     try:
-        num_fuse_engines_all = aviary_options.get_val(Aircraft.Engine.NUM_FUSELAGE_ENGINES)
+        # entries are filled in below, the arrays themselves may belong to the user
+        num_fuse_engines_all = np.array(
+            aviary_options.get_val(Aircraft.Engine.NUM_FUSELAGE_ENGINES)
+        )
     except KeyError:
         num_fuse_engines_all = np.zeros(num_engine_type).astype(int)
     try:
-        # entries are filled in below, the array itself may belong to the user
         num_wing_engines_all = np.array(aviary_options.get_val(Aircraft.Engine.NUM_WING_ENGINES))
     except KeyError:
         num_wing_engines_all = np.zeros(num_engine_type).astype(int)
-- 
2.43.0


From b5c3aa6f4fd1e795da6e189ba0c9596a00db1273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 83/85] fix: build_data_interpolator leaves the data it is
 given as they are

The data object passed in was sorted and reshaped in place, so that the
caller got it back changed, and a table listing an output before an input
kept that order although the columns are taken as inputs first.
---
 aviary/subsystems/aerodynamics/gasp_based/table_based.py | 4 ++--
 aviary/utils/data_interpolator_builder.py                | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/table_based.py b/aviary/subsystems/aerodynamics/gasp_based/table_based.py
index 4b14a21..265c5e3 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/table_based.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/table_based.py
@@ -504,7 +504,7 @@ def _build_free_aero_interp(
 
         # approx CL max as that with highest alpha, assume alpha monotonically increasing
         # free aero CL at max alpha is the same across altitudes but ignore that for now
-        cl_max = interp_data.get_val('lift_coefficient', 'unitless')[0, :, -1]
+        cl_max = interp_comp.training_outputs['lift_coefficient'][0, :, -1]
         # add a 1d metamodel for cl_max, promoting all variables
         meta_1d = om.MetaModelStructuredComp(
             method='1D-lagrange2', vec_size=num_nodes, extrapolate=extrapolate
@@ -514,7 +514,7 @@ def _build_free_aero_interp(
             0.0,
             units='unitless',
             shape=num_nodes,
-            training_data=interp_data.get_val(Dynamic.Atmosphere.MACH, 'unitless'),
+            training_data=np.unique(interp_data.get_val(Dynamic.Atmosphere.MACH, 'unitless')),
         )
         meta_1d.add_output(
             'lift_coefficient_max', units='unitless', shape=num_nodes, training_data=cl_max
diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index ebc9f67..d246284 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -129,8 +129,9 @@ def build_data_interpolator(
             dep_vars.set_val(key, val, units)
         else:
             indep_vars.set_val(key, val, units)
-    # update interpolator_data with correctly ordered indep/dep vars in numpy arrays
-    interpolator_data.update(indep_vars)
+    # from here on use correctly ordered indep/dep vars in numpy arrays - the data object that was
+    # passed in is left as it is
+    interpolator_data = NamedValues(indep_vars)
     for key, (val, units) in dep_vars.items():
         interpolator_data.set_val(key, val, units)
 
-- 
2.43.0


From 31f001be14abe52d9f2fb88cae259d592fcc18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 84/85] fix: collecting engine parameters no longer writes into
 what the engine builder returned

---
 aviary/subsystems/propulsion/propulsion_builder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_builder.py b/aviary/subsystems/propulsion/propulsion_builder.py
index a7c61ce..96c3357 100644
--- a/aviary/subsystems/propulsion/propulsion_builder.py
+++ b/aviary/subsystems/propulsion/propulsion_builder.py
@@ -183,8 +183,11 @@ class CorePropulsionBuilder(PropulsionBuilder):
             if var in engine_vars:
                 # TODO shape for variables that are supposed to be vectors, like wing
                 #      engine locations
-                params[var]['shape'] = (num_engine_type,)
-                params[var]['static_target'] = True
+                params[var] = {
+                    **params[var],
+                    'shape': (num_engine_type,),
+                    'static_target': True,
+                }
 
         return params
 
-- 
2.43.0


From ae045db95083088602054c78fd3cfdf9834ebcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 85/85] fix: ODEs no longer change the subsystem options they
 are given

---
 .../solved_two_dof/ode/unsteady_control_iter_group.py       | 2 +-
 aviary/mission/two_dof/ode/accel_ode.py                     | 6 +++++-
 aviary/mission/two_dof/ode/breguet_cruise_ode.py            | 4 ++--
 aviary/mission/two_dof/ode/flight_ode.py                    | 2 +-
 aviary/mission/two_dof/ode/simple_cruise_ode.py             | 2 +-
 5 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_control_iter_group.py b/aviary/mission/solved_two_dof/ode/unsteady_control_iter_group.py
index a669a75..e6b5c56 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_control_iter_group.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_control_iter_group.py
@@ -55,7 +55,7 @@ class UnsteadyControlIterGroup(om.Group):
         clean = self.options['clean']
         aviary_options = self.options['aviary_options']
         subsystems = self.options['subsystems']
-        subsystem_options = self.options['subsystem_options']
+        subsystem_options = self.options['subsystem_options'].copy()
         user_options = self.options['user_options']
 
         kwargs = {}
diff --git a/aviary/mission/two_dof/ode/accel_ode.py b/aviary/mission/two_dof/ode/accel_ode.py
index 29780dc..0284c7b 100644
--- a/aviary/mission/two_dof/ode/accel_ode.py
+++ b/aviary/mission/two_dof/ode/accel_ode.py
@@ -30,7 +30,11 @@ class AccelODE(TwoDOFODE):
             'method': 'cruise',
             'output_alpha': True,
         }
-        self.options['subsystem_options'].setdefault('aerodynamics', {}).update(kwargs)
+        subsystem_options = self.options['subsystem_options']
+        self.options['subsystem_options'] = {
+            **subsystem_options,
+            'aerodynamics': {**subsystem_options.get('aerodynamics', {}), **kwargs},
+        }
 
         self.add_subsystems()
 
diff --git a/aviary/mission/two_dof/ode/breguet_cruise_ode.py b/aviary/mission/two_dof/ode/breguet_cruise_ode.py
index de08a2a..0620748 100644
--- a/aviary/mission/two_dof/ode/breguet_cruise_ode.py
+++ b/aviary/mission/two_dof/ode/breguet_cruise_ode.py
@@ -43,7 +43,7 @@ class BreguetCruiseODE(TwoDOFODE):
             if isinstance(subsystem, AerodynamicsBuilder):
                 # set default options for Aero if not specified by user
                 base_kwargs = {'method': 'cruise', 'output_alpha': True}
-                kwargs.update(base_kwargs)
+                kwargs = {**kwargs, **base_kwargs}
 
             system = subsystem.build_mission(
                 num_nodes=nn,
@@ -196,7 +196,7 @@ class ElectricBreguetCruiseODE(TwoDOFODE):
             if isinstance(subsystem, AerodynamicsBuilder):
                 # set default options for Aero if not specified by user
                 base_kwargs = {'method': 'cruise', 'output_alpha': True}
-                kwargs.update(base_kwargs)
+                kwargs = {**kwargs, **base_kwargs}
 
             system = subsystem.build_mission(
                 num_nodes=nn,
diff --git a/aviary/mission/two_dof/ode/flight_ode.py b/aviary/mission/two_dof/ode/flight_ode.py
index ec10f9c..9a7d47a 100644
--- a/aviary/mission/two_dof/ode/flight_ode.py
+++ b/aviary/mission/two_dof/ode/flight_ode.py
@@ -183,7 +183,7 @@ class FlightODE(TwoDOFODE):
                 base_kwargs = {
                     'method': 'cruise',
                 }
-                kwargs.update(base_kwargs)
+                kwargs = {**kwargs, **base_kwargs}
 
             system = subsystem.build_mission(
                 num_nodes=nn,
diff --git a/aviary/mission/two_dof/ode/simple_cruise_ode.py b/aviary/mission/two_dof/ode/simple_cruise_ode.py
index 75c325f..3ce688c 100644
--- a/aviary/mission/two_dof/ode/simple_cruise_ode.py
+++ b/aviary/mission/two_dof/ode/simple_cruise_ode.py
@@ -42,7 +42,7 @@ class SimpleCruiseODE(TwoDOFODE):
             if isinstance(subsystem, AerodynamicsBuilder):
                 # set default options for Aero if not specified by user
                 base_kwargs = {'method': 'cruise', 'output_alpha': True}
-                kwargs.update(base_kwargs)
+                kwargs = {**kwargs, **base_kwargs}
 
             system = subsystem.build_mission(
                 num_nodes=nn,
-- 
2.43.0

