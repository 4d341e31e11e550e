From 926a24161641bef4fa79117158613413f0aa2359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:51 +0000
Subject: [PATCH 01/47] fix: flip_stars also swaps the donor label of double
 common envelopes

---
 posydon/utils/common_functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index d3e0a29..2153036 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1421,6 +1421,10 @@ def flip_stars(binary):
         setattr(binary, 'event', 'oCE2')
     elif event == 'oCE2':
         setattr(binary, 'event', 'oCE1')
+    if event == 'oDoubleCE1':
+        setattr(binary, 'event', 'oDoubleCE2')
+    elif event == 'oDoubleCE2':
+        setattr(binary, 'event', 'oDoubleCE1')
     if event == 'CC1':
         setattr(binary, 'event', 'CC2')
     elif event == 'CC2':
@@ -1446,6 +1450,10 @@ def flip_stars(binary):
     cond_oCE1 = event_history == 'oCE2'
     event_history[cond_oCE2] = 'oCE2'
     event_history[cond_oCE1] = 'oCE1'
+    cond_oDoubleCE2 = event_history == 'oDoubleCE1'
+    cond_oDoubleCE1 = event_history == 'oDoubleCE2'
+    event_history[cond_oDoubleCE2] = 'oDoubleCE2'
+    event_history[cond_oDoubleCE1] = 'oDoubleCE1'
     setattr(binary, 'event_history', event_history.tolist())
 
     for i in ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']:
-- 
2.43.0


From ab3cf354f0fa54895501347e9599d12dc45d0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:21 +0000
Subject: [PATCH 02/47] fix: Fryer+12-delayed remnant mass is defined for a CO
 core of exactly 11 Msun

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index a003984..fbdbd23 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1366,7 +1366,7 @@ class StepSN(object):
                 b = -11.0 * a + 1.0
                 f_fb = a * m_core + b
                 m_fb = f_fb * (m_collapsing - m_proto)
-            elif m_core > 11.0:
+            elif m_core >= 11.0:
                 f_fb = 1.0
                 m_fb = f_fb * (m_collapsing - m_proto)
             m_rembar = m_proto + m_fb
-- 
2.43.0


From 8eed65de753353006123355f42ec53c7f312ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:28 +0000
Subject: [PATCH 03/47] fix: support the documented direct_he_core collapse
 mechanism

---
 posydon/binary_evol/SN/step_SN.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index fbdbd23..d8652c2 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1378,6 +1378,12 @@ class StepSN(object):
             f_fb = 1.0
             state = None
 
+        # direct collapse of the He core and f_fb = 1. (no kicks)
+        elif self.mechanism == self.direct_collapse_hecore:
+            m_rembar = m_He_core
+            f_fb = 1.0
+            state = None
+
         # Collapse prescription from the results of
         # Sukhbold, T., Ertl, T., Woosley, S. E., Brown, J. M., & Janka, H. T. (2016). 821(1), 38.
         elif self.mechanism == self.Sukhbold16_engines:
-- 
2.43.0


From b5dfe329e1b39eb04ee974d432a4e65616261464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:35 +0000
Subject: [PATCH 04/47] fix: without kicks the orbit follows the mass loss of
 the star that collapses

---
 posydon/binary_evol/SN/step_SN.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index d8652c2..71960d4 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -487,16 +487,22 @@ class StepSN(object):
         else:
             # no kick, but still need to unset the event after CC
             # and update orbital period/separation
+            if binary.event == "CC1":
+                star_CC, star_comp = binary.star_1, binary.star_2
+            else:
+                star_CC, star_comp = binary.star_2, binary.star_1
             binary.event = None
             new_separation = separation_evol_wind_loss(
-                    binary.star_1.mass, binary.star_1.mass_history[-1],
-                    binary.star_2.mass, binary.separation)
+                    star_CC.mass, star_CC.mass_history[-1],
+                    star_comp.mass, binary.separation)
             new_orbital_period = orbital_period_from_separation(
                     new_separation, binary.star_1.mass, binary.star_2.mass)
 
             binary.separation = new_separation
             binary.orbital_period = new_orbital_period
-            binary.state = "detached"
+            if binary.state not in ["disrupted", "merged",
+                                    "initially_single_star"]:
+                binary.state = "detached"
 
         # Checks if the binary is not disrupted to compute the
         # inspiral time due to gravitational wave emission
-- 
2.43.0


From a2dd5c0c300851ebb2de88e72fbbb486b35925ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:35 +0000
Subject: [PATCH 05/47] fix: a white dwarf keeps the radius computed at its
 formation

---
 posydon/binary_evol/SN/step_SN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 71960d4..eb1526b 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -715,7 +715,7 @@ class StepSN(object):
                                 setattr(star, key, star.mass)
                             else:
                                 setattr(star, key, 0.)
-                        elif key not in ["state", "mass", "spin",
+                        elif key not in ["state", "mass", "spin", "log_R",
                                          "m_disk_accreted", "m_disk_radiated",
                                          "center_h1", "center_he4",
                                          "center_c12", "center_n14",
@@ -851,7 +851,7 @@ class StepSN(object):
                                 setattr(star, key, star.mass)
                             else:
                                 setattr(star, key, 0.)
-                        elif key not in ["state", "mass", "spin",
+                        elif key not in ["state", "mass", "spin", "log_R",
                                          "m_disk_accreted", "m_disk_radiated",
                                          "center_h1", "center_he4",
                                          "center_c12", "center_n14",
-- 
2.43.0


From 718ce0042e482b1c6532062d7e290688ecd2d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:36 +0000
Subject: [PATCH 06/47] fix: a double common envelope leaves the companion with
 its own core radius

---
 posydon/binary_evol/CE/step_CEE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index dcbcd7f..036dc5f 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -435,10 +435,10 @@ class StepCEE(object):
         else:
             if comp_type == 'He_core':
                 mc2_f = comp_star.he_core_mass
-                rc2_f = donor.he_core_radius
+                rc2_f = comp_star.he_core_radius
             elif comp_type == 'CO_core':
                 mc2_f = comp_star.co_core_mass
-                rc2_f = donor.co_core_radius
+                rc2_f = comp_star.co_core_radius
             elif comp_type == 'not_giant_companion':
                 mc2_f = comp_star.mass
                 rc2_f = 10.**(comp_star.log_R)
-- 
2.43.0


From 1fc5b50e453a9d100958a0d8488034826c92bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:48 +0000
Subject: [PATCH 07/47] fix: partial mass ejection of a merging common envelope
 with a single donor

---
 posydon/binary_evol/CE/step_CEE.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index 036dc5f..641b727 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1289,10 +1289,13 @@ class StepCEE(object):
         E_orb_released_to_inner_RLOF = alpha_CE * (E_orb_initial - E_orb_final)
 
         # We assume "lambda_from_profile_gravitational_plus_internal_minus_recombination"
+        M_envelope_donor = m1_i  - mc1_i
+        M_envelope_companion = m2_i - mc2_i
         if not double_CE:
             Mejected_donor = \
                 calculate_Mejected_for_integrated_binding_energy(donor.profile,
                     E_orb_released_to_inner_RLOF, mc1_i, rc1_i, m1_i, radius1)
+            Mejected_comp = 0.0
 
         else: # in double_CE
 
@@ -1300,8 +1303,6 @@ class StepCEE(object):
             # ejection of each (common) envelope is the same as the ratio of
             # the initial envelope masses:
 
-            M_envelope_donor = m1_i  - mc1_i
-            M_envelope_companion = m2_i - mc2_i
             weight = M_envelope_donor / (M_envelope_donor + M_envelope_companion)
 
             Eorb_for_partial_ej_donor = E_orb_released_to_inner_RLOF * weight
-- 
2.43.0


From aa94bd88819d7a8b52a97071467a3f6ce0d5afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 08/47] fix: a merger with a main-sequence star keeps the
 burning luminosities of the evolved star

---
 posydon/binary_evol/DT/step_merged.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 55e697d..38853d3 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -289,11 +289,12 @@ class MergedStep(IsolatedStep):
                 merged_star.mass = star_base.mass + comp.mass
 
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
+                log_LHe, log_LZ = star_base.log_LHe, star_base.log_LZ
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = star_base.log_LHe
-                merged_star.log_LZ = star_base.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)  # TODO for sure this needs testing!
 
                 massless_remnant = convert_star_to_massless_remnant(comp)
@@ -316,11 +317,12 @@ class MergedStep(IsolatedStep):
                 merged_star.mass = star_base.mass + comp.mass
 
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
+                log_LHe, log_LZ = comp.log_LHe, comp.log_LZ
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = comp.log_LHe
-                merged_star.log_LZ = comp.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)
 
                 massless_remnant = convert_star_to_massless_remnant(star_base)
-- 
2.43.0


From 3e6698be02fb740cb501c4d3e8e42667adfe9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 09/47] fix: surface abundances of merging helium stars are
 weighted with their masses before the merger

---
 posydon/binary_evol/DT/step_merged.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 38853d3..3c65a09 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -644,11 +644,6 @@ class MergedStep(IsolatedStep):
                 else:
                     Pwarn("Unexpected combination of CO core masses during merging", "EvolutionWarning")
 
-                # add total and core masses
-                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
-                    current = getattr(star_base, key) + getattr(comp, key)
-                    setattr(merged_star, key,current)
-
                 # weigheted mixing on the surface abundances based on the He-rich envelopes of the two stars
                 additional_parameter_to_mix = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14', 'surface_o16']
                 for abundance_name in additional_parameter_to_mix:
@@ -658,6 +653,11 @@ class MergedStep(IsolatedStep):
                                                                                 mass_weight1="He-rich_envelope_mass",
                                                                                 mass_weight2="He-rich_envelope_mass"))
 
+                # add total and core masses
+                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
+                    current = getattr(star_base, key) + getattr(comp, key)
+                    setattr(merged_star, key,current)
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
-- 
2.43.0


From 526cb36454306d9bee39e4de5ffb2c3a87f138a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:54 +0000
Subject: [PATCH 10/47] fix: symmetric mass ratio missing in the e^4
 post-Newtonian term of the orbital decay

---
 .../binary_evol/DT/gravitational_radiation/default_gravrad.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
index 2008332..47ab629 100644
--- a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
+++ b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
@@ -52,7 +52,7 @@ def default_gravrad(a, e, primary, secondary, verbose = False):
         - (1 / 28 * const.standard_cgrav * (m1 + m2) * const.msol
         / (a * const.rsol * const.clight ** 2))
         * ((14008 + 4707 * v)+(80124 + 21560 * v) * e ** 2
-        + (17325 + 10458) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
+        + (17325 + 10458 * v) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
         ) * const.secyer / const.rsol
     # eq. (35) of Junker et al. 1992, 254, 146
 
-- 
2.43.0


From 3af57ef4d1201d7ec89b4fe6de23c98bb1957402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:54 +0000
Subject: [PATCH 11/47] fix: M15 magnetic braking of a saturated primary used
 the solar rate in other units

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index ae1aa05..fac311a 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -183,7 +183,7 @@ def M15_braking(primary, secondary, verbose = False):
 
     if (Rossby_number_pri < 0.14):
         dOmega_mb_pri = (
-            T0_pri * (chi**2.6) * (omega1 / 2.6e-6) / MOI_1
+            T0_pri * (chi**2.6) * (omega1 / omega_sol) / MOI_1
             * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
         )
     else:
-- 
2.43.0


From ba1a928af44f6dc19417a08ba7ec2a55285c3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:54 +0000
Subject: [PATCH 12/47] fix: CARB magnetic braking of the primary was quenched
 by the mass of the secondary

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index fac311a..0900d8d 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -372,7 +372,7 @@ def CARB_braking(primary, secondary, verbose = False):
 
     dOmega_mb_pri = (
         (2./3.) * omega1 * mdot_1 * R_alfven_pri**2 / MOI_1
-        * np.clip((1.5 - m2) / (1.5 - 1.3), 0, 1)
+        * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
     )
 
     return -abs(dOmega_mb_sec), -abs(dOmega_mb_pri)
-- 
2.43.0


From 4633bd004d0667c667f76437356e0556ee55ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 13/47] fix: unknown magnetic braking mode crashed instead of
 warning and skipping it

---
 posydon/binary_evol/DT/step_detached.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 73907fd..af6a335 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -1383,7 +1383,7 @@ class detached_evolution:
 
         else:
             Pwarn("WARNING: Magnetic braking is not being calculated in the "
-                "detached step. The given magnetic_braking_mode string ",
+                "detached step. The given magnetic_braking_mode string "
                 f"'{self.magnetic_braking_mode}' does not match the available "
                 "built-in cases. To enable magnetic braking, please set "
                 "magnetc_braking_mode to one of the following strings: "
@@ -1391,6 +1391,7 @@ class detached_evolution:
                 "'G18' for Garraffo et al. 2018"
                 "'M15' for Matt et al. 2015"
                 "'CARB' for Van & Ivanova 2019", "UnsupportedModelWarning")
+            dOmega_mb_sec, dOmega_mb_pri = 0.0, 0.0
 
         #if self.verbose:
         #    print("magnetic_braking_mode = ", self.magnetic_braking_mode)
-- 
2.43.0


From 12d9d4a11ae0d1952c0f639b7fbca320804c29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:20 +0000
Subject: [PATCH 14/47] fix: detached history with fixed dt overshot the end of
 the step or failed for a large dt

---
 posydon/binary_evol/DT/step_detached.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index af6a335..2a686a1 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -552,9 +552,8 @@ class detached_step:
         """
 
         if self.dt is not None and self.dt > 0:
-            t = np.arange(binary.time, self.res.t[-1] + self.dt/2.0, self.dt)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            t = np.arange(binary.time, self.res.t[-1], self.dt)[1:]
+            t = np.hstack([t, self.res.t[-1]])
         elif (self.n_o_steps_history is not None
                 and self.n_o_steps_history > 0):
             t_step = (self.res.t[-1] - binary.time) / self.n_o_steps_history
-- 
2.43.0


From e75e28997f4f4197459fbb4478a06741c1c58e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:25 +0000
Subject: [PATCH 15/47] fix: detached step with stored intermediate times
 recorded the last time twice

---
 posydon/binary_evol/DT/step_detached.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 2a686a1..c0315f4 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -723,10 +723,10 @@ class detached_step:
                 setattr(obj, key, current)
 
                 # only update history if dt or n_o_steps_history is set
-                # such that history has more than one entry.
-                # Otherwise, this is updated later in BinaryStar.run_step()
+                # such that history has more than one entry. The last
+                # entry is added later in BinaryStar.run_step()
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
     def update_co_stars(self, t, primary, secondary):
 
@@ -770,7 +770,7 @@ class detached_step:
                 current = history[-1]
                 setattr(obj, key, current)
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
 class detached_evolution:
     """
-- 
2.43.0


From 06ad78d5195ce6909d782259a0c24103a26ad591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:32 +0000
Subject: [PATCH 16/47] fix: equal-mass secondaries are a copy of the primary
 masses

With secondary_mass_scheme='q=1' both arrays were the same object, so
removing the companion of a single star also erased its own mass.
---
 posydon/popsyn/independent_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 16dd4f1..63df154 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -371,7 +371,7 @@ def generate_secondary_masses(primary_masses,
         secondary_masses = primary_masses * mass_ratios
 
     if secondary_mass_scheme == 'q=1':
-        secondary_masses = primary_masses
+        secondary_masses = primary_masses.copy()
 
     return secondary_masses
 
-- 
2.43.0


From 143e2c2b6ee6d88721411c87a1cfc00655246223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:33 +0000
Subject: [PATCH 17/47] fix: do not change the default star-formation model for
 later calculations

calculate_cosmic_weights updated DEFAULT_SFH_MODEL in place, so a later call
inherited the options of the earlier one.
---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e1afb8..773b45b 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2082,10 +2082,10 @@ class TransientPopulation(Population):
         # Set model to DEFAULT or provided MODEL parameters
         # Allows for partial model specification
         if MODEL_in is None:
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
         else:
             # write the DEFAULT_SFH_MODEL with updated parameters to MODEL.
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
             MODEL.update(MODEL_in)
 
         path_in_file = (
-- 
2.43.0


From f6d91c5884317b811d2b590d97e6152c81c9011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:33 +0000
Subject: [PATCH 18/47] fix: draw one formation time per binary from a
 histogram of ages

---
 posydon/popsyn/star_formation_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index b962ff6..ca6c7d7 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -1110,7 +1110,7 @@ def get_formation_times(N_binaries, star_formation="constant", **kwargs): # prag
     if scenario in ["custom_linear_histogram", "custom_log10_histogram"]:
         custom_ages_file = kwargs.get("custom_ages_file")
         x, y = read_histogram_from_file(custom_ages_file)
-        current_binary_ages = histogram_sampler(x, y, rng=RNG)
+        current_binary_ages = histogram_sampler(x, y, size=N_binaries, rng=RNG)
         if "log10" in scenario:
             current_binary_ages = 10.0**current_binary_ages
         return max_time - current_binary_ages
-- 
2.43.0


From 098b2a41c5a91fb08857131fcbd6fb342408b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:56 +0000
Subject: [PATCH 19/47] fix: star formation per metallicity bin with limits
 outside all bins

A Z_max below the lowest edge left the first bin filled up to its upper edge
(or a negative last bin), and a Z_min above the highest edge raised an
IndexError.
---
 posydon/popsyn/star_formation_history.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index ca6c7d7..b67de82 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -194,8 +194,10 @@ class SFHBase(ABC):
                 Pwarn('Z_max is smaller than the highest metallicity bin.',
                       'SFHModelWarning')
                 # find the index of the last bin that is smaller than Z_max
-                last_bin_index = np.searchsorted(metallicity_bins, self.Z_max) - 1
-                fSFR[last_bin_index] = cdf_func(self.Z_max) - cdf_func(metallicity_bins[last_bin_index])
+                # (nothing is left in the bins if Z_max is below all of them)
+                last_bin_index = max(np.searchsorted(metallicity_bins, self.Z_max) - 1, 0)
+                fSFR[last_bin_index] = max(
+                    cdf_func(self.Z_max) - cdf_func(metallicity_bins[last_bin_index]), 0.0)
                 fSFR[last_bin_index + 1:] = 0.0
 
         if self.Z_min is not None:
@@ -205,9 +207,12 @@ class SFHBase(ABC):
                 Pwarn('Z_min is larger than the lowest metallicity bin.',
                       'SFHModelWarning')
                 # find the index of the first bin that is larger than Z_min
-                first_bin_index = np.searchsorted(metallicity_bins, self.Z_min) -1
+                # (nothing is left in the bins if Z_min is above all of them)
+                first_bin_index = min(np.searchsorted(metallicity_bins, self.Z_min) - 1,
+                                      len(fSFR) - 1)
                 fSFR[:first_bin_index] = 0.0
-                fSFR[first_bin_index] = cdf_func(metallicity_bins[first_bin_index+1]) - cdf_func(self.Z_min)
+                fSFR[first_bin_index] = max(
+                    cdf_func(metallicity_bins[first_bin_index+1]) - cdf_func(self.Z_min), 0.0)
 
         # Check if in the same bin
         if self.Z_max is not None and self.Z_min is not None:
-- 
2.43.0


From f846715d9701afbd621aaa85aea68f501f0522c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:56 +0000
Subject: [PATCH 20/47] fix: period density of a log-uniform separation lacked
 the factor a

The densities of the period schemes are per logarithmic interval; the change
of variables from the separation used PDF(a) in place of PDF(a) * a.
---
 posydon/popsyn/norm_pop.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index 915a95a..c1370c5 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -205,9 +205,10 @@ def get_period_pdf(kwargs):
             # PDF(P) = PDF(a) * |da/dP|
             # da/dP = (2/3) * (a/P)
             # PDF(P) = (2/3) * log_uniform(log_a)
-            period_pdf = lambda P, m1, q: separation_log_uniform.pdf(
-                orbital_separation_from_period(P, m1, q*m1)
-            ) * 2./3.
+            # where log_uniform(log_a) = PDF(a) * a
+            def period_pdf(P, m1, q):
+                a = orbital_separation_from_period(P, m1, q*m1)
+                return separation_log_uniform.pdf(a) * a * 2./3.
         else:
             raise ValueError("Orbital separation scheme not recognized")
     else:
-- 
2.43.0


From 7c4d5ea19451ed15631ef11c2bc15abc69dc8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 21/47] fix: HMS-HMS grid: minimum mass ratio of a flipped
 binary uses the wrong mass

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index bfaec1b..3cd83b0 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1330,7 +1330,7 @@ class MS_MS_step(MesaGridStep):
               state_2 == 'H-rich_Core_H_burning' and
               event == 'ZAMS' and
               self.m1_min <= m2 <= self.m1_max and
-              np.max([self.q_min, 0.5/m1]) <= 1./mass_ratio <= self.q_max and
+              np.max([self.q_min, 0.5/m2]) <= 1./mass_ratio <= self.q_max and
               self.p_min <= p <= self.p_max):
             self.flip_stars_before_step = True
             super().__call__(self.binary)
-- 
2.43.0


From e43caa5ad3836a380717346e3f8bb718a4079e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 22/47] fix: CO-HeMS grid: out-of-grid test ignored that the
 stars are flipped

---
 posydon/binary_evol/MESA/step_mesa.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 3cd83b0..acf9279 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1694,17 +1694,37 @@ class CO_HeMS_step(MesaGridStep):
             super().__call__(binary)
 
         # period inside the grid, but m1 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m1 < self.m1_min or m1 > self.m1_max):
+        elif (not self.flip_stars_before_step and
+              self.p_min <= p <= self.p_max and
+              (m1 < self.m1_min or m1 > self.m1_max)):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m1}) is outside the grid,'
                              ' while the period is inside the grid.')
 
         # period inside the grid, but m2 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m2 < self.m2_min or m2 > self.m2_max):
+        elif (not self.flip_stars_before_step and
+              self.p_min <= p <= self.p_max and
+              (m2 < self.m2_min or m2 > self.m2_max)):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m2}) is outside the grid,'
                              ' while the period is inside the grid.')
 
+        # period inside the grid, but m1 outside the grid with flipped stars
+        elif (self.flip_stars_before_step and
+              self.p_min <= p <= self.p_max and
+              (m1 < self.m2_min or m1 > self.m2_max)):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
+        # period inside the grid, but m2 outside the grid with flipped stars
+        elif (self.flip_stars_before_step and
+              self.p_min <= p <= self.p_max and
+              (m2 < self.m1_min or m2 > self.m1_max)):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
         else:
             self.binary.state = 'detached'
             self.binary.event = 'redirect_from_CO_HeMS'
-- 
2.43.0


From 20ea2f9b8d445e0b677ec010b6ad5353ba16c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 23/47] fix: CO-HeMS-RLO grid: and/or precedence in the
 out-of-grid tests of flipped stars

---
 posydon/binary_evol/MESA/step_mesa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index acf9279..25c9335 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1597,14 +1597,14 @@ class CO_HeMS_RLO_step(MesaGridStep):
         # period inside the grid, but m1 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                self.p_min <= p <= self.p_max and
-               m1 < self.m2_min or m1 > self.m2_max)):
+               (m1 < self.m2_min or m1 > self.m2_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
                                 ' while the period is inside the grid.')
         # period inside the grid, but m2 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                 self.p_min <= p <= self.p_max and
-                m2 < self.m1_min or m2 > self.m1_max)):
+                (m2 < self.m1_min or m2 > self.m1_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
                                 ' while the period is inside the grid.')
-- 
2.43.0


From 28cc9ea1edfab9fc93cb684302813f689ea2c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 24/47] fix: nearest-neighbour step without initial conditions
 or track raised UnboundLocalError

---
 posydon/binary_evol/MESA/step_mesa.py | 33 +++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 25c9335..edff868 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -509,23 +509,22 @@ class MesaGridStep:
         if binary.state == 'initial_RLOF':
             return
 
-        if track_interpolation or self.save_initial_conditions:
-            len_binary_hist = len(getattr(binary, "time_history"))
-            length_binary_hist = len(cb_bh['age']) - 1
-            length_star_hist = len(cb_hs[0]['center_he4']) - 1
-            length_hist = min(length_binary_hist, length_star_hist)
-            empty_h = [None] * length_hist
-            MESA_history_bug_fix = False
-            if length_binary_hist != length_star_hist:
-                MESA_history_bug_fix = True
-                Pwarn(
-                    'The MESA star_history and binary_history do not match: '
-                    'lenght %i != %i. This will cause errors, e.g. '
-                    'get_binary_state_and_event_and_mt_case take '
-                    'star.mdot_history - star.lg_wind_mdot. To '
-                    'avoid the code breaking, we append np.nan '
-                    'to the missing values.' %
-                    (length_binary_hist, length_star_hist), "ReplaceValueWarning")
+        len_binary_hist = len(getattr(binary, "time_history"))
+        length_binary_hist = len(cb_bh['age']) - 1
+        length_star_hist = len(cb_hs[0]['center_he4']) - 1
+        length_hist = min(length_binary_hist, length_star_hist)
+        empty_h = [None] * length_hist
+        MESA_history_bug_fix = False
+        if length_binary_hist != length_star_hist:
+            MESA_history_bug_fix = True
+            Pwarn(
+                'The MESA star_history and binary_history do not match: '
+                'lenght %i != %i. This will cause errors, e.g. '
+                'get_binary_state_and_event_and_mt_case take '
+                'star.mdot_history - star.lg_wind_mdot. To '
+                'avoid the code breaking, we append np.nan '
+                'to the missing values.' %
+                (length_binary_hist, length_star_hist), "ReplaceValueWarning")
 
         # update properties
         for key in BINARYPROPERTIES:
-- 
2.43.0


From 8154f53ddcbdde8433711e07d422bd9c0b94eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 25/47] fix: accretion history capped with the linear instead
 of the log10 Eddington rate

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index edff868..f35e6f6 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -846,7 +846,7 @@ class MesaGridStep:
                 history_of_attribute = np.log10(10**cb_bh[key_bh][:-1] + tmp_h)
                 history_of_attribute = [
                     y if x > y else x
-                    for x, y in zip(history_of_attribute, tmp_edd)]
+                    for x, y in zip(history_of_attribute, np.log10(tmp_edd))]
                 accretor.lg_mdot_history.extend(history_of_attribute)
 
         # update post processed quanties
-- 
2.43.0


From c5637dcc79b3529d2d19771d614b7248f013d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 26/47] fix: detectability used the mass of star 1 as primary
 mass when star 2 is heavier

---
 posydon/popsyn/transient_select_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index c3169e5..3a0d1d2 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -306,6 +306,9 @@ def DCO_detectability(sensitivity, transient_pop_chunk, z_events_chunk, z_weight
     if 'q' in transient_pop_chunk.columns:
         data_slice['q'] = transient_pop_chunk['q']
     else:
+        # the detection probability is given as function of the primary mass
+        data_slice['m1'] = np.maximum(transient_pop_chunk['S1_mass'],
+                                      transient_pop_chunk['S2_mass'])
         data_slice['q'] = mass_ratio(transient_pop_chunk['S1_mass'].to_numpy(),  transient_pop_chunk['S2_mass'].to_numpy())
 
     if 'chi_eff' in transient_pop_chunk.columns:
-- 
2.43.0


From a47fc903e7d080f9f84f02b48d189fd92f85e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 27/47] fix: transient selection failed on a chunk without any
 selected binary

---
 posydon/popsyn/synthetic_population.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 773b45b..fae1786 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1700,6 +1700,11 @@ class Population(PopulationIO):
 
             syn_df = func(history_chunk, oneline_chunk, formation_channels_chunk)
 
+            # nothing selected in this chunk
+            if len(syn_df) == 0 and len(syn_df.columns) == 0:
+                previous = end
+                continue
+
             # check if required columns are present
             if "time" not in syn_df.columns:
                 raise ValueError("Transient population requires a time column!")
-- 
2.43.0


From 5e362f1db73913e0d0f9c3182b61571833f7b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 28/47] fix: formation channels failed on a chunk in which no
 binary has a HMS-HMS class

---
 posydon/popsyn/synthetic_population.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index fae1786..919f7bd 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1493,11 +1493,10 @@ class Population(PopulationIO):
             events = self.history.select(start=previous, stop=end, columns=["event"])
 
             mask = pd.notna(interp_class_HMS_HMS["interp_class_HMS_HMS"].values)
-            interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"] = (
-                interp_class_HMS_HMS[mask]
-                .apply(lambda x: HMS_HMS_event_dict[x["interp_class_HMS_HMS"]], axis=1)
-                .values
-            )
+            interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"] = [
+                HMS_HMS_event_dict[x]
+                for x in interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"]
+            ]
             del mask
 
             previous = end
-- 
2.43.0


From bbaba9cddbc222868f0a90e9ec0a1422b2c6fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 29/47] fix: Pescalli+15 beaming failed when a burst has zero
 energy

---
 posydon/popsyn/GRB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/GRB.py b/posydon/popsyn/GRB.py
index dd0b3ab..8d6c33d 100644
--- a/posydon/popsyn/GRB.py
+++ b/posydon/popsyn/GRB.py
@@ -80,7 +80,7 @@ def get_GRB_properties(df, GRB_efficiency, GRB_beaming, E_GRB_iso_min=0.):
                 t=25.
                 C = (7e46)**xi
                 fb = np.ones(len(E))
-                fb[E>0.] = (C*(eta*E[E>0.]/t)**(-xi))**(1./(1-xi))
+                fb[E>0.] = (C*(eta[E>0.]*E[E>0.]/t)**(-xi))**(1./(1-xi))
                 return fb
             E = df.loc[sel,f'S{i}_E_GRB']
             eta = df.loc[sel,f'S{i}_eta']
-- 
2.43.0


From 5dabb87ef10344567f38412b4c15ec64f14d270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:21 +0000
Subject: [PATCH 30/47] fix: stopping a track at its last time raised an
 IndexError

---
 posydon/binary_evol/MESA/step_mesa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index f35e6f6..53b5eed 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1129,7 +1129,8 @@ class MesaGridStep:
             if property != 'time':
                 raise ValueError('We currently support stop_at_conditon '
                                  'interpolation only for property=time!')
-            # interpolate between i and i+1
+            # interpolate between i and i+1, also if the last entry is reached
+            i = min(i, len(property_history) - 2)
             interpolated_quanties = {}
             interpolated_quanties['binary'] = {}
             interpolated_quanties['star_1'] = {}
-- 
2.43.0


From b48c9ed3d3a3bf5a870ec6e32ddb4e4048f9f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:17 +0000
Subject: [PATCH 31/47] fix: setting up an interpolator removed constraints of
 later interpolators

---
 posydon/interpolation/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 45fbf75..88a6b98 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -436,7 +436,8 @@ def find_constraints_to_apply(out_keys):
             if len(new_fields) == 0:
                 should_apply = False
             else:
-                constraint["fields"] = new_fields
+                # do not change the constraints of other interpolators
+                constraint = {**constraint, "fields": new_fields}
 
         elif constraint["type"] == 3:
 
-- 
2.43.0


From 91d1a7596d72d4699967447612ea5d2f6c8edfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:38 +0000
Subject: [PATCH 32/47] fix: convective-region constraint failed for lines
 vertical or parallel to an edge

---
 posydon/interpolation/constraints.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 88a6b98..020654d 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -196,20 +196,19 @@ def get_thickness_n_radius(fv_dict, constraint, keys):
             fv_dict[keys[2]] = 0.5 * R
             fv_dict[keys[1]] = R
         else:
-            slope = ((r - centroid[1])/(t - centroid[0]))
-
-            coeff_mat_one = np.array([[-1, slope],
-                                      [1, -0.5]])
-
-            dep_vec_one = np.array([-centroid[1] + slope * centroid[0], 0])
-
-            coeff_mat_two = np.array([[-1, slope],
-                                      [1, 0.5]])
-
-            dep_vec_two = np.array([-centroid[1] + slope * centroid[0], R])
-
-            inters = [np.linalg.solve(coeff_mat_one, dep_vec_one),
-                      np.linalg.solve(coeff_mat_two, dep_vec_two)]
+            # direction of the line to the centroid (it may be vertical)
+            dr, dt = r - centroid[1], t - centroid[0]
+
+            inters = []
+            # edges: r - t / 2 = 0 and r + t / 2 = R
+            for coeff, edge in [(-0.5, 0.0), (0.5, R)]:
+                if dr + coeff * dt == 0:    # parallel to the edge
+                    continue
+                coeff_mat = np.array([[-dt, dr],
+                                      [1, coeff]])
+                dep_vec = np.array([-dt * centroid[1] + dr * centroid[0],
+                                    edge])
+                inters.append(np.linalg.solve(coeff_mat, dep_vec))
 
             valid_inters = [inter for inter in inters
                             if inter[1] > 0
-- 
2.43.0


From 73050d1efcd1a0e2f567cd870dbc5e2929f67345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:38 +0000
Subject: [PATCH 33/47] fix: values interpolated without classes were not
 scaled back

---
 posydon/interpolation/IF_interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 407e43a..7b8ba87 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -700,7 +700,9 @@ class BaseIFInterpolator:
             Ypredn = self.interpolator.predict(Xtn, classes, self.X_scaler)
         else:
             Xtn = self.X_scaler.normalize(Xt)
-            Ypredn = self.interpolator.predict(Xtn)
+            Ypredn = self.interpolator.predict(Xtn, scaler=self.X_scaler)
+            # there is one common scaling for all classes
+            classes = None
 
         Ypredn = np.array([
             list(sanitize_interpolated_quantities(
-- 
2.43.0


From cff77b8df1ec556a52893972dc088762b2fd7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 34/47] fix: linear interpolation out of hull failed without a
 scaler

---
 posydon/interpolation/IF_interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 7b8ba87..6231db1 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -1197,8 +1197,11 @@ class LinInterpolator(Interpolator):
             dists, _ = self.interpolator[1].kneighbors(Xt[wnan, :])
             max_distance = dists.argmax() # only finding information for furthest nearest neighbor
 
-            neighbors = scaler.denormalize(self.interpolator[1]._tree.data.base) # unnormalizing
-            max_distance_point = scaler.denormalize(Xt[[max_distance]])
+            neighbors = self.interpolator[1]._tree.data.base
+            max_distance_point = Xt[[max_distance]]
+            if scaler is not None: # unnormalizing
+                neighbors = scaler.denormalize(neighbors)
+                max_distance_point = scaler.denormalize(max_distance_point)
 
             nearest_neighbor = np.sum(np.square(neighbors - max_distance_point), axis = 1)
             nearest_neighbor = nearest_neighbor.argsort()[0]
-- 
2.43.0


From 638e41a39017060251462dd2c2290a0b83953df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 35/47] fix: period of a binary read from a table was never
 derived from its separation

---
 posydon/binary_evol/binarystar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d89f12d..c9e2f2f 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -681,9 +681,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -909,9 +909,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
-- 
2.43.0


From e29323c3aa662d0ed03922aee7eb1e949c1f5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 36/47] fix: initial values of columns with _i in their name
 were lost when read back

---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index c9e2f2f..2b07324 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -824,7 +824,7 @@ class BinaryStar:
         for name in list(oneline_df.columns):
             if '_f' in name[-2:]:
                 continue    # ignore final values
-            param_name = name.split('_i')[0]
+            param_name = name[:-2] if name.endswith('_i') else name
 
             special_cases = ['natal_kick_array']
             if any([i in param_name for i in special_cases]):
-- 
2.43.0


From 8b794444c0b0347852fbb5b9d4d1cd94b137c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 37/47] fix: reading a binary with natal kick arrays back from
 its oneline table failed

---
 posydon/binary_evol/binarystar.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 2b07324..53e61a2 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -865,20 +865,20 @@ class BinaryStar:
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star1_params['natal_kick_velocity'] = natal_kick_values[0]
-            star1_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star1_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star1_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star1_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star1_params['natal_kick_azimuthal_angle'] = [natal_kick_values[1]]
+            star1_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star1_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if any(['S2_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S2_natal_kick_array_{}'.format(i)
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star2_params['natal_kick_velocity'] = natal_kick_values[0]
-            star2_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star2_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star2_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star2_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star2_params['natal_kick_azimuthal_angle'] = [natal_kick_values[1]]
+            star2_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star2_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if ('binary_index' in oneline_df.index.name
                 and not kwargs.get('index', None)):
-- 
2.43.0


From 7feb9b03f5c95fd648cfefdab2d7af6fcd0cde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 38/47] fix: reading a binary ignored the index 0 and failed on
 an unnamed index

---
 posydon/binary_evol/binarystar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 53e61a2..998f32d 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -652,8 +652,8 @@ class BinaryStar:
         assert len(set(hist_lengths)) == 1
         history_length = set(hist_lengths).pop()
 
-        if ('binary_index' in dataframe.index.name
-                and not kwargs.get('index', False)):
+        if ('binary_index' in (dataframe.index.name or '')
+                and kwargs.get('index') is None):
             binary_index = set(dataframe.index).pop()
         else:
             binary_index = kwargs.get('index', None)
@@ -880,8 +880,8 @@ class BinaryStar:
             star2_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
             star2_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
-        if ('binary_index' in oneline_df.index.name
-                and not kwargs.get('index', None)):
+        if ('binary_index' in (oneline_df.index.name or '')
+                and kwargs.get('index') is None):
             binary_index = set(oneline_df.index).pop()
         else:
             binary_index = kwargs.get('index', None)
-- 
2.43.0


From fa0048649a2fb13929ee12368681c0da2eaa9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 39/47] fix: writing a binary to a table padded its histories
 in place

---
 posydon/binary_evol/binarystar.py | 3 ++-
 posydon/binary_evol/singlestar.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 998f32d..56d0794 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -515,7 +515,8 @@ class BinaryStar:
                             + extra_columns)
 
         try:
-            data_to_save = [getattr(self, key) for key in keys_to_save[1:]]
+            data_to_save = [list(getattr(self, key))
+                            for key in keys_to_save[1:]]
             col_lengths = [len(x) for x in data_to_save]
             max_col_length = np.max(col_lengths)
 
diff --git a/posydon/binary_evol/singlestar.py b/posydon/binary_evol/singlestar.py
index 9c84997..6ecf7ce 100644
--- a/posydon/binary_evol/singlestar.py
+++ b/posydon/binary_evol/singlestar.py
@@ -475,7 +475,7 @@ class SingleStar:
                             + extra_columns)
         try:
             # shape of data_to_save (history columns , time steps)
-            data_to_save = [getattr(self, key) for key in keys_to_save]
+            data_to_save = [list(getattr(self, key)) for key in keys_to_save]
 
 
             col_lengths = [len(x) for x in data_to_save]
-- 
2.43.0


From 88750534ab13e291174adb98a10d11337ee22fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 40/47] fix: oneline columns with _i or _f in their name got
 the wrong type

---
 posydon/popsyn/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 810b6cc..d8948c6 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -318,8 +318,8 @@ def clean_binary_oneline_df(oneline_df, extra_binary_dtypes_user=None,
     # Create a dict with column-dtype mapping only for columns in binary_df
     common_dtype_dict = {}
     # helper function to remove the '_i' and '_f'
-    strip_prefix_and_suffix = lambda key : key.replace('_i', '').replace('_f', '') \
-                                             .replace('S1_', '').replace('S2_', '')
+    strip_prefix_and_suffix = lambda key : key[:-2].replace('S1_', '') \
+                                                   .replace('S2_', '')
     for key in common_keys:
         if key in scalar_keys:
             common_dtype_dict[key] = SCALAR_NAMES_DTYPES.get(
-- 
2.43.0


From 8a5721f8e8fb17c34f5d20be59d90df651563fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:28 +0000
Subject: [PATCH 41/47] fix: padding of short history columns never found the
 type of the column

---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 56d0794..0c504b1 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -461,7 +461,7 @@ class BinaryStar:
             """
             for i, col in enumerate(data_to_save):
 
-                dkey = all_keys[i]
+                dkey = all_keys[i].split('_history')[0]
                 dtype = properties_dtypes.get(dkey, '')
 
                 # check type of data and determine what to fill data column with
-- 
2.43.0


From b17c95bee6d13bdda84c867d5addf884e869242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:46 +0000
Subject: [PATCH 42/47] fix: a rank without any binary to evolve failed when
 combining its files

---
 posydon/popsyn/binarypopulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index e3a4600..2bb1601 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -341,6 +341,10 @@ class BinaryPopulation:
                 except FileExistsError:
                     pass
 
+        # nothing to evolve nor to save, e.g. on more ranks than binaries
+        if len(indices) == 0:
+            return
+
         filenames = []
 
         for j, index in enumerate(indices_for_iter):
-- 
2.43.0


From 27bdbc1b515e72e7c44b7d2aa7732cea73a5ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:07 +0000
Subject: [PATCH 43/47] fix: files that could not be merged were removed,
 losing their binaries

---
 posydon/popsyn/binarypopulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 2bb1601..2874072 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -560,17 +560,18 @@ class BinaryPopulation:
             simulated_mass_single = 0.0
             simulated_mass_binaries = 0.0
             number_of_systems=0
+            merged_files = []
 
             for f in file_names:
                 # strings itemsize set by first append max value,
                 # which may not be largest string
                 try:
                     history = pd.read_hdf(f, key='history')
+                    oneline = pd.read_hdf(f, key='oneline')
+
                     store.append('history', history,
                                  min_itemsize=history_min_itemsize)
 
-                    oneline = pd.read_hdf(f, key='oneline')
-
                     # split weight between single and binary stars
                     init_step_mask = ~history.index.duplicated(keep="first")  # indices that are NOT duplicates of the first
                     singles_mask = history["state"] == "initially_single_star"
@@ -589,6 +590,7 @@ class BinaryPopulation:
 
                     store.append('oneline', oneline,
                                  min_itemsize=oneline_min_itemsize)
+                    merged_files.append(f)
 
                 except Exception:
                     print(traceback.format_exc(), flush=True)
@@ -612,7 +614,7 @@ class BinaryPopulation:
             store.append('mass_per_metallicity', tmp_df)
 
         # only remove the files once they've been written to the new file
-        for f in file_names:
+        for f in merged_files:
             os.remove(f)
 
     def close(self):
-- 
2.43.0


From 5f2b808cf0fc358026eff5448e00591c80cc511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:07 +0000
Subject: [PATCH 44/47] fix: appending a list of binaries nested their indices,
 so removing them failed

---
 posydon/popsyn/binarypopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 2874072..4681461 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -682,7 +682,7 @@ class PopulationManager:
     def append(self, binary):
         """Add a binary instance internaly."""
         if isinstance(binary, (list, np.ndarray)):
-            self.indices.append([b.index for b in binary])
+            self.indices.extend([b.index for b in binary])
             self.binaries.extend(list(binary))
         elif isinstance(binary, BinaryStar):
             self.indices.append(binary.index)
-- 
2.43.0


From 68c844f6608d5c193261293ad1fc5cb9106dd651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:07 +0000
Subject: [PATCH 45/47] fix: saving a population to a directory did not use the
 announced file

---
 posydon/popsyn/binarypopulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 4681461..40769bd 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -518,6 +518,7 @@ class BinaryPopulation:
                 file_path = os.path.join(dir_name, file_name)
                 Pwarn('The provided path is a directory - saving '
                               'to {0} instead.'.format(file_path), "ReplaceValueWarning")
+                absolute_filepath = file_path
 
             self.combine_saved_files(absolute_filepath, tmp_files, **kwargs)
 
-- 
2.43.0


From 2c893812bc873c785102a4c160204d9f222bfabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:07 +0000
Subject: [PATCH 46/47] fix: history mask was shifted by one row per chunk
 instead of one chunk

---
 posydon/popsyn/synthetic_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 919f7bd..2822905 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -482,7 +482,8 @@ class History(DFInterface):
                 iterator = store.select("history", chunksize=self.chunksize)
                 out = []
                 for i, chunk in enumerate(iterator):
-                    out.append(chunk[key[i : i + self.chunksize]])
+                    start = i * self.chunksize
+                    out.append(chunk[key[start : start + self.chunksize]])
                 return pd.concat(out, axis=0)
 
         # single column
-- 
2.43.0


From 59adacd1e73d9107eecb2f7fcf1391d8e35b147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:07 +0000
Subject: [PATCH 47/47] fix: exporting a selection changed the number of
 systems of the population

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 2822905..4a05d02 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1371,14 +1371,14 @@ class Population(PopulationIO):
 
             # write mass_per_metallicity
             if "/mass_per_metallicity" in store.keys():
-                self_mass = self.mass_per_metallicity
+                self_mass = self.mass_per_metallicity.copy()
                 self_mass["number_of_systems"] = len(selection)
                 tmp_df = pd.concat([store["mass_per_metallicity"], self_mass])
                 mass_per_metallicity = tmp_df.groupby(tmp_df.index).sum()
                 store.put("mass_per_metallicity", mass_per_metallicity)
 
             else:
-                self_mass = self.mass_per_metallicity
+                self_mass = self.mass_per_metallicity.copy()
                 self_mass["number_of_systems"] = len(selection)
                 store.put("mass_per_metallicity", self_mass)
 
-- 
2.43.0

