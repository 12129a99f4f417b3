From a97c6fa44022641a3add2c1f6f634016d183aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 01/65] fix: adjusted roughness influence factor interpolates
 in gamma_b*ksi and stays 1.0 beyond 10

---
 .../functions/hydraulic/wave_runup/taw2002.py              | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 952a73b..804921a 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -824,10 +824,7 @@ def calculate_adjusted_influence_roughness_gamma_f(
         The adjusted influence factor for surface roughness gamma_f (-)
     """
 
-    gamma_f_adj = np.where(
-        (gamma_b * ksi_mm10 >= 1.8) & (gamma_b * ksi_mm10 <= 10.0),
-        ((ksi_mm10 - 1.8) * (1 - gamma_f) / (10.0 - 1.8)) + gamma_f,
-        gamma_f,
-    )
+    gamma_b_ksi = np.clip(gamma_b * ksi_mm10, 1.8, 10.0)
+    gamma_f_adj = ((gamma_b_ksi - 1.8) * (1 - gamma_f) / (10.0 - 1.8)) + gamma_f
 
     return gamma_f_adj
-- 
2.43.0


From d1a01122fe70baa7244f86a2181c2592085c44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:41 +0000
Subject: [PATCH 02/65] fix: TAW runup on a single slope no longer requires
 gamma_b

---
 .../functions/hydraulic/wave_runup/taw2002.py                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 804921a..b49baaa 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -300,6 +300,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
     if np.isnan(gamma_b):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
+            cot_alpha=cot_alpha,
             cot_alpha_down=cot_alpha_down,
             cot_alpha_up=cot_alpha_up,
             B_berm=B_berm,
-- 
2.43.0


From 98082d2e8da3b9be56b0f47cb25110d464017905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:41 +0000
Subject: [PATCH 03/65] fix: EurOtop 2018 runup honours a supplied gamma_beta

---
 .../functions/hydraulic/wave_runup/eurotop2018.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index b2caa1e..6012533 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -179,10 +179,11 @@ def calculate_dimensionless_wave_runup_height_z2p(
         c1=c1, c2=c2, c3=c3, c4=c4, use_best_fit=use_best_fit
     )
 
-    gamma_beta = calculate_influence_oblique_waves_gamma_beta(
-        beta=beta,
-        gamma_f=gamma_f,
-    )
+    if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
+        gamma_beta = calculate_influence_oblique_waves_gamma_beta(
+            beta=beta,
+            gamma_f=gamma_f,
+        )
 
     z2p_diml, max_reached = (
         wave_runup_taw2002.calculate_dimensionless_wave_runup_height_z2p(
-- 
2.43.0


From 79a2314c68c429fb705b2c659d53664591e74888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:41 +0000
Subject: [PATCH 04/65] fix: Van Gent (2001) z2% accepts arrays of wave heights

---
 .../functions/hydraulic/wave_runup/vangent2001.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
index bbafab7..81f5a0e 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
@@ -104,10 +104,12 @@ def calculate_wave_runup_height_z2p(
         Raise an error when both or neither Hm0 and Hs are provided.
     """
 
-    if (np.isnan(Hm0) and np.isnan(Hs)) or (not np.isnan(Hs) and not np.isnan(Hm0)):
+    is_nan_Hm0 = np.all(np.isnan(Hm0))
+    is_nan_Hs = np.all(np.isnan(Hs))
+    if is_nan_Hm0 == is_nan_Hs:
         raise ValueError("Either Hm0 or Hs should be provided")
 
-    if np.isnan(Hs) and not np.isnan(Hm0):
+    if is_nan_Hs:
         # Use coefficients for Hm0 instead of Hs
         c0 = 1.45
         c1 = 3.8
-- 
2.43.0


From ad0c43c52ca969d3952ff8a6128f5df886e301ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:09 +0000
Subject: [PATCH 05/65] fix: local wavelength is computed per element for every
 scalar/array combination of T, h and g

---
 .../functions/core_physics.py                 | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_physics.py b/deltares_coastal_structures_toolbox/functions/core_physics.py
index d6e7737..2b5c071 100644
--- a/deltares_coastal_structures_toolbox/functions/core_physics.py
+++ b/deltares_coastal_structures_toolbox/functions/core_physics.py
@@ -394,17 +394,14 @@ def calculate_local_wavelength(
     """
 
     # implementation of disper handles arrays for T, but not for h, hence this implementation
-    if isinstance(h, (float, int)):
-        k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)[0]
-    elif len(h) > 1 and isinstance(T, float):
-        k = np.array([])
-        for hsub in h:
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / T), h=hsub, g=g))
-    elif len(h) > 1 and len(h) == len(T):
-        k = np.array([])
-        for hsub, Tsub in zip(h, T):
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=g))
-
-    L = (2 * np.pi) / k
+    Tb, hb, gb = np.broadcast_arrays(T, h, g)
+    k = np.array(
+        [
+            dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=gsub)[0]
+            for Tsub, hsub, gsub in zip(Tb.ravel(), hb.ravel(), gb.ravel())
+        ]
+    ).reshape(Tb.shape)
+
+    L = (2 * np.pi) / k[()]
 
     return L
-- 
2.43.0


From 53822e45744bcc2bf3bfa3d13e1abcb305513a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:09 +0000
Subject: [PATCH 06/65] fix: validity range check accepts numpy scalars and
 arrays of any shape

---
 .../functions/core_utility.py                               | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_utility.py b/deltares_coastal_structures_toolbox/functions/core_utility.py
index 3d02426..82189bb 100644
--- a/deltares_coastal_structures_toolbox/functions/core_utility.py
+++ b/deltares_coastal_structures_toolbox/functions/core_utility.py
@@ -32,11 +32,7 @@ def check_variable_validity_range(
         A boolean with True if the value is within the validity range, False otherwise.
     """
 
-    if isinstance(values, np.ndarray):
-        values = values.tolist()
-
-    if isinstance(values, (int, float)):
-        values = [values]
+    values = np.ravel(values).tolist()
 
     is_valid = []
     for value in values:
-- 
2.43.0


From bd0a271cd97b92ab93f25c229a491168c51aa5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:09 +0000
Subject: [PATCH 07/65] fix: TAW overtopping with sigma and design coefficients
 warns instead of crashing

---
 .../hydraulic/wave_overtopping/taw2002.py          | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 11bf436..e071e04 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -294,10 +294,9 @@ def calculate_dimensionless_overtopping_discharge_q(
         c1 = 4.3
         c3 = 2.3
 
-    if sigma == 0:
-        cor1 = 0
-        cor3 = 0
-    else:
+    cor1 = 0
+    cor3 = 0
+    if sigma != 0:
         if use_best_fit:
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
@@ -666,10 +665,9 @@ def calculate_dimensionless_crest_freeboard(
         c1 = 4.3
         c3 = 2.3
 
-    if sigma == 0:
-        cor1 = 0
-        cor3 = 0
-    else:
+    cor1 = 0
+    cor3 = 0
+    if sigma != 0:
         if use_best_fit:
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
-- 
2.43.0


From 6c9d76218ef184213056c02b55e7c46c75aafb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:09 +0000
Subject: [PATCH 08/65] fix: TAW crest freeboard passes g to the maximum
 equation

---
 .../functions/hydraulic/wave_overtopping/taw2002.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index e071e04..9a4c47b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -751,7 +751,13 @@ def calculate_dimensionless_crest_freeboard(
     )
 
     Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
+        Hm0=Hm0,
+        q=q,
+        c3=c3,
+        cor3=cor3,
+        gamma_beta=gamma_beta,
+        gamma_f=gamma_f_adj,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-- 
2.43.0


From a598ada4d8b30ac4f8a34f52602dba1cf2d60ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 09/65] fix: EurOtop 2018 overtopping honours a supplied
 gamma_b

---
 .../hydraulic/wave_overtopping/eurotop2018.py | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 1a0efa3..8f3a9c8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,24 +265,25 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
@@ -678,24 +679,25 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
-- 
2.43.0


From 9a8c7db987dde19b8f2523b7bfd04589ff293843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 10/65] fix: EurOtop 2018 maximum discharge uses the adjusted
 roughness factor, as the crest freeboard does

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 8f3a9c8..7900de4 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -307,7 +307,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0,
         Rc=Rc,
         gamma_beta=gamma_beta,
-        gamma_f=gamma_f,
+        gamma_f=gamma_f_adj,
         gamma_star=gamma_star,
         c2=c2,
         c3=c3,
-- 
2.43.0


From 2b6e1f115248e2f1b5f920b94b5664d5a90089fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 11/65] fix: EurOtop 2018 crest freeboard passes use_best_fit
 to the average slope iteration, as the discharge does

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 7900de4..984c75d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -664,6 +664,7 @@ def calculate_dimensionless_crest_freeboard(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
@@ -1181,6 +1182,7 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
-- 
2.43.0


From b014cd2f34b741a0f5b8bc37caedd72f03a37540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:06 +0000
Subject: [PATCH 12/65] fix: Van Gent (2021) without crossing seas does not
 depend on Hm0_swell

---
 .../functions/hydraulic/wave_overtopping/vangent2021_caisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index a7315c2..48e6ebc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -201,6 +201,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
@@ -400,6 +401,7 @@ def calculate_dimensionless_crest_freeboard(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
-- 
2.43.0


From fa77e6d72d7376e24d41a199a2e3e5cf713b2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 13/65] fix: De Ridder (2024) eq. 24 crest freeboard passes g
 on

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index 27560fe..d8a3fdc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -147,6 +147,7 @@ def calculate_crest_freeboard_discharge_q_eq24(
         smm10_HF=smm10_HF,
         gamma_f=gamma_f,
         q=q,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 72d82b76b477b8434524105c5556c0c36a6eb475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 14/65] fix: De Ridder (2024) calculations check the validity
 range of the short wave steepness

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index d8a3fdc..0232024 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -198,6 +198,7 @@ def calculate_crest_freeboard_discharge_q_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
@@ -246,6 +247,7 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc_diml * Hm0,
     )
@@ -369,6 +371,7 @@ def calculate_dimensionless_overtopping_discharge_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
     )
@@ -414,6 +417,7 @@ def calculate_dimensionless_overtopping_discharge_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From 983835f5e83b616cb1301b54d556ef5f4abd3b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 15/65] fix: De Ridder (2026) discharges check the validity
 range of the short wave steepness

---
 .../functions/hydraulic/wave_overtopping/deridder2026.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index b1086c8..806b2c3 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -351,6 +351,7 @@ def calculate_dimensionless_overtopping_discharge_eq28(
     )
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         theta=theta,
@@ -420,6 +421,7 @@ def calculate_dimensionless_overtopping_discharge_eq32(
 
     check_validity_range(
         Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From 8948affddd26c380f96ceb701f2aab9b57071c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 16/65] fix: De Ridder (2026) crest freeboards check the
 validity range

---
 .../wave_overtopping/deridder2026.py          | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index 806b2c3..ee90e26 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -134,6 +134,8 @@ def calculate_crest_freeboard_discharge_q_eq28(
         gamma_beta=gamma_beta,
     )
 
+    check_validity_range(theta=theta)
+
     Rc = Rc_diml * Hm0
 
     return Rc
@@ -183,6 +185,15 @@ def calculate_crest_freeboard_discharge_q_eq32(
         * Hm0_HF
     ) + 0.97 * Hm0_LF
 
+    check_validity_range(
+        Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
+        Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
+        Rc=Rc,
+        Hm0_LF=Hm0_LF,
+        theta=theta,
+    )
+
     return Rc
 
 
@@ -226,6 +237,14 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq28(
         * gamma_f
         * gamma_beta
     )
+
+    check_validity_range(
+        Hm0=Hm0,
+        Hm0_HF=Hm0,
+        Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
+        Rc=Rc_diml * Hm0,
+    )
+
     return Rc_diml
 
 
-- 
2.43.0


From 126a9655074d6327d117ea1113b0ed3a99d55ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:27 +0000
Subject: [PATCH 17/65] fix: Van Gent (2025) crest freeboard is the inverse of
 the discharge also for design calculations, wind and the maximum

---
 .../hydraulic/wave_overtopping/vangent2025.py | 88 ++++++++-----------
 1 file changed, 39 insertions(+), 49 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 307cbb6..9d292de 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -876,59 +876,49 @@ def calculate_dimensionless_crest_freeboard(
     if design_calculation:
         q_diml = np.power(q_diml, 1.0 / 0.857)
 
-    Rc_diml = (
-        np.log((1.0 / 6.8) * cot_alpha * q_diml)
-        * (-1.0 / 5.0)
-        * gamma_f
-        * gamma_b
-        * gamma_v
-        * gamma_beta
-        * ksi_mm10
-        + 0.4 * Hm0_swell / Hm0
-    )
-
-    if include_influence_wind:
-        Rc_diff = np.inf
-        n_iter = 0
-        while np.max(Rc_diff) > tolerance and n_iter < max_iter:
-            n_iter += 1
-
-            gamma_w = calculate_influence_wind_gamma_w(
-                Rc=Rc_diml * Hm0,
-                Ac=Ac,
-                Hm0=Hm0,
-                q_diml=q_diml,
-            )
-            q_diml_iter = q_diml / gamma_w
-
-            Rc_diml_prev = Rc_diml
+    gamma_w = 1.0
+    Rc_diml = np.inf
+    Rc_diff = np.inf
+    n_iter = 0
+    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+        n_iter += 1
+
+        q_diml_iter = q_diml / gamma_w
+        Rc_diml_prev = Rc_diml
+
+        Rc_diml_eqB1 = (
+            np.log((1.0 / 6.8) * cot_alpha * q_diml_iter)
+            * (-1.0 / 5.0)
+            * gamma_f
+            * gamma_b
+            * gamma_v
+            * gamma_beta
+            * ksi_mm10
+        ) + 0.4 * Hm0_swell / Hm0
+
+        Rc_diml_max = Rc_diml_max_equation(
+            Hm0=Hm0,
+            Hm0_swell=Hm0_swell,
+            q=q_diml_iter * np.sqrt(g * Hm0**3),
+            cot_alpha=cot_alpha,
+            ksi_mm10=ksi_mm10,
+            gamma_f=gamma_f,
+            gamma_b=gamma_b,
+            gamma_v=gamma_v,
+            gamma_beta=gamma_beta,
+            g=g,
+        )
 
-            Rc_diml = (
-                np.log((1.0 / 6.8) * cot_alpha * q_diml_iter)
-                * (-1.0 / 5.0)
-                * gamma_f
-                * gamma_b
-                * gamma_v
-                * gamma_beta
-                * ksi_mm10
-                + 0.4 * Hm0_swell / Hm0
-            )
+        Rc_diml = np.min([Rc_diml_eqB1, Rc_diml_max], axis=0)
 
-            Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
+        if not include_influence_wind:
+            break
 
-    Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0,
-        Hm0_swell=Hm0_swell,
-        q=q,
-        cot_alpha=cot_alpha,
-        ksi_mm10=ksi_mm10,
-        gamma_f=gamma_f,
-        gamma_b=gamma_b,
-        gamma_v=gamma_v,
-        gamma_beta=gamma_beta,
-    )
+        gamma_w = calculate_influence_wind_gamma_w(
+            Rc=Rc_diml * Hm0, Ac=Ac, Hm0=Hm0, q_diml=q_diml_iter
+        )
+        Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
 
-    Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
     max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
 
     check_validity_range(
-- 
2.43.0


From e041a4c54bcde618f67d7c1fed8bee631f63940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:46 +0000
Subject: [PATCH 18/65] fix: Van Gent (2025) computes the crest wall influence
 factor gamma_v when it is not supplied

---
 .../hydraulic/wave_overtopping/vangent2025.py | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 9d292de..592534b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -354,6 +354,11 @@ def calculate_dimensionless_overtopping_discharge_q(
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
 
+    if np.isnan(gamma_v):
+        gamma_v = calculate_influence_crest_wall_gamma_v(
+            cot_alpha=cot_alpha, Rc=Rc, Ac=Ac
+        )
+
     q_diml_eqB1 = (
         6.8
         * np.power(cot_alpha, -1.0)
@@ -876,6 +881,10 @@ def calculate_dimensionless_crest_freeboard(
     if design_calculation:
         q_diml = np.power(q_diml, 1.0 / 0.857)
 
+    calculate_gamma_v = np.isnan(gamma_v)
+    if calculate_gamma_v:
+        gamma_v = 1.0
+
     gamma_w = 1.0
     Rc_diml = np.inf
     Rc_diff = np.inf
@@ -911,12 +920,17 @@ def calculate_dimensionless_crest_freeboard(
 
         Rc_diml = np.min([Rc_diml_eqB1, Rc_diml_max], axis=0)
 
-        if not include_influence_wind:
+        if not include_influence_wind and not calculate_gamma_v:
             break
 
-        gamma_w = calculate_influence_wind_gamma_w(
-            Rc=Rc_diml * Hm0, Ac=Ac, Hm0=Hm0, q_diml=q_diml_iter
-        )
+        if include_influence_wind:
+            gamma_w = calculate_influence_wind_gamma_w(
+                Rc=Rc_diml * Hm0, Ac=Ac, Hm0=Hm0, q_diml=q_diml_iter
+            )
+        if calculate_gamma_v:
+            gamma_v = calculate_influence_crest_wall_gamma_v(
+                cot_alpha=cot_alpha, Rc=Rc_diml * Hm0, Ac=Ac
+            )
         Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
 
     max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
-- 
2.43.0


From 3691ebc8ec4be5ab00ecdf5907be0802e219b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:46 +0000
Subject: [PATCH 19/65] fix: Van Gent (2025) validity checks of Gc, B_berm and
 db use those variables

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 592534b..00c3f8d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -135,12 +135,12 @@ def check_validity_range(
         core_utility.check_variable_validity_range(
             "Non-dimensional armour width in front of crest wall Gc / Hm0",
             "Van Gent et al. (2025)",
-            Rc / Hm0,
+            Gc / Hm0,
             0.6,
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B_berm)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm width B / Hm0",
             "Van Gent et al. (2025)",
@@ -149,7 +149,7 @@ def check_validity_range(
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(db)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm height db / Hm0",
             "Van Gent et al. (2025)",
-- 
2.43.0


From d51976a88c478da3ef48002e294e54c6be991d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 20/65] fix: Goda (1967) transmission of an array is not
 truncated to integers when the first element is 1

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index a645d08..952eb1d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -51,7 +51,7 @@ def calculate_wave_transmission_Kt(
         Rc_over_Hsi = Rc / Hsi
 
         if Rc_over_Hsi <= -1 * alpha_1 - beta_1:
-            Kt = 1
+            Kt = 1.0
         elif Rc_over_Hsi <= alpha_1 - beta_1:
             Kt = 0.5 * (1 - np.sin((np.pi / 2) * ((Rc_over_Hsi + beta_1) / (alpha_1))))
         else:
-- 
2.43.0


From dee794286c7e685b21df77fdce032d0deda428c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 21/65] fix: Van Gent (2023) transmission checks its validity
 range

---
 .../functions/hydraulic/wave_transmission/vangent2023.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
index c8b61b1..6b8eaaf 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
@@ -159,6 +159,10 @@ def calculate_wave_transmission_Kt(
     # Calculate deep water wavelength by supplying a very large depth
     Lmm10 = core_physics.calculate_local_wavelength(T=Tmm10, h=1e100)
 
+    check_validity_range(
+        Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, B=B, structure_type=structure_type
+    )
+
     Kt = c1 * np.tanh(-((Rc / Hm0) + c2 * np.power(B / Lmm10, c3) + c4)) + c5
 
     return Kt
-- 
2.43.0


From 33a9aaf3a7f9dab0e01b407f776824326898b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 22/65] fix: Van Gent (2024) validity check of B/Hm0 depends on
 B

---
 .../functions/hydraulic/wave_transmission/vangent2024_setup.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
index 05958f8..3ed4f18 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
@@ -85,7 +85,7 @@ def check_validity_range(
                     3.0,
                 )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(hc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B)):
         match structure_type:
             case "permeable":
                 core_utility.check_variable_validity_range(
-- 
2.43.0


From 5f83daa941e903c33b3321b7ea27349f476b0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 23/65] fix: overtopping input file writer denbieman2021
 accepts integer scalars

---
 .../functions/hydraulic/wave_overtopping/denbieman2021.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
index 76d2ef1..68edbfa 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
@@ -80,7 +80,7 @@ def write_input_file_XGB_Overtopping(
         Name of the input file, by default "input_XGB_Overtopping"
     """
 
-    if isinstance(beta, float):
+    if np.ndim(beta) == 0:
         index = [0]
     else:
         index = None
-- 
2.43.0


From f120cd44bc77f0cffeb2ff44e1c656c54d6f1860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 24/65] fix: overtopping input file writer vangent2007 accepts
 integer scalars

---
 .../functions/hydraulic/wave_overtopping/vangent2007.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 8409d70..fdd7444 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -123,7 +123,7 @@ def write_input_file_NN_Overtopping(
             + "------------------------------------------------\n"
         )
 
-    if isinstance(beta, float):
+    if np.ndim(beta) == 0:
         index = [0]
     else:
         index = None
-- 
2.43.0


From 875b22fd2bbbd2b75b0008f01780bb4ac6cb6e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:41 +0000
Subject: [PATCH 25/65] fix: Hudson damage factor lookup accepts 100% damage

---
 .../functions/structural/stability_rock_armour/hudson1959.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
index d8deb79..8b7cdf3 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
@@ -138,6 +138,7 @@ def lookup_table_damage_factors(
     mult_factors_smooth = np.array([1.0, 1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56, 1.56])
 
     ind = np.searchsorted(percentages, damage_percentage, "right")
+    ind = np.minimum(ind, len(percentages) - 1)
     if rock_type.lower().strip() == "rough":
         factor = mult_factors_rough[ind]
     elif rock_type.lower().strip() == "smooth":
-- 
2.43.0


From c3e744e52cf6c07f6fddb6de1dd96c747328006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 26/65] fix: vandermeer1988_modified validity checks use the
 supplied water density

---
 .../stability_rock_armour/vandermeer1988_modified.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
index cd3b905..f6c1cef 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
@@ -218,6 +218,7 @@ def calculate_damage_number_S(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -320,6 +321,7 @@ def calculate_nominal_rock_diameter_Dn50(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -443,5 +445,6 @@ def calculate_significant_wave_height_Hs(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hs
-- 
2.43.0


From bb3604704a94425c027b8242682c33353f4bdd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 27/65] fix: scaravaglione2025 validity checks use the supplied
 water density

---
 .../structural/stability_rock_armour/scaravaglione2025.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index c21e5a2..dbe10f9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -204,6 +204,7 @@ def calculate_damage_number_S(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -280,6 +281,7 @@ def calculate_nominal_rock_diameter_Dn50(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -368,5 +370,6 @@ def calculate_significant_wave_height_Hm0(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hm0
-- 
2.43.0


From 3bb7df2347ce07536336701370ff9856a81b5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:44 +0000
Subject: [PATCH 28/65] fix: Takahashi (1990) wave height is found by bisection
 instead of running off its search table

---
 .../takahashi1990_caisson.py                  | 49 ++++---------------
 1 file changed, 10 insertions(+), 39 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index a466f3c..7abd8d1 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -177,48 +177,19 @@ def calculate_significant_wave_height_Hs(
     )
     Hs_new = core_physics.check_usage_stabilitynumber(Dn=Dn50, Ns=Ns, Delta=Delta)[0]
 
-    # span coarse between Hs_prev and Hs_new*2
-    Hs_table_in = np.arange(
-        start=np.minimum(Hs_start, Hs_new),
-        step=Hs_start / 20,
-        stop=np.maximum(Hs_start, Hs_new),
-    )
-    Hs_table_out = np.array([])
+    # Ns does not increase with Hs, hence the solution lies between Hs_start and Hs_new
+    Hs_low, Hs_high = Hs_start, Hs_new
 
-    for Hsin in Hs_table_in:
+    for _ in range(60):
+        Hs = 0.5 * (Hs_low + Hs_high)
         Ns = calculate_stability_number_Ns(
-            Hs=Hsin, Tp=Tp, hacc=hacc, Bt=Bt, beta=beta, g=g
-        )
-        Hs_table_out = np.append(
-            Hs_table_out,
-            core_physics.check_usage_stabilitynumber(Dn=Dn50, Ns=Ns, Delta=Delta)[0],
+            Hs=Hs, Tp=Tp, hacc=hacc, Bt=Bt, beta=beta, g=g
         )
-
-    ind = np.argmin(np.abs(Hs_table_in - Hs_table_out))
-
-    fromto = [
-        np.minimum(Hs_table_in[ind - 1], Hs_table_out[ind - 1]),
-        np.maximum(Hs_table_in[ind + 1], Hs_table_out[ind + 1]),
-    ]
-
-    Hs_table_in = np.arange(start=fromto[0], stop=fromto[1], step=0.0005)
-    Hs_table_out = np.array([])
-
-    for Hsin in Hs_table_in:
-        Ns = calculate_stability_number_Ns(
-            Hs=Hsin, Tp=Tp, hacc=hacc, Bt=Bt, beta=beta, g=g
-        )
-        Hs_table_out = np.append(
-            Hs_table_out,
-            core_physics.check_usage_stabilitynumber(Dn=Dn50, Ns=Ns, Delta=Delta)[0],
-        )
-    ind = np.argmin(np.abs(Hs_table_in - Hs_table_out))
-    absdiff = np.abs(Hs_table_in[ind] - Hs_table_out[ind])
-
-    if not absdiff < 0.001:
-        warnings.warn("Hs precision is not better than {}m".format(absdiff))
-
-    Hs = Hs_table_out[ind]
+        Hs_out = core_physics.check_usage_stabilitynumber(Dn=Dn50, Ns=Ns, Delta=Delta)[
+            0
+        ]
+        Hs_low = np.where(Hs_out > Hs, Hs, Hs_low)
+        Hs_high = np.where(Hs_out > Hs, Hs_high, Hs)
 
     # check_validity(Hs=Hm0, tt=tt, ht=ht, cot_alpha_armour_slope=cot_alpha_armour_slope)
 
-- 
2.43.0


From 29d1b83b2f762d7ee8841b527877ba3cec4920c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:44 +0000
Subject: [PATCH 29/65] fix: Takahashi (1990) depth above toe search ends when
 no such depth exists

---
 .../stability_toe_berm/takahashi1990_caisson.py          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index 7abd8d1..50fd061 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -263,7 +263,14 @@ def calculate_significant_depth_above_toe_hacc(
 
     firsteval = Ns < Ns_out
 
+    # beyond a depth of one (deep water) wavelength the toe is not affected by the waves
+    hacc_max = np.maximum(g * Tp**2 / (2 * np.pi), Hs)
+
     while firsteval == (Ns < Ns_out):
+        if hacc_in > hacc_max:
+            warnings.warn("No water depth above the toe found for this Dn50 and Hs")
+            return np.nan
+
         hacc_in += dht
         Ns_out = calculate_stability_number_Ns(
             Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
@@ -285,7 +292,7 @@ def calculate_significant_depth_above_toe_hacc(
         Ns_array = np.array([])
         firsteval = Ns < Ns_out
 
-        while firsteval == (Ns < Ns_out):
+        while firsteval == (Ns < Ns_out) and hacc_in <= hacc:
             hacc_in += dht
             Ns_out = calculate_stability_number_Ns(
                 Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
-- 
2.43.0


From 654c8d974b71bc599f9908f51f85ee4e7129247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 30/65] fix: Van der Meer (1998) toe validity check uses the
 stability number and names the checked variables

---
 .../structural/stability_toe_berm/vandermeer1998.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index 57e7cf1..cc479eb 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -42,7 +42,7 @@ def check_validity(
 
     if not np.any(np.isnan(Hs)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (h)",
+            "Significant wave height Hs",
             "van der Meer (1998)",
             Hs,
             0.01,
@@ -51,7 +51,7 @@ def check_validity(
 
     if not np.any(np.isnan(ht)) and not np.any(np.isnan(h)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (Dn50)",
+            "Relative toe height (h)",
             "van der Meer (1998)",
             ht / h,
             0.4,
@@ -76,7 +76,7 @@ def check_validity(
         core_utility.check_variable_validity_range(
             "Nod vs Ns",
             "van der Meer (1998)",
-            (Nod**-0.15) * (Hs / Delta * Dn50),
+            (Nod**-0.15) * (Hs / (Delta * Dn50)),
             2,
             np.inf,
         )
-- 
2.43.0


From 17560bc9799d041b0da91046a0da12ff213899ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 31/65] fix: Van der Meer (1998) depth above toe accepts arrays

---
 .../structural/stability_toe_berm/vandermeer1998.py          | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index cc479eb..6498e80 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -272,10 +272,7 @@ def calculate_depth_above_toe_ht(
     )
 
     ht = (((Hs * Nod**-0.15) / (Delta * Dn50)) - 2) / 6.2
-    if ht > 0:
-        ht = ht ** (1 / 2.7) * h
-    else:
-        ht = np.nan
+    ht = np.power(np.where(ht > 0, ht, np.nan), 1 / 2.7) * h
 
     check_validity(Hs=Hs, ht=ht, h=h, Dn50=Dn50, Nod=Nod, Delta=Delta)
 
-- 
2.43.0


From 0b77d340b84beef4c1e11ec04274ec428f7b5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 32/65] fix: Etemad-Shahidi (2021) toe validity check of wave
 steepness and toe width does not crash or skip

---
 .../structural/stability_toe_berm/etemadshahidi2021.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index fd13f24..4dac38b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -62,7 +62,7 @@ def check_validity(
         )
 
     if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Tmm10)):
-        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, Tmm10=Tmm10)
+        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10)
         core_utility.check_variable_validity_range(
             "Wave steepness sm-1,0",
             "Etemad-Shahidi et al. (2021)",
@@ -98,7 +98,7 @@ def check_validity(
             23.40,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(ht)):
+    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Bt)):
         core_utility.check_variable_validity_range(
             "Relative toe width Bt/Hs",
             "Etemad-Shahidi et al. (2021)",
-- 
2.43.0


From 3617cb2a763642ec36bbcfe7206a762593d4517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 33/65] fix: Etemad-Shahidi (2021) toe calculations check the
 validity range of all their inputs

---
 .../stability_toe_berm/etemadshahidi2021.py   | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 4dac38b..c481b10 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -248,7 +248,18 @@ def calculate_damage_Nod(
         1.0 / c5,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Nod
 
@@ -338,7 +349,18 @@ def calculate_nominal_diameter_Dn50(
         -1.0,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Dn50
 
@@ -451,4 +473,17 @@ def calculate_significant_wave_height_Hs(
 
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
 
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
+
     return Hs
-- 
2.43.0


From 5f362cc7d87e93f505b82dda4774920e67610150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 34/65] fix: Etemad-Shahidi (2021) toe wave height iteration
 honours max_iter

---
 .../structural/stability_toe_berm/etemadshahidi2021.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index c481b10..4a61643 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -468,6 +468,8 @@ def calculate_significant_wave_height_Hs(
             )
         )
 
+        n_iter += 1
+
         Hs_diff = np.abs(Hs - Hs_prev)
         Hs_prev = Hs
 
-- 
2.43.0


From 5c8730c1d4c75f2bf1550b976b65ed8a3c73675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 35/65] fix: Van Gent (2007) rear side calculations check the
 validity range of the wave steepness

---
 .../functions/structural/stability_rock_rear/vangent2007.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 2fd7e39..24ee175 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -215,6 +215,7 @@ def calculate_damage_number_S(
     check_validity_range(
         Dn50=Dn50,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -293,6 +294,7 @@ def calculate_nominal_rock_diameter_Dn50(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -399,6 +401,7 @@ def calculate_maximum_significant_wave_height_Hs(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
-- 
2.43.0


From b85bdc7ed81ac6f37467b1b3c2ebaf17bccdb9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 36/65] fix: Van Gent (2007) rear side wave height iteration
 accepts Rc2_front = 0

---
 .../functions/structural/stability_rock_rear/vangent2007.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 24ee175..4ab57b2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -367,7 +367,7 @@ def calculate_maximum_significant_wave_height_Hs(
 
     Dn50 = core_physics.check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
 
-    Hs_i1 = Rc2_front
+    Hs_i1 = Rc
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-- 
2.43.0


From ed593da4bba6c2a17053798feb234626ee17bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 37/65] fix: Van Gent & Van der Werf (2019) oblique forces are
 not negative

---
 .../structural/forces_crestwall/vangentvanderwerf2019.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
index e1cf5ab..a91242b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
@@ -418,7 +418,7 @@ def calculate_FH2p_oblique(
         z2p=z2p, Ac=Ac, beta=beta
     )
 
-    FH2p_oblique = gamma_FH_beta * FH2p_perpendicular
+    FH2p_oblique = np.maximum(gamma_FH_beta * FH2p_perpendicular, 0.0)
 
     check_validity(Hm0=Hm0, Ac=Ac, Rc=Rc, beta=beta)
 
@@ -636,7 +636,7 @@ def calculate_FV2p_oblique(
         z2p=z2p, Ac=Ac, beta=beta
     )
 
-    FV2p_oblique = gamma_FV_beta * FV2p_perpendicular
+    FV2p_oblique = np.maximum(gamma_FV_beta * FV2p_perpendicular, 0.0)
 
     check_validity(Hm0=Hm0, Ac=Ac, beta=beta, Fb=Fb)
 
-- 
2.43.0


From 6fc155b00cec4a53e978b2ade08ece359f8487ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 38/65] fix: Goda (1985) checks the validity range of the toe
 berm width

---
 .../functions/structural/forces_caisson/goda1985.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index 610a210..e8116c2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -348,7 +348,13 @@ def calculate_forces_and_reactions(
 
     # check validity range
     is_valid = check_validity_range(
-        beta=beta, cota_seabed=cota_seabed, Tmax=Tmax, tup=tup, Bup=Bup, h_s=h_s
+        beta=beta,
+        cota_seabed=cota_seabed,
+        Tmax=Tmax,
+        tup=tup,
+        Bup=Bup,
+        h_s=h_s,
+        B1=B1,
     )
 
     if not return_dict:
-- 
2.43.0


From 3b7264c58182d37704059685c4776930914b6b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 39/65] fix: Core-Loc calculations check the validity range of
 the slope, as for Accropode

---
 .../stability_concrete_armour/core_loc_hudson1959.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
index 607e0e5..cd1d601 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
@@ -118,6 +118,8 @@ def calculate_unit_mass_M(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return M
 
 
@@ -178,6 +180,8 @@ def calculate_significant_wave_height_Hs(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return Hs
 
 
-- 
2.43.0


From 59dea78886693c51e7d90eb081575966bc7cfbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:09 +0000
Subject: [PATCH 40/65] fix: double layer cubes damage is not a complex number
 below the threshold of damage

---
 .../cubes_double_layer_vandermeer1988.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
index 52f7572..38ab8e2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
@@ -275,7 +275,7 @@ def calculate_damage_Nod_vanDerMeer1988(
 
     Ns = core_physics.check_usage_stabilitynumber(Dn=Dn, Hs=Hs, Delta=Delta)[0]
 
-    Nod = ((((Ns / s0m**-0.1) - 1) / 6.7) * N_waves**0.3) ** (1 / 0.4)
+    Nod = np.power((((Ns / s0m**-0.1) - 1) / 6.7) * N_waves**0.3, 1 / 0.4)
 
     Tm = ((Hs / s0m) / (9.81 / (2 * np.pi))) ** 0.5
 
-- 
2.43.0


From 98b09c4ae8f8a923d33d725fd2aa8bcdae1ed4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:37 +0000
Subject: [PATCH 41/65] fix: Jumelet (2024) wave height accepts an integer wave
 period

---
 .../functions/structural/stability_rock_armour/jumelet2024.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
index dc69e38..f748190 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
@@ -294,7 +294,7 @@ def calculate_significant_wave_height_Hs(
             * np.power(S, 0.2)
             * np.power(N_plunging, -0.1)
             * cot_alpha
-            * np.sqrt((2 * np.pi / g) * np.power(Tmm10, -2))
+            * np.sqrt((2 * np.pi / g) * np.power(Tmm10, -2.0))
             * Delta
             * Dn50,
             2.0,
-- 
2.43.0


From 8eda69c0362c758b733c686d9cf6fd2e167a4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:48 +0000
Subject: [PATCH 42/65] fix: TAW runup accepts arrays wherever its signature
 says so

---
 .../functions/hydraulic/wave_runup/taw2002.py          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index b49baaa..f99876f 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -297,7 +297,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -329,8 +329,8 @@ def calculate_dimensionless_wave_runup_height_z2p(
     z2p_diml_eq3a = c1 * gamma_b * gamma_f_adj * gamma_beta * ksi_mm10
     z2p_diml_eq3b = c4 * gamma_f_adj * gamma_beta * (c2 - c3 / np.sqrt(ksi_mm10))
 
-    z2p_diml = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0)
-    max_reached = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0) == z2p_diml_eq3b
+    z2p_diml = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b)
+    max_reached = z2p_diml == z2p_diml_eq3b
 
     check_validity_range(
         Hm0=Hm0,
@@ -681,7 +681,7 @@ def iteration_procedure_gamma_b(
         The influence factor for a berm gamma_b (-)
     """
 
-    if B_berm == 0.0 or L_berm == 0.0:
+    if np.all(B_berm == 0.0) or np.all(L_berm == 0.0):
         gamma_b = 1.0
     else:
         z2p_i1, _ = calculate_wave_runup_height_z2p(
@@ -762,7 +762,7 @@ def calculate_influence_berm_gamma_b(
     )
     rB = B_berm / L_berm
 
-    gamma_b = np.max([np.min([1.0 - rB * (1.0 - rdh), 1.0]), 0.6])
+    gamma_b = np.clip(1.0 - rB * (1.0 - rdh), 0.6, 1.0)
     return gamma_b
 
 
-- 
2.43.0


From 5cd0f07d9f4e4e62549535be8f0d7ef8601c8577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:48 +0000
Subject: [PATCH 43/65] fix: TAW overtopping accepts arrays wherever its
 signature says so

---
 .../functions/hydraulic/wave_overtopping/taw2002.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 9a4c47b..bd76422 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -338,7 +338,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -377,8 +377,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0, Rc=Rc, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
     )
 
-    q_diml = np.min([q_diml_eq24, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq24, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq24, q_diml_max)
+    max_reached = q_diml == q_diml_max
 
     check_validity_range(
         Hm0=Hm0,
@@ -709,7 +709,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -760,8 +760,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq24, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq24, Rc_diml_max)
+    max_reached = Rc_diml == Rc_diml_max
 
     check_validity_range(
         Hm0=Hm0,
-- 
2.43.0


From ed8992988c6b9148133a306bbdc2d7573325bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:48 +0000
Subject: [PATCH 44/65] fix: EurOtop 2018 overtopping accepts arrays wherever
 its signature says so

---
 .../hydraulic/wave_overtopping/eurotop2018.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 984c75d..f0e1a46 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,7 +265,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -313,8 +313,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         c3=c3,
     )
 
-    q_diml = np.min([q_diml_eq510, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq510, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq510, q_diml_max)
+    max_reached = q_diml == q_diml_max
 
     return q_diml, max_reached
 
@@ -680,7 +680,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -733,8 +733,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq510, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq510, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq510, Rc_diml_max)
+    max_reached = Rc_diml == Rc_diml_max
 
     return Rc_diml, max_reached
 
-- 
2.43.0


From d48e1f182922ae35e37b2f70067d98d6efa9b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 45/65] fix: EurOtop 2018 oblique wave influence factor accepts
 arrays of gamma_f

---
 .../functions/hydraulic/wave_runup/eurotop2018.py      | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index 6012533..48f9460 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -275,12 +275,10 @@ def calculate_influence_oblique_waves_gamma_beta(
         The influence factor for oblique wave incidence gamma_beta (-)
     """
 
-    if gamma_f > gamma_f_crit:
-        # Structure slope is smooth
-        c_gamma_beta = c_gamma_beta_smooth
-    else:
-        # Structure slope is rough
-        c_gamma_beta = c_gamma_beta_rough
+    # The structure slope is smooth above the critical roughness factor, and rough otherwise
+    c_gamma_beta = np.where(
+        gamma_f > gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough
+    )
 
     gamma_beta = wave_runup_taw2002.calculate_influence_oblique_waves_gamma_beta(
         beta=beta,
-- 
2.43.0


From 09c20eeb5f1044acf8457ac594486152d3da0e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 46/65] fix: Van Gent (2021) accepts arrays of gamma_beta and
 Hm0_swell

---
 .../hydraulic/wave_overtopping/vangent2021_caisson.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index 48e6ebc..9c64f24 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -203,12 +203,12 @@ def calculate_dimensionless_overtopping_discharge_q(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.any(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
@@ -403,12 +403,12 @@ def calculate_dimensionless_crest_freeboard(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.any(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
-- 
2.43.0


From 53c047d6372c8b1ab4ec08e64260d242c79d663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 47/65] fix: Van Gent (2025) accepts arrays of its influence
 factors and Dn50

---
 .../hydraulic/wave_overtopping/vangent2025.py | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 00c3f8d..ba2b3eb 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -331,14 +331,14 @@ def calculate_dimensionless_overtopping_discharge_q(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -348,13 +348,13 @@ def calculate_dimensionless_overtopping_discharge_q(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.any(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
 
-    if np.isnan(gamma_v):
+    if np.all(np.isnan(gamma_v)):
         gamma_v = calculate_influence_crest_wall_gamma_v(
             cot_alpha=cot_alpha, Rc=Rc, Ac=Ac
         )
@@ -381,8 +381,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         gamma_beta=gamma_beta,
     )
 
-    q_diml = np.min([q_diml_eqB1, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eqB1, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eqB1, q_diml_max)
+    max_reached = q_diml == q_diml_max
 
     if include_influence_wind:
         gamma_w = calculate_influence_wind_gamma_w(
@@ -853,14 +853,14 @@ def calculate_dimensionless_crest_freeboard(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -870,8 +870,8 @@ def calculate_dimensionless_crest_freeboard(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.any(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
@@ -881,7 +881,7 @@ def calculate_dimensionless_crest_freeboard(
     if design_calculation:
         q_diml = np.power(q_diml, 1.0 / 0.857)
 
-    calculate_gamma_v = np.isnan(gamma_v)
+    calculate_gamma_v = np.all(np.isnan(gamma_v))
     if calculate_gamma_v:
         gamma_v = 1.0
 
@@ -918,7 +918,7 @@ def calculate_dimensionless_crest_freeboard(
             g=g,
         )
 
-        Rc_diml = np.min([Rc_diml_eqB1, Rc_diml_max], axis=0)
+        Rc_diml = np.minimum(Rc_diml_eqB1, Rc_diml_max)
 
         if not include_influence_wind and not calculate_gamma_v:
             break
@@ -933,7 +933,7 @@ def calculate_dimensionless_crest_freeboard(
             )
         Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
 
-    max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
+    max_reached = Rc_diml == Rc_diml_max
 
     check_validity_range(
         Hm0=Hm0,
-- 
2.43.0


From 4d10aedda8bfe81f3a445dc307bff646c552c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 48/65] fix: goda1985 bearing pressures support arrays

---
 .../functions/structural/forces_caisson/goda1985.py      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index e8116c2..4ba2de9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -813,9 +813,10 @@ def calculate_bearing_pressures(
     We = Wup - FU
     te = Me / We
 
-    if te <= 1 / 3 * Bup:
-        pe = (2 * We) / (3 * te)
-    else:
-        pe = (2 * We / Bup) * (2 - 3 * (te / Bup))
+    pe = np.where(
+        te <= 1 / 3 * Bup,
+        (2 * We) / (3 * te),
+        (2 * We / Bup) * (2 - 3 * (te / Bup)),
+    )
 
     return pe, Me, We, te
-- 
2.43.0


From 312cee9e2b0ed7c36c59cbcf3d5e0bbfad01fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 49/65] fix: goda1985 impulsive breaking check supports arrays

---
 .../structural/forces_caisson/goda1985.py     | 70 +++++++------------
 1 file changed, 24 insertions(+), 46 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index 4ba2de9..11bb0a3 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -120,54 +120,32 @@ def check_impulsive_breaking(
         Boolean indicating whether impulsive breaking occurs
     """
 
-    all_is_nans = [
-        np.isnan(beta),
-        np.isnan(B1),
-        np.isnan(L),
-        np.isnan(cota_seabed),
-        np.isnan(offshore_wave_steepness),
-        np.isnan(Rc),
-        np.isnan(Hsi),
-    ]
+    # comparisons with missing (NaN) inputs are False, so a condition with missing inputs does not hold
+    condition_1 = (
+        (beta < 20)
+        & (B1 / L < 0.02)
+        & (cota_seabed < 50)
+        & (offshore_wave_steepness < 0.03)
+        & (Rc / Hsi > 0.3)
+    )
+    if np.any(condition_1):
+        core_utility.check_variable_validity_range(
+            "Impulsive breaking condition 1", "Goda (2000)", True, False, False
+        )
 
-    if not any(all_is_nans):
-        if (
-            beta < 20
-            and B1 / L < 0.02
-            and cota_seabed < 50
-            and offshore_wave_steepness < 0.03
-            and Rc / Hsi > 0.3
-        ):
-
-            core_utility.check_variable_validity_range(
-                "Impulsive breaking condition 1", "Goda (2000)", True, False, False
-            )
-            return True
-
-    all_is_nans = [
-        np.isnan(beta),
-        np.isnan(B1),
-        np.isnan(L),
-        np.isnan(d),
-        np.isnan(h_s),
-        np.isnan(Rc),
-        np.isnan(Hsi),
-    ]
+    condition_2 = (
+        (beta < 20)
+        & (0.02 < B1 / L)
+        & (B1 / L < 0.3)
+        & (d / h_s < 0.6)
+        & (Rc / Hsi > 0.3)
+    )
+    if np.any(condition_2):
+        core_utility.check_variable_validity_range(
+            "Impulsive breaking condition 2", "Goda (2000)", True, False, False
+        )
 
-    if not any(all_is_nans):
-        if (
-            beta < 20
-            and 0.02 < B1 / L
-            and B1 / L < 0.3
-            and d / h_s < 0.6
-            and Rc / Hsi > 0.3
-        ):
-            core_utility.check_variable_validity_range(
-                "Impulsive breaking condition 2", "Goda (2000)", True, False, False
-            )
-            return True
-
-    return False
+    return condition_1 | condition_2
 
 
 def calculate_forces_and_reactions(
-- 
2.43.0


From 15783316d3ff0b778b4dfce3895779a584c4328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 50/65] fix: goda1985 pressures and forces support arrays

---
 .../structural/forces_caisson/goda1985.py        | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index 11bb0a3..6737072 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -522,10 +522,7 @@ def calculate_pressures_and_forces(
 
     # beta, if not 0 should be rotated by 15 degrees towards the normal of the breakwater according to Goda (2000)
     beta = np.abs(beta)
-    if beta >= 15:
-        beta_use = beta - 15
-    elif beta < 15:
-        beta_use = 0
+    beta_use = np.maximum(beta - 15, 0)
     cos_beta = np.cos(np.deg2rad(beta_use))
 
     h_5Hs = h_s + (Hsi * 5) / cota_seabed
@@ -550,10 +547,7 @@ def calculate_pressures_and_forces(
     p1 = 0.5 * (1 + cos_beta) * (alpha_1 + alpha_2 * cos_beta**2) * rho_water * g * HD
     p2 = p1 / (np.cosh(2 * np.pi * h_s / L))
     p3 = alpha_3 * p1
-    if etastar > Rc:
-        p4 = p1 * (1 - (Rc / etastar))
-    else:
-        p4 = 0
+    p4 = np.where(etastar > Rc, p1 * (1 - (Rc / etastar)), 0)
 
     hstar_c = np.minimum(etastar, Rc)
 
@@ -570,8 +564,7 @@ def calculate_pressures_and_forces(
     FU = 0.5 * pu * Bup
     MU = (2 / 3) * FU * Bup
 
-    impulsive_breaking = False
-    if check_impulsive_breaking(
+    impulsive_breaking = check_impulsive_breaking(
         beta=beta,
         B1=B1,
         cota_seabed=cota_seabed,
@@ -581,8 +574,7 @@ def calculate_pressures_and_forces(
         L=L,
         offshore_wave_steepness=offshore_wave_steepness,
         Rc=Rc,
-    ):
-        impulsive_breaking = True
+    )
 
     if not return_dict:
         return (
-- 
2.43.0


From 2e2cfd55b1fc1519b0f6902f80bf370bfe73c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 51/65] fix: xbloc correction factors support arrays

---
 .../stability_concrete_armour/xbloc.py        | 40 +++++++------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
index e064d88..f8a5979 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
@@ -210,15 +210,11 @@ def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha <= 30 and cot_alpha > 20:
-        correction_factor = 1.1
-    elif cot_alpha <= 20 and cot_alpha > 15:
-        correction_factor = 1.25
-    elif cot_alpha <= 15 and cot_alpha > 10:
-        correction_factor = 1.5
-    elif cot_alpha <= 10:
-        correction_factor = 2.0
+    correction_factor = np.select(
+        [cot_alpha <= 10, cot_alpha <= 15, cot_alpha <= 20, cot_alpha <= 30],
+        [2.0, 1.5, 1.25, 1.1],
+        default=1.0,
+    )
 
     return correction_factor
 
@@ -271,12 +267,9 @@ def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(
     correction_factor = float | npt.NDArray[np.float64]
         Correction factor applied on volume or mass
     """
-    correction_factor = 1.0
-
-    if rel_freeboard < 0.5:
-        correction_factor = 2.0
-    elif rel_freeboard < 1.0:
-        correction_factor = 1.5
+    correction_factor = np.select(
+        [rel_freeboard < 0.5, rel_freeboard < 1.0], [2.0, 1.5], default=1.0
+    )
 
     return correction_factor
 
@@ -297,12 +290,9 @@ def calculate_correctionfactor_unit_mass_M_by_rel_depth(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-
-    if rel_depth > 2.5:
-        correction_factor = 1.5
-    if rel_depth > 3.5:
-        correction_factor = 2.0
+    correction_factor = np.select(
+        [rel_depth > 3.5, rel_depth > 2.5], [2.0, 1.5], default=1.0
+    )
 
     return correction_factor
 
@@ -376,10 +366,8 @@ def calculate_correctionfactor_unit_mass_M_by_structure_slope(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha > 2 / 3:
-        correction_factor = 1.25
-    elif cot_alpha > 1 / 2:
-        correction_factor = 1.5
+    correction_factor = np.select(
+        [cot_alpha > 2 / 3, cot_alpha > 1 / 2], [1.25, 1.5], default=1.0
+    )
 
     return correction_factor
-- 
2.43.0


From 31bf3e6600ca6ae2552bc323a1930302a3ee96a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 52/65] fix: xblocplus correction factors support arrays

---
 .../stability_concrete_armour/xblocplus.py    | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
index c6a16aa..03d01a4 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
@@ -209,15 +209,11 @@ def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha <= 30 and cot_alpha > 20:
-        correction_factor = 1.1
-    elif cot_alpha <= 20 and cot_alpha > 15:
-        correction_factor = 1.25
-    elif cot_alpha <= 15 and cot_alpha > 10:
-        correction_factor = 1.5
-    elif cot_alpha <= 10:
-        correction_factor = 2.0
+    correction_factor = np.select(
+        [cot_alpha <= 10, cot_alpha <= 15, cot_alpha <= 20, cot_alpha <= 30],
+        [2.0, 1.5, 1.25, 1.1],
+        default=1.0,
+    )
 
     return correction_factor
 
@@ -270,12 +266,9 @@ def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(
     correction_factor = float | npt.NDArray[np.float64]
         Correction factor applied on volume or mass
     """
-    correction_factor = 1.0
-
-    if rel_freeboard < 0.5:
-        correction_factor = 1.5
-    elif rel_freeboard < 1.0:
-        correction_factor = 1.25
+    correction_factor = np.select(
+        [rel_freeboard < 0.5, rel_freeboard < 1.0], [1.5, 1.25], default=1.0
+    )
 
     return correction_factor
 
-- 
2.43.0


From 959ac171d67475de00b4669e92543566c04e432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:06 +0000
Subject: [PATCH 53/65] fix: goda1967 arrays of alpha_1 and beta_1

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index 952eb1d..deca113 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -44,6 +44,8 @@ def calculate_wave_transmission_Kt(
     check_is_array = [
         isinstance(Rc, np.ndarray),
         isinstance(Hsi, np.ndarray),
+        isinstance(alpha_1, np.ndarray),
+        isinstance(beta_1, np.ndarray),
     ]
 
     if not any(check_is_array):
-- 
2.43.0


From 972019ccd962dfcfedbf36d9d534056ad70a4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:06 +0000
Subject: [PATCH 54/65] fix: taw2002 overtopping arrays of sigma

---
 .../functions/hydraulic/wave_overtopping/taw2002.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index bd76422..43732d8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -296,7 +296,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     cor1 = 0
     cor3 = 0
-    if sigma != 0:
+    if np.any(sigma != 0):
         if use_best_fit:
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
@@ -667,7 +667,7 @@ def calculate_dimensionless_crest_freeboard(
 
     cor1 = 0
     cor3 = 0
-    if sigma != 0:
+    if np.any(sigma != 0):
         if use_best_fit:
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
-- 
2.43.0


From d3d4074962549ec872d6dd623a31e2bec018c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:50 +0000
Subject: [PATCH 55/65] fix: takahashi1990 depth above toe supports arrays

---
 .../structural/stability_toe_berm/takahashi1990_caisson.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index 50fd061..cb8fec7 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -244,6 +244,12 @@ def calculate_significant_depth_above_toe_hacc(
         Water depth above the toe (m)
     """
 
+    arguments = (Dn50, Tp, Hs, Bt, rho_rock, rho_water, beta, g)
+    if any(isinstance(argument, np.ndarray) for argument in arguments):
+        # arrays, so vectorize this function
+        vfunc = np.vectorize(calculate_significant_depth_above_toe_hacc, otypes=[float])
+        return vfunc(*arguments)
+
     Delta = core_physics.calculate_buoyant_density_Delta(
         rho_rock=rho_rock, rho_water=rho_water
     )
-- 
2.43.0


From 3768ad6ca5a67fc9aff7b0f87abe5f7c9dcec9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 56/65] fix: vangentpozueta2004 Hs: one undefined (NaN) element
 no longer stops the iteration of the other elements

---
 .../structural/stability_rock_rear/vangentpozueta2004.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
index bc05cb3..1e3b567 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
@@ -413,7 +413,7 @@ def calculate_maximum_significant_wave_height_Hs(
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-    while iteration < max_iterations and np.max(np.abs(Hs_i1 - Hs_i0)) > tolerance:
+    while iteration < max_iterations and np.any(np.abs(Hs_i1 - Hs_i0) > tolerance):
 
         iteration += 1
         Hs_i0 = Hs_i1
-- 
2.43.0


From 220968cdabd6333ada3b4f3d22a169d5521a3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 57/65] fix: vangent2007 Hs: one undefined (NaN) element no
 longer stops the iteration of the other elements

---
 .../functions/structural/stability_rock_rear/vangent2007.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 4ab57b2..2fca86f 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -371,7 +371,7 @@ def calculate_maximum_significant_wave_height_Hs(
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-    while iteration < max_iterations and np.max(np.abs(Hs_i1 - Hs_i0)) > tolerance:
+    while iteration < max_iterations and np.any(np.abs(Hs_i1 - Hs_i0) > tolerance):
 
         iteration += 1
         Hs_i0 = Hs_i1
-- 
2.43.0


From e0c1a8c3ebc5e99e8f35d8b6b0efeceb4730b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 58/65] fix: etemadshahidi2021 Hs: one undefined (NaN) element
 no longer stops the iteration of the other elements

---
 .../structural/stability_toe_berm/etemadshahidi2021.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 4a61643..74ae0c6 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -452,7 +452,7 @@ def calculate_significant_wave_height_Hs(
     Hs_diff = np.inf
     Hs_prev = Hs_init
 
-    while np.max(Hs_diff) > 1e-3 and n_iter < max_iter:
+    while np.any(Hs_diff > 1e-3) and n_iter < max_iter:
 
         Hs = (
             Delta
-- 
2.43.0


From d604818709fdf6e831c7b0f9f9bbb45ad63ce641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 59/65] fix: kramerburcharth2004 Dn50 and Rc: one undefined
 (NaN) element no longer stops the iteration of the other elements

---
 .../stability_rock_armour/kramerburcharth2004_lowcrested.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
index 5d7f03a..3939abc 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
@@ -82,7 +82,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_prev = np.inf
     Dn50 = Hs / (Delta * Ns_init)
 
-    while np.max(Dn50_diff) > tolerance and n_iter < max_iter:
+    while np.any(Dn50_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Dn50 = (1.0 / 1.36) * ((Hs / Delta) - Rc * (0.06 * (Rc / Dn50) - 0.23))
@@ -192,7 +192,7 @@ def calculate_crest_freeboard_Rc(
     Rc_prev = np.inf
     Rc = Rc_Dn50_init * Dn50
 
-    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+    while np.any(Rc_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Rc = ((Hs / Delta) - 1.36 * Dn50) / (0.06 * (Rc / Dn50) - 0.23)
-- 
2.43.0


From 04fce78bc47e623ff3accedb29783b7b68970d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 60/65] fix: jumelet2024 Hs: one undefined (NaN) element no
 longer stops the iteration of the other elements

---
 .../functions/structural/stability_rock_armour/jumelet2024.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
index f748190..7f7a7c7 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
@@ -282,7 +282,7 @@ def calculate_significant_wave_height_Hs(
     Hs_diff = np.inf
     Hs_prev = Hs_init
 
-    while np.max(Hs_diff) > tolerance and n_iter < max_iter:
+    while np.any(Hs_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Fp = calculate_fraction_plunging_waves_Fp(ksi_mm10=ksi_mm10)
-- 
2.43.0


From 0692b7e5569c233d09f1c5fbe24b781346b59998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 61/65] fix: etemadshahidi2020 Dn50: one undefined (NaN)
 element no longer stops the iteration of the other elements

---
 .../structural/stability_rock_armour/etemadshahidi2020.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
index 9646c92..1d32bb6 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
@@ -376,7 +376,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_s_prev = np.inf
     Cp_s = Cp_init
 
-    while np.max(Dn50_s_diff) > tolerance and n_iter_s < max_iter:
+    while np.any(Dn50_s_diff > tolerance) and n_iter_s < max_iter:
         n_iter_s += 1
 
         Dn50_s = (
@@ -399,7 +399,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_pl_prev = np.inf
     Cp_pl = Cp_init
 
-    while np.max(Dn50_pl_diff) > tolerance and n_iter_pl < max_iter:
+    while np.any(Dn50_pl_diff > tolerance) and n_iter_pl < max_iter:
         n_iter_pl += 1
 
         Dn50_pl = (
-- 
2.43.0


From 2ecbf36741aa7febad67e75286d23cd828524ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 62/65] fix: vangent2025 Rc: one undefined (NaN) element no
 longer stops the iteration of the other elements

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index ba2b3eb..3a05193 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -889,7 +889,7 @@ def calculate_dimensionless_crest_freeboard(
     Rc_diml = np.inf
     Rc_diff = np.inf
     n_iter = 0
-    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+    while np.any(Rc_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         q_diml_iter = q_diml / gamma_w
-- 
2.43.0


From d1fb92e23d8365adf18c2060a5534746a1e876bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 63/65] fix: taw2002 z2% iteration: one undefined (NaN) element
 no longer stops the iteration of the other elements

---
 .../functions/hydraulic/wave_runup/taw2002.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index f99876f..1048475 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -454,7 +454,7 @@ def iteration_procedure_z2p(
 
     while (
         n_iter <= max_iter
-        and np.max(abs(z2p_estimate_i1 - z2p_estimate_i0)) > tolerance
+        and np.any(abs(z2p_estimate_i1 - z2p_estimate_i0) > tolerance)
     ):
         z2p_estimate_i0 = z2p_estimate_i1
 
-- 
2.43.0


From bcb2a6e258e26d22d48f8827d87ab991eae6e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:32 +0000
Subject: [PATCH 64/65] fix: Takahashi (1990) depth above toe search ends for
 an undefined input or zero wave height instead of hanging

---
 .../structural/stability_toe_berm/takahashi1990_caisson.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index cb8fec7..de9363a 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -273,7 +273,7 @@ def calculate_significant_depth_above_toe_hacc(
     hacc_max = np.maximum(g * Tp**2 / (2 * np.pi), Hs)
 
     while firsteval == (Ns < Ns_out):
-        if hacc_in > hacc_max:
+        if not (dht > 0 and hacc_in <= hacc_max < np.inf):
             warnings.warn("No water depth above the toe found for this Dn50 and Hs")
             return np.nan
 
-- 
2.43.0


From 8f32103f5a3e3104ee21335ffe01299c531df3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:41 +0000
Subject: [PATCH 65/65] fix: z2% iteration starts also when the requested
 tolerance is zero or below rounding

---
 .../functions/hydraulic/wave_runup/taw2002.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 1048475..c344870 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -450,7 +450,7 @@ def iteration_procedure_z2p(
 
     n_iter = 0
     z2p_estimate_i1 = 1.5 * Hm0
-    z2p_estimate_i0 = z2p_estimate_i1 + 2 * tolerance
+    z2p_estimate_i0 = z2p_estimate_i1 + np.inf
 
     while (
         n_iter <= max_iter
-- 
2.43.0

