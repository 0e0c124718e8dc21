From 02e400dc0d8f83afd59778c081a64e375ced397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 01/85] fix: is_diso_ss checks the disorientation rule under
 damage tolerance rule 1

---
 src/guidelines/disorientation.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/guidelines/disorientation.py b/src/guidelines/disorientation.py
index a2f0763..28ac20b 100644
--- a/src/guidelines/disorientation.py
+++ b/src/guidelines/disorientation.py
@@ -84,14 +84,15 @@ def is_diso_ss(ss, delta_angle, dam_tol=False,
 
     The angles are considered in degrees.
     """
-    if dam_tol:
-        if (dam_tol_rule is not None and dam_tol_rule in {2, 3})\
-        or (n_plies_dam_tol is not None and n_plies_dam_tol == 2):
-            for ind_ply in range(ss.size - 3):
-                if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
-                    return False
-        if dam_tol_rule is None and n_plies_dam_tol is None:
-            raise Exception('Not enough input arugments!')
+    if dam_tol and dam_tol_rule is None and n_plies_dam_tol is None:
+        raise Exception('Not enough input arugments!')
+
+    if dam_tol \
+    and ((dam_tol_rule is not None and dam_tol_rule in {2, 3})\
+         or (n_plies_dam_tol is not None and n_plies_dam_tol == 2)):
+        for ind_ply in range(ss.size - 3):
+            if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
+                return False
     else:
         for ind_ply in range(ss.size - 1):
             if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
-- 
2.43.0


From c805ce41c6c5bc4d6440a5c31225032754c7abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 02/85] fix: is_ten_percent_rule counts the middle ply of a
 queued symmetric stack

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index bfe351f..992c503 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -139,7 +139,7 @@ def is_ten_percent_rule(
             percent_135 = 2 * (
                 sum(stack[:stack.size // 2] == -45) + ply_queue.count(-45))
             if stack.size % 2:
-                mid_ply_angle = stack[stack.size % 2]
+                mid_ply_angle = stack[stack.size // 2]
                 if mid_ply_angle == 0:
                     percent_0 += 1
                 if mid_ply_angle == 90:
-- 
2.43.0


From 939b00725af1e42c7ea09faa65594de619177cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 03/85] fix: is_ten_percent_rule accepts ply counts exactly at
 the +-45 limit

---
 src/guidelines/ten_percent_rule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 992c503..660b90b 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -114,11 +114,11 @@ def is_ten_percent_rule(
             percent_45 = n_plies_per_angle[constraints.index45] / n_total
             percent_90 = n_plies_per_angle[constraints.index90] / n_total
             percent_135 = n_plies_per_angle[constraints.index135] / n_total
-            if percent_0 < constraints.percent_0 \
-            or percent_45 < constraints.percent_45 \
-            or percent_90 < constraints.percent_90 \
-            or percent_135 < constraints.percent_135 \
-            or percent_45 + percent_135 < constraints.percent_45_135:
+            if percent_0 + 1e-15 < constraints.percent_0 \
+            or percent_45 + 1e-15 < constraints.percent_45 \
+            or percent_90 + 1e-15 < constraints.percent_90 \
+            or percent_135 + 1e-15 < constraints.percent_135 \
+            or percent_45 + percent_135 + 1e-15 < constraints.percent_45_135:
                 return False
         return True
 
-- 
2.43.0


From 832e8b73daf801f422aa8f3c307417635019dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 04/85] fix: calc_penalty_10_ss accepts lists of stacks when no
 percentage is set

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 660b90b..6abab6d 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -235,7 +235,7 @@ def calc_penalty_10_ss(ss, constraints, LPs=None, mp=False):
 
     if not mp:
         return 0
-    return np.zeros((ss.shape[0],))
+    return np.zeros((len(ss),))
 
 
 def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
-- 
2.43.0


From e66c0dd76564581ec4b3776f7d705044a5a30ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 05/85] fix: calc_distance_Abdalla bounds the straight edge by
 the region corners

---
 src/guidelines/ten_percent_rule_Abdalla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule_Abdalla.py b/src/guidelines/ten_percent_rule_Abdalla.py
index 2ebb91b..34f798a 100644
--- a/src/guidelines/ten_percent_rule_Abdalla.py
+++ b/src/guidelines/ten_percent_rule_Abdalla.py
@@ -73,7 +73,7 @@ def calc_distance_Abdalla(LPs, constraints, num=10000):
         and 1 - 4 * constraints.percent_Abdalla - LPs[1] + 1e-15 > 0:
             return 0
 
-        LP1_max = math.sqrt(1 - 4 * constraints.percent_Abdalla)
+        LP1_max = 1 - 4 * constraints.percent_Abdalla
         LP1_min = - LP1_max
 
         def point_parabola_Abdalla(LP1, constraints):
-- 
2.43.0


From 4dbb6c5bc1f3d76da9785b3f04273780fb220b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 06/85] fix: calc_distance_Abdalla uses the parabola of the
 admissible region

---
 src/guidelines/ten_percent_rule_Abdalla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule_Abdalla.py b/src/guidelines/ten_percent_rule_Abdalla.py
index 34f798a..27b38a8 100644
--- a/src/guidelines/ten_percent_rule_Abdalla.py
+++ b/src/guidelines/ten_percent_rule_Abdalla.py
@@ -77,7 +77,7 @@ def calc_distance_Abdalla(LPs, constraints, num=10000):
         LP1_min = - LP1_max
 
         def point_parabola_Abdalla(LP1, constraints):
-            LP2 = 2 * (LP1 / (1 - 4 * constraints.percent_Abdalla)) **2 \
+            LP2 = 2 * LP1**2 / (1 - 4 * constraints.percent_Abdalla) \
             - (1 - 4 * constraints.percent_Abdalla)
             return np.array([LP1, LP2])
 
-- 
2.43.0


From 801ba80166e89b0e5e0c304a3dbf30b1287b9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 07/85] fix: external_contig filters the second sublaminate
 with the first

---
 src/guidelines/external_contig.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/guidelines/external_contig.py b/src/guidelines/external_contig.py
index b6ba1aa..1ed53e1 100644
--- a/src/guidelines/external_contig.py
+++ b/src/guidelines/external_contig.py
@@ -389,6 +389,7 @@ sublaminate
                             if  angle[ii, 0] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 3:
@@ -401,6 +402,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -414,6 +416,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -428,6 +431,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1]\
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -443,6 +447,7 @@ sublaminate
                             and angle[ii, 4] == ss_before[-1] \
                             and angle[ii, 5] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -458,6 +463,7 @@ sublaminate
                         if  angle[ii, 0] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-2]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 3:
@@ -470,6 +476,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -483,6 +490,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
 
@@ -498,6 +506,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -513,6 +522,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1] \
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -532,6 +542,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 4:
@@ -545,6 +556,7 @@ sublaminate
                             and ss_before[-3] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -559,6 +571,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -574,6 +587,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1]  \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -597,6 +611,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 5:
@@ -611,6 +626,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -626,6 +642,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
                 else:
                     raise Exception(
@@ -652,6 +669,7 @@ sublaminate
                         and ss_before[-2] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 6:
@@ -667,6 +685,7 @@ sublaminate
                             and angle[ii, 0] == ss_before[-5] \
                             and angle[ii, 1] == ss_before[-5]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -698,6 +717,7 @@ sublaminate
                         and angle[ii, 0] == ss_before[-5]  \
                         and ss_before[-6] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 else:
-- 
2.43.0


From 0f325309343103e742c8c10f16271c6803747a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 08/85] fix: panel weightings aggregate over all the panels of
 the structure

---
 src/BELLA/reduced_multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/reduced_multipanels.py b/src/BELLA/reduced_multipanels.py
index c5dfcf1..40b5d17 100644
--- a/src/BELLA/reduced_multipanels.py
+++ b/src/BELLA/reduced_multipanels.py
@@ -158,7 +158,7 @@ The panel ply counts are not compatible with guide-based blending (middle ply)""
         parameters are aggregated
         """
         self.actual_panel_weightings = np.zeros((self.n_panels,))
-        for ind_panel, panel in enumerate(self.panels):
+        for ind_panel, panel in enumerate(multipanel.panels):
             self.actual_panel_weightings[
                 self.ind_panels_guide[ind_panel]] += panel.weighting
 
-- 
2.43.0


From 9e2a90bc380b2c6b92ce107f8f164b31dd57a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 09/85] fix: a better imperfect ply-drop layout replaces the
 worst stored one

---
 src/BELLA/pdl_group.py | 2 +-
 src/BELLA/pdl_ini.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index d7f2f94..f12521e 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -250,7 +250,7 @@ def randomly_pdl_guide(
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_spacing_imperfect)
+                    indexx = np.argmax(p_spacing_imperfect)
                     pdl_imperfect[indexx] = new_pdl
                     p_spacing_imperfect[indexx] = p_spacing
             else:
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index a4b7142..122b56c 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -160,7 +160,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_pdls_imperfect)
+                    indexx = np.argmax(p_pdls_imperfect)
                     pdls_imperfect[indexx] = new_pdl
                     p_pdls_imperfect[indexx] = new_penalty_spacing
             else:
-- 
2.43.0


From 408a9bb1c4e19815e113e2a62fef7e81f97fef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 10/85] fix: read_pdls_excel returns each layout of the file
 once

---
 src/BELLA/pdl_ini.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 122b56c..284186a 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -52,11 +52,9 @@ def read_pdls_excel(filename):
                 header=None, )
         except:
             break
-        finally:
-            ind_pdl += 1
-            pdls.append(np.array(pdl))
-    ind_pdl -= 2
-    print('    ' + str(ind_pdl) + ' intial ply-drop layouts read.')
+        ind_pdl += 1
+        pdls.append(np.array(pdl))
+    print('    ' + str(len(pdls)) + ' intial ply-drop layouts read.')
     return pdls
 
 
-- 
2.43.0


From 701e76f1f1e4e5ab9736641af3c50568101eb9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 11/85] fix: boundary weightings given in either panel order,
 zero included

---
 src/BELLA/multipanels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/multipanels.py b/src/BELLA/multipanels.py
index 0ba76b4..99a7e05 100644
--- a/src/BELLA/multipanels.py
+++ b/src/BELLA/multipanels.py
@@ -182,7 +182,7 @@ The panels of the multipanel-component are not all connected!""")
                 ind_panel1_mod, ind_panel2_mod = sorted((ind_panel1_mod,
                                                          ind_panel2_mod))
                 weight = boundary_weights.get((ind_panel1, ind_panel2), None)
-                if weight:
+                if weight is not None:
                     self.boundary_weights_in_IDs[
                         (ind_panel1, ind_panel2)] = weight
                     self.boundary_weights[
@@ -190,12 +190,12 @@ The panels of the multipanel-component are not all connected!""")
                 else:
                     weight = boundary_weights.get(
                         (ind_panel2, ind_panel1), None)
-                    if not weight:
+                    if weight is None:
                         raise Exception('Missing boundary weightings.')
                     self.boundary_weights_in_IDs[
                         (ind_panel2, ind_panel1)] = weight
                     self.boundary_weights[
-                        (ind_panel2_mod, ind_panel1_mod)] = weight
+                        (ind_panel1_mod, ind_panel2_mod)] = weight
 
         else:  # all boundary weightings set to one
             for ind_panel1, ind_panel2 in self.boundaries_in_IDs:
-- 
2.43.0


From 6469e72a3b9e23cd6d5ae79fae326f33acd95563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 12/85] fix: randomly_pdl_guide drops the middle ply of the
 panels without one

---
 src/BELLA/pdl_group.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index f12521e..24dad51 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -167,14 +167,6 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
-        if last_group and has_middle_ply:
-            middle = -(middle_ply_indices[:-1] != 0).astype(int)
-#            print('middle', middle)
-            middle = middle.reshape((new_pdl.shape[0], 1))
-#            print('middle', middle)
-            new_pdl = np.hstack((new_pdl, middle))
-
-
         # Formatting the ply drop layout so that a ply drop scheme is
         # associated to each panel boundary
         new_pdl = ply_drops_at_each_boundaries(
@@ -183,6 +175,11 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
+        # the middle ply covers the panels with an odd number of plies
+        if last_group and has_middle_ply:
+            middle = np.where(middle_ply_indices != 0, n_max, -1)
+            new_pdl = np.hstack((new_pdl, middle.reshape((-1, 1))))
+
         # Application ply drop spacing and stacking rules:
         #   - Ply drops should be separated by at least min_drop plies
 
-- 
2.43.0


From c322764599a8b7d113e78977a23c0822f80b7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 13/85] fix: fewer distinct ply-drop layouts than requested are
 returned without duplicates

---
 src/BELLA/optimiser.py | 2 ++
 src/BELLA/pdl_group.py | 5 +++--
 src/BELLA/pdl_ini.py   | 7 ++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index b8d152e..e77d329 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -69,6 +69,8 @@ def BELLA_optimiser(
         divide_panels(multipanel, parameters, constraints)
         pdls_ini = create_initial_pdls(
             multipanel, constraints, parameters, obj_func_param)
+        # number of initial ply drops to be tested
+        parameters.n_ini_ply_drops = len(pdls_ini)
     else:
         # read initial ply-drop layouts
         pdls_ini = read_pdls_excel(filename_initial_pdls)
diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index 24dad51..8afd445 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -288,11 +288,12 @@ Too many ply drops between two adjacent panels.""")
 
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, n_pdl_max):
+        n_pdl = min(n_pdl, ind_perfect + ind_imperfect)
+        for ind in range(ind_perfect, n_pdl):
             indexx = np.argmin(p_spacing_imperfect)
             pdl_perfect[ind] = pdl_imperfect[indexx]
             p_spacing_imperfect[indexx] = 10e6
 
-        return pdl_perfect
+        return pdl_perfect[:n_pdl]
     # if enough manufacturable ply drop layouts have been found
     return pdl_perfect
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 284186a..ea8abfd 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -192,17 +192,18 @@ No conform ply drop layout can be generated.
 Too many ply drops between two adjacent panels.""")
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, parameters.n_ini_ply_drops):
+        n_pdls = min(parameters.n_ini_ply_drops, ind_perfect + ind_imperfect)
+        for ind in range(ind_perfect, n_pdls):
             indexx = np.argmin(p_pdls_imperfect)
             pdls_perfect[ind] = pdls_imperfect[indexx]
             p_pdls_imperfect[indexx] = 10e6
 
         print('    ' + str(ind_perfect) \
           + ' feasible intial ply-drop layouts generated.')
-        print('    ' + str(parameters.n_ini_ply_drops - ind_perfect) \
+        print('    ' + str(n_pdls - ind_perfect) \
           + ' infeasible intial ply-drop layouts generated.')
 
-        return pdls_perfect
+        return pdls_perfect[:n_pdls]
 
     # if enough manufacturable ply drop layouts have been found
     print('    ' + str(parameters.n_ini_ply_drops) \
-- 
2.43.0


From f951f7bb79a40e6955ef241a05fc253d7b6dd468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 14/85] fix: check_ply_drop_rules checks the covering rule on
 all covering plies

---
 src/guidelines/one_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index 789876a..e207b09 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -81,7 +81,9 @@ def check_ply_drop_rules(reduced_sst, multipanel, constraints, reduced=True):
     reduced = True if the function is applied to the blending strip
     """
     if constraints.covering:
-        if (reduced_sst[:, 0] == -1).any() or (reduced_sst[:, -1] == -1).any():
+        n_covering = constraints.n_covering
+        if (reduced_sst[:, :n_covering] == -1).any() \
+        or (reduced_sst[:, -n_covering:] == -1).any():
             raise Exception("Covering constraint not satisfied")
 
     if  constraints.pdl_spacing:
-- 
2.43.0


From f0ba5c191bbaa9a676d4322938f808e9fdea7b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 15/85] fix: appending to Excel files works with the current
 pandas writer interface

---
 src/divers/excel.py | 41 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/divers/excel.py b/src/divers/excel.py
index e4419a0..8b575f0 100644
--- a/src/divers/excel.py
+++ b/src/divers/excel.py
@@ -28,14 +28,13 @@ def autofit_column_widths(filename):
     """
     autofits the column widths in an excel file
     """
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    writer.book = load_workbook(filename)
-    sheetnames = writer.book.sheetnames
+    book = load_workbook(filename)
+    sheetnames = book.sheetnames
 
 #    for worksheet in writer.book[sheetnames]: # NO !
 
     for ind_sheet in range(len(sheetnames)):
-        worksheet = writer.book[sheetnames[ind_sheet]]
+        worksheet = book[sheetnames[ind_sheet]]
 
         for col in worksheet.columns:
             max_length = 0
@@ -52,7 +51,7 @@ def autofit_column_widths(filename):
             adjusted_width = (max_length + 2)
             worksheet.column_dimensions[column].width = adjusted_width
 
-    writer.save()
+    book.save(filename)
     return 0
 
 
@@ -102,15 +101,13 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
     # ignore [engine] parameter if it was passed
     if 'engine' in to_excel_kwargs:
         to_excel_kwargs.pop('engine')
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    # Python 2.x: define [FileNotFoundError] exception if it doesn't exist
-    try:
-        FileNotFoundError
-    except NameError:
-        FileNotFoundError = IOError
-    try:
-        # try to open an existing workbook
-        writer.book = load_workbook(filename)
+    if os.path.exists(filename):
+        # keep the existing sheets and write over/below their content
+        mode = {'mode': 'a', 'if_sheet_exists': 'overlay'}
+    else:
+        # file does not exist yet, we will create it
+        mode = {}
+    with pd.ExcelWriter(filename, engine='openpyxl', **mode) as writer:
         # get the last row in the existing Excel sheet
         # if it was not specified explicitly
         if startrow is None and sheet_name in writer.book.sheetnames:
@@ -123,17 +120,11 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
             writer.book.remove(writer.book.worksheets[idx])
             # create an empty sheet [sheet_name] using old index
             writer.book.create_sheet(sheet_name, idx)
-        # copy existing sheets
-        writer.sheets = {ws.title:ws for ws in writer.book.worksheets}
-    except FileNotFoundError:
-        # file does not exist yet, we will create it
-        pass
-    if startrow is None:
-        startrow = 0
-    # write out the new sheet
-    dataf.to_excel(writer, sheet_name, startrow=startrow, **to_excel_kwargs)
-    # save the workbook
-    writer.save()
+        if startrow is None:
+            startrow = 0
+        # write out the new sheet
+        dataf.to_excel(writer, sheet_name=sheet_name, startrow=startrow,
+                       **to_excel_kwargs)
 
 if __name__ == "__main__":
     print('When two pages are saved successively, the first page is lost')
-- 
2.43.0


From a781f00802ba6907eb67ef5474c5c186863dbec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 16/85] fix: divide_panels plans at least as many ply drops per
 group in thinner panels

---
 src/BELLA/divide_panels.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index 38a4807..9ff2410 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -249,7 +249,11 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
     #===================
     # Division of other panels into groups of plies
     #===================
-    for ind_panel, panel in enumerate(multipanel.reduced.panels):
+    # ply drops of the next thicker panel: the thinner panels have to drop at
+    # least as many plies in each group
+    n_ply_drops_thicker = np.zeros((multipanel.reduced.n_groups,))
+    for panel in sorted(multipanel.reduced.panels,
+                        key=lambda panel: panel.n_plies, reverse=True):
         # ----- if panel is one of the thickest panels ----- #
         if panel.n_plies == multipanel.n_plies_max:
             #--------------------------
@@ -316,6 +320,16 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
                         if missing == 0:
                             break
                 iteration += 1
+            # layouts cannot be nested if a thicker panel drops more plies in a
+            # group: add ply drops to those of the thicker panel instead, in
+            # the groups that miss most of their share
+            if (n_ply_drops < n_ply_drops_thicker).any():
+                n_ply_drops_total = np.sum(n_ply_drops)
+                n_ply_drops = np.copy(n_ply_drops_thicker)
+                while np.sum(n_ply_drops) < n_ply_drops_total:
+                    n_ply_drops[np.argmax(
+                        n_drops*percent_thickness - n_ply_drops)] += 1
+            n_ply_drops_thicker = n_ply_drops
             # Here, panel.n_ply_drops = chosen combination of ply drops
             panel.n_ply_drops = n_ply_drops
             #--------------------------
-- 
2.43.0


From 15696f022eaa6b22c1c38ab9fb693166e8678edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 17/85] fix: pdl_tools imports numpy.matlib, which it uses

---
 src/BELLA/pdl_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index adea881..5100c79 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -29,6 +29,7 @@ Guidelines:
 """
 import sys
 import numpy as np
+import numpy.matlib
 
 sys.path.append(r'C:\BELLA')
 from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss
-- 
2.43.0


From 9532060f6fa76ed42a41fba2081850fede06b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 18/85] fix: ply-drop spacing penalty of a boundary without
 plies is zero

---
 src/guidelines/ply_drop_spacing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/guidelines/ply_drop_spacing.py b/src/guidelines/ply_drop_spacing.py
index d8fdd5e..0ef2c0d 100644
--- a/src/guidelines/ply_drop_spacing.py
+++ b/src/guidelines/ply_drop_spacing.py
@@ -132,6 +132,8 @@ def calc_penalty_spacing_1ss(ss, min_drop):
     of dropped plies
     """
     penal = 0
+    if ss.size == 0: # none of the two panels is covered
+        return 0
     # indentify index of the successive -1 elements in the array
     index1 = 0
     while index1 < ss.size:
-- 
2.43.0


From 034cd5e83dad86477f79dc784cfe4a44b61a58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 19/85] fix: BELLA pruning looked at too few plies at the
 mid-plane of thin laminates

---
 src/BELLA/pruning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index b55f88d..04a0b8a 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -179,7 +179,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with no middle ply
             if constraints.sym and not has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -192,7 +192,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with middle ply
             elif constraints.sym and has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -203,7 +203,7 @@ def pruning_diso_contig_damtol(
 
             else: # not symmetric
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
-- 
2.43.0


From e85d3e5253cc38e9b475e030df362101775210fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 20/85] fix: BELLA pruning mixed up the plies of asymmetric
 laminates

---
 src/BELLA/pruning.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 04a0b8a..7bdc5f8 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -29,7 +29,7 @@ def pruning_diso_contig_damtol(
     INPUTS:
 
     - child_ss: possible fibre orientations for the new ply
-    - level: level in the beam search tree
+    - level: position in the guide stack of the ply being optimised
     - constraints: set of design guidelines
     - n_plies_to_optimise: number of plies to optimise during BELLA step 2
     - mother_ss_bot: beginning of the partial lay-up of the ply group being
@@ -38,6 +38,15 @@ def pruning_diso_contig_damtol(
     design
     - has_middle_ply: True if one panel at least has a middle ply
     '''
+    # plies of asymmetric laminates are determined alternately from the bottom
+    # and the top of the laminate, hence the last ply lies at mid-thickness
+    if constraints.sym:
+        last_ply = level == n_plies_to_optimise - 1
+        bottom_ply = True
+    else:
+        last_ply = level == n_plies_to_optimise // 2
+        bottom_ply = level < n_plies_to_optimise // 2 + n_plies_to_optimise % 2
+
     # =========================================================================
     #       pruning for middle ply symmetry
     # =========================================================================
@@ -119,7 +128,7 @@ def pruning_diso_contig_damtol(
     #       pruning for disorientation
     # =========================================================================
     if constraints.diso:
-        if constraints.sym or level % 2 == 0: # plies at bottom part
+        if bottom_ply: # plies at bottom part
             #   externally with mother_ss_bot
             if mother_ss_bot.size > 0:
                 for ind in range(child_ss.size)[:: -1]:
@@ -135,9 +144,9 @@ def pruning_diso_contig_damtol(
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        if not constraints.sym and level == n_plies_to_optimise - 1:
+        if not constraints.sym and last_ply:
             # last ply asymmetric laminates
-            if level % 2 == 1: # top part
+            if not bottom_ply: # top part
                 for ind in range(child_ss.size)[:: -1]:
                     if not is_diso(child_ss[ind], mother_ss_bot[-1],
                                    constraints.delta_angle):
@@ -156,21 +165,20 @@ def pruning_diso_contig_damtol(
     if constraints.contig:
 
         # not last ply
-        if not level == n_plies_to_optimise - 1:
+        if not last_ply:
 
             # general case
-            if constraints.sym or level % 2 == 0: # bottom ply
-
-                for ind in range(child_ss.size)[:: -1]:
-                    #   externally with mother_ss_bot
-                    test, _ = external_contig(
-                        angle=np.array((child_ss[ind],)),
-                        n_plies_group=1,
-                        constraints=constraints,
-                        ss_before=mother_ss_bot)
-                    if test.size == 0:
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-                        continue
+            for ind in range(child_ss.size)[:: -1]:
+                #   externally with mother_ss_bot or mother_ss_top
+                test, _ = external_contig(
+                    angle=np.array((child_ss[ind],)),
+                    n_plies_group=1,
+                    constraints=constraints,
+                    ss_before=mother_ss_bot if bottom_ply \
+                    else np.flip(mother_ss_top, axis=0))
+                if test.size == 0:
+                    child_ss = np.delete(child_ss, np.s_[ind], axis=0)
+                    continue
 
 
         # last ply
-- 
2.43.0


From 7d9a1730d0078d51c39330f5a667b97f0b12cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 21/85] fix: pruning of the last ply of asymmetric laminates
 raised TypeError

---
 src/BELLA/pruning.py     | 2 +-
 src/LAYLA_V02/pruning.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 7bdc5f8..1be5e07 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -215,7 +215,7 @@ def pruning_diso_contig_damtol(
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
-                            new_stack=np.hstack((
+                            stack=np.hstack((
                                 ss_before, child_ss[ind], ss_after)),
                             constraints=constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index f2faa78..906c231 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -252,7 +252,7 @@ def pruning_diso_contig_damtol(
 
             for ind in range(child_ss.size)[:: -1]:
                 if not internal_contig2(
-                        new_stack=np.hstack((
+                        stack=np.hstack((
                             ss_before, child_ss[ind], ss_after)),
                         constraints=constraints):
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-- 
2.43.0


From bf322bf762d2420af86075afd2fd8846a8f512d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 22/85] fix: LAYLA pruning looked at too few plies at the
 mid-plane of thin laminates

---
 src/LAYLA_V02/pruning.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index 906c231..dc6a0bc 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -205,13 +205,9 @@ def pruning_diso_contig_damtol(
         elif constraints.sym \
         and level == targets.n_plies // 2 + targets.n_plies % 2 - 1:
 
-            ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
-            if ss_before.size < constraints.n_contig:
-                ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
-                    ss_before))
+            ss_before = np.hstack((ss_bot_simp, mother_ss_bot))
+            ss_before = ss_before[
+                max(0, ss_before.size - constraints.n_contig):]
 
             if targets.n_plies % 2 == 0: # no middle ply
 
@@ -236,19 +232,12 @@ def pruning_diso_contig_damtol(
         # plies at the laminate bottom part and not last ply
         elif not constraints.sym and level == targets.n_plies - 1:
 
-            ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
-            if ss_before.size < constraints.n_contig:
-                ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
-                    ss_before))
-
-            ss_after = mother_ss_top[:constraints.n_contig]
-            if ss_after.size < constraints.n_contig:
-                ss_after = np.hstack((
-                    ss_after,
-                    ss_top_simp[:constraints.n_contig - ss_after.size:]))
+            ss_before = np.hstack((ss_bot_simp, mother_ss_bot))
+            ss_before = ss_before[
+                max(0, ss_before.size - constraints.n_contig):]
+
+            ss_after = np.hstack((mother_ss_top, ss_top_simp))
+            ss_after = ss_after[:constraints.n_contig]
 
             for ind in range(child_ss.size)[:: -1]:
                 if not internal_contig2(
-- 
2.43.0


From 07deec64b3ff767eb1df3672311b194075e55095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 23/85] fix: LAYLA pruning mixed up the plies of asymmetric
 laminates

---
 src/LAYLA_V02/pruning.py | 101 +++++++++++++++------------------------
 1 file changed, 38 insertions(+), 63 deletions(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index dc6a0bc..051b19c 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -29,7 +29,7 @@ def pruning_diso_contig_damtol(
 
     INPUTS
 
-    - level: level of the ply determination in the complete lay-up search tree
+    - level: position in the laminate of the ply being determined
     - child_ss: possible fibre angles for new level
     - ss_bot_simp: partial lay-up before the ply group being optimised
     - ss_top_simp: partial lay-up after the ply group being optimised
@@ -39,6 +39,18 @@ def pruning_diso_contig_damtol(
     - constraints: lay-up design guidelines
     - targets.n_plies: laminate target ply counts
     '''
+    # plies of asymmetric laminates are determined alternately from the bottom
+    # and the top of the laminate, hence the last ply lies at mid-thickness
+    if constraints.sym:
+        last_ply = level == targets.n_plies // 2 + targets.n_plies % 2 - 1
+        bottom_ply = True
+    else:
+        last_ply = level == targets.n_plies // 2
+        bottom_ply = level < targets.n_plies // 2 + targets.n_plies % 2
+
+    ss_bot = np.hstack((ss_bot_simp, mother_ss_bot))
+    if not constraints.sym:
+        ss_top = np.hstack((mother_ss_top, ss_top_simp))
 # =============================================================================
 #       pruning for middle ply symmetry
 # =============================================================================
@@ -74,7 +86,7 @@ def pruning_diso_contig_damtol(
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-                        if child_ss[ind] != - mother_ss_bot[0]:
+                        if child_ss[ind] != - ss_bot[0]:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
                 elif constraints.dam_tol_rule == 3:
@@ -85,7 +97,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_bot[0]:
+                            if child_ss[ind] != - ss_bot[0]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
@@ -97,7 +109,7 @@ def pruning_diso_contig_damtol(
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-                        if child_ss[ind] != - mother_ss_top[-1]:
+                        if child_ss[ind] != - ss_top[-1]:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
                 elif constraints.dam_tol_rule == 3:
@@ -108,7 +120,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_top[-1]:
+                            if child_ss[ind] != - ss_top[-1]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
@@ -120,44 +132,30 @@ def pruning_diso_contig_damtol(
 #       pruning for disorientation
 # =============================================================================
     if constraints.diso:
-        if constraints.sym or level % 2: # plies at the laminate bottom part
-            #   externally with ss_bot_simp
-            if ss_bot_simp.size > 0 and mother_ss_bot.size == 0:
+        if bottom_ply: # plies at the laminate bottom part
+            if ss_bot.size > 0:
                 for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], ss_bot_simp[-1],
-                                   constraints.delta_angle):
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-            #   internally
-            elif mother_ss_bot.size > 0:
-                for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_bot[-1],
+                    if not is_diso(child_ss[ind], ss_bot[-1],
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
         else: # asymetric laminate top part
-            #   externally with ss_top_simp
-            if ss_top_simp.size > 0 and mother_ss_top.size == 0:
+            if ss_top.size > 0:
                 for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], ss_top_simp[0],
-                                   constraints.delta_angle):
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-            #   internally
-            if mother_ss_top.size > 0:
-                for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_top[0],
+                    if not is_diso(child_ss[ind], ss_top[0],
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        if not constraints.sym and level == targets.n_plies - 1:
+        if not constraints.sym and last_ply:
             # last ply asymmetric laminates
-            if not level % 2: # check compatibility with laminate bottom part
+            if not bottom_ply: # check compatibility with laminate bottom part
                 for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_bot[-1],
+                    if not is_diso(child_ss[ind], ss_bot[-1],
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
             else: # check compatibility with laminate top part
                 for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_top[0],
+                    if not is_diso(child_ss[ind], ss_top[0],
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
@@ -168,46 +166,25 @@ def pruning_diso_contig_damtol(
 # =============================================================================
     if constraints.contig:
 
-        # laminate bottom part but not last ply
-        if (constraints.sym \
-            and not level == targets.n_plies // 2 + targets.n_plies % 2 - 1)\
-        or (not constraints.sym and not level == targets.n_plies - 1):
-
-            for ind in range(child_ss.size)[:: -1]:
-                #   externally with ss_bot_simp
-                test, _ = external_contig(
-                    angle=np.array((child_ss[ind],)),
-                    n_plies_group=1,
-                    constraints=constraints,
-                    ss_before=np.hstack((ss_bot_simp, mother_ss_bot)))
-                if test.size == 0:
-                    child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-                    continue
-
-        # plies at the laminate bottom part but not last ply
-        elif not constraints.sym and not level % 2 \
-        and not level == targets.n_plies - 1:
+        # not last ply
+        if not last_ply:
 
             for ind in range(child_ss.size)[:: -1]:
-
-                #   externally with ss_top_simp
                 test, _ = external_contig(
                     angle=np.array((child_ss[ind],)),
                     n_plies_group=1,
                     constraints=constraints,
-                    ss_before=np.flip(
-                        np.hstack((mother_ss_top, ss_top_simp)), axis=0))
+                    ss_before=ss_bot if bottom_ply \
+                    else np.flip(ss_top, axis=0))
                 if test.size == 0:
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
                     continue
 
         # last ply of symmetric laminate
-        elif constraints.sym \
-        and level == targets.n_plies // 2 + targets.n_plies % 2 - 1:
+        elif constraints.sym:
 
-            ss_before = np.hstack((ss_bot_simp, mother_ss_bot))
-            ss_before = ss_before[
-                max(0, ss_before.size - constraints.n_contig):]
+            ss_before = ss_bot[
+                max(0, ss_bot.size - constraints.n_contig):]
 
             if targets.n_plies % 2 == 0: # no middle ply
 
@@ -229,15 +206,13 @@ def pruning_diso_contig_damtol(
                     if not internal_contig2(new_stack, constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        # plies at the laminate bottom part and not last ply
-        elif not constraints.sym and level == targets.n_plies - 1:
+        # last ply of asymmetric laminate
+        else:
 
-            ss_before = np.hstack((ss_bot_simp, mother_ss_bot))
-            ss_before = ss_before[
-                max(0, ss_before.size - constraints.n_contig):]
+            ss_before = ss_bot[
+                max(0, ss_bot.size - constraints.n_contig):]
 
-            ss_after = np.hstack((mother_ss_top, ss_top_simp))
-            ss_after = ss_after[:constraints.n_contig]
+            ss_after = ss_top[:constraints.n_contig]
 
             for ind in range(child_ss.size)[:: -1]:
                 if not internal_contig2(
-- 
2.43.0


From 731e681e67676a7f753c5998c65718bce7714164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 24/85] fix: LAYLA beam search put plies of asymmetric
 laminates on the wrong side

---
 src/LAYLA_V02/beam_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 36267fc..25d3430 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -231,7 +231,7 @@ def beam_search(
                     new_stack_bot = np.copy(mother_ss_bot)
                     new_stack_top = np.copy(mother_ss_top)
 
-                    if local_level % 2:
+                    if level >= targets.n_plies // 2 + targets.n_plies % 2:
                         new_stack_top = np.hstack((
                             child_ss[indd], new_stack_top))
                     else:
-- 
2.43.0


From 557adaef73e1701157fb2b555b7b3b5c0cc48909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 25/85] fix: BELLA beam search put plies of asymmetric
 laminates on the wrong side

---
 src/BELLA/optimiser_with_one_pdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index e8fd032..4298030 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -227,7 +227,8 @@ def BELLA_optimiser_one_pdl(
                     ss_top = list(mother_ss_top)
                     ss_bot = list(mother_ss_bot)
 
-                    if level % 2 == 0:
+                    if level < n_plies_to_optimise // 2 \
+                    + n_plies_to_optimise % 2:
                         for ind_panel in range(multipanel.reduced.n_panels):
                             if pdl[ind_panel, level] >= 0:
                                 ss_bot[ind_panel] = np.hstack((
-- 
2.43.0


From bbfeacaf71ef4fb3cfe0399e7b8d59139262bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 26/85] fix: repair for the 10% rule of Abdalla never ended
 when the rule cannot be met

---
 src/RELAY/repair_10_bal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 90b1f7a..ebc83b3 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -90,6 +90,9 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         # attempts at modifying a couple of angled plies
         ind_pos_angle1, ind_pos_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
+        # if no modification brings the laminate closer to the feasible region
+        if dist_10_options[ind_pos_angle1, ind_pos_angle2] > dist_10 - 1e-10:
+            break
         angle1 = constraints.pos_angles[ind_pos_angle1]
         angle2 = constraints.pos_angles[ind_pos_angle2]
 #        print('angle1', angle1, 'angle2', angle2)
@@ -271,6 +274,9 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
         # attempts at modifying a couple of angled plies
         ind_angle1, ind_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
+        # if no modification brings the laminate closer to the feasible region
+        if dist_10_options[ind_angle1, ind_angle2] > dist_10 - 1e-10:
+            break
         angle1 = constraints.set_of_angles[ind_angle1]
         angle2 = constraints.set_of_angles[ind_angle2]
 #        print('test  angle1', angle1, 'to angle2', angle2)
-- 
2.43.0


From 7853f0ed4a9431c186ff929aec7988e3e7481e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 27/85] fix: repair for disorientation applied the rules to the
 outermost plies of damage tolerance rules 2 and 3

---
 src/RELAY/repair_from_outside_asym.py | 2 +-
 src/RELAY/repair_from_outside_sym.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index eb35f68..10c647a 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -175,7 +175,7 @@ def repair_diso_contig_from_outside_asym(
         and constraints.dam_tol_rule in {2, 3}:
             mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
             mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
+        elif not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
             mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
             mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index 394d164..e77b10a 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -67,7 +67,7 @@ def repair_diso_contig_from_outside_sym(
                     and constraints.dam_tol_rule in {2, 3}:
                         mini = max(1,
                                    stack_test.size - constraints.n_contig - 1)
-                    if not hasattr(constraints, 'dam_tol_rule') and \
+                    elif not hasattr(constraints, 'dam_tol_rule') and \
                     constraints.n_plies_dam_tol == 2:
                         mini = max(1,
                                    stack_test.size - constraints.n_contig - 1)
@@ -102,7 +102,7 @@ def repair_diso_contig_from_outside_sym(
                         and constraints.dam_tol_rule in {2, 3}:
                             mini = max(1,
                                        stack_test.size - constraints.n_contig - 1)
-                        if not hasattr(constraints, 'dam_tol_rule') and \
+                        elif not hasattr(constraints, 'dam_tol_rule') and \
                         constraints.n_plies_dam_tol == 2:
                             mini = max(1,
                                        stack_test.size - constraints.n_contig - 1)
@@ -160,7 +160,7 @@ def repair_diso_contig_from_outside_sym(
         if hasattr(constraints, 'dam_tol_rule') \
         and constraints.dam_tol_rule in {2, 3}:
             mini = max(1, stack.size - real_n_D1 - 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
+        elif not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
             mini = max(1, stack.size - real_n_D1 - 1)
         else:
-- 
2.43.0


From 04341ce741301cfb7cd3e0818919dd6aa16038b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 28/85] fix: repair for contiguity missed blocks of plies at
 the ends of the last permutation

---
 src/RELAY/repair_from_outside_asym.py | 19 +++++++++++--------
 src/RELAY/repair_from_outside_sym.py  | 18 +++++++++---------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index 10c647a..fbb764a 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -170,21 +170,24 @@ def repair_diso_contig_from_outside_asym(
 #    print('remaining_plies', remaining_plies)
 
 
+    # number of already determined plies to be considered on each side of the
+    # group of innermost plies for checking the contiguity rule
+    n_plies_around = max(real_n_D1, constraints.n_contig) + 1
     if constraints.dam_tol:
         if hasattr(constraints, 'dam_tol_rule') \
         and constraints.dam_tol_rule in {2, 3}:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
+            mini_bottom = max(1, stack_top.size - n_plies_around)
+            mini_top = min(stack_bottom.size - 1, n_plies_around)
         elif not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
+            mini_bottom = max(1, stack_top.size - n_plies_around)
+            mini_top = min(stack_bottom.size - 1, n_plies_around)
         else:
-            mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size, real_n_D1 + 1)
+            mini_bottom = max(0, stack_top.size - n_plies_around)
+            mini_top = min(stack_bottom.size, n_plies_around)
     else:
-        mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-        mini_top = min(stack_bottom.size, real_n_D1 + 1)
+        mini_bottom = max(0, stack_top.size - n_plies_around)
+        mini_top = min(stack_bottom.size, n_plies_around)
 
     ind_2 = np.sort(ind_2)
     for elem in itertools.permutations(
diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index e77b10a..06bfe5b 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -156,17 +156,20 @@ def repair_diso_contig_from_outside_sym(
             remaining_plies[counter] = ply_queue.pop(0)
 #    print('remaining_plies', remaining_plies)
 
+    # number of already determined plies to be considered for checking the
+    # contiguity rule across the ends of the group of innermost plies
+    n_plies_before = max(real_n_D1, constraints.n_contig) + 1
     if constraints.dam_tol:
         if hasattr(constraints, 'dam_tol_rule') \
         and constraints.dam_tol_rule in {2, 3}:
-            mini = max(1, stack.size - real_n_D1 - 1)
+            mini = max(1, stack.size - n_plies_before)
         elif not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
-            mini = max(1, stack.size - real_n_D1 - 1)
+            mini = max(1, stack.size - n_plies_before)
         else:
-            mini = max(0, stack.size - real_n_D1 - 1)
+            mini = max(0, stack.size - n_plies_before)
     else:
-        mini = max(0, stack.size - real_n_D1 - 1)
+        mini = max(0, stack.size - n_plies_before)
 
     for elem in itertools.permutations(
         range(real_n_D1)):
@@ -175,12 +178,9 @@ def repair_diso_contig_from_outside_sym(
         stack_test = np.hstack((stack[mini:], ss_group))
         if ss.size % 2:
             stack_test = np.hstack((
-                stack_test, ss[ss.size // 2],
-                np.flip(stack_test[-real_n_D1:])))
+                stack_test, ss[ss.size // 2], np.flip(stack_test)))
         else:
-            stack_test = np.hstack((
-                stack_test,
-                np.flip(stack_test[-real_n_D1:])))
+            stack_test = np.hstack((stack_test, np.flip(stack_test)))
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
-- 
2.43.0


From 0958242f00e5c689256547e035d9d69dc0dd1e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 29/85] fix: outside-in repair of asymmetric laminates permuted
 plies of compliant laminates

---
 src/RELAY/repair_from_outside_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index fbb764a..9ad0e36 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -159,6 +159,7 @@ def repair_diso_contig_from_outside_asym(
 #    print_ss(stack_top)
 
     # plies at the centre all designed simultaneously
+    ind_2 = np.sort(ind_2)
     good_permut = []
     real_n_D1 = ind_2.size
     remaining_plies = np.empty((real_n_D1,), int)
@@ -189,7 +190,6 @@ def repair_diso_contig_from_outside_asym(
         mini_bottom = max(0, stack_top.size - n_plies_around)
         mini_top = min(stack_bottom.size, n_plies_around)
 
-    ind_2 = np.sort(ind_2)
     for elem in itertools.permutations(
         range(real_n_D1)):
 #        print('elem', elem)
-- 
2.43.0


From 1ae8f74eccc1a517f147e2c9f7462a171a9342f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 30/85] fix: inside-out repair of asymmetric laminates missed
 the junction with the bottom plies

---
 src/RELAY/repair_from_inside_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_from_inside_asym.py b/src/RELAY/repair_from_inside_asym.py
index 4aaff64..87cc75d 100644
--- a/src/RELAY/repair_from_inside_asym.py
+++ b/src/RELAY/repair_from_inside_asym.py
@@ -198,7 +198,7 @@ def repair_diso_contig_from_inside_asym(
             continue
         number = stack_test.size - 4 - real_n_D1 \
         - constraints.n_contig
-        if number > 0:
+        if number >= 0:
             stack_test_2 = stack_test[number:]
             if constraints.diso and not is_diso_ss(
                     stack_test_2, constraints.delta_angle, dam_tol=False):
-- 
2.43.0


From e9fb573b1aca6bd70cf86fc06199dcd1d5c27a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 31/85] fix: membrane repair of asymmetric laminates modified
 the outermost plies first

---
 src/RELAY/repair_10_bal.py                    | 7 ++-----
 src/RELAY/repair_membrane_1_ipo.py            | 4 +---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py    | 4 +---
 src/RELAY/repair_membrane_1_no_ipo.py         | 3 +--
 src/RELAY/repair_membrane_1_no_ipo_Abdalla.py | 3 +--
 5 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index ebc83b3..e88c766 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -72,7 +72,7 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         ss, n_plies, ply_queue, constraints)
 
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666) # plies of the queue first
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -174,8 +174,6 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('dist_10', dist_10)
@@ -260,7 +258,7 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666) # plies of the queue first
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -313,7 +311,6 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('dist_10', dist_10)
diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index aa88414..84a05c5 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -86,7 +86,7 @@ def repair_membrane_1_ipo(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666) # plies of the queue first
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -224,8 +224,6 @@ def repair_membrane_1_ipo(
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 9f07780..155958f 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -69,7 +69,7 @@ def repair_membrane_1_ipo_Abdalla(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666) # plies of the queue first
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -177,8 +177,6 @@ def repair_membrane_1_ipo_Abdalla(
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 8094363..9eef82a 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -73,7 +73,7 @@ def repair_membrane_1_no_ipo(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666) # plies of the queue first
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -159,7 +159,6 @@ def repair_membrane_1_no_ipo(
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
index a44095b..1265ef1 100644
--- a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
@@ -57,7 +57,7 @@ def repair_membrane_1_no_ipo_Abdalla(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666) # plies of the queue first
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -119,7 +119,6 @@ def repair_membrane_1_no_ipo_Abdalla(
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
-- 
2.43.0


From 7eac042d005dfa593b68173ad7b2f2930aef9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 32/85] fix: membrane repair overwrote the lamination
 parameters of the initial laminate

---
 src/RELAY/repair_membrane_1_ipo.py         | 2 +-
 src/RELAY/repair_membrane_1_ipo_Abdalla.py | 2 +-
 src/RELAY/repair_membrane_1_no_ipo.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 84a05c5..f644c77 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -78,7 +78,7 @@ def repair_membrane_1_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 155958f..2b2e44b 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -63,7 +63,7 @@ def repair_membrane_1_ipo_Abdalla(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     indices_1, indices_per_angle = calc_ind_plies(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 9eef82a..44c8840 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -65,7 +65,7 @@ def repair_membrane_1_no_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
-- 
2.43.0


From b259fb46afff5a4f4275498abdbb85df64bfced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 33/85] fix: membrane repair with the rule of Abdalla discarded
 the wrong option and never ended

---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 2b2e44b..b2a2a10 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -113,7 +113,7 @@ def repair_membrane_1_ipo_Abdalla(
         LPs = lampamA + lampamA_options[ind_pos_angle2] - lampamA_options[
             ind_pos_angle1]
         if calc_distance_Abdalla(LPs, constraints) > 1e-10:
-            objA_options[ind_angle1, ind_angle2] = 1e10
+            objA_options[ind_pos_angle1, ind_pos_angle2] = 1e10
             continue
 
 #        print('objA_options after clean', objA_options)
-- 
2.43.0


From 35fd36a8c05986c7ebdbbfd7f727aaa6f152c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 34/85] fix: membrane repair could break the 10% rule for the
 +-45 plies taken together

---
 src/RELAY/repair_membrane_1_no_ipo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 44c8840..1eb153b 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -110,15 +110,17 @@ def repair_membrane_1_no_ipo(
                 continue
             excess_10[1] -= 1
         elif angle1 == 45:
-            if excess_10[2] < 1:
+            if excess_10[2] < 1 or (angle2 != -45 and excess_10[4] < 1):
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[2] -= 1
+            excess_10[4] -= 1
         elif angle1 == -45:
-            if excess_10[3] < 1:
+            if excess_10[3] < 1 or (angle2 != 45 and excess_10[4] < 1):
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[3] -= 1
+            excess_10[4] -= 1
 
 #        print(angle1, ' plies changed into ', angle2, 'plies')
 #        print('ind_angle1', ind_angle1, 'ind_angle2', ind_angle2)
@@ -131,8 +133,10 @@ def repair_membrane_1_no_ipo(
             excess_10[1] += 1
         elif angle2 == 45:
             excess_10[2] += 1
+            excess_10[4] += 1
         elif angle2 == -45:
             excess_10[3] += 1
+            excess_10[4] += 1
 
         lampamA += lampamA_options[ind_angle2] - lampamA_options[ind_angle1]
         objA = objA_options[ind_angle1, ind_angle2]
-- 
2.43.0


From 191f8d44ddd27c624409c559f68aa44a5bb8f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 35/85] fix: membrane repair used functions it did not import

---
 src/RELAY/repair_membrane_1_ipo.py    | 1 +
 src/RELAY/repair_membrane_1_no_ipo.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index f644c77..5eecb06 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -23,6 +23,7 @@ from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_membrane_1_no_ipo import calc_excess_10
 from src.RELAY.repair_10_bal import calc_ind_plies
 from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_1
 from src.guidelines.ten_percent_rule import is_ten_percent_rule
 
 def repair_membrane_1_ipo(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 1eb153b..f63592c 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -22,6 +22,9 @@ from src.LAYLA_V02.constraints import Constraints
 from src.divers.pretty_print import print_ss
 from src.CLA.lampam_functions import calc_lampam
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import calc_ind_plies
+from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_3
 from src.RELAY.repair_tools import RepairError
 
 def repair_membrane_1_no_ipo(
-- 
2.43.0


From 8c53380a0baf5e7f3d808a468e362fae342cf86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 36/85] fix: block swaps of the flexural repair were assessed
 one ply too low

---
 src/RELAY/repair_flexural_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 999c430..4ddf74f 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -98,8 +98,8 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
                 new_lampamDs[index] = lampamD + calc_delta_lampamD_swap_1(
                     angle_first=block_1.angle,
                     angle_second=list_blocks[index_block_2].angle,
-                    n_first_ply=block_1.first_ply_pos,
-                    n_second_ply=list_blocks[index_block_2].first_ply_pos,
+                    n_first_ply=block_1.first_ply_pos + 1,
+                    n_second_ply=list_blocks[index_block_2].first_ply_pos + 1,
                     n_plies_group=block_1.n_block_of_plies,
                     n_plies=n_plies,
                     constraints=constraints)
-- 
2.43.0


From c28d8e2e455c4bb358cf7c608f697950ed804852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 37/85] fix: the flexural repair could move plies fixed by
 damage tolerance

---
 src/RELAY/repair_flexural_1.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 4ddf74f..bd8dfe5 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -74,14 +74,18 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
     # out-of-plane properties
     for index_block_1 in range(len(list_blocks[:-1])):
         block_1 = list_blocks[index_block_1]
-        if status_dam_tol[block_1.first_ply_pos]:
+        if status_dam_tol[
+                block_1.first_ply_pos:
+                block_1.first_ply_pos + block_1.n_block_of_plies].any():
             continue
 #        if block_1.distance_middle < 0.5:
 #            break
         ind_possible_swap = []
         for index_block_2, block_2 \
         in enumerate(list_blocks[index_block_1 + 1:]):
-            if status_dam_tol[list_blocks[index_block_2].first_ply_pos]:
+            if status_dam_tol[
+                    block_2.first_ply_pos:
+                    block_2.first_ply_pos + block_2.n_block_of_plies].any():
                 continue
             if block_1.n_block_of_plies == block_2.n_block_of_plies \
             and block_2.angle in block_1.possible_angles \
-- 
2.43.0


From 9677ec468391c1034407be5dcead58358f87ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 38/85] fix: block swaps of the flexural repair could forget
 the middle ply

---
 src/RELAY/repair_flexural_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index de48154..30cc8de 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -311,6 +311,8 @@ class Block():
                     if block2.ID == block1.ID + 1 \
                     or block2.ID == block1.ID - 1:
                         block1.neighbour_angles.append(block2.angle)
+                if block1.ID == 0 and midply is not None:
+                    block1.neighbour_angles.append(midply)
                 block1.calc_possible_angles(constraints)
             # update the block / ID - 1
             if block1.ID == self.ID - 1:
@@ -319,6 +321,8 @@ class Block():
                     if block2.ID == block1.ID + 1 \
                     or block2.ID == block1.ID - 1:
                         block1.neighbour_angles.append(block2.angle)
+                if block1.ID == 0 and midply is not None:
+                    block1.neighbour_angles.append(midply)
                 block1.calc_possible_angles(constraints)
 
 
-- 
2.43.0


From dab2972ee1e4bead4d1e9bb1dc7f0a6eb7b60dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 39/85] fix: the flexural repair tested one ply shift too few
 or too many (none: crash)

---
 src/RELAY/repair_flexural_2.py | 4 ++--
 src/RELAY/repair_flexural_3.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_flexural_2.py b/src/RELAY/repair_flexural_2.py
index 646a77b..f5e35f5 100644
--- a/src/RELAY/repair_flexural_2.py
+++ b/src/RELAY/repair_flexural_2.py
@@ -110,10 +110,10 @@ def repair_flexural_2(
     for index, ind_ply_1 in enumerate(ind_2[:-1]):
 #        print('ind_ply_1', ind_ply_1)
 
-        objD = 1e10 * np.ones((parameters.n_D2 - 1,), float)
+        objD = 1e10 * np.ones((parameters.n_D2,), float)
 
         for ind_loc, ind_ply_2 \
-        in enumerate(ind_2[index + 1:index + parameters.n_D2]):
+        in enumerate(ind_2[index + 1:index + 1 + parameters.n_D2]):
 
 #            print('    ind_ply_2', ind_ply_2)
 
diff --git a/src/RELAY/repair_flexural_3.py b/src/RELAY/repair_flexural_3.py
index 626ee26..f460d46 100644
--- a/src/RELAY/repair_flexural_3.py
+++ b/src/RELAY/repair_flexural_3.py
@@ -113,7 +113,7 @@ def repair_flexural_3(
         objD = 1e10*np.ones((ind_2[index + 1:].size,), float)
 
         for ind_loc, ind_ply_2 \
-        in enumerate(ind_2[index + 1:index + 2 + parameters.n_D2]):
+        in enumerate(ind_2[index + 1:index + 1 + parameters.n_D2]):
 
 #            print('    ind_ply_2', ind_ply_2)
 
-- 
2.43.0


From d68fed8c180ac87638e5e3a39d62efa405691f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 40/85] fix: the flexural repair failed on laminates with equal
 plies only

---
 src/RELAY/repair_flexural_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index 30cc8de..df1e976 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -345,8 +345,11 @@ def find_list_blocks(ss_ref, n_plies, constraints):
     if constraints.sym:
         if n_plies % 2:
             ind_start = n_plies // 2 - 1
-            while ss_ref[ind_start] == ss_ref[n_plies // 2]:
+            while ind_start >= 0 \
+            and ss_ref[ind_start] == ss_ref[n_plies // 2]:
                 ind_start -= 1
+            if ind_start < 0: # all plies in the block of the middle ply
+                return []
         else:
             ind_start = n_plies // 2 - 1
     else:
-- 
2.43.0


From 8fd21163eed7bd1ece5a5f9dce329f94472a8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 41/85] fix: the repair for contiguity ignored the surface
 plies of damage tolerance

---
 src/RELAY/repair_from_inside_asym.py  | 11 +++++---
 src/RELAY/repair_from_inside_sym.py   |  2 ++
 src/RELAY/repair_from_outside_asym.py |  4 +++
 src/RELAY/repair_from_outside_sym.py  | 37 +++++++--------------------
 4 files changed, 22 insertions(+), 32 deletions(-)

diff --git a/src/RELAY/repair_from_inside_asym.py b/src/RELAY/repair_from_inside_asym.py
index 87cc75d..76b25db 100644
--- a/src/RELAY/repair_from_inside_asym.py
+++ b/src/RELAY/repair_from_inside_asym.py
@@ -194,7 +194,13 @@ def repair_diso_contig_from_inside_asym(
                 stack_test_1, constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
-                stack_test_1, constraints.n_contig_c):
+                np.hstack((
+                    stack_top,
+                    ss_group[:real_n_D1//2],
+                    stack,
+                    ss_group[real_n_D1//2:],
+                    stack_bottom)),
+                constraints.n_contig_c):
             continue
         number = stack_test.size - 4 - real_n_D1 \
         - constraints.n_contig
@@ -203,9 +209,6 @@ def repair_diso_contig_from_inside_asym(
             if constraints.diso and not is_diso_ss(
                     stack_test_2, constraints.delta_angle, dam_tol=False):
                 continue
-            if constraints.contig and not is_contig(
-                    stack_test_2, constraints.n_contig_c):
-                continue
         good_permut.append(np.array(elem, int))
 #    print('good_permut', good_permut)
 
diff --git a/src/RELAY/repair_from_inside_sym.py b/src/RELAY/repair_from_inside_sym.py
index ee50bc0..05da547 100644
--- a/src/RELAY/repair_from_inside_sym.py
+++ b/src/RELAY/repair_from_inside_sym.py
@@ -137,6 +137,8 @@ def repair_diso_contig_from_inside_sym(
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
+        stack_test = np.hstack((stack_dam_tol, ss_group))
+        stack_test = np.hstack((stack_test, stack, np.flip(stack_test)))
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
             continue
diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index 9ad0e36..219b0b2 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -200,6 +200,10 @@ def repair_diso_contig_from_outside_asym(
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
+        stack_test = np.hstack((
+            stack_top[max(0, stack_top.size - n_plies_around):],
+            ss_group,
+            stack_bottom[:n_plies_around]))
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
             continue
diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index 06bfe5b..f000319 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -62,20 +62,7 @@ def repair_diso_contig_from_outside_sym(
                         constraints.delta_angle):
                     continue
 
-                if constraints.dam_tol:
-                    if hasattr(constraints, 'dam_tol_rule') \
-                    and constraints.dam_tol_rule in {2, 3}:
-                        mini = max(1,
-                                   stack_test.size - constraints.n_contig - 1)
-                    elif not hasattr(constraints, 'dam_tol_rule') and \
-                    constraints.n_plies_dam_tol == 2:
-                        mini = max(1,
-                                   stack_test.size - constraints.n_contig - 1)
-                    else:
-                        mini = max(0,
-                                   stack_test.size - constraints.n_contig - 1)
-                else:
-                    mini = max(0, stack_test.size - constraints.n_contig - 1)
+                mini = max(0, stack_test.size - constraints.n_contig - 1)
 
                 if constraints.contig and not is_contig(
                         stack_test[mini:], constraints.n_contig):
@@ -97,20 +84,7 @@ def repair_diso_contig_from_outside_sym(
                             constraints.delta_angle):
                         continue
 
-                    if constraints.dam_tol:
-                        if hasattr(constraints, 'dam_tol_rule') \
-                        and constraints.dam_tol_rule in {2, 3}:
-                            mini = max(1,
-                                       stack_test.size - constraints.n_contig - 1)
-                        elif not hasattr(constraints, 'dam_tol_rule') and \
-                        constraints.n_plies_dam_tol == 2:
-                            mini = max(1,
-                                       stack_test.size - constraints.n_contig - 1)
-                        else:
-                            mini = max(0,
-                                       stack_test.size - constraints.n_contig - 1)
-                    else:
-                        mini = max(0, stack_test.size - constraints.n_contig - 1)
+                    mini = max(0, stack_test.size - constraints.n_contig - 1)
 
                     if constraints.contig and not is_contig(
                             stack_test[mini:], constraints.n_contig):
@@ -184,6 +158,13 @@ def repair_diso_contig_from_outside_sym(
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
+        stack_test = np.hstack((
+            stack[max(0, stack.size - n_plies_before):], ss_group))
+        if ss.size % 2:
+            stack_test = np.hstack((
+                stack_test, ss[ss.size // 2], np.flip(stack_test)))
+        else:
+            stack_test = np.hstack((stack_test, np.flip(stack_test)))
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
             continue
-- 
2.43.0


From aa0edbd752e5e9e535115c71bbd23a09e1e7bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 42/85] fix: the repair crashed when the surface plies had to
 be changed

---
 src/RELAY/repair_diso_contig.py | 41 +++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index e3203ef..a49a940 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -49,6 +49,43 @@ def repair_diso_contig_list(
     return ss0, False, False, 0
 
 
+def place_surface_plies(ss, ply_queue, constraints):
+    """
+    takes the surface plies, from which the search for a ply order starts, out
+    of the ply queue when the stage before left them unknown
+
+    returns False when the plies for damage tolerance are not known, the
+    unknown plies being taken from the ply queue in turn
+    """
+    n_outer = 1
+    if constraints.dam_tol:
+        if hasattr(constraints, 'dam_tol_rule'):
+            if constraints.dam_tol_rule in {2, 3}:
+                n_outer = 2
+        else:
+            n_outer = constraints.n_plies_dam_tol
+    if constraints.sym:
+        outer = list(range(min(n_outer, ss.size // 2)))
+        ind_plies = range(ss.size // 2)
+    else:
+        outer = [ind for ind in range(ss.size)
+                 if ind < n_outer or ind >= ss.size - n_outer]
+        ind_plies = range(ss.size)
+
+    unknown = [ind for ind in outer if ss[ind] == 666]
+    if not unknown:
+        return ss, True
+
+    if constraints.dam_tol:
+        unknown = [ind for ind in ind_plies if ss[ind] == 666]
+    ss = np.copy(ss)
+    for ind in unknown:
+        ss[ind] = ply_queue.pop(0)
+        if constraints.sym:
+            ss[ss.size - ind - 1] = ss[ind]
+    return ss, not constraints.dam_tol
+
+
 def repair_diso_contig(
         ss, ply_queue, constraints, n_D1):
     """
@@ -69,6 +106,10 @@ def repair_diso_contig(
 #    print('constraints.sym', constraints.sym)
 #    print('n_D1', n_D1)
 
+    ss, known = place_surface_plies(ss, ply_queue, constraints)
+    if not known:
+        return ss, False, False
+
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
             ss, ply_queue, constraints, n_D1)
-- 
2.43.0


From 2a9aba050a73636d1fd0bcbbfbe5452e1c428380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 43/85] fix: the repair reported success on laminates that
 cannot meet the 10% rule

---
 src/RELAY/repair_10_bal.py          | 20 ++++++++++++++++++++
 src/RELAY/repair_reference_panel.py | 17 ++++++++++-------
 src/RELAY/repair_ss.py              | 12 +++++++++++-
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index e88c766..3e0d6c9 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -525,6 +525,26 @@ def calc_mini_10(constraints, n_plies):
 
     return mini_10
 
+def is_repaired_10_bal(ss, ply_queue, constraints):
+    """
+    returns True if the ply queue fills the partial stacking sequence, False if
+    the laminate is too thin for the 10% rule and balance
+    """
+    n_unknown = np.sum(ss == 666)
+    if constraints.sym:
+        return 2 * len(ply_queue) == n_unknown
+    return len(ply_queue) == n_unknown
+
+def is_repaired_10_Abdalla(ss, constraints):
+    """
+    returns True if the stacking sequence satisfies the 10% rule of Abdalla,
+    when it applies
+    """
+    if not (constraints.rule_10_percent and constraints.rule_10_Abdalla):
+        return True
+    lampamA = calc_lampamA_ply_queue(ss, ss.size, [], constraints)
+    return calc_distance_Abdalla(lampamA, constraints) < 1e-10
+
 def is_equal(ss, ply_queue, ss_ini, sym):
     """
     returns True if the set of partial stacking sequence + ply queue matches
diff --git a/src/RELAY/repair_reference_panel.py b/src/RELAY/repair_reference_panel.py
index 904939c..0da912b 100644
--- a/src/RELAY/repair_reference_panel.py
+++ b/src/RELAY/repair_reference_panel.py
@@ -10,12 +10,15 @@ import sys
 sys.path.append(r'C:\BELLA')
 from src.CLA.lampam_functions import calc_lampam
 from src.divers.pretty_print import print_lampam, print_ss, print_list_ss
+from src.BELLA.format_pdl import convert_ss_to_sst
 from src.BELLA.format_pdl import convert_sst_to_ss
 from src.BELLA.format_pdl import convert_ss_ref_to_reduced_sst
 from src.RELAY.repair_membrane import repair_membrane
 from src.RELAY.repair_flexural import repair_flexural
 from src.RELAY.repair_10_bal import repair_10_bal
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import is_repaired_10_bal
+from src.RELAY.repair_10_bal import is_repaired_10_Abdalla
 from src.RELAY.repair_diso_contig import repair_diso_contig_list
 from src.guidelines.one_stack import check_lay_up_rules
 
@@ -65,6 +68,10 @@ def repair_reference_panel(
     # step 1 / repair for the 10% rule and balance
     #--------------------------------------------------------------------------
     ss_ref, ply_queue = repair_10_bal(ss_ref, mini_10, constraints)
+    if not is_repaired_10_bal(ss_ref, ply_queue, constraints):
+        reduced_sst = convert_ss_to_sst(reduced_ss, reduced_pdl)
+        reduced_lampam = calc_lampam(reduced_ss, constraints)
+        return False, reduced_lampam, reduced_sst, reduced_ss
     #--------------------------------------------------------------------------
     # step 2 / improvement of the in-plane lamination parameter convergence
     #--------------------------------------------------------------------------
@@ -84,13 +91,9 @@ def repair_reference_panel(
     ss_ref, completed_inward, completed_outward, ind = repair_diso_contig_list(
         ss_ref_list, ply_queue_list, constraints,
         parameters.n_D1)
-    if not completed_outward:
-
-        reduced_sst = convert_ss_ref_to_reduced_sst(
-                ss_ref, reduced_pdl=reduced_pdl,
-                ind_ref=multipanel.reduced.ind_ref,
-                reduced_ss_before=reduced_ss)
-
+    if not completed_outward \
+    or not is_repaired_10_Abdalla(ss_ref, constraints):
+        reduced_sst = convert_ss_to_sst(reduced_ss, reduced_pdl)
         reduced_lampam = calc_lampam(reduced_ss, constraints)
         return False, reduced_lampam, reduced_sst, reduced_ss
     #--------------------------------------------------------------------------
diff --git a/src/RELAY/repair_ss.py b/src/RELAY/repair_ss.py
index 5a13d91..0741894 100644
--- a/src/RELAY/repair_ss.py
+++ b/src/RELAY/repair_ss.py
@@ -24,6 +24,8 @@ from src.LAYLA_V02.objectives import objectives
 from src.divers.pretty_print import print_ss, print_list_ss
 from src.RELAY.repair_10_bal import repair_10_bal
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import is_repaired_10_bal
+from src.RELAY.repair_10_bal import is_repaired_10_Abdalla
 from src.RELAY.repair_membrane import repair_membrane
 from src.RELAY.repair_flexural import repair_flexural
 from src.RELAY.repair_diso_contig import repair_diso_contig_list
@@ -68,6 +70,14 @@ def repair_ss(
     # step 1 / repair for the 10% rule and balance
     #--------------------------------------------------------------------------
     ss, ply_queue = repair_10_bal(ss, mini_10, constraints)
+    if not is_repaired_10_bal(ss, ply_queue, constraints):
+        if obj_no_constraints is None:
+            if count_obj:
+                return ss_ini, False, 0
+            return ss_ini, False
+        if count_obj:
+            return ss_ini, False, 1e10, 0
+        return ss_ini, False, 1e10
 #    print('after repair 10 and balance')
 #    print_ss(ss)
 #    print(ply_queue)
@@ -102,7 +112,7 @@ def repair_ss(
         parameters.n_D1)
 #    print('completed_inward, completed_outward, ind',
 #          completed_inward, completed_outward, ind)
-    if not completed_outward:
+    if not completed_outward or not is_repaired_10_Abdalla(ss, constraints):
 #        print('unsuccessful repair for disorientation and/or contiguity')
         if obj_no_constraints is None:
             if count_obj:
-- 
2.43.0


From 643166b529aa04db5650b97214787a17daa23eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 44/85] fix: the repair crashed on the constraints of LAYLA
 with a 10% rule

---
 src/LAYLA_V02/constraints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index 164c95a..5f68715 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -63,6 +63,9 @@ Choose either:
         if not isinstance(rule_10_percent, bool):
             raise ConstraintDefinitionError("""
 Attention, rule_10_percent must be a boolean!""")
+        # the 10% rule of Abdalla is not available in LAYLA
+        self.rule_10_Abdalla = False
+        self.percent_Abdalla = 0
         # set the limit percentages for the 10% rule
         self.set_percentages(
             percent_0, percent_45, percent_90, percent_135, percent_45_135)
-- 
2.43.0


From ffe1437cbf45121a61cb7531a87e77b0f31446bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:55 +0000
Subject: [PATCH 45/85] fix: the thin-to-thick repair crashed when it had to
 add plies

---
 src/RELAY/thin_to_thick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 70ae860..b6363bc 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -211,7 +211,7 @@ def repair_thin_to_thick(
                 # print('one_pd_index', one_pd_index)
 
                 ### branching for ply orientation of new ply
-                child_angle = np.copy(constraints.set_of_angles, int)
+                child_angle = np.copy(constraints.set_of_angles)
 
                 ### pruning for balance
                 if constraints.bal:
-- 
2.43.0


From 2ae42390925a1274c6c5c5e9d1b84006a64e3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 46/85] fix: the redesign of ply drops attributed the values of
 other candidates

---
 src/RELAY/thick_to_thin.py | 7 +++++++
 src/RELAY/thin_to_thick.py | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 78b66fb..81967c4 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -417,6 +417,13 @@ def repair_thick_to_thin(
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
 
+            # the values were calculated from the last child to the first
+            tab_child_n_plies_per_angle.reverse()
+            tab_child_lampam.reverse()
+            tab_child_penalty_diso.reverse()
+            tab_child_obj_no_constraints.reverse()
+            tab_child_obj_constraints.reverse()
+
 
             ### local pruning for the other guidelines and stiffness optimality
             indices_to_keep = []
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index b6363bc..d4cfdd0 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -470,6 +470,12 @@ def repair_thin_to_thick(
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
 
+            # the values were calculated from the last child to the first
+            tab_child_n_plies_per_angle.reverse()
+            tab_child_lampam.reverse()
+            tab_child_obj_no_constraints.reverse()
+            tab_child_obj_constraints.reverse()
+
             ### local pruning for the other guidelines and stiffness optimality
             indices_to_keep = []
             tab_child_obj_constraints_for_pruning \
-- 
2.43.0


From 09db0baba1e133b4b4f254a8b1b336db96633ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 47/85] fix: the redesign of ply drops ignored the
 disorientation penalty

---
 src/RELAY/thick_to_thin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 81967c4..3c5730e 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -396,6 +396,7 @@ def repair_thick_to_thin(
                     objective=child_obj_no_constraints,
                     actual_panel_weightings=multipanel.reduced.actual_panel_weightings,
                     penalty_diso=child_penalty_diso,
+                    coeff_diso=obj_func_param.coeff_diso,
                     penalty_contig=None,
                     penalty_oopo=None,
                     penalty_10=None,
-- 
2.43.0


From 92e5aaf21926618a055913caf78f623c898d8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:39 +0000
Subject: [PATCH 48/85] fix: the repair of a structure returned the ply drops
 from before their redesign

---
 src/RELAY/repair_mp.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_mp.py b/src/RELAY/repair_mp.py
index 66818c6..dafcc34 100644
--- a/src/RELAY/repair_mp.py
+++ b/src/RELAY/repair_mp.py
@@ -81,13 +81,14 @@ Reference stacking sequence modified during blending step 4.2""")
     # step 3 / re-optimise the ply drop layout - thin-to-thck repair
     #--------------------------------------------------------------------------
     print('---- Blending step 4.3 ----')
+    sst_before = reduced_sst
     success, reduced_sst, reduced_lampam, reduced_ss = repair_thin_to_thick(
         reduced_lampam, reduced_sst, reduced_ss, multipanel,
         parameters, obj_func_param, constraints, mat=mat)
     if not success:
         print('Blending step 4.3 unsuccessful')
-        reduced_sst = convert_ss_to_sst(reduced_ss, reduced_pdl)
-        return False, reduced_ss, reduced_sst, reduced_pdl, 3
+        # the ply drops were redesigned in step 4.2
+        return False, reduced_ss, sst_before, calc_pdl(sst_before), 3
 
     # check that the reference panel stacking sequence has not been changed
     if (reduced_ss[multipanel.reduced.ind_ref] != ss_ref).any():
@@ -105,4 +106,15 @@ Reference stacking sequence modified during blending step 4.3""")
             raise Exception("""Wrong ply counts in the laminate.""")
 
 #    print('Blending step 4 successful')
-    return True, reduced_ss, reduced_sst, reduced_pdl, 4
+    return True, reduced_ss, reduced_sst, calc_pdl(reduced_sst), 4
+
+
+def calc_pdl(reduced_sst):
+    """
+    returns the ply drop layout of a stacking sequence table
+    """
+    pdl = np.array(reduced_sst)
+    for pdl_panel in pdl:
+        is_ply = pdl_panel != -1
+        pdl_panel[is_ply] = np.arange(np.sum(is_ply))
+    return pdl
-- 
2.43.0


From dd752a215e1018b4cf2212f6f16d6e1f422a906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 49/85] fix: the optimiser failed for panels of different
 thicknesses

---
 src/BELLA/optimiser_with_one_pdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index 4298030..41d6c72 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -500,7 +500,7 @@ beam search with no solutions !
 # =============================================================================
 # select best result
 # =============================================================================
-    ss_bot_tab = np.copy(ss_final)
+    ss_bot_tab = list(ss_final)
 
     if parameters.save_success_rate:
         to_keep = np.array([ind for ind in range(len(obj_constraints_tab))\
-- 
2.43.0


From 4af3fad2d4da9d880e4b209b4fc546a66deaf7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 50/85] fix: unsuccessful repairs shifted the stacks and ply
 counts of the selected design

---
 src/BELLA/optimiser_with_one_pdl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index 41d6c72..dc694a1 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -509,6 +509,7 @@ beam search with no solutions !
                            if ind not in to_keep])
         if to_keep.size:
             ss_final = [ss_final[ind] for ind in to_keep]
+            ss_bot_tab = [ss_bot_tab[ind] for ind in to_keep]
             sst_final = [sst_final[ind] for ind in to_keep]
             pdl_final = [pdl_final[ind] for ind in to_keep]
             penalty_diso_final = [penalty_diso_final[ind] for ind in to_keep]
@@ -524,6 +525,8 @@ beam search with no solutions !
                 obj_constraints_tab, np.s_[ind], axis=0)
             obj_no_constraints_tab = np.delete(
                 obj_no_constraints_tab, np.s_[ind], axis=0)
+            n_plies_per_angle_tab = np.delete(
+                n_plies_per_angle_tab, np.s_[ind], axis=0)
 
         results.n_designs_repaired_unique = np.unique(
             sst_final, axis=0).shape[0]
-- 
2.43.0


From e7e072129dafc2ad67c36d900e7af7393f212769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 51/85] fix: the optimiser stopped when no design could be
 repaired

---
 src/BELLA/optimiser_with_one_pdl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index dc694a1..ea58c72 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -616,6 +616,8 @@ Objective function value not matching the stacking sequences.""")
         coeff_contig=obj_func_param.coeff_contig,
         coeff_10=obj_func_param.coeff_10,
         coeff_bal_ipo=obj_func_param.coeff_bal_ipo)
+    if not (obj_no_constraints != 1e10).all(): # unsuccessful repair
+        obj_constraints_test = 1e10
 
     if abs(obj_constraints_test - obj_constraints > 1e-10).any():
         print('obj_constraints_test', obj_constraints_test)
-- 
2.43.0


From 332022fd2e0bda9229a65982374760c566465341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 52/85] fix: ply-drop layouts without solution were returned as
 the best ones

---
 src/BELLA/optimiser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index e77d329..ca317f0 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -125,7 +125,10 @@ def BELLA_optimiser(
         outer_step += 1
 
     # To determine the best solution
-    ind_mini = np.argmin(results.obj_constraints_tab)
+    # (no objective value for the ply-drop layouts without any solution)
+    ind_mini = 0
+    if not np.isnan(results.obj_constraints_tab).all():
+        ind_mini = np.nanargmin(results.obj_constraints_tab)
 
     results.ss = results.ss_tab[ind_mini]
     results.sst = results.ss_tab_tab[ind_mini]
-- 
2.43.0


From e30435454c82b2097d81d0d7beb12e97a1fe5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 53/85] fix: asymmetric laminates were evaluated with the
 contributions of other plies

---
 src/BELLA/moments_of_areas.py       | 36 +++++++++++++++--------------
 src/BELLA/optimiser_with_one_pdl.py | 11 +++++----
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/BELLA/moments_of_areas.py b/src/BELLA/moments_of_areas.py
index ef486d2..d1282bb 100644
--- a/src/BELLA/moments_of_areas.py
+++ b/src/BELLA/moments_of_areas.py
@@ -75,12 +75,8 @@ def calc_mom_of_areas(multipanel, constraints, ply_order):
 
             ply_indices = np.arange(panel.n_plies)
 
-            print(ply_indices, type(ply_indices))
-            print(ply_order, type(ply_order))
-            pos_bot = ((2 / panel.n_plies) \
-                       * ply_indices - 1)[ply_order[ind_panel]]
-            pos_top = ((2 / panel.n_plies) \
-                       * (ply_indices + 1) - 1)[ply_order[ind_panel]]
+            pos_bot = (2 / panel.n_plies) * ply_indices - 1
+            pos_top = (2 / panel.n_plies) * (ply_indices + 1) - 1
 
             mom_areas_panel[:, 0] = pos_top - pos_bot
             mom_areas_panel[:, 1] = pos_top**2 - pos_bot**2
@@ -114,13 +110,14 @@ def calc_mom_of_areas(multipanel, constraints, ply_order):
 
 
 def calc_mom_of_areas2(multipanel, constraints, mom_areas_plus, pdl,
-                       n_plies_to_optimise):
+                       n_plies_to_optimise, indices=None):
     """
     calulates ply moments of areas
 
     OUTPUS
 
-    - cummul_areas[panel_index][ply_index, 0]:
+    - cummul_areas[panel_index, level]: area in the panel of the plies
+    optimised at the levels 0 to 'level' of the search
 
 
     INPUTS
@@ -137,7 +134,11 @@ def calc_mom_of_areas2(multipanel, constraints, mom_areas_plus, pdl,
         signed second moment of area of ply of index 'ply_index' in panel of
         index 'panel_index'
     - n_plies_to_optimise: number of plies to optimise during BELLA step 2
+    - indices: positions of the plies in the order in which they are optimised
+    (from the first one to the last one by default)
     """
+    if indices is None:
+        indices = np.arange(n_plies_to_optimise)
 
     cummul_areas = np.zeros(
         (multipanel.reduced.n_panels, n_plies_to_optimise), float)
@@ -147,19 +148,20 @@ def calc_mom_of_areas2(multipanel, constraints, mom_areas_plus, pdl,
         (multipanel.reduced.n_panels, n_plies_to_optimise), float)
 
     for ind_panel, panel in enumerate(multipanel.reduced.panels):
-        counter_plies = -1
-        for index_ply in range(n_plies_to_optimise):
+        for rank, index_ply in enumerate(indices):
             if pdl[ind_panel, index_ply] != -1:
-                counter_plies += 1
+                # position of the ply in the panel
+                ind_ply = sum(
+                    pdl[ind_panel, ind] != -1 for ind in range(index_ply))
 
-                cummul_areas[ind_panel, index_ply:] \
-                += mom_areas_plus[ind_panel][counter_plies][0]
+                cummul_areas[ind_panel, rank:] \
+                += mom_areas_plus[ind_panel][ind_ply][0]
 
-                cummul_first_mom_areas[ind_panel, index_ply:] \
-                += mom_areas_plus[ind_panel][counter_plies][1]
+                cummul_first_mom_areas[ind_panel, rank:] \
+                += mom_areas_plus[ind_panel][ind_ply][1]
 
-                cummul_sec_mom_areas[ind_panel, index_ply:] \
-                += mom_areas_plus[ind_panel][counter_plies][2]
+                cummul_sec_mom_areas[ind_panel, rank:] \
+                += mom_areas_plus[ind_panel][ind_ply][2]
 
     return cummul_areas, cummul_first_mom_areas, cummul_sec_mom_areas
 
diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index ea58c72..77c830e 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -53,7 +53,8 @@ def BELLA_optimiser_one_pdl(
 
     (cummul_areas, cummul_first_mom_areas, cummul_sec_mom_areas) \
     = calc_mom_of_areas2(
-        multipanel, constraints, mom_areas_plus, pdl, n_plies_to_optimise)
+        multipanel, constraints, mom_areas_plus, pdl, n_plies_to_optimise,
+        indices)
 
     # lampam_weightings: lamination parameter weightings at each level of the
     # search (used in the objective function calculation)
@@ -107,7 +108,7 @@ def BELLA_optimiser_one_pdl(
     penalty_bal_ipo_final = []
     penalty_10_final = []
 
-    for level in indices:
+    for rank, level in enumerate(indices):
 # =============================================================================
 # preparation of the exploration of a level during beam search #
 # =============================================================================
@@ -257,7 +258,7 @@ def BELLA_optimiser_one_pdl(
                     lampam=lampam_tab[ind_angle],
                     mat=mat,
                     obj_func_param=obj_func_param,
-                    lampam_weightings=lampam_weightings[level])
+                    lampam_weightings=lampam_weightings[rank])
                 obj_no_constraints_tab = np.vstack((
                     obj_no_constraints_tab, obj_no_constraints))
 
@@ -477,7 +478,7 @@ beam search with no solutions !
                 lampam=lampam_tab[ind_angle],
                 mat=mat,
                 obj_func_param=obj_func_param,
-                lampam_weightings=lampam_weightings[level])
+                lampam_weightings=lampam_weightings[-1])
         obj_no_constraints_tab[ind_angle] = obj_no_constraints
 
         if not (obj_no_constraints != 1e10).all():
@@ -563,7 +564,7 @@ Lamination parameters not matching the stacking sequences.""")
     obj_no_constraints_test = calc_obj_each_panel(
         multipanel=multipanel,
         lampam=lampam,
-        lampam_weightings=lampam_weightings[level],
+        lampam_weightings=lampam_weightings[-1],
         mat=mat,
         obj_func_param=obj_func_param)
 
-- 
2.43.0


From 5a08a68609e447bb8d145f5d494c4ee953fa0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 54/85] fix: the weight of the structure was not saved

---
 src/BELLA/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index ca317f0..681567d 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -145,7 +145,7 @@ def BELLA_optimiser(
         save_materials(filename, mat)
     save_parameters_BELLA(filename, parameters)
     save_objective_function_BELLA(filename, obj_func_param)
-    save_multipanel(filename, multipanel, obj_func_param, mat)
+    save_multipanel(filename, multipanel, obj_func_param, mat=mat)
 
     pdls = np.zeros((len(pdls_ini),
                      multipanel.n_panels,
-- 
2.43.0


From 2e081042c5955dcbaafc2d250a9a5f956baeaf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 55/85] fix: the penalties of structures with several
 thicknesses could not be saved

---
 src/BELLA/save_set_up.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index ffcff80..f172c21 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -141,7 +141,7 @@ def save_multipanel(
             = panel.lampam_weightings[ind]
 
     if calc_penalties:
-        ss = np.array(convert_sst_to_ss(sst))
+        ss = convert_sst_to_ss(sst)
 
         norm_diso_contig = np.array(
                 [panel.n_plies for panel in multipanel.panels])
@@ -163,7 +163,8 @@ def save_multipanel(
         if constraints.rule_10_percent and constraints.rule_10_Abdalla:
             penalty_10 = calc_penalty_10_ss(ss, constraints, lampam, mp=True)
         else:
-            penalty_10 = calc_penalty_10_ss(ss, constraints, LPs=None)
+            penalty_10 = calc_penalty_10_ss(
+                ss, constraints, LPs=None, mp=True)
 
         penalty_ipo, penalty_oopo = calc_penalty_ipo_oopo_mp(
             lampam, constraints)
-- 
2.43.0


From ae0a2a5b83ee0296b577e337b65160ce72b3d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 56/85] fix: the rows of the results all showed the best design

---
 src/BELLA/save_result.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 5bb058a..3a8152e 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -63,7 +63,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
             filename, table_res, 'Results', index=False, header=True)
     # to save best result
     table_res = pd.DataFrame()
-    table_res.loc[0, 'time (s)'] = output.time
+    table_res.loc[output.ind_mini, 'time (s)'] = output.time
     table_res = save_result_BELLA_one_pdl(
         table_res,
         multipanel,
@@ -72,7 +72,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
         obj_func_param,
         output,
         pdl[output.ind_mini],
-        0,
+        output.ind_mini,
         mat)
     append_df_to_excel(
         filename, table_res, 'Best Result', index=False, header=True)
@@ -113,7 +113,13 @@ def save_result_BELLA_one_pdl(
 
     table_res.loc[ind, 'penalty_spacing'] = output.penalty_spacing_tab[ind]
 
-    ss = output.ss
+    if pdl is not None:
+        # design obtained with the ply-drop layout
+        ss = output.ss_tab[ind]
+        sst = output.ss_tab_tab[ind]
+    else:
+        ss = output.ss
+        sst = output.sst
 
     norm_diso_contig = np.array(
         [panel.n_plies for panel in multipanel.panels])
@@ -158,16 +164,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(output.sst[ind_p] == 0) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 0) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(output.sst[ind_p] == 90) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 90) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(output.sst[ind_p] == 45) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 45) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(output.sst[ind_p] == -45) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == -45) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
-        = (sum(output.sst[ind_p] == 45) + sum(output.sst[ind_p] == -45)) \
-        / (output.sst[ind_p].size)
+        = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
+        / (sst[ind_p].size)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
@@ -180,7 +186,7 @@ def save_result_BELLA_one_pdl(
             table_res.loc[ind + ind_p, 'lambda buckling'] = buckling_factor(
                 lampam=lampam[ind_p],
                 mat=mat,
-                n_plies=output.ss[ind_p].size,
+                n_plies=ss[ind_p].size,
                 N_x=panel.N_x,
                 N_y=panel.N_y,
                 length_x=panel.length_x,
@@ -189,7 +195,7 @@ def save_result_BELLA_one_pdl(
 
         for angle in constraints.set_of_angles:
             table_res.loc[ind + ind_p, 'n_' + str(angle) + 'plies'] \
-            = sum(output.sst[ind_p] == angle)
+            = sum(sst[ind_p] == angle)
 
         for ind_lp in range(12):
             table_res.loc[
@@ -210,11 +216,11 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'gamma'] = abs(D_16/(( (D_11**3) * D_22 )**(1/4)))
         table_res.loc[ind + ind_p, 'delta'] = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
             
-        stack = ' '.join(np.array(output.sst[ind_p], dtype=str))
+        stack = ' '.join(np.array(sst[ind_p], dtype=str))
         table_res.loc[
             ind + ind_p, 'stacking sequences with ply drops included'] = stack
 
-        stack = ' '.join(np.array(output.ss[ind_p], dtype=str))
+        stack = ' '.join(np.array(ss[ind_p], dtype=str))
         table_res.loc[ind + ind_p, 'stacking sequences'] = stack
 
         if pdl is not None:
-- 
2.43.0


From ed3ceda9ea5c67ae7ef44754752e2453867d413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 57/85] fix: ply drops counted in the ply percentages of the
 results

---
 src/BELLA/save_result.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 3a8152e..dab43bb 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -164,16 +164,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(sst[ind_p] == 0) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 0) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(sst[ind_p] == 90) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 90) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(sst[ind_p] == 45) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 45) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(sst[ind_p] == -45) / (sst[ind_p].size)
+        = sum(sst[ind_p] == -45) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
         = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
-        / (sst[ind_p].size)
+        / (ss[ind_p].size)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
-- 
2.43.0


From c7c6d4026c5a9d8aa17161990f37fed514845daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 58/85] fix: the area of all patches was saved as the area of
 the structure

---
 src/BELLA/save_set_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index f172c21..12cde97 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -84,7 +84,7 @@ def save_multipanel(
     table_mp = pd.DataFrame()
     table_mp.loc[0, 'Number of panels'] = multipanel.n_panels
     table_mp.loc[0, 'Number of plies max'] = multipanel.n_plies_max
-    table_mp.loc[0, 'Area'] = multipanel.area_patches
+    table_mp.loc[0, 'Area'] = multipanel.area
     table_mp.loc[0, 'Area of all patches'] = multipanel.area_patches
     if mat is not None:
         table_mp.loc[0, 'Weight'] = multipanel.calc_weight(mat.density_area)
-- 
2.43.0


From 3fb59e4e03ced5dc986e35b6a3a171ad1111e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 59/85] fix: search limits of step 4.3 ignored in the redesign
 of thicker panels

---
 src/RELAY/thin_to_thick.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index d4cfdd0..2cd84cf 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -305,9 +305,9 @@ def repair_thin_to_thick(
             indices_to_keep = []
             tab_penalty_spacing_for_pruning = np.copy(tab_penalty_spacing)
             if len(tab_penalty_spacing_for_pruning) \
-            > parameters.local_node_limit2:
+            > parameters.local_node_limit3:
 
-                while len(indices_to_keep) < parameters.local_node_limit2:
+                while len(indices_to_keep) < parameters.local_node_limit3:
 
                     min_value = min(tab_penalty_spacing_for_pruning)
                     indices_to_add = np.where(
@@ -482,9 +482,9 @@ def repair_thin_to_thick(
             = np.copy(tab_child_obj_constraints)
             if ind_step != n_steps - 1 \
             and len(tab_child_obj_constraints_for_pruning) \
-            > parameters.local_node_limit2:
+            > parameters.local_node_limit3:
 
-                while len(indices_to_keep) < parameters.local_node_limit2:
+                while len(indices_to_keep) < parameters.local_node_limit3:
                     
                     min_value = min(tab_child_obj_constraints_for_pruning)
                     index_to_add = np.where(
@@ -570,9 +570,9 @@ def repair_thin_to_thick(
         penalty_spacing_tab_for_pruning = np.copy(penalty_spacing_tab)
         if ind_step != n_steps - 1 \
         and len(penalty_spacing_tab_for_pruning) \
-        > parameters.global_node_limit2:
+        > parameters.global_node_limit3:
 
-            while len(indices_to_keep) < parameters.global_node_limit2:
+            while len(indices_to_keep) < parameters.global_node_limit3:
 
                 min_value = min(penalty_spacing_tab_for_pruning)
                 indices_to_add = np.where(
@@ -613,9 +613,9 @@ def repair_thin_to_thick(
 
         if ind_step != n_steps - 1 \
         and len(tab_child_obj_constraints_for_pruning) \
-        > parameters.global_node_limit2:
+        > parameters.global_node_limit3:
 
-            while len(indices_to_keep) < parameters.global_node_limit2:
+            while len(indices_to_keep) < parameters.global_node_limit3:
 
                 min_value = min(tab_child_obj_constraints_for_pruning)
                 index_to_add = np.where(
-- 
2.43.0


From 58e98bc1e65b17a2ff14528e276036ff9c40619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 60/85] fix: order of laminates made of surface plies only

---
 src/RELAY/repair_diso_contig.py | 40 +++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index a49a940..ec20355 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -24,6 +24,8 @@ from src.RELAY.repair_from_inside_asym import repair_diso_contig_from_inside_asy
 from src.RELAY.repair_from_outside_sym import repair_diso_contig_from_outside_sym
 from src.RELAY.repair_from_outside_asym \
 import repair_diso_contig_from_outside_asym
+from src.guidelines.contiguity import is_contig
+from src.guidelines.disorientation import is_diso_ss
 from src.divers.pretty_print import print_ss
 
 
@@ -49,6 +51,40 @@ def repair_diso_contig_list(
     return ss0, False, False, 0
 
 
+def is_without_inner_plies(ss, constraints):
+    """
+    returns True if no ply can be moved: all plies are the surface plies
+    prescribed for damage tolerance
+    """
+    n_fixed = 0
+    if constraints.dam_tol:
+        n_fixed = 1
+        if hasattr(constraints, 'dam_tol_rule'):
+            if constraints.dam_tol_rule in {2, 3}:
+                n_fixed = 2
+        else:
+            n_fixed = constraints.n_plies_dam_tol
+    return ss.size <= max(1, 2 * n_fixed)
+
+
+def is_diso_contig(ss, constraints):
+    """
+    returns True if the stacking sequence satisfies the disorientation and
+    contiguity rules, the surface plies being exempt from the disorientation
+    rule when damage tolerance concerns two plies
+    """
+    inner = ss
+    if constraints.dam_tol \
+    and ((hasattr(constraints, 'dam_tol_rule')
+          and constraints.dam_tol_rule in {2, 3})
+         or (not hasattr(constraints, 'dam_tol_rule')
+             and constraints.n_plies_dam_tol == 2)):
+        inner = ss[1:-1]
+    if constraints.diso and not is_diso_ss(inner, constraints.delta_angle):
+        return False
+    return not constraints.contig or is_contig(ss, constraints.n_contig)
+
+
 def place_surface_plies(ss, ply_queue, constraints):
     """
     takes the surface plies, from which the search for a ply order starts, out
@@ -110,6 +146,10 @@ def repair_diso_contig(
     if not known:
         return ss, False, False
 
+    if is_without_inner_plies(ss, constraints):
+        completed = is_diso_contig(ss, constraints)
+        return ss, completed, completed
+
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
             ss, ply_queue, constraints, n_D1)
-- 
2.43.0


From baf096df4936890f870a3b2b1097e74a8fb68de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 61/85] fix: penalties for the orthotropy of a laminate
 missing, LAYLA could not be imported

---
 src/guidelines/ipo_oopo.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index a398171..374508f 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -263,6 +263,35 @@ def calc_penalty_ipo_oopo_mp(
 
 
 
+def calc_penalty_ipo_oopo_ss(
+        lampam,
+        constraints,
+        parameters=None,
+        cummul_areas=1,
+        cummul_sec_mom_areas=1):
+    """
+    calculates penalties for in-plane and out-of plane orthotropy based
+    lamination parameters for a single-panel structure
+
+    INPUTS
+
+    - lampam: lamination parameters of one or several laminates
+    - constraints: design and maufacturing constraints
+    - parameters: optimiser parameters
+    - cummul_areas: sum of the areas of the plies retrieved so far + the
+    current plies
+    - cummul_sec_mom_areas: sum of the second moments of areas of the plies
+    retrieved so far + the current plies
+    """
+    penalties_oopo = calc_penalty_oopo_ss(
+        lampam, constraints, cummul_sec_mom_areas)
+    if constraints.ipo \
+    and (parameters is None or parameters.penalty_ipo_switch):
+        penalties_ipo = calc_penalty_ipo(lampam, cummul_areas)
+    else:
+        penalties_ipo = 0 * penalties_oopo
+    return penalties_ipo, penalties_oopo
+
 def calc_penalty_oopo_ss(lampam, constraints, cummul_sec_mom_areas=1):
     """
     calculates penalties for out-of plane orthotropy based lamination
-- 
2.43.0


From 4c162de43a63dbd4039a4a4344cb048438f0feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 62/85] fix: results of the repair of the designs found by
 LAYLA

---
 src/LAYLA_V02/beam_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 25d3430..fddd8f8 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -297,7 +297,8 @@ def beam_search(
 #                    print_ss(ss)
 #                    print('obj_no_constraints ', obj_no_constraints )
                     ss, success_repair, n_obj_func_D_calls = repair_ss(
-                        ss, constraints, parameters, targets.lampam, True)
+                        ss, constraints, parameters, targets.lampam,
+                        count_obj=True)
 #                    results.n_obj_func_calls += n_obj_func_D_calls
 #                    print('repair successful?', success_repair)
 #                    print('after repair')
-- 
2.43.0


From 33b178fc7c0169f37a765578a27b5c89280ea2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 63/85] fix: rejection of the designs of LAYLA that are not
 orthotropic

---
 src/LAYLA_V02/outer_step_asym.py | 6 +++---
 src/LAYLA_V02/outer_step_sym.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LAYLA_V02/outer_step_asym.py b/src/LAYLA_V02/outer_step_asym.py
index 3249583..e4f2711 100644
--- a/src/LAYLA_V02/outer_step_asym.py
+++ b/src/LAYLA_V02/outer_step_asym.py
@@ -188,10 +188,10 @@ def outer_step_asym(
 
     # if repair failed
     if ((constraints.rule_10_percent and penalty_10)\
-    or (constraints.ipo and penalty_ipo_lampam \
-        and constraints.penalty_ipo_switch) \
+    or (constraints.ipo and penalty_ipo_lampam > 1e-10 \
+        and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
-        and constraints.penalty_bal_switch)):
+        and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
 #    print('outer_step_result.ss_best', result.ss_best)
diff --git a/src/LAYLA_V02/outer_step_sym.py b/src/LAYLA_V02/outer_step_sym.py
index 59057ac..bf0e853 100644
--- a/src/LAYLA_V02/outer_step_sym.py
+++ b/src/LAYLA_V02/outer_step_sym.py
@@ -188,10 +188,10 @@ def outer_step_sym(
 
     # If repair failed
     if ((constraints.rule_10_percent and penalty_10)\
-    or (constraints.ipo and penalty_ipo_lampam \
-        and constraints.penalty_ipo_switch) \
+    or (constraints.ipo and penalty_ipo_lampam > 1e-10 \
+        and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
-        and constraints.penalty_bal_switch)):
+        and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
 #    print('outer_step_result.ss_best', result.ss_best)
-- 
2.43.0


From a9ba30c313f93d0c2a3b60c2154ea2dc93d6036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 64/85] fix: moments of areas of the plies of asymmetric
 laminates in LAYLA

---
 src/LAYLA_V02/moment_of_areas.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LAYLA_V02/moment_of_areas.py b/src/LAYLA_V02/moment_of_areas.py
index d1ae97f..a37a026 100644
--- a/src/LAYLA_V02/moment_of_areas.py
+++ b/src/LAYLA_V02/moment_of_areas.py
@@ -111,6 +111,11 @@ def calc_mom_of_areas(constraints, targets, ply_order, n_plies_in_groups):
         mom_areas_ply_group += pos_mom_areas
         group_mom_areas[-1, :] += mom_areas_ply_group
 
+        # from the order in which plies are optimised to the ply positions
+        mom_areas_ordered = mom_areas
+        mom_areas = np.zeros((targets.n_plies, 3), float)
+        mom_areas[ply_order] = mom_areas_ordered
+
     return mom_areas, cummul_mom_areas, group_mom_areas
 
 
-- 
2.43.0


From a0c8d9d7f2b05fce1e6287747ef887392a4e858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 65/85] fix: weightings of the lamination parameters of
 asymmetric laminates in LAYLA

---
 src/LAYLA_V02/beam_search.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index fddd8f8..ebee9a9 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -119,6 +119,11 @@ def beam_search(
     for local_level in range(group_size):
 
         level = levels[local_level]
+
+        # rank of the ply in the order in which plies are optimised
+        rank = ss_bot.size + local_level
+        if not constraints.sym:
+            rank += ss_top.size
 #        print('********************************')
 #        print('level', level)
 
@@ -260,7 +265,7 @@ def beam_search(
             obj_no_constraints = objectives(
                 lampam=lampam_tab[lampam_tab.shape[0] - n_solution:],
                 targets=targets,
-                lampam_weightings=lampam_weightings[level],
+                lampam_weightings=lampam_weightings[rank],
                 constraints=constraints,
                 parameters=parameters,
                 mat_prop=mat_prop)
@@ -311,7 +316,7 @@ def beam_search(
                             lampam=calc_lampam_from_delta_lp_matrix(
                                 ss, constraints, delta_lampams),
                             targets=targets,
-                            lampam_weightings=lampam_weightings[level],
+                            lampam_weightings=lampam_weightings[rank],
                             constraints=constraints,
                             parameters=parameters,
                             mat_prop=mat_prop)
@@ -331,8 +336,8 @@ def beam_search(
                 lampam_tab[lampam_tab.shape[0] - n_solution:],
                 constraints=constraints,
                 parameters=parameters,
-                cummul_areas=cummul_mom_areas[level, 0],
-                cummul_sec_mom_areas=cummul_mom_areas[level, 2])
+                cummul_areas=cummul_mom_areas[rank, 0],
+                cummul_sec_mom_areas=cummul_mom_areas[rank, 2])
 #            print('penalty_ipo_lampam', penalty_ipo_lampam.shape)
 #            print('penalty_oopo', penalty_oopo.shape)
 
@@ -343,7 +348,7 @@ def beam_search(
                 penalty_ipo_pc = calc_penalty_bal(
                     ply_counts,
                     constraints=constraints,
-                    cummul_areas=cummul_mom_areas[level, 0])
+                    cummul_areas=cummul_mom_areas[rank, 0])
 #                print('penalty_ipo_pc', penalty_ipo_pc.shape)
 
             penalty_bal_ipo = max_arrays(penalty_ipo_pc, penalty_ipo_lampam)
-- 
2.43.0


From fbc39dc9fa763747e346a0e9272d5cdd9a9e9206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 66/85] fix: penalty for balance of the partial laminates of
 LAYLA

---
 src/LAYLA_V02/beam_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index ebee9a9..1d5f0bf 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -346,7 +346,7 @@ def beam_search(
             penalty_ipo_pc = np.zeros((n_solution,))
             if constraints.ipo and parameters.penalty_bal_switch:
                 penalty_ipo_pc = calc_penalty_bal(
-                    ply_counts,
+                    ply_counts_tab[ply_counts_tab.shape[0] - n_solution:],
                     constraints=constraints,
                     cummul_areas=cummul_mom_areas[rank, 0])
 #                print('penalty_ipo_pc', penalty_ipo_pc.shape)
-- 
2.43.0


From 06e57a9adfb6914b6ed0bfa07967a8aec6990a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 67/85] fix: penalties of the designs of LAYLA taken before
 their repair

---
 src/LAYLA_V02/beam_search.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 1d5f0bf..8964156 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -324,6 +324,13 @@ def beam_search(
                         check_lay_up_rules(ss, constraints)
                         lampam_tab[indddd] = calc_lampam_from_delta_lp_matrix(
                             ss, constraints, delta_lampams)
+                        ply_counts_tab[indddd] = [
+                            np.sum(ss == angle) / (2 if constraints.sym else 1)
+                            for angle in constraints.set_of_angles]
+                        if isinstance(penalty_10, np.ndarray):
+                            penalty_10[n_solution - indd - 1] \
+                            = calc_penalty_10_pc(
+                                ply_counts_tab[indddd], constraints)
                     else:
 #                        print('unsuccess full repair')
                         obj_no_constraints[n_solution - indd - 1] = 1e10
-- 
2.43.0


From 49322e78d6747852c35c7d019b2f57fea5136546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 68/85] fix: weighting of the twist coupling lost with a
 penalty for in-plane orthotropy in LAYLA

---
 src/LAYLA_V02/parameters.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index 93d4f32..6ca2b7a 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -344,7 +344,6 @@ Attention, the elements of lampam_to_be_optimised must be either 0 or 1!
         elif constraints.ipo and self.penalty_ipo_switch:
             if set(constraints.set_of_angles) == set([0, 45, -45, 90]):
                 sensitivities[2] = s*coeff_bal_ipo
-                sensitivities[10] = s*coeff_oopo
             else:
                 sensitivities[2] = s*coeff_bal_ipo
                 sensitivities[3] = s*coeff_bal_ipo
-- 
2.43.0


From 6fde9a99add9c32d5bc24756f13ef0f733ca81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 69/85] fix: results of LAYLA could not be displayed

---
 src/LAYLA_V02/results.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LAYLA_V02/results.py b/src/LAYLA_V02/results.py
index 93e71ef..9bc367b 100644
--- a/src/LAYLA_V02/results.py
+++ b/src/LAYLA_V02/results.py
@@ -17,9 +17,9 @@ class LAYLA_Results():
         "Initialise the results of an optimisation with LAYLA"
         self.completed = False
         # solution stacking sequence
-        self.ss_best = None
+        self.ss = None
         # solution lamination parameters
-        self.lampam_best = None
+        self.lampam = None
         # solution objective
         self.objective = None
         # stacking sequence solutions at each outer step
@@ -54,8 +54,8 @@ class LAYLA_Results():
         return f'''
 Results with LAYLA:
 
-    Stacking sequence: {self.ss_best}
-    Lamination parameters 1-4: {self.lampam_best[:4]}
-    Lamination parameters 5-8: {self.lampam_best[4:8]}
-    Lamination parameters 9-12: {self.lampam_best[8:]}
+    Stacking sequence: {self.ss}
+    Lamination parameters 1-4: {self.lampam[:4]}
+    Lamination parameters 5-8: {self.lampam[4:8]}
+    Lamination parameters 9-12: {self.lampam[8:]}
 '''
-- 
2.43.0


From 5aa10c231eec9fdfd73f45488224674cf2af0a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 70/85] fix: sets of fibre orientations without angle plies
 refused

---
 src/BELLA/constraints.py     | 2 +-
 src/LAYLA_V02/constraints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 1059678..fa6ae93 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -339,7 +339,7 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
             elem,
             self.ind_angles_dict[elem],
             self.ind_angles_dict[-elem]
-            ] for elem in angles_bal])
+            ] for elem in angles_bal]).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index 5f68715..988d310 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -270,7 +270,7 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
         self.angles_bal = np.array([[
             elem,
             self.ind_angles_dict[elem],
-            self.ind_angles_dict[-elem]] for elem in angles_bal])
+            self.ind_angles_dict[-elem]] for elem in angles_bal]).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From bf762932ff7c9c2e494bf80e928d91f40fdded00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 71/85] fix: transverse and shear moduli of materials not
 checked

---
 src/BELLA/materials.py     | 4 ++--
 src/LAYLA_V02/materials.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index a467770..cbb514d 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index a467770..cbb514d 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
-- 
2.43.0


From d5769fdc553567a5f5b99cd27a0f012df7e2f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 72/85] fix: default volumic density of materials

---
 src/BELLA/materials.py     | 2 +-
 src/LAYLA_V02/materials.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index cbb514d..c7f426a 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index cbb514d..c7f426a 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
-- 
2.43.0


From e2bfcc7ddeef673e951938533ec33ebdc2be060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 73/85] fix: shear stiffness for buckling from four lamination
 parameters

---
 src/buckling/buckling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buckling/buckling.py b/src/buckling/buckling.py
index aae1013..c9ba6a0 100644
--- a/src/buckling/buckling.py
+++ b/src/buckling/buckling.py
@@ -79,7 +79,7 @@ def buckling_factor(
         D11 = a * (mat.U1 + mat.U2*lampam[0] + mat.U3*lampam[1])
         D12 = a *(-mat.U3*lampam[1] + mat.U4)
         D22 = a *(mat.U1 - mat.U2*lampam[0] + mat.U3*lampam[1])
-        D66 = a *(-mat.U3*lampam[0] + mat.U5)
+        D66 = a *(-mat.U3*lampam[1] + mat.U5)
     for mode_m in range(n_modes):
         for mode_n in range(n_modes):
             buck[mode_m, mode_n] = buckling_factor_m_n(
-- 
2.43.0


From 87bffd8079231bfab4934ad53edf606689f363f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:42 +0000
Subject: [PATCH 74/85] fix: vectors of weightings of wrong sizes accepted

---
 src/BELLA/panels.py         |  5 ++---
 src/LAYLA_V02/parameters.py | 10 ++++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index d490fd7..a758bde 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -105,9 +105,8 @@ The panel weighting in the multi-panel objective function must be positive!
 """)
 
         # lamination-parameter weightings in panel objective function
-        if not(isinstance(lampam_weightings, np.ndarray)) \
-        and lampam_weightings.size == 12 \
-        and lampam_weightings.dtype == float:
+        if not (isinstance(lampam_weightings, np.ndarray) \
+        and lampam_weightings.size == 12):
             raise PanelDefinitionError("""
 Attention, lampam_weightings must be a vector with 12 float components!
 """)
diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index 6ca2b7a..14cf96c 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -248,9 +248,8 @@ Attention, local_node_limit_final must be strictly positive!""")
 
 
         # Lamination parameters sensitivities from the first-lebel optimiser
-        if not(isinstance(first_level_sensitivities, np.ndarray)) \
-        and first_level_sensitivities.size == 12 \
-        and first_level_sensitivities.dtype == float:
+        if not (isinstance(first_level_sensitivities, np.ndarray) \
+        and first_level_sensitivities.size == 12):
             raise ParametersDefinitionError("""
 Attention, first_level_sensitivities must be a vector with 12 float components!
 """)
@@ -262,9 +261,8 @@ Attention, the elements of first_level_sensitivities must be positive!
 
         # Lamination parameters to be considered in the multi-objective
         # functions
-        if not(isinstance(lampam_to_be_optimised, np.ndarray)) \
-        and lampam_to_be_optimised.size == 12 \
-        and lampam_to_be_optimised.dtype == float:
+        if not (isinstance(lampam_to_be_optimised, np.ndarray) \
+        and lampam_to_be_optimised.size == 12):
             raise ParametersDefinitionError("""
 Attention, lampam_to_be_optimised must be a vector with 12 float components!
 """)
-- 
2.43.0


From 53e07733b71f803afeb8f115e42cdbf84602aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:42 +0000
Subject: [PATCH 75/85] fix: penalty for out-of-plane orthotropy truncated for
 integer weightings

---
 src/BELLA/panels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index a758bde..cf3ed1e 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -147,7 +147,7 @@ Attention, the elements of lampam_weightings must be positive!
         lampam_weightings: for all other blending steps (contain penalty for
             out-of-plane orthotropy and does not contain penalty for balance)
         """
-        lampam_weightings = np.copy(self.lampam_weightings_ini)
+        lampam_weightings = self.lampam_weightings_ini.astype(float)
 
         # filter for zero lamination parameters factors
         if constraints.sym:
-- 
2.43.0


From 34031b7e9242d9cbe7b507c86985d1b95e295cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:33 +0000
Subject: [PATCH 76/85] fix: input files whose panels have at most one
 neighbour could not be read

---
 FXI-results/format_restults_FXI_SST_1.py     | 8 ++++++--
 FXI-results/format_restults_FXI_horseshoe.py | 8 ++++++--
 run_BELLA_from_input_file_SST_1.py           | 8 ++++++--
 run_BELLA_from_input_file_horseshoe.py       | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 684af34..9acbea2 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -132,7 +132,11 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={'Neighbour panel IDs': str})
+# an empty cell denotes a panel without neighbours
+data_panels['Neighbour panel IDs'] = data_panels[
+    'Neighbour panel IDs'].fillna('')
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -157,7 +161,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index bb2fa56..f4df185 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -131,7 +131,11 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={'Neighbour panel IDs': str})
+# an empty cell denotes a panel without neighbours
+data_panels['Neighbour panel IDs'] = data_panels[
+    'Neighbour panel IDs'].fillna('')
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -155,7 +159,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index 02447b9..5e4a663 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -211,7 +211,11 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={'Neighbour panel IDs': str})
+# an empty cell denotes a panel without neighbours
+data_panels['Neighbour panel IDs'] = data_panels[
+    'Neighbour panel IDs'].fillna('')
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -235,7 +239,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index f94b0df..58084be 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -211,7 +211,11 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={'Neighbour panel IDs': str})
+# an empty cell denotes a panel without neighbours
+data_panels['Neighbour panel IDs'] = data_panels[
+    'Neighbour panel IDs'].fillna('')
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -235,7 +239,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
-- 
2.43.0


From b11cbbc3293bca3ebcf819978986460f43743e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:49 +0000
Subject: [PATCH 77/85] fix: input files with a single fibre orientation could
 not be read

---
 FXI-results/format_restults_FXI_SST_1.py     | 2 +-
 FXI-results/format_restults_FXI_horseshoe.py | 2 +-
 run_BELLA_from_input_file_SST_1.py           | 2 +-
 run_BELLA_from_input_file_horseshoe.py       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 9acbea2..3f935a3 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -71,7 +71,7 @@ delta_angle = float(data_constraints["delta_angle"].iloc[0])
 contig = data_constraints["contig"].iloc[0]
 n_contig = int(data_constraints["n_contig"].iloc[0])
 set_of_angles = np.array(
-    data_constraints["fibre orientations"].iloc[0].split(" "), int)
+    str(data_constraints["fibre orientations"].iloc[0]).split(), float).astype(int)
 pdl_spacing = data_constraints["ply drop spacing rule"].iloc[0]
 min_drop = int(data_constraints[
     "minimum number of continuous plies between ply drops"].iloc[0])
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index f4df185..0cca17f 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -70,7 +70,7 @@ delta_angle = float(data_constraints["delta_angle"].iloc[0])
 contig = data_constraints["contig"].iloc[0]
 n_contig = int(data_constraints["n_contig"].iloc[0])
 set_of_angles = np.array(
-    data_constraints["fibre orientations"].iloc[0].split(" "), int)
+    str(data_constraints["fibre orientations"].iloc[0]).split(), float).astype(int)
 pdl_spacing = data_constraints["ply drop spacing rule"].iloc[0]
 min_drop = int(data_constraints[
     "minimum number of continuous plies between ply drops"].iloc[0])
diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index 5e4a663..5b2f4b3 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -61,7 +61,7 @@ delta_angle = float(data_constraints["delta_angle"].iloc[0])
 contig = data_constraints["contig"].iloc[0]
 n_contig = int(data_constraints["n_contig"].iloc[0])
 set_of_angles = np.array(
-    data_constraints["fibre orientations"].iloc[0].split(" "), int)
+    str(data_constraints["fibre orientations"].iloc[0]).split(), float).astype(int)
 pdl_spacing = data_constraints["ply drop spacing rule"].iloc[0]
 min_drop = int(data_constraints[
     "minimum number of continuous plies between ply drops"].iloc[0])
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index 58084be..0f3209e 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -60,7 +60,7 @@ delta_angle = float(data_constraints["delta_angle"].iloc[0])
 contig = data_constraints["contig"].iloc[0]
 n_contig = int(data_constraints["n_contig"].iloc[0])
 set_of_angles = np.array(
-    data_constraints["fibre orientations"].iloc[0].split(" "), int)
+    str(data_constraints["fibre orientations"].iloc[0]).split(), float).astype(int)
 pdl_spacing = data_constraints["ply drop spacing rule"].iloc[0]
 min_drop = int(data_constraints[
     "minimum number of continuous plies between ply drops"].iloc[0])
-- 
2.43.0


From 8820491e0efc067b88d9632a2d1724c670e368e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:49 +0000
Subject: [PATCH 78/85] fix: flags read back as 0 or 1 from input files refused
 by Constraints

---
 FXI-results/format_restults_FXI_SST_1.py     | 20 ++++++++++----------
 FXI-results/format_restults_FXI_horseshoe.py | 20 ++++++++++----------
 run_BELLA_from_input_file_SST_1.py           | 20 ++++++++++----------
 run_BELLA_from_input_file_horseshoe.py       | 20 ++++++++++----------
 4 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 3f935a3..6850522 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -50,15 +50,15 @@ delete_file(filename_res)
 
 data_constraints = pd.read_excel(filename_input, sheet_name='Constraints',
                                  header=None, index_col=0).T
-sym = data_constraints["symmetry"].iloc[0]
-bal = data_constraints["balance"].iloc[0]
-oopo = data_constraints["out-of-plane orthotropy"].iloc[0]
-dam_tol = data_constraints["damage tolerance"].iloc[0]
+sym = bool(data_constraints["symmetry"].iloc[0])
+bal = bool(data_constraints["balance"].iloc[0])
+oopo = bool(data_constraints["out-of-plane orthotropy"].iloc[0])
+dam_tol = bool(data_constraints["damage tolerance"].iloc[0])
 dam_tol_rule = int(data_constraints["dam_tol_rule"].iloc[0])
-covering = data_constraints["covering"].iloc[0]
+covering = bool(data_constraints["covering"].iloc[0])
 n_covering = int(data_constraints["n_covering"].iloc[0])
-rule_10_percent = data_constraints["10% rule"].iloc[0]
-rule_10_Abdalla = data_constraints["10% rule applied on LPs"].iloc[0]
+rule_10_percent = bool(data_constraints["10% rule"].iloc[0])
+rule_10_Abdalla = bool(data_constraints["10% rule applied on LPs"].iloc[0])
 percent_Abdalla = float(data_constraints[
     "percentage limit when rule applied on LPs"].iloc[0])
 percent_0 = float(data_constraints["percent_0"].iloc[0])
@@ -66,13 +66,13 @@ percent_45 = float(data_constraints["percent_45"].iloc[0])
 percent_90 = float(data_constraints["percent_90"].iloc[0])
 percent_135 = float(data_constraints["percent_-45"].iloc[0])
 percent_45_135 = float(data_constraints["percent_+-45"].iloc[0])
-diso = data_constraints["diso"].iloc[0]
+diso = bool(data_constraints["diso"].iloc[0])
 delta_angle = float(data_constraints["delta_angle"].iloc[0])
-contig = data_constraints["contig"].iloc[0]
+contig = bool(data_constraints["contig"].iloc[0])
 n_contig = int(data_constraints["n_contig"].iloc[0])
 set_of_angles = np.array(
     str(data_constraints["fibre orientations"].iloc[0]).split(), float).astype(int)
-pdl_spacing = data_constraints["ply drop spacing rule"].iloc[0]
+pdl_spacing = bool(data_constraints["ply drop spacing rule"].iloc[0])
 min_drop = int(data_constraints[
     "minimum number of continuous plies between ply drops"].iloc[0])
 constraints = Constraints(
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index 0cca17f..46ddb35 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -49,15 +49,15 @@ delete_file(filename_res)
 
 data_constraints = pd.read_excel(filename_input, sheet_name='Constraints',
                                  header=None, index_col=0).T
-sym = data_constraints["symmetry"].iloc[0]
-bal = data_constraints["balance"].iloc[0]
-oopo = data_constraints["out-of-plane orthotropy"].iloc[0]
-dam_tol = data_constraints["damage tolerance"].iloc[0]
+sym = bool(data_constraints["symmetry"].iloc[0])
+bal = bool(data_constraints["balance"].iloc[0])
+oopo = bool(data_constraints["out-of-plane orthotropy"].iloc[0])
+dam_tol = bool(data_constraints["damage tolerance"].iloc[0])
 dam_tol_rule = int(data_constraints["dam_tol_rule"].iloc[0])
-covering = data_constraints["covering"].iloc[0]
+covering = bool(data_constraints["covering"].iloc[0])
 n_covering = int(data_constraints["n_covering"].iloc[0])
-rule_10_percent = data_constraints["10% rule"].iloc[0]
-rule_10_Abdalla = data_constraints["10% rule applied on LPs"].iloc[0]
+rule_10_percent = bool(data_constraints["10% rule"].iloc[0])
+rule_10_Abdalla = bool(data_constraints["10% rule applied on LPs"].iloc[0])
 percent_Abdalla = float(data_constraints[
     "percentage limit when rule applied on LPs"].iloc[0])
 percent_0 = float(data_constraints["percent_0"].iloc[0])
@@ -65,13 +65,13 @@ percent_45 = float(data_constraints["percent_45"].iloc[0])
 percent_90 = float(data_constraints["percent_90"].iloc[0])
 percent_135 = float(data_constraints["percent_-45"].iloc[0])
 percent_45_135 = float(data_constraints["percent_+-45"].iloc[0])
-diso = data_constraints["diso"].iloc[0]
+diso = bool(data_constraints["diso"].iloc[0])
 delta_angle = float(data_constraints["delta_angle"].iloc[0])
-contig = data_constraints["contig"].iloc[0]
+contig = bool(data_constraints["contig"].iloc[0])
 n_contig = int(data_constraints["n_contig"].iloc[0])
 set_of_angles = np.array(
     str(data_constraints["fibre orientations"].iloc[0]).split(), float).astype(int)
-pdl_spacing = data_constraints["ply drop spacing rule"].iloc[0]
+pdl_spacing = bool(data_constraints["ply drop spacing rule"].iloc[0])
 min_drop = int(data_constraints[
     "minimum number of continuous plies between ply drops"].iloc[0])
 constraints = Constraints(
diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index 5b2f4b3..e99c653 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -40,15 +40,15 @@ delete_file(filename_result)
 
 data_constraints = pd.read_excel(filename_input, sheet_name='Constraints',
                                  header=None, index_col=0).T
-sym = data_constraints["symmetry"].iloc[0]
-bal = data_constraints["balance"].iloc[0]
-oopo = data_constraints["out-of-plane orthotropy"].iloc[0]
-dam_tol = data_constraints["damage tolerance"].iloc[0]
+sym = bool(data_constraints["symmetry"].iloc[0])
+bal = bool(data_constraints["balance"].iloc[0])
+oopo = bool(data_constraints["out-of-plane orthotropy"].iloc[0])
+dam_tol = bool(data_constraints["damage tolerance"].iloc[0])
 dam_tol_rule = int(data_constraints["dam_tol_rule"].iloc[0])
-covering = data_constraints["covering"].iloc[0]
+covering = bool(data_constraints["covering"].iloc[0])
 n_covering = int(data_constraints["n_covering"].iloc[0])
-rule_10_percent = data_constraints["10% rule"].iloc[0]
-rule_10_Abdalla = data_constraints["10% rule applied on LPs"].iloc[0]
+rule_10_percent = bool(data_constraints["10% rule"].iloc[0])
+rule_10_Abdalla = bool(data_constraints["10% rule applied on LPs"].iloc[0])
 percent_Abdalla = float(data_constraints[
     "percentage limit when rule applied on LPs"].iloc[0])
 percent_0 = float(data_constraints["percent_0"].iloc[0])
@@ -56,13 +56,13 @@ percent_45 = float(data_constraints["percent_45"].iloc[0])
 percent_90 = float(data_constraints["percent_90"].iloc[0])
 percent_135 = float(data_constraints["percent_-45"].iloc[0])
 percent_45_135 = float(data_constraints["percent_+-45"].iloc[0])
-diso = data_constraints["diso"].iloc[0]
+diso = bool(data_constraints["diso"].iloc[0])
 delta_angle = float(data_constraints["delta_angle"].iloc[0])
-contig = data_constraints["contig"].iloc[0]
+contig = bool(data_constraints["contig"].iloc[0])
 n_contig = int(data_constraints["n_contig"].iloc[0])
 set_of_angles = np.array(
     str(data_constraints["fibre orientations"].iloc[0]).split(), float).astype(int)
-pdl_spacing = data_constraints["ply drop spacing rule"].iloc[0]
+pdl_spacing = bool(data_constraints["ply drop spacing rule"].iloc[0])
 min_drop = int(data_constraints[
     "minimum number of continuous plies between ply drops"].iloc[0])
 constraints = Constraints(
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index 0f3209e..12adf25 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -39,15 +39,15 @@ delete_file(filename_result)
 
 data_constraints = pd.read_excel(filename_input, sheet_name='Constraints',
                                  header=None, index_col=0).T
-sym = data_constraints["symmetry"].iloc[0]
-bal = data_constraints["balance"].iloc[0]
-oopo = data_constraints["out-of-plane orthotropy"].iloc[0]
-dam_tol = data_constraints["damage tolerance"].iloc[0]
+sym = bool(data_constraints["symmetry"].iloc[0])
+bal = bool(data_constraints["balance"].iloc[0])
+oopo = bool(data_constraints["out-of-plane orthotropy"].iloc[0])
+dam_tol = bool(data_constraints["damage tolerance"].iloc[0])
 dam_tol_rule = int(data_constraints["dam_tol_rule"].iloc[0])
-covering = data_constraints["covering"].iloc[0]
+covering = bool(data_constraints["covering"].iloc[0])
 n_covering = int(data_constraints["n_covering"].iloc[0])
-rule_10_percent = data_constraints["10% rule"].iloc[0]
-rule_10_Abdalla = data_constraints["10% rule applied on LPs"].iloc[0]
+rule_10_percent = bool(data_constraints["10% rule"].iloc[0])
+rule_10_Abdalla = bool(data_constraints["10% rule applied on LPs"].iloc[0])
 percent_Abdalla = float(data_constraints[
     "percentage limit when rule applied on LPs"].iloc[0])
 percent_0 = float(data_constraints["percent_0"].iloc[0])
@@ -55,13 +55,13 @@ percent_45 = float(data_constraints["percent_45"].iloc[0])
 percent_90 = float(data_constraints["percent_90"].iloc[0])
 percent_135 = float(data_constraints["percent_-45"].iloc[0])
 percent_45_135 = float(data_constraints["percent_+-45"].iloc[0])
-diso = data_constraints["diso"].iloc[0]
+diso = bool(data_constraints["diso"].iloc[0])
 delta_angle = float(data_constraints["delta_angle"].iloc[0])
-contig = data_constraints["contig"].iloc[0]
+contig = bool(data_constraints["contig"].iloc[0])
 n_contig = int(data_constraints["n_contig"].iloc[0])
 set_of_angles = np.array(
     str(data_constraints["fibre orientations"].iloc[0]).split(), float).astype(int)
-pdl_spacing = data_constraints["ply drop spacing rule"].iloc[0]
+pdl_spacing = bool(data_constraints["ply drop spacing rule"].iloc[0])
 min_drop = int(data_constraints[
     "minimum number of continuous plies between ply drops"].iloc[0])
 constraints = Constraints(
-- 
2.43.0


From 76bd82d98373765ad6922e3f8262853d37644ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:06 +0000
Subject: [PATCH 79/85] fix: np.bool, removed from numpy, in the subset sum
 tools

---
 src/divers/subset_sum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index 5fc0e91..b1d3cb1 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -153,7 +153,7 @@ def subset_next_test ( ):
 
   print ( '' )
   n = 5
-  t = np.zeros ( n, dtype = np.bool )
+  t = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
@@ -216,7 +216,7 @@ def subset_sum_count ( n, w, t ):
 
   count = 0
 
-  s = np.zeros ( n, dtype = np.bool )
+  s = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
@@ -413,8 +413,8 @@ def subset_sum_find ( n, w, t ):
   import numpy as np
   from sys import exit
 
-  s = np.zeros ( n, dtype = np.bool )
-  s2 = np.zeros ( n, dtype = np.bool )
+  s = np.zeros ( n, dtype = bool )
+  s2 = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
-- 
2.43.0


From e8c400e6ebd78c9550b1d3965930cba69ce10290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:06 +0000
Subject: [PATCH 80/85] fix: endless loop in subset_sum_table_to_list without
 solution

---
 src/divers/subset_sum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index b1d3cb1..d4353ef 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -1063,6 +1063,12 @@ def subset_sum_table_to_list ( t, table ):
 
   m = 0
   i = t
+#
+#  No solution.
+#
+  if ( table[i] == 0 ):
+    return m, index
+
   while ( 0 < i ):
     index.append ( table[i] )
     i = i - table[i]
-- 
2.43.0


From 5654a4a2f81b71b59d2894f295bff01beb24a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:06 +0000
Subject: [PATCH 81/85] fix: subset_sum_next missed solutions made of zeros or
 repeated values

---
 src/divers/subset_sum.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index d4353ef..f6697ec 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -632,6 +632,23 @@ def subset_sum_next ( s, n, v, more, u, t ):
     t = -1
     u = np.zeros ( n )
 
+  elif ( t < n - 1 and v[t+1] == 0 ):
+#
+#  The last solution stays one with a further value equal to zero.
+#
+    more = False
+    t = t + 1
+    u[t] = 1
+
+  elif ( 0 <= t and t < n - 1 and v[t+1] == v[t] ):
+#
+#  The last solution stays one with the next of two equal values.
+#
+    more = False
+    u[t] = 0
+    t = t + 1
+    u[t] = 1
+
   else:
 
     more = False
-- 
2.43.0


From b1ed6a21c21443de3d64b49fe69bf0a1c42d5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:06 +0000
Subject: [PATCH 82/85] fix: printing with one element per line printed all of
 them in one line

---
 src/divers/pretty_print.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/divers/pretty_print.py b/src/divers/pretty_print.py
index 5fc3e05..1084be7 100644
--- a/src/divers/pretty_print.py
+++ b/src/divers/pretty_print.py
@@ -154,9 +154,7 @@ def print_ss(ss1, elem_per_line=200):
     ss1 = np.copy(ss1)
     ss1.reshape((ss1.size,))
     for ind in range(ss1.size):
-        if ind % elem_per_line == 0:
-            print(f'{ss1[ind]:3d}, ', end='')
-        elif ind % elem_per_line == elem_per_line - 1:
+        if ind % elem_per_line == elem_per_line - 1:
             print(f'{ss1[ind]:3d}, ')
         else:
             print(f'{ss1[ind]:3d}, ', end='')
@@ -171,9 +169,7 @@ def print_list(ss1, elem_per_line=200):
     else:
         length = ss1.size
     for ind in range(length):
-        if ind % elem_per_line == 0:
-            print(f'{ss1[ind]:0.5f}, ', end='')
-        elif ind % elem_per_line == elem_per_line - 1:
+        if ind % elem_per_line == elem_per_line - 1:
             print(f'{ss1[ind]:0.5f}, ')
         else:
             print(f'{ss1[ind]:0.5f}, ', end='')
-- 
2.43.0


From 2a3ac124047a459501e0dfb45ed0f034a620bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:23 +0000
Subject: [PATCH 83/85] fix: sortAccording failed for orders with repeated
 elements

---
 src/divers/sorting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/divers/sorting.py b/src/divers/sorting.py
index 09c60d6..277ed88 100644
--- a/src/divers/sorting.py
+++ b/src/divers/sorting.py
@@ -47,8 +47,8 @@ def sortAccording(A1, A2):
         # of A2[i] in temp
         f = first(temp, 0, m-1, A2[i], m)
 
-        # If not present, no need to proceed
-        if (f == -1) :
+        # If not present or already copied, no need to proceed
+        if (f == -1 or visited[f] == 1) :
             continue
 
         # Copy all occurrences of A2[i] to A1[]
-- 
2.43.0


From 1e783a85bf8f64fd4300afe5cf7a45e8ef34986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:21 +0000
Subject: [PATCH 84/85] fix: keep the middle ply when a layout is recovered
 from a symmetric table

---
 src/BELLA/pdl_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index 5100c79..126560a 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -270,13 +270,13 @@ def input_pdl_from_sst(sst, multipanel, constraints):
         if constraints.n_covering == 1:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 1:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 1:(sst.shape[1] + 1) // 2]
         elif constraints.n_covering == 2:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0, 1], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 2:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 2:(sst.shape[1] + 1) // 2]
         else:
-            sst_to_mod = sst_to_mod[:, :sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, :(sst.shape[1] + 1) // 2]
 
         for ind_panel in range(sst_to_mod.shape[0]):
             counter = 0
-- 
2.43.0


From 6394c76c1998932cb5686c98e7efdbd1a403831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:57 +0000
Subject: [PATCH 85/85] fix: leave the caller's parameters unchanged in a run
 of the optimiser

---
 src/BELLA/optimiser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 681567d..1ac6961 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -6,6 +6,7 @@ Optimisation of a composite laminate design
 __version__ = '1.0'
 __author__ = 'Noemie Fedon'
 
+import copy
 import sys
 import time
 import numpy as np
@@ -51,6 +52,10 @@ def BELLA_optimiser(
 
     delete_file(filename)
 
+    # the number of ply-drop layouts and the group sizes are adapted to the run
+    # in a copy, to keep the parameters of the caller
+    parameters = copy.copy(parameters)
+
     multipanel.should_you_use_BELLA()
     multipanel.calc_weight_per_panel(mat.density_area)
     multipanel.filter_target_lampams(constraints, obj_func_param)
-- 
2.43.0

