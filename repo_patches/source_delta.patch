From e1ae3b42f275cb811175e5e116c9e8b2091b3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 01/26] fix: accumulate point loads given in several rows for
 the same node

---
 solidspy/assemutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 9249e74..a2e33fb 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -321,7 +321,7 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-                rhs_vec[dof_id] = loads[cont, dof + 1]
+                rhs_vec[dof_id] += loads[cont, dof + 1]
     return rhs_vec
 
 
-- 
2.43.0


From f7c42b58ad968a47e447d6538848aeef2f0a07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:55 +0000
Subject: [PATCH 02/26] fix: return a full zero mass matrix for springs so they
 can be assembled

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 173ef58..ea1ec58 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -442,7 +442,7 @@ def spring(coord, stiff):
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-    return stiff_mat, np.zeros(4)
+    return stiff_mat, np.zeros((4, 4))
 
 
 def truss2D(coord, params):
-- 
2.43.0


From 7ea97001a31ddf402391ba55d45c1c6f52a8965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:59 +0000
Subject: [PATCH 03/26] fix: take only the stiffness from the material row of a
 spring

---
 solidspy/uelutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index ea1ec58..4ea164f 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -438,6 +438,7 @@ def spring(coord, stiff):
     Q = np.array([
         [nx, ny, 0, 0],
         [0, 0, nx, ny]])
+    stiff = np.ravel(stiff)[0]  # material rows can have extra columns
     stiff_mat = stiff * np.array([
         [1, -1],
         [-1, 1]])
-- 
2.43.0


From 9adb38c0d9b496a8dc006050c4add4668a9a7226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 04/26] fix: rotate beam matrices into the global axes
 consistently with the nodal rotations

---
 solidspy/uelutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 4ea164f..b6a6f6c 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -544,9 +544,9 @@ def beam2DU(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [ny, nx, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment = params[:2]
     bending_stiff = area_moment*young/L**3
@@ -602,11 +602,11 @@ def beam2D(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [nx, -ny, 0, 0, 0, 0],
-        [ny, nx, 0, 0, 0, 0],
+        [nx, ny, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, nx, -ny, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, nx, ny, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment, area = params[:3]
     bending_stiff = area_moment * young
-- 
2.43.0


From 9da4f688b41b5190f9b5a5412ae090a63ef967f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 05/26] fix: accept the documented optional parameters of beams
 in any sequence type

---
 solidspy/uelutil.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index b6a6f6c..c257d1d 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -555,11 +555,8 @@ def beam2DU(coord, params):
         [6*L, 4*L**2, -6*L, 2*L**2],
         [-12, -6*L, 12, -6*L],
         [6*L, 2*L**2, -6*L, 4*L**2]])
-    if len(params) == 2:
-        dens = 1.0
-        area = 1.0
-    else:
-        dens, area = params[2:]
+    dens = params[2] if len(params) > 2 else 1.0
+    area = params[3] if len(params) > 3 else 1.0
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [156, 22*L, 54, -13*L],
@@ -622,7 +619,7 @@ def beam2D(coord, params):
     if len(params) == 3:
         dens = 1.0
     else:
-        dens = params[3:]
+        dens = params[3]
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [140, 0, 0, 70, 0, 0],
-- 
2.43.0


From 23f83fcf7adbd18833faba95a0c562bb53ab4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 06/26] fix: evaluate the strains of the 3-noded triangle at
 its three integration points

---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d13dd1b..bbb31dc 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -701,7 +701,7 @@ def str_el3(coord, ul):
     """
     epsG = np.zeros([3, 3])
     xl = np.zeros([3, 2])
-    gpts, _ = gau.gauss_tri(order=1)
+    gpts, _ = gau.gauss_tri(order=2)
     for i in range(gpts.shape[0]):
         ri, si =  gpts[i, :]
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
-- 
2.43.0


From 254438ac8cda81870635f68b48200917a108bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:16 +0000
Subject: [PATCH 07/26] fix: use the vertical coordinates for the position of
 the Gauss points

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index bbb31dc..0eced87 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -707,7 +707,7 @@ def str_el3(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -739,7 +739,7 @@ def str_el6(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -771,7 +771,7 @@ def str_el4(coord, ul):
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
-- 
2.43.0


From 737505f2f0b2bfcaace813c66de4facd49d15dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:20 +0000
Subject: [PATCH 08/26] fix: pair Gauss-point strains with the nodes of the
 4-noded quadrilateral

---
 solidspy/femutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 0eced87..9d67b2d 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -766,6 +766,7 @@ def str_el4(coord, ul):
     epsG = np.zeros([3, 4])
     xl = np.zeros([4, 2])
     gpts, _ = gau.gauss_nd(2)
+    gpts = gpts[[0, 2, 3, 1]]  # follow the numbering of the nodes
     for i in range(gpts.shape[0]):
         ri, si = gpts[i, :]
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
-- 
2.43.0


From 0b366578997fd7b089d361d4402c1826e8793f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:24 +0000
Subject: [PATCH 09/26] fix: recover strains for materials with a density
 column

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 700a692..60e2759 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -369,7 +369,7 @@ def strain_nodes(nodes, elements, mats, sol_complete):
     IELCON = elements[:, 3:]
 
     for el in range(nelems):
-        young, poisson = mats[int(elements[el, 2]), :]
+        young, poisson = mats[int(elements[el, 2]), :2]
         shear = young/(2*(1 + poisson))
         fact1 = young/(1 - poisson**2)
         fact2 = poisson*young/(1 - poisson**2)
-- 
2.43.0


From 63503da373ea91c19379586660ec969062dd446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 10/26] fix: use np.nan, np.NaN does not exist in NumPy 2

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 60e2759..289fac2 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -596,8 +596,8 @@ def eigvals(mat, tol=1e-6):
     if np.abs(mat).max() < tol:
         eig1 = 0.0
         eig2 = 0.0
-        vec1 = np.array([np.NaN, np.NaN])
-        vec2 = np.array([np.NaN, np.NaN])
+        vec1 = np.array([np.nan, np.nan])
+        vec2 = np.array([np.nan, np.nan])
     elif abs(mat[0, 1])/np.abs(mat).max() < tol:
         eig1 = mat[0, 0]
         eig2 = mat[1, 1]
-- 
2.43.0


From 3fce763d46b2c7860a31f06e93c31de353601193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:32 +0000
Subject: [PATCH 11/26] fix: do not report zero principal values for small
 non-zero tensors

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 289fac2..9e1a7a9 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -593,7 +593,7 @@ def eigvals(mat, tol=1e-6):
     True
 
     """
-    if np.abs(mat).max() < tol:
+    if np.abs(mat).max() == 0:
         eig1 = 0.0
         eig2 = 0.0
         vec1 = np.array([np.nan, np.nan])
-- 
2.43.0


From 9bb54222e5de10fd809d5198193dfef3a287ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:36 +0000
Subject: [PATCH 12/26] fix: pass to each plotting function only the arguments
 it accepts

---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 9e1a7a9..2b01118 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -101,10 +101,9 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
         Filename to save the figures.
     """
     if plt_type == "pcolor":
-        disp_plot = plt.tripcolor
+        plt.tripcolor(tri, field, shading="gouraud")
     elif plt_type == "contourf":
-        disp_plot = plt.tricontourf
-    disp_plot(tri, field, levels, shading="gouraud")
+        plt.tricontourf(tri, field, levels)
     plt.title(title)
     plt.colorbar(orientation='vertical')
     plt.axis("image")
-- 
2.43.0


From 3702476c81767e8238cffd8f7e17208edc57ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:39 +0000
Subject: [PATCH 13/26] fix: treat beams with axial deformation as structural
 when plotting

---
 solidspy/postprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 2b01118..2949721 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -49,7 +49,8 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
     # Check for structural elements in the mesh
     struct_pos = 5 in elements[:, 1] or \
              6 in elements[:, 1] or \
-             7 in elements[:, 1]
+             7 in elements[:, 1] or \
+             8 in elements[:, 1]
     if struct_pos:
         # Still not implemented visualization for structural elements
         print(disp)
-- 
2.43.0


From 9296f181ebaa6df4fd0c0ccddca9c1165152cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:44 +0000
Subject: [PATCH 14/26] fix: plot fields given as a table with a single column

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 2949721..82e35f0 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -160,7 +160,7 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-        if nfields == 1:
+        if len(field.shape) == 1:
             current_field = field
         else:
             current_field = field[:, cont]
-- 
2.43.0


From e88997b7282255929bb2a482cf7a8973e98c9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 15/26] fix: give image degrees of freedom the reduced number
 of their reference

---
 solidspy/blochutil.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/solidspy/blochutil.py b/solidspy/blochutil.py
index a05f591..51e74f9 100644
--- a/solidspy/blochutil.py
+++ b/solidspy/blochutil.py
@@ -51,10 +51,8 @@ def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
         if cont_dof in dofs_ima:
             cont += 1
             ref_dof = dofs_ref[dofs_ima.index(cont_dof)]
-            if ref_dof < cont_dof:
-                new_num.append(ref_dof)
-            else:
-                new_num.append(ref_dof - cont)
+            shift = sum(dof < ref_dof for dof in dofs_ima)
+            new_num.append(ref_dof - shift)
         else:
             new_num.append(cont_dof - cont)
     return new_num
-- 
2.43.0


From 12722b64de1954fdd2f8a564e1565657e580e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 16/26] fix: find the model files when the folder has no
 trailing separator

---
 solidspy/preprocesor.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index dd26468..dc1bb11 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -7,26 +7,27 @@ This module contains functions to preprocess the input files to compute
 a Finite Element Analysis.
 
 """
+import os
 import sys
 import numpy as np
 
 
 def readin(folder=""):
     """Read the input files"""
-    nodes = np.loadtxt(folder + 'nodes.txt', ndmin=2)
-    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)
-    elements = np.loadtxt(folder + 'eles.txt', ndmin=2, dtype=int)
-    loads = np.loadtxt(folder + 'loads.txt', ndmin=2)
+    nodes = np.loadtxt(os.path.join(folder, 'nodes.txt'), ndmin=2)
+    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2)
+    elements = np.loadtxt(os.path.join(folder, 'eles.txt'), ndmin=2, dtype=int)
+    loads = np.loadtxt(os.path.join(folder, 'loads.txt'), ndmin=2)
 
     return nodes, mats, elements, loads
 
 
 def echomod(nodes, mats, elements, loads, folder=""):
     """Create echoes of the model input files"""
-    np.savetxt(folder + "KNODES.txt", nodes, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KMATES.txt", mats, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KELEMS.txt", elements, fmt='%d', delimiter=' ')
-    np.savetxt(folder + "KLOADS.txt", loads, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KNODES.txt"), nodes, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KMATES.txt"), mats, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KELEMS.txt"), elements, fmt='%d', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KLOADS.txt"), loads, fmt='%5.2f', delimiter=' ')
 
 
 def initial_params():
-- 
2.43.0


From 05a5b344c3d6aa0137cfd8d04d331a9826cb32d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:58 +0000
Subject: [PATCH 17/26] fix: judge collapsed elements relative to their own
 size

---
 solidspy/femutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 9d67b2d..0fa623a 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -526,7 +526,8 @@ def jacoper(dNdr, coord):
     """
     jaco = dNdr @ coord
     det = np.linalg.det(jaco)
-    if np.isclose(np.abs(det), 0.0):
+    scale = np.linalg.norm(jaco)**jaco.shape[0]
+    if np.abs(det) <= 1e-8*scale:
         msg = "Jacobian close to zero. Check the shape of your elements!"
         raise ValueError(msg)
     jaco_inv = np.linalg.inv(jaco)
-- 
2.43.0


From 4f98e93cae7072b9421d5c6cbf9f6d38075e7a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:02 +0000
Subject: [PATCH 18/26] fix: couple hoop and in-plane stresses in the
 axisymmetric material

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 0fa623a..de70894 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -639,10 +639,10 @@ def elast_mat_axi(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-        [2*mu + lamda, lamda, 0, 0],
-        [lamda, 2*mu + lamda, 0, 0],
+        [2*mu + lamda, lamda, 0, lamda],
+        [lamda, 2*mu + lamda, 0, lamda],
         [0, 0, mu, 0],
-        [0, 0, 0, 2*mu + lamda]])
+        [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
-- 
2.43.0


From 73e65ee8c063f451d88fa9c0fcf9523add0eac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:35 +0000
Subject: [PATCH 19/26] fix: weight the axisymmetric integrals with the radius

---
 solidspy/uelutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index c257d1d..0c5dd95 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -322,7 +322,8 @@ def elast_axi_quad9(coord, params):
         r = gpts[cont, 0]
         s = gpts[cont, 1]
         H, B, det = fem.elast_diff_axi(r, s, coord, fem.shape_quad9)
-        factor = det * gwts[cont]
+        radius = H[0, 0::2] @ coord[:, 0]
+        factor = radius * det * gwts[cont]
         stiff_mat += factor * (B.T @ C @ B)
         mass_mat += rho*factor * (H.T @ H)
     return stiff_mat, mass_mat
-- 
2.43.0


From ff94a36aca65f2ccb3816553cebe81ed96fab8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:04 +0000
Subject: [PATCH 20/26] fix: principal values of very large, very small and
 nearly isotropic tensors

---
 solidspy/postprocesor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 82e35f0..93b7685 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -605,11 +605,11 @@ def eigvals(mat, tol=1e-6):
         vec2 = np.array([0, 1])
     else:
         trace = mat[0, 0] + mat[1, 1]
-        det = mat[0, 0]*mat[1, 1] - mat[0, 1]**2
-        eig1 = 0.5*(trace - np.sqrt(trace**2 - 4*det))
-        eig2 = 0.5*(trace + np.sqrt(trace**2 - 4*det))
+        radius = np.hypot(mat[0, 0] - mat[1, 1], 2*mat[0, 1])
+        eig1 = 0.5*(trace - radius)
+        eig2 = 0.5*(trace + radius)
         vec1 = np.array([mat[0, 0] - eig2, mat[0, 1]])
-        vec1 = vec1/np.sqrt(vec1[0]**2 + vec1[1]**2)
+        vec1 = vec1/np.hypot(vec1[0], vec1[1])
         vec2 = np.array([-vec1[1], vec1[0]])
     if abs(eig2) > abs(eig1):
         eig2, eig1 = eig1, eig2
-- 
2.43.0


From 0b6e8646e468c39794775acec620317074750527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:11 +0000
Subject: [PATCH 21/26] fix: refuse springs, trusses and beams of zero length

They silently filled the global matrices with NaN.
---
 solidspy/uelutil.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 0c5dd95..e0d015d 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -434,6 +434,8 @@ def spring(coord, stiff):
 
     """
     vec = coord[1, :] - coord[0, :]
+    if not np.any(vec):
+        raise ValueError("Length of the element is zero. Check your nodes!")
     nx = vec[0]/np.linalg.norm(vec)
     ny = vec[1]/np.linalg.norm(vec)
     Q = np.array([
@@ -489,6 +491,8 @@ def truss2D(coord, params):
 
     """
     vec = coord[1, :] - coord[0, :]
+    if not np.any(vec):
+        raise ValueError("Length of the element is zero. Check your nodes!")
     length = np.linalg.norm(vec)
     nx = vec[0]/length
     ny = vec[1]/length
@@ -541,6 +545,8 @@ def beam2DU(coord, params):
       Local mass matrix for the element (6, 6).
     """
     vec = coord[1, :] - coord[0, :]
+    if not np.any(vec):
+        raise ValueError("Length of the element is zero. Check your nodes!")
     nx = vec[0]/np.linalg.norm(vec)
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
@@ -596,6 +602,8 @@ def beam2D(coord, params):
       Local mass matrix for the element (6, 6).
     """
     vec = coord[1, :] - coord[0, :]
+    if not np.any(vec):
+        raise ValueError("Length of the element is zero. Check your nodes!")
     nx = vec[0]/np.linalg.norm(vec)
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
-- 
2.43.0


From d4ab32a1e283fa226bf0138d4184c68837661ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:11 +0000
Subject: [PATCH 22/26] fix: refuse strain recovery for element types it does
 not cover

An unknown type after the first row was treated as the type of the first
element.
---
 solidspy/postprocesor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 93b7685..469ddc8 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -368,6 +368,8 @@ def strain_nodes(nodes, elements, mats, sol_complete):
     ul = np.zeros([ndof])
     IELCON = elements[:, 3:]
 
+    if np.any(elements[:, 1] != iet):
+        raise ValueError("All the elements should be of the same type.")
     for el in range(nelems):
         young, poisson = mats[int(elements[el, 2]), :2]
         shear = young/(2*(1 + poisson))
@@ -383,6 +385,8 @@ def strain_nodes(nodes, elements, mats, sol_complete):
             epsG, _ = fe.str_el6(elcoor, ul)
         elif iet == 3:
             epsG, _ = fe.str_el3(elcoor, ul)
+        else:
+            raise ValueError("There is no strain recovery for this element.")
         for cont, node in enumerate(IELCON[el, :]):
             E_nodes[node, 0] += epsG[cont, 0]
             E_nodes[node, 1] += epsG[cont, 1]
-- 
2.43.0


From e3a3469f6e1e7a2fda5852a9a67b2bd74e550218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 23/26] fix: plot_node_field drew over open figures after
 others were closed

---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 469ddc8..9cbc66c 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -154,9 +154,8 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if title is None:
         title = ["" for cont in range(nfields)]
     if figtitle is None:
-        figs = plt.get_fignums()
-        nfigs = len(figs)
-        figtitle = [cont + 1 for cont in range(nfigs, nfigs + nfields)]
+        last = max(plt.get_fignums(), default=0)
+        figtitle = [cont + 1 for cont in range(last, last + nfields)]
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-- 
2.43.0


From c061d7f10a7cc40b142c1542168e1a7fea6d83b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 24/26] fix: plot_truss drew unstressed trusses with invisible
 members

---
 solidspy/postprocesor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 9cbc66c..6db656d 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -214,7 +214,10 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
         scaled_stress = np.ones_like(elements[:, 0])
     else:
         max_stress = max(-stresses.min(), stresses.max())
-        scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        if max_stress > 0:
+            scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        else:
+            scaled_stress = np.full(stresses.shape, 0.5)
     if max_area - min_area > 1e-6:
         widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\
             + min_val
-- 
2.43.0


From 5aa2c1e9e8e65308b5d1043fe8d90332f9877b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 25/26] fix: colour truss members by their own stress, whatever
 their identifiers

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 6db656d..8446d8d 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -224,9 +224,9 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
     else:
         widths = 3*np.ones_like(areas)
     plt.figure(figtitle)
-    for elem in elements:
+    for cont, elem in enumerate(elements):
         ini, end = elem[3:]
-        color = plt.cm.seismic(scaled_stress[elem[0]])
+        color = plt.cm.seismic(scaled_stress[cont])
         plt.plot([nodes[ini, 1], nodes[end, 1]],
                  [nodes[ini, 2], nodes[end, 2]],
                  color=color, lw=widths[elem[2]])
-- 
2.43.0


From 48e02da564bd09b9a26e49448e22dfeb6713f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 26/26] fix: report missing equilibrium whatever the stiffness
 unit

---
 solidspy/solids_GUI.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solidspy/solids_GUI.py b/solidspy/solids_GUI.py
index 22afda1..5572f42 100755
--- a/solidspy/solids_GUI.py
+++ b/solidspy/solids_GUI.py
@@ -67,8 +67,8 @@ def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
 
     # System solution
     disp = sol.static_sol(stiff_mat, rhs_vec)
-    if not np.allclose(stiff_mat.dot(disp)/stiff_mat.max(),
-                       rhs_vec/stiff_mat.max()):
+    residual = np.linalg.norm(stiff_mat.dot(disp) - rhs_vec)
+    if not residual <= 1e-3*np.linalg.norm(rhs_vec):
         print("The system is not in equilibrium!")
     end_time = datetime.now()
     print('Duration for system solution: {}'.format(end_time - start_time))
@@ -140,8 +140,8 @@ def solids_auto(data, plot_contours=True, compute_strains=False):
     # System solution
     start_time = datetime.now()
     disp = sol.static_sol(stiff_mat, rhs_vec)
-    if not np.allclose(stiff_mat.dot(disp)/stiff_mat.max(),
-                       rhs_vec/stiff_mat.max()):
+    residual = np.linalg.norm(stiff_mat.dot(disp) - rhs_vec)
+    if not residual <= 1e-3*np.linalg.norm(rhs_vec):
         print("The system is not in equilibrium!")
     end_time = datetime.now()
     print('Duration for system solution: {}'.format(end_time - start_time))
-- 
2.43.0

