From a80b607ad2cd894a7f2817079ded9abefd9e2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 01/35] fix: edges: interior and non-manifold indices index
 into the returned, boundary-first list

---
 src/gpytoolbox/edges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/edges.py b/src/gpytoolbox/edges.py
index 73df634..8262a04 100644
--- a/src/gpytoolbox/edges.py
+++ b/src/gpytoolbox/edges.py
@@ -68,10 +68,11 @@ def edges(F,
         if return_boundary_indices:
             retval.append(np.arange(0, bdry_edges.shape[0]))
         if return_interior_indices:
-            retval.append(np.where(unique_count>1)[0])
+            retval.append(np.arange(bdry_edges.shape[0], E.shape[0]))
         if return_nonmanifold_indices:
             #Nonmanifold edges have three or more halfedges.
-            retval.append(np.where(unique_count>2)[0])
+            retval.append(bdry_edges.shape[0]
+                + np.where(unique_count[unique_count>1]>2)[0])
         return retval
     else:
         return E
-- 
2.43.0


From 19c5c88582ecba1791c5e60e93c16902fa38a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 02/35] fix: faces: interior and non-manifold indices index
 into the returned, boundary-first list

---
 src/gpytoolbox/faces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/faces.py b/src/gpytoolbox/faces.py
index 66433a2..7b6c613 100644
--- a/src/gpytoolbox/faces.py
+++ b/src/gpytoolbox/faces.py
@@ -68,10 +68,11 @@ def faces(T,
         if return_boundary_indices:
             retval.append(np.arange(0, bdry_faces.shape[0]))
         if return_interior_indices:
-            retval.append(np.where(unique_count>1)[0])
+            retval.append(np.arange(bdry_faces.shape[0], F.shape[0]))
         if return_nonmanifold_indices:
             #Nonmanifold faces have three or more halffaces.
-            retval.append(np.where(unique_count>2)[0])
+            retval.append(bdry_faces.shape[0]
+                + np.where(unique_count[unique_count>1]>2)[0])
         return retval
     else:
         return F
-- 
2.43.0


From b70101bf4bd892c0ddc3ca8ffa722fe6e1a6e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 03/35] fix: cut_edges: an empty cut returns the unchanged mesh
 instead of raising

---
 src/gpytoolbox/cut_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/cut_edges.py b/src/gpytoolbox/cut_edges.py
index 286240f..4f63d54 100644
--- a/src/gpytoolbox/cut_edges.py
+++ b/src/gpytoolbox/cut_edges.py
@@ -46,7 +46,7 @@ def cut_edges(F,E):
     assert F.shape[1]==3, "Only works for triangle meshes."
     n = np.max(F)+1
     if E.size==0:
-        return np.arange(F.size[0]), np.arange(n)
+        return F.copy(), np.arange(n)
     assert E.shape[1]==2, "E is a (k,2) matrix."
 
     # This code is a translation of https://github.com/alecjacobson/gptoolbox/blob/master/mesh/cut_edges.m by Alec Jacobson
-- 
2.43.0


From b40d7f47e8614f871c09144fb796760ba31fad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 04/35] fix: dec_h0inv_intrinsic: invert the summed vertex
 areas, not each face's share

---
 src/gpytoolbox/dec_h0inv_intrinsic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/dec_h0inv_intrinsic.py b/src/gpytoolbox/dec_h0inv_intrinsic.py
index 5452628..70caa52 100644
--- a/src/gpytoolbox/dec_h0inv_intrinsic.py
+++ b/src/gpytoolbox/dec_h0inv_intrinsic.py
@@ -38,9 +38,11 @@ def dec_h0inv_intrinsic(l_sq,F,n=None):
         n = np.max(F)+1
 
     A3 = 0.5/3. * doublearea_intrinsic(l_sq,F)
-    i = np.concatenate((F[:,0],F[:,1],F[:,2]), axis=0)
-    j = np.concatenate((F[:,0],F[:,1],F[:,2]), axis=0)
-    k = np.nan_to_num(1. / np.concatenate((A3,A3,A3), axis=0))
-    h0inv = sp.sparse.csr_matrix((k, (i,j)), shape=(n,n))
+    # Invert the vertex areas, i.e., only after the faces have been summed up.
+    A = np.bincount(np.concatenate((F[:,0],F[:,1],F[:,2]), axis=0),
+        weights=np.concatenate((A3,A3,A3), axis=0), minlength=n)
+    i = np.unique(F)
+    k = np.nan_to_num(1. / A[i])
+    h0inv = sp.sparse.csr_matrix((k, (i,i)), shape=(n,n))
 
     return h0inv
-- 
2.43.0


From 639616c4c4129fc96649ac4a7b27ea45cd9b234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 05/35] fix: tip_angles_intrinsic: small-angle threshold
 relative to the adjacent edges, not absolute

---
 src/gpytoolbox/tip_angles_intrinsic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/tip_angles_intrinsic.py b/src/gpytoolbox/tip_angles_intrinsic.py
index 7d563f8..f367955 100644
--- a/src/gpytoolbox/tip_angles_intrinsic.py
+++ b/src/gpytoolbox/tip_angles_intrinsic.py
@@ -46,7 +46,7 @@ def tip_angles_intrinsic(l_sq, F,
         if use_small_angle_approx:
             #If c is very small, expect numerical error and use a series approx.
             small = np.sqrt(np.finfo(c.dtype).eps) #This is quite aggressive, can also try without sqrt
-            i = c<small
+            i = c < small*np.minimum(a,b) #relative, so angles do not depend on scale
             if np.any(i):
                 # https://www.nayuki.io/page/numerically-stable-law-of-cosines
                 sqrt_ai, sqrt_bi = np.sqrt(a[i]), np.sqrt(b[i])
-- 
2.43.0


From f8100230c9ec58cf5327c4e44895952b27b80441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 06/35] fix: traverse_aabbtree: the default queueing strategy
 appends the children instead of calling itself

---
 src/gpytoolbox/traverse_aabbtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/traverse_aabbtree.py b/src/gpytoolbox/traverse_aabbtree.py
index 050f65b..e871426 100644
--- a/src/gpytoolbox/traverse_aabbtree.py
+++ b/src/gpytoolbox/traverse_aabbtree.py
@@ -94,7 +94,7 @@ def traverse_aabbtree(C,W,CH,tri_indices,split_dim,traversal_bool_fun,add_to_que
         # By default breadth first
         def add_to_queue(curr_queue,CHH,parent_ind):
             for i in range(CHH.shape[1]):
-                    add_to_queue(curr_queue,CHH[parent_ind,i])
+                    curr_queue.append(CHH[parent_ind,i])
             # curr_queue.append(new_ind)
 
 
-- 
2.43.0


From eba7e2e6f9184e89fba76d83fe69fdc9953c4304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 07/35] fix: triangle_triangle_distance: the degeneracy
 threshold is relative to the triangle size

---
 src/gpytoolbox/triangle_triangle_distance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/triangle_triangle_distance.py b/src/gpytoolbox/triangle_triangle_distance.py
index 7d3f2be..ba22113 100644
--- a/src/gpytoolbox/triangle_triangle_distance.py
+++ b/src/gpytoolbox/triangle_triangle_distance.py
@@ -94,7 +94,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     # # print("Sn : ", Sn)
     Snl = np.dot(Sn,Sn)
 
-    if (Snl > 1e-15):
+    if (Snl > 1e-15*np.dot(Sv[0],Sv[0])*np.dot(Sv[1],Sv[1])):
         # V = S[0] - T[0]
         Tp = [np.dot(Sn,S[0] - T[0]), np.dot(Sn,S[0] - T[1]), np.dot(Sn,S[0] - T[2])]
         point = -1
@@ -136,7 +136,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     Tn = np.cross(Tv[0],Tv[1])
     Tnl = np.dot(Tn,Tn)
 
-    if (Tnl > 1e-15):
+    if (Tnl > 1e-15*np.dot(Tv[0],Tv[0])*np.dot(Tv[1],Tv[1])):
         # V = T[0] - S[0]
         # Sp = [T[0] - S[0], T[0] - S[1], T[0] - S[2]]
         Sp = [np.dot(Tn,T[0] - S[0]), np.dot(Tn,T[0] - S[1]), np.dot(Tn,T[0] - S[2])]
-- 
2.43.0


From 6ad58ce2ea76db135693204cab5d3668bb348965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 08/35] fix: ray_polyline_intersect: a collinear edge is
 measured at both ends and does not replace a nearer hit

---
 src/gpytoolbox/ray_polyline_intersect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index bdd2fb7..ba216ab 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -72,7 +72,7 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
                 sign1 = np.dot(a1 - position,direction)
                 # How far are they?
                 t0 = np.linalg.norm(a0 - position)/np.linalg.norm(direction)
-                t1 = np.linalg.norm(a0 - position)/np.linalg.norm(direction)
+                t1 = np.linalg.norm(a1 - position)/np.linalg.norm(direction)
                 hit = -1
                 if sign0>0 and sign1>0:
                     if t0<t1:
@@ -84,14 +84,14 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
                 elif sign1>0:
                     hit = 1
                 # Assign
-                if hit==0:
+                if hit==0 and t0<distance_to_hit:
                     distance_to_hit = t0
                     x = position + t0*direction
                     ind = i
                     n = np.array([-(a1[1] - a0[1]),a1[0] - a0[0]])
                     # This isn't robust but honestly just don't repeat points in the polyline!
                     n = n/np.linalg.norm(n)
-                elif hit==1:
+                elif hit==1 and t1<distance_to_hit:
                     distance_to_hit = t1
                     x = position + t1*direction
                     ind = i
-- 
2.43.0


From 0dd0dc6858fa691662277a5a82d09c2f8d939b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 09/35] fix: ray_polyline_intersect: a ray through a vertex of
 the polyline hits it

---
 src/gpytoolbox/ray_polyline_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index ba216ab..d49e730 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -102,7 +102,7 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
             A = np.array( [ [ direction[0] , a1[0] - a0[0] ] , [direction[1] , a1[1]- a0[1] ] ])
             b = np.reshape(a1 - position,(2,1))
             t = solve(A,b)
-            if t[1]>0.0 and t[1]<1.0 and t[0]>0 and t[0]<distance_to_hit:
+            if t[1]>=0.0 and t[1]<=1.0 and t[0]>0 and t[0]<distance_to_hit:
                 distance_to_hit = t[0]
                 x = position + t[0]*direction
                 ind = i
-- 
2.43.0


From 711a6b3f06187ca48d302b7a3dc8735496efb641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 10/35] fix: ray_triangle_intersect: the parallel test is
 relative to the triangle and direction, not absolute

---
 src/gpytoolbox/ray_triangle_intersect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_triangle_intersect.py b/src/gpytoolbox/ray_triangle_intersect.py
index 5e2ce59..19110e5 100644
--- a/src/gpytoolbox/ray_triangle_intersect.py
+++ b/src/gpytoolbox/ray_triangle_intersect.py
@@ -59,7 +59,8 @@ def ray_triangle_intersect(origin,dir, v0, v1, v2, return_negative=False):
     pvec = np.cross(dir,v0v2)
     det = np.dot(v0v1,pvec)
 
-    if (np.abs(det) < 1e-6):
+    # parallel (up to a tolerance that does not depend on the scale) or degenerate
+    if (det**2 <= 1e-12*np.dot(dir,dir)*np.dot(v0v1,v0v1)*np.dot(v0v2,v0v2)):
         t =  np.inf
         hit = np.inf*np.ones(3)
         is_hit = False
-- 
2.43.0


From d457ad30eed5f7d35fff3678d86808948e80e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 11/35] fix: grid_laplacian_eigenfunctions: 3D returns the
 requested number of lowest modes

---
 src/gpytoolbox/grid_laplacian_eigenfunctions.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/gpytoolbox/grid_laplacian_eigenfunctions.py b/src/gpytoolbox/grid_laplacian_eigenfunctions.py
index 2401fc0..58b396b 100644
--- a/src/gpytoolbox/grid_laplacian_eigenfunctions.py
+++ b/src/gpytoolbox/grid_laplacian_eigenfunctions.py
@@ -58,13 +58,15 @@ def grid_laplacian_eigenfunctions(num_modes,gs,l):
     if dim==3:
         gx, gy, gz = np.meshgrid(np.linspace(0,l[0],gs[0]),np.linspace(0,l[1],gs[1]),np.linspace(0,l[2],gs[2]),indexing='ij')
         v = np.concatenate((np.reshape(gx,(-1, 1),order='F'),np.reshape(gy,(-1, 1),order='F'),np.reshape(gz,(-1, 1),order='F')),axis=1)
-        # This is ad-hoc so it's faster... We should come up with a smarter way of doing this.
-        num_in_each_dim = round(np.sqrt(num_modes//8))
-        # num_in_each_dim = num_modes
-        vals_debug = np.zeros(num_in_each_dim*num_in_each_dim*num_in_each_dim)
-        K_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) % num_in_each_dim
-        J_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) // num_in_each_dim % num_in_each_dim
-        I_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) // (num_in_each_dim*num_in_each_dim)
+        # All (I+1)*(J+1)*(K+1) modes that are not larger in any index than
+        # (I,J,K) come before it, so only these can be among the first num_modes
+        candidates = np.array([[i,j,k] for i in range(num_modes)
+                               for j in range(num_modes//(i+1))
+                               for k in range(num_modes//((i+1)*(j+1)))],dtype=int)
+        I_vector = candidates[:,0]
+        J_vector = candidates[:,1]
+        K_vector = candidates[:,2]
+        vals_debug = np.zeros(candidates.shape[0])
 
         ind_vectors = []
         ind_vectors.append(I_vector)
-- 
2.43.0


From 2235a61e6ac4b4d3539d4a694764a379718a86f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 12/35] fix: grid_neighbors: each order adds one step of the
 neighborhood instead of doubling it

---
 src/gpytoolbox/grid_neighbors.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/grid_neighbors.py b/src/gpytoolbox/grid_neighbors.py
index c1db6ff..9a76952 100644
--- a/src/gpytoolbox/grid_neighbors.py
+++ b/src/gpytoolbox/grid_neighbors.py
@@ -82,17 +82,20 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
 
 
     current_order = 1
+    # each further order adds one step of the first-order neighborhood
+    step_rows = neighbor_rows
+    step_out_of_bounds = out_of_bounds
     while current_order < order:
         # Switching to a list made this 10x faster in 3D because of the memory allocation magic!
         neighbor_rows_list = [neighbor_rows]
         out_of_bounds_list = [out_of_bounds]
         # neighbor_rows_bigger = neighbor_rows
         # out_of_bounds_bigger = out_of_bounds
-        for i in range(neighbor_rows.shape[0]):
+        for i in range(step_rows.shape[0]):
             new_out_of_bounds = np.zeros(neighbor_rows.shape,dtype=bool)
-            new_out_of_bounds[:,out_of_bounds[i,:]] = True
-            new_out_of_bounds = new_out_of_bounds | out_of_bounds[:,neighbor_rows[i,:]]
-            new_neighbor_rows = neighbor_rows[:,neighbor_rows[i,:]]
+            new_out_of_bounds[:,step_out_of_bounds[i,:]] = True
+            new_out_of_bounds = new_out_of_bounds | out_of_bounds[:,step_rows[i,:]]
+            new_neighbor_rows = neighbor_rows[:,step_rows[i,:]]
             # neighbor_rows_bigger = np.vstack((neighbor_rows_bigger,new_neighbor_rows))
             neighbor_rows_list.append(new_neighbor_rows)
             # out_of_bounds_bigger = np.vstack((out_of_bounds_bigger,new_out_of_bounds))
-- 
2.43.0


From b02d2b191335fc14afe6e0d12e8e98abc49c630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 13/35] fix: grid_neighbors: different neighbors that wrap
 around to the same cell in a small grid are all kept

---
 src/gpytoolbox/grid_neighbors.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/grid_neighbors.py b/src/gpytoolbox/grid_neighbors.py
index 9a76952..09ae9a9 100644
--- a/src/gpytoolbox/grid_neighbors.py
+++ b/src/gpytoolbox/grid_neighbors.py
@@ -53,6 +53,7 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         
         # print(out_of_bounds[:,0])
         neighbor_rows = np.ravel_multi_index((neigh_idy, neigh_idx), dims=gs,mode='wrap',order='F')
+        offsets = np.vstack((neigh_idy[:,0], neigh_idx[:,0])).T
     elif dim==3:
         idz, idy, idx = np.unravel_index(cells, gs, order='F')
         neigh_idx = np.vstack((idx-1, idx+1, idx, idx, idx, idx))
@@ -79,16 +80,19 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         
         out_of_bounds = np.logical_or(neigh_idx<0, neigh_idx>=gs[2]) | np.logical_or(neigh_idy<0, neigh_idy>=gs[1]) | np.logical_or(neigh_idz<0, neigh_idz>=gs[0])
         neighbor_rows = np.ravel_multi_index((neigh_idz, neigh_idy, neigh_idx), dims=gs,mode='wrap',order='F')
+        offsets = np.vstack((neigh_idz[:,0], neigh_idy[:,0], neigh_idx[:,0])).T
 
 
     current_order = 1
     # each further order adds one step of the first-order neighborhood
     step_rows = neighbor_rows
     step_out_of_bounds = out_of_bounds
+    steps = offsets
     while current_order < order:
         # Switching to a list made this 10x faster in 3D because of the memory allocation magic!
         neighbor_rows_list = [neighbor_rows]
         out_of_bounds_list = [out_of_bounds]
+        offsets_list = [offsets]
         # neighbor_rows_bigger = neighbor_rows
         # out_of_bounds_bigger = out_of_bounds
         for i in range(step_rows.shape[0]):
@@ -100,14 +104,17 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
             neighbor_rows_list.append(new_neighbor_rows)
             # out_of_bounds_bigger = np.vstack((out_of_bounds_bigger,new_out_of_bounds))
             out_of_bounds_list.append(new_out_of_bounds)
+            offsets_list.append(offsets + steps[i,:])
         neighbor_rows = np.vstack(neighbor_rows_list)
         out_of_bounds = np.vstack(out_of_bounds_list)
+        offsets = np.vstack(offsets_list)
         # neighbor_rows = neighbor_rows_bigger
         # out_of_bounds = out_of_bounds_bigger
         current_order += 1
 
     if output_unique:
-        unique_ind = np.unique(neighbor_rows[:,0],return_index=True)[1]
+        # in a small grid different offsets can wrap around to the same cell
+        unique_ind = np.unique(np.hstack((neighbor_rows[:,0:1],offsets)),axis=0,return_index=True)[1]
         neighbor_rows = neighbor_rows[unique_ind,:]
         out_of_bounds = out_of_bounds[unique_ind,:]
 
-- 
2.43.0


From 87779bf3fc322f7b6f66de51184ccdcf5de07309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 14/35] fix: regular_circle_polyline: the last vertex does not
 repeat the first

---
 src/gpytoolbox/regular_circle_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/regular_circle_polyline.py b/src/gpytoolbox/regular_circle_polyline.py
index 600b961..7cab4db 100644
--- a/src/gpytoolbox/regular_circle_polyline.py
+++ b/src/gpytoolbox/regular_circle_polyline.py
@@ -32,7 +32,7 @@ def regular_circle_polyline(n):
 
     assert n>=3, "At least 3 vertices on the boundary."
 
-    φ = np.linspace(0., 2.*np.pi, n)
+    φ = np.linspace(0., 2.*np.pi, n, endpoint=False)
     x = np.cos(φ)
     y = np.sin(φ)
     V = np.stack((x,y), axis=-1)
-- 
2.43.0


From dfbeca63c985f3b9040a5549a21429032e56c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 15/35] fix: linear_elasticity_stiffness: the gradient keeps
 the columns of every vertex when there are more than twice as many vertices
 as faces

---
 src/gpytoolbox/linear_elasticity_stiffness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/linear_elasticity_stiffness.py b/src/gpytoolbox/linear_elasticity_stiffness.py
index 6b34546..ea56467 100644
--- a/src/gpytoolbox/linear_elasticity_stiffness.py
+++ b/src/gpytoolbox/linear_elasticity_stiffness.py
@@ -65,7 +65,7 @@ def linear_elasticity_stiffness(V,F,K=1.75,mu=0.0115,volumes=None,mass=None):
 
     if dim==2:
         G = grad(np.concatenate((V, np.zeros((V.shape[0],1))), axis=1),F)
-        G = G[0:(2*F.shape[0]),0:(2*F.shape[0])]
+        G = G[0:(2*F.shape[0]),:]
         G0 = G[0:F.shape[0],:]
         G1 = G[F.shape[0]:(2*F.shape[0])]
         strain0 = hstack((G0, Z))
-- 
2.43.0


From 8ff39b6bb04ad7118fd14b2ca5b2f82facb1c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 16/35] fix: compactly_supported_normal: at the knots exactly
 one piece of the piecewise polynomial counts

---
 src/gpytoolbox/compactly_supported_normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/compactly_supported_normal.py b/src/gpytoolbox/compactly_supported_normal.py
index 504ef07..71b8157 100644
--- a/src/gpytoolbox/compactly_supported_normal.py
+++ b/src/gpytoolbox/compactly_supported_normal.py
@@ -60,22 +60,22 @@ def compactly_supported_normal(x,n=2,sigma=1.,center=None,second_derivative=-1):
             xx = x[:,i]
             if second_derivative==i:
                 if n==2:
-                    xx_val = (np.abs(xx)<0.5)*(-2.0) + (np.abs(xx)<1.5)*(np.abs(xx)>0.5)*(1.0)    
+                    xx_val = (np.abs(xx)<0.5)*(-2.0) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*(1.0)    
                 elif n==1:
                     xx_val = 0.0*np.abs(xx)
                 elif n==3:
                     xx_val = (np.abs(xx)<1)*(3*3*2*(np.abs(xx)) - 12)*(1/6)  +  (np.abs(xx)<=2)*(np.abs(xx)>=1)*( -3*2*(np.abs(xx)) + 12)*(1/6.)
                 elif n==4:
-                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*4*3*(np.abs(xx)**2.0) - 160*3*2*(np.abs(xx)) + 600*2)*(1/384) + (np.abs(xx)<=1.5)*(np.abs(xx)>=0.5)*( -16*4*3*(np.abs(xx)**2.0) + 80*3*2*(np.abs(xx)) - 120*2)*(1/96) + (np.abs(xx)<=0.5)*( 48*4*3*(np.abs(xx)**2.0) - 120*2)*(1/192)
+                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*4*3*(np.abs(xx)**2.0) - 160*3*2*(np.abs(xx)) + 600*2)*(1/384) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*( -16*4*3*(np.abs(xx)**2.0) + 80*3*2*(np.abs(xx)) - 120*2)*(1/96) + (np.abs(xx)<0.5)*( 48*4*3*(np.abs(xx)**2.0) - 120*2)*(1/192)
             else:
                 if n==2:
-                    xx_val = (np.abs(xx)<0.5)*(-(xx**2.0)+0.75) + (np.abs(xx)<1.5)*(np.abs(xx)>0.5)*(0.5*(xx**2.0) - 1.5*np.abs(xx) + 1.125)
+                    xx_val = (np.abs(xx)<0.5)*(-(xx**2.0)+0.75) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*(0.5*(xx**2.0) - 1.5*np.abs(xx) + 1.125)
                 elif n==1:
                     xx_val = (np.abs(xx)<1.0)*(1 - np.abs(xx))
                 elif n==3:
                     xx_val = (np.abs(xx)<1)*(3*(np.abs(xx)**3.0) - 6*(np.abs(xx)**2.0) + 4)*(1/6)  +  (np.abs(xx)<=2)*(np.abs(xx)>=1)*( -(np.abs(xx)**3.0) + 6*(np.abs(xx)**2.0) - 12*np.abs(xx) + 8 )*(1/6.)
                 elif n==4:
-                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*(np.abs(xx)**4.0) - 160*(np.abs(xx)**3.0) + 600*(np.abs(xx)**2.0) - 1000*(np.abs(xx)) + 625)*(1/384) + (np.abs(xx)<=1.5)*(np.abs(xx)>=0.5)*( -16*(np.abs(xx)**4.0) + 80*(np.abs(xx)**3.0) - 120*(np.abs(xx)**2.0) + 20*(np.abs(xx)) + 55)*(1/96) + (np.abs(xx)<=0.5)*( 48*(np.abs(xx)**4.0) - 120*(np.abs(xx)**2.0) + 115)*(1/192)
+                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*(np.abs(xx)**4.0) - 160*(np.abs(xx)**3.0) + 600*(np.abs(xx)**2.0) - 1000*(np.abs(xx)) + 625)*(1/384) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*( -16*(np.abs(xx)**4.0) + 80*(np.abs(xx)**3.0) - 120*(np.abs(xx)**2.0) + 20*(np.abs(xx)) + 55)*(1/96) + (np.abs(xx)<0.5)*( 48*(np.abs(xx)**4.0) - 120*(np.abs(xx)**2.0) + 115)*(1/192)
 
             vals = vals * xx_val
         return vals
-- 
2.43.0


From 9c4d044b75f466fa1c03bdda00015454896f3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 17/35] fix: gaussian_process: the search for the kernel's
 support finds all of it, in every dimension

---
 src/gpytoolbox/gaussian_process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/gaussian_process.py b/src/gpytoolbox/gaussian_process.py
index 0f3ae38..4a42a1a 100644
--- a/src/gpytoolbox/gaussian_process.py
+++ b/src/gpytoolbox/gaussian_process.py
@@ -157,6 +157,10 @@ class gaussian_process_precompute:
             xzero = np.zeros((1,X_train.shape[1]))
             x1 = np.zeros((1,X_train.shape[1]))
             x2 = np.ones((1,X_train.shape[1]))
+            # The support may reach beyond x2
+            for i in range(30):
+                if self.kernel(xzero,x2)>1e-10:
+                    x2 = 2.0*x2
             k1 = self.kernel(xzero,x1)
             k2 = self.kernel(xzero,x2)
             for i in range(10):
@@ -170,7 +174,7 @@ class gaussian_process_precompute:
                     x2 = mid
                     k2 = self.kernel(xzero,x2)
 
-            self.compact_support = x2[0,0]
+            self.compact_support = np.linalg.norm(x2)
             
             # print("Compact support found: ", self.compact_support)
 
-- 
2.43.0


From 887828d6007dee454d8b926fa13f7b12ea6efc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 18/35] fix: read_dmat: the coefficients of an ascii file may
 be separated by any blank space

---
 src/gpytoolbox/read_dmat.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/gpytoolbox/read_dmat.py b/src/gpytoolbox/read_dmat.py
index 0e59fe4..c058233 100644
--- a/src/gpytoolbox/read_dmat.py
+++ b/src/gpytoolbox/read_dmat.py
@@ -47,17 +47,12 @@ def read_dmat(file_path):
                     data[i, j] = float_value
 
         else:  # ASCII file
-            # Read ASCII data
+            # Read ASCII data: the coefficients, column by column, separated by
+            # any blank space
+            values = f.read().decode('ascii').split()
             data = np.empty((rows, cols))
             for j in range(cols):
                 for i in range(rows):
-                    while True:
-                        # Read the next coefficient
-                        c = f.read(0)
-                        if c == b'' or c == b'\n':
-                            break
-                    # Read the next float value
-                    float_value = float(f.readline().decode('ascii').strip())
-                    data[i, j] = float_value
+                    data[i, j] = float(values[j*rows + i])
 
     return data
-- 
2.43.0


From 77c59b951ff912974e9ea999f37cd44403287a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 19/35] fix: read_mesh, write_mesh: a format given by its
 documented name is recognised

---
 src/gpytoolbox/read_mesh.py  | 2 +-
 src/gpytoolbox/write_mesh.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index a2a1757..abb843b 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -82,7 +82,7 @@ def read_mesh(file,
     # Detect format if it has not been specified
     if fmt is None:
         _, fmt = os.path.splitext(file)
-    fmt = fmt[1:].lower()
+    fmt = fmt.lower().lstrip('.')
 
     # Call appropriate helper function to read mesh
     if fmt=='obj':
diff --git a/src/gpytoolbox/write_mesh.py b/src/gpytoolbox/write_mesh.py
index a9c8624..95e3b03 100644
--- a/src/gpytoolbox/write_mesh.py
+++ b/src/gpytoolbox/write_mesh.py
@@ -69,7 +69,7 @@ def write_mesh(file,
     # Detect format if it has not been specified
     if fmt is None:
         _, fmt = os.path.splitext(file)
-    fmt = fmt[1:].lower()
+    fmt = fmt.lower().lstrip('.')
 
     # Call appropriate helper function to read mesh
     if fmt=='obj':
-- 
2.43.0


From 08256705fb2d67a37c5f03b9137cea3e710a7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 20/35] fix: read_mesh: OBJ records may be separated by tabs,
 and quotes in comments are not special

---
 src/gpytoolbox/read_mesh.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index abb843b..94e0713 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -1,6 +1,5 @@
 import os
 import numpy as np
-import csv
 from gpytoolbox.per_face_normals import per_face_normals 
 from gpytoolbox.remove_duplicate_vertices import remove_duplicate_vertices
 
@@ -158,11 +157,10 @@ def _read_obj_python(file,return_UV,return_N):
     Ft = None
     Fn = None
 
-    with open(file, newline='') as handle:
-        reader = csv.reader(handle, delimiter=' ')
-        for row in reader:
-            # Remove empty strings
-            row = [s for s in row if s]
+    with open(file) as handle:
+        for line in handle:
+            # Split at any blank space
+            row = line.split()
             if len(row)==0:
                 continue
 
-- 
2.43.0


From d4b1e67a953073678c6d75f6f096cfb8d6bc96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 21/35] fix: signed_distance_polygon: a point level with a
 vertex crosses only one of its two edges

---
 src/gpytoolbox/signed_distance_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/signed_distance_polygon.py b/src/gpytoolbox/signed_distance_polygon.py
index 7d33985..60cc1b2 100644
--- a/src/gpytoolbox/signed_distance_polygon.py
+++ b/src/gpytoolbox/signed_distance_polygon.py
@@ -52,7 +52,7 @@ def signed_distance_polygon(P,V):
         dotee = np.tile((e[0]**2) + (e[1]**2),(P.shape[0]))
         b = w - np.tile(e,(P.shape[0],1))*np.tile(np.array([np.clip( dotwe/dotee ,0.0,1.0)]).T,(1,2))
         d = np.minimum(d,np.sum( b*b ,axis=1))    
-        cond = np.array([ P[:,1]>=V[i,1], P[:,1]<=V[j,1], (e[0]*w[:,1])>(e[1]*w[:,0]) ])
+        cond = np.array([ P[:,1]>=V[i,1], P[:,1]<V[j,1], (e[0]*w[:,1])>(e[1]*w[:,0]) ])
         all_true = cond.all(axis=0)
         all_false = (~cond).all(axis=0)
         change_sign = all_true + all_false
-- 
2.43.0


From 51b2c7530aaad326e228f3015e8ff752afbba353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 22/35] fix: normalize_points: the input is not changed

---
 src/gpytoolbox/normalize_points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/normalize_points.py b/src/gpytoolbox/normalize_points.py
index 367c8bf..ac58144 100644
--- a/src/gpytoolbox/normalize_points.py
+++ b/src/gpytoolbox/normalize_points.py
@@ -32,7 +32,8 @@ def normalize_points(v,center=None):
     dim = v.shape[1]
     
 
-    # First, move it to the first quadrant:
+    # First, move it to the first quadrant (in a copy, the input stays as it is):
+    v = np.array(v)
     for dd in range(dim):
         v[:,dd] = v[:,dd] - np.amin(v[:,dd])
     # Normalize for max length one    
-- 
2.43.0


From dc10ca962e5a1468792eddb9e12ed1a65ad562bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 23/35] fix: metropolis_hastings: the first value is that of
 the first sample

---
 src/gpytoolbox/metropolis_hastings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gpytoolbox/metropolis_hastings.py b/src/gpytoolbox/metropolis_hastings.py
index e45cffc..0c27018 100644
--- a/src/gpytoolbox/metropolis_hastings.py
+++ b/src/gpytoolbox/metropolis_hastings.py
@@ -55,6 +55,7 @@ def metropolis_hastings(unnorm_distr,
     S[0,:] = x0 # Hopefully this works!
     
     f0 = unnorm_distr(x0)
+    F[0] = f0
     sample_num = 2
     while sample_num<(num_samples+1):
         # Compute next candidate sample
-- 
2.43.0


From 3ffd07981a1622d207e1ef8e68cc353da01624a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 24/35] fix: metropolis_hastings: a rejected candidate repeats
 the current sample

---
 src/gpytoolbox/metropolis_hastings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/metropolis_hastings.py b/src/gpytoolbox/metropolis_hastings.py
index 0c27018..d77b0ba 100644
--- a/src/gpytoolbox/metropolis_hastings.py
+++ b/src/gpytoolbox/metropolis_hastings.py
@@ -69,10 +69,10 @@ def metropolis_hastings(unnorm_distr,
         #print(f1/f0)
         if r<(f1/f0):
             # If accepted, update current sample with candidate sample
-            # and add to S and F
             x0 = x1
             f0 = f1
-            S[sample_num-1,:] = x1
-            F[sample_num-1] = f1
-            sample_num = sample_num + 1
+        # Add current sample to S and F; a rejected candidate repeats it
+        S[sample_num-1,:] = x0
+        F[sample_num-1] = f0
+        sample_num = sample_num + 1
     return S,F
\ No newline at end of file
-- 
2.43.0


From 2bf2974bb474f8cae1fc52c1ffa69f183b297b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 25/35] fix: colormap: interpolated colors stay in the range of
 colors

---
 src/gpytoolbox/colormap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/colormap.py b/src/gpytoolbox/colormap.py
index 69e0b5e..d22bd0b 100644
--- a/src/gpytoolbox/colormap.py
+++ b/src/gpytoolbox/colormap.py
@@ -43,7 +43,8 @@ def colormap(name, n, interpolate=True):
         raw_C = colormap(name, n=0, interpolate=False)
         f = sp.interpolate.interp1d(np.linspace(0., 1., raw_C.shape[0]),
             raw_C, axis=0, kind='cubic')
-        return f(np.linspace(0., 1., n))
+        # cubics overshoot the colors they interpolate
+        return np.clip(f(np.linspace(0., 1., n)), 0., 255.)
     else:
         assert name in _all_cbrewer_colormaps, "This color map does not exist."
         if n==0:
-- 
2.43.0


From 16d3fac8e7437d4cf5ca2ed2450637ac5125df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 26/35] fix: apply_colormap: the ends of a logarithmic range
 are part of it

---
 src/gpytoolbox/apply_colormap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/apply_colormap.py b/src/gpytoolbox/apply_colormap.py
index ada85e1..b36e1cb 100644
--- a/src/gpytoolbox/apply_colormap.py
+++ b/src/gpytoolbox/apply_colormap.py
@@ -77,6 +77,8 @@ def apply_colormap(C, f,
     if log:
         xaxis = np.logspace(np.log2(minimum), np.log2(maximum), C.shape[0],
               base=2.)
+        # the ends of the range, which rounding in logspace may miss
+        xaxis[0], xaxis[-1] = minimum, maximum
     else:
         xaxis = np.linspace(minimum, maximum, C.shape[0])
 
-- 
2.43.0


From 937a63a6e3fc202562d10cc4cb625a14af2f1502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 27/35] fix: apply_colormap: a constant function has the first
 color, whatever its value

---
 src/gpytoolbox/apply_colormap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/apply_colormap.py b/src/gpytoolbox/apply_colormap.py
index b36e1cb..875b71c 100644
--- a/src/gpytoolbox/apply_colormap.py
+++ b/src/gpytoolbox/apply_colormap.py
@@ -69,8 +69,10 @@ def apply_colormap(C, f,
         minimum = np.finfo(np.float64).eps
     maximum = np.amax(f) if max is None else max
     assert maximum >= minimum
-    if maximum < minimum + np.finfo(np.float64).eps:
-        maximum = minimum + np.finfo(np.float64).eps
+    # wide enough for distinct interpolation points, also where floats are sparse
+    width = np.finfo(np.float64).eps * C.shape[0] * np.maximum(1., np.abs(minimum))
+    if maximum < minimum + width:
+        maximum = minimum + width
 
     f = np.minimum(np.maximum(f, minimum), maximum)
 
-- 
2.43.0


From 64345827bbe0faf7bf4677985d08c01c4da9c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 28/35] fix: rotation_matrix_from_vectors: nearly parallel
 vectors in 2D are not NaN

---
 src/gpytoolbox/rotation_matrix_from_vectors.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gpytoolbox/rotation_matrix_from_vectors.py b/src/gpytoolbox/rotation_matrix_from_vectors.py
index 50c212e..f970e98 100644
--- a/src/gpytoolbox/rotation_matrix_from_vectors.py
+++ b/src/gpytoolbox/rotation_matrix_from_vectors.py
@@ -44,12 +44,10 @@ def rotation_matrix_from_vectors(vec1, vec2):
     v = np.cross(a, b).flatten()
     if any(v): #if not all zeros then 
         if dim==2:
-            theta = np.arccos(np.dot(a, b))
-            # with correct sign
-            if np.cross(a, b) < 0:
-                theta = -theta
-            R = np.array([[np.cos(theta), -np.sin(theta)], [np.sin(theta), np.cos(theta)]])
-            return R
+            # cosine and sine of the angle
+            c = np.dot(a, b)
+            s = v[0]
+            return np.array([[c, -s], [s, c]])
         else:
             assert dim == 3
             c = np.dot(a, b)
-- 
2.43.0


From c731755823c5e694340facd7f52ea17a89d0c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 29/35] fix: rotation_matrix_from_vectors: opposite vectors in
 3D give a rotation

---
 src/gpytoolbox/rotation_matrix_from_vectors.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/rotation_matrix_from_vectors.py b/src/gpytoolbox/rotation_matrix_from_vectors.py
index f970e98..43cfbc6 100644
--- a/src/gpytoolbox/rotation_matrix_from_vectors.py
+++ b/src/gpytoolbox/rotation_matrix_from_vectors.py
@@ -52,11 +52,21 @@ def rotation_matrix_from_vectors(vec1, vec2):
             assert dim == 3
             c = np.dot(a, b)
             s = np.linalg.norm(v)
+            if c < 0 and s < 1e-6:
+                # (almost) opposite: turn by pi around an axis orthogonal to a first
+                return rotation_matrix_from_vectors(-a, b) @ _half_turn(a)
             kmat = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
             return np.eye(3) + kmat + kmat.dot(kmat) * ((1 - c) / (s ** 2))
     else:
         # is it a reflection?
         R = np.eye(dim)
         if np.dot(a, b) < 0:
-            R = -R
-        return R
\ No newline at end of file
+            R = -R if dim == 2 else _half_turn(a)
+        return R
+
+
+def _half_turn(a):
+    # rotation by pi around an axis orthogonal to the unit vector a in 3D
+    n = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
+    n = n / np.linalg.norm(n)
+    return 2. * np.outer(n, n) - np.eye(3)
-- 
2.43.0


From b938979f40abe8d3cd8eba98dd701f116c5b6cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 30/35] fix: random_points_on_mesh: no points have the shape of
 points

---
 src/gpytoolbox/random_points_on_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/random_points_on_mesh.py b/src/gpytoolbox/random_points_on_mesh.py
index 75dba6b..1529d59 100644
--- a/src/gpytoolbox/random_points_on_mesh.py
+++ b/src/gpytoolbox/random_points_on_mesh.py
@@ -65,11 +65,11 @@ def random_points_on_mesh(V,F,
 
     if n==0:
         if return_indices:
-            return np.zeros((0,), dtype=V.dtype), \
+            return np.zeros((0,)+V.shape[1:], dtype=V.dtype), \
             np.zeros((0,), dtype=F.dtype), \
-            np.zeros((0,), dtype=V.dtype)
+            np.zeros((0,)+F.shape[1:], dtype=V.dtype)
         else:
-            return np.zeros((0,), dtype=V.dtype)
+            return np.zeros((0,)+V.shape[1:], dtype=V.dtype)
 
     k = F.shape[1]
     if k==2:
-- 
2.43.0


From ecd06e69c272e1e654df9157c6f71b5ecadd7e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 31/35] fix: particle_swarm: the objective may return a plain
 number

---
 src/gpytoolbox/particle_swarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/particle_swarm.py b/src/gpytoolbox/particle_swarm.py
index 03084c2..4a483de 100644
--- a/src/gpytoolbox/particle_swarm.py
+++ b/src/gpytoolbox/particle_swarm.py
@@ -71,7 +71,7 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
         # This x
         xi = x[i,:]
         # print(xi)
-        f = fun(xi)
+        f = np.asarray(fun(xi))[()]
         # print(xi)
         best_xi[i,:] = xi.copy()
         best_fi[i] = np.squeeze(f.copy())
@@ -108,7 +108,7 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
             x[i,:] = np.maximum(x[i,:],lb)
             x[i,:] = np.minimum(x[i,:],ub)
             # Evaluate objective
-            f = fun(x[i,:])
+            f = np.asarray(fun(x[i,:]))[()]
             # Update best position
             if f < best_fi[i]:
                 best_xi[i,:] = x[i,:].copy()
-- 
2.43.0


From e7ac7bf3c91f64d47d6c50c1575be6db3d0b6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:38 +0000
Subject: [PATCH 32/35] fix: tip_angles and tip_angles_intrinsic accept
 coordinates and lengths of an integer type

---
 src/gpytoolbox/tip_angles_intrinsic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/tip_angles_intrinsic.py b/src/gpytoolbox/tip_angles_intrinsic.py
index f367955..af4b1b6 100644
--- a/src/gpytoolbox/tip_angles_intrinsic.py
+++ b/src/gpytoolbox/tip_angles_intrinsic.py
@@ -45,7 +45,7 @@ def tip_angles_intrinsic(l_sq, F,
         gamma = np.arccos(np.clip(cosgamma, -1., 1.))
         if use_small_angle_approx:
             #If c is very small, expect numerical error and use a series approx.
-            small = np.sqrt(np.finfo(c.dtype).eps) #This is quite aggressive, can also try without sqrt
+            small = np.sqrt(np.finfo(cosgamma.dtype).eps) #This is quite aggressive, can also try without sqrt
             i = c < small*np.minimum(a,b) #relative, so angles do not depend on scale
             if np.any(i):
                 # https://www.nayuki.io/page/numerically-stable-law-of-cosines
-- 
2.43.0


From 0adb55e2cb966fed2e8b815cf5fe06320e3f4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 33/35] fix: colormap returns a copy of its palette, not the
 palette itself

---
 src/gpytoolbox/colormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/colormap.py b/src/gpytoolbox/colormap.py
index d22bd0b..e466b31 100644
--- a/src/gpytoolbox/colormap.py
+++ b/src/gpytoolbox/colormap.py
@@ -51,10 +51,10 @@ def colormap(name, n, interpolate=True):
             i = 1
             while i in _all_cbrewer_colormaps[name]:
                 i += 1
-            return _all_cbrewer_colormaps[name][i-1]
+            return _all_cbrewer_colormaps[name][i-1].copy()
         else:
             assert n in _all_cbrewer_colormaps[name]
-            return _all_cbrewer_colormaps[name][n]
+            return _all_cbrewer_colormaps[name][n].copy()
 
 
 _all_cbrewer_colormaps = {
-- 
2.43.0


From f815ff77c8d56e2133f7599568b395c9a589b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:39 +0000
Subject: [PATCH 34/35] fix: stochastic_poisson_surface_reconstruction: in a
 small grid each neighbor counts once

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index 4ea20d7..f9d2693 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -240,6 +240,8 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
             previous_neighbors = np.kron(neighbors,np.ones(neighbors_along_dim.shape[0],dtype=int))
             neighbors_along_dim_repeated = np.kron(np.ones(neighbors.shape[0],dtype=int),neighbors_along_dim)
             neighbors = previous_neighbors + neighbors_along_dim_repeated
+        # In a small grid, different neighbors can have the same index: each counts once
+        neighbors = np.unique(neighbors)
         # The neighbors give us the sparsity pattern of k2
         I = np.tile(np.arange(P.shape[0]),(neighbors.shape[0],1)).T
         J = np.tile(P_cells,(neighbors.shape[0],1)).T + np.tile(neighbors,(P_cells.shape[0],1))
-- 
2.43.0


From 1a59b8c4b666593e286ea79a46497e1357abf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:17 +0000
Subject: [PATCH 35/35] fix: gaussian_process: lump_K3 with a single training
 value

---
 src/gpytoolbox/gaussian_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/gaussian_process.py b/src/gpytoolbox/gaussian_process.py
index 4a42a1a..6629880 100644
--- a/src/gpytoolbox/gaussian_process.py
+++ b/src/gpytoolbox/gaussian_process.py
@@ -207,7 +207,7 @@ class gaussian_process_precompute:
                 print("--------- Training Gaussian Process with", X_train.shape[0],"data points. ---------")
             K3 = cov_matrix_from_function(self.kernel,X_train,X_train,sparse=True,use_gradients=self.use_gradients,compact_support=self.compact_support)        
             if lump_K3:
-                K3 = diags(np.squeeze(np.asarray(K3.sum(axis=1))))
+                K3 = diags(np.asarray(K3.sum(axis=1)).ravel())
             self.inducing_points = False
             self.LU = splu(csc_matrix(K3 + (self.sigma_n**2.0)*eye(K3.shape[0])))
             # plt.spy(K3)
-- 
2.43.0

