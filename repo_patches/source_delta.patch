From 03c1b8773bf041ac2822994b531779ba7c4a75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 01/54] fix: load generator basis vectors as voxel columns

pymatgen lattice matrices hold the vectors as rows, every consumer of
Voxel.bases treats them as columns, so non-orthogonal cells were distorted.
---
 czone/generator/generator.py |  4 ++--
 czone/volume/voxel.py        | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa3559a..246b896 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -121,9 +121,9 @@ class Generator(BaseGenerator):
 
         # check if voxel exists, if so, copy origin
         if self.voxel is None:
-            self.voxel = Voxel(bases=structure.lattice.matrix)
+            self.voxel = Voxel(bases=structure.lattice.matrix.T)
         else:
-            self.voxel = Voxel(bases=structure.lattice.matrix,
+            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                                origin=self.origin)
 
     @property
diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 04e7bd7..1f842b2 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -48,7 +48,7 @@ class Voxel():
 
     @property
     def bases(self):
-        """Basis vectors defining crystal unit cell. Vectors are rows of matrix."""
+        """Basis vectors defining crystal unit cell. Vectors are columns of matrix."""
         return self._bases
 
     @bases.setter
@@ -58,17 +58,17 @@ class Voxel():
         assert (
             bases.shape == (3, 3)
         ), '''Bases must be 3x3 numpy array that defines vectors that span 3D space
-            [0,:] = [x_1, y_1, z_1]
-            [1,:] = [x_2, y_2, z_2]
-            [2,:] = [x_3, y_3, z_3]'''
+            [:,0] = [x_1, y_1, z_1]
+            [:,1] = [x_2, y_2, z_2]
+            [:,2] = [x_3, y_3, z_3]'''
 
         #check for collinearity
         assert (not self._collinear(
-            bases[0, :], bases[1, :])), "Bases vectors must linearly indepedent"
+            bases[:, 0], bases[:, 1])), "Bases vectors must linearly indepedent"
         assert (not self._collinear(
-            bases[0, :], bases[2, :])), "Bases vectors must linearly indepedent"
+            bases[:, 0], bases[:, 2])), "Bases vectors must linearly indepedent"
         assert (not self._collinear(
-            bases[1, :], bases[2, :])), "Bases vectors must linearly indepedent"
+            bases[:, 1], bases[:, 2])), "Bases vectors must linearly indepedent"
 
         self._bases = bases
 
-- 
2.43.0


From 69772ad23e2238871bede887721ec4d108508dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 02/54] fix: wrap fractional coordinates into the unit cell
 when supplying atoms

Sites stored outside [0,1) were missing along the edge of the supplied block.
---
 czone/generator/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 246b896..b6db4d8 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -200,8 +200,11 @@ class Generator(BaseGenerator):
     def supply_atoms(self, bbox: np.ndarray):
         #generation method for pymatgen lattice structure
         min_extent, max_extent = self.voxel.get_extents(bbox)
-        fcoords = np.copy(
-            self.coords)  #grab fractional in case bases are rotated
+        # grab fractional in case bases are rotated; wrap into home cell, which
+        # is the cell that the voxel extents are determined for, keeping sites
+        # that are at the cell origin up to numerical noise where they are
+        eps = 1e-8
+        fcoords = np.mod(self.coords + eps, 1.0) - eps
         # get matrix representing unit cells as grid
         l = [
             range(min_extent[0], max_extent[0] + 1),
-- 
2.43.0


From eaeaceda4234d27e681e20b69b5471c75d28bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 03/54] fix: rebuild hull and triangulation whenever volume
 points change

Setting points (and so transforming) a point-defined Volume failed, and points
added later never reached the triangulation used for interiority checks.
A rejected set of points now leaves the volume as it was.
---
 czone/volume/volume.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index acaf8d7..de703ae 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -175,11 +175,17 @@ class Volume(BaseVolume):
 
     @points.setter
     def points(self, points):
+        old_state = (self._points, self._hull, self._tri)
         try:
-            self._points = np.array([])  #clear points
+            #clear points and hull
+            self._points, self._hull, self._tri = None, None, None
             self.addPoints(points)
         except AssertionError:
+            self._points, self._hull, self._tri = old_state
             raise ValueError("Check shape of input array.")
+        except Exception:
+            self._points, self._hull, self._tri = old_state
+            raise
 
     @property
     def alg_objects(self):
@@ -243,7 +249,7 @@ class Volume(BaseVolume):
         #check to make sure there are N>3 points in point list
         assert (self.points.shape[0] >
                 3), "must have more than 3 points to create hull"
-        self._hull = ConvexHull(self.points, incremental=True)
+        self._hull = ConvexHull(self.points)
         self._tri = Delaunay(self.hull.points[self.hull.vertices])
 
     def addPoints(self, points: np.ndarray):
@@ -260,18 +266,15 @@ class Volume(BaseVolume):
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
-                self._points = np.expand_dims(points)
+                self._points = np.expand_dims(points, axis=0)
         else:
             if len(points.shape) == 1:  #check for single point
                 points = np.expand_dims(points, axis=0)
 
             self._points = np.append(self._points, points, axis=0)
 
-        #if hull created, update points; else, create hull
-        try:
-            self._hull.add_points(points)
-        except AttributeError:
-            self.createHull()
+        #hull and triangulation must both reflect current set of points
+        self.createHull()
 
     def transform(self, transformation: BaseTransform):
 
@@ -280,7 +283,6 @@ class Volume(BaseVolume):
 
         if not (self.points is None):
             self.points = transformation.applyTransformation(self.points)
-            self.createHull()
 
         if len(self.alg_objects) > 0:
             for i, obj in enumerate(self.alg_objects):
-- 
2.43.0


From b4812f0e0bd2021f7a15bec4641dc823daf29466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 04/54] fix: return only vertices from Volume.get_bounding_box
 for sets of planes

The (vertices, status) tuple was passed on, so that no volume defined by
planes could be populated. Invalid regions fall through to other objects.
---
 czone/volume/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index de703ae..5e4d706 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -338,7 +338,9 @@ class Volume(BaseVolume):
 
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
-                return get_bounding_box_planes(planes)
+                bbox, status = get_bounding_box_planes(planes)
+                if status == 0:
+                    return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-- 
2.43.0


From 671ff5e7971f2096014e9308c6afb62a5763e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 05/54] fix: reflect algebraic objects with the general matrix
 transform

The override in Reflection raised TypeError for every object, and would not
have reflected plane normals or cylinders.
---
 czone/transform/transform.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index ea55165..7f00b9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -335,18 +335,6 @@ class Reflection(MatrixTransform):
     def params(self):
         return self.plane
 
-    def applyTransformation_alg(self, alg_object):
-        if (isinstance(alg_object), Sphere):
-            alg_object.center = np.dot(
-                self.matrix,
-                (alg_object.center - self.origin).T).T + self.origin
-
-        if (isinstance(alg_object), Plane):
-            alg_object.point = np.dot(
-                self.matrix, (alg_object.point - self.origin).T).T + self.origin
-
-        return alg_object
-
 
 class MultiTransform(BaseTransform):
     """Transformation sequence which applies a numeruous transformations in succession.
-- 
2.43.0


From 82dbe2acf15d2d935c25f0c2d4684a970369ea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 06/54] fix: transform plane normals with the inverse transpose

For matrices that are not orthogonal the transformed plane did not contain
the transformed points of the plane.
---
 czone/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 7f00b9a..3865469 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -234,7 +234,9 @@ class MatrixTransform(BaseTransform):
             else:
                 alg_object.point = np.dot(self.matrix, (alg_object.point).T).T
 
-            alg_object.normal = np.dot(self.matrix, (alg_object.normal).T).T
+            # normals are covariant, and transform with the inverse transpose
+            alg_object.normal = np.linalg.solve(self.matrix.T,
+                                                alg_object.normal)
 
         if isinstance(alg_object, Cylinder):
             if not (self.origin is None):
-- 
2.43.0


From fea505392935116c54b917843b87800603a663ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 07/54] fix: make rot_vtv robust for parallel and anti-parallel
 vectors

arccos returned NaN when rounding put the cosine above one, and the axis
chosen for anti-parallel vectors could be parallel to the vector itself.
---
 czone/transform/transform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 3865469..86eccb5 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -455,12 +455,14 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     """
     v = np.array(v).reshape(3,)
     vt = np.array(vt).reshape(3,)
-    eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    theta = np.arccos(np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt)))
-    if (theta < eps):
+    v = v / np.linalg.norm(v)
+    vt = vt / np.linalg.norm(vt)
+    eps = 1e-8  #tolerance for collinearity check
+    theta = np.arctan2(np.linalg.norm(np.cross(v, vt)), np.dot(v, vt))
+    if (theta < np.finfo(float).eps):
         return np.eye(3)
     elif (np.pi - theta < eps):
-        e_i = np.eye(3)[np.argmin(v)]  #grab axis along minimum component of v
+        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v
         rot_axis = np.cross(v, e_i).astype(float)
     else:
         rot_axis = np.cross(v, vt).astype(float)
-- 
2.43.0


From e5d0ced0c9f5372e9e987f6f0495cb15650cfde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 08/54] fix: unpack rotation returned by align_vectors in
 rot_align

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 86eccb5..25ce42c 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -486,7 +486,7 @@ def rot_align(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
         np.ndarray: 3x3 rotation matrix
     """
 
-    return scRotation.align_vectors(vt, v).as_matrix()
+    return scRotation.align_vectors(vt, v)[0].as_matrix()
 
 
 def rot_zxz(alpha: float,
-- 
2.43.0


From 92103147c1640d48114e2a9d498174402aaf6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 09/54] fix: apply extrinsic zxz angles in the documented
 gamma-beta-alpha order

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 25ce42c..5a97d5b 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -516,7 +516,7 @@ def rot_zxz(alpha: float,
         return scRotation.from_euler("ZXZ", [alpha, beta, gamma],
                                      degrees=False).as_matrix()
     elif convention == "extrinsic":
-        return scRotation.from_euler("zxz", [gamma, alpha, beta],
+        return scRotation.from_euler("zxz", [gamma, beta, alpha],
                                      degrees=False).as_matrix()
     else:
         raise (ValueError("Invalid argument for convention."))
-- 
2.43.0


From 2d4756f1464ba1d5c77bea815d75df5f63276761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 10/54] fix: project single points onto planes

The signed distance of a single point is a scalar and can not be indexed.
---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 51c693e..3c649de 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -220,7 +220,7 @@ class Plane(BaseAlgebraic):
         Returns:
             Projected point lying on surface of Plane.
         """
-        return point - self.sdist_from_plane(point)[:,None] * self.normal[None,:]
+        return point - np.multiply.outer(self.sdist_from_plane(point), self.normal)
 
 
 class Cylinder(BaseAlgebraic):
-- 
2.43.0


From c6dc191d70aa3b689ffbe1b799b80b1ecacdd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 11/54] fix: make s2s_alignment bring the surfaces into contact

Use the rotated moving point for the in-plane shift and the signed distance
for the out of plane shift, and leave the moving plane of the caller as it is.
---
 czone/transform/transform.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 5a97d5b..2f6df80 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -550,14 +550,14 @@ def s2s_alignment(M_plane: Plane, T_plane: Plane, M_point: np.ndarray,
 
     R_t = Rotation(matrix=R, origin=M_plane.point)
 
-    #TODO: why aren't these being used?
-    M_plane_r = R_t.applyTransformation_alg(M_plane)
-    M_point_r = R_t.applyTransformation(M_point)
+    # rotation leaves M_plane.point in place, but moves M_point
+    M_point_r = R_t.applyTransformation(np.array(M_point).reshape(3,))
+    T_point = np.array(T_point).reshape(3,)
 
-    proj_point = T_plane.project_point(M_point)
+    proj_point = T_plane.project_point(M_point_r)
     plane_shift = T_plane.project_point(T_point) - proj_point
 
-    ortho_shift = 1.0 * T_plane.dist_from_plane(M_plane.point) * T_plane.normal
+    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
     T_t = Translation(shift=ortho_shift + plane_shift)
 
     return MultiTransform(transforms=[R_t, T_t])
-- 
2.43.0


From 0b56d5f2ac93e8b46074126371e2d2b913303191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 12/54] fix: keep vangle defined for parallel vectors under
 rounding

---
 czone/util/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index cce4e35..875f040 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -64,4 +64,5 @@ def vangle(v1: np.ndarray, v2: np.ndarray) -> float:
     Returns:
         float: angle in radians
     """
-    return np.arccos(np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2)))
\ No newline at end of file
+    cos = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
+    return np.arccos(np.clip(cos, -1.0, 1.0))
\ No newline at end of file
-- 
2.43.0


From 9d786151071a50ad3b64e4938d9285437fe4ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 13/54] fix: reject numbers of splits which do not fit in
 get_N_splits

The interval [m, l-m) holds l-2m integers, so that n of them at distance m
need l-2m > (n-1)m; with equality the routine looped forever.
---
 czone/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index 875f040..b3820e1 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -31,7 +31,7 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
     if n == 0:
         return []
         
-    if (l - 2 * m < (n - 1) * m):
+    if (l - 2 * m <= (n - 1) * m):
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-- 
2.43.0


From a373382e5a2af7e64bc3e5ecd2cadcbf692dbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 14/54] fix: return the plain squared distance function without
 periodic boundaries

---
 czone/util/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 067fde3..e5fe3b1 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -176,6 +176,8 @@ def get_sdist_fun(dims=None, px=False, py=False, pz=False):
         def sdist(A, B):
             return np.sum((A - B)**2.0, axis=1)
 
+        return sdist
+
     # grab relevant dimensions
     cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]
     sdims = np.array(dims)[cols]
-- 
2.43.0


From 9acc9d1d746deb0ff46aad236af1d63854d56f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 15/54] fix: keep minimum distance across periodic boundaries
 of amorphous blocks

The last voxel along each direction was smaller than the minimum distance, so
that atoms two voxels apart across the boundary were never compared. Use equal
voxels which tile the block exactly.
---
 czone/generator/amorphous_algorithms.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 168919e..a60e737 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -40,9 +40,14 @@ def get_tuples(tx, ty, tz):
 ############################################
 
 
+def get_num_blocks(min_size, dims):
+    """Get number of equal blocks, no smaller than min_size, that tile dims."""
+    return np.maximum(np.floor(dims / min_size).astype(int), 1)
+
+
 def get_voxels(min_dist, dims):
     """Get voxel and neighbor list."""
-    num_blocks = np.ceil(dims / (min_dist)).astype(int)
+    num_blocks = get_num_blocks(min_dist, dims)
     voxels = []
     neighbors = []
     for i in range(num_blocks[0]):
@@ -121,6 +126,11 @@ def gen_p_substrate(dims: List[float],
 
     # get voxel grid and list of local voxel neighbors
     voxels, neighbors = get_voxels(min_dist, dims)
+    num_blocks = get_num_blocks(min_dist, dims)
+
+    def get_block(coord):
+        block = np.floor(coord * num_blocks / dims).astype(int)
+        return np.minimum(block, num_blocks - 1)
 
     if print_progress:
         print("Starting particle loop for %i particles" % num_c)
@@ -132,7 +142,7 @@ def gen_p_substrate(dims: List[float],
             print("On %i of %i" % (i, num_c))
         new_coord = rng.uniform(size=(1, 3)) * dims
 
-        block = np.floor(new_coord / (min_dist)).astype(int)
+        block = get_block(new_coord)
         block = block[0]
         tlist = neighbors[block[0]][block[1]][block[2]]
         parts = []
@@ -143,7 +153,7 @@ def gen_p_substrate(dims: List[float],
         while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):
 
             new_coord = rng.uniform(size=(1, 3)) * dims
-            block = np.floor(new_coord / (min_dist)).astype(int)
+            block = get_block(new_coord)
             block = block[0]
             tlist = neighbors[block[0]][block[1]][block[2]]
             parts = []
@@ -179,7 +189,8 @@ def gen_p_substrate_batched(dims: List[float],
     coords = np.zeros((num_c, 3))
     dims = np.array([dim_x, dim_y, dim_z])
     voxel_size = min_dist*voxel_scale
-    num_blocks = np.ceil(dims / (voxel_size)).astype(int)
+    num_blocks = get_num_blocks(voxel_size, dims)
+    voxel_size = dims / num_blocks
     tot_blocks = np.prod(num_blocks)
     Nt = np.array([1, num_blocks[0], num_blocks[0]*num_blocks[1]])
 
@@ -202,7 +213,7 @@ def gen_p_substrate_batched(dims: List[float],
 
         # find block for each particle and make sure every particle is in unique block
         # to avoid full N^2 comparisons within batch
-        block = (np.floor(new_coord /voxel_size) @ Nt).astype(int)
+        block = (np.minimum(np.floor(new_coord / voxel_size), num_blocks - 1) @ Nt).astype(int)
         __, idx = np.unique(block, return_index=True)
         block = block[idx]
         new_coord = new_coord[idx,:]
-- 
2.43.0


From ae09358ce22eef12ff9ba9285237b94ef3a5c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 16/54] fix: generate amorphous blocks in the requested region
 at the requested density

The density of an AmorphousGenerator was ignored, and the atoms were always
placed with a corner at the coordinate origin, wherever the volume was.
---
 czone/generator/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index b6db4d8..aa84527 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -419,8 +419,11 @@ class AmorphousGenerator(BaseGenerator):
         if self.use_old_result and self._old_result is not None:
             return self.old_result
         else:
-            coords = gen_p_substrate(
-                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist)
+            bbox_min = np.min(bbox, axis=0)
+            coords = gen_p_substrate(np.max(bbox, axis=0) - bbox_min,
+                                     min_dist=self.min_dist,
+                                     density=self.density)
+            coords = coords + bbox_min
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 2ec61e3f53b1af55897b72fa13a9059e536b0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 17/54] fix: let amorphous and null generators be transformed
 with their volumes

Locked transformations of volumes with either generator raised AttributeError.
---
 czone/generator/generator.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa84527..7ee2f6c 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -427,6 +427,27 @@ class AmorphousGenerator(BaseGenerator):
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
+    def transform(self, transformation: BaseTransform):
+        """Transform origin and previously generated atoms.
+
+        Args:
+            transformation (BaseTransform): Transformation object from transforms module.
+        """
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
+
+        if transformation.basis_only:
+            return
+
+        if self.origin is not None:
+            new_origin = transformation.applyTransformation(
+                np.reshape(self.origin, (1, 3)))
+            self.origin = np.squeeze(new_origin)
+
+        if self._old_result is not None:
+            coords, species = self._old_result
+            self._old_result = (transformation.applyTransformation(coords), species)
+
 
 class NullGenerator(BaseGenerator):
     """Generator object for empty space.
@@ -442,4 +463,9 @@ class NullGenerator(BaseGenerator):
         pass
 
     def supply_atoms(self, bbox):
-        return np.empty((0,3)), np.empty((0,))
\ No newline at end of file
+        return np.empty((0,3)), np.empty((0,))
+
+    def transform(self, transformation: BaseTransform):
+        """Empty space is invariant under all transformations."""
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
-- 
2.43.0


From fb3518273a54e77b76737adcedd397b21eb15949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 18/54] fix: reject strain modes other than crystal and
 standard

---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index edf9327..8eebc5e 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -74,7 +74,7 @@ class BaseStrain(ABC):
 
     @mode.setter
     def mode(self, val):
-        if val == "crystal" or "standard":
+        if val in ("crystal", "standard"):
             self._mode = val
         else:
             raise ValueError("Mode must be either crystal or standard")
-- 
2.43.0


From 68c7d5741662d0567637a0ec2e527671d923f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 19/54] fix: accept points as origin of homogeneous strain
 fields

Comparing an array against a string is elementwise or ambiguous.
---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index 8eebc5e..e315f95 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -107,7 +107,7 @@ class HStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
             self.origin_type = "global"
         else:
-- 
2.43.0


From 2c75092a5a2fe8b4b2eac4e5501d33d78cdedcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 20/54] fix: make inhomogeneous strain fields usable

IStrain could not be constructed, never had an origin type, and used the
voxel bases as rows where they are columns.
---
 czone/transform/strain.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index e315f95..e71dff6 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -181,21 +181,25 @@ class IStrain(BaseStrain):
     """
 
     def __init__(self, fun=None, origin="generator", mode="crystal", **kwargs):
+        # kwargs are used to validate strain function
+        self.fun_kwargs = kwargs
+
         if not fun is None:
             self.strain_fun = fun
         else:
             # apply no strain
-            self.strain_fun = lambda x: x
+            self.strain_fun = lambda x, **kwargs: x
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
+            self.origin_type = "global"
         else:
             super().__init__()
+            self.origin_type = "generator"
 
         self._bases = None
-        self.fun_kwargs = kwargs
 
     ##############
     # Properties #
@@ -221,7 +225,7 @@ class IStrain(BaseStrain):
     @strain_fun.setter
     def strain_fun(self, fun: Callable[[np.ndarray], np.ndarray]):
         try:
-            ref_arr = np.random.rand((100, 3))
+            ref_arr = np.random.rand(100, 3)
             test_arr = fun(ref_arr, **self.fun_kwargs)
             assert (test_arr.shape == (100, 3))
         except AssertionError:
@@ -241,13 +245,13 @@ class IStrain(BaseStrain):
 
         if self.mode == "crystal":
             # project onto crystal coordinates
-            sp = sp @ np.linalg.inv(self.bases)
+            sp = sp @ np.linalg.inv(self.bases).T
 
             # strain
             sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)
 
             # project back into real space
-            sp = sp @ self.bases
+            sp = sp @ self.bases.T
         else:
             # strain
             sp = self.strain_fun(sp, **self.fun_kwargs)
-- 
2.43.0


From c232a6d18900b637adcc8783fcad80170c11a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 21/54] fix: get bounding boxes of cylinders parallel to
 (1,1,1)

The fixed reference vector was projected to zero, giving NaN vertices.
---
 czone/volume/algebraic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 3c649de..f89d062 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -318,8 +318,10 @@ class Cylinder(BaseAlgebraic):
         vz = np.copy(self.axis.T)[:,None]
 
         # get vectors perpendicular to axis
-        vs_0 = np.array([[1,1,1]]).T # any vector works; fix to make generation stable
-        vs_0 = vs_0/np.linalg.norm(vs_0)
+        # any vector not parallel to axis works; fix to make generation stable
+        vs_0 = np.array([[1,1,1]]).T / np.sqrt(3)
+        if np.abs(vs_0.T @ vz).item() > 0.99:
+            vs_0 = np.array([[1,-1,0]]).T / np.sqrt(2)
         vs_0 = vs_0 - (vs_0.T @ vz) * vz
         vs_0 = vs_0/np.linalg.norm(vs_0)
 
-- 
2.43.0


From 5f4b7d40506bed05cb2fc611556da505746f555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 22/54] fix: store sphere centers given as 3x1 arrays as points

The shape is documented and accepted, but does not broadcast against Nx3 points.
---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index f89d062..d35631c 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -122,7 +122,7 @@ class Sphere(BaseAlgebraic):
         center = np.array(center)  #cast to np array if not already
         if center.size != 3 or center.shape[0] != 3:
             raise ValueError("Center must be an array with 3 elements")
-        self._center = center
+        self._center = center.reshape((3,))
 
 
 class Plane(BaseAlgebraic):
-- 
2.43.0


From 482947a059f8812aa536b16035769a66aa606d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 23/54] fix: pass surface energies to Wulff convenience
 constructors

All four named shapes raised TypeError, as did get_areas before the first
construction.
---
 czone/prefab/wulff.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4a5af67..4f29f6d 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -169,7 +169,7 @@ class WulffSingle(WulffBase):
             return Volume(alg_objects=planes, generator=self.generator)
 
     def get_areas(self):
-        return self._wulff.facet_fractions
+        return self.wulff.facet_fractions
 
     def winterbottom(self, interface: Tuple[int], interface_energy: float):
         """Construct Winterbottom construction for single crystals.
@@ -206,8 +206,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cubic nanoparticle.
         """
         energies = {(1, 0, 0): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def cuboctohedron(cls, generator: Generator, natoms: int = 1000):
@@ -221,8 +221,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cuboctohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -236,8 +236,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a octohedral nanoparticle.
         """
         energies = {(1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def truncated_octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -251,8 +251,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a truncated octohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
 
 """
-- 
2.43.0


From 3d23b6ef3f1d74bf90175a648015653d2acfeb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 24/54] fix: write scenes to file for every format given

Nothing was written for formats other than prismatic, and Debye-Waller factors
supplied by the user raised TypeError.
---
 czone/scene/scene.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index ca8b1e3..7806378 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -174,14 +174,10 @@ class Scene():
             fname (str): output file name.
             **kwargs: any key word arguments otherwise accepted by ASE write.
         """
-        if "format" in kwargs.keys():
-            if kwargs["format"] == "prismatic":
-                dwf = set(self.all_species)
-                dw_default = (0.1**2.0) * 8 * np.pi**2.0
-                dwf = {str(Symbols([x])): dw_default for x in dwf}
-                ase_write(filename=fname,
-                          images=self.ase_atoms,
-                          debye_waller_factors=dwf,
-                          **kwargs)
-        else:
-            ase_write(filename=fname, images=self.ase_atoms, **kwargs)
+        if kwargs.get("format") == "prismatic" and "debye_waller_factors" not in kwargs:
+            dwf = set(self.all_species)
+            dw_default = (0.1**2.0) * 8 * np.pi**2.0
+            dwf = {str(Symbols([x])): dw_default for x in dwf}
+            kwargs["debye_waller_factors"] = dwf
+
+        ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From f57b8619176ca382e1647d108ace52594cebda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 25/54] fix: keep tracking the same origin atom when atoms are
 removed from molecules

---
 czone/molecule/molecule.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index e6f9a17..00ab095 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -108,13 +108,21 @@ class BaseMolecule(ABC):
         if new_origin_idx in indices:
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
         
-        if self._origin_tracking and self._origin_idx in indices:
+        kept = np.delete(np.arange(self.atoms.shape[0]), indices)
+        if self._origin_tracking and self._origin_idx % self.atoms.shape[0] not in kept:
             raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
             # self._origin_idx = new_origin_idx # TEST
 
+        if self._origin_tracking:
+            # keep tracking same atom; atoms after those removed move up in the order
+            new_idx = np.searchsorted(kept, self._origin_idx % self.atoms.shape[0])
+
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
 
+        if self._origin_tracking:
+            self._origin_idx = new_idx
+
     @property
     def ase_atoms(self):
         """Collection of atoms in molecule as ASE Atoms object."""
-- 
2.43.0


From 6290fcd4bd906ae6016aea971eb897d049c23bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 26/54] fix: honor documented arguments and missing generators
 in Volume.from_volume

Volumes without generator could not be copied, and tolerance as well as any
keyword argument of the Volume constructor were dropped.
---
 czone/volume/volume.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 5e4d706..1e46569 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -367,13 +367,14 @@ class Volume(BaseVolume):
                     - generator=BaseGenerator to replace generator associated with volume.
                     - Any kwargs accepted in creation of Volume object.
         """
-        new_volume = Volume(points=self.points,
-                            alg_objects=self.alg_objects,
-                            priority=self.priority)
-        if "generator" in kwargs.keys():
-            new_volume.add_generator(kwargs["generator"])
-        else:
-            new_volume.add_generator(self.generator)
+        volume_kwargs = {"points": self.points,
+                         "alg_objects": self.alg_objects,
+                         "generator": self.generator,
+                         "priority": self.priority,
+                         "tolerance": self.tolerance}
+        volume_kwargs.update(
+            {k: v for k, v in kwargs.items() if k != "transformation"})
+        new_volume = Volume(**volume_kwargs)
 
         if "transformation" in kwargs.keys():
             for t in kwargs["transformation"]:
-- 
2.43.0


From 170547ee0e372e99d29c6902c7980b3fdc7f3527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 27/54] fix: classify half-space intersections over all of
 space

linprog bounds all variables to be positive by default, so that valid regions
could be reported as infeasible, and unbounded prisms with a bounded inscribed
sphere were returned as valid, with NaN or infinite vertices.
---
 czone/volume/algebraic.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index d35631c..3a28a3f 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -411,13 +411,19 @@ def get_bounding_box(planes: List[Plane]):
     c = np.zeros(4)
     c[-1] = -1
 
-    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d)
+    bounds = [(None, None)] * 3 + [(0, None)]
+    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d, bounds=bounds)
     if (res.status == 0):
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
         except QhullError:
-            return np.empty((0,3)), 2
-            
+            # normals of region with interior do not span space, e.g. slabs
+            return np.empty((0,3)), 3 if res.x[-1] > 1e-10 else 2
+
+        # region is bounded only if interior point is inside of dual polytope
+        if np.any(hs.dual_equations[:, -1] > -1e-12):
+            return np.empty((0,3)), 3
+
         return hs.intersections - shift, res.status
     else:
         return np.empty((0,3)), res.status
-- 
2.43.0


From 7e29f10e5fcd997585042ae37c4a2ddb5cc67f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 28/54] fix: snap Miller planes to lattice of generator

The origin of the generator was ignored, rounding each coordinate separately did
not find the closest plane, and strain was applied to bases in the wrong
coordinate system, or not at all for strain in standard mode.
---
 czone/prefab/prefab.py    |  6 ++---
 czone/volume/algebraic.py | 56 +++++++++++++--------------------------
 2 files changed, 22 insertions(+), 40 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 72678c3..4fc6cf1 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -435,11 +435,11 @@ class wurtziteStackingFault(BasePrefab):
 
         polarity = 1
         for i in range(self.N):
-            # check if 100 or 200 plane in the previous generator
+            # check if 100 or 200 plane in the original generator
             cur_plane_pt = planes[splits[i]].point
 
-            plane_100 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,1))
-            plane_200 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,2))
+            plane_100 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,1))
+            plane_200 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,2))
 
             # adjust shift according to 100 plane vs 200 plane
             bsf = 2 if np.allclose(plane_100.point, plane_200.point) else 1
diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 3a28a3f..560489d 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -450,53 +450,35 @@ def snap_plane_near_point(point: np.ndarray,
 
     miller_indices = np.array(miller_indices)
 
+    origin = np.array(generator.origin, dtype=float)
+    bases = np.array(generator.voxel.sbases, dtype=float)
 
     # check if generator has a strain field
-    if generator.strain_field is None:
-        # get point coordinates in generator coordinate system
-        point_fcoord = np.array(np.linalg.solve(generator.voxel.sbases, point))
-    else:
+    if generator.strain_field is not None:
         assert ( isinstance(
             generator.strain_field, HStrain)), "Finding Miller planes with inhomogenous strain fields is not supported."
 
-        if generator.strain_field.mode == "crystal":
-            H = generator.strain_field.matrix
-            point_fcoord = np.array(np.linalg.solve(H @ generator.voxel.sbases, point))
-
-    # get lattice points that are intersected by miller plane
-    with np.errstate(divide="ignore"):  #check for infs directly
-        target_fcoord = 1 / miller_indices
+        # get coordinate system of strained lattice
+        generator.strain_field.scrape_params(generator)
+        points = np.vstack([origin, origin + bases.T])
+        points = generator.strain_field.apply_strain(points)
+        origin = points[0]
+        bases = (points[1:] - origin).T
 
-    new_point = np.zeros((3, 1))
+    # valid planes are at integer multiples of normal, in units of plane spacing
+    normal = np.linalg.inv(bases).T @ miller_indices
+    point = np.array(point, dtype=float).reshape((3,))
+    index = np.dot(normal, point - origin)
 
-    # TODO: if bases are not orthonormal, this procedure is not correct
-    # since the following rounds towards the nearest lattice points, with equal
-    # weights given to all lattice vectors
     if mode == "nearest":
-        for i in range(3):
-            new_point[i,0] = np.round(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = np.round(index)
     elif mode == "ceil":
-        for i in range(3):
-            new_point[i,0] = round_away(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = round_away(index)
     elif mode == "floor":
-        for i in range(3):
-            new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
-
-    if generator.strain_field is None:
-        # scale back to real space
-        new_point = generator.voxel.sbases @ new_point
-
-        # get perpendicular vector
-        normal = generator.voxel.reciprocal_bases.T @ miller_indices
+        new_index = np.fix(index)
     else:
-        H = generator.voxel.sbases
-        G = generator.strain_field.matrix
-        new_point = G @ H @ new_point
+        raise ValueError("Mode must be nearest, ceil, or floor.")
 
-        # get perpendicular vector
-        normal = np.linalg.inv(H @ G).T @ miller_indices
+    new_point = point + normal * (new_index - index) / np.dot(normal, normal)
 
-    return Plane(normal=normal, point=new_point)
\ No newline at end of file
+    return Plane(normal=normal, point=new_point)
-- 
2.43.0


From 4f1aef3e0734eae3ec85bd807a6fc0b8b4804dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 29/54] fix: search defect planes around the center of
 spherical volumes

---
 czone/prefab/prefab.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 4fc6cf1..bf9d414 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -159,8 +159,8 @@ class fccMixedTwinSF(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec      
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec      
 
         sp = snap_plane_near_point(start,
                                    self.generator,
@@ -400,8 +400,8 @@ class wurtziteStackingFault(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec            
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec            
 
         sp = snap_plane_near_point(start,
                                    self.generator,
-- 
2.43.0


From 0bf3c3a0f2daf25219b624444aee354053cb77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 30/54] fix: get normal of wurtzite basal planes for any
 orientation

Reciprocal basis vectors are the rows of the inverse of the bases.
---
 czone/prefab/prefab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index bf9d414..452f9a9 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -390,7 +390,7 @@ class wurtziteStackingFault(BasePrefab):
         # TODO: the bounding box isn't necessarily tangent to the valid volume (e.g., spheres)
         # perhaps refine the end points until planes intersect
         
-        norm_vec = self.generator.voxel.reciprocal_bases @ np.array(self.plane)
+        norm_vec = self.generator.voxel.reciprocal_bases.T @ np.array(self.plane)
         norm_vec /= np.linalg.norm(norm_vec)
         bbox = self.volume.get_bounding_box()
         ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
-- 
2.43.0


From 78a5f6887873dcb8a49b59b6c3c1b5aa9fb0c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 31/54] fix: count all pairs once in radial distribution
 function

Neighbors were looked up by the voxel of the i-th atom in place of the i-th
voxel, voxels at periodic boundaries were too small or repeated, and the array
of coordinates of the caller was shifted in place.
---
 czone/util/measure.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index e5fe3b1..20d097d 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -210,17 +210,19 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
 
     """
     # shift outside of negative octants
-    coords -= np.min(coords, axis=0)
+    coords = coords - np.min(coords, axis=0)
 
     # get box size and number of voxels in each direction
     dims = np.max(coords, axis=0)
-    N = np.ceil(dims / cutoff).astype(int)
+    # voxels tile box exactly and are no smaller than cutoff
+    N = np.maximum(np.floor(dims / cutoff).astype(int), 1)
+    voxel_size = np.maximum(dims / N, cutoff)
 
     Nt = np.array([1, N[0], N[0] * N[1]])
 
     # get voxel neighbor list and 1D voxel idx for each obj
     nn = get_voxel_grid(N, px, py, pz)
-    box_idx = (np.floor(coords / cutoff) @ Nt).astype(int)
+    box_idx = (np.minimum(np.floor(coords / voxel_size), N - 1) @ Nt).astype(int)
 
     # get periodic distance calculation
     f_sdist = get_sdist_fun(dims, px, py, pz)
@@ -232,14 +234,14 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
         parts.append([int(x) for x in part_ids[box_idx == i]])
 
     # do 3D arrays so that distances are broadcasted/batched
-    counts = np.zeros(int(cutoff / 0.1))
+    counts = np.zeros(int(np.round(cutoff / 0.1)))
 
     # for each voxel, calculate distance of owned particles to all possible
     # neighbors within cutoff distance
     for i in range(np.prod(N)):
         cur_parts = coords[parts[i], :][:, :, None]
 
-        for n in nn[box_idx[i]]:
+        for n in set(nn[i]):
             neighbor_parts = (coords[parts[n], :].T)[None, :, :]
             dist = np.sqrt(f_sdist(cur_parts, neighbor_parts))
 
-- 
2.43.0


From 9baa36725c0a17ea5f2c38e48fc019a1a79f9526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 32/54] fix: normalize approximate surface normals

If the initial guess already separates the points it was returned with a length
of order 1e-10, placing adsorbates on top of the surface atom.
---
 czone/surface/adsorbate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 221a548..48709c9 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -107,7 +107,7 @@ def find_approximate_normal(points, decay=0.99, tol=1e-5, margin=0, seed=23, max
         if i == max_steps:
             break
 
-    return w
+    return w/np.linalg.norm(w)
 
 def get_nearest_neighbors(target_idx,
                           shape_dict,
-- 
2.43.0


From 32e251cf3920fd11153c8fb9d86878004e25b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 33/54] fix: return indices of tetrahedra of alpha shape as
 array

Indexing simplices with the tuple of np.nonzero added a dimension, so that
nearest neighbors over the full alpha shape were wrong.
---
 czone/surface/alpha_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aca7105..11aba2c 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -103,7 +103,7 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
@@ -178,7 +178,7 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
-- 
2.43.0


From dc144b2c10c45a1279249a83423906ee7a131bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 34/54] fix: report all vertices of exposed facets as alpha
 shape surface

A vertex of a tetrahedron with several exposed facets was dropped if the facet
opposite to it was one of them, even where it is on another exposed facet.
---
 czone/surface/alpha_shape.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index 11aba2c..7af919d 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -92,7 +92,12 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
     # determine which points are along the outer edges of tetrahedra/alpha-shape
     sub_points = tri.simplices[surface_tris,:]
     sub_neighbors = tri.neighbors[surface_tris,:]
-    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
+
+    # a facet (opposite to the vertex of same index) is on the outside if there is no neighbor, or if
+    # the neighbor is on the outside of the triangulation and fails the probe test
+    out_facets = np.logical_or(sub_neighbors==-1, np.logical_and(outside[sub_neighbors], np.logical_not(probe_test[sub_neighbors])))
+    # points are on the outside if they are part of any outside facet
+    out_points = sub_points[np.sum(out_facets, axis=1, keepdims=True) > out_facets]
 
     if return_alpha_shape:
         shape_dict = {}
@@ -167,7 +172,12 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
     # determine which points are along the outer edges of tetrahedra/alpha-shape
     sub_points = tri.simplices[surface_tris,:]
     sub_neighbors = tri.neighbors[surface_tris,:]
-    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
+
+    # a facet (opposite to the vertex of same index) is on the outside if there is no neighbor, or if
+    # the neighbor is on the outside of the triangulation and fails the probe test
+    out_facets = np.logical_or(sub_neighbors==-1, np.logical_and(outside[sub_neighbors], np.logical_not(probe_test[sub_neighbors])))
+    # points are on the outside if they are part of any outside facet
+    out_points = sub_points[np.sum(out_facets, axis=1, keepdims=True) > out_facets]
 
     if return_alpha_shape:
         shape_dict = {}
-- 
2.43.0


From 668f347001b7878c02c1e15d2086913ce284742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 35/54] fix: let space group number override symbol as
 documented

---
 czone/generator/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 7ee2f6c..032abfb 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -280,7 +280,7 @@ class Generator(BaseGenerator):
         Returns:
             Generator: Generator object with structure and symmetry defined by input space group.
         """
-        if sym is None:
+        if sgn is not None:
             sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
         else:
             sg = SpaceGroup(int_symbol=sym)
-- 
2.43.0


From d4ba3a06f6e89296407423e5c635100ef748ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 36/54] fix: supply enough atoms to fill region with
 homogeneously strained crystals

Extents were determined for the unstrained crystal, so that the edges of the
region were left empty under compression, rotation, or distant strain origins.
---
 czone/generator/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 032abfb..33f8389 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -8,7 +8,7 @@ from pymatgen.core import Lattice, Structure
 from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
 
 from ..transform import BaseTransform
-from ..transform.strain import BaseStrain
+from ..transform.strain import BaseStrain, HStrain
 from ..transform.post import BasePostTransform
 from ..volume.voxel import Voxel
 from .amorphous_algorithms import *
@@ -199,6 +199,12 @@ class Generator(BaseGenerator):
 
     def supply_atoms(self, bbox: np.ndarray):
         #generation method for pymatgen lattice structure
+        if isinstance(self.strain_field, HStrain):
+            # find region which is mapped onto requested region by strain
+            self.strain_field.scrape_params(self)
+            frame = self.strain_field.apply_strain(np.vstack([np.zeros(3), np.eye(3)]))
+            bbox = np.linalg.solve((frame[1:] - frame[0]).T, (bbox - frame[0]).T).T
+
         min_extent, max_extent = self.voxel.get_extents(bbox)
         # grab fractional in case bases are rotated; wrap into home cell, which
         # is the cell that the voxel extents are determined for, keeping sites
-- 
2.43.0


From 71f51cbc01743a77985f6c67b27562cade602e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 37/54] fix: use the setting named by the space group symbol

---
 czone/generator/generator.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 33f8389..ff428c5 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -5,7 +5,6 @@ from typing import List, Tuple
 
 import numpy as np
 from pymatgen.core import Lattice, Structure
-from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
 
 from ..transform import BaseTransform
 from ..transform.strain import BaseStrain, HStrain
@@ -286,11 +285,6 @@ class Generator(BaseGenerator):
         Returns:
             Generator: Generator object with structure and symmetry defined by input space group.
         """
-        if sgn is not None:
-            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
-        else:
-            sg = SpaceGroup(int_symbol=sym)
-
         lattice = Lattice.from_parameters(a=cellDims[0],
                                           b=cellDims[1],
                                           c=cellDims[2],
@@ -298,7 +292,7 @@ class Generator(BaseGenerator):
                                           beta=cellAngs[1],
                                           gamma=cellAngs[2])
 
-        structure = Structure.from_spacegroup(sg.int_number,
+        structure = Structure.from_spacegroup(sgn if sgn is not None else sym,
                                               lattice=lattice,
                                               species=Z,
                                               coords=coords)
-- 
2.43.0


From 3bb7e9854a8d459ff3a38c0e6b0dec30b715ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 38/54] fix: keep origin of molecule if index to track is
 refused

---
 czone/molecule/molecule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 00ab095..4d42540 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -205,8 +205,8 @@ class BaseMolecule(ABC):
             self._origin = point
 
         elif idx is not None: 
-            self._origin_tracking = True
             self._origin_idx = idx
+            self._origin_tracking = True
 
     @property
     def orientation(self):
-- 
2.43.0


From fe7dd2f3a670197a3c0592ee21d1e18454aa0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 39/54] fix: track new origin given when removing atoms from
 molecules

---
 czone/molecule/molecule.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 4d42540..d9ef775 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -109,19 +109,24 @@ class BaseMolecule(ABC):
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
         
         kept = np.delete(np.arange(self.atoms.shape[0]), indices)
-        if self._origin_tracking and self._origin_idx % self.atoms.shape[0] not in kept:
-            raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
-            # self._origin_idx = new_origin_idx # TEST
 
-        if self._origin_tracking:
-            # keep tracking same atom; atoms after those removed move up in the order
-            new_idx = np.searchsorted(kept, self._origin_idx % self.atoms.shape[0])
+        # track new origin if supplied, else keep tracking same atom
+        origin_idx = None
+        if new_origin_idx is not None:
+            origin_idx = new_origin_idx % self.atoms.shape[0]
+            if origin_idx not in kept:
+                raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
+        elif self._origin_tracking:
+            origin_idx = self._origin_idx % self.atoms.shape[0]
+            if origin_idx not in kept:
+                raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
 
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
 
-        if self._origin_tracking:
-            self._origin_idx = new_idx
+        if origin_idx is not None:
+            # atoms after those removed move up in the order
+            self.set_origin(idx=np.searchsorted(kept, origin_idx))
 
     @property
     def ase_atoms(self):
-- 
2.43.0


From 9a0bb50e9100070ec9927fb442ee5c9b3491ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 40/54] fix: solver gave no answer on feasibility of some
 unbounded or empty plane sets

---
 czone/volume/algebraic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 560489d..fa586cf 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -411,14 +411,20 @@ def get_bounding_box(planes: List[Plane]):
     c = np.zeros(4)
     c[-1] = -1
 
-    bounds = [(None, None)] * 3 + [(0, None)]
+    # radius of inscribed sphere may be negative but is limited, so that program
+    # always has a solution and tells infeasible and unbounded regions apart
+    max_radius = 1.0 + 10.0 * np.max(np.abs(d))
+    bounds = [(None, None)] * 3 + [(-max_radius, max_radius)]
     res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d, bounds=bounds)
     if (res.status == 0):
+        if res.x[-1] <= 1e-10:
+            return np.empty((0,3)), 2
+
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
         except QhullError:
             # normals of region with interior do not span space, e.g. slabs
-            return np.empty((0,3)), 3 if res.x[-1] > 1e-10 else 2
+            return np.empty((0,3)), 3
 
         # region is bounded only if interior point is inside of dual polytope
         if np.any(hs.dual_equations[:, -1] > -1e-12):
-- 
2.43.0


From 6b31d045da531c7e148530c483e107a66409f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 41/54] fix: stacking faults broke bonds for some settings of
 wurtzite cells

---
 czone/prefab/prefab.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 452f9a9..24d995d 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -433,7 +433,15 @@ class wurtziteStackingFault(BasePrefab):
         defect_types = {"stacking_fault":True}
         bz = (0.5)*self.generator.voxel.sbases @ np.array([0, 0, -1])
 
-        polarity = 1
+        # shift must map first layer above plane onto first layer below plane, so that
+        # bonds across plane are kept; direction depends on setting of unit cell
+        depth = np.mod(-self.generator.coords[:, 2] + 1e-6, 1.0)
+        below = np.argmin(depth)
+        layers = np.array(self.generator.species) == self.generator.species[below]
+        above = np.argmax(np.where(layers, depth, -1.0))
+        dx = self.generator.coords[below, 0] - self.generator.coords[above, 0]
+
+        polarity = 1 if dx - np.round(dx) < 0 else -1
         for i in range(self.N):
             # check if 100 or 200 plane in the original generator
             cur_plane_pt = planes[splits[i]].point
-- 
2.43.0


From f69dbe58e18217aa5aa98683b772da0928cc82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 42/54] fix: volumes with planes that have no common interior
 could not be populated

---
 czone/volume/volume.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 1e46569..254e2c2 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -339,7 +339,8 @@ class Volume(BaseVolume):
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
                 bbox, status = get_bounding_box_planes(planes)
-                if status == 0:
+                if status == 0 or status == 2:
+                    # no extremities if planes have no interior in common
                     return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
@@ -350,6 +351,11 @@ class Volume(BaseVolume):
 
     def populate_atoms(self):
         bbox = self.get_bounding_box()
+        if bbox is not None and len(bbox) == 0:
+            # region is empty
+            self._atoms, self._species = np.empty((0,3)), np.empty((0,))
+            return
+
         coords, species = self.generator.supply_atoms(bbox)
         check = self.checkIfInterior(coords)
 
-- 
2.43.0


From 51b7c76e50a35e07058d5a51ca1dc555c5b91024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 43/54] fix: Wulff constructions ignored the elements of the
 crystal

---
 czone/prefab/wulff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4f29f6d..5400058 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -58,7 +58,8 @@ class WulffBase(ABC):
                ), "Supplied generator must be crystalline Generator class"
         self._generator = val
         p_struct = val.structure.get_primitive_structure()
-        self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
+        self._p_atoms = Atoms(numbers=p_struct.atomic_numbers, positions=p_struct.cart_coords, 
+                              cell=p_struct.lattice.matrix, pbc=True)
 
     @property
     def p_atoms(self):
-- 
2.43.0


From e267dd7effcc6068ed583b43696edf05ecf25faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 44/54] fix: Wulff constructions kept old shape after size,
 energies or generator were changed

---
 czone/prefab/wulff.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 5400058..57eff68 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -145,7 +145,6 @@ class WulffSingle(WulffBase):
         self.generator = generator
         self.natoms = natoms
         self.surface_energies = surface_energies
-        self._wulff = None
 
     ####################
     #### Properties ####
@@ -158,9 +157,7 @@ class WulffSingle(WulffBase):
 
     @property
     def wulff(self):
-        if self._wulff is None:
-            self._wulff = SingleCrystal(self.surface_energies, self.p_atoms, self.natoms)
-        return self._wulff
+        return SingleCrystal(self.surface_energies, self.p_atoms, self.natoms)
 
     def get_construction(self, return_facet_areas=False):
         planes = self.planes_from_wulff(self.wulff)
-- 
2.43.0


From aa8796b64d20907e592185fefeb0c851d54b2bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 45/54] fix: facets of Wulff and Winterbottom constructions
 were not facets of rotated crystals

---
 czone/prefab/wulff.py | 48 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 57eff68..0791219 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -3,6 +3,7 @@ from typing import Dict, List, Tuple
 
 import numpy as np
 from ase import Atoms
+from spglib import get_symmetry_dataset
 from wulffpack import Decahedron, Icosahedron, SingleCrystal, Winterbottom
 from wulffpack.core import BaseParticle
 
@@ -57,7 +58,10 @@ class WulffBase(ABC):
         assert (isinstance(val, Generator)
                ), "Supplied generator must be crystalline Generator class"
         self._generator = val
-        p_struct = val.structure.get_primitive_structure()
+        struct = val.structure
+        self._s_atoms = Atoms(numbers=struct.atomic_numbers, positions=struct.cart_coords,
+                              cell=struct.lattice.matrix, pbc=True)
+        p_struct = struct.get_primitive_structure()
         self._p_atoms = Atoms(numbers=p_struct.atomic_numbers, positions=p_struct.cart_coords, 
                               cell=p_struct.lattice.matrix, pbc=True)
 
@@ -125,6 +129,25 @@ class WulffBase(ABC):
             for f in wulff_form.facets
         ]
 
+    def planes_in_generator_frame(self, planes):
+        """Transform facets in frame of standardized structure to frame of generator.
+
+        Args:
+            planes (List[Plane]): facets of Wulff construction, as oriented by WulffPack.
+
+        Returns:
+            List of Planes, oriented with respect to the basis of the generator.
+        """
+        data = get_symmetry_dataset((self._s_atoms.get_cell(),
+                                     self._s_atoms.get_scaled_positions(),
+                                     self._s_atoms.get_atomic_numbers()), symprec=1e-5)
+        std_to_struct = data.std_rotation_matrix.T
+        struct_to_gen = self.generator.voxel.sbases @ np.linalg.inv(self._s_atoms.cell.array.T)
+        mat = struct_to_gen @ std_to_struct
+        return [
+            Plane(np.linalg.inv(mat).T @ p.normal, mat @ p.point) for p in planes
+        ]
+
     @abstractmethod
     def get_construction(self):
         """For a given crystal and set of surface energies, return a Wulff construction.
@@ -136,6 +159,16 @@ class WulffBase(ABC):
         pass
 
 
+class CrystalFrameWinterbottom(Winterbottom):
+    """Winterbottom construction that stays oriented with the crystal.
+
+    WulffPack turns the particle with the interface towards -z after construction.
+    """
+
+    def rotate_particle(self, rotation):
+        pass
+
+
 class WulffSingle(WulffBase):
 
     def __init__(self,
@@ -157,12 +190,13 @@ class WulffSingle(WulffBase):
 
     @property
     def wulff(self):
-        return SingleCrystal(self.surface_energies, self.p_atoms, self.natoms)
+        return SingleCrystal(self.surface_energies, self._s_atoms, self.natoms)
 
     def get_construction(self, return_facet_areas=False):
-        planes = self.planes_from_wulff(self.wulff)
+        wulff = self.wulff
+        planes = self.planes_in_generator_frame(self.planes_from_wulff(wulff))
         if return_facet_areas:
-            return Volume(alg_objects=planes, generator=self.generator), self.wulff.facet_fractions
+            return Volume(alg_objects=planes, generator=self.generator), wulff.facet_fractions
         else:
             return Volume(alg_objects=planes, generator=self.generator)
 
@@ -186,9 +220,9 @@ class WulffSingle(WulffBase):
             Volume with shape described by Winterbottom construction for given 
             surfce energies.
         """
-        wulff = Winterbottom(self.surface_energies, interface, interface_energy,
-                             self.p_atoms, self.natoms)
-        planes = self.planes_from_wulff(wulff)
+        wulff = CrystalFrameWinterbottom(self.surface_energies, interface, interface_energy,
+                                         self._s_atoms, self.natoms)
+        planes = self.planes_in_generator_frame(self.planes_from_wulff(wulff))
 
         return Volume(alg_objects=planes, generator=self.generator)
 
-- 
2.43.0


From 1166d0b5e05e534433c4d937caf818be8656b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 46/54] fix: choice of splits did not end in reasonable time if
 they barely fit

---
 czone/util/misc.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index b3820e1..233a4b8 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -35,23 +35,11 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-    #seed an initial choice and create array to calculate distances in
-    splits = [rng.integers(m, l - m)]
-    data = np.array([x for x in range(m, l - m)])
-    idx = np.ma.array(data=data, mask=np.abs(data - splits[-1]) < m)
+    # choose distinct integers from shortened interval, and spread them to separation
+    splits = np.sort(rng.choice(l - 2 * m - (n - 1) * (m - 1), size=n, replace=False))
+    splits += m + (m - 1) * np.arange(n)
 
-    while (len(splits) < n):
-        while (np.all(idx.mask)):
-            # no options left, reseed
-            splits = [rng.integers(m, l - m)]
-            idx.mask = np.abs(idx.data - splits[-1]) < m
-
-        # add new choice to list and check distance against other indices
-        splits.append(rng.choice(idx.compressed()))
-        idx.mask = np.logical_or(idx.mask, np.abs(idx.data - splits[-1]) < m)
-
-    splits.sort()
-    return splits
+    return list(splits)
 
 
 def vangle(v1: np.ndarray, v2: np.ndarray) -> float:
-- 
2.43.0


From d2812ed5199ea4b0bd73507db8ea2f9a9d2c9064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 47/54] fix: keep points of volumes if points to add do not
 form a hull

---
 czone/volume/volume.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 254e2c2..d3878a3 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -263,6 +263,8 @@ class Volume(BaseVolume):
         assert (len(points.shape) <
                 3), "points must be N x 3 numpy array (x,y,z)"
 
+        old_state = (self._points, self._hull, self._tri)
+
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
@@ -274,7 +276,12 @@ class Volume(BaseVolume):
             self._points = np.append(self._points, points, axis=0)
 
         #hull and triangulation must both reflect current set of points
-        self.createHull()
+        try:
+            self.createHull()
+        except Exception:
+            #points are not kept if they do not form a hull
+            self._points, self._hull, self._tri = old_state
+            raise
 
     def transform(self, transformation: BaseTransform):
 
-- 
2.43.0


From 70fc227ecc24b4160fe9a6e61e549ff1a147a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 48/54] fix: reject bases that do not span space, e.g. coplanar
 or zero vectors

---
 czone/volume/voxel.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 1f842b2..b6315a1 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -62,13 +62,11 @@ class Voxel():
             [:,1] = [x_2, y_2, z_2]
             [:,2] = [x_3, y_3, z_3]'''
 
-        #check for collinearity
-        assert (not self._collinear(
-            bases[:, 0], bases[:, 1])), "Bases vectors must linearly indepedent"
-        assert (not self._collinear(
-            bases[:, 0], bases[:, 2])), "Bases vectors must linearly indepedent"
-        assert (not self._collinear(
-            bases[:, 1], bases[:, 2])), "Bases vectors must linearly indepedent"
+        #check for linear independence
+        norms = np.linalg.norm(bases, axis=0)
+        assert (np.all(norms > 0.0) and
+                np.abs(np.linalg.det(bases / norms)) > 1e-10
+               ), "Bases vectors must linearly indepedent"
 
         self._bases = bases
 
@@ -92,19 +90,6 @@ class Voxel():
         """Basis vectors defining unit cell of reciprocal lattice."""
         return np.linalg.inv(self.sbases)
 
-    def _collinear(self, vec1: np.ndarray, vec2: np.ndarray):
-        """Check if two vectors are collinear. Used for determining validity of basis set.
-
-        Args:
-            vec1 (np.ndarray): first vector
-            vec2 (np.ndarray): second vector
-
-        Returns:
-            bool indicating whether vectors are collinear.
-        """
-        return np.abs((np.dot(vec1, vec2) /
-                       (np.linalg.norm(vec1) * np.linalg.norm(vec2)))) == 1.0
-
     def get_extents(self, box: np.ndarray):
         """Determine minimum contiguous block of voxels that fully covers a space.
 
-- 
2.43.0


From 5c0833369ae7425bf743228f438878e7d06dc00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 49/54] fix: reject arrays of several points as point of a
 plane

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index fa586cf..e059b10 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -160,7 +160,7 @@ class Plane(BaseAlgebraic):
     @point.setter
     def point(self, point: np.ndarray):
         point = np.squeeze(np.array(point))  #cast to np array if not already
-        assert (point.shape[0] == 3), "Point must be a point in 3D space"
+        assert (point.shape == (3,)), "Point must be a point in 3D space"
         self._point = point
 
     @property
-- 
2.43.0


From 318c2cc53879677a93f3b553126ef1196d98cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 50/54] fix: apply translations given as 3x1 arrays to points
 as vectors

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 2f6df80..d0a21e2 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -126,7 +126,7 @@ class Translation(BaseTransform):
         shift = np.array(shift)
         assert (shift.size == 3), "Shift must be a vector in 3D space"
         assert (shift.shape[0] == 3), "Shift must be a vector in 3D space"
-        self._shift = shift
+        self._shift = shift.reshape((3,))
 
     @property
     def params(self):
-- 
2.43.0


From acb462c8b543b6dbb3fdde2b35a1d4a9b8812131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 51/54] fix: reject orientations of molecules that are not
 numbers

---
 czone/molecule/molecule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index d9ef775..baf599d 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -224,10 +224,10 @@ class BaseMolecule(ABC):
         if mat.shape != (3,3):
             raise ValueError(f"Input matrix has shape {mat.shape}  but must have shape {(3,3)}.")
             
-        if np.abs(np.linalg.det(mat) - 1.0) > 1e-6:
+        if not np.abs(np.linalg.det(mat) - 1.0) <= 1e-6:
             raise ValueError("Input (rotation) matrix must have determinant of 1.")
         
-        if np.sum(np.abs(mat @ mat.T - np.eye(3))) > 1e-6:
+        if not np.sum(np.abs(mat @ mat.T - np.eye(3))) <= 1e-6:
             raise ValueError(f"Input (rotation) matrix must be orthogonal.") # TODO: provide info on non-orthogonal vectors
 
         self._orientation = mat
-- 
2.43.0


From b3db8c3e7102b20b6d1604975a8760c34ddf9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 52/54] fix: refuse objects of wrong type instead of leaving
 them out of the scene

---
 czone/scene/scene.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index 7806378..0171b22 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -70,6 +70,8 @@ class Scene():
                 self._objects = [ob]
             else:
                 self._objects.append(ob)
+        else:
+            raise TypeError("Supplied object is not a volume or molecule")
 
     @property
     def _checks(self):
-- 
2.43.0


From 5ab1668e5d1d896e9405adfb432289087d75a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 53/54] fix: planes meeting far away from a cylinder gave a
 huge bounding box

---
 czone/volume/volume.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index d3878a3..887e9ac 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -343,17 +343,23 @@ class Volume(BaseVolume):
                 shift = spheres[s_idx].center - (d / 2) * np.ones(3)
                 return bbox + shift
 
+            bboxes = []
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
                 bbox, status = get_bounding_box_planes(planes)
-                if status == 0 or status == 2:
+                if status == 2:
                     # no extremities if planes have no interior in common
                     return bbox
+                if status == 0:
+                    bboxes.append(bbox)
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-                bbox = cylinders[0].get_bounding_box()
-                return bbox
+                bboxes.append(cylinders[0].get_bounding_box())
+
+            # planes may meet far away from cylinder
+            if len(bboxes) > 0:
+                return min(bboxes, key=lambda bbox: np.prod(np.ptp(bbox, axis=0)))
 
 
     def populate_atoms(self):
-- 
2.43.0


From 71b81a4161b945dd8877cfee8d38eb65a85904ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 54/54] fix: planes and cylinders accepted directions and sizes
 that are not finite numbers

---
 czone/volume/algebraic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index e059b10..3574541 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -173,10 +173,10 @@ class Plane(BaseAlgebraic):
         normal = np.array(normal)  #cast to np array if not already
         assert (normal.size == 3), "normal must be a vector in 3D space"
         normal = np.reshape(normal, (3,)) #make a consistent shape
-        if (np.linalg.norm(normal) > np.finfo(float).eps):
+        if (np.finfo(float).eps < np.linalg.norm(normal) < np.inf):
             self._normal = normal / np.linalg.norm(normal)
         else:
-            raise ValueError(f"Input normal vector length {np.linalg.norm(normal)} is below machine precision.")
+            raise ValueError(f"Input normal vector length {np.linalg.norm(normal)} is below machine precision or not finite.")
 
     def checkIfInterior(self, testPoints: np.ndarray):
         return self.sdist_from_plane(testPoints) < self.tol
@@ -262,8 +262,8 @@ class Cylinder(BaseAlgebraic):
     def axis(self, arr):
         arr = np.array(arr).reshape((3,))
         norm = np.linalg.norm(arr)
-        if norm <= np.finfo(float).eps:
-            raise ValueError(f"Input axis {arr} has norm {norm}, which is below machine precision.")
+        if not np.finfo(float).eps < norm < np.inf:
+            raise ValueError(f"Input axis {arr} has norm {norm}, which is below machine precision or not finite.")
         self._axis = arr / norm
 
     @property
@@ -283,7 +283,7 @@ class Cylinder(BaseAlgebraic):
     @radius.setter
     def radius(self, val):
         val = float(val)
-        if val < np.finfo(float).eps: # negative or subnormal
+        if not val >= np.finfo(float).eps: # negative, subnormal, or not a number
             raise ValueError(f"Radius must be positive but is close to zero or negative.")
         self._radius = val
 
@@ -295,7 +295,7 @@ class Cylinder(BaseAlgebraic):
     @length.setter
     def length(self, val):
         val = float(val)
-        if val < np.finfo(float).eps: # negative or subnormal
+        if not val >= np.finfo(float).eps: # negative, subnormal, or not a number
             raise ValueError(f"Length must be positive but is close to zero or negative.")
         self._length = val
 
-- 
2.43.0

