From 1c12f8a7170d93a1efe60b0ccd7526f830a8bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 01/15] fix: keep the view factors when calculating the AOI
 absorption factors

VFCalculator.build_ts_vf_aoi_matrix wrote the absorption factors into the
view factor matrix of the calculator, which is also the array published as
pvarray.ts_vf_matrix.
---
 pvfactors/viewfactors/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index aa8e844..59e5048 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -153,7 +153,7 @@ class VFCalculator(object):
         n_ts_surfaces = pvarray.n_ts_surfaces
         vf_aoi_matrix = np.zeros(
             (n_ts_surfaces + 1, n_ts_surfaces + 1, n_steps),
-            dtype=float) if self.vf_matrix is None else self.vf_matrix
+            dtype=float) if self.vf_matrix is None else self.vf_matrix.copy()
 
         # Get timeseries objects
         ts_ground = pvarray.ts_ground
-- 
2.43.0


From 23a668608a8706ec7a7e99065ca5253e754e1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 02/15] fix: count the transmitted beam in the shaded row total
 of IsotropicOrdered

The fast mode uses this total for the light reflected by shaded parts of the
rows. It left out the beam going through the modules and between the cells,
which the ground total and the hybrid model account for.
---
 pvfactors/irradiance/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 904c44c..8a97f1f 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -180,7 +180,8 @@ class IsotropicOrdered(BaseModel):
         self.total_perez['front_illum_pvrow'] = perez_front_pvrow['poa_global']
         self.total_perez['front_shaded_pvrow'] = (
             self.total_perez['front_illum_pvrow']
-            - self.direct['front_illum_pvrow'])
+            - self.direct['front_illum_pvrow']
+            + self.direct['front_shaded_pvrow'])
         self.total_perez['ground_shaded'] = (self.DHI
                                              + self.direct['ground_shaded'])
 
-- 
2.43.0


From 34d9f02fbe9e0be44c9c8d687c5d2c0d8e5dc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 03/15] fix: keep the sign of the rotation of flat rows for
 integer tilt values

---
 pvfactors/geometry/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 4cc7d1d..25a5324 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -121,7 +121,7 @@ def _get_rotation_from_tilt_azimuth(surface_azimuth, axis_azimuth, tilt):
 
     # Calculate rotation of PV row (signed tilt angle)
     is_pointing_right = ((surface_azimuth - axis_azimuth) % 360.) > 180.
-    rotation = np.where(is_pointing_right, tilt, -tilt)
+    rotation = np.where(is_pointing_right, tilt, -tilt).astype(float)
     rotation[tilt == 0] = -0.0  # GH 125
     return rotation
 
-- 
2.43.0


From 490e268f668969dcadb22df453ee05b2dd46cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 04/15] fix: circumsolar shading percentage of rows without
 neighbor

---
 pvfactors/irradiance/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 8a97f1f..a9939ea 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -943,6 +943,8 @@ class HybridPerezOrdered(BaseModel):
                 / self.circumsolar_angle * 100.
             circ_shading_pct = calculate_circumsolar_shading(
                 percentage_circ_angle_covered, model=self.circumsolar_model)
+        else:
+            circ_shading_pct = 0.
 
         return circ_shading_pct
 
-- 
2.43.0


From 63737b61df12ce886143f2a9c52ae83c0160d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 05/15] fix: use the requested index to list the non-point
 ground surfaces

---
 pvfactors/geometry/pvground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index f336c2a..1890317 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -522,7 +522,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for shadow_el in self.shadow_elements:
-            list_surfaces += shadow_el.non_point_surfaces_at(0)
+            list_surfaces += shadow_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_illum_surfaces_at(self, idx):
@@ -540,7 +540,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for illum_el in self.illum_elements:
-            list_surfaces += illum_el.non_point_surfaces_at(0)
+            list_surfaces += illum_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_surfaces_at(self, idx):
-- 
2.43.0


From 51f86dbbaa545698633096a0711ca05d263d91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 06/15] fix: modeling vectors at an index

---
 pvfactors/irradiance/models.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index a9939ea..be8b19e 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -277,17 +277,12 @@ class IsotropicOrdered(BaseModel):
             List of total perez transposed irradiance values for all surfaces
             and sky
         """
-        # Sum up the necessary parameters to form the irradiance vector
-        irradiance_vec, rho_vec, inv_rho_vec, total_perez_vec = \
-            self.get_modeling_vectors(pvarray)
-        # Add sky values
-        irradiance_vec.append(self.isotropic_luminance[idx])
-        total_perez_vec.append(self.isotropic_luminance[idx])
-        rho_vec.append(SKY_REFLECTIVITY_DUMMY)
-        inv_rho_vec.append(SKY_REFLECTIVITY_DUMMY)
+        # Take the requested index from the timeseries values
+        irradiance_mat, rho_mat, inv_rho_mat, total_perez_mat = \
+            self.get_full_ts_modeling_vectors(pvarray)
 
-        return np.array(irradiance_vec), np.array(rho_vec), \
-            np.array(inv_rho_vec), np.array(total_perez_vec)
+        return irradiance_mat[:, idx], rho_mat[:, idx], \
+            inv_rho_mat[:, idx], total_perez_mat[:, idx]
 
     def get_full_ts_modeling_vectors(self, pvarray):
         """Get the modeling vectors used in matrix calculations of
@@ -772,16 +767,12 @@ class HybridPerezOrdered(BaseModel):
             and sky
         """
 
-        # Sum up the necessary parameters to form the irradiance vector
-        irradiance_vec, rho_vec, inv_rho_vec, total_perez_vec = self.get_modeling_vectors(pvarray)
-        # Add sky values
-        irradiance_vec.append(self.isotropic_luminance[idx])
-        total_perez_vec.append(self.isotropic_luminance[idx])
-        rho_vec.append(SKY_REFLECTIVITY_DUMMY)
-        inv_rho_vec.append(SKY_REFLECTIVITY_DUMMY)
+        # Take the requested index from the timeseries values
+        irradiance_mat, rho_mat, inv_rho_mat, total_perez_mat = \
+            self.get_full_ts_modeling_vectors(pvarray)
 
-        return np.array(irradiance_vec), np.array(rho_vec), \
-            np.array(inv_rho_vec), np.array(total_perez_vec)
+        return irradiance_mat[:, idx], rho_mat[:, idx], \
+            inv_rho_mat[:, idx], total_perez_mat[:, idx]
 
     def get_full_ts_modeling_vectors(self, pvarray):
         """Get the modeling vectors used in matrix calculations of
-- 
2.43.0


From 909c1fdf3e755e771ac0529b24c39b3d61868d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 07/15] fix: do not share default collections between PV
 segments

---
 pvfactors/geometry/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 25a5324..b2abf6a 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -609,8 +609,8 @@ class PVSegment(GeometryCollection):
     call basic geometrical methods and properties on it, eg call length, etc.
     """
 
-    def __init__(self, illum_collection=ShadeCollection(shaded=False),
-                 shaded_collection=ShadeCollection(shaded=True), index=None):
+    def __init__(self, illum_collection=None, shaded_collection=None,
+                 index=None):
         """Initialize PV segment.
 
         Parameters
@@ -626,6 +626,11 @@ class PVSegment(GeometryCollection):
         index : int, optional
             Index of the PV segment (Default = None)
         """
+        # Do not share the default collections: segments modify theirs
+        if illum_collection is None:
+            illum_collection = ShadeCollection(shaded=False)
+        if shaded_collection is None:
+            shaded_collection = ShadeCollection(shaded=True)
         assert shaded_collection.shaded, "surface should be shaded"
         assert not illum_collection.shaded, "surface should not be shaded"
         self._check_collinear(illum_collection, shaded_collection)
-- 
2.43.0


From f83cbe223062a4b8168091cb1cbe1f464a564d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 08/15] fix: list the surfaces of segments, sides and rows as
 they are now

---
 pvfactors/geometry/base.py  | 20 ++++++++------------
 pvfactors/geometry/pvrow.py | 10 ++++------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index b2abf6a..2fc63b7 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -637,7 +637,6 @@ class PVSegment(GeometryCollection):
         self._shaded_collection = shaded_collection
         self._illum_collection = illum_collection
         self.index = index
-        self._all_surfaces = None
         super(PVSegment, self).__init__([self._shaded_collection,
                                          self._illum_collection])
 
@@ -918,11 +917,10 @@ class PVSegment(GeometryCollection):
         list of :py:class:`~pvfactors.geometry.base.PVSurface`
             PV surfaces in the PV segment
         """
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self._illum_collection.list_surfaces
-            self._all_surfaces += self._shaded_collection.list_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        all_surfaces += self._illum_collection.list_surfaces
+        all_surfaces += self._shaded_collection.list_surfaces
+        return all_surfaces
 
 
 class BaseSide(GeometryCollection):
@@ -940,7 +938,6 @@ class BaseSide(GeometryCollection):
         list_segments = [] if list_segments is None else list_segments
         check_collinear(list_segments)
         self.list_segments = tuple(list_segments)
-        self._all_surfaces = None
         super(BaseSide, self).__init__(list_segments)
 
     @classmethod
@@ -1013,11 +1010,10 @@ class BaseSide(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all surfaces in the Side object."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            for segment in self.list_segments:
-                self._all_surfaces += segment.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        for segment in self.list_segments:
+            all_surfaces += segment.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 66fe966..74ebd29 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -695,7 +695,6 @@ class PVRow(GeometryCollection):
         self.back = back_side
         self.index = index
         self.original_linestring = original_linestring
-        self._all_surfaces = None
         super(PVRow, self).__init__([self.front, self.back])
 
     @classmethod
@@ -832,11 +831,10 @@ class PVRow(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all the surfaces in the PV row."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self.front.all_surfaces
-            self._all_surfaces += self.back.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        all_surfaces += self.front.all_surfaces
+        all_surfaces += self.back.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
-- 
2.43.0


From 704a3e7de5a7c3b412ef10e13acd073a9991a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 09/15] fix: merge the surfaces of lines going down

---
 pvfactors/geometry/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 2fc63b7..6788fcb 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -466,6 +466,10 @@ class ShadeCollection(GeometryCollection):
             merged_lines = linemerge(self.list_surfaces)
             minx, miny, maxx, maxy = merged_lines.bounds
             surf_1 = self.list_surfaces[0]
+            b1, b2 = surf_1.boundary
+            if (b2.x - b1.x) * (b2.y - b1.y) < 0:
+                # The line goes down: it is the other diagonal of the bounds
+                miny, maxy = maxy, miny
             new_pvsurf = PVSurface(
                 coords=[(minx, miny), (maxx, maxy)],
                 shaded=self.shaded, normal_vector=surf_1.n_vector,
-- 
2.43.0


From e4f555ba012a8a52f5f0426f77b3a1ae61204d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 10/15] fix: difference of a line with a longer line that
 covers it

---
 pvfactors/geometry/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 8025768..576c9ae 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -67,6 +67,8 @@ def difference(u, v):
             return LineString([ub1, vb2])
         else:
             return u
+    elif v_contains_ub1 and v_contains_ub2:
+        return LineString()
     else:
         return u
 
-- 
2.43.0


From 1fc177af104ece273ee2b492cc4bad10605ee53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 11/15] fix: cast a shadow on separate illuminated areas of a
 segment

---
 pvfactors/geometry/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 6788fcb..da45a3c 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -710,12 +710,11 @@ class PVSegment(GeometryCollection):
                         .intersection(linestring))
         if not intersection.is_empty:
             # Split up only if interesects the illuminated collection
-            # print(intersection)
-            self._shaded_collection.add_linestring(intersection,
-                                                   normal_vector=self.n_vector)
-            # print(self._shaded_collection.length)
-            self._illum_collection.remove_linestring(intersection)
-            # print(self._illum_collection.length)
+            # There are several shadows when the illuminated area is split up
+            for line in getattr(intersection, 'geoms', [intersection]):
+                self._shaded_collection.add_linestring(
+                    line, normal_vector=self.n_vector)
+                self._illum_collection.remove_linestring(line)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 920c6792ba7cfddd22c162cb6cc4de44da629739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 12/15] fix: empty geometries do not contain any point

---
 pvfactors/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 576c9ae..5cec625 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -75,7 +75,8 @@ def difference(u, v):
 
 def contains(linestring, point, tol_distance=DISTANCE_TOLERANCE):
     """Fixing floating point errors obtained in shapely for contains"""
-    return linestring.distance(point) < tol_distance
+    return (not linestring.is_empty
+            and linestring.distance(point) < tol_distance)
 
 
 def is_collinear(list_elements):
-- 
2.43.0


From 109851730dca49de252b539053660ea50ecd70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 13/15] fix: do not cast shadows with lines that only touch a
 segment

---
 pvfactors/geometry/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index da45a3c..78bcdf5 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -712,9 +712,11 @@ class PVSegment(GeometryCollection):
             # Split up only if interesects the illuminated collection
             # There are several shadows when the illuminated area is split up
             for line in getattr(intersection, 'geoms', [intersection]):
-                self._shaded_collection.add_linestring(
-                    line, normal_vector=self.n_vector)
-                self._illum_collection.remove_linestring(line)
+                # The buffer makes lines out of points that are only touched
+                if line.length > 2 * DISTANCE_TOLERANCE:
+                    self._shaded_collection.add_linestring(
+                        line, normal_vector=self.n_vector)
+                    self._illum_collection.remove_linestring(line)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 82372f29f9d695518b1d642540dc3d71e341c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 14/15] fix: do not change the caller's list of surfaces when a
 collection changes

---
 pvfactors/geometry/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 78bcdf5..56d9135 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -343,7 +343,7 @@ class ShadeCollection(GeometryCollection):
             irradiance, temperature, etc. (Default = None)
 
         """
-        list_surfaces = [] if list_surfaces is None else list_surfaces
+        list_surfaces = [] if list_surfaces is None else list(list_surfaces)
         param_names = [] if param_names is None else param_names
         _check_uniform_shading(list_surfaces)
         self.list_surfaces = list_surfaces
-- 
2.43.0


From 4b53e626f970ba2cd3ba0f5e78623fce9ff17653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 15/15] fix: give every surface its own values

---
 pvfactors/geometry/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 56d9135..f036317 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -199,7 +199,7 @@ class BaseSurface(LineString):
             self.n_vector = np.array(normal_vector)
         self.index = index
         self.param_names = param_names
-        self.params = params if params is not None \
+        self.params = dict(params) if params is not None \
             else dict.fromkeys(self.param_names)
 
     def _calculate_n_vector(self):
-- 
2.43.0

