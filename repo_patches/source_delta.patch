From ece58a459a647116c157a9ee77458573785e10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 01/13] fix: math domain error when the station lies in the
 plane of a tilted face

The cosine of the dihedral angle is the dot product of two unit vectors; rounding
can make it exceed 1 in magnitude, and acos / sqrt(1 - b*b) then raise ValueError.
---
 geec/polyhedron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3c2dc67..1759e68 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -491,7 +491,8 @@ class Face:
     @staticmethod
     # @jit(nopython=True)
     def _get_b(A1: np.ndarray, A2: np.ndarray) -> float:
-        return np.dot(A1, A2)
+        # rounding may push the cosine slightly out of [-1, 1]
+        return max(-1.0, min(1.0, np.dot(A1, A2)))
 
     @staticmethod
     # @jit(nopython=True)
-- 
2.43.0


From 05f753e19519769cd3b3481dfcf76ebe4778239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 02/13] fix: wrong gradient when the station lies in the plane
 of a tilted face

The distance to the face's plane was compared with an absolute epsilon, so the
rounding error of coplanar stations was taken for a real distance, and the solid
angle jumped by multiples of pi. Compare relatively to the coordinates instead.
---
 geec/polyhedron.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 1759e68..914bdbf 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -408,7 +408,9 @@ class Face:
 
         self._omega = 0
         self._domega = np.zeros(3)
-        if abs(self._dp1) > epsilon:
+        # distance to the plane is only known up to the rounding of the coordinates
+        scale = max(np.abs(self.points).max(), np.abs(obs).max())
+        if abs(self._dp1) > 64 * epsilon * scale:
             points = self.points - obs  # [p1,p2,p3]
             dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
             cross = [
-- 
2.43.0


From 7df83283d64359336d520c96f4723ba1c5170cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 03/13] fix: wrong gradient when the station lies on the
 extension of an edge

Beyond the end point the edge was only reversed when the cosine rounded to exactly
1 and r1 + b2 to less than epsilon; otherwise the integral suffered from
cancellation. The sign change was also not applied to the derivatives.
Reverse the edge whenever the station is beyond its end point.
---
 geec/polyhedron.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 914bdbf..ca1718f 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -204,22 +204,18 @@ class Edge:
             R1, R2 = (self.points[0] - obs, self.points[1] - obs)
             r1, r2 = (np.linalg.norm(R1), np.linalg.norm(R2))
 
-            chsgn = 1  # if origin,p1 & p2 are on a st line
-            if r1 > r2 and np.dot(R1, R2) / (r1 * r2) == 1:  # p1 farther than p2
-                R1 = R2  # interchange p1,p2
-                r1 = r2
-                chsgn = -1
-
             Lj = self.vector
             lj = self.length
 
+            chsgn = 1
+            if np.dot(R2, Lj) < 0:
+                # observation point is beyond p2: interchange p1,p2
+                R1, r1, Lj = R2, r2, -Lj
+                chsgn = -1
+
             # bj = 2 Rj.Lj
             bj = 2 * np.dot(R1, Lj)
             b2 = bj / lj / 2
-            if abs(r1 + b2) < epsilon:  # r1 + b2 == 0
-                # observation point and edge are in line
-                Lj, bj = -Lj, -bj
-                b2 = bj / lj / 2
 
             # cj = R1 + bj/(2*lj)
             cj = r1 + b2
@@ -230,7 +226,7 @@ class Edge:
 
             # change sign of I if p1,p2 were interchanged
             self._pqr = pqr * chsgn
-            self._dpqr = dpqr
+            self._dpqr = dpqr * chsgn if dpqr is not None else None
             # assign twin value
             self._set_twin_pqr()
 
-- 
2.43.0


From 433de7ad9edad4b3bd877751b2a31b3d244447dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 04/13] fix: a failed computation corrupts the following ones

If the computation raises (e.g. station on a vertex), intermediate values of that
station were kept and silently used for the next station.
---
 geec/polyhedron.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index ca1718f..e7a7638 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -994,14 +994,15 @@ class Polyhedron:
         # self.set_origin(coord)
         T = np.zeros((3, 3))
 
-        for face in self.faces:
-            (g, t) = face.get_gravity(coord, density, Gc, gradient)
-            G += g
-            T += t
-
-        # reset intermediate variables, and shift back origin
-        # self.reset_origin(coord)
-        self.reset(coord)
+        try:
+            for face in self.faces:
+                (g, t) = face.get_gravity(coord, density, Gc, gradient)
+                G += g
+                T += t
+        finally:
+            # reset intermediate variables, and shift back origin
+            # self.reset_origin(coord)
+            self.reset(coord)
 
         return (G, T)
 
-- 
2.43.0


From d37f8724f3e05efe79559de34cefb38078c810e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 05/13] fix: run uses the density of the first mass body for
 all of them

---
 geec/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index df90a73..ce85a4d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -65,9 +65,6 @@ def run(
     # assess Polyhedron of each mass bodies
     p = [Polyhedron(mass.dataset.coords) for mass in masses]
 
-    density = masses[0].density
-    Gc = masses[0].gravity_constant
-
     # observation points
     observer = geec.observer.get_observer(config)
     observer.to_wgs84()
@@ -78,7 +75,10 @@ def run(
 
     def add_gravity(row):
         s = Station(np.array(row))
-        s.compute_gravity(p, density, Gc, gradient=gradient)
+        for poly, mass in zip(p, masses, strict=True):
+            s.compute_gravity(
+                poly, mass.density, mass.gravity_constant, gradient=gradient
+            )
         listG = s.G
         listT = s.T.flatten()[
             [0, 1, 2, 4, 5, 8]
-- 
2.43.0


From 2faaf391a1609d1827bdae67bb268a9e51643542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 06/13] fix: run mixes geographic observation points with ECEF
 mass bodies

Mass bodies are converted to ECEF, but longitude, latitude and altitude of the
observation points were used as cartesian coordinates of the stations.
---
 geec/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geec/cli.py b/geec/cli.py
index ce85a4d..c922912 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -73,6 +73,10 @@ def run(
     obs_name = observer.coords_name
     obs_unit = observer.coords_unit
 
+    # compute in the same coordinates system as the mass bodies
+    observer.to_ecef()
+    stations = observer.dataset.coords
+
     def add_gravity(row):
         s = Station(np.array(row))
         for poly, mass in zip(p, masses, strict=True):
@@ -85,7 +89,7 @@ def run(
         ]  # "txx", "txy", "txz", "tyy", "tyz", "tzz"
         return np.concatenate([listG, listT])
 
-    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_points)
+    listGT = np.apply_along_axis(add_gravity, axis=1, arr=stations)
     G_name = ["Gx", "Gy", "Gz"]
     G_unit = ["(mGal)", "(mGal)", "(mGal)"]
     T_name = ["txx", "txy", "txz", "tyy", "tyz", "tzz"]
-- 
2.43.0


From c012946910c38f14d8a78018cdeba20cfc21e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 07/13] fix: documented vertical datum egm2008 is rejected

---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index cefde8e..3bbdf7d 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -35,6 +35,7 @@ class VDatumEnum(StrEnum):
     EGM84 = "egm84"
     EGM96 = "egm96"
     EGM08 = "egm2008"
+    EGM2008 = "egm2008"  # alias, as documented in configuration file
 
 
 EllModelEnum = Enum("EllModelEnum", pm.Ellipsoid.models)
-- 
2.43.0


From 989efc1b57a3df8627b1cad33d3813b5de0ca556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 08/13] fix: east coordinates of ENU points are wrapped as
 longitudes

East coordinates above 180 m were shifted by -360 m.
---
 geec/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index ea20e8c..3d8211d 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -41,10 +41,10 @@ class Dataset:
         """Convert longitude to -180°..180°,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ECEF or ENU coordinate system, do nothing.
         """
         CRS_LON180 = {
-            geec.crs.CRSEnum.ENU: geec.crs.wrap180,
+            geec.crs.CRSEnum.ENU: lambda x: x,
             geec.crs.CRSEnum.ELLPS: geec.crs.wrap180,
             geec.crs.CRSEnum.ECEF: lambda x: x,
             geec.crs.CRSEnum.CART: lambda x: x,
-- 
2.43.0


From 9a6df72cb0d2ee308fd425571311d78b7f00b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 09/13] fix: geoid height is looked up at the ENU coordinates
 of ENU points

East and north [m] were used as longitude and latitude [degree], which fails as
soon as north exceeds 90 m. Up coordinates are relative to the ENU origin, whose
altitude is already a height above the ellipsoid.
---
 geec/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 3d8211d..30b5aed 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -56,10 +56,10 @@ class Dataset:
         """Convert altitude to ellipsoid height,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ECEF or ENU coordinate system, do nothing.
         """
         CRS_ELLPSH = {
-            geec.crs.CRSEnum.ENU: geec.crs.ellipsoid_height,
+            geec.crs.CRSEnum.ENU: lambda x, y: (x, y),
             geec.crs.CRSEnum.ELLPS: geec.crs.ellipsoid_height,
             geec.crs.CRSEnum.ECEF: lambda x, y: (x, y),
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
-- 
2.43.0


From 25623ccc4cf14554f0638fe0945917b523bca5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 10/13] fix: points given as integers can not be corrected for
 geoid height

Integer arrays can not hold the ellipsoid height (UFuncTypeError).
---
 geec/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 30b5aed..de7be7c 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -146,7 +146,7 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
 
 
 def get_dataset(config: Subview) -> Dataset:
-    ds_coords = _read_coords(config)
+    ds_coords = _read_coords(config).astype(float)
     ds_crs = geec.crs.get_crs(config["crs"])
 
     return Dataset(coords=ds_coords, crs=ds_crs)
-- 
2.43.0


From 782aaee68c5fda96a45b7d7c314184dba6e816f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 11/13] fix: ENU coordinates inconsistent with their reference
 ellipsoid

to_enu computes ENU coordinates on WGS84, but took points of any other ellipsoid
as if they were WGS84, and left the ellipsoid of the CRS (None from ECEF) different
from the one of its ENU frame.
---
 geec/crs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/crs.py b/geec/crs.py
index 3bbdf7d..fd00e7b 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -397,6 +397,7 @@ def ecef_to_enu(
 
     # update coordinates reference system
     crs.name = CRSEnum.ENU
+    crs.ellps = _WGS84_
     crs.enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
@@ -423,6 +424,8 @@ def wgs84_to_enu(
     #     logger.error(msg)
     #     raise ValueError(msg)
 
+    points, crs = ellps_to_wgs84(points, crs)
+
     logger.info("Convert points from WGS84 ellipsoid to ENU coorindates.")
     lon, lat, alt = points.T
     e, n, u = pm.geodetic2enu(lat, lon, alt, lat0, lon0, alt0)
-- 
2.43.0


From 853490c2bec6a02adf91cdd4251705b8eb69ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:42 +0000
Subject: [PATCH 12/13] fix: summing line integrals over a face overwrites the
 value of its first edge

The face keeps a reference to the array of its first edge and adds the other
edges to it in place, so that edge and its twin no longer carry opposite
values.
---
 geec/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index e7a7638..08b3086 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -325,14 +325,14 @@ class Face:
     def _add_pqr(self, pqr: np.ndarray | None) -> None:
         """ """
         if self._pqr is not None:
-            self._pqr += pqr
+            self._pqr = self._pqr + pqr
         else:
             self._pqr = pqr
 
     def _add_dpqr(self, dpqr: np.ndarray | None) -> None:
         """ """
         if self._dpqr is not None:
-            self._dpqr += dpqr
+            self._dpqr = self._dpqr + dpqr
         else:
             self._dpqr = dpqr
 
-- 
2.43.0


From cbc7e918da366ceb1d5b4ff0b6a72c975c60eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:14 +0000
Subject: [PATCH 13/13] fix: gradient wrong in the plane of a thin face

The distance to the plane of a long thin face is known only as well as the
face's normal, so a point in that plane could be taken for a point off it and
the solid angle came out wrong by 2*pi or 4*pi. Decide with the triple product
of the corners, whose rounding does not depend on the shape of the face.
---
 geec/polyhedron.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 08b3086..e5e03fa 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -404,10 +404,13 @@ class Face:
 
         self._omega = 0
         self._domega = np.zeros(3)
-        # distance to the plane is only known up to the rounding of the coordinates
+        points = self.points - obs  # [p1,p2,p3]
+        # the point is in the plane if p1.(p2xp3) is within rounding of the coordinates
+        # (a thin face's normal, hence the distance to its plane, is known much worse)
         scale = max(np.abs(self.points).max(), np.abs(obs).max())
-        if abs(self._dp1) > 64 * epsilon * scale:
-            points = self.points - obs  # [p1,p2,p3]
+        reach = np.linalg.norm(points, axis=1).max()
+        volume = np.dot(points[0], cross_product(points[1], points[2]))
+        if abs(volume) > 64 * epsilon * scale * reach**2:
             dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
-- 
2.43.0

