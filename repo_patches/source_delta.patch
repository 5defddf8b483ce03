From 57cd1ed71aa347a3c4ca11304c6d85c1950a9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 01/25] fix: lookAtSpheroid: use the requested ellipsoid in
 every conversion

---
 src/pymap3d/los.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index f03abee..a045428 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -76,7 +76,7 @@ def lookAtSpheroid(
     # fixed 1 km slant range
 
     u, v, w = enu2uvw(e, n, u, lat0, lon0, deg=deg)
-    x, y, z = geodetic2ecef(lat0, lon0, h0, deg=deg)
+    x, y, z = geodetic2ecef(lat0, lon0, h0, ell=ell, deg=deg)
 
     value = -(a**2) * b**2 * w * z - a**2 * c**2 * v * y - b**2 * c**2 * u * x
     radical = (
@@ -112,6 +112,6 @@ def lookAtSpheroid(
             d = nan
 
     # %% cartesian to ellipsodal
-    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)
+    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell=ell, deg=deg)
 
     return lat, lon, d
-- 
2.43.0


From 391c3404e5f14c1510c95991684822f058ad0930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 02/25] fix: geodetic2eci: pass the Earth orientation
 parameters on

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 587f0df..138725b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -549,7 +549,7 @@ def geodetic2eci(
 
     x, y, z = geodetic2ecef(lat, lon, alt, ell, deg)
 
-    return ecef2eci(x, y, z, t)
+    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)
 
 
 def enu2ecef(
-- 
2.43.0


From 94f598788d78ef96083c80ceca64be2036635d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 03/25] fix: ECI/ECEF state conversion: keep the input shapes
 for arrays of states

---
 src/pymap3d/eci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 0eedb0b..a4e089f 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -451,15 +451,15 @@ def _apply_state_rotation(
     vel_out = numpy.empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
-        x, y, z, vx, vy, vz = _apply_state_rotation_scalar(
+        state = _apply_state_rotation_scalar(
             rotation,
             rotation_rate,
             *tuple(pos_in[i, :]),
             *tuple(vel_in[i, :]),
             inverse=inverse,
         )
-        pos_out[i, :] = (x, y, z)
-        vel_out[i, :] = (vx, vy, vz)
+        pos_out[i, :] = state[:3]
+        vel_out[i, :] = state[3:]
 
     return (
         pos_out[:, 0].reshape(x.shape),
-- 
2.43.0


From ee8615859199f10f83024aedf9f3e358d74030d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 04/25] fix: enu2aer: do not modify the input arrays

---
 src/pymap3d/enu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index ef78eaa..168e971 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+from copy import copy
+
 from math import tau
 
 from ._typing import FloatLike
@@ -52,6 +54,7 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
     # 1 millimeter precision for singularity stability
 
     def _zero_trim_numpy(x, y, z) -> tuple:
+        x, y, z = copy(x), copy(y), copy(z)  # never modify the caller's arrays
         x[abs(x) < 1e-3] = 0.0
         y[abs(y) < 1e-3] = 0.0
         z[abs(z) < 1e-3] = 0.0
-- 
2.43.0


From 6c572861196b141fd04d9715e7b78346b391d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 05/25] fix: vdist, vreckon: do not modify the input latitude
 arrays

---
 src/pymap3d/vincenty.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d975633..d01b60b 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -113,6 +113,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         if abs(lat1) > pi / 2 or abs(lat2) > pi / 2:
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
     # %% correct for errors at exact poles by adjusting 0.6 millimeters:
+    lat1, lat2 = copy(lat1), copy(lat2)  # never modify the caller's arrays
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
         lat1[i] = sign(lat1[i]) * (pi / 2 - 1e-10)
@@ -350,6 +351,7 @@ def vreckon(
             raise ValueError("Input lat. must be between -90 and 90 deg., inclusive.")
 
     # correct for errors at exact poles by adjusting 0.6 millimeters:
+    lat1 = copy(lat1)  # never modify the caller's array
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
         lat1[i] = sign(lat1[i]) * (pi / 2 - (1e-10))
-- 
2.43.0


From 9345e0a51ac48d65518fe306b60a99ae46272123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 06/25] fix: vdist: one coincident pair no longer changes the
 azimuth and distance of every array element

---
 src/pymap3d/vincenty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d01b60b..ede3e1b 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -168,7 +168,8 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
 
         try:
             with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
+                # arrays: coincident points are handled element by element below
+                warnings.simplefilter("ignore")
                 sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
 
                 alpha = asin(sinAlpha)
-- 
2.43.0


From cbfa1cda2e802511fdb29b2a029adefdec56ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 07/25] fix: vdist: an essentially antipodal pair no longer
 changes the other array elements

---
 src/pymap3d/vincenty.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index ede3e1b..aa160e1 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -14,7 +14,7 @@ from .mathfun import isnan, linspace, degrees, radians, sign, sqrt, atan2, cos,
 from math import pi, tau, nan
 
 try:
-    from numpy import asarray
+    from numpy import asarray, where
 except ImportError:
     pass
 
@@ -140,7 +140,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         if L > pi:
             L = 2 * pi - L
 
-    lamb = copy(L)  # NOTE: program will fail without copy!
+    lambdaold = copy(L)  # NOTE: program will fail without copy!
     itercount = 0
     warninggiven = False
     notdone = True
@@ -150,10 +150,13 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
             if not warninggiven:
                 logging.warning("Essentially antipodal points--precision may be reduced slightly.")
 
-            lamb = pi
+            try:
+                lamb[unconverged] = pi
+            except TypeError:
+                lamb = pi
             break
 
-        lambdaold = copy(lamb)
+        lamb = lambdaold
 
         sinsigma = sqrt(
             (cos(U2) * sin(lamb)) ** 2 + (cos(U1) * sin(U2) - sin(U1) * cos(U2) * cos(lamb)) ** 2
@@ -200,23 +203,31 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         )
         # print(f'then, lambda(21752) = {lamb[21752],20})
         # correct for convergence failure for essentially antipodal points
+        antipodal = lamb > pi
         try:
-            i = (lamb > pi).any()
+            notdone = antipodal.any()
         except AttributeError:
-            i = lamb > pi
+            notdone = antipodal
 
-        if i:
+        if notdone:
             logging.warning(
                 "Essentially antipodal points encountered. Precision may be reduced slightly."
             )
             warninggiven = True
-            lambdaold = pi
-            lamb = pi
 
         try:
-            notdone = (abs(lamb - lambdaold) > 1e-12).any()
-        except AttributeError:
-            notdone = abs(lamb - lambdaold) > 1e-12
+            # arrays: elements that have converged or are antipodal are not iterated further
+            lamb[antipodal] = pi
+            unconverged = (abs(lamb - lambdaold) > 1e-12) & ~antipodal
+            lambdaold = where(unconverged, lamb, lambdaold)
+            notdone = unconverged.any()
+        except TypeError:
+            if antipodal:
+                lamb = pi
+                notdone = False
+            else:
+                notdone = abs(lamb - lambdaold) > 1e-12
+                lambdaold = lamb
 
     u2 = cos(alpha) ** 2 * (a**2 - b**2) / b**2
     A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
-- 
2.43.0


From 7b28fa17dc41832e3e2b67461446391db9480cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 08/25] fix: geodetic2conformal: a +90 element no longer
 replaces the whole array

---
 src/pymap3d/latitude.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4a56c08..491c857 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -4,8 +4,6 @@ from __future__ import annotations
 
 from ._typing import FloatArray, FloatLike
 
-import warnings
-
 from math import pi
 
 from . import rcurve
@@ -13,6 +11,7 @@ from .ellipsoid import Ellipsoid, resolve_ellipsoid
 from .mathfun import (
     asinh,
     atan,
+    atan2,
     atanh,
     cos,
     degrees,
@@ -364,13 +363,8 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
     f3 = 1 - sin(geodetic_lat)
     f4 = 1 + sin(geodetic_lat)
 
-    #  compute conformal latitudes with correction for points at +90
-    try:
-        with warnings.catch_warnings(record=True):
-            warnings.simplefilter("error")
-            conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
-    except (ArithmeticError, RuntimeWarning):
-        conformal_lat = pi / 2
+    #  atan2 is well defined at the +90 pole, where f3 is zero
+    conformal_lat = 2 * atan2(sqrt(f4 * f1**e), sqrt(f3 * f2**e)) - (pi / 2)
 
     return degrees(conformal_lat) if deg else conformal_lat
 
-- 
2.43.0


From 6d9281ab88dd80f10ab80145a5a5a14b0a98c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 09/25] fix: geoc2geod: sign of the second-order term of Long's
 series

---
 src/pymap3d/latitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 491c857..7ef354d 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -89,7 +89,7 @@ def geoc2geod(
     geodetic_lat = (
         geocentric_lat
         + (sin(2 * geocentric_lat) / r) * ell.flattening
-        + ((1 / r**2 + 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
+        + ((1 / r**2 - 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
     )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
-- 
2.43.0


From 8c7454f5a1a91d812f4614828dd807669a06fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 10/25] fix: ecef2geodetic: latitude keeps the input's shape

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 138725b..7850836 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -203,7 +203,7 @@ def ecef2geodetic(
 
         lat, alt = _lat_alt_numpy(x, y, z, Beta)
 
-        lat = lat.squeeze()[()]
+        lat = lat[()]
 
         return lat, alt
 
-- 
2.43.0


From 08130a881429df30bdb2410a7f509c71746d2a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 11/25] fix: CLI: an omitted option means the function's own
 default, not its text

---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 8a1c083..21e6c44 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -103,7 +103,7 @@ def _add_parameter_arg(parser: argparse.ArgumentParser, param: inspect.Parameter
         parser.add_argument(
             f"--{name.replace('_', '-')}",
             dest=dest,
-            default=str(default),
+            default=default,
             help=f"{name} (default: {default})",
         )
     else:
-- 
2.43.0


From 4bf758f356e664f4467822ab46ef8d86f05b1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 12/25] fix: CLI: array results can be written as JSON

---
 src/pymap3d/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 21e6c44..3c039e0 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -183,6 +183,9 @@ def _to_jsonable(value: Any) -> Any:
         case datetime():
             return value.isoformat()
 
+    if hasattr(value, "tolist"):  # NumPy arrays and scalars
+        return value.tolist()
+
     return value
 
 
-- 
2.43.0


From cdff4ac644c764a28d92276a19bdaaaac4361d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 13/25] fix: CLI: --precision also applies to matrices and
 arrays

---
 src/pymap3d/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 3c039e0..8826e44 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -167,8 +167,13 @@ def _call_selected_function(
 
 
 def _format_scalar(value: Any, precision: int | None) -> str:
-    if precision is not None and isinstance(value, float):
-        return f"{value:.{precision}f}"
+    if precision is not None:
+        if isinstance(value, float):
+            return f"{value:.{precision}f}"
+        if hasattr(value, "tolist"):  # NumPy arrays
+            value = value.tolist()
+        if isinstance(value, (tuple, list)):  # e.g. rotation matrices
+            return "(" + ", ".join(_format_scalar(v, precision) for v in value) + ")"
 
     return str(value)
 
-- 
2.43.0


From 5a29c2e2b0e95567aebbee0e415a71a133c8b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 14/25] fix: haversine: small separations no longer collapse to
 zero, antipodes stay in range

---
 src/pymap3d/haversine.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/haversine.py b/src/pymap3d/haversine.py
index 48a5ca6..3c877ed 100644
--- a/src/pymap3d/haversine.py
+++ b/src/pymap3d/haversine.py
@@ -18,7 +18,7 @@ try:
 except ImportError:
     pass
 
-from .mathfun import asin, cos, degrees, radians, sqrt
+from .mathfun import asin, cos, degrees, minimum, radians, sin, sqrt
 
 __all__ = ["anglesep", "anglesep_meeus", "haversine"]
 
@@ -65,9 +65,8 @@ def anglesep_meeus(
         lon1 = radians(lon1)
         lat1 = radians(lat1)
 
-    sep_rad = 2 * asin(
-        sqrt(haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1))
-    )
+    h = haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1)
+    sep_rad = 2 * asin(sqrt(minimum(h, 1.0)))  # rounding must not exceed 1 at antipodes
 
     return degrees(sep_rad) if deg else sep_rad
 
@@ -140,4 +139,4 @@ def haversine(theta: FloatLike):
     https://en.wikipedia.org/wiki/Haversine
     Meeus p. 111
     """
-    return (1 - cos(theta)) / 2.0
+    return sin(theta / 2) ** 2
-- 
2.43.0


From 96f8670f3f75aeb683c2475f9f4a43bfc5a6599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 15/25] fix: nvector2geodetic: keep full latitude precision
 near the poles

---
 src/pymap3d/nvector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 800fb05..6546fbc 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -66,7 +66,7 @@ def nvector2geodetic(n1: FloatLike, n2: FloatLike, n3: FloatLike, deg: bool = Tr
     """
 
     # Compute latitude and longitude from n-vector
-    lat = asin(n3)
+    lat = atan2(n3, sqrt(n1 * n1 + n2 * n2))  # accurate at the poles
     lon = atan2(n2, n1)
 
     if deg:
-- 
2.43.0


From bed71984bc6949708829625bcedb5fa3c7c45fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 16/25] fix: nvector_cross_track_distance: defined for points
 at the pole of the great circle

---
 src/pymap3d/nvector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 6546fbc..a06f701 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from .mathfun import acos, atan2, cos, degrees, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -285,7 +285,10 @@ def nvector_cross_track_distance(
     cx, cy, cz = _norm3(cx, cy, cz)
 
     # Signed angular distance from the great circle
-    return radius * asin(_dot3(cx, cy, cz, np_1, np_2, np_3))
+    sx, sy, sz = _cross3(cx, cy, cz, np_1, np_2, np_3)
+    return radius * atan2(
+        _dot3(cx, cy, cz, np_1, np_2, np_3), sqrt(sx * sx + sy * sy + sz * sz)
+    )
 
 
 def nvector_intersection(
-- 
2.43.0


From 2fd4ccbf9f6defa1cd3644634f67b00a8cf0eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 17/25] fix: vallado: directions at the zenith or celestial
 pole no longer raise or give NaN

---
 src/pymap3d/vallado.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index b397ac0..d9c6e41 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -12,7 +12,7 @@ from datetime import datetime
 
 from ._typing import FloatLike
 
-from .mathfun import asin, atan2, cos, degrees, radians, sin
+from .mathfun import atan2, cos, degrees, hypot, radians, sin
 from .sidereal import datetime2sidereal
 
 __all__ = ["azel2radec", "radec2azel"]
@@ -65,12 +65,13 @@ def azel2radec(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
     # %% Vallado "algorithm 28" p 268
-    dec = asin(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az))
+    #  (atan2 form: also defined where rounding takes the sine beyond 1)
+    y = -(sin(az) * cos(el))
+    x = sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az)
 
-    lha = atan2(
-        -(sin(az) * cos(el)) / cos(dec),
-        (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
-    )
+    dec = atan2(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az), hypot(x, y))
+
+    lha = atan2(y, x)
 
     lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
@@ -128,11 +129,11 @@ def radec2azel(
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-    el = asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha))
+    #  (atan2 form: also defined where rounding takes the sine beyond 1)
+    y = -sin(lha) * cos(dec)
+    x = sin(dec) * cos(lat) - cos(dec) * sin(lat) * cos(lha)
+    el = atan2(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha), hypot(x, y))
     # %% combine Eq. 4-13 and 4-14 p. 268
-    az = atan2(
-        -sin(lha) * cos(dec) / cos(el),
-        (sin(dec) - sin(el) * sin(lat)) / (cos(el) * cos(lat)),
-    )
+    az = atan2(y, x)
 
     return degrees(az) % 360.0, degrees(el)
-- 
2.43.0


From 9f1f0388084f577e72b838910705a7caf14aec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 18/25] fix: loxodrome_inverse: azimuth is wrapped in radians
 mode as in degrees mode

---
 src/pymap3d/lox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index bcecf54..024e6e6 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -171,8 +171,9 @@ def loxodrome_inverse(
         if i:
             dist = departure(lon2, lon1, lat1, ell, deg=False)
 
+    az12 = az12 % tau
     if deg:
-        az12 = degrees(az12) % 360.0
+        az12 = degrees(az12)
 
     try:
         return dist.squeeze()[()], az12.squeeze()[()]
-- 
2.43.0


From 904eabfed8dee9d3e436fcc5b750462cc066f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 19/25] fix: built-in sky coordinates use the built-in sidereal
 time (delta_ut1 was ignored with Astropy)

---
 src/pymap3d/vallado.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index d9c6e41..0de9b05 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -73,7 +73,7 @@ def azel2radec(
 
     lha = atan2(y, x)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
+    lst = datetime2sidereal(time, lon, True, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
     """ by definition right ascension [0, 360) degrees """
     return degrees(lst - lha) % 360, degrees(dec)
@@ -125,7 +125,7 @@ def radec2azel(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # RADIANS
+    lst = datetime2sidereal(time, lon, True, delta_ut1=delta_ut1)  # RADIANS
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-- 
2.43.0


From bfc3f3db16bcd04673ac7734c13789bb6223c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 20/25] fix: track2 recognises antipodal end points (asin lost
 half the digits near 1)

---
 src/pymap3d/vincenty.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index aa160e1..9c5432b 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -509,8 +509,11 @@ def track2(
         lat2 = radians(lat2)
         lon2 = radians(lon2)
 
-    gcarclen = 2.0 * asin(
-        sqrt((sin((lat1 - lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (sin((lon1 - lon2) / 2)) ** 2)
+    sdlon, cdlon = sin((lon1 - lon2) / 2), cos((lon1 - lon2) / 2)
+    # haversine as a ratio, accurate near the antipode as well
+    gcarclen = 2.0 * atan2(
+        sqrt((sin((lat1 - lat2) / 2) * cdlon) ** 2 + (cos((lat1 + lat2) / 2) * sdlon) ** 2),
+        sqrt((cos((lat1 - lat2) / 2) * cdlon) ** 2 + (sin((lat1 + lat2) / 2) * sdlon) ** 2),
     )
     # check to see if points are antipodal (if so, route is undefined).
     if abs(gcarclen - pi) < 1e-12:
-- 
2.43.0


From 827126ae46d64ceeb7502033228ea87c94198bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 21/25] fix: karney: tiny is the square root of the smallest
 float, not of the rounding unit (0.1 m at the poles)

---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index dfe7e71..fa141d7 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -23,7 +23,7 @@ from .mathfun import copysign, fmod, hypot, isnan, sqrt
 __all__ = ["geodesic_direct", "geodesic_inverse", "geodesic_line", "geodesic_area"]
 
 # --- Constants ---
-_tiny = sqrt(2.220446049250313e-16)
+_tiny = sqrt(2.2250738585072014e-308)
 _tol0 = 2.220446049250313e-16
 _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
-- 
2.43.0


From 0bb7fe1d7347abdb4d291f8e00e0941e8622ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:51 +0000
Subject: [PATCH 22/25] fix: karney: the second azimuth's cosine picks the
 well-conditioned difference (lost digits near the equator)

---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index fa141d7..bbda7b6 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -522,7 +522,7 @@ class _Geodesic:
         salp2 = salp0 / cbet2 if cbet2 != cbet1 else salp1
         calp2 = (
             sqrt((calp1 * cbet1) ** 2 +
-                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet2 != cbet1
+                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet1 < -sbet1
                   else (sbet1 - sbet2) * (sbet1 + sbet2))) / cbet2
             if cbet2 != cbet1 or abs(sbet2) != -sbet1
             else abs(calp1))
-- 
2.43.0


From e406e15034c050b8cb1c3199290003b59a4ba83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:05 +0000
Subject: [PATCH 23/25] fix: karney: inverse iteration keeps its bracket and
 converges (azimuths near the antipode)

---
 src/pymap3d/karney.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index bbda7b6..435c7a4 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -27,9 +27,10 @@ _tiny = sqrt(2.2250738585072014e-308)
 _tol0 = 2.220446049250313e-16
 _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
+_tolb = _tol0 * _tol2
 _xthresh = 1000 * _tol2
 _maxit1 = 20
-_maxit2 = _maxit1 + 10 + 1
+_maxit2 = _maxit1 + 53 + 10
 
 _nC1 = 6
 _nC1p = 6
@@ -668,7 +669,7 @@ class _Geodesic:
                 M12 = M21 = 1.0
                 a12 = math.degrees(sig12)
             else:
-                tripb = False
+                tripn = tripb = False
                 salp1a = _tiny
                 calp1a = 1.0
                 salp1b = _tiny
@@ -682,13 +683,13 @@ class _Geodesic:
                         salp1, calp1, slam12, clam12,
                         numit < _maxit1, C1a, C2a, C3a)
 
-                    if tripb or not (abs(v) >= (8 if numit < _maxit1 else 1) * _tol0):
+                    if tripb or not (abs(v) >= (8 if tripn else 1) * _tol0):
                         break
 
-                    if v > 0 and (numit < _maxit1 or calp1 / salp1 > calp1b / salp1b):
+                    if v > 0 and (numit > _maxit1 or calp1 / salp1 > calp1b / salp1b):
                         salp1b = salp1
                         calp1b = calp1
-                    elif v < 0 and (numit < _maxit1 or calp1 / salp1 < calp1a / salp1a):
+                    elif v < 0 and (numit > _maxit1 or calp1 / salp1 < calp1a / salp1a):
                         salp1a = salp1
                         calp1a = calp1
 
@@ -701,15 +702,15 @@ class _Geodesic:
                             calp1 = calp1 * cdalp1 - salp1 * sdalp1
                             salp1 = nsalp1
                             salp1, calp1 = _norm2(salp1, calp1)
-                            tripb = abs(v) <= 16 * _tol0
+                            tripn = abs(v) <= 16 * _tol0
                             continue
 
                     salp1 = (salp1a + salp1b) / 2.0
                     calp1 = (calp1a + calp1b) / 2.0
                     salp1, calp1 = _norm2(salp1, calp1)
-                    tripb = False
-                    if abs(salp1a - salp1b) < _tol0 and abs(calp1a - calp1b) < _tol0:
-                        break
+                    tripn = False
+                    tripb = (abs(salp1a - salp1) + (calp1a - calp1) < _tolb
+                             or abs(salp1 - salp1b) + (calp1 - calp1b) < _tolb)
 
                 s12x, m12x, _, M12, M21 = self._Lengths(
                     eps, sig12, ssig1, csig1, dn1, ssig2, csig2, dn2,
-- 
2.43.0


From 26f1e8d0ca5645d2ae30b84dd7437b5506b75e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 24/25] fix: vdist: a scalar pair that does not converge in 50
 iterations no longer raises UnboundLocalError

---
 src/pymap3d/vincenty.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 9c5432b..e3ff840 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -144,6 +144,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     itercount = 0
     warninggiven = False
     notdone = True
+    unconverged = True
     while notdone:  # force at least one execution
         itercount += 1
         if itercount > 50:
-- 
2.43.0


From f91f691f8a783e81b6d591e5b141499a621eb0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 25/25] fix: ECI and rhumb line results keep the input's shape
 (length-one axes were dropped; eci2aer of (n,1) arrays gave (n,n))

---
 src/pymap3d/eci.py | 36 ++++++++++++++++++------------------
 src/pymap3d/lox.py |  8 ++++----
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index a4e089f..7e166a0 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -397,9 +397,9 @@ def _apply_rotation(rotation, x, y, z):
     if "numpy" not in sys.modules:
         return matvec3(rotation, (x, y, z))
 
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
+    x = numpy.asarray(x)
+    y = numpy.asarray(y)
+    z = numpy.asarray(z)
     assert x.shape == y.shape == z.shape, (
         f"shape mismatch: x: {x.shape}  y: {y.shape}  z: {z.shape}"
     )
@@ -435,12 +435,12 @@ def _apply_state_rotation(
             rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse
         )
 
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
-    vx = numpy.atleast_1d(vx)
-    vy = numpy.atleast_1d(vy)
-    vz = numpy.atleast_1d(vz)
+    x = numpy.asarray(x)
+    y = numpy.asarray(y)
+    z = numpy.asarray(z)
+    vx = numpy.asarray(vx)
+    vy = numpy.asarray(vy)
+    vz = numpy.asarray(vz)
     assert x.shape == y.shape == z.shape == vx.shape == vy.shape == vz.shape, (
         "shape mismatch between position and velocity inputs"
     )
@@ -505,8 +505,8 @@ def _squeeze_xyz(x, y, z):
     """Preserve scalar inputs while supporting array outputs."""
 
     try:
-        return x.squeeze()[()], y.squeeze()[()], z.squeeze()[()]
-    except AttributeError:
+        return x[()], y[()], z[()]
+    except TypeError:
         return x, y, z
 
 
@@ -515,12 +515,12 @@ def _squeeze_state(x, y, z, vx, vy, vz):
 
     try:
         return (
-            x.squeeze()[()],
-            y.squeeze()[()],
-            z.squeeze()[()],
-            vx.squeeze()[()],
-            vy.squeeze()[()],
-            vz.squeeze()[()],
+            x[()],
+            y[()],
+            z[()],
+            vx[()],
+            vy[()],
+            vz[()],
         )
-    except AttributeError:
+    except TypeError:
         return x, y, z, vx, vy, vz
diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 024e6e6..921334a 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -176,8 +176,8 @@ def loxodrome_inverse(
         az12 = degrees(az12)
 
     try:
-        return dist.squeeze()[()], az12.squeeze()[()]
-    except AttributeError:
+        return dist[()], az12[()]
+    except TypeError:
         return dist, az12
 
 
@@ -264,8 +264,8 @@ def loxodrome_direct(
         lat2, lon2 = degrees(lat2), degrees(lon2)
 
     try:
-        return lat2.squeeze()[()], lon2.squeeze()[()]
-    except AttributeError:
+        return lat2[()], lon2[()]
+    except TypeError:
         return lat2, lon2
 
 
-- 
2.43.0

