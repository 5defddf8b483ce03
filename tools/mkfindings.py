#!/usr/bin/env python3
"""writes /verif/known_findings.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
    dict(id="C02-deep-space", property="C02", contract="deep_space", labels=["back-"],
         text="ecef2geodetic truncates (You 2000, eqn 13): converting back misses the point by 5 mm at 1000 km, 8 m at 10 000 km, 81 m at geostationary height "
              "(WGS-84, latitude 45); a Newton refinement repairs it but the stable test test_ellipsoid pins truncated values (io)"),
    dict(id="C26-io-kilometres", property="C26", contract="named", params="name=io", labels=["a-metres", "b-metres"], obligations=True,
         text="the named model 'io' has its radii in kilometres (1829.7, 1815.8) while every other model is in metres; pinned by the stable test test_ellipsoid"),
    dict(id="C25-area", property="C25", contract="area", labels=["area-"],
         text="geodesic_area's area is not the enclosed area: turning angles summed modulo 180 times the authalic radius squared "
              "(one-degree triangle: -2.55e14 m2 instead of 6.15e9 m2); the stable test test_karney pins a positive area for a clockwise "
              "triangle under the documented counter-clockwise-positive convention, so a correct area cannot pass it"),
]
X = """C19 57cd1ed look_at_spheroid computed the observer's Cartesian position on WGS-84 whatever ellipsoid was given
C28 57cd1ed same
C09 391c340 geodetic2eci ignored dut1/xp/yp
C10 94f5987 state arrays came back with the wrong shape
C30 ee86158 enu2aer modified the caller's arrays
C30 6c57286 vdist/vreckon modified the caller's arrays
C29 9345e0a vdist: one coincident pair in an array made the whole answer 0
C29 cbfa1cd vdist: one antipodal element in an array changed or broke the others
C29 7b28fa1 geodetic2conformal: pole element in an array raised or spoiled the result
C16 6d9281a geoc2geod: sign error
C29 8c7454f ecef2geodetic: latitude shape for size-one arrays
C32 08130a8 CLI: an option left out overrode the function's default
C32 4bf758f CLI: JSON of array results
C32 cdff4ac CLI: precision of nested results
C14 5a29c2e haversine: rounding above 1 made NaN / errors for antipodes
C20 96f8670 nvector2geodetic lost accuracy near the poles
C20 bed7198 nvector_cross_track_distance lost accuracy / NaN for tracks near 90 degrees
C13 2fd4ccb vallado: asin/acos forms lost the quadrant or produced NaN
C23 9f1f038 loxodrome_inverse wrapped a radians azimuth by 360
C13 904eabf force_non_astropy=True ignored delta_ut1 when Astropy is installed (took Astropy's sidereal time)
C24 827126a karney: points at a pole were off by up to 0.1 m (tiny was sqrt(eps))
C24 0bb7fe1 karney: geodesic_inverse lost digits for points near the equator (up to 1 mm on flat ellipsoids)
C24 e406e15 karney: geodesic_inverse did not converge for some antipodal pairs (azimuths wrong by up to 1e-5 degrees, metres on flat ellipsoids)
C29 f91f691 ECI and rhumb line functions dropped length-one axes; eci2aer of (n,1) arrays returned (n,n)
C21 26f1e8d vdist: a scalar pair that did not converge in 50 iterations raised UnboundLocalError (introduced by 9345e0a)
C22 bfc3f3d track2 missed a fifth of exactly antipodal end points""".splitlines()
json.dump({"findings": F, "fixed": [f"fixed: property={x}" for x in X]}, open(R + "/known_findings.json", "w"), indent=1)
