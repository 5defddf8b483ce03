BUGS = [
 dict(id="b01_near_pole_collapse", prop="C01", file="ecef.py", edits=[("    N = ell.semimajor_axis**2 / hypot(", "    # exact zero at the poles instead of 6e-17\n    lat = lat * 1.0\n    if isinstance(lat, float) and abs(cos(lat)) < 1e-7:\n        lat = pi / 2 if lat > 0 else -pi / 2\n    N = ell.semimajor_axis**2 / hypot(")],
      needs="a scalar latitude within 6e-6 degrees (0.6 m) of a pole", breaks="points near the pole collapse onto the axis",
      demo='''from pymap3d import geodetic2ecef
x, y, z = geodetic2ecef(89.999995, 0.0, 0.0)
sys.exit(0 if abs(x - 0.5585) < 0.01 else 1)
'''),
 dict(id="b02_axis_tolerance", prop="C02", file="ecef.py", edits=[("isclose(hxy, 0)", "isclose(hxy, 0, atol=0.25)")],
      needs="array input with a point within 25 cm of the polar axis but not on it", breaks="latitude snapped to the pole",
      demo='''import numpy as np
from pymap3d import geodetic2ecef, ecef2geodetic
x, y, z = geodetic2ecef(89.999999, 10.0, 2000.0)
x2, y2, z2 = geodetic2ecef(*(float(v[0]) for v in ecef2geodetic(np.array([x]), np.array([y]), np.array([z]))))
sys.exit(0 if math.dist((x, y, z), (x2, y2, z2)) < 1e-3 else 1)
'''),
 dict(id="b03_relative_trim", prop="C06", file="enu.py", edits=[("return tuple(0.0 if abs(v) < threshold else float(v) for v in values)", "# trim what is negligible against the largest component\n        big = max(1.0, *(abs(v) for v in values))\n        return tuple(0.0 if abs(v) < threshold * big else float(v) for v in values)")],
      needs="scalar vector with one component under a thousandth of the largest", breaks="azimuth/elevation/range of elongated vectors",
      demo='''from pymap3d.enu import enu2aer
az, el, r = enu2aer(1.0e5, 80.0, 0.0)
sys.exit(0 if abs(az - math.degrees(math.atan2(1e5, 80.0))) < 1e-9 else 1)
'''),
 dict(id="b04_dca_heading_wrap", prop="C07", file="dca.py", edits=[("    e = dr * sin(heading) - cr * cos(heading)", "    if deg is False:\n        heading = heading % 3.14159265358979\n    e = dr * sin(heading) - cr * cos(heading)")],
      needs="radian mode and a heading outside [0, pi)", breaks="downrange/crossrange for westward headings",
      demo='''from pymap3d.dca import dca2enu
e, n, u = dca2enu(100.0, 0.0, 5.0, -math.pi / 2, deg=False)
sys.exit(0 if abs(e + 100) < 1e-9 else 1)
'''),
 dict(id="b05_sez_velocity", prop="C05", file="sez.py", edits=[("    e, n, u = ecef2enuv(x, y, z, lat0, lon0, deg=deg)\n    return -n, e, u", "    e, n, u = ecef2enuv(x, y, z, lat0, lon0 if deg else lon0 % 6.283185, deg=deg)\n    return -n, e, u")],
      needs="radian mode, negative or large longitude", breaks="SEZ vector components disagree with ENU by the truncated 2*pi",
      demo='''from pymap3d.sez import ecef2sezv
from pymap3d.enu import enu2ecefv
from pymap3d.ecef import ecef2enuv
s, e, z = ecef2sezv(7000.0, 100.0, 3000.0, 0.5, -1.0, deg=False)
E, N, U = ecef2enuv(7000.0, 100.0, 3000.0, 0.5, -1.0, deg=False)
sys.exit(0 if abs(s + N) < 1e-9 and abs(e - E) < 1e-9 else 1)
'''),
 dict(id="b06_body_nwu_frame", prop="C08", file="body.py", edits=[("        n, w, u = body2nwu(xb, yb, zb, yaw, pitch, roll, sequence=sequence, deg=deg)\n        return nwu2geodetic(n, w, u, lat0, lon0, h0, ell, deg=deg)", "        n, w, u = body2nwu(xb, yb, zb, yaw, pitch, roll, sequence=sequence, deg=deg)\n        return nwu2geodetic(n, w, u, lat0, lon0, h0, deg=deg)")],
      needs="body2geodetic with frame='nwu' and a non-default ellipsoid", breaks="ellipsoid ignored in one frame",
      demo='''from pymap3d.body import body2geodetic
from pymap3d.ellipsoid import Ellipsoid
k = Ellipsoid.from_name("moon")
a = body2geodetic(10.0, 20.0, 30.0, 40.0, 50.0, 100.0, 10.0, 20.0, 30.0, k, frame="nwu")
b = body2geodetic(10.0, 20.0, 30.0, 40.0, 50.0, 100.0, 10.0, 20.0, 30.0, k, frame="ned")
sys.exit(0 if max(abs(p - q) for p, q in zip(a, b)) < 1e-6 else 1)
'''),
 dict(id="b07_conformal_south", prop="C15", file="latitude.py", edits=[("sqrt(f4 * f1**e), sqrt(f3 * f2**e)", "sqrt(f4 * f1**e), sqrt(f3 * abs(f2) ** min(e, 0.25))")],
      needs="an ellipsoid with eccentricity above 0.25 (Jupiter, Saturn)", breaks="conformal latitude on strongly flattened planets",
      demo='''from pymap3d.latitude import geodetic2conformal
from pymap3d.ellipsoid import Ellipsoid
k = Ellipsoid.from_name("jupiter")
a = geodetic2conformal(45.0, k)
e = k.eccentricity; p = math.radians(45)
w = 2 * math.atan(math.tan(math.pi/4 + p/2) * ((1 - e*math.sin(p)) / (1 + e*math.sin(p))) ** (e/2)) - math.pi/2
sys.exit(0 if abs(math.radians(a) - w) < 1e-12 else 1)
'''),
 dict(id="b08_euler_azimuth", prop="C17", file="rsphere.py", edits=[("latmid = lat1 + (lat2 - lat1) / 2", "latmid = abs(lat1) + (abs(lat2) - abs(lat1)) / 2")],
      needs="the two points on different hemispheres", breaks="Euler radius taken at the wrong latitude",
      demo='''from pymap3d.rsphere import euler
a, b = euler(-40.0, 0.0, 40.0, 5.0), euler(-1.0, 0.0, 1.0, 0.125)
sys.exit(0 if abs(a - b) < 2000 else 1)
'''),
 dict(id="b09_spherical_far", prop="C18", file="spherical.py", edits=[("    hypotDZ = hypot(D, Z)", "    hypotDZ = hypot(D, Z) if ell.flattening < 0.05 else hypot(D, Z) * (1 + ell.eccentricity**8 * sinlat**2)")],
      needs="an ellipsoid flattened much more than the Earth", breaks="height and latitude on strongly flattened planets",
      demo='''from pymap3d.spherical import spherical2geodetic, geodetic2spherical
from pymap3d.ellipsoid import Ellipsoid
k = Ellipsoid.from_name("saturn")
g = spherical2geodetic(*geodetic2spherical(45.0, 10.0, 300.0, k), k)
sys.exit(0 if abs(g[2] - 300) < 1e-3 and abs(g[0] - 45) < 1e-9 else 1)
'''),
 dict(id="b10_utils_el", prop="C33", file="utils.py", edits=[("    el = atan2(z, hxy)", "    el = atan2(z, hxy) if hxy > 1e-3 * abs(z) else copysign_half_pi(z)"), ("def cart2sph(", "def copysign_half_pi(z):\n    return 1.5707963267948966 if z > 0 else -1.5707963267948966\n\n\ndef cart2sph(")],
      needs="a direction within 0.06 degrees of the polar axis", breaks="elevation snapped to the pole",
      demo='''from pymap3d.utils import cart2sph
az, el, r = cart2sph(0.5, 0.0, 1000.0)
sys.exit(0 if abs(el - math.atan2(1000.0, 0.5)) < 1e-12 else 1)
'''),
 dict(id="b11_haversine_lon", prop="C14", file="haversine.py", edits=[("h = haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1)", "h = haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine((lon0 - lon1) % 6.2831853)")],
      needs="a negative longitude difference", breaks="separation off by a few nanoradians times the slope (1.7 cm at Earth radius) when lon0 < lon1",
      demo='''from pymap3d.haversine import anglesep_meeus
a = anglesep_meeus(0.0, 0.0, 1e-6, 0.0)
sys.exit(0 if abs(a - 1e-6) < 1e-12 else 1)
'''),
 dict(id="b12_gsk2011_digits", prop="C26", file="ellipsoid.py", edits=[("6356751.758", "6356751.785")],
      needs="the gsk2011 model", breaks="published semiminor axis (transposed digits)",
      demo='''from pymap3d.ellipsoid import Ellipsoid
sys.exit(0 if abs(1 / Ellipsoid.from_name("gsk2011").flattening - 298.2564151) < 1e-5 else 1)
'''),
]
