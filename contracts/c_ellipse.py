"""C15 closed-form auxiliary latitudes, C17 radii, C26 ellipsoids"""
from pyvc.contract import contract
from contracts.lib import DEG


def rad(M, x, deg):
    return M.rad(x) if deg else M.real(x)


def out(M, x, deg):
    return M.deg(x) if deg else M.real(x)


def ecc(M, I):
    a, b = I.ellab
    return M.sqrt(1 - (M.real(b) / M.real(a)) ** 2)


def tan_is(ck, M, label, ang, num, den, sn):
    """ang is the angle in [-90,90] with tangent num/den (den >= 0, num has the sign of the input's sine)"""
    ck.eq(label + "-tangent", M.sin(ang) * den, M.cos(ang) * num, tol=1e-14)
    ck.le(label + "-front", M.q(0), M.cos(ang), tol=1e-14)
    ck.le(label + "-sign", M.q(0), M.sin(ang) * sn, tol=1e-14)


@contract("C15", "geocentric", params=DEG)
def c15_geocentric(L, I, ck, M, deg):
    ell = I.ell(L)
    a, b = I.ellab
    lat, h = I.lat("lat", deg), I.alt("h", lo=0)
    N = M.real(a) ** 2 / M.sqrt(M.real(a) ** 2 * M.cos(rad(M, lat, deg)) ** 2 + M.real(b) ** 2 * M.sin(rad(M, lat, deg)) ** 2)
    t = rad(M, lat, deg)
    g = rad(M, L.latitude.geodetic2geocentric(lat, h, ell, deg=deg), deg)
    s = I.scale
    tan_is(ck, M, "geodetic2geocentric", g, (N * (M.real(b) / M.real(a)) ** 2 + h) * M.sin(t) / s, (N + h) * M.cos(t) / s, M.sin(t))
    # on the surface: there and back
    g0 = L.latitude.geodetic2geocentric(lat, 0, ell, deg=deg)
    ck.eq("surface-back", L.latitude.geocentric2geodetic(g0, 0, ell, deg=deg), lat, tol=1e-12)
    k = rad(M, L.latitude.geocentric2geodetic(lat, 0, ell, deg=deg), deg)
    tan_is(ck, M, "geocentric2geodetic", k, M.sin(t) * (M.real(a) / M.real(b)) ** 2, M.cos(t), M.sin(t))


@contract("C15", "parametric", params=DEG)
def c15_parametric(L, I, ck, M, deg):
    ell = I.ell(L)
    a, b = I.ellab
    lat = I.lat("lat", deg)
    t = rad(M, lat, deg)
    p = L.latitude.geodetic2parametric(lat, ell, deg=deg)
    tan_is(ck, M, "geodetic2parametric", rad(M, p, deg), M.real(b) / a * M.sin(t), M.cos(t), M.sin(t))
    ck.eq("back", L.latitude.parametric2geodetic(p, ell, deg=deg), lat, tol=1e-12)
    q = rad(M, L.latitude.parametric2geodetic(lat, ell, deg=deg), deg)
    tan_is(ck, M, "parametric2geodetic", q, M.sin(t) * M.real(a) / b, M.cos(t), M.sin(t))


@contract("C15", "isometric", params=DEG)
def c15_isometric(L, I, ck, M, deg):
    ell = I.ell(L)
    lat = I.lat("lat", deg)
    t = rad(M, lat, deg)
    I.require(M.cos(t) > M.q("1e-8"))
    e = ecc(M, I)
    want = M.asinh(M.sin(t) / M.cos(t)) - e * M.atanh(e * M.sin(t))
    ck.eq("definition", L.latitude.geodetic2isometric(lat, ell, deg=deg), out(M, want, deg), rel=1e-13, scale=1)


@contract("C15", "isometric_pole", params=DEG)
def c15_isopole(L, I, ck, M, deg):
    ell = I.ell(L)
    s = I.choice("sign", [1, -1])
    lat = s * (90.0 if deg else (M.pi / 2 if I.sym else float(M.pi) / 2))
    got = L.latitude.geodetic2isometric(lat, ell, deg=deg)
    ck.eq("pole", got, M.inf if s > 0 else -M.inf)


@contract("C15", "conformal", params=DEG)
def c15_conformal(L, I, ck, M, deg):
    ell = I.ell(L)
    lat = I.lat("lat", deg, open=True)
    t = rad(M, lat, deg)
    e = ecc(M, I)
    c = rad(M, L.latitude.geodetic2conformal(lat, ell, deg=deg), deg)
    # tan^2(pi/4 + c/2) = (1+sin t)/(1-sin t) * ((1-e sin t)/(1+e sin t))^e
    es = e * M.sin(t)
    w = M.exp(e * M.log((1 - es) / (1 + es))) if not I.sym else M.exp(e * (M.log(1 - es) - M.log(1 + es)))
    ck.eq("definition", (1 + M.sin(c)) * (1 - M.sin(t)), (1 - M.sin(c)) * (1 + M.sin(t)) * w, tol=1e-14)
    ck.le("range-hi", c, M.pi / 2, tol=1e-15)
    ck.le("range-lo", -M.pi / 2, c, tol=1e-15)


@contract("C15", "special_points", params=DEG)
def c15_special(L, I, ck, M, deg):
    """equator, poles"""
    ell = I.ell(L)
    F = L.latitude
    fs = {"geodetic2geocentric": lambda x: F.geodetic2geocentric(x, 0, ell, deg=deg), "geocentric2geodetic": lambda x: F.geocentric2geodetic(x, 0, ell, deg=deg),
          "geodetic2parametric": lambda x: F.geodetic2parametric(x, ell, deg=deg), "parametric2geodetic": lambda x: F.parametric2geodetic(x, ell, deg=deg),
          "geodetic2conformal": lambda x: F.geodetic2conformal(x, ell, deg=deg)}
    p = 90.0 if deg else (M.pi / 2 if I.sym else float(M.pi) / 2)
    for n, f in fs.items():
        ck.eq(n + "-equator", f(0.0), M.q(0), tol=1e-14)
        ck.eq(n + "-north", f(p), M.real(p), tol=1e-13 if n != "geodetic2conformal" else 1e-6)
        ck.eq(n + "-south", f(-p), -M.real(p), tol=1e-13 if n != "geodetic2conformal" else 1e-6)
    ck.eq("geodetic2isometric-equator", F.geodetic2isometric(0.0, ell, deg=deg), M.q(0), tol=1e-15)


@contract("C15", "odd", params=DEG)
def c15_odd(L, I, ck, M, deg):
    ell = I.ell(L)
    lat = I.lat("lat", deg, open=True)
    F = L.latitude
    for n, f in {"geocentric": lambda x: F.geodetic2geocentric(x, 0, ell, deg=deg), "parametric": lambda x: F.geodetic2parametric(x, ell, deg=deg),
                 "conformal": lambda x: F.geodetic2conformal(x, ell, deg=deg)}.items():
        u, v = f(lat), f(-lat)
        ck.eq(n, v, -M.real(u), tol=1e-6 if n == "conformal" else 1e-13)


@contract("C15", "sphere", params=DEG)
def c15_sphere(L, I, ck, M, deg):
    ell = I.ell(L, sphere=True)
    lat = I.lat("lat", deg)
    F = L.latitude
    ck.eq("geocentric", F.geodetic2geocentric(lat, 0, ell, deg=deg), lat, tol=1e-13)
    ck.eq("parametric", F.geodetic2parametric(lat, ell, deg=deg), lat, tol=1e-13)
    if I.sym:
        t = rad(M, lat, deg)
        ck.lemma("half-angle", "==", M.sqrt(1 + M.sin(t)) * M.sqrt(1 - M.sin(t)), M.cos(t))
    ck.eq("conformal", F.geodetic2conformal(lat, ell, deg=deg), lat, tol=1e-6)


# ------------------------------------------------------------------ C17
@contract("C17", "curvature", params=DEG)
def c17_curv(L, I, ck, M, deg):
    ell = I.ell(L)
    a, b = (M.real(v) for v in I.ellab)
    lat = I.lat("lat", deg)
    t = rad(M, lat, deg)
    D = M.sqrt(a ** 2 * M.cos(t) ** 2 + b ** 2 * M.sin(t) ** 2)
    N, R = a ** 2 / D, a ** 2 * b ** 2 / D ** 3
    C = L.rcurve
    n, r, p = C.transverse(lat, ell, deg=deg), C.meridian(lat, ell, deg=deg), C.parallel(lat, ell, deg=deg)
    ck.eq("transverse", n, N, rel=1e-14)
    ck.eq("meridian", r, R, rel=1e-14)
    ck.eq("parallel", p, N * M.cos(t), rel=1e-14, scale=I.scale)
    x, y, z = L.ecef.geodetic2ecef(lat, 0, 0, ell, deg=deg)
    ck.eq("parallel=axis-distance", p, x, rel=1e-14, scale=I.scale)
    ck.eq("geocentric", M.real(C.geocentric_radius(lat, ell, deg=deg)) ** 2, M.real(x) ** 2 + M.real(y) ** 2 + M.real(z) ** 2, rel=1e-13)
    ck.lt("geocentric>0", M.q(0), C.geocentric_radius(lat, ell, deg=deg))
    ck.le("meridian<=transverse", r, n, tol=1e-14 * float(a) if not I.sym else 0)
    ck.eq("mean", L.rsphere.curve(lat, ell, deg=deg, method="mean"), (N + R) / 2, rel=1e-14)
    ck.eq("gaussian", L.rsphere.curve(lat, ell, deg=deg, method="norm"), M.sqrt(N * R), rel=1e-14)
    ck.raises("curve-method", ValueError, lambda: L.rsphere.curve(lat, ell, deg=deg, method=I.choice("method", ["foo", "", "MEAN"])))


@contract("C17", "poles", params=DEG)
def c17_pole(L, I, ck, M, deg):
    ell = I.ell(L)
    a, b = (M.real(v) for v in I.ellab)
    s = I.choice("sign", [1, -1])
    lat = s * (90.0 if deg else (M.pi / 2 if I.sym else float(M.pi) / 2))
    C = L.rcurve
    ck.eq("transverse", C.transverse(lat, ell, deg=deg), a ** 2 / b, rel=1e-14)
    ck.eq("meridian", C.meridian(lat, ell, deg=deg), a ** 2 / b, rel=1e-14)
    ck.eq("parallel", C.parallel(lat, ell, deg=deg), M.q(0), rel=1e-14, scale=I.scale)
    ck.eq("geocentric", C.geocentric_radius(lat, ell, deg=deg), b, rel=1e-14)


@contract("C17", "mean_radii")
def c17_mean(L, I, ck, M):
    ell = I.ell(L)
    a, b = (M.real(v) for v in I.ellab)
    S = L.rsphere
    rs = {"biaxial": S.biaxial(ell, "mean"), "biaxial-norm": S.biaxial(ell, "norm"), "triaxial": S.triaxial(ell, "mean"), "triaxial-norm": S.triaxial(ell, "norm"),
          "rectifying": S.rectifying(ell)}
    ck.eq("biaxial-mean", rs["biaxial"], (a + b) / 2, rel=1e-14)
    ck.eq("biaxial-norm", rs["biaxial-norm"], M.sqrt(a * b), rel=1e-14)
    ck.eq("triaxial-mean", rs["triaxial"], (2 * a + b) / 3, rel=1e-14)
    ck.eq("triaxial-norm", M.real(rs["triaxial-norm"]) ** 3, a ** 2 * b, rel=1e-13)
    # rectifying radius: mean of the 3/2 powers
    ck.eq("rectifying", M.real(rs["rectifying"]) ** 3, ((M.sqrt(a) ** 3 + M.sqrt(b) ** 3) / 2) ** 2, rel=1e-13)
    for n, r in rs.items():
        ck.le(n + ">=b", b, r, tol=1e-14 * float(a) if not I.sym else 0)
        ck.le(n + "<=a", r, a, tol=1e-14 * float(a) if not I.sym else 0)
    # equal volume: a^2 b = r^3 up to the cube of the flattening
    f = (a - b) / a
    r = M.real(S.eqavol(ell)) / a
    ck.le("eqavol-low", 1 - f, r ** 3, tol=1e-14)
    ck.le("eqavol-high", r ** 3, 1 - f + f ** 3 / 3, tol=1e-14)
    ck.le("eqavol-b", b, a * r, tol=1e-14 * float(a) if not I.sym else 0)
    ck.le("eqavol-a", r, M.q(1), tol=1e-14)


@contract("C17", "methods")
def c17_methods(L, I, ck, M):
    ell = I.ell(L)
    m = I.choice("method", ["foo", "", "MEAN"])
    ck.raises("triaxial", ValueError, lambda: L.rsphere.triaxial(ell, m))
    ck.raises("biaxial", ValueError, lambda: L.rsphere.biaxial(ell, m))


@contract("C17", "authalic_radius")
def c17_auth(L, I, ck, M):
    """4 pi r^2 is the surface area"""
    ell = I.ell(L)
    a, b = (M.real(v) for v in I.ellab)
    e = M.sqrt(1 - (b / a) ** 2)
    if I.sym and a > b:
        ck.lemma("e>0", "<", M.q(0), e)
        ck.lemma("e<1", "<", e, M.q(1))
        ck.lemma("log(1+e)>0", "<", M.q(0), M.log(1 + e))
        ck.lemma("log(1-e)<0", "<", M.log(1 - e), M.q(0))
        w = b ** 2 / e * M.log(1 + e)
        ck.lemma("u>0", "<", M.q(0), w)
        v = -b ** 2 / e * M.log(1 - e)
        ck.lemma("v>0", "<", M.q(0), v)
        ck.lemma_sum("area>0", a ** 2 / 2 + b ** 2 / (4 * e) * (M.log(1 + e) - M.log(1 - e)), [a ** 2 / 2, w / 4, v / 4])
    r = L.rsphere.authalic(ell)
    if a > b:
        area = a ** 2 / 2 + b ** 2 / (4 * e) * (M.log(1 + e) - M.log(1 - e))
        ck.eq("area", M.real(r) ** 2, area, rel=1e-11)
        if not I.sym:
            ck.le(">=b", b, r, tol=1e-14 * float(a))
            ck.le("<=a", r, a, tol=1e-14 * float(a))
    else:
        ck.eq("sphere", r, a)
    ck.lt("positive", M.q(0), r)


@contract("C17", "sphere")
def c17_sphere(L, I, ck, M):
    ell = I.ell(L, sphere=True)
    a = M.real(I.ellab[0])
    lat = I.lat("lat")
    S = L.rsphere
    for n, r in {"biaxial": S.biaxial(ell), "biaxial-norm": S.biaxial(ell, "norm"), "triaxial": S.triaxial(ell), "triaxial-norm": S.triaxial(ell, "norm"),
                 "rectifying": S.rectifying(ell), "authalic": S.authalic(ell), "eqavol": S.eqavol(ell), "curve": S.curve(lat, ell), "curve-norm": S.curve(lat, ell, method="norm"),
                 "transverse": L.rcurve.transverse(lat, ell), "meridian": L.rcurve.meridian(lat, ell), "geocentric": L.rcurve.geocentric_radius(lat, ell)}.items():
        ck.eq(n, r, a, rel=1e-14)


@contract("C17", "euler", params=DEG, stubs=("vincenty.vdist",))
def c17_euler(L, I, ck, M, deg):
    """1/r = cos^2(az)/meridian + sin^2(az)/transverse at the middle latitude, az the azimuth of the geodesic"""
    ell = I.ell(L, eccmax=0.02)
    if I.sym:
        m, w = I.lat("m", deg), I.angle("w", deg)
        lat1, lat2 = m + w, m - w
    else:
        lat1, lat2 = I.lat("lat1", deg), I.lat("lat2", deg)
    lon1, lon2 = I.lon("lon1", deg), I.lon("lon2", deg)
    if not I.sym:
        from contracts.lib import apart
        I.require(apart(lat1, lon1, lat2, lon2, deg))
    az = rad(M, L.vincenty.vdist(lat1, lon1, lat2, lon2, ell, deg=deg)[1], deg)
    mid = (M.real(lat1) + M.real(lat2)) / 2
    if not I.sym:
        mid = float(mid)
    R, N = M.real(L.rcurve.meridian(mid, ell, deg=deg)), M.real(L.rcurve.transverse(mid, ell, deg=deg))
    if I.sym:
        ck.lemma("meridian<=transverse", "<=", R, N)
        ck.lemma_sum("denominator", M.cos(az) ** 2 * N + M.sin(az) ** 2 * R, [R, (N - R) * M.cos(az) ** 2])
    r = M.real(L.rsphere.euler(lat1, lon1, lat2, lon2, ell, deg=deg))
    ck.eq("euler", r * (M.cos(az) ** 2 * N + M.sin(az) ** 2 * R), N * R, rel=1e-9, scale=I.scale ** 2)


# ------------------------------------------------------------------ C26
@contract("C26", "parameters")
def c26_par(L, I, ck, M):
    ell = I.ell(L)
    a, b = (M.real(v) for v in I.ellab)
    f = (a - b) / a
    ck.eq("a", ell.semimajor_axis, a)
    ck.eq("b", ell.semiminor_axis, b)
    ck.eq("flattening", ell.flattening, f, tol=1e-15)
    ck.eq("thirdflattening", ell.thirdflattening, (a - b) / (a + b), tol=1e-15)
    ck.eq("eccentricity", ell.eccentricity, M.sqrt(2 * f - f ** 2), tol=1e-14)
    ck.le("f>=0", M.q(0), ell.flattening)


@contract("C26", "prolate")
def c26_prolate(L, I, ck, M):
    if I.sym:
        a, b = I.real("a", 0.001, 1e9), I.real("b", 0.001, 1e9)
    else:
        a = 10 ** I.real("la", 0, 8)
        b = a * (1 + 10 ** I.real("lb", -9, 0))
    I.require(b > a)
    ck.raises("b>a", (AssertionError, ValueError), lambda: L.ellipsoid.Ellipsoid(a, b))


@contract("C26", "explicit_parameters")
def c26_explicit(L, I, ck, M):
    """keyword parameters given by the caller are kept"""
    a, b = 10.0, 9.0
    f, n, e = I.real("f", 0.0, 0.5), I.real("n", 0.0, 0.5), I.real("e", 0.0, 0.9)
    x = L.ellipsoid.Ellipsoid(a, b, name="x", model="m", flattening=f, thirdflattening=n, eccentricity=e)
    ck.eq("f", x.flattening, f)
    ck.eq("n", x.thirdflattening, n)
    ck.eq("e", x.eccentricity, e)
    ck.true("name", x.name == "x" and x.model == "m")


NAMED = "maupertuis plessis everest1830 everest1830m everest1967 airy bessel clarke1866 clarke1878 clarke1860 helmert hayford international1924 krassovsky1940 wgs66 australian international1967 grs67 sa1969 wgs72 grs80 wgs84 wgs84_mean iers1989 pz90.11 iers2003 gsk2011 mercury venus moon mars jupiter io saturn uranus neptune pluto jupyter".split()
# published radii in metres (a, b); 'io' is stored in kilometres (known finding)
RADII = {"wgs84": (6378137.0, 6356752.31424518), "grs80": (6378137.0, 6356752.31414036), "clarke1866": (6378206.4, 6356583.8), "bessel": (6377397.155, 6356078.963),
         "airy": (6377563.396, 6356256.909), "krassovsky1940": (6378245.0, 6356863.019), "wgs72": (6378135.0, 6356750.52001609), "hayford": (6378388.0, 6356911.946),
         "international1924": (6378388.0, 6356911.946), "iers2003": (6378136.6, 6356751.9), "iers1989": (6378136.0, 6356751.302), "pz90.11": (6378136.0, 6356751.3618),
         "gsk2011": (6378136.5, 6356751.758), "wgs66": (6378145.0, 6356759.769), "helmert": (6378200.0, 6356818.17), "grs67": (6378160.0, 6356774.516),
         "sa1969": (6378160.0, 6356774.719), "australian": (6378160.0, 6356774.719), "everest1830": (6377299.365, 6356098.359), "everest1830m": (6377304.063, 6356103.039),
         "everest1967": (6377298.556, 6356097.55), "clarke1860": (6378249.145, 6356514.87), "clarke1878": (6378190.0, 6356456.0), "maupertuis": (6397300.0, 6363806.283),
         "plessis": (6376523.0, 6355862.9333), "international1967": (6378157.5, 6356772.2), "wgs84_mean": (6371008.7714, 6371008.7714),
         "mercury": (2440500.0, 2438300.0), "venus": (6051800.0, 6051800.0), "moon": (1738100.0, 1736000.0), "mars": (3396900.0, 3376097.80585952),
         "jupiter": (71492000.0, 66770054.3475922), "jupyter": (71492000.0, 66770054.3475922), "io": (1829700.0, 1815800.0), "saturn": (60268000.0, 54364301.5271271),
         "uranus": (25559000.0, 24973000.0), "neptune": (24764000.0, 24341000.0), "pluto": (1188000.0, 1188000.0)}


@contract("C26", "named", params=[{"name": n} for n in NAMED], fixed_n=1)
def c26_named(L, I, ck, M, name):
    """every named model: published radii, consistent parameters (finite table, decided completely)"""
    e = L.ellipsoid.Ellipsoid.from_name(name)
    a, b = M.real(e.semimajor_axis), M.real(e.semiminor_axis)
    ck.le("b<=a", b, a)
    ck.lt("b>0", M.q(0), b)
    f = (a - b) / a
    ck.eq("flattening", e.flattening, f, tol=1e-15)
    ck.eq("thirdflattening", e.thirdflattening, (a - b) / (a + b), tol=1e-15)
    ck.eq("eccentricity", e.eccentricity, M.sqrt(2 * f - f ** 2), tol=1e-14)
    ck.eq("a-metres", a, M.q(repr(RADII[name][0])), rel=1e-12)
    ck.eq("b-metres", b, M.q(repr(RADII[name][1])), rel=1e-12)
    if name == "io":      # known finding (kilometres): any other value is a new violation
        ck.true("io-value", any(abs(float(e.semimajor_axis) / u - 1829700) < 1e-6 and abs(float(e.semiminor_axis) / u - 1815800) < 1e-6 for u in (1, 0.001)))
    ck.true("model", e.model == name)
    ck.true("name", e.name == L.ellipsoid.Ellipsoid.models[name]["name"])


@contract("C26", "lookups")
def c26_lookup(L, I, ck, M):
    """any order of lookups and cache clearing gives equal parameters"""
    E = L.ellipsoid
    names = [I.choice(f"n{i}", NAMED if not I.sym else ["wgs84", "moon", "mars"]) for i in range(3 if I.sym else 6)]
    clear = [I.choice(f"c{i}", [False, True]) for i in range(len(names))]
    first = {}
    for n, c in zip(names, clear):
        e = E.Ellipsoid.from_name(n)
        m = E.Ellipsoid.models[n]
        ck.eq("a", e.semimajor_axis, m["a"])
        ck.eq("b", e.semiminor_axis, m["b"])
        t = (e.semimajor_axis, e.semiminor_axis, e.flattening, e.thirdflattening, e.eccentricity)
        if n in first:
            ck.eq("same", t, first[n])
            ck.true("equal", e == E.Ellipsoid.from_name(n))
        first[n] = t
        if c:
            E.clear_ellipsoid_caches()
    d = E.resolve_ellipsoid(None)
    ck.eq("default-a", d.semimajor_axis, M.q(6378137))
    ck.eq("default-1/f", 1 / M.real(d.flattening), M.q("298.257223563"), tol=1e-8) if not I.sym else ck.eq("default-b", d.semiminor_axis, M.q("6356752.31424518"))
    k = I.ell(L)
    ck.true("resolve-identity", E.resolve_ellipsoid(k) is k)
    ck.raises("unknown", KeyError, lambda: E.Ellipsoid.from_name("no such body"))
