"""C02 ecef2geodetic, C18 spherical, C33 polar/spherical helpers"""
from pyvc.contract import contract
from contracts.lib import DEG


def wrapped(ck, M, label, got, want, deg, tol=1e-11):
    ck.mod(label, got, want, (M.q(360) if deg else 2 * M.pi), tol=tol)


def nrm(M, lat, lon, deg):
    if deg:
        lat, lon = M.rad(lat), M.rad(lon)
    return M.cos(lat) * M.cos(lon), M.cos(lat) * M.sin(lon), M.sin(lat)


def ranges(ck, M, lat, lon, deg):
    h = 90 if deg else M.pi / 2
    f = 180 if deg else M.pi
    ck.le("lat<=90", lat, h, tol=1e-13)
    ck.le("lat>=-90", -M.real(h), lat, tol=1e-13)
    ck.le("lon<=180", lon, f, tol=1e-13)
    (ck.lt if ck.sym else ck.le)("lon>-180", -M.real(f), lon, tol=1e-13)


@contract("C02", "polar_axis", params=DEG)
def c02_axis(L, I, ck, M, deg):
    """on the polar axis outside the body's core: exact"""
    ell = I.ell(L)
    a, b = I.ellab
    z = I.real("z", -4e7, 4e7)
    I.require(abs(z) > (1 if I.sym else I.scale * 0.9))
    lat, lon, alt = L.ecef.ecef2geodetic(0.0, 0.0, z, ell, deg=deg)
    s = 1 if z > 0 else -1
    ck.eq("lat", lat, s * (90 if deg else M.pi / 2))
    ck.eq("alt", alt, M.abs(z) - b, scale=I.scale)
    ranges(ck, M, lat, lon, deg)


@contract("C02", "equator", params=DEG)
def c02_equator(L, I, ck, M, deg):
    """in the equatorial plane (outside the focal disc): latitude 0, height = distance - a, exact"""
    ell = I.ell(L)
    a, b = I.ellab
    x, y = I.length("x", 4e7), I.length("y", 4e7)
    r2 = M.real(x) ** 2 + M.real(y) ** 2
    I.require(r2 > a ** 2 * M.q("0.95") ** 2 if not I.sym else bool(r2 > a ** 2 - b ** 2 + 1))
    lat, lon, alt = L.ecef.ecef2geodetic(x, y, 0.0, ell, deg=deg)
    ck.eq("lat", lat, M.q(0))
    ck.eq("alt", alt, M.sqrt(r2) - a, rel=1e-15, scale=I.scale)
    k = M.rad(lon) if deg else M.real(lon)
    ck.eq("lon-x", M.sqrt(r2) * M.cos(k), x, scale=I.scale)
    ck.eq("lon-y", M.sqrt(r2) * M.sin(k), y, scale=I.scale)
    ranges(ck, M, lat, lon, deg)


@contract("C02", "sphere", params=DEG)
def c02_sphere(L, I, ck, M, deg):
    """exact for every point of space when the ellipsoid is a sphere"""
    ell = I.ell(L, sphere=True)
    a, b = I.ellab
    r, be, lo = I.real("r", 0.01, 1e8), I.lat("beta", False, open=True), I.lon("lam", False)
    x, y, z = (M.real(r) * M.cos(be) * M.cos(lo), M.real(r) * M.cos(be) * M.sin(lo), M.real(r) * M.sin(be))
    if not I.sym:
        x, y, z = float(x), float(y), float(z)
        I.require(r > 0.2 * a and x * x + y * y > 1e-3)
    lat, lon, alt = L.ecef.ecef2geodetic(x, y, z, ell, deg=deg)
    n = nrm(M, lat, lon, deg)
    for i, v in enumerate((x, y, z)):
        ck.eq("back" + "xyz"[i], (a + M.real(alt)) * n[i], v, rel=1e-14, scale=I.scale if I.sym else max(a, float(r)))
    ranges(ck, M, lat, lon, deg)


@contract("C02", "surface", params=DEG)
def c02_surface(L, I, ck, M, deg):
    """every point of the surface, given by its parametric latitude: exact"""
    ell = I.ell(L)
    a, b = I.ellab
    be, lo = I.lat("beta", False, open=True), I.lon("lam", False)
    x, y, z = (a * M.cos(be) * M.cos(lo), a * M.cos(be) * M.sin(lo), b * M.sin(be))
    if not I.sym:
        x, y, z = float(x), float(y), float(z)
    I.require(x ** 2 + y ** 2 > 1e-12 if not I.sym else True)
    lat, lon, alt = L.ecef.ecef2geodetic(x, y, z, ell, deg=deg)
    ck.eq("alt", alt, M.q(0), rel=4e-15, scale=I.scale)
    n = nrm(M, lat, lon, deg)
    # the normal is parallel to the gradient (x/a^2, y/a^2, z/b^2) and points outwards
    g = (M.cos(be) * M.cos(lo) / a, M.cos(be) * M.sin(lo) / a, M.sin(be) / b)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        ck.eq(f"normal{i}{j}", (g[i] * n[j] - g[j] * n[i]) * a, M.q(0), tol=1e-13)
    ck.lt("outward", M.q(0), (g[0] * n[0] + g[1] * n[1] + g[2] * n[2]) * a)
    ranges(ck, M, lat, lon, deg)


@contract("C02", "roundtrip", mode="bounded", params=DEG, weight=6)
def c02_roundtrip(L, I, ck, M, deg):
    """bounded: back through geodetic2ecef within the truncation error of the closed form (a micron near the
    surface, 0.7 mm at 500 km above the Earth, see the deep_space contract beyond), |lat| <= 90, sign of height"""
    ell = I.ell(L, eccmax=0.1)
    a, b = I.ellab
    x, y, z = draw_point(I, a, b)
    lat, lon, alt = L.ecef.ecef2geodetic(x, y, z, ell, deg=deg)
    x2, y2, z2 = L.ecef.geodetic2ecef(lat, lon, alt, ell, deg=deg)
    tol = trunc(a, b, (x * x + y * y + z * z) ** 0.5)
    for n_, p, q in (("x", x2, x), ("y", y2, y), ("z", z2, z)):
        ck.eq("back-" + n_, p, q, tol=tol)
    ranges(ck, M, lat, lon, deg)
    s = x * x / a / a + y * y / a / a + z * z / b / b
    if abs(s - 1) > 1e-9:
        ck.true("height-sign", (alt < 0) == (s < 1))


@contract("C02", "forward_back", mode="bounded", params=DEG, weight=4)
def c02_fb(L, I, ck, M, deg):
    """bounded: geodetic -> ECEF -> geodetic"""
    ell = I.ell(L, eccmax=0.1)
    a, b = I.ellab
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h", lo=-5e4)
    p = L.ecef.geodetic2ecef(lat, lon, h, ell, deg=deg)
    la, lo, al = L.ecef.ecef2geodetic(*p, ell, deg=deg)
    k = 1 if deg else M.pi / 180
    r = a + abs(h)
    ck.eq("alt", al, h, tol=trunc(a, b, r))
    ck.eq("lat", la, lat, tol=trunc(a, b, r) / r * 57.3 * k)
    c = M.cos(M.rad(lat) if deg else lat)
    if c > 1e-6:
        wrapped(ck, M, "lon", lo, lon, deg, tol=1e-9 * k / float(c))


def trunc(a, b, r):
    """truncation error of the closed form (You 2000, eqn 13): 0.08 e^4 (1-a/r)^4 r, doubled, plus rounding"""
    e4 = (1 - (b / a) ** 2) ** 2
    return 0.16 * e4 * (abs(1 - a / r) + 2 * (1 - b / a)) ** 4 * r + 1e-13 * max(a, r)


@contract("C02", "deep_space", mode="bounded", points=[{"h": h} for h in (1e6, 1e7, 3.6e7, 4e8)], fixed_n=8)
def c02_deep(L, I, ck, M):
    """WGS-84, heights far above the ellipsoid: a millimetre per Earth radius of distance"""
    h = I.real("h", 1e6, 4e8)
    x, y, z = L.ecef.geodetic2ecef(45.0, 10.0, h)
    p = L.ecef.geodetic2ecef(*L.ecef.ecef2geodetic(x, y, z))
    for n_, u, v in zip("xyz", p, (x, y, z)):
        ck.eq("back-" + n_, u, v, tol=1e-3 * max(1.0, (6378137 + h) / 6378137))


def draw_point(I, a, b):
    """positions from 50 km below the surface to deep space, special rays included"""
    k = I.choice("where", ["shell", "shell", "axis", "equator", "near-axis", "near-equator", "deep-space", "below"])
    la, lo = I.lat("plat", False), I.lon("plon", False)
    import math
    f = {"shell": I.real("f", 1.0, 1.1), "deep-space": 10 ** I.real("lf", 0.0, 3.0), "below": I.real("fb", 0.9925, 1.0)}.get(k, 1 + 0.05 * I.real("g", 0.0, 4.0))
    x, y, z = a * f * math.cos(la) * math.cos(lo), a * f * math.cos(la) * math.sin(lo), b * f * math.sin(la)
    t = I.real("tiny", -1.0, 1.0) * 10 ** I.real("lt", -6.0, 2.0)
    if k == "axis":
        x = y = 0.0
        z = math.copysign(b * f, la if la else 1.0)
    elif k == "near-axis":
        x, y, z = t, t / 3, math.copysign(b * f, la if la else 1.0)
    elif k == "equator":
        x, y, z = a * f * math.cos(lo), a * f * math.sin(lo), 0.0
    elif k == "near-equator":
        x, y, z = a * f * math.cos(lo), a * f * math.sin(lo), t
    return x, y, z


# ------------------------------------------------------------------ C33
@contract("C33", "cart2pol")
def c33_pol(L, I, ck, M):
    x, y = I.length("x"), I.length("y")
    th, r = L.utils.cart2pol(x, y)
    ck.eq("rho", r, M.sqrt(M.real(x) ** 2 + M.real(y) ** 2))
    ck.eq("x", M.real(r) * M.cos(th), x, scale=1)
    ck.eq("y", M.real(r) * M.sin(th), y, scale=1)
    ck.le("theta<=pi", th, M.pi, tol=1e-15)
    (ck.lt if I.sym else ck.le)("theta>-pi", -M.pi, th, tol=1e-15)
    ck.eq("back", tuple(L.utils.pol2cart(th, r)), (M.real(x), M.real(y)), scale=1)


@contract("C33", "pol2cart")
def c33_pol2cart(L, I, ck, M):
    t, r = I.angle("theta", False), I.length("rho")
    ck.eq("xy", tuple(L.utils.pol2cart(t, r)), (M.real(r) * M.cos(t), M.real(r) * M.sin(t)), scale=1)


@contract("C33", "cart2sph")
def c33_sph(L, I, ck, M):
    x, y, z = I.length("x"), I.length("y"), I.length("z")
    az, el, r = L.utils.cart2sph(x, y, z)
    R = M.real(r)
    ck.eq("r", r, M.sqrt(M.real(x) ** 2 + M.real(y) ** 2 + M.real(z) ** 2))
    ck.eq("x", R * M.cos(el) * M.cos(az), x, scale=1)
    ck.eq("y", R * M.cos(el) * M.sin(az), y, scale=1)
    ck.eq("z", R * M.sin(el), z, scale=1)
    ck.le("az<=pi", az, M.pi, tol=1e-15)
    (ck.lt if I.sym else ck.le)("az>-pi", -M.pi, az, tol=1e-15)
    ck.le("el<=pi/2", el, M.pi / 2, tol=1e-15)
    ck.le("el>=-pi/2", -M.pi / 2, el, tol=1e-15)
    # elevation is measured from the xy-plane: its cosine part is the horizontal length
    ck.eq("horizontal", R * M.cos(el), M.sqrt(M.real(x) ** 2 + M.real(y) ** 2), scale=1)
    ck.eq("back", tuple(L.utils.sph2cart(az, el, r)), (M.real(x), M.real(y), M.real(z)), scale=1)


@contract("C33", "sph2cart")
def c33_sph2cart(L, I, ck, M):
    az, el, r = I.angle("az", False), I.angle("el", False), I.length("r")
    R = M.real(r)
    ck.eq("xyz", tuple(L.utils.sph2cart(az, el, r)),
          (R * M.cos(el) * M.cos(az), R * M.cos(el) * M.sin(az), R * M.sin(el)), scale=1)


# ------------------------------------------------------------------ C18
@contract("C18", "geodetic2spherical", params=DEG)
def c18_fwd(L, I, ck, M, deg):
    ell = I.ell(L)
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h", lo=0)
    p = L.ecef.geodetic2ecef(lat, lon, h, ell, deg=deg)
    sl, so, r = L.spherical.geodetic2spherical(lat, lon, h, ell, deg=deg)
    n = nrm(M, sl, so, deg)
    for i in range(3):
        ck.eq("xyz"[i], M.real(r) * n[i], p[i], rel=4e-8 if False else 3e-8, scale=I.scale)
    ck.eq("z-exact", M.real(r) * n[2], p[2], scale=I.scale)
    ck.eq("lon", so, lon, tol=1e-12)
    ck.lt("radius", M.q(0), r)


@contract("C18", "sphere", params=DEG)
def c18_sphere(L, I, ck, M, deg):
    """on a sphere: latitude unchanged, height = radius - a"""
    ell = I.ell(L, sphere=True)
    a, _ = I.ellab
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h", lo=0)
    sl, so, r = L.spherical.geodetic2spherical(lat, lon, h, ell, deg=deg)
    ck.eq("radius", r, a + M.real(h), scale=I.scale)
    ck.eq("lat", sl, lat, tol=1e-6)
    rr = I.real("radius", 0.5, 1e8) if I.sym else a * I.real("fr", 0.9, 5.0)
    rr = rr if I.sym else float(rr)
    I.require(rr > 0)
    gl, go, al = L.spherical.spherical2geodetic(lat, lon, rr, ell, deg=deg)
    ck.eq("glat", gl, lat, tol=1e-6)
    ck.eq("glon", go, lon, tol=1e-12)
    ck.eq("galt", al, M.real(rr) - a, scale=I.scale)


@contract("C18", "roundtrip", mode="bounded", params=DEG, weight=4)
def c18_back(L, I, ck, M, deg):
    """bounded: spherical -> geodetic denotes the same Cartesian point; there and back"""
    ell = I.ell(L, eccmax=0.1)
    a, b = I.ellab
    lat, lon = I.lat("lat", deg), I.lon("lon", deg)
    r = a * I.real("fr", 0.95, 7.0)
    gl, go, al = L.spherical.spherical2geodetic(lat, lon, r, ell, deg=deg)
    p = L.ecef.geodetic2ecef(gl, go, al, ell, deg=deg)
    n = nrm(M, lat, lon, deg)
    for i in range(3):
        ck.eq("xyz"[i], p[i], r * n[i], rel=1e-7, scale=a)
    ck.eq("lon", go, lon, tol=1e-12)
    h = a * I.real("fh", -0.004, 6.0)
    sl, so, rr = L.spherical.geodetic2spherical(lat, lon, h, ell, deg=deg)
    g2, o2, h2 = L.spherical.spherical2geodetic(sl, so, rr, ell, deg=deg)
    k = 1 if deg else M.pi / 180
    ck.eq("back-alt", h2, h, rel=1e-9, scale=max(a, abs(h)))
    ck.eq("back-lat", g2, lat, tol=2e-6 * k)
    ck.eq("back-lon", o2, lon, tol=1e-12)
