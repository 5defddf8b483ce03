"""C16 series auxiliary latitudes"""
import math
from pyvc.contract import contract, Skip
from contracts.lib import DEG


# ---------------------------------------------------------------- defining differential equations, to the published order
@contract("C16", "rectifying_forward", mode="proof")
def c16_rect(L, I, ck, M):
    """d mu / d phi is proportional to the meridian radius of curvature, up to n^4"""
    ell, n = I.ell_series(L, "n")
    x = I.angle("x", deg=False)
    D = ck.diff(L.latitude.geodetic2rectifying(x, ell, False), x)
    G = 1 + 2 * n * M.cos(2 * x) + n ** 2
    ck.order("meridian", 2 * ck.diff(D, x) * G + 3 * D * ck.diff(G, x), n, 4)


@contract("C16", "rectifying_inverse", mode="proof")
def c16_rect_inv(L, I, ck, M):
    ell, n = I.ell_series(L, "n")
    x = I.angle("x", deg=False)
    p = L.latitude.rectifying2geodetic(x, ell, False)
    D = ck.diff(p, x)
    ck.order("meridian", 2 * ck.diff(D, x) * (1 + 2 * n * M.cos(2 * p) + n ** 2) + 12 * n * D ** 2 * M.sin(2 * p), n, 4)


@contract("C16", "conformal_inverse", mode="proof")
def c16_conf(L, I, ck, M):
    """sec phi (1-e^2)/(1-e^2 sin^2 phi) d phi = sec chi d chi, up to e^9"""
    ell, e = I.ell_series(L, "e")
    x = I.angle("x", deg=False)
    p = L.latitude.conformal2geodetic(x, ell, False)
    ck.order("conformal", ck.diff(p, x) * (1 - e ** 2) * M.cos(x) - (1 - e ** 2 * M.sin(p) ** 2) * M.cos(p), e, 9)


@contract("C16", "authalic_forward", mode="proof")
def c16_auth(L, I, ck, M):
    ell, e = I.ell_series(L, "e")
    x = I.angle("x", deg=False)
    y = L.latitude.geodetic2authalic(x, ell, False)
    D = ck.diff(y, x)
    D0 = ck.diff(L.latitude.geodetic2authalic(x, ell, False), x)
    # cos(beta) beta' (1-e^2 sin^2)^2 / cos(phi) is constant
    F = M.cos(y) * D * (1 - e ** 2 * M.sin(x) ** 2) ** 2
    ck.order("area", ck.diff(F, x) * M.cos(x) + F * M.sin(x), e, 7)


@contract("C16", "authalic_inverse", mode="proof")
def c16_auth_inv(L, I, ck, M):
    ell, e = I.ell_series(L, "e")
    x = I.angle("x", deg=False)
    p = L.latitude.authalic2geodetic(x, ell, False)
    # cos(phi) phi' / (1-e^2 sin^2 phi)^2 / cos(beta) is constant
    D = ck.diff(p, x)
    W = 1 - e ** 2 * M.sin(p) ** 2
    ck.order("area", (ck.diff(M.cos(p) * D, x) * W - 2 * M.cos(p) * D * ck.diff(W, x)) * M.cos(x) + M.cos(p) * D * W * M.sin(x), e, 7)


@contract("C16", "geocentric_distance", mode="proof")
def c16_geoc(L, I, ck, M):
    """r sin(phi - lambda) = nu e^2 sin phi cos phi, up to f^2"""
    ell, f = I.ell_series(L, "f")
    x = I.angle("x", deg=False)
    r = I.real("r", 0.1, 1e9, open_lo=True)
    p = L.latitude.geoc2geod(x, r * ell.semimajor_axis, ell, False)
    e2 = f * (2 - f)
    ck.order("normal", r * M.sin(p - x) * M.sqrt(1 - e2 * M.sin(p) ** 2) - e2 * M.sin(p) * M.cos(p), f, 2)


# ---------------------------------------------------------------- the pairs undo each other to the same order
@contract("C16", "pairs", mode="proof")
def c16_pairs(L, I, ck, M):
    x = I.angle("x", deg=False)
    ell, n = I.ell_series(L, "n")
    la = L.latitude
    ck.order("rectifying-forward-inverse", la.rectifying2geodetic(la.geodetic2rectifying(x, ell, False), ell, False) - x, n, 4)
    ck.order("rectifying-inverse-forward", la.geodetic2rectifying(la.rectifying2geodetic(x, ell, False), ell, False) - x, n, 4)
    ell, e = I.ell_series(L, "e")
    ck.order("authalic-forward-inverse", la.authalic2geodetic(la.geodetic2authalic(x, ell, False), ell, False) - x, e, 7)
    ck.order("authalic-inverse-forward", la.geodetic2authalic(la.authalic2geodetic(x, ell, False), ell, False) - x, e, 7)


SERIES = ["geodetic2rectifying", "rectifying2geodetic", "geodetic2authalic", "authalic2geodetic", "conformal2geodetic"]


@contract("C16", "odd_fixed", params=DEG)
def c16_odd(L, I, ck, M, deg):
    """odd, equator and poles fixed; degrees are degrees of the radians result"""
    ell = I.ell(L)
    x = I.angle("x", deg)
    quarter = 90 if deg else M.pi / 2
    if not I.sym:
        quarter = float(quarter)
    for name in SERIES:
        f = getattr(L.latitude, name)
        y = f(x, ell, deg)
        ck.eq(name + "-odd", f(-x, ell, deg), -y)
        ck.eq(name + "-equator", f(0.0, ell, deg), M.q(0))
        for k in (1, -1):
            ck.eq(name + f"-pole{k}", f(k * quarter, ell, deg), k * M.real(quarter))
        if deg:
            ck.eq(name + "-degrees", y, M.deg(M.real(f(M.rad(x) if I.sym else math.radians(x), ell, False))))
    r = I.real("r", 0.9, 1e3)
    a = M.real(I.ellab[0])
    d = r * a if I.sym else r * float(a)
    g = L.latitude.geoc2geod
    y = g(x, d, ell, deg)
    ck.eq("distance-odd", g(-x, d, ell, deg), -y)
    ck.eq("distance-equator", g(0.0, d, ell, deg), M.q(0))
    for k in (1, -1):
        ck.eq(f"distance-pole{k}", g(k * quarter, d, ell, deg), k * M.real(quarter))
    if deg:
        ck.eq("distance-degrees", y, M.deg(M.real(g(M.rad(x) if I.sym else math.radians(x), d, ell, False))))


@contract("C16", "sphere")
def c16_sphere(L, I, ck, M):
    """no flattening, no change"""
    ell = I.ell(L, sphere=True)
    x = I.angle("x", False)
    for name in SERIES:
        ck.eq(name, getattr(L.latitude, name)(x, ell, False), M.real(x))
    ck.eq("distance", L.latitude.geoc2geod(x, ell.semimajor_axis, ell, False), M.real(x))


@contract("C16", "isometric_inverse", params=DEG)
def c16_iso(L, I, ck, M, deg):
    """psi = asinh(tan chi) = log tan(chi/2 + pi/4): the inverse isometric latitude is the inverse conformal latitude of chi"""
    ell = I.ell(L)
    if I.sym:
        t = I.lat("t", False, open=True, lo=0)      # chi/2 + pi/4
        I.require(t > 0)
        x, psi = 2 * t - M.pi / 2, M.log(M.tan(t))
    else:
        x = I.lat("x", False, open=True)
        psi = math.asinh(math.tan(x))
    la = L.latitude
    y = la.isometric2geodetic((M.deg(psi) if I.sym else math.degrees(psi)) if deg else psi, ell, deg)
    w = M.real(la.conformal2geodetic(x, ell, False))
    ck.eq("conformal", y, M.deg(w) if deg else w, tol=1e-11)
    ck.eq("equator", la.isometric2geodetic(0.0, ell, deg), M.q(0))
    if not I.sym:
        for k in (1, -1):
            ck.eq("pole", la.isometric2geodetic(k * math.inf, ell, deg), k * (M.q(90) if deg else M.pi / 2))


@contract("C16", "numeric", mode="bounded", params=DEG, weight=1)
def c16_num(L, I, ck, M, deg):
    """within a multiple of the first omitted power of the defining integral"""
    from mpmath import mp, mpf
    ell = I.ell(L)
    a, b = (mpf(x) for x in I.ellab)
    e2, n, f = 1 - b * b / a / a, (a - b) / (a + b), (a - b) / a
    e = mp.sqrt(e2)
    x = I.lat("x", deg)
    p = M.rad(x) if deg else mpf(x)
    s, c = mp.sin(p), mp.cos(p)
    la = L.latitude

    def close(label, got, want, err):
        w = mp.degrees(want) if deg else want
        ck.eq(label, got, w, tol=float((mp.degrees(err) if deg else err)) + (2e-11 if deg else 1e-12))
    mu = (mp.ellipe(p, e2) - e2 * s * c / mp.sqrt(1 - e2 * s * s)) / mp.ellipe(e2) * mp.pi / 2
    arg = lambda t: float(mp.degrees(t) if deg else t)
    close("rectifying", la.geodetic2rectifying(x, ell, deg), mu, 1.6 * n ** 5)
    close("rectifying-inverse", la.rectifying2geodetic(arg(mu), ell, deg), p, 10 * n ** 5)
    q = lambda t: (1 - e2) * (t / (1 - e2 * t * t) + (mp.atanh(e * t) / e if e else t))
    beta = mp.asin(max(-1, min(1, q(s) / q(mpf(1)))))
    close("authalic", la.geodetic2authalic(x, ell, deg), beta, 0.2 * e ** 8)
    close("authalic-inverse", la.authalic2geodetic(arg(beta), ell, deg), p, 0.25 * e ** 8)
    if abs(c) > 1e-9:
        psi = mp.asinh(s / c) - e * mp.atanh(e * s)
        close("conformal-inverse", la.conformal2geodetic(arg(mp.atan(mp.sinh(psi))), ell, deg), p, 0.25 * e ** 10)
        close("isometric-inverse", la.isometric2geodetic(arg(psi), ell, deg), p, 0.25 * e ** 10)
    h = 10 ** I.real("h", -3, 3) * a
    w = mp.sqrt(a * a * c * c + b * b * s * s)
    u, v = (a * a / w + h) * c, (b * b / w + h) * s
    close("distance", la.geoc2geod(arg(mp.atan2(v, u)), float(mp.hypot(u, v)), ell, deg), p, 1.8 * f ** 3)
    if I.cfg == "np":
        import numpy as np
        for name in SERIES + ["isometric2geodetic"]:
            z = getattr(la, name)(np.array([x, x / 2]), ell, deg)
            ck.eq(name + "-array", (z[0], z[1]), (getattr(la, name)(x, ell, deg), getattr(la, name)(x / 2, ell, deg)), tol=1e-11)
        if deg:
            for name in SERIES + ["isometric2geodetic"]:
                ck.eq(name + "-default-unit", getattr(la, name)(x, ell), getattr(la, name)(x, ell, True), tol=0)
