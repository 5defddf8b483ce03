"""C24 Karney geodesics, C25 geodesic lines and polygons"""
import math
from pyvc.contract import contract, Skip
from contracts.lib import DEG


# ---------------------------------------------------------------- helpers: exact meaning in real arithmetic
@contract("C24", "angle_helpers", mode="both")
def c24_help(L, I, ck, M):
    K = L.karney
    x, y = I.angle("x", True, lo=-1000, hi=1000), I.angle("y", True, lo=-1000, hi=1000)
    n = K._AngNormalize(x)
    ck.mod("normalize", n, M.real(x), 360)
    ck.le("normalize<=180", n, M.q(180))
    ck.lt("normalize>-180", M.q(-180), n)
    ck.eq("round", K._AngRound(x), M.real(x), tol=1e-17)
    s, t = K._sum_error(x, y)
    ck.eq("sum", M.real(s) + M.real(t), M.real(x) + M.real(y), tol=1e-25)
    d, e = K._AngDiff(x, y)
    ck.mod("diff", M.real(d) + M.real(e), M.real(y) - M.real(x), 360, tol=1e-15)
    ck.le("diff<=180", d, M.q(180))
    ck.le("diff>=-180", M.q(-180), d)


@contract("C24", "sincosd", mode="both")
def c24_sc(L, I, ck, M):
    x = I.angle("x", True, lo=-400, hi=400)
    s, c = L.karney._sincosd(x)
    ck.eq("sin", s, M.sin(M.rad(x)), tol=3e-16)
    ck.eq("cos", c, M.cos(M.rad(x)), tol=3e-16)


@contract("C24", "atan2d", mode="both")
def c24_at(L, I, ck, M):
    y, x = I.real("y", -3, 3), I.real("x", -3, 3)
    if I.sym:
        I.require(x * x + y * y > 0)
    ck.mod("angle", L.karney._atan2d(y, x), M.deg(M.atan2(M.real(y), M.real(x))), 360, tol=1e-13)
    ck.le("<=180", L.karney._atan2d(y, x), M.q(180))
    ck.le(">=-180", M.q(-180), L.karney._atan2d(y, x))


@contract("C24", "norm2", mode="both")
def c24_norm(L, I, ck, M):
    y, x = I.real("y", -3, 3), I.real("x", -3, 3)
    if I.sym:
        I.require(x * x + y * y > 0)
    s, c = L.karney._norm2(y, x)
    r = M.sqrt(M.real(x) ** 2 + M.real(y) ** 2)
    ck.eq("sin", s * r, M.real(y))
    ck.eq("cos", c * r, M.real(x))


@contract("C24", "clenshaw", params=[{"n": n} for n in range(1, 8)], mode="both")
def c24_clen(L, I, ck, M, n):
    """sum c_l sin(2 l x), and sum c_l cos((2 l + 1) x)"""
    x = I.angle("x", False)
    c = [0.0] + [I.real(f"c{l}", -1, 1) for l in range(1, n + 1)]
    s, k = (M.sin(x), M.cos(x)) if I.sym else (math.sin(x), math.cos(x))
    ck.eq("sines", L.karney._SinCosSeries(True, s, k, c, n), sum(M.real(c[l]) * M.sin(2 * l * M.real(x)) for l in range(1, n + 1)), tol=1e-13)
    c[0] = I.real("c0", -1, 1)
    ck.eq("cosines", L.karney._SinCosSeries(False, s, k, [0.0] + c, n + 1), sum(M.real(c[l]) * M.cos((2 * l + 1) * M.real(x)) for l in range(n + 1)), tol=1e-13)


# ---------------------------------------------------------------- the series: defining integrals through the published order
def eps_var(I):
    I.ctx.declare("eps", lambda r, env: r.uniform(0.001, 0.1), [])
    from pyvc import term as tm, symlib as sl
    v = tm.var("eps")
    I.ctx.assume("<", tm.neg(v))
    I.ctx.assume("<", tm.sub(v, tm.const(1)))
    return sl.Sym(v)


def root_of(M, eps, x):
    """(1 - eps) sqrt(1 + k^2 sin^2 x)"""
    return M.sqrt(1 - 2 * eps * M.cos(2 * x) + eps ** 2)


@contract("C24", "series_distance", mode="proof")
def c24_i1(L, I, ck, M):
    """A1 (sigma + sum C1 sin 2 l sigma) = integral of sqrt(1 + k^2 sin^2), through eps^6"""
    e, x = eps_var(I), I.angle("x", False)
    K = L.karney
    c = [0.0] * 7
    K._C1f(e, c)
    d = (1 + K._A1m1f(e)) * (1 + sum(2 * l * c[l] * M.cos(2 * l * x) for l in range(1, 7)))
    ck.order("integrand", d * (1 - e) - root_of(M, e, x), e, 6)


@contract("C24", "series_reversion", mode="proof")
def c24_rev(L, I, ck, M):
    """C1' inverts C1 through eps^6"""
    e, x = eps_var(I), I.angle("x", False)
    K = L.karney
    c, p = [0.0] * 7, [0.0] * 7
    K._C1f(e, c)
    K._C1pf(e, p)
    tau = x + sum(c[l] * M.sin(2 * l * x) for l in range(1, 7))
    ck.order("inverse", tau + sum(p[l] * M.sin(2 * l * tau) for l in range(1, 7)) - x, e, 6)


@contract("C24", "series_reduced_length", mode="proof")
def c24_i2(L, I, ck, M):
    e, x = eps_var(I), I.angle("x", False)
    K = L.karney
    c = [0.0] * 7
    K._C2f(e, c)
    d = (1 + K._A2m1f(e)) * (1 + sum(2 * l * c[l] * M.cos(2 * l * x) for l in range(1, 7)))
    ck.order("integrand", d * root_of(M, e, x) - (1 - e), e, 6)


@contract("C24", "series_longitude", mode="proof")
def c24_i3(L, I, ck, M):
    """A3 (sigma + sum C3 sin 2 l sigma) = integral of (2-f)/(1+(1-f) sqrt(1 + k^2 sin^2)), through total order 5 in n and eps"""
    K = L.karney
    ell, n = I.ell_series(L, "n")
    x, q = I.angle("x", False), I.real("q", 0.1, 10)
    g = K._Geodesic(ell)
    ck.eq("third-flattening", g._n, n)
    e = q * n
    c = [0.0] * 6
    g._C3f(e, c)
    d = g._A3f(e) * (1 + sum(2 * l * c[l] * M.cos(2 * l * x) for l in range(1, 6)))
    f1 = (1 - n) / (1 + n)
    ck.order("integrand", d * ((1 - e) + f1 * root_of(M, e, x)) - (1 + f1) * (1 - e), n, 5)


@contract("C24", "constants", mode="both")
def c24_const(L, I, ck, M):
    """parameters of the ellipsoid used by the solver"""
    ell = I.ell(L)
    a, b = (M.real(x) for x in I.ellab)
    g = L.karney._Geodesic(ell)
    ck.eq("a", g.a, a)
    ck.eq("b", g._b, b)
    ck.eq("f", g.f, (a - b) / a)
    ck.eq("1-f", g._f1, b / a)
    ck.eq("e2", g._e2, (a * a - b * b) / a ** 2)
    ck.eq("ep2", g._ep2, (a * a - b * b) / b ** 2)
    ck.eq("n", g._n, (a - b) / (a + b))


# ---------------------------------------------------------------- the two problems on the floating-point code
ECC = 0.1            # flattening: the series' own truncation stays below 2e-10 of the axis
HOW = ["any", "any", "antipode", "equator", "meridian", "close", "pole", "equator-antipode", "round", "tiny-latitude"]


def pair(I, deg):
    """two points, degrees: anywhere and in every special position"""
    R = lambda n, lo=-1.0, hi=1.0: I.real(n, lo, hi)
    how = I.choice("how", HOW)
    la1, lo1, la2, lo2 = R("lat1", -90, 90), R("lon1", -180, 180), R("lat2", -90, 90), R("lon2", -180, 180)
    clip = lambda x: max(-90.0, min(90.0, x))
    if how == "antipode":
        s = 10 ** R("gap", -14, 1)
        la2, lo2 = clip(-la1 + s * R("u")), lo1 + 180 + s * R("v")
    elif how == "equator":
        la1 = la2 = 0.0
    elif how == "meridian":
        lo2 = lo1 + I.choice("turn", [0, 180, -180, 360])
    elif how == "close":
        s = 10 ** R("gap", -13, 1)
        la2, lo2 = clip(la1 + s * R("u")), lo1 + s * R("v")
    elif how == "pole":
        la1 = I.choice("pole", [90.0, -90.0, 89.9999999, -90 + 1e-12])
        if I.choice("swap", [False, True]):
            la1, la2 = la2, la1
    elif how == "equator-antipode":
        s = 10 ** R("gap", -12, 1)
        la1 = I.choice("first", [0.0, s * R("u")])
        la2 = I.choice("second", [0.0, -la1, s * R("v")])
        lo2 = lo1 + 180 + I.choice("third", [0.0, s * R("w"), 5 * flat(I) * 90 * R("w")])
    elif how == "round":
        P = [0.0, 0.5, 30.0, 45.0, 90.0, -30.0, -45.0, -90.0, 60.0]
        la1, lo1, la2, lo2 = (I.choice(f"p{i}", P) for i in range(4))
        lo2 = I.choice("far", [lo2, 180.0, 179.5, -180.0, 150.0])
    elif how == "tiny-latitude":
        la1 = I.choice("sign", [1, -1]) * 10 ** R("gap", -18, -1)
        la2 = I.choice("second", [0.0, la1, -la1])
    p = la1, lo1, la2, lo2
    return p if deg else tuple(math.radians(x) for x in p)


def flat(I):
    a, b = (float(x) for x in I.ellab)
    return (a - b) / a


def place(M, I, p, deg):
    a, b = (M.real(x) for x in I.ellab)
    t, o = (M.rad(x) if deg else M.real(x) for x in p)
    d = M.sqrt(a ** 2 * M.cos(t) ** 2 + b ** 2 * M.sin(t) ** 2)
    return a * a / d * M.cos(t) * M.cos(o), a * a / d * M.cos(t) * M.sin(o), b * b / d * M.sin(t)


def gap(M, I, p, q, deg):
    return M.sqrt(sum((x - y) ** 2 for x, y in zip(place(M, I, p, deg), place(M, I, q, deg))))


def grain(I):
    """nanometre-scale on the Earth; the series' truncation for strongly flattened bodies"""
    return (4e-14 if flat(I) < 0.02 else 4e-10) * I.scale


def geod(I):
    import pyproj
    a, b = (float(x) for x in I.ellab)
    return pyproj.Geod(a=a, b=b)


@contract("C24", "inverse_monitor", mode="bounded", params=DEG, weight=4)
def c24_inv(L, I, ck, M, deg):
    K = L.karney
    ell = I.ell(L, eccmax=ECC)
    p = la1, lo1, la2, lo2 = pair(I, deg)
    s, a1, a2 = K.geodesic_inverse(*p, ell, deg)
    ck.true("finite", all(x == x and abs(x) < 1e300 for x in (s, a1, a2)), f"{s} {a1} {a2}")
    ck.le("distance>=0", M.q(0), s)
    half = 180 if deg else M.pi
    for n, x in (("azi1", a1), ("azi2", a2)):
        ck.true(n + "-range", abs(x) <= float(half), f"{x}")
    tol = grain(I)
    z = lambda q: (q[0], q[1])
    reach = K.geodesic_direct(la1, lo1, a1, s, ell, deg)
    far = 1 if flat(I) < 0.02 else 4
    ck.le("direct-reaches", gap(M, I, z(reach), (la2, lo2), deg), M.q(0), tol=far * tol)
    back = K.geodesic_direct(la2, lo2, a2, -s, ell, deg)
    ck.le("and-back", gap(M, I, z(back), (la1, lo1), deg), M.q(0), tol=far * tol)
    c = math.cos(la2 if not deg else math.radians(la2))
    if c > 1e-3 and s > 1e-3 * I.scale:
        ck.mod("same-final-azimuth", reach[2], a2, 2 * half, tol=(1e-10 if deg else 2e-12) / c * far * (1 if flat(I) < 0.02 else 1e5))
    ck.eq("swap", K.geodesic_inverse(la2, lo2, la1, lo1, ell, deg)[0], s, tol=tol)
    ck.eq("reflect-hemisphere", K.geodesic_inverse(-la1, lo1, -la2, lo2, ell, deg)[0], s, tol=tol)
    ck.eq("reflect-longitude", K.geodesic_inverse(la1, -lo1, la2, -lo2, ell, deg)[0], s, tol=tol)
    d = I.real("shift", -360, 360) * (1 if deg else math.pi / 180)
    ck.eq("shift", K.geodesic_inverse(la1, lo1 + d, la2, lo2 + d, ell, deg)[0], s, tol=tol)
    ck.eq("coincident", K.geodesic_inverse(la1, lo1, la1, lo1, ell, deg)[0], M.q(0), tol=tol)
    ck.le("chord", gap(M, I, (la1, lo1), (la2, lo2), deg), s, tol=tol)
    if deg:
        ck.eq("default-unit", K.geodesic_inverse(*p, ell), (s, a1, a2), tol=0)
    if I.cfg == "np":
        G, k = geod(I), 1 if deg else 180 / math.pi
        A, B, S = G.inv(lo1 * k, la1 * k, lo2 * k, la2 * k)
        ck.eq("shortest", s, S, tol=tol)
        o, t, _ = G.fwd(lo1 * k, la1 * k, a1 * k, s)
        ck.le("azi1-is-the-geodesic", gap(M, I, (t, o), (la2 * k, lo2 * k), True), M.q(0), tol=far * tol)
        o, t, _ = G.fwd(lo2 * k, la2 * k, a2 * k, -s)
        ck.le("azi2-is-the-geodesic", gap(M, I, (t, o), (la1 * k, lo1 * k), True), M.q(0), tol=far * tol)


@contract("C24", "direct_monitor", mode="bounded", params=DEG, weight=3)
def c24_dir(L, I, ck, M, deg):
    K = L.karney
    ell = I.ell(L, eccmax=ECC)
    k = 1.0 if deg else math.pi / 180
    lat = I.choice("where", [I.real("lat", -90, 90), I.real("lat", -90, 90), 0.0, 90.0, -90.0, 1e-15, -45.0]) * k
    lon = I.real("lon", -360, 360) * k
    az = I.choice("heading", [I.real("az", -360, 360), 0.0, 90.0, 180.0, -90.0, 270.0]) * k
    s = I.real("s", -1, 1) * I.choice("reach", [1e-9, 1e-3, 1, 3, 30]) * I.scale
    la, lo, a2 = K.geodesic_direct(lat, lon, az, s, ell, deg)
    half = 180 if deg else M.pi
    tol = grain(I) * (1 + abs(s) / I.scale)
    ck.true("finite", all(x == x for x in (la, lo, a2)), f"{la} {lo} {a2}")
    ck.true("lat-range", abs(la) <= float(half) / 2)
    ck.true("azi-range", abs(a2) <= float(half))
    ck.le("chord", gap(M, I, (la, lo), (lat, lon), deg), abs(s), tol=tol)
    b = K.geodesic_direct(la, lo, a2, -s, ell, deg)
    ck.le("there-and-back", gap(M, I, b[:2], (lat, lon), deg), M.q(0), tol=4 * tol)
    o = K.geodesic_direct(lat, lon, az + float(half), -s, ell, deg)
    ck.le("backwards", gap(M, I, o[:2], (la, lo), deg), M.q(0), tol=4 * tol)
    h = K.geodesic_direct(lat, lon, az, s / 3, ell, deg)
    o = K.geodesic_direct(*h, s - s / 3, ell, deg)
    ck.le("in-two-steps", gap(M, I, o[:2], (la, lo), deg), M.q(0), tol=4 * tol)
    d = I.real("shift", -360, 360) * k
    o = K.geodesic_direct(lat, lon + d, az, s, ell, deg)
    ck.le("shift", gap(M, I, (o[0], o[1] - d), (la, lo), deg), M.q(0), tol=tol)
    o = K.geodesic_direct(-lat, lon, float(half) - az, s, ell, deg)
    ck.le("reflect-hemisphere", gap(M, I, (-o[0], o[1]), (la, lo), deg), M.q(0), tol=2 * tol)
    o = K.geodesic_direct(lat, -lon, -az, s, ell, deg)
    ck.le("reflect-longitude", gap(M, I, (o[0], -o[1]), (la, lo), deg), M.q(0), tol=tol)
    if abs(lat) < 0.4999 * float(half):
        o = K.geodesic_direct(lat, lon, az, 0.0, ell, deg)
        ck.eq("zero-length", o[0], lat, tol=1e-13)
        ck.mod("zero-length-longitude", o[1], M.real(lon), 2 * half, tol=1e-11)
        ck.mod("zero-length-azimuth", o[2], M.real(az), 2 * half, tol=1e-11)
    if deg:
        ck.eq("default-unit", K.geodesic_direct(lat, lon, az, s, ell), (la, lo, a2), tol=0)
    if I.cfg == "np":
        x, y, _ = geod(I).fwd(lon / k, lat / k, az / k, s)
        ck.le("geodesic", gap(M, I, (la / k, lo / k), (y, x), True), M.q(0), tol=2 * tol)


# ---------------------------------------------------------------- C25 lines and polygons over the two problems' contracts
KK = ("karney.geodesic_inverse", "karney.geodesic_direct")


@contract("C25", "line", params=[{"n": n, "deg": d} for n in (1, 2, 3, 4, 7, 12) for d in (True, False)], mode="proof", stubs=KK)
def c25_line(L, I, ck, M, n, deg):
    """point k of n is the direct solution at k/(n-1) of the inverse solution's distance along its azimuth, same ellipsoid and unit"""
    K = L.karney
    ell = I.ell(L)
    p = I.lat("lat1", deg), I.lon("lon1", deg), I.lat("lat2", deg), I.lon("lon2", deg)
    la, lo = K.geodesic_line(*p, ell, n, deg)
    ck.true("n-points", len(la) == n and len(lo) == n)
    s, az, _ = K.geodesic_inverse(*p, ell, deg)
    for k in range(n):
        a, o, _ = K.geodesic_direct(p[0], p[1], az, s * M.q(f"{k}/{max(1, n - 1)}"), ell, deg)
        ck.eq(f"lat{k}", la[k], a)
        ck.eq(f"lon{k}", lo[k], o)
    if deg:
        la2, lo2 = K.geodesic_line(*p, ell, n)
        ck.eq("default-unit", la2 + lo2, la + lo)


def vertices(I, n, deg):
    return [I.lat(f"lat{i}", deg) for i in range(n)], [I.lon(f"lon{i}", deg) for i in range(n)]


@contract("C25", "perimeter", params=[{"n": n, "deg": d} for n in (3, 4, 6) for d in (True, False)], mode="proof", stubs=KK + ("karney._AngDiff",))
def c25_per(L, I, ck, M, n, deg):
    """sum over the edges, the closing one included; from any vertex, either way round (given the inverse problem's symmetry, C24)"""
    K = L.karney
    ell = I.ell(L)
    la, lo = vertices(I, n, deg)
    d = [K.geodesic_inverse(la[i], lo[i], la[(i + 1) % n], lo[(i + 1) % n], ell, deg)[0] for i in range(n)]
    per = K.geodesic_area(la, lo, ell, deg)[1]
    ck.eq("sum-of-edges", per, sum(d))
    ck.eq("from-another-vertex", K.geodesic_area(la[1:] + la[:1], lo[1:] + lo[:1], ell, deg)[1], per)
    ck.eq("reversed", K.geodesic_area(la[::-1], lo[::-1], ell, deg)[1], per)
    if deg:
        ck.eq("default-unit", K.geodesic_area(la, lo, ell)[1], per)


@contract("C25", "few", params=DEG)
def c25_few(L, I, ck, M, deg):
    ell = I.ell(L)
    for n in range(3):
        la, lo = vertices(I, n, deg)
        ck.raises(f"vertices{n}", ValueError, lambda: L.karney.geodesic_area(la, lo, ell, deg))


@contract("C25", "line_monitor", mode="bounded", params=DEG, weight=2)
def c25_lm(L, I, ck, M, deg):
    """end points and equal steps"""
    K = L.karney
    ell = I.ell(L, eccmax=ECC)
    p = la1, lo1, la2, lo2 = pair(I, deg)
    n = I.choice("n", [2, 3, 4, 5, 17, 100])
    la, lo = K.geodesic_line(*p, ell, n, deg)
    ck.true("n-points", len(la) == n and len(lo) == n)
    tol = grain(I) * (1 if flat(I) < 0.02 else 4)
    s, az, _ = K.geodesic_inverse(*p, ell, deg)
    ck.le("first", gap(M, I, (la[0], lo[0]), (la1, lo1), deg), M.q(0), tol=tol)
    ck.le("last", gap(M, I, (la[-1], lo[-1]), (la2, lo2), deg), M.q(0), tol=tol)
    i = I.integer("i", 0, n - 2)
    t = K.geodesic_inverse(la[i], lo[i], la[i + 1], lo[i + 1], ell, deg)[0]
    ck.eq("equal-steps", t, s / (n - 1), tol=2 * tol)
    t = K.geodesic_inverse(la1, lo1, la[i], lo[i], ell, deg)[0]
    ck.eq("progress", t, s * i / (n - 1), tol=2 * tol)
    if I.cfg == "np":
        G, k = geod(I), 1 if deg else 180 / math.pi
        A, _, S = G.inv(lo1 * k, la1 * k, lo2 * k, la2 * k)
        if S < 0.95 * math.pi * I.scale * (1 - flat(I)):
            o, t, _ = G.fwd(lo1 * k, la1 * k, A, S * i / (n - 1))
            ck.le("on-the-geodesic", gap(M, I, (la[i] * k, lo[i] * k), (t, o), True), M.q(0), tol=20 * tol)
    q = K.geodesic_line(*p, ell, deg=deg)
    ck.true("default-number", len(q[0]) == 100 and len(q[1]) == 100)


@contract("C25", "polygon_monitor", mode="bounded", params=DEG, weight=2)
def c25_pm(L, I, ck, M, deg):
    K = L.karney
    ell = I.ell(L, eccmax=ECC)
    n = I.choice("n", [3, 4, 5, 8])
    la, lo = vertices(I, n, deg)
    small = I.choice("small", [False, True])
    if small:
        k = 10 ** I.real("size", -6, -1)
        la, lo = [la[0] * 0.9 + k * x for x in la], [lo[0] + k * x for x in lo]
        q = 90 if deg else math.pi / 2
        la = [max(-q, min(q, x)) for x in la]
    area, per = K.geodesic_area(la, lo, ell, deg)
    d = [K.geodesic_inverse(la[i], lo[i], la[(i + 1) % n], lo[(i + 1) % n], ell, deg)[0] for i in range(n)]
    tol = n * grain(I)
    ck.eq("sum-of-edges", per, sum(d), tol=tol)
    j = I.integer("start", 0, n - 1)
    r = K.geodesic_area(la[j:] + la[:j], lo[j:] + lo[:j], ell, deg)
    ck.eq("perimeter-from-another-vertex", r[1], per, tol=tol)
    ck.eq("perimeter-reversed", K.geodesic_area(la[::-1], lo[::-1], ell, deg)[1], per, tol=tol)
    x = I.lon("shift", deg)
    ck.eq("perimeter-shifted", K.geodesic_area(la, [o + x for o in lo], ell, deg)[1], per, tol=tol)
    if I.cfg == "np":
        k = 1 if deg else 180 / math.pi
        _, P = geod(I).polygon_area_perimeter([o * k for o in lo], [t * k for t in la])
        ck.eq("perimeter-oracle", per, P, tol=tol)
        ck.eq("arrays", tuple(map(float, K.geodesic_area(I.array(la), I.array(lo), ell, deg))), (float(area), float(per)), tol=0)


POLYGONS = {
    "one-degree-triangle": ((0, 0, 1), (0, 1, 0.5)),
    "one-degree-triangle-clockwise": ((0, 1, 0.5), (0, 0, 0.866)),
    "octant": ((0, 0, 90), (0, 90, 0)),
    "square": ((40, 40, 41, 41), (10, 11, 11, 10)),
    "country": ((47.0, 44.5, 43.0, 45.5, 49.0), (-1.0, -1.2, 3.1, 7.0, 6.0)),
    "across-the-date-line": ((-18, -18, -16), (178, -178, 180)),
}


@contract("C25", "area", mode="bounded", cfg=("np",), fixed_n=1)
def c25_area(L, I, ck, M):
    """the enclosed ellipsoidal area, positive counter-clockwise"""
    e = L.ellipsoid.Ellipsoid.from_name("wgs84")
    I.ellab = (e.semimajor_axis, e.semiminor_axis)
    G = geod(I)
    for n, (la, lo) in POLYGONS.items():
        S, _ = G.polygon_area_perimeter(lo, la)
        ck.eq(f"area-{n}", L.karney.geodesic_area(list(la), list(lo), e)[0], S, tol=1e-9 * abs(S) + 1)
