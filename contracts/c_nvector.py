"""C20 n-vectors"""
from pyvc.contract import contract, Skip
from contracts.lib import DEG, dot, cross, basis

E2G = ("ecef.ecef2geodetic",)


def unitvec(M, lat, lon, deg=True):
    if deg:
        lat, lon = M.rad(lat), M.rad(lon)
    return (M.cos(lat) * M.cos(lon), M.cos(lat) * M.sin(lon), M.sin(lat))


def vec(I, M, k):
    """a unit vector given by two angles; floats for the library in the monitor"""
    v = unitvec(M, I.lat("lat" + k), I.lon("lon" + k))
    return tuple(x if I.sym else float(x) for x in v)


def near(I, M, k, u):
    """a point that is often close to u or to its antipode"""
    if I.sym:
        return vec(I, M, k)
    import math
    how = I.choice("how" + k, ["any", "close", "far", "any"])
    v = vec(I, M, k)
    if how == "any":
        return v
    s = 10 ** I.real("gap" + k, -8 if how == "close" else -2.5, -1)
    w = [(1 if how == "close" else -1) * a + s * b for a, b in zip(u, v)]
    n = math.sqrt(sum(x * x for x in w))
    return tuple(x / n for x in w)


def lemma(ck, u, v):
    ck.lemma_abs_le("lagrange", dot(u, v), 1, cross(u, v))


def anyvec(I, M, k):
    """the proof does not need unit length: any vector (the monitor draws unit vectors)"""
    return tuple(I.real(c + k, -1, 1) for c in "xyz") if I.sym else vec(I, M, k)


def reals(M, v):
    return tuple(M.real(x) for x in v)


def norm(M, v):
    return M.sqrt(dot(v, v))


@contract("C20", "normal", params=DEG)
def c20_normal(L, I, ck, M, deg):
    """unit outward normal; converting back recovers latitude and (off the poles) longitude modulo a turn"""
    lat, lon = I.lat("lat", deg), I.lon("lon", deg)
    n = L.nvector.geodetic2nvector(lat, lon, deg)
    ck.eq("normal", tuple(n), basis(M, lat, lon, deg)[2], tol=1e-14)
    q = reals(M, n)
    ck.eq("unit", dot(q, q), M.q(1), tol=1e-14)
    la, lo = L.nvector.nvector2geodetic(*n, deg)
    ck.eq("lat", la, lat, tol=1e-13 if deg else 1e-15)
    c = 1 if I.sym else float(M.cos(M.rad(lat) if deg else lat))
    if I.sym or c > 1e-7:
        I.require(M.lt(0, M.cos(M.rad(lat) if deg else M.real(lat)))) if I.sym and hasattr(M, "lt") else None
        f = M.rad if deg else M.real
        t = 1e-13 / c
        ck.eq("lon-cos", M.cos(f(lat)) * M.cos(f(lo)), M.cos(f(lat)) * M.cos(f(lon)), tol=1e-13)
        ck.eq("lon-sin", M.cos(f(lat)) * M.sin(f(lo)), M.cos(f(lat)) * M.sin(f(lon)), tol=1e-13)
    if deg:
        ck.eq("default-unit", tuple(L.nvector.geodetic2nvector(lat, lon)), tuple(n), tol=0)
        ck.eq("default-unit-back", tuple(L.nvector.nvector2geodetic(*n)), (la, lo), tol=0)


@contract("C20", "back", params=DEG)
def c20_back(L, I, ck, M, deg):
    """any non-zero vector: the latitude/longitude of its direction, in range"""
    x, y, z = (I.real(k, -2, 2, special=(0.0,)) for k in "xyz")
    X = (M.real(x), M.real(y), M.real(z))
    I.assume_pos(x * x + y * y + z * z)
    la, lo = L.nvector.nvector2geodetic(x, y, z, deg)
    r = norm(M, X)
    n = unitvec(M, la, lo, deg)
    ck.eq("direction", tuple(r * k for k in n), X, tol=1e-13)
    q, h = (90, 180) if deg else (M.pi / 2, M.pi)
    ck.le("lat<=", la, q, tol=1e-14)
    ck.le("lat>=", -q, la, tol=1e-14)
    ck.le("lon<=", lo, h, tol=1e-14)
    ck.le("lon>=", -h, lo, tol=1e-14)
    n2 = L.nvector.geodetic2nvector(la, lo, deg)
    ck.eq("again", tuple(r * M.real(k) for k in n2), X, tol=1e-13)


@contract("C20", "ecef", params=DEG, stubs=E2G)
def c20_ecef(L, I, ck, M, deg):
    """the ECEF variants agree with the geodetic/ECEF conversions of the same ellipsoid"""
    ell = I.ell(L)
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h", hi=3e4)
    n = L.nvector.geodetic2nvector(lat, lon, deg)
    p = L.ecef.geodetic2ecef(lat, lon, h, ell, deg=deg)
    for k in (True, False):
        ck.eq(f"nvector2ecef{k}", tuple(L.nvector.nvector2ecef(*n, h, ell, k)), tuple(p), rel=1e-13, scale=I.scale)
        ck.eq(f"nvector2ecef-surface{k}", tuple(L.nvector.nvector2ecef(*n, ell=ell, deg=k)), tuple(L.ecef.geodetic2ecef(lat, lon, 0, ell, deg=deg)), rel=1e-13, scale=I.scale)
        if I.sym:
            x = [I.length(f"{c}{k}") for c in "xyz"]
        else:
            x = [float(c) for c in p]
        g = L.ecef.ecef2geodetic(*x, ell, deg=k)
        ck.eq(f"ecef2nvector{k}", tuple(L.nvector.ecef2nvector(*x, ell, k)), unitvec(M, g[0], g[1], k), tol=1e-14)
        if not I.sym:
            ck.eq(f"ecef2nvector-normal{k}", tuple(L.nvector.ecef2nvector(*x, ell=ell, deg=k)), basis(M, lat, lon, deg)[2], tol=2e-10)
    ck.eq("default-wgs84", tuple(L.nvector.nvector2ecef(*n, h)), tuple(L.ecef.geodetic2ecef(lat, lon, h, deg=deg)), rel=1e-13, scale=6.4e6)


@contract("C20", "distance")
def c20_dist(L, I, ck, M):
    u = vec(I, M, "1")
    v = near(I, M, "2", u)
    R = I.real("radius", 0, 1e8, open_lo=True)
    lemma(ck, u, v)
    d = L.nvector.nvector_distance(*u, *v, R)
    U, V = reals(M, u), reals(M, v)
    ang = M.real(d) / R
    C = cross(U, V)
    s = norm(M, C)
    if I.sym:
        ck.eq("cos", M.cos(ang), dot(U, V))
        ck.eq("sin", M.sin(ang), s)
    else:
        ck.eq("angle", ang, M.atan2(s, dot(U, V)), tol=1e-14)
    ck.le("lower", M.q(0), d)
    ck.le("upper", d, R * M.pi, tol=1e-12 * R)
    ck.eq("symmetric", L.nvector.nvector_distance(*v, *u, R), d, tol=1e-12 * R if not I.sym else None)
    ck.eq("coincident", L.nvector.nvector_distance(*u, *u, R), M.q(0), tol=1e-12 * R if not I.sym else None)
    m = tuple(-k for k in u)
    ck.eq("antipode", L.nvector.nvector_distance(*u, *m, R), R * M.pi, tol=1e-12 * R if not I.sym else None)
    ck.eq("default-radius", L.nvector.nvector_distance(*u, *v), L.nvector.nvector_distance(*u, *v, L.rsphere.eqavol()), tol=1e-8 if not I.sym else None)


@contract("C20", "interpolate")
def c20_interp(L, I, ck, M):
    """unit length, on the great circle, at that fraction of the angle"""
    if I.sym:
        return interp_proof(L, I, ck, M)
    u = vec(I, M, "1")
    v = near(I, M, "2", u)
    f = I.real("fraction", -1, 2, special=(0.0, 1.0, 0.5))
    U, V = reals(M, u), reals(M, v)
    d = dot(U, V)
    r = reals(M, L.nvector.nvector_interpolate(*u, *v, f))
    s = norm(M, cross(U, V))
    w = M.atan2(s, d)
    if d < 0 and s < 1e-4:
        raise Skip()                            # (nearly) antipodal: no unique great circle
    tol = 1e-13 + 1e-15 / float(s) ** 2 if w > 1 else 1e-13
    ck.eq("unit", norm(M, r), M.q(1), tol=1e-14)
    a = U if s < 1e-15 else tuple((b - x * d) / s for x, b in zip(U, V))     # unit vector at right angles, towards V
    for i in range(3):
        want = U[i] if s < 1e-15 else U[i] * M.cos(f * w) + a[i] * M.sin(f * w)
        ck.eq(f"point{i}", r[i], want, tol=tol + (2e-10 if w < 2e-8 else 1e-14))
    ck.eq("start", tuple(L.nvector.nvector_interpolate(*u, *v, 0)), u, tol=1e-13)
    ck.eq("end", tuple(L.nvector.nvector_interpolate(*u, *v, 1)), v, tol=1e-13)


def interp_proof(L, I, ck, M):
    """every pair of non-antipodal unit vectors is (U, U cos w + A sin w), A a unit vector at right angles to U, 0 <= w < pi"""
    lat, lon, az = I.lat("lat", False), I.lon("lon", False), I.angle("az", False)
    E, N, U = basis(M, lat, lon, False)
    A = tuple(N[i] * M.cos(az) + E[i] * M.sin(az) for i in range(3))
    w = I.angle("w", False, lo=0, hi=180)
    I.assume_pos(M.pi - w)
    I.assume_pos(1 + M.cos(w))
    f = I.real("fraction", 0, 1)
    V = tuple(U[i] * M.cos(w) + A[i] * M.sin(w) for i in range(3))
    c = tuple((1 - f) * a + f * b for a, b in zip(U, V))
    ck.lemma("dot", "==", dot(U, V), M.cos(w))
    ck.cut("chord>0", (dot(c, c), f, M.cos(w)), [lambda q, f, d: ("==", q, (1 - f) ** 2 + f ** 2 + 2 * f * (1 - f) * d),
           lambda q, f, d: ("<=", M.q(0), f), lambda q, f, d: ("<=", f, M.q(1)), lambda q, f, d: ("<", M.q(-1), d)], lambda q, f, d: ("<", M.q(0), q))
    tiny = w < M.q("1e-10")
    if not tiny:
        ck.lemma("apart", "<", M.cos(w), M.q(1))
    r = reals(M, L.nvector.nvector_interpolate(*U, *V, f))
    ck.eq("unit", dot(r, r), M.q(1))
    if tiny:
        ck.eq("chord", cross(r, c), (M.q(0),) * 3)     # coincident to rounding: the normalised chord point
        return
    ck.eq("point", r, tuple(U[i] * M.cos(f * w) + A[i] * M.sin(f * w) for i in range(3)))


@contract("C20", "mean", params=[{"n": n} for n in (1, 2, 3, 5)])
def c20_mean(L, I, ck, M, n):
    """normalised sum, for lists, tuples and arrays"""
    vs = [tuple(I.real(f"{c}{i}", -1, 1) for c in "xyz") for i in range(n)] if I.sym else [vec(I, M, str(i)) for i in range(n)]
    cols = [[v[k] for v in vs] for k in range(3)]
    S = tuple(sum((M.real(x) for x in c), M.q(0)) for c in cols)
    if I.sym:
        I.assume_pos(dot(S, S))
    elif norm(M, S) < 1e-3:
        raise Skip()
    for nm, mk in (("list", list), ("tuple", tuple)) + ((("array", I.array),) if I.cfg == "np" else ()):
        r = L.nvector.nvector_mean(*[mk(c) for c in cols])
        N = norm(M, S)
        ck.eq(f"sum-{nm}", tuple(M.real(x) * N for x in r), S, tol=1e-13)
        q = reals(M, r)
        ck.eq(f"unit-{nm}", dot(q, q), M.q(1), tol=1e-14)


@contract("C20", "cross_track")
def c20_xt(L, I, ck, M):
    """radius times the signed angle to the plane of the track, positive to its left"""
    u = anyvec(I, M, "1")
    v = anyvec(I, M, "2") if I.sym else near(I, M, "2", u)
    p = vec(I, M, "p")
    R = I.real("radius", 0, 1e8, open_lo=True)
    U, V, P = reals(M, u), reals(M, v), reals(M, p)
    c = cross(U, V)
    if I.sym:
        I.assume_pos(dot(c, c))
    s = norm(M, c)
    if not I.sym and s < 1e-9:
        raise Skip()
    x = M.real(L.nvector.nvector_cross_track_distance(*u, *v, *p, R)) / R
    ck.eq("sin", M.sin(x) * s, dot(c, P), tol=1e-14)
    ck.le("<=90", x, M.pi / 2, tol=1e-14)
    ck.le(">=-90", -M.pi / 2, x, tol=1e-14)
    if not I.sym:
        n = tuple(k / s for k in c)
        ck.eq("angle", x, M.atan2(dot(n, P), norm(M, cross(n, P))), tol=2e-15 / s + 1e-14)
    y = M.real(L.nvector.nvector_cross_track_distance(*v, *u, *p, R)) / R
    ck.eq("reversed", y, -x, tol=2e-15 / s + 1e-14 if not I.sym else None)
    ck.eq("default-radius", L.nvector.nvector_cross_track_distance(*u, *v, *p), L.nvector.nvector_cross_track_distance(*u, *v, *p, L.rsphere.eqavol()), tol=1e-7 if not I.sym else None)


@contract("C20", "intersection")
def c20_cross(L, I, ck, M):
    """on both great circles, unit length, on the side of the given points"""
    vs = [anyvec(I, M, k) for k in "1234"]
    A, B, C, D = (reals(M, v) for v in vs)
    c1, c2 = cross(A, B), cross(C, D)
    k = cross(c1, c2)
    if I.sym:
        I.assume_pos(dot(k, k))
    s = norm(M, k)
    if not I.sym and s < 1e-6:
        raise Skip()
    tol = 1e-14 + 2e-15 / s if not I.sym else None
    r = reals(M, L.nvector.nvector_intersection(*vs[0], *vs[1], *vs[2], *vs[3]))
    ck.eq("unit", dot(r, r), M.q(1), tol=1e-14)
    ck.eq("first-circle", dot(r, c1), M.q(0), tol=tol)
    ck.eq("second-circle", dot(r, c2), M.q(0), tol=tol)
    m = tuple(a + b + c + d for a, b, c, d in zip(A, B, C, D))
    ck.le("side", M.q(0), dot(r, m), tol=tol or 0)
