"""C03-C07: local frames, positions, azimuth/elevation/range, downrange/crossrange."""
from pyvc.contract import contract
from contracts.lib import basis, dot, sub3, add3, mat_eq, transpose, REL, DEG

E2G = ("ecef.ecef2geodetic",)
FR = ("enu", "ned", "nwu", "sez")


def axes(M, lat, lon, deg, frame):
    e, n, u = basis(M, lat, lon, deg)
    neg = lambda v: tuple(-x for x in v)
    return {"enu": (e, n, u), "ned": (n, e, neg(u)), "nwu": (n, neg(e), u), "sez": (neg(n), e, u)}[frame]


def relabel(frame, e, n, u):
    return {"enu": (e, n, u), "ned": (n, e, -u), "nwu": (n, -e, u), "sez": (-n, e, u)}[frame]


def unlabel(frame, p, q, r):
    return {"enu": (p, q, r), "ned": (q, p, -r), "nwu": (-q, p, r), "sez": (q, -p, r)}[frame]


# ------------------------------------------------------------------ C03
@contract("C03", "matrices", params=[{"frame": f, "deg": d} for f in FR for d in (True, False)])
def c03_matrices(L, I, ck, M, frame, deg):
    lat, lon = I.lat("lat", deg), I.lon("lon", deg)
    mod = getattr(L, frame)
    R = getattr(mod, f"ecef2{frame}_matrix")(lat, lon, deg=deg)
    Ri = getattr(mod, f"{frame}2ecef_matrix")(lat, lon, deg=deg)
    want = axes(M, lat, lon, deg, frame)
    mat_eq(ck, "rows", R, want, 1e-15)
    mat_eq(ck, "transpose", Ri, transpose(want), 1e-15)
    for i in range(3):
        for j in range(3):
            ck.eq(f"orthonormal{i}{j}", dot([M.real(x) for x in R[i]], [M.real(x) for x in R[j]]), M.q(int(i == j)), tol=1e-15)
    a, b, c = [[M.real(x) for x in r] for r in R]
    det = a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    ck.eq("determinant", det, M.q(1), tol=2e-15)


VEC = {"enu": (("ecef", "ecef2enuv"), ("enu", "enu2ecefv")), "ned": (("ned", "ecef2nedv"), None),
       "nwu": (("nwu", "ecef2nwuv"), ("nwu", "nwu2ecefv")), "sez": (("sez", "ecef2sezv"), ("sez", "sez2ecefv")),
       "uvw": (("ecef", "uvw2enu"), ("ecef", "enu2uvw"))}


@contract("C03", "vectors", params=[{"frame": f, "deg": d} for f in (*FR, "uvw") for d in (True, False)])
def c03_vectors(L, I, ck, M, frame, deg):
    lat, lon = I.lat("lat", deg), I.lon("lon", deg)
    v = [I.length(k) for k in "uvw"]
    fwd, back = VEC[frame]
    fr = "enu" if frame == "uvw" else frame
    ax = axes(M, lat, lon, deg, fr)
    m = max([abs(float(x)) for x in v] + [1]) if not I.sym else None
    got = getattr(getattr(L, fwd[0]), fwd[1])(*v, lat, lon, deg=deg)
    ck.eq("forward", tuple(got), tuple(dot(r, [M.real(x) for x in v]) for r in ax), rel=4e-15, scale=m)
    if back:
        got = getattr(getattr(L, back[0]), back[1])(*v, lat, lon, deg=deg)
        ck.eq("inverse", tuple(got), tuple(dot(r, [M.real(x) for x in v]) for r in transpose(ax)), rel=4e-15, scale=m)


# ------------------------------------------------------------------ C04
def obs(I, deg, s=""):
    return I.lat("lat0" + s, deg), I.lon("lon0" + s, deg), I.alt("h0" + s)


@contract("C04", "ecef2enu", params=[{"deg": True}, {"deg": False}])
def c04_ecef2enu(L, I, ck, M, deg):
    ell = I.ell(L)
    lat, lon, h = obs(I, deg)
    p = [I.length(k, 3e7) for k in "xyz"]
    o = [M.real(c) for c in L.ecef.geodetic2ecef(lat, lon, h, ell, deg=deg)]
    got = L.ecef.ecef2enu(*p, lat, lon, h, ell, deg=deg)
    d = [M.real(a) - b for a, b in zip(p, o)]
    sc = None if I.sym else max(I.scale, *[abs(float(x)) for x in p])
    ck.eq("enu", tuple(got), tuple(dot(r, d) for r in basis(M, lat, lon, deg)), rel=4e-15, scale=sc)
    ck.eq("distance", dot([M.real(g) for g in got], [M.real(g) for g in got]), dot(d, d), rel=1e-14, scale=None if I.sym else sc * sc)
    org = L.ecef.ecef2enu(*L.ecef.geodetic2ecef(lat, lon, h, ell, deg=deg), lat, lon, h, ell, deg=deg)
    ck.eq("origin", tuple(org), (M.q(0),) * 3, rel=4e-15, scale=sc)
    back = L.ecef.enu2ecef(*got, lat, lon, h, ell, deg=deg)
    ck.eq("back", tuple(back), tuple(M.real(x) for x in p), rel=4e-15, scale=sc)


@contract("C04", "enu2ecef", params=[{"deg": True}, {"deg": False}])
def c04_enu2ecef(L, I, ck, M, deg):
    ell = I.ell(L)
    lat, lon, h = obs(I, deg)
    v = [I.length(k, 3e7) for k in ("e", "n", "u")]
    o = [M.real(c) for c in L.ecef.geodetic2ecef(lat, lon, h, ell, deg=deg)]
    got = L.ecef.enu2ecef(*v, lat, lon, h, ell, deg=deg)
    sc = None if I.sym else max(I.scale, *[abs(float(x)) for x in v])
    ax = transpose(basis(M, lat, lon, deg))
    ck.eq("ecef", tuple(got), tuple(a + dot(r, [M.real(x) for x in v]) for a, r in zip(o, ax)), rel=4e-15, scale=sc)
    back = L.ecef.ecef2enu(*got, lat, lon, h, ell, deg=deg)
    ck.eq("back", tuple(back), tuple(M.real(x) for x in v), rel=4e-15, scale=sc)


@contract("C04", "geodetic", params=[{"deg": True}, {"deg": False}], stubs=E2G)
def c04_geodetic(L, I, ck, M, deg):
    """the geodetic variants are the compositions with the geodetic/ECEF conversions"""
    ell = I.ell(L)
    lat0, lon0, h0 = obs(I, deg)
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h")
    sc = I.scale
    p = L.ecef.geodetic2ecef(lat, lon, h, ell, deg=deg)
    o = L.ecef.geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
    d = [M.real(a) - M.real(b) for a, b in zip(p, o)]
    got = L.enu.geodetic2enu(lat, lon, h, lat0, lon0, h0, ell, deg=deg)
    ck.eq("geodetic2enu", tuple(got), tuple(dot(r, d) for r in basis(M, lat0, lon0, deg)), rel=1e-14, scale=sc)
    v = [I.length(k, 1e6) for k in ("e", "n", "u")]
    want = L.ecef.ecef2geodetic(*L.ecef.enu2ecef(*v, lat0, lon0, h0, ell, deg=deg), ell, deg=deg)
    geo_eq(L, I, ck, M, "enu2geodetic", L.enu.enu2geodetic(*v, lat0, lon0, h0, ell, deg=deg), want, ell, deg)


def geo_eq(L, I, ck, M, label, got, want, ell, deg):
    """same geodetic triple (identical terms in the verifier, same ECEF point in the monitor)"""
    if I.sym:
        return ck.eq(label, tuple(got), tuple(want))
    p, q = L.ecef.geodetic2ecef(*got, ell, deg=deg), L.ecef.geodetic2ecef(*want, ell, deg=deg)
    m = max(I.scale, *[abs(float(x)) for x in q])
    ck.eq(label, tuple(p), tuple(q), rel=1e-14, scale=m)
    ck.eq(label + ".alt", got[2], want[2], rel=1e-14, scale=m)
    ck.le(label + ".lat-range", M.abs(got[0]), 90 if deg else M.pi / 2, tol=1e-13)


# ------------------------------------------------------------------ C05
@contract("C05", "from_local", params=[{"frame": f, "deg": d} for f in FR[1:] for d in (True, False)], stubs=E2G)
def c05_from_local(L, I, ck, M, frame, deg):
    ell = I.ell(L)
    lat0, lon0, h0 = obs(I, deg)
    e, n, u = [I.length(k, 1e6) for k in ("e", "n", "u")]
    p = relabel(frame, e, n, u)
    mod = getattr(L, frame)
    tol = dict(rel=1e-14, scale=None if I.sym else I.scale)
    ck.eq("2ecef", tuple(getattr(mod, f"{frame}2ecef")(*p, lat0, lon0, h0, ell, deg=deg)),
          tuple(L.ecef.enu2ecef(e, n, u, lat0, lon0, h0, ell, deg=deg)), **tol)
    geo_eq(L, I, ck, M, "2geodetic", getattr(mod, f"{frame}2geodetic")(*p, lat0, lon0, h0, ell, deg=deg),
           L.enu.enu2geodetic(e, n, u, lat0, lon0, h0, ell, deg=deg), ell, deg)
    if frame != "ned":
        ck.eq("2ecefv", tuple(getattr(mod, f"{frame}2ecefv")(*p, lat0, lon0, deg=deg)),
              tuple(L.enu.enu2ecefv(e, n, u, lat0, lon0, deg=deg)), **tol)
    got = getattr(mod, f"{frame}2aer")(*p, deg=deg)
    want = L.enu.enu2aer(e, n, u, deg=deg)
    ck.eq("2aer", tuple(got), tuple(want), rel=1e-14)


@contract("C05", "to_local", params=[{"frame": f, "deg": d} for f in FR[1:] for d in (True, False)])
def c05_to_local(L, I, ck, M, frame, deg):
    ell = I.ell(L)
    lat0, lon0, h0 = obs(I, deg)
    tol = dict(rel=1e-14, scale=None if I.sym else I.scale)
    mod = getattr(L, frame)
    p = [I.length(k, 1e7) for k in "xyz"]
    ck.eq("ecef2", tuple(getattr(mod, f"ecef2{frame}")(*p, lat0, lon0, h0, ell, deg=deg)),
          relabel(frame, *L.ecef.ecef2enu(*p, lat0, lon0, h0, ell, deg=deg)), **tol)
    ck.eq("ecef2v", tuple(getattr(mod, f"ecef2{frame}v")(*p, lat0, lon0, deg=deg)),
          relabel(frame, *L.ecef.ecef2enuv(*p, lat0, lon0, deg=deg)), **tol)
    g = I.lat("lat", deg), I.lon("lon", deg), I.alt("h")
    ck.eq("geodetic2", tuple(getattr(mod, f"geodetic2{frame}")(*g, lat0, lon0, h0, ell, deg=deg)),
          relabel(frame, *L.enu.geodetic2enu(*g, lat0, lon0, h0, ell, deg=deg)), **tol)
    az, el, r = I.angle("az", deg), I.angle("el", deg, -90.0, 90.0), I.length("srange")
    ck.eq("aer2", tuple(getattr(mod, f"aer2{frame}")(az, el, r, deg=deg)),
          relabel(frame, *L.enu.aer2enu(az, el, r, deg=deg)), rel=1e-14)


# ------------------------------------------------------------------ C06
@contract("C06", "enu2aer", params=[{"deg": True}, {"deg": False}])
def c06_enu2aer(L, I, ck, M, deg):
    v = [I.length(k, 1e8) for k in ("e", "n", "u")]
    az, el, r = L.enu.enu2aer(*v, deg=deg)
    mm = M.q("0.001")
    t = [M.q(0) if (x < 1e-3 and x > -1e-3 if not I.sym else abs(x) < mm) else M.real(x) for x in v]
    full, half = (M.q(360), M.q(90)) if deg else (2 * M.pi, M.pi / 2)
    A, E = (M.rad(az), M.rad(el)) if deg else (M.real(az), M.real(el))
    R = M.real(r)
    ck.eq("range", r, M.sqrt(dot(t, t)), rel=1e-15 * 4, scale=1e-3)
    ck.le("range>=0", M.q(0), r)
    ck.le("el<=90", el, half, tol=1e-13)
    ck.le("el>=-90", -half, el, tol=1e-13)
    ck.le("az>=0", M.q(0), az)
    (ck.lt if I.sym else ck.le)("az<360", az, full, tol=1e-13)
    sc = None if I.sym else max(1e-3, float(R))
    ck.eq("east", R * M.cos(E) * M.sin(A), t[0], rel=4e-15, scale=sc)
    ck.eq("north", R * M.cos(E) * M.cos(A), t[1], rel=4e-15, scale=sc)
    ck.eq("up", R * M.sin(E), t[2], rel=4e-15, scale=sc)
    back = L.enu.aer2enu(az, el, r, deg=deg)
    ck.eq("back", tuple(back), tuple(t), rel=4e-15, scale=sc)


@contract("C06", "aer2enu", params=[{"deg": True}, {"deg": False}])
def c06_aer2enu(L, I, ck, M, deg):
    az, el, r = I.angle("az", deg), I.angle("el", deg, -90.0, 90.0), I.length("r", 1e8)
    A, E = (M.rad(az), M.rad(el)) if deg else (M.real(az), M.real(el))
    R = M.real(r)
    ck.eq("enu", tuple(L.enu.aer2enu(az, el, r, deg=deg)),
          (R * M.cos(E) * M.sin(A), R * M.cos(E) * M.cos(A), R * M.sin(E)), rel=4e-15, scale=None if I.sym else abs(float(r)))


@contract("C06", "compose_to", params=[{"deg": True}, {"deg": False}], stubs=("enu.enu2aer",))
def c06_compose_to(L, I, ck, M, deg):
    """... -> az/el/range equals ENU position then polar form"""
    ell = I.ell(L)
    lat0, lon0, h0 = obs(I, deg)
    p = [I.length(k, 3e7) for k in "xyz"]
    g = I.lat("lat", deg), I.lon("lon", deg), I.alt("h")
    aer_eq(ck, I, M, "ecef2aer", L.aer.ecef2aer(*p, lat0, lon0, h0, ell, deg=deg),
           L.enu.enu2aer(*L.ecef.ecef2enu(*p, lat0, lon0, h0, ell, deg=deg), deg=deg), deg)
    aer_eq(ck, I, M, "geodetic2aer", L.aer.geodetic2aer(*g, lat0, lon0, h0, ell, deg=deg),
           L.enu.enu2aer(*L.enu.geodetic2enu(*g, lat0, lon0, h0, ell, deg=deg), deg=deg), deg)


def aer_eq(ck, I, M, label, got, want, deg):
    if I.sym:
        return ck.eq(label, tuple(got), tuple(want))
    r = max(float(want[2]), 1e-3)
    f = (lambda a: (M.rad(a[0]), M.rad(a[1]), M.real(a[2]))) if deg else (lambda a: tuple(M.real(x) for x in a))
    xyz = lambda a: (a[2] * M.cos(a[1]) * M.sin(a[0]), a[2] * M.cos(a[1]) * M.cos(a[0]), a[2] * M.sin(a[1]))
    s = max(I.scale, r)
    ck.eq(label + ".vector", xyz(f(got)), xyz(f(want)), rel=1e-14, scale=s)
    ck.eq(label + ".range", got[2], want[2], rel=1e-14, scale=s)
    ck.le(label + ".az", M.q(0), got[0])
    ck.le(label + ".az360", got[0], 360 if deg else 2 * M.pi)


@contract("C06", "compose_from", params=[{"deg": True}, {"deg": False}], stubs=E2G)
def c06_compose_from(L, I, ck, M, deg):
    ell = I.ell(L)
    lat0, lon0, h0 = obs(I, deg)
    az, el, r = I.angle("az", deg), I.angle("el", deg, -90.0, 90.0), I.length("r", 1e6)
    enu = L.enu.aer2enu(az, el, r, deg=deg)
    want = L.ecef.enu2ecef(*enu, lat0, lon0, h0, ell, deg=deg)
    ck.eq("aer2ecef", tuple(L.aer.aer2ecef(az, el, r, lat0, lon0, h0, ell, deg=deg)), tuple(want), rel=1e-14, scale=None if I.sym else I.scale)
    geo_eq(L, I, ck, M, "aer2geodetic", L.aer.aer2geodetic(az, el, r, lat0, lon0, h0, ell, deg=deg),
           L.ecef.ecef2geodetic(*want, ell, deg=deg), ell, deg)


# ------------------------------------------------------------------ C07
@contract("C07", "enu_dca", params=[{"deg": True}, {"deg": False}])
def c07_enu(L, I, ck, M, deg):
    v = [I.length(k, 1e7) for k in ("e", "n", "u")]
    hd = I.angle("heading", deg)
    H = M.rad(hd) if deg else M.real(hd)
    e, n, u = [M.real(x) for x in v]
    sc = None if I.sym else max(1.0, *[abs(float(x)) for x in v])
    got = L.dca.enu2dca(*v, hd, deg=deg)
    # along the heading: (sin H, cos H); to the left of it: (-cos H, sin H)
    ck.eq("enu2dca", tuple(got), (e * M.sin(H) + n * M.cos(H), -e * M.cos(H) + n * M.sin(H), u), rel=4e-15, scale=sc)
    ck.eq("length", dot([M.real(x) for x in got], [M.real(x) for x in got]), dot((e, n, u), (e, n, u)), rel=1e-14, scale=None if I.sym else sc * sc)
    ck.eq("back", tuple(L.dca.dca2enu(*got, hd, deg=deg)), (e, n, u), rel=4e-15, scale=sc)
    inv = L.dca.dca2enu(*v, hd, deg=deg)
    ck.eq("dca2enu", tuple(inv), (e * M.sin(H) - n * M.cos(H), e * M.cos(H) + n * M.sin(H), u), rel=4e-15, scale=sc)
    ne = L.dca.dca2ned(*v, hd, deg=deg)
    ck.eq("dca2ned", tuple(ne), (inv[1], inv[0], -inv[2]), rel=4e-15, scale=sc)
    ck.eq("ned2dca", tuple(L.dca.ned2dca(v[1], v[0], -v[2], hd, deg=deg)), tuple(got), rel=4e-15, scale=sc)


@contract("C07", "compose", params=[{"deg": True}, {"deg": False}], stubs=E2G)
def c07_compose(L, I, ck, M, deg):
    ell = I.ell(L)
    lat0, lon0, h0 = obs(I, deg)
    hd = I.angle("heading", deg)
    tol = dict(rel=1e-14, scale=None if I.sym else I.scale)
    p = [I.length(k, 1e6) for k in "xyz"]
    ck.eq("ecef2dca", tuple(L.dca.ecef2dca(*p, lat0, lon0, h0, hd, ell, deg=deg)),
          tuple(L.dca.enu2dca(*L.ecef.ecef2enu(*p, lat0, lon0, h0, ell, deg=deg), hd, deg=deg)), **tol)
    g = I.lat("lat", deg), I.lon("lon", deg), I.alt("h")
    ck.eq("geodetic2dca", tuple(L.dca.geodetic2dca(*g, lat0, lon0, h0, hd, ell, deg=deg)),
          tuple(L.dca.enu2dca(*L.enu.geodetic2enu(*g, lat0, lon0, h0, ell, deg=deg), hd, deg=deg)), **tol)
    enu = L.dca.dca2enu(*p, hd, deg=deg)
    ck.eq("dca2ecef", tuple(L.dca.dca2ecef(*p, lat0, lon0, h0, hd, ell, deg=deg)),
          tuple(L.ecef.enu2ecef(*enu, lat0, lon0, h0, ell, deg=deg)), **tol)
    geo_eq(L, I, ck, M, "dca2geodetic", L.dca.dca2geodetic(*p, lat0, lon0, h0, hd, ell, deg=deg),
           L.enu.enu2geodetic(*enu, lat0, lon0, h0, ell, deg=deg), ell, deg)


@contract("C07", "aer", params=[{"deg": True}, {"deg": False}])
def c07_aer(L, I, ck, M, deg):
    hd = I.angle("heading", deg)
    p = [I.length(k, 1e6) for k in "xyz"]
    I.scale = 1.0
    aer_eq(ck, I, M, "dca2aer", L.dca.dca2aer(*p, hd, deg=deg), L.enu.enu2aer(*L.dca.dca2enu(*p, hd, deg=deg), deg=deg), deg)
    az, el, r = I.angle("az", deg), I.angle("el", deg, -90.0, 90.0), I.length("r", 1e6)
    ck.eq("aer2dca", tuple(L.dca.aer2dca(az, el, r, hd, deg=deg)),
          tuple(L.dca.enu2dca(*L.enu.aer2enu(az, el, r, deg=deg), hd, deg=deg)), rel=1e-14, scale=None if I.sym else max(1, abs(float(r))))
