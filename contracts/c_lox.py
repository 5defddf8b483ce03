"""C23 rhumb lines"""
import math
from pyvc.contract import contract, Skip
from contracts.lib import DEG

LATS = ("latitude.geodetic2rectifying", "latitude.rectifying2geodetic", "latitude.geodetic2isometric")
EPS = "0.000001"


def to(M, I, v, deg):
    return v if not deg else (M.deg(v) if I.sym else math.degrees(v))


@contract("C23", "inverse", params=[{"deg": d, "how": h} for d in (True, False) for h in ("any", "parallel")], mode="proof", stubs=LATS)
def c23_inv(L, I, ck, M, deg, how):
    """tan(azimuth) = dlon / disometric; length = meridian arc / |cos azimuth|, or the departure on a parallel"""
    ell = I.ell(L)
    p1, p2 = I.lat("lat1", False, open=True), I.lat("lat2", False, open=True)
    if how == "parallel" and I.cfg == "np":
        p2 = p1
    o1, d = I.lon("lon1", False), I.real("d", -3.14159, 3.14159)
    t = lambda v: to(M, I, v, deg)
    la = L.latitude
    east = 1
    if how == "parallel":
        I.require(d != 0)
        east = 1 if d > 0 else -1
    di = la.geodetic2isometric(p2, ell, False) - la.geodetic2isometric(p1, ell, False)
    want = M.atan2(d, di)
    c = M.abs(M.cos(want))
    if how == "any":
        I.require(c > M.q(EPS))
    elif I.cfg == "std":        # cos(pi/2) is not zero in floating point: the limit of a parallel
        I.require(c < M.q("0.000000001"))
        I.require(c > 0)
    s, az = L.lox.loxodrome_inverse(t(p1), t(o1), t(p2), t(o1 + d), ell, deg)
    full = 360 if deg else 2 * M.pi
    ck.le("azimuth>=0", M.q(0), az)
    ck.lt("azimuth<360", az, full)
    ck.mod("azimuth", az, M.deg(want) if deg else want, full)
    if how == "parallel":
        ck.eq("departure", s, M.real(L.rcurve.parallel(p1, ell, False)) * d * east)
    else:
        ck.eq("length", s * c, L.lox.meridian_arc(p1, p2, ell, False))


@contract("C23", "same_meridian", params=DEG, mode="proof", stubs=LATS)
def c23_mer(L, I, ck, M, deg):
    """along a meridian: the meridian arc, due north or south; the point itself: zero"""
    ell = I.ell(L)
    p1, p2, o = I.lat("lat1", False, open=True), I.lat("lat2", False, open=True), I.lon("lon", False)
    la = L.latitude
    di = la.geodetic2isometric(p2, ell, False) - la.geodetic2isometric(p1, ell, False)
    t = lambda v: to(M, I, v, deg)
    I.require(di != 0)
    s, az = L.lox.loxodrome_inverse(t(p1), t(o), t(p2), t(o), ell, deg)
    ck.eq("length", s, L.lox.meridian_arc(p1, p2, ell, False))
    north = di > 0
    ck.eq("azimuth", az, M.q(0) if north else (M.q(180) if deg else M.pi))
    ck.eq("nowhere", L.lox.loxodrome_inverse(t(p1), t(o), t(p1), t(o), ell, deg)[0], M.q(0))


@contract("C23", "direct", params=DEG, mode="proof", stubs=LATS)
def c23_dir(L, I, ck, M, deg):
    """rectifying latitude advances by s cos(az) / R; longitude by tan(az) times the isometric latitude gained"""
    ell = I.ell(L)
    p1, o1, az, s = I.lat("lat1", False, open=True), I.lon("lon1", False), I.angle("az", False, lo=0), I.real("s", 0, 1e8)
    la = L.latitude
    t = lambda v: to(M, I, v, deg)
    I.require(M.abs(M.cos(az)) > M.q(EPS))
    p2, o2 = L.lox.loxodrome_direct(t(p1), t(o1), s, t(az), ell, deg)
    q = la.rectifying2geodetic(la.geodetic2rectifying(p1, ell, False) + s / L.rsphere.rectifying(ell) * M.cos(az), ell, False)
    ck.eq("lat", p2, M.deg(q) if deg else q)
    di = la.geodetic2isometric(q, ell, False) - la.geodetic2isometric(p1, ell, False)
    w = o1 + M.tan(az) * di
    ck.eq("lon", o2, M.deg(w) if deg else w)


@contract("C23", "direct_parallel", params=[{"deg": d, "east": e} for d in (True, False) for e in (1, -1)], mode="proof", stubs=LATS)
def c23_dirp(L, I, ck, M, deg, east):
    """(almost) due east or west: along the parallel"""
    ell = I.ell(L)
    p1, o1, s = I.lat("lat1", False, open=True), I.lon("lon1", False), I.real("s", 0, 1e8)
    az = I.angle("az", False, lo=80, hi=100) if east > 0 else I.angle("az", False, lo=260, hi=280)
    la = L.latitude
    t = lambda v: to(M, I, v, deg)
    c = M.cos(az)
    I.require(M.abs(c) < M.q("0.000000001"))
    I.require(M.abs(c) > 0)        # floating point has no angle with cosine zero
    p2, o2 = L.lox.loxodrome_direct(t(p1), t(o1), s, t(az), ell, deg)
    q = la.rectifying2geodetic(la.geodetic2rectifying(p1, ell, False) + s / L.rsphere.rectifying(ell) * c, ell, False)
    ck.eq("lat", p2, M.deg(q) if deg else q)
    w = o1 + east * s / L.rcurve.parallel(p1, ell, False)
    ck.eq("lon", o2, M.deg(w) if deg else w)


@contract("C23", "there", params=[{"deg": d, "how": h} for d in (True, False) for h in ("north", "south")], mode="proof", stubs=LATS)
def c23_there(L, I, ck, M, deg, how):
    """the direct solution with the inverse solution's distance and azimuth is the second point;
    the auxiliary latitudes by contract (increasing; the rectifying pair inverse to one another: C15, C16)"""
    ell = I.ell(L)
    p1, p2 = I.lat("lat1", False, open=True), I.lat("lat2", False, open=True)
    o1, d = I.lon("lon1", False), I.real("d", -3.14159, 3.14159)
    la = L.latitude
    t = lambda v: to(M, I, v, deg)
    r1, r2 = (la.geodetic2rectifying(p, ell, False) for p in (p1, p2))
    i1, i2 = (la.geodetic2isometric(p, ell, False) for p in (p1, p2))
    k = 1 if how == "north" else -1
    I.require(k * (p2 - p1) > 0)
    I.require(k * (r2 - r1) > 0)       # contract: increasing
    I.require(k * (i2 - i1) > 0)
    I.require(M.abs(M.cos(M.atan2(d, i2 - i1))) > M.q(EPS))
    s, az = L.lox.loxodrome_inverse(t(p1), t(o1), t(p2), t(o1 + d), ell, deg)
    q2, z2 = L.lox.loxodrome_direct(t(p1), t(o1), s, az, ell, deg)
    want = la.rectifying2geodetic(r2, ell, False)   # = lat2 by C16
    ck.eq("lat", q2, M.deg(want) if deg else want)
    # longitude: tan(az) (iso(want) - iso(lat1)); iso(want) = iso(lat2)
    if True:
        w = o1 + d * (la.geodetic2isometric(want, ell, False) - i1) / (i2 - i1)
        ck.eq("lon", z2, M.deg(w) if deg else w)


@contract("C23", "arc", params=DEG, stubs=())
def c23_arc(L, I, ck, M, deg):
    """meridian arc: rectifying radius times the rectifying latitude difference; non-negative, symmetric, zero, distance from the equator"""
    ell = I.ell(L)
    p1, p2 = I.lat("lat1", deg), I.lat("lat2", deg)
    f = L.lox.meridian_arc
    la = L.latitude
    s = f(p1, p2, ell, deg)
    d = M.real(la.geodetic2rectifying(p2, ell, deg)) - M.real(la.geodetic2rectifying(p1, ell, deg))
    d = M.rad(d) if deg else d
    m = M.real(L.rsphere.rectifying(ell))
    ck.eq("arc", s, m * M.abs(d), tol=1e-9 * I.scale)
    ck.le("nonneg", M.q(0), s)
    ck.eq("symmetric", f(p2, p1, ell, deg), s, tol=1e-9 * I.scale)
    ck.eq("same", f(p1, p1, ell, deg), M.q(0))
    ck.eq("from-equator", L.lox.meridian_dist(p1, ell, deg), M.real(f(0.0, p1, ell, deg)), tol=1e-9 * I.scale)


@contract("C23", "departure", params=DEG)
def c23_dep(L, I, ck, M, deg):
    """parallel radius times the shorter longitude difference"""
    ell = I.ell(L)
    p, o1, o2 = I.lat("lat", deg), I.lon("lon1", deg), I.lon("lon2", deg)
    full = 360 if deg else 2 * M.pi
    s = L.lox.departure(o1, o2, p, ell, deg)
    r = M.real(L.rcurve.parallel(p, ell, deg))
    if not I.sym:
        x = M.mod(M.real(o2) - M.real(o1), full)
        x = min(x, full - x)
        ck.eq("departure", s, r * (M.rad(x) if deg else x), tol=2e-9 * I.scale)
        ck.eq("symmetric", L.lox.departure(o2, o1, p, ell, deg), s, tol=2e-9 * I.scale)
    ck.le("nonneg", M.q(0), s, tol=1e-9 * I.scale)


@contract("C23", "departure_short_way", params=[{"deg": d, "k": k} for d in (True, False) for k in (-2, -1, 0, 1, 2)])
def c23_dep2(L, I, ck, M, deg, k):
    """a difference of at most half a turn, given either way and over any number of turns"""
    ell = I.ell(L)
    p, o1 = I.lat("lat", deg), I.lon("lon1", deg)
    d = I.angle("d", deg, lo=0, hi=180)
    r = M.real(L.rcurve.parallel(p, ell, deg))
    w = r * (M.rad(d) if deg else M.real(d))
    full = 360 if deg else 2 * M.pi
    if not I.sym:
        full = float(full)
    ck.eq("short-way", L.lox.departure(o1, o1 + d + k * full, p, ell, deg), w, tol=4e-9 * I.scale)
    ck.eq("short-way-back", L.lox.departure(o1, o1 - d + k * full, p, ell, deg), w, tol=4e-9 * I.scale)


@contract("C23", "mean", cfg=("np",), params=[{"deg": d, "n": n} for d in (True, False) for n in (1, 2, 3)], stubs=("latitude.geodetic2authalic", "latitude.authalic2geodetic"))
def c23_mean(L, I, ck, M, deg, n):
    """direction of the mean is the direction of the vector sum on the authalic sphere"""
    ell = I.ell(L)
    ps = [(I.lat(f"lat{i}", deg), I.lon(f"lon{i}", deg)) for i in range(n)]
    la = L.latitude
    au = [M.real(la.geodetic2authalic(p, ell, deg)) for p, _ in ps]
    lo = [M.real(o) for _, o in ps]
    if deg:
        au, lo = [M.rad(x) for x in au], [M.rad(x) for x in lo]
    v = (sum(M.cos(a) * M.cos(o) for a, o in zip(au, lo)), sum(M.cos(a) * M.sin(o) for a, o in zip(au, lo)), sum(M.sin(a) for a in au))
    if not I.sym and M.hypot(v[0], v[1]) < 1e-3:
        raise Skip()
    q, z = L.lox.meanm(I.array([p for p, _ in ps]), I.array([o for _, o in ps]), ell, deg)
    lat = M.atan2(v[2], M.sqrt(v[0] ** 2 + v[1] ** 2))
    if I.sym:
        w = la.authalic2geodetic(lat, ell, False)
        ck.eq("lat", q, M.deg(w) if deg else w)
        w = M.atan2(v[1], v[0])
        ck.eq("lon", z, M.deg(w) if deg else w)
    else:
        w = la.authalic2geodetic(float(lat), ell, False)
        ck.eq("lat", q, math.degrees(w) if deg else w, tol=1e-8)
        w = M.atan2(v[1], v[0])
        ck.mod("lon", z, M.deg(w) if deg else w, 360 if deg else 2 * M.pi, tol=1e-8)


@contract("C23", "rejects", params=DEG)
def c23_bad(L, I, ck, M, deg):
    ell = I.ell(L)
    x, s = I.real("x", 0, 1000, open_lo=True), I.real("s", 0, 1e8, open_lo=True)
    p, o, az = I.lat("lat", deg), I.lon("lon", deg), I.angle("az", deg)
    q = 90 if deg else M.pi / 2
    for k in (1, -1):
        bad = k * (q + x)
        if not I.sym:
            bad = float(bad)
            if abs(bad) <= float(q):
                raise Skip()
        ck.raises("lat", ValueError, lambda: L.lox.loxodrome_direct(bad, o, s, az, ell, deg))
        if I.cfg == "np" and not I.sym:
            ck.raises("lat-array", ValueError, lambda: L.lox.loxodrome_direct(I.array([p, bad]), o, s, az, ell, deg))
    ck.raises("range", ValueError, lambda: L.lox.loxodrome_direct(p, o, -s, az, ell, deg))
    if I.cfg == "np" and not I.sym:
        ck.raises("range-array", ValueError, lambda: L.lox.loxodrome_direct(p, o, I.array([s, -s]), az, ell, deg))


@contract("C23", "numeric", mode="bounded", params=DEG, weight=2)
def c23_num(L, I, ck, M, deg):
    """against the exact loxodrome (elliptic integrals)"""
    from mpmath import mp, mpf
    ell = I.ell(L)
    a, b = (mpf(x) for x in I.ellab)
    e2, n = 1 - b * b / a / a, (a - b) / (a + b)
    e = mp.sqrt(e2)
    k = 1 if deg else math.pi / 180
    lat1, lon1 = I.lat("lat1", deg), I.lon("lon1", deg)
    how = I.choice("how", ["any", "any", "close", "meridian", "parallel", "pole"])
    lat2 = I.lat("lat2", deg)
    dl = I.angle("dlon", deg, lo=-180, hi=180)
    if how == "close":
        lat2 = max(-90 * k, min(90 * k, lat1 + k * 10 ** I.real("gap", -7, 0)))
        dl = k * I.real("u", -1, 1) * 10 ** I.real("gap2", -7, 0)
    elif how == "meridian":
        dl = 0.0
    elif how == "parallel":
        lat2 = lat1
    elif how == "pole":
        lat2 = 90 * k * I.choice("pole", [1, -1])
    lon2 = lon1 + dl
    dl = mpf(lon2) - mpf(lon1)
    r = (lambda x: mp.radians(x)) if deg else mpf
    p1, p2, d = r(lat1), r(lat2), r(dl)
    top = lambda p: mp.pi / 2 - abs(p) < 1e-7
    arc = lambda p: a * (mp.ellipe(p, e2) - e2 * mp.sin(p) * mp.cos(p) / mp.sqrt(1 - e2 * mp.sin(p) ** 2))
    iso = lambda p: mp.sign(p) * mp.inf if top(p) else mp.asinh(mp.tan(p)) - e * mp.atanh(e * mp.sin(p))
    tol = a * (2e-12 + 6 * float(n) ** 4)
    m = abs(arc(p2) - arc(p1))
    ck.eq("arc", L.lox.meridian_arc(lat1, lat2, ell, deg), m, tol=tol)
    if top(p1) and top(p2):
        return
    s, az = L.lox.loxodrome_inverse(lat1, lon1, lat2, lon2, ell, deg)
    full = 360 if deg else 2 * mp.pi
    ck.le("azimuth>=0", M.q(0), az)
    ck.lt("azimuth<360", az, full)
    di = iso(p2) - iso(p1)
    if top(p1) or top(p2):
        # which side of 1e-7 of the pole counts as the pole is the library's choice; the azimuth is close to the meridian either way
        return
    # well conditioned: the latitude difference carries no digits when it is tiny
    slope = abs(d) / max(abs(di), mpf("1e-300"))
    far = min(mp.cos(p1), mp.cos(p2))
    cond = 1e-15 / far
    want = mp.atan2(d, di)
    if abs(d) + abs(di) > 1e-7:
        ck.mod("azimuth", az, mp.degrees(want) if deg else want, full, tol=float((57.3 if deg else 1) * (2e-15 + 10 * cond / (abs(d) + abs(di)))) + 1e-12)
    # exact length; near a parallel it tends to the departure
    p = lambda q: a * mp.cos(q) / mp.sqrt(1 - e2 * mp.sin(q) ** 2)
    if how == "parallel":
        length = p(p1) * abs(d)
        ck.eq("length", s, length, tol=tol)
    elif abs(di) > 1e-6 * abs(d):
        length = m * mp.hypot(d, di) / abs(di) if di else 0
        ck.eq("length", s, length, tol=float(tol * (1 + slope)) + float(length * 30 * cond / abs(di)) if di else tol)
    if how == "parallel" or slope < 100:
        if p1 == p2 and d == 0:
            return
        q2, z2 = L.lox.loxodrome_direct(lat1, lon1, s, az, ell, deg)
        back = float((57.3 if deg else 1) * (1e-12 + 10 * float(n) ** 5))
        ck.eq("there-lat", q2, mpf(lat2), tol=back)
        ck.mod("there-lon", z2, mpf(lon2), full, tol=float((1 + slope) * back / far ** 2 + abs(d) * back / far) + (1e-9 if deg else 1e-11))
    if I.cfg == "np" and how != "pole":
        import numpy as np
        S, A = L.lox.loxodrome_inverse(np.array([lat1, lat1, lat1 / 2]), lon1, np.array([lat2, lat1, lat2 / 2]), lon2, ell, deg)
        for j, (x, y) in enumerate(((lat1, lat2), (lat1, lat1), (lat1 / 2, lat2 / 2))):
            t = L.lox.loxodrome_inverse(x, lon1, y, lon2, ell, deg)
            ck.eq(f"array-length{j}", S[j], t[0], tol=1e-9 * I.scale)
            ck.mod(f"array-azimuth{j}", A[j], t[1], full, tol=1e-9)
    if deg:
        ck.eq("default-unit", tuple(map(float, L.lox.loxodrome_inverse(lat1, lon1, lat2, lon2, ell))), (float(s), float(az)), tol=0)
