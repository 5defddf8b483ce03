"""C21 Vincenty geodesics, C22 geodesic tracks"""
import math
from pyvc.contract import contract, Skip
from contracts.lib import DEG, dot, cross


def central(lat1, lon1, lat2, lon2, deg):
    """spherical central angle, degrees"""
    r = math.radians if deg else float
    a, b, c = r(lat1), r(lat2), r(lon2) - r(lon1)
    x = (math.cos(a) * math.sin(b) - math.sin(a) * math.cos(b) * math.cos(c), math.cos(b) * math.sin(c))
    return math.degrees(math.atan2(math.hypot(*x), math.sin(a) * math.sin(b) + math.cos(a) * math.cos(b) * math.cos(c)))


def flat(I):
    a, b = (float(x) for x in I.ellab)
    return (a - b) / a


def limit(I):
    """Vincenty's iteration is only defined away from the antipode: about 2 f 180 degrees"""
    return 178.5 - 500 * flat(I)


def pair(I, deg):
    """two points: anywhere, close together, on one meridian or parallel, at the poles"""
    lat1, lon1 = I.lat("lat1", deg), I.lon("lon1", deg)
    how = I.choice("how", ["any", "any", "close", "meridian", "parallel", "equator"])
    k = 1 if deg else math.pi / 180
    if how == "close":
        s = 10 ** I.real("gap", -8, 0)
        lat2 = lat1 + s * k * I.real("u", -1, 1)
        lon2 = lon1 + s * k * I.real("v", -1, 1)
        lat2 = max(-90 * k, min(90 * k, lat2))
    else:
        lat2, lon2 = I.lat("lat2", deg), I.lon("lon2", deg)
        if how == "meridian":
            lon2 = lon1
        elif how == "parallel":
            lat2 = lat1
        elif how == "equator":
            lat1 = lat2 = 0.0
    return lat1, lon1, lat2, lon2


def chord(M, I, L, p, q, deg):
    """straight distance between two surface points"""
    a, b = (M.real(x) for x in I.ellab)

    def xyz(lat, lon):
        t, o = (M.rad(lat), M.rad(lon)) if deg else (M.real(lat), M.real(lon))
        d = M.sqrt(a ** 2 * M.cos(t) ** 2 + b ** 2 * M.sin(t) ** 2)
        return a * a / d * M.cos(t) * M.cos(o), a * a / d * M.cos(t) * M.sin(o), b * b / d * M.sin(t)
    return M.sqrt(sum((x - y) ** 2 for x, y in zip(xyz(*p), xyz(*q))))


def apply_pair(I, deg):
    p = pair(I, deg)
    if central(*p, deg) > limit(I):
        raise Skip()
    return p


def geod(I):
    import pyproj
    a, b = (float(x) for x in I.ellab)
    return pyproj.Geod(a=a, b=b)


@contract("C21", "there_and_back", mode="bounded", params=DEG, weight=2)
def c21_inv(L, I, ck, M, deg):
    """the direct solution with the inverse solution's distance and azimuth reaches the second point"""
    ell = I.ell(L)
    lat1, lon1, lat2, lon2 = apply_pair(I, deg)
    s, az = L.vincenty.vdist(lat1, lon1, lat2, lon2, ell, deg)
    full = 360 if deg else 2 * M.pi
    ck.true("finite", s == s and az == az and abs(s) < 1e300, f"{s} {az}")
    ck.le("distance", M.q(0), s)
    ck.le("azimuth>=0", M.q(0), az)
    ck.lt("azimuth<360", az, full)
    tol = 1.2e-3 * I.scale / 6.4e6 + 1e-9 * float(s)
    la, lo = L.vincenty.vreckon(lat1, lon1, s, az, ell, deg)
    ck.le("reached", chord(M, I, L, (la, lo), (lat2, lon2), deg), M.q(0), tol=tol)
    ck.true("lat-range", abs(la) <= float(full) / 4 * (1 + 1e-15))
    ck.le("lon>=0", M.q(0), lo)
    ck.lt("lon<360", lo, full)
    back = L.vincenty.vdist(lat2, lon2, lat1, lon1, ell, deg)[0]
    ck.eq("swap", back, s, tol=tol)
    d = I.lon("shift", deg)
    r = L.vincenty.vdist(lat1, lon1 + d, lat2, lon2 + d, ell, deg)
    ck.eq("shift", r[0], s, tol=tol)
    far = float(s) > 1e-3 * I.scale and max(abs(lat1), abs(lat2)) < (89.9 if deg else 1.569)
    if far:
        ck.mod("shift-azimuth", r[1], az, full, tol=(1e-9 if deg else 2e-11) * (180 / (180 - central(lat1, lon1, lat2, lon2, deg))) ** 2)
    ck.eq("reflect", L.vincenty.vdist(-lat1, lon1, -lat2, lon2, ell, deg)[0], s, tol=tol)
    ck.eq("coincident", L.vincenty.vdist(lat1, lon1, lat1, lon1, ell, deg)[0], M.q(0), tol=tol)
    if deg:
        ck.eq("default-unit", tuple(L.vincenty.vdist(lat1, lon1, lat2, lon2, ell)), (s, az), tol=0)
    # never shorter than the chord, and the geodesic itself (pyproj) to the order of the series
    ck.le("chord", chord(M, I, L, (lat1, lon1), (lat2, lon2), deg), s, tol=tol + 3 * flat(I) ** 4 * float(s))
    if I.cfg == "np":
        k = 1 if deg else 180 / math.pi
        A, _, S = geod(I).inv(lon1 * k, lat1 * k, lon2 * k, lat2 * k)
        ck.eq("geodesic", s, S, tol=2 * tol + 3 * I.scale * flat(I) ** 4)
        if far:
            ck.mod("geodesic-azimuth", az, A / k, full, tol=((1e-7 if deg else 2e-9) + 30 * flat(I) ** 3) * (180 / (180 - central(lat1, lon1, lat2, lon2, deg))) ** 2)


@contract("C21", "near_antipodal", mode="bounded", params=DEG, weight=2)
def c21_anti(L, I, ck, M, deg):
    """where the iteration is documented to lose precision it still ends, with a range off by no more than the flattening"""
    ell = I.ell(L)
    k = 1 if deg else math.pi / 180
    lat, lon = I.lat("lat", deg), I.lon("lon", deg)
    off = 10 ** I.real("off", -9, 1) * k
    lat2 = max(-90 * k, min(90 * k, -lat + off * I.real("u", -1, 1)))
    lon2 = lon + 180 * k + off * I.real("v", -1, 1)
    s, az = L.vincenty.vdist(lat, lon, lat2, lon2, ell, deg)
    a, b = (float(x) for x in I.ellab)
    gap = math.radians(180 - central(lat, lon, lat2, lon2, deg))
    slack = 1.5 * flat(I) * math.pi * a + 1e-3 * a / 6.4e6
    ck.le("azimuth>=0", M.q(0), az)
    ck.lt("azimuth<360", az, 360 if deg else 2 * M.pi)
    ck.true("not-too-long", s <= math.pi * a + slack, s)
    ck.true("not-too-short", s >= math.pi * b - a * gap - slack, s)
    if I.cfg == "np":
        _, _, S = geod(I).inv(lon / k, lat / k, lon2 / k, lat2 / k)
        ck.eq("geodesic", s, S, tol=slack)


@contract("C21", "reckon", mode="bounded", params=DEG, weight=2)
def c21_dir(L, I, ck, M, deg):
    """direct solution: the geodesic end point (any length up to several turns)"""
    ell = I.ell(L)
    lat, lon, az = I.lat("lat", deg), I.lon("lon", deg), I.angle("az", deg)
    n = I.choice("reach", [1e-6, 1e-3, 1, 3, 20])
    s = I.real("s", 0, 1) * n * I.scale
    la, lo = L.vincenty.vreckon(lat, lon, s, az, ell, deg)
    full = 360 if deg else 2 * M.pi
    ck.true("lat-range", abs(la) <= float(full) / 4 * (1 + 1e-15))
    ck.le("lon>=0", M.q(0), lo)
    ck.lt("lon<360", lo, full)
    z = L.vincenty.vreckon(lat, lon, 0.0, az, ell, deg)
    ck.le("zero", chord(M, I, L, z, (lat, lon), deg), M.q(0), tol=1.2e-3 * I.scale / 6.4e6)
    ck.le("chord", chord(M, I, L, (lat, lon), (la, lo), deg), s, tol=2e-3 * I.scale / 6.4e6 + 1e-9 * s + 3 * flat(I) ** 4 * s)
    d = I.lon("shift", deg)
    q = L.vincenty.vreckon(lat, lon + d, s, az, ell, deg)
    ck.le("shift", chord(M, I, L, (q[0], q[1] - d), (la, lo), deg), M.q(0), tol=1e-3 * I.scale / 6.4e6)
    if I.cfg == "np":
        k = 1 if deg else 180 / math.pi
        o, a, _ = geod(I).fwd(lon * k, lat * k, az * k, s)
        ck.le("geodesic", chord(M, I, L, (la, lo), (a / k, o / k), deg), M.q(0), tol=2.5e-3 * I.scale / 6.4e6 + 1e-9 * s + 3 * I.scale * flat(I) ** 4 * max(1, s / I.scale))


@contract("C21", "rejects", params=DEG, stubs=())
def c21_bad(L, I, ck, M, deg):
    """latitudes beyond the poles and negative ranges are rejected"""
    ell = I.ell(L)
    q = 90 if deg else M.pi / 2
    x, y = I.real("x", 0, 1000, open_lo=True), I.lat("y", deg)
    o1, o2, s = I.lon("o1", deg), I.lon("o2", deg), I.real("s", 0, 1e8, open_lo=True)
    for k in (1, -1):
        bad = k * (q + x)
        if not I.sym:
            bad = float(bad)
            if abs(bad) <= float(q):
                raise Skip()
        ck.raises("vdist-first", ValueError, lambda: L.vincenty.vdist(bad, o1, y, o2, ell, deg))
        ck.raises("vdist-second", ValueError, lambda: L.vincenty.vdist(y, o1, bad, o2, ell, deg))
        ck.raises("vreckon-lat", ValueError, lambda: L.vincenty.vreckon(bad, o1, s, o2, ell, deg))
        ck.raises("vreckon-range", ValueError, lambda: L.vincenty.vreckon(y, o1, -s, o2, ell, deg))
        if I.cfg == "np" and not I.sym:
            ck.raises("array-vdist", ValueError, lambda: L.vincenty.vdist(I.array([y, bad]), o1, y, o2, ell, deg))
            ck.raises("array-vdist2", ValueError, lambda: L.vincenty.vdist(y, o1, I.array([y, bad]), o2, ell, deg))
            ck.raises("array-vreckon", ValueError, lambda: L.vincenty.vreckon(I.array([y, bad]), o1, s, o2, ell, deg))
            ck.raises("array-range", ValueError, lambda: L.vincenty.vreckon(y, o1, I.array([s, -s]), o2, ell, deg))


# ---------------------------------------------------------------- C22 tracks
VV = ("vincenty.vdist", "vincenty.vreckon")


@contract("C22", "composition", cfg=("np",), params=[{"n": n, "deg": d} for n in (3, 4, 7) for d in (True, False)], mode="proof", stubs=VV)
def c22_comp(L, I, ck, M, n, deg):
    """point k of n is the direct solution at k/(n-1) of the inverse solution's distance along its azimuth, same ellipsoid"""
    ell = I.ell(L)
    p = I.lat("lat1", deg), I.lon("lon1", deg), I.lat("lat2", deg), I.lon("lon2", deg)
    r = p
    if deg:
        r = tuple(M.rad(x) for x in p)
    # not antipodal
    u = [(M.cos(r[i]) * M.cos(r[i + 1]), M.cos(r[i]) * M.sin(r[i + 1]), M.sin(r[i])) for i in (0, 2)]
    try:
        la, lo = L.vincenty.track2(*p, ell, n, deg)
    except ValueError:
        raise Skip()
    s, az = L.vincenty.vdist(*r, ell, False)
    ck.true("n-points", len(la) == n and len(lo) == n)
    for k in range(n):
        a, o = L.vincenty.vreckon(r[0], r[1], s * M.q(f"{k}/{n - 1}"), az, ell, False)
        ck.eq(f"lat{k}", M.rad(la[k]) if deg else la[k], a)
        ck.eq(f"lon{k}", M.rad(lo[k]) if deg else lo[k], o)


@contract("C22", "antipodal", cfg=("np",), params=DEG, stubs=VV)
def c22_anti(L, I, ck, M, deg):
    """exactly antipodal end points and fewer than two points are rejected, for every point"""
    ell = I.ell(L)
    lat, lon = I.lat("lat", deg), I.lon("lon", deg)
    half = 180 if deg else M.pi
    if not I.sym:
        half = float(half)
    n = I.choice("n", [3, 4, 10])
    for k in (1, -1):
        ck.raises("antipodes", ValueError, lambda: L.vincenty.track2(lat, lon, -lat, lon + k * half, ell, n, deg))
    m = I.choice("m", [1, 0, -1])
    la2, lo2 = I.lat("lat2", deg), I.lon("lon2", deg)
    ck.raises("fewer-than-two", ValueError, lambda: L.vincenty.track2(lat, lon, la2, lo2, ell, m, deg))


@contract("C22", "sampled", cfg=("np",), mode="bounded", params=DEG, weight=2)
def c22_mon(L, I, ck, M, deg):
    """n points, from the first to the second, on the geodesic at equal steps"""
    ell = I.ell(L)
    lat1, lon1, lat2, lon2 = p = apply_pair(I, deg)
    n = I.choice("n", [2, 3, 4, 5, 17, 100])
    la, lo = L.vincenty.track2(*p, ell, n, deg)
    ck.true("n-points", len(la) == n and len(lo) == n)
    k = 1 if deg else 180 / math.pi
    A, _, S = geod(I).inv(lon1 * k, lat1 * k, lon2 * k, lat2 * k)
    s = float(S)
    tol = 3e-3 * I.scale / 6.4e6 + 2e-9 * s + 6 * I.scale * flat(I) ** 4
    dist = lambda a, b: chord(M, I, L, a, b, deg)
    ck.le("start", dist((la[0], lo[0]), (lat1, lon1)), M.q(0), tol=tol)
    ck.le("end", dist((la[-1], lo[-1]), (lat2, lon2)), M.q(0), tol=tol)
    polar = max(abs(lat1), abs(lat2)) * k > 89.9 or s < 1e-3 * I.scale
    for i in range(n):
        o, a, _ = geod(I).fwd(lon1 * k, lat1 * k, A, s * i / (n - 1))
        far = (180 / (180 - central(*p, deg))) ** 2
        ck.le(f"point{i}", dist((la[i], lo[i]), (a / k, o / k)), M.q(0), tol=tol * far + (30 * flat(I) ** 3 * far * I.scale))
    # steps: distance from the start
    i = I.integer("i", 0, n - 1)
    ck.eq("progress", L.vincenty.vdist(lat1, lon1, la[i], lo[i], ell, deg)[0], s * i / (n - 1), tol=tol)
    if deg:
        lr, orr = L.vincenty.track2(*[math.radians(x) for x in p], ell, n, False)
        for i in range(n):
            ck.le(f"radians{i}", dist((la[i], lo[i]), (math.degrees(lr[i]), math.degrees(orr[i]))), M.q(0), tol=tol)
        dl, do = L.vincenty.track2(*p, ell, n)
        ck.eq("default-unit", tuple(map(float, dl)) + tuple(map(float, do)), tuple(map(float, la)) + tuple(map(float, lo)), tol=0)
