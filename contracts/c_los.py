"""C19 line of sight"""
from pyvc.contract import contract
from contracts.lib import DEG, basis, dot

E2G = ("ecef.ecef2geodetic",)


def ray(M, I, lat, lon, h, az, tilt, deg):
    """observer position and unit direction, from the definitions"""
    a, b = (M.real(v) for v in I.ellab)
    E, N, U = basis(M, lat, lon, deg)
    t = M.rad(lat) if deg else M.real(lat)
    o = M.rad(lon) if deg else M.real(lon)
    Az, Ti = (M.rad(az), M.rad(tilt)) if deg else (M.real(az), M.real(tilt))
    # tilt is measured from nadir: elevation = tilt - 90
    e, n, u = M.sin(Ti) * M.sin(Az), M.sin(Ti) * M.cos(Az), -M.cos(Ti)
    d = tuple(E[i] * e + N[i] * n + U[i] * u for i in range(3))
    D = M.sqrt(a ** 2 * M.cos(t) ** 2 + b ** 2 * M.sin(t) ** 2)
    n0 = a ** 2 / D
    p = ((n0 + h) * M.cos(t) * M.cos(o), (n0 + h) * M.cos(t) * M.sin(o), (n0 * (b / a) ** 2 + h) * M.sin(t))
    return p, d


def quad(M, I, p, d):
    a, b = (M.real(v) for v in I.ellab)
    A = (d[0] ** 2 + d[1] ** 2) / a ** 2 + d[2] ** 2 / b ** 2
    B = (p[0] * d[0] + p[1] * d[1]) / a ** 2 + p[2] * d[2] / b ** 2
    C = (p[0] ** 2 + p[1] ** 2) / a ** 2 + p[2] ** 2 / b ** 2 - 1
    return A, B, C


@contract("C19", "hit", params=DEG, stubs=E2G, cost=3)
def c19_hit(L, I, ck, M, deg):
    """on the ellipsoid, on the ray at the returned range, first intersection; NaN exactly when the ray misses"""
    ell = I.ell(L)
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h", lo=0)
    az = I.angle("az", deg)
    tilt = I.angle("tilt", deg, lo=0, hi=180) if I.sym else limb(I, h, deg)
    p, d = ray(M, I, lat, lon, h, az, tilt, deg)
    A, B, C = quad(M, I, p, d)
    la, lo, r = L.los.lookAtSpheroid(lat, lon, h, az, tilt, ell, deg=deg)
    if I.sym:
        a, b = (M.real(v) for v in I.ellab)
        t = M.rad(lat) if deg else M.real(lat)
        n0 = a ** 2 / M.sqrt(a ** 2 * M.cos(t) ** 2 + b ** 2 * M.sin(t) ** 2)
        ck.lemma_sum("A>0", A, [1 / a ** 2, d[2] ** 2 * (1 / b ** 2 - 1 / a ** 2)])
        ck.lemma_nonneg("outside", C, [2 * h * n0 / a ** 2, h ** 2 * (M.cos(t) ** 2 / a ** 2 + M.sin(t) ** 2 / b ** 2)])
    if M.isnan(r):
        ck.isnan("lat-nan", la)
        ck.isnan("lon-nan", lo)
        if I.sym:
            s = I.real("s", 0, 1e9, open_lo=True)
            Q = A * s ** 2 + 2 * B * s + C
            disc = B * B - A * C
            pos = lambda f: (lambda *v: ("<", M.q(0), f(*v)))
            nn = lambda f: (lambda *v: ("<=", M.q(0), f(*v)))
            if disc < 0:
                ck.cut("no-root", (A, B, C, s), [lambda A, B, C, s: ("<", B * B - A * C, M.q(0))],
                       pos(lambda A, B, C, s: A * (A * s ** 2 + 2 * B * s + C)))
            else:
                k = a ** 2 * b
                rt = M.sqrt(k ** 2 * disc)
                r0 = (-k * B - rt) / (k * A)       # the code computed this and found it negative
                ck.cut("behind", (A, B, C, s, rt, r0, k),
                       [lambda A, B, C, s, S, r, k: ("==", S ** 2, k ** 2 * (B * B - A * C)), nn(lambda A, B, C, s, S, r, k: S),
                        pos(lambda A, B, C, s, S, r, k: k), pos(lambda A, B, C, s, S, r, k: A), pos(lambda A, B, C, s, S, r, k: s),
                        nn(lambda A, B, C, s, S, r, k: C), pos(lambda A, B, C, s, S, r, k: -r),
                        lambda A, B, C, s, S, r, k: ("==", r * k * A, -k * B - S)],
                       pos(lambda A, B, C, s, S, r, k: A * (A * s ** 2 + 2 * B * s + C)))
            ck.lt("miss", M.q(0), A * Q)
            return
            ck.lt("miss", M.q(0), A * s ** 2 + 2 * B * s + C)
        else:
            disc = B * B - A * C
            first = (-float(B) - float(disc) ** 0.5) / float(A) if disc > 0 else -1.0
            ck.true("miss", disc < 1e-13 * abs(B * B) + 1e-22 or first < 1e-6 * I.scale, f"disc={float(disc)} first root={first}")
        return
    r_ = M.real(r)
    ck.le("range>=0", M.q(0), r_)
    if I.sym:
        ck.eq("on-ellipsoid", A * r_ ** 2 + 2 * B * r_, -C)
        ck.le("first", A * r_ + B, M.q(0))
        w = L.ecef.ecef2geodetic(p[0] + d[0] * r_, p[1] + d[1] * r_, p[2] + d[2] * r_, ell, deg=deg)
        ck.eq("lat", la, w[0])
        ck.eq("lon", lo, w[1])
    else:
        disc = max(float(B * B - A * C), 0.0) ** 0.5
        tol = 1e-12 * (float(A) * r_ ** 2 + 2 * abs(B) * r_ + C + 1)
        ck.eq("on-ellipsoid", A * r_ ** 2 + 2 * B * r_ + C, 0, tol=float(tol))
        ck.true("first", A * r_ + B <= 1e-6 * (abs(B) + 1e-12))
        x = L.ecef.geodetic2ecef(la, lo, 0, ell, deg=deg)
        for i in range(3):
            ck.eq("point" + "xyz"[i], x[i], p[i] + d[i] * r_, tol=1e-14 * (I.scale + float(r_)))


def limb(I, h, deg):
    """tilts around nadir, the horizon and beyond"""
    import math
    k = I.choice("kind", ["any", "limb", "down", "up"])
    u = I.real("tu", 0, 1)
    a, b = I.ellab
    hor = math.degrees(math.asin(min(1.0, b / (a + h))))
    t = {"any": 180 * u, "limb": hor + (u - 0.5) * 2, "down": 2 * u * u, "up": 180 - 60 * u}[k]
    t = min(max(t, 0.0), 180.0)
    return t if deg else math.radians(t)


@contract("C19", "nadir", params=DEG, stubs=E2G)
def c19_nadir(L, I, ck, M, deg):
    """straight down: the observer's own latitude and longitude, range = height"""
    ell = I.ell(L)
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h", lo=0)
    az = I.angle("az", deg)
    la, lo, r = L.los.lookAtSpheroid(lat, lon, h, az, 0.0, ell, deg=deg)
    if not I.sym and h < 1e-6 * I.scale:
        from pyvc.contract import Skip
        raise Skip()          # rounding decides between 0 and NaN on the surface itself
    ck.eq("range", r, h, rel=1e-13, scale=I.scale)
    if I.sym:
        w = L.ecef.ecef2geodetic(*L.ecef.geodetic2ecef(lat, lon, 0, ell, deg=deg), ell, deg=deg)
        ck.eq("lat", la, w[0])
        ck.eq("lon", lo, w[1])
    else:
        ck.eq("lat", la, lat, tol=1e-7)
        from contracts.lib import basis
        t = float(M.cos(M.rad(lat) if deg else lat))
        ck.mod("lon", lo, lon, 360 if deg else 2 * M.pi, tol=1e-7 / max(t, 1e-9))


@contract("C19", "negative_height", params=DEG)
def c19_neg(L, I, ck, M, deg):
    ell = I.ell(L)
    h = I.alt("h") if I.sym else -(10 ** I.real("lh", -9, 6))
    I.require(h < 0)
    ck.raises("ValueError", ValueError, lambda: L.los.lookAtSpheroid(I.lat("lat", deg), I.lon("lon", deg), h, I.angle("az", deg), I.angle("tilt", deg), ell, deg=deg))


@contract("C19", "array_independent", cfg=("np",), params=DEG, stubs=E2G, nsamples=30)
def c19_array(L, I, ck, M, deg):
    """a list of directions gives element by element the scalar results (hit and miss mixed)"""
    ell = I.ell(L)
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h", lo=0 if I.sym else 1)
    az = I.angle("az", deg)
    ts = [I.angle(f"t{i}", deg, lo=0, hi=180) for i in range(2)] if I.sym else [limb_i(I, h, deg, i) for i in range(4)]
    A = L.los.lookAtSpheroid(lat, lon, h, az, I.array(ts), ell, deg=deg)
    for i, t in enumerate(ts):
        S = L.los.lookAtSpheroid(lat, lon, h, az, t, ell, deg=deg)
        for n, x, y in zip(("lat", "lon", "range"), A, S):
            if M.isnan(y):
                ck.isnan(n, x[i])
            else:
                ck.eq(n, x[i], y, rel=1e-12, scale=I.scale if n == "range" else 1)


def limb_i(I, h, deg, i):
    import math
    k = I.choice(f"kind{i}", ["any", "limb", "down", "up"])
    u = I.real(f"tu{i}", 0, 1)
    a, b = I.ellab
    hor = math.degrees(math.asin(min(1.0, b / (a + h))))
    t = {"any": 180 * u, "limb": hor - 0.001 - u * 2, "down": 2 * u * u, "up": 180 - 60 * u}[k]
    t = min(max(t, 0.0), 180.0)
    return t if deg else math.radians(t)
