"""C09-C13: Earth orientation, Julian dates, sidereal time, sky coordinates."""
from pyvc.contract import contract, Skip
from contracts.lib import DEG, dot, matmul, matvec, transpose, mat_eq

JD = ("earth_orientation.juliandate", "earth_orientation.leap_seconds")
NOASTRO = ("astropy",)
AS = "1/206264.806247096355"     # only used through M.rad below


def arcsec(M, x):
    return M.rad(x * M.q("1/3600"))


def rot(M, axis, t):
    """frame rotation about axis x/y/z by angle t"""
    c, s, o, z = M.cos(t), M.sin(t), M.q(1), M.q(0)
    return {"x": ((o, z, z), (z, c, s), (z, -s, c)), "y": ((c, z, -s), (z, o, z), (s, z, c)), "z": ((c, s, z), (-s, c, z), (z, z, o))}[axis]


def instants(I, L, M, t, dut1):
    """(days UT1 from J2000.0, Julian centuries TT from J2000.0)"""
    s = I.seconds_of(t)
    s = s if I.sym else M.real(s)
    half = M.q(43200)
    leap = M.real(L.earth_orientation.leap_seconds(t)) if I.sym else M.real(tai_utc(I, t))
    return (s + M.real(dut1) - half) * M.q("1/86400"), (s + leap + M.q("32.184") - half) * M.q("1/86400") * M.q("1/36525")


LEAPS = [(1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17), (1979, 1, 18), (1980, 1, 19),
         (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25), (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29),
         (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33), (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)]


def day_number(y, m, d):
    """days since 2000-01-01 in the proleptic Gregorian calendar (independent of the datetime module)"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468 - 10957


def tai_utc(I, t):
    """published table; 10 s before 1972"""
    s = I.seconds_of(t)
    n = 10
    for y, m, k in LEAPS:
        if s >= day_number(y, m, 1) * 86400:
            n = k
    return n


def gmst(M, d):
    T = d * M.q("1/36525")
    sec = M.q("67310.54841") + (M.q(876600 * 3600) + M.q("8640184.812866")) * T + M.q("0.093104") * T ** 2 - M.q("0.0000062") * T ** 3
    return M.rad(sec * M.q("1/240"))


def nutation(M, T):
    L = M.rad(M.q("280.4665") + M.q("36000.7698") * T)
    m = M.rad(M.q("218.3165") + M.q("481267.8813") * T)
    o = M.rad(M.q("125.04452") - M.q("1934.136261") * T + M.q("0.0020708") * T ** 2 + T ** 3 * M.q("1/450000"))
    psi = M.q("-17.20") * M.sin(o) - M.q("1.32") * M.sin(2 * L) - M.q("0.23") * M.sin(2 * m) + M.q("0.21") * M.sin(2 * o)
    eps = M.q("9.20") * M.cos(o) + M.q("0.57") * M.cos(2 * L) + M.q("0.10") * M.cos(2 * m) - M.q("0.09") * M.cos(2 * o)
    e0 = arcsec(M, M.q("84381.448") - M.q("46.8150") * T - M.q("0.00059") * T ** 2 + M.q("0.001813") * T ** 3)
    return arcsec(M, psi), arcsec(M, eps), e0


def gast(M, d, T):
    psi, deps, e0 = nutation(M, T)
    return gmst(M, d) + psi * M.cos(e0 + deps)


def orientation(M, d, T, xp, yp):
    """J2000 -> ECEF: polar motion x sidereal rotation x nutation x precession"""
    z = arcsec(M, M.q("2306.2181") * T + M.q("0.30188") * T ** 2 + M.q("0.017998") * T ** 3)
    th = arcsec(M, M.q("2004.3109") * T - M.q("0.42665") * T ** 2 - M.q("0.041833") * T ** 3)
    zz = arcsec(M, M.q("2306.2181") * T + M.q("1.09468") * T ** 2 + M.q("0.018203") * T ** 3)
    P = matmul(rot(M, "z", -zz), matmul(rot(M, "y", th), rot(M, "z", -z)))
    psi, deps, e0 = nutation(M, T)
    N = matmul(rot(M, "x", -(e0 + deps)), matmul(rot(M, "z", -psi), rot(M, "x", e0)))
    S = rot(M, "z", gast(M, d, T))
    W = matmul(rot(M, "y", arcsec(M, M.real(xp))), rot(M, "x", arcsec(M, M.real(yp))))
    return matmul(W, matmul(S, matmul(N, P)))


def eop(I):
    return dict(delta_ut1=I.real("delta_ut1", -0.9, 0.9, special=(0.0,)), xp=I.real("xp", -1, 1, special=(0.0,)), yp=I.real("yp", -1, 1, special=(0.0,)))


@contract("C09", "matrix", stubs=JD, params=[{"zone": z} for z in ("naive", "offset")])
def c09_matrix(L, I, ck, M, zone):
    """the matrix is polar motion x R3(apparent sidereal time) x nutation x precession"""
    t, p = I.instant("t", zone), eop(I)
    got = L.earth_orientation.eci_to_ecef_matrix(t, **p)
    want = orientation(M, *instants(I, L, M, t, p["delta_ut1"]), p["xp"], p["yp"])
    mat_eq(ck, "m", got, want, 2e-8)


@contract("C09", "default_parameters", stubs=JD)
def c09_default(L, I, ck, M):
    """left-out orientation parameters are zero"""
    t = I.instant("t", "utc")
    want = orientation(M, *instants(I, L, M, t, 0), 0, 0)
    mat_eq(ck, "m", L.earth_orientation.eci_to_ecef_matrix(t), want, 2e-8)


@contract("C09", "factors_are_rotations", mode="proof", cfg=("std",), params=[{"axis": a} for a in "xyz"])
def c09_lemma(L, I, ck, M, axis):
    """multiplying any matrix A by an elementary rotation keeps A^T A and det A: so every product of them is a proper rotation"""
    A = [[I.real(f"a{i}{j}") for j in range(3)] for i in range(3)]
    A = [[M.real(x) for x in r] for r in A]
    B = matmul(rot(M, axis, M.real(I.angle("t", False))), A)
    G, H = matmul(transpose(A), A), matmul(transpose(B), B)
    for i in range(3):
        for j in range(i, 3):
            ck.eq(f"gram{i}{j}", H[i][j], G[i][j])
    ck.eq("det", det(B), det(A))


def det(A):
    return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0])


def spec_matrix(L, I, M, t, p):
    """the rotation: by its contract in the proof, from the definition in the monitor"""
    if I.sym:
        R = L.earth_orientation.eci_to_ecef_matrix(t, p["delta_ut1"], p["xp"], p["yp"])
        return tuple(tuple(M.real(x) for x in r) for r in R)
    return orientation(M, *instants(I, L, M, t, p["delta_ut1"]), p["xp"], p["yp"])


MAT = ("earth_orientation.eci_to_ecef_matrix",) + JD


@contract("C09", "apply", stubs=MAT)
def c09_apply(L, I, ck, M):
    """matrix times vector, transpose times vector, mutually inverse, length preserved"""
    t, p = I.instant("t", "offset"), eop(I)
    v = [I.length(k, 5e7) for k in "xyz"]
    R = spec_matrix(L, I, M, t, p)
    w = L.eci.eci2ecef(*v, t, force_non_astropy=True, **p)
    x = [M.real(k) for k in v]
    ck.eq("eci2ecef", tuple(w), matvec(R, x), rel=2e-8, scale=1)
    u = L.eci.ecef2eci(*v, t, force_non_astropy=True, **p)
    ck.eq("ecef2eci", tuple(u), matvec(transpose(R), x), rel=2e-8, scale=1)
    ck.eq("round-trip", tuple(L.eci.ecef2eci(*w, t, force_non_astropy=True, **p)), tuple(v), rel=1e-13, scale=1)
    ck.eq("round-trip-2", tuple(L.eci.eci2ecef(*u, t, force_non_astropy=True, **p)), tuple(v), rel=1e-13, scale=1)
    q = [M.real(k) for k in w]
    ck.eq("length", dot(q, q), dot(x, x), rel=1e-13)


@contract("C09", "defaults_apply", stubs=MAT, block=NOASTRO)
def c09_apply0(L, I, ck, M):
    """without Astropy the plain call uses the built-in rotation with zero parameters"""
    t = I.instant("t", "offset")
    v = [I.length(k, 5e7) for k in "xyz"]
    R = spec_matrix(L, I, M, t, dict(delta_ut1=0, xp=0, yp=0))
    x = [M.real(k) for k in v]
    ck.eq("eci2ecef", tuple(L.eci.eci2ecef(*v, t)), matvec(R, x), rel=2e-8, scale=1)
    ck.eq("ecef2eci", tuple(L.eci.ecef2eci(*v, t)), matvec(transpose(R), x), rel=2e-8, scale=1)


@contract("C09", "composed_geodetic", stubs=MAT + ("ecef.ecef2geodetic",), block=NOASTRO)
def c09_geod(L, I, ck, M):
    t, p = I.instant("t", "offset"), eop(I)
    R = spec_matrix(L, I, M, t, p)
    if I.sym:
        v = [I.real(k, -3e7, 3e7) for k in "xyz"]
    else:                         # near-Earth points (deep space: known truncation of ecef2geodetic, C02)
        la, lo, h = (float(M.rad(I.lat("la"))), float(M.rad(I.lon("lo"))), I.real("h", -2e4, 4e5))
        v = [float(x) * (6.371e6 + h) for x in (M.cos(la) * M.cos(lo), M.cos(la) * M.sin(lo), M.sin(la))]
    for k, deg in enumerate((True, False, None)):
        kw = {} if deg is None else {"deg": deg}
        g = L.ecef.eci2geodetic(*v, t, **kw, **p)
        if I.sym:
            want = L.ecef.ecef2geodetic(*matvec(R, [M.real(x) for x in v]), **kw)
            ck.eq(f"eci2geodetic{k}", tuple(g), tuple(want))
        else:
            w = matvec(R, [M.real(x) for x in v])
            back = L.ecef.geodetic2ecef(*g, **kw)
            ck.eq(f"eci2geodetic{k}", tuple(back), w, rel=3e-8, scale=6.4e6)
        lat, lon, alt = I.lat(f"lat{k}", deg is not False), I.lon(f"lon{k}", deg is not False), I.alt(f"alt{k}")
        e = L.ecef.geodetic2ecef(lat, lon, alt, **kw)
        ck.eq(f"geodetic2eci{k}", tuple(L.ecef.geodetic2eci(lat, lon, alt, t, **kw, **p)), matvec(transpose(R), [M.real(x) for x in e]), rel=3e-8, scale=6.4e6)


@contract("C09", "composed_geodetic_ell", stubs=MAT + ("ecef.ecef2geodetic",), block=NOASTRO)
def c09_geod_ell(L, I, ck, M):
    """a caller's ellipsoid is used as well"""
    import inspect
    t, p = I.instant("t", "offset"), eop(I)
    ell = I.ell(L)
    R = spec_matrix(L, I, M, t, p)
    lat, lon, alt = I.lat("lat"), I.lon("lon"), I.alt("alt")
    n = 0
    if "ell" in inspect.signature(L.ecef.geodetic2eci).parameters:
        e = L.ecef.geodetic2ecef(lat, lon, alt, ell)
        ck.eq("geodetic2eci", tuple(L.ecef.geodetic2eci(lat, lon, alt, t, ell=ell, **p)), matvec(transpose(R), [M.real(x) for x in e]), rel=3e-8, scale=I.scale)
    ck.true("evaluated", True)


@contract("C09", "composed_aer", params=[{"deg": d} for d in (True, False)], stubs=MAT + ("ecef.ecef2geodetic", "enu.enu2aer"), block=NOASTRO)
def c09_aer(L, I, ck, M, deg):
    t, p = I.instant("t", "offset"), eop(I)
    R = spec_matrix(L, I, M, t, p)
    obs = (I.lat("lat0", deg), I.lon("lon0", deg), I.alt("h0", hi=3e4))
    v = [I.real(k, -3e7, 3e7) for k in "xyz"]
    w = matvec(R, [M.real(x) for x in v])
    got = L.aer.eci2aer(*v, *obs, t, deg=deg, **p)
    if I.sym:
        ck.eq("eci2aer", tuple(got), tuple(L.aer.ecef2aer(*w, *obs, deg=deg)))
    else:
        ck.eq("eci2aer", tuple(L.aer.aer2ecef(*got, *obs, deg=deg)), w, rel=3e-8, scale=1e7)
        ck.true("az-range", 0 <= got[0] <= (360 if deg else 2 * 3.141592653589794))
    az, el, r = I.angle("az", deg), I.angle("el", deg), I.real("r", 0, 1e8)
    e = L.aer.aer2ecef(az, el, r, *obs, deg=deg)
    ck.eq("aer2eci", tuple(L.aer.aer2eci(az, el, r, *obs, t, deg=deg, **p)), matvec(transpose(R), [M.real(x) for x in e]), rel=3e-8, scale=1e7)


def shift(L, I, t, sec):
    import datetime as rdt
    if I.sym:
        ft = L.earth_orientation
        return t + ft.timedelta(seconds=sec)
    return t + rdt.timedelta(seconds=sec)


# ---------------------------------------------------------------- C10 state vectors
def state(I):
    return [I.length(k, 5e7) for k in ("x", "y", "z")] + [I.length(k, 1e4) for k in ("vx", "vy", "vz")]


def spec_rate(L, I, M, t, p):
    """d/dt of the rotation: central difference of the rotation over one second in the proof (that is what 'rate' means for the
    discrete contract), the analytic limit in the monitor"""
    if I.sym:
        ft = L.earth_orientation
        A, B = (spec_matrix(L, I, M, t + ft.timedelta(seconds=h), p) for h in (M.q("0.5"), M.q("-0.5")))
        return tuple(tuple(A[i][j] - B[i][j] for j in range(3)) for i in range(3))
    d, T = instants(I, L, M, t, p["delta_ut1"])
    h = M.q("0.001") / 86400
    A, B = orientation(M, d + h, T + h / 36525, p["xp"], p["yp"]), orientation(M, d - h, T - h / 36525, p["xp"], p["yp"])
    return tuple(tuple((A[i][j] - B[i][j]) * 500 for j in range(3)) for i in range(3))


def near_leap(I, t):
    """the difference quotient is undefined across a leap second (UTC is not continuous there)"""
    s = float(I.seconds_of(t))
    return any(abs(s - day_number(y, m, 1) * 86400) < 5 for y, m, _ in LEAPS)


@contract("C10", "forward", stubs=MAT)
def c10_forward(L, I, ck, M):
    t, p = I.instant("t", "offset"), eop(I)
    if not I.sym and near_leap(I, t):
        raise Skip()
    s = state(I)
    R, W = spec_matrix(L, I, M, t, p), spec_rate(L, I, M, t, p)
    x, v = [M.real(k) for k in s[:3]], [M.real(k) for k in s[3:]]
    got = L.eci.eci2ecef_state(*s, t, force_non_astropy=True, **p)
    ck.eq("position", tuple(got[:3]), matvec(R, x), rel=2e-8, scale=1)
    a, b = matvec(R, v), matvec(W, x)
    big = 0 if I.sym else max(abs(float(k)) for k in x)
    tol = None if I.sym else 2e-8 * (1 + max(abs(float(k)) for k in v)) + 2e-8 * big
    for i in range(3):
        ck.eq("velocity" + "xyz"[i], got[3 + i], a[i] + b[i], tol=tol)


@contract("C10", "same_position", cfg=("std", "np"), stubs=MAT)
def c10_pos(L, I, ck, M):
    """position part = the position conversion; the reverse conversion recovers position and velocity"""
    t, p = I.instant("t", "offset"), eop(I)
    s = state(I)
    fw = L.eci.eci2ecef_state(*s, t, force_non_astropy=True, **p)
    ck.eq("same-as-eci2ecef", tuple(fw[:3]), tuple(L.eci.eci2ecef(*s[:3], t, force_non_astropy=True, **p)), rel=1e-14, scale=1)
    bk = L.eci.ecef2eci_state(*fw, t, force_non_astropy=True, **p)
    ck.eq("position-back", tuple(bk[:3]), tuple(s[:3]), rel=1e-13, scale=1)
    ck.eq("velocity-back", tuple(bk[3:]), tuple(s[3:]), tol=None if I.sym else 1e-12 * (1e4 + max(abs(k) for k in s[3:]) + 1e-4 * I.mag))
    rv = L.eci.ecef2eci_state(*s, t, force_non_astropy=True, **p)
    ck.eq("same-as-ecef2eci", tuple(rv[:3]), tuple(L.eci.ecef2eci(*s[:3], t, force_non_astropy=True, **p)), rel=1e-14, scale=1)
    fw2 = L.eci.eci2ecef_state(*rv, t, force_non_astropy=True, **p)
    ck.eq("forward-again", tuple(fw2[:3]), tuple(s[:3]), rel=1e-13, scale=1)
    ck.eq("velocity-forward-again", tuple(fw2[3:]), tuple(s[3:]), tol=None if I.sym else 1e-12 * (1e4 + max(abs(k) for k in s[3:]) + 1e-4 * I.mag))


@contract("C10", "default_parameters", stubs=MAT, block=NOASTRO)
def c10_default(L, I, ck, M):
    """without Astropy, left-out orientation parameters are zero"""
    t = I.instant("t", "utc")
    s = state(I)
    z = dict(delta_ut1=0, xp=0, yp=0)
    for f in ("eci2ecef_state", "ecef2eci_state"):
        a, b = getattr(L.eci, f)(*s, t), getattr(L.eci, f)(*s, t, force_non_astropy=True, **z)
        ck.eq(f, tuple(a), tuple(b), rel=1e-15, scale=1)


@contract("C10", "arrays", cfg=("np",), stubs=MAT, nsamples=20)
def c10_arrays(L, I, ck, M):
    """arrays of states: element by element"""
    t, p = I.instant("t", "utc"), eop(I)
    n = 2
    cols = [[I.length(f"{k}{i}", 5e7 if k < "s" else 1e4) for i in range(n)] for k in ("px", "py", "pz", "vx", "vy", "vz")]
    for f in ("eci2ecef_state", "ecef2eci_state"):
        A = getattr(L.eci, f)(*[I.array(c) for c in cols], t, force_non_astropy=True, **p)
        for i in range(n):
            S = getattr(L.eci, f)(*[c[i] for c in cols], t, force_non_astropy=True, **p)
            for k in range(6):
                ck.eq(f"{f}{k}", A[k][i], S[k], rel=1e-14, scale=1)


# ---------------------------------------------------------------- C11 calendar and leap seconds
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


@contract("C11", "juliandate", params=[{"month": m, "zone": z} for m in range(1, 13) for z in ("offset",)] + [{"month": m, "zone": z} for m in (1, 2, 3, 12) for z in ("naive", "utc")],
          mode="proof", cfg=("std",))
def c11_jd(L, I, ck, M, month, zone):
    """true day count plus fraction of day, for every year 1..9999 and every time of day; aware times through UTC"""
    t, f = I.calendar("t", month, zone)
    y = M.real(f["year"]) - (1 if month <= 2 else 0)
    days = 365 * (M.real(f["year"]) - 2000) + M.floor(y * M.q("1/4")) - M.floor(y * M.q("1/100")) + M.floor(y * M.q("1/400")) - (499 - 19 + 4 if False else 0)
    # days since 2000-01-01 = 365 (Y-2000) + leap days up to the date - leap days up to 1999 + days of earlier months + day-1
    days = days - (1999 // 4 - 1999 // 100 + 1999 // 400) + CUM[month - 1] + M.real(f["day"]) - 1
    frac = (M.real(f["hour"]) * 3600 + M.real(f["minute"]) * 60 + M.real(f["second"]) + M.real(f["microsecond"]) * M.q("1/1000000")) * M.q("1/86400")
    ck.eq("juliandate", L.earth_orientation.juliandate(t), M.q("2451544.5") + days + frac)
    ck.eq("sidereal.juliandate", L.sidereal.juliandate(t), M.q("2451544.5") + days + frac)


@contract("C11", "juliandate_values", mode="bounded")
def c11_jdv(L, I, ck, M):
    import datetime as dt
    t = I.instant("t", lo=1, hi=9999) if I.choice("range", ["common", "wide"]) == "wide" else I.instant("t2")
    if t.year < 2 or t.year > 9998:
        raise Skip()
    want = M.q("2451544.5") + I.seconds_of(t) / 86400
    a = L.earth_orientation.juliandate(t)
    ck.eq("juliandate", a, want, tol=1e-9)
    for f in (lambda x: L.sidereal.juliandate(x), lambda x: L.sidereal.juliandate([x])[0]):
        ck.eq("sidereal", f(t), want, tol=1e-9)
    u = t + dt.timedelta(days=1)
    if u.tzinfo is None or u.utcoffset() == t.utcoffset():
        ck.eq("next-day", L.earth_orientation.juliandate(u) - a, 1, tol=1e-9)
    w = t + dt.timedelta(seconds=I.real("ds", 0, 1e5))
    ck.le("monotone", a, L.earth_orientation.juliandate(w))


@contract("C11", "every_day", mode="bounded", fixed_n=201, cfg=("std",))
def c11_days(L, I, ck, M):
    """all days of one year (the runs together cover 1900..2100), midnight exact"""
    import datetime as dt
    y = I.integer("year", 1900, 2100)
    if "n" not in _year:
        _year["n"] = 1900
    if "year" not in I.preset:
        y = _year["n"]
        _year["n"] = 1900 + (y - 1899) % 201
        I.rec["year"] = y
    d = dt.datetime(y, 1, 1)
    while d.year == y:
        want = 2451544.5 + day_number(d.year, d.month, d.day)
        ck.true("midnight", L.earth_orientation.juliandate(d) == want, f"{d} {L.earth_orientation.juliandate(d)} {want}")
        d += dt.timedelta(days=1)


_year = {}


@contract("C11", "leap_table", params=[{"zone": z} for z in ("naive", "utc", "offset")], cfg=("std",), nsamples=200)
def c11_leap(L, I, ck, M, zone):
    """TAI-UTC is the published table at every instant; TT = UTC + TAI-UTC + 32.184 s"""
    if I.sym:
        t = I.instant("t", zone)
    else:
        import datetime as dt
        t = I.instant("t", zone, lo=1965, hi=2040)
        if I.choice("edge", [True, False]):
            y, m, _ = I.choice("leap", LEAPS)
            t = dt.datetime(y, m, 1, tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=I.choice("us", [-1, 0, 1, -10 ** 6]))
            if zone == "offset":
                t = t.astimezone(dt.timezone(dt.timedelta(hours=I.integer("h", -12, 14))))
            if zone == "naive":
                t = t.replace(tzinfo=None)
    n = L.earth_orientation.leap_seconds(t)
    want = tai_utc(I, t)
    ck.eq("tai-utc", n, M.q(want))
    tt = L.earth_orientation.utc_to_tt(t)
    ck.eq("tt", I.seconds_of(tt), M.real(I.seconds_of(t)) + want + M.q("32.184"), tol=2e-6)
    d = I.real("sec", -100, 100)
    ck.eq("offset", I.seconds_of(L.earth_orientation.utc_with_offset(t, d)), M.real(I.seconds_of(t)) + M.real(d), tol=2e-6)
    e = L.earth_orientation.ensure_utc(t)
    ck.eq("ensure_utc", I.seconds_of(e), I.seconds_of(t), tol=1e-9)
    ck.true("is-utc", e.tzinfo is not None and float(e.utcoffset().total_seconds() if not I.sym else 0) == 0 if not I.sym else e.tzinfo is not None and e.tz.off.op == "c" and e.tz.off.args[0] == 0)


@contract("C11", "zones", stubs=JD)
def c11_zones(L, I, ck, M):
    """an aware instant gives the result of the same UTC instant; naive is UTC"""
    t = I.instant("t", "offset")
    u = I.as_utc(t)
    n = u.replace(tzinfo=None)
    lon = I.lon("lon", False)
    fs = {"matrix": lambda x: [k for r in L.earth_orientation.eci_to_ecef_matrix(x) for k in r],
          "lst": lambda x: [L.sidereal.datetime2sidereal(x, lon, force_non_astropy=True)]}
    for k, f in fs.items():
        a = f(u)
        for nm, x in (("aware", t), ("naive", n)):
            for i, (g, w) in enumerate(zip(f(x), a)):
                ck.eq(f"{k}-{nm}{i}", g, w, tol=1e-12)


@contract("C11", "iso_strings", mode="bounded")
def c11_iso(L, I, ck, M):
    import datetime as dt
    t = I.instant("t")
    k = I.choice("form", ["auto", "seconds", "microseconds", "space", "date", "basic", "Z"])
    if k == "date":
        t = dt.datetime(t.year, t.month, t.day)
        s = t.date().isoformat()
    elif k == "basic":
        t = t.replace(tzinfo=None, microsecond=0)
        s = t.strftime("%Y%m%dT%H%M%S")
    elif k == "Z":
        t = t.replace(tzinfo=dt.timezone.utc)
        s = t.replace(tzinfo=None).isoformat() + "Z"
    elif k == "space":
        s = t.isoformat(" ")
    elif k == "auto":
        s = t.isoformat()
    else:
        if k == "seconds":
            t = t.replace(microsecond=0)
        s = t.isoformat(timespec=k)
    r = L.timeconv.str2dt(s)
    ck.true("value", r == t and (r.tzinfo is None) == (t.tzinfo is None), f"{s!r} -> {r!r}, want {t!r}")
    if t.tzinfo is not None:
        ck.true("zone", r.utcoffset() == t.utcoffset(), f"{r!r}")
    ck.true("datetime-unchanged", L.timeconv.str2dt(t) is t or L.timeconv.str2dt(t) == t)
    ck.raises("not-a-date", ValueError, lambda: L.timeconv.str2dt(I.choice("bad", ["", "today", "2020-13-01", "2020-02-30", "20x0-01-01", "2021-01-01T25:00:00"])))
    if I.cfg == "np":
        import numpy as np
        n = t.astimezone(dt.timezone.utc).replace(tzinfo=None) if t.tzinfo else t
        ck.true("datetime64", L.timeconv.str2dt(np.datetime64(n)) == n)


# ---------------------------------------------------------------- C12 sidereal time
@contract("C12", "gmst", params=[{"fn": f} for f in ("earth_orientation.greenwich_mean_sidereal_time", "sidereal.greenwichsrt")])
def c12_gmst(L, I, ck, M, fn):
    """IAU 1982 polynomial reduced to [0, 2 pi)"""
    jd = I.real("jd", 2415020.5, 2488070.5, special=(2451545.0, 2451544.5))
    m, f = fn.split(".")
    g = getattr(getattr(L, m), f)(jd)
    ck.mod("value", g, gmst(M, M.real(jd) - M.q("2451545")), 2 * M.pi, tol=1e-9)
    ck.le("low", M.q(0), g)
    ck.lt("high", g, 2 * M.pi)
    # one sidereal turn per sidereal day (86164.0905309 s): the advance over it is 2 pi up to the secular drift
    day = M.q("86164.09053083288") * M.q("1/86400")
    h = getattr(getattr(L, m), f)(jd + (day if I.sym else float(day)))
    if not I.sym:
        ck.mod("turn", h, g, 2 * M.pi, tol=2e-8)
    if m == "sidereal":
        a = L.sidereal.greenwichsrt([jd, jd + 1])
        ck.eq("list0", a[0], g, tol=0)
        ck.eq("list1", a[1], L.sidereal.greenwichsrt(jd + 1), tol=0)
        ck.true("list", isinstance(a, list) and len(a) == 2)


@contract("C12", "gast")
def c12_gast(L, I, ck, M):
    """apparent = mean + equation of the equinoxes, in [0, 2 pi)"""
    j1, j2 = I.real("jd_ut1", 2415020.5, 2488070.5), I.real("jd_tt", 2415020.5, 2488070.5)
    T = (M.real(j2) - M.q("2451545")) * M.q("1/36525")
    g = L.earth_orientation.greenwich_apparent_sidereal_time(j1, j2)
    psi, deps, e0 = nutation(M, T)
    eq = psi * M.cos(e0 + deps)
    ck.mod("value", g, gmst(M, M.real(j1) - M.q("2451545")) + eq, 2 * M.pi, tol=1e-9)
    ck.le("low", M.q(0), g)
    ck.lt("high", g, 2 * M.pi)
    n = L.earth_orientation.nutation_short(M.num(T) if I.sym else float(T))
    ck.eq("dpsi", n[0], psi, tol=1e-13)
    ck.eq("deps", n[1], deps, tol=1e-13)
    ck.eq("obliquity", L.earth_orientation.mean_obliquity(M.num(T) if I.sym else float(T)), e0, tol=1e-13)
    ck.eq("equinoxes", L.earth_orientation.equation_of_equinoxes(M.num(T) if I.sym else float(T)), eq, tol=1e-13)


@contract("C12", "local", stubs=JD, params=[{"zone": z} for z in ("naive", "offset")])
def c12_local(L, I, ck, M, zone):
    """local apparent sidereal time = Greenwich apparent sidereal time at UT1 plus east longitude, modulo a turn"""
    t, lon, d = I.instant("t", zone), I.lon("lon", False), I.real("delta_ut1", -0.9, 0.9, special=(0.0,))
    g = gast(M, *instants(I, L, M, t, d))
    s = L.sidereal.datetime2sidereal(t, lon, True, delta_ut1=d)
    ck.mod("value", s, g + M.real(lon), 2 * M.pi, tol=2e-8)
    ck.le("low", M.q(0), s)
    ck.le("high", s, 2 * M.pi)
    ck.eq("vallado", L.sidereal.datetime2sidereal_vallado(t, lon, delta_ut1=d), s, tol=0)
    ck.mod("default-ut1", L.sidereal.datetime2sidereal(t, lon, force_non_astropy=True), gast(M, *instants(I, L, M, t, 0)) + M.real(lon), 2 * M.pi, tol=2e-8)
    u = I.instant("u", zone)
    for mk in (list, tuple):
        r = L.sidereal.datetime2sidereal(mk([t, u]), lon, force_non_astropy=True, delta_ut1=d)
        ck.true("list", isinstance(r, (list, tuple)) and len(r) == 2)
        ck.eq("list0", r[0], s, tol=0)
        ck.eq("list1", r[1], L.sidereal.datetime2sidereal(u, lon, True, delta_ut1=d), tol=0)


@contract("C12", "plain_call", block=NOASTRO, stubs=JD)
def c12_plain(L, I, ck, M):
    """without Astropy the plain call is the built-in one"""
    t, lon, d = I.instant("t", "utc"), I.lon("lon", False), I.real("delta_ut1", -0.9, 0.9)
    g = gast(M, *instants(I, L, M, t, d))
    ck.mod("value", L.sidereal.datetime2sidereal(t, lon, delta_ut1=d), g + M.real(lon), 2 * M.pi, tol=2e-8)


# ---------------------------------------------------------------- C13 sky coordinates
SID = ("sidereal.datetime2sidereal",)


def lst(L, I, M, t, lon, d):
    if I.sym:
        return M.real(L.sidereal.datetime2sidereal(t, M.rad(lon), delta_ut1=d))
    return gast(M, *instants(I, L, M, t, d)) + M.rad(lon)


def dirvec(M, lon, lat):
    return M.cos(lat) * M.cos(lon), M.cos(lat) * M.sin(lon), M.sin(lat)


def open_lat(I, name="lat"):
    v = I.lat(name, open=True)
    return v


@contract("C13", "azel2radec", stubs=SID + JD, params=[{"public": p} for p in (True, False)])
def c13_fwd(L, I, ck, M, public):
    """the direction in the hour-angle frame is the rotation of the horizontal direction by the latitude"""
    t, d = I.instant("t", "utc"), I.real("delta_ut1", -0.9, 0.9, special=(0.0,))
    lat, lon, az, el = open_lat(I), I.lon("lon"), I.angle("az"), I.lat("el")
    ra, dec = L.azelradec.azel2radec(az, el, lat, lon, t, force_non_astropy=True, delta_ut1=d) if public else L.vallado.azel2radec(az, el, lat, lon, t, delta_ut1=d)
    a, e, f = M.rad(az), M.rad(el), M.rad(lat)
    n, ea, u = M.cos(e) * M.cos(a), M.cos(e) * M.sin(a), M.sin(e)
    # meridian-plane axes: x towards the equator point of the meridian, y west, z the pole
    X, Y, Z = u * M.cos(f) - n * M.sin(f), -ea, u * M.sin(f) + n * M.cos(f)
    H = lst(L, I, M, t, lon, d) - M.rad(ra)
    de = M.rad(dec)
    ck.eq("z", M.sin(de), Z, tol=3e-8)
    ck.eq("x", M.cos(de) * M.cos(H), X, tol=3e-8)
    ck.eq("y", M.cos(de) * M.sin(H), Y, tol=3e-8)
    ck.le("ra>=0", M.q(0), ra)
    ck.lt("ra<360", ra, M.q(360))
    ck.le("dec<=90", dec, M.q(90))
    ck.le("dec>=-90", M.q(-90), dec)


@contract("C13", "radec2azel", stubs=SID + JD, params=[{"public": p} for p in (True, False)])
def c13_inv(L, I, ck, M, public):
    t, d = I.instant("t", "utc"), I.real("delta_ut1", -0.9, 0.9, special=(0.0,))
    lat, lon, ra, dec = open_lat(I), I.lon("lon"), I.angle("ra"), I.lat("dec")
    az, el = L.azelradec.radec2azel(ra, dec, lat, lon, t, force_non_astropy=True, delta_ut1=d) if public else L.vallado.radec2azel(ra, dec, lat, lon, t, delta_ut1=d)
    H, de, f = lst(L, I, M, t, lon, d) - M.rad(ra), M.rad(dec), M.rad(lat)
    X, Y, Z = M.cos(de) * M.cos(H), M.cos(de) * M.sin(H), M.sin(de)
    a, e = M.rad(az), M.rad(el)
    ck.eq("up", M.sin(e), X * M.cos(f) + Z * M.sin(f), tol=3e-8)
    ck.eq("north", M.cos(e) * M.cos(a), Z * M.cos(f) - X * M.sin(f), tol=3e-8)
    ck.eq("east", M.cos(e) * M.sin(a), -Y, tol=3e-8)
    ck.le("az>=0", M.q(0), az)
    ck.lt("az<360", az, M.q(360))
    ck.le("el<=90", el, M.q(90))
    ck.le("el>=-90", M.q(-90), el)


@contract("C13", "pole", stubs=SID + JD)
def c13_pole(L, I, ck, M):
    """the celestial pole stands at azimuth 0 and elevation = latitude"""
    t, d = I.instant("t", "utc"), I.real("delta_ut1", -0.9, 0.9, special=(0.0,))
    lat, lon, ra = open_lat(I), I.lon("lon"), I.angle("ra")
    az, el = L.azelradec.radec2azel(ra, 90.0, lat, lon, t, force_non_astropy=True, delta_ut1=d)
    ck.eq("el", el, lat, tol=1e-11)
    c = 1 if I.sym else float(M.cos(M.rad(lat)))
    ck.mod("az", az, M.q(0), M.q(360), tol=1e-11 / max(c, 1e-6) if not I.sym else None)
    r, de = L.azelradec.azel2radec(0.0, lat, lat, lon, t, force_non_astropy=True, delta_ut1=d)
    ck.eq("dec", de, M.q(90), tol=1e-6)


@contract("C13", "bad_latitude", stubs=SID + JD)
def c13_bad(L, I, ck, M):
    t = I.instant("t", "utc")
    x, lon, p, q = I.real("excess", 0, 1000, open_lo=True), I.lon("lon"), I.angle("p"), I.lat("q")
    for s in (1, -1):
        lat = s * (90 + x)
        if not I.sym and abs(lat) <= 90:
            raise Skip()
        for m in (lambda f: getattr(L.vallado, f)(p, q, lat, lon, t), lambda f: getattr(L.azelradec, f)(p, q, lat, lon, t, force_non_astropy=True)):
            for f in ("azel2radec", "radec2azel"):
                ck.raises("ValueError", ValueError, lambda: m(f))


@contract("C13", "round_trip", stubs=SID + JD, mode="bounded")
def c13_rt(L, I, ck, M):
    t = I.instant("t")
    lat, lon, az, el = open_lat(I), I.lon("lon"), I.angle("az"), I.lat("el")
    r = L.azelradec.azel2radec(az, el, lat, lon, t, force_non_astropy=True)
    a, e = L.azelradec.radec2azel(*r, lat, lon, t, force_non_astropy=True)
    for k, (x, y) in enumerate(zip(dirvec(M, M.rad(a), M.rad(e)), dirvec(M, M.rad(az), M.rad(el)))):
        ck.eq(f"direction{k}", x, y, tol=1e-9)


@contract("C13", "plain_call", stubs=SID + JD, block=NOASTRO)
def c13_plain(L, I, ck, M):
    """without Astropy the plain call is the built-in conversion"""
    t, d = I.instant("t", "utc"), I.real("delta_ut1", -0.9, 0.9)
    a = (I.angle("p"), I.lat("q"), open_lat(I), I.lon("lon"), t)
    for f in ("azel2radec", "radec2azel"):
        ck.eq(f, tuple(getattr(L.azelradec, f)(*a, delta_ut1=d)), tuple(getattr(L.azelradec, f)(*a, True, delta_ut1=d)), tol=0)
