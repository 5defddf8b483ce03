"""C14 angular separation"""
from pyvc.contract import contract
from contracts.lib import DEG, dot, cross

FUN = [{"fn": f, "deg": d} for f in ("anglesep_meeus", "anglesep", "anglesep_builtin") for d in (True, False)]


def lemma(ck, u, v):
    """|u.v| <= 1 for unit vectors (Lagrange identity)"""
    ck.lemma_abs_le("lagrange", dot(u, v), 1, cross(u, v))


def call(L, fn, *a, deg):
    if fn == "anglesep_builtin":
        return L.haversine.anglesep(*a, deg=deg, force_non_astropy=True)
    return getattr(L.haversine, fn)(*a, deg=deg)


def unit(M, lon, lat, deg):
    if deg:
        lat, lon = M.rad(lat), M.rad(lon)
    return (M.cos(lat) * M.cos(lon), M.cos(lat) * M.sin(lon), M.sin(lat))


@contract("C14", "great_circle", params=FUN)
def c14_gc(L, I, ck, M, fn, deg):
    lon0, lat0, lon1, lat1 = I.lon("lon0", deg), I.lat("lat0", deg), I.lon("lon1", deg), I.lat("lat1", deg)
    lemma(ck, unit(M, lon0, lat0, deg), unit(M, lon1, lat1, deg))
    s = call(L, fn, lon0, lat0, lon1, lat1, deg=deg)
    ang = M.rad(s) if deg else M.real(s)
    u, v = unit(M, lon0, lat0, deg), unit(M, lon1, lat1, deg)
    ck.eq("cos", M.cos(ang), dot(u, v), tol=1e-14)
    # near coincidence the cosine is flat: the chord decides
    ck.eq("chord", 2 - 2 * M.cos(ang), sum(((a - b) ** 2 for a, b in zip(u, v)), M.q(0)), tol=1e-14)
    if not I.sym:
        ch = M.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
        ck.eq("sin-half", 2 * M.sin(ang / 2), ch, rel=1e-7 if ch > 1.99 else 1e-11, scale=1e-4)
    ck.le("lower", M.q(0), s)
    ck.le("upper", s, 180 if deg else M.pi, tol=1e-13)
    ck.eq("symmetric", call(L, fn, lon1, lat1, lon0, lat0, deg=deg), s, tol=1e-12)
    ck.eq("coincident", call(L, fn, lon0, lat0, lon0, lat0, deg=deg), M.q(0), tol=1e-12)


@contract("C14", "shift", params=FUN)
def c14_shift(L, I, ck, M, fn, deg):
    lon0, lat0, lon1, lat1 = I.lon("lon0", deg), I.lat("lat0", deg), I.lon("lon1", deg), I.lat("lat1", deg)
    d = I.lon("shift", deg)
    lemma(ck, unit(M, lon0, lat0, deg), unit(M, lon1, lat1, deg))
    s = call(L, fn, lon0, lat0, lon1, lat1, deg=deg)
    ck.eq("shift", call(L, fn, lon0 + d, lat0, lon1 + d, lat1, deg=deg), s, tol=1e-5 if deg else 1e-7)
    full = 360 if deg else 2 * M.pi
    half = 180 if deg else M.pi
    if not I.sym:
        full, half = float(full), float(half)
    ck.eq("full-turn", M.cos(M.rad(call(L, fn, lon0 + full, lat0, lon1, lat1, deg=deg)) if deg else call(L, fn, lon0 + full, lat0, lon1, lat1, deg=deg)),
          M.cos(M.rad(s) if deg else s), tol=1e-13)
    ck.eq("antipode", call(L, fn, lon0, lat0, lon0 + half, -lat0, deg=deg), half, tol=1e-5 if deg else 1e-7)


@contract("C14", "haversine")
def c14_hav(L, I, ck, M):
    t = I.angle("theta", False)
    ck.eq("haversine", L.haversine.haversine(t), (1 - M.cos(t)) / 2, tol=1e-15)


@contract("C14", "meridian", params=FUN)
def c14_mer(L, I, ck, M, fn, deg):
    """along a meridian the separation is the latitude difference; along the equator the longitude difference"""
    lon, lat0, lat1 = I.lon("lon", deg), I.lat("lat0", deg), I.lat("lat1", deg)
    d = I.real("dlon", 0, 180 if deg else 3.14159)
    ck.eq("cos", M.cos(M.rad(call(L, fn, lon, lat0, lon, lat1, deg=deg)) if deg else call(L, fn, lon, lat0, lon, lat1, deg=deg)),
          M.cos(M.rad(lat0 - lat1) if deg else M.real(lat0 - lat1)), tol=1e-14)
    if not I.sym:
        ck.eq("meridian", call(L, fn, lon, lat0, lon, lat1, deg=deg), abs(lat0 - lat1), tol=2e-6 if deg else 3e-8)
        ck.eq("equator", call(L, fn, lon, 0.0, lon + d, 0.0, deg=deg), d, tol=2e-6 if deg else 3e-8)
