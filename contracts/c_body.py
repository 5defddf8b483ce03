"""C08: body-frame rotations."""
from pyvc.contract import contract
from contracts.lib import basis, dot, matmul, matvec, transpose, mat_eq
from contracts.c_local import E2G, axes, obs, geo_eq

FR = ("ned", "enu", "nwu", "sez")
FD = [{"frame": f, "deg": d} for f in FR for d in (True, False)]


def ypr(I, deg):
    return I.angle("yaw", deg), I.angle("pitch", deg), I.angle("roll", deg)


def spec_body(M, y, p, r, deg, frame="ned"):
    """columns of body->frame: body axes seen from the local frame; rows of frame->body"""
    if deg:
        y, p, r = M.rad(y), M.rad(p), M.rad(r)
    sy, cy, sp, cp, sr, cr = M.sin(y), M.cos(y), M.sin(p), M.cos(p), M.sin(r), M.cos(r)
    # rows in NED: body x, y, z axes after yaw about down, pitch about the new east, roll about the new forward axis
    X = (cp * cy, cp * sy, -sp)
    Y = (sr * sp * cy - cr * sy, sr * sp * sy + cr * cy, sr * cp)
    Z = (cr * sp * cy + sr * sy, cr * sp * sy - sr * cy, cr * cp)
    rel = {"ned": lambda n, e, d: (n, e, d), "enu": lambda n, e, d: (e, n, -d), "nwu": lambda n, e, d: (n, -e, -d),
           "sez": lambda n, e, d: (-n, e, -d)}[frame]
    return tuple(rel(*v) for v in (X, Y, Z))


@contract("C08", "matrices", params=FD)
def c08_matrices(L, I, ck, M, frame, deg):
    a = ypr(I, deg)
    R = getattr(L.body, f"{frame}2body_matrix")(*a, deg=deg)
    Ri = getattr(L.body, f"body2{frame}_matrix")(*a, deg=deg)
    want = spec_body(M, *a, deg, frame)
    mat_eq(ck, "rows", R, want, 1e-14)
    mat_eq(ck, "transpose", Ri, transpose(want), 1e-14)
    if frame == "ned":
        mat_eq(ck, "body_matrix", L.body.body_matrix(*a, deg=deg), want, 1e-14)
    q = [[M.real(x) for x in r] for r in R]
    for i in range(3):
        for j in range(i, 3):
            ck.eq(f"orthonormal{i}{j}", dot(q[i], q[j]), M.q(int(i == j)), tol=1e-14)
    A, B, C = q
    ck.eq("determinant", A[0] * (B[1] * C[2] - B[2] * C[1]) - A[1] * (B[0] * C[2] - B[2] * C[0]) + A[2] * (B[0] * C[1] - B[1] * C[0]),
          M.q(1), tol=1e-14)


@contract("C08", "local_vectors", params=FD)
def c08_vec(L, I, ck, M, frame, deg):
    a = ypr(I, deg)
    v = [I.length(k) for k in "uvw"]
    w = [M.real(k) for k in v]
    R = spec_body(M, *a, deg, frame)
    got = getattr(L.body, f"{frame}2body")(*v, *a, deg=deg)
    ck.eq("to-body", tuple(got), matvec(R, w), rel=1e-14, scale=1)
    got = getattr(L.body, f"body2{frame}")(*v, *a, deg=deg)
    ck.eq("from-body", tuple(got), matvec(transpose(R), w), rel=1e-14, scale=1)


@contract("C08", "ecef_vectors", params=FD)
def c08_ecefv(L, I, ck, M, frame, deg):
    """the physical rotation ECEF -> body does not depend on the intermediate frame"""
    a = ypr(I, deg)
    lat, lon = I.lat("lat0", deg), I.lon("lon0", deg)
    v = [I.length(k) for k in "uvw"]
    w = [M.real(k) for k in v]
    R = spec_body(M, *a, deg)
    loc = matvec(axes(M, lat, lon, deg, "ned"), w)
    got = L.body.ecef2bodyv(*v, lat, lon, *a, frame=frame, deg=deg)
    ck.eq("to-body", tuple(got), matvec(R, loc), rel=1e-14, scale=1)
    got = L.body.body2ecefv(*v, lat, lon, *a, frame=frame, deg=deg)
    ck.eq("from-body", tuple(got), matvec(transpose(axes(M, lat, lon, deg, "ned")), matvec(transpose(R), w)), rel=1e-14, scale=1)


@contract("C08", "positions", params=FD, stubs=E2G, cost=2)
def c08_pos(L, I, ck, M, frame, deg):
    ell = I.ell(L)
    a = ypr(I, deg)
    lat0, lon0, h0 = obs(I, deg)
    sc = I.scale
    R = spec_body(M, *a, deg, frame)
    v = [I.length(k, 3e7) for k in "xyz"]
    loc = getattr(getattr(L, "ecef" if frame == "enu" else frame), f"ecef2{frame}")(*v, lat0, lon0, h0, ell, deg=deg)
    got = L.body.ecef2body(*v, lat0, lon0, h0, *a, ell=ell, frame=frame, deg=deg)
    ck.eq("ecef2body", tuple(got), matvec(R, [M.real(k) for k in loc]), rel=1e-14, scale=sc)
    b = matvec(transpose(R), [M.real(k) for k in v])
    toecef = getattr(getattr(L, "ecef" if frame == "enu" else frame), f"{frame}2ecef")
    want = toecef(*[(k if I.sym else float(k)) for k in b], lat0, lon0, h0, ell, deg=deg)
    ck.eq("body2ecef", tuple(L.body.body2ecef(*v, lat0, lon0, h0, *a, ell=ell, frame=frame, deg=deg)), tuple(want), rel=1e-14, scale=sc)


@contract("C08", "geodetic", params=FD, stubs=E2G, cost=2)
def c08_geo(L, I, ck, M, frame, deg):
    ell = I.ell(L)
    a = ypr(I, deg)
    lat0, lon0, h0 = obs(I, deg)
    R = spec_body(M, *a, deg, frame)
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h")
    loc = getattr(getattr(L, frame), f"geodetic2{frame}")(lat, lon, h, lat0, lon0, h0, ell, deg=deg)
    got = L.body.geodetic2body(lat, lon, h, lat0, lon0, h0, *a, ell=ell, frame=frame, deg=deg)
    ck.eq("geodetic2body", tuple(got), matvec(R, [M.real(k) for k in loc]), rel=1e-14, scale=I.scale)
    v = [I.length(k, 1e6) for k in "uvw"]
    want = L.ecef.ecef2geodetic(*L.body.body2ecef(*v, lat0, lon0, h0, *a, ell=ell, frame=frame, deg=deg), ell, deg=deg)
    geo_eq(L, I, ck, M, "body2geodetic", L.body.body2geodetic(*v, lat0, lon0, h0, *a, ell=ell, frame=frame, deg=deg), want, ell, deg)


@contract("C08", "rejects", params=[{"deg": True}, {"deg": False}])
def c08_rej(L, I, ck, M, deg):
    """only sequence 'zyx' and the four frame names are accepted, everywhere"""
    a = ypr(I, deg)
    lat, lon, h = obs(I, deg)
    v = [I.length(k) for k in "uvw"]
    seq = I.choice("sequence", ["xyz", "ZYX", "zxy", ""])
    fr = I.choice("frame", ["NED", "eun", "body", ""])
    B = L.body
    for f in FR:
        for n in (f"{f}2body_matrix", f"body2{f}_matrix"):
            ck.raises(n, ValueError, lambda: getattr(B, n)(*a, sequence=seq, deg=deg))
        for n in (f"{f}2body", f"body2{f}"):
            ck.raises(n, ValueError, lambda: getattr(B, n)(*v, *a, sequence=seq, deg=deg))
        for n in ("ecef2body", "body2ecef", "geodetic2body"):
            ck.raises(n + "-sequence", ValueError, lambda: getattr(B, n)(*v, lat, lon, h, *a, frame=f, sequence=seq, deg=deg)) if n != "geodetic2body" else \
                ck.raises(n + "-sequence", ValueError, lambda: B.geodetic2body(lat, lon, h, lat, lon, h, *a, frame=f, sequence=seq, deg=deg))
        for n in ("ecef2bodyv", "body2ecefv"):
            ck.raises(n + "-sequence", ValueError, lambda: getattr(B, n)(*v, lat, lon, *a, frame=f, sequence=seq, deg=deg))
    ck.raises("body_matrix", ValueError, lambda: B.body_matrix(*a, sequence=seq, deg=deg))
    for n in ("ecef2body", "body2ecef", "body2geodetic"):
        ck.raises(n + "-frame", ValueError, lambda: getattr(B, n)(*v, lat, lon, h, *a, frame=fr, deg=deg))
    ck.raises("geodetic2body-frame", ValueError, lambda: B.geodetic2body(lat, lon, h, lat, lon, h, *a, frame=fr, deg=deg))
    for n in ("ecef2bodyv", "body2ecefv"):
        ck.raises(n + "-frame", ValueError, lambda: getattr(B, n)(*v, lat, lon, *a, frame=fr, deg=deg))
