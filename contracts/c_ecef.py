from pyvc.contract import contract


def normal(M, lat, lon, deg=True):
    if deg:
        lat, lon = M.rad(lat), M.rad(lon)
    return M.cos(lat) * M.cos(lon), M.cos(lat) * M.sin(lon), M.sin(lat)


@contract("C01", "surface_and_normal", params=[{"deg": True}, {"deg": False}])
def g2e_surface(L, I, ck, M, deg):
    """height 0: on the surface; gradient of the surface parallel to the stated normal; height h along it"""
    ell = I.ell(L)
    a, b = I.ellab
    lat, lon, h = I.lat("lat", deg), I.lon("lon", deg), I.alt("h")
    x0, y0, z0 = L.ecef.geodetic2ecef(lat, lon, 0.0 if not I.sym else M.q(0), ell=ell, deg=deg)
    x, y, z = L.ecef.geodetic2ecef(lat, lon, h, ell=ell, deg=deg)
    n = normal(M, lat, lon, deg)
    ck.eq("on-surface", (M.real(x0) / a) ** 2 + (M.real(y0) / a) ** 2 + (M.real(z0) / b) ** 2, M.q(1), tol=2e-15 * 10)
    g = (M.real(x0) / a ** 2, M.real(y0) / a ** 2, M.real(z0) / b ** 2)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        ck.eq(f"normal-direction{i}{j}", (g[i] * n[j] - g[j] * n[i]) * a, M.q(0), tol=1e-14)
    ck.lt("outward", M.q(0), (g[0] * n[0] + g[1] * n[1] + g[2] * n[2]) * a)
    sc = I.scale
    ck.eq("height", (x, y, z), (x0 + M.real(h) * n[0], y0 + M.real(h) * n[1], z0 + M.real(h) * n[2]), rel=1e-15 * 8, scale=sc)
