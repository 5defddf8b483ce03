"""one row per public function: what its arguments and results are.  Used by the relational contracts C27-C31.

name: (inputs, outputs, keywords)
inputs   lat lon az(any angle) el tilt iso alt len vec(not scaled with the ellipsoid) rng(>=0) rad(>0)
         P = position x y z, N = unit vector (3), T = instant
outputs  a angle, l length, u plain number, with counts ("u9" = 3x3 matrix)"""
ROWS = {
    "ecef.geodetic2ecef": ("lat lon alt", "l l l"),
    "ecef.ecef2geodetic": ("P", "a a l"),
    "ecef.ecef2enuv": ("vec vec vec lat lon", "u u u"),
    "ecef.ecef2enu": ("P lat lon alt", "l l l"),
    "ecef.enu2uvw": ("vec vec vec lat lon", "u u u"),
    "ecef.uvw2enu": ("vec vec vec lat lon", "u u u"),
    "ecef.enu2ecef": ("len len len lat lon alt", "l l l"),
    "ecef.eci2geodetic": ("P T", "a a l"),
    "ecef.geodetic2eci": ("lat lon alt T", "l l l"),
    "enu.enu2aer": ("len len len", "a a l"),
    "enu.aer2enu": ("az el rng", "l l l"),
    "enu.enu2geodetic": ("len len len lat lon alt", "a a l"),
    "enu.geodetic2enu": ("lat lon alt lat lon alt", "l l l"),
    "enu.enu2ecefv": ("vec vec vec lat lon", "u u u"),
    "enu.ecef2enu_matrix": ("lat lon", "u9"),
    "enu.enu2ecef_matrix": ("lat lon", "u9"),
    "aer.ecef2aer": ("P lat lon alt", "a a l"),
    "aer.geodetic2aer": ("lat lon alt lat lon alt", "a a l"),
    "aer.aer2geodetic": ("az el rng lat lon alt", "a a l"),
    "aer.aer2ecef": ("az el rng lat lon alt", "l l l"),
    "aer.eci2aer": ("P lat lon alt T", "a a l"),
    "aer.aer2eci": ("az el rng lat lon alt T", "l l l"),
    "dca.enu2dca": ("len len len az", "l l l"),
    "dca.dca2enu": ("len len len az", "l l l"),
    "dca.dca2ned": ("len len len az", "l l l"),
    "dca.ned2dca": ("len len len az", "l l l"),
    "dca.ecef2dca": ("P lat lon alt az", "l l l"),
    "dca.dca2ecef": ("len len len lat lon alt az", "l l l"),
    "dca.geodetic2dca": ("lat lon alt lat lon alt az", "l l l"),
    "dca.dca2geodetic": ("len len len lat lon alt az", "a a l"),
    "dca.aer2dca": ("az el rng az", "l l l"),
    "dca.dca2aer": ("len len len az", "a a l"),
    "haversine.anglesep_meeus": ("lon lat lon lat", "a"),
    "haversine.anglesep": ("lon lat lon lat", "a"),
    "karney.geodesic_inverse": ("lat lon lat lon", "l a a"),
    "karney.geodesic_direct": ("lat lon az len", "a a a"),
    "latitude.geodetic2geocentric": ("lat alt", "a"),
    "latitude.geocentric2geodetic": ("lat alt", "a"),
    "latitude.geod2geoc": ("lat alt", "a"),
    "latitude.geoc2geod": ("lat rad", "a"),
    "latitude.geodetic2isometric": ("lat", "a"),
    "latitude.isometric2geodetic": ("iso", "a"),
    "latitude.conformal2geodetic": ("lat", "a"),
    "latitude.geodetic2conformal": ("lat", "a"),
    "latitude.geodetic2rectifying": ("lat", "a"),
    "latitude.rectifying2geodetic": ("lat", "a"),
    "latitude.geodetic2authalic": ("lat", "a"),
    "latitude.authalic2geodetic": ("lat", "a"),
    "latitude.geodetic2parametric": ("lat", "a"),
    "latitude.parametric2geodetic": ("lat", "a"),
    "los.lookAtSpheroid": ("lat lon alt+ az tilt", "a a l"),
    "lox.meridian_dist": ("lat", "l"),
    "lox.meridian_arc": ("lat lat", "l"),
    "lox.loxodrome_inverse": ("lat! lon lat! lon", "l a"),
    "lox.loxodrome_direct": ("lat! lon rng az", "a a"),
    "lox.departure": ("lon lon lat", "l"),
    "nvector.geodetic2nvector": ("lat lon", "u u u"),
    "nvector.nvector2geodetic": ("N", "a a"),
    "nvector.ecef2nvector": ("P", "u u u"),
    "nvector.nvector2ecef": ("N alt", "l l l"),
    "rcurve.geocentric_radius": ("lat", "l"),
    "rcurve.parallel": ("lat", "l"),
    "rcurve.meridian": ("lat", "l"),
    "rcurve.transverse": ("lat", "l"),
    "rsphere.euler": ("lat lon lat lon", "l"),
    "rsphere.curve": ("lat", "l"),
    "rsphere.curve:norm": ("lat", "l", {"method": "norm"}),
    "rsphere.eqavol": ("", "l"),
    "rsphere.authalic": ("", "l"),
    "rsphere.rectifying": ("", "l"),
    "rsphere.triaxial": ("", "l"),
    "rsphere.triaxial:norm": ("", "l", {"method": "norm"}),
    "rsphere.biaxial": ("", "l"),
    "rsphere.biaxial:norm": ("", "l", {"method": "norm"}),
    "spherical.geodetic2spherical": ("lat lon alt", "a a l"),
    "spherical.spherical2geodetic": ("lat lon rad", "a a l"),
    "vincenty.vdist": ("lat lon lat lon", "l a"),
    "vincenty.vreckon": ("lat lon rng az", "a a"),
    "karney.geodesic_line": ("lat lon lat lon", "a* a*", {"npts": 3}),
    "vincenty.track2": ("lat lon lat lon", "a* a*", {"npts": 3}),
}
for f in ("ned", "nwu", "sez"):
    ROWS[f"{f}.aer2{f}"] = ("az el rng", "l l l")
    ROWS[f"{f}.{f}2aer"] = ("len len len", "a a l")
    ROWS[f"{f}.{f}2geodetic"] = ("len len len lat lon alt", "a a l")
    ROWS[f"{f}.{f}2ecef"] = ("len len len lat lon alt", "l l l")
    ROWS[f"{f}.ecef2{f}"] = ("P lat lon alt", "l l l")
    ROWS[f"{f}.geodetic2{f}"] = ("lat lon alt lat lon alt", "l l l")
    ROWS[f"{f}.ecef2{f}v"] = ("vec vec vec lat lon", "u u u")
    if f != "ned":
        ROWS[f"{f}.{f}2ecefv"] = ("vec vec vec lat lon", "u u u")
    ROWS[f"{f}.ecef2{f}_matrix"] = ("lat lon", "u9")
    ROWS[f"{f}.{f}2ecef_matrix"] = ("lat lon", "u9")
for f in ("ned", "enu", "nwu", "sez"):
    ROWS[f"body.{f}2body_matrix"] = ("az az az", "u9")
    ROWS[f"body.body2{f}_matrix"] = ("az az az", "u9")
    ROWS[f"body.{f}2body"] = ("vec vec vec az az az", "u u u")
    ROWS[f"body.body2{f}"] = ("vec vec vec az az az", "u u u")
    ROWS[f"body.ecef2body:{f}"] = ("P lat lon alt az az az", "l l l", {"frame": f})
    ROWS[f"body.body2ecef:{f}"] = ("len len len lat lon alt az az az", "l l l", {"frame": f})
    ROWS[f"body.ecef2bodyv:{f}"] = ("vec vec vec lat lon az az az", "u u u", {"frame": f})
    ROWS[f"body.body2ecefv:{f}"] = ("vec vec vec lat lon az az az", "u u u", {"frame": f})
    ROWS[f"body.geodetic2body:{f}"] = ("lat lon alt lat lon alt az az az", "l l l", {"frame": f})
    ROWS[f"body.body2geodetic:{f}"] = ("len len len lat lon alt az az az", "a a l", {"frame": f})
ROWS["body.body_matrix"] = ("az az az", "u9")

# without an ellipsoid or unit switch
PLAIN = {
    "eci.eci2ecef": ("P T", "l l l"),
    "eci.ecef2eci": ("P T", "l l l"),
    "eci.eci2ecef_state": ("P vec vec vec T", "l l l u u u"),
    "eci.ecef2eci_state": ("P vec vec vec T", "l l l u u u"),
    "vallado.azel2radec": ("az el lat lon T", "a a"),
    "vallado.radec2azel": ("az el lat lon T", "a a"),
    "nvector.nvector_distance": ("N N", "l"),
    "nvector.nvector_cross_track_distance": ("N N N", "l"),
    "nvector.nvector_intersection": ("N N N N", "u u u"),
    "nvector.nvector_interpolate": ("N N frac", "u u u"),
    "utils.cart2pol": ("len len", "r l"),
    "utils.pol2cart": ("arad len", "l l"),
    "utils.cart2sph": ("len len len", "r r l"),
    "utils.sph2cart": ("arad arad len", "l l l"),
    "haversine.haversine": ("arad", "u"),
    "mathfun.cube_root": ("len", "u"),
}
WITH_T = [k for k, v in ROWS.items() if "T" in v[0].split()]


# functions of ROWS that have no ellipsoid argument
NO_ELL = set("""ecef.ecef2enuv ecef.enu2uvw ecef.uvw2enu enu.enu2aer enu.aer2enu enu.enu2ecefv enu.ecef2enu_matrix enu.enu2ecef_matrix aer.eci2aer
dca.enu2dca dca.dca2enu dca.dca2ned dca.ned2dca dca.aer2dca dca.dca2aer haversine.anglesep_meeus haversine.anglesep nvector.geodetic2nvector
nvector.nvector2geodetic body.body_matrix""".split())
for f in ("ned", "nwu", "sez"):
    NO_ELL |= {f"{f}.aer2{f}", f"{f}.{f}2aer", f"{f}.ecef2{f}v", f"{f}.{f}2ecefv", f"{f}.ecef2{f}_matrix", f"{f}.{f}2ecef_matrix"}
for f in ("ned", "enu", "nwu", "sez"):
    NO_ELL |= {f"body.{f}2body_matrix", f"body.body2{f}_matrix", f"body.{f}2body", f"body.body2{f}", f"body.ecef2bodyv:{f}", f"body.body2ecefv:{f}"}


def flags(f):
    import inspect
    return set(inspect.signature(f).parameters)


def resolve(L, name):
    mod, fn = name.split(":")[0].split(".")
    return getattr(getattr(L, mod), fn)


def row(name):
    r = ROWS.get(name) or PLAIN[name]
    return r[0].split(), r[1].split(), (r[2] if len(r) > 2 else {})


def inputs(I, M, kinds, deg=True, pre=""):
    """-> list of (kind, value); angles in degrees (or radians)"""
    out = []
    for i, k in enumerate(kinds):
        n = f"{pre}{k.rstrip('+!')}{i}"
        if k == "lat":
            out.append((k, I.lat(n, deg)))
        elif k == "lat!":
            out.append(("lat", I.lat(n, deg, open=I.sym)))
        elif k == "lon":
            out.append((k, I.lon(n, deg)))
        elif k == "az":
            out.append((k, I.angle(n, deg)))
        elif k == "el":
            out.append((k, I.lat(n, deg)))
        elif k == "iso":
            out.append((k, I.angle(n, deg)))
        elif k == "tilt":
            out.append((k, I.angle(n, deg, lo=0, hi=60)))
        elif k == "arad":
            out.append((k, I.angle(n, False)))
        elif k == "alt":
            out.append((k, I.alt(n)))
        elif k == "alt+":
            out.append((k, I.alt(n, lo=1.0)))
        elif k == "len":
            out.append((k, I.length(n)))
        elif k == "vec":
            out.append((k, I.real(n, -100, 100)))
        elif k == "frac":
            out.append((k, I.real(n, 0, 1)))
        elif k == "rng":
            out.append((k, I.real(n, 0, 1e7)))
        elif k == "rad":
            out.append((k, I.real(n, 1e5, 1e8, open_lo=True)))
        elif k == "P":
            if I.sym:
                out += [("len", I.length(n + c)) for c in "xyz"]
            else:
                # on any ray, from deep inside to far outside; sometimes on the axis or the equator
                u = [I.real(n + c, -1, 1, special=(0.0,)) for c in "xyz"]
                r = I.scale * I.choice(n + "r", [0.7, 1.0, 1.0, 1.01, 6.0])
                h = sum(c * c for c in u) ** 0.5
                I.require(h > 1e-3)
                out += [("len", c / h * r) for c in u]
        elif k == "N":
            if I.sym:
                t, o = I.lat(n + "t", False), I.lon(n + "o", False)
                out += [("u", M.cos(t) * M.cos(o)), ("u", M.cos(t) * M.sin(o)), ("u", M.sin(t))]
            else:
                import math
                t, o = I.lat(n + "t", False), I.lon(n + "o", False)
                out += [("u", math.cos(t) * math.cos(o)), ("u", math.cos(t) * math.sin(o)), ("u", math.sin(t))]
        elif k == "T":
            out.append((k, I.instant(n)))
        else:
            raise KeyError(k)
    return out


ANGLES = {"lat", "lon", "az", "el", "iso", "tilt"}
LENGTHS = {"len", "alt", "alt+", "rng", "rad"}


def flat(r, outs):
    """result -> list of (kind, value)"""
    if outs == ["u9"]:
        return [("u", r[i][j]) for i in range(3) for j in range(3)]
    if len(outs) == 1 and not outs[0].endswith("*"):
        return [(outs[0], r[()] if hasattr(r, "shape") and not isinstance(r, (list, tuple)) and r.shape == () else r)]
    res = []
    if len(r) != len(outs):
        raise AssertionError(f"{len(r)} results instead of {len(outs)}")
    for k, v in zip(outs, r):
        if k.endswith("*"):
            res += [(k[0], x) for x in v]
        else:
            res.append((k, v))
    return res
