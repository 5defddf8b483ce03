"""C27 units, C28 ellipsoid argument, C29 arrays, C30 inputs untouched, C31 both installations: relational contracts over every public function"""
import math
from pyvc.contract import contract, Skip
from contracts.table import ROWS, PLAIN, NO_ELL, ANGLES, LENGTHS, flags, resolve, row, inputs, flat

ITERATIVE = {"spherical.spherical2geodetic", "vincenty.vdist", "vincenty.vreckon", "vincenty.track2", "karney.geodesic_inverse", "karney.geodesic_direct", "karney.geodesic_line"}
NUMPY_ONLY = {"vincenty.track2"}
E2G = ("ecef.ecef2geodetic",)


def run(f, args):
    """-> ("value", result) or ("raises", class of error)"""
    try:
        return "value", f(*args)
    except (ValueError, ArithmeticError) as e:
        return "raises", "value" if isinstance(e, ValueError) else "arithmetic"


def radians(M, I, x):
    return M.rad(x) if I.sym else math.radians(x)


class Spread:
    """monitor only: how much each result moves when one argument moves by a rounding error (evaluated only when needed)"""

    def __init__(self, I, call, args, kinds, outs, deg):
        self.__dict__.update(locals())
        self.s = None

    def __getitem__(self, j):
        if self.s is None:
            self.s = self.compute(**{k: self.__dict__[k] for k in ("call", "args", "kinds", "outs", "deg")})
        return self.s[j]

    @staticmethod
    def compute(call, args, kinds, outs, deg):
        base = [float(x) for _, x in flat(call(args), outs)]
        s = [0.0] * len(base)
        for i, k in enumerate(kinds):
            if k == "T":
                continue
            for step in (1, -1):
                a = list(args)
                v = float(a[i])
                h = 4e-16 * (abs(v) + (1e-12 if v else 0)) if k != "u" else 2e-16
                if h == 0:
                    continue
                if k in ("lat", "el") and abs(v) + h > (90 if deg else math.pi / 2):
                    h = -abs(h) * (1 if v > 0 else -1) * step
                a[i] = v + step * h
                try:
                    q = [float(x) for _, x in flat(call(a), outs)]
                except (ValueError, ArithmeticError):
                    continue
                for j, (x, y) in enumerate(zip(base, q)):
                    d = abs(x - y)
                    if d == d:
                        s[j] = max(s[j], d)
        return s


def same(ck, M, label, k, got, want, deg, s, j, I, loose=0):
    """one result of two runs that must agree, up to rounding and its amplification by the function itself"""
    if I.sym:
        return ck.eq(label, got, want)
    g, w = float(got), float(want)
    if g != g or w != w:
        return ck.true(label, g != g and w != w, f"{got} / {want}")
    if math.isinf(g) or math.isinf(w):
        return ck.true(label, g == w, f"{got} / {want}")
    full = (360.0 if deg and k == "a" else 2 * math.pi) if k in ("a", "r") else None
    d = abs(g - w)
    if loose:
        d = max(0, d - (loose if k == "l" else math.degrees(loose) if deg and k == "a" else loose))
    tol = 1.6e-14 * full if full else (2e-15 * I.scale if k == "l" else 1e-13) + 4e-15 * abs(w)
    if full:
        d = min(d, abs(full - d))
    if d > tol:
        tol += 60 * min(s[j], abs(full - s[j]) if full else s[j])
    ck.true(label, d <= tol, f"{g!r} / {w!r}, tolerance {tol:.3g}")


# ---------------------------------------------------------------- C27
def units(L, I, ck, M, fn):
    if fn in NUMPY_ONLY and I.cfg == "std":
        raise Skip()
    f = resolve(L, fn)
    fl = flags(f)
    kinds, outs, kw = row(fn)
    kw = dict(kw)
    if "ell" in fl:
        kw["ell"] = I.ell(L)
    ins = inputs(I, M, kinds)
    kinds = [k for k, _ in ins]
    d = [v for _, v in ins]
    r = [radians(M, I, v) if k in ANGLES else v for k, v in ins]
    a = run(lambda *x: f(*x, deg=True, **kw), d)
    b = run(lambda *x: f(*x, deg=False, **kw), r)
    c = run(lambda *x: f(*x, **kw), d)
    ck.true("same-outcome", a[0] == b[0] == c[0], f"{a} / {b} / {c}")
    if not (a[0] == b[0] == c[0] == "value"):
        ck.true("same-error", a[0] == b[0] == c[0] and a[1] == b[1] == c[1], f"{a} / {b} / {c}")
        return
    s = Spread(I, lambda x: f(*x, deg=False, **kw), r, kinds, outs, False)
    for j, ((k, x), (_, y), (_, z)) in enumerate(zip(flat(a[1], outs), flat(b[1], outs), flat(c[1], outs))):
        same(ck, M, f"radians{j}", k, radians(M, I, x) if k == "a" else x, y, False, s, j, I)
        if I.sym:
            ck.eq(f"default{j}", z, x)
        else:
            ck.true(f"default{j}", float(z) == float(x) or (z != z and x != x), f"{z} / {x}")


UNITS = [k for k in ROWS if not k.startswith("rsphere.") or k in ("rsphere.euler", "rsphere.curve", "rsphere.curve:meridian")]
LATS = ("latitude.geodetic2rectifying", "latitude.rectifying2geodetic", "latitude.geodetic2isometric")
BY_AER = {"aer.ecef2aer", "aer.geodetic2aer", "aer.eci2aer"}
EARTH = ("earth_orientation.eci_to_ecef_matrix",)
GROUPS = [("itself", {"ecef.ecef2geodetic"}, ()), ("observer", BY_AER, E2G + EARTH + ("enu.enu2aer",)), ("euler", {"rsphere.euler"}, ("vincenty.vdist",)),
          ("sight", {"los.lookAtSpheroid"}, E2G), ("rhumb", {"lox.loxodrome_inverse", "lox.loxodrome_direct"}, LATS)]
GROUPS += [("angles", {"haversine.anglesep", "haversine.anglesep_meeus", "nvector.nvector_cross_track_distance", "nvector.nvector_interpolate", "nvector.nvector_intersection"}, ()),
           ("sky", {"vallado.azel2radec", "vallado.radec2azel"}, ("sidereal.datetime2sidereal",))]
GROUPS.append(("units", (set(ROWS) | set(PLAIN)) - ITERATIVE - set().union(*(g[1] for g in GROUPS)), E2G + EARTH))


PRUNE = {("", "itself"): False, ("default ", "itself"): False, ("scaled ", "itself"): "eq", ("scaled ", "sight"): "eq", ("default ", "sight"): "eq",
         ("scaled ", "euler"): "eq", ("default ", "rhumb"): False,
         ("arrays ", "itself"): False, ("arrays ", "euler"): False, ("arrays ", "rhumb"): "eq", ("arrays ", "angles"): False, ("arrays ", "sight"): "eq",
         ("pure ", "itself"): False, ("pure ", "euler"): False, ("pure ", "angles"): False, ("pure ", "sight"): "eq", ("pure ", "rhumb"): "eq",
         ("both ", "euler"): False, ("both ", "angles"): False, ("both ", "sight"): "eq", ("both ", "rhumb"): "eq"}


def grouped(prop, body, rows, prefix="", cfg=("std", "np"), **opts):
    """the same contract for every row, with the callees that each group takes by contract"""
    for name, fns, stubs in GROUPS:
        fns = [f for f in rows if f in fns]
        if fns:
            contract(prop, prefix + name, params=[{"fn": f} for f in fns], stubs=stubs, prune=PRUNE.get((prefix, name), True), cfg=cfg, **opts)(body)
    it = [f for f in rows if f in ITERATIVE]
    contract(prop, prefix + "iterative", params=[{"fn": f} for f in it], mode="bounded", weight=2, cfg=cfg)(body)


grouped("C27", units, UNITS, seconds=200)


# ---------------------------------------------------------------- C28
def default_ell(L, I, ck, M, fn):
    """no ellipsoid, None and WGS-84 by name are the same thing"""
    if fn in NUMPY_ONLY and I.cfg == "std":
        raise Skip()
    f = resolve(L, fn)
    fl = flags(f)
    kinds, outs, kw = row(fn)
    deg = {"deg": I.choice("deg", [True, False])} if "deg" in fl else {}
    v = [x for _, x in inputs(I, M, kinds, deg.get("deg", True))]
    a = run(lambda *x: f(*x, **kw, **deg), v)
    b = run(lambda *x: f(*x, ell=None, **kw, **deg), v)
    c = run(lambda *x: f(*x, ell=L.ellipsoid.Ellipsoid.from_name("wgs84"), **kw, **deg), v)
    d = c if I.sym else run(lambda *x: f(*x, ell=L.ellipsoid.Ellipsoid(6378137.0, 6356752.31424518), **kw, **deg), v)
    ck.true("same-outcome", a[0] == b[0] == c[0] == d[0], f"{a} / {b} / {c} / {d}")
    if a[0] != "value":
        return
    fa, fb, fc, fd = (flat(q[1], outs) for q in (a, b, c, d))
    for j in range(len(fa)):
        x, y, z, w = fa[j][1], fb[j][1], fc[j][1], fd[j][1]
        if I.sym:
            ck.eq(f"none{j}", y, x)
            ck.eq(f"wgs84-{j}", z, x)
        else:
            x, y, z, w = (float(q) for q in (x, y, z, w))
            ck.true(f"none{j}", y == x or (y != y and x != x), f"{y!r} / {x!r}")
            ck.true(f"wgs84-{j}", z == x or (z != z and x != x), f"{z!r} / {x!r}")
            ck.true(f"axes-{j}", w == x or (w != w and x != x), f"{w!r} / {x!r}")


def scaled(L, I, ck, M, fn):
    """an ellipsoid k times as large and lengths k times as long: angles the same, lengths k times as long"""
    if fn in NUMPY_ONLY and I.cfg == "std":
        raise Skip()
    f = resolve(L, fn)
    fl = flags(f)
    kinds, outs, kw = row(fn)
    deg = {"deg": I.choice("deg", [True, False])} if "deg" in fl else {}
    e1 = I.ell(L)
    k = I.real("k", 0, 1000, open_lo=True) if I.sym else I.choice("k", [2.0, 0.5, 1024.0, 0.25, 3.0, 0.7])
    I.unit(k)
    e2 = L.ellipsoid.Ellipsoid(e1.semimajor_axis * k, e1.semiminor_axis * k)
    I.unit(1)
    ins = inputs(I, M, kinds, deg.get("deg", True))
    kinds = [q for q, _ in ins]
    v = [x for _, x in ins]
    w = [x * k if q in LENGTHS else x for q, x in ins]
    if fn == "vincenty.track2":
        # next to a pole the longitudes of the points are arbitrary
        I.require(all(abs(x) < (89.999 if deg["deg"] else 1.57077) for q, x in ins if q == "lat"))
    if fn == "ecef.ecef2geodetic" and I.sym:
        # numpy treats points within 1e-8 metres of the axis or of the focal disc as on it, whatever the size of the ellipsoid
        x, y, z = v
        E = M.sqrt(e1.semimajor_axis ** 2 - e1.semiminor_axis ** 2)
        r2 = M.sqrt(x ** 2 + y ** 2 + z ** 2) ** 2
        h = M.sqrt(x ** 2 + y ** 2)
        u = M.sqrt(M.q("0.5") * (r2 - E ** 2) + M.q("0.5") * M.sqrt((r2 - E ** 2) ** 2 + (2 * E * z) ** 2))
        I.unit(k)
        for q in (h, u, k * h, k * u):
            I.assume("<", M.q("1e-6") - q)
        I.unit(1)
    a = run(lambda *x: f(*x, ell=e1, **kw, **deg), v)
    I.unit(k)
    b = run(lambda *x: f(*x, ell=e2, **kw, **deg), w)
    I.unit(1)
    ck.true("same-outcome", a[0] == b[0], f"{a} / {b}")
    if not (a[0] == b[0] == "value"):
        return
    s = Spread(I, lambda x: f(*x, ell=e1, **kw, **deg), v, kinds, outs, deg.get("deg", True))
    fa, fb = flat(a[1], outs), flat(b[1], outs)
    if not I.sym and fn in BY_AER:
        # the local frame sets components below a millimetre to zero
        az, el, r = (float(x) for _, x in fa)
        c = math.cos(math.radians(el) if deg["deg"] else el)
        I.require(r * c > 1 and (r * c > 1e5 or r < 1e6))
    for j, ((q, x), (_, y)) in enumerate(zip(fa, fb)):
        same(ck, M, f"scaled{j}", q, y / k if q == "l" else y, x, deg.get("deg", True), s, j, I, loose=2e-3 if fn in BY_AER else 0)


ELLROWS = [f for f in ROWS if f not in NO_ELL]
grouped("C28", default_ell, ELLROWS, prefix="default ")
grouped("C28", scaled, ELLROWS, prefix="scaled ", seconds=400)


@contract("C28", "scaled local vector", params=[{"deg": True}, {"deg": False}], stubs=(), prune="eq")
def scaled_aer(L, I, ck, M, deg):
    """azimuth and elevation do not depend on the unit of length (components of at least a millimetre)"""
    k = I.real("k", 0, 1000, open_lo=True) if I.sym else I.choice("k", [2.0, 0.5, 1024.0, 0.25, 3.0, 0.7])
    v = [I.length(c) for c in "enu"]
    I.unit(k)
    for x in v:
        for q in (abs(x), k * abs(x)):
            if I.sym:
                I.assume("<=", M.q("0.001") - q)
            else:
                I.require(q >= 0.001)
    a = L.enu.enu2aer(*v, deg)
    b = L.enu.enu2aer(*[x * k for x in v], deg)
    I.unit(1)
    s = Spread(I, lambda x: L.enu.enu2aer(*x, deg), v, ["len"] * 3, ["a", "a", "l"], deg)
    for j, (q, x, y) in enumerate(zip("aal", a, b)):
        same(ck, M, f"scaled{j}", q, y / k if q == "l" else y, x, deg, s, j, I)


# ---------------------------------------------------------------- C29
def place(I, M, where, e, pre):
    """a point outside the axis and the focal disc ("out"), on the axis ("axis") or in the disc ("disc"): beyond 1e-6 of the border between them"""
    d = M.q("1e-6")
    x, y, z = I.length(pre + "x"), I.length(pre + "y"), I.length(pre + "z")
    if where == "axis":
        x = y = M.real(0)
        I.assume("<", d - abs(z))
        return [("len", v) for v in (x, y, z)]
    E2 = e.semimajor_axis ** 2 - e.semiminor_axis ** 2
    if where == "disc":
        z = M.real(0)
        I.assume("<", M.sqrt(x ** 2 + y ** 2 + z ** 2) ** 2 - E2)
    else:
        a, b, E, h = e.semimajor_axis, e.semiminor_axis, M.sqrt(E2), M.sqrt(x ** 2 + y ** 2)
        q = M.sqrt(x ** 2 + y ** 2 + z ** 2) ** 2 - E2
        u = M.sqrt(M.q("0.5") * q + M.q("0.5") * M.sqrt(q ** 2 + (2 * E * z) ** 2))
        I.assume("<", d - u)
        I.assume("<", d - h)
        # numpy also takes points whose reduced latitude is within 2.2e-16 radians of a pole for points of the axis
        g = M.sqrt(u ** 2 + E2)
        t = M.atan(M.div(g * z, u * h))
        for v in (M.cos(t), M.div(a * g, M.cos(t)) - E2 * M.cos(t)):  # > 0: contract "denominator"
            I.assume("<", -v)
        t = t + M.div((b * u - a * g + E2) * M.sin(t), M.div(a * g, M.cos(t)) - E2 * M.cos(t))
        for v in (t, -t):
            I.assume("<", v - M.pi / 2 + M.q("1/4503599627370496"))
    I.assume("<", d - M.sqrt(x ** 2 + y ** 2))
    return [("len", v) for v in (x, y, z)]


@contract("C29", "denominator", cfg=("np",), mode="proof")
def denominator(L, I, ck, M):
    """what place() takes for granted: the closed form's denominators are positive off the axis and the focal disc"""
    e = I.ell(L)
    a, b = e.semimajor_axis, e.semiminor_axis
    u, t = I.length("u"), I.real("t", -1e6, 1e6)
    I.assume("<", -u)
    E2 = a ** 2 - b ** 2
    g, c = M.sqrt(u ** 2 + E2), M.cos(M.atan(t))
    ck.lt("cosine", 0, c)
    ck.cut("quotient", (a, b, g), [lambda a, b, g: ("<", 0, a), lambda a, b, g: ("<", 0, b), lambda a, b, g: ("<", 0, g), lambda a, b, g: ("<", a ** 2 - b ** 2, g ** 2)],
           lambda a, b, g: ("<", a ** 2 - b ** 2, a * g))
    ck.lemma_sum("dividend", a * g - E2 * c ** 2, [a * g - E2, E2 * M.sin(M.atan(t)) ** 2])
    ck.cut("divided", (M.div(a * g, c), E2, c), [lambda w, y, c: ("<", 0, c), lambda w, y, c: ("<", y * c ** 2, w * c)], lambda w, y, c: ("<", y * c, w))


def arrays(L, I, ck, M, fn, where=None):
    """array call = scalar calls element by element, in the input's shape; also with one observer for all points"""
    f = resolve(L, fn)
    fl = flags(f)
    kinds, outs, kw = row(fn)
    kw = dict(kw)
    if "ell" in fl:
        kw["ell"] = I.ell(L)
    if "deg" in fl:
        kw["deg"] = bool(where) or I.choice("deg", [True, False])
    deg = kw.get("deg", True)
    # Astropy refuses to transform an empty set of velocities
    n = 2 if I.sym else I.choice("n", [1 if fn.endswith("_state") else 0, 1, 2, 3, 6, 6, 6])
    fixed = {i for i, k in enumerate(kinds) if k == "T" or fn.startswith("vallado.") and k == "lat"}
    last = max([i for i, k in enumerate(kinds) if k in ("lat", "lat!")], default=0)
    if last and fn not in NO_MIX and I.choice("mix", [True, False] if I.sym else [True, False, False]):
        fixed |= set(range(last, len(kinds)))
    common = {i: inputs(I, M, [kinds[i]], deg, pre=f"o{i}") for i in sorted(fixed)}
    rows = [[x for i, k in enumerate(kinds) for x in (common[i] if i in fixed else inputs(I, M, [k], deg, pre=f"e{e}_{i}"))] for e in range(max(n, 1))]
    if n > 1 and not I.sym and I.choice("repeat", [True, False, False]):
        rows[-1] = rows[0]
    ks = [k for k, _ in rows[0]]
    same_all = [i in fixed for i, k in enumerate(kinds) for _ in range(3 if k in "PN" else 1)]
    if where:
        rows = [place(I, M, w, kw["ell"], f"e{e}") for e, w in enumerate(where)]
    single = []
    for r in rows:
        single.append(run(lambda *x: f(*x, **kw), [v for _, v in r]))
        if I.sym and (fn in DEFINED or where) and single[-1][0] == "value":
            I.require(not any(M.isnan(x) for _, x in flat(single[-1][1], outs)))
    I.require(all(s[0] == "value" for s in single))
    shape = (n,) if I.sym else I.choice("shape", [(n,), (n,), (n, 1), (2, 3) if n == 6 else (1, n)])
    arg = []
    for i in range(len(ks)):
        c = [r[i][1] for r in rows[:n]]
        arg.append(rows[0][i][1] if same_all[i] else I.array(c) if I.sym else I.array(c).reshape(shape))
    got = f(*arg, **kw)
    got = [got] if len(outs) == 1 else list(got)
    ck.true("results", len(got) == len(outs), len(got))
    cols = []
    for g, (q, w) in zip(got, flat(single[0][1], outs)):
        sh = tuple(getattr(g, "shape", ()))
        # a result that depends on the common arguments only may stay a scalar
        ck.true("shape", sh == shape or any(fixed) and sh == (), f"{sh} instead of {shape}")
        cols.append(list(g.reshape(-1)) if sh else [g] * n)
    for e in range(n):
        want = flat(single[e][1], outs)
        s = Spread(I, lambda x: f(*x, **kw), [v for _, v in rows[e]], ks, outs, deg)
        # Vincenty's iterations end when the slowest element has converged to 1e-12 radians
        loose = 1e-11 / max(1e-9, math.cos(math.radians(want[0][1]) if deg else want[0][1])) if fn == "vincenty.vreckon" and not I.sym else 0
        for j, (q, w) in enumerate(want):
            same(ck, M, f"element{e}.{j}", q, cols[j][e], w, deg, s, j, I, loose=loose)


# proof for elements whose results are defined (real arithmetic: no quotient 0/0, no arcsine outside [-1, 1])
DEFINED = {"rsphere.euler", "lox.loxodrome_inverse", "nvector.nvector_cross_track_distance"}
# "lat1,lon1,lat2,lon2 can be any (identical) size/shape"
NO_MIX = {"vincenty.vdist"}
NO_ARRAY = {"nvector.nvector_interpolate", "nvector.nvector_intersection", "vincenty.track2", "karney.geodesic_inverse", "karney.geodesic_direct", "karney.geodesic_line"}
ARRAYS = [f for f in list(ROWS) + list(PLAIN) if f not in NO_ARRAY and row(f)[1] != ["u9"] and row(f)[0]]
contract("C29", "arrays placed", params=[{"fn": "ecef.ecef2geodetic", "where": w} for w in (("out", "out"), ("out", "axis"), ("axis", "out"), ("axis", "axis"), ("disc", "axis"), ("disc", "disc"))],
         cfg=("np",), stubs=(), prune=False, mode="proof", seconds=400)(arrays)
contract("C29", "arrays anywhere", params=[{"fn": "ecef.ecef2geodetic"}], cfg=("np",), mode="bounded", weight=2)(arrays)
grouped("C29", arrays, [f for f in ARRAYS if f != "ecef.ecef2geodetic"], prefix="arrays ", cfg=("np",), seconds=400, match="exact")


# ---------------------------------------------------------------- C31
def twin_args(L, I, M, fn, where=None):
    """the same call on both installations: (np function, std function, inputs, kinds, outs, np keywords, std keywords, degrees)"""
    f = resolve(L, fn)
    g = resolve(L.twin, fn)
    fl = flags(f)
    kinds, outs, kw = row(fn)
    ka, kb = dict(kw), dict(kw)
    if "ell" in fl:
        e = I.ell(L)
        ka["ell"] = e
        kb["ell"] = L.twin.ellipsoid.Ellipsoid(e.semimajor_axis, e.semiminor_axis)
    if "deg" in fl:
        ka["deg"] = kb["deg"] = I.choice("deg", [True, False])
    if fn.startswith("eci") or "T" in kinds:
        for k in ("force_non_astropy",):
            if k in fl:
                ka[k] = kb[k] = True
    deg = ka.get("deg", True)
    if where:
        ins = place(I, M, where, ka["ell"], "e")
    else:
        ins = inputs(I, M, kinds, deg)
    return f, g, [v for _, v in ins], [k for k, _ in ins], outs, ka, kb, deg


def twins(L, I, ck, M, fn, where=None):
    """with NumPy and without: the same results, the same kind of error"""
    f, g, v, ks, outs, ka, kb, deg = twin_args(L, I, M, fn, where)
    a = run(lambda *x: f(*x, **ka), v)
    b = run(lambda *x: g(*x, **kb), v)
    if I.sym and fn in LIMITS and a[0] == "value":
        I.require(b[0] == "value")
    if a[0] == "value" and b[0] == "raises":
        # math raises where NumPy answers NaN or infinity
        ck.true("undefined", any(M.isnan(x) or (M.isinf(x) if I.sym else math.isinf(x)) for _, x in flat(a[1], outs)), f"{a} / {b}")
        return
    ck.true("same-outcome", a[0] == b[0] and (a[0] == "value" or a[1] == b[1]), f"{a} / {b}")
    if not (a[0] == b[0] == "value"):
        return
    s = Spread(I, lambda x: f(*x, **ka), v, ks, outs, deg)
    for j, ((k, x), (_, y)) in enumerate(zip(flat(a[1], outs), flat(b[1], outs))):
        same(ck, M, f"result{j}", k, x, y, deg, s, j, I)


STD_NONE = {"vincenty.track2"}
# real cos(pi/2) = 0 and heights at the centre of curvature: the math module raises where NumPy goes on with an infinite value to a finite result
LIMITS = {"latitude.geodetic2geocentric", "latitude.geocentric2geodetic", "latitude.geod2geoc", "lox.loxodrome_inverse"}
TWINS = [f for f in list(ROWS) + list(PLAIN) if f not in STD_NONE]
contract("C31", "both placed", params=[{"fn": "ecef.ecef2geodetic", "where": w} for w in ("out", "axis", "disc")], cfg=("np",), block=("astropy",), stubs=(), prune=False, mode="proof", seconds=300)(twins)
contract("C31", "both anywhere", params=[{"fn": "ecef.ecef2geodetic"}], cfg=("np",), block=("astropy",), mode="bounded", weight=2)(twins)
grouped("C31", twins, [f for f in TWINS if f != "ecef.ecef2geodetic"], prefix="both ", cfg=("np",), seconds=300, match="exact", block=("astropy",))


# ---------------------------------------------------------------- C30
def copies(I, a):
    """-> what must be found in an argument after the call"""
    return [x for x in a.reshape(-1)] if hasattr(a, "reshape") else list(a) if isinstance(a, list) else a


def untouched(I, ck, label, a, before):
    if hasattr(a, "reshape"):
        now = [x for x in a.reshape(-1)]
    else:
        now = list(a) if isinstance(a, list) else a
    if not isinstance(now, list):
        now, before = [now], [before]
    ck.true(label + "-length", len(now) == len(before), (now, before))
    for i, (x, y) in enumerate(zip(now, before)):
        if hasattr(y, "tzinfo"):
            ck.true(f"{label}.{i}", x is y or x == y and x.tzinfo is y.tzinfo, f"{x!r} was {y!r}")
        elif I.sym:
            ck.eq(f"{label}.{i}", x, y)
        else:
            ck.true(f"{label}.{i}", x == y or (x != x and y != y), f"{x!r} was {y!r}")


def results(r):
    r = r if isinstance(r, (tuple, list)) else (r,)
    out = []
    for x in r:
        if isinstance(x, (tuple, list)):
            out += results(x)
        else:
            out += [v for v in x.reshape(-1)] if hasattr(x, "reshape") else [x]
    return out


def pure(L, I, ck, M, fn):
    """arguments are as before the call; the same call again, also after another call, gives the same result"""
    if fn in NUMPY_ONLY and I.cfg == "std":
        raise Skip()
    f = resolve(L, fn)
    fl = flags(f)
    kinds, outs, kw = row(fn)
    kw = dict(kw)
    if "ell" in fl:
        kw["ell"] = I.ell(L)
    if "deg" in fl:
        kw["deg"] = I.choice("deg", [True, False])
    deg = kw.get("deg", True)
    arr = I.cfg == "np" and fn in ARRAYS
    n = 1 if I.sym or not arr else I.choice("n", [1, 2, 3, 4])
    fixed = {i for i, k in enumerate(kinds) if k == "T" or fn.startswith("vallado.") and k == "lat"}
    common = {i: inputs(I, M, [kinds[i]], deg, pre=f"o{i}") for i in sorted(fixed)}
    rows = [[x for i, k in enumerate(kinds) for x in (common[i] if i in fixed else inputs(I, M, [k], deg, pre=f"e{e}_{i}"))] for e in range(n)]
    keep = [i in fixed for i, k in enumerate(kinds) for _ in range(3 if k in "PN" else 1)]
    arg = []
    for i in range(len(keep)):
        c = [r[i][1] for r in rows]
        arg.append(I.array(c) if arr and not keep[i] else c[0])
    if not I.sym and arr and n in (2, 4) and I.choice("square", [True, False]):
        arg = [a.reshape((2, -1)) if hasattr(a, "reshape") else a for a in arg]
    before = [copies(I, a) for a in arg]
    e = kw.get("ell")
    axes = e and (e.semimajor_axis, e.semiminor_axis, e.name)
    a = run(lambda *x: f(*x, **kw), arg)
    for i, (x, y) in enumerate(zip(arg, before)):
        untouched(I, ck, f"argument{i}", x, y)
    if e:
        untouched(I, ck, "ellipsoid", [e.semimajor_axis, e.semiminor_axis], list(axes[:2]))
        ck.true("ellipsoid-name", e.name == axes[2], e.name)
    if a[0] != "value":
        return
    kept = results(a[1])
    if not I.sym:
        other = [x for i, k in enumerate(kinds) for x in (common[i] if i in fixed else inputs(I, M, [k], deg, pre=f"p_{i}"))]
        run(lambda *x: f(*x, **kw), [v for _, v in other])
        if arr:
            run(lambda *x: f(*x, **kw), [v if keep[i] else I.array([v] * 2) for i, (_, v) in enumerate(other)])
    b = run(lambda *x: f(*x, **kw), arg)
    ck.true("again-outcome", b[0] == "value", b)
    if b[0] == "value":
        again, first = results(b[1]), results(a[1])
        ck.true("again-length", len(again) == len(first) == len(kept), (len(again), len(first)))
        for j, (x, y, z) in enumerate(zip(again, first, kept)):
            if I.sym:
                ck.eq(f"again{j}", x, y)
                ck.eq(f"kept{j}", y, z)
            else:
                x, y, z = float(x), float(y), float(z)
                ck.true(f"again{j}", x == y or (x != x and y != y), f"{x!r} then {y!r}")
                ck.true(f"kept{j}", y == z or (y != y and z != z), f"{y!r} was {z!r}")


PURES = list(ROWS) + list(PLAIN)
grouped("C30", pure, PURES, prefix="pure ", seconds=300, match="exact")


@contract("C30", "lists", mode="bounded", params=[{"fn": f} for f in ("lox.meanm", "karney.geodesic_area", "sidereal.datetime2sidereal")])
def lists(L, I, ck, M, fn):
    """functions that take a list of points or of times leave the list alone"""
    f = resolve(L, fn)
    n = I.choice("n", [1, 2, 3, 5])
    if fn in ("lox.meanm", "karney.geodesic_area"):
        n = max(n, 3)
        if fn == "lox.meanm" and I.cfg == "std":
            raise Skip()
        deg = I.choice("deg", [True, False])
        e = I.ell(L, eccmax=0.02)
        arg = [[I.lat(f"a{i}", deg) for i in range(n)], [I.lon(f"o{i}", deg) for i in range(n)]]
        if I.choice("closed", [True, False]):
            arg = [a + [a[0]] for a in arg]
        if I.cfg == "np" and I.choice("np", [True, False]):
            arg = [I.array(a) for a in arg]
        kw = {"ell": e, "deg": deg}
    else:
        arg, kw = [[I.instant(f"t{i}") for i in range(n)], I.lon("lon", False)], {"force_non_astropy": True}
    before = [copies(I, a) for a in arg]
    a = run(lambda *x: f(*x, **kw), arg)
    for i, (x, y) in enumerate(zip(arg, before)):
        untouched(I, ck, f"argument{i}", x, y)
    b = run(lambda *x: f(*x, **kw), arg)
    ck.true("again", repr(a) == repr(b), f"{a} then {b}")


@contract("C31", "helpers", params=[{"fn": f} for f in ("sign", "minimum", "power", "linspace", "cube_root")], cfg=("np",), block=("astropy",))
def helpers(L, I, ck, M, fn):
    """the stand-ins of mathfun for NumPy functions, against NumPy and against what they mean"""
    f, g = getattr(L.mathfun, fn), getattr(L.twin.mathfun, fn)
    x = I.real("x", special=(0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e300, -1e-12))
    if fn == "linspace":
        y, n = I.real("y", special=(0.0,)), I.choice("n", [2, 3, 4, 7] if I.sym else [2, 3, 4, 7, 10, 50, 101])
        a, b = list(f(x, y, n)), list(g(x, y, n))
        ck.true("count", len(a) == len(b) == n, (len(a), len(b)))
        for i, (p, q) in enumerate(zip(a, b)):
            ck.eq(f"twin{i}", q, p, tol=1e-13, scale=20)
            ck.eq(f"point{i}", p, x + (y - x) * M.q(i) / M.q(n - 1), tol=1e-13, scale=20)
        return
    if fn == "minimum":
        y = I.real("y", special=(0.0,)) if not I.choice("same", [True, False, False]) else x
        a, b = f(x, y), g(x, y)
        ck.le("first", a, x)
        ck.le("second", a, y)
        ck.true("one-of-them", bool(a == x) or bool(a == y), a)
    elif fn == "power":
        k = I.choice("k", [0, 1, 2, 3, 4, 5])
        a, b = f(x, k), g(x, k)
        ck.eq("product", a, math.prod([x] * k) if k else M.q(1), rel=1e-13)
    else:
        a, b = f(x), g(x)
        if fn == "sign":
            ck.eq("times-itself", a * M.abs(x), x)
            ck.true("zero", bool(a == 0) == bool(x == 0), a)
        else:
            ck.eq("cube", a * a * a, x, rel=1e-13)
            ck.le("sign", -a * x, 0)
    ck.eq("twin", b, a, rel=1e-13)
