"""Callee contracts used in place of callee bodies (modular verification).

A stub stands for a deterministic function of its arguments: calls whose arguments are provably
equal on the current path return the same value; nothing else is known about the value except the
facts listed with the stub.  The facts and the homogeneity used here are themselves obligations of
other contracts (C02, C28, C21, ...)."""
from __future__ import annotations
import numpy as np

from . import explore as ex
from . import symlib as sl
from . import term as tm

MP = ex.MP


def T(x):
    t = sl._lift(x)
    if t is None:
        raise sl.Unsupported(f"stub argument {type(x).__name__}")
    return t


def geodetic_num(x, y, z, ba):
    """exact geodetic latitude, longitude, height for a = 1, b = ba (Newton on the latitude)"""
    if any(MP.isnan(v) or MP.isinf(v) for v in (x, y, z, ba)):
        return MP.nan, MP.nan, MP.nan
    p = MP.sqrt(x * x + y * y)
    lon = MP.atan2(y, x) if p else MP.mpf(0)
    e2 = 1 - ba * ba
    if p == 0:
        return (MP.pi / 2 if z >= 0 else -MP.pi / 2), lon, abs(z) - ba
    s = MP.atan2(z, p * (1 - e2)) if True else 0
    f = lambda la: p * MP.sin(la) - z * MP.cos(la) - e2 * MP.sin(la) * MP.cos(la) / MP.sqrt(1 - e2 * MP.sin(la) ** 2)
    lo, hi = -MP.pi / 2, MP.pi / 2
    la = s
    for _ in range(200):
        v = f(la)
        h = MP.mpf(10) ** -18
        d = (f(la + h) - f(la - h)) / (2 * h)
        if d == 0:
            break
        n = la - v / d
        n = min(max(n, lo), hi)
        if abs(n - la) < MP.mpf(10) ** -37:
            la = n
            break
        la = n
    N = 1 / MP.sqrt(1 - e2 * MP.sin(la) ** 2)
    h = p * MP.cos(la) + z * MP.sin(la) - 1 / N
    return la, lon, h


class Registry:
    def __init__(self, ctx):
        self.ctx = ctx
        self.byargs: dict = {}      # global: (fn, args) -> out vars
        self.defs: dict = {}        # out var tuple -> args

    def start_path(self):
        self.alias: dict = {}       # per path

    def lookup(self, fn, args, nout, numeric):
        """args: tuple of terms -> tuple of nout fresh variables (terms)"""
        ctx = self.ctx
        key = (fn, args)
        a = getattr(self, "alias", None)
        if a is None or getattr(self, "_pathid", None) is not ctx.pathid:
            self.alias = a = {}
            self._pathid = ctx.pathid
        if key in a:
            return a[key]
        # equal to an earlier call on this path?
        for (f2, args2), out in list(a.items()):
            if f2 == fn and self.same(args, args2):
                a[key] = out
                return out
        out = self.byargs.get(key)
        if out is None:
            n = sum(1 for k in self.byargs if k[0] == fn)
            names = [f"~{fn}{n}.{i}" for i in range(nout)]
            out = tuple(tm.var(x) for x in names)
            for ev in ctx.evals:
                try:
                    vals = numeric(*[ev(t) for t in args])
                except (ValueError, ZeroDivisionError, TypeError, OverflowError):
                    vals = [MP.nan] * nout
                for x, v in zip(names, vals):
                    ev.env[x] = v
            self.byargs[key] = out
        a[key] = out
        return out

    def same(self, a1, a2):
        ctx = self.ctx
        for x, y in zip(a1, a2):
            if x is y:
                continue
            for k in ctx.alive[:12]:
                ev = ctx.evals[k]
                try:
                    u, v = ev(x), ev(y)
                except Exception:
                    return False
                if not abs(u - v) <= MP.mpf(10) ** -25 * (1 + abs(u)):
                    return False
        if getattr(ctx, "match", None) == "exact":      # equal arguments are recognised only when they are the same term
            return all(x is y for x, y in zip(a1, a2))
        for x, y in zip(a1, a2):
            if x is y:
                continue
            if not ctx.prover.prove_eq(list(dict.fromkeys(ctx.assumptions + ctx.pc)), x, y, 8):
                return False
        return True


def install(world, ctx, names, reg=None):
    reg = reg or Registry(ctx)
    import os
    for f in sorted(os.listdir(world.src)):
        if f.endswith(".py") and f not in ("__init__.py", "__main__.py", "_dummy.py"):
            try:
                world.load(f[:-3])
            except ImportError:
                pass
    for n in names:
        mod, fn = n.split(".")
        m = world.load(mod)
        orig = getattr(m, fn, None)
        if orig is None:
            continue
        new = STUBS[n](world, ctx, reg, orig)
        new.__name__ = fn
        new.__wrapped__ = orig
        for mm in list(world.mods.values()):
            for k, v in list(vars(mm).items()):
                if v is orig:
                    setattr(mm, k, new)
    return reg


def flav(world):
    return sl.NSym if world.config == "np" else sl.Sym


def elementwise(world, f, args):
    """apply f(terms...) -> tuple of terms over scalars/arrays"""
    F = flav(world)
    if any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
        if world.config != "np":
            raise TypeError("must be real number, not list")
        bs = np.broadcast_arrays(*[a if isinstance(a, np.ndarray) else sl.nparray(a) if isinstance(a, (list, tuple))
                                   else _box(a) for a in args])
        outs = None
        for i in np.ndindex(bs[0].shape):
            r = f(*[T(b[i]) for b in bs])
            if outs is None:
                outs = [np.empty(bs[0].shape, dtype=object) for _ in r]
            for o, v in zip(outs, r):
                o[i] = sl.NSym(v)
        return tuple(outs)
    return tuple(F(v) for v in f(*[T(a) for a in args]))


def _box(a):
    o = np.empty((), dtype=object)
    o[()] = a if isinstance(a, sl.NSym) else sl.NSym(T(a))
    return o


D = tm.mul(tm.const(180), tm.power(tm.PI, -1))


def _ecef2geodetic(world, ctx, reg, orig):
    def ecef2geodetic(x, y, z, ell=None, deg=True):
        e = world.load("ellipsoid").resolve_ellipsoid(ell) if ell is None else ell
        a, b = T(e.semimajor_axis), T(e.semiminor_axis)
        ia = tm.power(a, -1)
        ba = tm.mul(b, ia)

        def one(X, Y, Z):
            if any(t.op == "nan" for t in (X, Y, Z)):
                return tm.NAN, tm.NAN, tm.NAN
            la, lo, h = reg.lookup("e2g", (tm.mul(X, ia), tm.mul(Y, ia), tm.mul(Z, ia), ba), 3, geodetic_num)
            half = tm.scale(tm.PI, tm.Q(1, 2))
            for rel, t in (("<=", tm.sub(la, half)), ("<=", tm.sub(tm.neg(la), half)), ("<=", tm.neg(tm.fun("cos", la))),
                           ("<=", tm.sub(lo, tm.PI)), ("<", tm.sub(tm.neg(lo), tm.PI))):
                ctx.axiom(rel, t)
            h = tm.mul(h, a)
            return (tm.mul(la, D), tm.mul(lo, D), h) if deg else (la, lo, h)
        return elementwise(world, one, (x, y, z))
    return ecef2geodetic


def uf(fname, angles_in, angles_out, ell=True, lens_in=(), lens_out=(), nout=2, swap=0):
    """generic uninterpreted callee: angle arguments are taken in radians, lengths divided by a"""
    def mk(world, ctx, reg, orig):
        import inspect
        sig = inspect.signature(orig)

        def stub(*args, **kw):
            ba = sig.bind(*args, **kw)
            ba.apply_defaults()
            d = dict(ba.arguments)
            deg = d.pop("deg", False)
            a = tm.ONE
            key = []
            if not ell and (lens_in or lens_out):
                a = getattr(ctx, "unit", tm.ONE)   # homogeneous callee: lengths in the unit the contract names
            if ell:
                e = d.pop("ell")
                if e is None:
                    e = world.load("ellipsoid").resolve_ellipsoid(None)
                a, b = T(e.semimajor_axis), T(e.semiminor_axis)
                key = [tm.mul(b, tm.power(a, -1))]
            names = list(d)
            other = [n for n in names if not _numeric(d[n])]
            tag = fname + "".join(f"|{n}={d[n]}" for n in other)
            names = [n for n in names if n not in other]

            def one(*ts):
                if any(t.op == "nan" for t in ts):
                    return [tm.NAN] * nout
                ks = list(key)
                for n, t in zip(names, ts):
                    if n in angles_in and deg:
                        t = tm.mul(t, tm.PI, tm.const(tm.Q(1, 180)))
                    if n in lens_in:
                        t = tm.mul(t, tm.power(a, -1))
                    ks.append(t)
                out = list(reg.lookup(tag, tuple(ks), nout, pseudo(tag, nout)))
                if swap:
                    # the first results do not depend on the order of the two points
                    h = len(key)
                    p, q = sorted([tuple(ks[h:h + 2]), tuple(ks[h + 2:h + 4])], key=lambda x: [t.id for t in x])
                    out[:swap] = reg.lookup(tag + "~", (*key, *p, *q), swap, pseudo(tag + "~", swap))
                res = []
                for i, o in enumerate(out):
                    if i in angles_out and deg:
                        o = tm.mul(o, D)
                    if i in lens_out:
                        o = tm.mul(o, a)
                    res.append(o)
                return res
            r = elementwise(world, one, [d[n] for n in names])
            return r if nout > 1 else r[0]
        return stub
    return mk


def _numeric(x):
    return isinstance(x, (sl.Sym, int, float, np.ndarray, tm.Q)) and not isinstance(x, bool) or \
        isinstance(x, (list, tuple)) and all(_numeric(v) for v in x)


def pseudo(tag, nout):
    """arbitrary but fixed smooth function, for witnesses"""
    import zlib
    c = zlib.crc32(tag.encode()) % 97

    def f(*xs):
        s = MP.mpf(c) / 31
        for i, x in enumerate(xs):
            s += MP.sin(x * (i + 1) / 3 + i) + x / 7
        return [MP.fabs(MP.sin(s + k)) + MP.mpf(k) / 10 + MP.mpf("0.05") for k in range(nout)]
    return f


def _is_dt(t):
    from . import faketime as ft
    if not isinstance(t, ft.FakeDT):
        raise AttributeError(f"'{type(t).__name__}' object has no attribute 'tzinfo'")
    return t


def _juliandate(world, ctx, reg, orig):
    """C11: the Julian date of the UTC instant"""
    def juliandate(time):
        u = _is_dt(time).u
        return sl.Sym(tm.add(tm.const(tm.Q("2451544.5")), tm.mul(u, tm.const(tm.Q(1, 86400)))))
    return juliandate


LEAPS = None


def _leap_seconds(world, ctx, reg, orig):
    """C11: some integer-valued function of the instant"""
    def leap_seconds(time):
        u = _is_dt(time).u
        v, = reg.lookup("leap", (u,), 1, lambda u: [MP.mpf(10) + MP.floor(MP.fabs(MP.sin(u)) * 27)])
        ctx.axiom("<=", tm.sub(tm.const(10), v))
        ctx.axiom("<=", tm.sub(v, tm.const(37)))
        return sl.Sym(v)
    return leap_seconds


def _eci_matrix(world, ctx, reg, orig):
    """C09: a proper rotation matrix (three Euler angles) that is a function of instant, UT1-UTC and pole coordinates"""
    def eci_to_ecef_matrix(time, delta_ut1=0.0, xp=0.0, yp=0.0):
        u = _is_dt(time).u
        ang = reg.lookup("eci", (u, T(delta_ut1), T(xp), T(yp)), 3, pseudo("eci", 3))
        (c1, s1), (c2, s2), (c3, s3) = [(tm.fun("cos", a), tm.fun("sin", a)) for a in ang]
        m = tm.mul
        R = [[tm.sub(m(c1, c2, c3), m(s1, s3)), tm.add(m(s1, c2, c3), m(c1, s3)), tm.neg(m(s2, c3))],
             [tm.neg(tm.add(m(c1, c2, s3), m(s1, c3))), tm.sub(m(c1, c3), m(s1, c2, s3)), m(s2, s3)],
             [m(c1, s2), m(s1, s2), c2]]
        return tuple(tuple(sl.Sym(x) for x in r) for r in R)
    return eci_to_ecef_matrix


def _sidereal(world, ctx, reg, orig):
    """C12: gast(instant, UT1-UTC) + longitude (modulo a turn)"""
    def datetime2sidereal(time, lon_radians, force_non_astropy=False, *, delta_ut1=0.0):
        if isinstance(time, (tuple, list)):
            return [datetime2sidereal(t, lon_radians, force_non_astropy, delta_ut1=delta_ut1) for t in time]
        v, = reg.lookup("gast", (_is_dt(time).u, T(delta_ut1)), 1, pseudo("gast", 1))
        if isinstance(lon_radians, np.ndarray):
            return elementwise(world, lambda x: (tm.add(v, x),), (lon_radians,))[0]
        return sl.Sym(tm.add(v, T(lon_radians)))
    return datetime2sidereal


STUBS = {
    "latitude.geodetic2rectifying": uf("g2r", ("geodetic_lat",), (0,), nout=1),
    "latitude.rectifying2geodetic": uf("r2g", ("rectifying_lat",), (0,), nout=1),
    "latitude.geodetic2isometric": uf("g2i", ("geodetic_lat",), (0,), nout=1),
    "latitude.geodetic2authalic": uf("g2a", ("geodetic_lat",), (0,), nout=1),
    "latitude.authalic2geodetic": uf("a2g", ("authalic_lat",), (0,), nout=1),
    "sidereal.datetime2sidereal": _sidereal,
    "earth_orientation.juliandate": _juliandate,
    "earth_orientation.leap_seconds": _leap_seconds,
    "earth_orientation.eci_to_ecef_matrix": _eci_matrix,
    "ecef.ecef2geodetic": _ecef2geodetic,
    "vincenty.vdist": uf("vdist", ("lat1", "lon1", "lat2", "lon2"), (1,), lens_out=(0,)),
    "enu.enu2aer": uf("enu2aer", (), (0, 1), ell=False, lens_in=("e", "n", "u"), lens_out=(2,), nout=3),
    "karney.geodesic_inverse": uf("geodesic_inverse", ("lat1", "lon1", "lat2", "lon2"), (1, 2), lens_out=(0,), nout=3, swap=1),
    "karney._AngDiff": uf("angdiff", (), (), ell=False, nout=2),
    "karney.geodesic_direct": uf("geodesic_direct", ("lat1", "lon1", "azi1"), (0, 1, 2), lens_in=("dist",), nout=3),
    "vincenty.vreckon": uf("vreckon", ("lat1", "lon1", "azim"), (0, 1), lens_in=("rng",)),
}
