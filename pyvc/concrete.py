"""Run-time monitor: evaluates the contracts on the real library with real floats.

usage: <interpreter> concrete.py  (reads a JSON job on stdin, writes a JSON result on stdout)
"""
from __future__ import annotations
import importlib
import importlib.machinery
import importlib.util
import json
import math
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def load_mpmath():
    if "mpmath" in sys.modules:
        return sys.modules["mpmath"]
    p = os.path.join(VT, "mpmath")
    sp = importlib.util.spec_from_file_location("mpmath", os.path.join(p, "__init__.py"), submodule_search_locations=[p])
    m = importlib.util.module_from_spec(sp)
    sys.modules["mpmath"] = m
    sp.loader.exec_module(m)
    return m


mpmath = load_mpmath()
mp = mpmath.mp
mp.dps = 34
try:
    import numpy as np
except ImportError:
    np = None


class SourceLoader(importlib.machinery.SourceFileLoader):
    """never trusts a .pyc: byte code is always compiled from the current source text"""

    def path_stats(self, path):
        raise OSError("no byte-code cache")


class SourceFinder:
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] != "pymap3d":
            return None
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=SourceLoader(name, f), submodule_search_locations=[p])
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_file_location(name, p + ".py", loader=SourceLoader(name, p + ".py"))
        return None


def scal(x):
    """library value -> float"""
    if isinstance(x, mpmath.mpf):
        return x
    if isinstance(x, (int, float)):
        return x
    if np is not None and isinstance(x, (np.ndarray, np.generic)):
        if x.size != 1:
            raise TypeError(f"scalar expected, got shape {x.shape}")
        return float(x.reshape(-1)[0])
    return float(x)


class CMath:
    """specification-side mathematics: mpmath"""
    sym = False
    pi = property(lambda s: +mp.pi)
    inf = math.inf
    nan = math.nan

    def __getattr__(self, n):
        f = getattr(mp, n)
        return lambda *a: f(*[mp.mpf(scal(x)) for x in a])

    def q(self, s):
        """exact decimal constant"""
        from fractions import Fraction
        f = Fraction(s)
        return mp.mpf(f.numerator) / f.denominator

    def abs(self, x):
        return abs(mp.mpf(scal(x)))

    def real(self, x):
        return mp.mpf(scal(x))

    def mod(self, x, m):
        x, m = mp.mpf(scal(x)), mp.mpf(scal(m))
        return x - m * mp.floor(x / m)

    def div(self, x, y):
        return x / y

    def isnan(self, x):
        return bool(scal(x) != scal(x))

    def num(self, x):
        return float(x)

    def rad(self, x):
        return mp.mpf(scal(x)) * mp.pi / 180

    def deg(self, x):
        return mp.mpf(scal(x)) * 180 / mp.pi


class Lib:
    def __getattr__(self, n):
        m = importlib.import_module("pymap3d." + n)
        setattr(self, n, m)
        return m

    @property
    def top(self):
        return importlib.import_module("pymap3d")

    @property
    def twin(self):
        if "_twin" not in self.__dict__:
            self._twin = Twin()
        return self._twin


class Twin:
    """the same library imported a second time with numpy and astropy hidden (also during every call)"""
    HIDE = ("numpy", "astropy", "pyproj", "dateutil", "pandas", "xarray")

    def __init__(self):
        self.mods = {}

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in self.HIDE + ("pymap3d",)}
        for k in self.saved:
            del sys.modules[k]
        sys.modules.update(self.mods)
        self.block = Block(self.HIDE)
        sys.meta_path.insert(0, self.block)
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self.block)
        self.mods = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "pymap3d"}
        for k in [k for k in sys.modules if k.split(".")[0] in self.HIDE + ("pymap3d",)]:
            del sys.modules[k]
        sys.modules.update(self.saved)

    def __getattr__(self, n):
        with self:
            m = importlib.import_module("pymap3d." + n)
        t = TwinModule(self, m)
        setattr(self, n, t)
        return t


class TwinModule:
    def __init__(self, twin, mod):
        self.__dict__.update(_twin=twin, _mod=mod)

    def __getattr__(self, n):
        f = getattr(self._mod, n)
        if not callable(f):
            return f
        twin = self._twin

        def call(*a, **k):
            with twin:
                return f(*a, **k)
        call.__wrapped__ = f
        call.from_name = getattr(f, "from_name", None)
        return call


SPECIAL_LAT = [0.0, 90.0, -90.0, 45.0, -45.0, 1e-9, -1e-9, 89.9999999, -89.9999999, 89.0, 30.0, -60.0, 1e-5, 5e-16, 89.99999999999]
SPECIAL_LON = [0.0, 180.0, -180.0, 90.0, -90.0, 179.9999999, -179.9999999, 1e-9, 360.0, 270.0, -270.0, 45.0, 135.0, -135.0, 359.999999, 1e-15]
SPECIAL_ALT = [0.0, 1.0, -1.0, 1e-3, 1000.0, -1000.0, 2e7, 4e5, 1e-9]


class Inputs:
    sym = False

    def __init__(self, rng, preset=None, cfg="np"):
        self.rng = rng
        self.preset = preset or {}
        self.rec = {}
        self.cfg = cfg
        self.ellname = None
        self.scale = 6.4e6
        self.mag = 0.0

    def _put(self, name, draw):
        v = self.preset[name] if name in self.preset else draw()
        self.rec[name] = v
        return v

    def require(self, cond):
        from pyvc.contract import Skip
        if not cond:
            raise Skip()

    def unit(self, k):
        pass

    def assume_pos(self, x):
        self.require(x > 0)

    def real(self, name, lo=-10.0, hi=10.0, special=(), open_lo=False, open_hi=False):
        def d():
            if special and self.rng.random() < 0.25:
                return float(self.rng.choice(list(special)))
            return self.rng.uniform(lo, hi)
        v = self._put(name, d)
        self.require(lo <= v <= hi and not (open_lo and v == lo) and not (open_hi and v == hi))
        return v

    def lat(self, name, deg=True, open=False, lo=-90.0, hi=90.0):
        def d():
            r = self.rng.random()
            if r < 0.25:
                v = self.rng.choice(SPECIAL_LAT)
            else:
                v = self.rng.uniform(-90, 90)
            return v if deg else min(max(math.radians(v), -math.pi / 2), math.pi / 2)
        v = self._put(name, d)
        dv = v if deg else math.degrees(v)
        self.require(lo - 1e-13 <= dv <= hi + 1e-13)
        if open:
            self.require(abs(dv) < 90 - 1e-9)
        return v

    def lon(self, name, deg=True, wide=True):
        def d():
            r = self.rng.random()
            if r < 0.25:
                v = self.rng.choice(SPECIAL_LON)
            elif wide and r < 0.4:
                v = self.rng.uniform(-540, 540)
            else:
                v = self.rng.uniform(-180, 180)
            if not wide and abs(v) > 180:
                v = math.fmod(v, 180)
            return v if deg else math.radians(v)
        return self._put(name, d)

    def angle(self, name, deg=True, lo=-400.0, hi=400.0):
        def d():
            v = self.rng.choice(SPECIAL_LON) if self.rng.random() < 0.2 else self.rng.uniform(lo, hi)
            v = min(max(v, lo), hi)
            return v if deg else math.radians(v)
        return self._put(name, d)

    def alt(self, name, lo=-12000.0, hi=4e7):
        def d():
            r = self.rng.random()
            if r < 0.25:
                v = self.rng.choice(SPECIAL_ALT)
            elif r < 0.5:
                v = self.rng.uniform(lo, hi)
            else:
                v = self.rng.uniform(max(lo, -10000), min(hi, 30000))
            v = min(max(v, lo), hi)
            return v * getattr(self, "ellscale", 1.0)
        return self._len(self._put(name, d))

    def _len(self, v):
        self.mag = max(self.mag, abs(v))
        return v

    def length(self, name, mag=1e6):
        def d():
            r = self.rng.random()
            if r < 0.12:
                return self.rng.choice([0.0, 1e-4, -1e-4, 1.0, -1.0, 0.0, 2e-3, -2e-3])
            if r < 0.55:
                return self.rng.uniform(-1, 1) * 10 ** self.rng.uniform(-2, math.log10(mag))
            return self.rng.uniform(-mag, mag)
        return self._len(self._put(name, d))

    def ell(self, L, name="ell", sphere=None, eccmax=None):
        """an Ellipsoid object built through the library's own class"""
        def d():
            r = self.rng.random()
            if sphere:
                a = self.rng.choice([6371000.0, 1.0, 1737400.0, 6378137.0, 7e7])
                return [a, a]
            if r < 0.35:
                return [6378137.0, 6356752.31424518]
            if r < 0.5:
                a = self.rng.choice([6371000.0, 1737400.0, 3.0e6])
                return [a, a]
            if r < 0.75:
                return self.rng.choice([[6378249.145, 6356514.86954978], [71492000.0, 66854000.0],
                                        [3396900.0, 3376097.8], [60268000.0, 54364300.0], [6377397.155, 6356078.963]])
            a = 10 ** self.rng.uniform(6, 8)
            return [a, a * (1 - self.rng.uniform(0, eccmax or 0.1))]
        a, b = self._put(name, d)
        if eccmax is not None:
            self.require((a - b) / a <= eccmax)
        if sphere is False:
            self.require(a > b)
        self.ellab = (a, b)
        self.scale = a
        self.ellscale = a / 6378137.0
        return L.ellipsoid.Ellipsoid(a, b)

    def ellab_of(self, e):
        return mp.mpf(e.semimajor_axis), mp.mpf(e.semiminor_axis)

    def instant(self, name, zone="any", lo=1900, hi=2100):
        import datetime as dt

        def d():
            import calendar
            r = self.rng.random()
            y = self.rng.randint(lo, hi - 1)
            if r < 0.3:
                m = self.rng.choice([1, 2, 3, 6, 7, 12])
                day = self.rng.choice([1, calendar.monthrange(y, m)[1]])
                t = dt.datetime(y, m, day, *self.rng.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (23, 59, 59, 999999), (0, 0, 0, 1)]))
            else:
                t = dt.datetime(y, 1, 1) + dt.timedelta(days=self.rng.randint(0, 364), seconds=self.rng.randint(0, 86399), microseconds=self.rng.choice([0, 1, 500000, 999999, self.rng.randint(0, 999999)]))
            z = zone if zone != "any" else self.rng.choice(["naive", "utc", "offset"])
            if z != "naive":
                o = 0 if z == "utc" else self.rng.choice([-720, -570, -300, -60, 60, 330, 345, 540, 840, self.rng.randint(-1400, 1400)])
                t = t.replace(tzinfo=dt.timezone(dt.timedelta(minutes=o)))
            return t.isoformat()
        return dt.datetime.fromisoformat(self._put(name, d))

    def seconds_of(self, t):
        import datetime as dt
        if t.tzinfo is not None:
            t = (t - t.utcoffset()).replace(tzinfo=None)
        d = t - dt.datetime(2000, 1, 1)
        return mp.mpf(d.days * 86400 + d.seconds) + mp.mpf(d.microseconds) / 10 ** 6

    def as_utc(self, t):
        import datetime as dt
        if t.tzinfo is not None:
            t = t - t.utcoffset()
        return t.replace(tzinfo=dt.timezone.utc)

    def choice(self, name, xs):
        return self._put(name, lambda: self.rng.choice(list(xs)))

    def integer(self, name, lo, hi):
        return self._put(name, lambda: self.rng.randint(lo, hi))

    def array(self, xs):
        return np.array([scal(x) for x in xs], dtype=float)


class Check:
    sym = False

    def __init__(self, I=None):
        self.fails = []
        self.n = 0
        self.I = I

    FLOOR = 2e-12   # rounding allowance: the run-time monitor must not depend on the order of operations

    def _f(self, label, got, want, extra=""):
        self.fails.append({"label": label, "got": repr(got), "want": mp.nstr(want, 20) if isinstance(want, mpmath.mpf) else repr(want), "extra": extra})

    def eq(self, label, got, want, tol=None, rel=1e-9, scale=None):
        """|got-want| <= tol (default rel*max(scale,|want|))"""
        if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)):
            if len(got) != len(want):
                self.n += 1
                return self._f(label, f"{len(got)} values", f"{len(want)} values")
            for i, (g, w) in enumerate(zip(got, want)):
                self.eq(f"{label}[{i}]", g, w, tol, rel, scale)
            return
        self.n += 1
        try:
            g, w = scal(got), scal(want)
        except TypeError as e:
            return self._f(label, got, want, str(e))
        if g != g or w != w:
            if (g != g) != (w != w):
                self._f(label, got, want)
            return
        if g in (math.inf, -math.inf) or w in (math.inf, -math.inf):
            if g != w:
                self._f(label, got, want)
            return
        if tol is not None:
            t = max(tol, self.FLOOR)
        else:
            s = 1.0 if scale is None else max(float(scale), self.I.mag)
            t = max(rel, self.FLOOR) * max(s, abs(float(w)))
        if not abs(mp.mpf(g) - mp.mpf(w)) <= t:
            self._f(label, got, want, f"tol={float(t):.3g}")

    def mod(self, label, got, want, period, tol=1e-9):
        self.n += 1
        try:
            g, w = mp.mpf(scal(got)), mp.mpf(scal(want))
        except TypeError as e:
            return self._f(label, got, want, str(e))
        p = mp.mpf(period)
        d = g - w
        d = d - p * mp.nint(d / p)
        if not abs(d) <= tol:
            self._f(label, got, want, f"mod {mp.nstr(p, 8)} tol={float(tol):.3g}")

    def lemma_abs_le(self, label, d, bound, squares=(), nonneg=()):
        pass

    def lemma_nonneg(self, label, t, parts):
        pass

    def cut(self, label, vals, hyps, goal):
        pass

    def lemma_sum(self, label, t, parts):
        pass

    def lemma(self, label, rel, a, b):
        pass

    def le(self, label, a, b, tol=0.0):
        self.n += 1
        x, y = mp.mpf(scal(a)), mp.mpf(scal(b))
        if not x <= y + tol:
            self._f(label, a, b, "<=")

    def lt(self, label, a, b, tol=0.0):
        self.n += 1
        x, y = mp.mpf(scal(a)), mp.mpf(scal(b))
        # x % p may round up to p for tiny negative x: strictness is only decided in the proof
        if not x < y + tol and not abs(x - y) <= self.FLOOR * max(1, abs(y)):
            self._f(label, a, b, "<")

    def true(self, label, cond, extra=""):
        self.n += 1
        if not cond:
            self._f(label, False, True, extra)

    def raises(self, label, exc, f):
        self.n += 1
        try:
            v = f()
        except exc:
            return
        except Exception as e:
            return self._f(label, type(e).__name__, getattr(exc, "__name__", str(exc)), str(e))
        self._f(label, f"returned {v!r}"[:200], getattr(exc, "__name__", str(exc)))

    def isnan(self, label, x):
        self.n += 1
        v = scal(x)
        if v == v:
            self._f(label, x, math.nan)


def run_one(spec, params, cfg, rng, preset=None):
    from pyvc.contract import Skip
    I = Inputs(rng, preset, cfg)
    ck = Check(I)
    try:
        spec.fn(Lib1, I, ck, M1, **params)
        status = "ok"
    except Skip:
        return "skip", I, ck
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "pymap3d" in f.filename]
        w = where[-1] if where else tb[-1]
        ck.fails.append({"label": "no-exception", "got": f"{type(e).__name__}: {e}"[:300], "want": "normal return",
                         "extra": f"{os.path.basename(w.filename)}:{w.lineno}"})
        status = "exc"
    return ("fail" if ck.fails else "ok"), I, ck


Lib1 = Lib()
M1 = CMath()


class Block:
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ImportError(f"{name} is hidden from this run")
        return None


def block(names):
    """hide an optional dependency from the library"""
    for k in [k for k in sys.modules if k.split(".")[0] in names]:
        del sys.modules[k]
    sys.meta_path.insert(0, Block(tuple(names)))


def main():
    job = json.load(sys.stdin)
    os.environ.setdefault("XDG_CONFIG_HOME", "/opt/vp/xdg/config")
    os.environ.setdefault("XDG_CACHE_HOME", "/opt/vp/xdg/cache")
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    if np is not None:
        np.seterr(all="ignore")
    import logging
    logging.disable(logging.CRITICAL)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
    sys.path.insert(0, os.path.dirname(HERE))
    src = os.path.dirname(os.environ.get("PYMAP3D_SRC", "/repo/src/pymap3d"))
    sys.path.insert(0, src)
    sys.meta_path.insert(0, SourceFinder(src))
    importlib.import_module("contracts")
    from pyvc.contract import specs, pname
    cfg = job["cfg"]
    for sp in specs(job["prop"]):
        if sp.opts.get("block") and job.get("only") and sp.name in job["only"]:
            block(sp.opts["block"])
            break
    out = {"results": []}
    t_end = time.time() + job.get("seconds", 60)
    for sp in specs(job["prop"]):
        if cfg not in sp.cfg or sp.mode == "proof":
            continue
        if job.get("only") and sp.name not in job["only"]:
            continue
        for params in sp.params:
            pn = pname(params)
            if job.get("params") is not None and pn != job["params"]:
                continue
            n = int(job["n"] * sp.opts.get("weight", 1.0))
            n = max(n, 1)
            if "fixed_n" in sp.opts:
                n = sp.opts["fixed_n"]
            rng = random.Random(f"{job['seed']}/{sp.key}/{pn}/{cfg}")
            res = {"contract": sp.name, "params": pn, "cfg": cfg, "runs": 0, "skipped": 0, "checks": 0, "fails": [], "samples": []}
            if "replay" in job:
                st, I, ck = run_one(sp, params, cfg, rng, job["replay"])
                res["runs"] = 1
                res["checks"] = ck.n
                if st == "fail":
                    res["fails"].append({"inputs": I.rec, "fails": ck.fails})
                out["results"].append(res)
                continue
            seen = set()
            t0 = time.time()
            tmax = max(0.5, (t_end - t0)) if job.get("seconds") else 60
            for pre in list(sp.opts.get("points", ())) + [None] * n:
                st, I, ck = run_one(sp, params, cfg, rng, pre)
                if st == "skip":
                    res["skipped"] += 1
                    continue
                res["runs"] += 1
                res["checks"] += ck.n
                seen.add(repr(I.rec))
                if len(res["samples"]) < 2:
                    res["samples"].append(I.rec)
                if st == "fail":
                    if len(res["fails"]) < 12:
                        res["fails"].append({"inputs": I.rec, "fails": ck.fails[:4]})
                    res["nfail"] = res.get("nfail", 0) + 1
                if time.time() - t0 > tmax:
                    break
            res["distinct"] = len(seen)
            res["wall"] = round(time.time() - t0, 3)
            out["results"].append(res)
    json.dump(out, sys.stdout, default=str)


if __name__ == "__main__":
    sys.modules["pyvc.concrete"] = sys.modules["__main__"]
    main()
