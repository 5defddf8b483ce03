"""Verification of one contract: symbolic execution of the real (rewritten) sources, then one
proof obligation per postcondition and path."""
from __future__ import annotations
import math
import sys
import time
from fractions import Fraction as Q

import numpy as np

from . import explore as ex
from . import loader
from . import smt
from . import symlib as sl
from . import term as tm
from .contract import Skip
from .prove import Prover, zero_squares, limit, Timeout, STATS as PSTATS

MP = ex.MP


def T(x):
    """value -> term"""
    if isinstance(x, tm.T):
        return x
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError(f"scalar expected, got shape {x.shape}")
        return T(x.reshape(-1)[0])
    t = sl._lift(x)
    if t is None:
        raise TypeError(f"number expected, got {type(x).__name__}")
    return t


S = sl.Sym


class SMath:
    sym = True
    pi = S(tm.PI)
    inf = S(tm.INF)
    nan = S(tm.NAN)

    def q(self, s):
        return S(tm.const(Q(s)))

    def sin(self, x): return S(tm.fun("sin", T(x)))
    def cos(self, x): return S(tm.fun("cos", T(x)))
    def tan(self, x): return S(tm.div(tm.fun("sin", T(x)), tm.fun("cos", T(x))))
    def sqrt(self, x): return S(tm.sqrt(T(x)))
    def cbrt(self, x): return S(tm.root(T(x), 3))
    def asin(self, x): return S(tm.fun("asin", T(x)))
    def acos(self, x): return S(tm.fun("acos", T(x)))
    def atan(self, x): return S(tm.fun("atan", T(x)))
    def atan2(self, y, x): return S(sl.t2_atan2(T(y), T(x), True))
    def hypot(self, *xs): return S(tm.sqrt(tm.add(*[tm.power(T(x), 2) for x in xs])))
    def log(self, x): return S(tm.fun("log", T(x)))
    def exp(self, x): return S(tm.fun("exp", T(x)))
    def sinh(self, x): return S(tm.fun("sinh", T(x)))
    def cosh(self, x): return S(tm.fun("cosh", T(x)))
    def asinh(self, x): return S(tm.fun("asinh", T(x)))
    def atanh(self, x): return S(tm.fun("atanh", T(x)))
    def abs(self, x): return S(tm.fun("abs", T(x)))
    def real(self, x): return S(T(x))
    def floor(self, x): return S(tm.fun("floor", T(x)))

    def div(self, x, y):
        """quotient in the specification: no branch on a zero divisor"""
        return S(tm.div(T(x), T(y)))

    def mod(self, x, m):
        return S(tm.mod(T(x), T(m)))

    def isnan(self, x):
        return T(x).op == "nan"

    def isinf(self, x):
        return tm._has_inf(T(x))

    def num(self, x):
        return x

    def rad(self, x): return S(tm.mul(T(x), tm.PI, tm.const(Q(1, 180))))
    def deg(self, x): return S(tm.mul(T(x), tm.const(180), tm.power(tm.PI, -1)))


class SLib:
    def __init__(self, world):
        self._w = world

    def __getattr__(self, n):
        m = self._w.load(n)
        setattr(self, n, m)
        return m

    @property
    def top(self):
        return self._w._pkg(full=True)

    @property
    def twin(self):
        """the other installation: the same sources without numpy, on the same inputs and with the same callee contracts"""
        if "_twin" not in self.__dict__:
            w = loader.World("std")
            ctx, names, reg = self._stubs
            if names:
                from . import stubs as stb
                stb.install(w, ctx, names, reg)
            self._twin = SLib(w)
        return self._twin


class SInputs:
    sym = True

    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.cfg = cfg
        self.scale = 1
        self.rec_kinds: dict = {}

    # flavour of scalar inputs handed to the library: Python float
    def _mk(self, t):
        return S(t)

    def require(self, cond):
        if not cond:
            raise sl.PathEnd("precondition")

    def assume(self, rel, x):
        self.ctx.assume(rel, T(x))

    def unit(self, k):
        """the unit of length in which homogeneous callee contracts are applied"""
        self.ctx.unit = sl._lift(k)
        if tm.UNIT[0] is None and isinstance(k, sl.Sym):
            tm.UNIT[0] = sl._lift(k)

    def assume_pos(self, x):
        self.ctx.assume("<", tm.neg(T(x)))

    def real(self, name, lo=-10.0, hi=10.0, special=(), open_lo=False, open_hi=False):
        v = tm.var(name)
        lits = []
        a, b = lo, hi
        if lo is not None and lo > -1e300:
            lits.append(("<" if open_lo else "<=", tm.sub(tm.const(Q(str(lo))), v)))
        if hi is not None and hi < 1e300:
            lits.append(("<" if open_hi else "<=", tm.sub(v, tm.const(Q(str(hi))))))
        return self._mk(self.ctx.declare(name, lambda r, env: r.uniform(a, b), lits))

    def lat(self, name, deg=True, open=False, lo=-90.0, hi=90.0):
        v = tm.var(name)
        st = "<" if open else "<="
        k = tm.ONE if deg else tm.mul(tm.PI, tm.const(Q(1, 180)))
        top = tm.mul(tm.const(Q(str(hi))), k)
        bot = tm.mul(tm.const(Q(str(lo))), k)
        lits = [(st, tm.sub(v, top)), (st, tm.sub(bot, v))]
        ang = tm.mul(v, tm.PI, tm.const(Q(1, 180))) if deg else v
        lits.append((st, tm.neg(tm.fun("cos", ang))))
        if lo >= 0:
            lits.append(("<=", tm.neg(tm.fun("sin", ang))))
        t = self.ctx.declare(name, lambda r, env: (r.uniform(lo, hi) if deg else math.radians(r.uniform(lo, hi))), lits)
        return self._mk(t)

    def lon(self, name, deg=True, wide=True):
        return self._mk(self.ctx.declare(name, lambda r, env: (r.uniform(-300, 300) if deg else r.uniform(-5, 5))))

    def angle(self, name, deg=True, lo=-400.0, hi=400.0):
        v = tm.var(name)
        lits = []
        if (lo, hi) != (-400.0, 400.0):
            k = tm.ONE if deg else tm.mul(tm.PI, tm.const(Q(1, 180)))
            lits = [("<=", tm.sub(v, tm.mul(tm.const(Q(str(hi))), k))), ("<=", tm.sub(tm.mul(tm.const(Q(str(lo))), k), v))]
        return self._mk(self.ctx.declare(name, lambda r, env: r.uniform(lo, hi) * (1 if deg else math.pi / 180), lits))

    def alt(self, name, lo=-12000.0, hi=4e7):
        lits = []
        if lo >= 0:
            lits = [("<=", tm.neg(tm.var(name)))]
        return self._mk(self.ctx.declare(name, lambda r, env: r.uniform(max(lo, -3), min(hi, 20)), lits))

    def length(self, name, mag=1e6):
        return self._mk(self.ctx.declare(name, lambda r, env: r.uniform(-20, 20)))

    def ell(self, L, name="ell", sphere=None, eccmax=None):
        a, b = tm.var(name + "_a"), tm.var(name + "_b")
        self.ctx.declare(name + "_a", lambda r, env: r.uniform(5, 15), [("<", tm.neg(a))])
        if sphere:
            self.ellab = (S(a), S(a))
            return L.ellipsoid.Ellipsoid(S(a), S(a))
        lits = [("<", tm.neg(b)), ("<" if sphere is False else "<=", tm.sub(b, a))]
        self.ctx.declare(name + "_b", lambda r, env: env[name + "_a"] * MP.mpf(r.uniform(0.8, 1)), lits)
        self.ellab = (S(a), S(b))
        return L.ellipsoid.Ellipsoid(S(a), S(b))

    def ell_series(self, L, small):
        """an ellipsoid with a named small parameter v > 0: third flattening ("n"), eccentricity ("e") or flattening ("f"); returns (ellipsoid, v)"""
        R, v = tm.var("ell_R"), tm.var("ell_" + small)
        self.ctx.declare("ell_R", lambda r, env: r.uniform(5, 15), [("<", tm.neg(R))])
        self.ctx.declare("ell_" + small, lambda r, env: r.uniform(0.01, 0.2), [("<", tm.neg(v)), ("<", tm.sub(v, tm.ONE))])
        if small == "n":
            a, b = tm.mul(R, tm.add(tm.ONE, v)), tm.mul(R, tm.sub(tm.ONE, v))
        elif small == "e":
            a, b = R, tm.mul(R, tm.root(tm.sub(tm.ONE, tm.power(v, 2)), 2))
        else:
            a, b = R, tm.mul(R, tm.sub(tm.ONE, v))
        self.ellab = (S(a), S(b))
        return L.ellipsoid.Ellipsoid(S(a), S(b)), S(v)

    def ellab_of(self, e):
        return S(T(e.semimajor_axis)), S(T(e.semiminor_axis))

    def instant(self, name, zone="offset"):
        """an arbitrary instant: zone 'naive', 'utc' or 'offset' (any fixed offset, zero included)"""
        from . import faketime as ft
        u = self.ctx.declare(name, lambda r, env: MP.mpf(r.uniform(-3e9, 3e9)))
        if zone == "offset":
            o = self.ctx.declare(name + "_offset", lambda r, env: MP.mpf(r.randint(-50000, 50000)))
            tz = ft.FakeTZ(ft.FakeTD.of(o))
        else:
            tz = None if zone == "naive" else ft.FakeTZ.utc
        return ft.FakeDT.of(u, tz)

    def seconds_of(self, t):
        """seconds since 2000-01-01T00:00 UTC"""
        return S(t.u)

    def as_utc(self, t):
        from . import faketime as ft
        return ft.FakeDT.of(t.u, ft.FakeTZ.utc)

    def calendar(self, name, month, zone="offset"):
        """an instant given by its calendar fields: symbolic year 1..9999, day and time of day; returns (datetime, utc fields)"""
        from . import faketime as ft

        def ints(pre, ranges):
            out = {}
            for n, (lo, hi) in ranges.items():
                v = tm.fun("floor", self.ctx.declare(f"{name}_{pre}{n}", (lambda lo, hi: lambda r, env: MP.mpf(r.randint(lo, hi)) + MP.mpf("0.5"))(lo, hi),
                                                     [("<=", tm.sub(tm.const(lo), tm.var(f"{name}_{pre}{n}"))), ("<", tm.sub(tm.var(f"{name}_{pre}{n}"), tm.const(hi + 1)))]))
                out[n] = sl.SymInt(v)
            return out
        R = {"year": (1, 9999), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "microsecond": (0, 999999)}
        fu = ints("", R)
        fu["month"] = month
        if zone == "offset":
            R["month"] = (1, 12)
            f = ints("local_", R)
            o = self.ctx.declare(name + "_offset", lambda r, env: MP.mpf(r.randint(-50000, 50000)))
            tz = ft.FakeTZ(ft.FakeTD.of(o))
        else:
            f, tz = fu, (None if zone == "naive" else ft.FakeTZ.utc)
        return ft.FakeDT.of(self.ctx.declare(name + "_u", lambda r, env: MP.mpf(r.uniform(-3e9, 3e9))), tz, f, fu), fu

    def choice(self, name, xs):
        xs = list(xs)
        for i, x in enumerate(xs[:-1]):
            v = self.ctx.declare(f"?{name}{i}", lambda r, env: r.choice([-1, 1]))
            if sl.decide("<", v):
                return x
        return xs[-1]

    def integer(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def array(self, xs):
        return sl.arr([sl.NSym(T(x)) for x in xs])


class SCheck:
    sym = True

    def __init__(self, ctx):
        self.ctx = ctx

    def _add(self, *o):
        self.ctx.obls.append(o)

    def eq(self, label, got, want, tol=None, rel=None, scale=None):
        if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)):
            if len(got) != len(want):
                return self._add("false", label, f"{len(got)} values instead of {len(want)}")
            for i, (g, w) in enumerate(zip(got, want)):
                self.eq(f"{label}[{i}]", g, w)
            return
        try:
            self._add("eq", label, T(got), T(want))
        except TypeError as e:
            self._add("false", label, str(e))

    def lemma_abs_le(self, label, d, bound, squares=(), nonneg=()):
        """ghost lemma: bound^2 - d^2 is the sum of the given squares (an obligation), hence |d| <= bound (then a fact)"""
        n0, k0 = len(self.ctx.obls), len(self.ctx.pc)
        d, b = T(d), T(bound)
        self._add("eq", label, tm.sub(tm.power(b, 2), tm.power(d, 2)), tm.add(*[tm.power(T(s), 2) for s in squares], *[T(p) for p in nonneg]))
        for i, p in enumerate(nonneg):
            self._add("rel", f"{label}-part{i}", "<=", tm.neg(T(p)))
        self._add("rel", label + "-bound", "<=", tm.neg(b))
        self.ctx.lemma("<=", tm.sub(d, b))
        self.ctx.lemma("<=", tm.sub(tm.neg(d), b))
        self.ctx.lemmas.append((n0, len(self.ctx.obls), k0))

    def lemma_sum(self, label, t, parts):
        """ghost lemma: t is the sum of the parts, the first positive, the others nonnegative (obligations), hence t > 0 (then a fact)"""
        n0, k0 = len(self.ctx.obls), len(self.ctx.pc)
        t, ps = T(t), [T(p) for p in parts]
        self._add("eq", label, t, tm.add(*ps))
        for i, p in enumerate(ps):
            self._add("rel", f"{label}-part{i}", "<=" if i else "<", tm.neg(p))
        self.ctx.lemma("<", tm.neg(t))
        self.ctx.lemmas.append((n0, len(self.ctx.obls), k0))

    def lemma_nonneg(self, label, t, parts):
        """ghost lemma: t is the sum of nonnegative parts (obligations), hence t >= 0 (then a fact)"""
        n0, k0 = len(self.ctx.obls), len(self.ctx.pc)
        t, ps = T(t), [T(p) for p in parts]
        self._add("eq", label, t, tm.add(*ps))
        for i, p in enumerate(ps):
            self._add("rel", f"{label}-part{i}", "<=", tm.neg(p))
        self.ctx.lemma("<=", tm.neg(t))
        self.ctx.lemmas.append((n0, len(self.ctx.obls), k0))

    def lemma(self, label, rel, a, b):
        """ghost lemma a rel b: an obligation, then a fact"""
        n0, k0 = len(self.ctx.obls), len(self.ctx.pc)
        t = tm.sub(T(a), T(b))
        if rel == "==":
            self._add("eq", label, T(a), T(b))
        else:
            self._add("rel", label, rel, t)
        self.ctx.lemma(rel, t)
        self.ctx.lemmas.append((n0, len(self.ctx.obls), k0))

    def cut(self, label, vals, hyps, goal):
        """ghost lemma by a cut: for all reals x, (and of hyps(x)) => goal(x) (obligation, over fresh variables); hyps(vals) are
        obligations; goal(vals) is then a fact"""
        n0, k0 = len(self.ctx.obls), len(self.ctx.pc)

        def lit(f, xs):
            rel, a, b = f(*xs)
            return ("<" if rel == "<" else rel, tm.sub(T(a), T(b)))
        fresh = [S(tm.var(f"?cut{i}")) for i in range(len(vals))]
        self._add("cut", label, [lit(h, fresh) for h in hyps], lit(goal, fresh))
        for i, h in enumerate(hyps):
            rel, a, b = h(*vals)
            if rel == "==":
                self._add("eq", f"{label}-hyp{i}", T(a), T(b))
            else:
                self._add("rel", f"{label}-hyp{i}", rel, tm.sub(T(a), T(b)))
        self.ctx.lemma(*lit(goal, vals))
        self.ctx.lemmas.append((n0, len(self.ctx.obls), k0))

    def order(self, label, t, v, N):
        """t is O(v^(N+1)) as v -> 0+: each Taylor coefficient 0..N is zero (one obligation each)"""
        from . import series
        try:
            for k, c in enumerate(series.expand(T(t), T(v), N)):
                self._add("eq", f"{label}.{k}", c, tm.ZERO)
        except (series.NoSeries, TypeError) as e:
            self._add("false", label, f"no series: {e}")

    def diff(self, t, v):
        from . import series
        return S(series.diff(T(t), T(v)))

    def mod(self, label, got, want, period, tol=None):
        try:
            self._add("mod", label, T(got), T(want), T(period))
        except TypeError as e:
            self._add("false", label, str(e))

    def le(self, label, a, b, tol=0):
        self._add("rel", label, "<=", tm.sub(T(a), T(b)))

    def lt(self, label, a, b, tol=0):
        self._add("rel", label, "<", tm.sub(T(a), T(b)))

    def true(self, label, cond, extra=""):
        if isinstance(cond, sl.Sym):
            cond = bool(cond)
        self._add("true" if cond else "false", label, extra)

    def raises(self, label, exc, f):
        try:
            f()
        except exc:
            return self._add("true", label, "")
        except Exception as e:
            return self._add("false", label, f"{type(e).__name__}: {e}")
        self._add("false", label, "returned normally")

    def isnan(self, label, x):
        t = T(x)
        self._add("true" if t.op == "nan" else "false", label, "not nan")


def num(ev, t):
    try:
        return ev(t)
    except Exception:
        return MP.nan


def refuted(ctx, path, o):
    """a witness sample for which the obligation is numerically false -> index or None"""
    kind = o[0]
    for k in path.samples:
        ev = ctx.evals[k]
        if kind == "false":
            return k
        if kind == "eq":
            a, b = num(ev, o[2]), num(ev, o[3])
            if MP.isnan(a) or MP.isnan(b):
                if MP.isnan(a) != MP.isnan(b):
                    return k
                continue
            if MP.isinf(a) or MP.isinf(b):
                if a != b:
                    return k
                continue
            if abs(a - b) > MP.mpf(10) ** -16 * (1 + abs(a) + abs(b)):
                return k
        elif kind == "mod":
            a, b, p = num(ev, o[2]), num(ev, o[3]), num(ev, o[4])
            if MP.isnan(a) or MP.isnan(b):
                return k
            q = (a - b) / p
            if abs(q - MP.nint(q)) > MP.mpf(10) ** -16:
                return k
        elif kind == "rel":
            v = num(ev, o[3])
            if MP.isnan(v) or not ex.holds_num(o[2], v):
                return k
    return None


def inputs_of(ctx, k):
    env = ctx.evals[k].env
    return {n: float(env[n]) for n in ctx.vars if n in env and not n.startswith("?")}


def verify(spec, params, cfg, seconds=200, seed=1, verbose=False, stubs=None):
    t0 = time.time()
    tm.UNIT[0] = None
    world = loader.World(cfg)
    prover = Prover(timeout=spec.opts.get("smt_ms", 3000))
    ctx = ex.Ctx(prover, seed=seed, nsamples=spec.opts.get("nsamples", 60))
    ctx.prune = spec.opts.get("prune", True)
    ctx.match = spec.opts.get("match")
    prover.samples_fn = lambda: ctx.evals
    ctx.start()
    L = SLib(world)
    L._stubs = (ctx, (), None)
    M = SMath()
    ck = SCheck(ctx)
    ck.world = world
    res = {"contract": spec.name, "params": ",".join(f"{k}={v}" for k, v in params.items()), "cfg": cfg,
           "paths": 0, "obligations": 0, "discharged": 0, "failed": [], "tactics": {}, "unsupported": [],
           "witnessed_paths": 0, "infeasible_paths": 0, "assumed": [], "functions": []}
    sl.set_ctx(ctx)
    sl.WARN.mode = "default"

    def call():
        I = SInputs(ctx, cfg)
        I.prover = prover
        try:
            return spec.fn(L, I, ck, M, **params)
        except Skip:
            raise sl.PathEnd("skip")
    try:
        ctx.reset([])
        st = spec.opts.get("setup")
        if st:
            st(L, world)
        if spec.opts.get("stubs"):
            from . import stubs as stb
            reg = stb.install(world, ctx, spec.opts["stubs"])
            L._stubs = (ctx, spec.opts["stubs"], reg)
            res["assumed"].append("callee contracts: " + ", ".join(spec.opts["stubs"]))
        with limit(seconds):
            paths = ex.explore(ctx, call, time_limit=seconds * 0.6)
            res["paths"] = len(paths)
            budget = spec.opts.get("budget", 20)
            for p in paths:
                allfacts = facts = zero_squares(list(dict.fromkeys(ctx.assumptions + p.pc)))
                if p.outcome == "unsupported":
                    res["unsupported"].append(str(p.value))
                    res["obligations"] += 1
                    res["failed"].append({"label": "supported", "why": str(p.value), "path": p.describe()[:20]})
                    continue
                if p.samples:
                    res["witnessed_paths"] += 1
                obls = list(p.obls)
                if p.outcome != "ret":
                    obls.append(("false", "no-exception", f"{p.outcome}: {p.value}"))
                inf = None
                logs = any(e == ("log", "warning") for e in p.events)
                if spec.opts.get("log_excludes") and logs:
                    res["assumed"].append("path with logged non-convergence excluded")
                    continue
                for i, o in enumerate(obls):
                    # the obligations of a ghost lemma use only what was known when it was stated
                    k = next((k for a, b, k in p.lemmas if a <= i < b), None)
                    facts = allfacts if k is None else list(dict.fromkeys(ctx.assumptions + p.pc[:k]))
                    res["obligations"] += 1
                    label = o[1]
                    k = refuted(ctx, p, o)
                    tac = None
                    if k is None:
                        if o[0] == "true":
                            tac = "decided"
                        elif o[0] == "eq":
                            if o[2].op == "nan" and o[3].op == "nan":
                                tac = "both-nan"
                            else:
                                tac = prover.prove_eq(facts, o[2], o[3], budget)
                        elif o[0] == "mod":
                            tac = prover.prove_mod(facts, o[2], o[3], o[4], budget)
                        elif o[0] == "rel":
                            tac = prover.prove_rel(facts, o[2], o[3], budget)
                        elif o[0] == "cut":
                            tac = "smt-cut" if smt.implies(o[2], o[3]) else None
                        if tac is None and not p.samples:
                            if inf is None:
                                try:
                                    with limit(budget):
                                        inf = prover.infeasible(facts)
                                except (Timeout, RecursionError):
                                    prover.rings.clear()
                                    inf = False
                            if inf:
                                tac = "path-infeasible"
                    if tac:
                        res["discharged"] += 1
                        res["tactics"][tac] = res["tactics"].get(tac, 0) + 1
                    else:
                        d = {"label": label, "kind": o[0], "path": p.describe()[:25]}
                        if o[0] in ("eq", "mod"):
                            d["got"], d["want"] = tm.show(o[2], 9)[:600], tm.show(o[3], 9)[:600]
                        elif o[0] == "rel":
                            d["goal"] = (tm.show(o[3], 9) + " " + o[2] + " 0")[:600]
                        else:
                            d["why"] = o[2]
                        if k is not None:
                            d["model"] = inputs_of(ctx, k)
                        else:
                            d["undecided"] = True
                        res["failed"].append(d)
                if inf:
                    res["infeasible_paths"] += 1
    except Timeout:
        res["failed"].append({"label": "time-limit", "why": f"{seconds}s", "undecided": True})
        res["obligations"] += 1
    except RuntimeError as e:
        if "vacuous" not in str(e):
            raise
        res["failed"].append({"label": "non-vacuous", "why": str(e)})
        res["obligations"] += 1
    if not res["obligations"]:
        res["failed"].append({"label": "non-vacuous", "why": "no obligation was generated"})
        res["obligations"] = 1
    res["wall"] = round(time.time() - t0, 2)
    res["solver"] = {k: round(v, 3) for k, v in smt.STATS.items()}
    res["inputs"] = [n for n in ctx.vars]
    world.unload()
    return res
