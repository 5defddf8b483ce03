"""Symbolic numbers and the stand-in math/numpy/sys/warnings/logging modules the real
code runs against.  Two scalar flavours: Sym behaves like a Python float, NSym like a
numpy.float64 (no exception on division by zero, has .any/.squeeze/[()], no item
assignment).  Arrays are genuine numpy arrays of dtype object holding NSym elements."""
from __future__ import annotations
import builtins
import math as _math
import types
from fractions import Fraction as Q

import numpy as _np

from . import term as tm
from .term import T


class PathEnd(BaseException):
    """execution path abandoned (infeasible or cut at a loop head)"""


class Unsupported(BaseException):
    """the code did something the symbolic semantics does not model"""


CTX = None  # current exploration context (explore.Ctx)


def set_ctx(c):
    global CTX
    CTX = c


class SymRuntimeWarning(RuntimeWarning):
    pass


def _lift(x):
    """python/np number -> term or None"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return tm.const(int(x))
    if isinstance(x, (int, Q)):
        return tm.const(x)
    if isinstance(x, _np.integer):
        return tm.const(int(x))
    if isinstance(x, (float, _np.floating)):
        x = builtins.float(x)
        if x != x:
            return tm.NAN
        if x in (_math.inf, -_math.inf):
            return tm.INF if x > 0 else tm.neg(tm.INF)
        return tm.const(Q(x))
    return None


def decide(rel, t) -> bool:
    """truth of  t rel 0  on the current path (forks when undetermined)"""
    if t.op == "nan":
        return rel == "!="
    if t.op == "c":
        v = t.args[0]
        return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[rel]
    if t is tm.INF or (t.op == "+" and tm._has_inf(t)):
        pos = t is tm.INF or t.args[1][0][1] > 0
        return {"<": not pos, "<=": not pos, "==": False, "!=": True}[rel]
    return CTX.branch(rel, t)


def _cmp(rel, a, b):
    """a rel b for terms"""
    if a.op == "nan" or b.op == "nan":
        return rel == "!="
    if tm._has_inf(a) and tm._has_inf(b):
        va = 1 if a is tm.INF else -1
        vb = 1 if b is tm.INF else -1
        return {"<": va < vb, "<=": va <= vb, "==": va == vb, "!=": va != vb}[rel]
    return decide(rel, tm.sub(a, b))


def _warn(kind):
    """numpy floating point event; raises when the warnings filter says so"""
    if WARN.mode == "error":
        raise SymRuntimeWarning(kind)
    if CTX is not None:
        CTX.event("npwarn", kind)


def _mulop(a, b):
    if a.op != "c" and b.op != "c" and (tm._has_inf(a) or tm._has_inf(b)) and a.op != "nan" and b.op != "nan":
        if tm._has_inf(b):
            a, b = b, a
        if tm._has_inf(b):
            return tm.mul(a, b)
        if _cmp("==", b, tm.ZERO):
            return tm.NAN
        return a if _cmp("<", tm.ZERO, b) else tm.neg(a)
    return tm.mul(a, b)


class Sym:
    __slots__ = ("t",)
    np = False

    def __init__(self, t):
        self.t = t

    # ---- construction
    def _w(self, t, o=None):
        if self.np or isinstance(o, NSym):
            return NSym(t)
        return Sym(t)

    def __hash__(self):
        return hash(self.t.args[0]) if self.t.op == "c" else self.t.id

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if getattr(CTX, "marks", False):        # what the command line prints: a mark that names the value and its format
            return f"\u00ab|{tm.show(self.t, 6)}\u00bb"
        return f"{type(self).__name__}({tm.show(self.t, 6)})"

    def __format__(self, spec):
        if getattr(CTX, "marks", False):
            return f"\u00ab{spec}|{tm.show(self.t, 6)}\u00bb"
        if self.t.op == "c":
            return format(builtins.float(self.t.args[0]), spec)
        return repr(self)

    # ---- arithmetic
    def _bin(self, o, f, r=False):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        b = _lift(o)
        if b is None:
            return NotImplemented
        a = self.t
        if r:
            a, b = b, a
        return self._w(f(a, b), o)

    def __add__(self, o):
        return self._bin(o, tm.add)

    def __radd__(self, o):
        return self._bin(o, tm.add, True)

    def __sub__(self, o):
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        return self._bin(o, tm.sub, True)

    def __mul__(self, o):
        return self._bin(o, _mulop)

    def __rmul__(self, o):
        return self._bin(o, _mulop, True)

    def _divop(self, a, b, o):
        npf = self.np or isinstance(o, NSym)
        if a.op == "nan" or b.op == "nan":
            return tm.NAN
        if b.op == "c":
            z = b.args[0] == 0
        elif tm._has_inf(b):
            return tm.NAN if tm._has_inf(a) else tm.ZERO
        else:
            z = decide("==", b)
        if z:
            if not npf:
                raise ZeroDivisionError("division by zero")
            if _cmp("==", a, tm.ZERO):
                _warn("invalid value encountered in divide")
                return tm.NAN
            _warn("divide by zero encountered in divide")
            return tm.INF if _cmp("<", tm.ZERO, a) else tm.neg(tm.INF)
        if tm._has_inf(a):
            return a if _cmp("<", tm.ZERO, b) else tm.neg(a)
        return tm.div(a, b)

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        b = _lift(o)
        if b is None:
            return NotImplemented
        return self._w(self._divop(self.t, b, o), o)

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        b = _lift(o)
        if b is None:
            return NotImplemented
        return self._w(self._divop(b, self.t, o), o)

    def _modop(self, a, b, o):
        if b.op == "c" and b.args[0] == 0 or (b.op != "c" and b.op != "pi" and not _known_nonzero(b)
                                               and decide("==", b)):
            if self.np or isinstance(o, NSym):
                _warn("invalid value encountered in remainder")
                return tm.NAN
            raise ZeroDivisionError("float modulo")
        return tm.mod(a, b)

    def __mod__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        b = _lift(o)
        if b is None:
            return NotImplemented
        return self._w(self._modop(self.t, b, o), o)

    def __rmod__(self, o):
        if isinstance(o, (_np.ndarray, str)):
            return NotImplemented
        b = _lift(o)
        if b is None:
            return NotImplemented
        return self._w(self._modop(b, self.t, o), o)

    def __floordiv__(self, o):
        b = _lift(o)
        if b is None or isinstance(o, _np.ndarray):
            return NotImplemented
        return self._w(tm.fun("floor", self._divop(self.t, b, o)), o)

    def __rfloordiv__(self, o):
        b = _lift(o)
        if b is None or isinstance(o, _np.ndarray):
            return NotImplemented
        return self._w(tm.fun("floor", self._divop(b, self.t, o)), o)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        b = _lift(o)
        if b is None:
            return NotImplemented
        return self._w(_pow(self.t, b, self.np or isinstance(o, NSym)), o)

    def __rpow__(self, o):
        b = _lift(o)
        if b is None or isinstance(o, _np.ndarray):
            return NotImplemented
        return self._w(_pow(b, self.t, self.np or isinstance(o, NSym)), o)

    def __neg__(self):
        return self._w(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return self._w(tm.fun("abs", self.t))

    # ---- comparisons: decided at once, forking the path
    def _c(self, rel, o, swap=False):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        b = _lift(o)
        if b is None:
            return NotImplemented
        a = self.t
        if swap:
            a, b = b, a
        r = _cmp(rel, a, b)
        return _np.bool_(r) if (self.np or isinstance(o, NSym)) else r

    def __lt__(self, o):
        return self._c("<", o)

    def __le__(self, o):
        return self._c("<=", o)

    def __gt__(self, o):
        return self._c("<", o, True)

    def __ge__(self, o):
        return self._c("<=", o, True)

    def __eq__(self, o):
        return self._c("==", o)

    def __ne__(self, o):
        return self._c("!=", o)

    def __bool__(self):
        return _cmp("!=", self.t, tm.ZERO)

    # ---- conversions (exact only for constants)
    def _int_const(self):
        if self.t.op == "c":
            return self.t.args[0]
        return None

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self):
        v = self._int_const()
        if v is None:
            raise Unsupported("int() of a symbolic value")
        return int(v)

    def __int__(self):
        return self.__trunc__()

    def __float__(self):
        v = self._int_const()
        if v is None:
            raise Unsupported("float() of a symbolic value by native code")
        return builtins.float(v)

    def __round__(self, n=None):
        v = self._int_const()
        if v is not None and n is None:
            return round(v)
        if n is None:
            return SymInt.round_of(self)
        raise Unsupported("round")

    def __floor__(self):
        v = self._int_const()
        return _math.floor(v) if v is not None else SymInt(tm.fun("floor", self.t))

    def is_integer(self):
        v = self._int_const()
        if v is None:
            raise Unsupported("is_integer")
        return v.denominator == 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self._w(tm.ZERO)

    def conjugate(self):
        return self


class SymInt(Sym):
    """symbolic integer (Python int flavour)"""
    __slots__ = ()

    def _w(self, t, o=None):
        if isinstance(o, (SymInt, int)):
            return SymInt(t)
        return Sym(t)

    @staticmethod
    def round_of(s):
        # round half to even differs from floor(x+1/2) only at exact halves
        return SymInt(tm.fun("floor", tm.add(s.t, tm.const(Q(1, 2)))))


def _known_nonzero(t):
    return CTX is not None and CTX.known("!=", t)


class NSym(Sym):
    """numpy.float64 flavour"""
    __slots__ = ()
    np = True
    __array_priority__ = -1.0

    def _w(self, t, o=None):
        return NSym(t)

    shape = ()
    ndim = 0
    size = 1
    dtype = _np.dtype(object)

    def any(self, *a, **k):
        return _np.bool_(bool(self))

    all = any

    def squeeze(self, *a, **k):
        return self

    def copy(self):
        return self

    def item(self):
        return Sym(self.t)

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def ravel(self, *a):
        return arr([self])

    flatten = ravel

    def reshape(self, *shape):
        return arr([self]).reshape(*shape)

    def __getitem__(self, k):
        if isinstance(k, tuple) and k == () or k is Ellipsis:
            return self
        if isinstance(k, _np.ndarray) and k.ndim == 0 and k.dtype == bool:
            k = bool(k)
        if isinstance(k, (bool, _np.bool_)):
            return arr([self]) if k else arr([])
        if k is None:
            return arr([self])
        a = _np.empty((), dtype=object)
        a[()] = self
        return a[k]


def arr(xs):
    a = _np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x if isinstance(x, NSym) else NSym(_lift(x))
    return a


def _pow(a, b, npf):
    if a.op == "nan" or b.op == "nan":
        return tm.NAN
    if b.op == "c":
        q = b.args[0]
        if q.denominator == 1:
            n = int(q)
            if n < 0:
                z = decide("==", a) if a.op != "c" else a.args[0] == 0
                if z:
                    if not npf:
                        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                    _warn("divide by zero")
                    return tm.INF
            return tm.power(a, n)
        if q.denominator <= 12:
            neg = decide("<", a)
            if neg:
                if npf:
                    _warn("invalid value in power")
                    return tm.NAN
                raise Unsupported("complex power")
            r = tm.root(a, q.denominator)
            if q < 0 and decide("==", a):
                if not npf:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                _warn("divide by zero")
                return tm.INF
            return tm.power(r, int(q.numerator))
    if a.op == "c" and a.args[0] > 0 or CTX.known("<", tm.neg(a)):
        return tm.fun("exp", tm.mul(b, tm.fun("log", a)))
    if decide("==", a):
        # 0**b
        if _cmp("<", tm.ZERO, b):
            return tm.ZERO
        if _cmp("==", b, tm.ZERO):
            return tm.ONE
        if npf:
            _warn("divide by zero")
            return tm.INF
        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
    if decide("<", a):
        if npf:
            _warn("invalid value in power")
            return tm.NAN
        raise Unsupported("power of a negative number")
    return tm.fun("exp", tm.mul(b, tm.fun("log", a)))


# ------------------------------------------------------------------ elementary functions
def _domain(bad, npf, msg):
    if bad:
        if not npf:
            raise ValueError("math domain error")
        _warn(msg)
        return True
    return False


def t_sin(t, npf):
    return tm.fun("sin", t)


def t_cos(t, npf):
    return tm.fun("cos", t)


def t_tan(t, npf):
    if t.op == "nan":
        return tm.NAN
    r = tm._pi_multiple(t)
    if r is not None and (2 * r).denominator == 1 and (2 * r) % 2 == 1:
        if abs(r) == Q(1, 2):
            # the float constant pi/2 is just below the pole: a huge value of that sign
            return tm.INF if r > 0 else tm.neg(tm.INF)
        raise PathEnd("tangent pole")
    if r is None:
        if decide("==", tm.fun("cos", t)):
            # the tangent is never evaluated at an exact odd multiple of pi/2 in binary floating
            # point; the poles are covered by the run-time contracts
            raise PathEnd("tangent pole")
    return tm.fun("tan", t)


def t_sqrt(t, npf):
    if t.op == "nan":
        return tm.NAN
    if _domain(decide("<", t), npf, "invalid value encountered in sqrt"):
        return tm.NAN
    return tm.sqrt(t)


def _le1(t):
    """|t| <= 1 because t = B / sqrt(P) with P - B**2 >= 0"""
    if t.op != "*":
        return False
    for b, e in t.args:
        if b.op == "root" and b.args[1] == 2 and e == -1:
            rest = tm.mul(t, b)
            d = tm.sub(b.args[0], tm.power(rest, 2))
            ok = True
            for x, n in (d.args if d.op == "*" else ((d, 1),)):
                if n % 2 and not CTX.entails("<=", tm.neg(x)):
                    ok = False
                    break
            if ok:
                return True
    return False


def t_asin(t, npf):
    if t.op == "nan":
        return tm.NAN
    if _le1(t):
        return tm.fun("asin", t)
    bad = decide("<", tm.sub(tm.ONE, t)) or decide("<", tm.add(t, tm.ONE))
    if _domain(bad, npf, "invalid value encountered in arcsin"):
        return tm.NAN
    return tm.fun("asin", t)


def t_acos(t, npf):
    if t.op == "nan":
        return tm.NAN
    if _le1(t):
        return tm.fun("acos", t)
    bad = decide("<", tm.sub(tm.ONE, t)) or decide("<", tm.add(t, tm.ONE))
    if _domain(bad, npf, "invalid value encountered in arccos"):
        return tm.NAN
    return tm.fun("acos", t)


def t_atan(t, npf):
    return tm.fun("atan", t)


def t_log(t, npf):
    if t.op == "nan":
        return tm.NAN
    if _domain(decide("<=", t), npf, "invalid value encountered in log"):
        return tm.NAN
    return tm.fun("log", t)


def t_atanh(t, npf):
    if t.op == "nan":
        return tm.NAN
    bad = decide("<=", tm.sub(tm.ONE, t)) or decide("<=", tm.add(t, tm.ONE))
    if _domain(bad, npf, "divide by zero encountered in arctanh"):
        return tm.NAN
    return tm.fun("atanh", t)


def t_asinh(t, npf):
    return tm.fun("asinh", t)


def t_exp(t, npf):
    return tm.fun("exp", t)


def t_sinh(t, npf):
    return tm.fun("sinh", t)


def t_cosh(t, npf):
    return tm.fun("cosh", t)


def t_abs(t, npf):
    return tm.fun("abs", t)


def t_degrees(t, npf):
    if t.op == "nan" or tm._has_inf(t):
        return t
    return tm.mul(t, tm.const(180), tm.power(tm.PI, -1))


def t_radians(t, npf):
    if t.op == "nan" or tm._has_inf(t):
        return t
    return tm.mul(t, tm.PI, tm.const(Q(1, 180)))


def t_cbrt(t, npf):
    if t.op == "nan":
        return tm.NAN
    if decide("<", t):
        return tm.neg(tm.root(tm.neg(t), 3))
    return tm.root(t, 3)


def t_sign(t, npf):
    if t.op == "nan":
        return tm.NAN
    if decide("<", t):
        return tm.MONE
    if decide("==", t):
        return tm.ZERO
    return tm.ONE


def t_floor(t, npf):
    return tm.fun("floor", t)


def t_square(t, npf):
    return tm.power(t, 2)


def t2_atan2(y, x, npf):
    if y.op == "nan" or x.op == "nan":
        return tm.NAN
    if tm._has_inf(y) or tm._has_inf(x):
        raise Unsupported("atan2 of infinity")
    # convention of both libraries: atan2(0, 0) == 0 (for +0 arguments)
    if y.op == "c" and y.args[0] != 0 or x.op == "c" and x.args[0] != 0:
        return tm.fun("atan2", y, x)
    h = tm.add(tm.power(x, 2), tm.power(y, 2))
    if decide("==", h):
        return tm.ZERO
    return tm.fun("atan2", y, x)


def t2_hypot(x, y, npf):
    if tm._has_inf(y) or tm._has_inf(x):
        return tm.INF
    return tm.sqrt(tm.add(tm.power(x, 2), tm.power(y, 2)))


def t2_copysign(x, y, npf):
    a = tm.fun("abs", x)
    if y.op == "c":
        return tm.neg(a) if y.args[0] < 0 else a
    return tm.neg(a) if decide("<", y) else a


def t2_fmod(x, y, npf):
    # sign of the result follows x
    if decide("<", x):
        return tm.neg(tm.mod(tm.neg(x), tm.fun("abs", y)))
    return tm.mod(x, tm.fun("abs", y))


def t2_minimum(x, y, npf):
    return x if _cmp("<=", x, y) else y


def t2_maximum(x, y, npf):
    return y if _cmp("<=", x, y) else x


def t2_power(x, y, npf):
    return _pow(x, y, npf)


def _scalar_isclose(a, b, rel, abs_, npf):
    """numpy: |a-b| <= atol + rtol*|b| ; math: |a-b| <= max(rel*max(|a|,|b|), abs)"""
    if a.op == "nan" or b.op == "nan":
        return False
    d = tm.fun("abs", tm.sub(a, b))
    if npf:
        return _cmp("<=", d, tm.add(tm.const(abs_), tm.scale(tm.fun("abs", b), rel)))
    aa, ab = tm.fun("abs", a), tm.fun("abs", b)
    if b is tm.ZERO:
        # |a| <= max(rel*|a|, abs): for rel<1 and abs==0 this is a == 0
        if Q(abs_) == 0:
            return _cmp("==", a, b)
        return _cmp("<=", d, tm.const(abs_)) or _cmp("<=", d, tm.scale(aa, rel))
    return (_cmp("<=", d, tm.scale(ab, rel)) or _cmp("<=", d, tm.scale(aa, rel))
            or _cmp("<=", d, tm.const(abs_)))


# ------------------------------------------------------------------ builtins
def _is_num(x):
    return isinstance(x, (Sym, int, builtins.float, Q, _np.integer, _np.floating))


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return (isinstance(x, Sym) and not isinstance(x, SymInt)) or isinstance(x, builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return Sym(x.t)
        if isinstance(x, _np.ndarray):
            if x.size == 1:
                return Sym(x.ravel()[0].t)
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if isinstance(x, str):
            if getattr(x, "sym", None) is not None:
                return x.sym
            s = x.strip().lower()
            if s.lstrip("+-") in ("nan", "inf", "infinity"):
                return builtins.float(x)
            builtins.float(x)
            return Sym(tm.const(Q(s)))
        t = _lift(x)
        if t is None:
            return builtins.float(x)     # raises the proper TypeError
        return Sym(t)


class SymFloat(metaclass=_FloatMeta):
    pass


SymFloat.__name__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymInt) or isinstance(x, int)

    def __call__(cls, *a):
        if len(a) == 1 and isinstance(a[0], Sym):
            x = a[0]
            if x.t.op == "c":
                return int(x.t.args[0])
            if isinstance(x, SymInt):
                return x
            # truncation towards zero
            if decide("<", x.t):
                return SymInt(tm.neg(tm.fun("floor", tm.neg(x.t))))
            return SymInt(tm.fun("floor", x.t))
        return int(*a)


class SymIntType(metaclass=_IntMeta):
    pass


SymIntType.__name__ = "int"


def lit(s):
    return Sym(tm.const(Q(s)))


def idiv(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Sym(tm.const(Q(int(a), int(b))))
    if isinstance(a, builtins.float) or isinstance(b, builtins.float):
        ta, tb = _lift(a), _lift(b)
        if ta is not None and tb is not None:
            return Sym(ta) / Sym(tb)
    return a / b


def ipow(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and b < 0:
        return Sym(tm.const(Q(int(a)) ** int(b)))
    if isinstance(a, (int, bool)) and isinstance(b, builtins.float):
        return Sym(tm.const(int(a))) ** b
    return a ** b


# ------------------------------------------------------------------ module fakes
class _Warn:
    def __init__(self):
        self.mode = "default"


WARN = _Warn()


class _Catch:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        self._old = WARN.mode
        return []

    def __exit__(self, *e):
        WARN.mode = self._old
        return False


def fake_warnings():
    m = types.ModuleType("warnings")
    m.catch_warnings = _Catch

    def simplefilter(mode, *a, **k):
        WARN.mode = mode

    def warn(msg, *a, **k):
        CTX.event("warn", str(msg))
    m.simplefilter = simplefilter
    m.filterwarnings = simplefilter
    m.warn = warn
    m.resetwarnings = lambda: simplefilter("default")
    return m


def fake_logging():
    m = types.ModuleType("logging")

    def log(level):
        def f(msg, *a, **k):
            CTX.event("log", level)
        return f
    for lv in ("debug", "info", "warning", "error", "critical", "exception"):
        setattr(m, lv, log(lv))

    class _L:
        def __getattr__(self, n):
            return getattr(m, n)
    m.getLogger = lambda *a: _L()
    return m


def _u1(f):
    def g(x):
        t = _lift(x)
        if t is None:
            raise TypeError(f"must be real number, not {type(x).__name__}")
        return Sym(f(t, False))
    return g


def _u2(f):
    def g(x, y):
        a, b = _lift(x), _lift(y)
        if a is None or b is None:
            raise TypeError("must be real number")
        return Sym(f(a, b, False))
    return g


UN = dict(sin=t_sin, cos=t_cos, tan=t_tan, asin=t_asin, acos=t_acos, atan=t_atan, sqrt=t_sqrt,
          log=t_log, exp=t_exp, atanh=t_atanh, asinh=t_asinh, sinh=t_sinh, cosh=t_cosh, fabs=t_abs,
          degrees=t_degrees, radians=t_radians, cbrt=t_cbrt)
BIN = dict(atan2=t2_atan2, hypot=t2_hypot, copysign=t2_copysign, fmod=t2_fmod, pow=t2_power)


def fake_math():
    m = types.ModuleType("math")
    for k, f in UN.items():
        setattr(m, k, _u1(f))
    for k, f in BIN.items():
        setattr(m, k, _u2(f))

    def hypot(*xs):
        ts = [_lift(x) for x in xs]
        if any(t is None for t in ts):
            raise TypeError("must be real number")
        return Sym(tm.sqrt(tm.add(*[tm.power(t, 2) for t in ts])))
    m.hypot = hypot
    m.pi = Sym(tm.PI)
    m.tau = Sym(tm.scale(tm.PI, 2))
    m.e = Sym(tm.fun("exp", tm.ONE))
    m.nan = Sym(tm.NAN)
    m.inf = Sym(tm.INF)

    def isnan(x):
        return _lift(x).op == "nan"
    m.isnan = isnan
    m.isinf = lambda x: tm._has_inf(_lift(x))
    m.isfinite = lambda x: not (isnan(x) or m.isinf(x))

    def isclose(a, b, *, rel_tol="1e-09", abs_tol="0"):
        r = _lift(rel_tol) if isinstance(rel_tol, Sym) else tm.const(Q(rel_tol))
        s = _lift(abs_tol) if isinstance(abs_tol, Sym) else tm.const(Q(abs_tol))
        return _scalar_isclose(_lift(a), _lift(b), r.args[0], s.args[0], False)
    m.isclose = isclose

    def floor(x):
        if isinstance(x, int):
            return x
        return SymIntType(Sym(tm.fun("floor", _lift(x))))

    def ceil(x):
        if isinstance(x, int):
            return x
        return -SymIntType(Sym(tm.fun("floor", tm.neg(_lift(x)))))

    def trunc(x):
        return SymIntType(x)
    m.floor, m.ceil, m.trunc = floor, ceil, trunc
    m.fsum = lambda xs: sum(xs)
    m.prod = lambda xs, start=1: __import__("functools").reduce(lambda a, b: a * b, xs, start)
    m.sumprod = lambda a, b: sum(x * y for x, y in zip(a, b))
    m.dist = lambda a, b: hypot(*[x - y for x, y in zip(a, b)])

    def modf(x):
        i = SymIntType(x)
        return x - i, Sym(_lift(i))
    m.modf = modf

    def remainder(x, y):
        raise Unsupported("math.remainder")
    m.remainder = remainder
    return m


class _FakeLinalg(types.ModuleType):
    pass


def _npmap1(f):
    def g(x, out=None, **k):
        if isinstance(x, _np.ndarray) or isinstance(x, (list, tuple)):
            a = x if isinstance(x, _np.ndarray) else nparray(x)
            o = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(a.shape):
                o[i] = NSym(f(_lift(a[i]), True))
            if a.shape == ():
                return o[()]
            return o
        t = _lift(x)
        if t is None:
            raise TypeError("loop of ufunc does not support argument")
        return NSym(f(t, True))
    return g


def _npmap2(f, wrap=NSym):
    def g(x, y, out=None, **k):
        if isinstance(x, (_np.ndarray, list, tuple)) or isinstance(y, (_np.ndarray, list, tuple)):
            a, b = _np.broadcast_arrays(nparray(x), nparray(y))
            o = _np.empty(a.shape, dtype=object if wrap is NSym else bool)
            for i in _np.ndindex(a.shape):
                o[i] = wrap(f(_lift(a[i]), _lift(b[i]), True))
            if a.shape == ():
                return o[()]
            return o
        ta, tb = _lift(x), _lift(y)
        if ta is None or tb is None:
            raise TypeError("loop of ufunc does not support argument")
        return wrap(f(ta, tb, True))
    return g


def nparray(x, dtype=None, copy=None, **k):
    """np.asarray for symbolic contents: dtype object holding NSym"""
    if isinstance(x, _np.ndarray):
        if dtype in (bool, _np.bool_):
            return x.astype(bool)
        return x
    if isinstance(x, Sym):
        o = _np.empty((), dtype=object)
        o[()] = NSym(x.t)
        return o
    if isinstance(x, (bool, _np.bool_)) or (isinstance(x, (list, tuple)) and len(x)
                                              and all(isinstance(v, (bool, _np.bool_)) for v in x)):
        return _np.asarray(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (list, tuple, _np.ndarray)) for v in x):
            return _np.stack([nparray(v) for v in x])
        o = _np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            o[i] = NSym(_lift(v))
        return o
    t = _lift(x)
    if t is None:
        raise Unsupported(f"np.asarray({type(x).__name__})")
    o = _np.empty((), dtype=object)
    o[()] = NSym(t)
    return o


def _full(shape, v):
    o = _np.empty(shape, dtype=object)
    for i in _np.ndindex(o.shape):
        o[i] = v
    return o


def fake_numpy():
    m = types.ModuleType("numpy")
    names = dict(sin="sin", cos="cos", tan="tan", arcsin="asin", arccos="acos", arctan="atan",
                 sqrt="sqrt", log="log", exp="exp", arctanh="atanh", arcsinh="asinh", sinh="sinh",
                 cosh="cosh", degrees="degrees", rad2deg="degrees", radians="radians",
                 deg2rad="radians", cbrt="cbrt", asin="asin", acos="acos", atan="atan",
                 asinh="asinh", atanh="atanh")
    for k, v in names.items():
        setattr(m, k, _npmap1(UN[v]))
    m.abs = m.absolute = m.fabs = _npmap1(t_abs)
    m.sign = _npmap1(t_sign)
    m.square = _npmap1(t_square)
    m.floor = _npmap1(t_floor)
    m.arctan2 = m.atan2 = _npmap2(t2_atan2)
    m.hypot = _npmap2(t2_hypot)
    m.copysign = _npmap2(t2_copysign)
    m.fmod = _npmap2(t2_fmod)
    m.minimum = m.fmin = _npmap2(t2_minimum)
    m.maximum = m.fmax = _npmap2(t2_maximum)
    m.power = m.float_power = m.pow = _npmap2(t2_power)
    m.mod = m.remainder = lambda x, y: nparray(x) % y if isinstance(x, (list, tuple)) else _as_n(x) % y
    m.multiply = lambda x, y: _as_n(x) * _as_n(y)
    m.add = lambda x, y: _as_n(x) + _as_n(y)
    m.subtract = lambda x, y: _as_n(x) - _as_n(y)
    m.divide = m.true_divide = lambda x, y: _as_n(x) / _as_n(y)
    m.negative = lambda x: -_as_n(x)

    def isclose(a, b, rtol="1e-05", atol="1e-08", equal_nan=False):
        r = _lift(rtol).args[0] if isinstance(rtol, Sym) else Q(rtol)
        s = _lift(atol).args[0] if isinstance(atol, Sym) else Q(atol)
        f = lambda x, y, npf: _scalar_isclose(x, y, r, s, True)
        return _npmap2(f, _np.bool_)(a, b)
    m.isclose = isclose
    m.isnan = lambda x: _npb(x, lambda t: t.op == "nan")
    m.isinf = lambda x: _npb(x, tm._has_inf)
    m.isfinite = lambda x: _npb(x, lambda t: not (t.op == "nan" or tm._has_inf(t)))
    m.inf = Sym(tm.INF)
    m.nan = Sym(tm.NAN)
    m.pi = Sym(tm.PI)

    def linspace(a, b, num=50, **k):
        a, b = NSym(_lift(a)), NSym(_lift(b))
        if num == 1:
            return arr([a])
        return arr([a + (b - a) * Sym(tm.const(Q(i, num - 1))) for i in range(num)])
    m.linspace = linspace

    class _Finfo:
        eps = Sym(tm.const(Q(1, 2 ** 52)))
        tiny = Sym(tm.const(Q(1, 2 ** 1022)))
        max = Sym(tm.const(Q(2) ** 1023))
    m.finfo = lambda dt: _Finfo()
    m.empty_like = lambda a, **k: _full(_shape(a), NSym(tm.ZERO))
    m.zeros_like = m.empty_like
    m.ones_like = lambda a, **k: _full(_shape(a), NSym(tm.ONE))
    m.full_like = lambda a, v, **k: _full(_shape(a), NSym(_lift(v)))
    m.empty = m.zeros = lambda s, *a, **k: _full(s, NSym(tm.ZERO))
    m.ones = lambda s, *a, **k: _full(s, NSym(tm.ONE))
    m.full = lambda s, v, *a, **k: _full(s, NSym(_lift(v)))
    m.eye = m.identity = lambda n: nparray([[1 if i == j else 0 for i in range(n)] for j in range(n)])
    m.asarray = m.asanyarray = m.ascontiguousarray = nparray
    m.array = lambda x, *a, **k: nparray(x).copy()
    m.copy = lambda x: nparray(x).copy()

    def where(c, a=None, b=None):
        if a is None:
            return _np.where(c)
        if isinstance(c, (bool, _np.bool_)) and not isinstance(a, _np.ndarray) and not isinstance(b, _np.ndarray):
            return nparray(NSym(_lift(a if c else b)))
        return _np.where(c, nparray(a), nparray(b))
    m.where = where

    def atleast_1d(*xs):
        r = [nparray(x).reshape(-1) if nparray(x).ndim == 0 else nparray(x) for x in xs]
        return r[0] if len(r) == 1 else tuple(r)
    m.atleast_1d = atleast_1d

    def broadcast_arrays(*xs, **k):
        return [_np.array(a, dtype=object, copy=True) if a.dtype == object else a
                for a in _np.broadcast_arrays(*[nparray(x) for x in xs])]
    m.broadcast_arrays = broadcast_arrays
    for n in ("column_stack", "stack", "vstack", "hstack", "concatenate"):
        setattr(m, n, (lambda f: lambda xs, *a, **k: f([nparray(x) for x in xs], *a, **k))(getattr(_np, n)))
    for n in ("reshape", "ravel", "squeeze", "transpose", "sum", "cumsum", "moveaxis", "dot", "matmul",
              "inner", "outer", "cross", "einsum", "ndim", "shape", "size", "any", "all", "logical_and",
              "logical_or", "logical_not", "count_nonzero", "nonzero", "broadcast_to", "atleast_2d",
              "expand_dims", "tile", "repeat", "mean", "prod", "diff", "ndindex", "ndenumerate", "nditer",
              "broadcast_shapes", "arange", "array_equal", "iterable", "isscalar", "bitwise_and",
              "bitwise_or", "invert", "trace", "append", "take", "swapaxes", "roll", "flip"):
        setattr(m, n, _wrapreal(getattr(_np, n)))
    m.clip = lambda x, lo, hi, **k: m.minimum(m.maximum(x, lo), hi)
    m.ndarray = _np.ndarray
    m.float64 = m.double = m.floating = NSymType
    m.datetime64 = _np.datetime64
    m.newaxis = None
    m.bool_ = _np.bool_
    m.number = Sym
    m.integer = _np.integer

    class errstate(_Catch):
        pass
    m.errstate = errstate
    m.seterr = lambda **k: {}
    la = types.ModuleType("numpy.linalg")

    def norm(x, axis=None, **k):
        x = nparray(x)
        if axis is None:
            return m.sqrt((x * x).sum())
        return m.sqrt((x * x).sum(axis=axis))
    la.norm = norm
    m.linalg = la
    m.vectorize = lambda f, **k: (lambda *a: _vec(f, a))
    m.__version__ = _np.__version__
    return m


def _vec(f, a):
    bs = _np.broadcast_arrays(*[nparray(x) for x in a])
    o = _np.empty(bs[0].shape, dtype=object)
    for i in _np.ndindex(o.shape):
        o[i] = NSym(_lift(f(*[b[i] for b in bs])))
    return o[()] if o.shape == () else o


class _NSymMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, NSym)

    def __call__(cls, x=0):
        if isinstance(x, _np.ndarray):
            return x
        return NSym(_lift(x))


class NSymType(metaclass=_NSymMeta):
    pass


def _as_n(x):
    if isinstance(x, (_np.ndarray,)):
        return x
    if isinstance(x, (list, tuple)):
        return nparray(x)
    return NSym(_lift(x))


def _npb(x, f):
    if isinstance(x, _np.ndarray):
        o = _np.empty(x.shape, dtype=bool)
        for i in _np.ndindex(x.shape):
            o[i] = f(_lift(x[i]))
        return o if x.shape else o[()]
    t = _lift(x)
    if t is None:
        raise TypeError("ufunc not supported")
    return _np.bool_(f(t))


def _wrapreal(f):
    def g(*a, **k):
        a = [NSymArr0(x) if isinstance(x, Sym) else x for x in a]
        k.pop("dtype", None)
        r = f(*a, **k)
        return r
    return g


def NSymArr0(x):
    o = _np.empty((), dtype=object)
    o[()] = NSym(x.t)
    return o


def _shape(a):
    return a.shape if isinstance(a, (_np.ndarray, NSym)) else _np.shape(a) if isinstance(a, (list, tuple)) else ()
