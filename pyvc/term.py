"""Hash-consed real-arithmetic terms.

Op codes (T.op):
  'c'    rational constant            args = (Fraction,)
  'pi'   the constant pi
  'v'    variable                     args = (name,)
  '+'    linear combination           args = (const Fraction, ((term, coef), ...))
  '*'    power product (no coef)      args = ((term, int exponent), ...)
  'root' x**(1/q)                     args = (x, q)
  'f'    named function               args = (name, arg1, ...)
  'nan', 'inf'                        poison values (nan / +infinity); -inf is -1*inf
"""
from __future__ import annotations
from fractions import Fraction as Q

_table: dict = {}
_ids = [0]


class T:
    __slots__ = ("op", "args", "id", "_h", "size")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _ids[0] += 1
        self.id = _ids[0]

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


def mk(op, *args) -> T:
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = _table[k] = T(op, args)
    return t


UNIT = [None]     # a positive variable (unit of length) that is factored out of homogeneous terms


def unit_exp(t):
    """t == UNIT**e * (something without an outer UNIT factor) -> e"""
    u = UNIT[0]
    if t is u:
        return 1
    if t.op == "*":
        for b, e in t.args:
            if b is u:
                return e
    if t.op == "+" and t.args[0] == 0 and len(t.args[1]) == 1:
        return unit_exp(t.args[1][0][0])
    return 0


def strip_unit(t):
    """t / UNIT**e and e"""
    if UNIT[0] is None:
        return t, 0
    e = unit_exp(t)
    return (mul(t, power(UNIT[0], -e)), e) if e else (t, 0)


def const(x) -> T:
    return mk("c", Q(x))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
PI = mk("pi")
NAN = mk("nan")
INF = mk("inf")


def var(name) -> T:
    return mk("v", name)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def is_poison(t):
    return t.op == "nan"


def _has_inf(t):
    return t is INF or (t.op == "+" and any(x is INF for x, _ in t.args[1]))


def add(*ts) -> T:
    c = Q(0)
    d: dict = {}
    for t in ts:
        if t.op == "nan":
            return NAN
        if t.op == "c":
            c += t.args[0]
        elif t.op == "+":
            c += t.args[0]
            for x, k in t.args[1]:
                d[x] = d.get(x, 0) + k
        else:
            d[t] = d.get(t, 0) + 1
    if INF in d:
        k = d[INF]
        if k == 0:
            return NAN
        return INF if k > 0 else mk("+", Q(0), ((INF, Q(-1)),))
    items = tuple(sorted(((x, k) for x, k in d.items() if k != 0), key=lambda p: p[0].id))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    if UNIT[0] is not None and c == 0 and len(items) > 1:
        es = {unit_exp(x) for x, _ in items}
        if len(es) == 1 and es != {0}:
            e = es.pop()
            i = power(UNIT[0], -e)
            return mul(power(UNIT[0], e), add(*[scale(mul(x, i), k) for x, k in items]))
    return mk("+", c, items)


def scale(t, k) -> T:
    k = Q(k)
    if t.op == "nan":
        return NAN
    if k == 0:
        return ZERO
    if k == 1:
        return t
    if t.op == "c":
        return const(t.args[0] * k)
    if t.op == "+":
        if _has_inf(t):
            s = t.args[1][0][1]
            return INF if s * k > 0 else mk("+", Q(0), ((INF, Q(-1)),))
        return mk("+", t.args[0] * k, tuple((x, c * k) for x, c in t.args[1]))
    if t is INF:
        return INF if k > 0 else mk("+", Q(0), ((INF, Q(-1)),))
    if UNIT[0] is not None and t.op == "*" and len(t.args) == 2:
        (b, e), (b2, e2) = t.args
        if b2 is UNIT[0]:
            b, e, b2, e2 = b2, e2, b, e
        if b is UNIT[0] and b2.op == "+" and e2 == 1:
            return mk("*", *sorted(((b, e), (scale(b2, k), 1)), key=lambda p: p[0].id))
    return mk("+", Q(0), ((t, k),))


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _split(t):
    """t -> (coef, {base: exp})"""
    if t.op == "c":
        return t.args[0], {}
    if t.op == "*":
        return Q(1), dict(t.args)
    if t.op == "+" and t.args[0] == 0 and len(t.args[1]) == 1:
        x, k = t.args[1][0]
        c, d = _split(x)
        return c * k, d
    return Q(1), {t: 1}


def mul(*ts) -> T:
    c = Q(1)
    d: dict = {}
    for t in ts:
        if t.op == "nan":
            return NAN
        k, m = _split(t)
        c *= k
        for b, e in m.items():
            d[b] = d.get(b, 0) + e
    if INF in d:
        rest = [b for b in d if b is not INF and b is not PI]
        if c == 0 or d[INF] < 0 and rest:
            return NAN
        if d[INF] < 0:
            return ZERO
        if not rest:
            return scale(INF, 1 if c > 0 else -1)
        return NAN
    if c == 0:
        return ZERO
    changed = True
    while changed:
        changed = False
        for b, e in list(d.items()):
            if b.op == "root" and abs(e) >= b.args[1]:
                q = b.args[1]
                n = int(e / q)          # truncation towards zero
                d[b] = e - n * q
                k, m = _split(power(b.args[0], n))
                c *= k
                for b2, e2 in m.items():
                    d[b2] = d.get(b2, 0) + e2
                changed = True
    items = tuple(sorted(((b, e) for b, e in d.items() if e != 0), key=lambda p: p[0].id))
    if not items:
        return const(c)
    if len(items) == 1 and items[0][1] == 1:
        return scale(items[0][0], c)
    return scale(mk("*", *items), c)


def power(t, n: int) -> T:
    if n == 0:
        return ONE
    if t.op == "nan":
        return NAN
    if n == 1:
        return t
    if t.op == "c":
        if t.args[0] == 0 and n < 0:
            return NAN
        return const(t.args[0] ** n)
    if _has_inf(t):
        return NAN
    k, m = _split(t)
    r = mk("*", *tuple(sorted(((b, e * n) for b, e in m.items()), key=lambda p: p[0].id)))
    if any(b.op == "root" for b in m):
        return mul(const(k ** n), r)
    return scale(r, k ** n)


def div(a, b) -> T:
    return mul(a, power(b, -1))


def _iroot(n, q):
    if n < 0:
        return None
    r = round(n ** (1.0 / q)) if n < 10 ** 15 else None
    if r is None:
        lo, hi = 0, 1
        while hi ** q <= n:
            hi *= 2
        while lo < hi - 1:
            m = (lo + hi) // 2
            if m ** q <= n:
                lo = m
            else:
                hi = m
        r = lo
    for k in (r - 1, r, r + 1):
        if k >= 0 and k ** q == n:
            return k
    return None


def root(t, q) -> T:
    if t.op == "nan":
        return NAN
    if t.op == "c":
        v = t.args[0]
        a, b = _iroot(v.numerator, q), _iroot(v.denominator, q)
        if a is not None and b is not None:
            return const(Q(a, b))
    if t is INF:
        return INF
    if UNIT[0] is not None:
        r, e = strip_unit(t)
        if e and e % q == 0:
            return mul(power(UNIT[0], e // q), root(r, q))
    return mk("root", t, q)


def sqrt(t):
    return root(t, 2)


# exact values of sin at multiples of pi/12 we recognise: k*pi/2 and pi/6, pi/4, pi/3 families
def _pi_multiple(t):
    """t == r*pi -> r else None"""
    if t.op == "c" and t.args[0] == 0:
        return Q(0)
    if t is PI:
        return Q(1)
    if t.op == "+" and t.args[0] == 0 and len(t.args[1]) == 1 and t.args[1][0][0] is PI:
        return t.args[1][0][1]
    return None


def _quadrants(a):
    """a == q*pi/2 + rest with an integer q -> (q, rest); q = 0 when the constant part is no multiple of pi/2"""
    if a.op != "+":
        items = ((a, Q(1)),)
    else:
        items = a.args[1]
    r, rest = Q(0), []
    for x, c in items:
        if x is PI:
            r += c
        elif x.op == "*" and len(x.args) == 2 and x.args[0][1] == 1 and x.args[1][1] == 1 and (x.args[0][0] is PI or x.args[1][0] is PI):
            s = x.args[1][0] if x.args[0][0] is PI else x.args[0][0]
            if s.op == "+" and s.args[0] and (2 * c * s.args[0]).denominator == 1:
                r += c * s.args[0]
                rest.append(scale(mul(PI, add(s, const(-s.args[0]))), c))
            else:
                rest.append(scale(x, c))
        else:
            rest.append(scale(x, c))
    if r == 0 or (2 * r).denominator != 1:
        return 0, a
    if a.op == "+" and a.args[0]:
        rest.append(const(a.args[0]))
    return int(2 * r), add(*rest)


def sin_pi(r):
    """sin(r*pi) as a term or None"""
    r = r % 2
    s = 1
    if r >= 1:
        r -= 1
        s = -1
    if r > Q(1, 2):
        r = 1 - r
    tab = {Q(0): ZERO, Q(1, 2): ONE, Q(1, 6): const(Q(1, 2))}
    if r in tab:
        return scale(tab[r], s)
    if r == Q(1, 4):
        return scale(mk("root", const(2), 2), Q(s, 2))
    if r == Q(1, 3):
        return scale(mk("root", const(3), 2), Q(s, 2))
    return None


def _leading_negative(t):
    if t.op == "c":
        return t.args[0] < 0
    if t.op == "+":
        if t.args[0] != 0:
            return t.args[0] < 0
        return t.args[1][0][1] < 0
    return False


ODD = {"sin", "tan", "asin", "atan", "asinh", "atanh", "sinh"}
EVEN = {"cos", "abs", "cosh"}


def fun(name, *args) -> T:
    if any(a.op == "nan" for a in args):
        return NAN
    a = args[0]
    if any(_has_inf(x) for x in args):
        if name == "abs":
            return INF
        if name == "exp":
            return INF if a is INF else ZERO
        if name == "atan":
            return scale(PI, Q(1, 2) if a is INF else Q(-1, 2))
        return NAN
    if name in ("sin", "cos", "tan"):
        r = _pi_multiple(a)
        if r is not None:
            if name == "sin":
                v = sin_pi(r)
                if v is not None:
                    return v
            elif name == "cos":
                v = sin_pi(r + Q(1, 2))
                if v is not None:
                    return v
            else:
                s, c = sin_pi(r), sin_pi(r + Q(1, 2))
                if s is not None and c is not None and c is not ZERO:
                    return div(s, c)
        q, a2 = _quadrants(a)
        if q:
            if name == "tan":
                return fun("tan", a2) if q % 2 == 0 else mk("f", name, a)
            k = (q + (name == "cos")) % 4
            return scale(fun("cos" if k % 2 else "sin", a2), -1 if k >= 2 else 1)
    if UNIT[0] is not None and name in ("abs", "atan2", "sign"):
        st = [strip_unit(x) for x in args]
        es = {e for x, e in st if x is not ZERO}
        if len(es) == 1 and es != {0}:
            v = fun(name, *[x for x, _ in st])
            return mul(v, power(UNIT[0], es.pop())) if name == "abs" else v
    if name == "abs" and a.op == "c":
        return const(abs(a.args[0]))
    if name == "abs" and (a is PI or a.op == "root"):
        return a
    if name == "abs" and a.op == "f" and a.args[0] == "abs":
        return a
    if a is ZERO and name in ("asin", "atan", "asinh", "atanh", "sinh", "log1p"):
        return ZERO
    if a is ZERO and name in ("exp", "cosh"):
        return ONE
    if name == "log" and a is ONE:
        return ZERO
    if name == "asin" and a is ONE:
        return scale(PI, Q(1, 2))
    if name == "acos" and a is ONE:
        return ZERO
    if name == "floor" and a.op == "c":
        import math
        return const(math.floor(a.args[0]))
    if name == "atan2":
        y, x = args
        if y.op == "c" and x.op == "c":
            p, q = y.args[0], x.args[0]
            if p == 0 and q != 0:
                return ZERO if q > 0 else PI
            if q == 0 and p != 0:
                return scale(PI, Q(1 if p > 0 else -1, 2))
            if abs(p) == abs(q) and p != 0:
                return scale(PI, Q((1 if q > 0 else 3) * (1 if p > 0 else -1), 4))
    if name in ODD and _leading_negative(a):
        return neg(fun(name, neg(a)))
    if name in EVEN and _leading_negative(a):
        return fun(name, neg(a))
    return mk("f", name, *args)


def mod(x, m):
    if x.op == "nan" or _has_inf(x):
        return NAN
    if x.op == "c" and m.op == "c":
        return const(x.args[0] % m.args[0])
    return mk("f", "mod", x, m)


def children(t):
    if t.op == "+":
        return [x for x, _ in t.args[1]]
    if t.op == "*":
        return [x for x, _ in t.args]
    if t.op == "root":
        return [t.args[0]]
    if t.op == "f":
        return list(t.args[1:])
    return []


def variables(ts):
    seen, out, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "v":
            out.add(t.args[0])
        st.extend(children(t))
    return out


def size(ts):
    seen, st = set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        st.extend(children(t))
    return len(seen)


def subst(t, env, memo=None):
    """replace variables (by name) / arbitrary subterms (by identity) with terms"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in env:
            r = env[t]
        elif t.op == "v":
            r = env.get(t.args[0], t)
        elif t.op in ("c", "pi", "nan", "inf"):
            r = t
        elif t.op == "+":
            r = add(const(t.args[0]), *[scale(go(x), k) for x, k in t.args[1]])
        elif t.op == "*":
            r = mul(*[power(go(x), e) for x, e in t.args])
        elif t.op == "root":
            r = root(go(t.args[0]), t.args[1])
        elif t.args[0] == "mod":
            r = mod(go(t.args[1]), go(t.args[2]))
        else:
            r = fun(t.args[0], *[go(x) for x in t.args[1:]])
        memo[t] = r
        return r
    import sys
    old = sys.getrecursionlimit()
    if old < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


def show(t, depth=12) -> str:
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "c":
        return str(t.args[0])
    if t.op in ("pi", "nan", "inf"):
        return t.op
    if t.op == "v":
        return t.args[0]
    if t.op == "+":
        s = [] if t.args[0] == 0 else [str(t.args[0])]
        for x, k in t.args[1]:
            s.append((("" if k == 1 else "-" if k == -1 else f"{k}*") + show(x, d)))
        return "(" + " + ".join(s) + ")"
    if t.op == "*":
        return "*".join(show(x, d) + ("" if e == 1 else f"**{e}") for x, e in t.args)
    if t.op == "root":
        return ("sqrt" if t.args[1] == 2 else f"root{t.args[1]}") + "(" + show(t.args[0], d) + ")"
    return t.args[0] + "(" + ", ".join(show(x, d) for x in t.args[1:]) + ")"


# ---------------------------------------------------------------- numeric evaluation
class Evaluator:
    """mpmath evaluation of terms at one assignment (dict name -> mpf)"""

    def __init__(self, env, mp):
        self.mp = mp
        self.env = env
        self.memo: dict = {}

    def __call__(self, t):
        m = self.memo
        r = m.get(t)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            todo = [c for c in children(x) if c not in m]
            if todo:
                st.extend(todo)
                continue
            m[x] = self._ev(x)
            st.pop()
        return m[t]

    def _ev(self, t):
        mp, m = self.mp, self.memo
        op = t.op
        if op == "c":
            return mp.mpf(t.args[0].numerator) / t.args[0].denominator
        if op == "pi":
            return +mp.pi
        if op == "nan":
            return mp.nan
        if op == "inf":
            return mp.inf
        if op == "v":
            return self.env[t.args[0]]
        if op == "+":
            s = mp.mpf(t.args[0].numerator) / t.args[0].denominator
            for x, k in t.args[1]:
                s += m[x] * k.numerator / k.denominator
            return s
        if op == "*":
            s = mp.mpf(1)
            for x, e in t.args:
                v = m[x]
                if e < 0 and abs(v) < mp.mpf(10) ** (-mp.dps + 8):
                    return mp.nan
                s *= v ** e
            return s
        tiny = mp.mpf(10) ** (-mp.dps + 8)
        if op == "root":
            v = m[t.args[0]]
            if v < 0:
                if v > -tiny:
                    return mp.mpf(0)
                return mp.nan
            return mp.root(v, t.args[1]) if t.args[1] != 2 else mp.sqrt(v)
        name = t.args[0]
        a = [m[x] for x in t.args[1:]]
        if any(mp.isnan(x) for x in a):
            return mp.nan
        if name == "atan2":
            y, x = a
            if abs(y) < tiny:
                y = mp.mpf(0)
            if abs(x) < tiny:
                x = mp.mpf(0)
            return mp.atan2(y, x)
        if name in ("asin", "acos"):
            v = a[0]
            if abs(v) > 1:
                if abs(v) > 1 + tiny:
                    return mp.nan
                v = mp.mpf(1 if v > 0 else -1)
            return getattr(mp, name)(v)
        if name == "atanh":
            return mp.atanh(a[0]) if abs(a[0]) < 1 else mp.nan
        if name == "abs":
            return abs(a[0])
        if name == "floor":
            v = a[0]
            n = mp.nint(v)
            if abs(v - n) < tiny:
                return n
            return mp.floor(v)
        if name == "mod":
            q = a[0] / a[1]
            n = mp.nint(q)
            if abs(q - n) < tiny:
                return mp.mpf(0)
            return a[0] - a[1] * mp.floor(q)
        if name == "log":
            return mp.log(a[0]) if a[0] > 0 else mp.nan
        if name.startswith("uf:"):
            return self.env[("uf", t)] if ("uf", t) in self.env else mp.nan
        return getattr(mp, name)(*a)
