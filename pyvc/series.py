"""Term calculus for the power-series contracts: derivative, and Taylor expansion in a small parameter.

The expansion of a term in a variable v about v = 0 is the list of its Taylor coefficients (again terms);
a contract states that a residual vanishes through an order, i.e. that each coefficient is zero, and the
prover decides every coefficient."""
from . import term as tm

Q = tm.Q
ZERO, ONE = tm.ZERO, tm.ONE


class NoSeries(Exception):
    pass


def diff(t, v, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    d = lambda x: diff(x, v, memo)
    if t is v:
        r = ONE
    elif t.op in ("c", "v") or t is tm.PI:
        r = ZERO
    elif t.op == "+":
        r = tm.add(*[tm.scale(d(x), k) for x, k in t.args[1]])
    elif t.op == "*":
        r = ZERO
        for i, (x, e) in enumerate(t.args):
            dx = d(x)
            if dx is ZERO:
                continue
            rest = [tm.power(y, f) for j, (y, f) in enumerate(t.args) if j != i]
            r = tm.add(r, tm.mul(tm.const(e), tm.power(x, e - 1), dx, *rest))
    elif t.op == "root":
        x, q = t.args
        dx = d(x)
        r = ZERO if dx is ZERO else tm.mul(tm.const(Q(1, q)), t, tm.power(x, -1), dx)
    elif t.op == "f":
        n, x = t.args[0], t.args[1]
        ds = [d(y) for y in t.args[1:]]
        if all(y is ZERO for y in ds):
            r = ZERO
        elif n == "sin":
            r = tm.mul(tm.fun("cos", x), ds[0])
        elif n == "cos":
            r = tm.neg(tm.mul(tm.fun("sin", x), ds[0]))
        elif n == "tan":
            r = tm.mul(tm.power(tm.fun("cos", x), -2), ds[0])
        elif n == "exp":
            r = tm.mul(t, ds[0])
        elif n == "log":
            r = tm.mul(tm.power(x, -1), ds[0])
        elif n == "atan":
            r = tm.mul(ds[0], tm.power(tm.add(ONE, tm.power(x, 2)), -1))
        elif n == "atan2":
            y, z = x, t.args[2]
            r = tm.mul(tm.sub(tm.mul(z, ds[0]), tm.mul(y, ds[1])), tm.power(tm.add(tm.power(y, 2), tm.power(z, 2)), -1))
        else:
            raise NoSeries(f"derivative of {n}")
    else:
        raise NoSeries(t.op)
    memo[t] = r
    return r


def smul(a, b):
    n = min(len(a), len(b))
    return [tm.add(*[tm.mul(a[i], b[k - i]) for i in range(k + 1) if a[i] is not ZERO and b[k - i] is not ZERO]) for k in range(n)]


def sadd(a, b):
    return [tm.add(p, q) for p, q in zip(a, b)]


def der(s):
    return [tm.scale(s[k], k) for k in range(1, len(s))]


def integ(c0, g):
    return [c0] + [tm.scale(g[k - 1], Q(1, k)) for k in range(1, len(g) + 1)]


def spow(s, p):
    """s**p for rational p (v > 0), by the recurrence k s0 c_k = sum (p j - k + j) s_j c_{k-j}"""
    low = next((i for i, c in enumerate(s) if c is not ZERO), None)
    if low is None:
        raise NoSeries("power of a series that vanishes to the order computed")
    sh = low * p
    if sh.denominator != 1 or sh < 0:
        raise NoSeries("pole or branch point at the expansion point")
    s = s[low:]
    c = [tm.power(s[0], int(p)) if p.denominator == 1 else tm.power(tm.root(s[0], p.denominator), int(p.numerator))]
    inv = tm.power(s[0], -1)
    for k in range(1, len(s)):
        acc = tm.add(*[tm.mul(tm.const(p * j - k + j), s[j], c[k - j]) for j in range(1, k + 1) if s[j] is not ZERO])
        c.append(tm.mul(acc, inv, tm.const(Q(1, k))))
    return [ZERO] * int(sh) + c


def expand(t, v, N):
    """Taylor coefficients 0..N of t in v at 0 (v > 0, small)"""
    for extra in (0, 2, 4, 8):
        r = _expand(t, v, N + extra)
        if len(r) > N:
            return r[:N + 1]
    raise NoSeries("order of the expansion cannot be reached")


def _expand(t, v, N):
    memo = {}
    cst = lambda x: [x] + [ZERO] * N

    def go(x):
        if x in memo:
            return memo[x]
        if x is v:
            r = [ZERO, ONE] + [ZERO] * (N - 1)
        elif x.op in ("c", "v") or x is tm.PI:
            r = cst(x)
        elif x.op == "+":
            r = cst(tm.const(x.args[0]))
            for y, k in x.args[1]:
                r = sadd(r, [tm.scale(q, k) for q in go(y)])
        elif x.op == "*":
            # numerator first, then one division: a removable pole stays removable
            num, den = cst(ONE), cst(ONE)
            for y, e in x.args:
                s = go(y)
                for _ in range(abs(e)):
                    if e < 0:
                        den = smul(den, s)
                    else:
                        num = smul(num, s)
            low = next((i for i, c in enumerate(den) if c is not ZERO), None)
            if low is None or any(c is not ZERO for c in num[:low]):
                raise NoSeries("pole at the expansion point")
            r = smul(num[low:], spow(den[low:], Q(-1)))
        elif x.op == "root":
            r = spow(go(x.args[0]), Q(1, x.args[1]))
        elif x.op == "f":
            n = x.args[0]
            ss = [go(y) for y in x.args[1:]]
            m = min(map(len, ss))
            ss = [s[:m] for s in ss]
            s = ss[0]
            z = [y[0] for y in ss]
            if all(c is ZERO for y in ss for c in y[1:]):
                r = [x] + [ZERO] * (m - 1)
            elif n in ("sin", "cos"):
                S, C = [tm.fun("sin", s[0])], [tm.fun("cos", s[0])]
                for k in range(1, m):
                    js = [j for j in range(1, k + 1) if s[j] is not ZERO]
                    S.append(tm.mul(tm.const(Q(1, k)), tm.add(*[tm.mul(tm.const(j), s[j], C[k - j]) for j in js])))
                    C.append(tm.mul(tm.const(Q(-1, k)), tm.add(*[tm.mul(tm.const(j), s[j], S[k - j]) for j in js])))
                r = S if n == "sin" else C
            elif n == "tan":
                r = go(tm.mul(tm.fun("sin", x.args[1]), tm.power(tm.fun("cos", x.args[1]), -1)))
            elif n == "exp":
                r = [tm.fun("exp", s[0])]
                for k in range(1, m):
                    r.append(tm.mul(tm.const(Q(1, k)), tm.add(*[tm.mul(tm.const(j), s[j], r[k - j]) for j in range(1, k + 1)])))
            elif n == "log":
                r = integ(tm.fun("log", *z), smul(der(s), spow(s, Q(-1))))
            elif n == "atan":
                r = integ(tm.fun("atan", *z), smul(der(s), spow(sadd(cst(ONE), smul(s, s)), Q(-1))))
            elif n == "asin":
                r = integ(tm.fun("asin", *z), smul(der(s), spow(sadd(cst(ONE), [tm.neg(c) for c in smul(s, s)]), Q(-1, 2))))
            elif n == "atan2":
                y, w = ss
                u = sadd(smul(w, der(y)), [tm.neg(c) for c in smul(y, der(w))])
                r = integ(x if False else tm.fun("atan2", *z), smul(u, spow(sadd(smul(y, y), smul(w, w)), Q(-1))))
            else:
                raise NoSeries(f"series of {n}")
        else:
            raise NoSeries(x.op)
        memo[x] = r
        return r
    return go(t)
