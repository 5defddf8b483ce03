"""Discharging obligations: path facts |= goal, in exact real arithmetic."""
from __future__ import annotations
import ctypes
import signal
import sys
import time
from fractions import Fraction as Q

from . import algebra as al
from . import smt
from . import term as tm

import mpmath as _mpm

MPX = _mpm.mp
STATS = {"entail_calls": 0, "eq_calls": 0, "tactics": {}}


class Timeout(BaseException):
    pass


def _quiet(u, _old=sys.unraisablehook):
    if not (isinstance(u.exc_value, Timeout) or "Timeout" in str(u.exc_value)):
        _old(u)


sys.unraisablehook = _quiet


class limit:
    """wall-clock limit for a block (main thread of a worker process); nests"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.old = signal.getsignal(signal.SIGALRM)
        self.t0 = time.time()

        def h(*a):
            raise Timeout()
        self.prev = signal.getitimer(signal.ITIMER_REAL)[0]
        signal.signal(signal.SIGALRM, h)
        s = self.s if not self.prev else min(self.s, self.prev)
        signal.setitimer(signal.ITIMER_REAL, max(s, 0.01), 0.5)   # repeats: a finaliser may swallow one

    def __exit__(self, et, ev, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.prev:
            left = self.prev - (time.time() - self.t0)
            signal.setitimer(signal.ITIMER_REAL, max(left, 0.01), 0.5)
        if et is not None and issubclass(et, ctypes.ArgumentError) and "Timeout" in str(ev):
            raise Timeout() from None      # the alarm interrupted a call into the solver library
        return False


ERR = (al.TooBig, ZeroDivisionError, RecursionError, OverflowError, KeyError)


# ---------------------------------------------------------------- interval bounds (multiples of pi)
class B:
    """bounds  lo <=(<) t <=(<) hi  as pairs (rational r, rational p) meaning r + p*pi"""
    PIV = Q("3.141592653589793238462643383279502884197")


def _val(x):
    return float(x[0]) + float(x[1]) * 3.141592653589793


def lin_key(items):
    """(sum scaled to leading coefficient 1, the leading coefficient)"""
    k = items[0][1]
    return tm.add(*[tm.scale(x, c / k) for x, c in items]), k


def fact_bounds(facts):
    """variable/term bounds read off single-term facts"""
    d: dict = {}
    for rel, t in facts:
        if rel not in ("<", "<=", "=="):
            continue
        # c0 + sum k*x  rel 0 with exactly one non-pi term
        if t.op == "+":
            c, items = t.args[0], t.args[1]
        else:
            c, items = Q(0), ((t, Q(1)),)
        pis = [(x, k) for x, k in items if x is tm.PI]
        oth = [(x, k) for x, k in items if x is not tm.PI]
        if not oth:
            continue
        if len(oth) > 1:
            x, k = lin_key(oth)
        else:
            x, k = oth[0]
        p = pis[0][1] if pis else Q(0)
        # some facts carry a pi factor: pi*x*k + p*pi  (angles in degrees)
        b = (-c / k, -p / k)
        lo, los, hi, his = d.get(x, (None, False, None, False))
        st = rel == "<"
        if rel == "==":
            lo = hi = b
            los = his = False
        elif k > 0:
            if hi is None or _val(b) < _val(hi) or (b == hi and st):
                hi, his = b, st
        else:
            if lo is None or _val(b) > _val(lo) or (b == lo and st):
                lo, los = b, st
        d[x] = (lo, los, hi, his)
    # pi*x bounds from x bounds (rational bounds only)
    for x, (lo, los, hi, his) in list(d.items()):
        y = tm.mul(x, tm.PI)
        if y.op == "*" and y not in d:
            l2 = (Q(0), lo[0]) if lo is not None and lo[1] == 0 else None
            h2 = (Q(0), hi[0]) if hi is not None and hi[1] == 0 else None
            if l2 or h2:
                d[y] = (l2, los, h2, his)
        y = tm.mul(x, tm.power(tm.PI, -1))
        if y.op == "*" and y not in d:
            l2 = (lo[1], Q(0)) if lo is not None and lo[0] == 0 else None
            h2 = (hi[1], Q(0)) if hi is not None and hi[0] == 0 else None
            if l2 or h2:
                d[y] = (l2, los, h2, his)
    return d


HALF = Q(1, 2)


def bounds(t, fb, depth=0):
    """(lo, lo_strict, hi, hi_strict)"""
    r = _bounds(t, fb, depth)
    q = fb.get(t)
    if q is not None:
        lo, ls, hi, hs = r
        if q[0] is not None and (lo is None or _val(q[0]) > _val(lo) or (q[0] == lo and q[1])):
            lo, ls = q[0], q[1]
        if q[2] is not None and (hi is None or _val(q[2]) < _val(hi) or (q[2] == hi and q[3])):
            hi, hs = q[2], q[3]
        r = (lo, ls, hi, hs)
    return r


def _bounds(t, fb, depth=0):
    none = (None, False, None, False)
    if depth > 60:
        return none
    if t.op == "c":
        v = (t.args[0], Q(0))
        return v, False, v, False
    if t is tm.PI:
        v = (Q(0), Q(1))
        return v, False, v, False
    if t.op == "+":
        lo, hi, ls, hs = (t.args[0], Q(0)), (t.args[0], Q(0)), False, False
        for x, k in t.args[1]:
            l, l_s, h, h_s = bounds(x, fb, depth + 1)
            if k < 0:
                l, l_s, h, h_s = h, h_s, l, l_s
            if lo is not None:
                lo = None if l is None else (lo[0] + k * l[0], lo[1] + k * l[1])
            if hi is not None:
                hi = None if h is None else (hi[0] + k * h[0], hi[1] + k * h[1])
            ls |= l_s
            hs |= h_s
        oth = [(x, k) for x, k in t.args[1] if x is not tm.PI]
        if len(oth) > 1:
            y, k = lin_key(oth)
            q = fb.get(y)
            if q is not None:
                pk = sum((c for x, c in t.args[1] if x is tm.PI), Q(0))
                l, l_s, h, h_s = q if k > 0 else (q[2], q[3], q[0], q[1])
                l, h = (None if b is None else (t.args[0] + k * b[0], pk + k * b[1]) for b in (l, h))
                if l is not None and (lo is None or _val(l) > _val(lo) or (l == lo and l_s)):
                    lo, ls = l, l_s
                if h is not None and (hi is None or _val(h) < _val(hi) or (h == hi and h_s)):
                    hi, hs = h, h_s
        return lo, ls, hi, hs
    if t.op == "f":
        n = t.args[0]
        if n in ("atan", "asin"):
            l, ls, h, hs = (Q(0), -HALF), n == "atan", (Q(0), HALF), n == "atan"
            if nonneg(t.args[1], fb, depth + 1):
                l, ls = (Q(0), Q(0)), False
            elif nonneg(tm.neg(t.args[1]), fb, depth + 1):
                h, hs = (Q(0), Q(0)), False
            return l, ls, h, hs
        if n == "acos":
            l, ls, h, hs = bounds(t.args[1], fb, depth + 1)
            up = h is not None and (_val(h) < 1 - 1e-12 or (h == (1, 0) and hs))
            dn = l is not None and (_val(l) > -1 + 1e-12 or (l == (-1, 0) and ls))
            return (Q(0), Q(0)), up, (Q(0), Q(1)), dn
        if n == "atan2":
            y, x = t.args[1], t.args[2]
            if nonneg(x, fb) and nonneg(y, fb):
                return (Q(0), Q(0)), False, (Q(0), HALF), False
            if nonneg(x, fb):
                return (Q(0), -HALF), False, (Q(0), HALF), False
            if nonneg(y, fb):
                return (Q(0), Q(0)), False, (Q(0), Q(1)), False
            return (Q(0), Q(-1)), True, (Q(0), Q(1)), False
        if n == "mod":
            m = t.args[2]
            if m.op == "c" and m.args[0] > 0:
                return (Q(0), Q(0)), False, (m.args[0], Q(0)), True
            r = tm._pi_multiple(m)
            if r is not None and r > 0:
                return (Q(0), Q(0)), False, (Q(0), r), True
        if n in ("sin", "cos"):
            l, ls, h, hs = bounds(t.args[1], fb, depth + 1)
            p, q = ((0, 0), (0, 1)) if n == "sin" else ((0, -HALF), (0, HALF))
            if l is not None and h is not None and (l == p or _val(l) > _val(p) + 1e-15) and (h == q or _val(h) < _val(q) - 1e-15):
                one = n == "cos" and ((l == (0, 0) and ls) or _val(l) > 1e-15 or (h == (0, 0) and hs) or _val(h) < -1e-15)
                return (Q(0), Q(0)), (ls or l != p) and (hs or h != q), (Q(1), Q(0)), one
            if n == "cos" and l is not None and h is not None:
                up = ((l == (0, 0) and ls) or _val(l) > 1e-15) and ((h == (0, 2) and hs) or _val(h) < 6.28318)
                dn = ((l == (0, -1) and ls) or _val(l) > -3.14159) and ((h == (0, 1) and hs) or _val(h) < 3.14159)
                return (Q(-1), Q(0)), dn, (Q(1), Q(0)), up
            return (Q(-1), Q(0)), False, (Q(1), Q(0)), False
        if n == "abs":
            l, ls, h, hs = bounds(t.args[1], fb, depth + 1)
            if l is not None and h is not None:
                a = l if _val((-l[0], -l[1])) > _val(h) else None
                top = (-l[0], -l[1]) if a is not None else h
                return (Q(0), Q(0)), False, top, (ls if a is not None else hs)
            return (Q(0), Q(0)), False, None, False
    if t.op == "*":
        # x * pi**-1 with x bounded by multiples of pi, or x * pi with rational bounds
        f = dict(t.args)
        e = f.get(tm.PI)
        if e in (1, -1):
            x = tm.mul(t, tm.power(tm.PI, -e))
            l, ls, h, hs = bounds(x, fb, depth + 1)
            cv = (lambda b: None if b is None else ((Q(0), b[0]) if b[1] == 0 else None)) if e == 1 else \
                 (lambda b: None if b is None else ((b[1], Q(0)) if b[0] == 0 else None))
            l, ls, h, hs = cv(l), ls, cv(h), hs
            if l is not None and h is not None:
                return l, ls, h, hs
        # products of bounded factors (rational bounds)
        lo, hi = (Q(1), Q(0)), (Q(1), Q(0))
        for x, k in t.args:
            if x is tm.PI:
                lo = hi = None
                break
            l, _, h, _ = bounds(x, fb, depth + 1)
            if l is None or h is None or l[1] or h[1] or k < 0:
                lo = hi = None
                break
            for _ in range(k // 2):
                a, b = l[0], h[0]
                m = max(a * a, b * b)
                z = Q(0) if a <= 0 <= b else min(a * a, b * b)
                c = [lo[0] * z, lo[0] * m, hi[0] * z, hi[0] * m]
                lo, hi = (min(c), Q(0)), (max(c), Q(0))
            if k % 2:
                c = [u * v for u in (lo[0], hi[0]) for v in (l[0], h[0])]
                lo, hi = (min(c), Q(0)), (max(c), Q(0))
        if lo is None or _val(lo) < 0:
            if all(e % 2 == 0 or x is tm.PI or nonneg(x, fb, depth + 1) for x, e in t.args):
                lo = (Q(0), Q(0))
        return lo, False, hi, False
    if t.op == "root":
        l, ls, h, hs = bounds(t.args[0], fb, depth + 1)
        hi = None
        if h is not None and not h[1] and h[0] in (0, 1):
            hi = h
        return (Q(0), Q(0)), False, hi, False
    return none


def nonneg(t, fb, depth=1):
    if t.op == "root":
        return True
    l, _, _, _ = bounds(t, fb, depth + 1)
    return l is not None and _val(l) >= 0


def strip_common(a, b):
    """divide both sides by their common multiplicative factors (sufficient for equality)"""
    fa = dict(a.args) if a.op == "*" else {a: 1}
    fb = dict(b.args) if b.op == "*" else {b: 1}
    com = {x: min(e, fb[x]) for x, e in fa.items() if x in fb and e > 0 and fb[x] > 0}
    if not com:
        return None, None
    f = [tm.power(x, -e) for x, e in com.items()]
    return tm.mul(a, *f), tm.mul(b, *f)


def zero_squares(facts):
    """x^2 + y^2 + ... == 0 (or <= 0) entails x == 0, y == 0, ...  : the facts with these consequences added"""
    out = list(facts)
    for rel, t in facts:
        if rel not in ("==", "<=") or t.op != "+" or len(t.args[1]) < 2:
            continue
        c, ks = t.args
        for s in (1, -1):
            if c * s < 0 or (rel == "<=" and s < 0):
                continue
            if all(k * s > 0 and x.op == "*" and all(e % 2 == 0 and e > 0 for _, e in x.args) for x, k in ks):
                for x, _ in ks:
                    z = ("==", tm.mul(*[tm.power(b, e // 2) for b, e in x.args]))
                    if z not in out:
                        out.append(z)
    return out


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += tm.children(x)
    return seen


def integral(t):
    """certainly an integer"""
    if t.op == "c":
        return t.args[0].denominator == 1
    if t.op == "f":
        return t.args[0] == "floor" or (t.args[0] == "mod" and integral(t.args[1]) and integral(t.args[2]))
    if t.op == "+":
        return t.args[0].denominator == 1 and all(c.denominator == 1 and integral(x) for x, c in t.args[1])
    return False


class Prover:
    def __init__(self, samples_fn=None, timeout=3000, seed=1):
        self.samples_fn = samples_fn or (lambda: [])
        self.timeout = timeout
        self.units: dict = {}
        self.rings: dict = {}
        self.fbs: dict = {}

    # ---- rings per fact set
    def ring(self, facts, variant=0):
        key = (frozenset(facts), variant)
        r = self.rings.get(key)
        if r is None:
            if len(self.rings) > 60:
                self.rings.clear()
            r = al.Ring(self.units, self.samples_fn(), list(facts), self.timeout)
            self.rings[key] = r
        return r

    def with_ring(self, facts, fn, variant=0):
        for _ in range(40):
            r = self.ring(facts, variant)
            try:
                return fn(r)
            except al.Restart:
                self.rings.clear()
        raise al.TooBig("units")

    def fb(self, facts):
        k = frozenset(facts)
        if k not in self.fbs:
            self.fbs[k] = fact_bounds(facts)
        return self.fbs[k]

    # ---- interval check of  t rel 0
    def interval(self, facts, rel, t):
        if rel != "==" and (t.op == "*" or t.op == "+" and t.args[0] == 0 and len(t.args[1]) == 1 and t.args[1][0][0].op == "*"):
            # sign of a product of atoms of known sign
            k, m = tm._split(t)
            sg = 1 if k > 0 else -1
            for b, e in m.items():
                if self.interval(facts, "<", tm.neg(b)):
                    continue
                if self.interval(facts, "<", b):
                    sg *= 1 if e % 2 == 0 else -1
                elif (rel == "!=" or rel == "<" and e % 2 == 0) and self.interval(facts, "!=", b):
                    pass
                else:
                    break
            else:
                if rel == "!=" or sg < 0:
                    return True
        lo, ls, hi, hs = bounds(t, self.fb(facts))
        if rel in ("<", "<="):
            if hi is None:
                return False
            v = _val(hi)
            if v < -1e-12:
                return True
            if hi == (0, 0):
                return rel == "<=" or hs
            return False
        if rel == "!=":
            return (hi is not None and (_val(hi) < -1e-12 or (hi == (0, 0) and hs))) or \
                   (lo is not None and (_val(lo) > 1e-12 or (lo == (0, 0) and ls)))
        return False

    def entails(self, facts, lit, cheap=False):
        STATS["entail_calls"] += 1
        rel, t = lit
        if lit in facts:
            return True
        try:
            if self.interval(facts, rel, t):
                return True
        except ERR:
            pass
        if rel == "!=" and t.op == "root":
            X = t.args[0]
            return self.entails(facts, ("<", tm.neg(X)), cheap) or self.entails(facts, ("!=", X), cheap)
        if rel == "!=" and (("<", t) in facts or ("<", tm.neg(t)) in facts):
            return True
        r = self.root_literal(rel, t)
        if r is not None:
            return r if isinstance(r, bool) else self.entails(facts, r, cheap)
        try:
            return bool(self.with_ring(facts, lambda R: self._entails(R, rel, t, cheap)))
        except ERR:
            return False

    def root_literal(self, rel, t):
        """c + k*root(X,q) rel 0  ->  equivalent literal on X (root >= 0), or a truth value"""
        if rel == "<" and t.op == "+" and t.args[0] == 0 and len(t.args[1]) == 1:
            (x, k), = t.args[1]
            if x.op == "root" and k < 0:
                return "<", tm.neg(x.args[0])
        if rel not in ("<", "<=") or t.op != "+" or len(t.args[1]) != 1:
            return None
        c, ((x, k),) = t.args
        if x.op != "root" or c == 0 or x.args[1] % 2:
            return None
        v = -c / k
        X = tm.sub(x.args[0], tm.power(tm.const(v), x.args[1]))
        if k > 0:
            return False if v < 0 else (rel, X)
        return True if v < 0 else (rel, tm.neg(X))

    def _entails(self, R, rel, t, cheap):
        R.ensure_facts()
        r = R.nf(t)
        p = r.num
        if rel == "==":
            if not p:
                return True
            if cheap:
                return False
            R.ensure_facts()
            if any(q[0] == "==" for q in R.fact_polys):
                return self.zero_with_eqs(R.fact_terms, t)
            return False
        if not p:
            return rel == "<="
        if rel in ("<", "<=", "!="):
            m0 = min(p)
            for fr, ft in R.fact_terms:
                if fr not in ("<", rel):
                    continue
                try:
                    x = R.nf(ft)
                except ERR:
                    continue
                if len(x.num) == len(p) and m0 in x.num and x.den == r.den:
                    k = p[m0] / x.num[m0]
                    if (k > 0 or rel == "!=") and all(p.get(m) == c * k for m, c in x.num.items()):
                        return True
        s = R.poly_sign(p, use_smt=not cheap)
        for k, e in r.den:
            if e % 2:
                sd = R.poly_sign(R.key_poly(k), use_smt=not cheap)
                if sd == 0:
                    s = 0
                    break
                s = (1 if (s > 0) == (sd > 0) else -1) * abs(s)
        if rel == "<" and s == -2 or rel == "<=" and s < 0 or rel == "!=" and abs(s) == 2:
            return True
        if rel == "!=":
            for q in R.fact_polys:
                if q[0] == "!=" and len(q[1]) == len(p):
                    m = min(q[1])
                    if m in p:
                        k = p[m] / q[1][m]
                        if all(p.get(mm) == c * k for mm, c in q[1].items()):
                            return True
            if self._factor_nonzero(R, p):
                return True
        if cheap or s:
            if not s or cheap:
                return False
        if rel == "!=" and not cheap:
            return smt.entails_poly(R, "!=", p, timeout=self.timeout)
        if not cheap and (s == 0 or rel == "<" and s == -1):
            q = p
            sg = 1
            for k, e in r.den:
                if e % 2:
                    q = R.pmul(q, R.key_poly(k))
            return smt.entails_poly(R, rel, q, timeout=self.timeout)
        return False

    def _factor_nonzero(self, R, p):
        """single monomial whose generators are all known nonzero"""
        if len(p) != 1:
            return False
        (m, _), = p.items()
        nz = set()
        for q in R.fact_polys:
            if q[0] in ("!=", "<") and len(q[1]) == 1:
                (mm, _c), = q[1].items()
                for g, e in mm:
                    nz.add(g)
        return all(abs(R.gens[g].pos) == 2 or g in nz for g, e in m)

    def infeasible(self, facts):
        """are the facts contradictory?"""
        facts = list(facts)
        for i, (rel, t) in enumerate(facts):
            rest = facts[:i] + facts[i + 1:]
            n = {"<": ("<=", tm.neg(t)), "<=": ("<", tm.neg(t)), "==": ("!=", t), "!=": ("==", t)}[rel]
            if i >= len(facts) - 8 and self.interval(rest, *n):
                return True
        # contradiction through equalities
        try:
            def chk(R):
                R.use_equalities()
                for rel, t in facts:
                    r = R.nf(t)
                    if rel == "!=" and not r.num:
                        return True
                    if rel == "<" and not r.num:
                        return True
                    if rel in ("<", "<="):
                        s = R.poly_sign(r.num, use_smt=False)
                        for k, e in r.den:
                            if e % 2:
                                sd = R.struct_sign(R.key_poly(k))
                                s = s if sd > 0 else -s if sd < 0 else 0
                        if s == 2:
                            return True
                    if rel == "==" and set(r.num) == {()}:
                        return True
                return False
            if self.with_ring(facts, chk, variant="inf"):
                return True
        except ERR:
            pass
        try:
            def chk2(R):
                R.ensure_facts()
                return smt.entails_poly(R, "<", {(): Q(1)}, timeout=self.timeout, backend="z3")
            # entails_poly picks facts by shared generators: seed with all of them
            def chk3(R):
                R.ensure_facts()
                return smt.inconsistent(R, timeout=self.timeout)
            return bool(self.with_ring(facts, chk3))
        except ERR:
            return False

    # ---- equalities
    def zero_with_eqs(self, facts, t):
        def f(R):
            if not R.use_equalities() and getattr(R, "_eqdone", False):
                pass
            R._eqdone = True
            p = R.nf(t).num
            return not p or not self._divide(R, p)
        try:
            return bool(self.with_ring(list(facts), f, variant="eq"))
        except ERR:
            return False

    def _divide(self, R, p):
        """polynomial division of p by the equality facts (leading monomial = highest degree)"""
        eqs = []
        for rel, q, _ in R.fact_polys:
            if rel == "==":
                q = R.reduce(q)
                if q and len(q) < 40:
                    m = max(q, key=lambda m: (sum(e for _, e in m), m))
                    if m:
                        eqs.append((dict(m), q[m], {k: -c for k, c in q.items() if k != m}))
        steps = 0
        while p and eqs and steps < 200:
            hit = False
            for lead, c0, rest in eqs:
                for m, c in p.items():
                    d = dict(m)
                    if all(d.get(g, 0) >= e for g, e in lead.items()):
                        for g, e in lead.items():
                            d[g] -= e
                        cof = {tuple(sorted((g, e) for g, e in d.items() if e)): c / c0}
                        p = {k: v for k, v in p.items() if k != m}
                        p = R.reduce(al.padd(p, R.pmul(rest, cof)))
                        steps += 1
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return p
        return p

    def turns(self, facts, ts):
        """the mod / floor subterms of ts whose integer part the facts' interval bounds decide -> {term: value}"""
        out, seen, st = {}, set(), list(ts)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            st += tm.children(t)
            if t.op != "f" or t.args[0] not in ("mod", "floor"):
                continue
            x, m = t.args[1], t.args[2] if t.args[0] == "mod" else tm.ONE
            mv = _val((m.args[0], 0)) if m.op == "c" else _val((0, tm._pi_multiple(m) or 0))
            if mv <= 0:
                continue
            lo, _, hi, _ = bounds(x, self.fb(facts))
            if lo is None or hi is None or _val(hi) - _val(lo) > 1.001 * mv:
                continue
            c0 = round(_val(lo) / mv)
            for c in (c0, c0 - 1):
                if self.interval(facts, "<=", tm.sub(tm.scale(m, c), x)) and self.interval(facts, "<", tm.sub(x, tm.scale(m, c + 1))):
                    out[t] = tm.sub(x, tm.scale(m, c)) if t.args[0] == "mod" else tm.const(c)
                    break
        return out

    def circle(self, facts, ts):
        """ts with whole turns removed from the arguments of sin and cos: mod and integer parts by congruence and the facts"""
        res = {}
        for rel, t in facts:
            u = t
            c0 = Q(0)
            if u.op == "+" and len(u.args[1]) == 1:
                c0, (u, k) = u.args[0], u.args[1][0]
                c0 = -c0 / k
            if u.op == "f" and u.args[0] == "mod" and u.args[2].op == "c" and integral(u.args[1]) and u.args[2].args[0].denominator == 1:
                x, m = u.args[1], int(u.args[2].args[0])
            elif integral(u):
                x, m = u, 0
            else:
                continue
            if rel == "==":
                res.setdefault(x, {})[m] = {c0}
            elif rel == "!=" and 0 < m <= 12:
                d = res.setdefault(x, {})
                d[m] = d.get(m, set(map(Q, range(m)))) - {c0}

        def residue(x, c):
            for m, vals in res.get(x, {}).items():
                if len(vals) == 1 and (m == 0 or (c * m / 2).denominator == 1):
                    return next(iter(vals))
            return None

        def lin(t, k, acc):
            """acc[atom] += coefficient, in half turns; acc[None] constant"""
            if t.op == "c":
                acc[None] = acc.get(None, 0) + k * t.args[0]
            elif t.op == "+":
                acc[None] = acc.get(None, 0) + k * t.args[0]
                for x, c in t.args[1]:
                    lin(x, k * c, acc)
            elif t.op == "f" and t.args[0] == "mod" and t.args[2].op == "c" and (k * t.args[2].args[0] / 2).denominator == 1:
                lin(t.args[1], k, acc)
            else:
                acc[t] = acc.get(t, 0) + k

        def reduce(u):
            acc, other = {}, []
            for x, c in (u.args[1] if u.op == "+" else ((u, Q(1)),)):
                if x is tm.PI:
                    acc[None] = acc.get(None, 0) + c
                elif x.op == "*" and len(x.args) == 2 and (tm.PI, 1) in x.args and all(e == 1 for _, e in x.args):
                    lin(next(b for b, _ in x.args if b is not tm.PI), Q(c), acc)
                else:
                    other.append(tm.scale(x, c))
            if u.op == "+" and u.args[0]:
                other.append(tm.const(u.args[0]))
            k0 = acc.pop(None, Q(0))
            terms = []
            for x, c in acc.items():
                if integral(x):
                    if (c / 2).denominator == 1:
                        continue
                    r = residue(x, c)
                    if r is not None:
                        k0 += c * r
                        continue
                terms.append(tm.scale(x, c))
            q = round(k0 * 2)
            return q % 4, tm.add(tm.mul(tm.PI, tm.add(*terms, tm.const(k0 - Q(q, 2)))), *other)

        env, seen, st = {}, set(), list(ts)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            st += tm.children(t)
            if t.op == "f" and t.args[0] in ("sin", "cos") and any(x.op == "f" and x.args[0] == "floor" for x in subterms(t.args[1])):
                q, u = reduce(t.args[1])
                q = (q + (1 if t.args[0] == "cos" else 0)) % 4
                env[t] = tm.scale(tm.fun("cos" if q % 2 else "sin", u), -1 if q >= 2 else 1)
        return [tm.subst(t, env) for t in ts] if env else list(ts)

    def prove_eq(self, facts, a, b, budget=25):
        """-> tactic name or None"""
        if a is not b:
            try:
                a, b = self.circle(facts, [a, b])
                if a is not b:
                    tf = [i for i, (r, t) in enumerate(facts) if r == "==" and any(x.op == "f" and x.args[0] == "floor" for x in subterms(t))]
                    facts = list(facts) + [("==", t) for t in self.circle(facts, [facts[i][1] for i in tf])]
            except (RecursionError, *ERR):
                pass
        if a is not b:
            try:
                env = self.turns(facts, [a, b])
                if env:
                    facts = list(facts)
                    a, b = tm.subst(a, env), tm.subst(b, env)
            except (RecursionError, *ERR):
                pass
        STATS["eq_calls"] += 1
        if a is b:
            return self._ok("identical")
        if a.op in ("nan", "inf") or b.op in ("nan", "inf"):
            return None
        d = tm.sub(a, b)
        try:
            with limit(budget):
                try:
                    with limit(budget * 0.5):
                        if self.congruent(list(facts), a, b):
                            return self._ok("trig-congruence")
                except Timeout:
                    self.rings.clear()
                a2, b2 = strip_common(a, b)
                if a2 is not None:
                    try:
                        with limit(budget * 0.5):
                            r = self._prove_zero(list(facts), a2, b2, tm.sub(a2, b2), 0)
                        if r:
                            return r
                    except Timeout:
                        self.rings.clear()
                return self._prove_zero(list(facts), a, b, d, 0)
        except (Timeout, RecursionError):
            self.rings.clear()
            return None

    # ---- congruence of trigonometric arguments
    def unmod(self, t):
        """the same angle modulo 2 pi with mod(x, m) replaced by x wherever its coefficient makes m a multiple of 2 pi"""
        if t.op == "f" and t.args[0] == "mod":
            k = tm.mul(t.args[2], tm.power(tm.scale(tm.PI, 2), -1))
            if k.op == "c" and k.args[0].denominator == 1:
                return self.unmod(t.args[1])
            return t
        items = t.args[1] if t.op == "+" else ((t, Q(1)),) if t.op == "*" else ()
        out, hit = [tm.const(t.args[0])] if t.op == "+" else [], False
        for x, c in items:
            y = None
            fs = x.args if x.op == "*" else ((x, 1),)
            for i, (f, e) in enumerate(fs):
                if e == 1 and f.op == "f" and f.args[0] == "mod":
                    rest = tm.scale(tm.mul(*[tm.power(g, n) for j, (g, n) in enumerate(fs) if j != i]) if len(fs) > 1 else tm.ONE, c)
                    k = tm.mul(rest, f.args[2], tm.power(tm.scale(tm.PI, 2), -1))
                    if k.op == "c" and k.args[0].denominator == 1:
                        y = self._expand_mul(f.args[1], rest)
                        break
            if y is not None:
                hit = True
                out.append(self.unmod(y))
            else:
                out.append(tm.scale(x, c))
        return tm.add(*out) if hit else t

    def same_angle(self, facts, a, b):
        if a is b:
            return True
        d = tm.sub(a, b)
        try:
            n = self.with_ring(facts, lambda R: (R.ensure_facts(), R.rsub(R.nf(d), R.nf(tm.ZERO)))[1].num)
        except ERR:
            return False
        return not n

    def trig_abstract(self, facts, a, b):
        """replace every sin/cos argument by a variable, equal (or opposite) arguments modulo 2 pi by the same one; None if no
        argument is complicated enough"""
        memo, reps, names = {}, [], {}
        evs = (self.samples_fn() if self.samples_fn else [])[:3]
        state = {"hard": False}

        def nums(x):
            out = []
            for ev in evs:
                try:
                    out.append(ev(x))
                except Exception:
                    out.append(None)
            return out

        def near(u, v, sg):
            for x, y in zip(u, v):
                if x is None or y is None:
                    continue
                q = (x - sg * y) / (2 * MPX.pi)
                if abs(q - MPX.nint(q)) > MPX.mpf(10) ** -12:
                    return False
            return True

        def var(arg, orig):
            """arg: abstracted argument"""
            if arg.op == "c":
                return None
            arg = self.unmod(arg)
            for r, nr, v in reps:
                if r is arg:
                    return v
            na = nums(arg)
            for r, nr, v in reps:
                if near(na, nr, 1) and self.same_angle(facts, arg, r):
                    return v
            for r, nr, v in reps:
                if near(na, nr, -1) and self.same_angle(facts, tm.neg(arg), r):
                    return tm.neg(v)
            v = tm.var(f"?ang{len(reps)}")
            for ev, x in zip(evs, na):
                pass
            for ev in (self.samples_fn() if self.samples_fn else []):
                try:
                    ev.env[v.args[0]] = ev(arg)
                    ev.memo.pop(v, None) if hasattr(ev, "memo") else None
                except Exception:
                    pass
            reps.append((arg, na, v))
            return v

        def hard(x):
            st = [x]
            while st:
                y = st.pop()
                if y.op == "f" and y.args[0] in ("mod", "floor"):
                    return True
                if y.op == "v" and str(y.args[0]).startswith("?ang"):
                    return True
                if y.op == "*" and sum(abs(e) for g, e in y.args if g.op != "pi") > 1:
                    return True
                st.extend(tm.children(y))
            return False

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t.op in ("c", "v", "pi", "nan", "inf"):
                r = t
            elif t.op == "+":
                r = tm.add(tm.const(t.args[0]), *[tm.scale(go(x), k) for x, k in t.args[1]])
            elif t.op == "*":
                r = tm.mul(*[tm.power(go(x), e) for x, e in t.args])
            elif t.op == "root":
                r = tm.root(go(t.args[0]), t.args[1])
            elif t.args[0] in ("sin", "cos"):
                x = go(t.args[1])
                if hard(x):
                    state["hard"] = True
                v = var(x, t.args[1])
                r = tm.fun(t.args[0], x if v is None else v)
            elif t.args[0] == "mod":
                r = tm.mod(go(t.args[1]), go(t.args[2]))
            else:
                r = tm.fun(t.args[0], *[go(x) for x in t.args[1:]])
            memo[t] = r
            return r
        a2, b2 = go(a), go(b)
        if not state["hard"]:
            return None
        return a2, b2

    def congruent(self, facts, a, b):
        """a == b after abstracting trigonometric arguments"""
        try:
            r = self.trig_abstract(facts, a, b)
            if r is None:
                return False
            if r[0] is r[1]:
                return True
            d = tm.sub(*r)
            return self.with_ring([], lambda R: not R.nf(d).num)
        except ERR:
            return False

    def _ok(self, name):
        STATS["tactics"][name] = STATS["tactics"].get(name, 0) + 1
        return name

    def _prove_zero(self, facts, a, b, d, depth):
        if d is tm.ZERO:
            return self._ok("identical")
        try:
            if self.with_ring(facts, lambda R: (R.ensure_facts(), not R.nf(d).num)[1]):
                return self._ok("normal-form")
        except ERR:
            pass
        if any(r == "==" for r, _ in facts) and self.zero_with_eqs(facts, d):
            return self._ok("normal-form+path-equalities")
        # angles
        r = self.angle_zero(facts, d)
        if r:
            return self._ok(r)
        # sign + squares
        try:
            def sq(R):
                R.ensure_facts()
                ra, rb = R.nf(a), R.nf(b)
                if R.rsub(R.rmul(ra, ra), R.rmul(rb, rb)).num:
                    return False
                return ra, rb
            q = self.with_ring(facts, sq)
            if q:
                if (self.entails(facts, ("<=", tm.neg(a))) and self.entails(facts, ("<=", tm.neg(b)))) or \
                   (self.entails(facts, ("<=", a)) and self.entails(facts, ("<=", b))):
                    return self._ok("equal-squares+sign")
        except ERR:
            pass
        # case split on an unknown absolute value / sign
        if depth < 3:
            t = self.split_term(facts, d)
            if t is not None:
                ok = []
                for lit in (("<=", t), ("<", tm.neg(t))):
                    f2 = facts + [lit]
                    x = self._prove_zero(f2, a, b, d, depth + 1)
                    if not x and not self.infeasible(f2):
                        ok = None
                        break
                    ok.append(x)
                if ok is not None:
                    return self._ok("case-split")
        # last: nonlinear solver
        try:
            def last(R):
                R.ensure_facts()
                n = R.nf(d)
                return len(n.num) < 200 and smt.entails_poly(R, "==", n.num, timeout=self.timeout)
            if self.with_ring(facts, last):
                return self._ok("smt")
        except ERR:
            pass
        return None

    def split_term(self, facts, d):
        try:
            def f(R):
                R.ensure_facts()
                n = R.nf(d)
                gids = {g for m in n.num for g, _ in m}
                for g in sorted(gids):
                    gg = R.gens[g]
                    if gg.kind == "abs":
                        return R.poly_term(dict(gg.data))
                for g in sorted(gids):
                    gg = R.gens[g]
                    if gg.kind == "root":
                        for h in sorted({h for m in gg.rule[1] for h, _ in m}):
                            if R.gens[h].kind == "abs":
                                return R.poly_term(dict(R.gens[h].data))
                return None
            return self.with_ring(facts, f)
        except ERR:
            return None

    def angle_zero(self, facts, d):
        if not self._angular(d):
            return None
        # radians or degrees?
        for u, name in ((tm.ONE, "angle"), (tm.mul(tm.PI, tm.const(Q(1, 180))), "angle(deg)")):
            x = tm.mul(d, u) if u is tm.ONE else self._expand_mul(d, u)
            lo, ls, hi, hs = bounds(x, self.fb(facts))
            two = (Q(0), Q(2))
            ok = False
            if lo is not None and hi is not None:
                v1, v2 = _val(lo), _val(hi)
                ok = (v1 > -6.2831853 or ((-lo[0], -lo[1]) == two and ls)) and \
                     (v2 < 6.2831853 or (hi == two and hs))
            if not ok:
                ok = self.entails(facts, ("<", tm.sub(x, tm.scale(tm.PI, 2)))) and \
                    self.entails(facts, ("<", tm.sub(tm.neg(x), tm.scale(tm.PI, 2))))
            if not ok:
                continue
            if self.cos_is_one(facts, x):
                return name
        return None

    def _expand_mul(self, d, u):
        if d.op == "+":
            return tm.add(tm.mul(tm.const(d.args[0]), u), *[tm.scale(tm.mul(x, u), k) for x, k in d.args[1]])
        return tm.mul(d, u)

    def cos_is_one(self, facts, x, depth=0):
        """cos(x) == 1, i.e. x is a multiple of 2 pi"""
        goals = [tm.sub(tm.fun("cos", x), tm.ONE)]
        for g in goals:
            try:
                if self.with_ring(facts, lambda R: (R.ensure_facts(), not R.nf(g).num)[1]):
                    return True
            except ERR:
                pass
            if any(r == "==" for r, _ in facts) and self.zero_with_eqs(facts, g):
                return True
        # sin(x) == 0 and cos(x) > 0
        s = tm.fun("sin", x)
        try:
            z = self.with_ring(facts, lambda R: (R.ensure_facts(), not R.nf(s).num)[1])
        except ERR:
            z = False
        if z and self.entails(facts, ("<", tm.neg(tm.fun("cos", x)))):
            return True
        if depth < 3:
            t = self.split_term(facts, goals[0])
            if t is not None:
                for lit in (("<=", t), ("<", tm.neg(t))):
                    f2 = facts + [lit]
                    if not self.cos_is_one(f2, x, depth + 1) and not self.infeasible(f2):
                        return False
                return True
        return False

    def _angular(self, d):
        st, seen = [d], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "f" and x.args[0] in ("asin", "acos", "atan", "atan2", "mod", "floor"):
                return True
            if x.op != "f":
                st.extend(tm.children(x))
        return False

    def prove_mod(self, facts, a, b, period, budget=25):
        """a == b modulo period (a constant times pi, or a rational)"""
        if a is b:
            return self._ok("identical")
        if a.op in ("nan", "inf") or b.op in ("nan", "inf"):
            return None
        x = tm.mul(tm.sub(a, b), tm.scale(tm.PI, 2), tm.power(period, -1))
        d = tm.sub(a, b)
        x = self._expand_mul(d, tm.mul(tm.scale(tm.PI, 2), tm.power(period, -1)))
        try:
            with limit(budget):
                facts = list(facts)
                try:
                    with limit(budget * 0.5):
                        y = self.unmod(x)
                        r = self.trig_abstract(facts, y, tm.ZERO)
                        if r is not None and self.same_angle([], r[0], tm.ZERO):
                            return self._ok("angle-mod-period")
                        if r is None and y is not x and self.same_angle(facts, y, tm.ZERO):
                            return self._ok("angle-mod-period")
                except (Timeout, RecursionError, *ERR):
                    self.rings.clear()
                try:
                    if self.with_ring(facts, lambda R: (R.ensure_facts(), not R.nf(d).num)[1]):
                        return self._ok("normal-form")
                except ERR:
                    pass
                if self.cos_is_one(facts, x):
                    return self._ok("angle-mod-period")
        except (Timeout, RecursionError):
            self.rings.clear()
        return None

    def prove_rel(self, facts, rel, t, budget=25):
        try:
            with limit(budget):
                if t.op in ("nan",):
                    return None
                if t is tm.INF or tm._has_inf(t):
                    return None
                if t.op == "c":
                    v = t.args[0]
                    return self._ok("constant") if {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[rel] else None
                if self.interval(facts, rel, t):
                    return self._ok("interval")
                if self.entails(list(facts), (rel, t)):
                    return self._ok("sign/smt")
        except (Timeout, RecursionError):
            self.rings.clear()
        return None
