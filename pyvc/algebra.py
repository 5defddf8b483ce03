"""Exact normal forms of real terms.

A term becomes  num / den  where num is a sparse polynomial over Q in generators and den a
product of generators and polynomials.  Generators: variables, pi, cos/sin of (unit * atom),
square/cube roots, exponentials, logarithms, inverse trigonometric values, floors, absolute
values and uninterpreted values.  Rewrite rules (triangular, hence a normal form of the
quotient ring):  sin^2 -> 1-cos^2,  root(P,q)^q -> P,  abs(P)^2 -> P^2,  eps^2 -> 1, and
linear rules g -> poly coming from equalities on the path.
"""
from __future__ import annotations
import math
from fractions import Fraction as Q

from . import term as tm

MAXMON = 60000


class Restart(Exception):
    pass


class TooBig(Exception):
    pass


class Gen:
    __slots__ = ("id", "kind", "data", "term", "rule", "pos", "name")

    def __init__(self, id, kind, data, term, name):
        self.id, self.kind, self.data, self.term, self.name = id, kind, data, term, name
        self.rule = None      # (deg, poly)
        self.pos = 0          # 2: >0, 1: >=0, -1: <=0, -2: <0, 0 unknown


ONE_M = ()


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def padd(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


class Rat:
    __slots__ = ("num", "den")

    def __init__(self, num, den=()):
        self.num = num          # dict
        self.den = den          # tuple of ((key), exp); key = ('g', gid) or ('p', polyid)


class Ring:
    def __init__(self, units=None, samples=None, facts=(), timeout=4000):
        self.units = {} if units is None else units
        self.samples = samples or []
        self.timeout = timeout
        self.reset()
        self.fact_terms = list(facts)
        self._facts_done = False
        self.sign_cache = {}

    def reset(self):
        self.gens: list[Gen] = []
        self.bykey: dict = {}
        self.memo: dict = {}
        self.polys: list = []        # interned denominators
        self.polykey: dict = {}
        self.atoms: dict = {}
        self.opaque: dict = {}       # fname -> list of (args Rats, Gen)
        self.redmemo: dict = {}
        self.sign_cache = {}
        self._facts_done = False
        self.fact_polys = []         # (rel, poly, original)
        self.roots: dict = {}

    # ------------------------------------------------------------ generators
    def gen(self, kind, data, term, name):
        k = (kind, data)
        g = self.bykey.get(k)
        if g is None:
            g = Gen(len(self.gens), kind, data, term, name)
            self.gens.append(g)
            self.bykey[k] = g
        return g

    def gpoly(self, g, e=1):
        return self.reduce({((g.id, e),): Q(1)})

    def cpoly(self, c):
        return {ONE_M: Q(c)} if c else {}

    # ------------------------------------------------------------ polynomials
    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > 4000000:
            raise TooBig()
        r: dict = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2)
                v = r.get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        return self.reduce({m: c for m, c in r.items() if c})

    def ppow(self, p, n):
        r = self.cpoly(1)
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def _mono_reducible(self, m):
        for g, e in m:
            r = self.gens[g].rule
            if r is not None and e >= r[0]:
                return g, e, r
        return None

    def _mono_reduce(self, m):
        """normal form of a monomial"""
        r = self.redmemo.get(m)
        if r is not None:
            return r
        hit = self._mono_reducible(m)
        if hit is None:
            r = {m: Q(1)}
        else:
            g, e, (d, poly) = hit
            n, rest = divmod(e, d)
            m2 = tuple((h, x) if h != g else (h, rest) for h, x in m if h != g or rest)
            acc = {m2: Q(1)}
            for _ in range(n):
                nxt: dict = {}
                for ma, ca in acc.items():
                    for mb, cb in poly.items():
                        mm = mmul(ma, mb)
                        nxt[mm] = nxt.get(mm, 0) + ca * cb
                acc = self.reduce({k: v for k, v in nxt.items() if v})
            r = self.reduce(acc)
        if len(self.redmemo) < 400000:
            self.redmemo[m] = r
        return r

    def reduce(self, p):
        bad = [m for m in p if self._mono_reducible(m)]
        if not bad:
            return p
        out = {m: c for m, c in p.items()}
        for m in bad:
            del out[m]
        for m in bad:
            c = p[m]
            for m2, c2 in self._mono_reduce(m).items():
                v = out.get(m2, 0) + c * c2
                if v:
                    out[m2] = v
                else:
                    out.pop(m2, None)
        if len(out) > MAXMON:
            raise TooBig()
        return out

    # ------------------------------------------------------------ rationals
    def intern_poly(self, p):
        """p -> (coef, key or None) with p = coef * interned"""
        lead = min(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        k = frozenset(q.items())
        i = self.polykey.get(k)
        if i is None:
            i = len(self.polys)
            self.polys.append(q)
            self.polykey[k] = i
        return c, ("p", i)

    def den_of(self, p):
        """polynomial p as denominator -> (coef, den tuple)"""
        if len(p) == 1:
            (m, c), = p.items()
            d: dict = {}
            coef = c
            for g, e in m:
                rule = self.gens[g].rule
                d[("g", g)] = e
            return coef, tuple(sorted(d.items()))
        # common monomial factor
        common = None
        for m in p:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {g: min(e, dm[g]) for g, e in common.items() if g in dm}
            if not common:
                break
        d = {}
        if common:
            inv = common
            p = {tuple((g, e - inv.get(g, 0)) for g, e in m if e - inv.get(g, 0)): c for m, c in p.items()}
            for g, e in common.items():
                d[("g", g)] = e
        c, k = self.intern_poly(p)
        d[k] = 1
        return c, tuple(sorted(d.items()))

    def den_poly(self, den):
        p = self.cpoly(1)
        for (kind, i), e in den:
            b = self.gpoly(self.gens[i]) if kind == "g" else self.polys[i]
            p = self.pmul(p, self.ppow(b, e))
        return p

    def key_poly(self, key):
        return self.gpoly(self.gens[key[1]]) if key[0] == "g" else self.polys[key[1]]

    def norm(self, num, den):
        """cancel monomial factors; expand ruled generators in the denominator"""
        if not num:
            return Rat({}, ())
        if not den:
            return Rat(num, ())
        d = dict(den)
        again = True
        while again:
            again = False
            for k in list(d):
                if k[0] == "g":
                    g = self.gens[k[1]]
                    if g.rule is not None and g.rule[0] > 1 and d[k] >= g.rule[0]:
                        n, rest = divmod(d[k], g.rule[0])
                        if rest:
                            d[k] = rest
                        else:
                            del d[k]
                        c, dd = self.den_of(g.rule[1])
                        for kk, e in dd:
                            d[kk] = d.get(kk, 0) + e * n
                        num = pscale(num, 1 / c ** n)
                        again = True
        for k in list(d):
            if k[0] == "g":
                gid = k[1]
                mn = None
                for m in num:
                    e = dict(m).get(gid, 0)
                    mn = e if mn is None else min(mn, e)
                    if mn == 0:
                        break
                if mn:
                    t = min(mn, d[k])
                    num = {tuple((g, e - t if g == gid else e) for g, e in m if g != gid or e - t): c
                           for m, c in num.items()}
                    d[k] -= t
                    if d[k] == 0:
                        del d[k]
            else:
                while d.get(k, 0) and self._divides_simple(num, k):
                    num = self._quot
                    d[k] -= 1
                    if d[k] == 0:
                        del d[k]
        return Rat(num, tuple(sorted(d.items())))

    def _divides_simple(self, num, key):
        """num == c*mono*poly(key)?"""
        p = self.polys[key[1]]
        if len(num) != len(p):
            return False
        # candidate: leading monomials
        ln, lp = min(num), min(p)
        dn = dict(ln)
        q = []
        for g, e in lp:
            r = dn.pop(g, 0) - e
            if r < 0:
                return False
            if r:
                q.append((g, r))
        q = tuple(sorted(q + list(dn.items())))
        c = num[ln] / p[lp]
        for m, v in p.items():
            if num.get(mmul(m, q)) != v * c:
                return False
        self._quot = {q: c}
        return True

    def rconst(self, c):
        return Rat(self.cpoly(c), ())

    def radd(self, a, b, k=1):
        if not a.num:
            return Rat(pscale(b.num, k), b.den) if k != 1 else b
        if not b.num:
            return a
        if a.den == b.den:
            return self.norm(padd(a.num, b.num, k), a.den)
        da, db = dict(a.den), dict(b.den)
        l = dict(da)
        for key, e in db.items():
            if l.get(key, 0) < e:
                l[key] = e
        fa = self.den_poly([(key, l[key] - da.get(key, 0)) for key in l if l[key] > da.get(key, 0)])
        fb = self.den_poly([(key, l[key] - db.get(key, 0)) for key in l if l[key] > db.get(key, 0)])
        n = padd(self.pmul(a.num, fa), self.pmul(b.num, fb), k)
        return self.norm(n, tuple(sorted(l.items())))

    def rmul(self, a, b):
        if not a.num or not b.num:
            return Rat({}, ())
        d = dict(a.den)
        for key, e in b.den:
            d[key] = d.get(key, 0) + e
        return self.norm(self.pmul(a.num, b.num), tuple(sorted(d.items())))

    def rinv(self, a):
        if not a.num:
            raise ZeroDivisionError
        c, den = self.den_of(a.num)
        num = pscale(self.den_poly(a.den), 1 / c)
        return self.norm(num, den)

    def rpow(self, a, n):
        if n < 0:
            return self.rpow(self.rinv(a), -n)
        r = self.rconst(1)
        b = a
        while n:
            if n & 1:
                r = self.rmul(r, b)
            n >>= 1
            if n:
                b = self.rmul(b, b)
        return r

    def rsub(self, a, b):
        return self.radd(a, b, -1)

    def rscale(self, a, k):
        return Rat(pscale(a.num, Q(k)), a.den) if k else Rat({}, ())

    def requal(self, a, b):
        return not self.rsub(a, b).num

    def rg(self, g):
        return self.norm(self.gpoly(g), ())

    # ------------------------------------------------------------ back to terms / numbers
    def poly_term(self, p):
        return tm.add(*[tm.scale(tm.mul(*[tm.power(self.gens[g].term, e) for g, e in m]), c) for m, c in p.items()]) if p else tm.ZERO

    def rat_term(self, r):
        t = self.poly_term(r.num)
        for k, e in r.den:
            t = tm.mul(t, tm.power(self.poly_term(self.key_poly(k)), -e))
        return t

    def peval(self, p, ev):
        s = ev.mp.mpf(0)
        for m, c in p.items():
            v = ev.mp.mpf(c.numerator) / c.denominator
            for g, e in m:
                v *= ev(self.gens[g].term) ** e
            s += v
        return s

    # ------------------------------------------------------------ sign reasoning
    def gen_sign(self, g):
        return g.pos

    def struct_sign(self, p):
        """2 >0, 1 >=0, -1, -2, 0 unknown by structure only"""
        if not p:
            return 1
        best = None
        strict = False
        for m, c in p.items():
            s = 2 if c > 0 else -2
            for g, e in m:
                gs = self.gens[g].pos
                if e % 2 == 0:
                    k = 2 if abs(gs) == 2 else 1
                    s = (1 if s > 0 else -1) * min(abs(s), k)
                else:
                    if gs == 0:
                        return 0
                    s = (1 if (s > 0) == (gs > 0) else -1) * min(abs(s), abs(gs))
            sg = 1 if s > 0 else -1
            if best is None:
                best = sg
            elif best != sg:
                return 0
            if abs(s) == 2:
                strict = True
        return best * (2 if strict else 1)

    def poly_sign(self, p, use_smt=True):
        s = self.struct_sign(p)
        if s or not p:
            return s
        # substitute cos-bounded patterns: replace sin^2 representation
        key = frozenset(p.items())
        if key in self.sign_cache:
            return self.sign_cache[key]
        self.sign_cache[key] = 0
        s = self._square_trick(p)
        if not s:
            self.ensure_facts()
            s = self._fact_sign(p)
        if not s and use_smt:
            g = self._guess(p)
            if g:
                from . import smt
                for strict in (True, False):
                    rel = {(1, True): "<", (1, False): "<=", (-1, True): "<", (-1, False): "<="}[(g, strict)]
                    q = pscale(p, -1) if g > 0 else p
                    if smt.entails_poly(self, rel, q, timeout=self.timeout):
                        s = g * (2 if strict else 1)
                        break
        self.sign_cache[key] = s
        return s

    def _square_trick(self, p):
        """rewrite in terms of 1-C^2 -> S^2 for each trig pair and look structurally"""
        for g in self.gens:
            if g.kind == "cos":
                # p as polynomial in C^2:  A + B*C^2  ->  (A+B) - B*S^2  == A*S^2+ (A+B)*C^2
                a, b, ok = {}, {}, True
                for m, c in p.items():
                    e = dict(m).get(g.id, 0)
                    if e == 0:
                        a[m] = c
                    elif e == 2:
                        b[tuple(x for x in m if x[0] != g.id)] = c
                    else:
                        ok = False
                        break
                if ok and b:
                    s1 = self.struct_sign(a)
                    s2 = self.struct_sign(padd(a, b))
                    if s1 and s2 and (s1 > 0) == (s2 > 0):
                        sg = 1 if s1 > 0 else -1
                        strict = abs(s1) == 2 and abs(s2) == 2
                        return sg * (2 if strict else 1)
        return 0

    def _fact_sign(self, p):
        for rel, q, _ in self.fact_polys:
            if len(q) == len(p):
                m = min(q)
                if m in p:
                    k = p[m] / q[m]
                    if all(p.get(mm) == c * k for mm, c in q.items()):
                        # q rel 0
                        if rel == "<":
                            return -2 if k > 0 else 2
                        if rel == "<=":
                            return -1 if k > 0 else 1
        return 0

    def _guess(self, p):
        """sign from the samples (guides which direction to prove)"""
        if not self.samples:
            return 0
        pos = neg = 0
        for ev in self.samples[:25]:
            v = self.peval(p, ev)
            if ev.mp.isnan(v):
                continue
            if v > ev.mp.mpf(10) ** -25:
                pos += 1
            elif v < -ev.mp.mpf(10) ** -25:
                neg += 1
            if pos and neg:
                return 0
        return 1 if pos and not neg else -1 if neg and not pos else (1 if not pos and not neg else 0)

    # ------------------------------------------------------------ facts
    def ensure_facts(self):
        if self._facts_done:
            return
        self._facts_done = True
        # small facts first: the signs they give are used while the larger ones are normalised
        for rel, t in sorted(self.fact_terms, key=lambda f: tm.size([f[1]])):
            try:
                r = self.nf(t)
            except (TooBig, ZeroDivisionError):
                continue
            p = r.num
            if len(p) == 1 and rel == "!=":
                for gid, _e in next(iter(p)):
                    g = self.gens[gid]
                    if abs(g.pos) == 1:
                        g.pos *= 2
                        self.sign_cache.clear()
            if len(p) == 1 and not r.den:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1:
                    g = self.gens[m[0][0]]
                    if rel in ("<", "<="):
                        s = (-1 if c > 0 else 1) * (2 if rel == "<" else 1)
                        if abs(s) > abs(g.pos):
                            g.pos = s
                            self.sign_cache.clear()
                    elif rel == "!=" and abs(g.pos) == 1:
                        g.pos *= 2
                        self.sign_cache.clear()
            if rel in ("<", "<="):
                for k, e in r.den:
                    if e % 2:
                        p = self.pmul(p, self.key_poly(k))
            self.fact_polys.append((rel, p, t))
        self.sign_cache.clear()

    def use_equalities(self):
        """turn equality facts into linear rewrite rules; returns True if any was added"""
        self.ensure_facts()
        changed = True
        any_ = False
        work = [p for rel, p, _ in self.fact_polys if rel == "=="]
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            self.redmemo.clear()
            for p in list(work):
                p = self.reduce(p)
                if not p:
                    continue
                s = self.struct_sign(p)
                zero = []
                if s and len(p) > 1:
                    for m, c in p.items():
                        if len(m) == 1:
                            zero.append(m[0][0])
                        elif m:
                            # product zero: drop strictly signed factors
                            rest = [g for g, e in m if abs(self.gens[g].pos) != 2]
                            if len(rest) == 1:
                                zero.append(rest[0])
                elif len(p) == 1:
                    (m, c), = p.items()
                    rest = [g for g, e in m if abs(self.gens[g].pos) != 2]
                    if len(rest) == 1:
                        zero.append(rest[0])
                for gid in zero:
                    g = self.gens[gid]
                    if g.rule is None or g.rule[0] != 1:
                        old = g.rule
                        g.rule = (1, {})
                        changed = any_ = True
                        if g.kind == "root" and old:
                            work.append(old[1])
                        if g.kind == "sin":
                            c = self.bykey[("cos", g.data)]
                            c.rule = (2, self.cpoly(1))
                        if g.kind == "cos":
                            sg = self.bykey[("sin", g.data)]
                            sg.rule = (2, self.cpoly(1))
                        if g.kind == "abs" and old:
                            work.append(self.nf(g.data_term).num if hasattr(g, "data_term") else {})
                if not zero:
                    # linear in some generator with constant coefficient
                    for m, c in p.items():
                        if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].rule is None \
                                and self.gens[m[0][0]].kind in ("var", "uf"):
                            gid = m[0][0]
                            rest = {mm: -cc / c for mm, cc in p.items() if mm != m}
                            if not any(gid == g for mm in rest for g, _ in mm):
                                self.gens[gid].rule = (1, rest)
                                changed = any_ = True
                                break
        if any_:
            self.redmemo.clear()
            self.memo.clear()
            self.sign_cache.clear()
            for g in self.gens:
                if g.rule is not None:
                    d, p = g.rule
                    g.rule = (d, self.reduce(p))
        return any_

    # ------------------------------------------------------------ normal form of a term
    def nf(self, t) -> Rat:
        m = self.memo
        if t in m:
            return m[t]
        st = [t]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            todo = [c for c in tm.children(x) if c not in m]
            if todo:
                st.extend(todo)
                continue
            m[x] = self._nf(x)
            st.pop()
        return m[t]

    def _nf(self, t):
        op = t.op
        m = self.memo
        if op == "c":
            return self.rconst(t.args[0])
        if op == "pi":
            g = self.gen("pi", None, tm.PI, "pi")
            g.pos = 2
            return self.rg(g)
        if op == "v":
            g = self.gen("var", t.args[0], t, t.args[0])
            return self.rg(g)
        if op in ("nan", "inf"):
            raise TooBig("poison")
        if op == "+":
            r = self.rconst(t.args[0])
            # group by denominator first
            groups: dict = {}
            for x, k in t.args[1]:
                rx = m[x]
                groups.setdefault(rx.den, []).append((rx, k))
            for den, items in groups.items():
                n: dict = {}
                for rx, k in items:
                    n = padd(n, rx.num, k)
                r = self.radd(r, self.norm(n, den))
            return r
        if op == "*":
            r = self.rconst(1)
            for x, e in t.args:
                r = self.rmul(r, self.rpow(m[x], e))
            return r
        if op == "root":
            return self.root(m[t.args[0]], t.args[1], t)
        name = t.args[0]
        a = [m[x] for x in t.args[1:]]
        if name == "sin":
            return self.trig(a[0])[1]
        if name == "cos":
            return self.trig(a[0])[0]
        if name == "tan":
            c, s = self.trig(a[0])
            return self.rmul(s, self.rinv(c))
        if name == "abs":
            return self.abs(a[0])
        if name == "mod":
            inner = t.args[1]
            if inner.op == "f" and inner.args[0] == "mod" and inner.args[2] is t.args[2]:
                return a[0]
            q = self.rmul(a[0], self.rinv(a[1]))
            k = self.floor(q)
            return self.rsub(a[0], self.rmul(a[1], k))
        if name == "floor":
            return self.floor(a[0])
        if name == "acos":
            x = self.rat_term(a[0])
            if x.op == "f" and x.args[0] == "cos":
                from . import prove as _pv
                lo, _, hi, _ = _pv.bounds(x.args[1], _pv.fact_bounds(self.fact_terms))
                if lo is not None and hi is not None and _pv._val(lo) >= 0 and _pv._val(hi) <= 3.141592653589793:
                    return self.nf(x.args[1])
            pi = self.nf(tm.PI)
            return self.rsub(self.rscale(pi, Q(1, 2)), self.opaque_fun("asin", [a[0]]))
        if name == "exp":
            return self.exp(a[0])
        if name == "log":
            return self.log(a[0])
        if name == "atanh":
            one = self.rconst(1)
            return self.rscale(self.rsub(self.log(self.radd(one, a[0])), self.log(self.rsub(one, a[0]))), Q(1, 2))
        if name == "asinh":
            one = self.rconst(1)
            rt = self.root(self.radd(one, self.rmul(a[0], a[0])), 2)
            return self.log(self.radd(a[0], rt), pos=True)
        if name in ("sinh", "cosh"):
            e = self.exp(a[0])
            ei = self.rinv(e)
            return self.rscale(self.radd(e, ei, -1 if name == "sinh" else 1), Q(1, 2))
        if name in ("atan", "asin") and a[0].num and self._neg_lead(a[0]):
            return self.rscale(self.opaque_fun(name, [self.rscale(a[0], -1)]), -1)
        if name == "asin" or name == "atan":
            if not a[0].num:
                return self.rconst(0)
        if name == "atan2":
            y, x = a
            # atan2(-y, x) = -atan2(y, x) unless on the branch cut
            return self.opaque_fun("atan2", a)
        return self.opaque_fun(name, a)

    def _neg_lead(self, r):
        return r.num[min(r.num)] < 0

    def opaque_fun(self, name, args):
        lst = self.opaque.setdefault((name, len(args)), [])
        for old, g in lst:
            if all(self.requal(x, y) for x, y in zip(old, args)):
                return self.rg(g)
        terms = [self.rat_term(x) for x in args]
        tt = tm.fun(name, *terms)
        if tt.op != "f" or tt.args[0] != name:
            # constant-folded
            return self.nf(tt) if tt not in self.memo else self.memo[tt]
        g = self.gen("fun", (name, len(lst)), tt, f"{name}#{len(lst)}")
        lst.append((args, g))
        if name == "abs":
            g.pos = 1
        return self.rg(g)

    def fun_args(self, g):
        name, i = g.data
        for (nm, _), lst in self.opaque.items():
            if nm == name:
                return lst[i][0]

    def floor(self, q):
        # integer shift of constants
        if not q.num:
            return self.rconst(0)
        shift = 0
        if not q.den and ONE_M in q.num:
            c = q.num[ONE_M]
            shift = math.floor(c)
            n = dict(q.num)
            if c - shift:
                n[ONE_M] = c - shift
            else:
                n.pop(ONE_M)
            q = Rat(n, ())
            if not n or set(n) == {ONE_M}:
                return self.rconst(shift)
        # integer multiples of integer generators
        extra = {}
        if not q.den:
            n = dict(q.num)
            for m, c in q.num.items():
                if c.denominator == 1 and m and all(self.gens[g].kind == "fun" and self.gens[g].data[0] == "floor" for g, _ in m):
                    extra[m] = c
                    n.pop(m)
            q = Rat(n, ())
            if not n:
                return Rat(padd(extra, self.cpoly(shift)), ())
        k = self.opaque_fun("floor", [q])
        return self.radd(self.radd(k, self.rconst(shift)), Rat(extra, ()))

    # ---- absolute values, roots
    def abs(self, r):
        num, den = r.num, r.den
        if not num:
            return r
        s = self.poly_sign(num)
        out = None
        if s > 0:
            n = Rat(num, ())
        elif s < 0:
            n = Rat(pscale(num, -1), ())
        else:
            n = self.abs_poly(num)
        d = n
        for k, e in den:
            p = self.key_poly(k)
            if e % 2 == 0:
                f = Rat(p, ())
            else:
                s = self.poly_sign(p)
                f = Rat(p, ()) if s > 0 else Rat(pscale(p, -1), ()) if s < 0 else self.abs_poly(p)
            d = self.rmul(d, self.rpow(f, -e))
        return d

    def abs_poly(self, p):
        """|p| for polynomial of unknown sign"""
        if len(p) == 1:
            (m, c), = p.items()
            r = self.rconst(abs(c))
            for g, e in m:
                gg = self.gens[g]
                b = self.rg(gg)
                if e % 2 == 0 or gg.pos > 0:
                    r = self.rmul(r, self.rpow(b, e))
                elif gg.pos < 0:
                    r = self.rmul(r, self.rpow(self.rscale(b, -1), e))
                else:
                    r = self.rmul(r, self.rpow(self._absgen({((g, 1),): Q(1)}), e))
            return r
        c, key = self.intern_poly(p)
        return self.rscale(self._absgen(self.polys[key[1]]), abs(c))

    def _absgen(self, p):
        k = frozenset(p.items())
        g = self.gen("abs", k, tm.fun("abs", self.poly_term(p)), f"abs{len(self.gens)}")
        if g.rule is None:
            g.pos = 1
            g.rule = (2, self.pmul(p, p))
        return self.rg(g)

    def root(self, r, q, t=None):
        num, den = r.num, r.den
        if not num:
            return self.rconst(0)
        # denominators: root(n/d) = root(n*d^(..))/|d|^..
        out = self.rconst(1)
        p = num
        for k, e in den:
            b = self.key_poly(k)
            e2 = -(-e // q)          # ceil
            rest = e2 * q - e
            if rest:
                p = self.pmul(p, self.ppow(b, rest))
            br = Rat(b, ())
            if q % 2 == 0:
                s = self.poly_sign(b)
                br = br if s > 0 else self.rscale(br, -1) if s < 0 else self.abs_poly(b)
            out = self.rmul(out, self.rpow(br, -e2))
        return self.rmul(out, self.root_poly(p, q))

    def root_poly(self, p, q):
        if not p:
            return self.rconst(0)
        out = self.rconst(1)
        # rational content
        from math import gcd
        nums = [c.numerator for c in p.values()]
        dens = [c.denominator for c in p.values()]
        gn = 0
        for n in nums:
            gn = gcd(gn, abs(n))
        ld = 1
        for d in dens:
            ld = ld * d // gcd(ld, d)
        content = Q(gn, ld)
        p = pscale(p, 1 / content)
        # q-th power part of the content
        a, arest = _powpart(content.numerator, q)
        b, brest = _powpart(content.denominator, q)
        # root(a^q*ar/(b^q*br)) = a/b * root(ar*br^(q-1))/br
        out = self.rconst(Q(a, b * brest))
        p = pscale(p, Q(arest) * Q(brest) ** (q - 1))
        # common monomial factors
        common = None
        for m in p:
            dm = dict(m)
            common = dm if common is None else {g: min(e, dm[g]) for g, e in common.items() if g in dm}
            if not common:
                break
        if common:
            take = {g: (e // q) * q for g, e in common.items() if e >= q}
            if take:
                p = {tuple((g, e - take.get(g, 0)) for g, e in m if e - take.get(g, 0)): c for m, c in p.items()}
                for g, e in take.items():
                    b = Rat(self.gpoly(self.gens[g]), ())
                    if q % 2 == 0:
                        s = self.gens[g].pos or self.poly_sign(b.num)
                        b = b if s > 0 else self.rscale(b, -1) if s < 0 else self.abs_poly(b.num)
                    out = self.rmul(out, self.rpow(b, e // q))
        if set(p) == {ONE_M}:
            v = tm.root(tm.const(p[ONE_M]), q)
            if v.op == "c":
                return self.rscale(out, v.args[0])
        # 1 - cos^2 -> sin^2
        if q == 2:
            f = self._sq_factor(p)
            if f is not None:
                b, rest = f
                s = self.poly_sign(b)
                br = Rat(b, ()) if s > 0 else Rat(pscale(b, -1), ()) if s < 0 else self.abs_poly(b)
                return self.rmul(out, self.rmul(br, self.root_poly(rest, 2)))
        k = (q, frozenset(p.items()))
        g = self.roots.get(k)
        if g is None:
            # unify with an existing root: p * old is a perfect square?
            u = self._unify(p, q)
            if u is not None:
                return self.rmul(out, u)
            g = self.gen("root", k, tm.root(self.poly_term(p), q), f"root{len(self.gens)}")
            g.rule = (q, p)
            s = self.struct_sign(p)
            g.pos = 2 if s == 2 else 1
            self.roots[k] = g
            if g.pos == 1 and q % 2 == 0 and self._square_trick(p) == 2:
                g.pos = 2
        return self.rmul(out, self.rg(g))

    def _sq_factor(self, p):
        """p == b^2 * rest for an obvious b (trig pair or sympy square factor)"""
        for g in self.gens:
            if g.kind == "cos":
                # divisible by (1 - C^2)?
                a, b, ok = {}, {}, True
                for m, c in p.items():
                    e = dict(m).get(g.id, 0)
                    if e == 0:
                        a[m] = c
                    elif e == 2:
                        b[tuple(x for x in m if x[0] != g.id)] = c
                    else:
                        ok = False
                        break
                if ok and a and padd(a, b) == {}:
                    s = self.bykey.get(("sin", g.data))
                    return {((s.id, 1),): Q(1)}, a
        if 3 <= len(p) <= 60:
            f = self._sympy_square(p)
            if f is not None:
                return f
        return None

    def _sympy_square(self, p):
        try:
            from sympy.polys.rings import ring as sring
            from sympy import QQ
        except Exception:
            return None
        gids = sorted({g for m in p for g, _ in m})
        if len(gids) > 8 or max(sum(e for _, e in m) for m in p) > 16:
            return None
        if all(all(e % 2 == 1 or e == 0 for _, e in m) and len(m) for m in p) and len(p) < 2:
            return None
        R, *gs = sring([f"x{g}" for g in gids], QQ)
        pos = {g: i for i, g in enumerate(gids)}
        sp = R.zero
        d = {}
        for m, c in p.items():
            ex = [0] * len(gids)
            for g, e in m:
                ex[pos[g]] = e
            d[tuple(ex)] = QQ(c.numerator, c.denominator)
        sp = R.from_dict(d)
        try:
            c, fs = sp.sqf_list()
        except Exception:
            return None
        if not any(e >= 2 for _, e in fs):
            return None

        def back(q):
            return {tuple((gids[i], e) for i, e in enumerate(m) if e): Q(int(cc.numerator), int(cc.denominator))
                    for m, cc in q.to_dict().items()}
        b = R.one
        rest = R.one * c
        for f, e in fs:
            b = b * f ** (e // 2)
            rest = rest * f ** (e % 2)
        return self.reduce(back(b)), self.reduce(back(rest))

    def _unify(self, p, q):
        return None

    # ---- exponentials / logarithms
    def log(self, r, pos=False):
        if not r.num:
            raise ZeroDivisionError
        out = self.rconst(0)
        out = self.radd(out, self.log_poly(r.num))
        for k, e in r.den:
            out = self.radd(out, self.log_poly(self.key_poly(k)), -e)
        return out

    def log_poly(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            out = self.rconst(0)
            if c != 1:
                out = self.opaque_fun("log", [self.rconst(c)])
            ok = all(self.gens[g].pos == 2 or self.gens[g].kind == "root" for g, e in m) and c > 0
            if ok or len(m) == 0:
                for g, e in m:
                    gg = self.gens[g]
                    if gg.kind == "root":
                        out = self.radd(out, self.rscale(self.log_poly(gg.rule[1]), Q(e, gg.rule[0])))
                    elif gg.kind == "exp":
                        out = self.radd(out, self.rscale(self.nf(gg.term.args[1]), e))
                    else:
                        out = self.radd(out, self.rscale(self.opaque_fun("log", [self.rg(gg)]), e))
                return out
        c, k = self.intern_poly(p)
        q = self.polys[k[1]]
        if c < 0:
            q = pscale(q, -1)
            c = -c
        out = self.opaque_fun("log", [Rat(q, ())])
        if c != 1:
            out = self.radd(out, self.opaque_fun("log", [self.rconst(c)]))
        return out

    def linear(self, r):
        """split a rational into atoms:  [(mono, den, coef)]"""
        return [(m, r.den, c) for m, c in r.num.items()]

    def _unit(self, key, c):
        u = self.units.get(key)
        if u is None:
            self.units[key] = abs(c)
            return abs(c)
        q = c / u
        if q.denominator == 1:
            return u
        g = Q(math.gcd(u.numerator * c.denominator, abs(c.numerator) * u.denominator), u.denominator * c.denominator)
        self.units[key] = g
        raise Restart()

    def atom_key(self, m, den):
        # stable across restarts: use the printed term
        return tm.show(self.rat_term(Rat({m: Q(1)}, den)), 40)

    def exp(self, r):
        out = self.rconst(1)
        for m, den, c in self.linear(r):
            if not den and len(m) == 1 and m[0][1] == 1:
                g = self.gens[m[0][0]]
                if g.kind == "fun" and g.data[0] == "log":
                    x = self.fun_args(g)[0]
                    if c.denominator == 1:
                        out = self.rmul(out, self.rpow(x, int(c)))
                    else:
                        out = self.rmul(out, self.rpow(self.root(x, c.denominator), int(c.numerator)))
                    continue
            key = ("exp", self.atom_key(m, den))
            u = self._unit(key, c)
            n = int(c / u)
            g = self.gen("exp", key, tm.fun("exp", self.rat_term(Rat({m: u}, den))), f"E{len(self.gens)}")
            g.pos = 2
            out = self.rmul(out, self.rpow(self.rg(g), n))
        return out

    # ---- trigonometry
    def trig(self, r):
        """(cos r, sin r)"""
        C, S = self.rconst(1), self.rconst(0)
        for m, den, c in self.linear(r):
            c1, s1 = self.trig_atom(m, den, c)
            C, S = (self.rsub(self.rmul(C, c1), self.rmul(S, s1)),
                    self.radd(self.rmul(S, c1), self.rmul(C, s1)))
        return C, S

    def trig_atom(self, m, den, c):
        if not den:
            kinds = [(self.gens[g], e) for g, e in m]
            pis = [x for x in kinds if x[0].kind == "pi"]
            others = [x for x in kinds if x[0].kind != "pi"]
            if len(pis) == 1 and pis[0][1] == 1:
                if not others:
                    cv, sv = tm.sin_pi(c + Q(1, 2)), tm.sin_pi(c)
                    if cv is not None and sv is not None:
                        return self.nf(cv), self.nf(sv)
                    if c.denominator == 1 or True:
                        pass
                if others and all(g.kind == "fun" and g.data[0] == "floor" for g, _ in others) and c.denominator == 1:
                    if c % 2 == 0:
                        return self.rconst(1), self.rconst(0)
                    if len(others) == 1 and others[0][1] == 1:
                        k = others[0][0]
                        e = self.gen("sgn", k.id, tm.fun("cos", tm.mul(tm.PI, k.term)), f"(-1)^{k.name}")
                        e.rule = (2, self.cpoly(1))
                        return self.rg(e), self.rconst(0)
            if len(kinds) == 1 and kinds[0][1] == 1 and kinds[0][0].kind == "fun" \
                    and kinds[0][0].data[0] in ("atan2", "asin", "atan", "acos"):
                g = kinds[0][0]
                key = ("trig", "inv:" + tm.show(g.term, 40))
                u = self._unit(key, c)
                c1, s1 = self.inv_trig(g)
                if c.denominator != 1:
                    # half angles of values in (-pi, pi]: cos(h) >= 0
                    if c.denominator == 2:
                        half = self.rscale(self.radd(self.rconst(1), c1), Q(1, 2))
                        ch = self.root(half, 2)
                        sh = self.rmul(self.rscale(s1, Q(1, 2)), self.rinv(ch))
                        return self.cpow(ch, sh, int(c * 2))
                    raise TooBig("fraction of inverse function")
                return self.cpow(c1, s1, int(c))
        key = ("trig", self.atom_key(m, den))
        u = self._unit(key, c)
        n = int(c / u)
        at = self.rat_term(Rat({m: u}, den))
        cg = self.gen("cos", key, tm.fun("cos", at), f"C[{tm.show(at, 3)}]")
        sg = self.gen("sin", key, tm.fun("sin", at), f"S[{tm.show(at, 3)}]")
        if sg.rule is None:
            sg.rule = (2, {ONE_M: Q(1), ((cg.id, 2),): Q(-1)})
        return self.cpow(self.rg(cg), self.rg(sg), n)

    def cpow(self, c, s, n):
        if n < 0:
            c2, s2 = self.cpow(c, s, -n)
            return c2, self.rscale(s2, -1)
        C, S = self.rconst(1), self.rconst(0)
        for _ in range(n):
            C, S = self.rsub(self.rmul(C, c), self.rmul(S, s)), self.radd(self.rmul(S, c), self.rmul(C, s))
        return C, S

    def inv_trig(self, g):
        name = g.data[0]
        a = self.fun_args(g)
        if name == "atan2":
            y, x = a
            h = self.root(self.radd(self.rmul(x, x), self.rmul(y, y)), 2)
            hi = self.rinv(h)
            return self.rmul(x, hi), self.rmul(y, hi)
        if name == "asin":
            s = a[0]
            return self.root(self.rsub(self.rconst(1), self.rmul(s, s)), 2), s
        if name == "atan":
            x = a[0]
            h = self.rinv(self.root(self.radd(self.rconst(1), self.rmul(x, x)), 2))
            return h, self.rmul(x, h)
        raise TooBig(name)


def _powpart(n, q):
    """n = a^q * rest (trial division by small primes)"""
    n = int(n)
    a, rest = 1, 1
    if n == 0:
        return 0, 1
    r = tm._iroot(n, q)
    if r is not None:
        return r, 1
    d = 2
    while d * d <= n and d < 2000:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        a *= d ** (e // q)
        rest *= d ** (e % q)
        d += 1 if d == 2 else 2
    r = tm._iroot(n, q)
    if r is not None and n > 1:
        return a * r, rest
    return a, rest * n


def with_ring(fn, samples=(), facts=(), timeout=4000):
    """run fn(ring), restarting when an angle unit had to be refined"""
    units: dict = {}
    for _ in range(40):
        ring = Ring(units, list(samples), facts, timeout)
        try:
            return fn(ring)
        except Restart:
            continue
    raise TooBig("unit refinement")
