"""z3 / cvc5 back ends over the generators of a Ring."""
from __future__ import annotations
from fractions import Fraction as Q

import z3

STATS = {"z3_queries": 0, "z3_unsat": 0, "z3_time": 0.0, "cvc5_queries": 0, "cvc5_unsat": 0, "cvc5_time": 0.0}


class Enc:
    def __init__(self, ring):
        self.ring = ring
        self.vars = {}

    def var(self, g):
        v = self.vars.get(g)
        if v is None:
            gen = self.ring.gens[g]
            v = self.vars[g] = z3.Real(f"g{g}")
        return v

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            first = c == 1 and m
            acc = None
            for g, e in m:
                for _ in range(e):
                    acc = self.var(g) if acc is None else acc * self.var(g)
            ts.append(acc if (c == 1 and acc is not None) else t if acc is None else t * acc)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]


def _rel(rel, e):
    return {"<": e < 0, "<=": e <= 0, "==": e == 0, "!=": e != 0}[rel]


def axioms(ring, enc, gids):
    """defining facts of the generators gids (closure)"""
    out = []
    done = set()
    work = list(gids)
    while work:
        g = work.pop()
        if g in done:
            continue
        done.add(g)
        gen = ring.gens[g]
        v = enc.var(g)
        if gen.pos == 2:
            out.append(v > 0)
        elif gen.pos == 1:
            out.append(v >= 0)
        elif gen.pos == -1:
            out.append(v <= 0)
        elif gen.pos == -2:
            out.append(v < 0)
        if gen.kind == "pi":
            out += [v > z3.RealVal("3.14159265358979"), v < z3.RealVal("3.14159265358980")]
        if gen.rule is not None:
            d, p = gen.rule
            lhs = v
            for _ in range(d - 1):
                lhs = lhs * v
            out.append(lhs == enc.poly(p))
            work += [h for m in p for h, _ in m]
        if gen.kind in ("cos", "sin"):
            out += [v <= 1, v >= -1]
        if gen.kind == "fun":
            name = gen.data[0]
            pi = ring.nf(__import__("pyvc.term", fromlist=["PI"]).PI)
            pg = next(iter(pi.num))[0][0]
            a = ring.fun_args(gen)
            if name in ("atan", "asin"):
                out += [v <= enc.var(pg) / 2, v >= -enc.var(pg) / 2]
                work.append(pg)
                x = a[0]
                if not x.den or True:
                    # sign of value follows sign of argument
                    sx = _signed(ring, enc, x)
                    if sx is not None:
                        out += [z3.Implies(sx > 0, v > 0), z3.Implies(sx < 0, v < 0), z3.Implies(sx == 0, v == 0)]
                        work += _gids(x)
            if name == "log":
                ex, d = _frac(ring, enc, a[0])
                if d is None:
                    out += [z3.Implies(ex > 1, v > 0), z3.Implies(ex < 1, v < 0), z3.Implies(ex > 0, v <= ex - 1), z3.Implies(ex > 0, v * ex >= ex - 1)]
                    work += _gids(a[0])
            if name == "atan2":
                out += [v <= enc.var(pg), v > -enc.var(pg)]
                work.append(pg)
                sy, sx = _signed(ring, enc, a[0]), _signed(ring, enc, a[1])
                if sy is not None and sx is not None:
                    out += [z3.Implies(sy > 0, v > 0), z3.Implies(sy < 0, v < 0),
                            z3.Implies(sx > 0, z3.And(v < enc.var(pg) / 2, v > -enc.var(pg) / 2)),
                            z3.Implies(z3.And(sx >= 0), z3.And(v <= enc.var(pg) / 2, v >= -enc.var(pg) / 2)),
                            z3.Implies(z3.And(sx < 0), z3.Or(v > enc.var(pg) / 2, v < -enc.var(pg) / 2))]
                    work += _gids(a[0]) + _gids(a[1])
            if name == "floor":
                x = a[0]
                iv = z3.Int(f"k{g}")
                out.append(v == z3.ToReal(iv))
                ex, d = _frac(ring, enc, x)
                if d is None:
                    out += [v <= ex, ex < v + 1]
                else:
                    w = z3.Real(f"q{g}")
                    out += [w * d == ex, d != 0, v <= w, w < v + 1]
                work += _gids(x)
        if gen.kind == "exp":
            out.append(v > 0)
    logs = [(enc.var(g), _frac(ring, enc, ring.fun_args(ring.gens[g])[0])) for g in sorted(done)
            if ring.gens[g].kind == "fun" and ring.gens[g].data[0] == "log"]
    logs = [(v, e) for v, (e, d) in logs if d is None]
    for i, (v, e) in enumerate(logs[:6]):
        for w, f in logs[:i]:
            out += [z3.Implies(z3.And(e > 0, e < f), v < w), z3.Implies(z3.And(f > 0, f < e), w < v)]
    return out, done


def _gids(r):
    s = [h for m in r.num for h, _ in m]
    return s


def _signed(ring, enc, r):
    p = r.num
    for k, e in r.den:
        if e % 2:
            q = ring.key_poly(k)
            s = ring.struct_sign(q)
            if abs(s) == 2:
                if s < 0:
                    p = {m: -c for m, c in p.items()}
                continue
            p = ring.pmul(p, q)
    if len(p) > 400:
        return None
    return enc.poly(p)


def _frac(ring, enc, r):
    if not r.den:
        return enc.poly(r.num), None
    return enc.poly(r.num), enc.poly(ring.den_poly(r.den))


def entails_poly(ring, rel, p, timeout=4000, extra=(), relevant=True, backend="z3"):
    """facts(ring) |= p rel 0 ?"""
    import time
    ring.ensure_facts()
    enc = Enc(ring)
    gids = {h for m in p for h, _ in m}
    cons = []
    facts = list(ring.fact_polys) + [(r, q, None) for r, q in extra]
    used = set(gids)
    # closure over shared generators (two rounds)
    ax, done = axioms(ring, enc, gids)
    used |= done
    fs = []
    for _ in range(3):
        for f in facts:
            if f in fs:
                continue
            gs = {h for m in f[1] for h, _ in m}
            if not gs or (gs & used):
                if len(f[1]) > 300:
                    continue
                fs.append(f)
                used |= gs
        ax, done = axioms(ring, enc, used)
        used |= done
    for r, q, _ in fs:
        cons.append(_rel(r, enc.poly(q)))
    neg = z3.Not(_rel(rel, enc.poly(p)))
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.set("random_seed", 1)
    s.add(ax + cons + [neg])
    STATS["z3_queries"] += 1
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        STATS["z3_unsat"] += 1
        return True
    if r == z3.unknown and backend != "z3only":
        # second opinion: pure nonlinear solver of z3, then cvc5
        if not any(ring.gens[g].kind == "fun" and ring.gens[g].data[0] == "floor" for g in used):
            s2 = z3.SolverFor("QF_NRA")
            s2.set("timeout", int(timeout))
            s2.add(ax + cons + [neg])
            t0 = time.time()
            STATS["z3_queries"] += 1
            r = s2.check()
            STATS["z3_time"] += time.time() - t0
            if r == z3.unsat:
                STATS["z3_unsat"] += 1
                return True
        if r == z3.unknown and backend == "both":
            return cvc5_unsat(s.to_smt2(), timeout)
    return False


def cvc5_unsat(smt2, timeout):
    import subprocess
    import time
    t0 = time.time()
    STATS["cvc5_queries"] += 1
    try:
        o = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(timeout)}", "-"], input="(set-logic ALL)\n" + smt2,
                           capture_output=True, text=True, timeout=timeout / 1000 + 5).stdout
    except Exception:
        o = ""
    STATS["cvc5_time"] += time.time() - t0
    if o.strip().splitlines()[:1] == ["unsat"]:
        STATS["cvc5_unsat"] += 1
        return True
    return False


def inconsistent(ring, timeout=4000):
    """facts(ring) contradictory?"""
    import time
    ring.ensure_facts()
    enc = Enc(ring)
    used = {h for f in ring.fact_polys for m in f[1] for h, _ in m}
    ax, done = axioms(ring, enc, used)
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.set("random_seed", 1)
    s.add(ax)
    for r, q, _ in ring.fact_polys:
        if len(q) <= 300:
            s.add(_rel(r, enc.poly(q)))
    t0 = time.time()
    STATS["z3_queries"] += 1
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        STATS["z3_unsat"] += 1
        return True
    return False


def implies(hyps, goal, timeout=10000):
    """(and hyps) => goal for all reals: polynomial literals over plain variables"""
    import time
    vs = {}

    def enc(t):
        if t.op == "c":
            return z3.RealVal(str(t.args[0]))
        if t.op == "v":
            return vs.setdefault(t.args[0], z3.Real(t.args[0]))
        if t.op == "+":
            c, ks = t.args
            return z3.Sum([z3.RealVal(str(c))] + [z3.RealVal(str(k)) * enc(x) for x, k in ks])
        if t.op == "*" and all(e > 0 for _, e in t.args):
            return z3.Product([enc(b) for b, e in t.args for _ in range(e)])
        raise TypeError(f"cut outside polynomial arithmetic: {t.op}")
    cons = [_rel(r, enc(t)) for r, t in hyps] + [z3.Not(_rel(goal[0], enc(goal[1])))]
    for mk in (lambda: z3.SolverFor("QF_NRA"), z3.Solver):
        s = mk()
        s.set("timeout", int(timeout))
        s.add(cons)
        t0 = time.time()
        STATS["z3_queries"] += 1
        r = s.check()
        STATS["z3_time"] += time.time() - t0
        if r == z3.unsat:
            STATS["z3_unsat"] += 1
            return True
        if r == z3.sat:
            return False
    return False
