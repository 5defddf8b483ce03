"""Path exploration: depth-first re-execution with recorded decisions."""
from __future__ import annotations
import random
import sys
import time

import mpmath

from . import symlib as sl
from . import term as tm

MP = mpmath.mp.clone()
MP.dps = 40
TINY = MP.mpf(10) ** (-28)

NEGREL = {"<": lambda t: ("<=", tm.neg(t)), "<=": lambda t: ("<", tm.neg(t)),
          "==": lambda t: ("!=", t), "!=": lambda t: ("==", t)}


def canon(rel, t):
    """scale the literal so that syntactically proportional literals coincide"""
    t = tm.strip_unit(t)[0]
    if t.op == "+":
        k = t.args[1][0][1] if t.args[1] else t.args[0]
        k = abs(k)
        if rel in ("==", "!=") and t.args[1] and t.args[1][0][1] < 0:
            k = -k
        t = tm.scale(t, 1 / k)
    return rel, t


def holds_num(rel, v):
    if MP.isnan(v):
        return rel == "!="
    if abs(v) < TINY:
        v = 0
    return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[rel]


class Lit(tuple):
    pass


class Path:
    def __init__(self, pc, outcome, value, events, samples, decisions, obls=(), lemmas=()):
        self.obls = list(obls)
        self.lemmas = list(lemmas)
        self.pc = pc
        self.outcome = outcome     # 'ret' | exception class name | 'unsupported'
        self.value = value
        self.events = events
        self.samples = samples     # indices
        self.decisions = decisions

    def describe(self):
        return [f"{tm.show(t, 7)} {r} 0" for r, t in self.pc]


class Ctx:
    def __init__(self, prover=None, seed=1, nsamples=80):
        self.assumptions: list = []       # literals
        self.vars: dict = {}              # name -> sampler
        self.prover = prover
        self.rng = random.Random(seed)
        self.nsamples = nsamples
        self.evals: list = []
        self.pc: list = []
        self.pcset: set = set()
        self.decisions: list = []
        self.prefix: list = []
        self.alts: list = []
        self.events: list = []
        self.alive: list = []
        self.nfresh: dict = {}
        self.max_paths = 4000
        self.prune = True         # False: paths are not tested for feasibility (more, possibly infeasible, paths); "eq": only divisions are
        self.havocs: dict = {}
        self.forced_cache: dict = {}
        self.deadline = None
        self.pathid = object()

    # ---- declaration of inputs
    def real(self, name, sampler=None):
        self.vars[name] = sampler
        return tm.var(name)

    def assume(self, rel, t):
        lit = canon(rel, t)
        if lit in self.assumptions:
            return
        if lit[1].op == "c":
            if not holds_num(rel, MP.mpf(lit[1].args[0].numerator)):
                raise sl.PathEnd("assumption false")
            return
        self.assumptions.append(lit)
        self.pcset.add(lit)
        self.keep([k for k, ev in enumerate(self.evals) if holds_num(rel, ev(t))])

    def axiom(self, rel, t):
        """fact about a callee result (holds for every sample by construction)"""
        lit = canon(rel, t)
        if lit[1].op != "c" and lit not in self.assumptions:
            self.assumptions.append(lit)
        self.pcset.add(lit)

    def lemma(self, rel, t):
        """ghost lemma of this path (its own obligations do not use it)"""
        lit = canon(rel, t)
        if lit[1].op == "c" or lit in self.pcset:
            return
        self.pc.append(lit)
        self.pcset.add(lit)

    def keep(self, idx):
        """drop samples outside idx (renumbering the alive ones)"""
        if len(idx) == len(self.evals):
            return
        ren = {k: i for i, k in enumerate(idx)}
        self.evals = [self.evals[k] for k in idx]
        self.alive = [ren[k] for k in self.alive if k in ren]

    def declare(self, name, sampler, lits=()):
        """universally quantified input with immediate preconditions on it"""
        v = tm.var(name)
        if name in self.vars:
            return v
        self.vars[name] = sampler
        lits = [canon(r, t) for r, t in lits]
        keep = []
        for k, ev in enumerate(self.evals):
            ok = False
            for _ in range(60):
                x = sampler(self.rng, ev.env)
                ev.env[name] = x if isinstance(x, MP.mpf) else MP.mpf(x)
                e2 = tm.Evaluator(ev.env, MP)
                if all(holds_num(r, e2(t)) for r, t in lits):
                    ok = True
                    break
            if ok:
                keep.append(k)
        self.keep(keep)
        if not self.evals:
            raise RuntimeError("vacuous precondition: no sample satisfies the assumptions on " + name)
        for lit in lits:
            if lit not in self.assumptions:
                self.assumptions.append(lit)
                self.pcset.add(lit)
        return v

    def start(self):
        """fresh sample environments"""
        self.evals = [tm.Evaluator({}, MP) for _ in range(self.nsamples)]
        self.alive = list(range(len(self.evals)))

    def finish_inputs(self, tries=4000):
        """draw samples satisfying the assumptions"""
        names = list(self.vars)
        n = 0
        while len(self.evals) < self.nsamples and n < tries:
            n += 1
            env = {}
            for k in names:
                s = self.vars[k]
                env[k] = s(self.rng, env) if s else MP.mpf(self.rng.uniform(-10, 10))
            env = {k: MP.mpf(v) if not isinstance(v, MP.mpf) else v for k, v in env.items()}
            ev = tm.Evaluator(env, MP)
            if all(holds_num(r, ev(t)) for r, t in self.assumptions):
                self.evals.append(ev)
        if not self.evals:
            raise RuntimeError("vacuous precondition: no sample satisfies the assumptions")

    def fresh(self, name):
        """arbitrary value (havoc)"""
        k = self.nfresh.get(name, 0)
        self.nfresh[name] = k + 1
        full = f"~{name}" + (f"'{k}" if k else "")
        if full not in self.havocs:
            self.havocs[full] = True
            r = random.Random(full)
            for ev in self.evals:
                ev.env[full] = self.havoc_sample(full, r, ev)
        return tm.var(full)

    def havoc_sample(self, name, rng, ev):
        return MP.mpf(rng.choice([rng.uniform(-0.1, 3.2), rng.uniform(0, 1), rng.uniform(0, 60)]))

    def event(self, kind, what):
        self.events.append((kind, what))

    # ---- decisions
    def known(self, rel, t):
        """cheap entailment test, no forking"""
        lit = canon(rel, t)
        if lit in self.pcset:
            return True
        return self._entails(lit, cheap=True)

    def entails(self, rel, t):
        """full entailment test, no forking"""
        if t.op == "c":
            return {"<": t.args[0] < 0, "<=": t.args[0] <= 0, "==": t.args[0] == 0, "!=": t.args[0] != 0}[rel]
        lit = canon(rel, t)
        return lit in self.pcset or self._entails(lit)

    def _entails(self, lit, cheap=False):
        key = (lit, frozenset(self.pcset), cheap)
        r = self.forced_cache.get(key)
        if r is None:
            r = False
            if not cheap and (not self.prune or self.prune == "eq" and lit[0] not in ("==", "!=")):
                from .prove import ERR
                try:
                    r = self.prover.interval(self.assumptions + self.pc, *lit)
                except ERR:
                    pass
            elif self.prover:
                from .prove import limit, Timeout
                try:
                    with limit(2 if cheap else 3 if self.prune == "eq" else 12):
                        r = self.prover.entails(self.assumptions + self.pc, lit, cheap=cheap)
                except (Timeout, RecursionError):
                    self.prover.rings.clear()
            self.forced_cache[key] = r
        return r

    def branch(self, rel, t):
        lit = canon(rel, t)
        nlit = canon(*NEGREL[rel](t))
        if lit[1].op == "c":
            v = lit[1].args[0]
            return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[lit[0]]
        if lit in self.pcset:
            return True
        if nlit in self.pcset:
            return False
        # implied by stronger facts
        if rel == "<=" and (canon("<", t) in self.pcset or canon("==", t) in self.pcset):
            return True
        if rel == "!=" and (canon("<", t) in self.pcset or canon("<", tm.neg(t)) in self.pcset):
            return True
        if rel == "==" and (canon("<", t) in self.pcset or canon("<", tm.neg(t)) in self.pcset):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if self.deadline and time.time() > self.deadline:
                raise sl.Unsupported("path exploration time limit")
            tr = [k for k in self.alive if holds_num(rel, self.evals[k](t))]
            nt = len(tr)
            nf = len(self.alive) - nt
            if nt and nf:
                d = True
                self.alts.append(self.decisions + [False])
            elif nt or (not nf):
                # true side has the witnesses (or none has): can the false side happen?
                if self._entails(lit):
                    d = True
                elif not nf and not nt and self._entails(nlit):
                    d = False
                else:
                    d = True
                    self.alts.append(self.decisions + [False])
            else:
                if self._entails(nlit):
                    d = False
                else:
                    d = False
                    self.alts.append(self.decisions + [True])
        self.decisions.append(d)
        self._push(lit if d else nlit)
        return d

    def _push(self, lit):
        self.pc.append(lit)
        self.pcset.add(lit)
        rel, t = lit
        self.alive = [k for k in self.alive if holds_num(rel, self.evals[k](t))]

    def reset(self, prefix):
        self.prefix = prefix
        self.pathid = object()
        self.decisions = []
        self.pc = []
        self.pcset = set(self.assumptions)
        self.events = []
        self.nfresh = {}
        self.obls = []
        self.lemmas = []
        self.alive = list(range(len(self.evals)))


def explore(ctx: Ctx, call, before_path=None, time_limit=120):
    """all paths of call() -> list[Path]; call runs the real code on symbolic arguments"""
    sys.setrecursionlimit(20000)
    work = [[]]
    out = []
    ctx.deadline = time.time() + time_limit
    sl.set_ctx(ctx)
    cut = 0
    while work:
        if len(out) + cut > ctx.max_paths:
            out.append(Path([], "unsupported", "too many paths", [], [], []))
            break
        prefix = work.pop()
        ctx.alts = []
        ctx.reset(prefix)
        sl.WARN.mode = "default"
        try:
            if before_path:
                before_path()
            v = call()
            oc = "ret"
        except sl.PathEnd:
            oc = None
            cut += 1
            v = None
        except sl.Unsupported as e:
            oc, v = "unsupported", str(e)
        except RecursionError as e:
            oc, v = "unsupported", "recursion"
        except Exception as e:
            import traceback
            oc = type(e).__name__
            v = str(e)
            if isinstance(e, sl.SymRuntimeWarning):
                oc = "RuntimeWarning"
            tb = traceback.extract_tb(e.__traceback__)
            v += f" @ {tb[-1].filename.rsplit('/', 1)[-1]}:{tb[-1].lineno}"
        if oc is not None:
            out.append(Path(list(ctx.pc), oc, v, list(ctx.events), list(ctx.alive), list(ctx.decisions), ctx.obls, ctx.lemmas))
        work.extend(ctx.alts)
        if oc == "unsupported" and "time limit" in str(v):
            break
    return out
