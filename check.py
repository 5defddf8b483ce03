#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough]   -- decides one property on /repo's current tree.

1. verifier: symbolic execution of the real sources + one proof obligation per postcondition/path
2. monitor:  the same contracts evaluated on the real library under both installed interpreters
Exit 0: every obligation discharged and no monitored input fails.  Exit 1: VIOLATION line(s)."""
from __future__ import annotations
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = {"np": "/opt/venv/bin/python", "std": "/opt/venv-stdlib/bin/python"}
VENV = {"np": "CPython 3.12 with numpy/astropy/pyproj", "std": "CPython 3.12 without numpy"}


def sym_job(a):
    import gc
    key, params, cfg, seconds, seed = a
    from pyvc.contract import specs
    import contracts  # noqa
    from pyvc import verify
    sp = next(s for s in specs(key[0]) if s.name == key[1])
    t0 = time.time()
    try:
        return verify.verify(sp, params, cfg, seconds=sp.opts.get("seconds", seconds), seed=seed)
    except BaseException as e:  # the verifier itself failed: an undischarged obligation
        import traceback
        return {"contract": sp.name, "params": ",".join(f"{k}={v}" for k, v in params.items()), "cfg": cfg, "paths": 0, "obligations": 1, "discharged": 0,
                "tactics": {}, "unsupported": [], "witnessed_paths": 0, "infeasible_paths": 0, "assumed": [],
                "failed": [{"label": "verifier", "why": f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}", "undecided": True}],
                "wall": round(time.time() - t0, 2), "solver": {}, "inputs": []}


def group(cjobs):
    """several cheap monitor jobs share one scheduler slot"""
    by = {}
    for j in cjobs:
        by.setdefault((j["cfg"], j["only"][0]), []).append(j)
    return [g[i:i + 4] for g in by.values() for i in range(0, len(g), 4)]


def conc_jobs(js):
    return [conc_job(j) for j in js]


def failed_sym(job, why):
    return {"contract": job[0][1], "params": ",".join(f"{k}={v}" for k, v in job[1].items()), "cfg": job[2], "paths": 0, "obligations": 1,
            "discharged": 0, "tactics": {}, "unsupported": [], "witnessed_paths": 0, "infeasible_paths": 0, "assumed": [],
            "failed": [{"label": "verifier", "why": why, "undecided": True}], "wall": 0, "solver": {}, "inputs": []}


class Clock:
    """shared deadline: an alarm with a real failing input cuts the rest of the run short"""

    def __init__(self, seconds):
        self.t0 = time.time()
        self.end = self.t0 + seconds
        self.cut = False

    def shorten(self, seconds):
        e = time.time() + seconds
        if e < self.end:
            self.end, self.cut = e, True


def scheduler(jobs, nproc, deadline):
    """one forked process per job, results through files (no pipes, no threads): a hanging or dying job
    cannot block the check"""
    import shutil
    import signal
    import tempfile
    tmp = tempfile.mkdtemp(prefix="pyvc.")
    clk = deadline if isinstance(deadline, Clock) else Clock(deadline)
    todo, live = list(enumerate(jobs)), {}
    sys.stdout.flush()
    try:
        while todo or live:
            while todo and len(live) < nproc and time.time() < clk.end:
                i, (kind, job, lim) = todo.pop(0)
                out = os.path.join(tmp, str(i))
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        r = sym_job(job) if kind == "sym" else conc_jobs(job)
                        with open(out + ".t", "w") as f:
                            json.dump(r, f, default=str)
                        os.rename(out + ".t", out)
                    finally:
                        os._exit(0)
                live[pid] = (kind, job, out, time.time() + lim)
            done = []
            try:
                pid, _ = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid in live:
                done.append(pid)
            else:
                for p, (kind, job, out, te) in live.items():
                    if time.time() > min(te, clk.end + 20):
                        for k in (lambda: os.killpg(p, signal.SIGKILL), lambda: os.kill(p, signal.SIGKILL), lambda: os.waitpid(p, 0)):
                            try:
                                k()
                            except OSError:
                                pass
                        done.append(p)
                        break
                else:
                    time.sleep(0.01)
            for p in done:
                kind, job, out, te = live.pop(p)
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                elif kind == "sym":
                    r = failed_sym(job, "the verifier process ended without a result or hit its time limit")
                else:
                    r = [{"error": "the monitor ended without a result or hit its time limit", "job": job[0], "results": []}]
                yield kind, job, r
            if time.time() > clk.end and todo:
                for _, (kind, job, _l) in todo:
                    yield kind, job, failed_sym(job, "time limit of the whole check") if kind == "sym" else \
                        [{"error": "time limit of the whole check", "job": job[0], "results": []}]
                todo = []
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def conc_job(job):
    cfg = job["cfg"]
    env = dict(os.environ, XDG_CONFIG_HOME="/opt/vp/xdg/config", XDG_CACHE_HOME="/opt/vp/xdg/cache",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    t = job.get("seconds", 60) + 60
    try:
        p = subprocess.run([PY[cfg], "-W", "ignore", os.path.join(HERE, "pyvc", "concrete.py")], input=json.dumps(job),
                           capture_output=True, text=True, timeout=t, env=env, cwd="/tmp")
        return json.loads(p.stdout)
    except subprocess.TimeoutExpired:
        return {"error": f"monitor did not finish within {t}s (the library hangs?)", "job": job, "results": []}
    except ValueError:
        return {"error": (p.stderr or p.stdout)[-1500:], "job": job, "results": []}


def model_to_inputs(m):
    out = dict(m)
    for k in list(m):
        if k.endswith("_a") and k[:-2] + "_b" in m:
            out[k[:-2]] = [m[k], m[k[:-2] + "_b"]]
        elif k.endswith("_a"):
            out[k[:-2]] = [m[k], m[k]]
    return out


def load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def known_match(prop, contract, params, cfg, inputs, fails, known):
    """every failed label of this run must be covered by a listed finding"""
    hit = None
    for k in known:
        if k["property"] != prop or k["contract"] != contract:
            continue
        if "params" in k and k["params"] != params:
            continue
        if any(inputs.get(n) != v for n, v in k.get("inputs", {}).items()):
            continue
        if all(any(f["label"] == l or f["label"].startswith(l) for l in k["labels"]) for f in fails):
            hit = k
    return hit


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import contracts  # noqa
    from pyvc.contract import specs, pname
    from pyvc.loader import source_hash
    deep = tier == "thorough"
    sps = specs(prop)
    if not sps:
        print(f"no contract for {prop}")
        sys.exit(2)
    n = 3000 if deep else int(os.environ.get("VERIF_N", "250"))
    csec = 420 if deep else 75
    ssec = 400 if deep else 240
    symjobs, cjobs = [], []
    for sp in sps:
        for params in sp.params:
            for cfg in sp.cfg:
                if sp.mode != "bounded":
                    symjobs.append(((prop, sp.name), params, cfg, ssec, seed))
                if sp.mode != "proof":
                    cjobs.append({"prop": prop, "cfg": cfg, "only": [sp.name], "params": pname(params), "n": n, "seed": seed, "seconds": csec})
    symjobs.sort(key=lambda j: -next(s for s in sps if s.name == j[0][1]).opts.get("cost", 1))
    sres, cres, errors = [], [], []
    jobs = [("conc", g, sum(x["seconds"] for x in g) + 60) for g in group(cjobs)] \
        + [("sym", j, j[3] + 90) for j in symjobs]
    known = load_known()
    clk = Clock(100000 if deep else 620)
    limit_all = t0 + (100000 if deep else 820)
    for kind, job, r in scheduler(jobs, 8, clk):
        if kind == "sym":
            sres.append(r)
        else:
            for x in r:
                if "error" in x:
                    errors.append(x)
                cres.extend(x["results"])
                if any(not known_match(prop, y["contract"], y["params"], y["cfg"], f["inputs"], f["fails"], known) for y in x["results"] for f in y["fails"]):
                    clk.shorten(15)
    violations, seen_known = [], {}

    def add_violation(v):
        violations.append(v)

    # monitor failures: real inputs on the real code
    for r in cres:
        for f in r["fails"]:
            k = known_match(prop, r["contract"], r["params"], r["cfg"], f["inputs"], f["fails"], known)
            if k:
                seen_known[k["id"]] = k
                continue
            add_violation({"kind": "failing-input", "contract": r["contract"], "params": r["params"], "cfg": r["cfg"],
                           "inputs": f["inputs"], "fails": f["fails"]})
            break
    for e in errors if not clk.cut else []:
        add_violation({"kind": "monitor-error", "contract": (e["job"].get("only") or ["?"])[0], "params": e["job"].get("params"),
                       "cfg": e["job"]["cfg"], "inputs": None, "fails": [{"label": "monitor", "got": e["error"], "want": "clean run"}]})
    concrete_found = {v["contract"] for v in violations if v["kind"] == "failing-input"}
    # undischarged obligations
    for r in sres:
        if not r["failed"]:
            continue
        und = []
        for d in r["failed"]:
            if prop_known_obl(prop, r, d, known):
                k = prop_known_obl(prop, r, d, known)
                seen_known[k["id"]] = k
                r["known"] = r.get("known", 0) + 1
            else:
                und.append(d)
        if not und:
            continue
        v = {"kind": "undischarged", "contract": r["contract"], "params": r["params"], "cfg": r["cfg"], "obligations": und, "inputs": None}
        sp = next(s for s in sps if s.name == r["contract"])
        if r["contract"] in concrete_found:
            v["see"] = "failing input found by the monitor for this contract"
            add_violation(v)
            continue
        # replay the verifier's counterexamples on the real code
        tried = 0
        if sp.mode != "proof" and not concrete_found and time.time() < limit_all - 70:
            for d in und:
                if "model" in d and tried < 6 and time.time() < limit_all - 70:
                    tried += 1
                    rr = conc_job({"prop": prop, "cfg": r["cfg"], "only": [sp.name], "params": r["params"], "n": 1, "seed": seed,
                                   "replay": model_to_inputs(d["model"]), "seconds": 30})
                    for x in rr["results"]:
                        for f in x["fails"]:
                            if known_match(prop, r["contract"], r["params"], r["cfg"], f["inputs"], f["fails"], known):
                                continue
                            v.update(inputs=f["inputs"], fails=f["fails"], kind="failing-input")
                    if v["inputs"]:
                        break
            if not v["inputs"] and time.time() < limit_all - 70:
                rr = conc_job({"prop": prop, "cfg": r["cfg"], "only": [sp.name], "params": r["params"], "n": n * 10, "seed": seed + 17, "seconds": 60})
                for x in rr["results"]:
                    for f in x["fails"]:
                        if known_match(prop, r["contract"], r["params"], r["cfg"], f["inputs"], f["fails"], known):
                            continue
                        v.update(inputs=f["inputs"], fails=f["fails"], kind="failing-input")
                        break
        if v["inputs"]:
            concrete_found.add(v["contract"])
        add_violation(v)
    write_evidence(prop, tier, seed, sps, sres, cres, violations, seen_known, t0, source_hash())
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {seen_known[k]['text']}")
    tot = sum(r["obligations"] for r in sres)
    dis = sum(r["discharged"] for r in sres)
    print(f"{prop}: {dis}/{tot} obligations discharged over {sum(r['paths'] for r in sres)} paths; "
          f"{sum(r['runs'] for r in cres)} monitored runs, {sum(r['checks'] for r in cres)} run-time checks; {time.time()-t0:.1f}s")
    if violations:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        violations.sort(key=lambda v: 0 if v["kind"] == "failing-input" else 1)
        real = [v for v in violations if v["kind"] == "failing-input"]
        path = os.path.join(HERE, "replay", f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "how": f"python3-vt {HERE}/replay.py {path}", "violations": violations}, f, indent=1, default=str)
        for v in violations[:8]:
            print("  ", v["kind"], v["contract"], v.get("params"), v["cfg"], json.dumps(v.get("inputs")),
                  json.dumps((v.get("fails") or v.get("obligations"))[:1], default=str)[:400])
        print(f"VIOLATION property={prop} replay={path}" + ("" if real else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


def prop_known_obl(prop, r, d, known):
    for k in known:
        if k["property"] == prop and k["contract"] == r["contract"] and k.get("obligations") \
                and any(d["label"] == l or d["label"].startswith(l) for l in k["labels"]) and ("params" not in k or k["params"] == r["params"]):
            return k
    return None


def write_evidence(prop, tier, seed, sps, sres, cres, violations, seen_known, t0, srchash):
    proved = [s for s in sps if s.mode != "bounded"]
    tot = sum(r["obligations"] for r in sres)
    dis = sum(r["discharged"] for r in sres)
    tact = {}
    solver = {}
    for r in sres:
        for k, v in r["tactics"].items():
            tact[k] = tact.get(k, 0) + v
        for k, v in r["solver"].items():
            solver[k] = round(solver.get(k, 0) + v, 3)
    from pyvc.meta import META, TRUSTED
    m = META.get(prop, {})
    level = m.get("level", "proof" if proved else "exploration")
    samples = []
    for r in cres:
        for s in r["samples"][:1]:
            samples.append({"contract": r["contract"], "params": r["params"], "cfg": r["cfg"], "inputs": s})
    cov = {
        "obligations": tot, "discharged": dis + sum(r.get("known", 0) for r in sres) * 0,
        "checker_cmd": f"python3-vt check.py {prop} {tier}",
        "trusted_base": TRUSTED,
        "back_ends": tact, "solver": solver,
        "functions_under_contract": m.get("functions", []),
        "contracts": [{"contract": r["contract"], "params": r["params"], "cfg": r["cfg"], "paths": r["paths"], "witnessed_paths": r["witnessed_paths"],
                       "obligations": r["obligations"], "discharged": r["discharged"], "wall_s": r["wall"], "assumed": sorted(set(r["assumed"]))}
                      for r in sorted(sres, key=lambda r: (r["contract"], r["params"], r["cfg"]))],
        "source_sha256_16": srchash,
        "bounded": {
            "evaluations": sum(r["runs"] for r in cres), "checks": sum(r["checks"] for r in cres),
            "contracts": [{k: r.get(k) for k in ("contract", "params", "cfg", "runs", "skipped", "checks", "distinct", "wall")} for r in cres],
        },
        "evaluations": sum(r["runs"] for r in cres),
        "distinct_nontrivial": sum(r.get("distinct", 0) for r in cres),
        "rule": "an input counts once per contract instance (contract, parameters, interpreter) when it satisfies the precondition and differs from the earlier ones",
        "samples": samples[:20],
        "known_findings": sorted(seen_known),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": m.get("assumptions", []) + ["real arithmetic: the obligations treat machine floats as mathematical reals; rounding is exercised only by the bounded run-time monitor"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    main()
