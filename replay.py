#!/opt/veriftools/pyvenv/bin/python
"""replay.py FILE: re-runs the recorded failing inputs on the real library"""
import json
import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from check import conc_job
d = json.load(open(sys.argv[1]))
bad = 0
for v in d["violations"]:
    if v.get("inputs") is None:
        print("no input:", v["contract"], json.dumps(v.get("obligations"), default=str)[:1500])
        continue
    r = conc_job({"prop": d["property"], "cfg": v["cfg"], "only": [v["contract"]], "params": v["params"], "n": 1, "seed": 1,
                  "replay": v["inputs"], "seconds": 60})
    for x in r["results"]:
        print(v["contract"], v["params"], v["cfg"], json.dumps(v["inputs"]))
        for f in x["fails"]:
            bad += 1
            for g in f["fails"]:
                print("   fails:", g)
sys.exit(1 if bad else 0)
