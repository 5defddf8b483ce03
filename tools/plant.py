#!/usr/bin/env python3
"""plant.py BATCH.py: builds /verif/seeded/<id>/ from BATCH's list BUGS of dicts(id, prop, file, edits=[(old,new)], needs, breaks, demo)
and confirms each in a scratch copy: applies, tests pass, demo 0 without / nonzero with the change."""
import json, os, shutil, subprocess, sys
R = "/verif/seeded"
DEMO = '''#!/bin/sh
# runs the library from the current directory's src
export PYTHONDONTWRITEBYTECODE=1 XDG_CONFIG_HOME=/opt/vp/xdg/config XDG_CACHE_HOME=/opt/vp/xdg/cache
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys, math
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        wt = "/tmp/plant_wt"
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, symlinks=True)
        p = f"{wt}/src/pymap3d/{b['file']}"
        edits = b["edits"]
        files = {}
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
            p = f"{wt}/src/pymap3d/{f}"
            s = open(p).read()
            assert s.count(old) >= 1, (b["id"], old)
            assert s.count(old) == 1 or b.get("multi"), (b["id"], "ambiguous", old)
            open(p, "w").write(s.replace(old, new, 1))
        d = f"{R}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        diff = sh(f"git -C {wt} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(PRE + b["demo"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok0 = sh(f"sh {d}/demo.sh", cwd="/repo")
        ok1 = sh(f"sh {d}/demo.sh", cwd=wt)
        r = sh(f"git -C /repo apply --check {d}/patch.diff")
        # test-suite on the real tree with the change, then undo
        sh(f"git -C /repo apply {d}/patch.diff")
        try:
            sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/plant_o.json")
            t = sh("sed s,/tmp/o.json,/tmp/plant_o.json, /tmp/cmp.py | python3 -").stdout.strip()
        finally:
            sh("git -C /repo checkout -- .")
        good = ok0.returncode == 0 and ok1.returncode != 0 and r.returncode == 0 and t.endswith("[]")
        print(b["id"], "OK" if good else "BAD", "demo", ok0.returncode, ok1.returncode, "tests", t[-200:], (ok0.stderr[-300:] if ok0.returncode else ""), ("" if ok1.returncode else "patched demo passed"))
        if not good:
            shutil.rmtree(d)
        shutil.rmtree(wt, ignore_errors=True)
    sh("bash /opt/vp/build.sh")


main()
