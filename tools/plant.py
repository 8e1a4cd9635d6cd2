#!/usr/bin/env python3
"""
tools/plant.py new ID      read tools/bugs/ID.py (PROPERTY, EDITS, NEEDS, BREAKS, DEMO), make seeded/ID, validate in a scratch copy
tools/plant.py catch [ID…] apply each seeded bug to /repo, run its property's quick check, undo; results in tools/seeded_results.json
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def new(spec, scratch="/tmp/plant_repo"):
    ns = {}
    exec(open(spec).read(), ns)
    for i, b in ns["BUGS"].items():
        one(i, b, scratch)


def one(i, b, scratch):
    d = os.path.join(S, i)
    if os.path.exists(os.path.join(d, "ok")):
        return
    if not os.path.exists(scratch):
        sh(f"cp -a /repo {scratch}")
    sh(f"git -C {scratch} fetch -q /repo HEAD; git -C {scratch} reset -q --hard; git -C {scratch} checkout -q -f FETCH_HEAD")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, old, nw in b["edits"]:
        p = os.path.join(scratch, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(i, "EDIT DOES NOT APPLY", f, s.count(old))
            shutil.rmtree(d)
            return
        open(p, "w").write(s.replace(old, nw))
    open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {scratch} diff").stdout)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(V, "tools/demo/mini.py"), d)
    open(os.path.join(d, "demo.py"), "w").write("from mini import *\n" + b["demo"].lstrip("\n") + "\ndone()\n")
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/sh\nD=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$D" exec /opt/venv/bin/python "$D/demo.py"\n')
    # compare
    r0 = sh(f"sh {d}/demo.sh", cwd="/repo")
    r1 = sh(f"sh {d}/demo.sh", cwd=scratch)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    out = f"/tmp/plant_{i}.json"
    # the test script works on /repo: apply there, test, undo
    sh(f"git -C /repo apply {d}/patch.diff")
    try:
        sh("bash /opt/vp/build.sh")
        sh(f"bash /opt/vp/test.sh {out}")
    finally:
        sh("git -C /repo checkout -- .")
    passed = set(json.load(open(out))["passed"])
    os.remove(out)
    lost = [t for t in base if t not in passed]
    ok = r0.returncode == 0 and r1.returncode != 0 and not lost
    print(i, "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "lost tests:", lost[:3], flush=True)
    if not ok:
        print((r0.stdout + r0.stderr)[-800:] if r0.returncode else "", (r1.stdout + r1.stderr)[-300:])
        shutil.move(d, f"/tmp/bad_{i}_{int(time.time())}")
    else:
        print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])


def catch(ids):
    rf = os.path.join(V, "tools", "seeded_results.json")
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    for i in ids or sorted(os.listdir(S)):
        meta = json.load(open(os.path.join(S, i, "meta.json")))
        p = meta["property"]
        a = sh(f"git -C /repo apply {S}/{i}/patch.diff")
        if a.returncode:
            print(i, "patch does not apply", a.stderr[:200])
            continue
        t = time.time()
        try:
            r = sh(f"/opt/venv/bin/python {V}/check.py {p} --tier quick", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        finally:
            sh("git -C /repo checkout -- .")
        m = re.findall(r"scenario=(\S+) claim=(\S+)", r.stdout)
        res[i] = dict(property=p, caught=r.returncode == 1, rc=r.returncode, by=sorted({f"{a}: {b}" for a, b in m})[:3])
        print(i, p, "caught" if r.returncode == 1 else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", m[:2], flush=True)
        if r.returncode != 1:
            print(r.stdout[-600:])
        json.dump(res, open(rf, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2])
    else:
        catch(sys.argv[2:])
