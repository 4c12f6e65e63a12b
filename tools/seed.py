#!/usr/bin/env python3
"""development: make and validate planted bugs.
 seed.py new ID PROP NEEDS BREAKS   take the working-tree diff of the scratch repo /tmp/sc/repo as the patch, demo.rs from stdin
 seed.py test ID [nochk]            validate it against /repo (applied and undone)"""
import sys, os, json, subprocess, shutil, glob, time
V = "/verif/seeded"; T = "/verif/tools/demo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(i, prop, needs, breaks):
    d = f"{V}/{i}"; os.makedirs(d, exist_ok=True)
    diff = sh("git -C /tmp/sc/repo diff -- src").stdout
    assert diff.strip(), "no diff"
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(sys.stdin.read())
    for f in glob.glob(T + "/*"): shutil.copy(f, d)
    for f in ("sup", "srv", "cli", "clock", "refs", "tun", "h2p", "h2x", "srv2", "cli2h"): shutil.copy(f"/verif/harness/src/{f}.rs", d)
    sh("git -C /tmp/sc/repo checkout -- .")
def test(i, chk=True):
    d = f"{V}/{i}"; prop = json.load(open(d + "/meta.json"))["property"]
    out = {}
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); out["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    assert not sh("git -C /repo status --porcelain").stdout
    r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
    try:
        r = sh("bash /opt/vp/build.sh"); out["build"] = r.returncode
        if r.returncode: print(r.stdout[-2000:]); return out
        sh("bash /opt/vp/test.sh /tmp/t.json")
        res = json.load(open("/tmp/t.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(res.get("passed", []))
        out["broken_tests"] = [t for t in base if t not in passed][:5]
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); out["demo_bug"] = (r.returncode, r.stdout.strip()[-200:])
        if chk:
            t0 = time.time(); r = sh(f"python3 check.py {prop} quick", cwd="/verif"); out["check"] = (r.returncode, [l for l in r.stdout.split("\n") if "VIOLATION" in l or "PROBLEM" in l or l.startswith("  ")][:3], round(time.time() - t0))
            if r.returncode != 1: print(r.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    return out
if sys.argv[1] == "new": new(*sys.argv[2:6])
else:
    for i in sys.argv[2:]: print(i, json.dumps(test(i)), flush=True)
