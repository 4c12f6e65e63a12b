#!/usr/bin/env python3
"""development: make planted bugs from a list. batch.py FILE.py [ID...] writes /verif/seeded/ID and runs the property's
quick check on the scratch clone /tmp/sc/repo; seed.py test ID validates them fully afterwards."""
import sys, os, subprocess, json
HEAD = "#![allow(dead_code, unused_imports)]\nmod sx; mod clock; mod sup; mod srv; mod cli; mod refs; mod tun; mod h2p; mod h2x; mod srv2; mod cli2h;\nuse sup::*; use bytes::Bytes;\n"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = sys.argv[2:]
def B(id, prop, edits, needs, breaks, demo):
    if ids and id not in ids: return
    sh("git -C /tmp/sc/repo checkout -- .")
    for f, old, new in edits:
        p = "/tmp/sc/repo/src/" + f
        s = open(p).read()
        n = s.count(old)
        if n != 1: print(id, "edit matches", n, "times:", old[:60]); return
        open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, HX_REPO="/tmp/sc/repo", HX_BUILD="/tmp/hxs")
    r = sh(f"python3 check.py {prop} quick", cwd="/verif", env=env)
    lines = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "PROBLEM" in l or l.startswith("  ") or "error" in l]
    print(id, prop, "exit", r.returncode, lines[:2], flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-1500:])
    d = demo if "fn main" in demo else HEAD + "fn main() {\n" + demo + "\n}\n"
    r = subprocess.run(["python3", "/verif/tools/seed.py", "new", id, prop, needs, breaks], input=d, text=True)
exec(open(sys.argv[1]).read())
