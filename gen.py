#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from lib/props.py"""
import os, sys, json
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import props
rows, checks, na = [], [], []
def row(i, p):
    assert len(p["title"]) <= 80, i
    assert p["statement"].count(". ") <= 2, i
    rows.append({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
for i in sorted(props.PROPS):
    p = props.PROPS[i]
    row(i, p)
    q = "; ".join(e["bound"] for e in p["entries"] if not e.get("thorough"))
    t = "; ".join(e["bound"] for e in p["entries"] if e.get("thorough"))
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "symbolic execution of the compiled LLVM IR of hyper with SMT (z3), every path within the bound",
        "level": "model_checking", "level_note": "Exhaustive within: " + q + "." + (" Thorough adds: " + t + "." if t else "") + (" " + p["note"] if p["note"] else "") + " Nothing is claimed outside these bounds. Trusts rustc/LLVM, the executor in engine/ (sampled paths are replayed natively on every run), z3, and the scripted transport of the harness."})
for i, p, reason in props.NA:
    row(i, p)
    na.append({"property": i, "reason": reason})
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(r) + "\n" for r in rows))
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the harnesses use hyper's public API only. Generated by gen.py from lib/props.py."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
L = [open(os.path.join(V, "lib/design_head.md")).read(), "## Properties: what each check specifies, over what, and within what bounds\n\nEach is decided by symbolic execution of the harness entries named (in `harness/src/<group>.rs`) as described above; the oracle is the reference in that file.\n\n"]
for i in sorted(props.PROPS):
    p = props.PROPS[i]
    L.append("### %s  %s  (`%s.rs`)\n\n%s\n\n*Quantified over* %s. *Why tests cannot:* %s\n\n*Code:* %s\n\n" % (i, p["title"], p["group"], p["statement"], p["qtext"], p["why"], "; ".join("%s (%s)" % m for m in p["mech"])))
    for e in p["entries"]: L.append("* `%s`%s: %s\n" % (e["entry"], " (thorough)" if e.get("thorough") else "", e["bound"]))
    for a in p.get("assumptions") or []: L.append("* *assumes* %s\n" % a)
    if p["note"]: L.append("* %s\n" % p["note"])
    L.append("\n")
if props.NA: L.append("### Not applicable\n\n" + "".join("* **%s** %s: %s\n" % (i, p["title"], r) for i, p, r in props.NA) + "\n")
L.append("## Genuine defects found\n\nEach was reproduced against the real code by a check's counterexample and repaired by the commit named (`fix:` in /repo). One that lies in a dependency is listed as a known finding instead.\n\n")
for k in json.load(open(os.path.join(V, "known_findings.json"))): L.append("* **%s** not repaired (known finding): %s\n" % (k["property"], k["what"]) if k["status"] == "known" else "* **%s** %s: %s\n" % (k["property"], k["commit"], k["what"].split(k["commit"], 1)[1].strip()))
L.append("\n" + open(os.path.join(V, "lib/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(L))
print(len(checks), "checks", len(na), "not applicable")
