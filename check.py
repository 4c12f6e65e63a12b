#!/usr/bin/env python3
"""check.py ID [quick|thorough]   |   check.py --setup   |   check.py --replay FILE"""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import hxlib, props


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        hxlib.build_engine()
        hxlib.build_ir(props.GROUPS[0])
        return 0
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        eng, ld = hxlib.build_engine()
        ll, so, _ = hxlib.build_ir(r["group"])
        ok, raw = hxlib.reproduces(ld, so, r["entry"], r["violation"])
        print(raw)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return hxlib.run_check(a[0], props.PROPS[a[0]], tier)


try:
    sys.exit(main())
except hxlib.Fail as e:
    print("ERROR " + str(e))
    sys.exit(3)
