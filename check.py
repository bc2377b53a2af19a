#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      run one check
   check.py --replay <file>                 run one recorded case again"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt.core import Check, strip  # noqa: E402


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        ck = Check(r["property"], "quick")
        case = strip(r["case"])
        try:
            ck.drive(case["driver"], [case])
            bad = ck.validate(r["module"], r["verdict"], [case], record=False)
        finally:
            ck.cleanup()
        print(json.dumps(case, indent=1))
        print("broken clauses:", bad[0][1] if bad else "none")
        return 1 if bad else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = Check(pid, tier)
    try:
        importlib.import_module(f"vt.checks.{pid.lower()}").run(ck)
        for k in ck.known:   # listed findings are tried on every run
            case = json.loads(json.dumps(k["input"]))
            ck.drive(case["driver"], [case])
            if ck.validate(k["module"], k["verdict"], [case], record=False):
                ck.known_hits.append(k)
        return ck.finish(assumptions=getattr(importlib.import_module(f"vt.checks.{pid.lower()}"), "ASSUMPTIONS", ()))
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ck.cleanup()


sys.exit(main())
