#!/usr/bin/env python3
"""Planting bugs (development aid, no check uses it).
   plant.py new NAME                     scratch clone of /repo in /tmp/w/pl/NAME
   plant.py check NAME PROP...           run the quick checks against the clone
   plant.py keep NAME PROP NEEDS BREAKS  verify tests and demo, write seeded/NAME, run the check
   plant.py verify [NAME...]             apply kept patches to scratch clones: tests, demo, check
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = "/tmp/w/pl"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def new(name):
    d = f"{PL}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    r = sh(f"git clone -q /repo {d}")
    assert r.returncode == 0, r.stdout
    return d


def tests(d):
    r = sh(f"cd {d} && {PY} -m pytest -q -o addopts= --forked -p no:cacheprovider -n 4 tests 2>&1 || {PY} -m pytest -q -o addopts= --forked -p no:cacheprovider tests")
    out = r.stdout.strip().splitlines()[-1]
    return out == "OK" and "180" in r.stdout, out


def demo(d, name):
    # away from /verif
    t = f"/tmp/w/demo_{name}"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(f"{V}/seeded/{name}", t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(["bash", f"{t}/demo.sh"], cwd=d, timeout=300)
    shutil.rmtree(t)
    return r.returncode, r.stdout[-500:]


def check(d, prop):
    r = sh(["python3", "check.py", prop, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), timeout=900)
    lines = [x for x in r.stdout.splitlines() if not x.startswith("[")]
    return r.returncode, [x for x in lines if "KNOWN" not in x][:8]


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        print(new(args[0]))
    elif cmd == "check":
        for p in args[1:]:
            print(p, *check(f"{PL}/{args[0]}", p), sep="\n  ")
    elif cmd == "keep":
        name, prop, needs, breaks = args
        d, s = f"{PL}/{name}", f"{V}/seeded/{name}"
        os.makedirs(s, exist_ok=True)
        with open(f"{s}/patch.diff", "w") as f:
            f.write(subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout)
        with open(f"{s}/meta.json", "w") as f:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        with open(f"{s}/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        print("tests", *tests(d))
        print("demo clean  ", *demo("/repo", name))
        print("demo planted", *demo(d, name))
        print("check", *check(d, prop), sep="\n  ")
    elif cmd == "verify":
        for name in args or sorted(os.listdir(f"{V}/seeded")):
            d = new("v_" + name)
            r = sh(f"git -C {d} apply {V}/seeded/{name}/patch.diff")
            if r.returncode:
                print(name, "DOES NOT APPLY", r.stdout)
                continue
            m = json.load(open(f"{V}/seeded/{name}/meta.json"))
            t = tests(d)[0]
            c, p = demo("/repo", name)[0], demo(d, name)[0]
            k = check(d, m["property"])
            print(name, m["property"], "tests", "ok" if t else "FAIL", "demo", c, p, "CAUGHT" if k[0] == 1 else "MISSED rc=%d" % k[0], k[1][:1], flush=True)
            shutil.rmtree(d)


main()
