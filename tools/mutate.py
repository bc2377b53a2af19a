#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it).
   mutate.py list                 write /tmp/w/mut/mutants.json
   mutate.py prep [PROP...]       record what the checks accept on the unchanged tree
   mutate.py one DIR N [PROP...]  run N recorded cases (0: all) of the checks against the tree in DIR, stop at the first catch
   mutate.py run [N]              tests and checks for all mutants not in results.jsonl yet
"""
import ast
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "/tmp/w/mut"
PKG = "oelint_parser"
FILES = ["cls_item.py", "cls_stash.py", "constants.py", "inlinerep.py", "parser.py", "rpl_regex.py"]
sys.path.insert(0, V)
sys.dont_write_bytecode = True
ORDER = "C01 C02 C03 C04 C06 C12 C08 C10 C22 C16 C15 C13 C14 C18 C19 C17 C20 C07 C09 C11 C23 C21 C24 C05".split()


# -- mutants ---------------------------------------------------------------
def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(fn):
    src = open(f"/repo/{PKG}/{fn}").read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    bsrc = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def rep(n, new, what):
        a, b = pos(n)
        if bsrc[a:b].decode() != new:
            out.append((a, b, new, what, n.lineno))

    skip = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            x = getattr(n, f, None)
            if x is not None:
                skip.update(id(y) for y in ast.walk(x))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0]))
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(y) for y in ast.walk(n) if isinstance(y, ast.Constant))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        s = seg(src, n) if hasattr(n, "lineno") else None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
            l, r = seg(src, n.left), seg(src, n.comparators[0])
            rep(n, f"{l} {sw[type(n.ops[0])]} {r}", "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join(f"({seg(src, v)})" for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                o = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, "(" + o.join(f"({seg(src, v)})" for i, v in enumerate(n.values) if i != k) + ")", f"dropop{k}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f"({seg(src, n.operand)})", "not")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({seg(src, n.body)})", "ifexp-t")
            rep(n, f"({seg(src, n.orelse)})", "ifexp-f")
        elif isinstance(n, ast.If):
            rep(n.test, "True", "if-true")
            rep(n.test, "False", "if-false")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "int+")
                if n.value:
                    rep(n, str(n.value - 1), "int-")
            elif isinstance(n.value, str) and s and "\n" not in s:
                q = s.index(s[-1])
                pre, body, end = s[:q + 1], s[q + 1:-1], s[-1]
                if s.endswith('"""'):
                    continue
                if "r" in s[:q] and any(c in body for c in "([\\"):
                    for k, c in enumerate(body):
                        if c in "*+?" and k and body[k - 1] not in "(\\":
                            rep(n, pre + body[:k] + body[k + 1:] + end, f"re-drop{k}")
                            if c != "?":
                                rep(n, pre + body[:k] + ("+" if c == "*" else "*") + body[k + 1:] + end, f"re-swap{k}")
                        elif c in "^$" and body[k - 1:k] not in ("\\", "["):
                            rep(n, pre + body[:k] + body[k + 1:] + end, f"re-anchor{k}")
                        elif c == "|":
                            e = min(x for x in (body.find("|", k + 1), body.find(")", k + 1), len(body)) if x > 0)
                            rep(n, pre + body[:k] + body[e:] + end, f"re-alt{k}")
                        elif c == "[":
                            e = body.find("]", k + 1)
                            for j in range(k + 1, e):
                                if body[j] not in "\\^-" and body[j - 1] not in "\\" and body[j + 1] != "-" and body[j - 1] != "-" and e - k > 2:
                                    rep(n, pre + body[:j] + body[j + 1:] + end, f"re-class{j}")
                elif body:
                    rep(n, pre + "XX" + end, "str")
                    rep(n, pre + end, "str-empty")
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm in ("sorted", "set", "list", "reversed") and n.args:
                rep(n, f"list({seg(src, n.args[0])})", "call-" + nm)
            if nm in ("strip", "lstrip", "rstrip", "lower", "upper", "copy", "expandtabs", "keys") and isinstance(f, ast.Attribute):
                rep(n, seg(src, f.value), "call-" + nm)
            if nm in ("startswith", "endswith"):
                rep(n, f"({seg(src, n.args[0])} in {seg(src, f.value)})", "call-" + nm)
            if nm in ("deepcopy",):
                rep(n, seg(src, n.args[0]), "call-" + nm)
            if nm == "any":
                rep(n, "all" + s[3:], "any")
            if nm == "all":
                rep(n, "any" + s[3:], "all")
            for k in n.keywords:
                if len(n.keywords) + len(n.args) > 1 and k.arg:
                    a = [seg(src, x) for x in n.args] + [f"{x.arg}={seg(src, x.value)}" if x.arg else f"**{seg(src, x.value)}" for x in n.keywords if x is not k]
                    rep(n, f"{seg(src, f)}({', '.join(a)})", "kw-" + k.arg)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, seg(src, n.value), "slice")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            rep(n, f"({seg(src, n.left)})", "binop-l")
            rep(n, f"({seg(src, n.right)})", "binop-r")
        elif isinstance(n, ast.AugAssign):
            rep(n, f"{seg(src, n.target)} = {seg(src, n.value)}", "aug")
            rep(n, "pass", "del-aug")
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Tuple):
            rep(n, "pass", "del-assign")
        elif isinstance(n, ast.Expr):
            rep(n, "pass", "del-expr")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, "return None", "ret-none")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "continue")
            rep(n, "pass", "continue-pass")
        elif isinstance(n, ast.Break):
            rep(n, "continue", "break")
            rep(n, "pass", "break-pass")
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            br = {ast.List: "[]", ast.Tuple: "()", ast.Set: "{}"}[type(n)]
            for k in range(len(n.elts)):
                a = [seg(src, x) for i, x in enumerate(n.elts) if i != k]
                rep(n, br[0] + ", ".join(a) + ("," if len(a) == 1 and br == "()" else "") + br[1], f"drop-elt{k}")
        elif isinstance(n, ast.Dict) and len(n.keys) > 1:
            for k in range(len(n.keys)):
                a = [f"{seg(src, x) if x else '**'}{': ' if x else ''}{seg(src, y)}" for i, (x, y) in enumerate(zip(n.keys, n.values)) if i != k]
                rep(n, "{" + ", ".join(a) + "}", f"drop-key{k}")
    res = []
    seen = set()
    for a, b, new, what, ln in out:
        t = (bsrc[:a] + new.encode() + bsrc[b:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree) or t in seen:
                continue
        except (SyntaxError, ValueError):
            continue
        seen.add(t)
        res.append({"file": fn, "a": a, "b": b, "new": new, "what": what, "line": ln, "old": bsrc[a:b].decode()[:200], "id": hashlib.sha1(f"{fn}{a}{b}{new}".encode()).hexdigest()[:10]})
    return res


# -- recorded cases of the checks, executed again on a mutant -----------------
def prep(props):
    from vt import core

    class Rec(core.Check):
        def drive(self, driver, cases, timeout=20, hashseed=None, nproc=8):
            super().drive(driver, cases, timeout, hashseed, nproc)
            self.last = (driver, timeout)
            return cases

        def validate(self, module, verdict, cases, *a, **k):
            bad = super().validate(module, verdict, cases, *a, **k)
            skip = [core.strip(x[0]) for x in bad]
            self.runs.append((*self.last, module, verdict, [c for c in cases if core.strip(c) not in skip] if skip else list(cases)))
            return bad

        def model(self, *a, **k):
            return ""

    for p in props or ORDER:
        ck = Rec(p, "quick")
        ck.runs = []
        importlib.import_module(f"vt.checks.{p.lower()}").run(ck)
        ck.cleanup()
        pickle.dump(ck.runs, open(f"{M}/{p}.pkl", "wb"))
        print(p, [(r[0], len(r[4])) for r in ck.runs], round(__import__("time").time() - ck.t0, 1), flush=True)


def one(d, props, size):
    from vt import core
    core.REPO = d
    nproc = int(os.environ.get("MUT_NPROC", "8"))
    notes = []
    rng = random.Random(d)
    for p in props or ORDER:
        ck = core.Check(p, "quick")
        ck.log = lambda *a: None
        ck.known = []
        try:
            for driver, timeout, module, verdict, cases in pickle.load(open(f"{M}/{p}.pkl", "rb")):
                if size and len(cases) > size:
                    cases = rng.sample(cases, size)
                old = [json.dumps(c["obs"], sort_keys=True) for c in cases]
                new = [core.strip(c) for c in cases]
                for i, c in enumerate(new):
                    c["_i"] = i
                ck.drive(driver, new, timeout, None, nproc)
                diff = [c for c in new if json.dumps(c["obs"], sort_keys=True) != old[c["_i"]]]
                for c in new:
                    del c["_i"]
                diff.sort(key=lambda c: len(json.dumps(c)))
                if len(diff) > 40:
                    diff = diff[:15] + rng.sample(diff[15:], 25)
                if diff:
                    notes.append(f"{p}:{len(diff)}")
                bad = ck.validate(module, verdict, diff)
                if bad:
                    return {"caught": p, "clauses": bad[0][1], "notes": notes}
        except Exception as e:
            notes.append(f"{p}: MACHINERY {str(e)[-300:]}")
        finally:
            ck.cleanup()
    return {"caught": None, "notes": notes}


def run_one(m, k):
    d = f"{M}/tree{m['id']}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    p = f"{d}/{PKG}/{m['file']}"
    s = open(p, "rb").read()
    open(p, "wb").write(s[:m["a"]] + m["new"].encode() + s[m["b"]:])
    try:
        try:
            r = subprocess.run(f"/opt/venv/bin/python -m pytest -q -x -o addopts= --forked -p no:cacheprovider -n 3 tests", shell=True, cwd=d, capture_output=True, text=True, timeout=150, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            return dict(m, tests=False)
        r = subprocess.run([sys.executable, __file__, "one", d, "250"], capture_output=True, text=True, env=dict(os.environ, MUT_NPROC="3", VERIF_SEED="1", VERIF_REPO=d))
        try:
            return dict(m, tests=True, **json.loads(r.stdout.strip().splitlines()[-1]))
        except Exception:
            return dict(m, tests=True, caught=None, notes=["TOOL " + r.stderr[-300:]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "list":
        ms = [m for f in FILES for m in mutants(f)]
        json.dump(ms, open(f"{M}/mutants.json", "w"))
        print(len(ms), {f: sum(m["file"] == f for m in ms) for f in FILES})
    elif cmd == "prep":
        prep(args)
    elif cmd == "one":
        print(json.dumps(one(args[0], args[2:], int(args[1]))))
    elif cmd == "run":
        ms = json.load(open(f"{M}/mutants.json"))
        done = set()
        if os.path.exists(f"{M}/results.jsonl"):
            done = {json.loads(x)["id"] for x in open(f"{M}/results.jsonl")}
        ms = [m for m in ms if m["id"] not in done]
        random.Random(7).shuffle(ms)
        if args:
            ms = ms[:int(args[0])]
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda t: run_one(t[1], t[0]), enumerate(ms)):
                with open(f"{M}/results.jsonl", "a") as f:
                    f.write(json.dumps(r) + "\n")


if __name__ == "__main__":
    main()
