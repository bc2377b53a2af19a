"""Runner: TLC model checking, scenario generation, driving the real code, trace validation."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NPROC = min(8, os.cpu_count() or 8)


class MachineryError(Exception):
    pass


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{pid}:{self.seed}")
        self.scratch = tempfile.mkdtemp(prefix="vt")
        self.states = self.transitions = self.validated = 0
        self.models = []
        self.samples = []
        self.notes = []
        self.bad = []        # (case, clauses)
        self.known = load_known(pid)
        self.known_hits = []
        self.t0 = time.time()
        self.exhaustive = None
        self._n = 0

    # -- tiers ---------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- TLC -----------------------------------------------------------
    def _tlc(self, module, cfg, env=None, args=(), timeout=3000, workers=NPROC):
        self._n += 1
        d = os.path.join(self.scratch, f"tlc{self._n}")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ, **(env or {}))
        e["JAVA_TOOL_OPTIONS"] = "-Xss64m -Xmx6g -XX:+UseParallelGC"
        cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", module + ".cfg", *args, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timeout on {module}")
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, out

    def model(self, module, cfg, deadlock=False, label=None, timeout=3000):
        """Exhaustive check of the specification itself; must succeed."""
        t = time.time()
        rc, out = self._tlc(module, cfg, args=() if deadlock else ("-deadlock",), timeout=timeout)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or "No error has been found" not in out or not m:
            raise MachineryError(f"specification {module} fails its own check:\n{out[-4000:]}")
        gen, dist = map(int, m[-1])
        self.states += dist
        self.transitions += gen
        self.models.append({"model": label or module, "distinct_states": dist, "states_generated": gen,
                            "constants": re.sub(r"\s+", " ", cfg)})
        self.log(f"model {label or module}: {dist} distinct states, {gen} generated, {time.time()-t:.1f}s")
        return out

    def generate(self, module, cfg, args=(), label=None, timeout=3000, workers=NPROC, want=1):
        """TLC behaviours/inputs: every printed line `CASE <json>` is a scenario."""
        t = time.time()
        rc, out = self._tlc(module, cfg, args=("-deadlock", *args), timeout=timeout, workers=workers)
        cases = []
        for line in out.splitlines():
            if line.startswith('"CASE '):
                cases.append(json.loads(json.loads(line)[5:]))
        if len(cases) < want or (rc != 0 and "-simulate" not in args):
            raise MachineryError(f"generator {module}: rc={rc}, {len(cases)} cases:\n{out[-3000:]}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            gen, dist = map(int, m[-1])
            self.states += dist
            self.transitions += gen
            self.models.append({"model": (label or module) + " (generator)", "distinct_states": dist, "states_generated": gen})
        uniq = {json.dumps(c, sort_keys=True): c for c in cases}
        self.log(f"generator {label or module}: {len(uniq)} scenarios, {time.time()-t:.1f}s")
        return [uniq[k] for k in sorted(uniq)]

    # -- the real code ---------------------------------------------------
    def drive(self, driver, cases, timeout=20, hashseed=None, nproc=NPROC):
        """Run the real code on every case; case['obs'] receives what was observed."""
        t = time.time()
        d = tempfile.mkdtemp(dir=self.scratch)
        n = max(1, min(nproc, len(cases)))
        procs = []
        for k in range(n):
            inp, outp = os.path.join(d, f"in{k}"), os.path.join(d, f"out{k}")
            with open(inp, "w") as f:
                for i in range(k, len(cases), n):
                    f.write(json.dumps(cases[i]) + "\n")
            env = {"PATH": "/usr/bin:/bin", "PYTHONPATH": f"{REPO}:{VERIF}", "LANG": "C.UTF-8", "PYTHONUTF8": "1",
                   "PYTHONPYCACHEPREFIX": os.path.join(self.scratch, "pyc"),
                   "PYTHONHASHSEED": str(self.seed % 4294967295 if hashseed is None else hashseed),
                   "VT_ROOT": tempfile.mkdtemp(dir=d), "HOME": d, "VT_REPO": REPO}
            p = subprocess.Popen([PY, "-m", "vt.worker", driver, inp, outp, str(timeout)], cwd=d, env=env,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            procs.append((k, p, outp))
        for k, p, outp in procs:
            _, err = p.communicate()
            if p.returncode != 0:
                raise MachineryError(f"driver {driver} failed: {err.decode('utf-8', 'replace')[-3000:]}")
            with open(outp) as f:
                for i, line in zip(range(k, len(cases), n), f):
                    cases[i]["obs"] = json.loads(line)
        shutil.rmtree(d, ignore_errors=True)
        for c in cases:
            if "obs" not in c:
                raise MachineryError("observation missing")
            if c["obs"].get("error", "").startswith("HARNESS"):
                raise MachineryError(c["obs"]["error"])
        cases[:] = [c for c in cases if c["obs"].get("error") != "SKIPPED"]
        self.log(f"driver {driver}: {len(cases)} executions, {time.time()-t:.1f}s")
        return cases

    # -- validation ------------------------------------------------------
    def validate(self, module, verdict, cases, label=None, record=True, extra_cfg="", timeout=3000):
        """TLC decides for every observed case which clauses of the specification it breaks."""
        if not cases:
            return []
        chunks, size = [[]], 0
        for c in cases:      # bounded memory per run of TLC
            n = len(json.dumps(c))
            if chunks[-1] and (size + n > 12_000_000 or len(chunks[-1]) >= 4000):
                chunks.append([])
                size = 0
            chunks[-1].append(c)
            size += n
        if len(chunks) > 1:
            return [b for ch in chunks for b in self.validate(module, verdict, ch, label, record, extra_cfg, timeout)]
        t = time.time()
        bad, gen = self._judge(module, verdict, cases, extra_cfg, timeout)
        for c, f in bad:
            if any(x.startswith("MACHINERY") for x in f):
                raise MachineryError(f"{module}: {f} for {json.dumps(c)[:3000]}")
        if record:
            self.states += 2 * len(cases)
            self.transitions += gen
            self.validated += len(cases)
            if len(self.samples) < 6 and cases:
                for c in (cases[0], cases[len(cases) // 2]):
                    s = json.dumps(c)
                    if len(s) < 6000:
                        self.samples.append({"validated_by": f"{module}!{verdict}", "case": c})
            for c, f in bad:
                self.bad.append({"module": module, "verdict": verdict, "clauses": f, "case": c, "label": label})
        self.log(f"validated {len(cases)} observations against {module}!{verdict}: {len(bad)} rejected, {time.time()-t:.1f}s")
        return bad

    def _try(self, module, verdict, cases, extra_cfg, timeout):
        """the cases that break clauses and the number of states generated - or None and what TLC says"""
        path = os.path.join(self.scratch, f"cases{self._n}.ndjson")
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        cfg = f"INIT TraceInit\nNEXT TraceNext\nCONSTRAINT Report\nCONSTANT Verdict <- {verdict}\n{extra_cfg}\n"
        rc, out = self._tlc(module, cfg, env={"CASES": path}, args=("-deadlock",), timeout=timeout)
        os.unlink(path)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or not m or int(m[-1][1]) != 2 * len(cases):
            return None, f"rc={rc} {out[-3500:]}"
        bad = [json.loads(json.loads(line)[4:]) for line in out.splitlines() if line.startswith('"BAD ')]
        return [(cases[r["i"] - 1], sorted(r["f"])) for r in bad], int(m[-1][0])

    def _judge(self, module, verdict, cases, extra_cfg, timeout):
        bad, gen = self._try(module, verdict, cases, extra_cfg, timeout)
        if bad is not None:
            return bad, gen
        # An observation outside of the types of the specification cannot be evaluated, which TLC reports as an
        # error. It breaks the property as much as a wrong one - provided that others can be judged.
        err = MachineryError(f"trace validation {module} did not complete: {gen}")
        if not re.search("unexpected exception|Attempted to|evaluating", gen):
            raise err
        found, todo, judged = [], [cases], 0
        while todo and len(found) < 3:
            part = todo.pop()
            bad, gen = self._try(module, verdict, part, extra_cfg, timeout)
            if bad is not None:
                judged += len(part)
                found += bad
            elif len(part) == 1:
                found.append((part[0], ["result-of-the-wrong-type"]))
            else:
                todo += [part[:len(part) // 2], part[len(part) // 2:]]
        if not judged and len(cases) > 1 and all(self._try(module, verdict, [c], extra_cfg, timeout)[0] is None for c in cases[::max(1, len(cases) // 10)]):
            raise err
        return found, 0

    # -- outcome -----------------------------------------------------------
    def finish(self, level="model_checking", assumptions=()):
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        viol = []
        for b in self.bad:
            k = [x for x in self.known if x["input"] == strip(b["case"])]
            if k:
                self.known_hits.append(k[0])
            else:
                viol.append(b)
        for k in {json.dumps(x, sort_keys=True): x for x in self.known_hits}.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if os.environ.get("VT_DEBUG"):
            with open(os.environ["VT_DEBUG"], "w") as f:
                for b in viol:
                    f.write(json.dumps(b) + "\n")
        viol.sort(key=lambda b: len(json.dumps(b["case"])))
        paths = []
        for b in viol[:5]:
            h = hashlib.sha1(json.dumps(b["case"], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{self.pid}-{h}.json")
            with open(path, "w") as f:
                json.dump(dict(b, property=self.pid, driver=b["case"].get("driver"), seed=self.seed), f, indent=1)
            paths.append(path)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated, "models": self.models,
                           "samples": self.samples[:4], "notes": self.notes},
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        if self.exhaustive is not None:
            ev["coverage"]["exhaustive"] = self.exhaustive
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        for b, p in zip(viol, paths):
            print(f"broken clauses: {', '.join(b['clauses'])}")
            print(f"VIOLATION property={self.pid} replay={p}")
        if viol:
            print(f"{len(viol)} violations")
        self.log("violations" if viol else "ok", f"states={self.states} validated={self.validated}")
        return 1 if viol else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def strip(case):
    return {k: v for k, v in case.items() if k != "obs"}


def load_known(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid]
