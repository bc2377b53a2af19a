"""C10: classes and bbappends are parsed once but serve everybody."""
from vt.gen import store as G

ASSUMPTIONS = ["All targets of a world are resolvable relative to the root of one layer (C11 decides the lookup)."]


def cases(r, n):
    out = []
    for _ in range(n):
        files = G.graph(r, nrec=3, ninc=2, ncls=3, napp=2, ncnf=1, density=r.choice([0.2, 0.35, 0.5]))
        tops = [f["p"] for f in files if f["p"].endswith((".bb", ".bbappend"))]
        rest = [f["p"] for f in files if not f["p"].endswith((".bb", ".bbappend"))]
        adds = tops + [p for p in rest if r.random() < 0.3] + [p for p in tops + rest if not p.endswith(".bb") and r.random() < 0.25]
        r.shuffle(adds)
        ops = []
        for p in adds:
            ops.append(["add", p])
            if r.random() < 0.3:
                ops.append(["q", r.choice(["GetBBClasses", "GetConfFiles", "GetRecipes"])])
            if r.random() < 0.15:
                ops.append(["final"])
        out.append(G.store_case(files, ops + [["final"]]))
    return out


def run(ck):
    cs = cases(ck.rng, ck.pick(1200, 8000))
    ck.drive("store", cs)
    ck.validate("Trace_Store", "C10Verdict", cs)
