"""C07: links along include, inherit and bbappend edges."""
from vt.gen import store as G

ASSUMPTIONS = ["All targets of a world are resolvable relative to the root of one layer (C11 decides the lookup)."]


def cases(r, n):
    out = []
    for _ in range(n):
        x = r.random()
        files = G.chain(r) if x < 0.25 else G.graph(r) if x < 0.75 else G.tree(r, r.randint(1, 2))[0]
        tops = [f["p"] for f in files if f["p"].endswith((".bb", ".bbappend"))]
        extra = [f["p"] for f in files if not f["p"].endswith((".bb", ".bbappend"))]
        adds = [["add", p] for p in tops]
        if extra and r.random() < 0.15:
            adds.append(["add", r.choice(extra)])
        r.shuffle(adds)
        ops, nq = [], []
        for a in adds:
            ops.append(a)
            nq.append(a)
            for _ in range(r.randint(0, 3)):
                ops.append(G.query(r, files))
        fin = [["final"]]
        order = adds[:]
        r.shuffle(order)
        v = {"noqueries": nq + fin, "reordered": order + fin}
        ops = ops + fin
        if r.random() < 0.4:
            v["once"] = list(ops)
            for k in v:
                if k != "once":
                    v[k] = v[k] + fin
            ops = ops + [G.query(r, files)] + fin
        out.append(G.store_case(files, ops, **v))
    return out


def run(ck):
    cs = cases(ck.rng, ck.pick(1000, 6000))
    ck.drive("store", cs)
    ck.validate("Trace_Store", "C07Verdict", cs)
