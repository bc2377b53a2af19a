"""C09: reading order and overall line numbers."""
from vt.gen import store as G

ASSUMPTIONS = ["Files are not shared between recipes and bbappends of a stash (as the property states)."]


def cases(r, n):
    out = []
    for _ in range(n):
        files, tops = G.tree(r, r.choice([1, 1, 1, 2]), r.choice([1, 2, 3]))
        adds = [["add", p] for p in tops]
        r.shuffle(adds)
        # other placement of the recipes, bbappends in the same relative order
        apps = [a for a in adds if a[1].endswith(".bbappend")]
        recs = [a for a in adds if a[1].endswith(".bb")]
        r.shuffle(recs)
        other = []
        while apps or recs:
            src = r.choice([x for x in (apps, recs) if x])
            other.append(src.pop(0))
        fin = [["final"]] * 3      # as many as needed to link everything
        ops = []
        for a in adds:
            ops.append(a)
            if r.random() < 0.2:
                ops.append(G.query(r, files))
            if r.random() < 0.1:
                ops.append(["final"])
        out.append(G.store_case(files, ops + fin, reordered=other + fin))
    return out


def run(ck):
    ck.model("MC_Store", f"SPECIFICATION Spec\nCONSTANT Size = {ck.pick(0, 1)}\nINVARIANT Ordered Increasing ParsedOnce InFile\nPROPERTY EverythingAdded\n")
    cs = ck.generate("MC_Store", f"SPECIFICATION Spec\nCONSTANT Size = 1\nCONSTRAINT Emit\n")
    for c in cs:
        W = c["files"]
        for f in W:
            for s in f["st"]:
                if s["to"]:
                    s["w"] = [t.rsplit("/", 1)[-1][:-len(".bbclass")] if t.endswith(".bbclass") else G.written(t, None) for t in s["to"]]
        adds = [["add", p] for p in c["adds"]]
        c.clear()
        c.update(G.store_case(W, adds + [["final"]] * 3))
    r = ck.rng
    if len(cs) > ck.pick(800, 100000):
        cs = r.sample(cs, ck.pick(800, 100000))
    cs += cases(r, ck.pick(1000, 7000))
    ck.drive("store", cs)
    ck.validate("Trace_Store", "C09Verdict", cs)
