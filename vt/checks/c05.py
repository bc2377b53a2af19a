"""C05: parsing and queries terminate without an exception."""
from vt.gen import robust as G

ASSUMPTIONS = ["Chains of includes are at most 60 files long.", "Files are valid UTF-8 and readable.", "An operation that takes more than a minute does not terminate."]
CFG = "SPECIFICATION Spec\nINVARIANTS NeverTwice Shallow AllLinked OnlyLinked Same\n{}CONSTRAINT Emit\nCONSTANTS Long = {} Short = {} Emits = {}\n"


def run(ck):
    ck.model("MC_Robust", CFG.format("PROPERTIES Ends\n", 1, 1, "FALSE"), label="MC_Robust liveness")
    ms = ck.generate("MC_Robust", CFG.format("", ck.pick(2, 3), 1, "TRUE"), label="MC_Robust")
    if len(ms) > ck.pick(600, 6000):
        ms = ck.rng.sample(ms, ck.pick(600, 6000))
    cs = [G.from_model(ck.rng, c) for c in ms]
    cs += [G.graph(ck.rng) for _ in range(ck.pick(500, 6000))]
    cs += [G.deep(ck.rng) for _ in range(ck.pick(6, 60))] + [G.spiral(ck.rng) for _ in range(ck.pick(30, 300))]
    cs += [G.again(ck.rng) for _ in range(ck.pick(40, 600))]
    docs = G.documents(ck.rng, 40)
    n = 0
    for d in docs:
        q = G.cuts(ck.rng, d)
        cs += q
        n += len(q)
        if n > ck.pick(1500, 20000):
            break
    cs += [G.mutant(ck.rng, docs) for _ in range(ck.pick(800, 12000))]
    cs += [G.wild(ck.rng) for _ in range(ck.pick(1500, 20000))]
    cs += [G.calls(ck.rng) for _ in range(ck.pick(1000, 15000))]
    ck.drive("robust", cs, timeout=60)
    ck.validate("Trace_Robust", "C05Verdict", cs)
