"""C13: answers depend on the modifications only."""
from vt.gen import history as G

ASSUMPTIONS = ["An item is removed at most once.", "Results handed out are not modified by the caller; files and constants do not change behind the stash."]


def run(ck):
    cfg = "SPECIFICATION Spec\n{}CONSTANTS MaxOps = {} Mods = {} Queries = {} Stashes = {}\n"
    inv = "INVARIANTS Fresh MemoSound\nPROPERTY Frame\n"
    ck.model("MC_History", cfg.format(inv, ck.pick(5, 6), '{"x", "y"}', '{"q0", "q1"}', '{"a", "b"}'))
    gen = ck.generate("MC_History", cfg.format("CONSTRAINT Emit\n", 4, '{"addR", "addA", "final", "append", "remove"}', '{"q0", "q1"}', '{"a"}'), label="MC_History")
    r = ck.rng
    cs = []
    for c in gen:
        n = ck.pick(1, 8)
        for _ in range(n):
            x = G.from_model(r, c["ops"], r.sample(G.MODEL_Q, 2))
            if x:
                cs.append(x)
    cs += [G.rand_case(r) for _ in range(ck.pick(1200, 15000))]
    ck.drive("history", cs)
    ck.validate("Trace_History", "C13Verdict", cs)
