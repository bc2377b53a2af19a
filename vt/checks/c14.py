"""C14: independence of stashes and of recipes."""
from vt.gen import history as G

ASSUMPTIONS = ["The layers hold no machine or distro configuration (the constants are shared by design).", "Families share no file."]


def run(ck):
    cfg = "SPECIFICATION Spec\n{}CONSTANTS MaxOps = {} Mods = {} Queries = {} Stashes = {}\n"
    inv = "INVARIANTS Fresh MemoSound\nPROPERTY Frame\n"
    ck.model("MC_History", cfg.format(inv, ck.pick(5, 6), '{"x"}', '{"q0", "q1"}', '{"a", "b"}'))
    r = ck.rng
    cs = [G.two_stashes(r) for _ in range(ck.pick(1500, 15000))] + [G.two_families(r) for _ in range(ck.pick(1500, 15000))]
    ck.drive("independent", cs)
    ck.validate("Trace_History", "C14Verdict", cs)
