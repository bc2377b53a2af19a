"""C24: regular expressions under a limit of time."""
from vt.gen import rx as G

ASSUMPTIONS = ["Expressions consist of characters, '.', sets, sequences, alternatives, greedy and lazy repetition and the anchors; texts are ASCII.",
               "An evaluation that takes 3 s or more of CPU time above its limit is late."]
CFG = "SPECIFICATION Spec\nINVARIANTS Right Leftmost MatchIsSearch InOrder Whole Identity\nCONSTRAINT Emit\nCONSTANTS MaxLen = {} Deep = {} Emits = {}\n"


def run(ck):
    ck.model("MC_Regex", CFG.format(3, "TRUE" if ck.thorough else "FALSE", "FALSE"), label="MC_Regex")
    cs = [G.case(ck.rng, c["p"], c["s"], c["fl"]) for c in ck.generate("MC_Regex", CFG.format(2, "FALSE", "TRUE"), label="MC_Regex")]
    if not ck.thorough:
        cs = ck.rng.sample(cs, min(len(cs), 2000))
    cs += [G.rand_case(ck.rng) for _ in range(ck.pick(3000, 40000))]
    cs = G.slow(ck.rng, True) + cs
    ck.drive("regex", cs, timeout=120)
    ck.validate("Trace_Regex", "C24Verdict", cs)
