"""C19: images and packagegroups."""
from vt.checks.c18 import CFG
from vt.gen import packages as G

ASSUMPTIONS = ["The links between files are those observed (C07 decides them).", "Names in inherit statements are written literally."]


def run(ck):
    ck.model("MC_Packages", CFG.format("Spellings", ck.pick(2, 3), "FALSE", "kinds"), label="MC_Packages kinds")
    cs = ck.generate("MC_Packages", CFG.format("Spellings", ck.pick(2, 3), "TRUE", "kinds"), label="MC_Packages kinds")
    cs = [G.small(c) for c in cs]
    cs += [G.rand_case(ck.rng, True) for _ in range(ck.pick(4000, 40000))]
    ck.drive("packages", cs)
    ck.validate("Trace_Packages", "C19Verdict", cs)
