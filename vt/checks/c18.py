"""C18: names of recipes, packages and resources."""
from vt.gen import packages as G

ASSUMPTIONS = ["The links between files are those observed (C07 decides them).", "Every variable used in values is defined once.", "Patterns of dynamic packages use characters, '.', classes, '*', '+', '?', '^', '$' and '|'.",
               "Names of recipes have one affix at most on each side."]
CFG = "SPECIFICATION Spec\nINVARIANTS {}\nPROPERTIES Stranger Grows\nCONSTRAINT Emit\nCONSTANTS MaxStmts = {} Emits = {} Mode = \"{}\"\n"


def run(ck):
    ck.model("MC_Packages", CFG.format("Spellings Patterns", ck.pick(3, 4), "FALSE", "packages"), label="MC_Packages packages")
    ck.model("MC_Packages", CFG.format("Spellings NameParts", 0, "FALSE", "names"), label="MC_Packages names")
    cs = ck.generate("MC_Packages", CFG.format("Spellings NameParts", 0, "TRUE", "names"), label="MC_Packages names")
    cs += ck.generate("MC_Packages", CFG.format("Spellings Patterns", ck.pick(2, 3), "TRUE", "packages"), label="MC_Packages packages")
    cs = [G.small(c) for c in cs]
    cs += [G.rand_case(ck.rng, False) for _ in range(ck.pick(2500, 25000))]
    ck.drive("packages", cs)
    ck.validate("Trace_Packages", "C18Verdict", cs)
