"""C20: the constants database."""
from vt.gen import const as G

ASSUMPTIONS = ["Entries are used with one kind of value each (the same key layout); AddConstants is not used to concatenate texts."]


def run(ck):
    cfg = "SPECIFICATION Spec\nINVARIANT Below\nPROPERTIES Frame Effect\nCONSTRAINT Emit\nCONSTANTS MaxOps = {} Emits = {}\n"
    ck.model("MC_Constants", cfg.format(ck.pick(3, 4), "FALSE"))
    cs = ck.generate("MC_Constants", cfg.format(2, "TRUE"))
    for c in cs:
        c.update(driver="const", gets=["f", "f/k", "f/k/x", "m/p", "m/p/q", "g/h", "zz", "n"], asfile=False)
    cs += [G.rand_case(ck.rng) for _ in range(ck.pick(3000, 40000))]
    ck.drive("const", cs)
    ck.validate("Trace_Constants", "C20Verdict", cs)
