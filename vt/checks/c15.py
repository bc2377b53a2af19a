"""C15: ExpandVar."""
from vt.gen import data as G

ASSUMPTIONS = ["One delimiter style per recipe; "
               "variables used as references have a single assignment."]


def run(ck):
    q, t = (2, 3)
    inv = "SPECIFICATION Spec\nINVARIANTS Removed Weak Deferral\nPROPERTIES Steps StepSet StepFrame\nCONSTANTS MaxLen = {} Wide = {}\n"
    ck.model("MC_DataStore", inv.format(*ck.pick((3, "FALSE"), (4, "FALSE"))))
    gen = ck.generate("MC_DataStore", "SPECIFICATION Spec\nCONSTRAINT Emit\nCONSTANTS MaxLen = {} Wide = {}\n".format(*ck.pick((3, "FALSE"), (3, "TRUE"))))
    r = ck.rng
    n = ck.pick(2500, 30000)
    if len(gen) > n:
        gen = [c for c in gen if len(c["q"]) < 3] + r.sample([c for c in gen if len(c["q"]) == 3], n)
    cs = [G.from_model(r, c["q"]) for c in gen]
    cs += [G.rand_case(r) for _ in range(ck.pick(2000, 25000))]
    ck.drive("data", cs)
    ck.validate("Trace_DataStore", "C15Verdict", cs)
