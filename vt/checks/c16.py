"""C16: ExpandTerm."""
from vt.gen import expand as G

ASSUMPTIONS = ["Every variable has one assignment; names inside ${...} hold no further reference."]


def run(ck):
    inv = "INIT Init\nNEXT Next\nINVARIANTS NoSetLeft Idempotent Exact\nCONSTANTS NVars = {} ValLen = {}\n"
    ck.model("MC_Expand", inv.format(*ck.pick((2, 2), (3, 2))), label="MC_Expand")
    gen = ck.generate("MC_Expand", "CONSTRAINT Emit\n" + inv.format(*ck.pick((2, 1), (2, 2))), label="MC_Expand")
    cs = []
    for c in gen:
        defs = [dict(d, op="=") for d in c["defs"]]
        cs.append(G.case(defs, c["term"], sorted(c["spare"]), G.PATHS[0], [ck.rng.choice(["bb", "inc", "cls", "app"]) for _ in defs]))
    cs += [G.rand_case(ck.rng) for _ in range(ck.pick(2500, 40000))]
    ck.drive("expand", cs)
    ck.validate("Trace_Expand", "C16Verdict", cs)
