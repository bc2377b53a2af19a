"""C22: StashList."""
from vt.gen import slist as G

ASSUMPTIONS = ["Items have distinct lines."]


def run(ck):
    cfg = "SPECIFICATION Spec\nPROPERTIES Frame Pure Operands Grows Gone\nCONSTRAINT Emit\nCONSTANTS NItems = {} MaxOps = {} Emits = {}\n"
    ck.model("MC_StashList", cfg.format(2, 3, "FALSE"))
    cs = ck.generate("MC_StashList", cfg.format(*ck.pick((2, 2), (2, 3)), "TRUE"))
    for c in cs:
        c.update(driver="slist", n=2, nlists=2)
    cs += [G.rand_case(ck.rng) for _ in range(ck.pick(4000, 40000))]
    # the second list of the model starts empty
    for c in cs:
        if c["nlists"] == 2 and c["n"] == 2 and "form" not in str(c):
            c["ops"] = [{"op": "slice", "l": 1, "to": 2, "arg": {"k": "seq", "v": []}, "i": 0, "j": 0, "k": 1}] + c["ops"]
    ck.drive("slist", cs)
    ck.validate("Trace_StashList", "C22Verdict", cs)
