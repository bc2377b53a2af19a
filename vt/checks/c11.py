"""C11: looking up includes, classes, layers, machines and distros."""
from vt.gen import lookup as G

ASSUMPTIONS = ["Names are expanded with what is known so far: the name of the file, the base set and the variables of files it used before.", "The tree does not change while a stash is in use.",
               "An ignored include leaves no Include item."]


def run(ck):
    cfg = "SPECIFICATION Spec\nINVARIANTS {}\nPROPERTY Elsewhere\nCONSTRAINT Emit\nCONSTANTS Mode = \"{}\" Emits = {}\n"
    inv = "Found LocalFirst OwnLayer Nearest"
    ck.model("MC_Lookup", cfg.format(inv, "inc", "FALSE"), label="MC_Lookup includes")
    ck.model("MC_Lookup", cfg.format("ClassKinds", "cls", "FALSE"), label="MC_Lookup classes")
    cs = ck.generate("MC_Lookup", cfg.format(inv, "inc", "TRUE"), label="MC_Lookup includes")
    cs += ck.generate("MC_Lookup", cfg.format("ClassKinds", "cls", "TRUE"), label="MC_Lookup classes")
    cs = [G.small(c) for c in cs]
    cs += [G.rand_case(ck.rng) for _ in range(ck.pick(2500, 25000))]
    ck.drive("lookup", cs)
    ck.validate("Trace_Lookup", "C11Verdict", cs)
