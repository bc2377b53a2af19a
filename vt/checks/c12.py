"""C12: filters."""
from vt.gen import filt as G

ASSUMPTIONS = ["An empty single value counts as an absent filter.", "The files linked to a file are those observed without further filter (C07 decides them)."]


def run(ck):
    inv = "SPECIFICATION Spec\nINVARIANTS Composed AtOnce Idempotent Absent\nPROPERTY Shrinks\nCONSTANTS NItems = {} MaxFilters = {}\n"
    ck.model("MC_Filter", inv.format(*ck.pick((2, 2), (2, 3))))
    cs = G.systematic() + [G.rand_case(ck.rng) for _ in range(ck.pick(1500, 15000))]
    ck.drive("filter", cs)
    ck.validate("Trace_Filter", "C12Verdict", cs)
