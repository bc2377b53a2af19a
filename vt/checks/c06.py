"""C06: inline python."""
from vt.gen import inline as G

ASSUMPTIONS = ["A block holds one helper call and nothing else, on one line; its chosen arguments are quoted texts without embedded quotes.",
               "bb.utils.filter stands for its first argument (pinned by the existing tests)."]


def run(ck):
    mc = "CONSTANT MaxSegs = {}\nINVARIANTS RightBlocks Complete\n"
    ck.model("MC_Inline", "SPECIFICATION Spec\nPROPERTY Terminates\n" + mc.format(2), label="MC_Inline liveness")
    gen = ck.generate("MC_Inline", "INIT Init\nNEXT Next\nCONSTRAINT Emit\n" + mc.format(ck.pick(2, 3)))
    cs = [G.case([c["segs"]], c["neg"]) for c in gen]
    cs += [G.rand_case(ck.rng) for _ in range(ck.pick(2500, 40000))]
    ck.drive("inline", cs)
    ck.validate("Trace_Inline", "C06Verdict", cs)
