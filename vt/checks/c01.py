"""C01: lossless segmentation."""
from vt.gen import text as G

ASSUMPTIONS = ["Files are UTF-8; line breaks are compared after the universal-newline translation of text files.",
               "The exhaustive part covers all files of up to 3 (thorough: 4) lines over an alphabet with every line kind; longer and arbitrary files are sampled."]


def run(ck):
    n = ck.pick(3, 4)
    ck.model("MC_Segment", f"SPECIFICATION Spec\nCONSTANT MaxLines = {ck.pick(3, 4)}\nINVARIANT Conservation NoEmptyBlock IdleIsEmpty Shapes CommentsMaximal FunctionOfText\nPROPERTY Terminates\n")
    cases = ck.generate("Gen_Segment", f"INIT GenInit\nNEXT GenNext\nCONSTANT MaxLines = {n}\nCONSTRAINT Emit\n")
    cases += [G.arbitrary(ck.rng) for _ in range(ck.pick(2500, 12000))]
    cases += [G.truncated(ck.rng) for _ in range(ck.pick(1500, 8000))]
    for c in cases:
        c["driver"] = "segment"
        if ck.rng.random() < 0.3:
            c["via"] = G.via(ck.rng)
    ck.drive("segment", cases)
    ck.validate("Trace_Segment", "C01Verdict", cases)
