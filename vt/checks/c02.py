"""C02: block boundaries."""
from vt.gen import text as G

ASSUMPTIONS = ["Well-formed: function bodies are brace-balanced, a def block is followed by a line starting with a letter, digit or '#', backslashes at line ends are continuations."]


def run(ck):
    ck.model("MC_Segment", f"SPECIFICATION Spec\nCONSTANT MaxLines = {ck.pick(3, 4)}\nINVARIANT Conservation NoEmptyBlock IdleIsEmpty Shapes CommentsMaximal FunctionOfText\nPROPERTY Terminates\n")
    cases = ck.generate("Gen_Segment", f"INIT GenInit\nNEXT GenNext\nCONSTANT MaxLines = {ck.pick(3, 4)}\nCONSTRAINT Emit\n")
    cases += [G.wellformed(ck.rng) for _ in range(ck.pick(3000, 15000))]
    cases += [G.truncated(ck.rng) for _ in range(ck.pick(1000, 8000))]
    for c in cases:
        c["driver"] = "segment"
        if ck.rng.random() < 0.3:
            c["via"] = G.via(ck.rng)
    ck.drive("segment", cases)
    ck.validate("Trace_Segment", "C02Verdict", cases)
