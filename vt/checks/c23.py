"""C23: files beside the users of SRC_URI."""
from vt.gen import files as G

ASSUMPTIONS = ["The links between files are those observed (C07 decides them).", "The tree does not change while a stash is in use; patterns contain no '/'."]


def run(ck):
    ck.model("MC_Files", f"SPECIFICATION Spec\nINVARIANTS Within Shapes Depth\nPROPERTIES Grows NewFile\nCONSTANT MaxSteps = {ck.pick(3, 4)}\n")
    cs = [G.rand_case(ck.rng) for _ in range(ck.pick(3000, 30000))]
    ck.drive("files", cs)
    ck.validate("Trace_Files", "C23Verdict", cs)
