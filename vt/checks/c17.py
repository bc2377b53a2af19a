"""C17: SRC_URI entries."""
from vt.gen import srcuri as G

ASSUMPTIONS = ["The mirrors are not changed while a stash is in use.", "Keys of options are not empty; hosts are ASCII."]


def run(ck):
    cfg = "SPECIFICATION Spec\nINVARIANTS RoundTrip Mirror\nPROPERTY Local\nCONSTRAINT Emit\nCONSTANTS MaxOpts = {} Emits = {}\n"
    ck.model("MC_SrcUri", cfg.format(ck.pick(2, 3), "FALSE"))
    es = [c["text"] for c in ck.generate("MC_SrcUri", cfg.format(ck.pick(1, 2), "TRUE"))]
    cs = [{"driver": "srcuri", "entries": es[i:i + 8], "extra": []} for i in range(0, len(es), 8)]
    cs += [G.rand_case(ck.rng) for _ in range(ck.pick(2500, 40000))]
    ck.drive("srcuri", cs)
    ck.validate("Trace_SrcUri", "C17Verdict", cs)
