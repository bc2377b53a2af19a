"""C21: fingerprints."""
import json

from vt.gen import fprint as G

ASSUMPTIONS = ["SHA1 is taken to be free of collisions.", "Texts of files, not their meaning, are what fingerprints tell apart (C01: items render the text)."]
CFG = "SPECIFICATION Spec\nINVARIANTS Function Twins Agrees\nPROPERTIES Seen\nCONSTRAINT Emit\nCONSTANTS Depth = {} Emits = {}\n"


def run(ck):
    ck.model("MC_Fingerprint", CFG.format(2, "FALSE"), label="MC_Fingerprint")
    hs = ck.generate("MC_Fingerprint", CFG.format(3, "TRUE"), label="MC_Fingerprint")
    worlds = {}
    for h in hs:
        worlds.setdefault(json.dumps(h["files"], sort_keys=True), []).append(h)
    cs = []
    for k in sorted(worlds):
        hs = worlds[k]
        cs.append(G.small(ck.rng, hs if ck.thorough else ck.rng.sample(hs, 60)))
    cs += [G.family(ck.rng) for _ in range(ck.pick(300, 4000))]
    ck.drive("fprint", cs, timeout=120)
    ck.validate("Trace_Fingerprint", "C21Verdict", cs)
