"""C03: classification and attributes of statements."""
from vt.gen import stmt as G

ASSUMPTIONS = ["Well-formed statements: values in double quotes without embedded double quotes, names not ending in a character of the operator, old-style base names whose parts start with an upper-case letter."]
NAMES = ["abc_1.0.bb", "x.inc", "y-z.bbclass", "a_%.bbappend", "l.conf"]


def generated(ck, kinds, maxov):
    cs = ck.generate("Gen_Statement", f"INIT Init\nNEXT Next\nCONSTANTS MaxOv = {maxov} Kinds = \"{kinds}\"\n"
                     "INVARIANTS Names FuncNames Sticky\nCONSTRAINT Emit", label=f"Gen_Statement({kinds},{maxov})")
    return [{"driver": "statement", "name": "abc_1.0.bb", "stmts": c["stmts"], "text": c["text"], "opts": {"newstyle": c["newstyle"]},
             "distros": G.ALL_DISTROS, "functions": G.KNOWN} for c in cs]


def cases(r, n):
    out = []
    for _ in range(n):
        style = r.choice([":", "_", None])
        st = []
        for _ in range(r.randint(1, 8)):
            x = r.random()
            s = G.var(r, style) if x < 0.3 else G.func(r, style) if x < 0.45 else G.pydef(r) if x < 0.52 else G.other(r)
            s = G.fix(s)
            if s:
                st.append(s)
        out.append(G.case(st, newstyle=r.random() < 0.2, name=r.choice(NAMES), others=G.beside(r)))
    return out


def run(ck):
    cs = generated(ck, "kinds", 0) + cases(ck.rng, ck.pick(4000, 60000))
    ck.drive("statement", cs)
    ck.validate("Trace_Statement", "C03Verdict", cs)
