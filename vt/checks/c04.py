"""C04: names, overrides and their delimiter."""
from vt.gen import stmt as G
from vt.checks.c03 import NAMES, generated

ASSUMPTIONS = ["Old-style base names consist of parts starting with an upper-case letter; functions carry overrides from the first append/prepend/remove/class-* on."]


def cases(r, n):
    out = []
    for _ in range(n):
        styles = r.choice([":", "_", "__:", "_:", "_:_"])
        st = []
        for _ in range(r.randint(1, 10)):
            d = r.choice(styles)
            s = G.fix(G.var(r, d) if r.random() < 0.7 else G.func(r, d))
            if s and s["k"] == "var" and r.random() < 0.7:
                s["base"], s["ov"] = r.choice([b for b in G.BASES if b[-1:] not in "+."]), G.overrides(r, d, lo=1)
                s = G.fix(s)
            if s:
                st.append(s)
            if r.random() < 0.1:
                st.append(G.fix(G.other(r)))
        out.append(G.case(st, newstyle=r.random() < 0.2, name=r.choice(NAMES), others=G.beside(r)))
    return out


def run(ck):
    cs = generated(ck, "names", ck.pick(2, 3)) + cases(ck.rng, ck.pick(2500, 40000))
    ck.drive("statement", cs)
    ck.validate("Trace_Statement", "C04Verdict", cs)
