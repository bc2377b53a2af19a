"""C08: bbappends apply to exactly the recipes their name matches."""
from vt.gen import store as G

ASSUMPTIONS = ["Recipe names themselves contain no '%'."]
NAMES = ["a_1", "a_1.0", "a+b_1", "aab_1", "a", "ab_1", "a_11", "a_1x0", "A_1", "a-x_1", "b_git", "a_", "_1", "a[b]_1", "a(1)_1", "a.bb_1", "a_1_2", "abb_1.0", "a*_1", "a?_1"]
APPS = NAMES + ["%", "a%", "a_%", "%_1", "a_1.%", "a_1%0", "%a%", "a%1", "%%", "a_%%", "a%_%", "%.0", "a+b_%", "a+%", "a_1.0%", "a.b_%", "a[b]_%", "a.%", "a.*_1", ".*", "a_[0-9]", "a_1|b_git", "^a_1", "a_1$", "a.bb_%", "a*_%"]


def case(r, recs, apps, empties=()):
    files = []
    for i, x in enumerate(recs + apps):
        ext = "bb" if i < len(recs) else "bbappend"
        d = r.choice(["recipes", "recipes/x", "other"])
        st = [] if x in empties and ext == "bbappend" else [{"k": "var", "n": 1, "to": []} for _ in range(r.randint(1, 2))]
        files.append({"p": f"{G.L}/{d}/{x}.{ext}", "st": st})
        if r.random() < 0.05:
            files.append({"p": f"/R/m/{d}/{x}.{ext}", "st": st})
    adds = [["add", f["p"]] for f in files]
    r.shuffle(adds)
    o2 = adds[:]
    r.shuffle(o2)
    fin = [["final"]] if r.random() < 0.7 else []
    return G.store_case(files, adds + fin, reordered=o2 + fin)


def run(ck):
    r = ck.rng
    cs = ck.generate("Gen_Append", f"INIT GenInit\nNEXT GenNext\nCONSTANT MaxLen = {ck.pick(3, 4)}\nCONSTRAINT Emit\n")
    for c in cs:   # name pairs enumerated by TLC
        files = [{"p": f"{G.L}/recipes/{c['rec']}.bb", "st": [{"k": "var", "n": 1, "to": []}]},
                 {"p": f"{G.L}/recipes/{c['app']}.bbappend", "st": [{"k": "var", "n": 1, "to": []}]}]
        adds = [["add", f["p"]] for f in files]
        c.clear()
        c.update(G.store_case(files, adds + [["final"]], reordered=adds[::-1] + [["final"]]))
    if len(cs) > ck.pick(1200, 20000):
        cs = r.sample(cs, ck.pick(1200, 20000))
    for _ in range(ck.pick(600, 6000)):
        recs = r.sample(NAMES, r.randint(1, 4))
        apps = r.sample(APPS, r.randint(1, 5))
        cs.append(case(r, recs, apps, empties=[a for a in apps if r.random() < 0.1]))
    ck.drive("store", cs)
    ck.validate("Trace_Store", "C08Verdict", cs)
