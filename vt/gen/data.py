"""Assignments with all operators, spread over the files of a recipe."""
from vt.gen import expand as X
from vt.gen import store as G

OPS = ["=", "?=", "??=", ":=", "+=", "=+", ".=", "=."]
MODS = ["append", "prepend", "remove"]
WS = ["", " ", " ", "  ", "\t"]


def asg(base, ov, d, op, val, w1=" ", w2=" "):
    a = {"k": "asg", "base": base, "ov": ov, "d": d, "op": op, "w1": w1, "w2": w2, "val": val}
    if not w1 and op[0] in "+.":        # A+="x": the sign would belong to the name
        a["w1"] = " "
    return stmt(a)


def unset(name, flag=""):
    return stmt({"k": "unset", "name": name, "flag": flag})


def stmt(a):
    if a["k"] == "unset":
        t = "unset " + a["name"] + ("[%s]" % a["flag"] if a["flag"] else "") + "\n"
    else:
        t = a["d"].join([a["base"], *a["ov"]]) + a["w1"] + a["op"] + a["w2"] + '"' + X.text(a["val"]) + '"\n'
    return {"k": "asg", "n": 1, "to": [], "t": t, "a": a}


def lit(t):
    return [{"k": "lit", "t": t}] if t else []


def value(r, refs, d="", long=True):
    words = ["a", "b", "c", "ab", "a b", "b a", "a  c", "-x", "a.b", "bb", "a/", "/b", "a+"]
    q = []
    n = r.choice([0, 1, 1, 1, 2, 2, 3])
    if r.random() < 0.4:
        q += lit(" ")
    for i in range(n):
        if i and r.random() < 0.8:
            q += lit(" ")
        if refs and r.random() < 0.2:
            q.append({"k": "ref", "x": r.choice(refs)})
        else:
            q += lit(r.choice(words))
    if r.random() < 0.3:
        q += lit(" ")
    return q


def place(r, stmts):
    """a tree of files with the statements in some of them; reading order is whatever results"""
    files, tops = G.tree(r, 1, r.choice([0, 1, 1, 2]), limit=30)
    tops = [t for t in tops]
    for f in files:
        f["st"] = [s for s in f["st"] if s["k"] in ("inc", "inh")]
    lone = [f for f in files if "other_" in f["p"]]
    linked = [f for f in files if f not in lone]
    for s in stmts:
        f = r.choice(linked)
        f["st"].insert(r.randint(0, len(f["st"])), s)
    for f in lone:
        f["st"].append(asg("A", [], ":", "+=", lit("lone")))
    for f in files:
        if not f["st"]:
            f["st"].append(G.filler(r, None))
    return files, tops


def finish(r, files, tops, defs, names):
    adds = list(tops)
    r.shuffle(adds)
    for f in files:     # the names the filler uses are no variables of interest
        for s in f["st"]:
            if s["k"] == "var":
                s["v"] = "ZZ"
    return {"driver": "data", "files": files, "adds": adds, "path": [t for t in tops if t.endswith(".bb")][0],
            "defs": defs, "base": [{"name": a, "val": b} for a, b in X.BASE], "extrabase": X.EXTRA_BASE, "single": names}


def rand_case(r):
    d = r.choice([":", ":", "_"])
    bases = r.sample(["A", "B", "FOO_BAR", "LONG-NAME", "PV", "PN", "SOLIBS", "MYBASE", "RDEPENDS", "A1"], r.randint(1, 3))
    if "PN" in bases:
        bases = [b for b in bases if b != "MYBASE"]
    if d == "_":
        bases = [b for b in bases if b != "FOO_BAR"] or ["A"]
    refpool = [x for x in ["PN", "PV", "BPN", "SOLIBS", "MYBASE", "P", "UNKNOWN_X"] if x not in bases]
    if {"PN", "PV"} & set(bases):
        refpool = [x for x in refpool if x not in ("MYBASE", "P", "BPN")]
    ndef = r.choice([0, 0, 1, 2])
    defs = [{"name": "REF%s" % "XYZ"[i], "val": value(r, refpool)} for i in range(ndef)]
    refs = refpool + [x["name"] for x in defs] * 3
    ovs = [[], [], [], ["foo"], ["class-native"], ["foo", "qemux86"], ["${PN}"]]
    if "PN" in bases:
        ovs.pop()
    stmts = [asg(x["name"], [], d, "=", x["val"]) for x in defs]
    for _ in range(r.randint(1, 9)):
        b = r.choice(bases)
        ov = r.choice(ovs)
        key = d.join([b, *ov])
        x = r.random()
        if x < 0.12:
            stmts.append(unset(key, "" if x < 0.09 or ov else "doc"))
        elif x < 0.45:
            mod = r.choice(MODS)
            at = r.choice([0, len(ov), len(ov)])
            if ov and ov[0] == "${PN}":
                at = len(ov)
            stmts.append(asg(b, ov[:at] + [mod] + ov[at:], d, "=", value(r, refs), r.choice(WS), r.choice(WS)))
        else:
            stmts.append(asg(b, ov, d, r.choice(OPS), value(r, refs), r.choice(WS), r.choice(WS)))
    files, tops = place(r, stmts)
    return finish(r, files, tops, defs, sorted(set(bases)))


def from_model(r, q):
    stmts = [stmt(a) for a in q]
    # the order of the sequence is kept: one file, or split over an include in the middle
    path = G.path("bb", "foo_2.0")
    files = [{"p": path, "st": stmts}]
    k = r.randint(0, len(stmts))
    x = r.random()
    if x < 0.3:
        i = G.path("inc", "i")
        m = r.randint(k, len(stmts))
        files = [{"p": path, "st": stmts[:k] + [G.inc(r, i)] + stmts[m:]}, {"p": i, "st": stmts[k:m] or [G.filler(r, None)]}]
    elif x < 0.5 and k:
        a = G.path("bbappend", "foo_%")
        files = [{"p": path, "st": stmts[:k]}, {"p": a, "st": stmts[k:] or [G.filler(r, None)]}]
    return finish(r, files, [f["p"] for f in files if not f["p"].endswith(".inc")], [], ["A"])
