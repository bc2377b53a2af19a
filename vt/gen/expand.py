"""References between variables, spread over the files of a recipe."""
L = "/R/l"
NAMES = ["A", "B", "C", "D", "EXTRA_X", "F-1", "lower", "A1"]
LITS = ["x", " ", "a b", "/usr/lib", "1.0", "-", "$", "y;z=1", "é", "}", "{", "w "]
BASE = [["MYBASE", [{"k": "lit", "t": "mb-"}, {"k": "ref", "x": "PN"}]], ["MYLOOP", [{"k": "ref", "x": "MYBASE"}, {"k": "lit", "t": "."}, {"k": "ref", "x": "A"}]],
        ["SOLIBS", [{"k": "lit", "t": ".so.*"}]], ["BP", [{"k": "ref", "x": "BPN"}, {"k": "lit", "t": "-"}, {"k": "ref", "x": "PV"}]],
        ["P", [{"k": "ref", "x": "PN"}, {"k": "lit", "t": "-"}, {"k": "ref", "x": "PV"}]], ["MLPREFIX", []]]
EXTRA_BASE = {"MYBASE": "mb-${PN}", "MYLOOP": "${MYBASE}.${A}"}
DATA = {"data.txt": "some text\n", "list.txt": "a b\nc\n", "empty.txt": ""}
PATHS = ["recipes/foo_1.2.bb", "recipes/foo.bb", "recipes/nativesdk-foo_2.bb", "recipes/x-native_0.1+git.bb", "recipes/a-cross_3.bb", "recipes/foo-bar_1.0_rc1.bb"]


def tok(t):
    return {"lit": lambda: t["t"], "ref": lambda: "${%s}" % t["x"], "file": lambda: t["w"], "get": lambda: t.get("w") or "d.getVar('%s')" % t["x"]}[t["k"]]()


def text(q):
    return "".join(map(tok, q))


def getter(r, x):
    return {"k": "get", "x": x, "w": r.choice(["d.getVar('%s')"] * 3 + ['d.getVar("%s")', "d.getVar('%s', True)", "d.getVar('%s',False)", 'd.getVar("%s", True)', "d.getVar('%s' , False )", "d.getVar('%s',)"]) % x}


def tokens(r, names, n, getters=True):
    q = []
    for _ in range(n):
        x = r.random()
        if x < 0.35:
            t = r.choice(LITS)
            if q and q[-1]["k"] == "lit" and (q[-1]["t"].endswith("$") or t == "$"):
                continue
            q.append({"k": "lit", "t": t})
        elif x < 0.42 and getters:
            f = r.choice([*sorted(DATA), "missing.txt"])
            q.append({"k": "file", "t": DATA.get(f, ""), "w": r.choice(["${@oe.utils.read_file('${THISDIR}/%s')}", '${@oe.utils.read_file("${THISDIR}/%s")}',
                                                                        "${@oe.utils.read_file( '${THISDIR}/%s' )}"]) % f})
        elif x < 0.85 or not getters:
            q.append({"k": "ref", "x": r.choice(names)})
        else:
            q += [{"k": "lit", "t": "${@fn(d, "}, getter(r, r.choice(names)), {"k": "lit", "t": ")}"}]
    # a lone $ or brace next to anything that could complete it is no plain text
    out = []
    for i, t in enumerate(q):
        if t["k"] == "lit" and t["t"] in ("$", "{", "}") and (t["t"] != "$" or i + 1 == len(q) or True):
            t = {"k": "lit", "t": {"$": "$ ", "{": "{ ", "}": " }"}[t["t"]]}
        out.append(t)
    return out


def case(defs, term, spare, path, places, noise=False, extras=()):
    """places: file of every definition; extras: (position, file or None, line) of assignments that do not count"""
    files = {"conf/layer.conf": "", **{"recipes/" + k: v for k, v in DATA.items()}}
    stem = path.rsplit("/", 1)[-1][:-3]
    fs = {"bb": path, "inc": "recipes/part.inc", "cls": "classes/part.bbclass", "inc2": "recipes/deep.inc", "app": "recipes/%s.bbappend" % stem}
    body = {k: "" for k in fs}
    body["bb"] = "require part.inc\ninherit part\n"
    body["inc"] = "require deep.inc\n"
    for i, (d, pl) in enumerate(zip(defs, places)):
        for k, at, line in extras:
            if k == i and at:
                body[at] += line
        body[pl] += '%s %s "%s"\n' % (d["name"], d["op"], text(d["val"]))
        for k, at, line in extras:
            if k == i and not at:
                body[pl] += line
    body["cls"] += "Z9 = \"1\"\n"
    body["app"] += "Z8 = \"1\"\n"
    for k in fs:
        files[fs[k]] = body[k]
    other = None
    if noise:
        other = "recipes/zother_9.bb"
        files[other] = "".join('%s = "noise"\n' % d["name"] for d in defs) + 'U = "noise"\n'
    return {"driver": "expand", "tree": files, "path": L + "/" + path, "append": L + "/" + fs["app"], "other": L + "/" + other if other else "",
            "defs": defs, "base": [{"name": a, "val": b} for a, b in BASE], "extrabase": EXTRA_BASE, "term": term, "termtext": text(term), "spare": spare}


def rand_case(r):
    names = r.sample(NAMES, r.randint(1, 5))
    if r.random() < 0.2:
        names.append(r.choice(["PV", "PN", "BPN"]))
    free = ["U", "UNKNOWN_X", "PN", "PV", "BPN", "FILE", "THISDIR", "MYBASE", "BP", "P", "SOLIBS", "MLPREFIX", "MYLOOP"]
    cyc = r.random() < 0.35
    defs = []
    for i, n in enumerate(names):
        pool = names if cyc else names[i + 1:]
        pool = (pool * 4 or ["U"]) + free
        if not cyc:
            pool = [p for p in pool if p not in names[:i + 1] and not (p in ("MYBASE", "BP", "P", "MYLOOP") and set(names) & {"PV", "PN", "BPN", "A"})] or ["U"]
        defs.append({"name": n, "val": tokens(r, pool, r.randint(0, 4)), "op": r.choice(["=", "=", "=", "?=", ":=", "??="])})
    order = defs[:]
    r.shuffle(order)
    term = tokens(r, names * 3 + free, r.randint(1, 5))
    spare = r.sample(names + free, r.choice([0, 0, 0, 1, 2]))
    places = [r.choice(["bb", "bb", "inc", "cls", "inc2", "app"]) for _ in order]
    extras = []
    while r.random() < 0.4:
        # joins and appends alone do not set a variable, and the first of several assignments counts
        if r.random() < 0.6:
            n, (sub, op) = r.choice(names + ["U", "PN", "MYBASE"]), r.choice([("", "+="), ("", "=+"), ("", ".="), ("", "=."), (":append", "="), (":prepend", "="), (":remove", "="), (":append:x86", "="), (":append", "+=")])
            extras.append((r.randrange(len(order)), r.choice(["bb", "bb", "inc", "cls", "inc2", "app"]), '%s%s %s "%s"\n' % (n, sub, op, r.choice(["x", " more", "${%s}-x" % n, "${B} y", ""]))))
        else:
            k = r.randrange(len(order))
            extras.append((k, None, '%s %s "%s"\n' % (order[k]["name"], r.choice(["=", "?=", ":=", "??=", "+="]), r.choice(["other", "${%s}2" % order[k]["name"], "${C}", ""]))))
    return case(order, term, spare, r.choice(PATHS), places, r.random() < 0.4, extras)
