"""Nested layers with includes, classes, machines and distros."""
NONE = {"classes": [], "includes": []}


def small(c):
    """every state of the model, asked for everything"""
    tree, dirs = c["tree"], c["dirs"]
    files = [{"p": t, "st": [] if t.endswith("layer.conf") else [{"k": "raw", "n": 1, "to": [], "t": 'A = "%d"\n' % i}]} for i, t in enumerate(tree)]
    adds = []
    if c["mode"] == "inc":
        finds = [[n, d] for d in dirs for n in ("inc/a.inc", "../inc/a.inc", "inc/nope.inc", "inc", ".")]
        roots = dirs + tree
        for i, d in enumerate(dirs):
            adds.append("%s/r%d.bb" % (d, i))
            files.append({"p": adds[-1], "st": [{"k": "inc", "n": 1, "to": [], "w": [w], "kw": kw} for w, kw in
                                                [("inc/a.inc", "require"), ("inc/nope.inc", "include"), ("../inc/a.inc", "include")]]})
    else:
        finds = [["classes/k.bbclass", d] for d in dirs]
        roots = dirs
        kws = ["inherit", "INHERIT", "inherit_defer"]
        for d in ("/R/o/l/r", "/R/o/l"):
            for i, kw in enumerate(kws):
                adds.append("%s/r%d.bb" % (d, i))
                files.append({"p": adds[-1], "st": [{"k": "inh", "n": 1, "to": [], "w": w, "kw": kw} for w in (["k"], ["nope", "k.bbclass"])]})
    return {"driver": "lookup", "files": files, "adds": adds, "finds": finds, "roots": roots, "base": [], "ignore": NONE, "dirs": dirs}


LAYERS = ["/R/o", "/R/o/l", "/R/o/l/sub/m", "/R/p", "/R/o/l[1]"]
HOMES = ["", "/recipes", "/recipes/foo", "/conf/inc", "/classes", "/sub/x"]
NAMES = ["a.inc", "b.inc", "conf/inc/c.inc", "foo/d.inc", "e-1.0.inc", "conf/x.conf", "foo.inc"]
CLASSES = ["k", "l", "m-n", "o"]


def rand_case(r):
    layers = r.sample(LAYERS, r.randint(1, 4))
    files = {}
    base = r.choice([[], [["XB", "inc"], ["XC", "k"]], [["XB", "a"]]])
    for i, lay in enumerate(layers):
        if r.random() < 0.8:
            files[lay + "/conf/layer.conf"] = []
        for kind in ("machine", "distro"):
            for n in r.sample(["m1", "d-x", "q.v", "z_1"], r.choice([0, 0, 1, 2])):
                d = r.choice(["", "", "", "/inc"])
                files["%s/conf/%s%s/%s%d%s" % (lay, kind, d, n, i, r.choice([".conf", ".conf", ".conf", ".inc"]))] = []
        for _ in range(r.randint(0, 5)):
            files["%s%s/%s" % (lay, r.choice(HOMES), r.choice(NAMES))] = None
        for _ in range(r.randint(0, 4)):
            files["%s%s/%s/%s.bbclass" % (lay, r.choice(["", "", "/recipes", "/recipes/foo"]), r.choice(["classes", "classes-recipe", "classes-global"]), r.choice(CLASSES))] = None
    tops = []
    for _ in range(r.randint(1, 3)):
        lay = r.choice(layers)
        t = "%s%s/%s" % (lay, r.choice(HOMES[:3]), r.choice(["foo_1.0.bb", "foo-native_2.bb", "bar.bb", "k.bb", "foo_%.bbappend", "e_1.0.bb", "x.inc"]))
        files[t] = None
        tops.append(t)
    body = [f for f, st in files.items() if st is None]
    setvar = r.sample([f for f in body if f.endswith(".inc")], min(1, len([f for f in body if f.endswith(".inc")])))
    for f in body:
        deep = f not in tops
        st = []
        for _ in range(r.choice([0, 1, 2]) if deep else r.randint(1, 5)):
            x = r.random()
            if x < 0.5:
                w = r.choice(NAMES)
                if r.random() < 0.3:
                    w = r.choice(["../", "./", "../../", "${THISDIR}/", "sub/"]) + w if not w.startswith("conf") or r.random() < 0.3 else w
                if r.random() < 0.25:
                    w = r.choice(["${PN}.inc", "${BPN}.inc", "${PN}-${PV}.inc", "${XV}.inc", "foo/${XV}.inc", "${UNDEF}.inc", "${XB}.inc", "conf/${XB}/c.inc", "recipes", "conf", "${BPN}-${PV}.inc"])
                st.append({"k": "inc", "n": 1, "to": [], "w": [w], "kw": r.choice(["include", "require"])})
            elif x < 0.85:
                ws = [r.choice(CLASSES + ["k.bbclass", "nope", "${XC}", "${XV}", "${PN}", "l.bbclass"]) for _ in range(r.choice([1, 1, 2, 3]))]
                st.append({"k": "inh", "n": 1, "to": [], "w": ws, "kw": r.choice(["inherit", "inherit", "inherit_defer", "INHERIT", "INHERIT"])})
            else:
                st.append({"k": "raw", "n": 1, "to": [], "t": 'Q = "x"\n'})
        if f in setvar:
            st.append({"k": "var", "n": 1, "to": [], "v": "XV", "t": r.choice(["a", "k", "b", "l", "x y"][:4])})
            # only names of files known are used in a file that sets it
            st = [s for s in st if "${XV}" not in "".join(s.get("w", []))]
        if not st:
            st = [{"k": "raw", "n": 1, "to": [], "t": 'Q = "x"\n'}]
        files[f] = st
    fl = [{"p": p, "st": st} for p, st in files.items()]
    ign = {"classes": r.sample(CLASSES, r.choice([0, 0, 1])), "includes": r.sample(NAMES, r.choice([0, 0, 1]))}
    dirs = sorted({p.rsplit("/", 1)[0] for p in files})
    finds = [[r.choice(NAMES + ["../a.inc", "classes/k.bbclass", "conf", "conf/inc", "nope", "./b.inc", "conf/layer.conf"]), r.choice(dirs)] for _ in range(4)]
    roots = r.sample(sorted(files), min(4, len(files))) + r.sample(dirs, min(3, len(dirs)))
    r.shuffle(tops)
    return {"driver": "lookup", "files": fl, "adds": tops, "finds": finds, "roots": roots, "base": base, "ignore": ign, "dirs": dirs}
