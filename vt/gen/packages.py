"""Recipes with everything that makes up their packages, resources and kind."""
L = "/R/l"
BASE = [{"name": "XBASE", "val": [{"k": "ref", "x": "PN"}, {"k": "lit", "t": "-xb"}]}, {"name": "BP", "val": [{"k": "ref", "x": "BPN"}, {"k": "lit", "t": "-"}, {"k": "ref", "x": "PV"}]},
        {"name": "P", "val": [{"k": "ref", "x": "PN"}, {"k": "lit", "t": "-"}, {"k": "ref", "x": "PV"}]}, {"name": "MLPREFIX", "val": []}]
lit = lambda t: {"k": "lit", "t": t}  # noqa
ref = lambda x: {"k": "ref", "x": x}  # noqa


def text(q):
    return "".join(t["t"] if t["k"] == "lit" else "${%s}" % t["x"] for t in q)


def render(s):
    if s["k"] == "inh":
        return 'INHERIT += "%s"\n' % " ".join(s["w"]) if s["kw"] == "INHERIT" else "%s %s\n" % (s["kw"], " ".join(s["w"]))
    if s["k"] == "var":
        return '%s %s "%s"\n' % (s.get("v", s["b"]), s["op"], text(s["q"]).replace(" @ ", " \\\n    "))
    return s["t"]


def clean(s):
    """the break of a line is white space"""
    if s["k"] == "var":
        s["q"] = [dict(t, t=t["t"].replace(" @ ", "   ")) if t["k"] == "lit" else t for t in s["q"]]
    return s


def stem(r):
    return r.choice(["", "", "", "nativesdk-"]) + r.choice(["foo", "foo-bar", "libx2", "a", "nativ", "cross-tool", "my-native-tool", "x.y", r.choice(["a+b", "a~b", "c++", "x@y", "a,b", "Foo", "0ad", "a=b", "x y"])]) + r.choice(["", "", "", "-native", "-cross"])


def recipe(r):
    return L + "/recipes/" + stem(r) + r.choice(["", "_1.0", "_1.0", "_git", "_1.0_rc1", "_2.3+git", "_", "_1_2_3", "_a_b_c_d"]) + ".bb"


def words(r, names, plain):
    q = []
    for i in range(r.choice([0, 1, 2, 2, 3])):
        if q:
            q.append(lit(r.choice([" ", " ", "  ", " @ ", "\t"])))
        w = []
        for _ in range(r.choice([1, 2, 2])):
            w.append(ref(r.choice(names)) if r.random() < 0.5 else lit(r.choice(plain)))
        q += w
    if r.random() < 0.2:
        q = [lit(" ")] + q
    if r.random() < 0.2:
        q = q + [lit(" ")]
    return merge(q)


def merge(q):
    out = []
    for t in q:
        if out and t["k"] == "lit" == out[-1]["k"]:
            out[-1] = lit(out[-1]["t"] + t["t"])
        else:
            out.append(t)
    return out


PLAIN = ["-x", "x", "-y", "lib1", "y-z", "-dev", "-doc-html", "pkg"]
DYN = ["^", "-dyn", ".*", "-[a-z]*", "x", "-plug-.+", "a?b", "|foo", "$", "-locale-", "[0-9]+", "."]
URIS = ["git://h.de/p;name=%s", "file://a.patch;name=%s", "https://h/x-1.tar.gz;name=%s;x=1", "file://b", "git://h;branch=main;name=%s;rev=a=b", "file://c;rename=%s", "${GNU_MIRROR}/x;name=%s", "git://[bad;name=%s",
        "file://d;name", "npm://r;package=%s"]
CLASSES = ["image", "core-image", "packagegroup", "kernel-uimage", "image-x", "my-image", "packagegroups", "Image", "autotools", "images", "packagegroup-base", "special-img", "nothing", "image_types", "my-packagegroup", "image.x", "ximage", "packagegroup.x", "a/image"]
VARS = ["IMAGE_INSTALL", "IMAGE_FEATURES", "IMAGE_LINGUAS", "IMAGE_ROOTFS_SIZE", "IMAGE_INSTALLX", "XIMAGE_INSTALL", "IMAGE_FSTYPES", "SPECIAL_VAR", "IMAGE", "PACKAGEGROUP"]


def statements(r, names, kinds):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        x = r.random()
        if kinds and x < 0.6:
            y = r.random()
            if y < 0.6:
                ws = r.sample(CLASSES, r.choice([1, 1, 2, 3])) if r.random() < 0.5 else r.sample(CLASSES[4:7] + CLASSES[8:], r.choice([1, 2]))
                out.append({"k": "inh", "w": ws, "kw": r.choice(["inherit", "inherit", "inherit", "inherit_defer", "INHERIT"])})
            else:
                b = r.choice(VARS if r.random() < 0.5 else VARS[4:])
                v, op = r.choice([(b, "="), (b, "?="), (b, "+="), (b + ":append", "="), (b + ":append:x86", "="), (b, "??="), (b, ".="), (b, ":=")])
                out.append({"k": "var", "b": b, "v": v, "op": op, "q": [lit(r.choice(["", "a b", "IMAGE_INSTALL", "inherit image"]))], "def": False})
        elif x < 0.75 or kinds:
            out.append({"k": "raw", "t": r.choice(["# inherit image packagegroup IMAGE_INSTALL\n", 'Q = "inherit image"\n', 'Q = "IMAGE_INSTALL = \'a\'"\n', "do_x() {\n    IMAGE_INSTALL=1\n    inherit packagegroup\n}\n",
                                                    "IMAGE_INSTALL[doc] = \"x\"\n", 'PACKAGES[x] = "y"\n', "unset IMAGE_INSTALL\n", '# PACKAGES = "no"\n', 'QPACKAGES = "n"\n', 'PACKAGES_X = "n"\n',
                                                    "export IMAGE_INSTALL\n", "include image\n"])})
        elif x < 0.85:
            b = r.choice(["PACKAGES", "PACKAGES", "PACKAGE_BEFORE_PN"])
            v, op = r.choice([(b, "="), (b, "+="), (b, "=+"), (b + ":append", "="), (b + ":prepend", "="), (b, "?="), (b + ":class-native", "=")])
            out.append({"k": "var", "b": b, "v": v, "op": op, "q": words(r, names + ["PN", "PN", "PN"], PLAIN), "def": False})
        elif x < 0.93:
            q = []
            for _ in range(r.choice([1, 2])):
                u = r.choice(URIS)
                q += [lit(" " if q else "")] + ([lit(u.replace("%s", "")), *words(r, ["PN"], ["n1", "foo", "x"])[:1]] if u.endswith("=%s") else [lit(u.replace("%s", r.choice(["n1", "n2", "a.b", ""])))])
            v, op = r.choice([("SRC_URI", "="), ("SRC_URI", "+="), ("SRC_URI:append", "="), ("SRC_URI:append:x86", "="), ("SRC_URI", "?=")])
            out.append({"k": "var", "b": "SRC_URI", "v": v, "op": op, "q": merge([t for t in q if t.get("t") != ""]), "def": False})
        else:
            q = []
            for _ in range(r.choice([1, 1, 2])):
                q += [lit(" " if q else "")] + [lit("^")] * r.choice([0, 1]) + [ref(r.choice(names + ["PN"]))] * r.choice([0, 1, 1]) + [lit(x) for x in r.sample(["-dyn", "-plug-", "x", "-l10n-"], 1)] + \
                    [lit(r.choice([".*", ".*", "[a-z]*", ".+", "$", "", "-?x", "[0-9]+"]))]
            if r.random() < 0.2:
                q = r.choice([[lit("* ")] + q, q + [lit(" *-x")], [lit("*-x.* ")] + q])
            v, op = r.choice([("PACKAGES_DYNAMIC", "="), ("PACKAGES_DYNAMIC", "+="), ("PACKAGES_DYNAMIC:append", "=")])
            out.append({"k": "var", "b": "PACKAGES_DYNAMIC", "v": v, "op": op, "q": merge([t for t in q if t.get("t") != ""]), "def": False})
    return out


def rand_case(r, kinds):
    main = recipe(r)
    pn = main.rsplit("/", 1)[1][:-3].split("_")[0]
    names = ["A", "B", "XBASE", "P", "BP", "MLPREFIX", "UNSET", "PV", "BPN"]
    paths = [main]
    pull = {}
    for p, st in ((L + "/recipes/i.inc", "require i.inc\n"), (L + "/classes/c.bbclass", "inherit c\n"), (L + "/recipes/%s_%%.bbappend" % pn, None), (L + "/classes/autotools.bbclass", "inherit autotools\n"),
                  (L + "/recipes/j.inc", "require j.inc\n")):
        if r.random() < 0.4:
            user = None
            if st:
                user = r.choice(paths)
                pull.setdefault(user, []).append({"k": "inh", "w": [st.split()[1]], "kw": "inherit"} if st.startswith("inh") else {"k": "raw", "t": st})
            paths.append(p)
    if "_" not in main.rsplit("/", 1)[1]:
        paths = [p for p in paths if not p.endswith(".bbappend")]
        pull = {k: v for k, v in pull.items() if k in paths}
    other = L + "/recipes/stranger_3.0.bb"
    files = []
    sts = {p: statements(r, names, kinds) + pull.get(p, []) for p in paths + [other]}
    if not kinds:
        for n in ("A", "B"):
            if r.random() < 0.8:
                sts[r.choice(paths)].append({"k": "var", "b": n, "v": n, "op": r.choice(["=", "?=", ":=", "??="]), "q": words(r, ["PN", "PV", "UNSET"] + (["B"] if n == "A" else []), PLAIN), "def": True})
            sts[other].append({"k": "var", "b": n, "v": n, "op": "=", "q": [lit("noise")], "def": True})
        if r.random() < 0.15:
            sts[r.choice(paths)].append({"k": "var", "b": "PV", "v": "PV", "op": "=", "q": [lit("7.0")], "def": True})
    for p, st in sts.items():
        r.shuffle(st)
        st = [s for i, s in enumerate(st) if not (s["k"] == "raw" and s["t"].startswith("#") and i and st[i - 1].get("t", "").startswith("#"))]
        if not st:
            st = [{"k": "raw", "t": 'Q = "1"\n'}]
        t = "".join(render(s) for s in st)
        files.append({"p": p, "text": t, "st": [clean(s) for s in st]})
    asks = [merge(r.choice([[ref("PN"), lit("-dyn-x")], [lit(pn + "-dyn")], [lit(pn + "-plug-abc")], [ref("A"), lit("x")], [lit("x")], [lit("other")], [lit(pn + "-l10n-1")], [ref("PN"), lit("x9")], [lit("stranger-dyn")]]))
            for _ in range(3)]
    adds = [main, other] + [p for p in paths if p.endswith(".bbappend")]
    r.shuffle(adds)
    cons = r.choice([{}, {}, {"add": ["special-img"], "var": ["SPECIAL_VAR"]}, {"override": ["special-img", "my-image"]}, {"remove": ["image"]}]) if kinds else {}
    return {"driver": "packages", "files": files, "adds": adds, "asks": [] if kinds else asks, "asktexts": [] if kinds else [text(a) for a in asks], "base": BASE,
            "cons": cons, "final": r.random() < 0.9}


def small(c):
    for f in c["files"]:
        f["text"] = "".join(render(s) for s in f["st"])
        if f["p"].endswith("native_1.0.bb") or f["p"] == c["path"]:
            f["st"] = [{"k": "raw", "t": "require i.inc\n"}] + f["st"]
            f["text"] = "require i.inc\n" + f["text"]
    asks = [[lit("stranger-d1")], [ref("PN"), lit("-dx")], [lit("foo-native-d")]]
    return {"driver": "packages", "files": c["files"], "adds": [c["path"], c["files"][2]["p"]], "asks": asks, "asktexts": [text(a) for a in asks], "base": BASE, "cons": {}, "final": True}
