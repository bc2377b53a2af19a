"""Random statements (the renderer has to agree with Statement.tla)."""

OPS = ["=", "?=", "??=", ":=", "+=", "=+", ".=", "=."]
WS = ["", " ", " ", " ", "  ", "\t"]
WS1 = [" ", " ", " ", "  ", "\t"]
BASES = ["A", "SRC_URI", "FILES", "RDEPENDS", "LICENSE", "S", "EXTRA_OECONF", "PACKAGECONFIG", "INHERITX", "EXPORTED", "X1", "B-C", "PV",
         "FOO.BAR", "LIB+X", "D~E", "A/B", "INC_DIR", "_PRIV", "A__B", "__X", "E_"]
LOWER = ["includedir", "exportdir", "inheritance", "requirement", "defined", "pythonpath", "addtaskx", "unsetting", "fakerootx", "libdir", "x", "deltaskx"]
OVERRIDES = ["append", "prepend", "remove", "class-native", "class-nativesdk", "class-cross", "class-target", "${PN}", "${PN}-dev", "qemux86",
             "poky", "x86-64", "foo", "foo-bar", "1", "pn-foo", "libc-musl", "mydistro", "machine", "${PN}-dbg-x", "task", "a.b", "nodistro", "poky-tiny"]
WORDS = ["a", "bc", "x=y", "file://a.patch;apply=no", "${B}", "1.0", "-Dfoo=bar", "#x", "https://a.b/c?d=e", "äö", "'q'", "a:b", "[z]", "(p)", "%d",
         "inherit", "python", "{", "}", "(>= 1.0)", "(= ${PV}) ", "(x", "${@x", "d.e", "a_append", "before", "=", "+=", "\\\"", "def", "fakeroot", "f() {", "main() {x}", "a\\nb", "\\.", "\\x41", "s/\\//g", "\\\\x", "$(x\\|y)", "\\x1b"]
CLS = ["a", "cmake", "core-image", "autotools_stage", "x-y", "pkg.config", "${CLS}", "python3native", "b"]
TASKS = ["do_x", "do_compile", "install", "do_image-x", "do_a1", "do_run_after", "do_x_before"]
FUNC = ["do_install", "do_compile", "x", "pkg_postinst", "foo-bar", "oe.x", "python_x", "do_Fetch", "fakeroot_y", "a+b", "do_x", "do_known", "oe_x_y", "oe__x", "__f", "append_y", "__anonymous"]


GAPS = [" ", " ", " ", "  ", "\t", " \t ", " \\\n    ", "\\\n\t"]


KEYS = ["inherit", "inherit_defer", "require", "include", "include_all", "export", "python", "fakeroot", "def", "addtask", "deltask", "unset", "EXPORT_FUNCTIONS", "addpylib", "addfragments",
        "INHERIT", "pkg_preinst", "pkg_postinst", "pkg_prerm", "pkg_postrm", "addhandler", "before", "after", "class", "image"]


def odd(r, pre=("do_", "x_", "x-", "a"), post=("", "_x", "-x", "x")):
    """a name with a keyword in it"""
    return r.choice(pre) + r.choice(KEYS) + r.choice(post)


def task(r):
    return odd(r) if r.random() < 0.25 else r.choice(TASKS)


def klass(r):
    return odd(r, ("", "x-", "x_")) if r.random() < 0.2 else r.choice(CLS)


def quoted(r):
    return {"qt": "'"} if r.random() < 0.12 else {}


def value(r, multi=True):
    def piece():
        return " ".join(r.choice([w for w in WORDS if w not in ("${@x", "\\\"")]) for _ in range(r.randint(0, 3)))
    n = r.choice([1, 1, 1, 2, 3]) if multi else 1
    ps = [piece() for _ in range(n)]
    for i in range(n):
        if i > 0:
            ps[i] = r.choice(["    ", "", "\t", " "]) + ps[i]
        if i < n - 1:
            ps[i] = ps[i] + r.choice([" ", " ", ""])
        elif i > 0 and r.random() < 0.3:
            ps[i] = ps[i] + " "
    return ps


def overrides(r, d, lo=0):
    n = r.choice([0, 0, 1, 1, 2, 3]) if not lo else r.randint(1, 4)
    ov = [r.choice(OVERRIDES) for _ in range(n)]
    return ov


def var(r, style=None):
    d = style or r.choice([":", "_"])
    ov = overrides(r, d)
    base = r.choice(BASES)
    if d == "_":
        # old style: every part of the base name starts with an upper-case letter
        pass
    if r.random() < 0.12:
        ov, base = [], r.choice(LOWER)
    if base == "INC_DIR" and r.random() < 0.5:
        ov = []
    return {"k": "var", "base": base, "ov": ov, "d": d, "op": r.choice(OPS), "w1": r.choice(WS), "w2": r.choice(WS), "val": value(r),
            "tail": r.choice(["", "", "", "", " ", "\t"]), **quoted(r)}


def fix(s):
    """keep out of what the grammar leaves open"""
    if s.get("qt") == "'":
        s["val"] = [x.replace("'", "\"") for x in s["val"]]
    if s["k"] == "var":
        name = s["d"].join([s["base"], *s["ov"]])
        # a name ending in + or . would merge with the operator
        if name[-1:] in "+." or (s["w1"] == "" and name[-1:] in "+.:?"):
            return None
    return s


def body(r):
    ls = []
    for _ in range(r.randint(0, 5)):
        ind = r.choice(["    ", "    ", "        ", "  "])
        ls.append(r.choice([ind + "a b\n", ind + "x=1\n", ind + "if [ -x y ]; then\n", ind + "echo \"${D}\" {x,y}\n", "\n", ind + "# note\n",
                            ind + "cat \\\n", ind + "foo {\n" + ind + "}\n", ind + "def x(d):\n", ind + "inherit a\n", ind + "  A = \"1\"\n",
                            ind + "printf \"{\" \"}\" '{' '}'\n", ind + "awk '{ print $1 }' {} \\;\n", ind + "x = {'a': {1}}  # {c}\n", ind + "# {\n" + ind + "# }\n", ind + "{\n" + ind + "}\n",
                            ind + "cat <<EOF\n{\n}\nEOF\n", ind + "true\n"]))
    return "".join(ls).splitlines(True)


def func(r, style=None):
    d = style or r.choice([":", "_"])
    ov = [r.choice(OVERRIDES) for _ in range(r.choice([0, 0, 1, 2]))]
    return {"k": "func", "pre": r.choice(["", "", "python ", "fakeroot ", "fakeroot python ", "python  ", "fakeroot  ", "python fakeroot "]), "base": r.choice(FUNC), "ov": ov, "d": d,
            "w1": r.choice(["", "", " "]), "w2": r.choice(["", "", " "]), "w3": r.choice([" ", " ", "", "  "]), "body": body(r)}


def pydef(r):
    b = [r.choice(["    return 1\n", "    x = {}\n", "\n", "    # c\n", "    A = \"1\"\n", "\tinherit x\n"]) for _ in range(r.randint(1, 4))]
    return {"k": "def", "w1": r.choice(WS1), "name": r.choice(["foo", "Foo_1", "get_x", "oe-x", "A1"]), "args": r.choice(["d", "", "d, e=1", "d, *a", "d,\n        e=1"]),
            "ann": r.choice(["", "", " -> str"]), "body": b}


def other(r):
    k = r.choice(["flag", "flag", "inherit", "inherit", "INHERIT", "include", "includeall", "export", "exportval", "addtask", "addtask", "deltask",
                  "unset", "exportfunc", "addpylib", "addfragments", "comment", "blank"])
    if k == "flag":
        return {"k": k, "name": r.choice(["do_x", "A", "PACKAGECONFIG", "SRC_URI", "do_install", "FOO.B", "${PN}_x", "inheritx", odd(r)]),
                "flag": r.choice(["depends", "noexec", "a-b", "sha256sum", "x.y", "a+b", "a@b", "b/c", "md5_x", "before", "export", "after-x"]),
                "w1": r.choice(WS), "op": r.choice(OPS), "w2": r.choice(WS), "val": value(r), **quoted(r)}
    if k == "inherit":
        return {"k": k, "w1": r.choice(["", "", "", " ", "\t"]), "kw": r.choice(["inherit", "inherit", "inherit_defer"]), "w2": r.choice(WS1),
                "cls": [klass(r) for _ in range(r.randint(1, 3))], "sep": r.choice([" ", " ", "  ", "\t", " \\\n  ", "\\\n "])}
    if k == "INHERIT":
        return {"k": k, "w1": r.choice(WS), "op": r.choice(OPS), "w2": r.choice(WS), "cls": [klass(r) for _ in range(r.randint(1, 3))],
                "sep": r.choice([" ", "  ", " \\\n  "])}
    if k == "include":
        return {"k": k, "w1": r.choice(["", "", " "]), "kw": r.choice(["include", "require"]), "w2": r.choice(WS1),
                "name": r.choice(["no/x.inc", "${PN}-no.inc", "a-b_1.0.inc", "conf/distro/x.conf", "x+y.inc", "a@b.inc", "~x.inc", "../y.inc", "${A}/${B}.inc",
                                                                         odd(r, ("no/", "", "x-")) + ".inc"])}
    if k == "includeall":
        return {"k": k, "w2": r.choice(WS1), "name": r.choice(["conf/x.conf", "a/b.inc", "${X}.inc", odd(r, ("no/", "", "x-")) + ".inc"])}
    if k == "export":
        return {"k": k, "w1": r.choice(["", "", " "]), "w2": r.choice(WS1), "name": r.choice(["A", "MY_VAR", "x1", "LD_LIBRARY_PATH", odd(r, ("x_", "", "A_"), ("", "_x", "x"))])}
    if k == "exportval":
        return {"k": k, "w1": r.choice(["", "", " "]), "w2": r.choice(WS1), "name": r.choice(["A", "MY_VAR", "x1", "A_append", "B:append", odd(r, ("x_", "", "A_"), ("", "_x", "x"))]),
                "w3": r.choice(WS), "op": r.choice(OPS), "w4": r.choice(WS), "val": value(r), **quoted(r)}
    if k == "addtask":
        b = [task(r) for _ in range(r.choice([0, 1, 1, 2]))]
        a = [task(r) for _ in range(r.choice([0, 1, 1, 3]))]
        return {"k": k, "w1": r.choice(WS1), "name": r.choice([task(r), "do_after_x", "before_y"]), "before": b, "after": a,
                "first": r.choice(["before", "after"]), "comment": r.choice(["", "", "", "# note before that", "# after do_x before do_y", "# pkg_postinst", "#after"]), "gap": r.choice(GAPS)}
    if k == "deltask":
        return {"k": k, "w1": r.choice(WS1), "name": task(r), "comment": r.choice(["", "", "# because", "# deltask do_x", "#"])}
    if k == "unset":
        return {"k": k, "w1": r.choice(["", "", " "]), "w2": r.choice(WS1), "name": r.choice(["A", "SRC_URI", "do_x", "A:append", "X-Y", odd(r, ("do_", "", "A_"))]),
                "flag": r.choice(["", "", "noexec", "a-b"])}
    if k == "exportfunc":
        return {"k": k, "w1": r.choice(WS1), "names": [task(r) for _ in range(r.randint(1, 3))], "stem": "STEM", "gap": r.choice(GAPS)}
    if k == "addpylib":
        return {"k": k, "path": r.choice(["${LAYERDIR}/lib", "${LAYERDIR}/a/b"]), "ns": r.choice(["oe", "my_ns", "a.b"])}
    if k == "addfragments":
        return {"k": k, "path": r.choice(["conf/fragments", "a/b"]), "variable": r.choice(["OE_FRAGMENTS", "X"]), "flagged": r.choice(["OE_META", "Y_Z"])}
    if k == "comment":
        return {"k": k, "lines": [r.choice(["", " x", "# y", " A = \"1\"", " inherit a", "!", " def x(d):", " do_x() {"]) for _ in range(r.randint(1, 3))]}
    if k == "blank":
        return {"k": k, "w1": r.choice(["", "", " ", "\t", "  "])}
    raise AssertionError(k)


def name_of(s):
    return s["d"].join([s["base"], *s["ov"]])


def quote(s):
    return s.get("qt", '"')


def cont(ps):
    return "\\\n".join(ps)


def render(s):
    k = s["k"]
    if k == "var":
        return name_of(s) + s["w1"] + s["op"] + s["w2"] + quote(s) + cont(s["val"]) + quote(s) + s["tail"] + "\n"
    if k == "flag":
        return s["name"] + "[" + s["flag"] + "]" + s["w1"] + s["op"] + s["w2"] + quote(s) + cont(s["val"]) + quote(s) + "\n"
    if k == "func":
        return s["pre"] + name_of(s) + s["w1"] + "(" + s["w2"] + ")" + s["w3"] + "{\n" + "".join(s["body"]) + "}\n"
    if k == "def":
        return "def" + s["w1"] + s["name"] + "(" + s["args"] + ")" + s["ann"] + ":\n" + "".join(s["body"])
    if k == "inherit":
        return s["w1"] + s["kw"] + s["w2"] + s["sep"].join(s["cls"]) + "\n"
    if k == "INHERIT":
        return "INHERIT" + s["w1"] + s["op"] + s["w2"] + '"' + s["sep"].join(s["cls"]) + '"\n'
    if k == "include":
        return s["w1"] + s["kw"] + s["w2"] + s["name"] + "\n"
    if k == "includeall":
        return "include_all" + s["w2"] + s["name"] + "\n"
    if k == "export":
        return s["w1"] + "export" + s["w2"] + s["name"] + "\n"
    if k == "exportval":
        return s["w1"] + "export" + s["w2"] + s["name"] + s["w3"] + s["op"] + s["w4"] + quote(s) + cont(s["val"]) + quote(s) + "\n"
    if k == "addtask":
        g = s.get("gap", " ")
        b = g + "before" + g + g.join(s["before"]) if s["before"] else ""
        a = g + "after" + g + g.join(s["after"]) if s["after"] else ""
        return "addtask" + s["w1"] + s["name"] + (b + a if s["first"] == "before" else a + b) + (" " + s["comment"] if s["comment"] else "") + "\n"
    if k == "deltask":
        return "deltask" + s["w1"] + s["name"] + (" " + s["comment"] if s["comment"] else "") + "\n"
    if k == "unset":
        return s["w1"] + "unset" + s["w2"] + s["name"] + ("[" + s["flag"] + "]" if s["flag"] else "") + "\n"
    if k == "exportfunc":
        return "EXPORT_FUNCTIONS" + s["w1"] + s.get("gap", " ").join(s["names"]) + "\n"
    if k == "addpylib":
        return "addpylib " + s["path"] + " " + s["ns"] + "\n"
    if k == "addfragments":
        return "addfragments " + s["path"] + " " + s["variable"] + " " + s["flagged"] + "\n"
    if k == "comment":
        return "".join("#" + x + "\n" for x in s["lines"])
    if k == "blank":
        return s["w1"] + "\n"
    raise AssertionError(k)


DISTROS = ["mydistro"]
KNOWN = ["do_x", "do_known", "oe_x_y"]
ALL_DISTROS = ["nodistro", "poky-altcfg", "poky-bleeding", "poky-tiny", "poky", "mydistro"]


OTHERS = ['A:append = "1"\n', 'A_append = "1"\n', 'A_class-native = "x"\nB:x = "2"\n', 'do_x:append() {\n    :\n}\n', 'do_x_append() {\n    :\n}\n', 'inherit x\nA = "1"\n', 'A:remove = "\\\n x"\n', "def f(d):\n    pass\n"]


def beside(r):
    return [[r.choice(["before", "after"]), r.choice(OTHERS)] for _ in range(r.choice([1, 1, 2]))] if r.random() < 0.3 else []


def case(stmts, newstyle=False, name="abc_1.0.bb", kind="statement", others=None):
    stem = name.rsplit(".", 1)[0]
    out, prev = [], None
    for s in stmts:
        if prev == "def" and not (render(s)[0].isalnum() or render(s)[0] in "#_$"):
            out.append({"k": "comment", "lines": [" x"]})
        elif s["k"] == "comment" and prev == "comment":
            continue
        if s["k"] == "comment" and out and out[-1]["k"] == "comment":
            prev = "comment"
            continue
        if s["k"] == "exportfunc":
            s = dict(s, stem=stem)
        out.append(s)
        prev = s["k"]
    return {"driver": "statement", "name": name, "stmts": out, "text": "".join(map(render, out)), "opts": {"newstyle": newstyle}, "others": others or [],
            "distros": ALL_DISTROS, "functions": KNOWN}
