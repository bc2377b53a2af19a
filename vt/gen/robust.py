"""Whatever might be handed to the parser."""
from vt.gen import rich, store as G, stmt as S, text as X, inline as N
from vt import render

MISSING, DIR = "/R/l/recipes/none.bb", "/R/l/recipes/sub.bb"
ODD = ["", ".", "/", "//", "..", "recipes", "recipes/r_1.bb", "./recipes/r_1.bb", "r_1.bb", "//R/l/recipes/r_1.bb", "//R/l/recipes/none.bb", "/R/l//recipes/r_1.bb", "/R/l/recipes/../recipes/i.inc",
       "/R/l/recipes/r_1.bb/", "/R/l/recipes/r_1", "/R/l/recipes/", "/R/l/recipes/%.bb", "/R/l/recipes/_.bb", "/R/l/recipes/.bb", "/R/l/recipes/_1.bb", "/R/l/recipes/%.bbappend",
       "/R/l/recipes/[.bb", "/R/l/recipes/é ü_1.bb", "/R/l/recipes/" + "x" * 200 + "_1.bb", "~/r_1.bb", "//none/x_1.bb", "/none/x_1.bb", "none/x_1.bbappend", "\n", " ", "*"]
TERMS = ["${A}", "${A} ${B} ${C}", "${PN}-${PV}", "${", "}", "${${A}}", "${@x}", "", "${A", "(", "${@d.getVar('A')}", "${@oe.utils.read_file('${A}')}"]
REFS = ["${A}", "${B}", "${C}", "${PN}", "${PV}", "${BPN}", "${${B}}", "${A", "${}", "${ A }", "${@d.getVar('A')}", "${@d.getVar('B') + '${C}'}", "${@oe.utils.vartrue('A', 'x', '${A}', d)}",
        "${@bb.utils.contains('A', '${B}', '${A}', '${C}', d)}", "${P}", "${BP}", "${S}", "${WORKDIR}", "${@A}", "${@{'a': '${B}'}}", "x", "-x", " ", "(", "[", "*", "\\", "${A}${A}", "^${A}.*", "a=b", ";name=${A}",
        "git://[x", "file://${A}", "http://h:port/x", "://", "%", "%s", "{0}", "\t", "é", "\u2028", "${@oe.utils.read_file('${THISDIR}/${A}')}", "${@oe.utils.read_file('/')}",
        "${@oe.utils.read_file('${THISDIR}/bin')}", "${@oe.utils.read_file('${THISDIR}/a\0b')}", "${@oe.utils.read_file('%s')}" % ("x" * 300)]
VARS = ["A", "B", "C", "PN", "PV", "BPN", "PACKAGES", "SRC_URI", "PACKAGES_DYNAMIC", "PACKAGE_BEFORE_PN", "P", "BP", "S", "A_x", "A[f]", "IMAGE_INSTALL", "A:append", "A:remove", "A:${B}", "A:append:${A}", "A_append",
        "A:prepend", "SRC_URI:append", "RDEPENDS:${PN}", "MACHINE", "DISTRO", "FILESEXTRAPATHS:prepend", "inherit", "A-B", "0", "${A}"]
OPS = ["=", "?=", "??=", ":=", "+=", "=+", ".=", "=.", " = ", " += "]
PULLS = ["inherit ${A}", "require ${A}", "include ${B}", "require /", "require .", "include ..", "inherit .", "inherit /", "include ${A", "require recipes/sub", "include recipes/sub.bb", "require l/recipes", "inherit sub",
         "inherit", "require ", "include \t", "inherit ${@bb.utils.contains('A', 'b', 'image', '', d)}", "require i.inc", "require recipes/i.inc", "inherit c", "require r_1.bb", "require recipes/r_1.bb",
         "include ${PN}.inc", "include ../recipes/i.inc", "include_all i.inc", "addfragments a b c d", "addfragments a", "INHERIT += \"c ${A}\"", "inherit c c c", "require a\0b", "require " + "x" * 300,
         "inherit_defer ${A} c", "EXPORT_FUNCTIONS", "EXPORT_FUNCTIONS ${A}", "addtask", "addtask a before", "addtask a after b before c", "deltask", "deltask ${A}", "unset", "unset A[", "addpylib", "addpylib a b c",
         "export", "export A", "export A = \"b\"", "A[x] = \"y\"", "A[x", "python () {", "python do_x() {", "}", "fakeroot python x() {", "do_x() {", "{", "def f(", "def f(d):", "    return 1", "\\", "# x \\", "#", "A = \"",
         "A = 'x'", "A = \"x' \\", "A = ''", "A =", "=", ":=", "A = \"\\\"\"", "\x1b", "A = \"\x1bx\"", "\0", "\ufeff", "\r", "A = \"1\"\r", "\x0c", "\u2028", "\x85", "A = \"${@", "A = \"${@{\"", "A = \"${@x}}\""]


HELPERS = ["bb.utils.contains", "bb.utils.contains_any", "bb.utils.filter", "oe.utils.conditional", "oe.utils.ifelse", "oe.utils.any_distro_features", "oe.utils.all_distro_features",
           "oe.utils.both_contain", "oe.utils.vartrue", "oe.utils.less_or_equal", "oe.utils.version_less_or_equal", "d.getVar", "oe.utils.read_file", "bb.utils", "oe.utils"]
ARGS = ["'A'", "d", "'a b'", "'${A}'", "", " ", "'", "\"", "1", "''", "f(d)", "(", ")", "['a', 'b']", "True", "\\", "'a\\\n b'", "'x' if d else 'y'"]


def call(r):
    """a call of a helper, or what is left of it"""
    n = r.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7])
    a = r.choice([",", ", ", " , "]).join(r.choice(ARGS) for _ in range(n))
    t = r.choice(["", "", "not ", "f(", "a + "]) + r.choice(HELPERS) + r.choice(["(", "(", "(", "( ", "", " (", "(("]) + a + r.choice([")", ")", ")", " )", "", "))", ") + 'a'", ")[0]", ").x()"])
    return "${@" + r.choice(["", "", " "]) + t + r.choice(["}", "}", "}", "}", "", " }"])


def wild_text(r):
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8])):
        x = r.random()
        if x < 0.5:
            out.append('%s %s "%s"' % (r.choice(VARS), r.choice(OPS), "".join(call(r) if r.random() < 0.15 else r.choice(REFS) for _ in range(r.choice([0, 1, 2, 3])))))
        elif x < 0.8:
            p = r.choice(PULLS)
            out.append(p.replace("${A}", call(r)) if r.random() < 0.2 else p)
        elif x < 0.9:
            out.append(r.choice(rich.LINES))
        else:
            out.append(X.arbitrary(r)["text"])
    t = r.choice(["\n", "\n", "\n", "\n", "\\\n", "\r\n"]).join(out)
    return t + ("\n" if r.random() < 0.8 else "")


def mutate(r, t):
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randint(0, len(t))
        x = r.random()
        if x < 0.3:
            t = t[:i] + t[i + r.choice([1, 1, 2, 5]):]
        elif x < 0.7:
            t = t[:i] + r.choice(["{", "}", "\"", "'", "\\", "\n", "\\\n", "${", "${@", "(", ")", "#", "=", " ", "\t", "\0", "\x1b", "\r", ":", "[", "]", "$", "@", "é", "\x0b"]) + t[i:]
        else:
            j = r.randint(0, len(t))
            t = t[:i] + t[min(i, j):max(i, j)][:20] + t[i:]
    return t


def paths():
    return [G.path("bb", "r_1"), G.path("bbappend", "r_%"), G.path("inc", "i"), G.path("bbclass", "c"), G.path("conf", "i")]


def wild(r):
    """any text in any file"""
    ps = paths()
    files = [{"p": p, "text": wild_text(r), "st": []} for p in ps[:1] + [q for q in ps[1:] if r.random() < 0.5]]
    adds = [f["p"] for f in files if r.random() < 0.8 or f["p"] == ps[0]] + r.choice([[], [], [MISSING], [DIR]])
    r.shuffle(adds)
    return case(r, files, adds)


def case(r, files, adds, graph=False, dirs=True):
    ops = []
    for a in adds:
        ops.append(["add", a])
        if r.random() < 0.15:
            ops.append(["q"])
        if r.random() < 0.1:
            ops.append(["final"])
    odd = [] if graph or not dirs else [r.choice(ODD) for _ in range(r.choice([0, 0, 1, 2]))]
    for x in odd:
        if r.random() < 0.7:
            ops.insert(r.randint(0, len(ops)), ["add", x])
    ops += [["final"], ["q"]]
    return {"driver": "robust", "files": files, "ops": ops, "graph": graph, "odd": odd, "dirs": [DIR, "/R/l/recipes/sub", "/R/l/recipes/sub.inc", "/R/l/classes/sub.bbclass", "/R/l/recipes/nowhere/missing.inc"] if dirs else [],
            "terms": TERMS, "opts": {"newstyle": r.random() < 0.7, "negative": r.random() < 0.3}}


def documents(r, n):
    """valid documents"""
    docs = []
    for i in range(n):
        x = r.random()
        if x < 0.5:
            docs.append(X.wellformed(r)["text"])
        elif x < 0.8:
            st = rich.tidy(rich.content(r, r.randint(3, 8)))
            docs.append(render.body(st))
        else:
            docs.append("".join('%s %s "%s"\n' % (r.choice(VARS[:8]), r.choice(OPS), "".join(r.choice(REFS[:14]) for _ in range(3))) for _ in range(3)))
    return docs


def cuts(r, doc, step=1):
    """the document truncated at every character, in a recipe that may pull it in from elsewhere"""
    out = []
    for i in range(0, len(doc) + 1, step):
        how = i % 3
        if how == 0:
            fs = [{"p": G.path("bb", "r_1"), "text": doc[:i], "st": []}]
        elif how == 1:
            fs = [{"p": G.path("bb", "r_1"), "text": 'A = "1"\nrequire recipes/i.inc\nB = "${A}"\n', "st": []}, {"p": G.path("inc", "i"), "text": doc[:i], "st": []}]
        else:
            fs = [{"p": G.path("bb", "r_1"), "text": "inherit c\n" + doc[:i], "st": []}, {"p": G.path("bbclass", "c"), "text": doc[:i], "st": []}]
        out.append(case(r, fs, [fs[0]["p"]]))
    return out


def mutant(r, docs):
    fs = [{"p": G.path("bb", "r_1"), "text": mutate(r, r.choice(docs)), "st": []}]
    if r.random() < 0.3:
        fs.append({"p": G.path("bbappend", "r_%"), "text": mutate(r, r.choice(docs)), "st": []})
    return case(r, fs, [f["p"] for f in fs])


def written(t):
    if not t:
        return "recipes/nowhere/missing.inc"
    return G.written(t, None)


def calls(r):
    """values full of calls"""
    t = "".join('%s %s "%s"\n' % (r.choice(VARS[:12]), r.choice(OPS), r.choice(["", "x "]) + " ".join(call(r) for _ in range(r.choice([1, 1, 2])))) for _ in range(r.choice([1, 2, 4])))
    fs = [{"p": G.path("bb", "r_1"), "text": t, "st": []}]
    return case(r, fs, [fs[0]["p"]])


def deep(r):
    """a long chain of files, which may end where it began"""
    n = r.choice([20, 40, 60])
    fs = [G.path("bb", "r_1")] + [G.path(r.choice(["inc", "inc", "bbclass", "conf"]), "n%d" % k) for k in range(n)]
    files = []
    for i, f in enumerate(fs):
        t = fs[i + 1] if i < n else r.choice(fs[1:])
        files.append({"p": f, "st": G.weave(r, [G.inh(r, [t]) if t.endswith(".bbclass") else G.inc(r, t)], hi=1)})
    c = case(r, files, [fs[0]], True)
    c["terms"] = ["${A}"]
    return c


def again(r):
    """files that name themselves and each other many times"""
    fs = [G.path("bb", "r_1")] + [G.path(r.choice(["inc", "inc", "bbclass", "conf"]), "n%d" % k) for k in range(r.choice([0, 1, 1, 2]))]
    files = []
    for i, f in enumerate(fs):
        pull = lambda t: G.inh(r, [t]) if t.endswith(".bbclass") else G.inc(r, t)  # noqa
        own = [pull(f)] * r.choice([0, 20, 35]) if not f.endswith(".bb") else []
        rest = [pull(t) for t in fs[1:] if t != f for _ in range(r.choice([1, 3]))]
        r.shuffle(rest)
        files.append({"p": f, "st": G.weave(r, rest, hi=1) + own if r.random() < 0.5 else own + G.weave(r, rest, hi=1)})
    c = case(r, files, r.choice([[fs[0]], fs, fs[::-1]]), True)
    c["terms"] = ["${A}"]
    return c


def spiral(r):
    """a long chain of variables, which may end where it began"""
    n = r.choice([5, 20, 40])
    names = ["V%s" % "abcdefghij"[k // 10] + "abcdefghij"[k % 10] for k in range(n)]
    lines = ['%s = "%s${%s}%s"' % (v, r.choice(["", "x ", "${PN}"]), names[(i + 1) % n] if i + 1 < n or r.random() < 0.7 else "PV", r.choice(["", " y"])) for i, v in enumerate(names)]
    r.shuffle(lines)
    fs = [{"p": G.path("bb", "r_1"), "text": "\n".join(lines) + "\n", "st": []}]
    c = case(r, fs, [fs[0]["p"]])
    c["terms"] = ["${%s}" % r.choice(names), "${%s} ${%s}" % (names[0], names[-1])]
    return c


def graph(r):
    files = G.graph(r, density=r.choice([0.2, 0.35, 0.5]), cyclic=True)
    adds = [f["p"] for f in files if f["p"].endswith((".bb", ".bbappend"))]
    adds += r.choice([[], [], [MISSING], [DIR], [r.choice(files)["p"]], [adds[0]]])
    r.shuffle(adds)
    c = case(r, files, adds, True)
    for f in files:
        for s in f["st"]:
            if s["k"] == "inc" and s["to"] == [""]:
                s["w"] = [r.choice(["nowhere/missing.inc", "recipes/nowhere/missing.inc", "recipes/sub", "recipes/sub.inc", "${UNKNOWN}/x.inc", "recipes/sub.bb"])]
            if s["k"] == "inh":
                s["w"] = [r.choice(["nowhere", "sub"]) if w == "nowhere" else w for w in s["w"]]
    return c


def from_model(r, c):
    for f in c["files"]:
        for s in f["st"]:
            if s["k"] in ("inc", "inh"):
                t = s["to"][0]
                s["w"] = [r.choice(["recipes/nowhere/missing.inc", "recipes/sub.inc"]) if not t else G.written(t, None)] if s["k"] == "inc" else [t.rsplit("/", 1)[1][:-8]]
    return case(r, c["files"], c["adds"], True)
