"""Values with inline python."""
HELPERS = {"bb.utils.contains": 5, "bb.utils.contains_any": 5, "bb.utils.filter": 3, "oe.utils.conditional": 5, "oe.utils.ifelse": 3,
           "oe.utils.any_distro_features": (2, 4), "oe.utils.all_distro_features": (2, 4), "oe.utils.both_contain": 4, "oe.utils.vartrue": 4,
           "oe.utils.less_or_equal": 5, "oe.utils.version_less_or_equal": 5}
WORDS = ["a", "b c", "", "x=1", "-Wl,-z", "f(x)", "[1]", "${B}", "file://a.patch", "${SET}/y", "z;z", "1.0", "a_b", "--enable-x", "a \\\n   b", "-DX=\\\n", " p ", "\\n", "-DLONG=" + "y{}" * 80]
INNER = ["-DX=%sy%s", "%sq%s", "it%ss", "a=%sb c%s,d", "%s"]
LITS = ["a", " ", " b ", "x ", "${SET}", " ${B} ", "-", "/usr/", "c \\\n    ", "{ }", "'q'", "}", "d.e", "@", "$ ", "a\\.b", "\\x41 "]
UNKS = ["foo(d)", "1 + 1", "{'a': 'b'}['a']", "f('${B}')", "d.getVar('UNSET') or 'x'", "'%s' % g(d)", "x[0]", "bar({1: {2: 3}})", "get_x(\"q\", d)",
        "oe.utils.other('a', 'b', d)", "bb.utils.explode_deps('x')", "' '.join(y for y in z)", "foo(d)", "foo(d)", "d.expand('x')", "bb.utils.containsx(1)",
        "\"a\" if b else \"c\"", "long(%s)" % ", ".join("'%03d'" % k for k in range(25))]


def arg(r, words=WORDS):
    q = r.choice(["'", "'", "\""])
    if r.random() < 0.12:       # the other kind of quote within
        # (a double quote at the very end of a value is left to C03)
        t = r.choice(INNER if q == "\"" else INNER[2:4])
        return {"t": t.replace("%s", "'" if q == "\"" else "\""), "q": q}
    return {"t": r.choice(words), "q": q}


def call(r):
    f = r.choice(sorted(HELPERS))
    n = HELPERS[f]
    if isinstance(n, tuple):
        args = [{"t": "d", "q": ""}] + [arg(r) for _ in range(r.randint(n[0], n[1]) - 1)]
    elif f == "oe.utils.ifelse":
        args = [{"t": r.choice(["d.getVar('X') == 'all'", "True", "f(d, 'a', (1, 2))", "x", "[1, 2]"]), "q": ""}] + [arg(r) for _ in range(2)]
    else:
        args = [arg(r) for _ in range(n - 1)] + [{"t": "d", "q": ""}]
        if f in ("bb.utils.contains", "bb.utils.contains_any") and r.random() < 0.15:
            args[1] = {"t": r.choice(["['a', 'b']", "('a', 'b')", "x or 'y'", "f('a', 'b')"]), "q": ""}
    return {"k": "call", "f": f, "args": args, "sep": r.choice([", ", ", ", ",", " , ", ",  ", ", \\\n    ", ",\\\n", ", \\ \n "]),
            "o": r.choice(["", "", "", " ", " \\\n  ", "\\ \n"]), "c": r.choice(["", "", "", " ", " \\\n", " \\\t\n "])}


def seg(r):
    x = r.random()
    if x < 0.35:
        return {"k": "lit", "t": r.choice(LITS)}
    if x < 0.6:
        return call(r)
    if x < 0.72:
        return {"k": "getvar", "x": r.choice(["SET", "UNSET", "OTHER"]), "q": r.choice(["'", "\""]), "more": r.choice(["", "", ", True", ", False", ",True", ", expand=True", ", False, True", " , True ", ", noweakdefault = True", ", -1", ", 'x'"])}
    return {"k": "unk", "t": r.choice(UNKS)}


def render(s):
    if s["k"] == "lit":
        return s["t"]
    if s["k"] == "call":
        return "${@" + s["f"] + "(" + s.get("o", "") + s["sep"].join(a["q"] + a["t"] + a["q"] for a in s["args"]) + s.get("c", "") + ")}"
    if s["k"] == "getvar":
        return "${@d.getVar(" + s["q"] + s["x"] + s["q"] + s["more"] + ")}"
    return "${@" + s["t"] + "}"


ENV = [["SET", "s1"], ["OTHER", "o${Q}"]]


# what may stand directly in front of a statement; blocks that look ahead for their end among them
PRELUDES = ["", "", "", "# note\n", "# a\n# b\n", "def f(d):\n    return 1\n", "def f(d):\n    return 1\n\ndef g(d):\n    x = {}\n\n", "# a\ndef f(d):\n    y\n",
            "def f(d):\n    y\n# a\n", "addhandler h\npython h() {\n    x\n}\n", "do_x() {\n    a\n}\n", "\n", "W = \"a \\\n  b\"\n", "inherit x\n",
            "def f(d):\n    return \"${@bb.utils.contains('A', 'b', 'c', 'e', d)}\"\n", "# ${@foo(d)}\n"]
# statements with a text that may hold blocks: kind -> (head, tail)
KINDS = {"var": ("V%d = \"", "\"\n"), "varapp": ("V%d:append = \"", "\"\n"), "varplus": ("V%d += \"", "\"\n"), "varweak": ("V%d:foo ??= \"", "\"\n"),
         "flag": ("V%d[doc] = \"", "\"\n"), "export": ("export V%d = \"", "\"\n"), "inherit": ("inherit c%d ", "\n"), "func": ("do_v%d() {\n    ", "\n}\n"),
         "pyfunc": ("python do_v%d:append() {\n    ", "\n}\n")}


def fits(kind, segs):
    if kind == "inherit":
        return "\\" not in "".join(map(render, segs))
    if kind in ("func", "pyfunc"):
        return not any(s["k"] == "lit" and "}" in s["t"].replace("{ }", "").replace("${B}", "").replace("${SET}", "") for s in segs)
    return True


def case(vs, neg, kinds=(), pre=()):
    vars_, text = [], "".join('%s = "%s"\n' % (k, v) for k, v in ENV)
    for i, segs in enumerate(vs):
        kind = kinds[i] if i < len(kinds) and fits(kinds[i], segs) else "var"
        text += pre[i] if i < len(pre) else ""
        head = KINDS[kind][0] % i
        vars_.append({"name": "V%d" % i, "kind": kind, "head": head, "tail": KINDS[kind][1], "segs": segs, "line": text.count("\n") + 1})
        text += head + "".join(map(render, segs)) + KINDS[kind][1]
    return {"driver": "inline", "vars": vars_, "neg": neg, "env": ENV, "text": text, "opts": {"negative": neg}}


def rand_case(r):
    vs = []
    for _ in range(r.randint(1, 4)):
        segs = [seg(r) for _ in range(r.randint(1, 7))]
        if r.random() < 0.4:      # repetition
            for _ in range(r.randint(1, 3)):
                segs.insert(r.randint(0, len(segs)), r.choice(segs))
        # a closing brace directly behind a marked text would be read as part of it
        vs.append(segs)
    return case(vs, r.random() < 0.5, [r.choice(["var", "var", "var", *sorted(KINDS)]) for _ in vs], [r.choice(PRELUDES) for _ in vs])
