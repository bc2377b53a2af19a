"""Random text files."""

VARS = ["A", "SRC_URI", "FILES:${PN}-dev", "RDEPENDS:${PN}", "do_x", "_X", "${PN}_Y", "S", "DEPENDS_append", "PV"]
OPS = [" = ", " ?= ", " ??= ", " := ", " += ", " =+ ", " .= ", " =. ", "=", "+=", "?="]
WORDS = ["a", "b c", "foo", "${B}", "x=y", "file://a.patch;x=1", "1.0", "", "äö", "#no", "d e f", "p\x0cq", "u\u2028v", "n\x85m", "t\x0bw", "a\x1cb", "f() {", "int main() { return 0; }", "x (){", "python f() {"]
ODD = ["\\", "{", "}", "(", ")", "#", "\"", "'", "$", "${@", "\t", "  ", "\r\n", "\n", "\n\n", "\\\n", "\\ \n", "def ", "inherit ",
       "include ", "require x.inc\n", "unset ", "addtask ", "export ", "python ", "fakeroot ", "() {", "() {\n", "}\n", "=", "+=", ":",
       "[", "]", "a", "B", "_", "-", "ß", "\u2028", "\x0c", "é", "% ", "before ", "after ", "EXPORT_FUNCTIONS ", "do_x", "0", ".", "/", "\r"]


def ident(r):
    return r.choice(["x", "do_install", "do_compile:append", "pkg_postinst:${PN}", "foo-bar", "do_x_append"])


def block(r, last=False):
    """one well-formed block -> (kind, text)"""
    k = r.choice(["line", "line", "line", "blank", "cont", "cont", "func", "func", "comment", "comment", "def", "icomment"])
    if k == "line":
        return k, r.choice(["%s%s\"%s\"\n" % (r.choice(VARS), r.choice(OPS), r.choice(WORDS)),
                            "inherit a b\n", "require x.inc\n", "addtask do_x after do_y\n", "unset A\n", "export B\n",
                            "deltask do_x\n", "do_x[depends] = \"a:b\"\n", "EXPORT_FUNCTIONS do_x\n", "include conf/a.inc\n",
                            "addhandler foo\n", "A = '%s'\n" % r.choice(WORDS)])
    if k == "blank":
        return k, r.choice(["\n", "\n", "  \n", "\t\n"])
    if k == "icomment":
        return k, r.choice(["  # indented\n", "\t#x\n"])
    if k == "cont":
        n = r.randint(1, 4)
        t = "%s%s\"%s" % (r.choice(VARS), r.choice(OPS), r.choice(WORDS))
        for _ in range(n):
            t += " \\" + r.choice(["", "", "", " ", "\t", "  ", " \t", "     "]) + "\n" + r.choice(["", "    ", "\t", "  "]) + \
                r.choice([*WORDS, "# odd", "def x(d):", "f() {", "}", "{"])
        return k, t + "\"\n"
    if k == "func":
        head = r.choice(["", "", "python ", "fakeroot ", "fakeroot python "]) + r.choice([ident(r), ident(r), "x"])
        t = head + r.choice(["() {", " () {", "( ) {", "() { ", " ( )  {"]) + "\n"
        depth = 0
        for _ in range(r.randint(0, 5)):
            c = r.choice(["s", "s", "o", "c", "b", "v", "h", "cont", "d"])
            if c == "s":
                t += r.choice(["    a b\n", "\tx=1\n", "  if [ -x y ]; then\n", "  fi\n", "nothing\n", "    a\x0cb\n", "    u\u2028v\n"])
            elif c == "o":
                t += "    foo {\n"
                depth += 1
            elif c == "c" and depth:
                t += "    }\n"
                depth -= 1
            elif c == "b":
                t += "\n"
            elif c == "v":
                t += r.choice(["    install ${D}${bindir} {x,y}\n", "    printf \"{\" \"}\" '{' '}'\n", "    awk '{ print $1 }' {} \\;\n", "# {\n    b\n# }\n", "    x = {'}': 1, '{': 2}\n"])
            elif c == "h":
                t += "# in function\n"
            elif c == "cont":
                t += "    a \\\n"
            elif c == "d":
                t += "    def x(d):\n"
        t += "    }\n" * depth + "}\n"
        return k, t
    if k == "comment":
        return k, "".join("#" + r.choice(["", " x", "# y", " p\x0cq", " n\x85m", " a = {", " f() {x", " } ", " def f(d):"]) + "\n" for _ in range(r.randint(1, 3)))
    if k == "def":
        t = r.choice(["def foo(d):\n", "def Foo_1(d, e):\n", "def f():\n"])
        for _ in range(r.randint(0, 4)):
            t += r.choice(["    return 1\n", "\n", "    x = {\n", "\ty()\n", "    # c\n", "    a = b \\\n"])
        return k, t
    raise AssertionError(k)


def wellformed(r):
    blocks, prev = [], None
    for _ in range(r.randint(1, 9)):
        k, t = block(r)
        if prev == "def" and not (t[0].isalnum() and t[0].isascii() or t[0] in "#_$"):
            continue
        if k == "func" and "#" in t.split("\n")[0]:
            continue
        if k == "comment" and prev == "comment":
            blocks[-1] += t
            continue
        blocks.append(t)
        prev = k
    if not blocks:
        return wellformed(r)
    if r.random() < 0.4:
        blocks[-1] = blocks[-1][:-1]   # no newline at the end of the file
    if blocks[-1] == "":
        blocks.pop()
    if r.random() < 0.04 and blocks and blocks[0][:1].isalpha() and "(" not in blocks[0].split("\n")[0] and blocks[0][:4] != "def ":
        blocks[0] = "\ufeff" + blocks[0]    # a byte order mark is text like any other
    return {"text": "".join(blocks), "blocks": blocks}


def truncated(r):
    t = wellformed(r)["text"]
    return {"text": t[:r.randint(0, len(t))]}


def arbitrary(r):
    t = ""
    for _ in range(r.randint(0, 14)):
        x = r.random()
        if x < 0.55:
            t += r.choice(ODD)
        elif x < 0.75:
            t += block(r)[1]
        else:
            t += "".join(r.choice("ab{}()#\\ \n\"'$@=:_[]AZ09\t") for _ in range(r.randint(1, 8)))
    return {"text": t}


def via(r):
    """files in front of the one that counts: each uses the next one, the last one that file"""
    n = r.choice([1, 1, 2])
    out = []
    for k in range(n):
        pre = "".join(r.choice(['A = "1"\n', "\n", "B = \"x \\\n y\"\n", "do_a() {\n    b\n}\n", "require many.inc\n"]) for _ in range(r.choice([0, 1, 3, 8, 30])))
        out.append(pre + "%s %s\n" % (r.choice(["require", "include"]), "part.inc" if k == n - 1 else "n%d.inc" % (k + 1)) + r.choice(["", 'Z = "1"\n', "require many.inc\n"]))
    return out
