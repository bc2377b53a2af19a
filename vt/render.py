"""Abstract statements -> text."""


def stmt(s, i):
    k, n = s["k"], s["n"]
    if k == "var":
        head = "%s = \"%s" % (s.get("v", "V%d" % i), s.get("t", "x%d" % i))
        return head + "".join(" \\\n    y%d" % j for j in range(1, n)) + "\"\n"
    if k == "func":
        return "%s() {\n" % s.get("v", "do_t%d" % i) + "    x\n" * (n - 2) + "}\n"
    if k == "cmt":
        return "# c\n" * n
    if k == "inc":
        return "%s %s\n" % (s.get("kw", "require"), s["w"][0])
    if k == "inh":
        if s.get("kw") == "INHERIT":
            return 'INHERIT += "%s"\n' % " ".join(s["w"])
        return "%s %s\n" % (s.get("kw", "inherit"), " ".join(s["w"]))
    if k in ("raw", "asg"):
        return s["t"]
    raise AssertionError(k)


def body(st):
    t = "".join(stmt(s, i + 1) for i, s in enumerate(st))
    assert t.count("\n") == sum(s["n"] for s in st), (t, st)
    return t


def files(case):
    return {f["p"][3:]: f.get("text", None) if f.get("text") is not None else body(f["st"]) for f in case["files"]}
