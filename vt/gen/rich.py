"""Worlds whose contents matter to every query of the stash."""
from vt.gen import store as G

LINES = [
    'PACKAGES =+ "${PN}-x"', 'PACKAGES += "extra-y"', 'PACKAGE_BEFORE_PN = "${PN}-before"', 'PACKAGES = "${PN} ${PN}-z"',
    'SRC_URI = "git://h.de/p;name=foo;branch=main"', 'SRC_URI += "file://a.patch;name=${PN}-n"', 'SRC_URI:append = " https://x.y/z-${PV}.tar.gz;name=zz"',
    'PACKAGES_DYNAMIC += "^${PN}-dyn.*"', 'PACKAGES_DYNAMIC = "^other-.*"', 'PACKAGES_DYNAMIC += "${PN}-${A}.*"',
    'IMAGE_INSTALL = "a b"', 'IMAGE_INSTALL:append = " c"', 'IMAGE_CLASSES = "x"', '# IMAGE_INSTALL',
    'inherit image', 'inherit packagegroup', 'inherit core-image nothing', 'inherit ${X}',
    'A = "1"', 'A ?= "2"', 'A:append = " ${B}"', 'B = "${A} b"', 'B += "c ${PV}"', 'A:remove = "1"', 'C ??= "${@bb.utils.contains(\'X\', \'y\', \'t\', \'f\', d)}"',
    'X = "${@foo(d)}"', 'X = "${B}-x"', 'A = "${B}-a"', 'B = "1"', 'B = "2"', 'unset B', 'unset A[doc]', 'A[doc] = "text"', 'PV = "3.${A}"', 'export E = "1"', 'export F',
    'do_compile() {\n    x\n}', 'do_install:append() {\n    y\n}', 'python do_z() {\n    pass\n}', 'fakeroot do_f:prepend() {\n    z\n}',
    'addtask z before do_build after do_compile', 'deltask z', 'EXPORT_FUNCTIONS do_compile do_install', '# a comment', '',
    'addpylib ${LAYERDIR}/a b', 'def f(d):\n    return 1', 'include_all conf/x.conf', 'addfragments a B C D', 'RDEPENDS:${PN} = "a"', 'RDEPENDS:${PN}-x += "b"',
]
NAMES = ["foo", "bar", "baz", "libq"]
THEMES = {"A": ["ExpandRef", "ExpandTerm", "ExpandVar", "GetItemsFor"], "PACKAGE": ["GetValidPackageNames", "GetPackagesDynamic", "IsDynamicPackage"],
          "SRC_URI": ["GetValidNamedResources", "GetFiles"], "i": ["IsImage", "IsPackageGroup", "GetBBClasses", "GetLinksForFile"]}
POOL, QPOOL = [], []


def swarm(r):
    """some scenarios concentrate on a few statements and queries, which meet more often then"""
    POOL[:], QPOOL[:] = LINES, QNAMES
    if r.random() < 0.5:
        k = r.choice(sorted(THEMES))
        POOL[:] = [t for t in LINES if any(t.startswith(x) for x in ({"A": ("A", "B", "X", "PV", "unset B")}.get(k, (k, "IMAGE_", "A = ") if k == "i" else (k, "A = "))))]
        QPOOL[:] = THEMES[k] + r.sample(QNAMES, 1)
    elif r.random() < 0.5:
        POOL[:] = r.sample(LINES, 8)
        QPOOL[:] = r.sample(QNAMES, 3)


def raw(t):
    return {"k": "raw", "n": t.count("\n") + 1, "to": [], "t": t + "\n"}


def content(r, n):
    out = []
    for _ in range(n):
        t = r.choice(POOL or LINES)
        if t.startswith("#") and out and out[-1]["t"].startswith("#"):
            continue
        if out and out[-1]["t"].startswith("def") and not t[:1].isalnum():
            continue
        out.append(raw(t))
    return out


def family(r, fam="", nrec=None, known=("image", "packagegroup"), dir_=""):
    """a few recipes with bbappends, includes, classes; all names carry the family"""
    p = lambda k, n: G.path(k, fam + n)  # noqa
    recs = [p("bb", x) for x in r.sample(["foo_1.0", "foo_2.0", "bar", "baz-image_1"], nrec or r.randint(1, 2))]
    apps = [p("bbappend", x) for x in r.sample(["foo_%", "foo_1.0", "bar", "%", "lone_1"], r.randint(0, 2))]
    incs = [p("inc", x) for x in ["i", "j"][:r.randint(0, 2)]]
    clss = [p("bbclass", x) for x in ["c"][:r.randint(0, 1)]]
    cnfs = [p("conf", "g")][:r.randint(0, 1)]
    # an include belongs to one file of the family
    files, free = [], incs + clss + cnfs
    if not fam and r.random() < 0.3:
        clss_known = [G.path("bbclass", "image")]
        free = free + clss_known
    tops = recs + apps
    users = {t: [] for t in tops + free}
    for i, t in enumerate(free):
        users[r.choice(tops + free[:i])].append(t)
    for f in tops + free:
        st = content(r, r.randint(1, 4))
        for t in users[f]:
            st.insert(r.randint(0, len(st)), G.inh(r, [t]) if t.endswith(".bbclass") else G.inc(r, t))
        if G.path("bbclass", "image") in free:      # such a line names that file as well
            st = [dict(x, to=[G.path("bbclass", "image")]) if x.get("t") == "inherit image\n" else x for x in st]
        # def blocks swallow indented/blank lines; comments join
        files.append({"p": f, "st": tidy(st)})
    return files, tops


def tidy(st):
    out = []
    for s in st:
        t = s.get("t", "x")
        if out and out[-1].get("t", "").startswith("#") and t.startswith("#"):
            continue
        if out and out[-1].get("t", "").startswith("def") and not t[:1].isalnum():
            continue
        out.append(s)
    return out or [raw('A = "0"')]


def filt(r, files):
    """arguments of GetItemsFor as (abstract filter, form of every argument)"""
    f = {"file": "", "nolink": False, "cls": [], "attr": [], "vals": []}
    if r.random() < 0.6:
        f["file"] = r.choice(files)["p"] if r.random() < 0.9 else "/R/l/recipes/nope.bb"
        f["nolink"] = r.random() < 0.3
    if r.random() < 0.5:
        f["cls"] = r.sample(["Variable", "FlagAssignment", "Function", "Inherit", "Include", "Comment", "Item", "Unset", "Export", "TaskAdd", "TaskDel", "PythonBlock", "FunctionExports", "AddPylib", "AddFragements", "IncludeAll", "Nope"], r.choice([1, 1, 2, 3]))
    if r.random() < 0.6:
        f["attr"] = r.sample(ATTRS, r.choice([1, 1, 1, 2, 3]))
        if r.random() < 0.7:
            f["vals"] = r.sample(VALUES, r.choice([1, 1, 2, 3]))
    f["form"] = [r.choice(["one", "list", "tuple", "set"]) for _ in range(3)]
    return f


ATTRS = ["VarName", "VarOp", "VarValue", "VarNameComplete", "Flag", "FuncName", "SubItem", "Line", "InFileLine", "Origin", "IsPython", "Raw",
         "SubItems", "FuncBody", "Class", "Name", "Value", "CLASSIFIER", "Nothing", "VarValueStripped", "IncName",
         "RawVarName", "Statement", "FileIncluded", "ValueStripped", "Before", "After", "Comment", "Path", "Namespace", "Variable", "Flagged", "File", "FuncNames"]
VALUES = ["A", "B", "SRC_URI", "PACKAGES", " = ", " += ", "A:append", "append", 1, 2, 3, True, False, "image", "doc", "E", "", "do_compile", "do_compile do_install", "z", "compile",
          "1", '"1"', "/R/l/recipes/foo_1.0.bb"]
QNAMES = ["GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses", "GetLinksForFile", "IsImage", "IsPackageGroup", "GetValidPackageNames",
          "GetPackagesDynamic", "GetValidNamedResources", "IsDynamicPackage", "GetFiles", "ExpandVar", "ExpandTerm", "GetItemsFor", "GetItemsFor",
          "GetItemsFor", "IncludedFrom", "FingerPrint", "ExpandRef", "ExpandRef", "Attributes", "Reduce"]


def query(r, files, fam=""):
    n = r.choice(QPOOL or QNAMES)
    p = r.choice(files)["p"]
    if n in ("GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses", "FingerPrint", "IncludedFrom"):
        return ["q", n]
    if n == "ExpandRef":
        return ["q", n, p, r.choice(["A", "A", "B", "X", "PACKAGES", "SRC_URI"])]
    if n == "Reduce":
        return ["q", n, {"filename": p}, r.choice([{"classifier": "Variable"}, {"attribute": "VarName", "attributeValue": ["A", "B"]}, {"classifier": ["Inherit", "Include"]}, {"filename": p, "nolink": True}])]
    if n == "IsDynamicPackage":
        return ["q", n, p, r.choice(["foo-dyn-a", fam + "foo-dyn", "other-x", "foo-1", "bar-dyn1"])]
    if n == "GetFiles":
        return ["q", n, p, r.choice(["*.patch", "*"])]
    if n == "GetValidPackageNames":
        return ["q", n, p] + ([True] if r.random() < 0.3 else [])
    if n == "ExpandVar":
        return ["q", n, r.choice([{"filename": p}, {"filename": p, "attribute": "VarName", "attributeValue": r.choice(["A", "B", "PV"])},
                                  {"filename": p, "nolink": True}])]
    if n == "ExpandTerm":
        return ["q", n, p, r.choice(["${A}", "x ${B} ${PN}", "${PV}", "${X}"])]
    if n == "GetItemsFor":
        return G.query(r, files) if r.random() < 0.3 else ["q", n, r.choice(
            [{"filename": p}, {"filename": p, "nolink": True}, {"filename": p, "classifier": "Variable"}, {}, {"classifier": ["Inherit"]},
             {"filename": p, "attribute": "VarName", "attributeValue": "A"}, {"filename": p, "classifier": "Variable", "attribute": ["VarName"], "attributeValue": ["A", "B"]}])]
    return ["q", n, p]
