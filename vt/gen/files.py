"""Recipes in several directories of two layers, files beside them."""
from vt.gen import store as G
from vt.gen.rich import raw, tidy

SETS = ['SRC_URI = "file://a.patch"', 'SRC_URI += "file://b.cfg"', 'SRC_URI:append = " file://c"', 'SRC_URI_append = " file://c"', 'SRC_URI:append:x86 = " file://c"',
        'SRC_URI ?= ""', 'SRC_URI:remove = "x"', 'SRC_URI = "git://h/p;name=x"', 'SRC_URI  =  "${A}"']
NOTS = ['SRC_URIX = "file://a.patch"', 'XSRC_URI = "1"', 'SRC_URI[md5sum] = "1"', '# SRC_URI = "a"', 'A = "SRC_URI"', 'A = "${SRC_URI}"', 'unset SRC_URI', 'do_SRC_URI() {\n    SRC_URI=1\n}',
        'B = "x"', 'A = "\\\nSRC_URI = x \\\n"', 'SRC_URI_A = "1"', 'src_uri = "1"']
DIRS = ["/R/l/recipes", "/R/l/rec-a/foo", "/R/l/rec-a/bar", "/R/m/rec-a/foo", "/R/l/rec [x]", "/R/l/rec-a", "/R/m/rec?"]
TWINS = [("/R/l/rec x", "/R/l/rec [x]"), ("/R/m/recs", "/R/m/rec?"), ("/R/l/rec-ab/foo", "/R/l/rec-a/foo")]      # what a name is like if it is taken for a pattern
NAMES = ["a.patch", "b.cfg", "c", ".hidden.patch", "x.PATCH", "0001-a.patch", "a.patch.bak", "abc.txt", "patch", "[a].patch", "z b.patch"]
PATTERNS = ["*.patch", "*", "?.patch", "a*", "*.cfg", "c", ".*", "[ab].*", "[!a]*", "nope*", "*.patch*", "a.patch", "*a*", "??", "*.[pP]*"]


def rand_case(r):
    pick = lambda: r.choice(DIRS[:2] if r.random() < 0.3 else DIRS)  # noqa
    tops = []
    for n in r.sample(["foo_1.0.bb", "foo_2.0.bb", "bar.bb", "foo_%.bbappend", "foo_1.0.bbappend", "bar.bbappend", "lone.bbappend"], r.randint(1, 4)):
        tops.append(pick() + "/" + n)
    layer = lambda p: p[:4]  # noqa
    incs = [d + "/" + n for d, n in [("/R/l/inc", "i.inc"), ("/R/l/rec-a/foo", "j.inc"), ("/R/m/inc", "k.inc"), ("/R/l/classes", "c.bbclass"), ("/R/m/classes", "d.bbclass"),
                                     ("/R/l/classes-recipe", "e.bbclass")] if r.random() < 0.4]
    files, setters = [], []
    for i, f in enumerate(tops + incs):
        st = [raw(r.choice(NOTS)) for _ in range(r.randint(0, 2))]
        for t in incs[max(0, i - len(tops) + 1):]:
            if layer(t) == layer(f) and r.random() < 0.5:
                st.append({"k": "inh", "n": 1, "to": [t], "w": [t.rsplit("/", 1)[1][:-8]], "kw": "inherit"} if t.endswith("bbclass")
                          else {"k": "inc", "n": 1, "to": [t], "w": [t[5:]], "kw": "require"})
        if r.random() < 0.4:
            st.append(raw(r.choice(SETS)))
            setters.append(f)
            if r.random() < 0.2:
                st.append(raw(r.choice(SETS)))
        r.shuffle(st)
        st = tidy(st)
        if st and any("SRC_URI" in s.get("t", "") and s["t"].rstrip("\n") in SETS for s in st) is False and f in setters:
            setters.remove(f)
        files.append({"p": f, "st": st})
    dirs = sorted({f["p"].rsplit("/", 1)[0] for f in files} | {"/R/l/other"})
    dirs = sorted(set(dirs) | {x for x, y in TWINS if y in dirs and r.random() < 0.6})
    tree = set()
    for d in dirs:
        for _ in range(r.choice([0, 1, 2, 4, 6])):
            sub = r.choice(["/files", "/files", "/foo", "/foo-1.0", "/.git", "", "/files/deep", "/a b", "/[x]"])
            tree.add(d + sub + "/" + r.choice(NAMES))
    tree = sorted(tree)
    # some are links to files; links to nothing and directories are not files; files behind linked directories are there twice
    links, nots = [], []
    for t in list(tree):
        x = r.random()
        if x < 0.12:
            links.append([t, r.choice(["/R/m/conf/layer.conf", "/R/l/conf/layer.conf"])])
        elif x < 0.22:
            tree.remove(t)
            nots.append([t, r.choice(["dir", "/R/nowhere", "/R/empty"])])
    for d in dirs:
        if r.random() < 0.12:
            inside = [t for t in tree if t.rsplit("/", 1)[0] == d + "/files"]
            if inside and not any(t.startswith(d + "/lnk") for t in tree):
                links.append([d + "/lnk", d + "/files"])
                tree = sorted(tree + [d + "/lnk/" + t.rsplit("/", 1)[1] for t in inside])
    asks = []
    for f in files:
        for p in r.sample(PATTERNS, r.randint(1, 3)):
            asks.append([f["p"], p])
    if r.random() < 0.2:
        asks.append([r.choice(dirs) + "/unknown.bb", "*"])
    r.shuffle(asks)
    adds = list(tops)
    r.shuffle(adds)
    return {"driver": "files", "files": files, "tree": tree, "links": links, "nots": nots, "setters": setters, "asks": asks, "adds": adds, "final": r.random() < 0.85}
