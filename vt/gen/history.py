"""Histories of modifications and queries."""
from vt.gen import rich as R
from vt.gen import store as G


def modification(r, tops, can_items):
    x = r.random()
    if x < 0.4 or not can_items and x < 0.75:
        return ["add", r.choice(tops)]
    if x < 0.5:
        return ["final"]
    return [r.choice(["append", "remove"]), [r.randint(0, 30) for _ in range(r.choice([1, 1, 2, 3, 5]))], r.choice(["list", "tuple", "stashlist", "one"])]


def ops(r, files, tops, n, items=True):
    out, todo = [], list(tops)
    r.shuffle(todo)
    pend = []
    for _ in range(n):
        x = r.random()
        if x < 0.4:
            if todo and r.random() < 0.65:
                out.append(["add", todo.pop()])
            else:
                out.append(modification(r, tops, items))
            if out[-1][0] == "remove" and pend and r.random() < 0.6:      # there and back
                q = r.choice(pend)
                out += [q, ["append", list(range(len(out[-1][1]))), r.choice(["list", "tuple", "stashlist", "one"])], q]
            # the same question again after the change
            if pend and r.random() < 0.8:
                out.append(r.choice(pend))
        else:
            q = R.query(r, files)
            pend.append(q)
            out.append(q)
    return out


def rand_case(r):
    R.swarm(r)
    files, tops = R.family(r)
    if r.random() < 0.3:
        f2, t2 = R.family(r, "z", 1)
        files, tops = files + f2, tops + t2
    img = G.path("bbclass", "image")
    if any(f["p"] == img for f in files):
        for f in files:
            f["st"] = [dict(s, to=[img]) if s.get("t") == "inherit image\n" else s for s in f["st"]]
    return {"driver": "history", "files": files, "ops": ops(r, files, tops, r.randint(4, 12))}


MODEL_WORLD = [
    {"p": "/R/l/recipes/foo_1.0.bb", "st": [R.raw("inherit c"), R.raw('A = "${B}1"'), R.raw('PACKAGES += "x"')]},
    {"p": "/R/l/recipes/foo_%.bbappend", "st": [R.raw('B = "2"'), R.raw('A:append = " 2"'), R.raw('IMAGE_INSTALL = "y"'), R.raw('PACKAGES_DYNAMIC = "^dyn.*"'),
                                                 R.raw('SRC_URI = "git://a;name=n"'), R.raw("inherit packagegroup")]},
    {"p": "/R/l/classes/c.bbclass", "st": [R.raw('PACKAGES =+ "${PN}-c"'), R.raw("require conf/d.conf")]},
    {"p": "/R/l/conf/d.conf", "st": [R.raw('A ?= "d"'), R.raw('B ?= "d"'), R.raw('PACKAGES_DYNAMIC = "^d-.*"')]},
]
MODEL_WORLD[0]["st"][0] = {"k": "inh", "n": 1, "to": ["/R/l/classes/c.bbclass"], "w": ["c"], "kw": "inherit"}
MODEL_WORLD[2]["st"][1] = {"k": "inc", "n": 1, "to": ["/R/l/conf/d.conf"], "w": ["conf/d.conf"], "kw": "require"}
F = "/R/l/recipes/foo_1.0.bb"
MODEL_OPS = {"addR": ["add", F], "addA": ["add", "/R/l/recipes/foo_%.bbappend"], "final": ["final"], "append": ["append", [0], "list"], "remove": ["remove", [0], "one"]}
MODEL_Q = [["q", "GetRecipes"], ["q", "GetLoneAppends"], ["q", "GetConfFiles"], ["q", "GetBBClasses"], ["q", "GetLinksForFile", F], ["q", "IsImage", F],
           ["q", "IsPackageGroup", F], ["q", "GetValidPackageNames", F], ["q", "GetPackagesDynamic", F], ["q", "GetValidNamedResources", F],
           ["q", "IsDynamicPackage", F, "dyn-x"], ["q", "IsDynamicPackage", F, "d-x"], ["q", "GetFiles", F, "*"], ["q", "ExpandVar", {"filename": F}], ["q", "ExpandTerm", F, "${A}"], ["q", "ExpandRef", F, "A"],
           ["q", "GetItemsFor", {"filename": F}], ["q", "GetItemsFor", {"filename": F, "classifier": "Variable"}], ["q", "GetItemsFor", {"attribute": "VarName", "attributeValue": "A"}],
           ["q", "GetItemsFor", {"filename": F, "classifier": "Variable", "attribute": "VarName", "attributeValue": "PACKAGES"}], ["q", "IncludedFrom"], ["q", "GetLinksForFile", "/R/l/recipes/foo_%.bbappend"]]


def from_model(r, hist, queries):
    """the abstract queries q1 .. stand for the given ones"""
    out = []
    for _, o in hist:
        if o in MODEL_OPS:
            m = MODEL_OPS[o]
            out.append([m[0], [r.randint(0, 9) for _ in range(r.choice([1, 2, 4]))], r.choice(["list", "tuple", "stashlist", "one"])] if o in ("append", "remove") else m)
        else:
            out.append(queries[int(o[1:]) % len(queries)])
    return {"driver": "history", "files": MODEL_WORLD, "ops": out}


# -- independence --------------------------------------------------------------
def merge(r, a, b, wa, wb):
    out = []
    a, b = list(a), list(b)
    while a or b:
        w, q = r.choice([x for x in ((wa, a), (wb, b)) if x[1]])
        out.append([w, q.pop(0)])
    return out


def two_stashes(r):
    R.swarm(r)
    files, tops = R.family(r)
    f2, t2 = (files, tops) if r.random() < 0.4 else R.family(r, "z")
    a = ops(r, files, tops, r.randint(3, 8))
    b = ops(r, f2, t2, r.randint(3, 8))
    o = lambda: {"newstyle": r.random() < 0.3, "negative": r.random() < 0.3}  # noqa
    return {"driver": "independent", "shared": False, "files": files + (f2 if f2 is not files else []), "ops": merge(r, a, b, "a", "b"), "optsof": {"a": o(), "b": o()}}


def local(q, files):
    """only questions about a file of the family"""
    return q[1] not in ("GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses", "FingerPrint") and \
        not (q[1] == "GetItemsFor" and "filename" not in q[2]) and not (q[1] == "IncludedFrom" and len(q) == 2)


def two_families(r):
    """one stash; Finalize is an event of both families"""
    R.swarm(r)
    fams = {}
    for fam in ("y", "z"):
        f, t = R.family(r, fam)
        t = list(t)
        r.shuffle(t)
        fams[fam] = (f, t)
    phases = r.randint(1, 3)
    out = []
    for k in range(phases + 1):
        seg = {}
        for fam, (f, todo) in fams.items():
            q = []
            for _ in range(r.randint(2, 5)):
                if todo and (r.random() < 0.5 or k == phases - 1):
                    q.append(["add", todo.pop()])
                elif r.random() < 0.15:
                    q.append(["q", "IncludedFrom", r.choice(f)["p"]])
                else:
                    x = R.query(r, f, fam)
                    if local(x, f):
                        q.append(x)
            seg[fam] = q
        out += merge(r, seg["y"], seg["z"], "y", "z")
        if k < phases:
            out.append(["*", ["final"]])
    return {"driver": "independent", "shared": True, "files": fams["y"][0] + fams["z"][0], "ops": out, "optsof": {}}
