"""Worlds of files and histories of operations."""
L = "/R/l"


def path(kind, name):
    if kind == "bbclass":
        return f"{L}/classes/{name}.bbclass"
    if kind == "conf":
        return f"{L}/conf/{name}.conf"
    return f"{L}/recipes/{name}.{kind}"


def written(target, origin):
    """how the file origin names the target"""
    if not target:
        return "nowhere/missing.inc"
    return target[len(L) + 1:]


def filler(r, prev):
    k = r.choice(["var", "var", "var", "func", "cmt"])
    if k == "cmt" and prev == "cmt":
        k = "var"
    n = {"var": r.choice([1, 1, 1, 2, 3]), "func": r.choice([2, 3, 4]), "cmt": r.choice([1, 1, 2])}[k]
    return {"k": k, "n": n, "to": []}


def inc(r, t):
    return {"k": "inc", "n": 1, "to": [t], "w": [written(t, None)], "kw": r.choice(["include", "require"])}


def inh(r, ts, glob=False):
    return {"k": "inh", "n": 1, "to": ts, "w": [t.rsplit("/", 1)[-1][:-len(".bbclass")] if t else "nowhere" for t in ts],
            "kw": r.choice(["inherit", "inherit", "inherit_defer", "INHERIT"])}


def weave(r, pulls, lo=1, hi=3):
    """statements around the pulling ones"""
    st = []
    for p in pulls:
        for _ in range(r.randint(0, 2)):
            st.append(filler(r, st[-1]["k"] if st else None))
        st.append(p)
    for _ in range(r.randint(0 if st else lo, hi)):
        st.append(filler(r, st[-1]["k"] if st else None))
    return st


def graph(r, nrec=2, ninc=3, ncls=2, napp=2, ncnf=1, density=0.25, cyclic=True, twins=0.1):
    """any graph of includes and inherits"""
    incs = [path("inc", "i%d" % k) for k in range(r.randint(0, ninc))]
    clss = [path("bbclass", "c%d" % k) for k in range(r.randint(0, ncls))]
    recs = [path("bb", "r%d_1.0" % k) for k in range(r.randint(1, nrec))]
    apps = [path("bbappend", x) for x in r.sample(["r0_1.0", "r0_%", "r1_%", "r%_1.0", "zz_%", "%"], r.randint(0, napp))]
    cnfs = [path("conf", "g%d" % k) for k in range(r.randint(0, ncnf))]
    allf = recs + apps + incs + clss + cnfs
    files = []
    for f in allf:
        pulls = []
        for t in incs + cnfs + [""]:
            if (t != f or cyclic) and r.random() < density:
                pulls.append(inc(r, t))
        cs = [c for c in clss + [""] if r.random() < density]
        r.shuffle(cs)
        if cs:
            if r.random() < 0.6:
                pulls.append(inh(r, cs))
            else:
                pulls += [inh(r, [c]) for c in cs]
        r.shuffle(pulls)
        files.append({"p": f, "st": weave(r, pulls)})
    for f in allf:      # another layer may have files of the same name, which nothing here refers to
        if r.random() < twins:
            files.append({"p": f.replace(L + "/", "/R/m/"), "st": weave(r, [])})
    return files


def chain(r):
    """files that use just one other file each"""
    n = r.randint(2, 6)
    fs = [path("bb", "r_1")]
    for k in range(n):
        fs.append(path(r.choice(["inc", "inc", "bbclass", "conf"]), "n%d" % k))
    files = []
    for i, f in enumerate(fs):
        pulls = []
        if i < n:
            t = fs[i + 1]
            pulls = [inh(r, [t])] if t.endswith(".bbclass") else [inc(r, t)]
        elif r.random() < 0.3:
            t = fs[r.randint(1, n)]
            pulls = [inh(r, [t])] if t.endswith(".bbclass") else [inc(r, t)]
        files.append({"p": f, "st": weave(r, pulls)})
    return files


def tree(r, recipes=1, depth=3, limit=60):
    while True:
        files, tops = _tree(r, recipes, depth)
        if sum(len(f["st"]) for f in files) <= limit:
            return files, tops


def _tree(r, recipes=1, depth=3):
    """nothing shared between recipes/bbappends; classes and includes unique (an include may be repeated by its user)"""
    files, cnt = [], [0]

    def node(p, d):
        pulls = []
        for _ in range(r.choice([0, 1, 1, 2, 3]) if d else 0):
            cnt[0] += 1
            k = r.choice(["inc", "inc", "cls", "clss"])
            if k == "inc":
                t = path("inc", "i%d" % cnt[0])
                node(t, d - 1)
                pulls.append(inc(r, t))
                if r.random() < 0.08 and not any(s["k"] == "inh" for f in files for s in f["st"]):
                    pulls.append(inc(r, t))
            else:
                ts = []
                for _ in range(1 if k == "cls" else r.randint(1, 3)):
                    cnt[0] += 1
                    t = path("bbclass", "c%d" % cnt[0])
                    node(t, d - 1)
                    ts.append(t)
                if r.random() < 0.2:
                    ts.insert(r.randint(0, len(ts)), "")
                pulls.append(inh(r, ts))
        if r.random() < 0.15:
            pulls.append(inc(r, ""))
        r.shuffle(pulls)
        files.append({"p": p, "st": weave(r, pulls, lo=1 if r.random() < 0.9 else 0)})
    tops = []
    for k in range(recipes):
        tops.append(path("bb", "r%d_1.0" % k))
        node(tops[-1], depth)
    for a in r.sample(["r0_1.0", "r0_%", "r%_1.0", "r%", "other_%"], r.randint(0, 3)):
        tops.append(path("bbappend", a))
        node(tops[-1], r.randint(0, max(0, depth - 1)))
    return files, tops


QUERIES0 = ["GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses"]
QUERIES1 = ["GetLinksForFile", "IsImage", "IsPackageGroup", "GetValidPackageNames", "GetPackagesDynamic", "GetValidNamedResources"]


def query(r, files):
    x = r.random()
    p = r.choice(files)["p"]
    if x < 0.3:
        return ["q", r.choice(QUERIES0)]
    if x < 0.6:
        return ["q", r.choice(QUERIES1), p]
    return ["q", "GetItemsFor", r.choice([{"filename": p}, {"filename": p, "nolink": True}, {}, {"classifier": "Variable"},
                                          {"filename": p, "classifier": ["Inherit", "Include"]},
                                          {"filename": p, "attribute": "VarName", "attributeValue": "V1"}])]


def store_case(files, ops, **variants):
    return {"driver": "store", "files": files, "ops": ops, "variants": variants}
