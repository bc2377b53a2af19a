"""Drivers: execute a case against the public API of the real code and record observations."""
import os

from oelint_parser.cls_stash import Stash
from oelint_parser import cls_item as I
from oelint_parser.constants import CONSTANTS, Constants


def T(x):
    """canonical text (never anything but a text reaches the validation)"""
    if isinstance(x, str):
        return x.replace("\x1b", "^[")
    return "<%s:%s>" % (type(x).__name__, x)


def N(x):
    return x if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 2**30 else -999999


def B(x):
    return x if isinstance(x, bool) else bool(x) if isinstance(x, (list, int)) else T(x)


def LT(x):
    return [T(y) for y in x]


def write(root, files):
    for name, text in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)


def stash_of(case):
    o = case.get("opts", {})
    return Stash(quiet=True, new_style_override_syntax=bool(o.get("newstyle", False)),
                 negative_inline=bool(o.get("negative", False)))


def drive_segment(case, root):
    name = case.get("name", "a_1.0.bb")
    via = case.get("via") or []     # texts of the files that pull it in, the outermost first
    if via:
        name = "part.inc"
    write(root, {name: case["text"], **{("n%d.inc" % k if k else "top_1.bb"): t for k, t in enumerate(via)}, "many.inc": 'M = "1"\n' * 9})
    s = stash_of(case)
    path = os.path.join(root, name)
    items = s.AddFile(os.path.join(root, "top_1.bb") if via else path)
    s.Finalize()
    got = s.GetItemsFor(filename=path, nolink=True)
    if via:
        items = got
    key = lambda x: x.InFileLine  # noqa
    return {"items": [[T(x.RealRaw), N(x.InFileLine), T(x.CLASSIFIER)] for x in sorted(got, key=key)],
            "added": [[T(x.RealRaw), N(x.InFileLine), T(x.CLASSIFIER)] for x in items],
            "origin": sorted({T(x.Origin) for x in got})}


# -- the stash ---------------------------------------------------------------
def isolated(fn):
    """run in a forked child, so that nothing leaks between executions"""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = fn()
            res.setdefault("error", "")
        except BaseException as e:  # noqa
            from vt.worker import blame
            res = {"error": blame(e)}
        with os.fdopen(w, "wb") as f:
            f.write(json.dumps(res).encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {"error": "process died"}


def irec(x):
    return {"f": T(x.Origin), "n": N(x.InFileLine), "l": N(x.Line)}


def scramble(n):
    """later objects come to lie in another order in memory: nothing may depend on it"""
    import random
    r = random.Random(n)
    k = [I.Comment("", 0, 0, "", "", []) for _ in range(300)]
    r.shuffle(k)
    return k[:r.randint(0, 250)]


class StoreRun:
    """executes operations on one stash"""

    def __init__(self, case, root):
        self.root, self.case = root, case
        self.s = stash_of(case)
        self.pool, self.gone = [], []

    def p(self, path):
        return path.replace("/R", self.root, 1) if isinstance(path, str) and path.startswith("/R") else path

    def op(self, o):
        s, k = self.s, o[0]
        if k == "add":
            self.pool += s.AddFile(self.p(o[1]))
        elif k == "final":
            s.Finalize()
        elif k in ("append", "remove"):
            # what was removed may come back; only what is there can be removed
            here = self.pool if k == "remove" else self.gone or self.pool
            items = list({id(x): x for x in (here[i % len(here)] for i in o[1])}.values()) if here else []
            items = items[:1] if o[2] == "one" else items
            if not items:
                return None
            ids = {id(x) for x in items}
            if k == "remove":
                self.pool, self.gone = [x for x in self.pool if id(x) not in ids], self.gone + items
            elif self.gone:
                self.pool, self.gone = self.pool + items, [x for x in self.gone if id(x) not in ids]
            arg = {"one": lambda: items[0], "list": lambda: items, "tuple": lambda: tuple(items),
                   "stashlist": lambda: s.StashList(s, items)}[o[2]]()
            if k == "append":
                s.Append(arg)
            else:
                s.Remove(arg)
        elif k == "q":
            return self.query(o[1], o[2:])
        else:
            raise AssertionError(k)
        return None

    def query(self, name, args):
        s = self.s
        args = [self.p(a) for a in args]
        r = getattr(s, name, None)
        if name == "FingerPrint":
            return T(r)
        if name == "IncludedFrom":
            q = s.GetItemsFor(**({"filename": args[0], "nolink": True} if args else {}))
            return [[irec(x), sorted(LT(x.IncludedFrom))] for x in q]
        if name == "ExpandVar":
            kw = {k: self.p(v) for k, v in args[0].items()}
            return [[T(k), LT(v)] for k, v in r(**kw).items()]
        if name == "ExpandRef":
            return [T(s.ExpandTerm(args[0], x.VarValueStripped, objref=x)) for x in s.GetItemsFor(filename=args[0], classifier="Variable", attribute="VarName", attributeValue=args[1])]
        if name == "Attributes":
            return [[irec(x), sorted(T(k) for k in x.GetAttributes())] for x in s.GetItemsFor(filename=args[0])]
        if name == "Reduce":
            first, then = ({k: self.p(v) if k == "filename" else v for k, v in a.items()} for a in args)
            q = s.GetItemsFor(**first)
            return [[irec(x) for x in s.Reduce(q, **then)], [irec(x) for x in q.reduce(**then)], [irec(x) for x in q]]
        if name in ("GetItemsFor",):
            kw = dict(args[0])
            if "filename" in kw:
                kw["filename"] = self.p(kw["filename"])
            return [irec(x) for x in r(**kw)]
        res = r(*args)
        if name in ("GetLinksForFile", "GetValidPackageNames", "GetValidNamedResources", "GetPackagesDynamic"):
            return sorted({T(x) for x in res})
        if isinstance(res, bool) or res is None:
            return {True: "TRUE", False: "FALSE", None: "NONE"}[res]
        if isinstance(res, str):
            return T(res)
        if isinstance(res, dict):
            return [[T(k), LT(v) if isinstance(v, list) else T(v)] for k, v in sorted(res.items())]
        return LT(res)

    def dump(self):
        s = self.s
        out = []
        for f in self.case["files"]:
            p = self.p(f["p"])
            out.append({"p": T(p), "all": [irec(x) for x in s.GetItemsFor(filename=p)],
                        "own": [irec(x) for x in s.GetItemsFor(filename=p, nolink=True)],
                        "links": sorted(set(LT(s.GetLinksForFile(p))))})
        items = list(s.GetItemsFor())
        return {"files": out, "items": [irec(x) for x in items],
                "inc": [{"f": T(x.Origin), "n": N(x.InFileLine), "from": sorted(LT(x.IncludedFrom))} for x in items],
                "inh": [{"f": T(x.Origin), "n": N(x.InFileLine), "paths": sorted(LT(x.FilePaths))} for x in items if x.CLASSIFIER == "Inherit"],
                "recipes": LT(s.GetRecipes()), "lone": LT(s.GetLoneAppends()),
                "confs": LT(s.GetConfFiles()), "classes": LT(s.GetBBClasses())}


def store_files(case, root):
    from vt import render
    write(root, {"l/conf/layer.conf": "", **render.files(case)})
    if case["driver"] in ("history", "independent"):
        write(root, {os.path.dirname(f["p"])[3:] + "/files/x.patch": "" for f in case["files"]})


def drive_store(case, root):
    """ops; dumps after the last operation and (if asked) of variants of the history"""
    store_files(case, root)

    def run(ops):
        def f():
            r = StoreRun(case, root)
            res = [r.op(o) for o in ops]
            return {"answers": [{"i": i + 1, "a": a} for i, a in enumerate(res) if a is not None], "dump": r.dump()}
        return isolated(f)
    obs = {"main": run(case["ops"])}
    for k, ops in case.get("variants", {}).items():
        obs[k] = run(ops)
    errs = [v["error"] for v in obs.values() if v["error"]]
    obs["error"] = errs[0] if errs else ""
    return obs


NAMED = ("GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses")


def told(op, a):
    import json
    return a if op[1] in NAMED else json.dumps(a)


def drive_history(case, root):
    store_files(case, root)
    ops = case["ops"]

    def main():
        r = StoreRun(case, root)
        res = [r.op(o) for o in ops]
        return {"a": [{"i": i + 1, "a": told(ops[i], a)} for i, a in enumerate(res) if ops[i][0] == "q"], "dump": r.dump()}

    def fresh(k):
        def f():
            keep = scramble(k)  # noqa
            r = StoreRun(case, root)
            for o in ops[:k]:
                if o[0] != "q":
                    r.op(o)
            return {"dump": r.dump()} if k == len(ops) else {"a": told(ops[k], r.op(ops[k]))}
        return isolated(f)
    m = isolated(main)
    if m["error"]:
        return m
    fr = [(k, fresh(k)) for k in range(len(ops) + 1) if k == len(ops) or ops[k][0] == "q"]
    errs = [x["error"] for _, x in fr if x["error"]]
    if errs:
        return {"error": errs[0]}
    return {"answers": m["a"], "dump": m["dump"], "fresh": [{"i": k + 1, "a": x["a"]} for k, x in fr[:-1]], "freshdump": fr[-1][1]["dump"]}


def drive_independent(case, root):
    """ops: [who, op]; together in one process - one stash each, or all in one stash - and each alone"""
    store_files(case, root)

    def go(who):
        def f():
            keep = scramble(len(who or "")) # noqa
            runs, out = {}, []
            for w, o in case["ops"]:
                if who is not None and w not in (who, "*"):
                    continue
                k = "one" if case["shared"] else w
                if k not in runs:
                    runs[k] = StoreRun(dict(case, opts=case["optsof"].get(w, {})), root)
                a = runs[k].op(o)
                if o[0] == "q":
                    out.append({"w": w, "q": o[1], "a": told([0, ""], a)})
            return {"a": out}
        return isolated(f)
    t = go(None)
    alone = {w: go(w) for w in sorted({w for w, _ in case["ops"]} - {"*"})}
    errs = [x["error"] for x in [t, *alone.values()] if x["error"]]
    if errs:
        return {"error": errs[0]}
    iters = {w: iter(x["a"]) for w, x in alone.items()}
    return {"together": t["a"], "alone": [next(iters[w]) for w, o in case["ops"] if o[0] == "q"]}


# -- statements --------------------------------------------------------------
def S(x):
    """anything -> text"""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    return T(x)


def LST(x):
    return [T(y) for y in x] if isinstance(x, (list, tuple)) else ["<%s>" % type(x).__name__]


FIELDS = {
    "Variable": ("VarName RawVarName SubItem SubItems* VarNameComplete VarNameCompleteNoModifiers VarOp VarValue VarValueStripped "
                 "get_items()* IsAppend() AppendOperation()* IsImmediateModify() IsMultiLine() GetClassOverride() GetMachineEntry() "
                 "GetDistroEntry() OverrideDelimiter IsNewStyleOverrideSyntax"),
    "FlagAssignment": "VarName Flag VarOp Value ValueStripped get_items()*",
    "Function": ("FuncName SubItem SubItems* FuncNameComplete IsPython IsFakeroot FuncBody FuncBodyStripped FuncBodyRaw get_items()* IsAppend() "
                 "GetMachineEntry() GetDistroEntry() OverrideDelimiter IsNewStyleOverrideSyntax"),
    "PythonBlock": "FuncName get_items()*",
    "Inherit": "Statement Class get_items()*",
    "Include": "Statement IncName FileIncluded get_items()*",
    "IncludeAll": "File get_items()*",
    "Export": "Name Value get_items()*",
    "TaskAdd": "FuncName Before* After* Comment get_items()*",
    "TaskDel": "FuncName Comment get_items()*",
    "Unset": "VarName Flag get_items()*",
    "FunctionExports": "FuncNames get_items()* get_items_unaliased()*",
    "AddPylib": "Path Namespace get_items()*",
    "AddFragements": "Path Variable Flagged get_items()*",
    "Comment": "get_items()*",
}


def fields(x):
    out = {"cls": T(x.CLASSIFIER)}
    for f in FIELDS.get(x.CLASSIFIER, "").split():
        name = f.rstrip("*").replace("()", "")
        v = getattr(x, name)
        if "()" in f:
            v = v()
        out[name] = LST(v) if f.endswith("*") else S(v)
    if x.CLASSIFIER == "Variable":
        out["versioned"] = LST(x.get_items(versioned=True))
        out["override"] = LST(x.get_items(override='"x y (>= 1)  z"'))
    out["fromclass"], out["fromappend"] = S(x.IsFromClass), S(x.IsFromAppend())
    return out


def drive_statement(case, root):
    name = case.get("name", "a_1.0.bb")
    write(root, {name: case["text"]})
    CONSTANTS.AddConstants({"replacements": {"distros": case["distros"]}, "functions": {"known": case["functions"]}})
    s = stash_of(case)
    path = os.path.join(root, name)
    # another file of the same stash says nothing about this one
    for i, (when, text) in enumerate(case.get("others", [])):
        write(root, {"o%d/zz.bb" % i: text})
        if when == "before":
            s.AddFile(os.path.join(root, "o%d/zz.bb" % i))
    s.AddFile(path)
    for i, (when, _) in enumerate(case.get("others", [])):
        if when == "after":
            s.AddFile(os.path.join(root, "o%d/zz.bb" % i))
    s.Finalize()
    got = sorted(s.GetItemsFor(filename=path, nolink=True), key=lambda x: x.InFileLine)
    return {"items": [fields(x) for x in got]}


# -- inline python -----------------------------------------------------------
def drive_inline(case, root):
    write(root, {"a_1.0.bb": case["text"]})
    path = os.path.join(root, "a_1.0.bb")
    s = stash_of(case)
    s.AddFile(path)
    s.Finalize()
    out = []
    items = s.GetItemsFor(filename=path)
    for v in case["vars"]:
        k = v["kind"]
        x = [y for y in items if y.InFileLine == v["line"]][0]
        out.append({"kind": T(x.CLASSIFIER), "blocks": [[T(a), T(b)] for a, b in x.InlineBlocks], "raw": T(x.Raw), "realraw": T(x.RealRaw),
                    "value": T(x.Class if k == "inherit" else "" if k in ("func", "pyfunc") else x.ValueStripped if k == "flag" else
                               x.Value if k == "export" else x.VarValueStripped)})
        if k == "var":
            out[-1].update({
                    "var": LST(s.ExpandVar(path, attribute="VarName", attributeValue=[v["name"], *[e[0] for e in case["env"]]]).get(v["name"])),
                    "term": T(s.ExpandTerm(path, x.VarValueStripped, objref=x)),
                    "ref": T(s.ExpandTerm(path, "<${%s}>" % v["name"]))})
    return {"vars": out}


# -- references ----------------------------------------------------------------
def drive_expand(case, root):
    write(root, {"l/" + k: v for k, v in case["tree"].items()})
    CONSTANTS.AddConstants({"sets": {"base": dict(case["extrabase"])}})
    p = lambda x: x.replace("/R", root, 1)  # noqa
    s = stash_of(case)
    s.AddFile(p(case["path"]))
    if case["other"]:
        s.AddFile(p(case["other"]))
    s.AddFile(p(case["append"]))
    s.Finalize()
    path = p(case["path"])
    kw = {"spare": list(case["spare"])} if case["spare"] else {}
    res = s.ExpandTerm(path, case["termtext"], **kw)
    return {"res": T(res), "twice": T(s.ExpandTerm(path, res, **kw)), "refs": [T(s.ExpandTerm(path, "${%s}" % d["name"])) for d in case["defs"]]}


# -- assignments ---------------------------------------------------------------
def drive_data(case, root):
    store_files(case, root)
    CONSTANTS.AddConstants({"sets": {"base": dict(case["extrabase"])}})
    p = lambda x: x.replace("/R", root, 1)  # noqa
    s = stash_of(case)
    for a in case["adds"]:
        s.AddFile(p(a))
    for _ in range(3):
        s.Finalize()
    path = p(case["path"])
    rec = lambda d: [[T(k), LST(v)] for k, v in d.items()]  # noqa
    return {"all": rec(s.ExpandVar(path)), "own": rec(s.ExpandVar(path, nolink=True)),
            "single": [{"base": n, "got": rec(s.ExpandVar(path, attribute="VarName", attributeValue=n))} for n in case["single"]]}


# -- filters -------------------------------------------------------------------
def tag(v):
    """hashable attribute values, by equality"""
    if isinstance(v, (bool, int)):
        return "n:%d" % v
    if isinstance(v, str):
        return "s:" + T(v)
    return "o:" + T(repr(v))


CONSTS = {"Line": "Item.ATTR_LINE", "Raw": "Item.ATTR_RAW", "Origin": "Item.ATTR_ORIGIN", "SubItem": "Item.ATTR_SUB", "VarName": "Variable.ATTR_VAR", "VarValue": "Variable.ATTR_VARVAL",
          "RawVarName": "Variable.ATTR_VARRAW", "VarValueStripped": "Variable.ATTR_VARVALSTRIPPED", "IncName": "Include.ATTR_INCNAME", "Statement": "Inherit.ATTR_STATEMENT",
          "FileIncluded": "Include.ATTR_FILEINCLUDED", "Name": "Export.ATTR_NAME", "FuncName": "Function.ATTR_FUNCNAME", "FuncBody": "Function.ATTR_FUNCBODY", "Flag": "FlagAssignment.ATTR_FLAG",
          "Value": "FlagAssignment.ATTR_VARVAL", "ValueStripped": "FlagAssignment.ATTR_VARVAL_STRIPPED", "VarOp": "FlagAssignment.ATTR_VAROP", "Before": "TaskAdd.ATTR_BEFORE",
          "After": "TaskAdd.ATTR_AFTER", "Comment": "TaskDel.ATTR_COMMENT", "Path": "AddPylib.ATTR_PATH", "Namespace": "AddPylib.ATTR_NAMESPACE", "Variable": "AddFragements.ATTR_VARIABLE",
          "Flagged": "AddFragements.ATTR_FLAGGED", "File": "IncludeAll.ATTR_FILE", "Class": "Inherit.ATTR_CLASS", "FuncNames": "FunctionExports.ATTR_FUNCNAME"}
CONSTS2 = {"VarName": "Unset.ATTR_VARNAME", "Flag": "Unset.ATTR_FLAG", "FuncName": "TaskAdd.ATTR_FUNCNAME", "Comment": "TaskAdd.ATTR_COMMENT", "Statement": "Include.ATTR_STATEMENT",
           "Value": "Export.ATTR_STATEMENT", "Path": "AddFragements.ATTR_PATH", "VarValue": "Variable.ATTR_VARVAL"}
CONSTS3 = {"FuncName": "TaskDel.ATTR_FUNCNAME", "VarName": "FlagAssignment.ATTR_NAME"}
CONSTS4 = {"FuncName": "PythonBlock.ATTR_FUNCNAME"}


def named(name, k):
    """the documented constant for the name of an attribute"""
    from oelint_parser import cls_item
    c = [{}, CONSTS, CONSTS2, CONSTS3, CONSTS4][k].get(name)
    return getattr(getattr(cls_item, c.split(".")[0]), c.split(".")[1]) if c else name


def drive_filter(case, root):
    from vt.gen.rich import ATTRS
    store_files(case, root)
    p = lambda x: x.replace("/R", root, 1) if isinstance(x, str) and x.startswith("/R") else x  # noqa
    s = stash_of(case)
    for a in case["adds"]:
        s.AddFile(p(a))
    if case["final"]:
        s.Finalize()
    every = list(s.GetItemsFor())
    ids = {id(x): i + 1 for i, x in enumerate(every)}

    def at(x):
        return [[n, tag(getattr(x, n))] for n in ATTRS if isinstance(getattr(type(x), n, None), property)]

    def kwargs(f, o_no=0):
        shape = lambda q, how: (q[0] if how == "one" and len(q) == 1 else tuple(q) if how == "tuple" else set(q) if how == "set" else list(q)) if q else None  # noqa
        kw = {}
        if f["file"]:
            kw["filename"] = p(f["file"])
        if f["nolink"]:
            kw["nolink"] = True
        for n, k, i in (("classifier", "cls", 0), ("attribute", "attr", 1), ("attributeValue", "vals", 2)):
            v = [p(x) for x in f[k]]
            if k == "attr":
                v = [named(x, f["const"] if "const" in f else (len("".join(v)) + len(f["vals"]) + len(f["cls"]) + o_no) % 5) for x in v]
            elif k == "cls":
                from oelint_parser import cls_item
                v = [getattr(cls_item, x).CLASSIFIER if hasattr(cls_item, x) else x for x in v]
            how = f["form"][i]
            if k == "vals" and len(v) == 1 and how == "one" and not v[0]:
                how = "list"       # a single empty value counts as no value
            if v:
                kw[n] = shape(v, how)
        return kw

    idl = lambda q: [ids.get(id(x), 0) for x in q]  # noqa
    res = []
    for o in case["ops"]:
        start = every if o["start"] == [-1] else [every[i % len(every)] for i in o["start"]] if every else []
        kws = [kwargs(f, len(res)) for f in o["filters"]]
        rec = {"start": idl(start), "vals": [[tag(p(v)) for v in f["vals"]] for f in o["filters"]]}
        if o["kind"] == "get":
            before = list(s.GetItemsFor())
            rec["r"] = idl(s.GetItemsFor(**kws[0]))
            rec["input"] = idl(before)
        elif o["kind"] == "chain":
            q = s.StashList(s, start)
            for kw in kws:
                same = q.reduce(**kw)
                assert same is q, "reduce returns another list"
            rec["r"] = rec["input"] = idl(q)
        else:
            q = {"list": list, "tuple": tuple, "set": set, "iter": list, "stashlist": lambda x: s.StashList(s, x)}[o["inform"]](start)
            arg = iter(q) if o["inform"] == "iter" else q
            for kw in kws:
                arg = s.Reduce(arg, **kw)
            rec["r"] = idl(arg)
            rec["input"] = rec["start"] if o["inform"] == "set" and set(q) == set(start) else idl(q)
        res.append(rec)
    return {"items": [{"id": i + 1, "f": T(x.Origin), "c": T(x.CLASSIFIER), "l": N(x.Line), "at": at(x)} for i, x in enumerate(every)],
            "links": [{"f": f["p"], "to": sorted({T(x.Origin) for x in s.GetItemsFor(filename=p(f["p"]))} | {f["p"]})} for f in case["files"]],
            "res": res, "left": idl(s.GetItemsFor())}


# -- constants -----------------------------------------------------------------
def untree(j):
    return {k: untree(v) for k, v in j["d"]} if j["t"] == "d" else list(j["l"]) if j["t"] == "l" else j["s"]


def tree(x):
    r = {"t": "s", "d": [], "l": [], "s": ""}
    if isinstance(x, dict):
        return dict(r, t="d", d=[[T(k), tree(v)] for k, v in sorted(x.items(), key=lambda e: str(e[0]))])
    if isinstance(x, (list, tuple)):
        return dict(r, t="l", l=LST(x))
    return dict(r, s=T(x))


def spoil(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["SPOILED"] = ["x"]
    elif isinstance(x, list):
        x.append("SPOILED")


def drive_const(case, root):
    import json
    from vt.gen.const import GETTERS
    arg = untree(case["init"])
    if case.get("asfile"):
        os.makedirs(root, exist_ok=True)
        with open(os.path.join(root, "db.json"), "w") as f:
            json.dump(arg, f)
        c = Constants(os.path.join(root, "db.json"))
    else:
        c = Constants(arg)
        spoil(arg)
    tops = sorted({k for k, _ in case["init"]["d"]} | {k for o in case["ops"] for k, _ in o["arg"]["d"]} | {"SPOILED"})

    def dump():
        q = [[k, tree(c.GetByPath(k))] for k in tops]
        return {"t": "d", "d": [[k, v] for k, v in q if not (v["t"] == "d" and not v["d"] and k not in here)], "l": [], "s": ""}
    here = {k for k, _ in case["init"]["d"]}
    obs = {"init": dump(), "steps": []}
    for o in case["ops"]:
        a = untree(o["arg"])
        {"add": c.AddConstants, "remove": c.RemoveConstants, "override": c.OverrideConstants}[o["op"]](a)
        if o["op"] != "remove":
            here |= {k for k, _ in o["arg"]["d"]}
        d, t = dump(), tree(a)
        spoil(a)
        obs["steps"].append({"db": d, "arg": t, "later": dump()})
    obs["gets"] = [{"path": p.rstrip("/").split("/"), "got": tree(c.GetByPath(p))} for p in case["gets"]]
    obs["getters"] = [{"path": p.split("/"), "got": tree(getattr(c, n))} for n, p in sorted(GETTERS.items())] if case["gets"] else []
    return obs


# -- lists of items ------------------------------------------------------------
def drive_slist(case, root):
    n = case["n"]
    write(root, {"a_1.bb": "".join('A%d = "x"\n' % i if i % 2 else "do_a%d() {\n}\n" % i for i in range(1, n + 1))})
    s = stash_of(case)
    s.AddFile(os.path.join(root, "a_1.bb"))
    s.Finalize()
    items = sorted(s.GetItemsFor(), key=lambda x: x.InFileLine)
    assert len(items) == n
    ids = {id(x): i + 1 for i, x in enumerate(items)}
    idl = lambda q: [ids.get(id(x), 0) for x in q]  # noqa
    lists = [s.GetItemsFor() for _ in range(case["nlists"])]
    typ = type(lists[0])
    steps = []
    for o in case["ops"]:
        q, a = lists[o["l"] - 1], o["arg"]
        vals = [items[i - 1] for i in a["v"]] if a["k"] != "ref" else None
        own = vals
        if a["k"] == "ref":
            x = lists[a["v"][0] - 1]
        elif a["k"] == "one":
            x = vals[0]
        else:
            own = tuple(vals) if a.get("form") == "tuple" else vals
            x = iter(own) if a.get("form") == "iter" else own
        r, e, to = [], "", None
        sl = slice(*[None if v == 99 else v for v in (o["i"], o["j"])], o["k"])
        try:
            k = o["op"]
            if k in ("append", "extend", "remove"):
                ret = getattr(q, k)(x)
                assert ret is None, k
            elif k == "iadd":
                q += x
                if q is not lists[o["l"] - 1]:
                    lists[o["l"] - 1] = q
            elif k == "insert":
                q.insert(o["i"], x)
            elif k == "add":
                to = q + x
            elif k == "radd":
                to = x.__add__(q) if isinstance(x, typ) else x + q if not hasattr(x, "__next__") else q.__radd__(x)
            elif k == "slice":
                to = q[sl]
            elif k == "copy":
                to = q.copy()
            elif k == "set":
                q[o["i"]] = x
            elif k == "index":
                r = idl([q[o["i"]]])
            elif k == "iter":
                r = idl([y for y in q])
            elif k == "len":
                r = [len(q)]
            elif k == "in":
                r = [1 if x in q else 0]
            elif k == "reduce":
                ret = q.reduce(classifier="Variable" if o["i"] else "Function")
                assert ret is q
            elif k == "get":
                to = s.GetItemsFor()
            if to is not None:
                assert isinstance(to, typ), "not a StashList"
                lists[o["to"] - 1] = to
                r = idl(to)
        except (ValueError, IndexError) as ex:
            e = type(ex).__name__
        steps.append({"ls": [idl(y) for y in lists], "r": r, "e": e, "operand": idl(own) if own is not None else [], "stash": sorted(idl(s.GetItemsFor()))})
    return {"kinds": [i % 2 for i in range(1, n + 1)], "steps": steps}


# -- entries of SRC_URI ----------------------------------------------------------
def drive_srcuri(case, root):
    if case["extra"]:
        CONSTANTS.AddConstants({"replacements": {"mirrors": {}}})
        CONSTANTS.OverrideConstants({"replacements": {"mirrors": dict(case["extra"])}})
    ms = CONSTANTS.GetByPath("replacements/mirrors")
    q = case["entries"]

    def rec(x):
        return {"scheme": T(x["scheme"]), "src": T(x["src"]), "options": sorted([T(k), T(v)] for k, v in x["options"].items())}
    s = stash_of(case)
    a = [rec(s.GetScrComponents(e)) for e in q]
    b = [rec(s.GetScrComponents(e)) for e in reversed(q)][::-1]
    s2 = stash_of(case)
    c = [rec(s2.GetScrComponents(e)) for e in reversed(q)][::-1]
    used = [[T(k), T(v)] for k, v in ms.items() if any(k in e for e in q) or any(k in v2 for v2 in ms.values())]
    return {"mirrors": used, "got": [list(x) for x in zip(a, b, c)]}


# -- files beside recipes ----------------------------------------------------------
def drive_files(case, root):
    store_files(case, root)
    write(root, {"m/conf/layer.conf": ""})
    p = lambda x: x.replace("/R", root, 1)  # noqa
    links = [*case["links"], *case["nots"]]
    write(root, {t[3:]: "" for t in case["tree"] if not any(t == k or t.startswith(k + "/") for k, _ in links)})
    os.makedirs(p("/R/empty"), exist_ok=True)
    for k, to in links:
        os.makedirs(os.path.dirname(p(k)), exist_ok=True)
        if to == "dir":
            os.mkdir(p(k))
        else:
            os.symlink(p(to), p(k))
    s = stash_of(case)
    for a in case["adds"]:
        s.AddFile(p(a))
    if case["final"]:
        s.Finalize()
        s.Finalize()
    got = [LT(s.GetFiles(p(f), q)) for f, q in case["asks"]]
    fs = sorted({f["p"] for f in case["files"]} | {a[0] for a in case["asks"]})
    return {"got": got, "links": [{"f": f, "to": sorted({T(x.Origin) for x in s.GetItemsFor(filename=p(f))})} for f in fs]}


# -- looking up files ----------------------------------------------------------------
def drive_lookup(case, root):
    from vt import render
    os.makedirs(root, exist_ok=True)
    write(root, render.files(case))
    for d in case.get("dirs", []):
        os.makedirs(d.replace("/R", root, 1), exist_ok=True)
    CONSTANTS.AddConstants({"sets": {"base": {k: v for k, v in case["base"]}}})
    CONSTANTS.AddConstants({"ignore": {"classes": case["ignore"]["classes"], "include": case["ignore"]["includes"]}})
    p = lambda x: x.replace("/R", root, 1) if x.startswith("/R") else x  # noqa
    m0, d0 = LT(CONSTANTS.MachinesKnown), LT(CONSTANTS.DistrosKnown)
    s = stash_of(case)
    for a in case["adds"]:
        s.AddFile(p(a))
    its = list(s.GetItemsFor())
    m1, d1 = LT(CONSTANTS.MachinesKnown), LT(CONSTANTS.DistrosKnown)
    return {"machines0": m0, "distros0": d0, "machines": m1, "distros": d1,
            "origins": sorted({T(x.Origin) for x in its}),
            "inc": [{"f": T(x.Origin), "n": N(x.InFileLine), "to": T(x.FileIncluded)} for x in its if x.CLASSIFIER == "Include"],
            "inh": [{"f": T(x.Origin), "n": N(x.InFileLine), "to": sorted(LT(x.FilePaths))} for x in its if x.CLASSIFIER == "Inherit"],
            "finds": [T(s.FindLocalOrLayer(p(n), p(d))) for n, d in case["finds"]],
            "roots": [T(s.GetLayerRoot(p(x))) for x in case["roots"]]}


# -- packages and kinds of recipes ----------------------------------------------------
def drive_packages(case, root):
    store_files(case, root)
    CONSTANTS.AddConstants({"sets": {"base": {"XBASE": "${PN}-xb"}}})
    c = case["cons"] or {}
    if "add" in c:
        CONSTANTS.AddConstants({"images": {"known-classes": c["add"], "known-variables": c["var"]}})
    if "override" in c:
        CONSTANTS.OverrideConstants({"images": {"known-classes": c["override"]}})
    if "remove" in c:
        CONSTANTS.RemoveConstants({"images": {"known-classes": c["remove"]}})
    p = lambda x: x.replace("/R", root, 1)  # noqa
    s = stash_of(case)
    for a in case["adds"]:
        s.AddFile(p(a))
    if case["final"]:
        for _ in range(3):
            s.Finalize()
    out = []
    known = {x.Origin for x in s.GetItemsFor()}
    yes = lambda x: x if isinstance(x, bool) else T(x)  # noqa
    for f in case["files"]:
        q = p(f["p"])
        if q not in known:
            continue
        out.append({"p": f["p"], "links": sorted({T(x.Origin) for x in s.GetItemsFor(filename=q)} | {f["p"]}),
                    "name": T(s.GuessRecipeName(q)), "bpn": T(s.GuessBaseRecipeName(q)),
                    "version": "<None>" if s.GuessRecipeVersion(q) is None else T(s.GuessRecipeVersion(q)),
                    "exp": {n: T(s.ExpandTerm(q, "${%s}" % n)) for n in ("PN", "PV", "BPN")},
                    "pkgs": sorted(LT(s.GetValidPackageNames(q))), "stripped": sorted(LT(s.GetValidPackageNames(q, strippn=True))),
                    "res": sorted(LT(s.GetValidNamedResources(q))), "dyn": sorted(LT(s.GetPackagesDynamic(q))),
                    "isdyn": [yes(s.IsDynamicPackage(q, t)) for t in case["asktexts"]],
                    "image": yes(s.IsImage(q)), "group": yes(s.IsPackageGroup(q))})
    return {"files": out, "mirrors": [[T(k), T(v)] for k, v in CONSTANTS.GetByPath("replacements/mirrors").items() if any(k in f["text"] for f in case["files"])],
            "classes": LT(CONSTANTS.GetByPath("images/known-classes")), "variables": LT(CONSTANTS.GetByPath("images/known-variables"))}


# -- robustness ---------------------------------------------------------------
def probe_item(x):
    import inspect
    for a in dir(type(x)):
        if a.startswith("_"):
            continue
        v = getattr(type(x), a)
        if isinstance(v, property):
            getattr(x, a)
        elif inspect.isfunction(v) and not isinstance(inspect.getattr_static(type(x), a), staticmethod):
            ps = [q for q in list(inspect.signature(v).parameters.values())[1:] if q.default is q.empty and q.kind in (q.POSITIONAL_ONLY, q.POSITIONAL_OR_KEYWORD)]
            if not ps:
                getattr(x, a)()
    repr(x)


def drive_robust(case, root):
    for d in case.get("dirs", []):
        os.makedirs(os.path.join(root, d[3:]), exist_ok=True)
    store_files(case, root)
    if case.get("dirs"):
        with open(os.path.join(root, "l/recipes/bin"), "wb") as f:
            f.write(b"\xff\xfe\0 x\n")
    p = lambda x: x.replace("/R", root, 1) if x.startswith(("/R", "//R")) else x  # noqa
    if case.get("dirs"):
        os.chdir(os.path.join(root, "l"))
    s = stash_of(case)
    seen, ops, added = set(), [], []

    def call(name, fn):
        try:
            fn()
            got = "ok"
        except RecursionError:
            got = "raised RecursionError"
        except Exception as e:
            got = ("raised %s %s" % (type(e).__name__, str(e).replace(root, "/R")))[:150]
        if got != "ok" or name not in seen:
            seen.add(name)
            ops.append({"op": name, "got": got})

    def queries():
        names = [p(f["p"]) for f in case["files"]] + [p("/R/l/recipes/none.bb"), p("/R/l/recipes/a_b_c.bb")] + [p(x) for x in case.get("odd", [])]
        for n in ("GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses"):
            call(n, getattr(s, n))
        call("FingerPrint", lambda: s.FingerPrint)
        for q in names:
            for n in ("GetLinksForFile", "IsImage", "IsPackageGroup", "GetValidPackageNames", "GetPackagesDynamic", "GetValidNamedResources", "GuessRecipeName",
                      "GuessBaseRecipeName", "GuessRecipeVersion", "GetLayerRoot"):
                call(n, lambda: getattr(s, n)(q))
            call("GetValidPackageNames", lambda: s.GetValidPackageNames(q, strippn=True))
            call("GetItemsFor", lambda: s.GetItemsFor(filename=q))
            call("GetItemsFor", lambda: s.GetItemsFor(filename=q, classifier=I.Variable.CLASSIFIER, nolink=True))
            call("GetItemsFor", lambda: s.GetItemsFor(filename=q, attribute=I.Variable.ATTR_VAR, attributeValue="A"))
            call("ExpandVar", lambda: s.ExpandVar(filename=q))
            call("ExpandVar", lambda: s.ExpandVar(filename=q, attribute=I.Variable.ATTR_VAR, attributeValue="A"))
            for t in case.get("terms", []):
                call("ExpandTerm", lambda: s.ExpandTerm(q, t))
                call("IsDynamicPackage", lambda: s.IsDynamicPackage(q, t))
            call("GetFiles", lambda: s.GetFiles(q, "*"))
            for n in ("i.inc", q, "", "/", "none/x.inc"):
                call("FindLocalOrLayer", lambda: s.FindLocalOrLayer(n, os.path.dirname(q)))
        for x in s.GetItemsFor():
            call(type(x).__name__, lambda: probe_item(x))
            for n in ("VarValue", "VarValueStripped"):
                if hasattr(x, n):
                    call("ExpandTerm", lambda: s.ExpandTerm(x.Origin, getattr(x, n), objref=x))
                    call("GetScrComponents", lambda: [s.GetScrComponents(y) for y in s.SafeLineSplit(getattr(x, n))])
    for o in case["ops"]:
        if o[0] == "add":
            call("AddFile", lambda: s.AddFile(p(o[1])))
            if o[1] not in added:
                added.append(o[1])
        elif o[0] == "final":
            call("Finalize", s.Finalize)
        else:
            queries()
        ops.append({"op": "step", "got": "ok"})
    links = []
    if case["graph"]:
        call("Finalize", s.Finalize)
        for a in added:
            own = s.GetItemsFor(filename=p(a), nolink=True)
            seen_lines = sorted({N(x.InFileLine) for x in own})
            links.append({"p": a, "links": sorted({T(x.Origin) for x in s.GetItemsFor(filename=p(a))} - {a}) if own else [], "items": seen_lines})
    return {"ops": ops, "links": links}


# -- fingerprint ---------------------------------------------------------------
def fp_runs(case, root, cwd=False):
    """every history in a process of its own (a fork), or all in this one"""
    p = lambda x: x.replace("/R", root, 1)  # noqa

    def one(run):
        write(root, {f["p"][3:]: f["text"] for f in run["files"]})
        if cwd:
            os.chdir(root)
        s = stash_of({"opts": run["opts"]})
        other = Stash(quiet=True)
        out = [T(s.FingerPrint)]
        for o in run["ops"]:
            if o[0] == "add":
                s.AddFile(p(o[1]))
            elif o[0] == "final":
                s.Finalize()
            elif o[0] == "other":
                other.AddFile(p(o[1]))
                other.Finalize()
            elif o[0] == "q":
                for f in run["files"]:
                    q = p(f["p"])
                    s.GetItemsFor(filename=q)
                    s.ExpandVar(filename=q)
                    s.GetValidPackageNames(q)
                    s.GetPackagesDynamic(q)
                    s.IsImage(q)
                    s.GetLinksForFile(q)
                    [x.GetAttributes() for x in s.GetItemsFor(filename=q)]
                s.GetRecipes()
                s.FingerPrint
            out.append(T(s.FingerPrint))
        return out
    if case["forked"]:
        res = [isolated(lambda: {"r": one(x)}) for x in case["runs"]]
        errs = [x["error"] for x in res if x["error"]]
        return {"error": errs[0]} if errs else {"error": "", "r": [x["r"] for x in res]}
    return {"error": "", "r": [one(x) for x in case["runs"]]}


def fp_main():
    import json
    import sys
    case, root = json.load(sys.stdin)
    fd = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    out = fp_runs(case, root, cwd=True)
    os.write(fd, json.dumps(out).encode())


def drive_fprint(case, root):
    import json
    import subprocess
    import sys
    write(root, {"l/conf/layer.conf": ""})
    procs = []
    r = fp_runs(case, root)
    if r["error"]:
        return r
    procs.append(r["r"])
    for seed in case["seeds"]:
        e = dict(os.environ, PYTHONHASHSEED=str(seed))
        q = subprocess.run([sys.executable, "-c", "import sys; from vt.drivers import fp_main; fp_main()"], input=json.dumps([case, root]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        if q.returncode != 0:
            m = q.stderr.decode("utf-8", "replace")
            return {"error": ("CODE " if os.environ["VT_REPO"] in m else "HARNESS ") + m[-300:]}
        r = json.loads(q.stdout)
        if r["error"]:
            return r
        procs.append(r["r"])
    return {"procs": procs}


# -- regular expressions ---------------------------------------------------------
def drive_regex(case, root):
    import time
    import regex
    from oelint_parser.rpl_regex import RegexRpl as R
    if case["kind"] == "slow":
        kw = {"timeout": case["timeout"]} if case["timeout"] else {}      # else the default, 5 seconds
        if case["default"] != "<unset>":
            kw["default"] = case["default"]
        a = [case["pattern"], "-", case["s"]] if case["fn"] == "sub" else [case["pattern"], case["s"]]
        t = time.process_time()
        x = getattr(R, case["fn"])(*a, **kw)
        if x is not None and not isinstance(x, (str, list)):
            x = list(x)
        return {"told": T(x) if x == case["default"] else repr(x), "late": max(0, int(time.process_time() - t - (case["timeout"] or 5)))}
    fl = 0
    for f in case["fl"]:
        fl |= {"I": regex.I, "M": regex.M, "S": regex.S}[f]
    p, s = case["pattern"], case["s"]
    kw = {"flags": int(fl)}
    if case["compiled"]:
        p, kw = regex.compile(p, flags=fl), {}
    span = lambda m: list(m.span()) if m else []  # noqa
    return {"match": span(R.match(p, s, **kw)), "search": span(R.search(p, s, **kw)), "finditer": [span(m) for m in R.finditer(p, s, **kw)],
            "split": [LT(R.split(p, s, maxsplit=n, **kw)) for n in case["n"]], "sub": [T(R.sub(p, case["r"], s, count=n, **kw)) for n in case["n"]]}
