"""Filters over rich worlds."""
from vt.gen import rich as R
from vt.gen import store as G


EVERY = ['A = "1"', 'A[doc] = "text"', 'do_compile() {\n    x\n}', 'python do_z() {\n    pass\n}', 'inherit none', 'include none.inc', 'include_all conf/none.conf',
         'export E = "1"', 'export F', 'addtask z before do_build after do_compile', 'deltask z', 'unset B', 'unset A[doc]', 'EXPORT_FUNCTIONS do_compile do_install',
         'addpylib ${LAYERDIR}/a b', 'addfragments a B C', '# a comment', 'A:append = " 2"', 'def f(d):\n    return 1']
KINDS = ["Variable", "FlagAssignment", "Function", "Inherit", "Include", "IncludeAll", "Export", "TaskAdd", "TaskDel", "Unset", "FunctionExports", "AddPylib", "AddFragements",
         "Comment", "PythonBlock", "Item", "MissingFile"]


def systematic():
    """every kind and every attribute by each of its documented constants, in a world with every kind of statement"""
    f = lambda **kw: dict({"file": "", "nolink": False, "cls": [], "attr": [], "vals": [], "form": ["one", "one", "list"]}, **kw)  # noqa
    fs = [f(attr=[a], const=k) for a in R.ATTRS for k in range(5)] + [f(cls=[c]) for c in KINDS] + [f(cls=[c], attr=[a]) for c in KINDS for a in ("Line", "FuncName", "VarName")]
    p = "/R/l/recipes/foo_1.0.bb"
    out = []
    for i in range(0, len(fs), 12):
        out.append({"driver": "filter", "files": [{"p": p, "st": [R.raw(t) for t in EVERY]}], "adds": [p], "final": True,
                    "ops": [{"kind": "get" if n % 2 else "reduce", "filters": [x], "start": [-1], "inform": "list"} for n, x in enumerate(fs[i:i + 12])]})
    return out


def rand_case(r):
    files, tops = R.family(r)
    if r.random() < 0.4:
        f2, t2 = R.family(r, "z", 1)
        files, tops = files + f2, tops + t2
    r.shuffle(tops)
    ops = []
    for _ in range(r.randint(4, 9)):
        k = r.choice(["get", "get", "reduce", "reduce", "chain", "reducechain"])
        n = 1 if k in ("get", "reduce") else r.choice([1, 2, 2, 3])
        fs = [R.filt(r, files) for _ in range(n)]
        if k in ("chain", "reducechain") and r.random() < 0.5:
            # one criterion each
            f = fs[0]
            parts = [dict(f, cls=[], attr=[], vals=[]), dict(f, file="", attr=[], vals=[]), dict(f, file="", cls=[])]
            r.shuffle(parts)
            fs = parts
        ops.append({"kind": k, "filters": fs, "start": [r.randint(0, 40) for _ in range(r.choice([0, 3, 8, 15]))] if r.random() < 0.6 else [-1],
                    "inform": r.choice(["list", "tuple", "stashlist", "set", "iter"])})
    return {"driver": "filter", "files": files, "adds": tops, "final": r.random() < 0.8, "ops": ops}
