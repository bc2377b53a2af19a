"""Histories of the constants database."""


def D(d):
    return {"t": "d", "d": [[k, v] for k, v in d.items()], "l": [], "s": ""}


def L(q):
    return {"t": "l", "d": [], "l": list(q), "s": ""}


def Sx(x):
    return {"t": "s", "d": [], "l": [], "s": x}


GETTERS = {"FunctionsKnown": "functions/known", "FunctionsOrder": "functions/order", "MirrorsKnown": "replacements/mirrors", "VariablesKnown": "variables/known",
           "DistrosKnown": "replacements/distros", "MachinesKnown": "replacements/machines", "ImagesClasses": "images/known-classes",
           "ImagesVariables": "images/known-variables", "SetsBase": "sets/base", "ClassIgnore": "ignore/classes", "IncludeIgnore": "ignore/include"}
# the layout: text -> kind of the entry
LAYOUT = {p: "texts" if p in ("replacements/mirrors", "sets/base") else "list" for p in GETTERS.values()}
LAYOUT.update({"my/own/deep": "list", "my/flat": "list", "top": "list", "my/t": "texts"})
WORDS = ["a", "b", "c", "d", "a b", "é", "", "x/y"]


def words(r):
    return [r.choice(WORDS) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]


def build(entries):
    """path -> value as nested trees"""
    root = {}
    for p, v in entries.items():
        d = root
        ks = p.split("/")
        for k in ks[:-1]:
            d = d.setdefault(k, {})
        d[ks[-1]] = v
    conv = lambda x: x if "t" in x and "l" in x and isinstance(x.get("t"), str) and isinstance(x["l"], list) else D({k: conv(y) for k, y in x.items()})  # noqa
    return conv(root)


def value(r, kind):
    return L(words(r)) if kind == "list" else D({k: Sx(r.choice(WORDS)) for k in r.sample(["${A}", "${B}", "C", "D"], r.randint(0, 3))})


def rand_case(r):
    keys = r.sample(sorted(LAYOUT), r.randint(1, 6))
    init = build({k: value(r, LAYOUT[k]) for k in keys})
    used = {k: set() for k in LAYOUT}      # texts are not concatenated: AddConstants brings new ones only
    for k in keys:
        pass
    ops = []
    pool = keys + r.sample(sorted(LAYOUT), 3)
    fresh = ["n%d" % i for i in range(40)]
    for _ in range(r.randint(1, 7)):
        op = r.choice(["add", "remove", "override"])
        ent = {}
        for k in set(r.sample(pool, r.choice([1, 1, 2, 3]))):
            if LAYOUT[k] == "list":
                ent[k] = L(words(r))
            elif op == "add":
                ent[k] = D({fresh.pop(): Sx(r.choice(WORDS)) for _ in range(r.randint(0, 2))})
            elif op == "remove":
                ent[k] = L(r.sample(["${A}", "${B}", "C", "D", "n39", "n38"], r.randint(0, 3)))
            else:
                ent[k] = value(r, "texts")
        ops.append({"op": op, "arg": build(ent)})
    gets = []
    for k in set(pool + r.sample(sorted(LAYOUT), 4)):
        gets += [k, k.rsplit("/", 1)[0], k + "/zz", k + "/0", "nope/" + k, k + "/"]
    return {"driver": "const", "init": init, "ops": ops, "gets": r.sample(gets, min(len(gets), 14)), "asfile": r.random() < 0.5}
