"""Regular expressions as trees."""
SPECIAL = ".^$*+?{}[]\\|()"


def nullable(p):
    k = p["k"]
    return k in ("bol", "eol") or k == "rep" and p["lo"] == 0 or k == "cat" and all(nullable(x) for x in p["a"]) or k == "alt" and any(nullable(x) for x in p["a"])


def text(p):
    k = p["k"]
    if k == "chr":
        return ("\\" if p["c"] in SPECIAL else "") + p["c"]
    if k == "any":
        return "."
    if k == "set":
        return "[%s%s]" % ("^" if p["neg"] else "", "".join(("\\" if c in "]^-\\[" else "") + c for c in p["s"]))
    if k == "bol":
        return "^"
    if k == "eol":
        return "$"
    if k == "cat":
        return "".join("(?:%s)" % text(x) if x["k"] == "alt" else text(x) for x in p["a"])
    if k == "alt":
        return "|".join(text(x) for x in p["a"])
    a = text(p["a"])
    if p["a"]["k"] not in ("chr", "any", "set"):
        a = "(?:%s)" % a
    q = {(0, 9): "*", (1, 9): "+", (0, 1): "?"}.get((p["lo"], p["hi"])) or ("{%d}" % p["lo"] if p["lo"] == p["hi"] else "{%d,%s}" % (p["lo"], "" if p["hi"] == 9 else p["hi"]))
    return a + q + ("?" if p["lazy"] else "")


def tree(r, d):
    x = r.random()
    if d == 0 or x < 0.25:
        y = r.random()
        if y < 0.6:
            return {"k": "chr", "c": r.choice("abAB .\n-$")}
        if y < 0.75:
            return {"k": "any"}
        return {"k": "set", "s": r.sample("abAB .\n-]^", r.choice([1, 2, 3])), "neg": r.random() < 0.3}
    if x < 0.55:
        q = [tree(r, d - 1) for _ in range(r.choice([2, 2, 3]))]
        if r.random() < 0.15:
            q.insert(0, {"k": "bol"})
        if r.random() < 0.15:
            q.append({"k": "eol"})
        return {"k": "cat", "a": q}
    if x < 0.7:
        return {"k": "alt", "a": [tree(r, d - 1) for _ in range(r.choice([2, 2, 3]))]}
    while True:
        a = tree(r, d - 1)
        if not nullable(a):
            lo, hi = r.choice([(0, 9), (1, 9), (0, 1), (2, 2), (1, 2), (0, 2), (2, 9)])
            return {"k": "rep", "a": a, "lo": lo, "hi": hi, "lazy": r.random() < 0.35}


def case(r, p, s, fl):
    return {"driver": "regex", "kind": "value", "p": p, "pattern": text(p), "s": s, "fl": fl, "solid": not nullable(p), "r": r.choice(["", "#", "ab", "x y"]), "n": [0, 1, 2], "compiled": r.random() < 0.3}


def rand_case(r):
    return case(r, tree(r, r.choice([1, 2, 2, 3])), "".join(r.choice("aabbAB .\n-$") for _ in range(r.choice([0, 1, 3, 5, 7]))), r.sample(["I", "M", "S"], r.choice([0, 0, 1, 2, 3])))


SLOW = r"(?=(a+)\1)(?:a+)+(?:a+)+(?:a+)+(?:a*)+\1c|((a|a)|(a|a))+c"


def slow(r, own):
    out = []
    for fn in ("search", "match", "split", "sub", "finditer"):
        for d in ("<unset>", "x"):
            out.append({"driver": "regex", "kind": "slow", "fn": fn, "default": d, "pattern": SLOW, "s": "a" * 60 + "b", "timeout": 0 if own and d == "x" else 1})
    return out
