"""Histories of operations on several lists taken from one stash."""
NIL = 99


def op(r, n, nl, lens):
    l, to = r.randint(1, nl), r.randint(1, nl)
    o = r.choice(["append", "append", "extend", "iadd", "insert", "remove", "remove", "add", "radd", "slice", "copy", "set", "index", "iter", "len", "in", "reduce", "get"])
    one = {"k": "one", "v": [r.randint(1, n)]}
    seq = {"k": "seq", "v": [r.randint(1, n) for _ in range(r.choice([0, 1, 2, 3]))], "form": r.choice(["list", "tuple", "iter"] if o not in ("append", "remove") else ["list", "tuple"])}
    ref = {"k": "ref", "v": [r.randint(1, nl)]}
    arg = {"append": [one, seq, ref], "remove": [one, one, seq, ref], "extend": [seq, ref], "iadd": [seq, ref], "add": [seq, ref], "radd": [seq, ref],
           "insert": [one], "set": [one], "in": [one]}.get(o, [{"k": "seq", "v": []}])
    arg = r.choice(arg)
    i = r.choice([0, 0, 1, 2, 5, -1, -2, -6, 9])
    j = r.choice([0, 1, 2, 4, -1, -3, NIL, NIL])
    if o == "slice" and r.random() < 0.4:
        i = NIL
    if o == "reduce":
        i = r.choice([0, 1])
    return {"op": o, "l": l, "to": to, "arg": arg, "i": i, "j": j, "k": r.choice([1, 1, 1, 2, -1, -2]) if o == "slice" else 1}


def rand_case(r):
    n, nl = r.randint(1, 6), r.choice([1, 2, 2, 3])
    ops, size = [], n
    for _ in range(r.randint(3, 14)):
        o = op(r, n, nl, None)
        ops.append(o)
    # no list grows beyond reason
    grow = [o for o in ops if o["arg"]["k"] == "ref" and o["op"] != "remove"]
    for o in grow[4:]:
        ops.remove(o)
    return {"driver": "slist", "n": n, "nlists": nl, "ops": ops}
