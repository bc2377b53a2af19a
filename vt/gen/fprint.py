"""Histories of stashes whose fingerprints are compared."""
from vt.gen import store as G, rich, robust
from vt import render

NONE = "/R/l/recipes/none.bb"


def texts(files):
    return [{"p": f["p"], "st": [{"k": "x", "n": s["n"], "to": s["to"]} for s in f["st"]], "text": render.body(f["st"])} for f in files]


def small(r, group):
    """all histories of one world; every statement has a text of its own"""
    runs = []
    for c in group:
        runs.append({"files": texts(c["files"]), "opts": {"newstyle": False, "negative": False}, "ops": c["ops"]})
    return {"driver": "fprint", "runs": runs, "seeds": [r.randint(1, 10**6)], "forked": False}


EDITS = [lambda r, t: t + "\n", lambda r, t: "# c\n" + t, lambda r, t: t + 'ZZ = "1"\n', lambda r, t: t[:-1] + " \n" if t.endswith("\n") else t + "\n", lambda r, t: "\n" + t,
         lambda r, t: t.replace("1", "2", 1), lambda r, t: t.replace('"', '" ', 1), lambda r, t: t.replace(" = ", " += ", 1), lambda r, t: t.replace(" = ", "  = ", 1), lambda r, t: t.replace("a", "b", 1), lambda r, t: t.replace("END1", "END2"), lambda r, t: t.replace("END1", "END1 "),
         lambda r, t: "".join(t.rsplit("w", 1)), lambda r, t: t.replace(' "', ' "v', 1), lambda r, t: t.replace("END1", "end1")]


def long_text(r):
    n = r.choice([60, 300, 1000, 5000])
    return r.choice(['LONG = "%sEND1"\n' % ("w " * n), 'LONG = "%sEND1"\n' % (" w \\\n" * n), "do_long() {\n%s    END1\n}\n" % ("    w\n" * n),
                     "".join('L%d = "w"\n' % i for i in range(n // 10)) + 'E = "END1"\n', "# w\n" * n + "# END1\n", "def long_f(d):\n%s    END1\n" % ("    w\n" * n)])


def run_of(files, opts, adds, r):
    ops = []
    for a in adds:
        for _ in range(r.choice([0, 0, 1])):
            ops.append(r.choice([["q"], ["final"], ["other", r.choice(adds)], ["add", NONE]]))
        ops.append(["add", a])
    for _ in range(r.choice([0, 1, 2])):
        ops.append(r.choice([["q"], ["final"], ["other", r.choice(adds)]]))
    return {"files": files, "opts": opts, "ops": ops}


def family(r):
    files, tops = rich.family(r)
    adds = tops + ([r.choice(files)["p"]] if r.random() < 0.3 else [])
    r.shuffle(adds)
    opts = {"newstyle": r.random() < 0.5, "negative": r.random() < 0.5}
    if r.random() < 0.3:      # several classes at once
        ms = [G.path("bbclass", "m%d" % k) for k in range(r.choice([2, 3, 4]))]
        files = [dict(f, st=[G.inh(r, ms)] + f["st"]) if f["p"] == tops[0] else f for f in files] + [{"p": m, "st": [rich.raw('M = "1"')]} for m in ms]
    ft = texts(files)
    if r.random() < 0.4:      # long statements and files
        f = r.choice(ft)
        f["text"] += long_text(r)
    runs = [run_of(ft, opts, adds, r), run_of(ft, opts, adds, r)]
    for flip in ("newstyle", "negative"):
        if r.random() < 0.5:
            runs.append(run_of(ft, dict(opts, **{flip: not opts[flip]}), adds, r))
    o2 = adds[:]
    r.shuffle(o2)
    runs.append(run_of(ft, opts, o2, r))
    runs.append(run_of(ft, opts, adds[:-1] or adds, r))
    for _ in range(3):
        # one of the texts differs
        k = r.randrange(len(ft))
        t = ft[k]["text"]
        u = r.choice(EDITS[-5:] if "END1" in t and r.random() < 0.7 else EDITS)(r, t)
        if u == t or changes_links(t, u):
            continue
        runs.append(run_of([dict(f, text=u) if i == k else f for i, f in enumerate(ft)], opts, adds, r))
    return {"driver": "fprint", "runs": runs, "seeds": [r.randint(1, 10**6) for _ in range(2)], "forked": r.random() < 0.5}


def changes_links(t, u):
    key = lambda x: sorted(l for l in x.split("\n") if l.startswith(("inherit", "require", "include", "INHERIT")))  # noqa
    return key(t) != key(u)
