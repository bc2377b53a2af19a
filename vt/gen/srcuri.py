"""Entries of SRC_URI."""
KEYS = ["name", "branch", "sha256sum", "downloadfilename", "subdir", "unpack", "destsuffix", "protocol", "k", "module", "apply", "tag", "rev", "x-y", "Name"]
VALS = ["", "x", "main", "a=b", "=", "==x", "1.0", "${PN}", "${PN}-${PV}.tar.gz", "a/b/c", "x?y", "z#w", "a:b@c", "deadbeef" * 8, "x,y", "ä", "[x", "name=y", "git://h/p", "%2f", "'q'", "${GNU_MIRROR}"]
NAMES = ["${GNU_MIRROR}", "${SOURCEFORGE_MIRROR}", "${GPE_SVN}", "${CPAN_MIRROR}", "${KERNELORG_MIRROR}", "${E_CVS}", "${DEBIAN_MIRROR}"]
EXTRA = [["${MY_MIRROR}", "https://my.example.org/d"], ["${MY}", "ftp://u@my.org:21/x"], ["${OPT_MIRROR}", "git://h.org/r;branch=b=c;protocol=https"],
         ["${GNU_MIRROR}", "https://gnu.example.org/other"]]


def location(r):
    x = r.random()
    path = "".join(r.choice(["/", "/", "//", "/a", "/b.tar.gz", "/${PN}", "/${PV}", "/x-1.0", "/é", "/[x]", "/a%20b", "/.git", "/~u"]) for _ in range(r.randint(0, 4)))
    if r.random() < 0.2:
        path += "?" + r.choice(["x=1", "a=b&c=d", "p/q", "x?y"])
    if r.random() < 0.2:
        path += "#" + r.choice(["f", "a/b", "x?y", "1"])
    if x < 0.25:
        return "file://" + r.choice(["a.patch", "0001-x.patch", "sub/dir/a.cfg", "a+b.c", "${PN}.conf", "", "a.b"]) + path
    if x < 0.45:
        return r.choice(NAMES + [e[0] for e in EXTRA[:3]]) + path
    if x < 0.5:
        return r.choice(["git", "https"]) + "://" + r.choice(["[x", "x]", "h[1", "u@[h"]) + path
    return r.choice(["git", "gitsm", "https", "http", "ftp", "svn", "npm", "crate", "ssh", "npmsw", "s3", "git+x", "a.b"]) + "://" + \
        r.choice(["h.org", "git@h.org", "h.org:22", "u:p@h", "[::1]", "[fe80::1]:22", "1.2.3.4", "${HOST}", "h-x_y.z", "H.Org", ""]) + path


def entry(r):
    t = location(r)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
        x = r.random()
        t += ";" + (r.choice(KEYS) + "=" + r.choice(VALS) if x < 0.85 else r.choice(["", "noval", "name", "x/y"]))
    return t


def rand_case(r):
    pool = [entry(r) for _ in range(r.randint(2, 6))]
    # and relatives of them
    for _ in range(r.randint(0, 3)):
        e = r.choice(pool)
        pool.append(r.choice([e + ";name=" + r.choice(VALS), e.split(";")[0], e + ";", e.replace("=", "==", 1), e.upper().replace("://", "://", 1)
                              if "${" not in e and "[" not in e.split("://")[0] else e]))
    pool = [e for i, e in enumerate(pool) if e not in pool[:i] and "://" in e or e.startswith("${")]
    return {"driver": "srcuri", "entries": pool, "extra": EXTRA[:r.choice([3, 3, 4])]}
