"""
Directories: comparison, copies, name patterns.
"""

from javatools.dirutils import (
    closing, collect_compare, collect_compare_into, compare, copydir,
    fnmatches, makedirsp, ClosingContext, LEFT, RIGHT, DIFF, SAME)


# the places files may be at, and whether these nest
PLACES = {
    "flat": ["a", "b", "c"],
    "deep": ["a", "d/a", "d/e/a"],
    "two": ["d/a", "e/a", "f"],
    "three": ["d/x", "e/x", "f/x", "g"],
    "odd": [" a", "-b", "d.d/..c"],
    "hidden": [".a", ".d/b", "e~/.c"],
    "cased": ["a", "A", "D/a"],
    "under": ["d/.e/a", "d/CVS/.f/b", "e/d/RCS/c"],
    "globs": ["[a]", "*", "#a#/?"],
}




def trees(c, places, size, mtimes=False):
    """ every file of either directory is reported, once """
    fs = c.fs()
    fs.mkdir("l")
    fs.mkdir("r")
    l, r = {}, {}
    for i, rel in enumerate(PLACES[places]):
        k = c.choose("on%d" % i, ("both", "left", "right", "none"))
        n = c.choose("size%d" % i, size) if k == "both" else 1
        if k in ("both", "left"):
            l[rel] = c.bytes("l%d" % i, 1)
            fs.put("l/" + rel, l[rel])
        if k in ("both", "right"):
            r[rel] = c.bytes("r%d" % i, n)
            when = 1000000000
            if mtimes and c.choose("later%d" % i, (False, True)):
                when += 5
            fs.put("r/" + rel, r[rel], when)
    got = list(compare(fs.path("l"), fs.path("r")))
    partition(c, got, l, r)
    c.observe("events", sorted([n for _e, n in got]))
    c.cover("trees")


def partition(c, got, l, r):
    names = [n for _e, n in got]
    c.check(sorted(names) == sorted(set(list(l) + list(r))),
            "every file once, by its path", key="names")
    for e, n in got:
        if n not in r:
            c.check(e == LEFT, "only on the left", key="left")
        elif n not in l:
            c.check(e == RIGHT, "only on the right", key="right")
        else:
            same = c.eq(l[n], r[n])
            c.check(c.iff(e == SAME, same), "same contents",
                    key="contents")
            c.check(c.iff(e == DIFF, c.not_(same)), "differing contents",
                    key="contents")


def clash(c):
    """ a file where the other side has a directory """
    fs = c.fs()
    flip = c.choose("flip", (False, True))
    fs.put(("r/" if flip else "l/") + "x", c.bytes("d", 1))
    fs.put(("l/" if flip else "r/") + "x/y", c.bytes("e", 1))
    inside = c.choose("inside", (False, True))
    fs.put("l/k/z" if inside else "l/z", b"z")
    fs.put("r/k/z" if inside else "r/z", b"z")
    got = sorted(compare(fs.path("l"), fs.path("r")))
    z = "k/z" if inside else "z"
    c.check(got == sorted([(RIGHT if flip else LEFT, "x"),
                           (LEFT if flip else RIGHT, "x/y"), (SAME, z)]),
            "a file on one side, a directory on the other", key="clash")
    c.cover("clash")


def bare(c):
    """ directories without files have nothing to report """
    fs = c.fs()
    for s in "lr":
        fs.mkdir(s)
        if c.choose("empty " + s, (False, True)):
            fs.mkdir(s + "/e/f")
    fs.put("l/a", b"1")
    got = list(compare(fs.path("l"), fs.path("r")))
    c.check(got == [(LEFT, "a")], "only files are reported")
    c.cover("bare")


def gathered(c):
    """ the events sorted into lists """
    fs = c.fs()
    fs.mkdir("l")
    fs.mkdir("r")
    l, r = {}, {}
    for i, rel in enumerate(("a", "d/b")):
        k = c.choose("on%d" % i, ("both", "left", "right"))
        if k != "right":
            l[rel] = c.bytes("l%d" % i, 1)
            fs.put("l/" + rel, l[rel])
        if k != "left":
            r[rel] = c.bytes("r%d" % i, 1)
            fs.put("r/" + rel, r[rel])
    a, b = fs.path("l"), fs.path("r")
    added, removed, altered, same = collect_compare(a, b)
    partition(c, [(RIGHT, n) for n in added] + [(LEFT, n) for n in removed] +
              [(DIFF, n) for n in altered] + [(SAME, n) for n in same], l, r)
    skip = c.choose("skip", range(4))
    groups = [["x"], ["x"], ["x"], ["x"]]
    groups[skip] = None
    back = collect_compare_into(a, b, *groups)
    for i, x in enumerate((added, removed, altered, same)):
        if i == skip:
            c.check(back[i] is None, "left out when not wanted")
        else:
            c.check(back[i] == ["x"] + x, "appended to the lists given")
    c.cover("gathered")


def cases_compare(tier):
    out = []
    for p in sorted(PLACES):
        out.append({"name": "trees/" + p, "fn": "trees", "weight": 9,
                    "params": {"places": p, "size": (1,)}})
    out.append({"name": "sizes/flat", "fn": "trees", "weight": 9,
                "params": {"places": "flat", "size": (0, 1, 2)}})
    out.append({"name": "mtimes/flat", "fn": "trees", "weight": 9,
                "params": {"places": "flat", "size": (1,),
                           "mtimes": True}})
    if tier == "thorough":
        for p in ("deep", "two", "odd"):
            out.append({"name": "all/" + p, "fn": "trees", "weight": 20,
                        "params": {"places": p, "size": (0, 1, 2),
                                   "mtimes": True}})
    out.append({"name": "clash", "fn": "clash", "params": {}})
    out.append({"name": "bare", "fn": "bare", "params": {}})
    out.append({"name": "gathered", "fn": "gathered", "weight": 3,
                "params": {}})
    return out


# ---------------------------------------------------------------------

COPIES = {
    "empty": [],
    "flat": ["a", "b"],
    "deep": ["d/a", "d/e/b", "d/e/f/c"],
    "bare": ["a", "d/e/"],
    "same": ["d/d", "d2/d/d", "d2/d3/d"],
    "hidden": [".a", ".d/b", "e~/.c", ".f/"],
    "cased": ["a", "A", "D/a", "d/a"],
    "globs": ["[a]", "*", "#a#/? b", "CVS/"],
}


def copying(c, what, exists):
    """ a copy holds what the original does """
    fs = c.fs()
    fs.mkdir("from")
    data = {}
    dirs = []
    for i, rel in enumerate(COPIES[what]):
        if rel[-1] == "/":
            fs.mkdir("from/" + rel[:-1])
            dirs.append(rel[:-1])
        else:
            data[rel] = c.bytes("d%d" % i, 2)
            fs.put("from/" + rel, data[rel])
    kept = {}
    if exists:
        kept = {"kept": b"k"}
        fs.put("to/x/kept", b"k")
    got = copydir(fs.path("from"), fs.path("to/x"))
    c.check(fs.tree("to/x") == sorted(list(data) + list(kept)),
            "the same files", key="files")
    for rel, d in data.items():
        c.check(c.eq(fs.get("to/x/" + rel), d), "the same contents",
                key="contents")
        c.check(c.eq(fs.get("from/" + rel), d), "originals stay as is")
    for rel in dirs:
        c.check(fs.exists("to/x/" + rel), "directories are there",
                key="dirs")
    c.check(sorted(got) == sorted([(fs.path("from/" + rel),
                                    fs.path("to/x/" + rel))
                                   for rel in data]),
            "what was copied is listed", key="listed")
    c.cover("copying")


def making(c):
    fs = c.fs()
    rel = c.choose("rel", ("a", "a/b", "a/b/c", "f"))
    fs.mkdir("a")
    makedirsp(fs.path(rel))
    makedirsp(fs.path(rel))
    makedirsp("")
    c.check(fs.exists(rel), "made, or left as is")
    c.cover("making")


class Thing(object):

    def __init__(self):
        self.closed = 0
        self.answer = None

    def close(self):
        self.closed += 1
        return self.answer


class Managed(Thing):

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def closes(c):
    """ what is opened gets closed, once """
    t = c.choose("kind", (Thing, Managed))()
    t.answer = c.choose("answer", (None, True, False, 0, 1, "x"))
    fail = c.bool("fails")
    ok = True
    try:
        with closing(t) as x:
            c.check(x is t, "the very thing")
            c.check(t.closed == 0, "open within")
            if fail:
                raise KeyError("x")
    except KeyError:
        ok = False
    c.check(t.closed == 1, "closed after", key="closed")
    c.check(ok != c.decide(fail), "errors get through", key="errors")
    c.check(closing(None) is None, "nothing to close")
    with ClosingContext(None) as x:
        c.check(x is None, "nothing to close")
    c.cover("closes")


def cases_copy(tier):
    out = []
    for w in sorted(COPIES):
        for e in (False, True):
            out.append({"name": "copy/%s/%s" % (w, e), "fn": "copying",
                        "params": {"what": w, "exists": e}})
    out.append({"name": "making", "fn": "making", "params": {}})
    out.append({"name": "closes", "fn": "closes", "params": {}})
    return out


# ---------------------------------------------------------------------
# patterns

PATTERNS = ("*", "?", "a", "a*", "*a", "*.a", "?b*", "[ab]", "[!ab]*",
            "[a-c]?", "*/a", "a/*", "*a*b", "[", "[]a]", "a[", "**", "",
            None, "[!]]", "*[.]?", "A", "[b-a]", "a[b]", "[[]a", "*.A", "[A-B]*",
            "\\a", "?", " a", ".*", "[!A]", "a]", "[a-]", "-[*]")


def glob(c, s, p):
    """ does all of s match p: decided character by character """
    if not p:
        return len(s) == 0
    if p[0] == "*":
        return any([glob(c, s[i:], p[1:]) for i in range(len(s) + 1)])
    if not len(s):
        return False
    ch = s[0]
    if p[0] == "?":
        return glob(c, s[1:], p[1:])
    if p[0] == "[":
        j = 1
        neg = p[j:j + 1] == "!"
        if neg:
            j += 1
        k = p.find("]", j + 1)
        if k > 0:
            members = p[j:k]
            hit = False
            i = 0
            while i < len(members):
                if members[i + 1:i + 2] == "-" and i + 2 < len(members):
                    if members[i] <= ch and ch <= members[i + 2]:
                        hit = True
                    i += 3
                else:
                    if ch == members[i]:
                        hit = True
                    i += 1
            return hit != neg and glob(c, s[1:], p[k + 1:])
    return bool(ch == p[0]) and glob(c, s[1:], p[1:])


def patterns(c, n, k, least=0):
    s = c.str("entry", n, ((10, 10), (32, 33), (42, 42), (45, 47),
                           (63, 63), (65, 66), (91, 93), (97, 99)))
    ps = [c.choose("p%d" % i, [p for p in PATTERNS if
                               not least or p and len(p) >= least])
          for i in range(k)]
    got = fnmatches(s, *ps)
    want = any([glob(c, s, p) for p in ps if p])
    c.check(c.iff(got, want), "matches one of the patterns",
            key="patterns")
    c.observe("got", bool(got))
    c.cover("patterns")


def cases_globs(tier):
    out = []
    for n in range(4 if tier == "quick" else 5):
        out.append({"name": "one/%d" % n, "fn": "patterns",
                    "weight": 3 ** n, "params": {"n": n, "k": 1}})
    for n in range(2 if tier == "quick" else 3):
        out.append({"name": "two/%d" % n, "fn": "patterns",
                    "weight": 3 ** n, "params": {"n": n, "k": 2}})
    # as long as the pattern
    for n in (4, 5):
        out.append({"name": "long/%d" % n, "fn": "patterns", "weight": 99,
                    "params": {"n": n, "k": 1, "least": n}})
    out.append({"name": "none", "fn": "patterns",
                "params": {"n": 1, "k": 0}})
    return out


PROPS = {
    "P29": {
        "cases": cases_compare,
        "covers": ("trees", "clash", "bare", "gathered"),
        "bounds": {"quick": "up to 4 files at places up to two directories "
                            "deep, on either or both sides, of unknown "
                            "contents of up to 2 bytes and times",
                   "thorough": "all sizes and times at once"},
    },
    "P36": {
        "cases": cases_globs, "covers": ("patterns",),
        "bounds": {"quick": "names of up to 3 unknown characters, or as many "
                            "as the pattern has, up to two of 41 patterns",
                   "thorough": "names of up to 4 characters"},
    },
    "P37": {
        "cases": cases_copy, "covers": ("copying", "making", "closes"),
        "bounds": {"quick": "trees of up to 3 files up to three "
                            "directories deep, unknown contents",
                   "thorough": "the same"},
    },
}
