"""
Comparison of two distributions by several processes.
"""

import json

from javatools.distdiff import main
from symx import sched

from .h_diff import blank, field, write


def klass(name):
    s = blank()
    s["methods"] = []
    s["fields"] = [field(name, "I")]
    return write(s, "plain")


def plant(c, fs, kinds, n):
    """ files that differ in ways that need a report of their own """
    fs.mkdir("l")
    fs.mkdir("r")
    for i, k in enumerate(kinds):
        # the first one holds something unknown
        old, new = ("f", c.str("new", 1, ((102, 103),))) if i == n else \
            ("f", "g")
        if k == "class":
            a, b, name = klass(old), klass(new), "d/K%d.class" % i
        elif k == "jar":
            name = "j%d.jar" % i
            a = fs.zipbytes([("e", old.encode("ascii"))])
            b = fs.zipbytes([("e", new.encode("ascii"))])
        elif k == "deep":
            name = "j%d.jar" % i
            a = fs.zipbytes([("e", b"e"), ("a/B.class", klass(old))])
            b = fs.zipbytes([("e", b"e"), ("a/B.class", klass(new))])
        elif k == "bad":
            a, b = klass(old), klass("g")[:9]
            name = "d/K%d.class" % i
        elif k == "added":
            fs.put("r/new%d.class" % i, klass(new))
            continue
        else:
            a, b = old.encode("ascii"), new.encode("ascii")
            name = "t%d.txt" % i
        fs.put("l/" + name, a)
        fs.put("r/" + name, b)


def args_of(fs, where, n, args):
    return ["distdiff", "--report=text,json", "--processes=%d" % n,
            "--report-dir=" + fs.path(where)] + args + \
        [fs.path("l"), fs.path("r")]


def together(c, c2, fs, n, args, mkdirs, where="par"):
    """ the outcome of a parallel run: status, output, or an error """
    with sched.Patched(c, fs if mkdirs else None, mkdirs) as s:
        try:
            try:
                r = c.output(main, args_of(fs, where, n, args))
            except Exception as ex:     # pylint: disable=broad-except
                r = type(ex).__name__
            s.finish()
            return r
        except sched.Deadlock:
            return None


def parallel(c, kinds, n, args=(), mkdirs=0, unknown=0):
    """ as many processes as you like give what one does """
    fs = c.fs()
    plant(c, fs, kinds, unknown)
    args = list(args)
    try:
        want = c.output(main, args_of(fs, "seq", 0, args))
    except Exception as ex:     # pylint: disable=broad-except
        want = type(ex).__name__
    got = together(c, c, fs, n, args, mkdirs)
    c.check(got is not None, "it comes to an end", key="end")
    if isinstance(want, str):
        c.check(isinstance(got, str), "what fails, fails", key="fails")
        c.cover("failing")
        return
    c.check(not isinstance(got, str), "what does not fail, does not",
            key="fails")
    c.check(got[0] == want[0], "the same exit status", key="status")
    a, b = want[1], got[1]
    if "--json" in args:
        # this also tells the options
        a, b = json.loads(a)["report"], json.loads(b)["report"]
    c.check(c.eq(a, b), "the same output", key="output")
    c.check(fs.tree("par") == fs.tree("seq"), "the same reports",
            key="files")
    for rel in fs.tree("seq"):
        a, b = fs.get("seq/" + rel), fs.get("par/" + rel)
        if rel.endswith(".json"):
            a = json.loads(a.decode("utf-8"))["report"]
            b = json.loads(b.decode("utf-8"))["report"]
        c.check(c.eq(a, b), "the reports tell the same", key="contents")
    c.observe("status", want[0])
    c.cover("parallel")


def cases(tier):
    out = []

    def add(kinds, n, args=(), mkdirs=0, unknown=0):
        out.append({"name": "%s/%d%s%s" % (
            "-".join(kinds), n, "/mkdir%d" % mkdirs if mkdirs else "",
            "".join(args)), "fn": "parallel", "weight": n * len(kinds),
            "params": {"kinds": list(kinds), "n": n, "args": list(args),
                       "mkdirs": mkdirs, "unknown": unknown}})
    add((), 1)
    add((), 2)
    add(("text",), 2)
    add(("class",), 1)
    add(("jar",), 2)
    add(("class", "class"), 1)
    add(("class", "class"), 2)
    add(("class", "jar"), 2)
    add(("deep", "class"), 2)
    add(("text", "class", "added", "jar"), 2, unknown=1)
    add(("class", "jar"), 2, mkdirs=2)
    add(("bad",), 1)
    add(("bad", "class"), 2, unknown=1)
    add(("class", "class"), 2, ("--ignore-filenames=*.class",))
    add(("class", "jar"), 2, ("--json",))
    add(("class", "jar", "class"), 2)
    add(("class", "jar", "class"), 3)
    add(("class", "class", "jar", "class"), 2)
    add(("class", "jar", "class"), 8)
    if tier == "thorough":
        add(("class", "class", "jar", "class", "text", "class"), 3)
        add(("class", "jar", "deep"), 3, mkdirs=1)
        add(("class", "class"), 2, mkdirs=4)
        add(("class", "deep", "bad", "class"), 3)
    return out


PROPS = {
    "P32": {
        "cases": cases, "covers": ("parallel", "failing"),
        "bounds": {"quick": "up to 4 sub-reports and 3 processes (or 8), every "
                            "order in which these go on and in which "
                            "results arrive; up to 2 preemptions before "
                            "making directories",
                   "thorough": "up to 5 sub-reports; up to 4 preemptions"},
    },
}
