"""
Comparison of two distributions.
"""

import json

from javatools.distdiff import (
    cli_dist_diff, create_optparser, main, DistChange)

from symx import sched

from .h_diff import blank, field, write
from .h_jar import flat, formats, options, reported      # noqa: F401


NAMES = {
    "class": ("B.class", "d/e/C.class", ".d/B$1.class", "d-1/.class"),
    "jar": ("x.jar", "lib/x.war", ".lib/x-1.0.jar", "x.y/.ear"),
    "text": ("x.txt", "etc/x.properties", ".etc/a b.xml"),
    "manifest": ("MANIFEST.MF", "META-INF/MANIFEST.MF",
                 ".d/x.jar/MANIFEST.MF"),
    "other": ("x.bin", "d/Makefile", "x.jar.bak", ".x", "[x]*",
              "class"),
}

SUFFIXES = {
    "jar": ["a.%s" % s for s in ("ear", "jar", "rar", "sar", "war")],
    "text": ["d/a.%s" % s for s in (
        "bat", "cert", "cfg", "conf", "dtd", "html", "ini", "properties",
        "sh", "text", "txt", "xml")],
    "other": ["a.%s" % s for s in ("java", "zip", "md", "MF", "xmlx")],
}

LABELS = {
    "class": ("Distributed Java Class Added",
              "Distributed Java Class Removed", "Distributed Java Class"),
    "jar": ("Distributed JAR Added", "Distributed JAR Removed",
            "Distributed JAR"),
    "text": ("Distributed Content Added", "Distributed Content Removed",
             "Distributed Text"),
    "manifest": ("Distributed Content Added", "Distributed Content Removed",
                 "Distributed Manifest"),
    "other": ("Distributed Content Added", "Distributed Content Removed",
              "Distributed Content"),
}


def content(c, fs, tag, kind):
    """ (contents, what of it counts, and the bytes as far as these can
    be told apart) """
    if kind == "class":
        s = blank()
        s["methods"] = []
        f = c.str(tag + "f", 1, ((97, 122),))
        s["fields"] = [field(f, "I")]
        how = c.choose(tag + "how", ("plain", "source"))
        if how == "source":
            # something that no option shows
            s["inv"] = []
            s["ifs"] = []
        else:
            s["ifs"] = []
        d = write(s, "plain")
        return d, f, d
    if kind == "jar":
        d = c.bytes(tag + "d", 1)
        es = [("e", d), ("x", b"x")]
        how = c.choose(tag + "how", (0, 1))
        if how:
            es.reverse()
        return fs.zipbytes(es), d, (d, how)
    if kind == "manifest":
        v = c.str(tag + "v", 1, ((97, 122),))
        how = c.choose(tag + "how", ("\r\n", "\n"))
        d = ("Manifest-Version: 1.0\nKey: " + v + "\n\n").replace(
            "\n", how).encode("ascii")
        return d, v, d
    d = c.bytes(tag + "d", c.choose(tag + "n", (0, 1)),
                ((97, 122), (233, 233)) if kind == "text" else None)
    return d, d, d


def make(c, kinds, names=None, pool=None):
    """ two distributions; (left, right, [(name, kind, state)]) """
    fs = c.fs()
    fs.mkdir("l")
    fs.mkdir("r")
    fs.put("l/same.txt", b"same")
    fs.put("r/same.txt", b"same")
    out = []
    for i, kind in enumerate(kinds):
        name = c.choose("name%d" % i, pool or NAMES[kind][:names] if
                        pool or names or
                        len(kinds) == 1 else NAMES[kind][:2])
        for n, _k, _s in out:
            c.assume(n != name)
        where = c.choose("on%d" % i, ("both", "left", "right"))
        if where != "right":
            ld, lv, lb = content(c, fs, "l%d" % i, kind)
            fs.put("l/" + name, ld)
        if where != "left":
            rd, rv, rb = content(c, fs, "r%d" % i, kind)
            fs.put("r/" + name, rd)
        out.append((name, kind, where if where != "both" else
                    (c.decide(c.eq(lv, rv)), c.decide(c.eq(lb, rb)))))
    return fs.path("l"), fs.path("r"), out


def is_change(w, shallow=False):
    name, kind, state = w
    return state in ("left", "right") or not state[shallow]


def describe(w, shallow=False):
    name, kind, state = w
    a, r, ch = LABELS["other" if shallow else kind]
    if state == "left":
        return "%s: %s" % (r, name)
    if state == "right":
        return "%s: %s" % (a, name)
    if not is_change(w, shallow):
        return "%s is unchanged: %s" % (ch, name)
    return "%s has changed: %s" % (ch, name)


def ignored(w, args):
    name = w[0]
    for a in args:
        if a == "--ignore-filenames=" + name or \
                a == "--ignore-filenames=*.bin" and name.endswith(".bin"):
            return True
    return False


def judge(c, args, l, r, want, shallow, key=""):
    changed = [w for w in want if is_change(w, shallow)]
    counts = [w for w in changed if not ignored(w, args)]
    st, out = c.output(main, ["distdiff"] + args + [l, r])
    c.check(st == (1 if counts else 0), "exit status", key=key + "status")
    for w in want:
        if w in counts:
            c.check(describe(w, shallow) + "\n" in out,
                    "the change is told", key=key + "told")
        else:
            c.check(": " + w[0] + "\n" not in out,
                    "unchanged and ignored ones are not",
                    key=key + "hidden")
    c.check("same.txt" not in out, "unchanged ones are not", key="hidden")
    st, jout = c.output(main, ["distdiff", "--json"] + args + [l, r])
    c.check(st == (1 if counts else 0), "exit status with JSON",
            key=key + "status")
    rep = json.loads(jout)["report"]
    c.check(rep["is_change"] is bool(changed), "is there a change",
            key="json change")
    c.check(rep["is_ignored"] is bool(changed and not counts),
            "is it to be ignored", key="json ignored")
    if counts:
        told = [d["entry"] for d in rep["children"]]
        c.check(sorted(told) == sorted([w[0] for w in counts]),
                "changes in JSON", key="json entries")
    if not args:
        st, all_ = c.output(main, ["distdiff", "--show-unchanged", l, r])
        for w in want:
            c.check(describe(w, shallow) + "\n" in all_,
                    "unchanged ones are told when asked for",
                    key=key + "unchanged")
    st, none = c.output(main, ["distdiff", "-q"] + args + [l, r])
    c.check(st == (1 if counts else 0) and none == "", "quiet",
            key=key + "status")
    c.observe("out", out.replace(l, "L").replace(r, "R"))


def compared(c, kinds, opts):
    """ the exit status and the report """
    l, r, want = make(c, kinds)
    args = []
    for n in opts:
        args += options(c, n)
    judge(c, args, l, r, want, "--shallow" in args)
    c.cover("compared")


def classified(c, kinds, shallow, pool=None):
    """ each file gives one change, of its kind """
    l, r, want = make(c, kinds, pool=SUFFIXES[pool] if pool else None)
    d = DistChange(l, r, shallow)
    d.check()
    got = list(d.collect())
    names = [x.entry for x in got]
    c.check(sorted(names) == sorted(["same.txt"] + [w[0] for w in want]),
            "one change for each file", key="entries")
    for w in want:
        x = got[names.index(w[0])]
        c.check(x.is_change() is is_change(w, shallow), "is it a change",
                key="changed")
        c.check(x.get_description() == describe(w, shallow),
                "its description", key="description")
    c.check(d.is_change() is any([is_change(w, shallow) for w in want]),
            "changed as its files are", key="dist")
    c.cover("classified")


def trailing(c, n, k, name):
    """ trailing whitespace of text files can be ignored """
    fs = c.fs()
    ws = ((32, 32), (9, 10), (13, 13), (97, 97))
    if k:
        # a known line before
        pre = c.choose("pre", (b"a\n", b"a\r\n", b"\xe9\n"))
        other = c.choose("other", (b"a\n", b"a \n", b"\xe9\n"))
    else:
        pre = other = b""
    ld, rd = c.bytes("l", n, ws), c.bytes("r", c.choose("n", range(n + 1)),
                                          ws)
    fs.put("l/" + name, pre + ld)
    fs.put("r/" + name, other + rd)
    on = c.choose("on", (False, True))
    args = ["--ignore-trailing-whitespace"] if on else []
    same = c.eq(pre + ld, other + rd)
    text = name.endswith(".txt")

    def lines(d):
        out = [x.rstrip(b" \t\r") for x in d.split(b"\n")]
        while out and out[-1] == b"":
            out.pop()
        return out

    if on and text:
        # a lone CR ends a line as well, or is space within it
        a, b = lines(pre + ld), lines(other + rd)
        if b"\r" in pre + ld + other + rd:
            c.assume(pre + ld == (pre + ld).replace(b"\r", b"") or
                     (pre + ld).replace(b"\r\n", b"").find(b"\r") < 0)
            c.assume((other + rd).replace(b"\r\n", b"").find(b"\r") < 0)
        same = len(a) == len(b) and all([x == y for x, y in zip(a, b)])
    st, out = c.output(main, ["distdiff"] + args +
                       [fs.path("l"), fs.path("r")])
    c.check(c.iff(st == 0, same), "exit status", key="whitespace")
    c.check(st in (0, 1), "exit status")
    c.observe("st", st)
    c.cover("trailing")


def dist_reported(c, kinds, processes):
    """ reports in files, one for each class and archive that differs """
    fs = c.fs()
    l, r, want = make(c, kinds, None if len(kinds) == 1 else 1)
    args = options(c, "--ignore-filenames=" + NAMES[kinds[0]][0])
    changed = [w for w in want if is_change(w)]
    counts = [w for w in changed if not ignored(w, args)]
    args += ["--report=json", "--report=txt", l, r]
    fs.mkdir("out")
    if len(kinds) == 1 and c.choose("here", (False, True)):
        fs.chdir("out")
    else:
        args += ["--report-dir=" + fs.path("out")]
    if len(kinds) == 1 and c.choose("before", (False, True)):
        # reports of an earlier comparison
        for f in ("DistReport.json", "DistReport.text"):
            fs.put("out/" + f, b"old\n" * 1000)
        for w in changed:
            if w[1] in ("class", "jar") and w[2] not in ("left", "right"):
                top = {"class": "JavaClassReport", "jar": "JarReport"}[w[1]]
                for f in (".json", ".text"):
                    fs.put("out/" + w[0] + "/" + top + f, b"old\n" * 1000)
    with sched.Patched(c, None, 0) as s:
        st, out = c.output(main, ["distdiff", "--processes=%d" % processes]
                           + args)
        s.finish()
    c.check(st == (1 if counts else 0), "exit status", key="status")
    files = ["DistReport.json", "DistReport.text"]
    for w in want:
        if w[1] not in ("class", "jar") or w[2] in ("left", "right") or \
                w[2][1]:
            continue
        top = {"class": "JavaClassReport", "jar": "JarReport"}[w[1]]
        files += [w[0] + "/" + top + ".json", w[0] + "/" + top + ".text"]
        sub = json.loads(fs.get("out/" + files[-2]).decode("utf-8"))
        text = fs.get("out/" + files[-1]).decode("utf-8")
        c.check(sub["report"]["is_change"] is is_change(w),
                "the report of its own", key="sub report")
        if w not in changed:
            c.check("changed" not in text, "nothing changed in it",
                    key="sub report")
        elif w[1] == "class":
            told = [d["class"] for d in flat(sub["report"])]
            c.check("FieldAdded" in told and "FieldRemoved" in told,
                    "what changed in the class", key="sub report")
            c.check("Field added" in text and "Field removed" in text,
                    "what changed in the class", key="sub report")
        else:
            told = [d["entry"] for d in flat(sub["report"]) if "entry" in d]
            c.check("e" in told, "what changed in the jar",
                    key="sub report")
            c.check("Jar Generic File has changed: e\n" in text,
                    "what changed in the jar", key="sub report")
    c.check(fs.tree("out") == sorted(files), "the reports written",
            key="files")
    text = fs.get("out/DistReport.text").decode("utf-8")
    rep = json.loads(fs.get("out/DistReport.json").decode("utf-8"))["report"]
    c.check(rep["is_change"] is bool(changed), "is there a change",
            key="json change")
    told = [d["entry"] for d in flat(rep) if "entry" in d]
    for w in want:
        if w in counts:
            c.check(describe(w) + "\n" in text, "the change is told",
                    key="told")
            c.check(describe(w) + "\n" in out, "the change is printed",
                    key="told")
            c.check(w[0] in told, "the change is in JSON", key="told")
        else:
            c.check(": " + w[0] + "\n" not in text, "others are not",
                    key="hidden")
    c.observe("out", out.replace(l, "L").replace(r, "R"))
    c.cover("reported")


def cases_reports(tier):
    out = [{"name": "formats/%d" % n, "fn": "formats", "params": {"n": n}}
           for n in (0, 1, 2, 3)]
    for ks in (["class"], ["other"], ["sf", "class"], ["manifest"],
               ["class", "class"]):
        out.append({"name": "reported/" + "-".join(ks), "fn": "reported",
                    "weight": 4 * len(ks), "params": {"kinds": ks}})
    for ks, n in ((["class"], 0), (["jar"], 0), (["manifest", "class"], 0),
                  (["jar", "class"], 0), (["other", "manifest"], 0),
                  (["jar"], 1), (["class", "class"], 0)):
        out.append({"name": "dist/%s/%d" % ("-".join(ks), n),
                    "fn": "dist_reported", "weight": 4 * len(ks),
                    "params": {"kinds": ks, "processes": n}})
    return out


def cases_dist(tier):
    out = []
    for k in sorted(NAMES):
        for s in (False, True):
            out.append({"name": "classified/%s/%s" % (k, s),
                        "fn": "classified",
                        "params": {"kinds": [k], "shallow": s}})
        out.append({"name": "compared/" + k, "fn": "compared", "weight": 3,
                    "params": {"kinds": [k], "opts": [
                        "--shallow", "--ignore-filenames=" + NAMES[k][0]]}})
    for k in sorted(SUFFIXES):
        out.append({"name": "suffixes/" + k, "fn": "classified",
                    "params": {"kinds": [k], "shallow": False, "pool": k}})
    out.append({"name": "compared/several", "fn": "compared", "weight": 3,
                "params": {"kinds": ["other"], "opts": [
                    "--ignore-filenames=" + n for n in (
                        "none", "*.bin", "nope*", "d/Makefile")]}})
    for a, b in (("class", "other"), ("jar", "text"), ("manifest", "other")):
        out.append({"name": "compared/%s-%s" % (a, b), "weight": 6,
                    "fn": "compared", "params": {
                        "kinds": [a, b], "opts": [
                            "--ignore-filenames=*.bin"]}})
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append({"name": "trailing/%d" % n, "fn": "trailing",
                    "weight": 3 ** n, "params": {"n": n, "k": 0,
                                                 "name": "x.txt"}})
    out.append({"name": "trailing/lines", "fn": "trailing", "weight": 9,
                "params": {"n": 1, "k": 1, "name": "x.txt"}})
    out.append({"name": "trailing/other", "fn": "trailing", "weight": 3,
                "params": {"n": 1, "k": 0, "name": "x.bin"}})
    return out


PROPS = {
    "P31": {
        "cases": cases_dist,
        "covers": ("classified", "compared", "trailing"),
        "bounds": {"quick": "up to 2 files of each kind, on either or both "
                            "sides, with unknown contents, and one that is "
                            "the same; shallow and ignore options",
                   "thorough": "text of up to 3 unknown bytes"},
    },
    "P39": {
        "cases": cases_reports, "covers": ("reported", "formats"),
        "bounds": {"quick": "jars and distributions of up to 2 entries, text "
                            "and JSON reports",
                   "thorough": "the same"},
    },
}
