"""
Comparison of two jars.
"""

import json

from javatools.jardiff import (
    cli_jars_diff, create_optparser, main, JarChange, JarContentsChange)

from .h_diff import blank, field, write


# ---------------------------------------------------------------------
# kinds of entries: what names them, and what may be in them

CLASS = "a/B.class"
MF = "META-INF/MANIFEST.MF"

NAMES = {
    "class": ("a/B.class", "C.class", "a/B$1.class", ".a/1 b.class",
              "META-INF/versions/9/module-info.class", "a/..class"),
    "manifest": ("META-INF/MANIFEST.MF",),
    "sf": ("META-INF/K.SF", "META-INF/k.sf", "META-INF/A.B-1.SF"),
    "block": ("META-INF/K.RSA", "META-INF/K.DSA", "META-INF/K.EC",
              "META-INF/SIG-K", "META-INF/A.B-1.RSA"),
    "other": ("x.txt", "META-INF/services/q", "META-INF/d/K.SF", "K.RSA",
              "B.clazz", ".x", "a b/c#1", "class", "[x]*", "x.class.txt",
              "sub/META-INF/MANIFEST.MF"),
    "dir": ("d/", ".d/", "d.class/"),
}


def klass(c, tag, kind):
    s = blank()
    s["methods"] = []
    s["fields"] = [field(c.str(tag + "f", 1, ((97, 122),)), "I")]
    if kind == "layout":
        return write(s, "shift")
    return write(s, "plain")


def content(c, tag, kind):
    """ (contents, what of it counts) """
    if kind == "class":
        s = blank()
        s["methods"] = []
        f = c.str(tag + "f", 1, ((97, 122),))
        s["fields"] = [field(f, "I")]
        return write(s, "plain"), f
    if kind in ("manifest", "sf"):
        v = c.str(tag + "v", 1, ((97, 122),))
        head = "Manifest-Version: 1.0\r\n" if kind == "manifest" else \
            "Signature-Version: 1.0\r\n"
        return (head + "Key: " + v + "\r\n\r\n").encode("ascii"), v
    if kind == "dir":
        return b"", b""
    d = c.bytes(tag + "d", 1)
    return d, d


def options(c, *names):
    return [n for n in names if c.choose(n, (False, True))]


def ignored(name, kind, args):
    """ does the command line ask to ignore any change of this entry """
    for a in args:
        if a == "--ignore-jar-entry=" + name:
            return True
        if a == "--ignore-jar-entry=META-INF/*" and \
                name.startswith("META-INF/"):
            return True
        if a == "--ignore-jar-signature" and kind in ("sf", "block"):
            return True
    return False


LABELS = {
    "class": ("Java Class Added", "Java Class Removed", "Java Class"),
    "manifest": ("Jar Content Added", "Jar Content Removed",
                 "Jar Manifest"),
    "sf": ("Jar Signature File Added", "Jar Signature File Removed",
           "Jar Signature File"),
    "block": ("Jar Signature Block File Added",
              "Jar Signature Block File Removed",
              "Jar Signature Block File"),
    "other": ("Jar Content Added", "Jar Content Removed",
              "Jar Generic File"),
    "dir": ("Jar Content Added", "Jar Content Removed", ""),
}


def make(c, kinds, exploded=False, few=3):
    """ two jars; (left, right, [(name, kind, state)]), where state is
    left, right, or whether the contents count as the same """
    fs = c.fs()
    l, r, out = [], [], []
    for i, kind in enumerate(kinds):
        name = c.choose("name%d" % i, NAMES[kind] if len(kinds) == 1 else
                        NAMES[kind][:few])
        for n, _k, _s in out:
            c.assume(n != name)
        where = c.choose("on%d" % i, ("both", "left", "right"))
        if where != "right":
            ld, lv = content(c, "l%d" % i, kind)
            l.append((name, ld))
        if where != "left":
            rd, rv = content(c, "r%d" % i, kind)
            r.append((name, rd))
        out.append((name, kind, where if where != "both" else
                    c.decide(c.eq(lv, rv))))
    l.append(("same", b"same"))
    r.append(("same", b"same"))
    if exploded:
        fs.mkdir("l.jar")
        ups = []
        for n, _d in l:
            parts = n.split("/")
            for i in range(1, len(parts)):
                up = "/".join(parts[:i]) + "/"
                if up != n and up not in ups:
                    ups.append(up)
        r += [(n, b"") for n in ups if not any([n == x for x, _d in r])]
        for n, d in l:
            if n.endswith("/"):
                fs.mkdir("l.jar/" + n[:-1])
            else:
                fs.put("l.jar/" + n, d)
        return fs.path("l.jar"), fs.zip("r.jar", r), out
    return fs.zip("l.jar", l), fs.zip("r.jar", r), out


def flat(d):
    """ descriptions within a JSON report """
    out = [d]
    for x in d.get("children", ()):
        out += flat(x)
    return out


def describe(name, kind, state):
    a, r, ch = LABELS[kind]
    if state == "left":
        return "%s: %s" % (r, name)
    if state == "right":
        return "%s: %s" % (a, name)
    if state:
        return "%s is unchanged: %s" % (
            ch if kind != "other" else "Jar Content", name)
    return "%s has changed: %s" % (ch, name)


def compared(c, kinds, opts):
    """ the exit status and the report """
    l, r, want = make(c, kinds)
    args = []
    for n in opts:
        args += options(c, n)
    changed = [w for w in want if w[2] is not True and
               not (w[1] == "dir" and w[2] not in ("left", "right"))]
    counts = [w for w in changed if not ignored(w[0], w[1], args)]
    st, out = c.output(main, ["jardiff"] + args + [l, r])
    c.check(st == (1 if counts else 0), "exit status", key="status")
    for name, kind, state in want:
        text = None
        if state is not True:
            text = describe(name, kind, state)
        if text and (name, kind, state) in counts:
            c.check(text + "\n" in out, "the change is told", key="told")
        elif text:
            c.check(text + "\n" not in out, "ignored ones are not",
                    key="hidden")
        else:
            c.check(": " + name + "\n" not in out, "nor unchanged ones",
                    key="hidden")
    c.check("same\n" not in out, "nor unchanged ones", key="hidden")
    st, jout = c.output(main, ["jardiff", "--json"] + args + [l, r])
    c.check(st == (1 if counts else 0), "exit status with JSON",
            key="status")
    rep = json.loads(jout)["report"]
    c.check(rep["is_change"] is bool(changed), "is there a change",
            key="json change")
    c.check(rep["is_ignored"] is bool(changed and not counts),
            "is it to be ignored", key="json ignored")
    if counts:
        told = [d for d in flat(rep) if "entry" in d]
        c.check(sorted([d["entry"] for d in told]) ==
                sorted([w[0] for w in counts]), "changes in JSON",
                key="json entries")
    if not args:
        st, all_ = c.output(main, ["jardiff", "--show-unchanged", l, r])
        for w in want:
            if w[1] != "dir":
                c.check(describe(*w) + "\n" in all_,
                        "unchanged ones are told when asked for",
                        key="unchanged")
    st, _o = c.output(main, ["jardiff", "-q"] + args + [l, r])
    c.check(st == (1 if counts else 0) and _o == "", "quiet")
    c.observe("out", out)
    c.cover("compared")


def classified(c, kinds, exploded=False):
    """ each entry gives one change, of its kind """
    l, r, want = make(c, kinds, exploded)
    d = JarChange(l, r)
    d.check()
    typ, cont = d.collect()
    c.check(typ.is_change() is exploded, "kinds of archives", key="type")
    got = list(cont.collect())
    names = [x.entry for x in got]
    exp = [w for w in want if w[1] != "dir" or w[2] in ("left", "right")]
    if exploded:
        # the directories of entries only on the right are not there
        names = [n for n in names if n[-1] != "/" or
                 any([n == w[0] for w in exp])]
        got = [x for x in got if x.entry in names]
    c.check(sorted(names) == sorted(["same"] + [w[0] for w in exp]),
            "one change for each entry", key="entries")
    for name, kind, state in exp:
        x = got[names.index(name)]
        c.check(x.is_change() is (state is not True), "is it a change",
                key="changed")
        text = describe(name, kind, state)
        if kind != "dir" or state is not True:
            c.check(x.get_description() == text, "its description",
                    key="description")
            if kind not in ("dir",) and state is False:
                c.check(len(x.collect()) == 1, "what changed within",
                        key="within")
    c.check(cont.is_change() is any([w[2] is not True for w in exp]),
            "changed as its entries are", key="contents")
    c.check(d.is_change() is (exploded or cont.is_change()),
            "changed as its parts are", key="jar")
    c.cover("classified")


def details(c, kind):
    """ changes within an entry can be ignored """
    fs = c.fs()
    if kind == "class":
        ls, rs = blank(), blank()
        ls["methods"] = rs["methods"] = []
        ls["major"], rs["major"] = c.choose("major", (
            (50, 50), (50, 51), (51, 50)))
        f = "g" if c.choose("field", (False, True)) else "f"
        rs["fields"] = [field(f, "I")]
        ls["fields"] = [field("f", "I")]
        l = [(CLASS, write(ls, "plain"))]
        r = [(CLASS, write(rs, c.choose("layout", ("plain", "shift"))))]
        args = options(c, "--ignore-version-up", "--ignore-platform-up",
                       "--ignore-pool")
        up = ls["major"] < rs["major"]
        down = ls["major"] > rs["major"]
        pool = ls["fields"][0]["name"] != f or l[0][1][8:40] != r[0][1][8:40]
        counts = f == "g" or down or \
            up and "--ignore-version-up" not in args or \
            pool and "--ignore-pool" not in args
    else:
        def mf(side):
            k, v = c.str(side + "k", 1, ((97, 98),)), \
                c.str(side + "v", 1, ((97, 98),))
            sub = c.choose(side + "sub", (None, "x", "y"))
            d = "Manifest-Version: 1.0\r\nA: %s\r\nB: %s\r\n\r\n" % (k, v)
            if sub:
                d += "Name: s\r\nC: %s\r\n\r\n" % sub
            return d.encode("ascii"), k, v, sub
        ld, lk, lv, lsub = mf("l")
        rd, rk, rv, rsub = mf("r")
        l, r = [(MF, ld)], [(MF, rd)]
        args = options(c, "--ignore-manifest",
                       "--ignore-manifest-subsections")
        keys = c.choose("keys", ((), ("A",), ("A", "B"), ("C",), ("a",)))
        args += ["--ignore-manifest-key=" + k for k in keys]
        low = [k.lower() for k in keys]
        counts = "--ignore-manifest" not in args and (
            c.decide(lk != rk) and "a" not in low or
            c.decide(lv != rv) and "b" not in low or
            lsub != rsub and
            "--ignore-manifest-subsections" not in args and
            (lsub is None or rsub is None or "c" not in low))
    st, out = c.output(main, ["jardiff"] + args +
                       [fs.zip("l.jar", l), fs.zip("r.jar", r)])
    c.check(st == (1 if counts else 0), "exit status", key="within " + kind)
    c.observe("out", out)
    c.cover("details")


def sections(c, kind):
    """ what of a manifest or signature file changed """
    fs = c.fs()
    head = "Manifest-Version: 1.0\r\n" if kind == "manifest" else \
        "Signature-Version: 1.0\r\n"

    def side(tag):
        v = c.str(tag + "v", 1, ((97, 98),))
        sub = c.choose(tag + "subs", ((), ("s",), ("t",), ("s", "t")))
        d = head + "A: " + v + "\r\n\r\n"
        vals = []
        for x in sub:
            w = c.str(tag + x, 1, ((97, 98),))
            d += "Name: " + x + "\r\nB: " + w + "\r\n\r\n"
            vals.append(w)
        return d.encode("ascii"), v, sub, vals
    ld, lv, lsub, lvals = side("l")
    rd, rv, rsub, rvals = side("r")
    name = MF if kind == "manifest" else "META-INF/K.SF"
    want = []
    if c.decide(lv != rv):
        want.append("Manifest Main Section has changed")
    for x in ("s", "t"):
        if x in lsub and x in rsub:
            if c.decide(lvals[lsub.index(x)] != rvals[rsub.index(x)]):
                want.append("Manifest Subsection Changed: " + x)
        elif x in lsub:
            want.append("Manifest Subsection Removed: " + x)
        elif x in rsub:
            want.append("Manifest Subsection Added: " + x)
    args = [fs.zip("l.jar", [(name, ld)]), fs.zip("r.jar", [(name, rd)])]
    st, out = c.output(main, ["jardiff"] + args)
    c.check(st == (1 if want else 0), "exit status", key="sections")
    got = [x.strip() for x in out.split("\n")]
    c.check(sorted([x for x in got if x.startswith("Manifest ") and
                    x != "Manifest changed"]) == sorted(want),
            "the sections that changed", key="sections")
    st, out = c.output(main, ["jardiff", "--show-unchanged"] + args)
    got = [x.strip() for x in out.split("\n")]
    for x in ("s", "t"):
        if want and x in lsub and x in rsub:
            c.check(("Manifest Subsection Unchanged: " + x in got) is
                    ("Manifest Subsection Changed: " + x not in want),
                    "the sections that did not", key="sections")
    st, out = c.output(main, ["jardiff", "--json"] + args)
    rep = json.loads(out)["report"]
    if want:
        told = [d["description"] for d in flat(rep) if
                d["class"].startswith("Manifest") and
                d["class"] != "ManifestChange" and d["is_change"]]
        c.check(sorted(told) == sorted(want), "the sections in JSON",
                key="sections")
    c.cover("sections")


FORMATS = {"json": "JSONReportFormat", "txt": "TextReportFormat",
           "text": "TextReportFormat", "html": "CheetahReportFormat",
           "htm": "CheetahReportFormat", "pdf": None}


def formats(c, n):
    """ the formats asked for, however they are named and told """
    from javatools.report import Reporter
    names = [c.choose("f%d" % i, sorted(FORMATS)) for i in range(n)]
    args, last = [], []
    for i, x in enumerate(names):
        last.append(x)
        if i == n - 1 or c.choose("apart%d" % i, (False, True)):
            args.append("--report=" + ",".join(last))
            last = []
    o = create_optparser("jardiff").parse_args(args + ["l", "r"])
    asked = list(getattr(o, "reports", []))
    c.check(asked == names,
            "all of them are asked for", key="asked")
    r = Reporter("out", "JarReport", o)
    r.add_formats_by_name(asked)
    want = sorted(set([FORMATS[x] for x in names if FORMATS[x]]))
    c.check(sorted([x.__name__ for x in r.formats]) == want,
            "the formats", key="formats")
    sub = r.subreporter("a/b", "X")
    c.check(sorted([x.__name__ for x in sub.formats]) == want,
            "the formats of the parts", key="formats")
    c.cover("formats")


def reported(c, kinds):
    """ reports in files tell the same """
    fs = c.fs()
    l, r, want = make(c, kinds)
    args = options(c, "--ignore-jar-signature")
    changed = [w for w in want if w[2] is not True]
    counts = [w for w in changed if not ignored(w[0], w[1], args)]
    fs.mkdir("out")
    if len(kinds) == 1 and c.choose("here", (False, True)):
        where = []
        fs.chdir("out")
    else:
        where = ["--report-dir=" + fs.path("out")]
    if len(kinds) == 1 and c.choose("before", (False, True)):
        # reports of an earlier comparison
        for f in ("JarReport.json", "JarReport.text"):
            fs.put("out/" + f, b"old\n" * 1000)
        for name, kind, state in want:
            if kind == "class" and state is False:
                for f in (".json", ".text"):
                    fs.put("out/" + name + "/JavaClassReport" + f,
                           b"old\n" * 1000)
    st, out = c.output(main, ["jardiff", "--report=text,json"] + where +
                       args + [l, r])
    c.check(st == (1 if counts else 0), "exit status", key="status")
    files = ["JarReport.json", "JarReport.text"]
    for name, kind, state in want:
        if kind == "class" and state is False:
            files += [name + "/JavaClassReport.json",
                      name + "/JavaClassReport.text"]
            sub = json.loads(fs.get("out/" + files[-2]).decode("utf-8"))
            c.check(sub["report"]["is_change"], "the report of the class",
                    key="class report")
            kinds = [d["class"] for d in flat(sub["report"])]
            c.check("FieldAdded" in kinds and "FieldRemoved" in kinds,
                    "what changed in the class", key="class report")
            text = fs.get("out/" + files[-1]).decode("utf-8")
            c.check("Field added" in text and "Field removed" in text,
                    "what changed in the class", key="class report")
    c.check(fs.tree("out") == sorted(files), "the reports written",
            key="files")
    text = fs.get("out/JarReport.text").decode("utf-8")
    rep = json.loads(fs.get("out/JarReport.json").decode("utf-8"))["report"]
    c.check(rep["is_change"] is bool(changed), "is there a change",
            key="json change")
    told = [d["entry"] for d in flat(rep) if "entry" in d]
    for w in want:
        if w in counts:
            c.check(describe(*w) + "\n" in text, "the change is told",
                    key="told")
            c.check(describe(*w) + "\n" in out, "the change is printed",
                    key="told")
            c.check(w[0] in told, "the change is in JSON", key="told")
        else:
            c.check(": " + w[0] + "\n" not in text, "others are not",
                    key="hidden")
    c.observe("out", out)
    c.cover("reported")


def cases_jar(tier):
    out = []
    for k in sorted(NAMES):
        out.append({"name": "classified/" + k, "fn": "classified",
                    "params": {"kinds": [k]}})
        out.append({"name": "exploded/" + k, "fn": "classified",
                    "params": {"kinds": [k], "exploded": True}})
    for a, b in (("class", "class"), ("sf", "block"), ("other", "manifest"),
                 ("dir", "class"), ("other", "other")):
        out.append({"name": "classified/%s-%s" % (a, b), "weight": 5,
                    "fn": "classified", "params": {"kinds": [a, b]}})
    for k in sorted(NAMES):
        out.append({"name": "compared/" + k, "fn": "compared", "weight": 3,
                    "params": {"kinds": [k], "opts": [
                        "--ignore-jar-signature",
                        "--ignore-jar-entry=" + NAMES[k][0],
                        "--ignore-jar-entry=META-INF/*"]}})
    for a, b in (("class", "other"), ("sf", "class"), ("block", "other"),
                 ("sf", "manifest")):
        out.append({"name": "compared/%s-%s" % (a, b), "weight": 6,
                    "fn": "compared", "params": {
                        "kinds": [a, b], "opts": [
                            "--ignore-jar-signature"]}})
    if tier == "thorough":
        out.append({"name": "compared/sf-block-other", "weight": 9,
                    "fn": "compared", "params": {
                        "kinds": ["sf", "block", "other"], "opts": [
                            "--ignore-jar-signature"]}})
    for k in ("manifest", "sf"):
        out.append({"name": "sections/" + k, "fn": "sections", "weight": 6,
                    "params": {"kind": k}})
    for k in ("class", "manifest"):
        out.append({"name": "details/" + k, "fn": "details", "weight": 6,
                    "params": {"kind": k}})
    return out


PROPS = {
    "P30": {
        "cases": cases_jar, "covers": ("classified", "compared", "details",
                                         "sections"),
        "bounds": {"quick": "up to 2 entries of each kind, on either or "
                            "both sides, with unknown contents, and one "
                            "that is the same; ignore options",
                   "thorough": "up to 3 entries"},
    },
}
