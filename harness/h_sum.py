"""
What archives and distributions need, provide and hold.
"""

import json
from fnmatch import fnmatch

from javatools import distinfo, jarinfo
from javatools.distinfo import DistInfo
from javatools.jarinfo import JarInfo
from javatools.ziputils import zip_file

from .util import Pool, class_bytes, member


# access flags, and whether these are public
ACCESS = (1, 2, 4, 0, 9)

# what a class may refer to
USES = {
    "f": ("field", "g", ":int"),
    "m": ("method", "h", "():void"),
    "c": ("class", "", ""),
}


def klass(c, tag, me, fields, methods, uses):
    """ (contents, public names, all names, names referred to) """
    p = Pool()
    this = p.cls(me)
    pub, every, req = [me], [me], []
    fs, ms = [], []
    for n, ref in enumerate(fields):
        a = c.choose("%saf%d" % (tag, n), ACCESS)
        fs.append(member(a, p.utf8(ref), p.utf8("I")))
        every.append("%s.%s:int" % (me, ref))
        if a & 1:
            pub.append(every[-1])
    for n, ref in enumerate(methods):
        a = c.choose("%sam%d" % (tag, n), ACCESS)
        ms.append(member(a, p.utf8(ref), p.utf8("()V")))
        every.append("%s.%s():void" % (me, ref))
        if a & 1:
            pub.append(every[-1])
    for cls, kind, name in uses:
        if kind == "f":
            p.ref(9, cls, name, "I")
            req += [cls, "%s.%s:int" % (cls, name)]
        elif kind == "m":
            p.ref(10, cls, name, "()V")
            req += [cls, "%s.%s():void" % (cls, name)]
        else:
            p.cls(cls)
            req.append(cls)
    return class_bytes(p, 0x21, this, 0, [], fs, ms), pub, every, req


def letters(c, name):
    return c.str(name, 1, ((97, 99),))


def classes(c, spec):
    """ entries of an archive, of unknown members that use one another;
    [(entry, contents, public names, all names, names referred to)] """
    out = []
    for i, (entry, me, nf, nm, uses) in enumerate(spec):
        tag = "k%d" % i
        fields = [letters(c, "%sf%d" % (tag, n)) for n in range(nf)]
        methods = [letters(c, "%sm%d" % (tag, n)) for n in range(nm)]
        us = [(cls, kind, letters(c, "%su%d" % (tag, n)))
              for n, (cls, kind) in enumerate(uses)]
        d, pub, every, req = klass(c, tag, me, fields, methods, us)
        out.append((entry, d, pub, every, req))
    return out


def keep(s, ignored):
    return not any([fnmatch(s, g) for g in ignored])


def unique(xs):
    out = []
    for x in xs:
        if not any([x == y for y in out]):
            out.append(x)
    return out


def agree(c, got, want, what, key):
    """ got: {name: [(kind, entry, ...)]}; want: [(name, [entries])] """
    c.check(len(got) == len(want), "as many names " + what, key=key)
    for name, where in want:
        c.check(name in got, "each name " + what, key=key)
        rows = got[name]
        c.check(sorted([r[1] for r in rows]) == sorted(where),
                "each where it is from " + what, key=key)


def table(ks, column, drop, ignored=()):
    """ [(name, [entries])] """
    names = unique([n for k in ks for n in k[column]])
    return [(n, [k[0] for k in ks if any([n == x for x in k[column]])])
            for n in names if not any([n == x for x in drop]) and
            keep(n, ignored)]


# ---------------------------------------------------------------------
# archives

def jar(c, spec, extra=("META-INF/MANIFEST.MF", "x.txt"), exploded=False):
    ks = classes(c, spec)
    fs = c.fs()
    es = [(k[0], k[1]) for k in ks] + \
        [(n, b"Manifest-Version: 1.0\n\n") for n in extra]
    if exploded:
        for n, d in es:
            fs.put("x.jar/" + n, d)
        return ks, fs.path("x.jar")
    return ks, fs.zip("x.jar", es)


def of_jar(c, spec, ignored, exploded=False):
    """ what a jar provides and needs """
    ks, fn = jar(c, spec, exploded=exploded)
    every = [n for k in ks for n in k[3]]
    how = c.choose("how", ("name", "zip"))
    zf = zip_file(fn)
    ji = JarInfo(fn) if how == "name" else JarInfo(zipfile=zf)
    order = c.choose("order", (0, 1))
    with ji:
        c.check(sorted(ji.get_classes()) == sorted([k[0] for k in ks]),
                "the classes", key="classes")
        for _i in range(2):
            # asked again, and in both orders
            if order:
                agree(c, ji.get_requires(ignored),
                      table(ks, 4, every, ignored), "needed", "requires")
            agree(c, ji.get_provides(ignored), table(ks, 2, (), ignored),
                  "provided", "provides")
            if not order:
                agree(c, ji.get_requires(ignored),
                      table(ks, 4, every, ignored), "needed", "requires")
            agree(c, ji.get_requires(), table(ks, 4, every), "needed",
                  "requires")
            agree(c, ji.get_provides(), table(ks, 2, ()), "provided",
                  "provides")
        for k in ks:
            c.check(c.eq(ji.get_classinfo(k[0]).pretty_this(), k[3][0]),
                    "information on a class", key="classinfo")
    zf.close()
    c.cover("jar")


def listing(names):
    return "".join(["  " + n + "\n" for n in sorted(names)])


def jar_cli(c, spec, ignored):
    """ what the command tells """
    ks, fn = jar(c, spec)
    every = [n for k in ks for n in k[3]]
    prov = table(ks, 2, (), ignored)
    req = table(ks, 4, every, ignored)
    on = [o for o in ("--jar-provides", "--jar-requires")
          if c.choose(o, (False, True))]
    args = ["jarinfo"] + on + ["--api-ignore=" + i for i in ignored] + [fn]
    st, out = c.output(jarinfo.main, args)
    want = ""
    if "--jar-provides" in on:
        want += "jar provides:\n" + listing([n for n, _w in prov]) + "\n"
    if "--jar-requires" in on:
        want += "jar requires:\n" + listing([n for n, _w in req]) + "\n"
    c.check(st == 0, "exit status", key="status")
    c.check(c.eq(out, want), "the lists", key="text")
    st, out = c.output(jarinfo.main, args[:-1] + ["--json", fn])
    c.check(st == 0, "exit status", key="status")
    d = json.loads(out)
    c.check(sorted(d) == sorted([o.replace("--jar-", "jar.") for o in on]),
            "what was asked for in JSON", key="json")
    if "jar.provides" in d:
        agree(c, d["jar.provides"], prov, "provided", "json")
    if "jar.requires" in d:
        agree(c, d["jar.requires"], req, "needed", "json")
    c.observe("out", out)
    c.cover("command")


def totals(c, n, exploded):
    """ numbers and sizes of entries """
    fs = c.fs()
    es, files, dirs, size = [], 0, 0, 0
    for i in range(n):
        k = c.choose("kind%d" % i, ("none", "dir", "file"))
        if k == "dir":
            es.append(("d%d/" % i, b""))
            dirs += 1
        elif k == "file":
            d = c.bytes("d%d" % i, c.choose("size%d" % i, (0, 1, 3)))
            es.append(("f%d" % i, d))
            files += 1
            size += len(d)
    if exploded:
        fs.mkdir("x.jar")
        for name, d in es:
            if name.endswith("/"):
                fs.mkdir("x.jar/" + name[:-1])
            else:
                fs.put("x.jar/" + name, d)
        fn = fs.path("x.jar")
    else:
        fn = fs.zip("x.jar", es)
    st, out = c.output(jarinfo.main, ["jarinfo", "--zip", fn])
    c.check(st == 0, "exit status", key="status")
    c.check(out == "Contains %i files, %i directories\n"
            "Uncompressed size is %i\nCompressed size is %i (100.0%%)\n\n" %
            (files, dirs, size, size), "the totals", key="totals")
    st, out = c.output(jarinfo.main, ["jarinfo", "--zip", "--json", fn])
    c.check(st == 0, "exit status", key="status")
    d = json.loads(out)
    c.check(d["zip.type"] == (
        "ExplodedZipFile" if exploded else "ZipFile"), "the type",
        key="type")
    c.check(d["zip.file_count"] == files and d["zip.dir_count"] == dirs and
            d["zip.uncompressed_size"] == size and
            d["zip.compressed_size"] == size and
            d["zip.compress_percent"] == 100.0, "the totals in JSON",
            key="totals")
    c.cover("totals")


def manifest(c, n, exploded):
    """ the manifest is told, or that there is none """
    fs = c.fs()
    es = [("a%d.txt" % i, b"a") for i in range(c.choose("at", (0, 1, 3)))]
    want = "Manifest not present.\n\n"
    if c.choose("present", (True, False)):
        text = "Manifest-Version: 1.0\r\n"
        main = [("Manifest-Version", "1.0")]
        for i in range(c.choose("main", range(n + 1))):
            v = letters(c, "v%d" % i)
            k = ("Zed", "Abc")[i]
            text += "%s: %s\r\n" % (k, v)
            main.append((k, v))
        text += "\r\n"
        want = "Manifest main section:\n" + "".join(
            ["  %s: %s\n" % x for x in sorted(main)])
        subs = []
        for i in range(c.choose("subs", range(n + 1))):
            v = letters(c, "w%d" % i)
            name = ("zed/Z", "abc")[i]
            text += "Name: %s\r\nKey: %s\r\n\r\n" % (name, v)
            subs.append((name, v))
        for name, v in sorted(subs):
            want += "\nManifest sub-section:\n  Key: %s\n  Name: %s\n" % (
                v, name)
        want += "\n"
        es.append(("META-INF/MANIFEST.MF", text.encode("ascii")))
    es.append(("zz.txt", b"z"))
    if exploded:
        for name, d in es:
            fs.put("x.jar/" + name, d)
        fn = fs.path("x.jar")
    else:
        fn = fs.zip("x.jar", es)
    st, out = c.output(jarinfo.main, ["jarinfo", "--manifest", fn])
    c.check(st == 0, "exit status", key="manifest status")
    c.check(c.eq(out, want), "the manifest", key="manifest")
    c.observe("out", out)
    c.cover("manifest")


def contained(c, spec):
    """ information on each class of a jar """
    from javatools import classinfo
    ks, fn = jar(c, spec)
    fs = c.fs()
    opts = [o for o in ("--public", "--package", "--private", "-s")
            if c.choose(o, (False, True))]
    want = ""
    for k in ks:
        fs.put("k.class", k[1])
        _s, out = c.output(classinfo.main, ["classinfo"] + opts +
                           [fs.path("k.class")])
        want += "Entry:  " + k[0] + "\n" + out + "\n"
    st, out = c.output(jarinfo.main,
                       ["jarinfo", "--jar-classes"] + opts + [fn])
    c.check(st == 0, "exit status", key="status")
    c.check(c.eq(out, want), "each class", key="contained")
    c.cover("contained")


# ---------------------------------------------------------------------
# distributions

def dist(c, loose, jars, zipped):
    """ a distribution: loose classes, and jars of classes;
    (classes, [(jar, classes)], path) """
    fs = c.fs()
    ks = classes(c, loose)
    es = [("lib/" + k[0], k[1]) for k in ks]
    ks = [("lib/" + k[0],) + k[1:] for k in ks]
    js = []
    n = 0
    for name, spec in jars:
        # of other inputs than those of the loose classes
        sub = Tagged(c, "j%d" % n)
        n += 1
        k = classes(sub, spec)
        js.append((name, k))
        es.append((name, fs.zipbytes([(x[0], x[1]) for x in k])))
    es.append(("README", b"r"))
    if zipped:
        return ks, js, fs.zip("dist.zip", es)
    for name, d in es:
        fs.put("dist/" + name, d)
    return ks, js, fs.path("dist")


class Tagged(object):
    """ inputs with a prefix """

    def __init__(self, c, tag):
        self.c, self.tag = c, tag

    def choose(self, name, options):
        return self.c.choose(self.tag + name, options)

    def str(self, name, n, ranges):
        return self.c.str(self.tag + name, n, ranges)


def in_dist(ks, js, ignored=()):
    """ names provided and needed: [(name, [entries])]; those of the last
    may be missing from what is needed: a member that is not public, of a
    class in another jar """
    prov, req, may = {}, {}, []
    pub_jars = [n for _j, kk in js for k in kk for n in k[2]]
    all_jars = [n for _j, kk in js for k in kk for n in k[3]]
    all_loose = [n for k in ks for n in k[3]]
    rows = [(k[0], k[2], k[4]) for k in ks]
    for j, kk in js:
        own = [n for k in kk for n in k[3]]
        rows.append((j, [n for k in kk for n in k[2]],
                     [n for k in kk for n in k[4]
                      if not any([n == x for x in own])]))
    names = unique([n for r in rows for n in r[1]])
    prov = [(n, [r[0] for r in rows if any([n == x for x in r[1]])])
            for n in names if keep(n, ignored)]
    names = unique([n for r in rows for n in r[2]])
    req = [(n, [r[0] for r in rows if any([n == x for x in r[2]])])
           for n in names if keep(n, ignored) and
           not any([n == x for x in pub_jars + all_loose])]
    may = [n for n, _w in req if any([n == x for x in all_jars])]
    return prov, req, may


def needed(c, got, req, may, key):
    names = [n for n in got]
    want = [(n, w) for n, w in req
            if not any([n == x for x in may]) or
            any([n == x for x in names])]
    agree(c, got, want, "needed", key)


def of_dist(c, loose, jars, zipped, ignored):
    ks, js, fn = dist(c, loose, jars, zipped)
    fs = c.fs()
    before = fs.temps()
    prov, req, may = in_dist(ks, js)
    iprov, ireq, imay = in_dist(ks, js, ignored)
    d = DistInfo(fn)
    for _i in range(2):
        # asked again, and once more after close
        c.check(sorted(d.get_contents()) == sorted(
            ["README"] + [k[0] for k in ks] + [j for j, _k in js]),
            "the files", key="contents")
        c.check(sorted(d.get_jars()) == sorted([j for j, _k in js]),
                "the jars", key="contents")
        c.check(sorted(d.get_classes()) == sorted([k[0] for k in ks]),
                "the classes", key="contents")
        needed(c, d.get_requires(ignored), ireq, imay, "requires")
        agree(c, d.get_provides(ignored), iprov, "provided", "provides")
        needed(c, d.get_requires(), req, may, "requires")
        agree(c, d.get_provides(), prov, "provided", "provides")
        for k in ks:
            c.check(c.eq(d.get_classinfo(k[0]).pretty_this(), k[3][0]),
                    "information on a class", key="classinfo")
        for j, kk in js:
            with d.get_jarinfo(j) as ji:
                c.check(sorted(ji.get_classes()) ==
                        sorted([k[0] for k in kk]),
                        "information on a jar", key="jarinfo")
        d.close()
        c.check(fs.temps() == before, "nothing is left over", key="temps")
    c.cover("dist")


def dist_cli(c, loose, jars, zipped, ignored):
    ks, js, fn = dist(c, loose, jars, zipped)
    fs = c.fs()
    before = fs.temps()
    prov, req, may = in_dist(ks, js, ignored)
    on = [o for o in ("--dist-provides", "--dist-requires")
          if c.choose(o, (False, True))]
    args = ["distinfo"] + on + ["--api-ignore=" + i for i in ignored]
    st, jout = c.output(distinfo.main, args + ["--json", fn])
    c.check(st == 0, "exit status", key="status")
    d = json.loads(jout)
    c.check(sorted(d) == sorted(
        [o.replace("--dist-", "dist.") for o in on]),
        "what was asked for in JSON", key="json")
    if "dist.provides" in d:
        agree(c, d["dist.provides"], prov, "provided", "json")
        for n, w in prov:
            for row in d["dist.provides"][n]:
                c.check(row[0] == ("class.provides" if row[1][-6:] ==
                                   ".class" else "jar.provides"), "the kind",
                        key="json")
    if "dist.requires" in d:
        needed(c, d["dist.requires"], req, may, "json")
    st, out = c.output(distinfo.main, args + [fn])
    c.check(st == 0, "exit status", key="status")
    want = ""
    if "--dist-provides" in on:
        want += "distribution provides:\n" + \
            listing([n for n, _w in prov]) + "\n"
    if "--dist-requires" in on:
        # which of the ones that may be there is told above
        want += "distribution requires:\n" + \
            listing([n for n in d["dist.requires"]]) + "\n"
    c.check(c.eq(out, want), "the lists", key="text")
    c.check(fs.temps() == before, "nothing is left over", key="temps")
    c.observe("out", out)
    c.cover("dist command")


A, B = "A", "B"


def cases_jar(tier):
    out = []

    def add(name, fn, weight=1, **params):
        out.append({"name": name, "fn": fn, "weight": weight,
                    "params": params})
    one = [["A.class", A, 1, 1, [[A, "f"], [B, "m"]]]]
    two = [["A.class", A, 1, 0, [[B, "m"]]],
           ["d/B.class", B, 0, 1, [[A, "f"]]]]
    outer = [["A.class", A, 1, 0, []],
             ["A$1.class", "A$1", 0, 0, [[A, "f"], ["C", "c"]]]]
    # two entries that hold the same class
    twice = [["A.class", A, 1, 0, [["C", "f"]]],
             ["d/A.class", A, 1, 0, [["C", "f"]]]]
    # names out of the ordinary
    odd = [[".d/1 b.class", "d$_1", 1, 0, [["C", "f"]]],
           ["META-INF/versions/9/A-1.class", A, 0, 0, [["d$_1", "c"]]]]
    for n, s in (("one", one), ("two", two), ("outer", outer), ("odd", odd),
                 ("twice", twice), ("none", [])):
        for i, ign in enumerate(((), ("A.a*", "B"), ("*:int",))):
            add("jar/%s/%d" % (n, i), "of_jar", 3, spec=s,
                ignored=list(ign))
        add("exploded/" + n, "of_jar", 3, spec=s, ignored=[],
            exploded=True)
        add("command/" + n, "jar_cli", 3, spec=s, ignored=["A.b*"])
    add("command/two/all", "jar_cli", 3, spec=two, ignored=[])
    for ex in (False, True):
        add("totals/%s" % ex, "totals", n=2, exploded=ex)
        add("manifest/%s" % ex, "manifest", n=2, exploded=ex)
    add("contained", "contained", 3, spec=two)
    if tier == "thorough":
        three = two + [["e/C.class", "C", 1, 1, [[A, "f"], [B, "m"]]]]
        add("jar/three", "of_jar", 9, spec=three, ignored=["A.b*"])
    return out


def cases_dist(tier):
    out = []

    def add(name, fn, weight=1, **params):
        out.append({"name": name, "fn": fn, "weight": weight,
                    "params": params})
    ka = ["A.class", A, 1, 0, [[B, "f"]]]
    kb = ["d/B.class", B, 1, 0, [[A, "f"], ["C", "c"]]]
    k0 = [".d/A$1.class", "A$1", 1, 0, [[B, "f"]]]
    for z in (False, True):
        for name, loose, jars in (
                ("loose", [ka, kb], []),
                ("jar", [], [["x.jar", [ka, kb]]]),
                ("jar-class", [ka], [["x.war", [kb]]]),
                ("jars", [], [["x.jar", [ka]], ["m/y.jar", [kb]]]),
                ("same", [ka], [["m/x.jar", [ka]]]),
                ("hollow", [ka], [["a.jar", []], ["m/x.jar", [kb]],
                                  ["z.jar", []]]),
                ("both", [], [["x.jar", [k0]], ["m/y.jar", [k0]]]),
                ("none", [], [])):
            n = "%s/%s" % (name, "zip" if z else "dir")
            add("dist/" + n, "of_dist", 5, loose=loose, jars=jars,
                zipped=z, ignored=["A.b*", "C"])
            add("command/" + n, "dist_cli", 5, loose=loose, jars=jars,
                zipped=z, ignored=["*.c:int"] if z else [])
    return out


PROPS = {
    "P33": {
        "cases": cases_jar, "covers": ("jar", "command", "totals",
                                       "manifest", "contained"),
        "bounds": {"quick": "jars of up to 2 classes with up to 2 members "
                            "and 2 references of unknown names and access; "
                            "manifests of up to 3 attributes and 2 sections",
                   "thorough": "up to 3 classes"},
    },
    "P40": {
        "cases": cases_dist, "covers": ("dist", "dist command"),
        "bounds": {"quick": "distributions of up to 2 classes, loose or in "
                            "jars, with a member and references of unknown "
                            "names and access, as directory or archive",
                   "thorough": "the same"},
    },
}
