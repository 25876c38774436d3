"""
Archives and directories: comparison, exploded archives, totals.
"""

import io
from zipfile import ZipInfo
from zlib import crc32

from javatools.dirutils import closing
from javatools.jarinfo import JarInfo, cli_jar_zip_info
from javatools.ziputils import (
    collect_compare, collect_compare_into, collect_compare_zips, compare,
    compare_zips, file_crc32, is_zipstream, open_zip, open_zip_entry,
    zip_entry_rollup, zip_file, ExplodedZipFile, LEFT, RIGHT, DIFF, SAME)


# characters of names
NAMED = ((32, 46), (48, 91), (93, 126), (233, 233))


def plain(x):
    return str(x)


def entries(c, side, n, size, namelen=1, dirs=False, twins=False):
    """ n entries with unknown names and contents """
    out = []
    for i in range(n):
        nm = c.str("%sname%d" % (side, i), namelen, NAMED)
        isdir = dirs and c.choose("%sdir%d" % (side, i), (False, True))
        if isdir:
            nm = nm + "/"
        for o, _d in out:
            if not twins:
                c.assume(c.not_(c.eq(o, nm)))
        data = b"" if isdir else c.bytes("%sdata%d" % (side, i), size)
        out.append((nm, data))
    return out


def last_of(es, name):
    """ contents stored under a name: the last entry counts """
    r = None
    for n, d in es:
        if n == name:
            r = d
    return r


def distinct(es):
    out = []
    for n, _d in es:
        if not any([n == o for o in out]):
            out.append(n)
    return out


def zips(c, how, nl, nr, size, dirs=False, twins=False, method="stored"):
    """ what the comparison of two archives says """
    fs = c.fs()
    l = entries(c, "l", nl, size, 1, dirs, twins)
    r = entries(c, "r", nr, size, 1, dirs, twins)
    lf, rf = fs.zip("l.zip", l, method), fs.zip("r.zip", r)
    if how == "names":
        got = list(compare(lf, rf))
    else:
        with open_zip(lf) as lz:
            with open_zip(rf) as rz:
                got = list(compare_zips(lz, rz))
    events(c, got, l, r)
    c.observe("n", len(got))
    c.cover("zips")


def events(c, got, l, r, dirs=True):
    count = 0
    for n in distinct(l + r):
        a, b = last_of(l, n), last_of(r, n)
        ev = [e for e, m in got if m == n]
        if n[-1:] == "/":
            if not dirs:
                continue
            # directories have no contents to differ
            if a is not None and b is not None:
                want = []
            else:
                want = [LEFT if b is None else RIGHT]
            c.check(ev == want, "directories", key="directories")
        elif b is None:
            c.check(ev == [LEFT], "only on the left", key="left")
        elif a is None:
            c.check(ev == [RIGHT], "only on the right", key="right")
        else:
            same = c.eq(a, b)
            c.check(c.iff(ev == [SAME], same), "same contents",
                    key="contents")
            c.check(c.iff(ev == [DIFF], c.not_(same)),
                    "differing contents", key="contents")
        count += len(ev)
    if dirs:
        c.check(len(got) == count, "nothing else is reported")


def chunked(c, n, at):
    """ long entries that differ past what is read at once """
    fs = c.fs()
    a, b = c.bytes("a", n), c.bytes("b", n)
    pad = b"x" * at
    lf = fs.zip("l.zip", [("e", pad + a)])
    rf = fs.zip("r.zip", [("e", pad + b)])
    got = list(compare(lf, rf))
    c.check(len(got) == 1, "one event")
    c.check(c.iff(got[0][0] == SAME, c.eq(a, b)), "same contents",
            key="contents")
    c.cover("chunked")


def collected(c, nl, nr):
    """ the events sorted into lists """
    fs = c.fs()
    l, r = entries(c, "l", nl, 1), entries(c, "r", nr, 1)
    lf, rf = fs.zip("l.zip", l), fs.zip("r.zip", r)
    added, removed, altered, same = collect_compare(lf, rf)
    got = [(RIGHT, n) for n in added] + [(LEFT, n) for n in removed] + \
        [(DIFF, n) for n in altered] + [(SAME, n) for n in same]
    events(c, got, l, r)
    with open_zip(lf) as lz, open_zip(rf) as rz:
        again = collect_compare_zips(lz, rz)
    for x, y in zip((added, removed, altered, same), again):
        c.check(len(x) == len(y), "both ways to ask agree")
    skip = c.choose("skip", range(4))
    groups = [[], [], [], []]
    groups[skip] = None
    back = collect_compare_into(lf, rf, *groups)
    c.check(len(back) == 4, "four lists")
    for i, x in enumerate((added, removed, altered, same)):
        if i == skip:
            c.check(back[i] is None, "left out when not wanted")
        else:
            c.check(len(back[i]) == len(x), "the lists given are filled")
    c.cover("collected")


def streams(c, what):
    """ archives are told from other data, and streams are rewound """
    fs = c.fs()
    if what == "zip":
        data = fs.zipbytes([("e", c.bytes("d", 2))])
    else:
        data = c.bytes("data", c.choose("size", (0, 1, 4, 21)))
    f = io.BytesIO(data)
    at = c.choose("at", (0, 1, len(data)))
    f.seek(at)
    got = is_zipstream(f)
    c.check(got is (what == "zip"), "is an archive", key="stream")
    c.check(f.tell() == at, "the stream is rewound", key="rewound")
    c.check(is_zipstream(data) is (what == "zip"), "bytes",
            key="is_zipstream bytes")
    c.check(is_zipstream(memoryview(data)) is (what == "zip"), "buffers")
    fn = fs.put("f", data)
    try:
        z = zip_file(fn)
    except Exception:        # pylint: disable=broad-except
        c.check(what != "zip", "archives can be opened")
    else:
        z.close()
        c.check(what == "zip", "other files are refused")
    c.cover("streams")


def cases_zips(tier):
    top = 2 if tier == "quick" else 3
    out = []
    for a in range(top + 1):
        for b in range(top + 1):
            for s in (0, 1, 2) if a + b < 5 else (1,):
                out.append({"name": "zips/open/%d-%d/%d" % (a, b, s),
                            "fn": "zips", "weight": a + b,
                            "params": {"how": "open", "nl": a, "nr": b,
                                       "size": s}})
    for a in range(3):
        for b in range(3):
            out.append({"name": "zips/names/%d-%d" % (a, b),
                        "fn": "zips", "params": {
                            "how": "names", "nl": a, "nr": b, "size": 1}})
            out.append({"name": "zips/dirs/%d-%d" % (a, b),
                        "fn": "zips", "weight": a + b, "params": {
                            "how": "open", "nl": a, "nr": b, "size": 1,
                            "dirs": True}})
            out.append({"name": "zips/twins/%d-%d" % (a, b),
                        "fn": "zips", "weight": a + b, "params": {
                            "how": "open", "nl": a, "nr": b, "size": 1,
                            "twins": True}})
    for s in (4, 5, 6):
        # from five bytes on, checksums collide
        out.append({"name": "zips/colliding/%d" % s, "fn": "zips",
                    "params": {"how": "open", "nl": 1, "nr": 1,
                               "size": s}})
    for n, at in ((1, 2 ** 14), (5, 2 ** 14), (2, 2 ** 14 - 1)) + (
            ((6, 2 ** 15), (5, 2 ** 14 - 2)) if tier != "quick" else ()):
        out.append({"name": "chunked/%d-%d" % (n, at), "fn": "chunked",
                    "weight": 4, "params": {"n": n, "at": at}})
    for a in range(3):
        for b in range(3):
            out.append({"name": "collected/%d-%d" % (a, b),
                        "fn": "collected", "weight": 2,
                        "params": {"nl": a, "nr": b}})
    for w in ("zip", "other"):
        out.append({"name": "streams/" + w, "fn": "streams",
                    "params": {"what": w}})
    return out


# ---------------------------------------------------------------------
# directories that stand for archives

SHAPES = {
    "empty": [],
    "flat": ["a", "b"],
    "deep": ["a", "d/b", "d/e/c", "f/g/h"],
    "empty dirs": ["a", "d/", "e/f/"],
    "same names": ["x", "d/x", "d/d/x"],
    "hidden": [".a", ".d/b", "d/.e/.c", "..f"],
    "odd": ["a b/[c]", "A", "a", "#d~/e$1.x", "-g"],
    "classes": ["META-INF/MANIFEST.MF", "a/B.class", "a/b/C.class"],
}


def plant(c, fs, top, shape, size):
    """ the files of a tree, and the entries that stand for them """
    want = []
    seen = []
    for i, rel in enumerate(SHAPES[shape]):
        parts = rel.split("/")
        for j in range(1, len(parts)):
            d = "/".join(parts[:j]) + "/"
            if d not in seen:
                seen.append(d)
                want.append((d, b""))
        if rel.endswith("/"):
            fs.mkdir(top + "/" + rel[:-1])
            continue
        data = c.bytes("data%d" % i, c.choose("size%d" % i, size))
        fs.put(top + "/" + rel, data)
        want.append((rel, data))
    return want


def exploded(c, shape, links=False):
    """ a directory gives what an archive of it would """
    fs = c.fs()
    fs.mkdir("jar")
    want = plant(c, fs, "jar", shape, (0, 2))
    if links:
        fs.put("outside/far", b"far")
        fs.link("jar/zz-link", "../outside/far")
        fs.link("jar/zz-dir", "../outside")
    zn = fs.zip("jar.zip", want)
    z = zip_file(fs.path("jar"))
    c.check(isinstance(z, ExplodedZipFile), "a directory is taken apart")
    with open_zip(zn) as ref:
        c.check(z.namelist() == sorted(ref.namelist()),
                "the same entries", key="entries")
        c.check(len(z.infolist()) == len(want), "as many entries")
        for name, data in want:
            i = z.getinfo(name)
            r = ref.getinfo(name)
            c.check(i.filename == name, "named alike")
            c.check(c.eq(i.file_size, r.file_size), "the same size",
                    key="size")
            c.check(c.eq(i.CRC, r.CRC), "the same checksum", key="CRC")
            if name[-1] != "/":
                c.check(c.eq(z.read(name), data), "the same contents",
                        key="contents")
                with z.open(name) as fd:
                    c.check(c.eq(fd.read(), data), "the same contents",
                            key="contents")
                with open_zip_entry(z, name) as fd:
                    c.check(c.eq(fd.read(), data),
                            "the same contents through open_zip_entry",
                            key="contents of entry")
        for p, q in ((z, ref), (ref, z)):
            got = list(compare_zips(p, q))
            c.check(sorted(got) == sorted([(SAME, n) for n, _d in want
                                           if n[-1] != "/"]),
                    "comparing the two finds all the same", key="same")
        got = zip_entry_rollup(z)
        c.check(got == zip_entry_rollup(ref),
                "as many files and directories, of the same size",
                key="rollup")
    z.close()
    c.cover("exploded")


def refreshed(c):
    """ what was added or dropped shows up once asked """
    fs = c.fs()
    fs.mkdir("jar")
    a = c.bytes("a", 2)
    fs.put("jar/a", a)
    z = zip_file(fs.path("jar"))
    b = c.bytes("b", 2)
    fs.put("jar/b", b)
    z.refresh()
    c.check(z.namelist() == ["a", "b"], "entries after refresh")
    c.check(c.eq(z.read("b"), b), "contents after refresh")
    c.check(c.eq(z.getinfo("a").CRC, crc32(a)), "checksum")
    z.close()
    c.cover("refreshed")


def checksum(c, n, chunk):
    """ checksums do not depend on how much is read at once """
    fs = c.fs()
    d = c.bytes("d", n)
    fn = fs.put("f", d)
    c.check(c.eq(file_crc32(fn, chunk), crc32(d)), "checksum",
            key="checksum")
    c.cover("checksum")


def against(c, shape):
    """ an edited directory differs from the archive where edited """
    fs = c.fs()
    fs.mkdir("jar")
    want = plant(c, fs, "jar", shape, (2,))
    other = []
    for i, (n, d) in enumerate(want):
        if n[-1] == "/":
            other.append((n, d))
            continue
        k = c.choose("edit%d" % i, ("keep", "change", "drop"))
        if k == "change":
            d = c.bytes("new%d" % i, 2)
        if k != "drop":
            other.append((n, d))
    zn = fs.zip("jar.zip", other)
    for a, b, l, r in ((fs.path("jar"), zn, want, other),
                       (zn, fs.path("jar"), other, want)):
        events(c, list(compare(a, b)), l, r)
    c.cover("against")


def cases_exploded(tier):
    out = []
    for s in sorted(SHAPES):
        out.append({"name": "exploded/" + s, "fn": "exploded",
                    "weight": 4, "params": {"shape": s}})
        if s in ("flat", "deep"):
            out.append({"name": "links/" + s, "fn": "exploded",
                        "weight": 4, "params": {"shape": s,
                                                "links": True}})
    for s in ("flat", "empty dirs", "same names") if tier == "quick" else \
            sorted(SHAPES):
        out.append({"name": "against/" + s, "fn": "against", "weight": 6,
                    "params": {"shape": s}})
    out.append({"name": "refreshed", "fn": "refreshed", "params": {}})
    for n in range(5 if tier == "quick" else 9):
        for k in (1, 2, 3, 2 ** 14):
            out.append({"name": "checksum/%d-%d" % (n, k),
                        "fn": "checksum", "params": {"n": n, "chunk": k}})
    return out


# ---------------------------------------------------------------------
# totals

class Stub(object):
    """ an archive that only has infos """

    def __init__(self, infos):
        self.infos = infos

    def infolist(self):
        return self.infos

    def close(self):
        pass


def totals(c, n, top):
    infos = []
    files, dirs, packed, unpacked = 0, 0, 0, 0
    for i in range(n):
        z = ZipInfo()
        isdir = c.choose("dir%d" % i, (False, True))
        nm = c.str("name%d" % i, 2, ((97, 98),))
        z.filename = nm + "/" if isdir else nm
        z.file_size = c.int("u%d" % i, 0, top)
        z.compress_size = c.int("c%d" % i, 0, top)
        if isdir:
            dirs += 1
        else:
            files += 1
            packed += z.compress_size
            unpacked += z.file_size
        infos.append(z)
    got = zip_entry_rollup(Stub(infos))
    c.check(len(got) == 4, "four totals")
    c.check(got[0] == files, "number of files", key="files")
    c.check(got[1] == dirs, "number of directories", key="dirs")
    c.check(got[0] + got[1] == n, "all entries count")
    c.check(c.eq(got[2], packed), "compressed size", key="compressed")
    c.check(c.eq(got[3], unpacked), "uncompressed size",
            key="uncompressed")
    c.cover("totals")


def printed(c, n, dirs):
    """ what jarinfo prints of the archive """
    es, total = [], 0
    fs = c.fs()
    for i in range(n):
        es.append(("f%d" % i, c.bytes("d%d" % i, 2 * i)))
        total += 2 * i
    for i in range(dirs):
        es.append(("d%d/" % i, b""))
    ji = JarInfo(fs.zip("a.jar", es))
    _r, out = c.output(cli_jar_zip_info, ji)
    ji.close()
    lines = out.split("\n")
    c.check(lines[0] == "Contains %i files, %i directories" % (n, dirs),
            "numbers of files and directories")
    c.check(lines[1] == "Uncompressed size is %i" % total,
            "uncompressed size")
    c.check(lines[2].startswith("Compressed size is %i (" % total),
            "compressed size")
    c.observe("out", out)
    c.cover("printed")


def squeezed(c, n):
    """ compressible contents, known ones """
    fs = c.fs()
    k = c.choose("fill", (0, 1, 65))
    ji = JarInfo(fs.zip("a.jar", [("f", bytes([k]) * n), ("g", b"")],
                        "deflated"))
    _r, out = c.output(cli_jar_zip_info, ji)
    files, dirs, packed, unpacked = zip_entry_rollup(ji.get_zipfile())
    ji.close()
    lines = out.split("\n")
    c.check((files, dirs, unpacked) == (2, 0, n), "totals")
    c.check(lines[1] == "Uncompressed size is %i" % n, "uncompressed")
    c.check(lines[2] == "Compressed size is %i (%0.1f%%)" % (
        packed, 100.0 * packed / n), "compressed, and in relation")
    c.cover("squeezed")


def cases_totals(tier):
    out = []
    for n in range(4 if tier == "quick" else 6):
        out.append({"name": "totals/%d" % n, "fn": "totals", "weight": n,
                    "params": {"n": n, "top": 2 ** 40}})
    for n in range(4):
        for d in range(3):
            out.append({"name": "printed/%d-%d" % (n, d), "fn": "printed",
                        "params": {"n": n, "dirs": d}})
    for n in (1, 10, 1000):
        out.append({"name": "squeezed/%d" % n, "fn": "squeezed",
                    "params": {"n": n}})
    return out


PROPS = {
    "P26": {
        "cases": cases_zips,
        "covers": ("zips", "chunked", "collected", "streams"),
        "bounds": {"quick": "up to 2 entries on each side with unknown "
                            "names and contents of up to 6 bytes, or "
                            "of a known 16 kB followed by up to 5",
                   "thorough": "up to 3 entries on each side"},
    },
    "P27": {
        "cases": cases_exploded,
        "covers": ("exploded", "refreshed", "checksum", "against"),
        "bounds": {"quick": "trees of up to 4 files with unknown contents "
                            "of up to 2 bytes, directories and links",
                   "thorough": "checksums of up to 8 bytes, read in any "
                               "pieces"},
    },
    "P28": {
        "cases": cases_totals, "covers": ("totals", "printed", "squeezed"),
        "bounds": {"quick": "up to 3 entries of any size up to 2^40",
                   "thorough": "up to 5 entries"},
    },
}
