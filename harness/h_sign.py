"""
Checksums of archive entries, signing of archives, the manifest command.
"""

import base64
import hashlib
import zipfile

from javatools import crypto, jarutil, manifest
from javatools.manifest import Manifest

from .util import bad


ASCII = ((33, 126),)
MF = "META-INF/MANIFEST.MF"
HASHES = {"MD5": hashlib.md5, "SHA1": hashlib.sha1,
          "SHA-256": hashlib.sha256, "SHA-384": hashlib.sha384,
          "SHA-512": hashlib.sha512}

# what an entry may be, apart from files
EXEMPT = ("d/", "META-INF/K.SF", "META-INF/K.RSA", "META-INF/x.ec",
          "META-INF/SIG-q", MF)
FILES = ("a", "d/b.class", "META-INF/services/s", "META-INF/n/K.SF",
         "K.DSA", "META-INF/SIGN")


def digest(data, alg):
    return base64.b64encode(HASHES[alg](data).digest()).decode("ascii")


def exempt(name):
    up = name.upper()
    base = up.split("/")[-1]
    return up.endswith("/") or up == MF or up.count("/") == 1 and \
        up.startswith("META-INF/") and (
            base[-3:] in (".SF", ".EC") or base[-4:] in (".RSA", ".DSA") or
            base.startswith("SIG-"))


# ---------------------------------------------------------------------
# checksums

def checksums(c, kinds, algs, twice=False):
    """ which entries a manifest vouches for """
    fs = c.fs()
    es, good = [], []
    text = "Manifest-Version: 1.0\r\n\r\n"
    for i, k in enumerate(kinds):
        name = c.choose("name%d" % i, EXEMPT[:-1] if k == "exempt" else
                        FILES if len(kinds) == 1 else FILES[i::3])
        for n, _d in es:
            c.assume(n != name)
        data = b"" if name.endswith("/") else c.bytes(
            "d%d" % i, c.choose("size%d" % i, (0, 2)) if len(kinds) == 1
            else 1)
        es.append((name, data))
        states = []
        here = c.choose("here%d" % i, (True, False))
        if not here:
            good.append((name, False, False))
            continue
        text += "Name: %s\r\nX-Digest-Not: x\r\n" % name
        for a in algs:
            st = c.choose("%s %d" % (a, i), ("right", "wrong", "absent",
                                             "other") + (
                ("unpadded", "more") if len(kinds) == 1 else ()))
            states.append(st)
            if st == "absent":
                continue
            v = digest(data, a)
            if st == "unpadded":
                # of a length that takes no padding for some
                if v.rstrip("=") == v:
                    states[-1] = "right"
                v = v.rstrip("=")
            elif st == "more":
                v = v + "="
            if st == "wrong":
                w = c.str("w%s %d" % (a, i), 1, ASCII)
                if c.decide(w == v[:1]):
                    states[-1] = "right"
                v = w + v[1:]
            elif st == "other":
                # of something else
                o = c.bytes("o%s %d" % (a, i), 1)
                if c.decide(c.eq(o, data)):
                    states[-1] = "right"
                v = digest(o, a)
            text += "%s-Digest: %s\r\n" % (a, v)
        text += "\r\n"
        good.append((name, "right" in states,
                     any([s != "absent" for s in states])))
    # and something that is not in the archive
    text += "Name: gone\r\nSHA1-Digest: xx\r\n\r\n"
    es.append((MF, text.encode("ascii")))
    jar = fs.zip("x.jar", es)
    m = Manifest()
    m.load_from_jar(jar)
    strict = c.choose("strict", (None, True, False)
                      if len(kinds) == 1 else (None, False))
    held = m.get_data()
    for _i in range(2 if twice else 1):
        if strict is None:
            got = m.verify_jar_checksums(jar)
        else:
            got = m.verify_jar_checksums(jar, strict=strict)
        want = [n for n, ok, any_ in good if not exempt(n) and not ok and
                (strict is not False or any_)]
        c.check(sorted(got) == sorted(want), "the entries that fail",
                key="failures")
        c.check(c.eq(m.get_data(), held), "the manifest is as it was",
                key="held")
    st, out = c.output(manifest.main, ["manifest", "v", jar])
    want = [n for n, ok, _a in good if not exempt(n) and not ok]
    c.check(st == (1 if want else 0), "exit status", key="status")
    if want:
        c.check(out.startswith("Verify failed, no matching checksums for "
                               "files: ") and
                sorted(out.strip().split(": ", 1)[1].split(", ")) ==
                sorted(want), "the entries told", key="told")
    else:
        c.check(out == "", "nothing is told", key="told")
    c.cover("verified" if not want else "failed")


def added(c, kinds, alg, old):
    """ entries get sections with digests """
    fs = c.fs()
    es = []
    text = "Manifest-Version: 1.0\r\nMain: m\r\n\r\n"
    keep = {}
    for i, k in enumerate(kinds):
        name = c.choose("name%d" % i, EXEMPT[:-1] if k == "exempt" else
                        FILES)
        for n, _d in es:
            c.assume(n != name)
        data = b"" if name.endswith("/") else c.bytes(
            "d%d" % i, c.choose("size%d" % i, (1, 0) if i else (0, 2)))
        es.append((name, data))
        st = c.choose("old%d" % i, ("none", "other", "digest", "both"))
        keep[name] = st in ("other", "both")
        if st != "none":
            text += "Name: %s\r\n" % name
            if keep[name]:
                text += "Java-Bean: True\r\n"
            if st in ("digest", "both"):
                text += "%s-Digest: %s\r\n" % (old, c.str(
                    "x%d" % i, 1, ASCII))
            text += "\r\n"
    text += "Name: gone\r\nX: y\r\n\r\n"
    es.append((MF, text.encode("ascii")))
    jar = fs.zip("x.jar", es)
    m = Manifest()
    m.load_from_jar(jar)
    before = fs.get("x.jar")
    m.add_jar_entries(jar, alg)
    c.check(c.eq(fs.get("x.jar"), before), "the archive is as it was",
            key="kept")
    c.check(m["Main"] == "m" and len(m) == 2, "the main section stays",
            key="kept")
    c.check(m.sub_sections["gone"]["X"] == "y", "other sections stay",
            key="kept")
    for name, data in es:
        if exempt(name):
            continue
        s = m.sub_sections[name]
        c.check(c.eq(s.get(alg + "-Digest"), digest(data, alg)),
                "the digest of an entry", key="digest")
        c.check(s["Name"] == name and s.primary() == name,
                "the name of a section", key="digest")
        if keep[name]:
            c.check(s.get("Java-Bean") == "True", "other attributes stay",
                    key="attributes")
        c.check(all([k in (alg + "-Digest", "Name") or
                     k == "Java-Bean" and keep[name] for k in s]),
                "nothing that was true of another content stays",
                key="stale")
    for name in m.sub_sections:
        c.check(name == "gone" or any([name == n for n, _d in es]),
                "no other sections", key="extra")
    c.check(m.verify_jar_checksums(jar) == [], "the archive verifies",
            key="verifies")
    c.cover("added")


# ---------------------------------------------------------------------
# signing

class Ideal(object):
    """ signatures that cannot be forged: what is signed is in the block.
    A key has the name of its certificate but for the first letter. """

    def __init__(self, c):
        self.c = c

    def create(self, alg, cert, key, extra, data):
        return b"sig:" + cert[-1:].encode("ascii") + key[-1:].encode(
            "ascii") + b":" + data

    def verify(self, cert, data, block):
        n = cert[-1:].encode("ascii")
        if not self.c.decide(self.c.eq(block, b"sig:" + n + n + b":" +
                                       data)):
            raise crypto.SignatureBlockVerificationError("not signed")

    def ext(self, key):
        return {"1": "RSA", "2": "DSA", "3": "EC"}[key[-1:]]

    def __enter__(self):
        self.saved = (crypto.create_signature_block,
                      jarutil.verify_signature_block,
                      jarutil.private_key_type)
        crypto.create_signature_block = self.create
        jarutil.verify_signature_block = self.verify
        jarutil.private_key_type = self.ext

    def __exit__(self, *a):
        (crypto.create_signature_block, jarutil.verify_signature_block,
         jarutil.private_key_type) = self.saved


def jar_of(c, names, tag="", main=True):
    """ entries with unknown contents, and a manifest """
    es = []
    sep = c.choose(tag + "sep", ("\r\n", "\n"))
    text = "Manifest-Version: 1.0" + sep
    if main:
        text += "Main: " + c.str(tag + "main", 1, ASCII) + sep
    text += sep
    if main and c.choose(tag + "sect", (False, True)):
        text += "Name: d/" + sep + "Sealed: true" + sep + sep
    at = c.choose(tag + "at", (0, len(names)))
    for i, n in enumerate(names):
        es.append((n, b"" if n.endswith("/") else
                   c.bytes("%sd%d" % (tag, i), 1)))
    es.insert(at, (MF, text.encode("ascii")))
    return es


def accepted(fs, jar, cert, sf=None):
    """ the outcome of a verification """
    try:
        jarutil.verify(cert, jar, sf)
    except (jarutil.VerificationError, jarutil.MissingManifestError) as ex:
        return type(ex).__name__
    return None


# names of keys, and others that look alike
ALIASES = ("ME", "MY.KEY", "1", "A-B_C", ".K", "K.SF")
ALIKE = {"ME": ("M", "ME.ME", "E"), "MY.KEY": ("MY", "KEY", "MY.KEY.2"),
         "1": ("11",), "A-B_C": ("A", "A-B"), ".K": ("K",),
         "K.SF": ("K",)}


def sign_with(c, fs, jar, key, alias, alg, out=None, command=False):
    if not command:
        return jarutil.sign(jar, "cert" + key, "keys" + key, alias,
                            [], alg, out)
    args = ["jarutil", "s"]
    if alg != "SHA-256":
        args += ["-d", alg]
    if out:
        args += ["-o", out]
    st, text = c.output(jarutil.main, args + [jar, "cert" + key,
                                              "keys" + key, alias])
    c.check(st == 0, "exit status", key="status")


def verify_with(c, fs, jar, cert, sf=None, command=False):
    if not command:
        return accepted(fs, jar, cert, sf)
    st, text = c.output(jarutil.main, ["jarutil", "v", jar, cert] +
                        ([sf] if sf else []))
    c.check((st == 0) == (text == "Jar verified.\n"), "what is told",
            key="told")
    return None if st == 0 else "refused"


def by_name(es):
    return dict(es)


def signed(c, names, alg, command):
    """ what is signed verifies, and stays what it is """
    fs = c.fs()
    es = jar_of(c, names)
    jar = fs.zip("x.jar", es)
    before = fs.get("x.jar")
    key = c.choose("key", ("1", "2", "3"))
    where = c.choose("out", (None, "y.jar"))
    temps = fs.temps()
    with Ideal(c):
        alias = c.choose("alias", ALIASES) if len(names) == 1 else "ME.2"
        sign_with(c, fs, jar, key, alias, alg,
                  where and fs.path(where), command)
        if where:
            c.check(c.eq(fs.get("x.jar"), before), "the original stays",
                    key="original")
        got = fs.entries(where or "x.jar")
        res = fs.path(where or "x.jar")
        c.check(fs.temps() == temps, "nothing is left over", key="temps")
        ext = {"1": "RSA", "2": "DSA", "3": "EC"}[key]
        c.check([n for n, _d in got] ==
                [MF, "META-INF/%s.SF" % alias,
                 "META-INF/%s.%s" % (alias, ext)] +
                [n for n in names if n != MF], "the entries, in order",
                key="entries")
        have = by_name(got)
        for n, d in es:
            if n != MF:
                c.check(c.eq(have[n], d), "contents stay", key="contents")
        m = Manifest()
        m.parse(have[MF])
        m0 = Manifest()
        m0.parse(by_name(es)[MF])
        for k in m0:
            c.check(m.get(k) == m0[k], "the main attributes stay",
                    key="manifest")
        for n, s in m0.sub_sections.items():
            c.check(n in m.sub_sections and
                    all([m.sub_sections[n].get(k) == s[k] for k in s]),
                    "other sections stay", key="manifest")
        for n, d in es:
            if not exempt(n):
                c.check(c.eq(m.sub_sections[n].get(alg + "-Digest"),
                             digest(d, alg)), "the digest", key="digest")
        c.check(verify_with(c, fs, res, "cert" + key, None, command) is
                None, "it verifies", key="verifies")
        c.check(verify_with(c, fs, res, "cert" + key, alias + ".SF",
                            command) is
                None, "it verifies by name", key="verifies")
        other = {"1": "2", "2": "3", "3": "1"}[key]
        c.check(verify_with(c, fs, res, "cert" + other, None, command),
                "not for another certificate", key="certificate")
        c.check(verify_with(c, fs, res, "cert" + key, "YOU.SF", command),
                "not with another name", key="name")
    c.cover("signed")


def tampered(c, names, alg, what, command):
    """ what is altered after signing is refused """
    fs = c.fs()
    es = jar_of(c, names)
    jar = fs.zip("x.jar", es)
    with Ideal(c):
        sign_with(c, fs, jar, "1", "ME", alg, None, command)
        got = fs.entries("x.jar")
        have = by_name(got)
        refuse = True
        i = c.choose("which", range(len(names)))
        if what == "content":
            n = names[i]
            if n == MF or n.endswith("/"):
                c.assume(False)
            d = c.bytes("new", c.choose("size", (0, 1, 2)))
            refuse = c.not_(c.eq(d, have[n])) if not exempt(n) else False
            got = [(x, d if x == n else y) for x, y in got]
        elif what == "added":
            n = c.choose("name", FILES + EXEMPT[:-1])
            c.assume(not any([n == x for x, _y in got]))
            # more than one signature needs a name
            got.append((n, c.bytes("new", 1) if not n.endswith("/")
                        else b""))
            refuse = not exempt(n) or n == "META-INF/K.SF"
        elif what == "removed":
            n = c.choose("name", (MF, "META-INF/ME.SF", "META-INF/ME.RSA")
                         + tuple(names))
            got = [(x, y) for x, y in got if x != n]
            # what is gone from the archive is not missed
            refuse = n in (MF, "META-INF/ME.SF", "META-INF/ME.RSA")
        elif what == "renamed":
            n = names[i]
            c.assume(not exempt(n))
            got = [("other" if x == n else x, y) for x, y in got]
        elif what in ("main", "section", "digest"):
            m = Manifest()
            m.parse(have[MF])
            v = c.str("value", 1, ASCII)
            if what == "main":
                k = c.choose("key", ("Main", "Manifest-Version", "New"))
                refuse = c.not_(c.eq(m.get(k), v)) if k in m else True
                m[k] = v
            else:
                n = names[i]
                c.assume(not exempt(n))
                s = m.sub_sections[n]
                if what == "section":
                    s[c.choose("key", ("New", "Magic"))] = v
                else:
                    # the digest of something else, and that in its place
                    d = c.bytes("new", 1)
                    refuse = c.not_(c.eq(d, have[n]))
                    s[alg + "-Digest"] = digest(d, alg)
                    got = [(x, d if x == n else y) for x, y in got]
            got = [(x, m.get_data() if x == MF else y) for x, y in got]
        elif what == "sf":
            # both manifests made anew for something else
            m = Manifest()
            m.parse(have[MF])
            m["Main"] = c.str("value", 1, ASCII)
            s = manifest.SignatureManifest(linesep=m.linesep)
            s.digest_manifest(m, alg)
            n = c.choose("name", ("META-INF/ME.SF", MF, "both"))
            same = c.eq(m.get_data(), have[MF])
            refuse = c.not_(same)
            new = {"META-INF/ME.SF": s.get_data(), MF: m.get_data()}
            got = [(x, new[x] if x in (n, "both") or
                    n == "both" and x in new else y) for x, y in got]
        elif what == "block":
            # a signature of something else by the same key
            d = c.str("value", 1, ASCII)
            m = Manifest()
            m["Main"] = d
            s = manifest.SignatureManifest()
            s.digest_manifest(m, alg)
            blk = s.get_signature("cert1", "keys1", [], alg)
            got = [(x, blk if x == "META-INF/ME.RSA" else y)
                   for x, y in got]
        res = fs.zip("z.jar", got)
        st = verify_with(c, fs, res, "cert1", None, command)
        c.check(c.iff(bool(st), refuse), "refused just when it must be",
                key="refused")
    c.cover("refused" if st else "still accepted")


def again(c, names, alg, first="ME", block="1", few=False):
    """ signed again, by the same or another, changed or not """
    fs = c.fs()
    es = jar_of(c, names)
    jar = fs.zip("x.jar", es)
    with Ideal(c):
        sign_with(c, fs, jar, block, first, alg)
        if not few and c.choose("change", (False, True)):
            got = fs.entries("x.jar")
            n = c.choose("which", [n for n in names if not exempt(n)])
            d = c.bytes("new", 1)
            jar = fs.zip("x.jar", [(x, d if x == n else y)
                                   for x, y in got])
        key = c.choose("key", ("1", "2"))
        alias = c.choose("alias", (first, "YOU"))
        alg2 = alg if few else c.choose("alg", (alg, "SHA1"))
        sign_with(c, fs, jar, key, alias, alg2)
        got = [n for n, _d in fs.entries("x.jar")]
        c.check(all([got.count(n) == 1 for n in got]),
                "each entry is there once", key="once")
        c.check(len([n for n in got if n.split(".")[-1] in (
            "RSA", "DSA", "EC") and exempt(n) and n not in names]) ==
            (1 if alias == first else 2), "no block of before is left",
            key="stale")
        c.check(accepted(fs, jar, "cert" + key, alias + ".SF") is None,
                "the new signature verifies", key="again")
        for n in names:
            c.check(n in got, "entries stay", key="entries")
    c.cover("signed again")


def beside(c, command):
    """ signatures of several whose names look alike """
    fs = c.fs()
    one = c.choose("one", ALIASES)
    two = c.choose("two", ALIKE[one])
    if c.choose("swap", (False, True)):
        one, two = two, one
    k1 = c.choose("key one", ("1", "2", "3"))
    k2 = {"1": "2", "2": "3", "3": "1"}[k1]
    d = c.bytes("d", 1)
    jar = fs.zip("x.jar", [("a", d), (MF, b"Manifest-Version: 1.0\n\n")])
    with Ideal(c):
        sign_with(c, fs, jar, k1, one, "SHA-256", None, command)
        sign_with(c, fs, jar, k2, two, "SHA-256", None, command)
        c.check(verify_with(c, fs, jar, "cert" + k1, None, command),
                "which of them must be told", key="two")
        for alias, k, o in ((one, k1, k2), (two, k2, k1)):
            c.check(not verify_with(c, fs, jar, "cert" + k, alias + ".SF",
                                    command), "each by its name",
                    key="beside")
            c.check(verify_with(c, fs, jar, "cert" + o, alias + ".SF",
                                command), "not by that of the other",
                    key="beside")
        # only the block of the other is left
        drop = c.choose("drop", (one, two))
        k = k1 if drop == one else k2
        got = [(n, x) for n, x in fs.entries("x.jar") if n !=
               "META-INF/%s.%s" % (drop, {"1": "RSA", "2": "DSA",
                                          "3": "EC"}[k])]
        jar = fs.zip("y.jar", got)
        for cert in (k1, k2):
            c.check(verify_with(c, fs, jar, "cert" + cert, drop + ".SF",
                                command), "a block is missing",
                    key="beside")
    c.cover("impossible")


def refused(c, command):
    """ what cannot be signed or verified """
    fs = c.fs()
    what = c.choose("what", ("no manifest", "no signature", "two", "key",
                             "no block"))
    es = [("a", c.bytes("d", 1))]
    m = (MF, b"Manifest-Version: 1.0\n\n")
    with Ideal(c):
        if what == "no manifest":
            jar = fs.zip("x.jar", es)
            before = fs.get("x.jar")
            if command:
                st, _t = c.output(jarutil.main, [
                    "jarutil", "s", jar, "cert1", "keys1", "ME"])
                c.check(st not in (0, None), "exit status", key="status")
            else:
                c.check(bad(lambda: jarutil.sign(
                    jar, "cert1", "keys1", "ME"),
                    jarutil.MissingManifestError), "an error", key="error")
            c.check(c.eq(fs.get("x.jar"), before), "the archive stays",
                    key="kept")
        elif what == "key":
            jar = fs.zip("x.jar", es + [m])
            before = fs.get("x.jar")

            def none(key):
                raise crypto.CannotFindKeyTypeError()
            jarutil.private_key_type = none
            if command:
                st, _t = c.output(jarutil.main, [
                    "jarutil", "s", jar, "cert1", "keys1", "ME"])
                c.check(st not in (0, None), "exit status", key="status")
            else:
                c.check(bad(lambda: jarutil.sign(
                    jar, "cert1", "keys1", "ME"),
                    crypto.CannotFindKeyTypeError), "an error",
                    key="error")
            c.check(c.eq(fs.get("x.jar"), before), "the archive stays",
                    key="kept")
        else:
            if what != "no signature":
                jar = fs.zip("x.jar", es + [m])
                sign_with(c, fs, jar, "1", "ME", "SHA-256")
                es = fs.entries("x.jar")
                if what == "two":
                    es.append(("META-INF/YOU.SF", es[1][1]))
                    es.append(("META-INF/YOU.RSA", es[2][1]))
                else:
                    es = [e for e in es if e[0] != "META-INF/ME.RSA"]
                    if c.choose("elsewhere", (False, True)):
                        es.append(("META-INF/x/ME.RSA", b"x"))
            else:
                es.append(m)
            jar = fs.zip("x.jar", es)
            st = verify_with(c, fs, jar, "cert1", None, command)
            c.check(bool(st), "refused", key="refused")
            if what == "two":
                for sf in ("ME.SF", "YOU.SF"):
                    st = verify_with(c, fs, jar, "cert1", sf, command)
                    c.check(not st, "accepted by name", key="by name")
    c.cover("impossible")


# ---------------------------------------------------------------------
# the manifest command

def plant(c, n, where, odd=False):
    fs = c.fs()
    names = ("a.txt", "d/b", "d/e/c.x", "META-INF/MANIFEST.MF") \
        if not odd else (".a", ".d/1 b", "d/.e/c.x", "META-INF")
    es = [(names[i], c.bytes("d%d" % i, c.choose("size%d" % i, (0, 1))))
          for i in range(n)]
    if c.choose("meta", (False, True)):
        es.append(("META-INF/services/x", b"x"))
    if where == "zip":
        return fs, es, fs.zip("x.jar", es + [("d/", b"")])
    for name, d in es:
        fs.put("x/" + name, d)
    fs.mkdir("x/empty")
    if where[:1] == ".":
        fs.chdir("x")
        return fs, es, where
    return fs, es, fs.path("x") + ("/" if where == "dir/" else "")


def created(c, n, where, algs, ignored, recursive=False, odd=False):
    """ a manifest made of an archive or a directory """
    from fnmatch import fnmatch
    fs, es, fn = plant(c, n, where, odd)
    args = ["manifest", "c"]
    if algs:
        args += ["-d", ",".join(algs)]
    for i in ignored:
        args += ["-i"] + list(i)
    if recursive:
        args.insert(2, "-r")
    args.insert(2, fn)
    dest = c.choose("dest", (None, "m.mf", "new/dir/m.mf"))
    if dest:
        args += ["-m", fs.path(dest)]
    st, out = c.output(manifest.main, args)
    c.check(not st, "exit status", key="status")
    if dest:
        c.check(out == "", "nothing else is told", key="told")
        data = fs.get(dest)
    else:
        data = out.encode("utf-8")
    m = Manifest()
    m.parse(data)
    pats = ["META-INF/*"] + [p for i in ignored for p in i]
    pre = fn.rstrip("/") + "/" if recursive else ""
    want = [(pre + x, d) for x, d in es
            if not any([fnmatch(pre + x, p) for p in pats])]
    c.check(sorted(m.sub_sections) == sorted([x for x, _d in want]),
            "a section for each file", key="sections")
    c.check(m["Manifest-Version"] == "1.0" and len(m) == 1,
            "the main section", key="main")
    for name, d in want:
        s = m.sub_sections[name]
        c.check(sorted(s) == sorted(["Name"] + [
            a + "-Digest" for a in algs or ("MD5", "SHA1")]),
            "the digests asked for", key="digests")
        for a in algs or ("MD5", "SHA1"):
            c.check(c.eq(s[a + "-Digest"], digest(d, a)), "the digest",
                    key="digest")
    if not recursive and not ignored and \
            not any([x.startswith("META-INF/") for x, _d in es]):
        # and it vouches for the archive
        jar = fs.zip("y.jar", es + [(MF, data)])
        st, out = c.output(manifest.main, ["manifest", "v", jar])
        c.check(st == 0 and out == "", "it verifies", key="verifies")
    c.cover("created")


def chunks(c, n):
    """ contents come whole, in pieces of any size """
    fs = c.fs()
    d = c.bytes("d", n)
    size = c.choose("size", (1, 2, 3, 4, 100))
    fn = fs.put("f", d)
    got = list(manifest.file_chunk(fn, size)())
    c.check(c.eq(b"".join(got), d), "the whole file", key="chunks")
    jar = fs.zip("x.jar", [("a", b"a"), ("f", d)])
    with zipfile.ZipFile(jar) as z:
        for got in (list(manifest.zipentry_chunk(z, "f", size)()),
                    list(manifest.zipentry_chunk(z, "f")())):
            c.check(c.eq(b"".join(got), d), "the whole entry",
                    key="chunks")
    algs = (hashlib.md5, hashlib.sha1, hashlib.sha256)
    told = manifest.digest_chunks([d[i:i + size] for i in
                                   range(0, n, size)], algs)
    c.check(c.eq(list(told), [digest(d, a) for a in
                              ("MD5", "SHA1", "SHA-256")]),
            "the digests of it all", key="chunks")
    c.cover("chunks")


def queried(c, n):
    """ attributes asked for """
    fs = c.fs()
    v = c.str("v", 1, ASCII)
    w = c.str("w", 1, ASCII)
    text = "Manifest-Version: 1.0\nMain: %s\n\nName: a/b\nKey: %s\n\n" % (
        v, w)
    jar = fs.zip("x.jar", [("a/b", b""), (MF, text.encode("ascii"))])
    qs = (("Main", "Main = %s\n" % v), ("Nope", "Nope = None\n"),
          ("a/b:Key", "a/b:Key = %s\n" % w),
          ("a/b:Nope", "a/b:Nope = None\n"),
          ("x:Key", "x:Key : No such section\n"),
          ("Manifest-Version", "Manifest-Version = 1.0\n"))
    ask = [c.choose("q%d" % i, qs) for i in range(n)]
    st, out = c.output(manifest.main, ["manifest", "q", jar] +
                       [a for a, _b in ask])
    c.check(not st, "exit status", key="status")
    c.check(c.eq(out, "".join([b for _a, b in ask])), "the values",
            key="values")
    c.cover("queried")


def packed(c, n, odd=False):
    """ archives made of files """
    fs = c.fs()
    es = []
    for i in range(n):
        es.append(((("a", "d/.b", "d/.e/f~", "g") if odd else
                    ("a", "d/b", "d/e/f", "g"))[i], c.bytes("d%d" % i, 1)))
    for name, d in es:
        fs.put(name, d)
    fs.mkdir("d/empty")
    fs.put("not", b"n")
    fs.chdir("")
    what = [x for x in ("a", "d", "g")
            if any([name.split("/")[0] == x for name, _d in es]) and
            c.choose(x, (True, False))]
    cmd = "c"
    opts, rest = [], []
    entry = None
    if n == 1:
        # which command it is, and options wherever they go
        cmd = c.choose("command", ("c", "create", "cr"))
        entry = c.choose("entry point", (None, "a.Main", "M"))
        if entry is not None:
            opts = c.choose("spelling", (["-m", entry], ["-m" + entry],
                                         ["--main-class=" + entry]))
            if c.choose("late", (False, True)):
                opts, rest = rest, opts
    st, _o = c.output(jarutil.main, ["jarutil", cmd] + opts + ["x.jar"] +
                      what + rest)
    c.check(st == 0, "exit status", key="status")
    got = fs.entries("x.jar")
    names = [x for x, _d in got]
    want = ["META-INF/", MF]
    for name, d in es:
        if name.split("/")[0] in what:
            parts = name.split("/")
            for i in range(1, len(parts)):
                want.append("/".join(parts[:i]) + "/")
            want.append(name)
            c.check(name in names and c.eq(dict(got)[name], d),
                    "contents", key="contents")
    if "d" in what:
        want.append("d/empty/")
        want.append("d/")
    c.check(sorted(names) == sorted(set(want)), "the entries",
            key="entries")
    m = Manifest()
    m.load_from_jar(fs.path("x.jar"))
    c.check(m["Manifest-Version"] == "1.0", "the manifest",
            key="manifest")
    c.check(m.get("Main-Class") == entry and not m.sub_sections and
            len(m) == (1 if entry is None else 2),
            "the entry point asked for", key="entry point")
    with Ideal(c):
        sign_with(c, fs, fs.path("x.jar"), "1", "ME", "SHA-256")
        c.check(accepted(fs, fs.path("x.jar"), "cert1") is None,
                "it can be signed", key="signed")
    c.cover("packed")


def cases_checksums(tier):
    out = []

    def add(name, fn, weight=1, **p):
        out.append({"name": name, "fn": fn, "weight": weight, "params": p})
    for a in ("MD5", "SHA1", "SHA-256", "SHA-384", "SHA-512"):
        add("one/" + a, "checksums", kinds=["file"], algs=[a], twice=True)
    add("exempt", "checksums", kinds=["exempt"], algs=["SHA1"])
    add("two digests", "checksums", 3, kinds=["file"],
        algs=["SHA1", "SHA-256"])
    add("two", "checksums", 9, kinds=["file", "file"], algs=["SHA-256"])
    add("mixed", "checksums", 9, kinds=["exempt", "file"], algs=["SHA1"])
    for a in ("MD5", "SHA1", "SHA-256", "SHA-384", "SHA-512"):
        add("added/" + a, "added", kinds=["file"], alg=a,
            old="SHA1" if a == "SHA-256" else "SHA-256")
    add("added/md5", "added", kinds=["file"], alg="SHA1", old="MD5")
    add("added/same", "added", kinds=["file", "exempt"], alg="SHA-256",
        old="SHA-256")
    add("added/two", "added", kinds=["file", "file"], alg="SHA-256",
        old="SHA1")
    return out


def cases_sign(tier):
    out = []

    def add(name, fn, weight=1, **p):
        out.append({"name": name, "fn": fn, "weight": weight, "params": p})
    one = ["a"]
    two = ["d/", "d/B.class", "a"]
    odd = ["META-INF/K.EC", "META-INF/services/s", "x"]
    for cmd in (False, True):
        for i, ns in enumerate((one, two, odd)):
            add("signed/%d/%s" % (i, cmd), "signed", 4, names=ns,
                alg=("SHA-256", "SHA1", "SHA-512")[i], command=cmd)
        for w in ("content", "added", "removed", "renamed", "main",
                  "section", "digest", "sf", "block"):
            add("tampered/%s/%s" % (w, cmd), "tampered", 4, names=two,
                alg="SHA-256", what=w, command=cmd)
        add("refused/%s" % cmd, "refused", command=cmd)
        add("beside/%s" % cmd, "beside", 4, command=cmd)
    for w in ("content", "added", "digest"):
        add("tampered/%s/odd" % w, "tampered", 4, names=odd, alg="SHA1",
            what=w, command=False)
    add("again", "again", 9, names=two, alg="SHA-256")
    add("again/other", "again", 4, names=one, alg="SHA-256",
        first="Me.x", block="3", few=True)
    return out


def cases_command(tier):
    out = []

    def add(name, fn, weight=1, **p):
        out.append({"name": name, "fn": fn, "weight": weight, "params": p})
    for where in ("zip", "dir", "dir/"):
        for n in range(0, 4):
            add("created/%s/%d" % (where, n), "created", n, n=n,
                where=where, algs=[], ignored=[])
            add("created/%s/%d/odd" % (where, n), "created", n, n=n,
                where=where, algs=["SHA1"], ignored=[], odd=True)
        add("created/%s/algs" % where, "created", n=1, where=where,
            algs=["SHA-256"], ignored=[])
        add("created/%s/two" % where, "created", n=1, where=where,
            algs=["SHA-512", "MD5"], ignored=[])
        add("created/%s/ignored" % where, "created", n=3, where=where,
            algs=["SHA1"], ignored=[["d/b", "a*"]])
        add("created/%s/twice" % where, "created", n=3, where=where,
            algs=["SHA1"], ignored=[["*.x"], ["a.txt"]])
    for n in (0, 1, 3):
        for r in (False, True):
            add("created/here/%d/%s" % (n, r), "created", n, n=n,
                where="." if n < 3 else "./", algs=["SHA1"], ignored=[],
                recursive=r)
    for n in (0, 1, 4, 7):
        add("chunks/%d" % n, "chunks", n=n)
    for n in (1, 2, 3):
        add("recursive/%d" % n, "created", n, n=n, where="dir",
            algs=["SHA1"], ignored=[], recursive=True)
        add("queried/%d" % n, "queried", n, n=n)
    for n in range(5):
        add("packed/%d" % n, "packed", n, n=n)
        add("packed/%d/odd" % n, "packed", n, n=n, odd=True)
    return out


IDEAL = "signature blocks verify just for what was signed with the key of " \
    "the certificate (an ideal scheme stands in for M2Crypto)"
HASH = "digest algorithms are free of collisions"

PROPS = {
    "P15": {
        "cases": cases_checksums, "covers": ("verified", "failed", "added"),
        "bounds": {"quick": "an entry of up to 2 unknown bytes or two of one, each "
                            "digest right, wrong, absent or of something "
                            "else; all supported digests",
                   "thorough": "the same"},
        "assumptions": (HASH,),
    },
    "P18": {
        "cases": cases_sign,
        "covers": ("signed", "refused", "still accepted", "signed again",
                   "impossible"),
        "bounds": {"quick": "archives of up to 3 entries with unknown "
                            "contents and a manifest with unknown "
                            "attributes; one alteration of each kind",
                   "thorough": "the same"},
        "assumptions": (HASH, IDEAL),
    },
    "P19": {
        "cases": cases_command,
        "covers": ("created", "chunks", "queried", "packed"),
        "bounds": {"quick": "up to 4 files with unknown contents in nested "
                            "directories",
                   "thorough": "the same"},
        "assumptions": (HASH, IDEAL),
    },
}
