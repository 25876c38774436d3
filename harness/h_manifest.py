"""
Manifests: writing, reading, canonical form, checksums, signature files.
"""

from io import BytesIO

from javatools.manifest import (
    Manifest, ManifestSection, MalformedManifest, ManifestKeyException,
    SignatureManifest, file_skips_verification, file_matches_sigfile,
    file_matches_sigblock)

from .util import bad


# text without the characters the format reserves (NUL, LF, CR)
TEXT = ((1, 9), (11, 12), (14, 0xD7FF), (0xE000, 0x10FFFF))
ASCII = ((32, 126),)
NAMES = ((45, 45), (47, 47), (65, 70), (97, 102))


def same_manifest(c, a, b, msg):
    """ the two manifests have the same attributes and sections """
    c.check(c.eq(list(a.items()), list(b.items())), msg + ": main section")
    c.check(len(a.sub_sections) == len(b.sub_sections),
            msg + ": number of sections")
    for k, s in a.sub_sections.items():
        t = b.sub_sections.get(k)
        c.check(t is not None, msg + ": section by its name")
        c.check(c.eq(list(s.items()), list(t.items())), msg + ": section")


def roundtrip(c, m):
    data = m.get_data()
    m2 = Manifest()
    m2.parse(data)
    same_manifest(c, m, m2, "read back")
    c.check(c.eq(m2.get_data(), data), "written the same again")
    c.check(m2.linesep == (m.linesep or "\n"), "same line ends")
    # the line ends asked for come before its own
    for sep in ("\n", "\r\n"):
        m3 = Manifest()
        other = m.get_data(linesep=sep)
        m3.parse(other)
        same_manifest(c, m, m3, "with the line ends asked for")
        c.check(m3.linesep == sep, "the line ends asked for", key="asked")
        out = BytesIO()
        m.store(out, sep)
        c.check(c.eq(out.getvalue(), other), "stored the same",
                key="asked")
        c.check(c.eq(other, data) if sep == (m.linesep or "\n") else
                len(other) != len(data), "the line ends asked for",
                key="asked")
    c.cover("round trip")
    return data


def value_roundtrip(c, klen, before, n, after, chars, where,
                    seps=("\n", "\r\n")):
    """ an attribute of unknown content, of any length around the limits
    of a line, in the main section or in a sub section """
    m = Manifest(linesep=c.choose("linesep", seps))
    v = "a" * before + c.str("v", n, chars) + "b" * after
    if where == "main":
        m["K" * klen] = v
        m["Z"] = "1"
    elif where == "name":
        m.create_section(v)["Z"] = "1"
    else:
        s = m.create_section("x/y")
        s["K" * klen] = v
        s["Z"] = "1"
    roundtrip(c, m)


def structure_roundtrip(c, nkeys, nsects, nskeys):
    """ any attributes and sections """
    m = Manifest(linesep=c.choose("linesep", ["\n", "\r\n"]))
    for i in range(nkeys):
        m[c.str("k%d" % i, 2, ((65, 90), (97, 122), (45, 45)))] = \
            c.str("v%d" % i, 1, TEXT)
    for i in range(nsects):
        s = m.create_section(c.str("s%d" % i, 2, NAMES))
        for j in range(nskeys):
            s[c.str("k%d.%d" % (i, j), 1, ((65, 90),))] = \
                c.str("v%d.%d" % (i, j), 1, ASCII)
    roundtrip(c, m)


def cases_roundtrip(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=1, **p):
        out.append({"name": name, "fn": fn, "params": p, "weight": weight})
    for n in range(0, 4 if big else 3):
        add("value/%d" % n, "value_roundtrip", 1 + n * 2, klen=3, before=0,
            n=n, after=0, chars=TEXT, where="main", seps=("\n", "\r\n", None))
        add("svalue/%d" % n, "value_roundtrip", 1 + n * 2, klen=1, before=0,
            n=n, after=0, chars=TEXT, where="sub")
        if n:
            add("name/%d" % n, "value_roundtrip", 1 + n * 2, klen=1,
                before=0, n=n, after=0, chars=TEXT, where="name")
    # around the end of the first and of the following lines
    first = range(56, 70) if big else range(60, 68)
    for b in first:
        add("long/%d" % b, "value_roundtrip", 5, klen=2, before=b,
            n=3 if big else 2, after=5, chars=TEXT, where="main" if b % 2 else "sub")
    for b in (range(128, 140) if big else range(131, 136)):
        add("longer/%d" % b, "value_roundtrip", 5, klen=2, before=b,
            n=3 if big else 2, after=3, chars=TEXT, where="sub" if b % 2 else "main")
    for b in (range(55, 70) if big else (61, 63, 64, 65, 66)):
        add("longname/%d" % b, "value_roundtrip", 5, klen=2, before=b, n=2,
            after=3, chars=TEXT, where="name")
    for k in (1, 34, 64, 65, 66, 67, 68):
        for b in (0, 1, 2, 3):
            add("key/%d/%d" % (k, b), "value_roundtrip", 2, klen=k,
                before=b, n=1, after=68 - k if k < 65 else 1, chars=TEXT,
                where="sub" if b % 2 else "main")
    for nk, ns, nsk in ([(0, 0, 0), (1, 0, 0), (2, 0, 0), (1, 1, 1),
                         (0, 2, 1), (0, 1, 2), (0, 3, 0)] +
                        ([(3, 0, 0), (2, 2, 1), (1, 2, 2), (0, 3, 1)]
                         if big else [])):
        add("structure/%d/%d/%d" % (nk, ns, nsk), "structure_roundtrip", 4,
            nkeys=nk, nsects=ns, nskeys=nsk)
    return out


def lines_of(c, data, sep):
    """ the lines of a stored manifest; checks each is well-formed and
    within 72 bytes """
    lines = data.split(sep)
    c.check(len(lines[-1]) == 0, "the last line is complete")
    lines = lines[:-1]
    for i, ln in enumerate(lines):
        c.check(len(ln) + len(sep) <= 72, "lines have at most 72 bytes")
        if len(ln) and ln[0] == 32:
            c.check(i > 0 and len(lines[i - 1]) > 0, "a continued line")
        elif len(ln):
            c.check(b": " in ln, "an attribute line")
    return lines


def unfold(lines):
    out = []
    for ln in lines:
        if len(ln) and ln[0] == 32:
            out[-1] = out[-1] + ln[1:]
        else:
            out.append(ln)
    return out


def wrapped(c, klens, vlens, chars, n):
    """ lines of every length are cut within the limit, and hold exactly
    the attributes """
    sep = c.choose("linesep", ["\n", "\r\n"])
    k = "K" * c.choose("klen", klens)
    vl = c.choose("vlen", vlens)
    v = c.str("v", n, chars)
    v = "a" * vl + v
    m = Manifest(linesep=sep)
    m[k] = v
    s = m.create_section(v)
    s[k] = "x"
    data = m.get_data()
    bsep = sep.encode("utf-8")
    lines = unfold(lines_of(c, data, bsep))
    kb, vb = k.encode("utf-8"), v.encode("utf-8")
    want = [b"Manifest-Version: 1.0", kb + b": " + vb, b"",
            b"Name: " + vb, kb + b": x", b""]
    c.check(len(lines) == len(want), "number of attributes")
    for a, b in zip(lines, want):
        c.check(c.eq(a, b), "attributes as given, in order")
    c.check(c.eq(m.get_main_section(), bsep.join(
        data.split(bsep + bsep)[:1]) + bsep + bsep), "the main section")
    c.cover("wrapped")


def canonical(c, perm, nattr):
    """ what is written does not depend on the order in which sections
    were created """
    sep = c.choose("linesep", ["\n", "\r\n"])
    names = [c.str("n%d" % i, 1, NAMES) for i in range(len(perm))]
    for i in range(len(names)):
        for j in range(i):
            c.assume(c.not_(c.eq(names[i], names[j])))
    vals = [c.str("v%d" % i, 1, ASCII) for i in range(len(perm))]
    one, two = Manifest(linesep=sep), Manifest(linesep=sep)
    for i in range(len(perm)):
        s = one.create_section(names[i])
        for j in range(nattr):
            s["A%d" % j] = vals[i]
    for i in perm:
        s = two.create_section(names[i])
        for j in range(nattr):
            s["A%d" % j] = vals[i]
    d1, d2 = one.get_data(), two.get_data()
    c.check(c.eq(d1, d2), "independent of the order of creation")
    main = one.get_main_section()
    c.check(c.eq(d1[:len(main)], main), "the main section comes first")
    bsep = sep.encode("utf-8")
    got = unfold(lines_of(c, d1, bsep))
    c.check(len(got) == 2 + len(perm) * (2 + nattr), "every section")
    three = Manifest()
    three.parse(d2)
    c.check(c.eq(three.get_data(), d1), "written the same again")
    # an existing section is replaced, or kept when asked to
    if len(perm):
        keep = c.choose("keep", [True, False])
        s = one.create_section(names[0], overwrite=not keep)
        c.check(c.eq(list(s.keys()), ["Name"] + ["A%d" % j for j in range(
            nattr if keep else 0)]), "creating an existing section")
        c.check(c.eq(s.primary(), names[0]), "its name")
        c.check(len(one.sub_sections) == len(perm), "sections are unique")
    c.cover("canonical")


def bad_key(c, lens, chars):
    """ keys the format cannot hold are refused, not written """
    n = c.choose("len", lens)
    k = c.str("k", 2, chars)[:n] + "k" * (n - 2)
    size = len(k.encode("utf-8"))
    where = c.choose("where", ["main", "sub"])
    m = Manifest()

    def go():
        t = m if where == "main" else m.create_section("x")
        t[k] = "v"
        return m.get_data()
    ex = bad(go)
    if 0 < size <= 68:
        c.check(ex is None, "a key of up to 68 bytes")
        c.cover("good key")
    else:
        c.check(isinstance(ex, ManifestKeyException), "bad keys are refused")
        c.cover("bad key")


def cases_canonical(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=1, **p):
        out.append({"name": name, "fn": fn, "params": p, "weight": weight})
    ks = [1, 2, 33, 65, 66, 67, 68]
    for lo in range(0, 300 if big else 225, 25):
        add("wrapped/%d" % lo, "wrapped", 5, klens=ks if not big else
            list(range(1, 69, 3)) + ks, vlens=list(range(lo, lo + 25)),
            chars=ASCII, n=1)
    for lo in range(55, 75, 5):
        add("wrapped wide/%d" % lo, "wrapped", 5, klens=[1, 4, 67],
            vlens=list(range(lo, lo + 5)),
            chars=((0xE0, 0x2FF), (0x20000, 0x2FFFF)), n=2)
    perms = [[], [0], [0, 1], [1, 0], [1, 2, 0], [2, 1, 0], [1, 0, 2]]
    if big:
        perms += [[3, 1, 0, 2], [2, 3, 1, 0]]
    for p in perms:
        for na in (0, 1, 2):
            if len(p) < 3 or na < 2:
                add("canonical/%s/%d" % ("".join(map(str, p)), na),
                    "canonical", 2 ** len(p), perm=p, nattr=na)
    add("key/ascii", "bad_key", lens=[0, 1, 2, 40, 67, 68, 69, 70, 71, 100],
        chars=((65, 90), (97, 122)))
    add("key/wide", "bad_key", lens=[1, 2, 30, 64, 65, 66, 67, 68, 69, 70],
        chars=((65, 90), (0xE0, 0x2FF), (0x20000, 0x2FFFF)))
    return out


# ---------------------------------------------------------------------
# reading any text

def ref_parse(c, data):
    """ sections of (key, value) pairs, or None when malformed; data is a
    sequence of bytes """
    lines, cur, i = [], b"", 0
    n = len(data)
    while i < n:
        b = data[i]
        if b == 10 or b == 13:
            lines.append(cur)
            cur = b""
            if b == 13 and i + 1 < n and data[i + 1] == 10:
                i += 1
        elif b != 0:
            cur = cur + data[i:i + 1]
        i += 1
    if len(cur):
        lines.append(cur)
    out, sect = [], None
    for ln in lines:
        if len(ln) == 0:
            if sect is not None:
                out.append(sect)
            sect = None
        elif ln[0] == 32:
            if sect is None:
                return None
            sect[-1][1] = sect[-1][1] + ln[1:]
        else:
            at = None
            for j in range(len(ln)):
                if ln[j] == 58:
                    at = j
                    break
            if at is None:
                return None
            # what follows the colon is not specified but for a space
            c.assume(at + 1 >= len(ln) or ln[at + 1] == 32)
            if sect is None:
                sect = []
            sect.append([ln[:at], ln[at + 2:]])
    if sect is not None:
        out.append(sect)
    return out


def text_of(b):
    return b.decode("utf-8", errors="ignore")


def parse_any(c, parts):
    """ parts: literal bytes, or numbers of unknown bytes """
    data = b""
    for i, p in enumerate(parts):
        if isinstance(p, int):
            data = data + c.bytes("d%d" % i, p, (
                (0, 0), (10, 10), (13, 13), (32, 32), (58, 58), (65, 65),
                (0xA9, 0xA9), (0xC3, 0xC3)))
        else:
            data = data + p
    m = Manifest()
    ex = bad(lambda: m.parse(data))
    ref = ref_parse(c, data)
    if ref is None:
        c.check(isinstance(ex, MalformedManifest),
                "malformed manifests are refused")
        c.cover("malformed")
        return
    c.check(ex is None, "well-formed manifests are accepted")
    main = Manifest()
    for k, v in (ref[0] if ref else []):
        main[text_of(k)] = text_of(v)
    c.check(c.eq(list(m.items()), list(main.items())), "main attributes")
    want = {}
    for s in ref[1:]:
        sect = ManifestSection(None)
        named = False
        for k, v in s:
            sect[text_of(k)] = text_of(v)
            if text_of(k) == "Name":
                named = True
        c.assume(named)
        name = sect.primary()
        c.assume(name not in want)
        want[name] = sect
    c.check(len(m.sub_sections) == len(want), "number of sections")
    for k, s in want.items():
        t = m.sub_sections.get(k)
        c.check(t is not None, "section found by its name")
        c.check(c.eq(list(t.items()), list(s.items())), "section attributes")
    c.check(m.linesep == ("\r\n" if b"\r\n" in data else "\n"),
            "line separator")
    c.cover("parsed")
    if want:
        c.cover("sections")


def cases_parse(tier):
    big = tier == "thorough"
    out = []

    def add(*parts):
        out.append({"name": "parse/%s" % "|".join(map(str, parts)),
                    "fn": "parse_any", "params": {"parts": list(parts)},
                    "weight": 6 ** sum(p for p in parts
                                       if isinstance(p, int))})
    for n in range(0, 6 if big else 5):
        add(n)
    w = 4 if big else 3
    for t in [(b"A: b", w), (b"A: b\n", w), (b"A: b\r\n", w), (w, b"A: b"),
              (b"A: b\n\nName: x\n", w), (b"A: b\r\n\r\nName: x", w,
                                         b"C: d\r\n"),
              (b"\n\n", w), (b"A: b\n ", w), (b"A: b\n c\n d", w),
              (b"Name: x\n\nName: ", w), (b"A: \n\nName: ", 1, b"\n", w),
              (b"A: b\n\nName: x\nB: 1\n\nName: y", w),
              (b"A: b\n", 2, b"Name: q\n", 2, b"Name: r\nB: 2"),
              (b"A: \xc3", 1, b" ", 2), (b"\xc3\xa9: \xc3\n ", 2),
              (b"A: 1\nA: ", w), (b"A", w, b"B: 1"),
              (b"Manifest-Version: ", w),
              (b"A: 1\n\nName: x\nName: y\n", w)]:
        add(*t)
    return out


# ---------------------------------------------------------------------
# names of signature files

def sig_name(c, prefix, n, suffix, chars):
    """ which entries take part in signing, by their names """
    name = prefix + c.str("n", n, chars) + suffix
    up = name.upper()
    parts = up.split("/")
    inside = len(parts) == 2 and parts[0] == "META-INF"
    base = parts[-1]
    sf = inside and base.endswith(".SF")
    block = inside and (base.endswith(".RSA") or base.endswith(".DSA") or
                        base.endswith(".EC") or base.startswith("SIG-"))
    mf = up == "META-INF/MANIFEST.MF"
    folder = name.endswith("/")
    c.check(bool(file_skips_verification(name)) ==
            (mf or folder or sf or block),
            "the files exempt from verification")
    # as spelled by the specification
    if name.startswith("META-INF/"):
        c.check(bool(file_matches_sigfile(name)) == sf, "signature files")
        c.check(bool(file_matches_sigblock(name)) == block,
                "signature block files")
    if not inside:
        c.check(not file_matches_sigfile(name) and
                not file_matches_sigblock(name),
                "nothing outside of META-INF signs")
    c.cover("skipped" if mf or folder or sf or block else "verified")


def cases_names(tier):
    big = tier == "thorough"
    out = []
    letters = ((45, 47), (65, 90), (97, 122))

    def add(prefix, n, suffix, chars=letters):
        out.append({"name": "names/%s|%d|%s" % (prefix, n, suffix),
                    "fn": "sig_name", "weight": 6 ** n, "params": {
                        "prefix": prefix, "n": n, "suffix": suffix,
                        "chars": chars}})
    k = 6 if big else 5
    for p in ("META-INF/", "meta-inf/", "Meta-Inf/", "", "META-INF", "a/",
              "META-INF/x/", "x/META-INF/", "META-INF/SIG", "META-INF/a.",
              "META-INF/.", "META-INF/SIG-"):
        for n in range(0, k + 1):
            add(p, n, "")
    for s in (".SF", ".RSA", ".DSA", ".EC", ".sf", ".Rsa", "SF", "EC",
              ".SF/", "/", ".SFX", ".class", ".SF.x"):
        for p in ("META-INF/", "meta-inf/", "", "META-INF/s/", "x/"):
            add(p, 2, s)
    for p, s in (("META-INF/MANIFEST.M", ""), ("", "ETA-INF/MANIFEST.MF"),
                 ("META-INF", "MANIFEST.MF"), ("META-INF/", "MANIFEST.MF"),
                 ("META-INF/MANIFEST", "MF"), ("META-INF/MANIFEST.MF", "")):
        add(p, 1, s)
    add("META-INF/MANIFEST.MF", 0, "")
    add("meta-inf/Manifest.mf", 0, "")
    return out


# ---------------------------------------------------------------------
# signature files

ALGS = ("MD5", "SHA1", "SHA-256", "SHA-384", "SHA-512")


def some_manifest(c, nsects, seps=("\n", "\r\n", None), attrs=1,
                  tag="", algs=("SHA-256",)):
    """ a manifest with unknown sections and digests """
    m = Manifest(linesep=c.choose(tag + "linesep", seps))
    m["Main"] = c.str(tag + "main", 1, ASCII)
    for i in range(nsects):
        s = m.create_section("n%d/" % i + c.str(tag + "n%d" % i, 1, NAMES))
        for a in algs:
            s[a + "-Digest"] = c.str(tag + "d%d%s" % (i, a), 1, ASCII)
        for j in range(attrs - 1):
            s["X%d" % j] = c.str(tag + "x%d.%d" % (i, j), 1, ASCII)
    return m


def reparsed(c, m, how):
    """ the manifest itself, or as read from what was written """
    if how == "kept":
        return m
    m2 = Manifest()
    m2.parse(m.get_data())
    return m2


def sf_accepts(c, nsects, alg, perm):
    """ a signature file made for a manifest vouches for it, also when
    both are written and read back """
    m = Manifest(linesep=c.choose("linesep", ["\n", "\r\n", None]))
    m["Main"] = c.str("main", 1, ASCII)
    # sections may be created in any order
    for i in perm:
        s = m.create_section(c.str("n%d" % i, 1, NAMES) + "%d" % i)
        s[alg + "-Digest"] = c.str("d%d" % i, 1, ASCII)
    sep = m.linesep
    if len(perm) < 2:
        # its own lines may end in another way
        sep = c.choose("own linesep", [sep, "\n", "\r\n"])
    sf = SignatureManifest(linesep=sep)
    sf.digest_manifest(m, alg)
    how = c.choose("manifest", ["kept", "read back"])
    if c.choose("signature file", ["kept", "read back"]) == "read back":
        sf2 = SignatureManifest()
        sf2.parse(sf.get_data())
        sf = sf2
    m = reparsed(c, m, how)
    held, mine = m.get_data(), sf.get_data()
    c.check(c.eq(sf.verify_manifest_main_checksum(m), True),
            "the digest of the whole manifest")
    c.check(c.eq(sf.verify_manifest_main_attributes_checksum(m), True),
            "the digest of the main section")
    c.check(sf.verify_manifest_entry_checksums(m) == [],
            "the digests of the sections")
    c.check(sf.verify_manifest(m) == [], "the manifest is accepted")
    c.check(c.and_(c.eq(m.get_data(), held), c.eq(sf.get_data(), mine)),
            "checking changes neither")
    c.cover("accepted")


def sf_tampered(c, nsects, alg, what, attrs):
    """ any change to the manifest is noticed, and located """
    m = some_manifest(c, nsects, ("\n", "\r\n"), attrs, algs=(alg,))
    sf = SignatureManifest(linesep=m.linesep)
    sf.digest_manifest(m, alg)
    t = reparsed(c, m, "read back")
    v = c.str("new", 1, ASCII)
    want = None
    if what == "main":
        c.assume(c.not_(c.eq(t["Main"], v)))
        t["Main"] = v
        want = ["META-INF/MANIFEST.MF"]
    elif what == "main key":
        t["Main" + c.str("key", 1, ((65, 90),))] = v
        want = ["META-INF/MANIFEST.MF"]
    elif what == "main removed":
        del t["Main"]
        want = ["META-INF/MANIFEST.MF"]
    elif what == "section":
        i = c.choose("which", list(range(nsects)))
        s = list(t.sub_sections.values())[i]
        c.assume(c.not_(c.eq(s[alg + "-Digest"], v)))
        s[alg + "-Digest"] = v
        want = [s.primary()]
    elif what == "section key":
        i = c.choose("which", list(range(nsects)))
        s = list(t.sub_sections.values())[i]
        s["Y"] = v
        want = [s.primary()]
    elif what == "two":
        ss = list(t.sub_sections.values())
        for s in ss[:2]:
            c.assume(c.not_(c.eq(s[alg + "-Digest"], v)))
            s[alg + "-Digest"] = v
        want = [s.primary() for s in ss[:2]]
    elif what == "added":
        s = t.create_section("q" + v)
        s[alg + "-Digest"] = c.str("dv", 1, ASCII)
        want = [s.primary()]
    elif what == "added bare":
        s = t.create_section("q" + v)
        want = [s.primary()]
    elif what == "removed":
        # the signature covers more than there is: each of the remaining
        # sections is as it was
        i = c.choose("which", list(range(nsects)))
        k = list(t.sub_sections.keys())[i]
        del t.sub_sections[k]
        want = []
    c.check(c.eq(sf.verify_manifest_main_checksum(t), False),
            "the digest of the whole manifest")
    got = sf.verify_manifest(t)
    c.check(len(got) == len(want), "number of rejected entries")
    for w in want:
        c.check(c.or_(*[c.eq(w, g) for g in got]), "the entry is rejected")
    c.cover("tampered")


def sf_digests(c, algs, nsects, wholes=("right", "wrong", "absent")):
    """ each digest present, absent or wrong: the manifest is accepted
    exactly when the whole matches, or the main section and every section
    do """
    m = some_manifest(c, nsects, ("\n", "\r\n"), algs=algs)
    full = {}
    for a in algs:
        full[a] = SignatureManifest(linesep=m.linesep)
        full[a].digest_manifest(m, a)
    sf = SignatureManifest(linesep=m.linesep)

    def put(target, key, a, good, label,
            states=("right", "wrong", "absent")):
        st = c.choose(label, states)
        if st == "right":
            target[key] = good
        elif st == "wrong":
            w = c.str("w" + label, 1, ASCII)
            target[key] = w + good[1:]
            return bool(w == good[:1])
        return st == "right"
    whole = False
    for a in algs:
        k = a + "-Digest-Manifest"
        if put(sf, k, a, full[a][k], "whole " + a, wholes):
            whole = True
    main = False
    for a in algs:
        k = a + "-Digest-Manifest-Main-Attributes"
        if put(sf, k, a, full[a][k], "main " + a):
            main = True
    bad_ = []
    for i, name in enumerate(list(m.sub_sections.keys())):
        here = c.choose("has %d" % i, [True, False])
        ok = False
        if here:
            s = sf.create_section(name)
            for a in algs:
                k = a + "-Digest"
                good = full[a].sub_sections[name][k]
                if put(s, k, a, good, "s%d %s" % (i, a)):
                    ok = True
        if not ok:
            bad_.append(name)
    mine = sf.get_data()
    got = sf.verify_manifest(m)
    c.check(c.eq(sf.get_data(), mine), "checking changes nothing")
    if whole:
        want = []
    elif not main:
        want = ["META-INF/MANIFEST.MF"]
    else:
        want = bad_
    c.check(c.eq(list(got), want), "the entries rejected")
    c.cover("digests " + ("good" if not want else "bad"))


def cases_sf(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=1, **p):
        out.append({"name": name, "fn": fn, "params": p, "weight": weight})
    for alg in ALGS:
        add("accept/%s" % alg, "sf_accepts", 3, nsects=1, alg=alg, perm=[0])
    for p in ([], [0, 1], [1, 0], [2, 0, 1]) + (
            ([2, 1, 0, 3],) if big else ()):
        add("accept/%s" % "".join(map(str, p)), "sf_accepts", 2 ** len(p),
            nsects=len(p), alg="SHA-256", perm=p)
    for what in ("main", "main key", "main removed", "section",
                 "section key", "two", "added", "added bare", "removed"):
        for ns in ((1, 2, 3) if big else (1, 2)):
            if what == "two" and ns < 2:
                continue
            for at in (1, 2):
                if at == 2 and ns > 2:
                    continue
                add("tampered/%s/%d/%d" % (what, ns, at), "sf_tampered",
                    2 ** ns, nsects=ns, alg="SHA1" if at == 2 else "SHA-256",
                    what=what, attrs=at)
    add("digests/1/0", "sf_digests", 2, algs=("SHA-256",), nsects=0)
    add("digests/1/1", "sf_digests", 4, algs=("SHA-256",), nsects=1)
    add("digests/1/2", "sf_digests", 9, algs=("SHA1",), nsects=2)
    add("digests/2/0", "sf_digests", 9, algs=("MD5", "SHA-512"), nsects=0)
    for w in ("absent",) + (("right", "wrong") if big else ()):
        add("digests/2/1/%s" % w, "sf_digests", 81, algs=("SHA1", "SHA-256"),
            nsects=1, wholes=(w,))
    return out


PROPS = {
    "P16": {
        "cases": cases_names, "covers": ("skipped", "verified"),
        "bounds": {"quick": "names with up to 5 unknown characters (letters, "
                            "dot, dash, slash) in 12 contexts and 2 within "
                            "the usual endings",
                   "thorough": "up to 6 unknown characters"},
    },
    "P17": {
        "cases": cases_sf,
        "covers": ("accepted", "tampered", "digests good", "digests bad"),
        "bounds": {"quick": "manifests of up to 3 sections with unknown "
                            "names and values, every supported digest; one "
                            "change of every kind; every combination of "
                            "right, wrong and absent digests",
                   "thorough": "4 sections, two digests per section"},
        "assumptions": ("digest algorithms are free of collisions",),
    },
    "P13": {
        "cases": cases_canonical,
        "covers": ("wrapped", "canonical", "bad key", "good key"),
        "bounds": {"quick": "keys of 1-68 bytes, values of 0-225 bytes with "
                            "unknown characters at the end; up to 3 "
                            "sections with unknown names and values",
                   "thorough": "values of up to 300 bytes, 4 sections"},
    },
    "P14": {
        "cases": cases_parse, "covers": ("parsed", "malformed", "sections"),
        "bounds": {"quick": "up to 4 unknown bytes, alone and within 19 "
                            "contexts; unknown bytes are NUL, CR, LF, "
                            "space, colon, a letter or a two-byte "
                            "character's halves",
                   "thorough": "up to 5 unknown bytes"},
        "assumptions": ("the character after a key's colon is a space",
                        "sections have distinct names"),
    },
    "P12": {
        "cases": cases_roundtrip,
        "covers": ("round trip",),
        "bounds": {"quick": "values with up to 3 unknown characters of all "
                            "of Unicode at every position around the line "
                            "limits, keys of 1-68 characters; up to 3 "
                            "sections and attributes with unknown names",
                   "thorough": "up to 4 unknown characters, more offsets, "
                               "3 sections with attributes"},
    },
}
