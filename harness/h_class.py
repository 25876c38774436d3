"""
Class files: constant pool, overall structure, attributes.
"""

import struct
from io import BytesIO

import javatools
from javatools import (
    unpack_class, unpack_classfile, is_class, is_class_file,
    JavaClassInfo, JavaConstantPool,
    ClassUnpackException, UnpackException, UnknownConstantPoolTagException,
    platform_from_version)
from javatools.pack import unpack

from .util import (Pool, u1, u2, u4, attr, table, member, class_bytes,
                   ref_int, bad)


# ---------------------------------------------------------------------
# constant pool

# tag -> shape of the data that follows it
SHAPES = {3: "s4", 4: "f4", 5: "s8", 6: "f8", 7: "2", 8: "2", 9: "22",
          10: "22", 11: "22", 12: "22", 13: "22", 15: "12", 16: "2",
          17: "22", 18: "22", 19: "2", 20: "2"}


def feed(kind, data):
    if kind == "stream":
        return unpack(BytesIO(data))
    if kind == "view":
        return unpack(memoryview(data))
    return unpack(data)


def pool_entry(c, i, tag):
    """ bytes of entry i with unknown content, and its expected value """
    shape = SHAPES[tag]
    if shape == "s4":
        d = c.bytes("e%d" % i, 4)
        return u1(tag) + d, ref_int(d, 0, 4, True)
    if shape == "s8":
        d = c.bytes("e%d" % i, 8)
        return u1(tag) + d, ref_int(d, 0, 8, True)
    if shape == "f4":
        d = c.bytes("e%d" % i, 4)
        # any bit pattern but a NaN
        c.assume(c.not_(c.and_(c.eq((d[0] & 0x7f) * 2 + d[1] // 128, 255),
                               (d[1] & 0x7f) * 65536 + d[2] * 256 + d[3]
                               > 0)))
        return u1(tag) + d, ("f", d)
    if shape == "f8":
        d = c.bytes("e%d" % i, 8)
        c.assume((d[0] & 0x7f) * 16 + d[1] // 16 != 2047)
        return u1(tag) + d, ("d", d)
    if shape == "2":
        v = c.int("e%d" % i, 0, 65535)
        return u1(tag) + u2(v), v
    if shape == "22":
        a, b = c.int("e%da" % i, 0, 65535), c.int("e%db" % i, 0, 65535)
        return u1(tag) + u2(a) + u2(b), (a, b)
    a, b = c.int("e%da" % i, 0, 255), c.int("e%db" % i, 0, 65535)
    return u1(tag) + u1(a) + u2(b), (a, b)


def check_value(c, got, want):
    if isinstance(want, tuple) and want[0] in ("f", "d") and \
            isinstance(want[0], str):
        c.check(c.eq(struct.pack(">" + want[0], got), want[1]),
                "a floating point constant keeps its bits")
    else:
        c.check(c.eq(got, want), "value of the constant")


def pool_items(c, kind, tags, tail, many=0, long=0):
    """ entries of the given kinds in a row, every content """
    data = b"\x03\0\0\0\x07" * many
    want = [None] + [(3, 7)] * many
    for i, tag in enumerate(tags):
        if tag == 1:
            n = 3 + long
            s = c.str("s%d" % i, 3, ((1, 127),)) + "x" * long
            data += u1(1) + u2(n) + s.encode("utf-8")
            want.append((1, s))
        else:
            d, v = pool_entry(c, i, tag)
            data += d
            want.append((tag, v))
        if tag in (5, 6):
            want.append(None)
    rest = c.bytes("rest", tail)
    pool = JavaConstantPool()
    with feed(kind, u2(len(want)) + data + rest) as up:
        pool.unpack(up)
        c.check(c.eq(bytes(up.read(tail)), rest),
                "the pool ends with its last entry")
    c.check(len(pool.consts) == len(want), "number of entries")
    for i, w in enumerate(want):
        t, v = pool.get_const(i)
        if w is None:
            c.check(t is None and v is None,
                    "index 0 and the second slot of a wide constant are "
                    "empty")
        else:
            c.check(t == w[0], "tag of the constant")
            check_value(c, v, w[1])
    c.observe("consts", [x for x in pool.consts])
    c.cover("pool")


def pool_short(c, kind, tags):
    """ a pool cut anywhere is an error """
    data = b""
    n = 1
    for i, tag in enumerate(tags):
        data += pool_entry(c, i, tag)[0]
        n += 2 if tag in (5, 6) else 1
    data = u2(n) + data
    cut = c.choose("cut", range(len(data)))
    pool = JavaConstantPool()
    with feed(kind, data[:cut]) as up:
        c.check(isinstance(bad(lambda: pool.unpack(up)), UnpackException),
                "a truncated pool is reported")
    c.cover("pool short")


def pool_any_tag(c, n):
    """ any tag byte: the documented ones are read, the others rejected """
    tag = c.int("tag", 0, 255)
    c.assume(tag != 1)
    rest = c.bytes("rest", n)
    pool = JavaConstantPool()
    up = unpack(u2(2) + u1(tag) + rest)
    ex = bad(lambda: pool.unpack(up))
    if tag in SHAPES:
        size = sum([int(x) for x in SHAPES[c.conc(tag)] if x in "1248"])
        if size > n:
            c.check(isinstance(ex, UnpackException), "short entry")
        else:
            c.check(ex is None, "a known tag is accepted")
            c.check(up.offset == 3 + size, "an entry has its own size")
        c.cover("known tag")
    else:
        c.check(isinstance(ex, UnknownConstantPoolTagException),
                "an unknown tag is rejected")
        c.cover("unknown tag")


def pool_utf8(c, n, what):
    """ text constants, including Java's own encoding of U+0000 """
    ranges = {"ascii": ((1, 0x7f),), "two": ((0x80, 0x7ff),),
              "bmp": ((0x800, 0xd7ff), (0xe000, 0xffff)),
              "any": ((1, 0xd7ff), (0xe000, 0x10ffff)),
              "nul": ((1, 0x7f),),
              "pairs": ((1, 0xd7ff), (0xe000, 0x10ffff))}[what]
    s = c.str("s", n, ranges)
    enc = s.encode("utf-8")
    want = s
    if what == "nul":
        k = c.choose("at", range(n + 1))
        enc = s[:k].encode("utf-8") + b"\xc0\x80" + s[k:].encode("utf-8")
        want = s[:k] + "\x00" + s[k:]
    elif what == "pairs":
        # characters beyond the basic plane are stored as two surrogates
        k = c.choose("nul", [None] + list(range(n + 1)))
        enc, want = b"", ""
        for i in range(n + 1):
            if i == k:
                enc, want = enc + b"\xc0\x80", want + "\x00"
            if i < n:
                x = ord(s[i])
                if x > 0xffff:
                    y = x - 0x10000
                    for z in (0xd800 + (y >> 10), 0xdc00 + (y & 0x3ff)):
                        enc += u1(0xe0 + (z >> 12)) + u1(
                            0x80 + ((z >> 6) & 0x3f)) + u1(0x80 + (z & 0x3f))
                else:
                    enc += s[i:i + 1].encode("utf-8")
                want += s[i:i + 1]
    pool = JavaConstantPool()
    with unpack(u2(3) + u1(1) + u2(len(enc)) + enc +
                u1(8) + u2(1)) as up:
        pool.unpack(up)
    c.check(c.eq(pool.deref_const(1), want), "text of the constant")
    c.check(c.eq(pool.deref_const(2), want), "text through a String")
    c.check(c.eq(pool.pretty_deref_const(2), want), "text through a String")
    c.observe("text", pool.deref_const(1))
    c.cover("utf8")


def cases_pool(tier):
    big = tier == "thorough"
    out = []
    tags = sorted(SHAPES) + [1]
    for kind in ("buffer", "stream", "view"):
        for t in tags:
            out.append({"name": "pool/%s/%d" % (kind, t),
                        "fn": "pool_items",
                        "params": {"kind": kind, "tags": [t], "tail": 2}})
        if kind == "view" and not big:
            continue
        for t in tags:
            for u in tags:
                out.append({"name": "pool/%s/%d-%d" % (kind, t, u),
                            "fn": "pool_items",
                            "params": {"kind": kind, "tags": [t, u],
                                       "tail": 1}})
        for t in ((5, 6, 5), (1, 6, 1), (5, 5, 7), (6, 12, 6), (3, 4, 5, 6),
                  (15, 16, 17, 18, 19, 20), (1, 5, 1, 6, 1)):
            out.append({"name": "pool/%s/%s" % (kind, "-".join(map(str, t))),
                        "fn": "pool_items", "weight": 2,
                        "params": {"kind": kind, "tags": list(t),
                                   "tail": 3}})
        for n in (300, 33000):
            # more of them, or longer ones, than a byte or a signed short
            # can count
            out.append({"name": "many/%s/%d" % (kind, n),
                        "fn": "pool_items", "weight": n // 1000,
                        "params": {"kind": kind, "tags": [5, 12], "tail": 1,
                                   "many": n}})
            out.append({"name": "long/%s/%d" % (kind, n),
                        "fn": "pool_items", "weight": n // 1000,
                        "params": {"kind": kind, "tags": [1, 7], "tail": 1,
                                   "long": n}})
        if big:
            for t in (1, 5, 6, 7, 9, 15):
                for u in tags:
                    for v in (1, 3, 5, 12):
                        out.append({
                            "name": "pool/%s/%d-%d-%d" % (kind, t, u, v),
                            "fn": "pool_items",
                            "params": {"kind": kind, "tags": [t, u, v],
                                       "tail": 1}})
        for t in ((5, 3), (6,), (4, 12), (15, 16), (9, 5)):
            out.append({"name": "short/%s/%s" % (
                kind, "-".join(map(str, t))), "fn": "pool_short",
                "params": {"kind": kind, "tags": list(t)}})
    for n in range(0, 9 if big else 5):
        out.append({"name": "tags/%d" % n, "fn": "pool_any_tag",
                    "params": {"n": n}})
    for what in ("ascii", "two", "bmp", "any", "nul", "pairs"):
        for n in range(0, 5 if big else 3):
            out.append({"name": "utf8/%s/%d" % (what, n), "fn": "pool_utf8",
                        "params": {"n": n, "what": what},
                        "weight": n + 1})
    return out


# ---------------------------------------------------------------------
# dereferencing and display of constants

def deref_pool(c, perm):
    """ a pool with one constant of every kind, laid out in one of several
    orders, with unknown names and numbers """

    nm = c.str("name", 2, ((97, 122),))
    cn = c.str("cls", 1, ((97, 122),)) + "/" + c.str("cls2", 1, ((65, 90),))
    text = c.str("text", 2, ((97, 122),))
    num = c.bytes("num", 4)
    boot = c.int("boot", 0, 65535)
    kind = c.int("kind", 1, 9)
    ft = c.choose("ft", ["I", "[J", "Ljava/x/Y;"])
    fp = {"I": "int", "[J": "long[]", "Ljava/x/Y;": "java.x.Y"}[ft]

    p = Pool()
    ids = {}
    builders = [
        ("nm", lambda: p.utf8(nm)), ("cn", lambda: p.utf8(cn)),
        ("ft", lambda: p.utf8(ft)),
        ("mt", lambda: p.utf8("(" + ft + "Z)V")),
        ("text", lambda: p.utf8(text)),
        ("int", lambda: p.integer(num)),
        ("long", lambda: p.raw(u1(5) + b"\0\0\0\0" + num, True)),
        ("class", lambda: p.raw(u1(7) + u2(R("cn")))),
        ("string", lambda: p.raw(u1(8) + u2(R("text")))),
        ("fnat", lambda: p.raw(u1(12) + u2(R("nm")) + u2(R("ft")))),
        ("mnat", lambda: p.raw(u1(12) + u2(R("nm")) + u2(R("mt")))),
        ("field", lambda: p.raw(u1(9) + u2(R("class")) + u2(R("fnat")))),
        ("meth", lambda: p.raw(u1(10) + u2(R("class")) + u2(R("mnat")))),
        ("imeth", lambda: p.raw(u1(11) + u2(R("class")) + u2(R("mnat")))),
        ("modid", lambda: p.raw(u1(13) + u2(R("nm")) + u2(R("text")))),
        ("mh", lambda: p.raw(u1(15) + u1(kind) + u2(R("meth")))),
        ("mtype", lambda: p.raw(u1(16) + u2(R("mt")))),
        ("dyn", lambda: p.raw(u1(17) + u2(boot) + u2(R("fnat")))),
        ("indy", lambda: p.raw(u1(18) + u2(boot) + u2(R("mnat")))),
        ("mod", lambda: p.raw(u1(19) + u2(R("nm")))),
        ("pkg", lambda: p.raw(u1(20) + u2(R("cn")))),
    ]
    if perm == "reverse":
        builders.reverse()
    elif perm == "odd":
        builders = builders[1::2] + builders[0::2]
    # positions first, so that references may point in both directions
    pos = 1
    for k, _b in builders:
        ids[k] = pos
        pos += 2 if k == "long" else 1

    def R(k):
        return ids[k]
    for _k, b in builders:
        b()

    cp = JavaConstantPool()
    with unpack(p.data()) as up:
        cp.unpack(up)

    i32 = ref_int(num, 0, 4, True)
    dot = cn.replace("/", ".")
    want = {
        "nm": nm, "cn": cn, "ft": ft, "text": text, "int": i32,
        "long": ref_int(num, 0, 4), "class": cn, "string": text,
        "fnat": (nm, ft), "mnat": (nm, "(" + ft + "Z)V"),
        "field": (cn, (nm, ft)), "meth": (cn, (nm, "(" + ft + "Z)V")),
        "imeth": (cn, (nm, "(" + ft + "Z)V")), "modid": (nm, text),
        "mh": (kind, (cn, (nm, "(" + ft + "Z)V"))),
        "mtype": "(" + ft + "Z)V", "dyn": (boot, (nm, ft)),
        "indy": (boot, (nm, "(" + ft + "Z)V")), "mod": nm, "pkg": cn,
        "mt": "(" + ft + "Z)V"}
    method = dot + "." + nm + "(" + fp + ",boolean):void"
    pretty = {
        "nm": nm, "text": text, "int": i32, "class": dot, "string": text,
        "fnat": nm + ":" + fp, "field": dot + "." + nm + ":" + fp,
        "meth": method, "imeth": method, "modid": nm + "@" + text,
        "long": ref_int(num, 0, 4)}
    # these show what they refer to; the wording is free
    shows = {"mh": nm, "mtype": ft, "indy": nm, "dyn": nm, "mod": nm,
             "pkg": "/"}

    for k, i in sorted(ids.items()):
        c.check(c.eq(cp.deref_const(i), want[k]), "dereferenced " + k)
        shown = cp.pretty_deref_const(i)
        if k in pretty:
            c.check(c.eq(shown, pretty[k]), "pretty " + k)
        elif k in shows and perm == "plain":
            ok = shows[k] in shown
            if k == "pkg":
                ok = ok or "." in shown
            c.check(ok, "pretty %s shows what it refers to" % k)
    listed = {}
    for i, t, v in cp.constants():
        listed[i] = (t, v)
    seen = {}
    for i, t, v in cp.pretty_constants():
        seen[i] = t
    for k, i in sorted(ids.items()):
        c.check(i in listed and i in seen, "every constant is listed: " + k)
        c.check(c.eq(listed[i][1], want[k]), "listed value of " + k)
        c.check(listed[i][0] == cp.get_const(i)[0], "listed tag of " + k)
    c.check(len(listed) == len(ids) and len(seen) == len(ids),
            "nothing else is listed")
    bad0 = bad(lambda: cp.deref_const(0))
    c.check(isinstance(bad0, IndexError), "constant 0 does not exist")
    c.cover("deref")


def cases_deref(tier):
    return [{"name": "deref/" + p, "fn": "deref_pool",
             "params": {"perm": p}} for p in ("plain", "reverse", "odd")]


# ---------------------------------------------------------------------
# the class as a whole

def decode(kind, data, c):
    if kind == "file":
        return unpack_classfile(c.fs().put("f.class", data))
    if kind == "stream":
        return unpack_class(BytesIO(data))
    if kind == "view":
        return unpack_class(memoryview(data))
    if kind == "magic tuple":
        return unpack_class(BytesIO(data[4:]),
                            magic=(0xCA, 0xFE, 0xBA, 0xBE))
    if kind == "magic bytes":
        s = BytesIO(data)
        m = s.read(4)
        return unpack_class(s, magic=m)
    if kind == "object":
        info = JavaClassInfo()
        with unpack(data) as up:
            info.unpack(up)
        return info
    return unpack_class(data)


def class_struct(c, kind, nif, fields, methods, attrs):
    """ fields, methods and attrs give the sizes of the attributes """

    p = Pool()
    names = [p.utf8("A%d" % i) for i in range(4)]
    u = lambda n: c.int(n, 0, 65535)     # noqa: E731
    minor, major = u("minor"), u("major")
    access, this, sup = u("access"), u("this"), u("super")
    ifs = [u("if%d" % i) for i in range(nif)]

    def attributes(what, sizes):
        out, want = [], {}
        for j, size in enumerate(sizes):
            body = c.bytes("%s.%d" % (what, j), size)
            out.append(attr(p, names[j], body))
            want["A%d" % j] = body
        return out, want

    def members(what, spec):
        out, want = [], []
        for i, sizes in enumerate(spec):
            a, n, d = (u("%s%d.%s" % (what, i, x)) for x in "and")
            ab, aw = attributes("%s%d" % (what, i), sizes)
            out.append(member(a, n, d, ab))
            want.append((a, n, d, aw))
        return out, want

    fb, fw = members("f", fields)
    mb, mw = members("m", methods)
    ab, aw = attributes("c", attrs)
    data = class_bytes(p, access, this, sup, ifs, fb, mb, ab,
                       (minor, major))

    info = decode(kind, data, c)
    c.check(c.eq(info.get_version(), (major, minor)), "version")
    c.check(c.eq(info.access_flags, access), "access flags")
    c.check(c.eq(info.this_ref, this), "this class")
    c.check(c.eq(info.super_ref, sup), "super class")
    c.check(c.eq(tuple(info.interfaces), tuple(ifs)), "interfaces")
    c.check(len(info.cpool.consts) == len(p.items), "constant pool")
    for got, want, meth in ((info.fields, fw, False),
                            (info.methods, mw, True)):
        c.check(len(got) == len(want), "number of members")
        for g, w in zip(got, want):
            c.check(g.is_method == meth, "kind of member")
            c.check(c.eq((g.access_flags, g.name_ref, g.descriptor_ref),
                         w[:3]), "member header")
            check_attrs(c, g.attribs, w[3])
    check_attrs(c, info.attribs, aw)
    for i in range(4):
        c.check(c.eq(info.get_attribute("A%d" % i), aw.get("A%d" % i)),
                "attribute lookup")
    c.cover("class")


def check_attrs(c, got, want):
    c.check(len(got) == len(want), "number of attributes")
    for k in want:
        c.check(k in got, "attribute name")
        c.check(c.eq(bytes(got[k]), want[k]), "attribute content")


def class_cut(c, kind):
    """ a class file cut at any point is an error, never a class """
    p = Pool()
    a = p.utf8("A0")
    p.integer(c.bytes("num", 4))
    f = member(c.int("facc", 0, 65535), a, a,
               [attr(p, a, c.bytes("fa", 2))])
    m = member(c.int("macc", 0, 65535), a, a,
               [attr(p, a, c.bytes("ma", 1))])
    data = class_bytes(p, c.int("acc", 0, 65535), 1, 1, [1, 2], [f], [m],
                       [attr(p, a, c.bytes("ca", 3)), attr(p, a, b"")])
    cut = c.choose("cut", range(len(data)))
    ex = bad(lambda: decode(kind, data[:cut], c))
    c.check(isinstance(ex, (UnpackException, ClassUnpackException)),
            "a truncated class file is reported as such")
    c.cover("class cut")


def magic(c, kind, n):
    """ what counts as a class file """
    data = c.bytes("data", n)
    want = False
    if n >= 4:
        want = c.eq(data[:4], b"\xca\xfe\xba\xbe")
    if kind == "file":
        fn = c.fs().put("f", data)
        r = is_class_file(fn)
        again = lambda: unpack_classfile(fn)    # noqa: E731
    else:
        src = {"buffer": lambda: data, "view": lambda: memoryview(data),
               "stream": lambda: BytesIO(data)}[kind]
        r = is_class(src())
        again = lambda: unpack_class(src())     # noqa: E731
    c.check(c.iff(r, want), "class files are told by their first four bytes")
    if not want:
        ex = bad(again)
        c.check(isinstance(ex, (ClassUnpackException, UnpackException)),
                "anything else is not unpacked")
        c.cover("not a class")
    else:
        c.cover("magic")
    c.observe("is_class", c.truth(r))


def magic_given(c, form):
    """ a magic number read by the caller """
    m = c.bytes("magic", 4)
    p = Pool()
    a = p.cls("X")
    rest = class_bytes(p, 0x21, a, 0)[4:]
    given = tuple(m) if form == "tuple" else m
    want = c.eq(m, b"\xca\xfe\xba\xbe")
    ex = bad(lambda: unpack_class(BytesIO(rest), magic=given))
    c.check(c.iff(ex is None, want),
            "a magic number handed over is judged like one read")
    if ex is not None:
        c.check(isinstance(ex, ClassUnpackException), "not a class")
        c.cover("wrong magic given")
    else:
        c.cover("magic given")


def cases_struct(tier):
    big = tier == "thorough"
    out = []
    shapes = [(0, [], [], []), (1, [[]], [], [0]), (2, [[1]], [[2]], [3]),
              (0, [[], [2, 0]], [[1], []], [1, 1]),
              (3, [], [[0, 3, 1], []], [4, 0, 2]),
              (0, [[1, 1, 1]], [], [])]
    if big:
        shapes += [(4, [[i]] * 3, [[j], [i, j]], [i, j, 1, 2])
                   for i in range(4) for j in range(5)]
    kinds = ("buffer", "stream", "view", "magic tuple", "magic bytes",
             "object", "file")
    for kind in kinds:
        for i, (nif, f, m, a) in enumerate(shapes):
            out.append({"name": "class/%s/%d" % (kind, i),
                        "fn": "class_struct", "weight": 3,
                        "params": {"kind": kind, "nif": nif, "fields": f,
                                   "methods": m, "attrs": a}})
        out.append({"name": "cut/" + kind, "fn": "class_cut", "weight": 4,
                    "params": {"kind": kind}})
    for kind in ("buffer", "view", "stream", "file"):
        for n in range(0, 9 if big else 7):
            out.append({"name": "magic/%s/%d" % (kind, n), "fn": "magic",
                        "params": {"kind": kind, "n": n}})
    for form in ("tuple", "bytes"):
        out.append({"name": "given/" + form, "fn": "magic_given",
                    "params": {"form": form}})
    return out


PROPS = {
    "P02": {
        "cases": cases_pool,
        "covers": ("pool", "pool short", "known tag", "unknown tag", "utf8"),
        "bounds": {"quick": "pools of 1-6 entries of every kind and pair of "
                            "kinds, all contents; texts of up to 2 unknown "
                            "code points", "thorough":
                   "also triples of kinds and texts of up to 4"},
    },
    "P03": {
        "cases": cases_deref, "covers": ("deref",),
        "bounds": "pools with one constant of each kind in three layouts, "
                  "unknown names, numbers and references",
    },
    "P04": {
        "cases": cases_struct,
        "covers": ("class", "class cut", "magic", "not a class",
                   "magic given", "wrong magic given"),
        "bounds": {"quick": "up to 3 interfaces, 2 fields, 2 methods, 3 "
                            "attributes each of up to 4 unknown bytes; "
                            "every cut position",
                   "thorough": "up to 4 interfaces, 3 fields and 4 "
                               "attributes"},
    },
}
