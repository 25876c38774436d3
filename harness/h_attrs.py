"""
Attribute accessors of classes, members and code; annotations.
"""

from javatools import (unpack_class, JavaClassInfo, JavaCodeInfo,
                       JavaMemberInfo, JavaConstantPool, JavaAnnotation,
                       platform_from_version)
from javatools.pack import unpack

from .util import (Pool, u1, u2, u4, attr, table, member, class_bytes,
                   ref_int, bad)


def cut_attr(p, name, body):
    return attr(p, p.utf8(name), body)


# ---------------------------------------------------------------------
# attributes with references and tables

def class_attrs(c, which, lay):
    """ attributes of a class, with unknown names in the pool """

    p = Pool()
    p.fill(lay)
    n1 = c.str("n1", 2, ((97, 122),))
    n2 = c.str("n2", 1, ((97, 122),))
    a, b = p.utf8(n1), p.utf8(n2)
    me = p.cls(n1)
    sup = p.cls(b)
    nat = p.nat(a, p.utf8("()V"))
    attrs = []
    if "SourceFile" in which:
        attrs.append(cut_attr(p, "SourceFile", u2(b)))
    if "Signature" in which:
        attrs.append(cut_attr(p, "Signature", u2(a)))
    if "Deprecated" in which:
        attrs.append(cut_attr(p, "Deprecated", b""))
    if "Enclosing" in which:
        attrs.append(cut_attr(p, "EnclosingMethod", u2(sup) + u2(nat)))
    if "EnclosingClass" in which:
        attrs.append(cut_attr(p, "EnclosingMethod", u2(sup) + u2(0)))
    debug = None
    if "Debug" in which:
        debug = c.str("debug", 2, ((9, 10), (32, 126), (128, 2047)))
        attrs.append(cut_attr(p, "SourceDebugExtension",
                              debug.encode("utf8")))
    inner = []
    if "Inner" in which:
        for i in range(2):
            inner.append((c.int("in%d" % i, 0, 65535),
                          c.int("out%d" % i, 0, 65535), b if i else a,
                          c.int("acc%d" % i, 0, 65535)))
        attrs.append(cut_attr(p, "InnerClasses", table(
            [u2(w) + u2(x) + u2(y) + u2(z) for w, x, y, z in inner])))
    data = class_bytes(p, 0x21, me, sup if "super" in which else 0,
                       [sup, me] if "ifaces" in which else [], [], [],
                       attrs)
    info = unpack_class(data)

    c.check(c.eq(info.get_this(), n1), "name of the class")
    c.check(c.eq(info.pretty_this(), n1), "name of the class")
    c.check(c.eq(info.get_super(), n2 if "super" in which else ""),
            "name of the parent")
    c.check(c.eq(info.get_interfaces(),
                 (n2, n1) if "ifaces" in which else ()), "interfaces")
    c.check(c.eq(info.get_sourcefile(),
                 n2 if "SourceFile" in which else None), "source file")
    c.check(c.eq(info.get_signature(),
                 n1 if "Signature" in which else None), "signature")
    c.check(bool(info.is_deprecated()) == ("Deprecated" in which),
            "the deprecation mark is the presence of its attribute",
            key="class deprecated")
    enc = None
    if "Enclosing" in which:
        enc = n2 + "." + n1 + "()V"
    elif "EnclosingClass" in which:
        enc = n2
    c.check(c.eq(info.get_enclosingmethod(), enc), "enclosing method")
    c.check(c.eq(info.get_source_debug_extension(), debug),
            "debug information", key="debug")
    got = info.get_innerclasses()
    c.check(len(got) == len(inner), "number of inner classes")
    for g, w in zip(got, inner):
        c.check(c.eq((g.inner_info_ref, g.outer_info_ref, g.name_ref,
                      g.access_flags), w), "inner class record")
        c.check(c.eq(g.get_name(), n2 if w[2] == b else n1),
                "inner class name")
    c.check(info.get_annotations() == () and
            info.get_invisible_annotations() == (), "no annotations")
    c.cover("class attributes")


def member_attrs(c, which, is_method, lay):
    p = Pool()
    p.fill(lay)
    n1 = c.str("n1", 2, ((97, 122),))
    n2 = c.str("n2", 1, ((97, 122),))
    a, b = p.utf8(n1), p.utf8(n2)
    k1, k2 = p.cls(a), p.cls(b)
    num = c.bytes("num", 4)
    val = p.integer(num)
    desc = p.utf8("()V" if is_method else "I")
    attrs = []
    if "Signature" in which:
        attrs.append(cut_attr(p, "Signature", u2(b)))
    if "Deprecated" in which:
        attrs.append(cut_attr(p, "Deprecated", b""))
    if "Synthetic" in which:
        attrs.append(cut_attr(p, "Synthetic", b""))
    if "ConstantValue" in which:
        attrs.append(cut_attr(p, "ConstantValue", u2(val)))
    exc = []
    if "Exceptions" in which:
        exc = [n2, n1, n2]
        attrs.append(cut_attr(p, "Exceptions", table(
            [u2(k2), u2(k1), u2(k2)])))
    acc = c.int("access", 0, 65535)
    m = member(acc, a, desc, attrs)
    data = class_bytes(p, 0x21, k1, 0, [], [] if is_method else [m],
                       [m] if is_method else [], [])
    info = unpack_class(data)
    got = (info.methods if is_method else info.fields)[0]

    c.check(c.eq(got.get_name(), n1), "member name")
    c.check(c.eq(got.get_descriptor(), "()V" if is_method else "I"),
            "member descriptor")
    c.check(c.eq(got.get_signature(),
                 n2 if "Signature" in which else None), "signature")
    c.check(bool(got.is_deprecated()) == ("Deprecated" in which),
            "the deprecation mark is the presence of its attribute",
            key="member deprecated")
    c.check(c.iff(c.truth(got.is_synthetic()),
                  c.or_("Synthetic" in which, (acc & 0x1000) != 0)),
            "synthetic by flag or by attribute", key="synthetic")
    has = "ConstantValue" in which
    c.check(c.eq(got.get_constantvalue(), val if has else None),
            "index of the constant value")
    c.check(c.eq(got.deref_constantvalue(),
                 ref_int(num, 0, 4, True) if has else None),
            "constant value")
    c.check(c.eq(tuple(got.get_exceptions()), tuple(exc)), "exceptions")
    c.check(c.eq(tuple(got.pretty_exceptions()), tuple(exc)), "exceptions")
    c.check(got.get_code() is None, "no code")
    c.check(got.get_annotations() == () and
            got.get_invisible_annotations() == () and
            got.get_parameter_annotations() == () and
            got.get_invisible_parameter_annotations() == (),
            "no annotations")
    found = info.get_field_by_name(got.get_name())
    c.check((found is got) == (not is_method), "field lookup")
    c.check(len(list(info.get_methods_by_name(got.get_name()))) ==
            (1 if is_method else 0), "method lookup")
    c.check(info.get_field_by_name("???") is None, "no such field")
    c.cover("member attributes")


def code_attr(c, ncode, nexc, nlines, nlocals, ntypes, few=False):
    """ the code of a method with its tables """
    u = lambda n: c.int(n, 0, 65535)      # noqa: E731
    if few:
        u = lambda n: c.choose(n, (0, 10, 65535))   # noqa: E731
    p = Pool()
    a = p.utf8("m")
    k1 = p.cls(c.str("exc", 2, ((97, 122),)))
    exname = p
    stack, locs = u("stack"), u("locals")
    code = c.bytes("code", ncode)
    exc = []
    for i in range(nexc):
        exc.append((u("s%d" % i), u("e%d" % i), u("h%d" % i),
                    k1 if i % 2 else 0))
    lines = [(u("o%d" % i), u("l%d" % i)) for i in range(nlines)]
    lvt = [tuple([u("v%d.%d" % (i, j)) for j in range(5)])
           for i in range(nlocals)]
    lvtt = [tuple([u("t%d.%d" % (i, j)) for j in range(5)])
            for i in range(ntypes)]
    sub = []
    if nlines:
        sub.append(cut_attr(p, "LineNumberTable", table(
            [u2(x) + u2(y) for x, y in lines])))
    if nlocals:
        sub.append(cut_attr(p, "LocalVariableTable", table(
            [b"".join([u2(x) for x in r]) for r in lvt])))
    if ntypes:
        sub.append(cut_attr(p, "LocalVariableTypeTable", table(
            [b"".join([u2(x) for x in r]) for r in lvtt])))
    body = (u2(stack) + u2(locs) + u4(ncode) + code + table(
        [b"".join([u2(x) for x in r]) for r in exc]) + table(sub))
    m = member(1, a, p.utf8("()V"), [cut_attr(p, "Code", body)])
    info = unpack_class(class_bytes(p, 0x21, k1, 0, [], [], [m], []))
    got = info.methods[0].get_code()

    c.check(c.eq((got.max_stack, got.max_locals), (stack, locs)),
            "stack and local sizes")
    c.check(c.eq(bytes(got.code), code), "bytecode")
    c.check(len(got.exceptions) == nexc, "number of handlers")
    name = info.get_this()
    for g, w in zip(got.exceptions, exc):
        c.check(c.eq((g.start_pc, g.end_pc, g.handler_pc,
                      g.catch_type_ref), w), "handler record")
        c.check(c.eq(g.get_catch_type(), name if w[3] else None),
                "catch type")
        c.check(c.eq(g.pretty_catch_type(),
                     "Class " + name if w[3] else "any"), "catch type")
        c.check(c.eq(g.info(), w[:3] + (name if w[3] else None,)),
                "handler summary")
        if few:
            c.check(c.eq(str(g), "(%i,%i,%i,%s)" % (
                w[:3] + (name if w[3] else None,))), "handler as text",
                key="handler text")
    for i, g in enumerate(got.exceptions):
        for h in got.exceptions[i:]:
            c.check(c.iff(g == h, c.eq(g.info(), h.info())),
                    "handlers are equal when their summaries are")
            c.check(c.iff(g != h, c.not_(c.eq(g.info(), h.info()))),
                    "handlers differ when their summaries do")
    c.check(c.eq(tuple(got.get_linenumbertable()), tuple(lines)),
            "line number table")
    rel = tuple([(o, l - lines[0][1]) for o, l in lines])
    c.check(c.eq(tuple(got.get_relativelinenumbertable()), rel),
            "relative line number table")
    c.check(c.eq(tuple(got.get_localvariabletable()), tuple(lvt)),
            "local variable table")
    c.check(c.eq(tuple(got.get_localvariabletypetable()), tuple(lvtt)),
            "local variable type table")
    c.cover("code")


def cases_attrs(tier):
    big = tier == "thorough"
    out = []
    opts = ("SourceFile", "Signature", "Deprecated", "Enclosing",
            "EnclosingClass", "Inner", "super", "ifaces", "Debug")
    sets = [()] + [(o,) for o in opts] + [
        ("SourceFile", "Inner", "Deprecated", "super"),
        ("Enclosing", "Signature", "ifaces", "super", "Inner"),
        opts[:4] + opts[5:8]]
    if big:
        sets += [(x, y) for i, x in enumerate(opts) for y in opts[i + 1:]
                 if {x, y} != {"Enclosing", "EnclosingClass"}]
    for lay in (0, 3) if not big else (0, 1, 3, 7):
        for w in sets:
            out.append({"name": "class/%s/%d" % ("+".join(w), lay),
                        "fn": "class_attrs",
                        "params": {"which": list(w), "lay": lay}})
        mopts = ("Signature", "Deprecated", "Synthetic", "ConstantValue",
                 "Exceptions")
        for meth in (False, True):
            for w in [()] + [(o,) for o in mopts] + [
                    ("Deprecated", "Synthetic"), mopts]:
                out.append({"name": "member/%s/%s/%d" % (
                    "m" if meth else "f", "+".join(w), lay),
                    "fn": "member_attrs",
                    "params": {"which": list(w), "is_method": meth,
                               "lay": lay}})
    shapes = [(0, 0, 0, 0, 0), (1, 1, 0, 0, 0), (4, 2, 2, 1, 1),
              (3, 3, 3, 2, 0), (2, 0, 4, 0, 2)]
    if big:
        shapes += [(8, 4, 5, 3, 3), (16, 5, 8, 4, 4), (0, 6, 1, 0, 0)]
    for s in shapes:
        out.append({"name": "code/" + "-".join(map(str, s)),
                    "fn": "code_attr", "weight": 5,
                    "params": dict(zip(("ncode", "nexc", "nlines",
                                        "nlocals", "ntypes"), s))})
    out.append({"name": "handlers", "fn": "code_attr", "params": {
        "ncode": 1, "nexc": 1, "nlines": 0, "nlocals": 0, "ntypes": 0,
        "few": True}})
    return out


# ---------------------------------------------------------------------
# annotations

PRIMS = "BCDFIJSZs"


class AnnoBuilder(object):
    """ the same abstract annotation written over a given pool.  shape is
    nested: ("p", tag) ("e",) ("c",) ("[", [..]) ("@", [shapes]) """

    def __init__(self, pool, words, nums):
        self.p = pool
        self.words = words     # symbolic names, consumed in order
        self.nums = nums
        self.wi = self.ni = 0

    def word(self):
        w = self.words[self.wi % len(self.words)]
        self.wi += 1
        return w

    def value(self, s):
        """ (bytes, plain meaning) """
        if s[0] == "p":
            if s[1] == "s":
                w = self.word()
                return u1(ord("s")) + u2(self.p.utf8(w)), (s[1], w)
            n = self.nums[self.ni % len(self.nums)]
            self.ni += 1
            return u1(ord(s[1])) + u2(self.p.integer(n)), \
                (s[1], ref_int(n, 0, 4, True))
        if s[0] == "e":
            a, b = self.word(), self.word()
            return u1(ord("e")) + u2(self.p.utf8(a)) + \
                u2(self.p.utf8(b)), ("e", a, b)
        if s[0] == "c":
            a = self.word()
            return u1(ord("c")) + u2(self.p.utf8(a)), ("c", a)
        if s[0] == "[":
            vals = [self.value(x) for x in s[1]]
            return u1(ord("[")) + table([v[0] for v in vals]), \
                ("[", tuple([v[1] for v in vals]))
        b, m = self.annotation(s[1])
        return u1(ord("@")) + b, ("@", m)

    def annotation(self, shapes):
        t = "L" + self.word() + ";"
        data = u2(self.p.utf8(t))
        out = []
        pairs = []
        for i, s in enumerate(shapes):
            key = "k%d" % i
            b, m = self.value(s)
            pairs.append(u2(self.p.utf8(key)) + b)
            out.append((key, m))
        return data + table(pairs), (t, tuple(out))


def meaning(val, cp):
    """ plain meaning of a decoded annotation value """
    tag, d = val
    if tag in PRIMS or tag == "c":
        return (tag, cp.deref_const(d))
    if tag == "e":
        return ("e", cp.deref_const(d[0]), cp.deref_const(d[1]))
    if tag == "[":
        return ("[", tuple([meaning(x, cp) for x in d]))
    return ("@", anno_meaning(d, cp))


def anno_meaning(a, cp):
    return (cp.deref_const(a.type_ref),
            tuple([(k, meaning(a[k], cp)) for k in sorted(a.keys())]))


def load(c, fill, shapes, words, nums, where, nparam=2, nargs=2, at=0,
         name="m"):
    """ a class with the annotations in the named attribute, or of one of
    the parameters. A constructor of an inner class may tell of more or
    fewer parameters than its descriptor has """
    p = Pool()
    p.fill(fill)
    b = AnnoBuilder(p, words, nums)
    annos = [b.annotation(s) for s in shapes]
    body = table([x[0] for x in annos])
    if "Parameter" in where:
        body = u1(nparam) + table([]) * at + body + \
            table([]) * (nparam - at - 1)
    att = cut_attr(p, where.split("@")[0], body)
    a = p.utf8("m")
    me = p.cls(a)
    m = member(1, p.utf8(name), p.utf8("(" + "I" * nargs + ")V"),
               [att] if "@m" in where else [])
    info = unpack_class(class_bytes(
        p, 0x21, me, 0, [], [], [m], [] if "@m" in where else [att]))
    owner = info.methods[0] if "@m" in where else info
    get = {"RuntimeVisibleAnnotations": "get_annotations",
           "RuntimeInvisibleAnnotations": "get_invisible_annotations",
           "RuntimeVisibleParameterAnnotations":
           "get_parameter_annotations",
           "RuntimeInvisibleParameterAnnotations":
           "get_invisible_parameter_annotations"}[where.split("@")[0]]
    got = getattr(owner, get)()
    c.check(getattr(owner, get)() is got, "decoded once")
    if "Parameter" in where:
        c.check(len(got) == nparam and
                not any([len(got[i]) for i in range(nparam) if i != at]),
                "one sequence per parameter")
        got = got[at]
    return info.cpool, got, [x[1] for x in annos]


def anno_decode(c, where, shapes, fill, **of):
    words = [c.str("w%d" % i, 1, ((97, 122),)) for i in range(3)]
    nums = [c.bytes("n%d" % i, 4) for i in range(2)]
    cp, got, want = load(c, fill, shapes, words, nums, where, **of)
    c.check(len(got) == len(want), "number of annotations")
    for g, w in zip(got, want):
        c.check(c.eq(anno_meaning(g, cp), w), "content of the annotation")
        text = g.pretty_annotation()
        c.check(text.startswith(w[0][1:-1]), "displayed by its type name")
        for k, _v in w[1]:
            c.check(k + "=" in text, "displayed with every element")
    c.cover("annotation")


def deref(m):
    """ the value that an annotation value of that meaning stands for """
    if m[0] == "e":
        return m[1:]
    if m[0] == "[":
        return [deref(x) for x in m[1]]
    return m[1]


def anno_default(c, shape, fill):
    """ what an element of an annotation is by default """
    p = Pool()
    p.fill(fill)
    words = [c.str("w%d" % i, 1, ((97, 122),)) for i in range(3)]
    nums = [c.bytes("n%d" % i, 4) for i in range(2)]
    attrs, want = [], None
    if shape is not None:
        data, want = AnnoBuilder(p, words, nums).value(shape)
        attrs.append(cut_attr(p, "AnnotationDefault", data))
    a = p.utf8("m")
    me = p.cls(a)
    m = member(0x401, a, p.utf8("()I"), attrs)
    info = unpack_class(class_bytes(p, 0x2601, me, 0, [], [], [m], []))
    m = info.methods[0]
    got, val = m.get_annotationdefault(), m.deref_annotationdefault()
    if shape is None:
        c.check(got is None and val is None, "no default", key="default")
    else:
        c.check(c.eq(meaning(got, info.cpool), want), "the default",
                key="default")
        if shape[0] == "@":
            c.check(c.eq(anno_meaning(val, info.cpool), want[1]),
                    "value of the default", key="default value")
        else:
            c.check(c.eq(val, deref(want)), "value of the default",
                    key="default value")
    c.cover("default")


def anno_equal(c, shapes_l, shapes_r, fill):
    """ annotations from two classes compare by meaning, not by the
    numbering of the pools """
    where = "RuntimeVisibleAnnotations"
    wl = [c.str("wl%d" % i, 1, ((97, 122),)) for i in range(2)]
    wr = [c.str("wr%d" % i, 1, ((97, 122),)) for i in range(2)]
    nl = [c.bytes("nl", 4)]
    nr = [c.bytes("nr", 4)]
    lcp, left, lm = load(c, 0, [shapes_l], wl, nl, where)
    rcp, right, rm = load(c, fill, [shapes_r], wr, nr, where)
    same = c.eq(lm[0], rm[0])
    eq = left[0] == right[0]
    ne = left[0] != right[0]
    c.check(c.iff(eq, same), "equal exactly when they mean the same")
    c.check(c.iff(ne, c.not_(same)), "unequal exactly when they do not")
    c.check(not (left[0] == 5), "an annotation is not a number")
    if same:
        c.cover("equal annotations")
    else:
        c.cover("different annotations")


def anno_together(c, shape_l, shape_r):
    """ annotations of one class compare by meaning, also when its pool
    holds a value more than once """
    words = [c.str("w%d" % i, 1, ((97, 122),)) for i in range(4)]
    nums = [c.bytes("n%d" % i, 4) for i in range(2)]
    _cp, got, want = load(c, 0, [shape_l, shape_r], words, nums,
                          "RuntimeVisibleAnnotations")
    same = c.eq(want[0], want[1])
    c.check(c.iff(got[0] == got[1], same),
            "equal exactly when they mean the same")
    c.check(c.iff(got[0] != got[1], c.not_(same)),
            "unequal exactly when they do not")
    c.check(got[0] == got[0] and got[1] == got[1], "equal to itself")
    if same:
        c.cover("equal annotations")
    else:
        c.cover("different annotations")


def anno_tag(c, n):
    """ an unknown element tag is an error, and so is a short one """
    p = Pool()
    k = p.utf8("k")
    t = p.utf8("LA;")
    cp = JavaConstantPool()
    with unpack(p.data()) as up:
        cp.unpack(up)
    tag = c.int("tag", 0, 255)
    rest = c.bytes("rest", n)
    known = False
    for x in PRIMS + "ec@[":
        known = c.or_(known, tag == ord(x))
    a = JavaAnnotation(cp)
    ex = bad(lambda: a.unpack(unpack(u2(t) + u2(1) + u2(k) + u1(tag) +
                                     rest)))
    if not known:
        c.check(ex is not None, "an unknown tag is rejected")
        c.cover("unknown element")
    elif n < 2:
        c.check(ex is not None, "a short element is rejected")
    c.check(ex is not None or len(a) == 1, "an element is kept")


def cases_annos(tier):
    big = tier == "thorough"
    out = []
    P = lambda t: ("p", t)         # noqa: E731
    shapes = [[], [P("I")], [P("s"), P("Z")], [("e",)], [("c",)],
              [("[", [P("s"), P("s")])], [("[", [])],
              [("@", [P("I"), ("e",)])], [("[", [("@", [P("s")])])],
              [("[", [("[", [P("J")])]), ("c",), P("B")]]
    wheres = ["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations",
              "RuntimeVisibleAnnotations@m",
              "RuntimeInvisibleAnnotations@m",
              "RuntimeVisibleParameterAnnotations@m",
              "RuntimeInvisibleParameterAnnotations@m"]
    for w in wheres:
        for i, s in enumerate(shapes):
            out.append({"name": "decode/%s/%d" % (w, i),
                        "fn": "anno_decode",
                        "params": {"where": w, "shapes": [s], "fill": 2}})
        out.append({"name": "decode/%s/two" % w, "fn": "anno_decode",
                    "params": {"where": w, "shapes": [shapes[2], shapes[3]],
                               "fill": 1}})
        if "Parameter" in w:
            for nparam, nargs, at in ((1, 0, 0), (3, 2, 2), (2, 3, 1),
                                      (4, 1, 1)):
                out.append({"name": "decode/%s/%d of %d, %d" %
                            (w, nparam, nargs, at), "fn": "anno_decode",
                            "params": {"where": w, "shapes": [shapes[1]],
                                       "fill": 1, "nparam": nparam,
                                       "nargs": nargs, "at": at,
                                       "name": "m" if at else "<init>"}})
        for t in PRIMS:
            out.append({"name": "decode/%s/%s" % (w, t),
                        "fn": "anno_decode",
                        "params": {"where": w, "shapes": [[P(t)]],
                                   "fill": 0}})
    defaults = [None] + [P(t) for t in PRIMS] + [
        s[0] for s in shapes if len(s) == 1 and s[0][0] != "p" and
        (s[0][0] != "[" or not s[0][1] or s[0][1][0][0] != "@")]
    for i, s in enumerate(defaults):
        out.append({"name": "default/%d" % i, "fn": "anno_default",
                    "params": {"shape": s, "fill": i % 3}})
    for i, a in enumerate(shapes):
        for j, b in enumerate(shapes):
            if not big and abs(i - j) > 1 and i and j:
                continue
            out.append({"name": "equal/%d-%d" % (i, j), "fn": "anno_equal",
                        "weight": 3,
                        "params": {"shapes_l": a, "shapes_r": b,
                                   "fill": 3}})
    for i, a in enumerate(shapes):
        for j, b in enumerate(shapes):
            if i == j or big and abs(i - j) < 3:
                out.append({"name": "together/%d-%d" % (i, j),
                            "fn": "anno_together", "weight": 3,
                            "params": {"shape_l": a, "shape_r": b}})
    for n in range(6 if big else 4):
        out.append({"name": "tag/%d" % n, "fn": "anno_tag",
                    "params": {"n": n}})
    return out


PROPS = {
    "P05": {
        "cases": cases_attrs,
        "covers": ("class attributes", "member attributes", "code"),
        "bounds": {"quick": "each attribute alone and in groups, tables of "
                            "up to 4 rows, all numbers unknown",
                   "thorough": "all pairs, tables of up to 8 rows"},
    },
    "P06": {
        "cases": cases_annos,
        "covers": ("annotation", "default", "equal annotations",
                   "different annotations", "unknown element"),
        "bounds": {"quick": "annotations nested up to three deep with up to "
                            "three elements, unknown names and numbers",
                   "thorough": "all pairs of shapes"},
    },
}
