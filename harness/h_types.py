"""
Descriptors, members, access flags, platforms, provided and required API.
"""

import json

from fnmatch import fnmatch

from javatools import (unpack_class, platform_from_version, JavaMemberInfo,
                       JavaClassInfo)
from javatools.classinfo import main

from .util import (Pool, u1, u2, u4, attr, table, member, class_bytes,
                   ref_int, bad)


BASE = {"B": "byte", "C": "char", "D": "double", "F": "float", "I": "int",
        "J": "long", "S": "short", "Z": "boolean", "V": "void"}


# letters, digits, $ and / make up names, and those of Kotlin may have
# spaces and parentheses, too
LETTERS = ((36, 36), (47, 57), (65, 90), (97, 122))
WIDE = ((32, 32), (36, 36), (40, 41), (44, 45), (47, 57), (65, 90),
        (97, 122), (192, 200))


def gen_desc(c, name, shape):
    """ descriptor of a type, as in gen_type """
    dims, what = shape
    if what == "p":
        t = c.str(name, 1, ((66, 68), (70, 70), (73, 74), (83, 83),
                            (90, 90)))
    else:
        t = "L" + c.str(name, what, LETTERS) + ";"
    return "[" * dims + t


def gen_type(c, name, shape, letters=LETTERS):
    """ (descriptor, displayed form) of a type: shape is a number of array
    dimensions and either "p" (any primitive), "v" or the length of an
    unknown class name """
    dims, what = shape
    if what == "p":
        t = c.str(name, 1, ((66, 68), (70, 70), (73, 74), (83, 83),
                            (90, 90)))
        shown = BASE[t]
    elif what == "v":
        t, shown = "V", "void"
    else:
        n = c.str(name, what, letters)
        t = "L" + n + ";"
        shown = n.replace("/", ".")
    return "[" * dims + t, shown + "[]" * dims


def one_method(c, args, ret, access, lay=0, is_method=True, throws=False,
               letters=LETTERS):
    """ a class with a single member of the given descriptor """
    p = Pool()
    p.fill(lay)
    name = c.str("name", 2, ((97, 122),))
    at = [gen_type(c, "a%d" % i, s, letters) for i, s in enumerate(args)]
    rt, rp = gen_type(c, "r", ret, letters)
    desc = rt
    if is_method:
        desc = "(" + "".join([t for t, _p in at]) + ")" + rt
    attrs = []
    if throws:
        e1, e2 = p.cls("a/E"), p.cls("F")
        attrs.append(attr(p, "Exceptions", table([u2(e1), u2(e2)])))
    m = member(access, p.utf8(name), p.utf8(desc), attrs)
    me = p.cls("x/Me")
    info = unpack_class(class_bytes(
        p, 0x21, me, 0, [], [] if is_method else [m],
        [m] if is_method else [], []))
    got = (info.methods if is_method else info.fields)[0]
    return info, got, name, at, (rt, rp), desc


def descriptor(c, args, ret, is_method, wide=False):
    info, m, name, at, (rt, rp), desc = one_method(
        c, args, ret, 1, is_method=is_method,
        letters=WIDE if wide else LETTERS)
    c.check(c.eq(m.get_type_descriptor(), rt), "type descriptor")
    c.check(c.eq(tuple(m.get_arg_type_descriptors()),
                 tuple([t for t, _p in at])), "argument descriptors")
    c.check(c.eq(m.pretty_type(), rp), "displayed type")
    shown = tuple([p for _t, p in at])
    c.check(c.eq(tuple(m.pretty_arg_types()), shown), "displayed arguments")
    if is_method:
        ident = name + "(" + ",".join([t for t, _p in at]) + ")"
        pid = name + "(" + ",".join(shown) + "):" + rp
    else:
        ident = name
        pid = name + ":" + rp
    c.check(c.eq(m.get_identifier(), ident), "identifier")
    c.check(c.eq(m.pretty_identifier(), pid), "displayed identifier")
    line = ["public", rp]
    line.append(name + "(" + ",".join(shown) + ")" if is_method else name)
    c.check(c.eq(m.pretty_descriptor(), " ".join(line)),
            "displayed declaration")
    c.observe("decl", m.pretty_descriptor())
    c.cover("descriptor")


def constructor(c):
    """ constructors are shown without a return type, and with what they
    throw """
    p = Pool()
    m = member(1, p.utf8("<init>"), p.utf8("(I)V"), [attr(
        p, "Exceptions", table([u2(p.cls("a/E")), u2(p.cls("F"))]))])
    me = p.cls("x/Me")
    got = unpack_class(class_bytes(p, 0x21, me, 0, [], [], [m])).methods[0]
    c.check(got.pretty_descriptor() == "public <init>(int) throws a.E,F",
            "constructor declaration")
    c.cover("constructor")


def lookup(c, n, q):
    """ finding methods by name and arguments among n unknown ones """
    p = Pool()
    descs = ["()V", "(I)V", "(I)J", "(IJ)V"]
    argsof = {"()V": (), "(I)V": ("I",), "(I)J": ("I",),
              "(IJ)V": ("I", "J")}
    ms, want = [], []
    for i in range(n):
        nm = c.str("n%d" % i, 1, ((97, 99),))
        d = c.choose("d%d" % i, descs)
        bridge = c.int("b%d" % i, 0, 1)
        ms.append(member(bridge * 0x40 + 1, p.utf8(nm), p.utf8(d)))
        want.append((nm, argsof[d], bridge))
    me = p.cls("Me")
    info = unpack_class(class_bytes(p, 0x21, me, 0, [], [], ms))
    qn = c.str("q", 1, ((97, 100),))
    named = [i for i in range(n) if want[i][0] == qn]
    got = list(info.get_methods_by_name(qn))
    c.check(len(got) == len(named), "methods by name")
    for g, i in zip(got, named):
        c.check(g is info.methods[i], "methods by name, in order")
    for form in (tuple, list):
        exact = [i for i in named if want[i][1] == q and want[i][2] == 0]
        r = info.get_method(qn, form(q))
        if exact:
            c.check(r is info.methods[exact[0]], "method by arguments")
            c.cover("method found")
        else:
            c.check(r is None, "no method with those arguments")
        bridges = [i for i in named if want[i][1] == q and want[i][2] == 1]
        got = list(info.get_method_bridges(qn, form(q)))
        c.check(len(got) == len(bridges), "bridges by arguments",
                key="bridges as " + form.__name__)
        for g, i in zip(got, bridges):
            c.check(g is info.methods[i], "bridges by arguments")
            c.cover("bridge found")


def identifiers(c, a, b):
    """ two methods share an identifier only when they have the same name
    and arguments, and, for bridges, the same return type """
    p = Pool()
    ms, parts = [], []
    for k, args in (("l", a), ("r", b)):
        nm = c.str(k + "n", 1, ((97, 98),))
        at = [gen_desc(c, k + "a%d" % i, s) for i, s in enumerate(args)]
        rt = gen_desc(c, k + "r", (0, "p"))
        br = c.int(k + "b", 0, 1)
        ms.append(member(br * 0x40, p.utf8(nm),
                         p.utf8("(" + "".join(at) + ")" + rt)))
        parts.append((nm, tuple(at), rt, br))
    me = p.cls("Me")
    info = unpack_class(class_bytes(p, 0x21, me, 0, [], [], ms))
    x, y = [m.get_identifier() for m in info.methods]
    l, r = parts
    same = c.and_(c.eq(l[0], r[0]), c.eq(l[1], r[1]), c.eq(l[3], r[3]),
                  c.or_(l[3] == 0, c.eq(l[2], r[2])))
    c.check(c.iff(c.eq(x, y), same), "identifiers tell methods apart")
    c.cover("identifier")


def cases_desc(tier):
    big = tier == "thorough"
    out = [{"name": "constructor", "fn": "constructor", "params": {}}]
    types = [(0, "p"), (1, "p"), (0, 1), (0, 3), (1, 2), (2, 1)]
    if big:
        types += [(2, "p"), (3, 2), (0, 5), (1, 4)]
    for t in types + [(0, "v")]:
        for meth in (True, False):
            if t[1] == "v" and not meth:
                continue
            out.append({"name": "ret/%s/%s%s" % (
                "m" if meth else "f", t[0], t[1]), "fn": "descriptor",
                "params": {"args": [], "ret": t, "is_method": meth}})
    for a in types:
        out.append({"name": "arg/%s%s" % a, "fn": "descriptor",
                    "params": {"args": [a], "ret": (0, "v"),
                               "is_method": True}})
        if a[1] != "p":
            out.append({"name": "wide/%s%s" % a, "fn": "descriptor",
                        "weight": 3,
                        "params": {"args": [a], "ret": (0, 1),
                                   "is_method": True, "wide": True}})
        for b in types:
            if a[1] == "p" and b[1] == "p" and not big:
                ret = (0, "v")
            else:
                ret = (0, 2)
            out.append({"name": "args/%s%s-%s%s" % (a + b),
                        "fn": "descriptor", "weight": 2,
                        "params": {"args": [a, b], "ret": ret,
                                   "is_method": True}})
            if big:
                out.append({"name": "args3/%s%s-%s%s" % (a + b),
                            "fn": "descriptor", "weight": 3,
                            "params": {"args": [a, (0, 1), b],
                                       "ret": (1, 1), "is_method": True}})
    for args in ([(0, "p"), (0, 1)], [(0, 1), (1, 1)], [(0, 2), (0, 1)]):
        out.append({"name": "wide/" + json.dumps(args), "fn": "descriptor",
                    "weight": 9,
                    "params": {"args": args, "ret": (0, "v"),
                               "is_method": True, "wide": True}})
    for n in (0, 1, 2) + ((3,) if big else ()):
        for q in ((), ("I",), ("I", "J"), ("J",)):
            out.append({"name": "lookup/%d/%s" % (n, "".join(q)),
                        "fn": "lookup", "params": {"n": n, "q": q},
                        "weight": n * 3})
    ids = [[], [(0, "p")], [(0, 1)], [(0, 1), (1, 1)]]
    for a in ids:
        for b in ids:
            if len(str(a)) <= len(str(b)):
                out.append({"name": "ident/%d-%d" % (ids.index(a),
                                                     ids.index(b)),
                            "fn": "identifiers", "weight": 3,
                            "params": {"a": a, "b": b}})
    return out


# ---------------------------------------------------------------------
# access flags

CLASS_FLAGS = {"is_public": 0x1, "is_final": 0x10, "is_super": 0x20,
               "is_interface": 0x200, "is_abstract": 0x400,
               "is_annotation": 0x2000, "is_enum": 0x4000}

MEMBER_FLAGS = {"is_public": 0x1, "is_private": 0x2, "is_protected": 0x4,
                "is_static": 0x8, "is_final": 0x10, "is_synchronized": 0x20,
                "is_volatile": 0x40, "is_bridge": 0x40,
                "is_transient": 0x80, "is_varargs": 0x80,
                "is_native": 0x100, "is_abstract": 0x400,
                "is_strict": 0x800, "is_synthetic": 0x1000,
                "is_enum": 0x4000, "is_module": 0x8000}


def flags(c, where):
    acc = c.int("access", 0, 65535)
    p = Pool()
    a = p.utf8("I")
    k = p.cls(a)
    m = member(acc, a, a if where == "field" else p.utf8("()V"))
    info = unpack_class(class_bytes(
        p, acc if where == "class" else 0, k, 0, [],
        [m] if where == "field" else [],
        [m] if where == "method" else []))
    got = {"class": (info,), "field": info.fields,
           "method": info.methods}[where][0]
    table_ = CLASS_FLAGS if where == "class" else MEMBER_FLAGS
    for name in sorted(table_):
        r = getattr(got, name)()
        c.check(c.iff(c.truth(r), (acc & table_[name]) != 0),
                "%s follows its bit" % name)
    c.cover("flags")


WORDS = ((0x1, "public"), (0x2, "private"), (0x4, "protected"),
         (0x8, "static"), (0x10, "final"), (0x800, "strict"),
         (0x100, "native"), (0x400, "abstract"), (0x4000, "enum"),
         (0x8000, "module"))


def flag_words(c, where, mask, showall):
    """ the words shown are those of the bits, none else """
    bits = [b for b in (1 << i for i in range(16)) if mask & b]
    acc = 0
    for b in bits:
        acc = acc + c.int("bit%x" % b, 0, 1) * b
    p = Pool()
    a = p.utf8("I")
    k = p.cls(a)
    m = member(acc, a, a if where == "field" else p.utf8("()V"))
    info = unpack_class(class_bytes(
        p, acc if where == "class" else 0, k, 0, [],
        [m] if where == "field" else [],
        [m] if where == "method" else []))
    on = lambda b: (acc & b) != 0      # noqa: E731
    want = []
    if where == "class":
        got = list(info.pretty_access_flags())
        for b, w in ((0x1, "public"), (0x10, "final"), (0x400, "abstract")):
            if on(b):
                want.append(w)
        if on(0x200):
            want.append("@interface" if on(0x2000) else "interface")
        if on(0x4000):
            want.append("enum")
    else:
        got = (info.fields if where == "field" else info.methods)[0]
        got = list(got.pretty_access_flags(showall))
        for b, w in WORDS:
            if on(b):
                want.append(w)
        if showall and on(0x1000):
            want.append("synthetic")
        if where == "method":
            if on(0x20):
                want.append("synchronized")
            if showall and on(0x40):
                want.append("bridge")
            if showall and on(0x80):
                want.append("varargs")
        else:
            if on(0x80):
                want.append("transient")
            if on(0x40):
                want.append("volatile")
    c.check(sorted(got) == sorted(want), "words of the access flags")
    c.observe("words", got)
    c.cover("words")


def class_decl(c, nif):
    """ the declaration line of a class """
    p = Pool()
    n = c.str("n", 3, ((47, 47), (97, 98)))
    s = c.str("s", 1, ((97, 122),))
    ks = [c.str("i%d" % i, 1, ((97, 122),)) for i in range(nif)]
    iface = c.int("iface", 0, 1)
    pub = c.int("pub", 0, 1)
    enum = c.int("enum", 0, 1)
    anno = c.int("annotation", 0, 1)
    me, su = p.cls(n), p.cls(s)
    info = unpack_class(class_bytes(
        p, pub + iface * 0x200 + enum * 0x4000 + anno * 0x2000, me, su,
        [p.cls(k) for k in ks]))
    d = info.pretty_descriptor()
    words = []
    if pub == 1:
        words.append("public")
    if iface == 1:
        words.append("@interface" if anno == 1 else "interface")
    if enum == 1:
        words.append("enum")
    f = " ".join(words)
    if iface == 0:
        f = f + " class"
    want = f + " " + n.replace("/", ".") + " extends " + s
    if ks:
        want += " implements " + ",".join(ks)
    c.check(c.eq(d, want), "declaration of the class")
    c.cover("class declaration")


def platform(c, major_hi):
    major = c.int("major", 0, 65535)
    minor = c.int("minor", 0, 65535)
    r = platform_from_version(major, minor)
    p = Pool()
    k = p.cls("X")
    info = unpack_class(class_bytes(p, 0, k, 0, version=(minor, major)))
    c.check(info.get_platform() == r, "platform of a class")
    if r is None:
        c.check(c.or_(major < 45, major > 52), "unknown platforms only")
        c.cover("no platform")
    elif r == "1.0.2":
        c.check(c.and_(major == 45, minor <= 3), "platform 1.0.2")
    elif r == "1.1":
        c.check(c.and_(major == 45, minor > 3), "platform 1.1")
    else:
        known = ["1.2", "1.3", "1.4", "1.5", "1.6", "1.7", "1.8"]
        c.check(r in known, "a known platform")
        c.check(major == 46 + known.index(r), "platform by major version")
        c.cover("platform")
    c.observe("platform", r)


def cases_flags(tier):
    out = []
    for w in ("class", "field", "method"):
        out.append({"name": "flags/" + w, "fn": "flags",
                    "params": {"where": w}})
    masks = [0x003f, 0x0fc0, 0xf001, 0x6203, 0x48d0, 0x1824]
    if tier == "thorough":
        masks += [0xfff0, 0x0fff]
    for w in ("class", "field", "method"):
        for showall in (False, True):
            for m in masks:
                out.append({"name": "words/%s/%s/%04x" % (w, showall, m),
                            "fn": "flag_words", "weight": 2,
                            "params": {"where": w, "mask": m,
                                       "showall": showall}})
    for n in (0, 1, 2):
        out.append({"name": "declaration/%d" % n, "fn": "class_decl",
                    "params": {"nif": n}})
    out.append({"name": "platform", "fn": "platform",
                "params": {"major_hi": 0}})
    return out


# ---------------------------------------------------------------------
# provided and required API

def api_class(c, nfields, nmethods, refs, lay=0, pre=""):
    """ a class with unknown member names and visibility, referring to
    other classes and members (refs), and possibly to itself """
    p = Pool()
    p.fill(lay)
    nm = lambda n: c.str(pre + n, 1, ((97, 98),))    # noqa: E731
    me = p.cls("x/Me")
    fields, methods = [], []
    prov, priv = ["x.Me"], ["x.Me"]
    for i in range(nfields):
        n = nm("f%d" % i)
        pub = c.int(pre + "fp%d" % i, 0, 31)
        fields.append(member(pub, p.utf8(n), p.utf8("I")))
        s = "x.Me." + n + ":int"
        priv.append(s)
        if pub & 1:
            prov.append(s)
    for i in range(nmethods):
        n = nm("m%d" % i)
        pub = c.int(pre + "mp%d" % i, 0, 31)
        methods.append(member(pub, p.utf8(n), p.utf8("(J)V")))
        s = "x.Me." + n + "(long):void"
        priv.append(s)
        if pub & 1:
            prov.append(s)
    req = []
    for i, r in enumerate(refs):
        n = nm("r%d" % i)
        if r == "class":
            p.cls("y/" + n)
            req.append("y." + n)
        elif r == "self field":
            p.ref(9, me, n, "I")
            req.append("x.Me." + n + ":int")
        elif r == "self method":
            p.ref(10, me, n, "(J)V")
            req.append("x.Me." + n + "(long):void")
        elif r == "method":
            p.ref(10, "y/" + n, "z", "(I)V")
            req.append("y." + n)
            req.append("y." + n + ".z(int):void")
        elif r == "interface":
            p.ref(11, "y/" + n, "z", "()J")
            req.append("y." + n)
            req.append("y." + n + ".z():long")
        elif r == "field":
            p.ref(9, "y/" + n, "z", "[I")
            req.append("y." + n)
            req.append("y." + n + ".z:int[]")
        elif r == "array":
            p.cls("[Ly/" + n + ";")
            req.append("y." + n)
        elif r == "short array":
            p.cls("[[L" + n + ";")
            req.append(n)
        elif r == "short class":
            p.cls(n)
            req.append(n)
        elif r == "short array method":
            p.ref(10, "[L" + n + ";", "clone", "()Ljava/lang/Object;")
            req.append(n)
        elif r == "array2":
            p.cls("[[Ly/" + n + ";")
            req.append("y." + n)
        elif r == "primitives":
            p.cls("[I")
            p.cls("[[J")
        elif r == "array method":
            p.ref(10, "[Ly/" + n + ";", "clone", "()Ljava/lang/Object;")
            req.append("y." + n)
        elif r == "other":
            p.string("x/Q")
            p.utf8("q/Q")
            p.nat("qq", "I")
    return class_bytes(p, 0x21, me, 0, [], fields, methods), prov, priv, req


def same_set(c, got, want, msg):
    got = list(got)
    for i, g in enumerate(got):
        c.check(c.or_(*[c.eq(g, w) for w in want]), msg + ": nothing extra")
        for h in got[:i]:
            c.check(c.not_(c.eq(g, h)), msg + ": nothing twice")
    for w in want:
        c.check(c.or_(*[c.eq(g, w) for g in got]),
                msg + ": nothing missing")


def api(c, nfields, nmethods, refs, ignored, lay=0):
    data, prov, priv, req = api_class(c, nfields, nmethods, refs, lay)
    info = unpack_class(data)
    keep = lambda s: not any([fnmatch(s, g) for g in ignored])  # noqa: E731
    out = []
    for r in req:
        if not (r in priv):
            out.append(r)
    # asked twice and in both orders: results are remembered
    order = c.choose("order", [0, 1])
    for _i in range(2):
        if order:
            same_set(c, info.get_requires(ignored),
                     [x for x in out if keep(x)], "required API")
        same_set(c, info.get_provides(ignored),
                 [x for x in prov if keep(x)], "provided API")
        same_set(c, info.get_provides(ignored, private=True),
                 [x for x in priv if keep(x)], "private provided API")
        if not order:
            same_set(c, info.get_requires(ignored),
                     [x for x in out if keep(x)], "required API")
        same_set(c, info.get_requires(), out, "required API")
        same_set(c, info.get_provides(), prov, "provided API")
        same_set(c, info.get_provides(private=True), priv,
                 "private provided API")
    c.cover("api")


def section(c, lines, head, want):
    """ one part of the report; the lines after it """
    c.check(lines[0] == head, "the class", key="told head")
    k = 1
    while lines[k] != "":
        k += 1
    got = lines[1:k]
    for i, ln in enumerate(got):
        c.check(ln[:2] == "  ", "one name a line", key="told")
        if i:
            c.check(got[i - 1] <= ln, "in order", key="told order")
    same_set(c, [ln[2:] for ln in got], want, "told " + head[11:])
    return lines[k + 1:]


def api_told(c, refs, ignored, n, members=(1, 1)):
    """ the command tells the same, of one class after the other """
    fs = c.fs()
    keep = lambda s: not any([fnmatch(s, g) for g in ignored])  # noqa: E731
    wants, files = [], []
    for i in range(n):
        data, prov, priv, req = api_class(c, *members, refs[i:i + 1],
                                          0, "abcd"[i])
        files.append(fs.put("%i.class" % i, data))
        wants.append(([x for x in prov if keep(x)],
                      [x for x in req if not (x in priv) and keep(x)]))
    which = c.choose("which", (("p",), ("r",), ("p", "r")))
    args = ["classinfo"]
    for w, opt in (("p", "--class-provides"), ("r", "--class-requires")):
        if w in which:
            args.append(opt)
    for g in ignored:
        args.append("--api-ignore=" + g)
    st, out = c.output(main, args + files)
    c.check(st == 0, "exit status", key="told status")
    lines = out.split("\n")
    for prov, req in wants:
        if "p" in which:
            lines = section(c, lines, "class x.Me provides:", prov)
        if "r" in which:
            lines = section(c, lines, "class x.Me requires:", req)
    c.check(len(lines) == 1 and lines[0] == "", "nothing else",
            key="told else")
    st, out = c.output(main, args + ["--json"] + files[:1])
    c.check(st == 0, "exit status", key="told status")
    d = json.loads(out)
    for w, k in (("p", "class_provides"), ("r", "class_requires")):
        c.check((k in d) is (w in which), "what was asked for",
                key="told json")
        if k in d:
            same_set(c, d[k], wants[0]["pr".index(w)], "json " + k)
    c.cover("told")


def cases_api(tier):
    big = tier == "thorough"
    kinds = ["class", "self field", "self method", "method", "interface",
             "field", "array", "array2", "primitives", "array method",
             "short array", "short class", "short array method",
             "other"]
    ign = [(), ("y.a*",), ("x.Me", "*.b*")]
    out = []
    for k in kinds:
        for j, ig in enumerate(ign):
            out.append({"name": "api/%s/%d" % (k, j), "fn": "api",
                        "params": {"nfields": 1, "nmethods": 1,
                                   "refs": [k], "ignored": ig}})
    pairs = [("class", "array"), ("self field", "field"),
             ("self method", "method"), ("class", "class"),
             ("array", "array method"), ("primitives", "class")]
    if big:
        pairs = [(a, b) for a in kinds for b in kinds]
    for a, b in pairs:
        out.append({"name": "api2/%s+%s" % (a, b), "fn": "api", "weight": 3,
                    "params": {"nfields": 1, "nmethods": 1, "refs": [a, b],
                               "ignored": ign[2], "lay": 2}})
    out.append({"name": "api/members", "fn": "api", "weight": 4,
                "params": {"nfields": 2, "nmethods": 2, "refs": [],
                           "ignored": ("*.a:int",)}})
    for k in kinds if big else ("class", "method", "array", "self field"):
        for j, ms in ((0, (1, 1)), (1, (1, 0)), (2, (0, 1))):
            out.append({"name": "told/%s/%d" % (k, j), "fn": "api_told",
                        "params": {"refs": [k], "ignored": ign[j], "n": 1,
                                   "members": ms}})
    out.append({"name": "told/several", "fn": "api_told", "weight": 3,
                "params": {"refs": ["class", "array"], "ignored": ign[2],
                           "n": 2, "members": (1, 0)}})
    return out


PROPS = {
    "P08": {
        "cases": cases_desc,
        "covers": ("descriptor", "constructor", "method found",
                   "bridge found", "identifier"),
        "bounds": {"quick": "up to 2 argument types of up to 2 dimensions, "
                            "any primitive, class names of up to 3 "
                            "characters; lookups among up to 2 methods",
                   "thorough": "up to 3 arguments, names of up to 5, "
                               "lookups among 3"},
    },
    "P09": {
        "cases": cases_flags,
        "covers": ("flags", "words", "class declaration", "platform",
                   "no platform"),
        "bounds": "every 16-bit flag word; every version pair; words of "
                  "every combination within groups of six flags",
    },
    "P11": {
        "cases": cases_api, "covers": ("api", "told"),
        "bounds": {"quick": "classes with up to 4 members and 2 references",
                   "thorough": "every pair of reference kinds"},
    },
}
