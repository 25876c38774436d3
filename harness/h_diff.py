"""
Comparison of two classes.
"""

import struct

from javatools import unpack_class
from javatools.classdiff import (
    JavaClassChange, ClassFieldsChange, ClassMethodsChange, MemberSuperChange,
    MemberAdded, MemberRemoved, MethodCodeChange, cli_classes_diff,
    create_optparser, pretty_merge_constants, merge_code)
from javatools.change import SuperChange

from .util import (Pool, u1, u2, u4, attr, table, member, class_bytes)


class RevPool(Pool):
    """ hands out the slots from the last to the first """

    def __init__(self, total):
        self.items = [None] * total
        self.at = total
        self.cache = {}

    def raw(self, data, wide=False):
        self.at -= 2 if wide else 1
        self.items[self.at] = data
        if wide:
            self.items[self.at + 1] = b""
        return self.at


# ---------------------------------------------------------------------
# a class as plain data, and its bytes under any layout of its constants

def blank():
    return {
        "major": 50, "minor": 0, "access": 0x21, "this": "a/Me",
        "super": "b/Sup", "ifs": ["i/One", "i/Two"], "sig": None,
        "dep": False, "vis": [], "inv": [],
        "fields": [field("f", "I"), field("g", "J")],
        "methods": [method("m", "(I)V"), method("n", "()I", code=None,
                                                access=0x401)],
    }


def field(name, desc, access=1, const=None, sig=None, dep=False):
    return {"name": name, "desc": desc, "access": access, "const": const,
            "sig": sig, "dep": dep, "vis": [], "inv": []}


def method(name, desc, access=1, code=0, exc=(), sig=None, dep=False):
    if code == 0:
        code = body()
    return {"name": name, "desc": desc, "access": access, "code": code,
            "exc": list(exc), "sig": sig, "dep": dep, "vis": [], "inv": []}


def body(ops=None, stack=2, locs=3, exc=(), lines=((0, 10), (2, 12))):
    if ops is None:
        ops = [b"\x03", ("\x12", ("int", b"\0\0\1\2")), b"\x10\x05",
               ("\xb8", ("meth", "q/C", "call", "(I)V")), b"\xb1"]
    return {"ops": list(ops), "stack": stack, "locals": locs,
            "exc": list(exc), "lines": list(lines)}


def constant(p, k):
    """ slot of the constant k, a tuple """
    what = k[0]
    if what == "int":
        return p.raw(u1(3) + k[1])
    if what == "float":
        return p.raw(u1(4) + k[1])
    if what == "long":
        return p.raw(u1(5) + k[1], wide=True)
    if what == "double":
        return p.raw(u1(6) + k[1], wide=True)
    if what == "string":
        return p.string(k[1])
    if what == "class":
        return p.cls(k[1])
    if what == "utf8":
        return p.utf8(k[1])
    tag = {"field": 9, "meth": 10, "imeth": 11}.get(what)
    if tag:
        return p.ref(tag, k[1], k[2], k[3])
    if what == "indy":
        return p.raw(u1(18) + u2(k[1]) + u2(p.nat(k[2], k[3])))
    if what == "mtype":
        return p.raw(u1(16) + u2(p.utf8(k[1])))
    raise ValueError(what)


def element(p, v):
    """ an annotation value """
    tag, x = v
    if tag == "[":
        return b"[" + table([element(p, y) for y in x])
    if tag == "@":
        return b"@" + annotation(p, x)
    if tag == "e":
        return b"e" + u2(p.utf8(x[0])) + u2(p.utf8(x[1]))
    if tag in "sc":
        return tag.encode("ascii") + u2(p.utf8(x))
    return tag.encode("ascii") + u2(constant(p, x))


def annotation(p, a):
    typ, vals = a
    return u2(p.utf8(typ)) + table([u2(p.utf8(k)) + element(p, v)
                                    for k, v in vals])


def code_bytes(p, b):
    ops = b""
    for o in b["ops"]:
        if isinstance(o, tuple):
            opc = o[0].encode("latin-1")
            i = constant(p, o[1])
            ops = ops + opc + (u1(i) if opc == b"\x12" else u2(i))
            if opc == b"\xb9":
                ops = ops + b"\1\0"
            elif opc == b"\xba":
                ops = ops + b"\0\0"
        else:
            ops = ops + o
    exc = [u2(s) + u2(e) + u2(h) + u2(0 if t is None else p.cls(t))
           for s, e, h, t in b["exc"]]
    attrs = []
    if b["lines"]:
        attrs.append(attr(p, "LineNumberTable", table(
            [u2(o) + u2(ln) for o, ln in b["lines"]])))
    return (u2(b["stack"]) + u2(b["locals"]) + u4(len(ops)) + ops +
            table(exc) + table(attrs))


def shared_attrs(p, x):
    out = []
    if x["sig"] is not None:
        out.append(attr(p, "Signature", u2(p.utf8(x["sig"]))))
    if x["dep"]:
        out.append(attr(p, "Deprecated", b""))
    if x["vis"]:
        out.append(attr(p, "RuntimeVisibleAnnotations", table(
            [annotation(p, a) for a in x["vis"]])))
    if x["inv"]:
        out.append(attr(p, "RuntimeInvisibleAnnotations", table(
            [annotation(p, a) for a in x["inv"]])))
    return out


def assemble(s, p):
    fields = []
    for f in s["fields"]:
        at = shared_attrs(p, f)
        if f["const"] is not None:
            at.append(attr(p, "ConstantValue",
                           u2(constant(p, f["const"]))))
        fields.append(member(f["access"], p.utf8(f["name"]),
                             p.utf8(f["desc"]), at))
    methods = []
    for m in s["methods"]:
        at = shared_attrs(p, m)
        if m["code"] is not None:
            at.append(attr(p, "Code", code_bytes(p, m["code"])))
        if m["exc"]:
            at.append(attr(p, "Exceptions", table(
                [u2(p.cls(e)) for e in m["exc"]])))
        methods.append(member(m["access"], p.utf8(m["name"]),
                              p.utf8(m["desc"]), at))
    at = shared_attrs(p, s)
    return class_bytes(p, s["access"], p.cls(s["this"]),
                       p.cls(s["super"]), [p.cls(i) for i in s["ifs"]],
                       fields, methods, at, (s["minor"], s["major"]))


def write(s, layout):
    p = Pool()
    if layout == "shift":
        p.fill(3)
    elif layout == "far":
        # past what fits a byte, or a signed short
        p.fill(33000)
    data = assemble(s, p)
    if layout == "reverse":
        data = assemble(s, RevPool(len(p.items)))
    return data


def parse_opts(*args):
    return create_optparser("x").parse_args(["l", "r", "-q"] + list(args))


def leaves(ch):
    """ the changes that have no parts """
    if isinstance(ch, SuperChange):
        out = []
        for x in ch.collect():
            out += leaves(x)
        return out
    return [ch]


def names_of(ch):
    return [type(x).__name__ for x in leaves(ch) if x.is_change()]


# ---------------------------------------------------------------------
# specifications with unknown content

def unknown(c, n):
    """ a class touching every part, with unknown values """
    s = blank()
    nm = lambda k: c.str(k, 1, ((97, 122),))     # noqa: E731
    s["this"] = "a/" + nm("this")
    s["access"] = c.int("access", 0, 65535)
    if n == 0:
        s["sig"] = "L" + nm("sig") + ";"
        s["fields"] = [field(nm("f"), "I", 1, ("int", c.bytes("fc", 4))),
                       field("ff", "La/" + nm("fd") + ";", 0x1002)]
        s["methods"] = []
    elif n == 1:
        s["fields"] = []
        s["methods"] = [method(nm("m"), "(I)V", code=body([
            (b"\x12".decode("latin-1"), ("string", nm("ls"))),
            ("\xb2", ("field", "q/D", nm("fr"), "I")),
            ("\xb6", ("meth", "q/" + nm("mc"), "go", "(J)V")),
            ("\xb9", ("imeth", "q/I", "run", "()V")),
            ("\xbb", ("class", "q/" + nm("kc"))),
            b"\x10" + c.bytes("push", 1), b"\xb1"],
            c.int("st", 0, 65535), c.int("lo", 0, 65535),
            [(0, 3, 5, "e/" + nm("ex")), (1, 2, 6, None)],
            [(0, c.int("line", 1, 999)), (2, c.int("line2", 1, 999))]),
            exc=["t/" + nm("th"), "t/Y"]),
            method("n", "()I", code=None, access=0x401, dep=True)]
    elif n == 2:
        s["fields"], s["methods"] = [], []
        s["vis"] = [("Lann/" + nm("at") + ";", [
            ("k", ("I", ("int", c.bytes("ai", 4)))),
            ("l", ("s", nm("as"))),
            ("e", ("e", ("Len;", nm("ae")))),
            ("r", ("[", [("c", "L" + nm("ac") + ";"),
                         ("@", ("Lin;", [("z", ("s", "t"))]))]))])]
        s["inv"] = [("Lx;", []), ("Ly;", [("q", ("s", nm("iv")))])]
        s["ifs"] = ["i/" + nm("i0"), "i/x", "j/" + nm("i1")]
    else:
        k = {"float": ("float", "F"), "double": ("double", "D"),
             "long": ("long", "J")}[n]
        if n == "long":
            val = c.bytes("val", 8)
        else:
            f = c.choose("val", (0.0, -0.0, float("nan"), float("inf"),
                                 1.5, -2.0))
            val = struct.pack(">f" if n == "float" else ">d", f)
        s["fields"] = [field("k", k[1], 0x19, (k[0], val))]
        s["methods"] = [method("m", "()V", code=body([
            ("\x13" if n == "float" else "\x14", (k[0], val)),
            b"\xb1"], lines=()))]
        s["methods"][0]["vis"] = [("La;", [("k", (k[1], (k[0], val)))])]
        s["fields"][0]["inv"] = [("La;", [("k", ("[", [
            (k[1], (k[0], val))]))])]
    return s


def reflexive(c, n, left, right):
    """ the same class, with its constants laid out in whatever way """
    s = unknown(c, n)
    l, r = unpack_class(write(s, left)), unpack_class(write(s, right))
    d = JavaClassChange(l, r)
    d.check()
    got = names_of(d)
    c.check(all([x == "ClassConstantPoolChange" for x in got]),
            "nothing but the layout of constants differs",
            key="reflexive")
    if left == right:
        c.check(not d.is_change() and not got,
                "a class does not differ from itself", key="itself")
        c.cover("itself")
    else:
        c.cover("other layout")
    for e in leaves(d):
        if e.is_change():
            c.check(e.is_ignored(parse_opts("--ignore-pool")),
                    "the layout of constants can be ignored")
    c.check(cli_classes_diff(parse_opts("--ignore-pool"),
                             unpack_class(write(s, left)),
                             unpack_class(write(s, right))) == 0,
            "exit status without a difference")
    c.observe("names", got)


def cases_reflexive(tier):
    out = []
    lay = ("plain", "shift", "reverse")
    for n in (0, 1, 2, "float", "double", "long"):
        for a in lay:
            for b in lay:
                if tier == "quick" and a == b == "shift":
                    continue
                if tier == "quick" and (a, b) in (("shift", "plain"),
                                                  ("reverse", "shift")):
                    continue
                out.append({"name": "same/%s/%s-%s" % (n, a, b),
                            "fn": "reflexive", "weight": 5,
                            "params": {"n": n, "left": a, "right": b}})
    for a, b in (("far", "plain"), ("far", "far")):
        out.append({"name": "same/long/%s-%s" % (a, b),
                    "fn": "reflexive", "weight": 20,
                    "params": {"n": "long", "left": a, "right": b}})
    return out


# ---------------------------------------------------------------------
# one difference

def two(c, kind, what, *a):
    if kind == "str":
        return (c.str(what + "L", 1, ((97, 122),)),
                c.str(what + "R", 1, ((97, 122),)))
    if kind == "bytes" and a[0] >= 4:
        # the number of digits to display is kept small
        big = ((0x40, 0x8F),)
        return tuple([c.bytes(what + k + "h", 1, big) +
                      c.bytes(what + k, a[0] - 1) for k in "LR"])
    if kind == "small":
        return tuple([b"\0" * (a[0] - 1) + c.bytes(what + k, 1)
                      for k in "LR"])
    if kind == "bytes":
        return c.bytes(what + "L", a[0]), c.bytes(what + "R", a[0])
    if kind == "bool":
        return (c.choose(what + "L", (False, True)),
                c.choose(what + "R", (False, True)))
    return c.int(what + "L", a[0], a[1]), c.int(what + "R", a[0], a[1])


def set_in(s, path, v):
    for k in path[:-1]:
        s = s[k]
    s[path[-1]] = v


FLOATS = (0.0, -0.0, float("nan"), 1.5)

# element: (kind of value, where it is in the class, how the value is
# written there, the changes it must show up as, bounds)
ELEMENTS = {
    "name": ("str", [("this",)], "a/%s", ["ClassNameChange"]),
    "super": ("str", [("super",)], "a/%s", ["ClassSuperclassChange"]),
    "interface": ("str", [("ifs", 1)], "i/%s", ["ClassInterfacesChange"]),
    "major": ("int", [("major",)], None, ["ClassVersionChange"], 44, 54),
    "minor": ("int", [("minor",)], None, ["ClassVersionChange"], 0, 65535),
    "deprecated": ("bool", [("dep",)], None, ["ClassDeprecationChange"]),
    "signature": ("str", [("sig",)], "L%s;", ["ClassSignatureChange"]),
    "field type": ("str", [("fields", 0, "desc")], "L%s;",
                   ["FieldTypeChange"]),
    "field signature": ("str", [("fields", 1, "sig")], "T%s;",
                        ["FieldSignatureChange"]),
    "field deprecated": ("bool", [("fields", 1, "dep")], None,
                         ["FieldDeprecationChange"]),
    "field int": ("bytes", [("fields", 0, "const")], "int",
                  ["FieldConstvalueChange"], 4),
    "field long": ("bytes", [("fields", 1, "const")], "long",
                   ["FieldConstvalueChange"], 8),
    "field string": ("str", [("fields", 1, "const")], "string",
                     ["FieldConstvalueChange"]),
    "field float": ("float", [("fields", 0, "const")], "float",
                    ["FieldConstvalueChange"]),
    "field double": ("float", [("fields", 1, "const")], "double",
                     ["FieldConstvalueChange"]),
    "method type": ("str", [("methods", 1, "desc")], "(I)L%s;",
                    ["MethodTypeChange"]),
    "method signature": ("str", [("methods", 0, "sig")], "(T%s;)V",
                         ["MethodSignatureChange"]),
    "method deprecated": ("bool", [("methods", 0, "dep")], None,
                          ["MethodDeprecationChange"]),
    "method throws": ("str", [("methods", 1, "exc")], "throws",
                      ["MethodExceptionsChange"]),
    "stack": ("int", [("methods", 0, "code", "stack")], None,
              ["CodeStackChange"], 0, 65535),
    "locals": ("int", [("methods", 0, "code", "locals")], None,
               ["CodeLocalsChange"], 0, 65535),
    "catch type": ("str", [("methods", 0, "code", "exc")], "catch",
                   ["CodeExceptionChange"]),
    "catch start": ("int", [("methods", 0, "code", "exc")], "start",
                    ["CodeExceptionChange"], 0, 99),
    "catch end": ("int", [("methods", 0, "code", "exc")], "end",
                  ["CodeExceptionChange"], 0, 99),
    "catch handler": ("int", [("methods", 0, "code", "exc")], "handler",
                      ["CodeExceptionChange"], 0, 99),
    "all lines": ("int", [("methods", 0, "code", "lines")], "all lines",
                  ["CodeAbsoluteLinesChange"], 1, 60000),
    "last line": ("int", [("methods", 0, "code", "lines")], "last line",
                  ["CodeAbsoluteLinesChange", "CodeRelativeLinesChange"],
                  1, 60000),
    "operand": ("bytes", [("methods", 0, "code", "ops", 2)], "bipush",
                ["CodeConstantsChange"], 1),
    "branch": ("bytes", [("methods", 0, "code", "ops", 2)], "goto",
               ["CodeConstantsChange"], 2),
    "switch": ("bytes", [("methods", 0, "code", "ops", 2)], "switch",
               ["CodeConstantsChange"], 4),
    "wide operand": ("bytes", [("methods", 0, "code", "ops", 2)], "wide",
                     ["CodeConstantsChange"], 2),
    "dimensions": ("bytes", [("methods", 0, "code", "ops", 2)], "multi",
                   ["CodeConstantsChange"], 1),
    "loaded int": ("bytes", [("methods", 0, "code", "ops", 1)], "ldc int",
                   ["CodeConstantsChange"], 4),
    "loaded float": ("float", [("methods", 0, "code", "ops", 1)],
                     "ldc float", ["CodeConstantsChange"]),
    "loaded string": ("str", [("methods", 0, "code", "ops", 1)],
                      "ldc string", ["CodeConstantsChange"]),
    "loaded kind": ("bool", [("methods", 0, "code", "ops", 1)],
                    "ldc kind", ["CodeConstantsChange"]),
    "called class": ("str", [("methods", 0, "code", "ops", 3)],
                     "call class", ["CodeConstantsChange"]),
    "called name": ("str", [("methods", 0, "code", "ops", 3)],
                    "call name", ["CodeConstantsChange"]),
    "called type": ("str", [("methods", 0, "code", "ops", 3)],
                    "call type", ["CodeConstantsChange"]),
    "called kind": ("bool", [("methods", 0, "code", "ops", 3)],
                    "call kind", ["CodeConstantsChange"]),
    "accessed field": ("str", [("methods", 0, "code", "ops", 3)],
                       "get field", ["CodeConstantsChange"]),
    "linked": ("int", [("methods", 0, "code", "ops", 3)],
               "indy", ["CodeConstantsChange"], 0, 65535),
    "length": ("bool", [("methods", 0, "code", "ops", 2)], "length",
               ["CodeConstantsChange", "CodeBodyChange"]),
    "opcode": ("opcode", [("methods", 0, "code", "ops", 2)], None,
               ["CodeConstantsChange", "CodeBodyChange"]),
}

for _k in ("field int", "field long", "loaded int"):
    _e = ELEMENTS[_k]
    ELEMENTS[_k + " small"] = ("small",) + _e[1:]

for _i in range(0, 16, 4):
    # the bits of the access flags, four at a time
    for _w, _n, _p in (("class", "Class", ("access",)),
                       ("field", "Field", ("fields", 0, "access")),
                       ("method", "Method", ("methods", 1, "access"))):
        ELEMENTS["%s access %d" % (_w, _i)] = (
            "int", [_p], 1 << _i, [_n + "AccessflagsChange"], 0, 15)
# bridges are other methods altogether
ELEMENTS["method access 4"] = ELEMENTS["method access 4"][:5] + (3,)
ELEMENTS["method access 7"] = (
    "int", [("methods", 1, "access")], 0x80, ["MethodAccessflagsChange"],
    0, 1)

for _w, _n in (("class", "Class"), ("fields", "Field"),
               ("methods", "Method")):
    for _v, _m in (("vis", ""), ("inv", "Invisible")):
        _p = (_v,) if _w == "class" else (_w, 0, _v)
        for _k in ("type", "key", "int", "string", "enum", "array", "nested",
                   "class", "float", "kind", "count"):
            ELEMENTS["%s %s %s" % (_w, _v, _k)] = (
                {"int": "bytes", "kind": "bool", "count": "bool",
                 "float": "float"}.get(_k, "str"), [_p], "ann " + _k,
                ["%s%sAnnotationsChange" % (_n, _m)], 4)


def wrap(how, v):
    """ the value as it goes into the class """
    if how is None:
        return v
    if isinstance(how, int):
        return v * how
    if "%s" in how:
        a, b = how.split("%s")
        return a + v + b
    if how in ("int", "long", "string", "float", "double"):
        return (how, v)
    if how == "throws":
        return ["t/A", "t/" + v]
    if how == "catch":
        return [(1, 2, 3, None), (0, 1, 2, "t/" + v)]
    if how in ("start", "end", "handler"):
        e = [4, 5, 6, "t/T"]
        e[("start", "end", "handler").index(how)] = v
        return [tuple(e)]
    if how == "all lines":
        return [(0, v), (2, v + 3), (4, v + 1)]
    if how == "last line":
        return [(0, 100), (2, v)]
    if how == "bipush":
        return b"\x10" + v
    if how == "goto":
        return b"\xa7" + v
    if how == "wide":
        return b"\xc4\x84" + v + b"\0\1"
    if how == "switch":
        return b"\xab\0\0\0\0\0\0\0\1\0\0\0\7" + v
    if how == "multi":
        return b"\xbc" + v
    if how == "ldc int":
        return ("\x12", ("int", v))
    if how == "ldc float":
        return ("\x12", ("float", v))
    if how == "ldc string":
        return ("\x12", ("string", v))
    if how == "ldc kind":
        return ("\x12", ("class" if v else "string", "q/K"))
    if how == "call class":
        return ("\xb8", ("meth", "q/" + v, "call", "(I)V"))
    if how == "call name":
        return ("\xb8", ("meth", "q/C", v, "(I)V"))
    if how == "call type":
        return ("\xb8", ("meth", "q/C", "call", "(L" + v + ";)V"))
    if how == "call kind":
        return ("\xb8", ("imeth" if v else "meth", "q/C", "call", "(I)V"))
    if how == "get field":
        return ("\xb2", ("field", "q/C", v, "I"))
    if how == "indy":
        return ("\xba", ("indy", v, "call", "(I)V"))
    if how == "length":
        return b"\x10\x05\0" if v else b"\x10\x05"
    if how == "opcode":
        return v
    what = how[4:]
    if what == "type":
        return [("La/" + v + ";", [("k", ("s", "v"))])]
    if what == "key":
        return [("La;", [(v, ("s", "v"))])]
    if what == "int":
        return [("La;", [("k", ("I", ("int", v)))])]
    if what == "string":
        return [("La;", [("k", ("s", v))]), ("Lb;", [])]
    if what == "enum":
        return [("La;", [("j", ("s", "t")), ("k", ("e", ("Le;", v)))])]
    if what == "class":
        return [("La;", [("k", ("c", "L" + v + ";"))])]
    if what == "float":
        return [("La;", [("k", ("F", ("float", v)))])]
    if what == "array":
        return [("La;", [("k", ("[", [("s", "t"), ("s", v)]))])]
    if what == "nested":
        return [("La;", [("k", ("@", ("Ln;", [("z", ("s", v))])))])]
    if what == "kind":
        return [("La;", [("k", ("c" if v else "s", "Lk;"))])]
    return [("La;", [])] * (2 if v else 1)


def pair(c, name):
    """ (left, right, values as written, do they differ) """
    el = ELEMENTS[name]
    kind, paths, how = el[:3]
    if kind == "float":
        fmt = ">d" if how == "double" else ">f"
        i = c.choose("vL", range(len(FLOATS)))
        j = c.choose("vR", range(len(FLOATS)))
        differ = i != j
        lv, rv = struct.pack(fmt, FLOATS[i]), struct.pack(fmt, FLOATS[j])
    elif kind == "opcode":
        # instructions without operands
        lv = c.bytes("vL", 1, ((0x85, 0x98),))
        rv = c.bytes("vR", 1, ((0x85, 0x98),))
        differ = c.not_(c.eq(lv, rv))
        how = "opcode"
    else:
        lv, rv = two(c, kind, "v", *el[4:])
        differ = c.not_(c.eq(lv, rv))
    l, r = blank(), blank()
    for p in paths:
        set_in(l, p, wrap(how, lv))
        set_in(r, p, wrap(how, rv))
    return l, r, differ, el[3]


FREE = {"major": ("ClassPlatformChange",),
        "minor": ("ClassPlatformChange",)}


def single(c, name, left, right):
    """ one difference is reported, as what it is """
    l, r, differ, shown = pair(c, name)
    lc, rc = unpack_class(write(l, left)), unpack_class(write(r, right))
    d = JavaClassChange(lc, rc)
    d.check()
    got = names_of(d)
    diff = c.decide(differ)
    rest = [x for x in got if x != "ClassConstantPoolChange" and
            x not in FREE.get(name, ())]
    if diff:
        c.check(d.is_change(), "a difference makes the class differ",
                key="missed " + name)
        c.check(sorted(rest) == sorted(shown),
                "the difference is reported as what it is",
                key="report " + name)
        c.cover("difference")
    else:
        c.check(rest == [], "no difference is invented",
                key="invented " + name)
        c.cover("no difference")
    status = cli_classes_diff(parse_opts("--ignore-pool"), lc, rc)
    c.check(status == (1 if diff else 0), "exit status",
            key="status " + name)
    c.observe("names", got)


def codeless(c):
    """ a method that loses or gains its code """
    l, r = blank(), blank()
    a, b = two(c, "bool", "code")
    l["methods"][0]["code"] = body() if a else None
    r["methods"][0]["code"] = body() if b else None
    d = JavaClassChange(unpack_class(write(l, "plain")),
                        unpack_class(write(r, "plain")))
    d.check()
    o = parse_opts("--ignore-pool")
    c.check(d.is_change() == (a != b), "code lost or gained",
            key="codeless")
    for m in code_changes(d):
        pass
    mc = [x for x in code_changes(d) if x.is_change()]
    c.check(len(mc) == (1 if a != b else 0), "code lost or gained")
    for x in mc:
        c.check(not x.is_ignored(o), "and is not ignored unless asked",
                key="codeless ignored")
    c.check(cli_classes_diff(o, unpack_class(write(l, "plain")),
                             unpack_class(write(r, "plain"))) ==
            (1 if a != b else 0), "exit status")
    c.cover("codeless")


def code_changes(d):
    out = []
    for x in d.collect():
        if isinstance(x, MethodCodeChange):
            out.append(x)
        elif isinstance(x, SuperChange):
            out += code_changes(x)
    return out


def cases_single(tier):
    out = [{"name": "codeless", "fn": "codeless", "params": {}}]
    lays = [("plain", "plain"), ("plain", "reverse")]
    if tier == "thorough":
        lays += [("shift", "reverse"), ("reverse", "shift")]
    for name in sorted(ELEMENTS):
        for i, (a, b) in enumerate(lays):
            if tier == "quick" and (" vis " in name or " inv " in name):
                if (hash_of(name) + i) % 2:
                    continue
            out.append({"name": "one/%s/%s-%s" % (name, a, b),
                        "fn": "single", "weight": 3,
                        "params": {"name": name, "left": a, "right": b}})
    return out


def hash_of(s):
    return sum(s.encode("ascii"))


# ---------------------------------------------------------------------
# members

def members(c, kind, nl, nr, flags=False):
    """ every member is matched, added or removed, once """
    pool = ["(I)V", "()V", "(I)J"] if kind == "methods" else ["I", "J"]
    sides = []
    for side, n in (("l", nl), ("r", nr)):
        ms = []
        for i in range(n):
            nm = c.str("%s%d" % (side, i), 1, ((97, 98),))
            d = c.choose("%s%dd" % (side, i), range(len(pool)))
            for onm, od in ms:
                # the class file format rules out twins
                if kind == "methods":
                    c.assume(c.or_(c.not_(c.eq(onm, nm)), od != d))
                else:
                    c.assume(c.or_(c.not_(c.eq(onm, nm)), od != d))
            ms.append((nm, d))
        sides.append(ms)
    mk = method if kind == "methods" else field
    cs = []
    for ms in sides:
        s = blank()
        s["fields"], s["methods"] = [], []
        s[kind] = [mk(n, pool[d]) for n, d in ms]
        if flags and ms:
            # public, private static final synthetic, bridge or volatile
            s[kind][0]["access"] = c.choose("flags%d" % len(cs),
                                            (1, 0x101A, 0x41))
        cs.append(unpack_class(write(s, "plain")))
    l, r = cs
    d = (ClassMethodsChange if kind == "methods" else ClassFieldsChange)(l, r)
    d.check()
    la, ra = list(getattr(l, kind)), list(getattr(r, kind))
    seen_l, seen_r = [], []
    adds, rems = 0, 0
    ident = lambda m: m.get_identifier()       # noqa: E731
    for x in d.collect():
        if isinstance(x, MemberAdded):
            seen_r.append(x.rdata)
            adds += 1
        elif isinstance(x, MemberRemoved):
            seen_l.append(x.ldata)
            rems += 1
        else:
            c.check(isinstance(x, MemberSuperChange), "kind of change")
            c.check(c.eq(ident(x.ldata), ident(x.rdata)),
                    "matched by identifier")
            same = c.eq(x.ldata.get_descriptor(), x.rdata.get_descriptor())
            alike = x.ldata.access_flags == x.rdata.access_flags
            c.check(c.iff(x.is_change(), c.not_(c.and_(same, alike))),
                    "matched members differ when they do")
            if not c.decide(same):
                # only when there is no better match
                c.check(not any([m.get_descriptor() ==
                                 x.rdata.get_descriptor() and
                                 ident(m) == ident(x.rdata)
                                 for m in la]),
                        "the same member is the best match",
                        key="best match")
            seen_l.append(x.ldata)
            seen_r.append(x.rdata)
    for got, want in ((seen_l, la), (seen_r, ra)):
        c.check(sorted([id(m) for m in got]) == sorted([id(m)
                                                        for m in want]),
                "every member shows up once", key="partition")
    # as few additions as possible
    for m in la:
        n_l = len([1 for x in la if ident(x) == ident(m)])
        n_r = len([1 for x in ra if ident(x) == ident(m)])
        rem = len([1 for x in d.collect() if isinstance(x, MemberRemoved)
                   and ident(x.ldata) == ident(m)])
        c.check(rem == max(0, n_l - n_r), "removed only without a match")
    for m in ra:
        n_l = len([1 for x in la if ident(x) == ident(m)])
        n_r = len([1 for x in ra if ident(x) == ident(m)])
        add = len([1 for x in d.collect() if isinstance(x, MemberAdded)
                   and ident(x.rdata) == ident(m)])
        c.check(add == max(0, n_r - n_l), "added only without a match",
                key="added")
    c.check(d.is_change() == any([x.is_change() for x in d.collect()]),
            "changed when a member is")
    c.observe("counts", (adds, rems))
    c.cover("members")


def cases_members(tier):
    out = []
    top = 2 if tier == "quick" else 3
    for kind in ("fields", "methods"):
        for a in range(top + 1):
            for b in range(top + 1):
                if a + b > 5:
                    continue
                out.append({"name": "members/%s/%d-%d" % (kind, a, b),
                            "fn": "members", "weight": a + b,
                            "params": {"kind": kind, "nl": a, "nr": b}})
                if 0 < a + b <= top + 1:
                    out.append({"name": "members/%s/%d-%d/flags"
                                % (kind, a, b),
                                "fn": "members", "weight": a + b,
                                "params": {"kind": kind, "nl": a, "nr": b,
                                           "flags": True}})
    return out


# ---------------------------------------------------------------------
# ignore options

NAMES = ("version_up", "version_down", "platform_up", "platform_down",
         "absolute_lines", "relative_lines", "deprecated", "pool")


TABLES = ([], [(0, 10)], [(0, 11)], [(0, 10), (2, 12)], [(0, 0)],
          [(2, 10)])


def ignoring(c, what):
    """ what the options suppress, and what not """
    o = parse_opts()
    on = {}
    for n in NAMES:
        on[n] = c.bool("ignore " + n)
        setattr(o, "ignore_" + n, on[n])
    l, r = blank(), blank()
    ok = []

    def differs(path, kind, bound, how, category):
        a, b = two(c, kind, "-".join([str(x) for x in path]), *bound)
        set_in(l, path, wrap(how, a))
        set_in(r, path, wrap(how, b))
        return a, b
    layout = "plain"
    if "version" in what:
        a, b = differs(("major",), "int", (48, 51), None, None)
        up, down = a < b, a > b
        v = c.and_(c.or_(c.not_(up), on["version_up"]),
                   c.or_(c.not_(down), on["version_down"]))
        # the platform follows from the version
        ok.append(v)
    if "lines" in what:
        a, b = differs(("methods", 0, "code", "lines"), "int", (1, 9),
                       "all lines", None)
        ok.append(c.or_(c.eq(a, b), on["absolute_lines"]))
    if "last" in what:
        a, b = differs(("methods", 0, "code", "lines"), "int", (1, 9),
                       "last line", None)
        ok.append(c.or_(c.eq(a, b), c.and_(on["absolute_lines"],
                                           on["relative_lines"])))
    if "tables" in what:
        # lines on either side, or none at all
        x, y = [TABLES[c.choose("table" + k, range(len(TABLES)))]
                for k in "LR"]
        l["methods"][0]["code"]["lines"] = x
        r["methods"][0]["code"]["lines"] = y
        rel = [[(o_, n - t[0][1]) for o_, n in t] for t in (x, y)]
        if x != y:
            ok.append(on["absolute_lines"])
        if rel[0] != rel[1]:
            ok.append(on["relative_lines"])
    for k, p in (("deprecated", ("dep",)),
                 ("field deprecated", ("fields", 0, "dep")),
                 ("method deprecated", ("methods", 0, "dep"))):
        if k in what:
            a, b = differs(p, "bool", (), None, None)
            ok.append(c.or_(a == b, on["deprecated"]))
    if "other" in what:
        p = {"other": ("access",), "other field": ("fields", 1, "access"),
             "other method": ("methods", 0, "access"),
             "other code": ("methods", 0, "code", "stack"),
             }[[w for w in what if w.startswith("other")][-1]]
        a, b = differs(p, "int", (0, 3), None, None)
        ok.append(c.eq(a, b))
    if "pool" in what:
        layout = "shift"
        ok.append(on["pool"])
    same_pool = len(ok) == 0
    lc, rc = unpack_class(write(l, "plain")), unpack_class(write(r, layout))
    pooled = lc.cpool != rc.cpool
    if pooled:
        ok.append(on["pool"])
    got = cli_classes_diff(o, lc, rc)
    want = c.and_(True, *ok)
    c.check(c.iff(got == 0, want), "exactly what was asked is ignored",
            key="ignore " + "+".join(what))
    c.check(got in (0, 1), "exit status")
    c.observe("status", got)
    c.cover("ignoring")


def platform(c):
    """ the platform of a version can be ignored on its own """
    o = parse_opts()
    up, down = c.bool("up"), c.bool("down")
    o.ignore_platform_up, o.ignore_platform_down = up, down
    l, r = blank(), blank()
    l["major"], r["major"] = c.int("L", 48, 51), c.int("R", 48, 51)
    d = JavaClassChange(unpack_class(write(l, "plain")),
                        unpack_class(write(r, "plain")))
    d.check()
    for x in leaves(d):
        if x.is_change():
            ign = x.is_ignored(o)
            if type(x).__name__ == "ClassPlatformChange":
                c.check(c.iff(ign, c.or_(
                    c.and_(up, l["major"] < r["major"]),
                    c.and_(down, l["major"] > r["major"]))),
                    "platform changes are ignored when asked",
                    key="platform ignored")
                c.cover("platform")
            else:
                c.check(not c.truth(ign), "and nothing else")
    c.observe("n", len(names_of(d)))


def spelled(c):
    """ --ignore=a,b is the same as --ignore-a --ignore-b """
    words = [n.replace("_", "-") for n in NAMES] + ["lines", "version",
                                                    "platform"]
    a = c.choose("first", words)
    b = c.choose("second", words)
    x = parse_opts("--ignore=" + c.choose(
        "between", ("%s,%s", "%s, %s", " %s ,,%s,", ",%s,%s ")) % (a, b))
    y = parse_opts("--ignore-" + a, "--ignore-" + b)
    for n in NAMES:
        k = "ignore_" + n
        c.check(bool(getattr(x, k)) == bool(getattr(y, k)),
                "both spellings ask for the same", key="spelled")
        grp = n.rsplit("_", 1)[0] if n[-2:] in ("up", "wn") else \
            "lines" if n.endswith("lines") else None
        mine = n.replace("_", "-")
        c.check(bool(getattr(y, k)) == (mine in (a, b) or grp in (a, b)),
                "an option asks for what it says", key="asked")
    c.cover("spelled")


def cases_ignore(tier):
    sets = [["version"], ["lines"], ["last"], ["deprecated"],
            ["field deprecated"], ["method deprecated"], ["pool"],
            ["tables"], ["other"], ["version", "lines"], ["deprecated", "other"],
            ["pool", "lines"], ["lines", "other", "other code"],
            ["method deprecated", "last"], ["version", "deprecated"],
            ["other", "other field"], ["field deprecated", "other",
                                       "other method"]]
    if tier == "thorough":
        sets += [["version", "lines", "deprecated", "pool"],
                 ["version", "last", "field deprecated"],
                 ["lines", "method deprecated", "field deprecated",
                  "deprecated"],
                 ["version", "pool", "other", "other method"]]
    out = [{"name": "ignore/" + "+".join(s), "fn": "ignoring",
            "weight": len(s) * 2, "params": {"what": s}} for s in sets]
    out.append({"name": "platform", "fn": "platform", "params": {}})
    out.append({"name": "spelled", "fn": "spelled", "params": {}})
    return out


# ---------------------------------------------------------------------
# side by side views

def merged(c, nl, nr, wide=False):
    pools, want = [], []
    for side, n in (("l", nl), ("r", nr)):
        p = Pool()
        vals = [None]
        for i in range(n):
            if wide and c.choose("wide %s%d" % (side, i), (False, True)):
                v = c.choose("%s%d" % (side, i), (7, -2))
                p.raw(b"\x05" + struct.pack(">q", v), True)
                vals += [("Long", "%dl" % v), None]
            else:
                v = c.bytes("%s%d" % (side, i), 4)
                p.integer(v)
                vals.append(("Integer", None))
        pools.append(p)
        want.append(vals)
    nl, nr = len(want[0]) - 1, len(want[1]) - 1
    cps = []
    for p in pools:
        cps.append(unpack_class(class_bytes(p, 1, 0, 0)).cpool)
    got = list(pretty_merge_constants(cps[0], cps[1]))
    c.check([g[0] for g in got] == list(range(1, max(nl, nr) + 1)),
            "every index once, in order", key="merged indexes")
    for i, lt, lv, rt, rv in got:
        for k, (t, v) in enumerate(((lt, lv), (rt, rv))):
            if i <= (nl, nr)[k]:
                wt, wv = cps[k].pretty_const(i)
                c.check(t == wt and c.decide(c.eq(v, wv)),
                        "both sides show their constant")
                here = want[k][i]
                c.check((here is None) == (t is None), "nothing but in the "
                        "second half of a wide one", key="merged kinds")
                if here and here[0] == "Long":
                    c.check(t == "long" and v == here[1],
                            "a wide constant", key="merged kinds")
            else:
                c.check(t is None and v is None,
                        "nothing past the end", key="merged past end")
    c.cover("merged constants")


def merged_code(c, nl, nr):
    codes, all_ops = [], []
    for side, n in (("l", nl), ("r", nr)):
        if n is None:
            codes.append(None)
            all_ops.append([])
            continue
        lines = [(2 * i, c.int("%s%d" % (side, i), 1, 3))
                 for i in range(n)]
        if n:
            ops = [b"\x10" + bytes([i]) for i in range(n)] + [b"\xb1"]
        else:
            ops = [b"\x03", b"\xb1"]
        s = blank()
        s["methods"] = [method("m", "()V", code=body(ops, lines=lines))]
        code = unpack_class(write(s, "plain")).methods[0].get_code()
        codes.append(code)
        all_ops.append(list(code.disassemble()))
    got = merge_code(codes[0], codes[1])
    for k in (0, 1):
        seen = []
        for rel, both in got.items():
            if both[k] is None:
                continue
            line, dis = both[k]
            offs = [op[0] for op in dis]
            c.check(offs == sorted(offs), "instructions in order",
                    key="merged order")
            for op in dis:
                seen.append((op[0], op[1]))
                at = codes[k].get_line_for_offset(op[0])
                if codes[k].get_linenumbertable():
                    c.check(c.eq(at, line), "instructions of the line")
                    base = codes[k].get_linenumbertable()[0][1]
                    c.check(c.eq(rel, line - base), "relative line")
        c.check(sorted(seen) == sorted([(o[0], o[1]) for o in all_ops[k]]),
                "every instruction shows up once", key="merged code")
    c.cover("merged code")


def cases_merge(tier):
    out = []
    top = 3 if tier == "quick" else 5
    for a in range(top + 1):
        for b in range(top + 1):
            out.append({"name": "consts/%d-%d" % (a, b), "fn": "merged",
                        "params": {"nl": a, "nr": b}})
    for a in range(top):
        for b in range(top):
            if a + b:
                out.append({"name": "wide/%d-%d" % (a, b), "fn": "merged",
                            "params": {"nl": a, "nr": b, "wide": True}})
    top = 3 if tier == "quick" else 4
    for a in [None] + list(range(top + 1)):
        for b in [None] + list(range(top + 1)):
            out.append({"name": "code/%s-%s" % (a, b), "fn": "merged_code",
                        "weight": 2 * ((a or 0) + (b or 0)),
                        "params": {"nl": a, "nr": b}})
    return out


PROPS = {
    "P22": {
        "cases": cases_reflexive, "covers": ("itself", "other layout"),
        "bounds": {"quick": "classes with every part, unknown names, "
                            "numbers, flags and lines; three layouts of "
                            "the constants",
                   "thorough": "all pairs of layouts"},
    },
    "P23": {
        "cases": cases_single,
        "covers": ("difference", "no difference", "codeless"),
        "bounds": {"quick": "one element at a time, unknown on both sides; "
                            "floats from a list", "thorough":
                   "four pairs of layouts of the constants"},
    },
    "P24": {
        "cases": cases_ignore, "covers": ("ignoring", "platform",
                                          "spelled"),
        "bounds": {"quick": "up to three unknown differences at once, all "
                            "combinations of the options",
                   "thorough": "up to four differences"},
    },
    "P25": {
        "cases": cases_members, "covers": ("members",),
        "bounds": {"quick": "up to 2 members on each side with unknown "
                            "names and types", "thorough": "up to 3"},
    },
    "P35": {
        "cases": cases_merge, "covers": ("merged constants", "merged code"),
        "bounds": {"quick": "pools of up to 3 constants, code of up to 3 "
                            "lines, all unknown", "thorough":
                   "up to 5 constants, 4 lines"},
    },
}
