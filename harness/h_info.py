"""
What is displayed of a class.
"""

import json
import struct

from javatools import unpack_class
from javatools.classinfo import (
    cli, cli_simplify_classinfo, create_optparser, main)

from .h_diff import (RevPool, blank, field, method, body, constant,
                     shared_attrs)
from .h_types import BASE
from .util import (Pool, u1, u2, u4, attr, table, member, class_bytes,
                   ref_int)


# ---------------------------------------------------------------------
# building

def code_attr(p, b):
    ops = b""
    for o in b["ops"]:
        ops = ops + (o[0] if len(o) == 3 else o[0] + u2(constant(p, o[3])))
    exc = [u2(s) + u2(e) + u2(h) + u2(0 if t is None else p.cls(t))
           for s, e, h, t in b["exc"]]
    attrs = []
    if b["lines"]:
        attrs.append(attr(p, "LineNumberTable", table(
            [u2(o) + u2(ln) for o, ln in b["lines"]])))
    for k in ("LocalVariableTable", "LocalVariableTypeTable"):
        if b.get(k):
            attrs.append(attr(p, k, table(
                [u2(o) + u2(ln) + u2(p.utf8(n)) + u2(p.utf8(d)) + u2(i)
                 for o, ln, n, d, i in b[k]])))
    return attr(p, "Code", u2(b["stack"]) + u2(b["locals"]) + u4(len(ops)) +
                ops + table(exc) + table(attrs))


def build(s):
    """ (bytes of the class, its pool) """
    p = Pool()
    fields = []
    for f in s["fields"]:
        at = shared_attrs(p, f)
        if f["const"] is not None:
            at.append(attr(p, "ConstantValue", u2(constant(p, f["const"]))))
        fields.append(member(f["access"], p.utf8(f["name"]),
                             p.utf8(f["desc"]), at))
    methods = []
    for m in s["methods"]:
        at = shared_attrs(p, m)
        if m["code"] is not None:
            at.append(code_attr(p, m["code"]))
        if m["exc"]:
            at.append(attr(p, "Exceptions", table(
                [u2(p.cls(e)) for e in m["exc"]])))
        methods.append(member(m["access"], p.utf8(m["name"]),
                              p.utf8(m["desc"]), at))
    at = shared_attrs(p, s)
    if s.get("source"):
        at.append(attr(p, "SourceFile", u2(p.utf8(s["source"]))))
    if s.get("enclosing"):
        k, n, d = s["enclosing"]
        at.append(attr(p, "EnclosingMethod", u2(p.cls(k)) +
                       u2(p.nat(n, d) if n else 0)))
    return class_bytes(p, s["access"], p.cls(s["this"]), p.cls(s["super"]),
                       [p.cls(i) for i in s["ifs"]], fields, methods, at,
                       (s["minor"], s["major"])), p


# ---------------------------------------------------------------------
# what is to be seen, written down independently

def jname(n):
    return n.replace("/", ".")


def types(desc):
    """ displayed forms of a run of type descriptors """
    out = []
    i = 0
    while i < len(desc):
        dims = 0
        while desc[i] == "[":
            dims += 1
            i += 1
        if desc[i] == "L":
            j = desc.index(";", i)
            t = jname(desc[i + 1:j])
            i = j + 1
        else:
            t = BASE[desc[i]]
            i += 1
        out.append(t + "[]" * dims)
    return out


WORDS = ((1, "public"), (2, "private"), (4, "protected"), (8, "static"),
         (0x10, "final"), (0x800, "strict"), (0x100, "native"),
         (0x400, "abstract"), (0x4000, "enum"))


def words(m, is_method):
    out = [w for b, w in WORDS if m["access"] & b]
    if is_method:
        if m["access"] & 0x20:
            out.append("synchronized")
    else:
        if m["access"] & 0x80:
            out.append("transient")
        if m["access"] & 0x40:
            out.append("volatile")
    return out


def declared(m, is_method):
    out = words(m, is_method)
    if is_method:
        k = m["desc"].index(")")
        if m["name"] != "<init>":
            out += types(m["desc"][k + 1:])
        out.append("%s(%s)" % (m["name"], ",".join(types(m["desc"][1:k]))))
        if m["exc"]:
            out += ["throws", ",".join([jname(e) for e in m["exc"]])]
    else:
        out += types(m["desc"])
        out.append(m["name"])
    return " ".join(out)


TAGS = {1: "Utf8", 3: "int", 4: "float", 5: "long", 6: "double", 7: "class",
        8: "String", 9: "Field", 10: "Method", 11: "InterfaceMethod",
        12: "NameAndType"}


def shown_const(raw):
    """ (kind, displayed value) of the bytes of a constant """
    tag = ref_int(raw, 0, 1)
    kind = TAGS[tag]
    if tag == 1:
        return kind, raw[3:].decode("utf-8")
    if tag == 3:
        return kind, ref_int(raw, 1, 4, True)
    if tag == 5:
        return kind, "%il" % ref_int(raw, 1, 8, True)
    if tag == 4:
        return kind, "%ff" % struct.unpack(">f", raw[1:])
    if tag == 6:
        return kind, "%fd" % struct.unpack(">d", raw[1:])
    if tag in (7, 8):
        return kind, "#%i" % ref_int(raw, 1, 2)
    return kind, "#%i%s#%i" % (ref_int(raw, 1, 2), ":" if tag == 12 else ".",
                               ref_int(raw, 3, 2))


def of_constant(k):
    """ as shown_const, of a constant of a specification """
    what, v = k[0], k[1]
    if what == "int":
        return "int", str(ref_int(v, 0, 4, True))
    if what == "long":
        return "long", "%il" % ref_int(v, 0, 8, True)
    if what == "float":
        return "float", "%ff" % struct.unpack(">f", v)
    return "double", "%fd" % struct.unpack(">d", v)


def visible(m, show):
    if show == "private":
        return True
    if show == "package":
        return bool(m["access"] & 1) or bool(m["access"] & 4)
    return bool(m["access"] & 1)


def annotations(m, say):
    if m["vis"]:
        say("  RuntimeVisibleAnnotations:")
        for i, (t, _v) in enumerate(m["vis"]):
            say("  %i: %s()" % (i, types(t)[0]))


def expect(s, pool, o):
    out = []
    say = out.append
    source = s.get("source")
    if source:
        say('Compiled from "%s"' % source)
    flags = []
    for b, w in ((1, "public"), (0x10, "final"), (0x400, "abstract")):
        if s["access"] & b:
            flags.append(w)
    if s["access"] & 0x200:
        flags.append("@interface" if s["access"] & 0x2000 else "interface")
    if s["access"] & 0x4000:
        flags.append("enum")
    if not s["access"] & 0x200:
        flags.append("class")
    head = "%s %s extends %s" % (" ".join(flags), jname(s["this"]),
                                 jname(s["super"]))
    if s["ifs"]:
        head += " implements " + ",".join([jname(i) for i in s["ifs"]])
    header = o["show"] == "header"
    pend = head
    if o["verbose"] or header:
        say(pend)
        pend = ""
        if source:
            say('  SourceFile: "%s"' % source)
        if s["sig"]:
            say("  Signature: " + s["sig"])
        annotations(s, say)
        if s.get("enclosing"):
            k, n, d = s["enclosing"]
            say("  EnclosingMethod: " + (k + "." + n + d if n else k))
        say("  minor version: %i" % s["minor"])
        say("  major version: %i" % s["major"])
        say("  Platform: " + {49: "1.5", 50: "1.6", 51: "1.7",
                              52: "1.8"}.get(s["major"], "unknown"))
    if o["pool"]:
        say(pend + "  Constants pool:")
        pend = ""
        for i, raw in enumerate(pool.items):
            if raw:
                say("const #%i = %s\t%s;" % ((i,) + shown_const(raw)))
        say("")
    if header:
        return "\n".join(out) + "\n" if out else ""
    say(pend + "{")
    pre = "" if o["lines"] or o["code"] or o["sigs"] else "   "
    for f in s["fields"]:
        if visible(f, o["show"]):
            say(pre + declared(f, False) + ";")
            if o["sigs"]:
                say("  Signature: " + str(f["sig"]))
            if o["verbose"]:
                annotations(f, say)
                if f["const"] is not None:
                    say("  Constant value: %s %s" % of_constant(f["const"]))
                say("")
    for m in s["methods"]:
        if visible(m, o["show"]):
            say(pre + declared(m, True) + ";")
            if o["sigs"]:
                say("  Signature: " + str(m["sig"]))
            annotations(m, say)
            details(m, o, say)
    say("}")
    return "\n".join(out) + "\n\n"


def details(m, o, say):
    b = m["code"]
    if o["code"] and b:
        say("  Code:")
        if o["verbose"]:
            n = len(types(m["desc"][1:m["desc"].index(")")]))
            say("   Stack=%i, Locals=%i, Args_size=%i" % (
                b["stack"], b["locals"], n + (0 if m["access"] & 8 else 1)))
        at = 0
        for x in b["ops"]:
            if x[2]:
                say("   %i:\t%s\t%s" % (at, x[1], ", ".join(
                    [str(y) for y in x[2]])))
            else:
                say("   %i:\t%s" % (at, x[1]))
            at += len(x[0]) if len(x) == 3 else 3
        if b["exc"]:
            say("  Exception table:")
            say("   from\tto\ttarget\ttype")
            for f, t, h, k in b["exc"]:
                say("  % 4i\t% 4i\t% 4i\t%s" % (
                    f, t, h, "any" if k is None else "Class " + jname(k)))
    if o["verbose"]:
        for what, bit in (("Synthetic", 0x1000), ("Bridge", 0x40),
                          ("Varargs", 0x80)):
            if what == "Synthetic" and m["dep"]:
                say("  Deprecated: true")
            if m["access"] & bit:
                say("  %s: true" % what)
    if o["lines"] and b and b["lines"]:
        say("  LineNumberTable:")
        for off, line in b["lines"]:
            say("   line %i: %i" % (line, off))
    for k, last in (("LocalVariableTable", "Descriptor"),
                    ("LocalVariableTypeTable", "Signature")):
        if o["locals"] and b and b.get(k):
            say("  %s:" % k)
            say("   Start  Length  Slot\tName\t" + last)
            for x, y, n, d, i in b[k]:
                say("   %i\t%i\t%i\t%s\t%s" % (x, y, i, n, d))
    if o["verbose"]:
        if m["exc"]:
            say("  Exceptions:")
            for e in m["exc"]:
                say("   throws " + jname(e))
        say("")


# ---------------------------------------------------------------------
# specifications

def op(data, name, *args):
    return (data, name, args)


def sample(c, part):
    """ a class in which one part is unknown """
    nm = lambda k: c.str(k, 1, ((97, 122),))     # noqa: E731
    s = blank()
    s["fields"] = [field("f", "I"), field("g", "[[J", 0x4)]
    code = body([op(b"\x03", "iconst_0"), op(b"\x10\x05", "bipush", 5),
                 op(b"\xb1", "return")])
    s["methods"] = [method("m", "(I[Lx/Y;J)V", code=code),
                    method("<init>", "()V", 2, code=body(
                        [op(b"\xb1", "return")], lines=()))]
    if part == "header":
        s["this"] = "a/" + nm("this")
        s["super"] = "b/" + nm("super")
        s["ifs"] = ["i/" + nm("if%d" % i)
                    for i in range(c.choose("ifs", range(3)))]
        s["minor"] = c.choose("minor", (0, 3))
        s["major"] = c.choose("major", (49, 52, 60))
    elif part == "flags":
        s["access"] = 0x20
        for b in (1, 0x10, 0x400, 0x200, 0x2000, 0x4000):
            s["access"] |= c.choose("bit%d" % b, (0, b))
    elif part == "attrs":
        s["source"] = nm("source") + ".java"
        s["sig"] = "L" + nm("sig") + ";"
        s["vis"] = [("Lq/%s;" % nm("v%d" % i), [])
                    for i in range(c.choose("vis", range(3)))]
        s["enclosing"] = c.choose("enclosing", (
            None, ("o/Out", None, None), ("o/Out", "run", "()V")))
    elif part == "fields":
        s["fields"] = [field(nm("f"), "I", c.int("facc", 0, 7) | c.choose(
            "fx", (0, 0x10, 0x4040, 0x80, 8)))]
        s["methods"] = []
    elif part == "methods":
        s["fields"] = []
        s["methods"] = [method(nm("m"), "(IJ)La/B;", c.int("macc", 0, 7) |
                               c.choose("mx", (0, 8, 0x10, 0x20, 0x100,
                                               0x400, 0x800)),
                               code=None)]
    elif part == "special":
        s["methods"] = [method("m", "([I)V", 1 | c.choose("mx", (
            0, 0x1000, 0x40, 0x80, 0x10c8)), code=None,
            dep=c.choose("dep", (False, True)),
            exc=["e/" + nm("e%d" % i)
                 for i in range(c.choose("exc", range(3)))])]
        s["methods"][0]["vis"] = [("Lq/%s;" % nm("v%d" % i), [])
                                  for i in range(c.choose("vis", range(3)))]
        s["fields"] = [field("f", "Lq/T;", 1)]
        s["fields"][0]["vis"] = [("Lq/%s;" % nm("w%d" % i), [])
                                 for i in range(c.choose("fvis", (0, 2)))]
    elif part == "consts":
        k = c.choose("kind", ("int", "long", "float", "double", None))
        if k == "int":
            v = (k, b"\0\0\0" + c.bytes("v", 1))
        elif k == "long":
            v = (k, c.choose("high", (b"\xff" * 7, b"\0" * 7)) +
                 c.bytes("v", 1))
        elif k:
            v = (k, struct.pack(">" + k[0], c.choose("v", (
                0.0, 1.5, -2.25, 1e6))))
        else:
            v = None
        s["fields"] = [field(nm("f"), "I", 0x19, v),
                       field("h", "Ljava/lang/String;", 1)]
        s["fields"][1]["sig"] = c.choose("sig", (None, "TT;"))
        s["methods"][0]["sig"] = c.choose("msig", (None, "<T>()V"))
    elif part == "code":
        k = c.int("k", 10, 99)
        b0 = c.bytes("b0", 1, ((10, 99), (0x80, 0x9c)))
        s["methods"] = [method("m", "(I)V", c.choose("acc", (1, 9)), body([
            op(b"\x10" + b0, "bipush", ref_int(b0, 0, 1, True)),
            op(b"\x84\x01\xff", "iinc", 1, -1),
            op(b"\xa7" + u2(k), "goto", k),
            op(b"\x57", "pop"),
            op(b"\xb1", "return")],
            c.int("stack", 10, 99), c.int("locals", 100, 999),
            [(c.int("from%d" % i, 10, 99), 7, c.int("h%d" % i, 1000, 9999),
              c.choose("type%d" % i, (None, "x/Err")))
             for i in range(c.choose("exc", range(3)))], ())),
            method("n", "()V", 0x401, code=None)]
    elif part == "tables":
        b = body([op(b"\xb1", "return")], 0, 3, (),
                 [(c.int("off%d" % i, 10, 99), c.int("line%d" % i, 100, 999))
                  for i in range(c.choose("lines", range(3)))])
        b["LocalVariableTable"] = [
            (c.int("s%d" % i, 0, 9), c.int("l%d" % i, 0, 9), nm("n%d" % i),
             "L%s;" % nm("d%d" % i), c.int("i%d" % i, 0, 9))
            for i in range(c.choose("lvt", range(3)))]
        b["LocalVariableTypeTable"] = [
            (1, c.int("tl%d" % i, 0, 9), nm("tn%d" % i), "T%s;" %
             nm("td%d" % i), i) for i in range(c.choose("lvtt", range(3)))]
        s["fields"] = []
        s["methods"] = [method("m", "()V", 1, b)]
    return s


FLAGS = {"lines": "-l", "locals": "-o", "code": "-c", "sigs": "-s",
         "pool": "-p"}


def options(c, part):
    o = {"show": c.choose("show", ("header", "public", "package", "private")
                          if part in ("fields", "methods", "header") else
                          ("private", "header") if part in ("attrs", "flags")
                          else ("private",)),
         "verbose": c.choose("verbose", (False, True))}
    args = ["--" + o["show"]]
    if o["verbose"]:
        args.append("--verbose")
    free = {"code": ("code",), "tables": ("lines", "locals"),
            "consts": ("sigs", "pool"), "header": ("pool",),
            "special": ("code",)}.get(part, ())
    for k in sorted(FLAGS):
        on = not o["verbose"] and k in free and c.choose(k, (False, True))
        if on:
            args.append(FLAGS[k])
        o[k] = on or o["verbose"]
    return o, args


def same_text(c, got, want, key):
    g, w = got.split("\n"), want.split("\n")
    c.check(len(g) == len(w), "as many lines as there is to tell",
            key=key + " lines")
    for x, y in zip(g, w):
        if " extends " in y:
            # with or without flags before "class"
            x, y = x.strip(), y.strip()
        c.check(x == y, "each line", key=key)


def text(c, part):
    """ the text report """
    fs = c.fs()
    s = sample(c, part)
    data, pool = build(s)
    o, args = options(c, part)
    fn = fs.put("Me.class", data)
    r, out = c.output(main, ["classinfo"] + args + [fn])
    c.check(r == 0, "exit status")
    same_text(c, out, expect(s, pool, o), part)
    c.observe("out", out)
    c.cover("text")


def several(c, n):
    """ several classes, one after the other; options unset """
    fs = c.fs()
    want = ""
    fns = []
    off = {"show": "public", "verbose": False}
    for k in FLAGS:
        off[k] = False
    for i in range(n):
        s = blank()
        s["this"] = "a/" + c.str("this%d" % i, 1, ((97, 122),))
        s["fields"] = [field("f", "I", c.choose("acc%d" % i, (0, 1, 4)))]
        s["methods"] = []
        data, pool = build(s)
        want += expect(s, pool, off)
        fns.append(fs.put("C%d.class" % i, data))
    r, out = c.output(main, ["classinfo"] + fns)
    c.check(r == 0, "exit status")
    same_text(c, out, want, "several")
    c.cover("several")


def cases_text(tier):
    out = []
    for p in ("header", "flags", "attrs", "fields", "methods", "special",
              "consts", "code", "tables"):
        out.append({"name": "text/" + p, "fn": "text", "weight": 9,
                    "params": {"part": p}})
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append({"name": "several/%d" % n, "fn": "several",
                    "params": {"n": n}})
    return out


# ---------------------------------------------------------------------

def jmembers(ms, show, is_method):
    out = []
    for m in ms:
        if show == "header" or not visible(m, show):
            continue
        k = m["desc"].index(")") if is_method else 0
        d = {"name": m["name"], "access_flags": words(m, is_method)}
        d["type"] = types(m["desc"][k + 1:] if is_method else m["desc"])[0]
        if is_method:
            d["arg_types"] = types(m["desc"][1:k])
        if m["sig"]:
            d["signature"] = m["sig"]
        if m["dep"]:
            d["deprecated"] = True
        if not is_method and m["const"] is not None:
            t, v = of_constant(m["const"])
            d["constant_value"] = [t, int(v) if t == "int" else v]
        out.append(d)
    return out


def jexpect(s, pool, o):
    d = {"name": jname(s["this"]), "extends": jname(s["super"]),
         "implements": [jname(i) for i in s["ifs"]],
         "source_file": s.get("source"),
         "version": [s["major"], s["minor"]],
         "platform": {49: "1.5", 50: "1.6", 51: "1.7",
                      52: "1.8"}.get(s["major"]),
         "fields": jmembers(s["fields"], o["show"], False),
         "methods": jmembers(s["methods"], o["show"], True)}
    if s["sig"]:
        d["signature"] = s["sig"]
    if s.get("enclosing"):
        k, n, x = s["enclosing"]
        d["enclosing_method"] = k + "." + n + x if n else k
    if o["pool"]:
        d["constants_pool"] = [[i] + list(shown_const(raw))
                               for i, raw in enumerate(pool.items) if raw]
    return d


def as_json(c, part):
    """ the JSON report tells the same """
    fs = c.fs()
    s = sample(c, part)
    data, pool = build(s)
    o, args = options(c, part)
    fn = fs.put("Me.class", data)
    r, out = c.output(main, ["classinfo", "--json"] + args + [fn])
    c.check(r == 0, "exit status")
    got, want = json.loads(out), jexpect(s, pool, o)
    c.check(sorted(got) == sorted(want), "what is told", key="keys")
    for k in sorted(want):
        if k in ("fields", "methods"):
            c.check(len(got[k]) == len(want[k]), "members shown",
                    key="members")
            for g, w in zip(got[k], want[k]):
                c.check(sorted(g) == sorted(w), "what is told of members",
                        key="member keys")
                for x in w:
                    c.check(c.eq(g[x], w[x]), "members", key=x)
        else:
            c.check(c.eq(got[k], want[k]), "header", key=k)
    c.observe("out", out)
    c.cover("json")


def cases_json(tier):
    return [{"name": "json/" + p, "fn": "as_json", "weight": 9,
             "params": {"part": p}}
            for p in ("header", "flags", "attrs", "fields", "methods",
                      "special", "consts")]


PROPS = {
    "P34": {
        "cases": cases_text, "covers": ("text", "several"),
        "bounds": {"quick": "classes of up to 2 fields and 2 methods with "
                            "unknown names, flags, numbers, tables of up to "
                            "2 rows; all display options",
                   "thorough": "up to 3 classes at once"},
    },
    "P38": {
        "cases": cases_json, "covers": ("json",),
        "bounds": {"quick": "the classes of the text report",
                   "thorough": "the same"},
    },
}
