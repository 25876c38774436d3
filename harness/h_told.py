"""
What reports on two classes tell.
"""

import json

from javatools import classdiff as cd
from javatools.classdiff import main

from .h_diff import blank, body, field, method, write
from .h_jar import flat

# what unknown characters of names may be
CHARS = ((97, 98), (34, 34), (39, 39), (92, 92))


def plain():
    s = blank()
    s["fields"], s["methods"], s["ifs"] = [], [], []
    return s


def fact(cls, old, new, text=None):
    """ (class of the change, old and new data in JSON, and as text) """
    if text is None:
        text = ("%s" % (old,), "%s" % (new,))
    return (cls, old, new, text)


def about_class(c, what, ls, rs, x, y):
    if what == "name":
        ls["this"], rs["this"] = "a/" + x, "a/" + y
        return [fact("ClassNameChange", "a." + x, "a." + y)]
    if what == "super":
        ls["super"], rs["super"] = "b/" + x, "b/" + y
        return [fact("ClassSuperclassChange", "b." + x, "b." + y)]
    if what == "ifs":
        ls["ifs"] = c.choose("li", ([], ["i/" + x], ["i/" + x, "j/I"]))
        rs["ifs"] = c.choose("ri", ([], ["i/" + y]))
        return [fact("ClassInterfacesChange", *[
            tuple([i.replace("/", ".") for i in s["ifs"]])
            for s in (ls, rs)])]
    if what == "flags":
        fl = {0x21: ("public",), 0x401: ("public", "abstract"),
              0x11: ("public", "final")}
        ls["access"] = c.choose("la", sorted(fl))
        rs["access"] = c.choose("ra", sorted(fl))
        return [fact("ClassAccessflagsChange", fl[ls["access"]],
                     fl[rs["access"]])]
    if what == "version":
        vs = {(50, 0): "1.6", (50, 3): "1.6", (49, 0): "1.5"}
        lv, rv = c.choose("lv", sorted(vs)), c.choose("rv", sorted(vs))
        ls["major"], ls["minor"] = lv
        rs["major"], rs["minor"] = rv
        return [fact("ClassVersionChange", lv, rv),
                fact("ClassPlatformChange", vs[lv], vs[rv])]
    if what == "sig":
        ls["sig"] = "La/" + x + ";"
        rs["sig"] = c.choose("rs", (None, "La/" + y + ";"))
        return [fact("ClassSignatureChange", ls["sig"], rs["sig"])]
    if what == "dep":
        ls["dep"] = c.choose("ld", (False, True))
        rs["dep"] = c.choose("rd", (False, True))
        return [fact("ClassDeprecationChange", ls["dep"], rs["dep"])]
    ls["vis" if what == "vis" else "inv"] = [("La/" + x + ";", [])]
    rs["vis" if what == "vis" else "inv"] = [("La/" + y + ";", [])]
    return [fact("Class%sAnnotationsChange" % (
        "" if what == "vis" else "Invisible"),
        ["a." + x + "()"], ["a." + y + "()"])]


def about_field(c, what, ls, rs, x, y):
    lf, rf = field("f", "I"), field("f", "I")
    ls["fields"], rs["fields"] = [lf], [rf]
    if what == "type":
        lf["desc"], rf["desc"] = "La/" + x + ";", "[La/" + y + ";"
        return [fact("FieldTypeChange", "a." + x, "a." + y + "[]")]
    if what == "flags":
        rf["access"] = c.choose("ra", (1, 0x12))
        new = ("public",) if rf["access"] == 1 else ("private", "final")
        return [fact("FieldAccessflagsChange", ("public",), new,
                     ("public", ",".join(new)))]
    if what == "sig":
        lf["sig"] = "La/" + x + ";"
        rf["sig"] = c.choose("rs", (None, "La/" + y + ";"))
        return [fact("FieldSignatureChange", lf["sig"], rf["sig"])]
    if what == "const":
        for f, v in ((lf, x), (rf, y)):
            f["desc"] = "Ljava/lang/String;"
            f["const"] = ("string", v)
        return [fact("FieldConstvalueChange", repr(x), repr(y))]
    if what == "int":
        k = (None, ("int", b"\0\0\0\0"), ("int", b"\0\0\0\1"))
        lf["const"], rf["const"] = c.choose("lk", k), c.choose("rk", k)
        return [fact("FieldConstvalueChange", *[
            repr(f["const"] and f["const"][1][3]) for f in (lf, rf)])]
    if what == "dep":
        lf["dep"] = True
        rf["dep"] = c.choose("rd", (False, True))
        return [fact("FieldDeprecationChange", True, rf["dep"])]
    lf["vis" if what == "vis" else "inv"] = [("La/" + x + ";", [])]
    rf["vis" if what == "vis" else "inv"] = [("La/" + y + ";", [])]
    return [fact("Field%sAnnotationsChange" % (
        "" if what == "vis" else "Invisible"),
        ["a." + x + "()"], ["a." + y + "()"])]


def about_method(c, what, ls, rs, x, y):
    lm, rm = method("m", "(I)V"), method("m", "(I)V")
    ls["methods"], rs["methods"] = [lm], [rm]
    if what == "type":
        lm["desc"], rm["desc"] = "(I)La/" + x + ";", "(I)La/" + y + ";"
        return [fact("MethodTypeChange", "a." + x, "a." + y)]
    if what == "flags":
        rm["access"] = c.choose("ra", (1, 0x12))
        new = ("public",) if rm["access"] == 1 else ("private", "final")
        return [fact("MethodAccessflagsChange", ("public",), new)]
    if what == "sig":
        lm["sig"] = "La/" + x + ";"
        rm["sig"] = c.choose("rs", (None, "La/" + y + ";"))
        return [fact("MethodSignatureChange", lm["sig"], rm["sig"])]
    if what == "exc":
        lm["exc"] = ["t/" + x, "t/Y"]
        rm["exc"] = c.choose("re", ([], ["t/" + y, "t/Y"]))
        return [fact("MethodExceptionsChange", *[
            tuple([e.replace("/", ".") for e in m["exc"]])
            for m in (lm, rm)])]
    if what == "dep":
        lm["dep"] = True
        rm["dep"] = c.choose("rd", (False, True))
        return [fact("MethodDeprecationChange", True, rm["dep"])]
    if what == "abstract":
        old, new = [c.choose(k, (False, True)) for k in ("la", "ra")]
        if old:
            lm["code"] = None
        if new:
            rm["code"] = None
        return [fact("MethodAbstractChange", old, new, tuple([
            "Method is " + ("abstract" if z else "concrete")
            for z in (old, new)]))]
    lm["vis" if what == "vis" else "inv"] = [("La/" + x + ";", [])]
    rm["vis" if what == "vis" else "inv"] = [("La/" + y + ";", [])]
    return [fact("Method%sAnnotationsChange" % (
        "" if what == "vis" else "Invisible"),
        ["a." + x + "()"], ["a." + y + "()"])]


def about_code(c, what, ls, rs, x, y):
    lm, rm = method("m", "(I)V"), method("m", "(I)V")
    lb, rb = lm["code"], rm["code"]
    ls["methods"], rs["methods"] = [lm], [rm]
    if what == "stack":
        lb["stack"], rb["stack"] = [c.choose(k, (0, 2, 300))
                                    for k in ("lk", "rk")]
        return [fact("CodeStackChange", lb["stack"], rb["stack"])]
    if what == "locals":
        lb["locals"], rb["locals"] = [c.choose(k, (1, 2, 65535))
                                      for k in ("lk", "rk")]
        return [fact("CodeLocalsChange", lb["locals"], rb["locals"])]
    if what == "lines":
        sets = (((0, 10), (2, 12)), ((0, 11), (2, 13)), ((0, 10), (2, 13)),
                ())
        lb["lines"], rb["lines"] = [c.choose(k, sets) for k in ("lk", "rk")]
        rel = [tuple([(o, n - ln[0][1]) for o, n in ln])
               for ln in (lb["lines"], rb["lines"])]
        return [fact("CodeAbsoluteLinesChange", lb["lines"], rb["lines"]),
                fact("CodeRelativeLinesChange", *rel)]
    if what == "exc":
        lb["exc"] = [(0, 3, 5, "e/" + x), (1, 2, 6, None)]
        rb["exc"] = c.choose("re", ([(0, 3, 5, "e/" + y), (1, 2, 6, None)],
                                    [(0, 4, 5, "e/" + x), (1, 2, 6, None)],
                                    []))
        told = [repr([(s, e, h, "any" if t is None else
                       "Class " + t.replace("/", "."))
                      for s, e, h, t in b["exc"]]) for b in (lb, rb)]
        return [fact("CodeExceptionChange", *told)]
    if what == "const":
        for b, v in ((lb, x), (rb, y)):
            b["ops"] = [b"\x03", ("\x12", ("string", v)), b"\xb1"]
            b["lines"] = []
        return [("CodeConstantsChange", [[1, "ldc", x]], [[1, "ldc", y]],
                 None)]
    ops = {"push": ([b"\x10\x05", b"\xb1"],
                    [[0, "bipush", [5]], [2, "return", []]]),
           "push6": ([b"\x10\x06", b"\xb1"],
                     [[0, "bipush", [6]], [2, "return", []]]),
           "two": ([b"\x03", b"\x3b", b"\xb1"],
                   [[0, "iconst_0", []], [1, "istore_0", []],
                    [2, "return", []]]),
           "one": ([b"\xb1"], [[0, "return", []]])}
    out, sizes = [], []
    for b, k in ((lb, "lk"), (rb, "rk")):
        b["ops"], dis = ops[c.choose(k, sorted(ops))]
        b["lines"] = []
        out.append(dis)
        sizes.append(sum([len(o) for o in b["ops"]]))
    shape = [[(o, n) for o, n, _a in dis] for dis in out]
    if shape[0] == shape[1]:
        # only what is pushed differs, and it is no constant of the pool
        new = []
        return [("CodeConstantsChange", new if out[0] == out[1] else None,
                 new, None)]
    text = None
    if sizes[0] != sizes[1]:
        text = "Code length changed from %i to %i" % tuple(sizes)
    return [("CodeBodyChange", out[0], out[1], text),
            ("CodeConstantsChange", None, None, None)]


ABOUT = {
    "class": (about_class, ("name", "super", "ifs", "flags", "version",
                            "sig", "dep", "vis", "inv")),
    "field": (about_field, ("type", "flags", "sig", "const", "int", "dep",
                            "vis", "inv")),
    "method": (about_method, ("type", "flags", "sig", "exc", "dep",
                              "abstract", "vis", "inv")),
    "code": (about_code, ("stack", "locals", "lines", "exc", "const",
                          "ops")),
}

UPON = {"class": ("ClassInfoChange",),
        "field": ("ClassFieldsChange", "FieldChange"),
        "method": ("ClassMethodsChange", "MethodChange"),
        "code": ("ClassMethodsChange", "MethodChange", "MethodCodeChange")}


def jsonable(v):
    return [jsonable(x) for x in v] if isinstance(v, (tuple, list)) else v


def differ(c, cls, old, new):
    if cls[:4] == "Code" and (old is None or old is new):
        return old is None
    if cls == "ClassInterfacesChange" and len(old) != len(new):
        return True
    return not c.decide(c.eq(jsonable(old), jsonable(new)))


def told(c, kind, what, how, size=1):
    """ the report of the command """
    fs = c.fs()
    ls, rs = plain(), plain()
    x = c.str("x", size, CHARS)
    y = c.str("y", size, CHARS)
    facts = ABOUT[kind][0](c, what, ls, rs, x, y)
    changed = [f for f in facts if differ(c, *f[:3])]
    fs.put("l.class", write(ls, "plain"))
    fs.put("r.class", write(rs, "plain"))
    files = [fs.path("l.class"), fs.path("r.class")]
    args = ["classdiff", "--ignore=pool"]
    if how == "ignored" and what in ("dep", "version", "lines"):
        ign = {"dep": "deprecated", "version": "version",
               "lines": "lines"}[what]
        args.append("--ignore=" + ign)
    counts = [] if how == "ignored" else changed
    show = {"unchanged": ["--show-unchanged"], "verbose": ["-v"],
            "ignored": ["--show-ignored"] if c.choose(
                "show", (False, True)) else []}.get(how, [])
    label = lambda cls: getattr(cd, cls).label      # noqa: E731

    # text, printed or in a file
    if how == "file":
        st, out = c.output(main, args + ["-o", fs.path("out"),
                                         "--show-unchanged"] + files)
        c.check(out == "", "nothing is printed", key="file")
        out = fs.get("out").decode("ascii")
        show = ["--show-unchanged"]
    else:
        st, out = c.output(main, args + show + files)
    c.check(st == (1 if counts else 0), "exit status", key="status")
    lines = [ln.strip() for ln in out.split("\n")]
    all_ = "--show-unchanged" in show or "-v" in show
    shown = counts or (changed if "--show-ignored" in show else [])
    for f in facts:
        cls, old, new, text = f
        if isinstance(text, tuple):
            text = "%s changed: %s to %s" % ((label(cls),) + text)
        elif text is None:
            text = label(cls) + " changed"
        if how == "ignored":
            text += " [IGNORED]"
        if f in shown:
            c.check(lines.count(text) == 1, "from what to what",
                    key="text " + cls)
        else:
            c.check(not any([ln.startswith(label(cls) + " changed") and
                             f not in changed for ln in lines]),
                    "only what changed", key="text " + cls)
            c.check((label(cls) + " unchanged" in lines) is
                    bool(all_ and f not in changed),
                    "what did not change", key="unchanged " + cls)

    # JSON
    st, out = c.output(main, args + show + ["--json"] + files)
    c.check(st == (1 if counts else 0), "exit status", key="status")
    rep = json.loads(out)["report"]
    nodes = flat(rep)
    c.check(rep["class"] == "JavaClassChange", "the class", key="top")
    c.check(rep["is_ignored"] is (
        not counts and (bool(changed) or rep["is_change"])),
        "is it ignored", key="ignored")
    for f in facts:
        cls, old, new, _text = f
        mine = [n for n in nodes if n["class"] == cls]
        c.check(len(mine) == (1 if f in shown or all_ else 0),
                "told in JSON", key="json " + cls)
        for n in mine:
            c.check(n["is_change"] is (f in changed), "is it a change",
                    key="json change " + cls)
            c.check(n["is_ignored"] is (how == "ignored"),
                    "is it ignored", key="json ignored " + cls)
            if old is None and new == []:
                continue
            if f in changed or cls[:4] != "Code":
                for k, v in (("old_data", old), ("new_data", new)):
                    c.check(c.eq(n.get(k), jsonable(v)),
                            "the data: " + k, key="json data " + cls)
    names = [n["class"] for n in nodes if n["is_change"] and
             n["class"] != "ClassConstantPoolChange"]
    up = list(UPON[kind])
    if what in ("vis", "inv") and kind == "class":
        up = []
    if what == "abstract":
        up.append("MethodCodeChange")
    want = ["JavaClassChange"] + up + [f[0] for f in shown]
    if not shown:
        want = names[:1] if how == "ignored" else []
    if names or want:
        c.check(sorted([n for n in names if n != "JavaClassChange"]) ==
                sorted([n for n in want if n != "JavaClassChange"]),
                "nothing else changed", key="json others")
    c.cover("told")


def cases(tier):
    out = []
    for kind in sorted(ABOUT):
        for what in ABOUT[kind][1]:
            for how in ("brief", "unchanged", "verbose", "ignored", "file"):
                if how == "ignored" and what not in ("dep", "version",
                                                     "lines"):
                    continue
                if how in ("verbose", "file") and what not in (
                        "dep", "version", "const", "ops"):
                    continue
                out.append({"name": "%s/%s/%s" % (kind, what, how),
                            "fn": "told", "params": {
                                "kind": kind, "what": what, "how": how}})
                if tier == "thorough":
                    out.append({"name": "%s/%s/%s/2" % (kind, what, how),
                                "fn": "told", "params": {
                                    "kind": kind, "what": what, "how": how,
                                    "size": 2}})
    return out


PROPS = {
    "P42": {
        "cases": cases, "covers": ("told",),
        "bounds": {"quick": "names and values of one unknown character, "
                            "quotes and backslashes among them, and chosen "
                            "versions, flags, lines and code",
                   "thorough": "two unknown characters"},
    },
}
