"""
HTML reports.
"""

from javatools import cheetah, unpack_class
from javatools.classdiff import create_optparser, main as classdiff
from javatools.jardiff import main as jardiff
from javatools.distdiff import main as distdiff

from javatools.report import Reporter
from symx import sched

from .h_diff import blank, body, field, method, write
from . import h_dist, h_jar

TEMPLATES = True

# what unknown characters of names may be
CHARS = ((97, 98), (38, 38), (60, 60), (62, 62), (34, 34))
ENTITIES = (("amp;", "&"), ("lt;", "<"), ("gt;", ">"), ("quot;", '"'))


# ---------------------------------------------------------------------
# a reader of well-formed documents

class Node(object):

    def __init__(self, tag, attrs):
        self.tag = tag
        self.attrs = attrs      # [(name, value)]
        self.kids = []          # nodes and texts

    def get(self, name):
        for n, v in self.attrs:
            if n == name:
                return v
        return None

    def find(self, tag, cls=None):
        """ the nodes below, in order """
        out = []
        for k in self.kids:
            if isinstance(k, Node):
                if k.tag == tag and (cls is None or
                                     cls in (k.get("class") or "").split()):
                    out.append(k)
                out += k.find(tag, cls)
        return out

    def text(self):
        out = ""
        for k in self.kids:
            out = out + (k.text() if isinstance(k, Node) else k)
        return out


class Malformed(Exception):
    pass


def unescape(s):
    if s.find("<") >= 0:
        raise Malformed("a stray <")
    parts = s.split("&")
    out = parts[0]
    for p in parts[1:]:
        for ent, ch in ENTITIES:
            if p.startswith(ent):
                out = out + ch + p[len(ent):]
                break
        else:
            raise Malformed("a stray &")
    return out


def attributes(s):
    """ name="value" ... """
    out = []
    s = s.strip()
    while s:
        i = s.find('="')
        if i < 0:
            raise Malformed("an attribute without a value")
        name = s[:i]
        if not name or any([not (ch.isalpha() or ch in ":-")
                            for ch in name]):
            raise Malformed("the name of an attribute")
        s = s[i + 2:]
        i = s.find('"')
        if i < 0:
            raise Malformed("the end of an attribute")
        if s[:i].find(">") >= 0:
            raise Malformed("a stray > in an attribute")
        if any([n == name for n, _v in out]):
            raise Malformed("the same attribute twice")
        out.append((name, unescape(s[:i])))
        s = s[i + 1:]
        if s and s[0] not in " \n":
            raise Malformed("space between attributes")
        s = s.strip()
    return out


def document(s):
    """ the root of a well-formed document """
    root = Node("", [])
    stack = [root]
    while True:
        i = s.find("<")
        if i < 0:
            if s.strip():
                raise Malformed("text after the end")
            break
        if i:
            stack[-1].kids.append(unescape(s[:i]))
        s = s[i + 1:]
        if s.startswith("!--"):
            i = s.find("-->")
            if i < 0:
                raise Malformed("the end of a comment")
            s = s[i + 3:]
            continue
        i = s.find(">")
        if i < 0:
            raise Malformed("the end of a tag")
        tag, s = s[:i], s[i + 1:]
        if tag[0] in "!?":
            continue
        if tag[0] == "/":
            if len(stack) < 2 or stack[-1].tag != tag[1:].strip():
                raise Malformed("the end of another tag: " + tag)
            stack.pop()
            continue
        alone = tag.endswith("/")
        if alone:
            tag = tag[:-1]
        parts = tag.split(None, 1)
        name = parts[0]
        if not name.isalnum():
            raise Malformed("the name of a tag")
        n = Node(name, attributes(parts[1]) if len(parts) > 1 else [])
        stack[-1].kids.append(n)
        if not alone:
            stack.append(n)
    if len(stack) > 1:
        raise Malformed("no end of a tag: " + stack[-1].tag)
    return root


def read(c, fs, rel):
    try:
        return document(fs.get(rel).decode("utf-8"))
    except Malformed as ex:
        c.check(False, "well-formed: %s" % ex, key="well-formed " + rel[-9:])



# ---------------------------------------------------------------------
# what a page tells

def tidy(s):
    return " ".join(s.split())


def changes(node):
    """ [(class of the change, is there a change, is it ignored, node)] """
    out = []
    for n in node.find("div", "Change"):
        cl = n.get("class").split()
        yes, no = "is_changed" in cl, "is_unchanged" in cl
        if yes == no:
            raise Malformed("neither changed nor unchanged")
        out.append((cl[1:-2] if "is_ignored" in cl else cl[1:-1], yes,
                    "is_ignored" in cl, n))
    return out


def part(c, node, kind):
    """ the only part of a kind """
    found = [x for x in changes(node) if x[0][0] == kind]
    c.check(len(found) == 1, "one part for " + kind, key="parts")
    return found[0]


def facts(table):
    """ [(label, values)] of a table with headers to the left """
    out = []
    for tr in table.find("tr"):
        th, td = tr.find("th"), tr.find("td")
        if len(td) != 1:
            raise Malformed("one value to a row")
        if th:
            out.append((th[0].text(), th[0].get("rowspan") or "1", []))
        out[-1][2].append(tidy(td[0].text()))
    for _l, span, vals in out:
        if span != str(len(vals)):
            raise Malformed("rows of a header")
    return [(label, vals) for label, _s, vals in out]


def sides(same, x, y):
    return [x] if same else [x, y]


def told(c, table, want):
    """ the table tells exactly these facts """
    got = facts(table)
    c.check(len(got) == len(want), "the facts told", key="facts")
    for label, vals in want:
        mine = [v for n, v in got if n == label]
        c.check(len(mine) == 1, "a fact is told once", key="fact " + label)
        c.check(len(mine[0]) == len(vals), "the sides of a fact",
                key="sides " + label)
        for x, y in zip(mine[0], vals):
            c.check(x == y, "the value of " + label, key="value " + label)


def grid(table, width):
    """ the cells of the body of a table, spans expanded """
    rows, below = [], {}
    for r, tr in enumerate([t for t in table.kids if isinstance(t, Node)
                            and t.tag == "tr"]):
        row, at = [None] * width, 0
        for x in range(width):
            if (r, x) in below:
                row[x] = below[r, x]
        for td in tr.kids:
            if not isinstance(td, Node):
                if td.strip():
                    raise Malformed("text between cells")
                continue
            while at < width and row[at] is not None:
                at += 1
            w = int(td.get("colspan") or "1")
            h = int(td.get("rowspan") or "1")
            for dx in range(w):
                for dy in range(h):
                    if at + dx >= width or (dy and (r + dy, at + dx) in
                                            below):
                        raise Malformed("cells in each other's way")
                    if dy:
                        below[r + dy, at + dx] = tidy(td.text())
                    else:
                        row[at + dx] = tidy(td.text())
        if None in row:
            raise Malformed("a row with too few cells")
        rows.append(row)
    if any([r >= len(rows) for r, _x in below]):
        raise Malformed("cells past the last row")
    return rows


def page(c, fs, rel, title, crumbs=()):
    """ a page, with its title and the links back """
    d = read(c, fs, rel)
    html = [k for k in d.kids if isinstance(k, Node)]
    c.check(len(html) == 1 and html[0].tag == "html", "a document",
            key="document")
    top = [k.tag for k in html[0].kids if isinstance(k, Node)]
    c.check(top == ["head", "body"], "its head and body", key="document")
    for tag in ("title", "h1"):
        found = d.find(tag)
        c.check(len(found) == 1 and tidy(found[0].text()) == title,
                "the title", key="title")
    links = d.find("ul", "breadcrumbs")[0].find("a")
    c.check(len(links) == len(crumbs), "the links back", key="crumbs")
    here = rel.split("/")[:-1]
    for a, target in zip(links, crumbs):
        c.check(resolve(here, a.get("href")) == target and
                fs.exists(target), "where a link back leads", key="crumbs")
    return d


def resolve(here, href):
    """ what a relative link leads to """
    out = list(here)
    for p in href.split("/"):
        if p == "..":
            if not out:
                raise Malformed("a link out of the report")
            out.pop()
        elif p not in (".", ""):
            out.append(p)
    return "/".join(out)


def compare(c, ls, rs, args=()):
    """ the page on two classes """
    fs = c.fs()
    fs.put("l.class", write(ls, "plain"))
    fs.put("r.class", write(rs, "plain"))
    fs.mkdir("out")
    c.output(classdiff, ["classdiff", "--report=html",
                         "--report-dir=" + fs.path("out")] + list(args) +
             [fs.path("l.class"), fs.path("r.class")])
    c.check(fs.tree("out") == ["JavaClassReport.html"], "one page",
            key="files")
    return page(c, fs, "out/JavaClassReport.html",
                "JavaClassReport " + ls["this"].split("/")[-1])


def plain():
    s = blank()
    s["fields"], s["methods"], s["ifs"] = [], [], []
    return s


def dotted(n):
    return n.replace("/", ".")


def marked(c, part_, same, ignored=False):
    c.check(part_[1] is not same, "is it marked as a change", key="marked")
    c.check(part_[2] is ignored, "is it marked as ignored", key="ignored")


# ---------------------------------------------------------------------
# pages of classes

def info(c, what, size=1):
    """ facts of the classes """
    ls, rs = plain(), plain()
    x = c.str("l", size, CHARS)
    y = c.str("r", size, CHARS)
    want = {"Class Name": [["a.Me"], ["a.Me"]],
            "Class Flags": [["0x0021: public"]] * 2,
            "Extends": [["b.Sup"]] * 2,
            "Java Version": [["Major: 50, Minor: 0"]] * 2,
            "Java Platform": [["1.6"]] * 2}
    if what == "name":
        ls["this"], rs["this"] = "a/" + x, "a/" + y
        want["Class Name"] = [["a." + x], ["a." + y]]
    elif what == "super":
        ls["super"], rs["super"] = "b/" + x, "b/" + y
        want["Extends"] = [["b." + x], ["b." + y]]
    elif what == "ifs":
        ls["ifs"] = c.choose("li", ([], ["i/" + x], ["i/" + x, "j/I"]))
        rs["ifs"] = c.choose("ri", ([], ["i/" + y]))
        vals = [", ".join([dotted(i) for i in s["ifs"]]) or "(None)"
                for s in (ls, rs)]
        if ls["ifs"] or rs["ifs"]:
            want["Implements"] = [[v] for v in vals]
    elif what == "flags":
        fl = {0x21: "0x0021: public", 0x401: "0x0401: public abstract",
              0x11: "0x0011: public final"}
        ls["access"] = c.choose("la", sorted(fl))
        rs["access"] = c.choose("ra", sorted(fl))
        want["Class Flags"] = [[fl[ls["access"]]], [fl[rs["access"]]]]
    elif what == "version":
        vs = {(50, 0): "1.6", (50, 3): "1.6", (49, 0): "1.5"}
        lv = c.choose("lv", sorted(vs))
        rv = c.choose("rv", sorted(vs))
        ls["major"], ls["minor"] = lv
        rs["major"], rs["minor"] = rv
        want["Java Version"] = [["Major: %i, Minor: %i" % v]
                                for v in (lv, rv)]
        want["Java Platform"] = [[vs[lv]], [vs[rv]]]
    elif what == "sig":
        ls["sig"] = c.choose("ls", (None, "<T:La/B;>Ljava/lang/Object;",
                                    "La/" + x + ";"))
        rs["sig"] = c.choose("rs", (None, "La/" + y + ";"))
        if ls["sig"] or rs["sig"]:
            want["Generics Signature"] = [[s["sig"] or "(None)"]
                                          for s in (ls, rs)]
    elif what == "dep":
        ls["dep"] = c.choose("ld", (False, True))
        rs["dep"] = c.choose("rd", (False, True))
        if ls["dep"] or rs["dep"]:
            want["Deprecated"] = [[str(ls["dep"])], [str(rs["dep"])]]
    d = compare(c, ls, rs)
    p = part(c, d, "ClassInfoChange")
    table = p[3].find("table", "left-headers")[0]
    out, all_same = [], True
    for label in sorted(want):
        lv, rv = want[label]
        eq = c.decide(c.eq(lv[0], rv[0]))
        all_same = all_same and eq
        out.append((label, sides(eq, lv[0], rv[0])))
    told(c, table, out)
    marked(c, p, all_same)
    c.cover("info")


def fields(c, what, size=1):
    """ fields that changed, were added and were removed """
    ls, rs = plain(), plain()
    x = c.str("l", size, CHARS)
    y = c.str("r", size, CHARS)
    lf, rf = field("f" + x, "I"), field("f" + x, "I")
    want = {"Field Name": ["f" + x] * 2, "Field Type": ["int"] * 2,
            "Field Flags": ["0x0001: public"] * 2}
    if what == "type":
        lf["desc"], rf["desc"] = "La/" + x + ";", "[La/" + y + ";"
        want["Field Type"] = ["a." + x, "a." + y + "[]"]
    elif what == "flags":
        rf["access"] = c.choose("ra", (1, 2))
        if rf["access"] == 2:
            want["Field Flags"][1] = "0x0002: private"
    elif what == "sig":
        lf["sig"] = "La/" + x + ";"
        rf["sig"] = c.choose("rs", (None, "La/" + y + ";"))
        want["Generics Signature"] = [
            "La/" + x + ";",
            "(None)" if rf["sig"] is None else "La/" + y + ";"]
    elif what == "const":
        for f, v in ((lf, x), (rf, y)):
            f["desc"] = "Ljava/lang/String;"
            f["const"] = ("string", v)
        want["Field Type"] = ["java.lang.String"] * 2
        want["Const Value"] = [repr(x), repr(y)]
    elif what == "zero":
        k = (None, ("int", b"\0\0\0\0"), ("int", b"\0\0\0\1"))
        lf["const"], rf["const"] = c.choose("lk", k), c.choose("rk", k)
        if lf["const"] or rf["const"]:
            want["Const Value"] = [
                str(f["const"] and f["const"][1][3]) for f in (lf, rf)]
    elif what == "dep":
        lf["dep"] = True
        rf["dep"] = c.choose("rd", (False, True))
        want["Deprecated"] = ["True", str(rf["dep"])]
    ls["fields"], rs["fields"] = [lf, field("r", "I")], [rf]
    if what == "added":
        rs["fields"] = [rf, field("r", "I"), field("n" + y, "J"),
                        field("o", "J")]
    d = compare(c, ls, rs, ["--ignore=deprecated"] if what == "dep" else [])
    p = part(c, d, "ClassFieldsChange")
    added = [k for k in changes(p[3]) if k[0][0] == "FieldAdded"]
    removed = [k for k in changes(p[3]) if k[0][0] == "FieldRemoved"]
    c.check(len(added) == (2 if what == "added" else 0), "fields added",
            key="added")
    c.check(len(removed) == (0 if what == "added" else 1),
            "fields removed", key="removed")
    marked(c, p, False)
    kept = [k for k in changes(p[3]) if k[0][0] == "FieldChange"]
    c.check(len(kept) == (2 if what == "added" else 1), "fields in both",
            key="kept")
    ch = [k for k in kept if k[3].find("h3")[0].text() == "f" + x]
    c.check(len(ch) == 1, "the name of the field", key="name")
    table = ch[0][3].find("table", "left-headers")[0]
    out, all_same = [], True
    for label in sorted(want):
        lv, rv = want[label]
        eq = c.decide(c.eq(lv, rv))
        all_same = all_same and eq
        out.append((label, sides(eq, lv, rv)))
    told(c, table, out)
    marked(c, ch[0], all_same, what == "dep" and not all_same)
    c.cover("fields")


def methods(c, what, size=1):
    """ methods that changed, were added and were removed """
    ls, rs = plain(), plain()
    x = c.str("l", size, CHARS)
    y = c.str("r", size, CHARS)
    lm, rm = [method("m" + x, "(La/" + x + ";I)V") for _i in (0, 1)]
    want = {"Method Name": ["m" + x] * 2, "Return Type": ["void"] * 2,
            "Argument Types": ["(a." + x + ", int)"] * 2,
            "Method Flags": ["0x0001: public"] * 2}
    if what == "type":
        for m, v in ((lm, x), (rm, y)):
            m["desc"] = "(La/" + x + ";I)La/" + v + ";"
        want["Return Type"] = ["a." + x, "a." + y]
    elif what == "flags":
        rm["access"] = c.choose("ra", (1, 2))
        if rm["access"] == 2:
            want["Method Flags"][1] = "0x0002: private"
    elif what == "sig":
        lm["sig"], rm["sig"] = "La/" + x + ";", None
        want["Generics Signature"] = ["La/" + x + ";", "(None)"]
    elif what == "exc":
        lm["exc"], rm["exc"] = ["t/" + x, "t/Y"], ["t/" + y]
        if c.choose("both", (False, True)):
            rm["exc"] = rm["exc"] + ["t/Y"]
        want["Exceptions"] = ["(" + ", ".join([dotted(e) for e in m["exc"]])
                              + ")" for m in (lm, rm)]
    elif what == "dep":
        lm["dep"] = True
        rm["dep"] = c.choose("rd", (False, True))
        want["Deprecated"] = ["True", str(rm["dep"])]
    elif what == "abstract":
        if c.choose("lab", (False, True)):
            lm["code"] = None
        if c.choose("rab", (False, True)):
            rm["code"] = None
        if lm["code"] is None or rm["code"] is None:
            want["Abstract"] = [str(m["code"] is None) for m in (lm, rm)]
    ls["methods"], rs["methods"] = [lm], [rm]
    if what in ("added", "removed"):
        n = method("n" + y, "()La/" + y + ";", exc=["t/" + y],
                   sig="()La/" + y + ";")
        (rs if what == "added" else ls)["methods"].append(n)
        if c.choose("ab", (False, True)):
            n["code"], n["access"] = None, 0x401
    d = compare(c, ls, rs)
    p = part(c, d, "ClassMethodsChange")
    for k in ("added", "removed"):
        found = [z for z in changes(p[3])
                 if z[0][0] == "Method" + k.capitalize()]
        c.check(len(found) == (1 if what == k else 0), "methods " + k,
                key=k)
        for z in found:
            c.check(z[3].find("h3")[0].text() ==
                    "n" + y + "():a." + y, "the method " + k, key=k)
            c.check(tidy(z[3].find("div", "description")[0].text()) ==
                    "Method " + k.capitalize(), "what of the method", key=k)
            t = z[3].find("table", "left-headers")[0]
            out = [("Method Name", ["n" + y]), ("Return Type", ["a." + y]),
                   ("Argument Types", ["()"]),
                   ("Generics Signature", ["()La/" + y + ";"]),
                   ("Exceptions", ["t." + y])]
            if n["code"] is None:
                out += [("Method Flags", ["0x0401: public abstract"]),
                        ("Abstract", ["True"])]
            else:
                out += [("Method Flags", ["0x0001: public"])]
            told(c, t, out)
    ch = [k for k in changes(p[3]) if k[0][0] == "MethodChange"]
    c.check(len(ch) == 1, "the method in both", key="kept")
    c.check(ch[0][3].find("h3")[0].text() == "m" + x + "(a." + x +
            ", int):" + want["Return Type"][0], "the name of the method",
            key="name")
    table = ch[0][3].find("table", "left-headers")[0]
    out, all_same = [], True
    for label in sorted(want):
        lv, rv = want[label]
        eq = c.decide(c.eq(lv, rv))
        all_same = all_same and eq
        out.append((label, sides(eq, lv, rv)))
    told(c, table, out)
    marked(c, ch[0], all_same)
    marked(c, p, all_same and what not in ("added", "removed"))
    c.cover("methods")


def annotations(c, where, vis, size=1):
    """ annotations of the class, a field and a method """
    ls, rs = plain(), plain()
    x = c.str("l", size, CHARS)
    y = c.str("r", size, CHARS)
    la = [("La/" + x + ";", []), ("Lb/B;", [(x, ("s", "t"))])]
    ra = [("La/" + y + ";", []), ("Lb/B;", [(y, ("s", "t"))])]
    la = la[:c.choose("nl", (0, 1, 2))]
    ra = ra[:c.choose("nr", (0, 1, 2))]
    for s, a in ((ls, la), (rs, ra)):
        o = s
        if where == "Field":
            s["fields"] = [field("f", "I")]
            o = s["fields"][0]
        elif where == "Method":
            s["methods"] = [method("m", "()V")]
            o = s["methods"][0]
        o["vis" if vis else "inv"] = a
    d = compare(c, ls, rs)
    p = part(c, d, where + ("" if vis else "Invisible") +
             "AnnotationsChange")
    same = len(la) == len(ra) and (not la or c.decide(c.eq(x, y)))
    marked(c, p, same)
    rows = grid(p[3].find("table", "annotations")[0], 2 if same else 3)
    c.check(len(rows) == (len(la) if same else max(len(la), len(ra))),
            "a row for each", key="rows")
    for i, row in enumerate(rows):
        c.check(row[0] == str(i), "the number of an annotation",
                key="number")
        for side, v, cell in zip((la, ra), (x, y), row[1:]):
            if i >= len(side):
                c.check(cell == "", "no annotation", key="none")
            elif i == 0:
                c.check(cell == "a." + v + "()", "the annotation",
                        key="annotation")
            else:
                c.check(cell.startswith("b.B(" + v + "=s#"),
                        "the annotation", key="annotation")
    if not same:
        cells = [td.get("class") for td in p[3].find("td")
                 if td.get("class") != "const-index"][1::2]
        for i, cl in enumerate(cells):
            alike = i < min(len(la), len(ra)) and c.decide(c.eq(x, y))
            c.check(("is_changed" in cl.split()) is not alike,
                    "which annotation changed", key="which")
    c.cover("annotations")


def constants(c, more, size=1):
    """ the pools of constants side by side """
    ls, rs = plain(), plain()
    x = c.str("l", size, CHARS)
    y = c.str("r", size, CHARS)
    ls["fields"] = [field("f", "I", const=("int", b"\0\0\0\x05")),
                    field(x, "La/A;")]
    rs["fields"] = [field("f", "I", const=("int", b"\0\0\0" +
                                           c.bytes("v", 1, ((5, 6),)))),
                    field(y, "La/A;")]
    if more == "kinds":
        kinds = (("int", b"\0\0\0\0"), ("float", b"\0\0\0\0"),
                 ("string", "q"), ("class", "q"), ("mtype", "q"))
        for s, tag in ((ls, "lk"), (rs, "rk")):
            k = c.choose(tag, kinds)
            s["fields"] = []
            s["methods"] = [method("m", "()V", code=body(
                [("\x13", k), b"\xb1"], lines=()))]
    elif more:
        (ls if more == "left" else rs)["fields"].append(field("z" + x, "J"))
    d = compare(c, ls, rs)
    p = part(c, d, "ClassConstantPoolChange")
    lp = unpack_class(write(ls, "plain")).cpool
    rp = unpack_class(write(rs, "plain")).cpool
    n = max(len(lp.consts), len(rp.consts))
    same = all([len(lp.consts) == len(rp.consts)] + [
        c.decide(c.eq(lp.pretty_const(i), rp.pretty_const(i)))
        for i in range(1, min(len(lp.consts), len(rp.consts)))])
    marked(c, p, same)
    rows = grid(p[3].find("table")[0], 3 if same else 5)
    c.check(len(rows) == n - 1, "a row for each constant", key="rows")
    for i, row in enumerate(rows):
        c.check(row[0] == str(i + 1), "the index", key="index")
        l = r = ("", "")
        if i + 1 < len(lp.consts):
            l = [tidy("" if z is None else str(z)) for z in lp.pretty_const(i + 1)]
        if i + 1 < len(rp.consts):
            r = [tidy("" if z is None else str(z)) for z in rp.pretty_const(i + 1)]
        c.check(row[1] == l[0] and row[2] == l[1], "the left constant",
                key="left")
        if not same:
            if c.decide(c.eq(l[0], r[0])) and c.decide(c.eq(l[1], r[1])):
                r = ("", "")
            c.check(row[3] == r[0] and row[4] == r[1],
                    "the right constant", key="right")
    c.cover("constants")


OPS = {
    "const": [(b"\x03", "iconst_0", "")],
    "two": [(b"\x03", "iconst_0", ""), (b"\x3b", "istore_0", "")],
    "push": [(b"\x10", "bipush", None)],
    "none": [],
}


def code(c, left, right):
    """ the code of a method, by lines """
    ls, rs = plain(), plain()
    want = []
    for tag, s, shape in (("l", ls, left), ("r", rs, right)):
        if shape is None:
            s["methods"] = [method("m", "()V", code=None, access=0x401)]
            want.append(None)
            continue
        ops, lines, at = [], [], 0
        mine = []
        start = c.choose(tag + "line", (10, 11))
        for i, name in enumerate(shape + ["ret"]):
            if name == "gap":
                start += 1
                continue
            lines.append((at, start + i))
            got = []
            for op, opname, arg in OPS.get(name, [(b"\xb1", "return", "")]):
                size = 1
                if arg is None:
                    v = c.choose(tag + "push%d" % i, (1, 2))
                    op, arg, size = op + bytes([v]), str(v), 2
                ops.append(op)
                got.append([str(at), opname, arg])
                at += size
            mine.append((start + i, got))
        want.append((lines[0][1], mine))
        s["methods"] = [method("m", "()V", code=body(ops, lines=lines))]
    d = compare(c, ls, rs)
    m = part(c, d, "MethodChange")[3]
    p = part(c, m, "MethodCodeChange")
    tables = p[3].find("table")
    if want[0] is None and want[1] is None:
        marked(c, p, True)
        c.check(not tables, "no code", key="none")
        c.cover("code")
        return
    same = want[0] == want[1]
    marked(c, p, same)
    c.check(len(tables) == 1, "one table", key="table")
    if same:
        out = []
        for line, dis in want[0][1]:
            for x in dis:
                out.append([str(line - want[0][0]), str(line)] + x)
        got = grid(tables[0], 5)
    else:
        out = []
        both = [dict([(ln - w[0], (ln, dis)) for ln, dis in w[1]])
                if w else {} for w in want]
        for rel in sorted(set(both[0]) | set(both[1])):
            l, r = [b.get(rel, ("", [])) for b in both]
            for i in range(max(len(l[1]), len(r[1]))):
                row = [str(rel)]
                for ln, dis in (l, r):
                    if not dis:
                        row += [""] * 4
                    else:
                        row += [str(ln)] + (dis[i] if i < len(dis)
                                            else [""] * 3)
                out.append(row)
        got = grid(tables[0], 9)
    c.check(len(got) == len(out), "the rows of the code", key="rows")
    for x, y in zip(got, out):
        c.check(x == y, "a row of the code: %r" % (x,), key="row")
    c.cover("code")


# ---------------------------------------------------------------------
# pages of archives and distributions

def contents(c, tool, kinds):
    """ pages of archives and of distributions """
    fs = c.fs()
    jar = tool == "jar"
    h = h_jar if jar else h_dist
    if jar:
        l, r, want = h.make(c, kinds)
    else:
        l, r, want = h.make(c, kinds, 1)
        want = [(n, k, s if s in ("left", "right") else
                 (True if s[1] else None if s[0] else False))
                for n, k, s in want]
    fs.mkdir("out")
    args = ["--report=html", "--report-dir=" + fs.path("out"), l, r]
    name = "JarReport" if jar else "DistReport"
    if jar:
        c.output(jardiff, ["jardiff"] + args)
    else:
        with sched.Patched(c, None, 0) as s:
            c.output(distdiff, ["distdiff", "--processes=0"] + args)
            s.finish()
    d = page(c, fs, "out/%s.html" % name, name)
    top = "out/%s.html" % name
    listed = []
    for cat in d.find("div", "change-category"):
        h2 = cat.find("h2")
        c.check(len(h2) == 1, "one heading", key="heading")
        for x in changes(cat):
            listed.append((tidy(h2[0].text()), x))
    written = [name + ".html"]
    for n, k, state in want:
        mine = [(hd, x) for hd, x in listed
                if n == tidy("".join([k for k in x[3].kids
                                      if not isinstance(k, Node)]))]
        if state is True:
            # nothing tells it
            continue
        label = h.LABELS[k][{"left": 1, "right": 0}.get(state, 2)]
        c.check(len(mine) == 1, "the entry is listed once", key="listed")
        hd, x = mine[0]
        c.check(hd == label, "under which heading: " + hd, key="heading")
        c.check(x[1] is (state is not None), "is it marked", key="marked")
        links = x[3].find("a")
        if state in ("left", "right") or k not in ("class", "jar"):
            c.check(not links, "no details", key="link")
            continue
        c.check(len(links) == 1, "its details", key="link")
        sub = {"class": "JavaClassReport", "jar": "JarReport"}[k]
        rel = n + "/" + sub + ".html"
        c.check(resolve(["out"], links[0].get("href")) == "out/" + rel,
                "where the link leads", key="link")
        written.append(rel)
        sd = page(c, fs, "out/" + rel, sub + (" Me" if k == "class" else ""),
                  [top])
        if k == "class":
            ch = [z[0][0] for z in changes(sd)]
            c.check("FieldAdded" in ch and "FieldRemoved" in ch,
                    "the page on the class", key="page")
    c.check(fs.tree("out") == sorted(written), "the pages written",
            key="files")
    c.cover("contents")


def deep(c):
    """ a class in an archive in a distribution """
    fs = c.fs()
    for side in "lr":
        s = plain()
        s["fields"] = [field(c.str(side, 1, CHARS), "I")]
        fs.put(side + "/lib/x.jar", fs.zipbytes(
            [("a/B.class", write(s, "plain"))]))
        if side == "l":
            left = s
    same = c.decide(c.eq(left["fields"][0]["name"],
                         s["fields"][0]["name"]))
    fs.mkdir("out")
    with sched.Patched(c, None, 0) as s:
        c.output(distdiff, ["distdiff", "--processes=0", "--report=html",
                            "--report-dir=" + fs.path("out"),
                            fs.path("l"), fs.path("r")])
        s.finish()
    pages = ["out/DistReport.html"]
    if not same:
        pages += ["out/lib/x.jar/JarReport.html",
                  "out/lib/x.jar/a/B.class/JavaClassReport.html"]
    c.check(fs.tree("out") == sorted([p[4:] for p in pages]),
            "the pages written", key="files")
    for i, p in enumerate(pages):
        d = page(c, fs, p, ["DistReport", "JarReport",
                            "JavaClassReport Me"][i], pages[:i])
        links = [a for cat in d.find("div", "change-category")
                 for a in cat.find("a")]
        c.check([resolve(p.split("/")[:-1], a.get("href"))
                 for a in links] == pages[i + 1:i + 2],
                "the page on the entry", key="link")
    c.cover("deep")


def chain(c, n):
    """ reports within reports, however deep """
    fs = c.fs()
    fs.mkdir("out")
    opts = create_optparser().parse_args(["l", "r"])
    rep = Reporter(fs.path("out"), "top", opts)
    rep.add_formats_by_name(["html"])
    at, pages, names = "out", ["out/X.html"], ["top"]
    first = c.choose("sub", range(4))
    same = c.choose("same", (False, True))
    for i in range(n):
        sub = ("a", "b/c", ".d/e-1.jar", "a b")[(first + i) % 4]
        name = "same" if same else "n%d" % i
        rep = rep.subreporter(sub, name)
        at += "/" + sub
        names.append(name)
        got = rep.get_relative_breadcrumbs()
        c.check([e for _b, e in got] == names[:-1], "what it is within",
                key="chain")
        c.check([resolve(at.split("/"), b) for b, _e in got] ==
                [p.rsplit("/", 1)[0] for p in pages], "and where that is",
                key="chain")
        pages.append(at + "/X.html")
        c.check(rep.basedir == fs.path(at) and rep.entry == name and
                rep.options is opts and len(rep.formats) == 1,
                "its own place", key="chain")
    c.cover("chain")


def media(c, given):
    """ styles and scripts of the pages """
    fs = c.fs()
    l, r = [], []
    for out, n in ((l, "f"), (r, "g")):
        s = plain()
        s["fields"] = [field(n, "I")]
        out.append(("a/B.class", write(s, "plain")))
    l, r = fs.zip("l.jar", l), fs.zip("r.jar", r)
    x = c.choose("x", ("a", "&", '"', "<b>"))
    fs.put("src/data/b/s.css", b"css")
    fs.put("src/data/s.js", b"js")
    fs.put("src/data/s.png", b"png")
    fs.put("work/own/" + "m" + ".css", b"mine")
    fs.mkdir("work/own")
    fs.chdir("work")
    rdir = c.choose("dir", ("out", "../out", "."))
    args = ["jardiff", "--report=html", "--report-dir=" + rdir]
    css, js = [], []
    top = {"out": "work/out", "../out": "out", ".": "work"}[rdir]
    before = fs.tree("")
    new = []
    if "copy" in given:
        to = c.choose("to", ("media", "out/media", "../media"))
        args.append("--html-copy-data=" + to)
        to = {"media": "work/media", "out/media": "work/out/media",
              "../media": "media"}[to]
        css.append((to + "/b/s.css", b"css"))
        js.append((to + "/s.js", b"js"))
        new += [to + "/b/s.css", to + "/s.js", to + "/s.png"]
    if "own" in given:
        args.append("--html-stylesheet=own/m.css")
        css.append(("work/own/m.css", b"mine"))
        args.append("--html-javascript=own/none" + x + ".js")
        js.append("own/none" + x + ".js")
    if "far" in given:
        args.append("--html-stylesheet=http://h/" + x)
        css.append("http://h/" + x)
        args.append("--html-javascript=/h/" + x)
        js.append("/h/" + x)
    cheetah.__path__.insert(0, fs.path("src"))
    try:
        c.output(jardiff, args + [l, r])
    finally:
        cheetah.__path__.remove(fs.path("src"))
    pages = [top + "/JarReport.html", top +
             "/a/B.class/JavaClassReport.html"]
    c.check(fs.tree("") == sorted(before + new + pages),
            "the files written", key="files")
    for p, title, up in ((pages[0], "JarReport", []),
                         (pages[1], "JavaClassReport Me", pages[:1])):
        d = page(c, fs, p, title, up)
        here = p.split("/")[:-1]
        got = [n.get("href") for n in d.find("link")]
        also = [n.get("src") for n in d.find("script")
                if n.get("src").find("jquery") < 0]
        c.check(len(got) == len(css) and len(also) == len(js),
                "what the page asks for", key="media")
        for href, w in zip(got + also, css + js):
            if not isinstance(w, tuple):
                c.check(href == w, "a reference as it was given",
                        key="given")
            else:
                c.check(resolve(here, href) == w[0] and
                        fs.get(w[0]) == w[1], "where a reference leads",
                        key="media")
    c.cover("media")


def cases(tier):
    out = []
    for w in ("name", "super", "ifs", "flags", "version", "sig", "dep"):
        out.append({"name": "info/" + w, "fn": "info",
                    "params": {"what": w}})
    for w in ("type", "flags", "sig", "const", "zero", "dep", "added"):
        out.append({"name": "fields/" + w, "fn": "fields",
                    "params": {"what": w}})
    for w in ("type", "flags", "sig", "exc", "dep", "abstract", "added",
              "removed"):
        out.append({"name": "methods/" + w, "fn": "methods",
                    "params": {"what": w}})
    for w in ("Class", "Field", "Method"):
        for v in (False, True):
            out.append({"name": "annotations/%s/%d" % (w, v),
                        "fn": "annotations",
                        "params": {"where": w, "vis": v}})
    for w in (None, "left", "right", "kinds"):
        out.append({"name": "constants/%s" % w, "fn": "constants",
                    "params": {"more": w}})
    shapes = [["const"], ["two", "push"], ["const", "gap", "two"], None,
              ["two", "two"]]
    for i, a in enumerate(shapes):
        for j, b in enumerate(shapes):
            out.append({"name": "code/%d%d" % (i, j), "fn": "code",
                        "params": {"left": a, "right": b}})
    for t, ks in (("jar", ["class"]), ("jar", ["other"]),
                  ("jar", ["manifest"]), ("jar", ["sf"]),
                  ("jar", ["block"]), ("jar", ["class", "class"]),
                  ("dist", ["class"]), ("dist", ["jar"]),
                  ("dist", ["text"]), ("dist", ["manifest"]),
                  ("dist", ["other"]), ("dist", ["jar", "class"])):
        out.append({"name": "contents/%s/%s" % (t, "-".join(ks)),
                    "fn": "contents", "weight": 3 * len(ks),
                    "params": {"tool": t, "kinds": ks}})
    out.append({"name": "deep", "fn": "deep", "params": {}})
    for n in (1, 2, 3, 4):
        out.append({"name": "chain/%d" % n, "fn": "chain",
                    "params": {"n": n if n < 4 else 5}})
    for g in (["copy"], ["own"], ["far"], ["copy", "own"],
              ["own", "far"], []):
        out.append({"name": "media/" + "-".join(g), "fn": "media",
                    "params": {"given": g}})
    if tier == "thorough":
        for x in list(out):
            if x["fn"] in ("info", "fields", "methods", "annotations",
                           "constants"):
                out.append({"name": x["name"] + "/2", "fn": x["fn"],
                            "params": dict(x["params"], size=2)})
    return out


PROPS = {
    "P41": {
        "cases": cases,
        "covers": ("info", "fields", "methods", "annotations", "constants",
                   "code", "contents", "deep", "media", "chain"),
        "bounds": {"quick": "names and values of one unknown character out "
                            "of a b & < > and quotes; one class, or up to 2 "
                            "entries of each kind; code of up to 3 lines",
                   "thorough": "two unknown characters"},
    },
}
