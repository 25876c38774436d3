"""
Trees of changes: what counts as a change, what is ignored, what reports
show, squashing.
"""

import json

from io import StringIO

from javatools.change import (Change, GenericChange, SuperChange, Addition,
                              Removal, SquashedChange, squash,
                              collect_by_type, collect_by_typename,
                              iterate_by_type, yield_sorted_by_type)
from javatools.report import (TextReportFormat, JSONReportFormat,
                              quick_report)




class Opts(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


# ---------------------------------------------------------------------
# trees

class Leaf(GenericChange):

    label = "Leaf"
    ign = False

    def is_ignored(self, options):
        return self.ign


class Silent(Leaf):
    """ a change that has nothing to say """
    label = ""

    def get_description(self):
        return None


class Gone(Removal):
    label = "Gone"
    ign = False

    def is_ignored(self, options):
        return self.ign


class New(Addition):
    label = "New"
    ign = False

    def is_ignored(self, options):
        return self.ign


class Node(SuperChange):

    label = "Node"
    kids = ()
    name = "?"

    def collect_impl(self):
        for k in self.kids:
            yield k

    def get_description(self):
        return self.name


class Want(object):
    """ what is expected of one node """

    def __init__(self, obj, changed, ignored, kids=(), name=None):
        self.obj = obj
        self.changed = changed
        self.ignored = ignored
        self.kids = kids
        self.name = name


def build(c, shape, path="t"):
    """ shape: "c" a leaf, "n" one without a description, "+" an addition,
    "-" a removal, or a list """
    if isinstance(shape, (list, tuple)):
        kids = [build(c, s, path + str(i)) for i, s in enumerate(shape)]
        n = Node(path, path)
        n.name = path
        n.kids = [k.obj for k in kids]
        if c.choose(path + " entry", (False, True)) if len(path) == 1 \
                else False:
            n.entry = "E" + path
        return Want(n, None, None, kids, path)
    ign = c.bool(path + " ignored")
    if shape in "cn":
        a, b = c.int(path + "l", 0, 9), c.int(path + "r", 0, 9)
        x = (Leaf if shape == "c" else Silent)(a, b)
        changed = c.not_(c.eq(a, b))
    else:
        x = New(None, path) if shape == "+" else Gone(path, None)
        changed = True
    x.ign = ign
    return Want(x, changed, ign)


def settle(c, w):
    """ fill in what is expected of the inner nodes """
    if not isinstance(w.obj, Node):
        return
    for k in w.kids:
        settle(c, k)
    w.changed = c.or_(False, *[k.changed for k in w.kids])
    w.ignored = c.and_(w.changed, *[
        c.or_(c.not_(k.changed), k.ignored) for k in w.kids])


def each(w):
    yield w
    for k in w.kids:
        for x in each(k):
            yield x


def has_kids(w):
    return bool(w.kids)


def tree(c, shape):
    opts = Opts()
    w = build(c, shape)
    settle(c, w)
    top = w.obj
    top.check()
    for n in each(w):
        c.check(c.iff(n.obj.is_change(), n.changed),
                "changed exactly when something below it changed")
        c.check(c.iff(c.and_(c.truth(n.obj.is_change()),
                             c.truth(n.obj.is_ignored(opts))),
                      c.and_(n.changed, n.ignored)),
                "ignored exactly when all its changes are")
        if isinstance(n.obj, Node):
            got = tuple(n.obj.collect())
            c.check(len(got) == len(n.kids) and all(
                [a is b.obj for a, b in zip(got, n.kids)]),
                "the children are those collected, in order")
    # looking again changes nothing
    top.check()
    c.check(c.iff(top.is_change(), w.changed), "checking twice")
    c.check(c.iff(top.is_ignored(opts), w.ignored), "checking twice")
    # nor does keeping but the summaries of the parts
    top.squash_children(opts)
    c.check(c.iff(top.is_change(), w.changed), "parts as summaries",
            key="summaries")
    c.check(c.iff(c.and_(c.truth(top.is_change()),
                         c.truth(top.is_ignored(opts))),
                  c.and_(w.changed, w.ignored)), "parts as summaries",
            key="summaries")
    c.cover("tree")
    c.observe("top", (c.truth(top.is_change()),
                      c.truth(top.is_ignored(opts))))


def leaf(c):
    """ a generic change tells whether the data differ """
    a, b = c.int("a", -5, 300), c.int("b", -5, 300)

    class Half(GenericChange):
        label = "Half"

        def fn_data(self, x):
            return x // 2

        def fn_pretty(self, x):
            return "p%d" % (x // 2)

    h = Half(a, b)
    h.check()
    same = c.eq(a // 2, b // 2)
    c.check(c.iff(h.is_change(), c.not_(same)), "differs by its data")
    c.check(c.eq((h.get_ldata(), h.get_rdata()), (a // 2, b // 2)), "data")
    c.check(c.eq((h.pretty_ldata(), h.pretty_rdata()),
                 ("p%d" % (a // 2), "p%d" % (b // 2))), "displayed data")
    if h.is_change():
        c.check(c.eq(h.get_description(), "Half changed: p%d to p%d" % (
            a // 2, b // 2)), "description")
        c.cover("leaf changed")
    else:
        c.check(h.get_description() == "Half unchanged", "description")
    s = h.simplify(Opts())
    c.check(c.eq(s["is_change"], c.truth(h.is_change())), "simplified")
    c.check(c.eq((s["old_data"], s["new_data"]),
                 (h.pretty_ldata(), h.pretty_rdata())), "simplified")
    c.check(s["label"] == "Half" and s["class"] == "Half" and
            c.eq(s["description"], h.get_description()), "simplified")
    c.check("is_addition" not in s and "is_removal" not in s, "simplified")


def default_collect(c):
    """ every listed kind of change is made with both sides """
    a, b = c.int("a", 0, 9), c.int("b", 0, 9)

    class One(GenericChange):
        label = "One"

    class Two(GenericChange):
        label = "Two"

        def fn_data(self, x):
            return x % 3

    class Both(SuperChange):
        label = "Both"
        change_types = (One, Two)

        def fn_data(self, x):
            return x + 1

    s = Both(a, b)
    s.check()
    got = s.collect()
    c.check([type(x) for x in got] == [One, Two], "kinds")
    for x in got:
        c.check(c.eq((x.ldata, x.rdata), (a + 1, b + 1)), "sides")
    c.check(c.iff(got[0].is_change(), c.not_(c.eq(a, b))), "first")
    c.check(c.iff(got[1].is_change(),
                  c.not_(c.eq((a + 1) % 3, (b + 1) % 3))), "second")
    c.check(c.iff(s.is_change(), c.not_(c.eq(a, b))), "together")
    again = s.collect()
    c.check(all([x is y for x, y in zip(got, again)]), "collected once")
    forced = s.collect(True)
    c.check(len(forced) == 2 and forced[0] is not got[0],
            "collected anew when asked")
    c.cover("collect")


# ---------------------------------------------------------------------
# grouping by type

def grouping(c, n, order):
    class A(object):
        pass

    class B(A):
        pass

    class C(object):
        pass
    kinds = {"A": A, "B": B, "C": C}
    objs, names = [], []
    for i in range(n):
        k = c.choose("k%d" % i, sorted(kinds))
        objs.append(kinds[k]())
        names.append(k)
    want = []
    for k in order:
        want += [o for o, m in zip(objs, names) if m == k]
    rest = [o for o, m in zip(objs, names) if m not in order]

    @yield_sorted_by_type(*[kinds[k] for k in order])
    def emit(x):
        for o in x:
            yield o
    for got in (list(iterate_by_type(iter(objs), [kinds[k] for k in order])),
                list(emit(objs))):
        c.check([id(x) for x in got[:len(want)]] == [id(x) for x in want],
                "listed types first, in their order")
        tail = got[len(want):]
        c.check(sorted([id(x) for x in tail]) ==
                sorted([id(x) for x in rest]), "then all of the others")
        seen = [type(x) for x in tail]
        c.check(all([seen[i] in (seen[i - 1],) or
                     seen[i] not in seen[:i]
                     for i in range(1, len(seen))]), "grouped by type")
    byt = collect_by_type(objs)
    byn = collect_by_typename(objs)
    for k in kinds:
        w = [id(o) for o, m in zip(objs, names) if m == k]
        c.check([id(x) for x in byt.get(kinds[k], [])] == w, "by type")
        c.check([id(x) for x in byn.get(k, [])] == w, "by type name")
    c.cover("grouping")


# ---------------------------------------------------------------------
# reports and squashing

def visible(c, w, opts):
    """ is the node itself to be shown (when all above it are) """
    if c.decide(w.changed):
        if c.decide(w.ignored):
            return opts.show_ignored
        return True
    return opts.show_unchanged


def text_of(c, w, opts, indent=0):
    if not visible(c, w, opts):
        return ""
    desc = w.obj.get_description()
    if c.decide(w.changed) and c.decide(w.ignored):
        desc += " [IGNORED]"
    return "  " * indent + desc + "\n" + "".join(
        [text_of(c, k, opts, indent + 1) for k in w.kids])


def json_check(c, got, w, opts):
    c.check(got["is_change"] == c.decide(w.changed), "json: is_change")
    c.check(c.eq(got["description"], w.obj.get_description()),
            "json: description")
    if c.decide(w.changed):
        c.check(got["is_ignored"] == c.decide(w.ignored),
                "json: is_ignored")
    c.check(("is_addition" in got) == isinstance(w.obj, Addition),
            "json: additions")
    c.check(("is_removal" in got) == isinstance(w.obj, Removal),
            "json: removals")
    c.check(got.get("entry") == w.obj.entry, "json: entry")
    kids = [k for k in w.kids if visible(c, k, opts)]
    sub = got.get("children", [])
    c.check(len(sub) == len(kids), "json: exactly the visible children",
            key="json children")
    for g, k in zip(sub, kids):
        json_check(c, g, k, opts)


def options(c):
    return Opts(show_ignored=c.choose("show ignored", (False, True)),
                show_unchanged=c.choose("show unchanged", (False, True)),
                json_indent=2, output=None)


def report(c, shape, fmt, squashed):
    opts = options(c)
    w = build(c, shape)
    settle(c, w)
    top = w.obj
    top.check()
    if squashed:
        flat = squash_tree(c, w, opts)
    else:
        flat = w
    out = StringIO()
    if fmt == "text":
        TextReportFormat(None, opts).run(flat.obj, None, out)
        c.check(c.eq(out.getvalue(), text_of(c, flat, opts)),
                "the report shows exactly what is to be shown")
        c.observe("text", out.getvalue())
    else:
        JSONReportFormat(None, opts).run(flat.obj, None, out)
        got = json.loads(out.getvalue())
        json_check(c, got["report"], flat, opts)
    c.cover("report " + fmt)


def squash_tree(c, w, opts):
    """ squash the children of the top, and expect nothing to differ
    for them """
    desc = [k.obj.get_description() for k in w.kids]
    kinds = [(isinstance(k.obj, Addition), isinstance(k.obj, Removal),
              k.obj.label, type(k.obj).__name__, k.obj.entry)
             for k in w.kids]
    before = c.decide(w.changed)
    w.obj.squash_children(opts)
    got = w.obj.collect()
    c.check(len(got) == len(w.kids), "as many squashed changes")
    kids = []
    for s, k, d, (add, rem, label, name, entry) in zip(
            got, w.kids, desc, kinds):
        c.check(isinstance(s, SquashedChange), "squashed")
        c.check(isinstance(s, Addition) == add, "additions stay so")
        c.check(isinstance(s, Removal) == rem, "removals stay so")
        c.check(c.iff(s.is_change(), k.changed), "squashed: is_change")
        if c.decide(k.changed):
            c.check(c.iff(s.is_ignored(opts), k.ignored),
                    "squashed: is_ignored")
        c.check(c.eq(s.get_description(), d), "squashed: description")
        c.check(s.label == label, "squashed: label")
        c.check(s.entry == entry, "squashed: entry")
        simple = s.simplify(opts)
        c.check(simple["original_class"] == name, "squashed: class")
        s.clear()
        c.check(c.eq(s.get_description(), d) and
                c.decide(c.iff(s.is_change(), k.changed)),
                "squashed changes keep what they have")
        kids.append(Want(s, k.changed, k.ignored))
    c.check(w.obj.is_change() == before, "squashing children changes "
            "nothing above them")
    if before:
        c.check(w.obj.is_ignored(opts) == c.decide(w.ignored),
                "squashing children changes nothing above them")
    return Want(w.obj, w.changed, w.ignored, kids, w.name)


def escaping(c, n):
    """ reports are plain ASCII, whatever the names are """
    s = c.str("name", n, ((32, 126), (160, 0xD7FF), (0xE000, 0x10FFFF)))

    class Named(GenericChange):
        label = "N"

        def get_description(self):
            return s
    x = Named(1, 2)
    x.check()
    out = StringIO()
    TextReportFormat(None, Opts(output=None)).run(x, None, out)
    got = out.getvalue()
    want = []
    for ch in s:
        o = ord(ch)
        if o < 128:
            want.append(ch)
        elif o < 256:
            want.append("\\x%02x" % o)
        elif o < 65536:
            want.append("\\u%04x" % o)
        else:
            want.append("\\U%08x" % o)
    c.check(c.eq(got, "".join(want) + "\n"), "escaped")
    c.observe("escaped", got)
    c.cover("escaping")


SHAPES = (
    ["c"], [], ["c", "c"], ["+"], ["-", "c"], [["c"]], [["c", "c"], "c"],
    [["c"], ["c"]], [["+", "c"], ["-"]], [[], "c"], [[["c"], "c"]],
    ["c", "c", "c"], [["c", "+"], ["c", "-"]], ["c", [], "-"])
BIG = ([["c", "c"], ["c", "c"]], ["c", "c", "c", "c"],
       [[["c", "+"], "c"], ["-", ["c"]]], [[["c"], ["c"]], "c", "c"],
       ["c"] * 5, [["c", "c", "c"], ["c", "c"]])


def cases_tree(tier):
    out = [{"name": "leaf", "fn": "leaf", "params": {}},
           {"name": "collect", "fn": "default_collect", "params": {}}]
    for s in SHAPES + (BIG if tier == "thorough" else BIG[:3]) + (
            ["n"], ["n", "c"], [["n"], "c"], [["n"], ["n", "+"]]):
        out.append({"name": "tree/" + json.dumps(s), "fn": "tree",
                    "params": {"shape": s}})
    for n in range(4 if tier == "quick" else 6):
        for order in ("", "A", "BA", "CAB"):
            out.append({"name": "group/%d/%s" % (n, order),
                        "fn": "grouping",
                        "params": {"n": n, "order": order}})
    return out


def cases_report(tier):
    out = []
    for n in (0, 1, 2) + ((3,) if tier == "thorough" else ()):
        out.append({"name": "escape/%d" % n, "fn": "escaping",
                    "params": {"n": n}})
    for s in SHAPES + (BIG[2:4] if tier == "thorough" else ()):
        for fmt in ("text", "json"):
            for q in (False, True):
                out.append({"name": "%s/%s/%s" % (
                    fmt, json.dumps(s), "squashed" if q else "full"),
                    "fn": "report", "weight": len(json.dumps(s)),
                    "params": {"shape": s, "fmt": fmt, "squashed": q}})
    return out


PROPS = {
    "P20": {
        "cases": cases_tree,
        "covers": ("tree", "collect", "grouping", "leaf changed"),
        "bounds": {"quick": "trees of up to three levels and four leaves "
                            "with unknown data and unknown ignores",
                   "thorough": "up to five leaves"},
    },
    "P21": {
        "cases": cases_report,
        "covers": ("report text", "report json", "escaping"),
        "bounds": {"quick": "trees of up to four leaves, all report "
                            "options; names of up to 2 unknown characters",
                   "thorough": "up to six leaves, 3 characters"},
    },
}
