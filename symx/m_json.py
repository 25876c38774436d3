"""
JSON encoding and decoding of values that may be symbolic.
"""

import json

import z3

from . import core, models as M, rt
from .core import Unsupported
from .values import SymBool, SymFloat, SymInt, SymStr, elems_of, mkstr

_ESC = {34: '\\"', 92: "\\\\", 10: "\\n", 13: "\\r", 9: "\\t", 12: "\\f",
        8: "\\b"}


def _string(s, ascii_only):
    if type(s) is not SymStr:
        enc = json.encoder.encode_basestring_ascii if ascii_only else \
            json.encoder.encode_basestring
        return enc(s)
    en = core.CUR
    out = ['"']
    for x in elems_of(s):
        if type(x) is int:
            out.append(_string(chr(x), ascii_only)[1:-1])
            continue
        if en.decide(z3.And(z3.UGE(x, 32), z3.ULE(x, 126), x != 34,
                            x != 92)):
            out.append(mkstr([x]))
        elif not ascii_only and en.decide(z3.UGE(x, 127)):
            out.append(mkstr([x]))
        elif en.decide(z3.ULE(x, 127)):
            v = en.concretize(x, en.soft_cap)
            out.append(_string(chr(v), ascii_only)[1:-1])
        elif en.decide(z3.ULE(x, 0xFFFF)):
            out.append("\\u" + M.hexpad(M.from_unsigned(M.z21(x)), 4))
        else:
            y = M.z21(x) - 0x10000
            hi = 0xD800 + z3.LShR(y, 10)
            lo = 0xDC00 + (y & 0x3FF)
            out.append("\\u" + M.hexpad(M.from_unsigned(hi), 4))
            out.append("\\u" + M.hexpad(M.from_unsigned(lo), 4))
    out.append('"')
    return M.cat(out)


def _float(x, allow_nan):
    if type(x) is SymFloat:
        return M.m_repr(x)
    if x != x or x in (float("inf"), float("-inf")):
        if not allow_nan:
            raise ValueError("Out of range float values are not JSON "
                             "compliant: " + repr(x))
        return "NaN" if x != x else "Infinity" if x > 0 else "-Infinity"
    return float.__repr__(x)


def encode(o, obj):
    """ chunks of the text; o is a JSONEncoder """

    indent = o.indent
    if indent is not None and not isinstance(indent, str):
        indent = " " * int(indent)
    isep, ksep = o.item_separator, o.key_separator
    seen = set()
    out = []

    def default(x):
        return rt.call(o.default, x)

    def scalar(x):
        if x is None:
            return "null"
        if isinstance(x, (bool, SymBool)):
            return "true" if x else "false"
        if isinstance(x, str):
            return _string(x, o.ensure_ascii)
        if isinstance(x, int):
            return M.int_to_dec(x) if type(x) is SymInt else int.__repr__(x)
        if isinstance(x, float):
            return _float(x, o.allow_nan)
        return None

    def walk(x, level):
        s = scalar(x)
        if s is not None:
            out.append(s)
            return
        if isinstance(x, dict):
            mark(x, level, obj_)
        elif isinstance(x, (list, tuple)):
            mark(x, level, arr)
        else:
            mark(x, level, lambda y, l: walk(default(y), l))

    def mark(x, level, fn):
        if o.check_circular:
            if id(x) in seen:
                raise ValueError("Circular reference detected")
            seen.add(id(x))
        fn(x, level)
        seen.discard(id(x))

    def nl(level):
        return "\n" + indent * level if indent is not None else ""

    def arr(x, level):
        if not x:
            out.append("[]")
            return
        out.append("[" + nl(level + 1))
        first = True
        for y in x:
            if not first:
                out.append(isep + nl(level + 1))
            first = False
            walk(y, level + 1)
        out.append(nl(level) + "]")

    def obj_(x, level):
        if not len(x):
            out.append("{}")
            return
        items = list(x.items())
        if o.sort_keys:
            items = sorted(items)
        out.append("{" + nl(level + 1))
        first = True
        for k, v in items:
            if isinstance(k, str):
                pass
            elif k is None or isinstance(k, (bool, int, float, SymBool)):
                k = scalar(k)
            elif o.skipkeys:
                continue
            else:
                raise TypeError("keys must be str, int, float, bool or "
                                "None, not %s" % type(k).__name__)
            if not first:
                out.append(isep + nl(level + 1))
            first = False
            out.append(_string(k, o.ensure_ascii))
            out.append(ksep)
            walk(v, level + 1)
        out.append(nl(level) + "}")

    walk(obj, 0)
    return out


def _encoder(cls, kw):
    if cls is None:
        cls = json.JSONEncoder
    ind = kw.get("indent")
    if type(ind) is SymInt:
        kw["indent"] = ind.conc()
    return rt.call(cls, **kw)


_DEF = dict(skipkeys=False, ensure_ascii=True, check_circular=True,
            allow_nan=True, indent=None, separators=None, default=None,
            sort_keys=False)


def _args(cls, kw):
    full = dict(_DEF)
    full.update(kw)
    return _encoder(cls, full)


def dumps(obj, *, cls=None, **kw):
    return M.cat(encode(_args(cls, kw), obj))


def dump(obj, fp, *, cls=None, **kw):
    for s in encode(_args(cls, kw), obj):
        rt.call(fp.write, s)


def enc_encode(self, obj):
    return M.cat(encode(self, obj))


def enc_iterencode(self, obj, _one_shot=False):
    return iter(encode(self, obj))


# ---------------------------------------------------------------------

class _Reader(object):

    def __init__(self, text):
        self.e = elems_of(text)
        self.i = 0

    def bad(self, why):
        raise json.JSONDecodeError(why, "", self.i)

    def peek(self):
        if self.i >= len(self.e):
            self.bad("Expecting value")
        return self.e[self.i]

    def ws(self):
        while self.i < len(self.e) and self.e[self.i] in (32, 10, 13, 9):
            self.i += 1

    def lit(self, word, value):
        w = tuple(map(ord, word))
        if tuple(self.e[self.i:self.i + len(w)]) != w:
            self.bad("Expecting value")
        self.i += len(w)
        return value

    def number(self):
        j = self.i
        sym = False
        en = core.CUR
        while j < len(self.e):
            x = self.e[j]
            if type(x) is int:
                if not (48 <= x <= 57 or x in (43, 45, 46, 69, 101)):
                    break
            else:
                sym = True
                if not en.decide(z3.And(z3.UGE(x, 48), z3.ULE(x, 57))):
                    raise Unsupported("unknown character in a number")
            j += 1
        t = mkstr(self.e[self.i:j])
        self.i = j
        if sym:
            return M.m_int(t)
        if not t:
            self.bad("Expecting value")
        return float(t) if any(ch in t for ch in ".eE") else int(t)

    def string(self):
        self.i += 1
        out = []
        while True:
            x = self.peek()
            self.i += 1
            if type(x) is not int:
                # text written by an encoder: these are plain
                en = core.CUR
                if en.decide(z3.Or(x == 34, x == 92, z3.ULT(x, 32))):
                    raise Unsupported("unknown quote in JSON text")
                out.append(x)
                continue
            if x == 34:
                return mkstr(out)
            if x != 92:
                if x < 32:
                    self.bad("Invalid control character at")
                out.append(x)
                continue
            x = self.peek()
            self.i += 1
            if x == 117:
                u = self.unit()
                if type(u) is int and 0xD800 <= u < 0xDC00 and \
                        tuple(self.e[self.i:self.i + 2]) == (92, 117):
                    self.i += 2
                    v = self.unit()
                    u = 0x10000 + ((u & 0x3FF) << 10 | (v & 0x3FF))
                out.extend(elems_of(chr(u)) if type(u) is int
                           else [M.belem(u)])
            elif x in (34, 92, 47):
                out.append(x)
            else:
                k = {98: 8, 102: 12, 110: 10, 114: 13, 116: 9}.get(x)
                if k is None:
                    self.bad("Invalid \\escape")
                out.append(k)

    def unit(self):
        e = self.e[self.i:self.i + 4]
        self.i += 4
        if any(type(x) is not int for x in e):
            raise Unsupported("unknown escape in JSON text")
        return int("".join(map(chr, e)), 16)

    def value(self):
        self.ws()
        x = self.peek()
        if type(x) is not int:
            return self.number()
        if x == 123:
            self.i += 1
            d = rt.mkdict()
            self.ws()
            if self.peek() == 125:
                self.i += 1
                return d
            while True:
                self.ws()
                if self.peek() != 34:
                    self.bad("Expecting property name")
                k = self.string()
                self.ws()
                if self.peek() != 58:
                    self.bad("Expecting ':' delimiter")
                self.i += 1
                rt.dict_setitem(d, k, self.value())
                self.ws()
                y = self.peek()
                self.i += 1
                if y == 125:
                    return d
                if y != 44:
                    self.bad("Expecting ',' delimiter")
        if x == 91:
            self.i += 1
            out = []
            self.ws()
            if self.peek() == 93:
                self.i += 1
                return out
            while True:
                out.append(self.value())
                self.ws()
                y = self.peek()
                self.i += 1
                if y == 93:
                    return out
                if y != 44:
                    self.bad("Expecting ',' delimiter")
        if x == 34:
            return self.string()
        c = chr(x)
        if c == "t":
            return self.lit("true", True)
        if c == "f":
            return self.lit("false", False)
        if c == "n":
            return self.lit("null", None)
        if c == "N":
            return self.lit("NaN", float("nan"))
        if c == "I":
            return self.lit("Infinity", float("inf"))
        return self.number()


def loads(s, **kw):
    if type(s) is str:
        return json.loads(s, **kw)
    if kw:
        raise Unsupported("json.loads with options")
    r = _Reader(s)
    v = r.value()
    r.ws()
    if r.i != len(r.e):
        r.bad("Extra data")
    return v


def load(fp, **kw):
    return loads(rt.call(fp.read), **kw)


rt.MODELS.update({
    json.dumps: dumps, json.dump: dump, json.loads: loads, json.load: load,
    json.JSONEncoder.encode: enc_encode,
    json.JSONEncoder.iterencode: enc_iterencode,
})
