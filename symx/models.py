"""
Models of the builtin and library operations that are implemented in C
and thus cannot be executed on symbolic proxies natively.
"""

import re
from collections import OrderedDict
import struct as _struct
import hashlib as _hashlib
import zlib as _zlib
import base64 as _base64

import z3

from .core import Unsupported, PathAbort
from . import values as V
from .values import (SymInt, SymBool, SymFloat, SymBytes, SymStr, SymMemView,
                     eng, is_sym, is_symdeep, mkstr, mkbytes, mkint, mkbool,
                     elems_of, belem, from_unsigned, resize, b_and, b_or,
                     BW, CW)


def to_native(x):
    """ a native value where C code demands one.  Truncated enumeration
    beyond the soft cap is recorded as incomplete """
    if type(x) is SymStr or type(x) is SymBytes:
        return x.conc(eng().soft_cap)
    if type(x) is SymInt:
        return x.conc(eng().soft_cap)
    if type(x) is SymFloat:
        return x.conc()
    if type(x) is SymBool:
        return bool(x)
    return x


def deep_native(x, depth=6):
    t = type(x)
    if t in V.SYMTYPES:
        if t is SymMemView:
            return memoryview(deep_native(SymBytes(x.e)))
        return to_native(x)
    if not depth:
        return x
    if t is tuple:
        return tuple([deep_native(y, depth - 1) for y in x])
    if t is list:
        if any(is_symdeep(y) for y in x):
            return [deep_native(y, depth - 1) for y in x]
        return x
    if t is dict:
        if any(is_symdeep(k) or is_symdeep(v) for k, v in x.items()):
            return dict((deep_native(k, depth - 1), deep_native(v, depth - 1))
                        for k, v in x.items())
        return x
    if t is set or t is frozenset:
        if any(is_symdeep(y) for y in x):
            return t(deep_native(y, depth - 1) for y in x)
    return x


# ---------------------------------------------------------------------
# text

def z21(t):
    return t if t.size() == CW else z3.ZeroExt(CW - t.size(), t)


def decode(b, encoding="utf-8", errors="strict"):
    enc = str(encoding).lower().replace("_", "-")
    e = elems_of(b)
    if enc in ("utf-8", "utf8"):
        return decode_utf8(e, errors)
    if enc in ("latin-1", "latin1", "iso-8859-1"):
        return mkstr([x if type(x) is int else belem(z21(x)) for x in e])
    if enc in ("ascii", "us-ascii"):
        out = []
        for i, x in enumerate(e):
            if type(x) is int:
                bad = x > 127
            else:
                bad = eng().decide(z3.UGT(x, 127))
            if bad:
                if errors == "ignore":
                    continue
                if errors == "replace":
                    out.append(0xFFFD)
                    continue
                raise UnicodeDecodeError("ascii", b"\xff" * len(e), i, i + 1,
                                         "ordinal not in range(128)")
            out.append(x if type(x) is int else belem(z21(x)))
        return mkstr(out)
    if enc in ("utf-16-le", "utf-16le", "utf-16-be", "utf-16be"):
        return decode_utf16(e, enc.endswith("le"), errors)
    if enc in ("utf-16", "utf16") and (len(e) < 2 or all(
            type(x) is int for x in e[:2])):
        little = e[:2] != [0xFE, 0xFF] and tuple(e[:2]) != (0xFE, 0xFF)
        if tuple(e[:2]) in ((0xFE, 0xFF), (0xFF, 0xFE)):
            e = e[2:]
        return decode_utf16(e, little, errors)
    return to_native(b).decode(encoding, errors)


def decode_utf8(e, errors="strict"):
    """ CPython's decoder, one fork per byte class """

    en = eng()
    out = []
    i = 0
    n = len(e)

    def rng(x, lo, hi):
        if type(x) is int:
            return lo <= x <= hi
        return en.decide(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)))

    def bad(start, end, why):
        """ how many bytes more were used """
        if errors == "ignore":
            return
        if errors == "surrogatepass":
            if start + 2 < n and rng(e[start], 0xED, 0xED) and \
                    rng(e[start + 1], 0xA0, 0xBF) and \
                    rng(e[start + 2], 0x80, 0xBF):
                out.append(belem(
                    (bits(e[start], 4) << 12) | (bits(e[start + 1], 6) << 6)
                    | bits(e[start + 2], 6)))
                return 2
        if errors == "replace":
            out.append(0xFFFD)
            return
        if errors == "surrogateescape":
            for y in e[start:end]:
                out.append(0xDC00 + y if type(y) is int
                           else belem(z21(y) + 0xDC00))
            return
        raise UnicodeDecodeError("utf-8", b"\xff" * n, start, end, why)

    def bits(x, k):
        if type(x) is int:
            return z3.BitVecVal(x & ((1 << k) - 1), CW)
        return z21(z3.Extract(k - 1, 0, x))

    while i < n:
        x = e[i]
        if type(x) is int and x < 128:
            out.append(x)
            i += 1
            continue
        if rng(x, 0, 0x7F):
            out.append(belem(z21(x)))
            i += 1
            continue
        if rng(x, 0xC2, 0xDF):
            if i + 1 >= n:
                bad(i, n, "unexpected end of data")
                i += 1
                continue
            if not rng(e[i + 1], 0x80, 0xBF):
                bad(i, i + 1, "invalid continuation byte")
                i += 1
                continue
            out.append(belem((bits(x, 5) << 6) | bits(e[i + 1], 6)))
            i += 2
            continue
        if rng(x, 0xE0, 0xEF):
            lo, hi = 0x80, 0xBF
            if rng(x, 0xE0, 0xE0):
                lo = 0xA0
            elif rng(x, 0xED, 0xED):
                hi = 0x9F
            if i + 1 >= n:
                bad(i, n, "unexpected end of data")
                i += 1
                continue
            if not rng(e[i + 1], lo, hi):
                i += 1 + (bad(i, i + 1, "invalid continuation byte") or 0)
                continue
            if i + 2 >= n:
                bad(i, n, "unexpected end of data")
                i += 2
                continue
            if not rng(e[i + 2], 0x80, 0xBF):
                bad(i, i + 2, "invalid continuation byte")
                i += 2
                continue
            out.append(belem((bits(x, 4) << 12) | (bits(e[i + 1], 6) << 6)
                             | bits(e[i + 2], 6)))
            i += 3
            continue
        if rng(x, 0xF0, 0xF4):
            lo, hi = 0x80, 0xBF
            if rng(x, 0xF0, 0xF0):
                lo = 0x90
            elif rng(x, 0xF4, 0xF4):
                hi = 0x8F
            stop = None
            for k in (1, 2, 3):
                if i + k >= n:
                    stop = (k, "unexpected end of data")
                    break
                a, b = (lo, hi) if k == 1 else (0x80, 0xBF)
                if not rng(e[i + k], a, b):
                    stop = (k, "invalid continuation byte")
                    break
            if stop:
                bad(i, i + stop[0], stop[1])
                i += stop[0]
                continue
            out.append(belem((bits(x, 3) << 18) | (bits(e[i + 1], 6) << 12)
                             | (bits(e[i + 2], 6) << 6) | bits(e[i + 3], 6)))
            i += 4
            continue
        bad(i, i + 1, "invalid start byte")
        i += 1
    return mkstr(out)


def bterm8(x):
    return z3.BitVecVal(x, 8) if type(x) is int else x


def decode_utf16(e, little, errors):
    en = eng()
    out = []
    n = len(e)

    def unit(i):
        a, b = e[i], e[i + 1]
        if little:
            a, b = b, a
        if type(a) is int and type(b) is int:
            return a << 8 | b
        return z3.simplify(z3.ZeroExt(CW - 16, z3.Concat(bterm8(a),
                                                         bterm8(b))))

    def rng(u, lo, hi):
        if type(u) is int:
            return lo <= u <= hi
        return en.decide(z3.And(z3.UGE(u, lo), z3.ULE(u, hi)))

    def bad(start, end, why, u=None):
        if errors == "ignore":
            return
        if errors == "replace":
            out.append(0xFFFD)
            return
        if errors == "surrogatepass" and u is not None:
            out.append(u if type(u) is int else belem(u))
            return
        raise UnicodeDecodeError("utf-16", b"\xff" * n, start, end, why)
    i = 0
    while i < n:
        if i + 1 >= n:
            bad(i, n, "truncated data")
            break
        u = unit(i)
        i += 2
        if not rng(u, 0xD800, 0xDFFF):
            out.append(u if type(u) is int else belem(u))
        elif rng(u, 0xDC00, 0xDFFF):
            bad(i - 2, i, "illegal encoding", u)
        elif i + 1 >= n:
            # a high surrogate and then the end
            if errors == "surrogatepass" and i == n:
                bad(i - 2, i, "unexpected end of data", u)
            else:
                bad(i - 2, n, "unexpected end of data")
                break
        else:
            v = unit(i)
            if rng(v, 0xDC00, 0xDFFF):
                i += 2
                if type(u) is int and type(v) is int:
                    out.append(0x10000 + ((u & 0x3FF) << 10 | (v & 0x3FF)))
                else:
                    out.append(belem(0x10000 + (
                        ((u & 0x3FF) << 10) | (v & 0x3FF))))
            else:
                bad(i - 2, i, "illegal UTF-16 surrogate", u)
    return mkstr(out)


def encode_utf16(e, little, errors, bom=False):
    en = eng()
    out = []

    def unit(u):
        if type(u) is int:
            a, b = u >> 8, u & 255
        else:
            a, b = (belem(z3.Extract(15, 8, u)), belem(z3.Extract(7, 0, u)))
        out.extend((b, a) if little else (a, b))
    if bom:
        unit(0xFEFF)
    for i, x in enumerate(e):
        if type(x) is int:
            wide, sur = x > 0xFFFF, 0xD800 <= x <= 0xDFFF
        else:
            x = z21(x)
            wide = en.decide(z3.UGT(x, 0xFFFF))
            sur = not wide and en.decide(
                z3.And(z3.UGE(x, 0xD800), z3.ULE(x, 0xDFFF)))
        if wide and type(x) is int:
            unit(0xD800 + ((x - 0x10000) >> 10))
            unit(0xDC00 + ((x - 0x10000) & 0x3FF))
        elif wide:
            y = x - 0x10000
            unit(0xD800 + z3.LShR(y, 10))
            unit(0xDC00 + (y & 0x3FF))
        elif sur and errors == "ignore":
            continue
        elif sur and errors == "replace":
            unit(0x3F)
        elif sur and errors != "surrogatepass":
            raise UnicodeEncodeError("utf-16", "\ud800" * len(e), i, i + 1,
                                     "surrogates not allowed")
        else:
            unit(x)
    return mkbytes(out)


def encode(s, encoding="utf-8", errors="strict"):
    enc = str(encoding).lower().replace("_", "-")
    e = elems_of(s)
    en = eng()
    out = []
    if enc in ("utf-8", "utf8"):
        for i, x in enumerate(e):
            if type(x) is int:
                try:
                    out.extend(chr(x).encode("utf-8", errors))
                except UnicodeEncodeError as ex:
                    raise UnicodeEncodeError("utf-8", "\ud800" * len(e),
                                             i, i + 1, ex.reason)
                continue

            def low(t, hi, lo):
                return z3.ZeroExt(8 - (hi - lo + 1), z3.Extract(hi, lo, t))
            if en.decide(z3.ULT(x, 0x80)):
                out.append(belem(z3.Extract(7, 0, x)))
            elif en.decide(z3.ULT(x, 0x800)):
                out.append(belem(low(x, 10, 6) | 0xC0))
                out.append(belem(low(x, 5, 0) | 0x80))
            elif en.decide(z3.ULT(x, 0x10000)):
                if en.decide(z3.And(z3.UGE(x, 0xD800), z3.ULE(x, 0xDFFF))):
                    if errors == "strict":
                        raise UnicodeEncodeError(
                            "utf-8", "\ud800" * len(e), i, i + 1,
                            "surrogates not allowed")
                    if errors != "surrogatepass":
                        c = chr(en.concretize(x, en.soft_cap))
                        out.extend(c.encode("utf-8", errors))
                        continue
                out.append(belem(low(x, 15, 12) | 0xE0))
                out.append(belem(low(x, 11, 6) | 0x80))
                out.append(belem(low(x, 5, 0) | 0x80))
            else:
                out.append(belem(low(x, 20, 18) | 0xF0))
                out.append(belem(low(x, 17, 12) | 0x80))
                out.append(belem(low(x, 11, 6) | 0x80))
                out.append(belem(low(x, 5, 0) | 0x80))
        return mkbytes(out)
    if enc in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1"):
        top = 127 if enc.startswith(("a", "u")) else 255
        for i, x in enumerate(e):
            bad = x > top if type(x) is int else \
                en.decide(z3.UGT(x, top))
            if bad:
                if errors == "ignore":
                    continue
                if errors == "replace":
                    out.append(63)
                    continue
                if errors in ("backslashreplace", "xmlcharrefreplace"):
                    if type(x) is int:
                        out.extend(chr(x).encode(enc, errors))
                        continue
                    x = from_unsigned(z21(x))
                    if errors == "xmlcharrefreplace":
                        t = cat(["&#", int_to_dec(x), ";"])
                    elif x <= 0xFF:
                        t = cat(["\\x", hexpad(x, 2)])
                    elif x <= 0xFFFF:
                        t = cat(["\\u", hexpad(x, 4)])
                    else:
                        t = cat(["\\U", hexpad(x, 8)])
                    out.extend(y if type(y) is int else
                               belem(z3.Extract(7, 0, y))
                               for y in elems_of(t))
                    continue
                raise UnicodeEncodeError(enc, "\ud800" * len(e), i, i + 1,
                                         "ordinal not in range")
            out.append(x if type(x) is int else belem(z3.Extract(7, 0, x)))
        return mkbytes(out)
    if enc in ("utf-16-le", "utf-16le", "utf-16-be", "utf-16be"):
        return encode_utf16(e, enc.endswith("le"), errors)
    if enc in ("utf-16", "utf16"):
        return encode_utf16(e, True, errors, True)
    return to_native(s).encode(encoding, errors)


def hexdigit(nib, upper=False):
    """ character element for a 4 bit term """
    t = z3.ZeroExt(CW - 4, nib)
    a = 65 if upper else 97
    return belem(z3.If(z3.ULT(t, 10), t + 48, t + (a - 10)))


def int_to_dec(x):
    """ decimal str of int or SymInt """
    if type(x) is SymBool:
        x = x._int()
    if type(x) is not SymInt:
        return str(int(x))
    en = eng()
    cache = en.extra.setdefault("dec", {})
    key = x.t.get_id()
    if key in cache:
        return cache[key]
    en.keep.append(x.t)
    orig = x
    sign = ()
    if x.lo < 0:
        if x < 0:
            sign = (45,)
            x = mkint(-resize(x.t, x.t.size() + 1), 1, -x.lo)
        else:
            x = mkint(x.t, 0, x.hi) if x.hi > 0 else 0
    if type(x) is not SymInt:
        r = mkstr(sign + tuple(map(ord, str(x))))
        cache[key] = r
        return r
    k = 1
    while True:
        if x.hi < 10 ** k:
            break
        if x < 10 ** k:
            break
        k += 1
    if k == 1:
        r = mkstr(sign + (belem(resize(x.t, CW) + 48),))
    else:
        w = max(V.need(0, 10 ** k), x.t.size()) + 1
        ds = [en.fresh_bv("dec", 4) for _i in range(k)]
        total = z3.BitVecVal(0, w)
        for i, d in enumerate(ds):      # most significant first
            total = total + z3.ZeroExt(w - 4, d) * (10 ** (k - 1 - i))
        en.define(z3.And([z3.ULE(d, 9) for d in ds] + [ds[0] != 0] +
                         [total == resize(x.t, w)]))
        r = mkstr(sign + tuple([belem(z3.ZeroExt(CW - 4, d) + 48)
                                for d in ds]))
    cache[key] = r
    en.extra.setdefault("undec", {})[id(r)] = (r, orig)
    return r


def hexpad(x, n):
    """ exactly n lower case hex digits of a SymInt below 16 ** n """
    t = V.iterm(x, 4 * n + 1)
    return mkstr([hexdigit(z3.Extract(4 * i + 3, 4 * i, t))
                  for i in range(n - 1, -1, -1)])


def int_to_hex(x, upper=False):
    """ hex digits of int or SymInt, with sign, no prefix """
    if type(x) is not SymInt:
        return format(int(x), "X" if upper else "x")
    sign = ()
    if x.lo < 0:
        if x < 0:
            sign = (45,)
            x = -x
    k = 1
    while x.hi >= 16 ** k:
        if x < 16 ** k:
            break
        k += 1
    t = resize(x.t, 4 * k + 1)
    out = []
    for i in range(k - 1, -1, -1):
        out.append(hexdigit(z3.Extract(4 * i + 3, 4 * i, t), upper))
    return mkstr(sign + tuple(out))


def repr_elem(x, quote):
    """ the repr of one character, as elements """
    en = eng()
    if type(x) is int:
        r = repr(chr(x) + ("'" if quote == 34 else ""))[1:-1]
        if quote == 34:
            r = r[:-1]
        elif x == 39:
            r = "\\'"
        elif x == 34:
            r = '"'
        return tuple(map(ord, r))
    plain = z3.And(z3.UGE(x, 32), z3.ULE(x, 126), x != 92, x != 39, x != 34)
    if en.decide(plain):
        return (x,)
    return repr_elem(en.concretize(x, None if x.size() == 8 else 200), quote)


def repr_str(s):
    if type(s) is not SymStr:
        return repr(s)
    q = 39
    if "'" in s:
        if '"' not in s:
            q = 34
    out = [q]
    for x in s.e:
        out.extend(repr_elem(x, q))
    out.append(q)
    return mkstr(out)


def repr_bytes(s):
    if type(s) is SymMemView:
        return "<memory at 0x7f0000000000>"
    if type(s) is not SymBytes:
        return repr(s)
    q = 39
    if s.find(b"'") >= 0 and s.find(b'"') < 0:
        q = 34
    out = [98, q]
    en = eng()
    for x in s.e:
        if type(x) is not int:
            plain = z3.And(z3.UGE(x, 32), z3.ULE(x, 126), x != 92, x != 39,
                           x != 34)
            if en.decide(plain):
                out.append(belem(z21(x)))
                continue
            x = en.concretize(x)
        if x == 39:
            out.extend((39,) if q == 34 else (92, 39))
        elif x == 34:
            out.append(34)
        else:
            out.extend(map(ord, repr(bytes([x]) + b"'")[2:-2]
                           if x != 39 else "'"))
    out.append(q)
    return mkstr(out)


def m_repr(x):
    t = type(x)
    if t is SymStr:
        return repr_str(x)
    if t is SymBytes:
        return repr_bytes(x)
    if t is SymInt:
        return int_to_dec(x)
    if t is SymBool:
        return "True" if x else "False"
    if t is SymFloat:
        return repr(x.conc())
    if is_symdeep(x):
        if t is tuple:
            if len(x) == 1:
                return "(" + m_repr(x[0]) + ",)"
            return cat(["("] + _commas(map(m_repr, x)) + [")"])
        if t is list:
            return cat(["["] + _commas(map(m_repr, x)) + ["]"])
        if t is set and x:
            return cat(["{"] + _commas(map(m_repr, x)) + ["}"])
        if t is dict:
            return cat(["{"] + _commas([
                cat([m_repr(k), ": ", m_repr(v)])
                for k, v in x.items()]) + ["}"])
    r = type(x).__repr__
    import types
    if isinstance(r, types.FunctionType):
        return r(x)
    if r is OrderedDict.__repr__:
        return repr_odict(x)
    return repr(x)


def repr_odict(x):
    """ as CPython 3.12 has it """
    if not len(x):
        return type(x).__name__ + "()"
    return cat([type(x).__name__, "({"] + _commas([
        cat([m_repr(k), ": ", m_repr(v)])
        for k, v in OrderedDict.items(x)]) + ["})"])


def _commas(parts):
    out = []
    for p in parts:
        if out:
            out.append(", ")
        out.append(p)
    return out


def cat(parts):
    out = []
    for p in parts:
        out.extend(elems_of(p))
    return mkstr(out)


def m_str(*a, **k):
    """ the str() constructor """
    import types
    if not a and not k:
        return ""
    x = a[0] if a else k["object"]
    if len(a) > 1 or k:
        kw = dict(k)
        kw.pop("object", None)
        if isinstance(x, (bytes, bytearray, memoryview)):
            return decode(x, *a[1:], **kw)
        return str(*a, **k)
    t = type(x)
    if t is SymStr:
        return x
    if t in V.SYMTYPES:
        return m_repr(x)
    if t in (tuple, list, set, dict):
        return m_repr(x)
    if isinstance(x, BaseException) and is_symdeep(x.args):
        if t.__str__ in (Exception.__str__, BaseException.__str__):
            if len(x.args) == 1:
                return m_str(x.args[0])
            return m_repr(x.args)
    s = t.__str__
    if isinstance(s, types.FunctionType):
        return s(x)
    if isinstance(t.__repr__, types.FunctionType) and \
            s in (object.__str__, ):
        return t.__repr__(x)
    if s is object.__str__ and t.__repr__ is OrderedDict.__repr__:
        return m_repr(x)
    return str(x)


_SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?"
                   r"(?:\.(\d+))?([a-zA-Z%])?$", re.S)


def format_value(x, spec=""):
    """ format(x, spec) """
    if type(spec) is SymStr:
        spec = to_native(spec)
    t = type(x)
    if t not in V.SYMTYPES:
        import types
        f = t.__format__
        if spec == "" and f is object.__format__:
            return m_str(x)
        if isinstance(f, types.FunctionType):
            return f(x, spec)
        if spec == "" and t in (tuple, list, dict, set):
            return m_str(x)
        return format(x, spec)
    if spec == "":
        return m_str(x)
    m = _SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    fill, align, sign, alt, zero, width, comma, prec, kind = m.groups()
    if t is SymStr or t is SymBool:
        if kind not in (None, "s"):
            raise ValueError("Unknown format code")
        body = m_str(x)
        if prec is not None:
            body = body[:int(prec)]
        align = align or "<"
        neg = False
    elif t is SymInt:
        if comma or kind not in (None, "d", "x", "X", "i", "n"):
            return format(x.conc(eng().soft_cap), spec)
        neg = x.lo < 0 and bool(x < 0)
        mag = -x if neg else x
        body = int_to_hex(mag, kind == "X") if kind in ("x", "X") \
            else int_to_dec(mag)
        pre = "-" if neg else (sign if sign and sign in "+ " else "")
        if alt and kind in ("x", "X"):
            pre += "0" + kind
        if zero and not align:
            fill, align = "0", "="
        align = align or ">"
        if align == "=":
            w = int(width or 0) - len(pre)
            return pre + (body if len(body) >= w
                          else body.rjust(w, fill or " ")
                          if is_sym(body) else body.rjust(w, fill or " "))
        body = pre + body
    else:
        return format(x.conc() if t is SymFloat else to_native(x), spec)
    if width:
        w = int(width)
        f = fill or (zero and "0") or " "
        if align == "<":
            body = body.ljust(w, f)
        elif align == ">":
            body = body.rjust(w, f)
        else:
            body = body.center(w, f)
    return body


_PCT = re.compile(r"%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?"
                  r"[hlL]?(.)", re.S)


def percent(tmpl, args):
    """ tmpl % args """

    isb = isinstance(tmpl, (bytes, bytearray))
    if type(tmpl) not in V.SYMTYPES and not _fmt_needs(args):
        return tmpl % args

    if is_sym(tmpl):
        # split the template at literal percent signs
        e = list(tmpl.e)
        en = eng()
        for i, x in enumerate(e):
            if type(x) is not int:
                if en.decide(x == 37):
                    return to_native(tmpl) % deep_native(args)
        # symbolic characters are known not to be "%": hide them
        text = "".join([chr(x) if type(x) is int else chr(0x10F000 + i)
                        for i, x in enumerate(e)])
        hidden = dict((0x10F000 + i, x) for i, x in enumerate(e)
                      if type(x) is not int)
    else:
        text = tmpl.decode("latin-1") if isb else tmpl
        hidden = {}

    out = []

    def lit(s):
        for c in s:
            c = ord(c)
            out.append(hidden.get(c, c))

    mapping = args if isinstance(args, dict) else None
    if isinstance(args, tuple):
        seq = list(args)
    else:
        seq = [args]
    used = 0
    pos = 0
    for m in _PCT.finditer(text):
        lit(text[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append(37)
            continue
        if key is not None:
            from . import rt
            val = rt.getitem(mapping, key)
        else:
            if width == "*":
                width = str(int(seq[used]))
                used += 1
            if prec == "*":
                prec = str(int(seq[used]))
                used += 1
            if used >= len(seq):
                raise TypeError("not enough arguments for format string")
            val = seq[used]
            used += 1
        if isb:
            if conv in "sb":
                val = _as_bytes_arg(val)
                body = val[:int(prec)] if prec else val
            else:
                body = _conv_number(val, conv, flags, prec)
                body = encode(body, "latin-1")
        elif conv == "s":
            body = m_str(val)
            body = body[:int(prec)] if prec else body
        elif conv in "ra":
            body = m_repr(val)
            body = body[:int(prec)] if prec else body
        elif conv == "c":
            body = val if isinstance(val, str) else m_chr(val)
        else:
            body = _conv_number(val, conv, flags, prec)
        if width:
            w = int(width)
            if "-" in flags:
                body = body.ljust(w)
            elif "0" in flags and conv not in "srac":
                body = body.zfill(w)
            else:
                body = body.rjust(w)
        out.extend(elems_of(body))
    lit(text[pos:])
    if mapping is None and used < len(seq) and not (
            isinstance(args, dict)):
        if isinstance(args, tuple) or used == 0:
            raise TypeError("not all arguments converted during string "
                            "formatting")
    return mkbytes(out) if isb else mkstr(out)


def _as_bytes_arg(val):
    if isinstance(val, (bytes, bytearray, memoryview)):
        return mkbytes(elems_of(val))
    raise TypeError("%b requires a bytes-like object")


def _conv_number(val, conv, flags, prec):
    if conv in "diu":
        if type(val) is SymFloat:
            val = int(val.conc())
        if isinstance(val, str) or not isinstance(val, (int, float)):
            raise TypeError("%%%s format: a real number is required, not %s"
                            % (conv, type(val).__name__))
        if type(val) is SymInt or type(val) is SymBool:
            s = int_to_dec(val)
            if prec and len(s) < int(prec):
                s = s.zfill(int(prec))
        else:
            s = "%d" % val if not prec else ("%." + prec + "d") % val
    elif conv in "xX":
        if not isinstance(val, int):
            raise TypeError("%%%s format: an integer is required" % conv)
        s = int_to_hex(val, conv == "X")
        if "#" in flags:
            s = "0" + conv + s
    elif conv in "oeEfFgG":
        if isinstance(val, (str, bytes)) or not isinstance(val,
                                                           (int, float)):
            raise TypeError("must be real number, not %s"
                            % type(val).__name__)
        fl = "".join(c for c in flags if c in "#+ ")
        return ("%" + fl + ("." + prec if prec else "") + conv) \
            % deep_native(val)
    else:
        raise ValueError("unsupported format character %r" % conv)
    if "+" in flags and not s.startswith("-"):
        s = "+" + s
    elif " " in flags and not s.startswith("-"):
        s = " " + s
    return s


def _fmt_needs(args):
    """ must the formatting go through the model? """
    import types
    if is_symdeep(args):
        return True
    seq = args if isinstance(args, tuple) else (args,)
    for a in seq:
        t = type(a)
        if t in (str, int, bytes, float, bool, type(None)):
            continue
        if isinstance(a, (list, tuple, set, frozenset, dict)):
            return True
        if isinstance(a, BaseException):
            return True
        if isinstance(t.__str__, types.FunctionType) or \
                isinstance(t.__repr__, types.FunctionType):
            return True
    return False


def str_format(tmpl, args, kw):
    import string
    if is_sym(tmpl):
        tmpl = to_native(tmpl)
    if not (_fmt_needs(tuple(args)) or _fmt_needs(tuple(kw.values()))):
        return tmpl.format(*args, **kw)
    from . import rt
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r"^([^.\[]*)(.*)$", field, re.S)
        first, rest = m.groups()
        if first == "":
            val = args[auto]
            auto += 1
        elif first.isdigit():
            val = args[int(first)]
        else:
            val = kw[first]
        for a, b in re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
            if a:
                val = getattr(val, a)
            else:
                val = rt.getitem(val, int(b) if b.isdigit() else b)
        if conv == "r":
            val = m_repr(val)
        elif conv == "s":
            val = m_str(val)
        if spec and "{" in spec:
            def sub(mm):
                nonlocal auto
                name = mm.group(1)
                if name == "":
                    v = args[auto]
                    auto += 1
                elif name.isdigit():
                    v = args[int(name)]
                else:
                    v = kw[name]
                return str(deep_native(v))
            spec = re.sub(r"\{(\w*)\}", sub, spec)
        out.append(format_value(val, spec or ""))
    return cat(out)


def m_chr(x):
    if type(x) is SymBool:
        x = int(x)
    if type(x) is not SymInt:
        return chr(x)
    if x.lo < 0 or x.hi > 0x10FFFF:
        if not (0 <= x and x <= 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        x = SymInt(x.t, max(0, x.lo), min(0x10FFFF, x.hi))
    w = x.t.size()
    t = z3.Extract(CW - 1, 0, x.t) if w > CW else \
        (z3.ZeroExt(CW - w, x.t) if w < CW else x.t)
    return mkstr((belem(t),))


def m_ord(x):
    if type(x) is SymStr:
        if len(x.e) != 1:
            raise TypeError("ord() expected a character, but string of "
                            "length %d found" % len(x.e))
        return from_unsigned(x.e[0], 0, 0x10FFFF)
    if type(x) is SymBytes:
        if len(x.e) != 1:
            raise TypeError("ord() expected a character")
        return from_unsigned(x.e[0])
    return ord(x)


def str_to_int(s, base=10):
    """ int(s, base) for a symbolic string """
    ent = eng().extra.get("undec", {}).get(id(s))
    if ent is not None and ent[0] is s and base == 10:
        return ent[1]
    if type(s) is SymBytes:
        s = decode(s, "latin-1")
    s = s.strip()
    e = list(elems_of(s))
    en = eng()
    neg = False

    def is_in(x, ranges):
        if type(x) is int:
            return any(a <= x <= b for a, b in ranges)
        return en.decide(b_or([z3.And(z3.UGE(x, a), z3.ULE(x, b))
                               for a, b in ranges]))
    if e and is_in(e[0], ((43, 43), (45, 45))):
        neg = is_in(e[0], ((45, 45),))
        e = e[1:]
    if base == 16 and len(e) > 1 and is_in(e[0], ((48, 48),)) and \
            is_in(e[1], ((120, 120), (88, 88))):
        e = e[2:]
    if not e:
        raise ValueError("invalid literal for int() with base %d" % base)
    total = 0
    for x in e:
        if is_in(x, ((48, 57),)):
            d = x - 48 if type(x) is int else \
                mkint(z3.ZeroExt(1, z3.Extract(3, 0, x)), 0, 9)
        elif base == 16 and is_in(x, ((97, 102), (65, 70))):
            d = int(chr(x), 16) if type(x) is int else \
                mkint(z3.ZeroExt(2, z3.Extract(3, 0, x)) + 9, 10, 15)
        else:
            if type(x) is not int and en.decide(z3.UGT(x, 127)):
                raise Unsupported("int() of non-ASCII digits")
            raise ValueError("invalid literal for int() with base %d" % base)
        total = total * base + d
    return -total if neg else total


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._int()
    if t is SymFloat:
        return int(x.conc())
    if t is SymStr or t is SymBytes:
        base = a[1] if len(a) > 1 else k.get("base", 10)
        return str_to_int(x, int(base))
    return int(*deep_native(a), **k)


def m_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    if isinstance(x, str):
        return encode(x, *a[1:], **k)
    if type(x) is SymBytes:
        return x
    if type(x) is SymMemView:
        return mkbytes(x.e)
    if type(x) is SymInt:
        return bytes(x.conc(eng().soft_cap))
    if isinstance(x, (int, bytes, bytearray, memoryview)):
        return bytes(*a, **k)
    if hasattr(x, "__bytes__"):
        return x.__bytes__()
    out = []
    for y in x:
        if type(y) is SymInt:
            if not (y.lo >= 0 and y.hi < 256):
                if not (0 <= y and y < 256):
                    raise ValueError("bytes must be in range(0, 256)")
            out.append(belem(resize(y.t, 8)))
        else:
            out.extend(bytes([y]))
    return mkbytes(out)


def m_memoryview(x):
    if type(x) is SymBytes:
        return SymMemView(x.e)
    if type(x) is SymMemView:
        return x
    return memoryview(x)


def m_bytearray(*a):
    raise Unsupported("symbolic bytearray")


def int_from_bytes(b, byteorder="big", signed=False):
    e = elems_of(b)
    if byteorder == "little":
        e = e[::-1]
    return _uint(e, signed)


def _uint(e, signed=False):
    if not e:
        return 0
    if all(type(x) is int for x in e):
        return int.from_bytes(bytes(e), "big", signed=signed)
    parts = [z3.BitVecVal(x, 8) if type(x) is int else x for x in e]
    t = parts[0] if len(parts) == 1 else z3.Concat(parts)
    n = 8 * len(e)
    if signed:
        return mkint(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return from_unsigned(z3.simplify(t))


# ---------------------------------------------------------------------
# struct

_SIZES = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4,
          "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "s": 1}

_structs = {}


class SymStruct(object):
    """ struct.Struct for standard-size formats; repeat counts may be
    symbolic """

    def __init__(self, fmt):
        if isinstance(fmt, (bytes, bytearray)):
            fmt = decode(fmt, "ascii") if is_sym(fmt) else fmt.decode()
        self.format = fmt
        self.native = None
        if type(fmt) is SymStr:
            self._parse_sym(fmt)
        else:
            try:
                self.native = _struct.Struct(fmt)
            except _struct.error:
                raise
            if fmt[:1] not in (">", "<", "!"):
                if any(c in fmt for c in "hHiIlLqQfdnNP") or \
                        fmt[:1] == "=":
                    self.order = "little"
                else:
                    self.order = "big"
            else:
                self.order = "little" if fmt[0] == "<" else "big"
            self.items = []
            body = fmt.lstrip("<>!=@")
            for cnt, code in re.findall(r"\s*(\d*)([a-zA-Z?])", body):
                self.items.append((int(cnt) if cnt else None, code))
            self.size = self.native.size

    def _parse_sym(self, fmt):
        e = list(fmt.e)
        first = e[0]
        self.order = "big"
        if type(first) is int and chr(first) in "<>!=@":
            if chr(first) not in ">!":
                self.order = "little"
            e = e[1:]
        elif type(first) is not int:
            raise Unsupported("symbolic struct byte order")
        self.items = []
        num = []
        for x in e:
            if type(x) is int and not chr(x).isdigit():
                c = chr(x)
                if c.isspace():
                    continue
                if num:
                    s = mkstr(num)
                    n = str_to_int(s) if is_sym(s) else int(s)
                else:
                    n = None
                if c not in _SIZES:
                    raise _struct.error("bad char in struct format")
                self.items.append((n, c))
                num = []
            elif type(x) is int:
                num.append(x)
            else:
                en = eng()
                if not en.decide(z3.And(z3.UGE(x, 48), z3.ULE(x, 57))):
                    raise Unsupported("symbolic struct code")
                num.append(x)
        self.size = 0
        for n, c in self.items:
            self.size = self.size + (1 if n is None else n) * _SIZES[c]

    def unpack(self, data):
        e = elems_of(data)
        if not (self.size == len(e)):
            raise _struct.error("unpack requires a buffer of %d bytes"
                                % deep_native(self.size))
        return self._unpack(e)

    def unpack_from(self, data, offset=0):
        offset = int(offset)
        e = elems_of(data)
        if offset < 0:
            if offset + len(e) < 0:
                raise _struct.error("offset out of range")
            offset += len(e)
        if len(e) - offset < self.size:
            raise _struct.error("unpack_from requires a buffer of at least "
                                "more bytes")
        n = int(self.size)
        return self._unpack(e[offset:offset + n])

    def iter_unpack(self, data):
        n = int(self.size)
        e = elems_of(data)
        if n == 0 or len(e) % n:
            raise _struct.error("iterative unpacking requires a buffer of a "
                                "multiple of %d bytes" % n)
        for i in range(0, len(e), n):
            yield self._unpack(e[i:i + n])

    def _unpack(self, e):
        if self.native is not None and all(type(x) is int for x in e):
            return self.native.unpack(bytes(e))
        out = []
        pos = 0
        for cnt, code in self.items:
            n = 1 if cnt is None else int(cnt)
            if code == "s":
                out.append(mkbytes(e[pos:pos + n]))
                pos += n
                continue
            if code == "x":
                pos += n
                continue
            sz = _SIZES[code]
            for _i in range(n):
                part = e[pos:pos + sz]
                pos += sz
                if self.order == "little":
                    part = part[::-1]
                if code == "c":
                    out.append(mkbytes(part))
                elif code == "?":
                    out.append(mkbool(b_or([_uint(part) != 0])))
                elif code in "fd":
                    if all(type(x) is int for x in part):
                        out.append(_struct.unpack(">" + code,
                                                  bytes(part))[0])
                    else:
                        ps = [z3.BitVecVal(x, 8) if type(x) is int else x
                              for x in part]
                        out.append(SymFloat(z3.simplify(z3.Concat(ps))))
                else:
                    out.append(_uint(part, code in "bhilq"))
        return tuple(out)

    def pack(self, *args):
        if not any(map(is_sym, args)):
            return self.native.pack(*args)
        out = []
        args = list(args)
        for cnt, code in self.items:
            n = 1 if cnt is None else int(cnt)
            if code == "s":
                v = elems_of(args.pop(0))[:n]
                out.extend(v + (0,) * (n - len(v)))
                continue
            if code == "x":
                out.extend((0,) * n)
                continue
            for _i in range(n):
                v = args.pop(0)
                sz = _SIZES[code]
                if code == "c":
                    out.extend(elems_of(v))
                elif code in "fd":
                    if type(v) is SymFloat and v.bits.size() == 8 * sz:
                        p = [belem(z3.Extract(8 * i + 7, 8 * i, v.bits))
                             for i in range(sz - 1, -1, -1)]
                    else:
                        p = list(_struct.pack(">" + code, deep_native(v)))
                    out.extend(p if self.order == "big" else p[::-1])
                elif type(v) is SymInt:
                    signed = code in "bhilq"
                    lo, hi = ((-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1)
                              if signed else (0, (1 << (8 * sz)) - 1))
                    if not (lo <= v and v <= hi):
                        raise _struct.error("argument out of range")
                    out.extend(elems_of(SymInt.to_bytes(
                        v, sz, self.order, signed)))
                else:
                    o = ">" if self.order == "big" else "<"
                    out.extend(_struct.pack(o + code, v))
        return mkbytes(out)

    def __repr__(self):
        return "Struct(%r)" % (self.format,)


def _st(fmt):
    if type(fmt) is SymStr:
        return SymStruct(fmt)
    s = _structs.get(fmt)
    if s is None:
        s = _structs[fmt] = SymStruct(fmt)
    return s


def struct_unpack(fmt, data):
    return _st(fmt).unpack(data)


def struct_unpack_from(fmt, buffer, offset=0):
    return _st(fmt).unpack_from(buffer, offset)


def struct_pack(fmt, *args):
    return _st(fmt).pack(*args)


def struct_calcsize(fmt):
    return _st(fmt).size


def struct_iter_unpack(fmt, data):
    return _st(fmt).iter_unpack(data)


# ---------------------------------------------------------------------
# digests: collision-free functions of their input

class SymHash(object):

    def __init__(self, name, data=b""):
        h = _hashlib.new(name)
        self.name = h.name
        self.digest_size = h.digest_size
        self.block_size = h.block_size
        self._e = []
        if len(data):
            self.update(data)

    def update(self, data):
        if isinstance(data, str):
            raise TypeError("Strings must be encoded before hashing")
        self._e.extend(elems_of(data))

    def copy(self):
        c = SymHash(self.name)
        c._e = list(self._e)
        return c

    def digest(self):
        return digest_of(self.name, tuple(self._e))

    def hexdigest(self):
        d = self.digest()
        return d.hex()


def digest_of(name, e):
    """ the digest of the elements e: an unknown value, of which three
    bytes vary and the others are fixed per algorithm.  For every pair of
    inputs of one algorithm, equal inputs have equal outputs and different
    inputs have different outputs """

    size = _hashlib.new(name).digest_size
    en = eng()
    table = en.hashes.setdefault(name, [])
    for ie, out in table:
        if len(ie) == len(e) and V.seq_eq(ie, e) is True:
            return out
    t = en.fresh_bv("hash_%s" % name.replace("-", ""), 24)
    fill = _hashlib.new(name, b"symx").digest()
    out = SymBytes(tuple([z3.Extract(23, 16, t), z3.Extract(15, 8, t),
                          z3.Extract(7, 0, t)]) + tuple(fill[3:]))
    new = []
    for ie, oe in table:
        same_out = V.seq_eq(elems_of(out)[:3], elems_of(oe)[:3])
        same_in = V.seq_eq(ie, e) if len(ie) == len(e) else False
        so = z3.BoolVal(same_out) if isinstance(same_out, bool) else same_out
        si = z3.BoolVal(same_in) if isinstance(same_in, bool) else same_in
        new.append(so == si)
    table.append((e, out))
    if new:
        en.define(z3.And(new))
    return out


def hash_ctor(name):
    def ctor(data=b"", **_k):
        return SymHash(name, data)
    ctor.__name__ = "sym_" + name
    return ctor


# ---------------------------------------------------------------------
# base64 and crc

def m_b64encode(data, altchars=None):
    if altchars is not None:
        return _base64.b64encode(to_native(data), altchars)
    e = elems_of(data)
    if all(type(x) is int for x in e):
        return _base64.b64encode(bytes(e))
    out = []
    for i in range(0, len(e), 3):
        grp = tuple(e[i:i + 3])
        if all(type(x) is int for x in grp):
            out.extend(_base64.b64encode(bytes(grp)))
            continue
        key = tuple([x if type(x) is int else (x.get_id(),) for x in grp])
        hit = _B64.get(key)
        if hit is None:
            if len(_B64) > 20000:
                _B64.clear()
            # the terms are kept along, so their ids stay theirs
            hit = _B64[key] = (grp, _b64group(grp))
        out.extend(hit[1])
    return mkbytes(out)


_B64 = {}


def _b64char(t):
    t = z3.simplify(t)
    w = z3.ZeroExt(2, t)
    return belem(z3.If(z3.ULT(w, 26), w + 65,
                       z3.If(z3.ULT(w, 52), w + 71,
                             z3.If(z3.ULT(w, 62), w - 4,
                                   z3.If(w == 62, z3.BitVecVal(43, 8),
                                         z3.BitVecVal(47, 8))))))


def _b64group(grp):
    ts = [z3.BitVecVal(x, 8) if type(x) is int else x for x in grp]
    while len(ts) < 3:
        ts.append(z3.BitVecVal(0, 8))
    w = z3.Concat(ts)
    return [_b64char(z3.Extract(23 - 6 * k, 18 - 6 * k, w))
            if k <= len(grp) else 61 for k in range(4)]


_CRC = None


def _crc_table():
    global _CRC
    if _CRC is None:
        _CRC = []
        for n in range(256):
            c = n
            for _k in range(8):
                c = (c >> 1) ^ 0xEDB88320 if c & 1 else c >> 1
            _CRC.append(c)
    return _CRC


_CRCTAB = []
_CRCFORM = {}


def _crc_step(c, byte):
    if not _CRCTAB:
        for i in range(256):
            x = i
            for _k in range(8):
                x = (x >> 1) ^ (0xEDB88320 if x & 1 else 0)
            _CRCTAB.append(x)
    return _CRCTAB[(c ^ byte) & 0xFF] ^ (c >> 8)


def m_crc32(data, value=0):
    """ the checksum is affine over the bits: const ^ sum of the columns
    of those bits that are set """
    if not is_sym(data) and not is_sym(value):
        return _zlib.crc32(data, value)
    if is_sym(value):
        t = V.iterm(value, 33)
        form = _CRCFORM.get(t.get_id())
        if form is None:
            t32 = z3.simplify(z3.Extract(31, 0, t))
            form = (t, 0xFFFFFFFF,
                    [(z3.Extract(i, i, t32), 1 << i) for i in range(32)])
        _t, const, cols = form
        const, cols = const, list(cols)
    else:
        const, cols = value ^ 0xFFFFFFFF, []
    for x in elems_of(data):
        cols = [(v, _crc_step(m, 0)) for v, m in cols]
        if type(x) is int:
            const = _crc_step(const, x)
        else:
            const = _crc_step(const, 0)
            cols += [(z3.Extract(i, i, x), _crc_step(1 << i, 0))
                     for i in range(8)]
    out = []
    for i in range(32):
        bit = z3.BitVecVal(((const ^ 0xFFFFFFFF) >> i) & 1, 1)
        for v, m in cols:
            if (m >> i) & 1:
                bit = bit ^ v
        out.append(bit)
    t = z3.simplify(z3.Concat(*reversed(out)))
    r = from_unsigned(t)
    if is_sym(r):
        w = V.iterm(r, 33)
        _CRCFORM[w.get_id()] = (w, const, cols)
    return r


def _crc_eq(a, b):
    """ equality of checksums: the affine equations solved for as many
    bits as they settle, which spares the solver the elimination """
    fa = _CRCFORM.get(V.iterm(a, 33).get_id()) if _CRCFORM else None
    if fa is None:
        return None
    if type(b) is int:
        fb = (None, b ^ 0xFFFFFFFF, [])
    elif type(b) is V.SymInt:
        fb = _CRCFORM.get(V.iterm(b, 33).get_id())
        if fb is None:
            return None
    else:
        return None
    const = fa[1] ^ fb[1]
    if const >> 32:
        return False
    # bits with the same column only matter by their sum
    groups = {}
    for v, m in list(fa[2]) + list(fb[2]):
        if m:
            g = groups.setdefault(m, {})
            k = v.get_id()
            if k in g:
                del g[k]
            else:
                g[k] = v
    cols = [(m, list(g.values())) for m, g in groups.items() if g]
    # rows as bit sets over the columns, the constant as the last one
    n = len(cols)
    rows = []
    for i in range(32):
        r = 0
        for j, (m, _g) in enumerate(cols):
            if (m >> i) & 1:
                r |= 1 << j
        if (const >> i) & 1:
            r |= 1 << n
        rows.append(r)
    done = 0
    for j in range(n):
        p = next((i for i in range(done, 32) if (rows[i] >> j) & 1), None)
        if p is None:
            continue
        rows[done], rows[p] = rows[p], rows[done]
        for i in range(32):
            if i != done and (rows[i] >> j) & 1:
                rows[i] ^= rows[done]
        done += 1
    out = []
    for r in rows:
        if not r:
            continue
        if r == 1 << n:
            return False
        t = None
        for j in range(n):
            if (r >> j) & 1:
                for v in cols[j][1]:
                    t = v if t is None else t ^ v
        out.append(t == z3.BitVecVal((r >> n) & 1, 1))
    return mkbool(z3.simplify(z3.And(out))) if out else True


V.EQHOOK = _crc_eq


# ---------------------------------------------------------------------
# in-memory streams

class SymBytesIO(object):

    kind = bytes

    def __init__(self, initial=b""):
        self._e = list(elems_of(initial)) if initial is not None and \
            not isinstance(initial, int) else []
        if not isinstance(initial, (bytes, bytearray, memoryview)) and \
                self.kind is bytes and initial is not None:
            raise TypeError("a bytes-like object is required, not %r"
                            % type(initial).__name__)
        self._p = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _mk(self, e):
        return mkbytes(e)

    def readable(self):
        return True

    writable = seekable = readable

    def read(self, n=-1):
        self._chk()
        if n is None:
            n = -1
        avail = len(self._e) - self._p
        avail = max(avail, 0)
        if n < 0:
            k = avail
        elif n >= avail:
            k = avail
        else:
            k = int(n)
        r = self._mk(self._e[self._p:self._p + k])
        self._p += k
        return r

    read1 = read

    def readline(self, limit=-1):
        self._chk()
        i = self._p
        en = eng()
        while i < len(self._e):
            x = self._e[i]
            i += 1
            if x == 10 if type(x) is int else en.decide(x == 10):
                break
        r = self._mk(self._e[self._p:i])
        self._p = i
        return r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            r = self.readline()
            if not len(r):
                return
            yield r

    def write(self, data):
        self._chk()
        if self.kind is bytes:
            if not isinstance(data, (bytes, bytearray, memoryview)):
                raise TypeError("a bytes-like object is required, not %r"
                                % type(data).__name__)
        elif not isinstance(data, str):
            raise TypeError("string argument expected, got %r"
                            % type(data).__name__)
        e = elems_of(data)
        if self._p > len(self._e):
            self._e.extend([0] * (self._p - len(self._e)))
        self._e[self._p:self._p + len(e)] = e
        self._p += len(e)
        return len(e)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        self._chk()
        return self._mk(self._e)

    def getbuffer(self):
        return SymMemView(tuple(self._e))

    def tell(self):
        self._chk()
        return self._p

    def seek(self, pos, whence=0):
        self._chk()
        pos = int(pos)
        if whence == 1:
            pos += self._p
        elif whence == 2:
            pos += len(self._e)
        if whence == 0 and pos < 0:
            raise ValueError("negative seek value %d" % pos)
        self._p = max(0, pos)
        return self._p

    def truncate(self, size=None):
        size = self._p if size is None else int(size)
        del self._e[size:]
        return size

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        self.closed = True

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()


class SymStringIO(SymBytesIO):

    kind = str

    def __init__(self, initial="", newline="\n"):
        SymBytesIO.__init__(self, initial)

    def _mk(self, e):
        return mkstr(e)


class _StdoutBytes(object):

    def __init__(self, out):
        self._out = out

    def write(self, data):
        self._out.parts.append(decode(data, "utf-8"))
        return len(data)

    def flush(self):
        pass


class SymStdout(object):
    """ what sys.stdout is while output is collected """

    encoding = "utf-8"
    errors = "strict"
    name = "<stdout>"
    mode = "w"
    closed = False

    def __init__(self):
        self.parts = []
        self.buffer = _StdoutBytes(self)

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError("write() argument must be str, not %s"
                            % type(text).__name__)
        self.parts.append(text)
        return len(text)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        return cat(self.parts)


def cat_bytes(parts):
    out = []
    for p in parts:
        out.extend(elems_of(p))
    return mkbytes(out)


# ---------------------------------------------------------------------
# fnmatch

def m_fnmatch(name, pat):
    """ fnmatch.fnmatchcase, without forking where possible """
    import fnmatch
    if type(pat) is SymStr:
        pat = SymStr.conc(pat, eng().soft_cap)
    if type(name) is not SymStr:
        return fnmatch.fnmatchcase(name, pat)
    items = _glob(pat)
    e = name.e
    # states: set of pattern positions with their condition
    n = len(items)

    def closure(st):
        for i in range(n):
            if items[i] == "*" and st[i] is not False:
                st[i + 1] = b_or((st[i + 1], st[i]))
        return st
    st = [False] * (n + 1)
    st[0] = True
    st = closure(st)
    for x in e:
        nx = [False] * (n + 1)
        for i in range(n):
            if st[i] is False:
                continue
            it = items[i]
            if it == "*":
                nx[i] = b_or((nx[i], st[i]))
            else:
                if it == "?":
                    c = True
                else:
                    neg, ranges = it
                    if type(x) is int:
                        c = any(a <= x <= b for a, b in ranges) != neg
                    else:
                        c = b_or([x == a if a == b else
                                  z3.And(z3.UGE(x, a), z3.ULE(x, b))
                                  for a, b in ranges])
                        if neg:
                            c = V.b_not(c)
                nx[i + 1] = b_or((nx[i + 1], b_and((st[i], c))))
        st = closure(nx)
    r = st[n]
    if isinstance(r, bool):
        return r
    return mkbool(z3.simplify(r))


def _glob(pat):
    items = []
    i, n = 0, len(pat)
    while i < n:
        c = pat[i]
        i += 1
        if c == "*":
            if not items or items[-1] != "*":
                items.append("*")
        elif c == "?":
            items.append("?")
        elif c == "[":
            j = i
            if j < n and pat[j] == "!":
                j += 1
            if j < n and pat[j] == "]":
                j += 1
            while j < n and pat[j] != "]":
                j += 1
            if j >= n:
                items.append((False, ((91, 91),)))
            else:
                body = pat[i:j]
                i = j + 1
                neg = body.startswith("!")
                if neg:
                    body = body[1:]
                ranges = []
                k = 0
                while k < len(body):
                    if k + 2 < len(body) and body[k + 1] == "-":
                        if body[k] <= body[k + 2]:
                            ranges.append((ord(body[k]), ord(body[k + 2])))
                        k += 3
                    else:
                        ranges.append((ord(body[k]), ord(body[k])))
                        k += 1
                items.append((neg, tuple(ranges)))
        else:
            items.append((False, ((ord(c), ord(c)),)))
    return items
