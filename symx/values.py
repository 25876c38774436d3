"""
Symbolic proxies for int, bool, float, bytes and str.

Integers carry a signed bit-vector term wide enough for their interval,
so they behave as Python's unbounded ints.  Byte and text strings have a
concrete length and per-position terms (8 and 21 bits).  A value without
any symbolic part is always a genuine Python object.
"""

import z3

from . import core
from .core import Unsupported, EngineError


def eng():
    e = core.CUR
    if e is None:
        raise EngineError("symbolic value used outside of an exploration")
    return e


BV = z3.BitVecRef


def is_term(x):
    return isinstance(x, z3.ExprRef)


# ---------------------------------------------------------------------
# booleans

def mkbool(b):
    """ bool or z3 Bool -> bool or SymBool """
    if b is True or b is False:
        return b
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def bterm(x):
    """ truth of x as bool or z3 Bool, without forking where possible """
    if x is True or x is False:
        return x
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymBool:
        return x.t
    if type(x) is SymInt:
        return x.t != 0
    return bool(x)


def b_and(parts):
    out = []
    for p in parts:
        p = bterm(p)
        if p is False:
            return False
        if p is True:
            continue
        out.append(p)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def b_or(parts):
    out = []
    for p in parts:
        p = bterm(p)
        if p is True:
            return True
        if p is False:
            continue
        out.append(p)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def b_not(p):
    p = bterm(p)
    if p is True or p is False:
        return not p
    return z3.Not(p)


EQHOOK = None     # equality of checksums


class SymBool(object):
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().decide(self.t)

    def _int(self):
        return mkint(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)),
                     0, 1)

    def __eq__(self, o):
        if isinstance(o, bool):
            o = bterm(o)
            if o is True:
                return self
            if o is False:
                return SymBool(z3.Not(self.t))
            return mkbool(self.t == o)
        if isinstance(o, int):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(b_not(r))

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(b_and((self, o)))
        return self._int() & o

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(b_or((self, o)))
        return self._int() | o

    def __xor__(self, o):
        if isinstance(o, bool):
            o = bterm(o)
            if o is True:
                return SymBool(z3.Not(self.t))
            if o is False:
                return self
            return SymBool(z3.Xor(self.t, o))
        return self._int() ^ o

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __hash__(self):
        if self._h is None:
            raise Unsupported("hash of a symbolic bool")
        return self._h

    def __str__(self):
        return "True" if self else "False"

    __repr__ = __str__

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__


# ---------------------------------------------------------------------
# integers

def need(lo, hi):
    """ signed width for the interval """
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(),
               hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


def resize(t, w):
    """ signed resize of a term """
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


def mkint(t, lo, hi):
    if lo == hi:
        return lo
    w = need(lo, hi)
    if t.size() != w:
        t = resize(t, w)
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t, lo, hi)


def from_unsigned(t, lo=0, hi=None):
    """ SymInt of an unsigned bit-vector term """
    w = t.size()
    if hi is None:
        hi = (1 << w) - 1
    return mkint(z3.ZeroExt(1, t), lo, hi)


def iterm(x, w):
    """ signed term of width w for int or SymInt """
    if isinstance(x, SymBool):
        x = x._int()
    if type(x) is SymInt:
        return resize(x.t, w)
    return z3.BitVecVal(int(x), w)


def bounds(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    if type(x) is SymBool:
        return 0, 1
    x = int(x)
    return x, x


def _isint(o):
    return type(o) is SymInt or type(o) is SymBool or isinstance(o, int)


def _norm(o):
    return o._int() if type(o) is SymBool else o


class SymInt(object):
    __slots__ = ("t", "lo", "hi", "_h")

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi
        self._h = None

    @property
    def __class__(self):
        return int

    def __repr__(self):
        from . import models
        return models.to_native(models.int_to_dec(self))

    __str__ = __repr__

    def __format__(self, spec):
        from . import models
        return models.to_native(models.format_value(self, spec))

    def __hash__(self):
        if self._h is None:
            raise Unsupported("hash of a symbolic int")
        return self._h

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return eng().decide(self.t != 0)

    def conc(self, soft=None):
        w = self.t.size()
        v = eng().concretize(self.t, soft)
        if v >= 1 << (w - 1):
            v -= 1 << w
        return v

    def __index__(self):
        return self.conc()

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.conc())

    def _bin(self, o, f, lo, hi):
        w = need(lo, hi)
        return mkint(f(iterm(self, w), iterm(o, w)), lo, hi)

    def __add__(self, o):
        if not _isint(o):
            return NotImplemented
        a, b = bounds(o)
        return self._bin(o, lambda x, y: x + y, self.lo + a, self.hi + b)

    __radd__ = __add__

    def __sub__(self, o):
        if not _isint(o):
            return NotImplemented
        a, b = bounds(o)
        return self._bin(o, lambda x, y: x - y, self.lo - b, self.hi - a)

    def __rsub__(self, o):
        if not _isint(o):
            return NotImplemented
        a, b = bounds(o)
        w_lo, w_hi = a - self.hi, b - self.lo
        return self._bin(o, lambda x, y: y - x, w_lo, w_hi)

    def __mul__(self, o):
        if _isint(o):
            a, b = bounds(o)
            c = [self.lo * a, self.lo * b, self.hi * a, self.hi * b]
            return self._bin(o, lambda x, y: x * y, min(c), max(c))
        if isinstance(o, (bytes, str, list, tuple)):
            n = self.conc()
            return o * n
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return -self if self < 0 else self

    def __invert__(self):
        return mkint(~self.t, -self.hi - 1, -self.lo - 1)

    def _divmod(self, a, b):
        alo, ahi = bounds(a)
        blo, bhi = bounds(b)
        if blo <= 0 <= bhi:
            if b == 0:
                raise ZeroDivisionError(
                    "integer division or modulo by zero")
        m = max(abs(alo), abs(ahi), abs(blo), abs(bhi))
        w = m.bit_length() + 2
        x, y = iterm(a, w), iterm(b, w)
        if alo >= 0 and blo >= 0:
            q, r = z3.UDiv(x, y), z3.URem(x, y)
            lob = max(blo, 1)
            q = mkint(q, alo // bhi, ahi // lob)
            r = mkint(r, 0, min(ahi, bhi - 1))
        else:
            r = x % y         # bvsmod, sign of the divisor
            q = (x - r) / y
            q = mkint(q, -m - 1, m + 1)
            r = mkint(r, min(0, blo + 1), max(0, bhi - 1))
        return q, r

    def __floordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._divmod(self, o)[0]

    def __rfloordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._divmod(o, self)[0]

    def __mod__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._divmod(self, o)[1]

    def __rmod__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._divmod(o, self)[1]

    def __divmod__(self, o):
        return self._divmod(self, o)

    def __truediv__(self, o):
        return self.conc(eng().soft_cap) / o

    def __rtruediv__(self, o):
        return o / self.conc(eng().soft_cap)

    def __pow__(self, o, m=None):
        return pow(self.conc(), int(o), m)

    def __rpow__(self, o):
        return o ** self.conc()

    def __and__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _norm(o)
        a, b = bounds(o)
        w = max(need(self.lo, self.hi), need(a, b))
        if a >= 0 and self.lo >= 0:
            lo, hi = 0, min(b, self.hi)
        elif a >= 0:
            lo, hi = 0, b
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mkint(iterm(self, w) & iterm(o, w), lo, hi)

    __rand__ = __and__

    def __or__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _norm(o)
        a, b = bounds(o)
        w = max(need(self.lo, self.hi), need(a, b))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if a >= 0 and self.lo >= 0:
            lo = max(a, self.lo)
        return mkint(iterm(self, w) | iterm(o, w), lo, hi)

    __ror__ = __or__

    def __xor__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _norm(o)
        a, b = bounds(o)
        w = max(need(self.lo, self.hi), need(a, b))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if a >= 0 and self.lo >= 0:
            lo = 0
        return mkint(iterm(self, w) ^ iterm(o, w), lo, hi)

    __rxor__ = __xor__

    def __lshift__(self, o):
        if not _isint(o):
            return NotImplemented
        n = int(o)
        if n < 0:
            raise ValueError("negative shift count")
        return self * (1 << n)

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, o):
        if not _isint(o):
            return NotImplemented
        n = int(o)
        if n < 0:
            raise ValueError("negative shift count")
        w = self.t.size()
        n = min(n, w - 1)
        return mkint(self.t >> n, self.lo >> n, self.hi >> n)

    def __rrshift__(self, o):
        return o >> self.conc()

    def _cmp(self, o, op):
        if not _isint(o):
            return NotImplemented
        o = _norm(o)
        a, b = bounds(o)
        lo, hi = self.lo, self.hi
        if op == "==":
            if hi < a or lo > b:
                return False
        elif op == "<":
            if hi < a:
                return True
            if lo >= b:
                return False
        elif op == "<=":
            if hi <= a:
                return True
            if lo > b:
                return False
        w = max(need(lo, hi), need(a, b))
        x, y = iterm(self, w), iterm(o, w)
        if op == "==":
            return mkbool(z3.simplify(x == y))
        if op == "<":
            return mkbool(z3.simplify(x < y))
        return mkbool(z3.simplify(x <= y))

    def __eq__(self, o):
        if isinstance(o, float):
            o = int(o) if o == int(o) else None
            if o is None:
                return False
        if EQHOOK is not None:
            r = EQHOOK(self, o)
            if r is not None:
                return r
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(b_not(r))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        r = self._cmp(o, "<=")
        return r if r is NotImplemented else mkbool(b_not(r))

    def __ge__(self, o):
        r = self._cmp(o, "<")
        return r if r is NotImplemented else mkbool(b_not(r))

    def bit_length(self):
        return self.conc().bit_length()

    def to_bytes(self, length=1, byteorder="big", signed=False):
        lo, hi = ((-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1)
                  if signed else (0, (1 << (8 * length)) - 1))
        if not (lo <= self.lo and self.hi <= hi):
            if not (lo <= self and self <= hi):
                raise OverflowError("int too big to convert")
        t = resize(self.t, 8 * length)
        parts = [z3.Extract(8 * i + 7, 8 * i, t) for i in range(length)]
        if byteorder == "big":
            parts.reverse()
        return mkbytes([belem(p) for p in parts])

    @property
    def real(self):
        return self

    def is_integer(self):
        return True


# ---------------------------------------------------------------------
# floats, as bit patterns

_F32, _F64 = z3.Float32(), z3.Float64()


class SymFloat(object):
    """ a float known by its IEEE bits; supports equality and formatting
    (by concretisation) only """

    __slots__ = ("bits", "_h")

    def __init__(self, bits):
        self.bits = bits
        self._h = None

    @property
    def __class__(self):
        return float

    def fp(self):
        if self.bits.size() == 32:
            return z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(self.bits, _F32), _F64)
        return z3.fpBVToFP(self.bits, _F64)

    def conc(self):
        import struct
        n = self.bits.size()
        v = eng().concretize(self.bits, eng().soft_cap)
        return struct.unpack(">f" if n == 32 else ">d",
                             v.to_bytes(n // 8, "big"))[0]

    def _other(self, o):
        if type(o) is SymFloat:
            return o.fp()
        if isinstance(o, float):
            return z3.FPVal(o, _F64)
        if isinstance(o, int) and type(o) is not SymInt:
            return z3.FPVal(float(o), _F64)
        return None

    def __eq__(self, o):
        f = self._other(o)
        if f is None:
            return NotImplemented
        # IEEE equality spelled out over the bits when widths agree
        if type(o) is SymFloat and o.bits.size() == self.bits.size():
            n = self.bits.size()
            m = 23 if n == 32 else 52
            a, b = self.bits, o.bits

            def nan(x):
                e = z3.Extract(n - 2, m, x)
                return z3.And(e == z3.BitVecVal(-1, e.size()),
                              z3.Extract(m - 1, 0, x) != 0)
            zero = z3.And(z3.Extract(n - 2, 0, a) == 0,
                          z3.Extract(n - 2, 0, b) == 0)
            return mkbool(z3.simplify(
                z3.And(z3.Not(nan(a)), z3.Not(nan(b)),
                       z3.Or(a == b, zero))))
        return mkbool(z3.simplify(z3.fpEQ(self.fp(), f)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(b_not(r))

    def __lt__(self, o):
        return self.conc() < o

    def __le__(self, o):
        return self.conc() <= o

    def __gt__(self, o):
        return self.conc() > o

    def __ge__(self, o):
        return self.conc() >= o

    def __float__(self):
        return self.conc()

    def __repr__(self):
        return repr(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __bool__(self):
        return bool(mkbool(b_not(self == 0.0)))

    def __hash__(self):
        if self._h is None:
            raise Unsupported("hash of a symbolic float")
        return self._h


# ---------------------------------------------------------------------
# strings of bytes and of characters

BW, CW = 8, 21


def belem(t):
    """ simplify an element term to an int where possible """
    if type(t) is int:
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def mkbytes(elems):
    elems = tuple(elems)
    for e in elems:
        if type(e) is not int:
            return SymBytes(elems)
    return bytes(elems)


def mkstr(elems):
    elems = tuple(elems)
    for e in elems:
        if type(e) is not int:
            return SymStr(elems)
    return "".join(map(chr, elems))


def elems_of(s):
    """ the element tuple of a (symbolic or native) string or bytes """
    if type(s) is SymStr or type(s) is SymBytes or type(s) is SymMemView:
        return s.e
    if isinstance(s, str):
        return tuple(map(ord, s))
    if isinstance(s, (bytes, bytearray)):
        return tuple(s)
    if isinstance(s, memoryview):
        return tuple(bytes(s))
    raise TypeError("not a string: %r" % type(s))


def e_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if a is b:
        return True
    return a == b


def seq_eq(a, b):
    """ element-wise equality of equal-length tuples as bool/Bool """
    parts = []
    for x, y in zip(a, b):
        if type(x) is int:
            if type(y) is int:
                if x != y:
                    return False
                continue
        elif x is y:
            continue
        parts.append(x == y)
    if not parts:
        return True
    r = z3.simplify(parts[0] if len(parts) == 1 else z3.And(parts))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def seq_lt(a, b, w):
    """ lexicographic strictly-less as bool/Bool """

    # computed from the end backwards
    n = min(len(a), len(b))
    acc = len(a) < len(b)
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        if type(x) is int and type(y) is int:
            if x == y:
                continue
            acc = x < y
            continue
        if x is y:
            continue
        tx = x if is_term(x) else z3.BitVecVal(x, w)
        ty = y if is_term(y) else z3.BitVecVal(y, w)
        lt = z3.ULT(tx, ty)
        if acc is True:
            acc = z3.ULE(tx, ty)
        elif acc is False:
            acc = lt
        else:
            acc = z3.Or(lt, z3.And(tx == ty, acc))
    if acc is True or acc is False:
        return acc
    acc = z3.simplify(acc)
    if z3.is_true(acc):
        return True
    if z3.is_false(acc):
        return False
    return acc


class SymSeq(object):
    """ what bytes and str have in common """

    __slots__ = ("e", "_h")
    W = None

    def __init__(self, e):
        self.e = e
        self._h = None

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def __hash__(self):
        if self._h is None:
            raise Unsupported("hash of a symbolic string")
        return self._h

    # subclasses: make(elems), compatible(o), item(elem)

    def __getitem__(self, k):
        from . import rt
        if isinstance(k, slice):
            k = rt.conc_slice(k)
            return self.make(self.e[k])
        if type(k) is SymInt:
            k = rt.conc_index(k, len(self.e))
        return self.item(self.e[k])

    def __iter__(self):
        for x in self.e:
            yield self.item(x)

    def __reversed__(self):
        for x in reversed(self.e):
            yield self.item(x)

    def __add__(self, o):
        if not self.compatible(o):
            return NotImplemented
        return self.make(self.e + elems_of(o))

    def __radd__(self, o):
        if not self.compatible(o):
            return NotImplemented
        return self.make(elems_of(o) + self.e)

    def __mul__(self, n):
        return self.make(self.e * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if o is self:
            return True
        if not self.compatible(o):
            return NotImplemented
        oe = elems_of(o)
        if len(oe) != len(self.e):
            return False
        return mkbool(seq_eq(self.e, oe))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(b_not(r))

    def __lt__(self, o):
        if not self.compatible(o):
            return NotImplemented
        return mkbool(seq_lt(self.e, elems_of(o), self.W))

    def __gt__(self, o):
        if not self.compatible(o):
            return NotImplemented
        return mkbool(seq_lt(elems_of(o), self.e, self.W))

    def __le__(self, o):
        if not self.compatible(o):
            return NotImplemented
        return mkbool(b_not(mkbool(seq_lt(elems_of(o), self.e, self.W))))

    def __ge__(self, o):
        if not self.compatible(o):
            return NotImplemented
        return mkbool(b_not(mkbool(seq_lt(self.e, elems_of(o), self.W))))

    def __contains__(self, sub):
        from . import rt
        return bool(rt.contains(sub, self))

    def conc(self, soft=None):
        """ a native value; enumerates """
        out = []
        en = eng()
        for x in self.e:
            out.append(x if type(x) is int else en.concretize(x, soft))
        return self.make(out)

    def _oe(self, o):
        if not self.compatible(o):
            raise TypeError("a %s-like object is required, not %r"
                            % (self.__class__.__name__,
                               type(o).__name__))
        return elems_of(o)

    # -- searching ------------------------------------------------------

    def _at(self, sub, i):
        """ does sub (elements) occur at i; forks """
        if i < 0 or i + len(sub) > len(self.e):
            return False
        r = seq_eq(self.e[i:i + len(sub)], sub)
        if r is True or r is False:
            return r
        return eng().decide(r)

    def _range(self, start, end):
        n = len(self.e)
        start, end, _ = slice(None if start is None else int(start),
                              None if end is None else int(end)).indices(n)
        return start, end

    def find(self, sub, start=None, end=None):
        sub = self._subelems(sub)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._subelems(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = self._subelems(sub)
        s, e = self._range(start, end)
        n = 0
        if not sub:
            return max(e - s + 1, 0)
        i = s
        while i + len(sub) <= e:
            if self._at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def _fix(self, pre, start, end, where):
        if isinstance(pre, tuple):
            return mkbool(b_or([self._fix(p, start, end, where)
                                for p in pre]))
        pre = self._oe(pre)
        s, e = self._range(start, end)
        if e - s < len(pre):
            return False
        at = s if where == 0 else e - len(pre)
        return mkbool(seq_eq(self.e[at:at + len(pre)], pre))

    def startswith(self, pre, start=None, end=None):
        return self._fix(pre, start, end, 0)

    def endswith(self, suf, start=None, end=None):
        return self._fix(suf, start, end, 1)

    def removeprefix(self, pre):
        return self[len(pre):] if self.startswith(pre) else self

    def removesuffix(self, suf):
        if len(suf) and self.endswith(suf):
            return self[:-len(suf)]
        return self

    def replace(self, old, new, count=-1):
        old, new = self._oe(old), self._oe(new)
        count = int(count)
        out = []
        i = 0
        n = len(self.e)
        if not old:
            if count == 0:
                return self
            done = 0
            for x in self.e:
                if count < 0 or done < count:
                    out.extend(new)
                    done += 1
                out.append(x)
            if count < 0 or done < count:
                out.extend(new)
            return self.make(out)
        while i < n:
            if count != 0 and self._at(old, i):
                out.extend(new)
                i += len(old)
                count -= 1
            else:
                out.append(self.e[i])
                i += 1
        return self.make(out)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if sep is None:
            return self._split_ws(maxsplit)
        sep = self._oe(sep)
        if not sep:
            raise ValueError("empty separator")
        out = []
        cur = 0
        i = 0
        while i + len(sep) <= len(self.e):
            if maxsplit == 0:
                break
            if self._at(sep, i):
                out.append(self.make(self.e[cur:i]))
                i += len(sep)
                cur = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self.make(self.e[cur:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if sep is None:
            if maxsplit < 0:
                return self._split_ws(-1)
            raise Unsupported("rsplit on whitespace")
        sep = self._oe(sep)
        if not sep:
            raise ValueError("empty separator")
        out = []
        end = len(self.e)
        i = end - len(sep)
        while i >= 0 and maxsplit != 0:
            if self._at(sep, i):
                out.append(self.make(self.e[i + len(sep):end]))
                end = i
                i -= len(sep)
                maxsplit -= 1
            else:
                i -= 1
        out.append(self.make(self.e[:end]))
        out.reverse()
        return out

    def _split_ws(self, maxsplit):
        out = []
        cur = None
        n = len(self.e)
        i = 0
        while i < n:
            if self._isspace(self.e[i]):
                if cur is not None:
                    out.append(self.make(self.e[cur:i]))
                    cur = None
                    maxsplit -= 1
            elif cur is None:
                if maxsplit == 0:
                    j = n
                    while j > i and self._isspace(self.e[j - 1]):
                        j -= 1
                    out.append(self.make(self.e[i:n]))
                    return out
                cur = i
            i += 1
        if cur is not None:
            out.append(self.make(self.e[cur:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            z = self.make(())
            return (self, z, z)
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            z = self.make(())
            return (z, z, self)
        return (self[:i], sep, self[i + len(sep):])

    def _inset(self, x, chars):
        if chars is None:
            return self._isspace(x)
        r = b_or([e_eq(x, c) for c in chars])
        if r is True or r is False:
            return r
        return eng().decide(r)

    def lstrip(self, chars=None):
        chars = None if chars is None else self._oe(chars)
        i = 0
        while i < len(self.e) and self._inset(self.e[i], chars):
            i += 1
        return self.make(self.e[i:])

    def rstrip(self, chars=None):
        chars = None if chars is None else self._oe(chars)
        j = len(self.e)
        while j > 0 and self._inset(self.e[j - 1], chars):
            j -= 1
        return self.make(self.e[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def join(self, parts):
        parts = list(parts)
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.e)
            out.extend(self._oe(p))
        return self.make(out)

    def ljust(self, width, fill=None):
        f = self._oe(fill) if fill is not None else (32,)
        return self.make(self.e + f * max(0, int(width) - len(self.e)))

    def rjust(self, width, fill=None):
        f = self._oe(fill) if fill is not None else (32,)
        return self.make(f * max(0, int(width) - len(self.e)) + self.e)

    def center(self, width, fill=None):
        f = self._oe(fill) if fill is not None else (32,)
        pad = max(0, int(width) - len(self.e))
        left = pad // 2 + (pad & int(width) & 1)
        return self.make(f * left + self.e + f * (pad - left))

    def zfill(self, width):
        pad = max(0, int(width) - len(self.e))
        if pad and self.e and self._inset(self.e[0], (43, 45)):
            return self.make(self.e[:1] + (48,) * pad + self.e[1:])
        return self.make((48,) * pad + self.e)

    # -- character classes ----------------------------------------------

    def _between(self, x, ranges):
        """ Bool for x in any of the (lo, hi) ranges """
        if type(x) is int:
            return any(a <= x <= b for a, b in ranges)
        parts = []
        for a, b in ranges:
            if a == b:
                parts.append(x == a)
            else:
                parts.append(z3.And(z3.UGE(x, a), z3.ULE(x, b)))
        return z3.Or(parts) if len(parts) > 1 else parts[0]

    def _test(self, x, ranges, uni):
        """ forks; uni(chr) decides concretised non-ASCII characters """
        if type(x) is int:
            return uni(chr(x)) if x > 127 else self._between(x, ranges)
        en = eng()
        if self.W == CW or uni is not None:
            if en.decide(z3.UGT(x, 127)):
                if uni is None:
                    return False
                return uni(chr(en.concretize(x, en.soft_cap)))
        return en.decide(self._between(x, ranges))

    def _all(self, ranges, uni):
        if not self.e:
            return False
        for x in self.e:
            if not self._test(x, ranges, uni):
                return False
        return True

    def _map_ascii(self, lo, hi, delta, uni):
        out = []
        for x in self.e:
            if type(x) is int:
                out.extend(elems_of(uni(self.make((x,)))))
                continue
            en = eng()
            w = self.W
            if w == CW and en.decide(z3.UGT(x, 127)):
                c = chr(en.concretize(x, en.soft_cap))
                out.extend(map(ord, uni(c)))
                continue
            out.append(belem(z3.If(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)),
                                   x + delta, x)))
        return self.make(out)

    def upper(self):
        return self._map_ascii(97, 122, -32, lambda c: c.upper())

    def lower(self):
        return self._map_ascii(65, 90, 32, lambda c: c.lower())

    def splitlines(self, keepends=False):
        out = []
        cur = 0
        i = 0
        n = len(self.e)
        while i < n:
            x = self.e[i]
            if self._isbreak(x):
                j = i + 1
                if self._inset(x, (13,)):
                    if j < n and self._inset(self.e[j], (10,)):
                        j += 1
                out.append(self.make(self.e[cur:j if keepends else i]))
                cur = i = j
            else:
                i += 1
        if cur < n:
            out.append(self.make(self.e[cur:]))
        return out


def _uni_none(_c):
    return False


class SymBytes(SymSeq):
    __slots__ = ()
    W = BW

    @property
    def __class__(self):
        return bytes

    def make(self, e):
        return mkbytes(e)

    def item(self, x):
        return x if type(x) is int else from_unsigned(x)

    def compatible(self, o):
        return isinstance(o, (bytes, bytearray, memoryview))

    def _subelems(self, sub):
        if type(sub) is SymInt:
            return (z3.Extract(7, 0, resize(sub.t, 9)),)
        if isinstance(sub, int):
            return (sub,)
        return self._oe(sub)

    def _isspace(self, x):
        return self._test(x, ((9, 13), (32, 32)), None)

    def _isbreak(self, x):
        if type(x) is int:
            return x in (10, 13)
        return eng().decide(z3.Or(x == 10, x == 13))

    def _test(self, x, ranges, uni):
        if type(x) is int:
            return self._between(x, ranges)
        return eng().decide(self._between(x, ranges))

    def _map_ascii(self, lo, hi, delta, uni):
        out = []
        for x in self.e:
            if type(x) is int:
                out.append(x + delta if lo <= x <= hi else x)
            else:
                out.append(belem(z3.If(
                    z3.And(z3.UGE(x, lo), z3.ULE(x, hi)), x + delta, x)))
        return mkbytes(out)

    def isdigit(self):
        return self._all(((48, 57),), None)

    def isspace(self):
        return self._all(((9, 13), (32, 32)), None)

    def isalpha(self):
        return self._all(((65, 90), (97, 122)), None)

    def isalnum(self):
        return self._all(((48, 57), (65, 90), (97, 122)), None)

    def isascii(self):
        for x in self.e:
            if not self._test(x, ((0, 127),), None):
                return False
        return True

    def decode(self, encoding="utf-8", errors="strict"):
        from . import models
        return models.decode(self, encoding, errors)

    def hex(self, *a):
        if a:
            return self.conc(eng().soft_cap).hex(*a)
        from . import models
        out = []
        for x in self.e:
            if type(x) is int:
                out.extend(map(ord, "%02x" % x))
            else:
                for part in (z3.Extract(7, 4, x), z3.Extract(3, 0, x)):
                    out.append(models.hexdigit(part))
        return mkstr(out)

    def tobytes(self):
        raise AttributeError("'bytes' object has no attribute 'tobytes'")

    def __repr__(self):
        from . import models
        return models.to_native(models.repr_bytes(self))

    def __str__(self):
        return self.__repr__()

    def __mod__(self, args):
        from . import models
        return models.percent(self, args)

    def __rmod__(self, o):
        return NotImplemented

    def translate(self, *a):
        return self.conc(eng().soft_cap).translate(*a)


class SymMemView(SymSeq):
    """ memoryview over bytes that are partly symbolic """

    __slots__ = ()
    W = BW

    def __init__(self, e):
        SymSeq.__init__(self, tuple(e))

    @property
    def __class__(self):
        return memoryview

    def make(self, e):
        return SymMemView(tuple(e))

    item = SymBytes.item

    def compatible(self, o):
        return isinstance(o, (bytes, bytearray, memoryview))

    def tobytes(self, order=None):
        return mkbytes(self.e)

    def tolist(self):
        return [self.item(x) for x in self.e]

    nbytes = property(lambda self: len(self.e))
    itemsize = property(lambda self: 1)
    format = property(lambda self: "B")
    ndim = property(lambda self: 1)
    readonly = property(lambda self: True)
    shape = property(lambda self: (len(self.e),))

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


for _n in ("find rfind index rindex count startswith endswith removeprefix "
           "removesuffix replace split rsplit partition rpartition lstrip "
           "rstrip strip join ljust rjust center zfill upper lower "
           "splitlines __add__ __radd__ __mul__ __rmul__ __lt__ __gt__ "
           "__le__ __ge__").split():
    def _mk(n):
        def missing(self, *a, **k):
            raise AttributeError(
                "'memoryview' object has no attribute %r" % n)
        if n.startswith("__"):
            def missing(self, o):   # noqa: F811
                return NotImplemented
        return missing
    setattr(SymMemView, _n, _mk(_n))


_WS = ((9, 13), (28, 32))
_BREAKS = (10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029)


class SymStr(SymSeq):
    __slots__ = ()
    W = CW

    @property
    def __class__(self):
        return str

    def make(self, e):
        return mkstr(e)

    def item(self, x):
        return chr(x) if type(x) is int else SymStr((x,))

    def compatible(self, o):
        return isinstance(o, str)

    _subelems = SymSeq._oe

    def _isspace(self, x):
        return self._test(x, _WS, str.isspace)

    def _isbreak(self, x):
        if type(x) is int:
            return x in _BREAKS
        return eng().decide(z3.Or([x == b for b in _BREAKS]))

    def isdigit(self):
        return self._all(((48, 57),), str.isdigit)

    def isdecimal(self):
        return self._all(((48, 57),), str.isdecimal)

    def isnumeric(self):
        return self._all(((48, 57),), str.isnumeric)

    def isspace(self):
        return self._all(_WS, str.isspace)

    def isalpha(self):
        return self._all(((65, 90), (97, 122)), str.isalpha)

    def isalnum(self):
        return self._all(((48, 57), (65, 90), (97, 122)), str.isalnum)

    def isupper(self):
        return self.conc(eng().soft_cap).isupper()

    def islower(self):
        return self.conc(eng().soft_cap).islower()

    def isascii(self):
        for x in self.e:
            if type(x) is int:
                if x > 127:
                    return False
            elif not eng().decide(z3.ULE(x, 127)):
                return False
        return True

    def isprintable(self):
        for x in self.e:
            if not self._test(x, ((32, 126),), str.isprintable):
                return False
        return True

    def isidentifier(self):
        return self.conc(eng().soft_cap).isidentifier()

    def encode(self, encoding="utf-8", errors="strict"):
        from . import models
        return models.encode(self, encoding, errors)

    def title(self):
        return self.conc(eng().soft_cap).title()

    def capitalize(self):
        if not self.e:
            return self
        return self[:1].upper() + self[1:].lower()

    casefold = SymSeq.lower

    def swapcase(self):
        return self.conc(eng().soft_cap).swapcase()

    def expandtabs(self, tabsize=8):
        return self.conc(eng().soft_cap).expandtabs(tabsize)

    def translate(self, table):
        out = []
        from . import rt
        for c in self:
            try:
                r = rt.getitem(table, rt.m_ord(c))
            except LookupError:
                r = c
            if r is None:
                continue
            if isinstance(r, int):
                r = rt.m_chr(r)
            out.extend(elems_of(r))
        return mkstr(out)

    def format(self, *a, **k):
        from . import models
        return models.str_format(self, a, k)

    def __repr__(self):
        from . import models
        return models.to_native(models.repr_str(self))

    def __str__(self):
        from . import models
        return models.to_native(self)

    def __format__(self, spec):
        from . import models
        return models.to_native(models.format_value(self, spec))

    def __mod__(self, args):
        from . import models
        return models.percent(self, args)

    def __rmod__(self, o):
        return NotImplemented


SYMTYPES = frozenset((SymBool, SymInt, SymFloat, SymBytes, SymStr,
                      SymMemView))


def is_sym(x):
    return type(x) in SYMTYPES


def is_symdeep(x, depth=4):
    """ symbolic content within the usual containers """
    t = type(x)
    if t in SYMTYPES:
        return True
    if depth and (t is tuple or t is list or t is set or t is frozenset):
        for y in x:
            if is_symdeep(y, depth - 1):
                return True
    elif depth and isinstance(x, tuple):
        for y in x:
            if is_symdeep(y, depth - 1):
                return True
    elif depth and t is dict:
        for k, v in x.items():
            if is_symdeep(k, depth - 1) or is_symdeep(v, depth - 1):
                return True
    return False


def give_hash(x):
    """ make a symbolic key storable in a native table """
    t = type(x)
    if t in SYMTYPES:
        if x._h is None:
            x._h = eng().next_hash()
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            give_hash(y)


def model_value(x, engine):
    """ the concrete value of x under the current model of the engine """
    t = type(x)
    if t is SymBool:
        return z3.is_true(engine.evaluate(x.t))
    if t is SymInt:
        return engine.evaluate(x.t).as_signed_long()
    if t is SymFloat:
        import struct
        n = x.bits.size()
        v = engine.evaluate(x.bits).as_long()
        return struct.unpack(">f" if n == 32 else ">d",
                             v.to_bytes(n // 8, "big"))[0]
    if t is SymBytes or t is SymMemView:
        return bytes([y if type(y) is int else
                      engine.evaluate(y).as_long() for y in x.e])
    if t is SymStr:
        return "".join([chr(y if type(y) is int else
                            engine.evaluate(y).as_long()) for y in x.e])
    if isinstance(x, tuple):
        return tuple([model_value(y, engine) for y in x])
    if isinstance(x, list):
        return [model_value(y, engine) for y in x]
    if isinstance(x, (set, frozenset)):
        return set([model_value(y, engine) for y in x])
    if isinstance(x, dict):
        return dict((model_value(k, engine), model_value(v, engine))
                    for k, v in x.items())
    return x
