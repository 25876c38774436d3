"""
Runtime of the instrumented code: calls, subscripts, comparisons and
container operations that may involve symbolic values.
"""

import builtins
import functools
import io
import operator
import sys
import types
from collections import OrderedDict, defaultdict

import z3

from . import core
from . import values as V
from . import models as M
from .core import Unsupported
from .values import (SymInt, SymBool, SymFloat, SymBytes, SymStr, SymMemView,
                     SYMTYPES, eng, is_sym, is_symdeep, mkbool, mkstr,
                     mkbytes, b_and, b_or, b_not, bterm, elems_of, give_hash)

m_ord = M.m_ord
m_chr = M.m_chr


# ---------------------------------------------------------------------
# equality formulas

def eq(a, b):
    """ a == b without forking where possible: bool or SymBool """
    r = eqf(a, b)
    return mkbool(r) if isinstance(r, (bool, z3.BoolRef)) else r


_PLAIN = (int, str, bytes, float, bool, type(None))


def eqf(a, b):
    if a is b:
        # identity implies equality for what we handle, except floats
        if type(a) is SymFloat or isinstance(a, float):
            return bterm(a == b)
        if type(a) in SYMTYPES or type(a) in _PLAIN:
            return True
    ta, tb = type(a), type(b)
    if ta in SYMTYPES or tb in SYMTYPES:
        r = a == b
        if r is NotImplemented:
            return False
        return bterm(r)
    if ta in _PLAIN or tb in _PLAIN:
        return _cmp_native(a, b)
    if (isinstance(a, tuple) and isinstance(b, tuple)) or \
            (isinstance(a, list) and isinstance(b, list)):
        if ta.__eq__ in (tuple.__eq__, list.__eq__):
            if len(a) != len(b):
                return False
            parts = []
            for x, y in zip(a, b):
                if x is y:
                    continue     # containers compare by identity first
                r = eqf(x, y)
                if r is False:
                    return False
                parts.append(r)
            return b_and(parts)
    if isinstance(a, dict) and isinstance(b, dict):
        if ta.__eq__ in (dict.__eq__, OrderedDict.__eq__) and \
                tb.__eq__ in (dict.__eq__, OrderedDict.__eq__):
            return dict_eq(a, b)
    if is_setlike(a) and is_setlike(b):
        return set_eq(a, b)
    return _cmp_native(a, b)


def _cmp_native(a, b):
    r = a == b
    if r is NotImplemented:
        return False
    if isinstance(r, bool) or type(r) is SymBool:
        return bterm(r)
    return r


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    if isinstance(a, OrderedDict) and isinstance(b, OrderedDict):
        ka, kb = list(dict.keys(a)), list(dict.keys(b))
        if isinstance(a, OrderedDict):
            ka, kb = list(OrderedDict.keys(a)), list(OrderedDict.keys(b))
        parts = []
        for x, y in zip(ka, kb):
            parts.append(eqf(x, y))
            parts.append(eqf(dict.__getitem__(a, x), dict.__getitem__(b, y)))
        return b_and(parts)
    parts = []
    for k in list(dict.keys(a)):
        kb = find_key(b, k)
        if kb is _MISS:
            return False
        r = eqf(dict.__getitem__(a, k), dict.__getitem__(b, kb))
        if r is False:
            return False
        parts.append(r)
    return b_and(parts)


# ---------------------------------------------------------------------
# tables with symbolic keys

_MISS = object()


def _symkeys(d):
    for k in d:
        if type(k) in SYMTYPES or (isinstance(k, tuple) and is_symdeep(k)):
            return True
    return False


def keys_of(d):
    """ plain list of the keys of a native table """
    if isinstance(d, OrderedDict):
        return list(OrderedDict.keys(d))
    if isinstance(d, dict):
        return list(dict.keys(d))
    return list(d)


def _int_key(d, k):
    """ symbolic integer k in a table of many plain keys: membership is
    decided as a union of ranges, then the value is enumerated """

    ints = []
    for x in d:
        t = type(x)
        if t is int or t is bool:
            if k.lo <= x <= k.hi:
                ints.append(int(x))
        elif t is not str and t is not bytes and x is not None:
            return None
    if len(ints) <= 6:
        return None
    ints.sort()
    runs = []
    for x in ints:
        if runs and runs[-1][1] == x - 1:
            runs[-1][1] = x
        else:
            runs.append([x, x])
    conds = []
    for a, b in runs:
        conds.append(b_and((k >= a, k <= b)) if a != b else bterm(k == a))
    if not eng().decide(b_or(conds)):
        return (_MISS,)
    v = k.conc()
    return (v,)


def find_key(d, k):
    """ the stored key equal to k in the native table (dict, set) d, or
    _MISS.  Forks when that depends on symbolic content. """

    sym = type(k) in SYMTYPES or (isinstance(k, (tuple, frozenset)) and
                                  is_symdeep(k))
    if not sym:
        if isinstance(d, dict):
            if dict.__contains__(d, k):
                return k
        elif k in d:
            return k
        if len(d) > 4096 or not _symkeys(d):
            return _MISS
        cands = [x for x in d if type(x) in SYMTYPES or
                 (isinstance(x, tuple) and is_symdeep(x))]
    else:
        for x in d:
            if x is k:
                return x
        if type(k) is SymInt and len(d) > 6:
            r = _int_key(d, k)
            if r is not None:
                return r[0]
        cands = keys_of(d)

    conds = []
    for x in cands:
        r = eqf(x, k)
        if r is True:
            # any earlier key equal as well would be the same key
            conds.append((x, True))
            break
        if r is not False:
            conds.append((x, r))
    if not conds:
        return _MISS
    if len(conds) == 1 and conds[0][1] is True:
        return conds[0][0]
    en = eng()
    if len(conds) > 3 and conds[-1][1] is not True:
        if not en.decide(b_or([c for _x, c in conds])):
            return _MISS
    for x, c in conds:
        if en.decide(c):
            return x
    return _MISS


def unhashable(k):
    if isinstance(k, (list, dict, set, bytearray)):
        raise TypeError("unhashable type: %r" % type(k).__name__)


def dict_get(d, k, default=None):
    unhashable(k)
    x = find_key(d, k)
    if x is _MISS:
        return default
    return dict.__getitem__(d, x)


def dict_getitem(d, k):
    unhashable(k)
    x = find_key(d, k)
    if x is _MISS:
        miss = getattr(type(d), "__missing__", None)
        if miss is not None:
            if type(d) is defaultdict or isinstance(d, defaultdict):
                if d.default_factory is None:
                    raise KeyError(k)
                v = call(d.default_factory)
                dict_setitem(d, k, v)
                return v
            return miss(d, k)
        raise KeyError(k)
    return dict.__getitem__(d, x)


def _rawset(d, k, v):
    if isinstance(d, OrderedDict):
        OrderedDict.__setitem__(d, k, v)
    else:
        dict.__setitem__(d, k, v)


def _rawdel(d, k):
    if isinstance(d, OrderedDict):
        OrderedDict.__delitem__(d, k)
    else:
        dict.__delitem__(d, k)


def dict_setitem(d, k, v):
    unhashable(k)
    x = find_key(d, k)
    if x is _MISS:
        give_hash(k)
        x = k
    _rawset(d, x, v)


def dict_delitem(d, k):
    x = find_key(d, k)
    if x is _MISS:
        raise KeyError(k)
    _rawdel(d, x)


def dict_pop(d, k, *default):
    x = find_key(d, k)
    if x is _MISS:
        if default:
            return default[0]
        raise KeyError(k)
    v = dict.__getitem__(d, x)
    _rawdel(d, x)
    return v


def dict_setdefault(d, k, default=None):
    x = find_key(d, k)
    if x is _MISS:
        setitem(d, k, default)
        return default
    return dict.__getitem__(d, x)


def dict_update(d, *a, **kw):
    if a:
        o = a[0]
        if isinstance(o, dict):
            for k in keys_of(o):
                setitem_base(d, k, dict.__getitem__(o, k))
        elif hasattr(o, "keys"):
            for k in o.keys():
                setitem_base(d, k, o[k])
        else:
            for k, v in o:
                setitem_base(d, k, v)
    for k, v in kw.items():
        setitem_base(d, k, v)


def setitem_base(d, k, v):
    # dict.update ignores an overriding __setitem__; OrderedDict's heeds it
    if isinstance(d, OrderedDict):
        setitem(d, k, v)
    else:
        dict_setitem(d, k, v)


def mkdict(*a, **kw):
    d = {}
    dict_update(d, *a, **kw)
    return d


def mkodict(*a, **kw):
    d = OrderedDict()
    dict_update(d, *a, **kw)
    return d


def dict_fromkeys(it, value=None):
    d = {}
    for k in it:
        dict_setitem(d, k, value)
    return d


def set_add(s, k):
    unhashable(k)
    x = find_key(s, k)
    if x is _MISS:
        give_hash(k)
        set.add(s, k)


def set_discard(s, k):
    x = find_key(s, k)
    if x is not _MISS:
        set.discard(s, x)


def set_remove(s, k):
    x = find_key(s, k)
    if x is _MISS:
        raise KeyError(k)
    set.remove(s, x)


def set_contains(s, k):
    unhashable(k)
    return find_key(s, k) is not _MISS


def mkset(it=()):
    s = set()
    if isinstance(it, (set, frozenset)):
        return set(it)
    for k in it:
        set_add(s, k)
    return s


def mkfrozenset(it=()):
    return frozenset(mkset(it))


_DVIEWS = (type({}.keys()), type({}.items()), type(OrderedDict().keys()),
           type(OrderedDict().items()))


def is_setlike(x):
    return isinstance(x, (set, frozenset)) or isinstance(x, _DVIEWS)


def as_set(x):
    if isinstance(x, (set, frozenset)):
        return x
    return mkset(x)


def set_op(name, s, *others):
    s = as_set(s)
    t = type(s)
    if name in ("union", "update"):
        out = set(s)
        for o in others:
            for k in o:
                set_add(out, k)
    elif name in ("intersection", "intersection_update"):
        out = set(s)
        for o in others:
            o = as_set(o)
            out = set([k for k in list(out) if set_contains(o, k)])
    elif name in ("difference", "difference_update"):
        out = set(s)
        for o in others:
            o = as_set(o)
            out = set([k for k in list(out) if not set_contains(o, k)])
    elif name in ("symmetric_difference", "symmetric_difference_update"):
        o = as_set(others[0])
        out = set([k for k in s if not set_contains(o, k)])
        for k in o:
            if not set_contains(s, k):
                give_hash(k)
                out.add(k)
    elif name == "issubset":
        o = as_set(others[0])
        return all([set_contains(o, k) for k in s])
    elif name == "issuperset":
        return all([set_contains(s, k) for k in as_set(others[0])])
    elif name == "isdisjoint":
        return not any([set_contains(s, k) for k in as_set(others[0])])
    else:
        raise Unsupported("set." + name)
    if name.endswith("update"):
        set.clear(s)
        set.update(s, out)
        return None
    return frozenset(out) if t is frozenset else out


def set_eq(a, b):
    a, b = as_set(a), as_set(b)
    if len(a) != len(b):
        return False
    for k in a:
        if find_key(b, k) is _MISS:
            return False
    return True


def _setsym(*xs):
    for x in xs:
        if isinstance(x, (set, frozenset, dict)) or isinstance(x, _DVIEWS):
            for k in x:
                if is_symdeep(k):
                    return True
        elif is_symdeep(x):
            return True
    return False


# ---------------------------------------------------------------------
# subscripts

def conc_index(k, n):
    """ a concrete index for symbolic k into a sequence of length n """
    en = eng()
    if not en.decide(b_and((k >= -n, k < n))):
        raise IndexError("index out of range")
    return k.conc()


def conc_slice(k):
    def c(x):
        if type(x) is SymInt:
            # values beyond any length we hold behave alike, but the
            # length is not known here: enumerate
            return x.conc()
        if type(x) is SymBool:
            return int(x)
        return x
    return slice(c(k.start), c(k.stop), c(k.step))


def clamp_slice(k, n):
    """ slices on sequences of length n: symbolic bounds outside of
    [-n, n] are folded to the limits with one fork """
    def c(x):
        if type(x) is SymBool:
            x = x._int()
        if type(x) is SymInt:
            if x >= n:
                return n
            if x <= -n:
                return -n
            return x.conc()
        return x
    return slice(c(k.start), c(k.stop), c(k.step))


def getitem(o, k):
    to = type(o)
    tk = type(k)
    if tk is slice:
        if type(k.start) in SYMTYPES or type(k.stop) in SYMTYPES or \
                type(k.step) in SYMTYPES:
            if hasattr(o, "__len__"):
                k = clamp_slice(k, len(o))
            else:
                k = conc_slice(k)
        return o[k]
    if isinstance(o, dict):
        g = to.__getitem__
        if isinstance(g, types.FunctionType):
            return o[k]
        if to is dict and tk in (int, str) and k in o:
            return o[k]
        return dict_getitem(o, k)
    if tk is SymInt:
        if isinstance(o, (list, tuple, str, bytes)) or to in SYMTYPES:
            n = len(o)
            if to in (list, tuple) and n > 3:
                # merge: many positions may hold plain equal things, but
                # we simply enumerate the feasible ones
                pass
            return o[conc_index(k, n)]
        if isinstance(o, (memoryview, bytearray, range)):
            return o[conc_index(k, len(o))]
    return o[k]


def setitem(o, k, v):
    to = type(o)
    if isinstance(o, dict):
        g = to.__setitem__
        if isinstance(g, types.FunctionType):
            o[k] = v
        else:
            dict_setitem(o, k, v)
        return
    if type(k) is SymInt and isinstance(o, list):
        k = conc_index(k, len(o))
    elif type(k) is slice:
        k = clamp_slice(k, len(o))
    o[k] = v


def setitem_v(v, o, k):
    """ as a statement evaluates: value, object, key """
    setitem(o, k, v)


def delitem(o, k):
    to = type(o)
    if isinstance(o, dict):
        if isinstance(to.__delitem__, types.FunctionType):
            del o[k]
        else:
            dict_delitem(o, k)
        return
    if type(k) is SymInt and isinstance(o, list):
        k = conc_index(k, len(o))
    elif type(k) is slice:
        k = clamp_slice(k, len(o))
    del o[k]


# ---------------------------------------------------------------------
# membership

def contains(x, o):
    """ x in o: bool or SymBool """
    to = type(o)
    if to in SYMTYPES:
        if to is SymStr or to is SymBytes or to is SymMemView:
            if to is SymStr and not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left "
                                "operand, not %s" % type(x).__name__)
            if to is SymMemView:
                return mkbool(b_or([eqf(y, x) for y in o]))
            sub = o._subelems(x)
            n = len(sub)
            return mkbool(b_or([V.seq_eq(o.e[i:i + n], sub)
                                for i in range(0, len(o.e) - n + 1)]))
        raise TypeError("argument of type %r is not iterable"
                        % o.__class__.__name__)
    if isinstance(o, str):
        if type(x) is SymStr:
            sub = x.e
            oe = elems_of(o)
            n = len(sub)
            return mkbool(b_or([V.seq_eq(oe[i:i + n], sub)
                                for i in range(0, len(oe) - n + 1)]))
        return x in o
    if isinstance(o, (bytes, bytearray)):
        if is_sym(x):
            if type(x) is SymInt:
                return mkbool(b_or([eqf(x, c) for c in set(o)]))
            sub = elems_of(x)
            oe = tuple(o)
            n = len(sub)
            return mkbool(b_or([V.seq_eq(oe[i:i + n], sub)
                                for i in range(0, len(oe) - n + 1)]))
        return x in o
    if to is dict or to is set or to is frozenset or isinstance(o, dict):
        if isinstance(to.__contains__, types.FunctionType):
            return x in o
        unhashable(x)
        return find_key(o, x) is not _MISS
    if to is list or to is tuple:
        if not is_symdeep(x) and not is_symdeep(o):
            return x in o
        return mkbool(b_or([eqf(y, x) for y in o]))
    if isinstance(o, _DVIEWS):
        if isinstance(o, (type({}.items()), type(OrderedDict().items()))):
            return mkbool(b_or([eqf(y, x) for y in o]))
        return find_key(o, x) is not _MISS
    if to is range:
        if type(x) is SymInt:
            if o.step == 1:
                return mkbool(b_and((x >= o.start, x < o.stop)))
            return mkbool(b_or([eqf(x, c) for c in o]))
        return x in o
    if isinstance(to, type) and hasattr(to, "__contains__"):
        if isinstance(o, (set, frozenset, list, tuple)):
            return mkbool(b_or([eqf(y, x) for y in o]))
        return x in o
    if is_symdeep(x) and hasattr(o, "__iter__"):
        return any(bool(eq(y, x)) for y in o)
    return x in o


def not_contains(x, o):
    r = contains(x, o)
    if isinstance(r, bool) and type(r) is not SymBool:
        return not r
    return mkbool(b_not(r))


# ---------------------------------------------------------------------
# comparisons

def _lex(a, b, strict):
    """ tuple/list ordering as a formula """
    n = min(len(a), len(b))
    if strict:
        acc = len(a) < len(b)
    else:
        acc = len(a) <= len(b)
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            lt = _lex(x, y, True)
        else:
            if x is y:
                continue
            lt = x < y
            if lt is NotImplemented:
                raise TypeError("'<' not supported")
        acc = b_or((lt, b_and((eqf(x, y), acc))))
    return acc


def compare(op, a, b):
    if op == "==":
        if type(a) in _PLAIN and type(b) in _PLAIN:
            return a == b
        return eq(a, b)
    if op == "!=":
        if type(a) in _PLAIN and type(b) in _PLAIN:
            return a != b
        ta = type(a)
        ne = ta.__ne__
        if isinstance(ne, types.FunctionType) and ta not in SYMTYPES:
            return a != b
        r = eq(a, b)
        if isinstance(r, bool) and type(r) is not SymBool:
            return not r
        return mkbool(b_not(r))
    if op == "in":
        return contains(a, b)
    if op == "not in":
        return not_contains(a, b)
    if op == "is":
        return is_(a, b)
    if op == "is not":
        return not is_(a, b)
    ta, tb = type(a), type(b)
    if ((ta is tuple and tb is tuple) or (ta is list and tb is list)) and \
            (is_symdeep(a) or is_symdeep(b)):
        if op == "<":
            return mkbool(_lex(a, b, True))
        if op == "<=":
            return mkbool(_lex(a, b, False))
        if op == ">":
            return mkbool(_lex(b, a, True))
        return mkbool(_lex(b, a, False))
    if is_setlike(a) and is_setlike(b) and _setsym(a, b):
        if op == "<=":
            return set_op("issubset", a, b)
        if op == ">=":
            return set_op("issuperset", a, b)
        if op == "<":
            return len(a) < len(b) and set_op("issubset", a, b)
        return len(a) > len(b) and set_op("issuperset", a, b)
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def is_(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return bool(a) is b
    if type(b) is SymBool and (a is True or a is False):
        return bool(b) is a
    return a is b


def chain(first, *rest):
    """ a op b op c ...; rest is (op, operand closure, is it pure).  With
    pure operands the conjunction is a single formula, otherwise the
    short-circuit is kept by forking """

    a = first
    res = []
    last = len(rest) - 1
    for i, (op, fn, _p) in enumerate(rest):
        b = fn()
        r = compare(op, a, b)
        if type(r) is not SymBool and not isinstance(r, bool):
            if i == last:
                return r
            r = bool(r)
        if r is False:
            return False
        if i < last and r is not True and \
                not all(p for _o, _f, p in rest[i + 1:]):
            if not r:
                return False
            r = True
        res.append(r)
        a = b
    return mkbool(b_and(res))


# ---------------------------------------------------------------------
# arithmetic that C types would hijack

def binop(op, a, b):
    if op == "%":
        if isinstance(a, (str, bytes)):
            return M.percent(a, b)
        return a % b
    if op in "|&-^" and (is_setlike(a) or is_setlike(b)) and \
            is_setlike(a) and is_setlike(b):
        if _setsym(a, b):
            return set_op({"|": "union", "&": "intersection",
                           "-": "difference",
                           "^": "symmetric_difference"}[op], a, b)
    if op == "|":
        if isinstance(a, dict) and isinstance(b, dict):
            d = mkdict(a)
            dict_update(d, b)
            return d
        return a | b
    if op == "&":
        return a & b
    if op == "-":
        return a - b
    if op == "^":
        return a ^ b
    if op == "*":
        if type(b) is SymInt and isinstance(a, (str, bytes, list, tuple)):
            return a * b.conc()
        return a * b
    raise Unsupported("binop " + op)


_IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul,
         "/": operator.itruediv, "//": operator.ifloordiv,
         "%": operator.imod, "**": operator.ipow, "<<": operator.ilshift,
         ">>": operator.irshift, "&": operator.iand, "|": operator.ior,
         "^": operator.ixor, "@": operator.imatmul}


def iop(op, a, b):
    if op in "|&-^" and isinstance(a, set) and _setsym(a, b):
        set_op({"|": "update", "&": "intersection_update",
                "-": "difference_update",
                "^": "symmetric_difference_update"}[op], a, b)
        return a
    if op in ("%", "|", "&", "-", "^", "*"):
        if not isinstance(a, (set, list, dict)):
            return binop(op, a, b)
    return _IOPS[op](a, b)


def augsub(o, k, op, v):
    setitem(o, k, iop(op, getitem(o, k), v))


def augattr(o, name, op, v):
    setattr(o, name, iop(op, getattr(o, name), v))


def fstr(parts):
    return M.cat(parts)


def fval(v, conv, spec):
    if conv == 114:
        v = M.m_repr(v)
    elif conv == 115:
        v = M.m_str(v)
    elif conv == 97:
        v = M.m_repr(v)
    return M.format_value(v, spec)


def dictdisplay(pairs):
    d = {}
    for k, v in pairs:
        if k is _STAR:
            dict_update(d, v)
        else:
            dict_setitem(d, k, v)
    return d


_STAR = object()
STAR = _STAR


def setdisplay(items):
    return mkset(items)


def tt(x):
    return bool(x)


# ---------------------------------------------------------------------
# range with symbolic bounds

class SymRange(object):

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    @property
    def __class__(self):
        return range

    def __iter__(self):
        step = self.step
        if type(step) is SymInt:
            step = step.conc()
        i = self.start
        if type(i) is SymInt:
            # step symbolically
            pass
        stop = self.stop
        while (i < stop) if step > 0 else (i > stop):
            yield i
            i = i + step

    def length(self):
        step = int(self.step)
        n = (self.stop - self.start + (step - 1 if step > 0 else step + 1))
        n = n // step
        return n if n > 0 else 0

    def __len__(self):
        return int(self.length())

    def __bool__(self):
        return bool(self.start < self.stop) if self.step > 0 else \
            bool(self.start > self.stop)

    def __getitem__(self, k):
        return range(int(self.start), int(self.stop), int(self.step))[k]

    def __contains__(self, x):
        if self.step == 1:
            return bool(mkbool(b_and((x >= self.start, x < self.stop))))
        return x in range(int(self.start), int(self.stop), int(self.step))

    def __reversed__(self):
        return reversed(range(int(self.start), int(self.stop),
                              int(self.step)))


def m_range(*a):
    a = [x._int() if type(x) is SymBool else x for x in a]
    if not any(type(x) is SymInt for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    if len(a) == 2:
        return SymRange(a[0], a[1], 1)
    return SymRange(*a)


# ---------------------------------------------------------------------
# builtin functions

def m_len(x):
    if type(x) is SymRange:
        return x.length()
    return len(x)


def m_bool(*a):
    if not a:
        return False
    x = a[0]
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return x != 0
    if t is SymRange:
        return bool(x)
    return bool(x)


def m_type(*a, **k):
    if len(a) == 1 and not k:
        if type(a[0]) in SYMTYPES or type(a[0]) is SymRange:
            return a[0].__class__
        return type(a[0])
    return type(*a, **k)


def m_print(*args, **kw):
    sep = kw.get("sep")
    end = kw.get("end")
    sep = " " if sep is None else sep
    end = "\n" if end is None else end
    f = kw.get("file")
    if f is None:
        f = sys.stdout
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(sep)
        parts.append(M.m_str(a))
    parts.append(end)
    text = M.cat(parts)
    if f is sys.__stdout__ or f is sys.__stderr__:
        if core.CUR is not None:
            core.CUR.stdout.append(text)
        return
    f.write(text)
    if kw.get("flush"):
        f.flush()


def m_isinstance(x, t):
    return isinstance(x, t)


def m_sorted(it, key=None, reverse=False):
    return sorted(it, key=wrapfn(key), reverse=bool(reverse))


def m_minmax(fn):
    def f(*a, **k):
        if "key" in k:
            k["key"] = wrapfn(k["key"])
        if len(a) > 1 and "key" not in k and all(
                isinstance(x, int) for x in a) and any(
                    type(x) is SymInt for x in a):
            r = a[0]
            for x in a[1:]:
                c = (x < r) if fn is min else (x > r)
                r = x if c else r
            return r
        return fn(*a, **k)
    return f


def wrapfn(f):
    """ a callable safe to hand to C code """
    if f is None or isinstance(f, (types.FunctionType, types.MethodType)):
        if f is not None and f in MODELS:
            return MODELS[f]
        if isinstance(f, types.MethodType):
            return lambda *a, **k: call(f, *a, **k)
        return f
    if isinstance(f, functools.partial):
        return f
    if callable(f):
        def g(*a, **k):
            return call(f, *a, **k)
        return g
    return f


def m_map(f, *its):
    return map(wrapfn(f), *its)


def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(wrapfn(f), it)


def m_reduce(f, *a):
    return functools.reduce(wrapfn(f), *a)


class SymPartial(object):
    """ functools.partial that calls through the runtime """

    def __init__(self, func, *args, **kw):
        self.func, self.args, self.keywords = func, args, kw

    def __call__(self, *a, **k):
        kw = dict(self.keywords)
        kw.update(k)
        return call(self.func, *(self.args + a), **kw)


def m_partial(f, *a, **k):
    return SymPartial(f, *a, **k)


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_iter(*a):
    if len(a) == 2:
        fn, sentinel = a

        def gen():
            while True:
                v = call(fn)
                if eq(v, sentinel):
                    return
                yield v
        return gen()
    return iter(a[0])


def m_repr(x):
    return M.m_repr(x)


def m_hex(x):
    return "0x" + M.int_to_hex(x) if type(x) is SymInt and x.lo >= 0 \
        else hex(x)


def m_getattr(o, name, *d):
    if type(name) is SymStr:
        name = M.to_native(name)
    return getattr(o, name, *d)


def m_hash(x):
    if is_symdeep(x):
        # hash values are not observable beyond equality: refuse
        raise Unsupported("hash() of a symbolic value")
    return hash(x)


def m_format(x, spec=""):
    return M.format_value(x, spec)


def m_float(x=0.0):
    if type(x) is SymFloat:
        return x
    return float(M.deep_native(x))


def m_abs(x):
    return abs(x)


def m_copysign(x, y):
    if type(y) is not SymFloat:
        return _math.copysign(M.deep_native(x), M.deep_native(y))
    n = y.bits.size()
    neg = core.CUR.decide(z3.Extract(n - 1, n - 1, y.bits) == 1)
    return _math.copysign(M.deep_native(x), -1.0 if neg else 1.0)


def m_isnan(x):
    return x != x


def m_divmod(a, b):
    if type(a) is SymInt or type(b) is SymInt:
        return SymInt._divmod(a, a, b) if type(a) is SymInt \
            else b._divmod(a, b)
    return divmod(a, b)


def m_maketrans(*a):
    return str.maketrans(*M.deep_native(a))


def m_open(*a, **k):
    en = core.CUR
    fs = en.extra.get("vfs") if en is not None else None
    if fs is not None:
        return fs.open(*a, **k)
    return open(*M.deep_native(a), **M.deep_native(k))


def _io_bytes(*a, **k):
    return M.SymBytesIO(*a, **k)


def _io_str(*a, **k):
    return M.SymStringIO(*a, **k)


import base64 as _b64           # noqa: E402
import binascii as _binascii    # noqa: E402
import fnmatch as _fnmatch      # noqa: E402
import hashlib as _hl           # noqa: E402
import math as _math            # noqa: E402
import struct as _struct        # noqa: E402
import zlib as _zlib            # noqa: E402


def _fnm(name, pat):
    return M.m_fnmatch(name, pat)


def _fnfilter(names, pat):
    return [n for n in names if M.m_fnmatch(n, pat)]


def _hl_new(name, data=b"", **_k):
    return M.SymHash(name, data)


# operations keyed by the callable itself; applied whatever the arguments
MODELS = {
    len: m_len,
    bool: m_bool,
    type: m_type,
    print: m_print,
    sorted: m_sorted,
    min: m_minmax(min),
    max: m_minmax(max),
    map: m_map,
    filter: m_filter,
    functools.reduce: m_reduce,
    functools.partial: m_partial,
    sum: m_sum,
    any: m_any,
    all: m_all,
    iter: m_iter,
    range: m_range,
    str: M.m_str,
    int: M.m_int,
    bytes: M.m_bytes,
    float: m_float,
    memoryview: M.m_memoryview,
    repr: m_repr,
    ascii: m_repr,
    hex: m_hex,
    chr: M.m_chr,
    ord: M.m_ord,
    hash: m_hash,
    format: m_format,
    getattr: m_getattr,
    divmod: m_divmod,
    _math.copysign: m_copysign,
    _math.isnan: m_isnan,
    set: mkset,
    frozenset: mkfrozenset,
    dict: mkdict,
    OrderedDict: mkodict,
    dict.fromkeys: dict_fromkeys,
    open: m_open,
    io.BytesIO: _io_bytes,
    io.StringIO: _io_str,
    int.from_bytes: M.int_from_bytes,
    _struct.Struct: lambda fmt: M._st(fmt),
    _struct.unpack: M.struct_unpack,
    _struct.unpack_from: M.struct_unpack_from,
    _struct.pack: M.struct_pack,
    _struct.calcsize: M.struct_calcsize,
    _struct.iter_unpack: M.struct_iter_unpack,
    _b64.b64encode: M.m_b64encode,
    _b64.standard_b64encode: M.m_b64encode,
    _zlib.crc32: M.m_crc32,
    _binascii.crc32: M.m_crc32,
    _fnmatch.fnmatch: _fnm,
    _fnmatch.fnmatchcase: _fnm,
    _fnmatch.filter: _fnfilter,
    _hl.new: _hl_new,
    operator.eq: lambda a, b: compare("==", a, b),
    operator.ne: lambda a, b: compare("!=", a, b),
    operator.contains: lambda a, b: contains(b, a),
    operator.getitem: getitem,
    operator.mod: lambda a, b: binop("%", a, b),
}

for _n in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512"):
    MODELS[getattr(_hl, _n)] = M.hash_ctor(_n)


_DICTM = {"get": dict_get, "pop": dict_pop, "setdefault": dict_setdefault,
          "update": dict_update, "__contains__": lambda d, k:
          find_key(d, k) is not _MISS, "__getitem__": dict_getitem,
          "__setitem__": dict_setitem, "__delitem__": dict_delitem,
          "fromkeys": dict_fromkeys}
_SETM = {"add": set_add, "discard": set_discard, "remove": set_remove,
         "__contains__": set_contains}
_SETOPS = frozenset(("union", "intersection", "difference", "issubset",
                     "issuperset", "isdisjoint", "symmetric_difference",
                     "update", "intersection_update", "difference_update",
                     "symmetric_difference_update"))

_BUILTIN_METHOD = type([].append)
_SLOT = type(dict.__init__)
_MDESC = type(str.join)
_MWRAP = type({}.__init__)

_PASS_LIST = frozenset(("append", "extend", "insert", "pop", "sort",
                        "reverse", "clear", "copy", "__init__"))


def method(o, name, f, a, k):
    """ call of a C method `name` of the native object o """

    if isinstance(o, dict):
        m = _DICTM.get(name)
        if m is not None:
            if name in ("get", "__contains__", "__getitem__") and \
                    len(a) and type(a[0]) in (str, int) and \
                    dict.__contains__(o, a[0]):
                return f(*a, **k)
            return m(o, *a, **k)
        if name == "__init__":
            if a or k:
                dict_update(o, *a, **k)
                return None
            return f(*a, **k)
        if name == "copy":
            return f()
        return f(*a, **k)
    if isinstance(o, (set, frozenset)):
        if name in _SETM:
            return _SETM[name](o, *a)
        if name in _SETOPS:
            a = [x if is_setlike(x) else list(x) for x in a]
            if _setsym(o, *a):
                return set_op(name, o, *a)
            return f(*a)
        return f(*a, **k)
    if isinstance(o, str) or isinstance(o, (bytes, bytearray)):
        if name == "join":
            parts = list(a[0])
            if any(type(p) in SYMTYPES for p in parts):
                cls = SymStr if isinstance(o, str) else SymBytes
                return cls(elems_of(o)).join(parts)
            return f(parts)
        if name == "format":
            return M.str_format(o, a, k)
        if is_symdeep(a) or (k and is_symdeep(tuple(k.values()))):
            cls = SymStr if isinstance(o, str) else SymBytes
            m = getattr(cls, name, None)
            if m is None:
                raise Unsupported("%s.%s" % (cls.__name__, name))
            return m(cls(elems_of(o)), *a, **k)
        return f(*a, **k)
    if isinstance(o, (list, tuple)):
        if name in ("index", "count", "remove", "__contains__") and \
                (is_symdeep(o) or is_symdeep(a)):
            x = a[0]
            if name == "count":
                return sum(1 for y in o if eq(y, x))
            if name == "__contains__":
                return contains(x, o)
            for i, y in enumerate(o):
                if eq(y, x):
                    if name == "remove":
                        del o[i]
                        return None
                    return i
            raise ValueError("list.%s(x): x not in list" % name)
        if name == "sort":
            if k.get("key") is not None:
                k["key"] = wrapfn(k["key"])
            return f(*a, **k)
        if name in ("pop", "insert") and a and type(a[0]) is SymInt:
            a = (a[0].conc(),) + tuple(a[1:])
        return f(*a, **k)
    return None


def import_(rename, name):
    for old, new in rename:
        if name == old or name.startswith(old + "."):
            name = new + name[len(old):]
    return __import__(name)


def call(f, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        return f(*a, **k)
    if t is types.MethodType:
        m = MODELS.get(f.__func__) if type(f.__func__) is \
            types.FunctionType else None
        if m is not None:
            return m(f.__self__, *a, **k)
        return f(*a, **k)
    if t is SymPartial:
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if t is _BUILTIN_METHOD:
        o = f.__self__
        if o is None or isinstance(o, types.ModuleType):
            return native(f, a, k)
        if isinstance(o, type):
            m = getattr(o, "__dict__", {}).get(f.__name__)
            if isinstance(o, type) and issubclass(o, dict) and \
                    f.__name__ == "fromkeys":
                return dict_fromkeys(*a)
            return native(f, a, k)
        if isinstance(o, (dict, set, frozenset, str, bytes, bytearray, list,
                          tuple)):
            return method(o, f.__name__, f, a, k)
        return native(f, a, k)
    if t is _MWRAP:
        o = f.__self__
        if isinstance(o, (dict, set, frozenset, list, tuple, str, bytes)):
            return method(o, f.__name__, f, a, k)
        return f(*a, **k)
    if t is _SLOT or t is _MDESC:
        # unbound: dict.__init__(self), OrderedDict.__setitem__(self, k, v)
        if a:
            o = a[0]
            name = f.__name__
            if type(o) in SYMTYPES and t is _MDESC:
                return getattr(o, name)(*a[1:], **k)
            if isinstance(o, (dict, set, frozenset, list, tuple, str,
                              bytes)):
                return method(o, name, functools.partial(f, o), a[1:], k)
        return f(*a, **k)
    if isinstance(f, type):
        mod = getattr(f, "__module__", None)
        if mod == "builtins":
            if issubclass(f, BaseException) or f in _GENERIC_TYPES:
                return f(*a, **k)
            return native(f, a, k)
        return f(*a, **k)
    return f(*a, **k)


_GENERIC_TYPES = frozenset((list, tuple, zip, enumerate, reversed, object,
                            property, staticmethod, classmethod, super,
                            slice))

# C functions that treat their arguments generically
_GENERIC = frozenset((isinstance, issubclass, hasattr, setattr, callable, id,
                      next, iter, vars, dir, delattr, abs, round, pow))


def native(f, a, k):
    """ a C function without a model """
    if f in _GENERIC:
        return f(*a, **k)
    if is_symdeep(a) or (k and is_symdeep(k)):
        en = core.CUR
        name = getattr(f, "__qualname__", repr(f))
        en.extra.setdefault("concretized", set()).add(name)
        return f(*M.deep_native(a), **M.deep_native(k))
    return f(*a, **k)
