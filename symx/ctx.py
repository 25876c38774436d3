"""
What a harness sees.  The same harness text runs symbolically (over the
instrumented sources) and concretely (over the real package) when a model
is replayed.
"""

import base64
import io
import sys

import z3

from . import core, values as V, models as M, rt
from .core import CheckFailed, PathAbort


class ReplayAbort(BaseException):
    """ a concrete replay left the assumptions of the harness """


def enc(v):
    """ JSON-able form of an input value """
    if isinstance(v, bytes):
        return {"b": base64.b64encode(v).decode()}
    if isinstance(v, float):
        return {"f": v.hex() if v == v else "nan"}
    return v


def dec(v):
    if isinstance(v, dict):
        if "b" in v:
            return base64.b64decode(v["b"])
        if "f" in v:
            return float("nan") if v["f"] == "nan" else \
                float.fromhex(v["f"])
    return v


class SymCtx(object):

    symbolic = True

    def __init__(self, engine):
        self.e = engine

    # -- inputs ----------------------------------------------------------

    def _in(self, name, v):
        self.e.inputs.append((name, v))
        return v

    def _ranges(self, t, ranges):
        if not ranges:
            return
        self.e.assume(z3.Or([t == a if a == b else
                             z3.And(z3.UGE(t, a), z3.ULE(t, b))
                             for a, b in ranges]))

    def bytes(self, name, n, ranges=None):
        """ n symbolic bytes, optionally limited to the (lo, hi) ranges """
        e = []
        for i in range(n):
            t = z3.BitVec("%s[%d]" % (name, i), 8)
            self._ranges(t, ranges)
            e.append(t)
        return self._in(name, V.mkbytes(e))

    def str(self, name, n, ranges=((32, 126),)):
        e = []
        top = max(b for _a, b in ranges)
        for i in range(n):
            if top <= 0xFF:
                t = z3.BitVec("%s[%d]" % (name, i), 8)
            else:
                t = z3.BitVec("%s[%d]u" % (name, i), 21)
            self._ranges(t, ranges)
            e.append(z3.ZeroExt(13, t) if top <= 0xFF else t)
        return self._in(name, V.mkstr(e))

    def int(self, name, lo, hi):
        if lo == hi:
            return self._in(name, lo)
        w = V.need(lo, hi)
        t = z3.BitVec("%s:%d" % (name, w), w)
        if lo != -(1 << (w - 1)) or hi != (1 << (w - 1)) - 1:
            self.e.assume(z3.And(t >= lo, t <= hi))
        return self._in(name, V.mkint(t, lo, hi))

    def bool(self, name):
        return self._in(name, V.SymBool(z3.Bool(name)))

    def choose(self, name, options):
        """ exhaustive case split over a concrete list """
        options = list(options)
        i = self.e.choose(len(options), name)
        self._in(name, i)
        return options[i]

    # -- assertions --------------------------------------------------------

    def assume(self, c):
        self.e.assume(V.bterm(c))

    def check(self, c, msg, key=None):
        self.e.check(V.bterm(c), msg, key)

    def fail(self, msg, key=None):
        self.e.check(False, msg, key)

    def cover(self, label):
        self.e.path_covers.add(label)

    def observe(self, label, value):
        self.e.observed.append((label, value))

    def decide(self, c):
        return bool(c)

    # -- formula helpers -----------------------------------------------------

    def eq(self, a, b):
        return rt.eq(a, b)

    def and_(self, *cs):
        return V.mkbool(V.b_and(cs))

    def or_(self, *cs):
        return V.mkbool(V.b_or(cs))

    def not_(self, c):
        return V.mkbool(V.b_not(c))

    def implies(self, a, b):
        return V.mkbool(V.b_or((V.b_not(a), b)))

    def iff(self, a, b):
        """ do the truth values of a and b agree """
        a, b = V.bterm(a), V.bterm(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            return V.mkbool(b if a else V.b_not(b))
        if isinstance(b, bool):
            return V.mkbool(a if b else V.b_not(a))
        return V.mkbool(a == b)

    def ite(self, c, a, b):
        """ c ? a : b for integers """
        c = V.bterm(c)
        if isinstance(c, bool):
            return a if c else b
        lo = min(V.bounds(a)[0], V.bounds(b)[0])
        hi = max(V.bounds(a)[1], V.bounds(b)[1])
        w = V.need(lo, hi)
        return V.mkint(z3.If(c, V.iterm(a, w), V.iterm(b, w)), lo, hi)

    def conc(self, x):
        """ a plain value; every feasible one is explored """
        if type(x) is V.SymInt:
            return x.conc()
        if type(x) is V.SymBool:
            return bool(x)
        return M.deep_native(x)

    def truth(self, x):
        """ truth value as a bool or symbolic bool, without forking """
        return V.mkbool(V.bterm(x))

    def stdout(self):
        r = M.cat(self.e.stdout)
        return r

    def mark(self, why):
        self.e.mark_incomplete(why)

    # -- files and output --------------------------------------------------

    def fs(self):
        """ the file system of this path """
        from . import vfs
        fs = self.e.extra.get("vfs")
        if fs is None:
            fs = self.e.extra["vfs"] = vfs.load().FS()
        return fs

    def output(self, fn, *a, **k):
        """ (what fn returns, what it prints) """
        out = M.SymStdout()
        saved, sys.stdout = sys.stdout, out
        try:
            r = rt.call(fn, *a, **k)
        finally:
            sys.stdout = saved
        return r, out.text()

    @property
    def extra(self):
        return self.e.extra


class ConcCtx(object):

    symbolic = False

    def __init__(self, inputs):
        self.inputs = [(n, dec(v)) for n, v in inputs]
        self.pos = 0
        self.observed = []
        self.covers = set()
        self.extra = {}
        self._fs = None

    def _in(self, name):
        if self.pos >= len(self.inputs):
            raise ReplayAbort("no input left for %r" % name)
        n, v = self.inputs[self.pos]
        if n != name:
            raise ReplayAbort("input %r where %r was recorded" % (name, n))
        self.pos += 1
        return v

    def bytes(self, name, n, ranges=None):
        return self._in(name)

    def str(self, name, n, ranges=None):
        return self._in(name)

    def int(self, name, lo, hi):
        return self._in(name)

    def bool(self, name):
        return self._in(name)

    def choose(self, name, options):
        return list(options)[self._in(name)]

    def assume(self, c):
        if not c:
            raise ReplayAbort("assumption")

    def check(self, c, msg, key=None):
        if not c:
            raise CheckFailed(msg, key)

    def fail(self, msg, key=None):
        raise CheckFailed(msg, key)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def decide(self, c):
        return bool(c)

    def eq(self, a, b):
        return a == b

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def conc(self, x):
        return x

    def truth(self, x):
        return bool(x)

    def mark(self, why):
        pass

    def fs(self):
        from . import vfs
        if self._fs is None:
            self._fs = vfs.RealFS()
        return self._fs

    def cleanup(self):
        if self._fs is not None:
            self._fs.cleanup()

    def output(self, fn, *a, **k):
        raw = io.BytesIO()
        out = io.TextIOWrapper(raw, encoding="utf-8", newline="\n",
                               write_through=True)
        saved, sys.stdout = sys.stdout, out
        try:
            r = fn(*a, **k)
        finally:
            sys.stdout = saved
        out.flush()
        return r, raw.getvalue().decode("utf-8")
