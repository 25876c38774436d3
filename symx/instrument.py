"""
Loads the real sources under another package name with every call,
subscript, comparison and a few operators routed through symx.rt.

The transformation is a pure syntax rewrite of the current working tree,
done anew in every run.
"""

import ast
import copy
import importlib.abc
import importlib.util
import os
import sys
import types

from . import rt

RT = "__symx_rt__"

_BIN = {ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^",
        ast.Sub: "-", ast.Mult: "*"}
_AUG = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
        ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&",
        ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=",
        ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "not in",
        ast.Is: "is", ast.IsNot: "is not"}

_NOCALL = frozenset(("super", "locals", "globals", "vars", "dir", "eval",
                     "exec", "__import__"))


def _rt(name):
    return ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_rt(name), list(args), [])


def _lam(body):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), body)


class Rewriter(ast.NodeTransformer):

    def __init__(self, rename):
        self.rename = rename      # {"javatools": "symjavatools", ...}
        self.depth = 0

    # -- imports ---------------------------------------------------------

    def _mod(self, name):
        for old, new in self.rename.items():
            if name == old or name.startswith(old + "."):
                return new + name[len(old):]
        return name

    def visit_Import(self, node):
        out = []
        for al in node.names:
            new = self._mod(al.name)
            if new == al.name:
                out.append(ast.Import([al]))
            elif al.asname or "." not in al.name:
                out.append(ast.Import([ast.alias(
                    new, al.asname or al.name)]))
                if not al.asname and "." not in new:
                    pass
            else:
                # import javatools.opcodes  (binds the top name)
                out.append(ast.Import([ast.alias(new, None)]))
                out.append(ast.Assign(
                    [ast.Name(al.name.split(".")[0], ast.Store())],
                    ast.Name(new.split(".")[0], ast.Load())))
        return [ast.copy_location(x, node) for x in out]

    def visit_ImportFrom(self, node):
        if node.module and not node.level:
            node.module = self._mod(node.module)
        return node

    # -- expressions -----------------------------------------------------

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == "VFFSL":
            # compiled templates: a name looked up in the calling frame
            return ast.copy_location(_call(
                "vffsl", ast.Call(ast.Name("locals", ast.Load()), [], []),
                ast.Call(ast.Name("globals", ast.Load()), [], []),
                *[self.visit(a) for a in node.args]), node)
        if isinstance(node.func, ast.Name) and \
                node.func.id == "__import__" and len(node.args) == 1:
            return ast.copy_location(_call(
                "import_", ast.Constant(tuple(self.rename.items())),
                self.visit(node.args[0])), node)
        if isinstance(node.func, ast.Name) and node.func.id in _NOCALL:
            node.args = [self.visit(a) for a in node.args]
            return node
        func = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value))
               for k in node.keywords]
        return ast.copy_location(
            ast.Call(_rt("call"), [func] + args, kws), node)

    def visit_Subscript(self, node):
        if not isinstance(node.ctx, ast.Load):
            # stores and deletes are rewritten at statement level
            node.value = self.visit(node.value)
            node.slice = self.visit(node.slice)
            return node
        return ast.copy_location(
            _call("getitem", self.visit(node.value),
                  self._slice(node.slice)), node)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [
                self.visit(s.lower) if s.lower else none,
                self.visit(s.upper) if s.upper else none,
                self.visit(s.step) if s.step else none], [])
        return self.visit(s)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            op = _CMP[type(node.ops[0])]
            a, b = self.visit(node.left), self.visit(node.comparators[0])
            if op in ("is", "is not"):
                if isinstance(b, ast.Constant) and b.value is None:
                    return ast.copy_location(
                        ast.Compare(a, node.ops, [b]), node)
            return ast.copy_location(
                _call("compare", ast.Constant(op), a, b), node)
        rest = []
        for op, c in zip(node.ops, node.comparators):
            pure = isinstance(c, (ast.Name, ast.Constant))
            rest.append(ast.Tuple([ast.Constant(_CMP[type(op)]),
                                   _lam(self.visit(c)),
                                   ast.Constant(pure)], ast.Load()))
        return ast.copy_location(
            _call("chain", self.visit(node.left), *rest), node)

    def visit_BinOp(self, node):
        op = _BIN.get(type(node.op))
        node.left = self.visit(node.left)
        node.right = self.visit(node.right)
        if op is None:
            return node
        return ast.copy_location(
            _call("binop", ast.Constant(op), node.left, node.right), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec \
                    else ast.Constant("")
                parts.append(_call("fval", self.visit(v.value),
                                   ast.Constant(v.conversion), spec))
        return ast.copy_location(
            _call("fstr", ast.List(parts, ast.Load())), node)

    def visit_Dict(self, node):
        if not node.keys:
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            key = self.visit(k) if k is not None else _rt("STAR")
            pairs.append(ast.Tuple([key, self.visit(v)], ast.Load()))
        return ast.copy_location(
            _call("dictdisplay", ast.List(pairs, ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("setdisplay", ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("setdisplay", ast.ListComp(node.elt, node.generators)),
            node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("dictdisplay", ast.ListComp(
                ast.Tuple([node.key, node.value], ast.Load()),
                node.generators)), node)

    # -- statements ------------------------------------------------------

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_call(
                "setitem_v", node.value, self.visit(t.value),
                self._slice(t.slice))), node)
        post = []
        node.targets = [self._target(t, post) for t in node.targets]
        if post:
            return [node] + [ast.copy_location(p, node) for p in post]
        return node

    def _target(self, t, post):
        """ assignment targets; nested subscript stores go through a
        temporary """
        if isinstance(t, ast.Subscript):
            tmp = "__symx_t%d" % self._tmp()
            post.append(ast.Expr(_call(
                "setitem", self.visit(t.value), self._slice(t.slice),
                ast.Name(tmp, ast.Load()))))
            return ast.Name(tmp, ast.Store())
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._target(x, post) for x in t.elts]
            return t
        if isinstance(t, ast.Starred):
            t.value = self._target(t.value, post)
            return t
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
            return t
        return t

    _n = 0

    def _tmp(self):
        Rewriter._n += 1
        return Rewriter._n

    def visit_AugAssign(self, node):
        op = _AUG[type(node.op)]
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(
                [t], _call("iop", ast.Constant(op),
                           ast.Name(t.id, ast.Load()), v)), node)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Expr(_call(
                "augattr", self.visit(t.value), ast.Constant(t.attr),
                ast.Constant(op), v)), node)
        return ast.copy_location(ast.Expr(_call(
            "augsub", self.visit(t.value), self._slice(t.slice),
            ast.Constant(op), v)), node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call("delitem", self.visit(t.value),
                                          self._slice(t.slice))))
            else:
                out.append(ast.Delete([t]))
        return [ast.copy_location(x, node) for x in out]

    def visit_For(self, node):
        post = []
        node.target = self._target(node.target, post)
        node.iter = self.visit(node.iter)
        node.body = post + [y for x in node.body
                            for y in self._stmts(x)]
        node.orelse = [y for x in node.orelse for y in self._stmts(x)]
        return node

    def _stmts(self, x):
        r = self.visit(x)
        if r is None:
            return []
        return r if isinstance(r, list) else [r]

    def visit_MatchValue(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.generic_visit(node.args) or node.args
        node.body = [y for x in node.body for y in self._stmts(x)]
        node.returns = None
        for a in (node.args.posonlyargs + node.args.args +
                  node.args.kwonlyargs):
            a.annotation = None
        return node

    visit_AsyncFunctionDef = visit_FunctionDef


def transform(source, filename, rename):
    tree = ast.parse(source, filename)
    # docstrings and __future__ imports stay in front
    tree = Rewriter(rename).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):

    def __init__(self, finder, path):
        self.finder = finder
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as fd:
            src = fd.read()
        code = transform(src, self.path, self.finder.rename)
        module.__dict__[RT] = rt
        self.finder.loaded[module.__name__] = (module, self.path, src)
        exec(code, module.__dict__)    # pylint: disable=exec-used


class Finder(importlib.abc.MetaPathFinder):
    """ serves package `alias` from directory `root` """

    def __init__(self, mapping, rename):
        self.mapping = mapping      # alias -> directory or file
        self.rename = rename
        self.loaded = {}

    def find_spec(self, fullname, path=None, target=None):
        for alias, root in self.mapping.items():
            if fullname == alias or fullname.startswith(alias + "."):
                rel = fullname[len(alias):].lstrip(".").replace(".", "/")
                base = os.path.join(root, rel) if rel else root
                if os.path.isfile(base) and not rel:
                    fn, pkg = base, False
                elif os.path.isfile(os.path.join(base, "__init__.py")):
                    fn, pkg = os.path.join(base, "__init__.py"), True
                elif os.path.isfile(base + ".py"):
                    fn, pkg = base + ".py", False
                else:
                    continue
                spec = importlib.util.spec_from_loader(
                    fullname, Loader(self, fn), origin=fn, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [
                        os.path.dirname(fn)]
                spec.has_location = True
                return spec
        return None


# ---------------------------------------------------------------------
# module level state is put back before every path

def _same(a, b):
    if len(a) != len(b):
        return False
    if isinstance(a, list):
        return all(x is y for x, y in zip(a, b))
    if isinstance(a, dict):
        return all(k is j and v is w for (k, v), (j, w)
                   in zip(a.items(), b.items()))
    return set(map(id, a)) == set(map(id, b))


class State(object):

    def __init__(self, modules):
        self.saved = []
        seen = set()
        for mod in modules:
            for name, val in list(vars(mod).items()):
                if name.startswith("__"):
                    continue
                self._save(val, seen)
                if isinstance(val, type) and \
                        val.__module__ == mod.__name__:
                    for n2, v2 in list(vars(val).items()):
                        if not n2.startswith("__"):
                            self._save(v2, seen)
                            self._func(v2, seen)
                self._func(val, seen)
            self.saved.append(("mod", mod, dict(vars(mod))))

    def _func(self, f, seen):
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        if isinstance(f, types.FunctionType):
            for d in (f.__defaults__ or ()):
                self._save(d, seen)
            if f.__kwdefaults__:
                for d in f.__kwdefaults__.values():
                    self._save(d, seen)
            if f.__dict__:
                self._save(f.__dict__, seen)
            for c in (f.__closure__ or ()):
                try:
                    self._save(c.cell_contents, seen)
                except ValueError:
                    pass

    def _save(self, val, seen):
        if id(val) in seen:
            return
        if type(val) is dict or type(val) is set or type(val) is list:
            seen.add(id(val))
            self.saved.append(("obj", val, copy.copy(val)))

    def restore(self):
        for kind, val, old in self.saved:
            if kind == "mod":
                d = vars(val)
                if len(d) != len(old):
                    for k in list(d):
                        if k not in old:
                            del d[k]
                for k, v in old.items():
                    if d.get(k, None) is not v:
                        d[k] = v
            elif not _same(val, old):
                if isinstance(val, list):
                    val[:] = old
                else:
                    val.clear()
                    val.update(old)
