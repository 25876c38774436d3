"""
The templates of the HTML reports: compiled from their current sources as
the build does, and made importable below both javatools.cheetah and its
instrumented twin.
"""

import atexit
import glob
import os
import shutil
import tempfile

from . import rt, values as V

DEST = None


def compile_all(repo, dest):
    from Cheetah.Compiler import Compiler
    conf = os.path.join(repo, "extras", "cheetah.cfg")
    for fn in sorted(glob.glob(os.path.join(repo, "javatools", "cheetah",
                                            "*.tmpl"))):
        name = os.path.basename(fn)[:-5]
        comp = Compiler(file=fn, moduleName=name)
        if os.path.exists(conf):
            with open(conf, "rt") as fd:
                comp.updateSettingsFromConfigFileObj(fd)
        comp.setShBang("")
        with open(os.path.join(dest, name + ".py"), "w") as out:
            out.write(str(comp))


def _cleanup(pid):
    if DEST and os.getpid() == pid:
        shutil.rmtree(DEST, ignore_errors=True)


def prepare(finder, repo):
    """ compile the templates, and load all of them """
    global DEST
    if DEST is not None:
        return
    import importlib
    DEST = tempfile.mkdtemp(prefix="symx-cheetah-")
    atexit.register(_cleanup, os.getpid())
    compile_all(repo, DEST)
    finder.mapping["symjavatools.cheetah"] = DEST
    for top in ("javatools", "symjavatools"):
        pkg = importlib.import_module(top + ".cheetah")
        pkg.__path__.append(DEST)
        for fn in sorted(os.listdir(DEST)):
            if fn.endswith(".py"):
                importlib.import_module(top + ".cheetah." + fn[:-3])
    install()


# ---------------------------------------------------------------------
# names in templates

def _step(obj, name, auto):
    from collections.abc import Mapping
    from Cheetah.NameMapper import NotFound, _isInstanceOrClass
    for key in name.split("."):
        if isinstance(obj, Mapping) and key in obj:
            nxt = rt.getitem(obj, key)
        else:
            try:
                nxt = getattr(obj, key)
            except AttributeError:
                raise NotFound("cannot find '%s'" % key)
        if auto and callable(nxt) and not _isInstanceOrClass(nxt):
            obj = rt.call(nxt)
        else:
            obj = nxt
    return obj


def vffsl(loc, glob_, sl, name, auto=False):
    import builtins
    from Cheetah.NameMapper import NotFound, hasKey
    key = name.split(".")[0]
    for space in [loc] + list(sl) + [glob_, vars(builtins)]:
        if hasKey(space, key):
            return _step(space, name, auto)
    raise NotFound("cannot find '%s'" % key)


def vfn(obj, name, auto=False):
    return _step(obj, name, auto)


def vfsl(sl, name, auto=False):
    from Cheetah.NameMapper import NotFound, hasKey
    key = name.split(".")[0]
    for space in sl:
        if hasKey(space, key):
            return _step(space, name, auto)
    raise NotFound("cannot find '%s'" % key)


def install():
    from Cheetah import NameMapper, Filters
    rt.MODELS[NameMapper.valueForName] = vfn
    rt.MODELS[NameMapper.valueFromSearchList] = vfsl

    def filt(self, val, encoding=None, str=str, **kw):
        if val is None:
            return ""
        if isinstance(val, V.SymStr):
            return val
        return rt.call(str, val)
    rt.MODELS[Filters.Filter.filter] = filt


rt.vffsl = vffsl
