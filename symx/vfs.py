"""
Files: the plain half of the symbolic file system (vfs_src), the models
of the functions that reach it, and its twin on the real disk for replays.
"""

import io
import os
import posixpath
import shutil
import stat
import sys
import tempfile
import warnings
import zipfile
import zlib

from . import core, models as M, rt, values as V
from .core import Unsupported    # noqa: F401

SameFileError = shutil.SameFileError
MTIME = 1000000000
SRC = None


def load():
    """ the rewritten half """
    global SRC
    if SRC is None:
        import importlib
        SRC = importlib.import_module("symvfs")
    return SRC


def current():
    en = core.CUR
    return en.extra.get("vfs") if en is not None else None


def alive(fs):
    return current() is fs


class StatResult(object):

    def __init__(self, mode, size, mtime):
        self.st_mode, self.st_size, self.st_mtime = mode, size, mtime
        self.st_mtime_ns = mtime * 1000000000
        self.st_atime = self.st_ctime = mtime
        self.st_uid = self.st_gid = 0
        self.st_ino = self.st_dev = 0
        self.st_nlink = 1

    def __getitem__(self, i):
        return (self.st_mode, 0, 0, 1, 0, 0, self.st_size, self.st_atime,
                self.st_mtime, self.st_ctime)[i]


def be(n, size):
    return int(n).to_bytes(size, "big")


def num(b):
    return int.from_bytes(bytes(V.elems_of(b)), "big")


def plain_join(a, b):
    return posixpath.join(a, b)


def known_prefix(data, magic):
    e = V.elems_of(data)[:len(magic)]
    return all(type(x) is int for x in e) and bytes(e) == magic


def frozen(data):
    return V.mkbytes(list(V.elems_of(data)))


def crc(data):
    if type(data) is bytes:
        return zlib.crc32(data)
    return M.m_crc32(data)


def packed(data, method):
    if method == 0:
        return len(data)
    if type(data) is not bytes:
        raise Unsupported("compressed size of unknown contents")
    z = zlib.compressobj(-1, zlib.DEFLATED, -15)
    return len(z.compress(data) + z.flush())


class BinFile(M.SymBytesIO):

    def __init__(self, node, name, mode):
        M.SymBytesIO.__init__(self, node.data)
        self.node = node
        self.name = name
        self.mode = mode
        if "a" in mode:
            self._p = len(self._e)
        self._r = "r" in mode or "+" in mode
        self._w = "r" not in mode or "+" in mode

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def read(self, n=-1):
        if not self._r:
            raise io.UnsupportedOperation("read")
        return M.SymBytesIO.read(self, n)

    read1 = read

    def readline(self, limit=-1):
        if not self._r:
            raise io.UnsupportedOperation("read")
        return M.SymBytesIO.readline(self, limit)

    def readinto(self, buf):
        raise Unsupported("readinto")

    def getvalue(self):
        raise AttributeError("getvalue")

    def write(self, data):
        if not self._w:
            raise io.UnsupportedOperation("write")
        n = M.SymBytesIO.write(self, data)
        self.node.data = V.mkbytes(list(self._e))
        return n

    def truncate(self, size=None):
        n = M.SymBytesIO.truncate(self, size)
        self.node.data = V.mkbytes(list(self._e))
        return n

    def fileno(self):
        raise Unsupported("fileno")


class EntryFile(M.SymBytesIO):

    def __init__(self, data, name):
        M.SymBytesIO.__init__(self, data)
        self.name = name
        self.mode = "r"

    def write(self, data):
        raise io.UnsupportedOperation("write")


class TextReader(M.SymStringIO):

    def __init__(self, node, name, mode, encoding, errors, newline):
        if newline not in (None, "\n"):
            raise Unsupported("newline=%r" % (newline,))
        M.SymStringIO.__init__(self, "")
        self.node, self.name, self.mode = node, name, mode
        self.encoding = encoding or "utf-8"
        self.errors = errors or "strict"
        self.newline = newline
        self._todo = True

    def _load(self):
        self._chk()
        if not self._todo:
            return
        data = self.node.data
        if type(data) is bytes:
            text = data.decode(self.encoding, self.errors)
        else:
            text = rt.call(data.decode, self.encoding, self.errors)
        e = list(V.elems_of(text))
        self._todo = False
        if self.newline is None:
            out = []
            i = 0
            en = core.CUR
            while i < len(e):
                x = e[i]
                i += 1
                if x == 13 if type(x) is int else en.decide(x == 13):
                    if i < len(e):
                        y = e[i]
                        if y == 10 if type(y) is int else \
                                en.decide(y == 10):
                            i += 1
                    x = 10
                out.append(x)
            e = out
        self._e = e

    def read(self, n=-1):
        self._load()
        return M.SymStringIO.read(self, n)

    def readline(self, limit=-1):
        self._load()
        return M.SymStringIO.readline(self, limit)

    def write(self, data):
        raise io.UnsupportedOperation("not writable")

    def getvalue(self):
        raise AttributeError("getvalue")

    def fileno(self):
        raise Unsupported("fileno")


class TextWriter(M.SymStringIO):

    def __init__(self, node, name, mode, encoding, errors, newline):
        M.SymStringIO.__init__(self, "")
        self.node, self.name, self.mode = node, name, mode
        self.encoding = encoding or "utf-8"
        self.errors = errors or "strict"
        self.newline = newline

    def write(self, data):
        self._chk()
        if not isinstance(data, str):
            raise TypeError("write() argument must be str, not %s"
                            % type(data).__name__)
        if self.newline not in (None, "", "\n"):
            raise Unsupported("newline=%r" % (self.newline,))
        b = data.encode(self.encoding, self.errors) if type(data) is str \
            else rt.call(data.encode, self.encoding, self.errors)
        self.node.data = M.cat_bytes([self.node.data, b])
        return len(data)

    def read(self, n=-1):
        raise io.UnsupportedOperation("not readable")

    readline = read

    def getvalue(self):
        raise AttributeError("getvalue")

    def fileno(self):
        raise Unsupported("fileno")


# ---------------------------------------------------------------------
# models

def _ours(p):
    """ is the path one of the symbolic file system """
    if hasattr(p, "__fspath__"):
        p = p.__fspath__()
    if type(p) is V.SymStr:
        return True
    if isinstance(p, bytes):
        p = p.decode("utf-8", "replace")
    if not isinstance(p, str):
        return False
    if p.startswith("/"):
        return p == "/vfs" or p.startswith("/vfs/")
    return True


def _path_model(real, name, npaths=1):
    """ functions of paths that touch files """
    def m(*a, **k):
        fs = current()
        if fs is None:
            return real(*M.deep_native(a), **M.deep_native(k))
        if a and not any(_ours(x) for x in a[:npaths]):
            return real(*a, **k)
        return getattr(load(), name)(fs, *a, **k)
    rt.MODELS[real] = m


def _pure_model(real, name):
    """ functions of the text of paths """
    def m(*a, **k):
        if not rt.is_symdeep(a) and not rt.is_symdeep(k) and \
                (current() is None or name not in ("abspath", "relpath")):
            return real(*a, **k)
        return getattr(load(), name)(current(), *a, **k)
    rt.MODELS[real] = m


def _ctor_model(real, name):
    """ constructors: temporary files """
    def m(*a, **k):
        fs = current()
        if fs is None:
            return real(*M.deep_native(a), **M.deep_native(k))
        return getattr(load(), name)(fs, *a, **k)
    rt.MODELS[real] = m


def _zip_model(file, *a, **k):
    fs = current()
    if fs is None or (isinstance(file, str) and not _ours(file)):
        return zipfile.ZipFile(file, *a, **k)
    return load().ZipFile(fs, file, *a, **k)


def _open_model(file, *a, **k):
    fs = current()
    if fs is None:
        return open(M.deep_native(file), *M.deep_native(a),
                    **M.deep_native(k))
    if not _ours(file):
        mode = a[0] if a else k.get("mode", "r")
        if not isinstance(mode, str) or mode.strip("rbt"):
            raise Unsupported("writing outside the file system")
        return open(file, *a, **k)
    return load().do_open(fs, file, *a, **k)


def install():
    for name in ("exists", "lexists", "isdir", "isfile", "islink",
                 "getsize", "getmtime"):
        _path_model(getattr(posixpath, name), name)
    for name in ("join", "split", "basename", "splitext", "isabs",
                 "normpath", "abspath", "relpath", "normcase"):
        _pure_model(getattr(posixpath, name), name)
    _pure_model(posixpath.dirname, "dirname_")
    _pure_model(posixpath.realpath, "abspath")
    for real, name in (
            (os.stat, "do_stat"), (os.lstat, "lstat"),
            (os.listdir, "listdir"), (os.scandir, "scandir"),
            (os.walk, "walk"), (os.mkdir, "mkdir"),
            (os.makedirs, "makedirs"), (os.remove, "remove"),
            (os.unlink, "remove"), (os.rmdir, "rmdir"),
            (os.access, "access"), (os.utime, "utime"),
            (os.chmod, "chmod"), (os.chdir, "chdir"),
            (shutil.rmtree, "rmtree"),
            (zipfile.is_zipfile, "is_zipfile")):
        _path_model(real, name)
    for real, name in (
            (os.rename, "rename"), (os.replace, "rename"),
            (shutil.copyfile, "copyfile"), (shutil.copy, "copy"),
            (shutil.copy2, "copy2"), (shutil.move, "move")):
        _path_model(real, name, 2)
    for real, name in (
            (os.getcwd, "getcwd"),
            (tempfile.mkdtemp, "mkdtemp"),
            (tempfile.mkstemp, "mkstemp"),
            (tempfile.NamedTemporaryFile, "TempFile"),
            (tempfile.TemporaryFile, "TempFile"),
            (tempfile.TemporaryDirectory, "TempDir")):
        _ctor_model(real, name)
    rt.MODELS[zipfile.ZipFile] = _zip_model
    rt.MODELS[open] = _open_model
    rt.MODELS[io.open] = _open_model

    def endrec(fp):
        if isinstance(fp, M.SymBytesIO):
            return load().endrec(current(), fp)
        return zipfile._EndRecData(fp)
    rt.MODELS[zipfile._EndRecData] = endrec

    real_is = zipfile.is_zipfile
    inner = rt.MODELS[real_is]

    def is_zip(filename):
        if isinstance(filename, M.SymBytesIO):
            return load().is_zipfile(current(), filename)
        return inner(filename)
    rt.MODELS[real_is] = is_zip


# ---------------------------------------------------------------------
# the twin on disk

class RealFS(object):

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="symx-", dir="/tmp")
        self.root = os.path.join(self.base, "w")
        os.mkdir(self.root)
        os.mkdir(os.path.join(self.base, "tmp"))
        self.saved = (tempfile.tempdir, None)
        try:
            self.saved = (tempfile.tempdir, os.getcwd())
        except OSError:
            pass
        tempfile.tempdir = os.path.join(self.base, "tmp")

    def cleanup(self):
        tempfile.tempdir = self.saved[0]
        if self.saved[1]:
            os.chdir(self.saved[1])
        base = self.base
        if base.startswith("/tmp/symx-") and os.path.isdir(base):
            shutil.rmtree(base, ignore_errors=True)

    def path(self, rel=""):
        return self.root + "/" + rel if rel else self.root

    def put(self, rel, data, mtime=MTIME):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fd:
            fd.write(data)
        os.utime(p, (mtime, mtime))
        return p

    def mkdir(self, rel):
        os.makedirs(self.path(rel), exist_ok=True)
        return self.path(rel)

    def link(self, rel, target):
        os.makedirs(os.path.dirname(self.path(rel)), exist_ok=True)
        os.symlink(target, self.path(rel))

    def zipbytes(self, entries, method="stored"):
        out = io.BytesIO()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with zipfile.ZipFile(out, "w") as zf:
                for n, d in entries:
                    i = zipfile.ZipInfo(n)
                    i.compress_type = 8 if method == "deflated" else 0
                    zf.writestr(i, d)
        return out.getvalue()

    def zip(self, rel, entries, method="stored"):
        return self.put(rel, self.zipbytes(entries, method))

    def get(self, rel):
        with open(self.path(rel), "rb") as fd:
            return fd.read()

    def exists(self, rel):
        return os.path.exists(self.path(rel))

    def _tree(self, top):
        out = []
        for r, ds, fs in os.walk(top):
            for f in fs + [d for d in ds
                           if os.path.islink(os.path.join(r, d))]:
                out.append(os.path.relpath(os.path.join(r, f), top))
        return out

    def tree(self, rel=""):
        return sorted(self._tree(self.path(rel)))

    def temps(self):
        top = os.path.join(self.base, "tmp")
        return self._tree(top) + os.listdir(top)

    def entries(self, rel):
        if not zipfile.is_zipfile(self.path(rel)):
            return None
        out = []
        with zipfile.ZipFile(self.path(rel)) as zf:
            for i in zf.infolist():
                with zf.open(i) as fd:
                    out.append((i.filename, fd.read()))
        return out

    def chdir(self, rel=""):
        os.chdir(self.path(rel))
