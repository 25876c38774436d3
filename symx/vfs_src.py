"""
A file system that exists only within one explored path: directories,
files, links, zip archives and temporary files with unknown contents.

This module is loaded through the same rewriting as the code under test,
so that paths, names and contents may be symbolic throughout.
"""

import errno
import os
import stat
import zipfile

from symx import vfs as P


TOP = "/vfs"
MAGIC = b"PK\x03\x04\xffsymbolic-zip\xff"
MINZIP = 40


class File(object):

    kind = "file"

    def __init__(self, data=b"", mtime=P.MTIME):
        self.data = data
        self.mtime = mtime


class Dir(object):

    kind = "dir"

    def __init__(self, up=None):
        self.kids = []
        self.up = up or self

    def find(self, name):
        for n, k in self.kids:
            if n == name:
                return k
        return None

    def add(self, name, node):
        self.kids.append((name, node))
        if node.kind == "dir":
            node.up = self
        return node

    def drop(self, name):
        self.kids = [(n, k) for n, k in self.kids if not n == name]


class Link(object):

    kind = "link"

    def __init__(self, target):
        self.target = target


def oserr(code, path):
    return OSError(code, os.strerror(code), path)


class FS(object):

    def __init__(self):
        self.before_mkdir = None
        self.slash = Dir()
        self.top = self.slash.add("vfs", Dir())
        self.top.add("w", Dir())
        self.top.add("tmp", Dir())
        self.root = TOP + "/w"
        self.cwd = None
        self.count = 0

    # -- what the harness uses -------------------------------------------

    def path(self, rel=""):
        return self.root + "/" + rel if rel else self.root

    def _up(self, rel):
        makedirs(self, dirname(self.path(rel)), exist_ok=True)

    def put(self, rel, data, mtime=P.MTIME):
        self._up(rel)
        up, name, node = lookup(self, self.path(rel))
        if node is None:
            up.add(name, File(data, mtime))
        else:
            node.data = data
            node.mtime = mtime
        return self.path(rel)

    def mkdir(self, rel):
        makedirs(self, self.path(rel), exist_ok=True)
        return self.path(rel)

    def link(self, rel, target):
        self._up(rel)
        up, name, _node = lookup(self, self.path(rel))
        up.add(name, Link(target))

    def zip(self, rel, entries, method="stored"):
        return self.put(rel, self.zipbytes(entries, method))

    def zipbytes(self, entries, method="stored"):
        return encode([(n, d, 8 if method == "deflated" else 0)
                       for n, d in entries])

    def get(self, rel):
        return fnode(self, self.path(rel)).data

    def exists(self, rel):
        return exists(self, self.path(rel))

    def tree(self, rel=""):
        out = []
        _tree(getnode(self, self.path(rel)), "", out)
        out.sort()
        return out

    def temps(self):
        out = []
        _tree(getnode(self, TOP + "/tmp"), "", out)
        return out + [n for n, _k in getnode(self, TOP + "/tmp").kids]

    def entries(self, rel):
        got = decode(self.get(rel))
        if got is None:
            return None
        return [(n, d) for n, d, _m in got]

    def chdir(self, rel=""):
        self.cwd = self.path(rel)


def _tree(d, pre, out):
    for n, k in d.kids:
        if k.kind == "dir":
            _tree(k, pre + n + "/", out)
        else:
            out.append(pre + n)


# ---------------------------------------------------------------------
# paths

def text(path):
    if isinstance(path, int):
        raise P.Unsupported("file descriptors")
    if hasattr(path, "__fspath__"):
        path = path.__fspath__()
    if isinstance(path, bytes):
        path = path.decode("utf-8")
    return path


def absolute(fs, path):
    path = text(path)
    if path[:1] != "/":
        path = (fs.cwd or os.getcwd()) + "/" + path
    return path


def walkto(fs, path, follow=True, depth=0):
    """ (directory, last name, node or None) """
    orig = path
    if depth > 20:
        raise oserr(errno.ELOOP, orig)
    if not len(text(path)):
        raise oserr(errno.ENOENT, orig)
    full = absolute(fs, path)
    node = fs.slash
    up, name = node, ""
    parts = [p for p in full.split("/") if p and p != "."]
    last = len(parts) - 1
    slashed = full[-1:] == "/"
    for i, p in enumerate(parts):
        if node is None:
            raise oserr(errno.ENOENT, orig)
        if node.kind != "dir":
            raise oserr(errno.ENOTDIR, orig)
        if p == "..":
            node = node.up
            up, name = node.up, ""
            continue
        up, name = node, p
        node = up.find(p)
        if node is not None and node.kind == "link" and \
                (follow or i < last):
            up, name, node = walkto(
                fs, P.plain_join(pathof(fs, up), node.target), True,
                depth + 1)
    if slashed and node is not None and node.kind == "file":
        raise oserr(errno.ENOTDIR, orig)
    return up, name, node


def pathof(fs, d):
    out = ""
    while d is not fs.slash:
        for n, k in d.up.kids:
            if k is d:
                out = "/" + n + out
                break
        d = d.up
    return out or "/"


def lookup(fs, path, follow=True):
    return walkto(fs, path, follow)


def getnode(fs, path, follow=True):
    node = walkto(fs, path, follow)[2]
    if node is None:
        raise oserr(errno.ENOENT, path)
    return node


def fnode(fs, path):
    node = getnode(fs, path)
    if node.kind == "dir":
        raise oserr(errno.EISDIR, path)
    return node


def maybe(fs, path, follow=True):
    try:
        return walkto(fs, path, follow)[2]
    except OSError:
        return None


def exists(fs, path):
    return maybe(fs, path) is not None


def lexists(fs, path):
    return maybe(fs, path, False) is not None


def isdir(fs, path):
    n = maybe(fs, path)
    return n is not None and n.kind == "dir"


def isfile(fs, path):
    n = maybe(fs, path)
    return n is not None and n.kind == "file"


def islink(fs, path):
    n = maybe(fs, path, False)
    return n is not None and n.kind == "link"


def getsize(fs, path):
    return do_stat(fs, path).st_size


def getmtime(fs, path):
    return do_stat(fs, path).st_mtime


def join(fs, a, *p):
    path = text(a)
    for b in p:
        b = text(b)
        if b[:1] == "/":
            path = b
        elif not path or path[-1:] == "/":
            path = path + b
        else:
            path = path + "/" + b
    return path


def split(fs, p):
    p = text(p)
    i = p.rfind("/") + 1
    head, tail = p[:i], p[i:]
    if head and head != "/" * len(head):
        head = head.rstrip("/")
    return head, tail


def basename(fs, p):
    p = text(p)
    return p[p.rfind("/") + 1:]


def dirname_(fs, p):
    return split(fs, p)[0]


def dirname(p):
    return split(None, p)[0]


def splitext(fs, p):
    p = text(p)
    dot = p.rfind(".")
    sep = p.rfind("/")
    if dot > sep:
        i = sep + 1
        while i < dot:
            if p[i:i + 1] != ".":
                return p[:dot], p[dot:]
            i += 1
    return p, p[:0]


def isabs(fs, p):
    return text(p)[:1] == "/"


def normcase(fs, p):
    return text(p)


def normpath(fs, path):
    path = text(path)
    if not path:
        return "."
    start = "/" if path[:1] == "/" else ""
    if path[:2] == "//" and path[2:3] != "/":
        start = "//"
    out = []
    for c in path.split("/"):
        if not c or c == ".":
            continue
        if c != ".." or (not start and not out) or (out and
                                                    out[-1] == ".."):
            out.append(c)
        elif out:
            out.pop()
    return (start + "/".join(out)) or "."


def abspath(fs, path):
    return normpath(fs, absolute(fs, path))


def relpath(fs, path, start=None):
    path = text(path)
    if not path:
        raise ValueError("no path specified")
    a = [x for x in abspath(fs, start or ".").split("/") if x]
    b = [x for x in abspath(fs, path).split("/") if x]
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    out = [".."] * (len(a) - i) + b[i:]
    return "/".join(out) if out else "."


# ---------------------------------------------------------------------
# os

def do_stat(fs, path, follow_symlinks=True, dir_fd=None):
    n = getnode(fs, path, follow_symlinks)
    if n.kind == "dir":
        return P.StatResult(stat.S_IFDIR | 0o755, 4096, P.MTIME)
    if n.kind == "link":
        return P.StatResult(stat.S_IFLNK | 0o777, len(n.target), P.MTIME)
    return P.StatResult(stat.S_IFREG | 0o644, len(n.data), n.mtime)


def lstat(fs, path):
    return do_stat(fs, path, False)


def listdir(fs, path="."):
    n = getnode(fs, path)
    if n.kind != "dir":
        raise oserr(errno.ENOTDIR, path)
    return [k for k, _n in n.kids]


class Entry(object):

    def __init__(self, fs, up, name):
        self.fs = fs
        self.name = name
        self.path = join(fs, up, name)

    def is_dir(self, follow_symlinks=True):
        n = maybe(self.fs, self.path, follow_symlinks)
        return n is not None and n.kind == "dir"

    def is_file(self, follow_symlinks=True):
        n = maybe(self.fs, self.path, follow_symlinks)
        return n is not None and n.kind == "file"

    def is_symlink(self):
        return islink(self.fs, self.path)

    def stat(self, follow_symlinks=True):
        return do_stat(self.fs, self.path, follow_symlinks)

    def __fspath__(self):
        return self.path


class Scan(object):

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def scandir(fs, path="."):
    return Scan([Entry(fs, path, n) for n in listdir(fs, path)])


def walk(fs, top, topdown=True, onerror=None, followlinks=False):
    if not isdir(fs, top):
        if onerror is not None and not exists(fs, top):
            onerror(oserr(errno.ENOENT, top))
        return
    dirs, files = [], []
    for n in listdir(fs, top):
        (dirs if isdir(fs, join(fs, top, n)) else files).append(n)
    if topdown:
        yield top, dirs, files
    for d in list(dirs):
        p = join(fs, top, d)
        if followlinks or not islink(fs, p):
            for x in walk(fs, p, topdown, onerror, followlinks):
                yield x
    if not topdown:
        yield top, dirs, files


def mkdir(fs, path, mode=0o777, dir_fd=None):
    if fs.before_mkdir is not None:
        fs.before_mkdir()
    up, name, node = lookup(fs, path)
    if node is not None or not name:
        raise oserr(errno.EEXIST, path)
    up.add(name, Dir(up))


def makedirs(fs, path, mode=0o777, exist_ok=False):
    full = normslash(absolute(fs, path))
    head = split(fs, full)[0]
    if not exists(fs, head):
        try:
            makedirs(fs, head, mode, exist_ok)
        except FileExistsError:
            pass
    try:
        mkdir(fs, full)
    except OSError:
        if not exist_ok or not isdir(fs, full):
            raise


def normslash(p):
    while len(p) > 1 and p[-1:] == "/":
        p = p[:-1]
    return p


def remove(fs, path, dir_fd=None):
    up, name, node = lookup(fs, path, False)
    if node is None:
        raise oserr(errno.ENOENT, path)
    if node.kind == "dir":
        raise oserr(errno.EISDIR, path)
    up.drop(name)


def rmdir(fs, path, dir_fd=None):
    up, name, node = lookup(fs, path, False)
    if node is None:
        raise oserr(errno.ENOENT, path)
    if node.kind != "dir":
        raise oserr(errno.ENOTDIR, path)
    if node.kids:
        raise oserr(errno.ENOTEMPTY, path)
    up.drop(name)


def rename(fs, src, dst):
    up, name, node = lookup(fs, src, False)
    if node is None:
        raise oserr(errno.ENOENT, src)
    up2, name2, node2 = lookup(fs, dst, False)
    up.drop(name)
    if node2 is not None:
        up2.drop(name2)
    up2.add(name2, node)


def getcwd(fs):
    return fs.cwd or os.getcwd()


def chdir(fs, path):
    if not isdir(fs, path):
        raise oserr(errno.ENOENT, path)
    fs.cwd = absolute(fs, path)


def access(fs, path, mode=0, **kw):
    return exists(fs, path)


def utime(fs, path, times=None, **kw):
    getnode(fs, path)


def chmod(fs, path, mode, **kw):
    getnode(fs, path)


# ---------------------------------------------------------------------
# shutil, tempfile

def copyfile(fs, src, dst, follow_symlinks=True):
    data = fnode(fs, src).data
    _u, _n, node = lookup(fs, dst)
    if node is not None and node is fnode(fs, src):
        raise P.SameFileError("%r and %r are the same file" % (src, dst))
    with do_open(fs, dst, "wb") as fd:
        fd.write(data)
    return dst


def copy(fs, src, dst, follow_symlinks=True):
    if isdir(fs, dst):
        dst = join(fs, dst, basename(fs, src))
    return copyfile(fs, src, dst)


def copy2(fs, src, dst, follow_symlinks=True):
    if isdir(fs, dst):
        dst = join(fs, dst, basename(fs, src))
    copyfile(fs, src, dst)
    fnode(fs, dst).mtime = fnode(fs, src).mtime
    return dst


def move(fs, src, dst, copy_function=None):
    if isdir(fs, dst):
        dst = join(fs, dst, basename(fs, src))
    rename(fs, src, dst)
    return dst


def rmtree(fs, path, ignore_errors=False, onerror=None, onexc=None):
    up, name, node = lookup(fs, path, False)
    if node is None or node.kind != "dir":
        if ignore_errors:
            return
        raise oserr(errno.ENOENT if node is None else errno.ENOTDIR, path)
    up.drop(name)


def _tempname(fs, prefix, suffix, where):
    fs.count += 1
    return join(fs, where or TOP + "/tmp", "%ssymx%d%s" % (
        prefix or "tmp", fs.count, suffix or ""))


def mkdtemp(fs, suffix=None, prefix=None, dir=None):
    p = _tempname(fs, prefix, suffix, dir)
    mkdir(fs, p)
    return p


def mkstemp(fs, *a, **k):
    raise P.Unsupported("mkstemp")


class TempFile(object):
    """ NamedTemporaryFile """

    def __init__(self, fs, mode="w+b", buffering=-1, encoding=None,
                 newline=None, suffix=None, prefix=None, dir=None,
                 delete=True, errors=None, delete_on_close=True):
        self._fs = fs
        self.name = _tempname(fs, prefix, suffix, dir)
        self.file = do_open(fs, self.name, mode, buffering, encoding,
                            errors, newline)
        self._delete = delete
        self._gone = False

    def close(self):
        self.file.close()
        if self._delete and not self._gone:
            self._gone = True
            if lexists(self._fs, self.name):
                remove(self._fs, self.name)

    def __del__(self):
        if not self._gone and P.alive(self._fs):
            self.close()

    def __getattr__(self, name):
        if name.startswith("__") or name == "file":
            raise AttributeError(name)
        return getattr(self.file, name)

    def __iter__(self):
        return iter(self.file)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class TempDir(object):
    """ TemporaryDirectory """

    def __init__(self, fs, suffix=None, prefix=None, dir=None, **kw):
        self._fs = fs
        self.name = mkdtemp(fs, suffix, prefix, dir)
        self._gone = False

    def cleanup(self):
        if not self._gone:
            self._gone = True
            rmtree(self._fs, self.name, True)

    def __del__(self):
        if not self._gone and P.alive(self._fs):
            self.cleanup()

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()


# ---------------------------------------------------------------------
# open

def do_open(fs, path, mode="r", buffering=-1, encoding=None, errors=None,
            newline=None, closefd=True, opener=None):
    kind = mode.replace("b", "").replace("t", "").replace("+", "")
    if kind not in ("r", "w", "a", "x") or ("b" in mode and "t" in mode):
        raise ValueError("invalid mode: %r" % (mode,))
    if "b" in mode and (encoding is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    up, name, node = lookup(fs, path)
    if node is not None and node.kind == "dir":
        raise oserr(errno.EISDIR, path)
    if kind == "r":
        if node is None:
            raise oserr(errno.ENOENT, path)
    else:
        if kind == "x" and node is not None:
            raise oserr(errno.EEXIST, path)
        if node is None:
            node = up.add(name, File())
        elif kind == "w":
            node.data = b""
    if "b" in mode:
        return P.BinFile(node, path, mode)
    if kind == "r" and "+" not in mode:
        return P.TextReader(node, path, mode, encoding, errors, newline)
    if "+" in mode:
        raise P.Unsupported("text files opened for update")
    return P.TextWriter(node, path, mode, encoding, errors, newline)


# ---------------------------------------------------------------------
# zip archives

def encode(entries):
    out = [MAGIC, P.be(len(entries), 4)]
    for n, d, m in entries:
        if isinstance(d, str):
            d = d.encode("utf-8")
        n = n.encode("utf-8")
        out.append(P.be(m, 1) + P.be(len(n), 4) + P.be(len(d), 4))
        out.append(n)
        out.append(d)
    out.append(b"PK\x05\x06" + b"\0" * 18)
    return b"".join(out)


def decode(data):
    """ the entries, or None when data is no archive """
    if data is None or len(data) < MINZIP or \
            not P.known_prefix(data, MAGIC):
        return None
    at = len(MAGIC)
    n = P.num(data[at:at + 4])
    at += 4
    out = []
    for _i in range(n):
        m, nl, dl = (P.num(data[at:at + 1]), P.num(data[at + 1:at + 5]),
                     P.num(data[at + 5:at + 9]))
        at += 9
        name = data[at:at + nl].decode("utf-8")
        at += nl
        out.append((name, data[at:at + dl], m))
        at += dl
    return out


class Info(zipfile.ZipInfo):

    def __init__(self, name, data, method):
        self.filename = self.orig_filename = name
        self.date_time = (1980, 1, 1, 0, 0, 0)
        self.compress_type = method
        self.comment = self.extra = b""
        self.create_system = 3
        self.create_version = self.extract_version = 20
        self.flag_bits = self.volume = self.reserved = 0
        self.internal_attr = self.external_attr = 0
        self.header_offset = 0
        self.symdata = data

    @property
    def CRC(self):
        return P.crc(self.symdata)

    @property
    def file_size(self):
        return len(self.symdata)

    @property
    def compress_size(self):
        return P.packed(self.symdata, self.compress_type)

    def is_dir(self):
        return self.filename[-1:] == "/"

    def __repr__(self):
        return "<ZipInfo>"


class ZipFile(object):

    # the real class is what isinstance is asked about
    __class__ = property(lambda self: zipfile.ZipFile)

    fp = None
    _owner = None

    def __init__(self, fs, file, mode="r", compression=0, allowZip64=True,
                 compresslevel=None, strict_timestamps=True,
                 metadata_encoding=None):
        self._fs = fs
        if mode not in ("r", "w", "x", "a"):
            raise ValueError("ZipFile requires mode 'r', 'w', 'x', or 'a'")
        self.mode = mode
        self.compression = compression
        self.compresslevel = compresslevel
        self.comment = b""
        self.filelist = []
        self.NameToInfo = {}
        self._dirty = mode in ("w", "x")
        self.debug = 0
        self.pwd = None
        if isinstance(file, str) or hasattr(file, "__fspath__"):
            file = text(file)
            self.filename = file
            self._file = None
            up, name, node = lookup(fs, file)
            if node is not None and node.kind == "dir":
                raise oserr(errno.EISDIR, file)
            if mode == "r" and node is None:
                raise oserr(errno.ENOENT, file)
            if mode == "x" and node is not None:
                raise oserr(errno.EEXIST, file)
            if node is None:
                node = up.add(name, File())
            elif mode == "w":
                node.data = b""
            self._node = node
            data = node.data
        else:
            self.filename = getattr(file, "name", None)
            self._file = file
            self._node = None
            if mode == "r" or mode == "a":
                file.seek(0)
                data = file.read()
            else:
                data = b""
                self._start = file.tell()
        if mode == "r" or (mode == "a" and len(data)):
            got = decode(data)
            if got is None:
                if mode == "a":
                    raise P.Unsupported("appending to other files")
                raise zipfile.BadZipFile("File is not a zip file")
            for n, d, m in got:
                self._add(Info(n, d, m))
        elif mode == "a":
            self._dirty = True
        self.fp = True

    def _add(self, info):
        self.filelist.append(info)
        self.NameToInfo[info.filename] = info

    def _check(self, *modes):
        if not self.fp:
            raise ValueError("Attempt to use ZIP archive that was already "
                             "closed")
        if modes and self.mode not in modes:
            raise ValueError("write() requires mode 'w', 'x', or 'a'")

    def namelist(self):
        return [i.filename for i in self.filelist]

    def infolist(self):
        return self.filelist

    def getinfo(self, name):
        info = self.NameToInfo.get(name)
        if info is None:
            raise KeyError("There is no item named %r in the archive"
                           % name)
        return info

    def open(self, name, mode="r", pwd=None, force_zip64=False):
        if mode not in ("r", "w"):
            raise ValueError('open() requires mode "r" or "w"')
        self._check()
        if mode == "w":
            raise P.Unsupported("writing entries through a stream")
        info = name if isinstance(name, zipfile.ZipInfo) else \
            self.getinfo(name)
        return P.EntryFile(info.symdata, info.filename)

    def read(self, name, pwd=None):
        with self.open(name) as fd:
            return fd.read()

    def testzip(self):
        return None

    def setpassword(self, pwd):
        pass

    def writestr(self, arcname, data, compress_type=None,
                 compresslevel=None):
        if isinstance(data, str):
            data = data.encode("utf-8")
        method = self.compression
        if isinstance(arcname, zipfile.ZipInfo):
            method = arcname.compress_type
            arcname = arcname.filename
        self._check("w", "x", "a")
        if compress_type is not None:
            method = compress_type
        data = P.frozen(data)
        self._dirty = True
        self._add(Info(arcname, data, method))

    def write(self, filename, arcname=None, compress_type=None,
              compresslevel=None):
        self._check("w", "x", "a")
        node = getnode(self._fs, filename)
        if arcname is None:
            arcname = filename
        arcname = normpath(self._fs, text(arcname))
        while arcname[:1] == "/":
            arcname = arcname[1:]
        if node.kind == "dir":
            self._dirty = True
            self._add(Info(arcname + "/", b"", 0))
        else:
            self.writestr(arcname, node.data, compress_type)

    def extract(self, member, path=None, pwd=None):
        self._check()
        info = member if isinstance(member, zipfile.ZipInfo) else \
            self.getinfo(member)
        path = getcwd(self._fs) if path is None else text(path)
        parts = [x for x in info.filename.split("/")
                 if x not in ("", ".", "..")]
        dest = normpath(self._fs, join(self._fs, path, "/".join(parts)))
        if info.is_dir():
            makedirs(self._fs, dest, exist_ok=True)
            return dest
        makedirs(self._fs, dirname(dest), exist_ok=True)
        with do_open(self._fs, dest, "wb") as fd:
            fd.write(info.symdata)
        return dest

    def extractall(self, path=None, members=None, pwd=None):
        for m in (self.namelist() if members is None else members):
            self.extract(m, path)

    def close(self):
        if not self.fp:
            return
        self.fp = None
        if self._dirty and self.mode != "r":
            data = encode([(i.filename, i.symdata, i.compress_type)
                           for i in self.filelist])
            if self._node is not None:
                self._node.data = data
            else:
                if self.mode == "a":
                    self._file.seek(0)
                self._file.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        if self.fp and P.alive(self._fs):
            self.close()


def endrec(fs, fp):
    # the position is left wherever the search ends
    fp.seek(0)
    got = decode(fp.read())
    if got is None:
        return None
    return [b"PK\x05\x06", 0, 0, len(got), len(got), 0, 0, 0, b"", 0]


def is_zipfile(fs, filename):
    try:
        if hasattr(filename, "read"):
            at = filename.tell()
            got = endrec(fs, filename)
            filename.seek(at)
            return got is not None
        return decode(fnode(fs, filename).data) is not None
    except OSError:
        return False
