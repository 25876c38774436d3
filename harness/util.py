"""
Encoders and small references shared by the harnesses.
"""

import struct


def u1(x):
    return struct.pack(">B", x)


def u2(x):
    return struct.pack(">H", x)


def u4(x):
    return struct.pack(">I", x)


def ref_int(data, pos, size, signed=False):
    """ big-endian integer, the schoolbook way """
    v = 0
    for i in range(size):
        v = v * 256 + data[pos + i]
    if signed and v >= 1 << (8 * size - 1):
        v = v - (1 << (8 * size))
    return v


def bad(fn, *exc):
    """ the exception fn raises, or None """
    try:
        fn()
    except Exception as ex:      # pylint: disable=broad-except
        return ex
    return None


class Pool(object):
    """ builds the bytes of a constant pool, with the entries in any
    order: slots are handed out by add(), written by data() """

    def __init__(self):
        self.items = [None]
        self.cache = {}

    def raw(self, data, wide=False):
        self.items.append(data)
        n = len(self.items) - 1
        if wide:
            self.items.append(b"")
        return n

    def fill(self, n=1):
        for _i in range(n):
            self.raw(u1(3) + u4(0x01020304))

    def utf8(self, s):
        if isinstance(s, str):
            s = s.encode("utf-8")
        return self.raw(u1(1) + u2(len(s)) + s)

    def integer(self, b4):
        return self.raw(u1(3) + b4)

    def cls(self, name):
        if not isinstance(name, int):
            name = self.utf8(name)
        return self.raw(u1(7) + u2(name))

    def string(self, s):
        return self.raw(u1(8) + u2(self.utf8(s)))

    def nat(self, name, desc):
        a = name if isinstance(name, int) else self.utf8(name)
        b = desc if isinstance(desc, int) else self.utf8(desc)
        return self.raw(u1(12) + u2(a) + u2(b))

    def ref(self, tag, cls, name, desc):
        a = cls if isinstance(cls, int) else self.cls(cls)
        b = self.nat(name, desc)
        return self.raw(u1(tag) + u2(a) + u2(b))

    def data(self):
        return u2(len(self.items)) + b"".join(
            [x for x in self.items if x is not None])


def attr(pool, name, body):
    ref = name if isinstance(name, int) else pool.utf8(name)
    return u2(ref) + u4(len(body)) + body


def table(items):
    return u2(len(items)) + b"".join(items)


def member(access, name, desc, attrs=()):
    return u2(access) + u2(name) + u2(desc) + table(list(attrs))


def class_bytes(pool, access=0x21, this=0, sup=0, ifaces=(), fields=(),
                methods=(), attrs=(), version=(0, 50), magic=None):
    return ((magic or b"\xca\xfe\xba\xbe") +
            u2(version[0]) + u2(version[1]) + pool.data() +
            u2(access) + u2(this) + u2(sup) +
            table([u2(i) for i in ifaces]) +
            table(list(fields)) + table(list(methods)) +
            table(list(attrs)))
