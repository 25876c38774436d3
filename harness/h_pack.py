"""
The two unpackers (in-memory buffer and stream) against a plain reading
of the format.
"""

from io import BytesIO

from javatools.pack import (unpack, UnpackException, compile_struct,
                            StreamUnpacker, BufferUnpacker)

FMTS = {
    ">B": ((1, False),),
    ">H": ((2, False),),
    ">I": ((4, False),),
    ">HH": ((2, False), (2, False)),
    ">b": ((1, True),),
    ">h": ((2, True),),
    ">i": ((4, True),),
    ">q": ((8, True),),
    ">BHH": ((1, False), (2, False), (2, False)),
    ">HHHHH": ((2, False),) * 5,
    ">HHI": ((2, False), (2, False), (4, False)),
}


def ref_int(data, pos, size, signed):
    v = 0
    for i in range(size):
        v = v * 256 + data[pos + i]
    if signed and v >= 1 << (8 * size - 1):
        v = v - (1 << (8 * size))
    return v


def ref_fmt(data, pos, fmt):
    out = []
    for size, signed in FMTS[fmt]:
        out.append(ref_int(data, pos, size, signed))
        pos += size
    return tuple(out), pos


def fmt_size(fmt):
    return sum([s for s, _g in FMTS[fmt]])


def source(c, kind, data):
    if kind == "buffer":
        u = unpack(data)
        c.check(isinstance(u, BufferUnpacker), "bytes give a buffer unpacker")
        return u
    if kind == "view":
        return unpack(memoryview(data))
    u = unpack(BytesIO(data))
    c.check(isinstance(u, StreamUnpacker), "a stream gives a stream unpacker")
    return u


class Short(object):
    pass


def attempt(fn):
    try:
        return fn()
    except UnpackException as ue:
        return ue


def run_ops(c, kind, ops, n):
    """ a history of reads over n unknown bytes: each one must return
    exactly the next bytes, or report that they are not there """

    data = c.bytes("data", n)
    pos = 0
    with source(c, kind, data) as u:
        for op in ops:
            name, arg = op[0], op[1]
            if name == "unpack" or name == "struct":
                size = fmt_size(arg)
                if name == "unpack":
                    r = attempt(lambda: u.unpack(arg))
                else:
                    r = attempt(lambda: u.unpack_struct(compile_struct(arg)))
                if n - pos < size:
                    expect_short(c, r, size, n - pos)
                    return
                want, pos = ref_fmt(data, pos, arg)
                c.check(not isinstance(r, UnpackException),
                        "no shortage is reported while the data suffices")
                c.check(c.eq(r, want), "the values read are the next bytes")
                c.cover("read")
            elif name == "read":
                cnt = c.int("cnt%d" % pos, 0, arg)
                r = attempt(lambda: u.read(cnt))
                if n - pos < cnt:
                    expect_short(c, r, cnt, n - pos)
                    return
                c.check(not isinstance(r, UnpackException),
                        "no shortage is reported while the data suffices")
                want = data[pos:pos + cnt]
                c.check(c.eq(bytes(r), want), "read gives the next bytes")
                pos = c.conc(pos + cnt)
            elif name in ("array", "sarray"):
                if n - pos < 2:
                    it = None
                else:
                    it = ref_int(data, pos, 2, False)
                out = []

                def go():
                    if name == "array":
                        src = u.unpack_array(arg)
                    else:
                        src = u.unpack_struct_array(compile_struct(arg))
                    for x in src:
                        out.append(x)
                    return True
                r = attempt(go)
                if it is None:
                    expect_short(c, r, 2, n - pos)
                    return
                pos += 2
                size = fmt_size(arg)
                fit = (n - pos) // size
                if it > fit:
                    c.check(len(out) == fit,
                            "every complete element is delivered first")
                    for i in range(fit):
                        w, pos = ref_fmt(data, pos, arg)
                        c.check(c.eq(out[i], w), "array elements in order")
                    expect_short(c, r, size, n - pos)
                    c.cover("array short")
                    return
                c.check(r is True, "a complete array raises nothing")
                c.check(len(out) == it, "the array has its counted length")
                for i in range(len(out)):
                    w, pos = ref_fmt(data, pos, arg)
                    c.check(c.eq(out[i], w), "array elements in order")
                c.cover("array")
            elif name == "objects":
                objs = []

                def go():
                    for x in u.unpack_objects(Pair, "p", tag=arg):
                        objs.append(x)
                    return True
                cnt = ref_int(data, pos, 2, False) if n - pos >= 2 else None
                r = attempt(go)
                if cnt is None:
                    expect_short(c, r, 2, n - pos)
                    return
                pos += 2
                fit = (n - pos) // 3
                if cnt > fit:
                    c.check(isinstance(r, UnpackException),
                            "missing objects are reported")
                    c.check(len(objs) == fit, "complete objects come first")
                    return
                c.check(r is True, "a complete sequence raises nothing")
                c.check(len(objs) == cnt, "as many objects as counted")
                for o in objs:
                    w, pos = ref_fmt(data, pos, ">B")
                    c.check(c.eq(o.a, w[0]), "object field")
                    w, pos = ref_fmt(data, pos, ">H")
                    c.check(c.eq(o.b, w[0]), "object field")
                    c.check(o.p == "p" and o.tag == arg, "object arguments")
                c.cover("objects")
    c.check(u.data is None, "closed on leaving the block")
    c.check(isinstance(attempt(lambda: u.unpack(">B")), UnpackException),
            "a closed unpacker has no data")
    c.check(isinstance(attempt(lambda: u.read(1)), UnpackException),
            "a closed unpacker has no data")


class Pair(object):

    def __init__(self, p, tag=None):
        self.p, self.tag = p, tag

    def unpack(self, u):
        (self.a,) = u.unpack(">B")
        (self.b,) = u.unpack_struct(compile_struct(">H"))


def expect_short(c, r, want, have):
    c.check(isinstance(r, UnpackException), "a shortage is reported")
    c.check(c.eq(r.bytes_wanted, want), "the shortage names what was wanted")
    c.check(r.bytes_present == have, "the shortage names what is there")
    c.cover("short")


def cases_pack(tier):
    out = []
    big = tier == "thorough"
    seqs = []
    for f in sorted(FMTS):
        seqs.append((("unpack", f), ("struct", f)))
    seqs.append((("read", 5), ("unpack", ">H"), ("read", 3)))
    seqs.append((("struct", ">H"), ("read", 9), ("unpack", ">B")))
    for f in (">H", ">HH", ">BHH", ">i", ">HHI"):
        seqs.append((("array", f), ("unpack", ">B")))
        seqs.append((("sarray", f), ("unpack", ">B")))
    seqs.append((("objects", 7), ("unpack", ">H")))
    if big:
        for f in sorted(FMTS):
            for g in sorted(FMTS):
                seqs.append((("struct", f), ("read", 4), ("unpack", g)))
                seqs.append((("unpack", f), ("array", g), ("struct", f)))
    for kind in ("buffer", "stream", "view"):
        for s in seqs:
            full = 0
            for name, arg in s:
                full += fmt_size(arg) if name in ("unpack", "struct") else (
                    arg if name == "read" else 2 + 3 * 3)
            top = min(full + 1, 24 if big else 14)
            for n in range(0, top + 1):
                out.append({"name": "%s/%s/%d" % (
                    kind, "+".join("%s:%s" % x for x in s), n),
                    "fn": "run_ops", "weight": n,
                    "params": {"kind": kind, "ops": s, "n": n}})
    return out


PROPS = {
    "P01": {
        "cases": cases_pack,
        "covers": ("read", "short", "array", "array short", "objects"),
        "bounds": {
            "quick": "histories of 2-3 reads over 0..14 unknown bytes",
            "thorough": "histories of 3 reads over 0..24 unknown bytes"},
    },
}
