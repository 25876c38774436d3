"""
Operations of Python that the symbolic execution models, on unknown
arguments.  Each result is narrowed to particular arguments afterwards, and
the selftest compares it with what CPython gives for these.
"""

import binascii
import struct
from io import BytesIO, StringIO

ON_STR = {
    "upper": lambda s: s.upper(),
    "lower": lambda s: s.lower(),
    "strip": lambda s: s.strip(),
    "lstrip": lambda s: s.lstrip(),
    "rstrip": lambda s: s.rstrip("a "),
    "split": lambda s: s.split(),
    "split1": lambda s: s.split(None, 1),
    "rsplit": lambda s: s.rsplit("a", 1),
    "splitc": lambda s: s.split(","),
    "splitlines": lambda s: (s + "x").splitlines(),
    "splitlinesk": lambda s: s.splitlines(True),
    "partition": lambda s: s.partition("a"),
    "rpartition": lambda s: s.rpartition("/"),
    "replace": lambda s: s.replace("a", "bb"),
    "replace1": lambda s: (s + s).replace(s[:1], "-", 1),
    "find": lambda s: (s.find("z"), s.rfind("a"), s.count("a")),
    "index": lambda s: s.index("a"),
    "ends": lambda s: (s.startswith("a"), s.endswith(("z", "9"))),
    "in": lambda s: ("a" in s, s in "xazx", s[:1] in ("a", "b")),
    "slice": lambda s: (s[1:], s[::-1], s[-1:], s[:5]),
    "item": lambda s: s[1],
    "isdigit": lambda s: s.isdigit(),
    "isalpha": lambda s: s.isalpha(),
    "isalnum": lambda s: s.isalnum(),
    "isspace": lambda s: s.isspace(),
    "isupper": lambda s: (s.isupper(), s.islower()),
    "isascii": lambda s: s.isascii(),
    "utf8": lambda s: s.encode("utf-8"),
    "utf8r": lambda s: s.encode("utf-8", "replace"),
    "utf16": lambda s: s.encode("utf-16-be", "surrogatepass"),
    "ascii": lambda s: s.encode("ascii"),
    "asciib": lambda s: s.encode("ascii", "backslashreplace"),
    "asciii": lambda s: s.encode("ascii", "ignore"),
    "latin1": lambda s: s.encode("latin-1"),
    "ord": lambda s: [ord(ch) for ch in s],
    "int": lambda s: int(s),
    "int16": lambda s: int(s, 16),
    "percent": lambda s: "%s|%5s|%-4s|" % (s, s, s),
    "percentr": lambda s: "%r" % (s,),
    "fstring": lambda s: f"{s:>4}|{s!r}",
    "format": lambda s: "{0}-{a:<4}".format(s, a=s),
    "center": lambda s: (s.center(5, "*"), s.rjust(4), s.zfill(4)),
    "join": lambda s: s.join(["1", "2", s]),
    "joined": lambda s: ",".join(s),
    "mul": lambda s: s * 2 + "x",
    "cmp": lambda s: (s < "a", s <= "az", s > "Z", s >= "z"),
    "eq": lambda s: (s == "a", s != "az", s == s[::-1]),
    "sorted": lambda s: sorted(s),
    "enumerate": lambda s: list(enumerate(s)),
    "bool": lambda s: bool(s.strip()),
    "lines": lambda s: StringIO(s + "\nb").readlines(),
    "removeprefix": lambda s: s.removeprefix("a"),
    "title": lambda s: s.isidentifier(),
    "len": lambda s: len(s.strip()),
    "set": lambda s: s[0] == s[-1],
}

ON_BYTES = {
    "utf8": lambda b: b.decode("utf-8"),
    "utf8r": lambda b: b.decode("utf-8", "replace"),
    "utf8i": lambda b: b.decode("utf-8", "ignore"),
    "ascii": lambda b: b.decode("ascii"),
    "latin1": lambda b: b.decode("latin-1"),
    "utf16": lambda b: b.decode("utf-16-be", "replace"),
    "hex": lambda b: (b.hex(), binascii.hexlify(b)),
    "b64": lambda b: binascii.b2a_base64(b),
    "crc": lambda b: binascii.crc32(b) & 0xffffffff,
    "H": lambda b: struct.unpack(">H", b[:2]),
    "h": lambda b: struct.unpack(">h", b[:2]),
    "BB": lambda b: struct.unpack("<BB", b[:2]),
    "I": lambda b: struct.unpack(">I", b + b),
    "q": lambda b: struct.unpack_from(">q", b * 5, 1),
    "b": lambda b: struct.unpack(">bB", b[:2]),
    "short": lambda b: struct.unpack(">HH", b[:2]),
    "int": lambda b: (int.from_bytes(b, "big"),
                      int.from_bytes(b, "little", signed=True)),
    "strip": lambda b: (b.strip(), b.rstrip(b"\n"), b.lstrip(b" a")),
    "split": lambda b: (b.split(b"a"), b.split()),
    "splitlines": lambda b: (b.splitlines(), b.splitlines(True)),
    "find": lambda b: (b.find(b"a"), b.count(b"a"), b"z" in b, 10 in b),
    "ends": lambda b: (b.startswith(b"a"), b.endswith(b"\n")),
    "replace": lambda b: b.replace(b"a", b"xx"),
    "upper": lambda b: (b.upper(), b.lower(), b.isalpha(), b.isdigit()),
    "slice": lambda b: (b[1:], b[0], b[::-1], list(b)),
    "add": lambda b: b + b"x" + b[:1] * 3,
    "cmp": lambda b: (b < b"a", b >= b"z\x00", b == b"a"),
    "repr": lambda b: repr(b[:1]),
    "bytearray": lambda b: bytes(bytearray(b)),
    "view": lambda b: memoryview(b)[1:].tobytes(),
    "io": lambda b: (BytesIO(b + b"\nq").readlines(), BytesIO(b).read(1)),
    "join": lambda b: b",".join([b, b"x"]),
    "partition": lambda b: b.partition(b"a"),
    "bits": lambda b: [(x >> 4, x & 15, x ^ 255, x << 2, -x) for x in b],
}

ON_INT = {
    "add": lambda x, y: (x + y, x - y, x * 3, -x),
    "div": lambda x, y: (x // 3, x % 3, divmod(x, -7)),
    "by": lambda x, y: (x // y, x % y),
    "shift": lambda x, y: (x << 3, x >> 2),
    "and": lambda x, y: (x & 0xff, x & y & 0xffff, x | 1),
    "xor": lambda x, y: ((x & 0xffff) ^ (y & 0xffff), ~x),
    "cmp": lambda x, y: (x < y, x <= y, x == y, x != y, x > 5, x >= y),
    "minmax": lambda x, y: (min(x, y), max(x, y, 3), abs(x), sum([x, y])),
    "str": lambda x, y: (str(x), "%i|%5d|%-4d|" % (x, y, x)),
    "hex": lambda x, y: ("%x" % (x & 0xffff), "%04X" % (y & 0xffff),
                         "0x%04x" % (x & 0xffff)),
    "fmt": lambda x, y: ("{0}:{1:>4}".format(x, y), f"{x}"),
    "pack": lambda x, y: struct.pack(">Hh", x, y),
    "packI": lambda x, y: struct.pack("<iB", x, y),
    "bytes": lambda x, y: x.to_bytes(2, "big"),
    "signed": lambda x, y: x.to_bytes(2, "little", signed=True),
    "chr": lambda x, y: chr(x & 0x7f),
    "bool": lambda x, y: (bool(x), not x, x and y, x or y),
    "mult": lambda x, y: "ab" * (x & 3),
    "range": lambda x, y: list(range(x & 3, 5)),
    "index": lambda x, y: [10, 20, 30][x & 3],
    "pow": lambda x, y: 1 << (x & 7),
    "chain": lambda x, y: 0 < x < y < 300,
    "sorted": lambda x, y: sorted([x, 2, y]),
    "in": lambda x, y: (x in (1, 2, y), x in range(3, 9)),
}

PAIRS = ("aa", "az", "  ", " a", "a ", "a,", ",,", "A9", "12", "0f", "-1",
         "\r\n", "\ta", "\n\n", "%s", "{}", "\"'", "\\x", "a/", "z<", "\x00\x1f",
         "\x85\xa0", "\x7f\x80", "\xdf\xe9", "\u0130\u2028", "\ud800a",
         "\U0001d4b3_", "\u07ff\u0800", "\uffff.", "K\xb5")

BPAIRS = (b"aa", b"az", b"  ", b" a", b"a\n", b"\r\n", b"A9", b"12", b"z\x00",
          b"\x7f\x80", b"\xc3\xa9", b"\xc3a", b"\xff\xfe", b"\xd8\x00", b"\xed\xa0",
          b"\xc0\x80", b"\xf0\x90", b"\x80\x00", b"%'", b"\"\\", b"\x0b\x0c",
          b"\xe2\x80")

NUMS = ((0, 0), (0, 1), (1, 0), (1, -1), (2, 3), (3, 3), (7, 9), (10, -7),
        (-10, 7), (-10, -7), (127, 128), (128, 127), (255, 256), (-128, 255),
        (-129, 4), (32767, 65535), (65535, -32768), (65536, 2),
        (-40000, 99999), (5, 300), (4, 299))


def outcome(f, *a):
    try:
        return f(*a)
    except (ValueError, IndexError, KeyError, TypeError, OverflowError,
            ZeroDivisionError, struct.error) as ex:
        return type(ex).__name__


def on_str(c, op):
    s = c.str("s", 2)
    got = outcome(ON_STR[op], s)
    c.assume(c.eq(s, c.choose("p", PAIRS)))
    c.observe("got", got)


def on_bytes(c, op):
    s = c.bytes("s", 2)
    got = outcome(ON_BYTES[op], s)
    c.assume(c.eq(s, c.choose("p", BPAIRS)))
    c.observe("got", got)


def on_int(c, op):
    x = c.int("x", -100000, 100000)
    y = c.int("y", -100000, 100000)
    got = outcome(ON_INT[op], x, y)
    px, py = c.choose("p", NUMS)
    c.assume(c.eq(x, px))
    c.assume(c.eq(y, py))
    c.observe("got", got)


def cases():
    out = []
    for op in sorted(ON_STR):
        out.append({"name": "str/" + op, "fn": "on_str",
                    "params": {"op": op}})
    for op in sorted(ON_BYTES):
        out.append({"name": "bytes/" + op, "fn": "on_bytes",
                    "params": {"op": op}})
    for op in sorted(ON_INT):
        out.append({"name": "int/" + op, "fn": "on_int",
                    "params": {"op": op}})
    return out


PROPS = {}
