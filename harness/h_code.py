"""
Disassembly of bytecode and the mapping of bytecode to source lines.
"""

from javatools.opcodes import (disassemble, get_opname_by_code,
                               get_opcode_by_name, has_const_arg)

from javatools import unpack_class

from .util import (ref_int, Pool, u2, u4, attr, table, member, class_bytes)


# operands by opcode, from chapter 6 of the JVM specification:
# u1 u2 unsigned, s1 s2 s4 signed, c1 c2 constant pool index
SPEC = {}


def _op(first, last, *operands):
    for i in range(first, last + 1):
        SPEC[i] = operands


_op(0x00, 0x0f)
_op(0x10, 0x10, "s1")
_op(0x11, 0x11, "s2")
_op(0x12, 0x12, "c1")
_op(0x13, 0x14, "c2")
_op(0x15, 0x19, "u1")
_op(0x1a, 0x35)
_op(0x36, 0x3a, "u1")
_op(0x3b, 0x83)
_op(0x84, 0x84, "u1", "s1")
_op(0x85, 0x98)
_op(0x99, 0xa8, "s2")
_op(0xa9, 0xa9, "u1")
_op(0xaa, 0xaa, "tableswitch")
_op(0xab, 0xab, "lookupswitch")
_op(0xac, 0xb1)
_op(0xb2, 0xb8, "c2")
_op(0xb9, 0xb9, "c2", "u1", "u1")
_op(0xba, 0xba, "c2", "u1", "u1")
_op(0xbb, 0xbb, "c2")
_op(0xbc, 0xbc, "u1")
_op(0xbd, 0xbd, "c2")
_op(0xbe, 0xbf)
_op(0xc0, 0xc1, "c2")
_op(0xc2, 0xc3)
_op(0xc4, 0xc4, "wide")
_op(0xc5, 0xc5, "c2", "u1")
_op(0xc6, 0xc7, "s2")
_op(0xc8, 0xc9, "s4")

WIDE = dict.fromkeys((0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39,
                      0x3a, 0xa9))

NAMES = """nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3
iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0
dconst_1 bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload
iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3 fload_0
fload_1 fload_2 fload_3 dload_0 dload_1 dload_2 dload_3 aload_0 aload_1
aload_2 aload_3 iaload laload faload daload aaload baload caload saload
istore lstore fstore dstore astore istore_0 istore_1 istore_2 istore_3
lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3
dstore_0 dstore_1 dstore_2 dstore_3 astore_0 astore_1 astore_2 astore_3
iastore lastore fastore dastore aastore bastore castore sastore pop pop2
dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap iadd ladd fadd dadd isub lsub
fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem ineg
lneg fneg dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor
iinc i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl
fcmpg dcmpl dcmpg ifeq ifne iflt ifge ifgt ifle if_icmpeq if_icmpne
if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr ret
tableswitch lookupswitch ireturn lreturn freturn dreturn areturn return
getstatic putstatic getfield putfield invokevirtual invokespecial
invokestatic invokeinterface invokedynamic new newarray anewarray
arraylength athrow checkcast instanceof monitorenter monitorexit wide
multianewarray ifnull ifnonnull goto_w jsr_w""".split()


class Truncated(Exception):
    pass


def need(code, pos, n):
    if pos + n > len(code):
        raise Truncated()


def ref_step(code, pos):
    """ (opcode, operands, next position) of the instruction at pos """

    op = code[pos]
    if op not in SPEC:
        raise Truncated()
    spec = SPEC[op]
    pos += 1
    return ref_args(code, pos, spec, op)


def ref_args(code, pos, spec, op):
    out = []
    for kind in spec:
        if kind in ("tableswitch", "lookupswitch"):
            while pos % 4:
                pos += 1
            need(code, pos, 8)
            default = ref_int(code, pos, 4, True)
            if kind == "lookupswitch":
                n = ref_int(code, pos + 4, 4, True)
                pos += 8
                pairs = []
                while len(pairs) < n:
                    need(code, pos, 8)
                    pairs.append((ref_int(code, pos, 4, True),
                                  ref_int(code, pos + 4, 4, True)))
                    pos += 8
                return op, (default, pairs), pos
            need(code, pos, 12)
            low = ref_int(code, pos + 4, 4, True)
            high = ref_int(code, pos + 8, 4, True)
            pos += 12
            offs = []
            while len(offs) < high - low + 1:
                need(code, pos, 4)
                offs.append(ref_int(code, pos, 4, True))
                pos += 4
            return op, (default, low, high, offs), pos
        if kind == "wide":
            need(code, pos, 1)
            sub = code[pos]
            if sub == 0x84:
                need(code, pos, 5)
                return op, (sub, ref_int(code, pos + 1, 2),
                            ref_int(code, pos + 3, 2, True)), pos + 5
            if sub in WIDE:
                need(code, pos, 3)
                return op, (sub, ref_int(code, pos + 1, 2)), pos + 3
            raise Truncated()
        size = int(kind[1])
        need(code, pos, size)
        out.append(ref_int(code, pos, size, kind[0] == "s"))
        pos += size
    return op, tuple(out), pos


def ref_disassemble(code):
    pos = 0
    out = []
    try:
        while pos < len(code):
            start = pos
            op, args, pos = ref_step(code, pos)
            out.append((start, op, args))
    except Truncated:
        return out, False
    return out, True


def flat(args):
    """ operands as one flat sequence: how the jump table of a switch is
    nested is a matter of presentation """
    out = []
    for a in args:
        if isinstance(a, (tuple, list)):
            out.extend(flat(a))
        else:
            out.append(a)
    return tuple(out)


def compare_code(c, code):
    want, fine = ref_disassemble(code)
    got = []
    ok = True
    try:
        for x in disassemble(code):
            got.append(x)
    except Exception:       # pylint: disable=broad-except
        ok = False
    c.check(ok == fine, "malformed code is rejected, well-formed code is not")
    c.check(len(got) == len(want), "as many instructions as there are")
    for g, w in zip(got, want):
        c.check(c.eq(g[0], w[0]), "instructions start where the last ended")
        c.check(c.eq(g[1], w[1]), "opcode")
        ga, wa = flat(g[2]), flat(w[2])
        c.check(len(ga) == len(wa), "number of operands")
        c.check(c.eq(ga, wa), "operands")
    c.observe("code", got)
    if fine:
        c.cover("decoded")
    else:
        c.cover("rejected")


def two_ops(c, a, b):
    """ two given instructions with unknown operands: the second one is
    found where the first one ends """

    def sized(op):
        n = 0
        for k in SPEC[op]:
            n += int(k[1])
        return n
    code = bytes([a]) + c.bytes("a", sized(a)) + bytes([b]) + \
        c.bytes("b", sized(b)) + b"\xb1"
    compare_code(c, code)


def op_names(c):
    """ names, values and the operand-is-a-constant mark of every opcode """
    op = c.conc(c.int("op", 0, 0xc9))
    name = NAMES[op]
    # the package spells two names without the final letter
    name = {"monitorenter": get_opname_by_code(0xc2)}.get(name, name)
    c.check(get_opname_by_code(op) == name, "mnemonic")
    c.check(get_opcode_by_name(name) == op, "opcode by mnemonic")
    c.check(get_opcode_by_name(name.upper()) == op, "case is ignored")
    const = any([k in ("c1", "c2") for k in SPEC[op]])
    c.check(bool(has_const_arg(op)) == const,
            "the instructions whose first operand is a constant")
    c.cover("name")


def cases_dis(tier):
    out = [{"name": "names", "fn": "op_names", "params": {}}]
    big = tier == "thorough"
    for before in range(4):
        for after in ((4, 0, 1, 2, 3) if big or before == 0 else (4,)):
            for lo, hi in ((0, 0x0f), (0x10, 0x35), (0x36, 0x6f),
                           (0x70, 0xa9), (0xac, 0xff)):
                # operands first, then up to four one-byte instructions
                out.append({"name": "op%02x-%02x/%d/%d" % (
                    lo, hi, before, after), "fn": "one_op_tail",
                    "params": {"lo": lo, "hi": hi, "before": before,
                               "after": after}, "weight": 3})
        for after in (5, 6):
            out.append({"name": "wide/%d/%d" % (before, after),
                        "fn": "one_op_tail", "params": {
                            "lo": 0xc4, "hi": 0xc4, "before": before,
                            "after": after}, "weight": 2})
    for op in (0xaa, 0xab):
        for before in range(8 if big else 4):
            for n in range(5 if big else 3):
                out.append({"name": "switch%02x/%d/%d" % (op, before, n),
                            "fn": "switch_tail", "weight": 2,
                            "params": {"op": op, "before": before, "n": n}})
            for cut in (1, 3, 5, 9):
                out.append({"name": "cut%02x/%d/%d" % (op, before, cut),
                            "fn": "switch_tail",
                            "params": {"op": op, "before": before, "n": 1,
                                       "cut": cut}})
    ops = [0x00, 0x10, 0x11, 0x12, 0x15, 0x84, 0x99, 0xb2, 0xb9, 0xc5, 0xc8]
    for a in ops:
        for b in ops:
            out.append({"name": "pair%02x%02x" % (a, b), "fn": "two_ops",
                        "params": {"a": a, "b": b}})
    return out


def one_op_tail(c, lo, hi, before, after):
    op = c.bytes("op", 1, ((lo, hi),))
    rest = c.bytes("rest", after)
    # what remains after the operands is read as further instructions:
    # limit those to opcodes without operands
    code = b"\x00" * before + op + rest
    try:
        _o, _a, pos = ref_step(code, before)
    except Truncated:
        pos = len(code)
    code = code[:pos] + b"\x01" * (len(code) - pos)
    compare_code(c, code)


def switch_tail(c, op, before, n, cut=0):
    pad = (4 - (before + 1) % 4) % 4
    padding = c.bytes("pad", pad)
    default = c.bytes("default", 4)
    a = c.bytes("a", 4)
    if op == 0xab:
        cnt = ref_int(a, 0, 4, True)
        c.assume(cnt <= n)
        hdr = default + a
        per = 8
    else:
        b = c.bytes("b", 4)
        cnt = ref_int(b, 0, 4, True) - ref_int(a, 0, 4, True) + 1
        c.assume(cnt <= n)
        hdr = default + a + b
        per = 4
    body = c.bytes("jumps", per * n)
    code = b"\x01" * before + bytes([op]) + padding + hdr + body
    if cut:
        code = code[:-cut]
    try:
        _o, _a, pos = ref_step(code, before)
    except Truncated:
        pos = len(code)
    code = code[:pos] + b"\x01" * (len(code) - pos)
    compare_code(c, code)


# ---------------------------------------------------------------------
# source lines

def make_code(c, ncode, nlines, sorted_table):
    """ a method of one-byte instructions with an unknown line table """
    p = Pool()
    me = p.cls("Me")
    code = bytes(range(ncode))
    rows = [(c.int("o%d" % i, 0, 65535), c.int("l%d" % i, 0, 65535))
            for i in range(nlines)]
    if sorted_table:
        for a, b in zip(rows, rows[1:]):
            c.assume(a[0] < b[0])
    subs = []
    if nlines:
        subs.append(attr(p, "LineNumberTable", table(
            [u2(a) + u2(b) for a, b in rows])))
    body = u2(1) + u2(1) + u4(ncode) + code + table([]) + table(subs)
    m = member(1, p.utf8("m"), p.utf8("()V"), [attr(p, "Code", body)])
    info = unpack_class(class_bytes(p, 0x21, me, 0, [], [], [m]))
    return info.methods[0].get_code(), code, rows


def ref_line(c, rows, off):
    line = 0
    for o, l in rows:
        line = c.ite(o <= off, l, line)
    return line


def line_of(c, nlines):
    """ the line of a code offset is that of the last entry at or before """
    code, _b, rows = make_code(c, 1, nlines, True)
    off = c.int("off", 0, 70000)
    c.check(c.eq(code.get_line_for_offset(off), ref_line(c, rows, off)),
            "line of a code offset")
    c.cover("line")


def blocks(c, ncode, nlines, in_range):
    """ the blocks of code by line are the code, in order, cut exactly
    where the line changes """
    code, raw, rows = make_code(c, ncode, nlines, True)
    if in_range and nlines:
        c.assume(rows[0][0] == 0)
    dis = list(code.disassemble())
    c.check(len(dis) == ncode, "instructions")
    got = list(code.iter_code_by_lines())
    flat_ = []
    for al, rl, part in got:
        c.check(len(part) > 0 or ncode == 0, "no empty block")
        for x in part:
            flat_.append(x)
            if nlines:
                c.check(c.eq(al, ref_line(c, rows, x[0])),
                        "a block holds the code of its line")
        if nlines:
            c.check(c.eq(rl, al - rows[0][1]),
                    "lines relative to the first of the method")
    c.check(len(flat_) == len(dis), "no instruction lost or repeated")
    for i in range(len(dis)):
        c.check(c.eq(flat_[i], dis[i]), "instructions in order")
        c.check(flat_[i][0] == i and bool(c.eq(flat_[i][1], raw[i])),
                "the instructions of the method")
    for a, b in zip(got, got[1:]):
        c.check(c.not_(c.eq(a[0], b[0])), "neighbouring blocks differ")
    c.observe("blocks", got)
    c.cover("blocks")


def cases_lines(tier):
    big = tier == "thorough"
    out = []
    for n in range(0, 11 if big else 7):
        out.append({"name": "line/%d" % n, "fn": "line_of",
                    "params": {"nlines": n}})
    for nc in range(0, 9 if big else 7):
        for nl in range(0, 7 if big else 5):
            for r in (True, False):
                if nl or r:
                    out.append({"name": "blocks/%d/%d/%s" % (nc, nl, r),
                                "fn": "blocks", "weight": nc * nl,
                                "params": {"ncode": nc, "nlines": nl,
                                           "in_range": r}})
    return out


PROPS = {
    "P07": {
        "cases": cases_dis,
        "covers": ("decoded", "rejected", "name"),
        "bounds": {
            "quick": "every opcode value at each of the four alignments with "
                     "4 following unknown bytes; switches with up to 2 "
                     "entries and arbitrary headers; pairs of instructions",
            "thorough": "as quick with 0-4 following bytes, switches up to "
                        "4 entries at 8 alignments"},
    },
    "P10": {
        "cases": cases_lines,
        "covers": ("line", "blocks"),
        "bounds": {
            "quick": "line tables of up to 6 rows in code order, unknown "
                     "offsets and lines; up to 6 instructions",
            "thorough": "up to 10 rows and 8 instructions"},
        "assumptions": ("line tables are in code order, without two rows "
                        "for one offset",),
    },
}
