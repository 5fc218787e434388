"""C19 read and write events"""
from rt.common import Scenario
from spec import masks as M, pml as P, tables as T, zoo
from spec.pml import u8, u16, u32, s64

NOTE = """Bounds: every flag and priority word, every signed offset and length; paths of 0..3 characters in both
encodings; extra detail absent or of 4..8 bytes."""


def transfer(op, is64, n, asc, extra):
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        word, length, off = ctx.u32("flags"), ctx.u32("length"), ctx.s64("offset")
        blk = zoo.blob(ctx, is64, {4: u32(word), 0xc: u32(length), zoo.at(is64, 0x14, 0x1c): s64(off)})
        block = None
        if extra is not None:
            length = ctx.u32("completed")
            block = u32(length) + ctx.bytes("more", extra)
        want = [("Offset", off), ("Length", length)]
        flags = word & 0xe000ff
        priority = (word >> 17) & 7
        if flags != 0:
            want.append(("I/O Flags", M.io_flags(flags)))
        if priority != 0:
            want.append(("Priority", T.PRIORITY[priority] if priority in T.PRIORITY else "0x%x" % priority))
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS[op], details=zoo.fs_details(
            ctx, 0, blk, inf, raw, ctx.bytes("rest", 3)), extra=block), is64)
        ctx.eq(P.view_details(e), P.expect_details(op, "Read" if op == "ReadFile" else "Write", s, want), "event")
    return run


def scenarios(tier):
    out = []
    for is64 in (0, 1):
        for op in ("ReadFile", "WriteFile"):
            for n, asc in ((0, True), (2, True), (3, False)) + (((8, False), (9, True)) if tier == "thorough" else ()):
                for extra in (None, 0, 4):
                    out.append(Scenario("%s-%d-%d%d-%s" % (op, is64, n, asc, extra), transfer(op, is64, n, asc, extra),
                                        "path of %d characters, every flag word, length and offset" % n, weight=2))
    return out
