"""C24 security identifiers"""
import struct

from rt.common import Scenario
from spec import pml as P, tables as T, zoo
from spec.pml import u8, u16, u32

NOTE = """Bounds: stored SIDs of every length from 0 to 28 bytes and of 32 to 255 with every byte arbitrary."""


def sid(is64, n, extra):
    def run(ctx):
        at = zoo.at
        # the bytes as the fields they make up, so that every content is covered
        authority = ctx.bits("authority", 48)
        subs = [ctx.u32("sub%d" % i) for i in range(max(0, n - 8) // 4)]
        raw = (ctx.bytes("head", 2) + struct.pack(">Q", authority)[2:] + b"".join([u32(v) for v in subs])
               + ctx.bytes("tail", 3))[:n]
        blk = zoo.blob(ctx, is64, {at(is64, 0x10, 0x14): u32(1 << 24 | 0x40), at(is64, 0x14, 0x1c): u16(0x80),
                                   at(is64, 0x16, 0x1e): u16(7)})
        inf, path, s = zoo.text(ctx, "path", 1)
        out = [("Desired Access", "Generic Read"), ("Disposition", "Open"), ("Options", "Non-Directory File"),
               ("Attributes", "N"), ("ShareMode", "Read, Write, Delete"), ("AllocationSize", "n/a")]
        if n:
            text = ""
            if n >= 8 and n % 4 == 0 and raw[0] == 1 and raw[1] == (n - 8) // 4:
                text = "S-1-%d" % authority
                for v in subs:
                    text += "-%d" % v
            out.append(("Impersonating", text))
        if extra:
            out.append(("OpenResult", "Opened"))
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS["CreateFile"], details=zoo.fs_details(
            ctx, 0, blk, inf, path, u32(0x120089) + u8(n) + ctx.bytes("pad3", 3) + raw),
            extra=u32(1) if extra else None), is64)
        ctx.eq(P.view_details(e), P.expect_details("CreateFile", "", s, out), "event")
    return run


def scenarios(tier):
    out = []
    lengths = list(range(0, 29)) + [32, 36, 44, 64, 68, 132, 252, 255] + ([72, 128, 196, 253] if tier == "thorough" else [])
    for is64 in (0, 1):
        for n in lengths:
            for extra in (0, 1):
                out.append(Scenario("sid-%d-%d-%d" % (is64, n, extra), sid(is64, n, extra), "%d arbitrary bytes" % n,
                                    weight=1 + n // 8))
    return out
