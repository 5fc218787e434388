"""C18 file create events"""
from rt.common import Scenario
from spec import masks as M, pml as P, tables as T, zoo
from spec.pml import u8, u16, u32

NOTE = """Bounds: paths of 0..3 characters in both encodings; every access mask, disposition byte, option word, attribute
word, share mode, allocation size and open result (each in full); SIDs of 0 to 132 bytes (thorough 255) with any content
whose rendering C24 decides; extra detail absent or of 4..6 bytes."""

MAY_CREATE = (0, 2, 3, 5)
WROTE = (0, 2, 3)


def create(is64, full, n=2, asc=False, extra=None, sid=0, ):
    def run(ctx):
        at = zoo.at
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        access, options, attrs, share = 0x120089, 0x60, 0x80, 3
        if full == "access":
            access = ctx.u32("access")
        elif full == "options":
            options = ctx.bits("options", 24)
        elif full == "attributes":
            attrs, share = ctx.u16("attributes"), ctx.u16("share")
        disposition = ctx.u8("disposition")
        alloc = ctx.u32("allocation")
        blk = zoo.blob(ctx, is64, {at(is64, 0x10, 0x14): u32((disposition << 24) | options),
                                   at(is64, 0x14, 0x1c): u16(attrs), at(is64, 0x16, 0x1e): u16(share),
                                   at(is64, 0x24, 0x34): u32(alloc)})
        rest = u32(access) + u8(sid) + ctx.bytes("pad3", 3)
        out = [("Desired Access", M.fs_access(access)),
               ("Disposition", T.FS_DISPOSITION.get(disposition, "<unknown>")),
               ("Options", M.options(options)), ("Attributes", M.attributes(attrs)), ("ShareMode", M.share(share)),
               ("AllocationSize", alloc if disposition in MAY_CREATE else "n/a")]
        if sid in (12, 68, 132):
            a, count = ctx.u8("authority"), (sid - 8) // 4
            subs = [ctx.u32("sub%d" % k) if k in (0, count - 1) else k for k in range(count)]
            rest += u8(1) + u8(count) + b"\0\0\0\0\0" + u8(a) + b"".join([u32(v) for v in subs])
            out.append(("Impersonating", "S-1-%d" % a + "".join(["-%d" % v for v in subs])))
        elif sid:
            rest += b"\2" + ctx.bytes("sid", sid - 1)
            out.append(("Impersonating", ""))
        # what the request could do, unless its outcome tells what it did
        writes = disposition in (0, 2, 3, 4, 5)
        block = None
        if extra is not None:
            result = ctx.u32("result")
            block = u32(result) + ctx.bytes("more", extra)
            out.append(("OpenResult", T.OPEN_RESULT.get(result, "<unknown>")))
            if result in T.OPEN_RESULT:
                writes = result in WROTE
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS["CreateFile"], details=zoo.fs_details(
            ctx, 0, blk, inf, raw, rest), extra=block), is64)
        ctx.eq(P.view_details(e), P.expect_details("CreateFile", "Write" if writes else "", s, out), "event")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        for full in ("access", "options", "attributes"):
            for extra in (None, 0):
                out.append(Scenario("create-%d-%s-%s" % (is64, full, extra), create(is64, full, 1, extra=extra),
                                    "every %s, disposition, allocation, result" % full, weight=4))
        for n in (0, 1, 3) + ((6, 9) if deep else ()):
            for asc in (True, False):
                out.append(Scenario("create-%d-path%d-%d" % (is64, n, asc), create(is64, "", n, asc, 2),
                                    "path of %d characters" % n))
        for sid in (1, 7, 8, 12, 28, 68, 132) + ((255,) if deep else ()):
            for extra in (None, 1):
                out.append(Scenario("create-%d-sid%d-%s" % (is64, sid, extra), create(is64, "", 1, False, extra, sid),
                                    "SID of %d bytes" % sid))
    return out
