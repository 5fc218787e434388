"""C23 bit masks render to exactly the flag names they contain"""
from rt.common import Scenario
from spec import masks as M, pml as P, tables as T, zoo
from spec.pml import u8, u16, u32

NOTE = """Bounds: every value of every mask (32-bit access rights, 24-bit options, 16-bit attributes and share modes,
the I/O flag bits, 32-bit change filters), read through a whole event of both bitnesses."""


def reg_access(op, is64):
    def run(ctx):
        mask = ctx.u32("access")
        d = zoo.text(ctx, "path", 1)[0] + b"\0\0" + u32(mask) + b"x\0"
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG[op], details=d), is64)
        if mask == 0:
            ctx.eq(list(e.details.items()), [], "no access requested")
        else:
            ctx.eq(list(e.details.items()), [("Desired Access", M.reg_access(mask))], "desired access")
    return run


def reg_granted(op, is64):
    """the maximum-allowed request, granted any mask"""
    def run(ctx):
        mask = ctx.u32("granted")
        d = zoo.text(ctx, "path", 1)[0] + b"\0\0" + u32(0x2000000) + b"x\0"
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG[op], details=d, extra=u32(mask) + u32(2)), is64)
        ctx.eq(list(e.details.items()), [("Desired Access", "Maximum Allowed"), ("Granted Access", M.reg_access(mask)),
                                         ("Disposition", "REG_OPENED_EXISTING_KEY")], "granted access")
    return run


def create(is64, which):
    def run(ctx):
        at = zoo.at
        v = {"access": 0x20, "options": 0x40, "attributes": 0x20, "share": 4}
        v[which] = {"access": ctx.u32, "options": lambda n: ctx.bits(n, 24), "attributes": ctx.u16,
                    "share": ctx.u16}[which](which)
        blk = zoo.blob(ctx, is64, {at(is64, 0x10, 0x14): u32((1 << 24) | v["options"]),
                                   at(is64, 0x14, 0x1c): u16(v["attributes"]),
                                   at(is64, 0x16, 0x1e): u16(v["share"])})
        inf, raw, s = zoo.text(ctx, "path", 1)
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS["CreateFile"], details=zoo.fs_details(
            ctx, 0, blk, inf, raw, u32(v["access"]) + b"\0\0\0\0")), is64)
        ctx.eq(list(e.details.items()), [
            ("Desired Access", M.fs_access(v["access"])), ("Disposition", "Open"),
            ("Options", M.options(v["options"])), ("Attributes", M.attributes(v["attributes"])),
            ("ShareMode", M.share(v["share"])), ("AllocationSize", "n/a")], which)
    return run


def io_flags(op, is64):
    def run(ctx):
        word = ctx.u32("flags")
        ctx.assume((word >> 17) & 7 == 0)
        blk = zoo.blob(ctx, is64, {4: u32(word), 0xc: u32(7), zoo.at(is64, 0x14, 0x1c): P.s64(5)})
        inf, raw, s = zoo.text(ctx, "path", 1)
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS[op], details=zoo.fs_details(ctx, 0, blk, inf, raw)), is64)
        want = [("Offset", 5), ("Length", 7)]
        if word & 0xe000ff != 0:
            want.append(("I/O Flags", M.io_flags(word & 0xe000ff)))
        ctx.eq(list(e.details.items()), want, "I/O flags")
    return run


def notify(is64):
    def run(ctx):
        mask = ctx.u32("filter")
        blk = zoo.blob(ctx, is64, {zoo.at(is64, 0x10, 0x14): u32(mask)})
        inf, raw, s = zoo.text(ctx, "path", 1)
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS["DirectoryControl"],
                                details=zoo.fs_details(ctx, 2, blk, inf, raw)), is64)
        ctx.eq(list(e.details.items()), [("Filter", M.notify(mask))], "change filter")
    return run


def scenarios(tier):
    out = []
    for is64 in (0, 1):
        for op in ("RegOpenKey", "RegCreateKey"):
            out.append(Scenario("%s-%d" % (op, is64), reg_access(op, is64), "every 32-bit mask", weight=3))
            out.append(Scenario("%s-granted-%d" % (op, is64), reg_granted(op, is64), "every 32-bit mask", weight=3))
        for which in ("access", "options", "attributes", "share"):
            out.append(Scenario("CreateFile-%s-%d" % (which, is64), create(is64, which), "every value", weight=3))
        for op in ("ReadFile", "WriteFile"):
            out.append(Scenario("%s-flags-%d" % (op, is64), io_flags(op, is64), "every flag word without priority"))
        out.append(Scenario("Notify-%d" % is64, notify(is64), "every 32-bit filter"))
    return out
