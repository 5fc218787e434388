"""C16 registry set-information"""
from rt.common import Scenario
from spec import pml as P, tables as T, zoo
from spec.pml import u16, u32, u64

NOTE = """Bounds: every class number, every length, every value, paths of 0..3 characters, arbitrary bytes around."""


def known(klass, is64, n, asc, zero):
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        length = 0 if zero else ctx.u16("length")
        if not zero:
            ctx.assume(length != 0)
        v = ctx.u64("value") if klass == 0 else ctx.u32("value")
        d = (inf + ctx.bytes("pad", 2) + u32(klass) + ctx.bytes("unk", 4) + u16(length) + ctx.bytes("unk2", 2) + raw
             + (u64(v) if klass == 0 else u32(v)) + ctx.bytes("more", 3))
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG["RegSetInfoKey"], details=d, extra=zoo.unused(ctx)), is64)
        out = [("KeySetInformationClass", T.REG_SET_CLASS[klass]), ("Length", length)]
        if not zero:
            out.append(({0: "LastWriteTime", 1: "Wow64Flags", 5: "HandleTags"}[klass], v))
        ctx.eq(P.view_details(e), P.expect_details("RegSetInfoKey", "Write Metadata", s, out), "event")
    return run


def unknown(is64, n, asc):
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        klass, length = ctx.u32("class"), ctx.u16("length")
        for k in T.REG_SET_CLASS:
            ctx.assume(klass != k)
        d = (inf + ctx.bytes("pad", 2) + u32(klass) + ctx.bytes("unk", 4) + u16(length) + ctx.bytes("unk2", 2) + raw
             + ctx.bytes("more", 9))
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG["RegSetInfoKey"], details=d, extra=zoo.unused(ctx)), is64)
        ctx.eq(P.view_details(e), P.expect_details("RegSetInfoKey", "Write Metadata", s, [
            ("KeySetInformationClass", "<Unknown: %d>" % klass), ("Length", length)]), "event")
    return run


def scenarios(tier):
    out = []
    for is64 in (0, 1):
        for n in (0, 1, 3) + ((8,) if tier == "thorough" else ()):
            for asc in (True, False):
                for k in T.REG_SET_CLASS:
                    for zero in (True, False):
                        out.append(Scenario("known-%d-%d-%d-%d-%d" % (k, is64, n, asc, zero),
                                            known(k, is64, n, asc, zero), "every value and length"))
                out.append(Scenario("unknown-%d-%d-%d" % (is64, n, asc), unknown(is64, n, asc),
                                    "every unknown class and length"))
    return out
