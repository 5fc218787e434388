"""C13 registry key operations"""
from rt.common import Scenario
from spec import pml as P, tables as T, zoo
from spec.pml import u32

NOTE = """Bounds: strings of 0..3 characters in both encodings; every disposition value; every access mask without the
maximum-allowed bit, and the exact maximum-allowed request, with every granted mask among a fixed list."""

PLAIN = {"RegDeleteKey": "Write", "RegDeleteValue": "Write", "RegSetKeySecurity": "Write Metadata",
         "RegQueryKeySecurity": "Read Metadata", "RegQueryMultipleValueKey": "Read", "RegUnloadKey": "",
         "RegFlushKey": "", "RegCloseKey": ""}
ACCESS = [(0x20019, "Read"), (0xf003f, "All Access"), (0x1, "Query Value"), (0x10008, "Enumerate Sub Keys, Delete"),
          (0x300, "WOW64_Res"), (0x80000000, "Read"), (0x2000001, "Query Value, Maximum Allowed")]
MAXIMUM = 0x2000000


def same(make, is64):
    def run(ctx):
        ev = make(ctx, is64)
        e = P.one_event(ev.record(is64) + b"\x55" * 8, is64)
        ctx.eq(P.view_details(e), ev.expect(), "event")
    return run


def plain(op, n, asc, is64, extra):
    """whatever follows the path, whatever the extra block holds"""
    def run(ctx):
        ev = zoo.reg_plain(op, PLAIN[op], n, asc)(ctx, is64)
        ev.details += ctx.bytes("more", 4)
        if extra:
            ev.extra = ctx.bytes("x", extra)
        e = P.one_event(ev.record(is64), is64)
        ctx.eq(P.view_details(e), ev.expect(), "event")
    return run


def opened(op, is64, access, text, has_extra, n=2, asc=False):
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        d = inf + ctx.bytes("pad", 2) + u32(access) + raw
        out, cat, extra = [("Desired Access", text)], "Read", None
        if has_extra:
            disp = ctx.u32("disposition")
            if access == MAXIMUM:
                g, gt = ctx.choice("granted", ACCESS + [(0, "None 0x0"), (0x40, "None 0x40")])
                out.append(("Granted Access", gt))
                extra = u32(g)
            else:
                extra = ctx.bytes("granted", 4)
            extra += u32(disp) + ctx.bytes("more", has_extra - 1)
            if disp == 1:
                out.append(("Disposition", "REG_CREATED_NEW_KEY"))
                cat = "Write"
            elif disp == 2:
                out.append(("Disposition", "REG_OPENED_EXISTING_KEY"))
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG[op], details=d, extra=extra), is64)
        ctx.eq(P.view_details(e), P.expect_details(op, cat, s, out), "event")
    return run


def any_access(op, is64, has_extra):
    """every mask without the maximum-allowed bit: only the disposition depends on the extra block"""
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", 1)
        access = ctx.u32("access")
        ctx.assume(access & MAXIMUM == 0)
        extra = None
        disp = 0
        if has_extra:
            disp = ctx.choice("disposition", [0, 1, 2, 3])
            extra = ctx.bytes("granted", 4) + u32(disp)
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG[op], details=inf + b"\0\0" + u32(access) + raw, extra=extra),
                        is64)
        keys = list(e.details.keys())
        if access == 0:
            ctx.eq((keys, e.category, e.path), ([], "Read", s), "event")
        else:
            ctx.eq((keys, e.category, e.path),
                   (["Desired Access"] + (["Disposition"] if disp in (1, 2) else []),
                    "Write" if disp == 1 else "Read", s), "event")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    ns = (0, 1, 3) + ((5,) if deep else ())
    for is64 in (0, 1):
        for op in PLAIN:
            for n in ns:
                for asc in (True, False):
                    out.append(Scenario("%s-%d-%d-%d" % (op, is64, n, asc), plain(op, n, asc, is64, 0 if n else 3),
                                        "path of %d characters" % n))
        for op, label, cat in (("RegLoadKey", "Hive Path", ""), ("RegRenameKey", "New Name", "Write")):
            for n in ns:
                for m in ns:
                    for a in (True, False):
                        for b in (True, False):
                            out.append(Scenario("%s-%d-%d%d-%d%d" % (op, is64, n, m, a, b), same(
                                zoo.reg_string2(op, label, cat, n, a, m, b), is64), "strings of %d, %d" % (n, m)))
        for op in ("RegOpenKey", "RegCreateKey"):
            for x in (0, 1, 5):
                for access, text in ACCESS + [(MAXIMUM, "Maximum Allowed")]:
                    out.append(Scenario("%s-%d-%x-%d" % (op, is64, access, x), opened(op, is64, access, text, x),
                                        "every disposition"))
            for n in ns:
                for asc in (True, False):
                    out.append(Scenario("%s-%d-path-%d-%d" % (op, is64, n, asc),
                                        opened(op, is64, MAXIMUM, "Maximum Allowed", 1, n, asc),
                                        "path of %d characters, every disposition" % n))
            for x in (0, 1):
                out.append(Scenario("%s-%d-any-%d" % (op, is64, x), any_access(op, is64, x),
                                    "every access mask without the maximum-allowed bit", weight=5))
    return out
