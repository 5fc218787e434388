"""C22 section-creation and disposition events"""
from rt.common import Scenario
from spec import pml as P, tables as T, zoo
from spec.pml import u8, u16, u32

NOTE = """Bounds: every sync type, page protection word and delete byte; paths of 0..3 characters in both encodings."""

# the protections in the order Procmon tests them
ORDER = ("PAGE_READONLY", "PAGE_READWRITE", "PAGE_WRITECOPY", "PAGE_EXECUTE", "PAGE_EXECUTE_READ",
         "PAGE_EXECUTE_READWRITE")


def mapping(is64, n, asc):
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        sync, page = ctx.u32("sync"), ctx.u32("page")
        blk = zoo.blob(ctx, is64, {0xc: u32(sync), 0x10: u32(page)})
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS["CreateFileMapping"], details=zoo.fs_details(
            ctx, 0, blk, inf, raw, ctx.bytes("rest", 2)), extra=zoo.unused(ctx)), is64)
        want = [("SyncType", T.SYNC_TYPE[sync] if sync in T.SYNC_TYPE else "Unknown: 0x%x" % sync)]
        bits = dict((v, k) for k, v in T.PAGE_PROTECTION.items())
        for name in ORDER:
            if page & bits[name] != 0:
                want.append(("PageProtection", name + ("|PAGE_NOCACHE" if page & bits["PAGE_NOCACHE"] != 0 else "")))
                break
        ctx.eq(P.view_details(e), P.expect_details("CreateFileMapping", "", s, want), "event")
    return run


def disposition(is64, n, asc):
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        delete = ctx.u8("delete")
        op = zoo.number(T.SUBOPERATIONS[26], "SetDispositionInformationFile")
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS["SetInformationFile"], details=zoo.fs_details(
            ctx, op, zoo.blob(ctx, is64, {}), inf, raw, u8(delete) + ctx.bytes("pad3", 3) + ctx.bytes("rest", 2)), extra=zoo.unused(ctx)),
            is64)
        if delete != 0:
            want, cat = [("Delete", "True")], "Write"
        else:
            want, cat = [("Delete", "False")], ""
        ctx.eq(P.view_details(e), P.expect_details("SetDispositionInformationFile", cat, s, want), "event")
    return run


def scenarios(tier):
    out = []
    for is64 in (0, 1):
        for n, asc in ((0, True), (1, False), (2, True), (3, False)) + (
                ((8, False), (9, True), (40, False)) if tier == "thorough" else ()):
            out.append(Scenario("mapping-%d-%d%d" % (is64, n, asc), mapping(is64, n, asc),
                                "path of %d characters, every sync type and protection" % n, weight=2))
            out.append(Scenario("disposition-%d-%d%d" % (is64, n, asc), disposition(is64, n, asc),
                                "path of %d characters, every delete byte" % n))
    return out
