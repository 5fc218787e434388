"""C17 file-system operation naming"""
from rt.common import Scenario
from spec import pml as P, tables as T, zoo
from spec.pml import u8, u16, u32

NOTE = """Bounds: every operation, every sub-operation byte, paths of 0..3 characters in both encodings, arbitrary
parameter blocks where the operation ignores them."""

HANDLED = ("CreateFile", "ReadFile", "WriteFile", "FileSystemControl", "DeviceIoControl", "CreateFileMapping")
SUB_HANDLED = ("QueryDirectory", "NotifyChangeDirectory", "SetDispositionInformationFile")
METADATA = ("QueryIdInformation", "QueryRemoteProtocolInformation")


def naming(op, is64, n, asc, options):
    def run(ctx):
        sub = ctx.u8("sub")
        name = T.OPERATIONS[3][op]
        expect = name
        if op in T.SUBOPERATIONS and sub != 0:
            known = None
            for k, v in T.SUBOPERATIONS[op].items():
                if sub == k:
                    known = v
                    break
            expect = known if known is not None else name + " <Unknown>"
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        if s:
            ctx.assume(s[len(s) - 1] != "\\")
        handled = expect in HANDLED or expect in SUB_HANDLED
        # operations with a decoder of their own get a plain block, the others any block
        blk = zoo.blob(ctx, is64, {}, junk=not handled)
        d = u8(sub) + ctx.bytes("pad1", 3) + blk + inf + ctx.bytes("pad2", 2) + raw + (b"\0" * 16)
        e = P.one_event(P.event(is64, cls=3, op=op, details=d, extra=None if handled else zoo.unused(ctx)), is64, options=options)
        ctx.eq((e.operation, e.path), (expect, s), "name and path")
        if not handled and not options:
            ctx.eq((e.category, list(e.details.items())), ("Read Metadata" if expect in METADATA else "", []), "category")
    return run


def scenarios(tier):
    out = []
    deep = tier == "thorough"
    for is64 in (0, 1):
        for op in T.OPERATIONS[3]:
            for n, asc in ((0, True), (2, False), (3, True)) + (((6, False), (6, True)) if deep else ()):
                out.append(Scenario("%s-%d-%d" % (T.OPERATIONS[3][op], is64, n * 2 + asc), naming(op, is64, n, asc, {}),
                                    "every sub-operation byte"))
            out.append(Scenario("%s-%d-off" % (T.OPERATIONS[3][op], is64),
                                naming(op, is64, 1, True, {"should_get_details": False}),
                                "every sub-operation byte, details off"))
    return out
