"""C20 control-code events"""
from rt.common import Scenario
from spec import pml as P, tables as T, zoo
from spec.pml import u8, u16, u32, u64, s64

NOTE = """Bounds: every 32-bit control code (split in ranges), lengths and offsets in full, paths of 0..3 characters in both
encodings, with and without extra detail."""

CATEGORY = {}
for _c, _names in (
        ("Read", "OFFLOAD_READ GET_REPARSE_POINT READ_RAW_ENCRYPTED"),
        ("Write", "OFFLOAD_WRITE MOVE_FILE DELETE_REPARSE_POINT WRITE_RAW_ENCRYPTED PIPE_TRANSCEIVE "
                  "PIPE_INTERNAL_TRANSCEIVE"),
        ("Write Metadata", "SET_COMPRESSION WRITE_PROPERTY_DATA SET_OBJECT_ID DELETE_OBJECT_ID SET_REPARSE_POINT "
                           "SET_SPARSE SET_ENCRYPTION CREATE_USN_JOURNAL WRITE_USN_CLOSE_RECORD EXTEND_VOLUME "
                           "DELETE_USN_JOURNAL"),
        ("Read Metadata", "QUERY_RETRIEVAL_POINTERS GET_COMPRESSION QUERY_FAT_BPB FILESYSTEM_GET_STATISTICS "
                          "GET_NTFS_VOLUME_DATA GET_NTFS_FILE_RECORD GET_VOLUME_BITMAP GET_RETRIEVAL_POINTERS "
                          "IS_VOLUME_DIRTY READ_PROPERTY_DATA FIND_FILES_BY_SID GET_OBJECT_ID READ_USN_JOURNAL "
                          "SET_OBJECT_ID_EXTENDED CREATE_OR_GET_OBJECT_ID READ_FILE_USN_DATA QUERY_USN_JOURNAL")):
    for _n in _names.split():
        CATEGORY["FSCTL_" + _n] = _c

OFFLOAD = ("FSCTL_OFFLOAD_READ", "FSCTL_OFFLOAD_WRITE")


def control(op, is64, lo, hi, n=1, asc=False):
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        code, w, r = ctx.u32("code"), ctx.u32("write"), ctx.u32("read")
        ctx.assume(code >= lo)
        ctx.assume(code <= hi)
        off, length = ctx.s64("offset"), ctx.u64("length")
        blk = zoo.blob(ctx, is64, {8: u32(w), 0xc: u32(r), zoo.at(is64, 0x14, 0x1c): u32(code)})
        name = None
        for k, v in sorted(T.IOCTLS.items()):
            if lo <= k <= hi and code == k:
                name = v
                break
        if name is None:
            name = "0x%x (Device:0x%x Function:%d Method: %d)" % (code, code >> 16, (code >> 2) & 0xfff, code & 3)
            cat = ""
        else:
            cat = CATEGORY.get(name, "")
        want = [("Control", name)]
        if op == "FileSystemControl":
            if name in OFFLOAD:
                want += [("Offset", off), ("Length", length)]
            elif name == "FSCTL_PIPE_INTERNAL_WRITE":
                want += [("Length", w)]
            elif name == "FSCTL_PIPE_INTERNAL_READ":
                want += [("Length", r)]
            elif name in ("FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"):
                want += [("WriteLength", w), ("ReadLength", r)]
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS[op], details=zoo.fs_details(
            ctx, 0, blk, inf, raw, s64(off) + u64(length)), extra=zoo.unused(ctx)), is64)
        ctx.eq(P.view_details(e), P.expect_details(op, cat, s, want), "event")
    return run


def scenarios(tier):
    out = []
    codes = sorted(T.IOCTLS)
    cuts = [0] + codes[12::12] + [1 << 32]
    for is64 in (0, 1):
        for op in ("FileSystemControl", "DeviceIoControl"):
            for lo, hi in zip(cuts, cuts[1:]):
                out.append(Scenario("%s-%d-%x-%x" % (op, is64, lo, hi - 1), control(op, is64, lo, hi - 1),
                                    "every control code in 0x%x..0x%x" % (lo, hi - 1), weight=3))
            pipe = zoo.number(T.IOCTLS, "FSCTL_PIPE_TRANSCEIVE")
            for n, asc in ((0, True), (3, False), (3, True)) + (((9, False),) if tier == "thorough" else ()):
                out.append(Scenario("%s-%d-path%d%d" % (op, is64, n, asc), control(op, is64, pipe, pipe, n, asc), "path of %d characters" % n))
    return out
