"""Detail blocks of every kind of event, built from named fields, with what they must decode to.

A kind is a function (ctx, is64) -> Ev.  Inputs are drawn from ctx; masks whose rendering has its own checks are fixed
here."""
from collections import OrderedDict

from spec.pml import u8, u16, u32, u64, s64, pvoid, info, dstr, wide, event, expect_details
from spec import tables as T


class Ev(object):
    def __init__(self, cls, op, details, extra, operation, category, path, out):
        self.cls, self.op, self.details, self.extra = cls, op, details, extra
        self.operation, self.category, self.path, self.out = operation, category, path, OrderedDict(out)

    def record(self, is64, **kw):
        f = dict(cls=self.cls, op=self.op, details=self.details, extra=self.extra)
        f.update(kw)
        return event(is64, **f)

    def expect(self):
        return expect_details(self.operation, self.category, self.path, self.out)


def unused(ctx):
    """an extra block of an event that has no use for one, or none"""
    n = ctx.choice("unused extra", [None, 0, 5])
    return None if n is None else ctx.bytes("unused%d" % n, n)


def number(names, name):
    for k, v in names.items():
        if v == name:
            return k
    raise KeyError(name)


REG = dict((v, k) for k, v in T.OPERATIONS[2].items())
FS = dict((v, k) for k, v in T.OPERATIONS[3].items())
PROC = dict((v, k) for k, v in T.OPERATIONS[1].items())
NET = dict((v, k) for k, v in T.OPERATIONS[5].items())


def text(ctx, name, n=2, asc=False):
    """a detail string: (info, stored bytes, value)"""
    s = ctx.text(name, n, "ascii" if asc else "char")
    i, raw = dstr(s, asc)
    return i, raw, s


# ---------------------------------------------------------------------------- file system
def blob_size(is64):
    return (8 if is64 else 4) * 5 + 0x14


def blob(ctx, is64, fields, junk=True, name="blob"):
    """the fixed parameter block: fields {offset: bytes}, the rest arbitrary"""
    n = blob_size(is64)
    out = b""
    at = 0
    for off in sorted(fields):
        if off > at:
            out += ctx.bytes("%s.%d" % (name, at), off - at) if junk else b"\0" * (off - at)
        out += fields[off]
        at = off + len(fields[off])
    if at < n:
        out += ctx.bytes("%s.%d" % (name, at), n - at) if junk else b"\0" * (n - at)
    assert len(out) == n
    return out


def fs_details(ctx, sub, blk, inf, raw, rest=b"", pad=True):
    return u8(sub) + (ctx.bytes("pad1", 3) if pad else b"\0\0\0") + blk + inf + (ctx.bytes("pad2", 2) if pad else
                                                                              b"\0\0") + raw + rest


def at(is64, o32, o64):
    return o64 if is64 else o32


def fs_plain(opname, plen=2, asc=False):
    def kind(ctx, is64):
        inf, raw, s = text(ctx, "path", plen, asc)
        d = fs_details(ctx, 0, blob(ctx, is64, {}), inf, raw)
        return Ev(3, FS[opname], d, None, opname, "", s, [])
    return kind


def read_write(opname, has_extra, plen=2, asc=False, flags=0, priority=0):
    def kind(ctx, is64):
        inf, raw, s = text(ctx, "path", plen, asc)
        off, length = ctx.s64("offset"), ctx.u32("length")
        fp = flags | (priority << 17)
        d = fs_details(ctx, 0, blob(ctx, is64, {4: u32(fp), 0xc: u32(length), at(is64, 0x14, 0x1c): s64(off)}), inf, raw)
        out = [("Offset", off)]
        extra = None
        if has_extra:
            done = ctx.u32("completed")
            extra = u32(done) + ctx.bytes("more", has_extra - 1)
            out.append(("Length", done))
        else:
            out.append(("Length", length))
        return Ev(3, FS[opname], d, extra, opname, "Read" if opname == "ReadFile" else "Write", s, out)
    return kind


def create_file(result=None, disposition=1, access=0x120089, text_access="Generic Read", plen=2, asc=False):
    def kind(ctx, is64):
        inf, raw, s = text(ctx, "path", plen, asc)
        alloc = ctx.u32("allocation")
        blk = blob(ctx, is64, {at(is64, 0x10, 0x14): u32(disposition << 24 | 0x20),
                               at(is64, 0x14, 0x1c): u16(0x80), at(is64, 0x16, 0x1e): u16(3),
                               at(is64, 0x24, 0x34): u32(alloc)})
        d = fs_details(ctx, 0, blk, inf, raw, u32(access) + u8(0) + ctx.bytes("pad3", 3))
        out = [("Desired Access", text_access), ("Disposition", T.FS_DISPOSITION[disposition]),
               ("Options", "Synchronous IO Non-Alert"), ("Attributes", "N"), ("ShareMode", "Read, Write"),
               ("AllocationSize", alloc if disposition in (0, 2, 3, 5) else "n/a")]
        extra = None
        cat = "" if disposition == 1 else "Write"
        if result is not None:
            extra = u32(result)
            out.append(("OpenResult", T.OPEN_RESULT[result]))
            cat = "Write" if result in (0, 2, 3) else ""
        return Ev(3, FS["CreateFile"], d, extra, "CreateFile", cat, s, out)
    return kind


def query_directory(klass=3, entries=(), flen=0, path_end="", plen=2, asc=True):
    """entries: names (lengths in characters); entries laid out by query_entry"""
    def kind(ctx, is64):
        s = ctx.text("path", plen, "ascii1" if asc else "char") + path_end
        inf, raw = dstr(s, asc)
        finf, fraw, flt = text(ctx, "filter", flen)
        blk = blob(ctx, is64, {at(is64, 0x14, 0x1c): u32(klass)})
        d = fs_details(ctx, 1, blk, inf, raw, finf + fraw)
        out = []
        path = s
        if flen:
            path = s + flt if s.endswith("\\") else s + "\\" + flt
            out.append(("Filter", flt))
        out.append(("FileInformationClass", T.FILE_CLASS[klass]))
        extra = None
        if entries:
            names = [ctx.text("entry%d" % i, n) for i, n in enumerate(entries)]
            extra = directory_entries(ctx, klass, names)
            for i, n in enumerate(names):
                out.append((str(i + (1 if flen else 0)), n))
        return Ev(3, FS["DirectoryControl"], d, extra, "QueryDirectory", "Read Metadata", path, out)
    return kind


# size of the fixed part before the file name in each directory information structure
DIR_FIXED = {12: 12, 1: 64, 2: 68, 38: 80, 3: 94, 37: 104}


def directory_entries(ctx, klass, names, gaps=None, last_gap=0):
    out = b""
    for i, n in enumerate(names):
        raw = wide(n)
        fixed = DIR_FIXED[klass]
        gap = (8 - (fixed + len(raw)) % 8) % 8 if gaps is None else gaps[i]
        last = i == len(names) - 1
        nxt = 0 if last else fixed + len(raw) + gap
        body = u32(nxt)
        # FileIndex, then (except in the names-only structure) times, sizes and attributes, then the name length
        mid = 4 if klass == 12 else 4 + 32 + 16 + 4
        body += ctx.bytes("e%d.a" % i, mid) + u32(len(raw))
        rest = fixed - len(body)
        if rest:
            body += ctx.bytes("e%d.b" % i, rest)
        out += body + raw
        if not last:
            out += ctx.bytes("e%d.g" % i, gap) if gap else b""
    return out


def notify_directory(ctx, is64):
    inf, raw, s = text(ctx, "path")
    d = fs_details(ctx, 2, blob(ctx, is64, {at(is64, 0x10, 0x14): u32(0x4)}), inf, raw)
    return Ev(3, FS["DirectoryControl"], d, None, "NotifyChangeDirectory", "Read Metadata", s,
              [("Filter", "FILE_NOTIFY_CHANGE_ATTRIBUTES")])


def ioctl(opname, code, category, fields):
    def kind(ctx, is64):
        inf, raw, s = text(ctx, "path")
        w, r = ctx.u32("write"), ctx.u32("read")
        blk = blob(ctx, is64, {8: u32(w), 0xc: u32(r), at(is64, 0x14, 0x1c): u32(code)})
        rest = b""
        out = [("Control", T.IOCTLS[code])]
        if fields == "offload":
            o, n = ctx.s64("offset"), ctx.u64("length")
            rest = s64(o) + u64(n)
            out += [("Offset", o), ("Length", n)]
        elif fields == "write":
            out += [("Length", w)]
        elif fields == "read":
            out += [("Length", r)]
        elif fields == "both":
            out += [("WriteLength", w), ("ReadLength", r)]
        return Ev(3, FS[opname], fs_details(ctx, 0, blk, inf, raw, rest), None, opname, category, s, out)
    return kind


def set_disposition(ctx, is64):
    inf, raw, s = text(ctx, "path")
    d = fs_details(ctx, number(T.SUBOPERATIONS[26], "SetDispositionInformationFile"), blob(ctx, is64, {}), inf, raw,
                   u8(1) + ctx.bytes("pad3", 3))
    return Ev(3, FS["SetInformationFile"], d, None, "SetDispositionInformationFile", "Write", s, [("Delete", "True")])


def create_mapping(ctx, is64):
    inf, raw, s = text(ctx, "path")
    d = fs_details(ctx, 0, blob(ctx, is64, {0xc: u32(1), 0x10: u32(4)}), inf, raw)
    return Ev(3, FS["CreateFileMapping"], d, None, "CreateFileMapping", "", s,
              [("SyncType", "SyncTypeCreateSection"), ("PageProtection", "PAGE_READWRITE")])


def query_id(ctx, is64):
    inf, raw, s = text(ctx, "path")
    name = "QueryIdInformation"
    d = fs_details(ctx, number(T.SUBOPERATIONS[25], name), blob(ctx, is64, {}), inf, raw)
    return Ev(3, FS["QueryInformationFile"], d, None, name, "Read Metadata", s, [])


# ---------------------------------------------------------------------------- registry
def reg_plain(opname, category, plen=2, asc=False):
    def kind(ctx, is64):
        inf, raw, s = text(ctx, "path", plen, asc)
        return Ev(2, REG[opname], inf + raw, None, opname, category, s, [])
    return kind


def reg_open(opname, access=0x20019, access_text="Read", granted=None, disposition=None, plen=2, asc=False):
    def kind(ctx, is64):
        inf, raw, s = text(ctx, "path", plen, asc)
        d = inf + ctx.bytes("pad", 2) + u32(access) + raw
        out = []
        cat = "Read"
        extra = None
        if access:
            out.append(("Desired Access", access_text))
        if disposition is not None:
            if granted is None:
                extra = ctx.bytes("granted", 4)
            else:
                extra = u32(granted[0])
                out.append(("Granted Access", granted[1]))
            extra += u32(disposition)
            if disposition in T.REG_DISPOSITION and access:
                out.append(("Disposition", T.REG_DISPOSITION[disposition]))
                if disposition == 1:
                    cat = "Write"
        return Ev(2, REG[opname], d, extra, opname, cat, s, out)
    return kind


def reg_string2(opname, label, category, n=2, asc=False, plen=2, pasc=True):
    def kind(ctx, is64):
        inf, raw, s = text(ctx, "path", plen, pasc)
        inf2, raw2, s2 = text(ctx, "new", n, asc)
        return Ev(2, REG[opname], inf + inf2 + raw + raw2, None, opname, category, s, [(label, s2)])
    return kind


def reg_query_key(klass, fields, n=2):
    """fields: list of (label, kind) of the class's structure"""
    def kind(ctx, is64):
        inf, raw, s = text(ctx, "path")
        d = inf + ctx.bytes("pad", 2) + ctx.bytes("len", 4) + u32(klass) + raw
        extra, out = key_struct(ctx, fields, n)
        return Ev(2, REG["RegQueryKey"], d, extra, "RegQueryKey", "Read", s,
                  [("Query", T.REG_KEY_CLASS[klass])] + out)
    return kind


def key_struct(ctx, fields, n):
    extra = b""
    out = []
    for label, k in fields:
        if k == "u32":
            v = ctx.u32(label)
            extra += u32(v)
        elif k == "u64":
            v = ctx.u64(label)
            extra += u64(v)
        else:
            v = ctx.text(label, n)
            extra += u32(2 * n) + wide(v)
        out.append((label, v))
    return extra, out


KEY_FIELDS = {
    0: [("LastWriteTime", "u64"), ("TitleIndex", "u32"), ("Name", "name")],
    1: [("LastWriteTime", "u64"), ("TitleIndex", "u32"), ("ClassOffset", "u32"), ("ClassLength", "u32"),
        ("Name", "name")],
    2: [("LastWriteTime", "u64"), ("TitleIndex", "u32"), ("ClassOffset", "u32"), ("ClassLength", "u32"),
        ("SubKeys", "u32"), ("MaxNameLen", "u32"), ("MaxClassLen", "u32"), ("Values", "u32"),
        ("MaxValueNameLen", "u32"), ("MaxValueDataLen", "u32")],
    3: [("Name", "name")],
    4: [("LastWriteTime", "u64"), ("TitleIndex", "u32"), ("SubKeys", "u32"), ("MaxNameLen", "u32"), ("Values", "u32"),
        ("MaxValueNameLen", "u32"), ("MaxValueDataLen", "u32")],
    5: [("UserFlags", "u32")],
    6: [],
    7: [("HandleTags", "u32")],
    8: [],
    9: [],
}


def reg_query_value(ctx, is64):
    """partial information, REG_SZ"""
    inf, raw, s = text(ctx, "path")
    d = inf + ctx.bytes("pad", 2) + ctx.bytes("len", 4) + u32(2) + raw
    v = ctx.text("value", 2)
    extra = ctx.bytes("title", 4) + u32(1) + u32(6) + wide(v) + b"\0\0"
    return Ev(2, REG["RegQueryValue"], d, extra, "RegQueryValue", "Read", s,
              [("Type", "REG_SZ"), ("Length", 6), ("Data", v)])


def reg_enum_value(ctx, is64):
    inf, raw, s = text(ctx, "path")
    index = ctx.u32("index")
    d = inf + ctx.bytes("pad", 2) + ctx.bytes("len", 4) + u32(index) + u32(1) + raw
    name, v = ctx.text("name", 2), ctx.u32("value")
    extra = ctx.bytes("title", 4) + u32(4) + u32(24) + u32(4) + u32(4) + wide(name) + u32(v)
    return Ev(2, REG["RegEnumValue"], d, extra, "RegEnumValue", "Read", s,
              [("Index", index), ("Name", name), ("Type", "REG_DWORD"), ("Length", 4), ("Data", v)])


def reg_set_value(ctx, is64):
    inf, raw, s = text(ctx, "path")
    data = ctx.bytes("data", 3)
    d = inf + ctx.bytes("pad", 2) + u32(3) + u32(3) + u32(3) + raw + data
    return Ev(2, REG["RegSetValue"], d, None, "RegSetValue", "Write", s,
              [("Type", "REG_BINARY"), ("Length", 3), ("Data", data)])


def reg_set_info(ctx, is64, t=None):
    inf, raw, s = text(ctx, "path")
    t = ctx.u64("time") if t is None else t
    d = inf + ctx.bytes("pad", 2) + u32(0) + ctx.bytes("unk", 4) + u16(8) + ctx.bytes("unk2", 2) + raw + u64(t)
    return Ev(2, REG["RegSetInfoKey"], d, None, "RegSetInfoKey", "Write Metadata", s,
              [("KeySetInformationClass", "KeyWriteTimeInformation"), ("Length", 8), ("LastWriteTime", t)])


# ---------------------------------------------------------------------------- processes
def process_create(opname="Process_Create", sizes=(0, 0), lens=(2, 2), asc=(False, False)):
    def kind(ctx, is64):
        pid = ctx.u32("pid")
        i1, r1, s1 = text(ctx, "path", lens[0], asc[0])
        i2, r2, s2 = text(ctx, "cmd", lens[1], asc[1])
        d = (ctx.bytes("u1", 4) + u32(pid) + ctx.bytes("u2", 0x24) + u8(sizes[0]) + u8(sizes[1]) + i1 + i2
             + ctx.bytes("u3", 2 + sizes[0] + sizes[1]) + r1 + r2)
        return Ev(1, PROC[opname], d, None, opname, "", s1, [("PID", pid), ("Command line", s2)])
    return kind


def process_start(lens=(2, 2), asc=(False, False), env=(2, 1), terminated=True):
    def kind(ctx, is64):
        ppid = ctx.u32("ppid")
        i1, r1, s1 = text(ctx, "cmd", lens[0], asc[0])
        i2, r2, s2 = text(ctx, "cwd", lens[1], asc[1])
        words = [ctx.text("env%d" % i, n) for i, n in enumerate(env)]
        block = b"".join([wide(w) + b"\0\0" for w in words])
        if terminated:
            block += b"\0\0"
        d = u32(ppid) + i1 + i2 + u32(len(block) // 2) + r1 + r2 + block
        return Ev(1, PROC["Process_Start"], d, None, "Process_Start", "", "",
                  [("Parent PID", ppid), ("Command line", s1), ("Current directory", s2), ("Environment", words)])
    return kind


def process_exit(opname="Process_Exit"):
    def kind(ctx, is64):
        status = ctx.u32("status")
        v = [ctx.u64("v%d" % i) for i in range(6)]
        d = u32(status) + b"".join([u64(x) for x in v])
        return Ev(1, PROC[opname], d, None, opname, "", "",
                  [("Exit Status", status), ("User Time", v[1]), ("Kernel Time", v[0]), ("Private Bytes", v[4]),
                   ("Peak Private Bytes", v[5]), ("Working Set", v[2]), ("Peak Working Set", v[3])])
    return kind


def load_image(n=2, asc=False):
    def kind(ctx, is64):
        base, size = ctx.bits("base", 64 if is64 else 32), ctx.u32("size")
        i, r, s = text(ctx, "path", n, asc)
        d = pvoid(base, is64) + u32(size) + i + ctx.bytes("pad", 2) + r
        return Ev(1, PROC["Load_Image"], d, None, "Load_Image", "", s, [("Image Base", base), ("Image Size", size)])
    return kind


def thread_create(ctx, is64):
    t = ctx.u32("thread")
    return Ev(1, PROC["Thread_Create"], u32(t), None, "Thread_Create", "", "", [("Thread ID", t)])


# ---------------------------------------------------------------------------- network
def network(opname="Send", tcp=1):
    def kind(ctx, is64):
        length = ctx.u32("length")
        ports = [ctx.u16("sport"), ctx.u16("dport")]
        ips = [ctx.bytes("sip", 4), ctx.bytes("dip", 4)]
        k, v = ctx.text("key", 1), ctx.text("val", 2)
        d = (u16(3 | (4 if tcp else 0)) + ctx.bytes("pad", 2) + u32(length) + ips[0] + ctx.bytes("s12", 12) + ips[1]
             + ctx.bytes("d12", 12) + u16(ports[0]) + u16(ports[1]) + wide(k) + b"\0\0" + wide(v) + b"\0\0\0\0")
        dot = ["%d.%d.%d.%d" % (b[0], b[1], b[2], b[3]) for b in ips]
        return Ev(5, NET[opname], d, None, ("TCP " if tcp else "UDP ") + opname, "",
                  "{}:{} -> {}:{}".format(dot[0], ports[0], dot[1], ports[1]), [("Length", length), (k, v)])
    return kind


# ---------------------------------------------------------------------------- the whole zoo
def nothing(cls, op):
    """an event without details"""
    def kind(ctx, is64):
        return Ev(cls, op, b"", None, T.OPERATIONS[cls][op], "", "", [])
    return kind


KINDS = OrderedDict([
    ("Process_Create", process_create()), ("Process_Defined", process_create("Process_Defined")),
    ("Process_Start", process_start()), ("Process_Exit", process_exit()),
    ("Process_Statistics", process_exit("Process_Statistics")), ("Load_Image", load_image()),
    ("Thread_Create", thread_create), ("Network", network()),
    ("RegOpenKey", reg_open("RegOpenKey")), ("RegCreateKey", reg_open("RegCreateKey", disposition=1)),
    ("RegOpenMax", reg_open("RegOpenKey", 0x2000000, "Maximum Allowed", (0x20019, "Read"), 2)),
    ("RegCloseKey", reg_plain("RegCloseKey", "")), ("RegDeleteKey", reg_plain("RegDeleteKey", "Write")),
    ("RegLoadKey", reg_string2("RegLoadKey", "Hive Path", "")),
    ("RegRenameKey", reg_string2("RegRenameKey", "New Name", "Write")),
    ("RegQueryKey-Full", reg_query_key(2, KEY_FIELDS[2])), ("RegQueryKey-Name", reg_query_key(3, KEY_FIELDS[3])),
    ("RegQueryValue", reg_query_value), ("RegEnumValue", reg_enum_value), ("RegSetValue", reg_set_value),
    ("RegSetInfoKey", reg_set_info),
    ("CreateFile", create_file()), ("CreateFile-result", create_file(2, 3)),
    ("ReadFile", read_write("ReadFile", 0)), ("WriteFile-extra", read_write("WriteFile", 3)),
    ("CloseFile", fs_plain("CloseFile")), ("QueryDirectory", query_directory(3, (1, 2))),
    ("QueryDirectory-filter", query_directory(37, (1,), flen=1)), ("NotifyChange", notify_directory),
    ("FSCTL", ioctl("FileSystemControl", number(T.IOCTLS, "FSCTL_PIPE_TRANSCEIVE"), "Write", "both")),
    ("IOCTL", ioctl("DeviceIoControl", number(T.IOCTLS, "FSCTL_GET_COMPRESSION"), "Read Metadata", "")),
    ("SetDisposition", set_disposition), ("CreateFileMapping", create_mapping), ("QueryId", query_id),
    ("Profiling", nothing(4, 0)), ("Thread_Profile", nothing(1, 6)),
])
