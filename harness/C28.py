"""C28 CSV detail column"""
from collections import OrderedDict

from procmon_parser.logs import Event, Process
from rt.common import Scenario
from spec import pml as P, tables as T, zoo
from spec.pml import u8, u16, u32, u64, s64
from spec.zoo import Ev
from harness.C15 import data_for, type_name

NOTE = """Bounds: every kind of event in the zoo with every value of its fields, strings of 0..4 characters, registry data
of every type of 0..4 bytes or units, environment blocks of 0..3 strings, durations up to 2000 years; the time of
RegSetInfoKey from 1601 to 9999."""

WHEN = 132000000012345678
DROPPED = ("TitleIndex", "MaxNameLen", "MaxValueNameLen", "MaxValueDataLen", "ClassOffset", "ClassLength",
           "MaxClassLen")


def seconds(v):
    return "%d.%07d" % (v // 10000000, v % 10000000)


def lines(text):
    """';' before each line but the first; lines end with CR LF"""
    out = ""
    i = 0
    while i < len(text):
        if i + 1 < len(text) and text[i] == "\r" and text[i + 1] == "\n":
            out += "\n;"
            i += 2
        else:
            out += text[i]
            i += 1
    return out


def shown(cls, op, k, v, out):
    """the text of one detail, None if it is left out"""
    if op == "Load_Image":
        return "0x%x" % v
    if op == "Thread_Exit" and k in ("User Time", "Kernel Time"):
        return seconds(v)
    if op == "Process_Start" and k == "Environment":
        return "\n;\t" + "\n;\t".join(v)
    if cls == 2:
        if k in DROPPED or k == "Name" and (op == "RegQueryValue" or op == "RegQueryKey" and out.get("Query") == "Name"):
            return None
        if k == "LastWriteTime" and op != "RegSetInfoKey":
            return None
        if k in ("Length", "SubKeys", "Values", "Index"):
            return "{:,}".format(v)
        if k in ("HandleTags", "UserFlags", "Wow64Flags"):
            return "0x%x" % v
        if k == "Data":
            t = out["Type"]
            if t == "REG_BINARY":
                return " ".join(["%02X" % b for b in v])
            if t == "REG_QWORD":
                return ""
            if t == "REG_MULTI_SZ":
                return ", ".join(v)
            if t == "REG_DWORD":
                return "%d" % v
            return lines(v)
    if cls == 3 and k in ("AllocationSize", "Offset", "Length") and v != "n/a":
        return "{:,}".format(v)
    return v if isinstance(v, str) else "[]" if v == [] else "%d" % v


def column(ev, override=None):
    parts = []
    for k, v in ev.out.items():
        t = (override or {}).get(k) or shown(ev.cls, ev.operation, k, v, ev.out)
        if t is not None:
            parts.append(k + ": " + t)
    return ", ".join(parts)


def rendered(make, is64):
    def run(ctx):
        ev = make(ctx, is64)
        e = P.one_event(ev.record(is64, tid=0x1234, date=WHEN, duration=15, result=0), is64)
        ctx.eq(e.get_compatible_csv_info()["Detail"], column(ev), "detail column")
    return run


# ------------------------------------------------------------------------------- more kinds
def thread_exit(ctx, is64):
    k, u = ctx.u64("kernel"), ctx.u64("user")
    return Ev(1, zoo.PROC["Thread_Exit"], ctx.bytes("unk", 4) + u64(k) + u64(u), None, "Thread_Exit", "", "",
              [("Thread ID", 0x1234), ("User Time", u), ("Kernel Time", k)])


def value_kind(op, t, n):
    def kind(ctx, is64):
        inf, raw, s = zoo.text(ctx, "path", 1)
        data, value = data_for(ctx, t, n)
        out = []
        d = inf + b"\0\0"
        extra = None
        if op == "RegSetValue":
            d += u32(t) + u32(len(data)) + u32(len(data)) + raw + data
        elif op == "RegQueryValue":
            d += ctx.bytes("len", 4) + u32(2) + raw
            extra = ctx.bytes("title", 4) + u32(t) + u32(len(data)) + data
        else:
            index = ctx.u32("index")
            name = ctx.text("name", 2)
            d += ctx.bytes("len", 4) + (u32(index) if op == "RegEnumValue" else b"") + u32(1) + raw
            extra = ctx.bytes("title", 4) + u32(t) + u32(24) + u32(len(data)) + u32(4) + P.wide(name) + data
            out += [("Index", index), ("Name", name)]
        out += [("Type", type_name(t)), ("Length", len(data))]
        if data:
            out.append(("Data", value))
        return Ev(2, zoo.REG[op], d, extra, op, "Write" if op == "RegSetValue" else "Read", s, out)
    return kind


def query_value_full(ctx, is64):
    """the full information of a queried value: its name is not shown"""
    inf, raw, s = zoo.text(ctx, "path", 1)
    name, v = ctx.text("name", 2), ctx.u32("value")
    extra = ctx.bytes("title", 4) + u32(4) + u32(24) + u32(4) + u32(4) + P.wide(name) + u32(v)
    return Ev(2, zoo.REG["RegQueryValue"], inf + b"\0\0" + ctx.bytes("len", 4) + u32(1) + raw, extra, "RegQueryValue",
              "Read", s, [("Name", name), ("Type", "REG_DWORD"), ("Length", 4), ("Data", v)])


def no_extra(op, klass):
    def kind(ctx, is64):
        inf, raw, s = zoo.text(ctx, "path", 1)
        length, index = ctx.u32("length"), ctx.u32("index")
        d = inf + b"\0\0" + u32(length) + (u32(index) if "Enum" in op else b"") + u32(klass) + raw
        out = [("Index", index)] if "Enum" in op else []
        if op == "RegQueryKey":
            out.append(("Query", T.REG_KEY_CLASS[klass]))
        return Ev(2, zoo.REG[op], d, None, op, "Read", s, out + [("Length", length)])
    return kind


def enum_key(klass):
    def kind(ctx, is64):
        inf, raw, s = zoo.text(ctx, "path", 1)
        index = ctx.u32("index")
        extra, out = zoo.key_struct(ctx, zoo.KEY_FIELDS[klass], 2)
        return Ev(2, zoo.REG["RegEnumKey"], inf + b"\0\0" + ctx.bytes("len", 4) + u32(index) + u32(klass) + raw, extra,
                  "RegEnumKey", "Read", s, [("Index", index)] + out)
    return kind


def set_info(klass, name, label, size=None):
    def kind(ctx, is64, size=size):
        inf, raw, s = zoo.text(ctx, "path", 1)
        v = ctx.u32("value")
        if size is None:
            size = ctx.u16("size")
            ctx.assume(size != 0)
        d = inf + b"\0\0" + u32(klass) + b"\0" * 4 + u16(size) + b"\0\0" + raw + u32(v)
        out = [("KeySetInformationClass", name), ("Length", size)]
        if label:
            out.append((label, v))
        return Ev(2, zoo.REG["RegSetInfoKey"], d, None, "RegSetInfoKey", "Write Metadata", s, out)
    return kind


def offload(ctx, is64):
    return zoo.ioctl("FileSystemControl", zoo.number(T.IOCTLS, "FSCTL_OFFLOAD_READ"), "Read", "offload")(ctx, is64)


def create_alloc(ctx, is64):
    return zoo.create_file(2, 2)(ctx, is64)


# ------------------------------------------------------------------------------- events made from values
def made(cls, op, details):
    return Event(process=Process(), tid=1, event_class=cls, operation=op, date_filetime=WHEN, path="", category="",
                 details=details)


def durations(ctx):
    """a thread's times, composed of seconds and a fraction"""
    v = [(ctx.int("s%d" % i, 0, 63072000000), ctx.int("f%d" % i, 0, 9999999)) for i in range(2)]
    e = made(1, "Thread_Exit", OrderedDict([("Thread ID", 1), ("User Time", v[0][0] * 10000000 + v[0][1]),
                                            ("Kernel Time", v[1][0] * 10000000 + v[1][1])]))
    ctx.eq(e.get_compatible_csv_info()["Detail"],
           "Thread ID: 1, User Time: %d.%07d, Kernel Time: %d.%07d" % (v[0] + v[1]), "times")


def write_time(half):
    def run(ctx):
        y, m, d, n = ctx.date("date", 1601, 9999)
        h, mi, s = ctx.int("hour", 12 * half, 12 * half + 11), ctx.int("minute", 0, 59), ctx.int("second", 0, 59)
        t = ((((n + 134774) * 24 + h) * 60 + mi) * 60 + s) * 10000000 + ctx.int("fraction", 0, 9999999)
        e = made(2, "RegSetInfoKey", OrderedDict([("KeySetInformationClass", "KeyWriteTimeInformation"),
                                                  ("Length", 8), ("LastWriteTime", t)]))
        h12 = h - 12 * half
        if h12 == 0:
            h12 = 12
        ctx.eq(e.get_compatible_csv_info()["Detail"],
               "KeySetInformationClass: KeyWriteTimeInformation, Length: 8, LastWriteTime: "
               "%d/%d/%d %d:%02d:%02d %s" % (m, d, y, h12, mi, s, ("AM", "PM")[half]), "write time")
    return run


def nothing(ctx):
    for details in (None, {}, OrderedDict()):
        for cls, op in ((1, "Load_Image"), (1, "Thread_Exit"), (2, "RegOpenKey"), (3, "CreateFile"), (5, "TCP Send")):
            ctx.eq(made(cls, op, details).get_compatible_csv_info()["Detail"], "", "no details")


def scenarios(tier):
    out = []
    deep = tier == "thorough"
    kinds = OrderedDict(zoo.KINDS)
    del kinds["RegSetInfoKey"]
    kinds["Thread_Exit"] = thread_exit
    for env in ((), (2,), (0, 1), (1, 2, 3)):
        kinds["Process_Start-env%d" % len(env)] = zoo.process_start(env=env)
    for klass in zoo.KEY_FIELDS:
        kinds["RegQueryKey-%d" % klass] = zoo.reg_query_key(klass, zoo.KEY_FIELDS[klass])
        if klass in (0, 1, 2, 3, 4, 5, 7):
            kinds["RegEnumKey-%d" % klass] = enum_key(klass)
    for op in ("RegQueryKey", "RegEnumKey", "RegQueryValue", "RegEnumValue"):
        kinds["%s-no-extra" % op] = no_extra(op, 3 if op.endswith("Key") else 2)
    for op in ("RegSetValue", "RegQueryValue", "RegEnumValue"):
        for t in T.REG_TYPE:
            sizes = ((0, 0), (2,), (1, 3, 2)) if t == 7 else (4,) if t == 4 else (8,) if t == 11 else \
                (0, 1, 2) + ((4,) if deep or (op, t) == ("RegSetValue", 1) else ()) if t in (1, 2) else (0, 1, 4) + ((40,) if deep else ())
            for n in sizes:
                if t == 7 and n == (0, 0):
                    n = ()
                kinds["%s-%d-%s" % (op, t, n if t != 7 else "".join(map(str, n)))] = value_kind(op, t, n)
    kinds["RegQueryValue-full"] = query_value_full
    kinds["RegSetInfo-wow"] = set_info(1, "KeyWow64FlagsInformation", "Wow64Flags")
    kinds["RegSetInfo-tags"] = set_info(5, "KeySetHandleTagsInformation", "HandleTags")
    kinds["RegSetInfo-unknown"] = set_info(9, "<Unknown: 9>", None)
    kinds["Offload"] = offload
    kinds["CreateFile-alloc"] = create_alloc
    for k, make in kinds.items():
        for is64 in (0, 1):
            out.append(Scenario("%s-%d" % (k, is64), rendered(make, is64), "every value", weight=2))
    out.append(Scenario("durations", durations, "every duration", weight=3))
    out.append(Scenario("write-time-am", write_time(0), "every date before noon", weight=5))
    out.append(Scenario("write-time-pm", write_time(1), "every date after noon", weight=5))
    out.append(Scenario("nothing", nothing, "no details"))
    return out
