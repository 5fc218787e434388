"""Builder for Process Monitor log files (PML), written from docs/PML Format.md, and views of what a reader returns.

Everything accepts symbolic values (this module is instrumented in symbolic mode)."""
import struct
from collections import OrderedDict
from io import BytesIO

import procmon_parser
from rt.common import ambient

HEADER_SIZE = 0x3a8
CLASSES = {"Process": 1, "Registry": 2, "File_System": 3, "Profiling": 4, "Network": 5}


def u8(v): return struct.pack("<B", v)
def u16(v): return struct.pack("<H", v)
def u32(v): return struct.pack("<I", v)
def u64(v): return struct.pack("<Q", v)
def s64(v): return struct.pack("<q", v)
def pvoid(v, is64): return u64(v) if is64 else u32(v)


def wide(s):
    return s.encode("utf-16-le")


def pad(b, n):
    assert len(b) <= n
    return b + b"\0" * (n - len(b))


def units_text(raw):
    """what a UTF-16LE string field holds: up to the first NUL unit; unpaired surrogates are replaced"""
    i = 0
    while i + 2 <= len(raw):
        if raw[i] == 0 and raw[i + 1] == 0:
            break
        i += 2
    return raw[:i].decode("utf-16-le", "replace")


# ---------------------------------------------------------------------------- detail strings
def info(n, is_ascii):
    return u16(n | (0x8000 if is_ascii else 0))


def dstr(s, is_ascii):
    """(info field, stored bytes) of a detail string"""
    b = s.encode("ascii") if is_ascii else wide(s)
    return info(len(b) if is_ascii else len(b) // 2, is_ascii), b


# ---------------------------------------------------------------------------- tables
def string_table(raws, order=None, gap=b"", sizes=None):
    """raws: the stored bytes of each string; order: in which order they lie in the file"""
    order = list(range(len(raws))) if order is None else order
    base = 4 + 4 * len(raws)
    offs = [0] * len(raws)
    parts = []
    at = base
    for i in order:
        offs[i] = at + len(gap)
        at += len(gap) + 4 + len(raws[i])
        parts += [gap, u32(len(raws[i]) if sizes is None else sizes[i]), raws[i]]
    return u32(len(raws)) + b"".join([u32(o) for o in offs] + parts)


PROC_FIELDS = ("index", "pid", "parent_pid", "unknown1", "authentication_id", "session", "unknown2", "start_time",
               "end_time", "virtualized", "is_64bit", "integrity", "user", "process_name", "image_path", "command_line",
               "company", "version", "description", "icon_small", "icon_big", "unknown3")
PROC_WIDE = ("authentication_id", "start_time", "end_time")


def module_record(is64, base=0, size=0, path=0, version=0, company=0, description=0, timestamp=0, unknown=0,
                  tail=b"\0" * 24):
    return (pvoid(unknown, is64) + pvoid(base, is64) + u32(size) + u32(path) + u32(version) + u32(company)
            + u32(description) + u32(timestamp) + tail)


def process_record(is64, modules=(), nmodules=None, **f):
    out = b""
    for k in PROC_FIELDS:
        v = f.pop(k, 0)
        if k == "unknown3":
            out += pvoid(v, is64)
        else:
            out += u64(v) if k in PROC_WIDE else u32(v)
    assert not f, f
    out += u32(len(modules) if nmodules is None else nmodules)
    for m in modules:
        out += m
    return out


def process_table(records, indexes=None, order=None, gap=b""):
    n = len(records)
    order = list(range(n)) if order is None else order
    base = 4 + 8 * n
    offs = [0] * n
    body = b""
    for i in order:
        body += gap
        offs[i] = base + len(body)
        body += records[i]
    idx = list(range(n)) if indexes is None else indexes
    return u32(n) + b"".join([u32(i) for i in idx]) + b"".join([u32(o) for o in offs]) + body


def hosts_table(hosts):
    return u32(len(hosts)) + b"".join([ip + u32(len(raw)) + raw for ip, raw in hosts])


def ports_table(ports):
    return u32(len(ports)) + b"".join([u16(p) + u16(tcp) + u32(len(raw)) + raw for p, tcp, raw in ports])


# ---------------------------------------------------------------------------- events
EVENT_SIZE = 52


def event(is64, process=0, tid=None, cls=1, op=1, duration=None, date=0, result=None, stack=(), details=b"", extra=None,
          gap=b"", unknown=None, extra_offset=None, details_size=None):
    """one event: its record, its detail block and, after a gap, its extra detail block; what is not given is arbitrary"""
    tid = ambient("tid", "u32") if tid is None else tid
    duration = ambient("duration", "u64") if duration is None else duration
    result = ambient("result", "u32") if result is None else result
    unknown = (ambient("unknown1", "u16"), ambient("unknown2", "u32"), ambient("unknown3", "u16")) if unknown is None else unknown
    pv = 8 if is64 else 4
    off = 0
    if extra is not None:
        off = EVENT_SIZE + len(stack) * pv + len(details) + len(gap)
    if extra_offset is not None:
        off = extra_offset
    rec = struct.pack("<IIIHHIQQIHHII", process, tid, cls, op, unknown[0], unknown[1], duration, date, result,
                      len(stack), unknown[2], len(details) if details_size is None else details_size, off)
    assert len(rec) == EVENT_SIZE
    out = rec + b"".join([pvoid(a, is64) for a in stack]) + details
    if extra is not None:
        out += gap + u16(len(extra)) + extra
    return out


def header(signature=b"PML_", version=9, is64=1, computer=b"", root=b"", nevents=0, events_at=0x3a8, offsets_at=0, procs_at=0,
           strings_at=0, icons_at=0, major=None, minor=None, build=None, after=None, service_pack=b"", nproc=None, ram=None,
           header_size=HEADER_SIZE, hosts_at=0, unknown1=b"\0" * 8, unknown2=b"\0" * 12, unknown3=b"\0" * 0xd6):
    major = 10 if major is None else major
    minor = 0 if minor is None else minor
    build = ambient("build", "u32") if build is None else build
    after = ambient("after", "u32") if after is None else after
    nproc = ambient("processors", "u32") if nproc is None else nproc
    ram = ambient("ram", "u64") if ram is None else ram
    h = (signature + u32(version) + u32(is64) + pad(computer, 0x20) + pad(root, 0x208) + u32(nevents) + unknown1
         + u64(events_at) + u64(offsets_at) + u64(procs_at) + u64(strings_at) + u64(icons_at) + unknown2 + u32(major) + u32(minor)
         + u32(build) + u32(after) + pad(service_pack, 0x32) + unknown3 + u32(nproc) + u64(ram) + u64(header_size)
         + u64(hosts_at))
    assert len(h) == HEADER_SIZE
    return h


DEFAULT_STRINGS = ("", "Low", "user", "p.exe", "C:\\p.exe", "p.exe -a", "Acme", "1.0", "Program")


def default_process(is64=1, index=0, **over):
    f = dict(index=index, pid=4, parent_pid=1, authentication_id=999, session=0, start_time=1, end_time=0,
             virtualized=0, is_64bit=is64, integrity=1, user=2, process_name=3, image_path=4, command_line=5, company=6,
             version=7, description=8)
    f.update(over)
    return process_record(is64, **f)


def pml(is64=1, events=(), strings=None, procs=None, proc_indexes=None, hosts=(), ports=(), offset_flags=None,
        offsets=None, gaps=None, tables=None, layout="OPSH", nevents=None, tail=b"", **head):
    """A whole file.  events: list of bytes.  layout: order of the offsets array (O), process (P), string (S) and
    host/port (H) tables; the process table must directly follow the offsets array, the hosts table is last.
    gaps: {letter: bytes before that table}."""
    gaps = gaps or {}
    pos = HEADER_SIZE
    offs = []
    at = pos
    for e in events:
        offs.append(at)
        at += len(e)
    body = b"".join(events)
    if offsets is not None:
        offs = offsets
    parts = {
        "O": b"".join([u32(o) + u8(0 if offset_flags is None else offset_flags[i]) for i, o in enumerate(offs)]),
        "P": process_table([default_process(is64)] if procs is None else procs, proc_indexes),
        "S": string_table([wide(s) for s in (DEFAULT_STRINGS if strings is None else strings)]),
        "H": hosts_table(hosts) + ports_table(ports),
    }
    if tables:
        parts.update(tables)
    where = {}
    for k in layout:
        body += gaps.get(k, b"")
        where[k] = pos + len(body)
        body += parts[k]
    h = dict(is64=is64, nevents=len(offs) if nevents is None else nevents, offsets_at=where["O"], procs_at=where["P"],
             strings_at=where["S"], icons_at=pos, hosts_at=where["H"])
    h.update(head)
    return header(**h) + body + tail


def reader(data, **opt):
    return procmon_parser.ProcmonLogsReader(BytesIO(data), **opt)


def one_event(ev, is64=1, **kw):
    """read a file that holds just this event"""
    opt = kw.pop("options", {})
    return reader(pml(is64=is64, events=[ev], **kw), **opt)[0]


# ---------------------------------------------------------------------------- views
MODULE_ATTRS = ("base_address", "size", "path", "version", "company", "description", "timestamp")
PROCESS_ATTRS = ("pid", "parent_pid", "authentication_id", "session", "virtualized", "is_process_64bit", "integrity",
                 "user", "process_name", "image_path", "command_line", "company", "version", "description",
                 "start_time", "end_time")
EVENT_ATTRS = ("tid", "duration", "date_filetime", "result", "category", "path")


def view_module(m):
    return OrderedDict([(k, getattr(m, k)) for k in MODULE_ATTRS])


def view_process(p):
    d = OrderedDict([(k, getattr(p, k)) for k in PROCESS_ATTRS])
    d["modules"] = [view_module(m) for m in p.modules]
    return d


def view_details(e):
    """the event's own interpretation of its detail block"""
    return OrderedDict([("operation", e.operation), ("category", e.category), ("path", e.path),
                        ("details", OrderedDict(e.details.items()))])


def expect_details(operation, category, path, details):
    return OrderedDict([("operation", operation), ("category", category), ("path", path),
                        ("details", OrderedDict(details))])


def view_event(e, stack=True, process=True):
    d = OrderedDict([(k, getattr(e, k)) for k in EVENT_ATTRS])
    d["class"] = e.event_class.name
    d["operation"] = e.operation
    d["details"] = OrderedDict(e.details.items())
    if stack:
        d["stacktrace"] = list(e.stacktrace)
    if process:
        d["process"] = view_process(e.process)
    return d
