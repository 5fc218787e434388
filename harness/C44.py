"""C44 corrupt counts, sizes, offsets and chains neither run on nor take memory for what is not there"""
from io import BytesIO

from procmon_parser import ProcmonLogsReader, loads_configuration
from rt.common import Scenario
from spec import pmc as C, pml as P, zoo
from spec.pml import u16, u32

NOTE = """Bounds: a log with two events, two processes with a module, ten strings, two hosts and ports whose event, string,
process, module, host or port count is any number larger than the right one, whose text sizes are any larger number, whose
table offsets are any position in the log (every one in the thorough tier, every fifth otherwise) or any number behind its end;
events with any stack depth, detail size and extra offset behind the end and multiples of 37 (5) before; directory chains, string pairs, environments and key structures of
arbitrary bytes; configuration records with any counts and sizes. Work is counted in calls of the file's read method
and, inside blocks, in the engine's steps."""

MANY = (1 << 32) - 1


class Counted(object):
    """a file that counts what is read"""
    def __init__(self, data):
        self._f = BytesIO(data)
        self.reads = 0
        self.limit = 4 * len(data) + 100
        self.over = False

    def read(self, *a):
        self.reads += 1
        if self.reads > self.limit:
            self.over = True
            raise RuntimeError("read too often")
        return self._f.read(*a)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()


def everything(r):
    n = len(r)
    r.processes()
    return [r[i].tid for i in range(min(n, 4))]


def judge(ctx, data, must_fail, index=None):
    f = Counted(data)
    got = ctx.outcome(ProcmonLogsReader, f)
    ctx.check(got.ok or not isinstance(got.value, MemoryError), "memory for what the log does not hold")
    ctx.check(not f.over, "work in proportion to the log")
    if must_fail:
        ctx.check(not got.ok, "a count larger than what the log holds is refused")
    if got.ok:
        r = got.value
        f.reads = 0
        # an event that follows from misplaced tables may be anything, but reading it ends
        got = ctx.outcome(lambda: r[0 if index is None else index])
        ctx.check(got.ok or not isinstance(got.value, MemoryError), "memory for what the event does not hold")
        ctx.check(not f.over, "work in proportion to the log when an event is read")
        ctx.cover("opens")
    else:
        ctx.cover("refused")


def parts(is64):
    ip = b"\x0a\0\0\1" + b"\0" * 12
    net = u16(7) + b"\0\0" + u32(0) + ip + ip + u16(80) + u16(443) + b"\0\0\0\0"
    mods = [P.module_record(is64, base=4096, size=3, path=4, version=7, company=6, description=8)]
    evs = [P.event(is64, process=0, tid=7, cls=5, op=zoo.NET["Send"], details=net), P.event(is64, process=1, tid=8, cls=4, op=0)]
    procs = [P.default_process(is64, index=i, modules=mods) for i in range(2)]
    hosts = [(ip, P.wide("host")), (b"\1" * 16, P.wide("other"))]
    ports = [(80, 1, P.wide("http")), (443, 1, P.wide("https"))]
    return dict(events=evs, procs=procs, hosts=hosts, ports=ports)


def count(what, is64, layout):
    def run(ctx):
        p = parts(is64)
        right = {"events": 2, "strings": 9, "processes": 2, "modules": 1, "hosts": 2, "ports": 2}[what]
        n = ctx.int("count", right + 1, MANY)
        must = True
        if what == "events":
            p["nevents"] = n
        elif what == "strings":
            t = P.string_table([P.wide(s) for s in P.DEFAULT_STRINGS])
            p["tables"] = dict(S=u32(n) + t[4:])
            must = False
        elif what == "processes":
            p["tables"] = dict(P=u32(n) + P.process_table(p["procs"])[4:])
            must = False
        elif what == "modules":
            r = p["procs"][1]
            size = len(r) - len(P.default_process(is64))
            p["procs"][1] = r[:-size - 4] + u32(n) + r[-size:]
            must = False
        elif what == "hosts":
            p["tables"] = dict(H=u32(n) + P.hosts_table(p["hosts"])[4:] + P.ports_table(p["ports"]))
            must = False
        else:
            p["tables"] = dict(H=P.hosts_table(p["hosts"]) + u32(n) + P.ports_table(p["ports"])[4:])
        judge(ctx, P.pml(is64, layout=layout, **p), must)
    return run


def size(what, is64, layout):
    def run(ctx):
        p = parts(is64)
        n = ctx.choice("size", list(range(13, len(P.pml(is64, layout=layout, **p)), 7)) + [None])
        if n is None:
            n = ctx.int("beyond", len(P.pml(is64, layout=layout, **p)), MANY)
        if what == "string":
            raws = [P.wide(s) for s in P.DEFAULT_STRINGS]
            p["tables"] = dict(S=P.string_table(raws, sizes=[n if i == 4 else len(b) for i, b in enumerate(raws)]))
        elif what == "host":
            ip, raw = p["hosts"][1]
            p["tables"] = dict(H=P.hosts_table(p["hosts"])[:-len(raw) - 4] + u32(n) + raw + P.ports_table(p["ports"]))
        else:
            raw = p["ports"][1][2]
            p["tables"] = dict(H=P.hosts_table(p["hosts"]) + P.ports_table(p["ports"])[:-len(raw) - 4] + u32(n) + raw)
        judge(ctx, P.pml(is64, layout=layout, **p), False)
    return run


def offset(which, is64, part, n):
    """a table anywhere"""
    def run(ctx):
        p = parts(is64)
        total = len(P.pml(is64, **p))
        if part is None:
            at = ctx.u64("offset")
            ctx.assume(at >= total)
        else:
            at = ctx.choice("offset", list(range(1, total))[part::n])
        judge(ctx, P.pml(is64, **dict(p, **{which: at})), False)
    return run


def event_numbers(name, is64, which, step):
    """numbers of an event larger than the right ones: up to the file's end one by one, then all at once"""
    def run(ctx):
        ev = zoo.KINDS[name](ctx, is64)
        right = {"depth": 0, "size": len(ev.details), "offset": 52 + len(ev.details)}[which]
        top = 0xffff if which == "depth" else MANY
        total = len(P.pml(is64, events=[ev.record(is64)])) - P.HEADER_SIZE
        n = ctx.choice("number", list(range(0, total + 2, step)) + [None])
        if n is None:
            n = ctx.int("beyond", total, top)
        if which == "depth":
            rec = ev.record(is64, tid=9)
            rec = rec[:0x28] + u16(n) + rec[0x2a:]
        elif which == "size":
            rec = ev.record(is64, tid=9, details_size=n)
        else:
            rec = ev.record(is64, tid=9, extra_offset=n)
        judge(ctx, P.pml(is64, events=[rec]), False)
    return run


def bounded(ctx, ev, is64, most):
    got = ctx.outcome(P.one_event, ev, is64)
    ctx.check(got.ok or not isinstance(got.value, MemoryError), "memory")
    if got.ok:
        e = got.value
        n = 0
        for v in e.details.values():
            n += 1 + (len(v) if isinstance(v, list) else 0)
        ctx.check(n <= most, "no more details than the blocks can hold")
        ctx.cover("read")
    else:
        ctx.cover("refused")


def chain(klass, is64, n):
    """arbitrary bytes returned by a directory query"""
    def run(ctx):
        ev = zoo.query_directory(klass)(ctx, is64)
        bounded(ctx, ev.record(is64, extra=ctx.bytes("entries", n)), is64, n + 3)
    return run


def links(klass, is64, count):
    """entries whose offsets are arbitrary and whose names are empty"""
    def run(ctx):
        ev = zoo.query_directory(klass)(ctx, is64)
        extra = b"".join([u32(ctx.u32("next%d" % i)) + b"\0" * (zoo.DIR_FIXED[klass] - 4) for i in range(count)])
        bounded(ctx, ev.record(is64, extra=extra), is64, len(extra) + 3)
    return run


def words(is64, n):
    """arbitrary bytes behind the addresses of a network event"""
    def run(ctx):
        d = u16(7) + b"\0\0" + u32(1) + b"\0" * 32 + u16(1) + u16(2) + ctx.bytes("words", n)
        bounded(ctx, P.event(is64, cls=5, op=zoo.NET["Send"], details=d), is64, n + 1)
    return run


def environment(is64, n):
    """an environment of any recorded size"""
    def run(ctx):
        d = u32(4) + u16(0x8000) + u16(0x8000) + u32(ctx.u32("characters")) + ctx.bytes("block", n)
        bounded(ctx, P.event(is64, cls=1, op=zoo.PROC["Process_Start"], details=d), is64, n + 5)
    return run


def strings(is64, which):
    """a path of any recorded size"""
    def run(ctx):
        i = u16(ctx.u16("info"))
        if which == "registry":
            ev = P.event(is64, cls=2, op=zoo.REG["RegDeleteKey"], details=i + b"ab\0c")
        elif which == "image":
            ev = P.event(is64, cls=1, op=zoo.PROC["Load_Image"], details=P.pvoid(0, is64) + u32(1) + i + b"\0\0" + b"ab\0c")
        else:
            a, b = ctx.u8("a"), ctx.u8("b")
            ev = P.event(is64, cls=1, op=zoo.PROC["Process_Create"], details=u32(0) + u32(1) + b"\0" * 0x24 + P.u8(a) + P.u8(b) + i +
                         u16(ctx.u16("info2")) + b"\0\0abcdefg")
        bounded(ctx, ev, is64, 4)
    return run


def multisz(is64, op, n):
    """a multi-string value of any recorded size"""
    def run(ctx):
        inf, raw = P.dstr("k", True)
        length = ctx.u32("length")
        if op == "RegSetValue":
            d = inf + b"\0\0" + u32(7) + u32(length) + u32(ctx.u32("captured")) + raw + ctx.bytes("data", n)
            ev = P.event(is64, cls=2, op=zoo.REG[op], details=d)
        else:
            d = inf + b"\0\0" + u32(0) + u32(2) + raw
            ev = P.event(is64, cls=2, op=zoo.REG[op], details=d, extra=u32(0) + u32(7) + u32(length) + ctx.bytes("data", n))
        bounded(ctx, ev, is64, n + 4)
    return run


def config(option, field):
    """counts and sizes of configuration records"""
    def run(ctx):
        n = ctx.u32("number")
        raw = {"FilterRules": C.rules_bytes([C.rule_bytes(40071, 5, 0, "ab", 0)]), "Columns": u16(5) * 2, "ColumnMap": u32(40071),
               "Logfile": C.wide("ab"), "LogFont": b"\0" * 92, "HistoryDepth": u32(5)}[option]
        rec = C.record(option, raw)
        if field == "count":
            rec = rec[:len(rec) - len(raw)] + b"\1" + u32(n) + raw[5:]
        elif field == "length":
            rec = rec[:len(rec) - len(raw) + 14] + u32(n) + raw[18:]
        else:
            rec = rec[:4 * field] + u32(n) + rec[4 * field + 4:]
        got = ctx.outcome(loads_configuration, rec + C.record("Profiling", u32(1)))
        ctx.check(got.ok or not isinstance(got.value, MemoryError), "memory")
        ctx.cover("loads" if got.ok else "refused")
    return run


def config_bytes(n):
    def run(ctx):
        got = ctx.outcome(loads_configuration, ctx.bytes("raw", n))
        ctx.check(not got.ok or len(got.value) <= n // 16, "no more options than records fit")
        ctx.cover("loads" if got.ok else "refused")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        for layout in ("OPSH", "SOPH") if deep or is64 else ("OPSH",):
            for w in ("events", "strings", "processes", "modules", "hosts", "ports"):
                out.append(Scenario("count-%s-%d-%s" % (w, is64, layout), count(w, is64, layout), "every larger number"))
            for w in ("string", "host", "port"):
                out.append(Scenario("size-%s-%d-%s" % (w, is64, layout), size(w, is64, layout), "every larger number"))
        for w in ("offsets_at", "procs_at", "strings_at", "hosts_at", "icons_at", "events_at"):
            out.append(Scenario("offset-%s-%d-far" % (w, is64), offset(w, is64, None, 1), "every number behind the end"))
            if w in ("icons_at", "events_at"):
                continue
            for part in range(16):
                if deep or part % 4 == 2 * is64:
                    out.append(Scenario("offset-%s-%d-%d" % (w, is64, part), offset(w, is64, part, 16), "positions in the log", weight=4))
        for name in ("Network", "RegQueryValue", "QueryDirectory", "Profiling") + (("CreateFile-result", "Process_Start") if deep else ()):
            for w in ("depth", "size", "offset") if name != "QueryDirectory" else ("depth", "size"):
                out.append(Scenario("numbers-%s-%d-%s" % (name, is64, w), event_numbers(name, is64, w, 5 if deep else 37),
                                    "every %s behind the end, some before" % w, weight=5))
        for k in (12, 1) + ((2, 38, 3, 37) if deep else ()):
            for n in ((0, 4, 8, 12, 14, 16) + ((20, 24) if deep else ()) if k == 12 else (64, 66)):
                out.append(Scenario("chain-%d-%d-%d" % (k, is64, n), chain(k, is64, n), "%d arbitrary bytes" % n, weight=3))
            for n in (1, 2) + ((3, 4) if deep else ()):
                out.append(Scenario("links-%d-%d-%d" % (k, is64, n), links(k, is64, n), "%d arbitrary offsets" % n, weight=3))
        for n in (0, 1, 2, 3, 4, 6) + ((8, 10) if deep else ()):
            out.append(Scenario("words-%d-%d" % (is64, n), words(is64, n), "%d arbitrary bytes" % n))
            out.append(Scenario("environment-%d-%d" % (is64, n), environment(is64, n), "%d arbitrary bytes, every size" % n))
            for op in ("RegQueryValue", "RegSetValue"):
                out.append(Scenario("multisz-%s-%d-%d" % (op, is64, n), multisz(is64, op, n), "%d arbitrary bytes, every size" % n))
        for w in ("registry", "image", "create"):
            out.append(Scenario("strings-%s-%d" % (w, is64), strings(is64, w), "every size word"))
    for k in ("FilterRules", "Columns", "ColumnMap", "Logfile", "LogFont", "HistoryDepth"):
        for f in (0, 1, 2, 3) + (("count", "length") if k == "FilterRules" else ()):
            out.append(Scenario("config-%s-%s" % (k, f), config(k, f), "every number"))
    for n in (0, 1, 4, 15, 16, 17, 18, 20) + ((22, 24) if deep else ()):
        out.append(Scenario("config-bytes-%d" % n, config_bytes(n), "%d arbitrary bytes" % n))
    for s in out:
        s.plain = True
    return out
