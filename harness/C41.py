"""C41 what the library hands out belongs to the caller, what it is given stays as it is"""
from collections import OrderedDict
from io import BytesIO

from procmon_parser import dump_configuration, dumps_configuration, load_configuration, loads_configuration
from rt.common import Scenario
from spec import pmc as C, pml as P, zoo

NOTE = """Bounds: every kind of event of the zoo with all values of its fields, read twice and once more after the caller
changed everything in what was read first, also when the same event is read twice in a row; the process list, system details and slices of a reader; configurations of
every option kind with symbolic contents of 0 to 3 elements. Outside: process objects, which events share."""


def spoil(v, depth=0):
    """change a container in every way a caller may"""
    if isinstance(v, dict):
        for k in list(v):
            spoil(v[k], depth + 1)
        v["changed"] = 1
        for k in list(v)[:1]:
            del v[k]
    elif isinstance(v, list):
        for x in v:
            spoil(x, depth + 1)
        v.append("changed")
        v.reverse()


def spoil_event(e):
    spoil(e.details)
    spoil(e.stacktrace)
    e.path, e.operation, e.category, e.tid = "changed", "changed", "changed", 77


def events(kind, is64, csv):
    def run(ctx):
        ev = kind(ctx, is64)
        stack = [ctx.bits("frame%d" % i, 64 if is64 else 32) for i in range(2)]
        rec = ev.record(is64, stack=stack, date=132390328907752429, duration=15, result=0, tid=ctx.u32("tid"))
        r = P.reader(P.pml(is64=is64, events=[rec, rec]))
        a, b, again = r[0], r[1], r[0]
        ctx.check(a == again, "read twice: equal")
        ctx.check(not (a != again), "read twice: not different")
        ctx.check(hash(a) == hash(again), "read twice: hash")
        row = record = None
        if csv:
            row = b.get_compatible_csv_info()
            record = OrderedDict((k, v) for k, v in row.items())
        spoil_event(a)
        for e, what in ((again, "read before"), (b, "a like event"), (r[0], "read after"), (r[1], "a like event read after")):
            ctx.eq(P.view_details(e), ev.expect(), what)
            ctx.eq(list(e.stacktrace), stack, what + ": stack")
        a = r[0]
        spoil_event(a)
        a = r[0]
        ctx.eq(P.view_details(a), ev.expect(), "read twice in a row")
        ctx.eq(list(a.stacktrace), stack, "read twice in a row: stack")
        for e in r:
            ctx.eq(P.view_details(e), ev.expect(), "iterated")
            spoil_event(e)
        ctx.eq(P.view_details(r[1]), ev.expect(), "read after the iteration")
        if csv:
            spoil(row)
            ctx.eq(OrderedDict(b.get_compatible_csv_info().items()), record, "CSV record")
    return run


def reader(is64):
    def run(ctx):
        pids = [ctx.u32("pid%d" % i) for i in range(3)]
        mods = [P.module_record(is64, base=ctx.u32("base"), path=4, version=7, company=6, description=8)]
        procs = [P.default_process(is64, index=i, pid=p, modules=mods if i == 1 else ()) for i, p in enumerate(pids)]
        evs = [P.event(is64, cls=4, op=0, tid=ctx.u32("tid%d" % i), process=i) for i in range(3)]
        r = P.reader(P.pml(is64=is64, events=evs, procs=procs, nproc=ctx.u32("cpus"), computer=P.wide(ctx.text("computer", 2))))
        want = [P.view_process(p) for p in r.processes()]
        info = OrderedDict(r.system_details().items())
        tids = [e.tid for e in r[:]]
        ps = r.processes()
        ps.reverse()
        ps.pop()
        s = r[:]
        s.reverse()
        del s[0]
        d = r.system_details()
        spoil(d)
        ctx.eq([P.view_process(p) for p in r.processes()], want, "processes")
        ctx.eq(OrderedDict(r.system_details().items()), info, "system details")
        ctx.eq([e.tid for e in r[:]], tids, "slice")
        ctx.eq([e.tid for e in r], tids, "iteration")
        ctx.eq([e.process.pid for e in r[:]], pids, "processes of the events")
        ctx.eq(len(r), 3, "length")
    return run


def options(ctx, names, size):
    d, raw = OrderedDict(), b""
    for i, k in enumerate(names):
        d[k], x = C.option(ctx, "v%d" % i, k, size, "char")
        raw = raw + C.record(k, x)
    return d, raw


def loading(names, size):
    def run(ctx):
        d, raw = options(ctx, names, size)
        want = C.view_config(d)
        a, b = loads_configuration(raw), loads_configuration(raw)
        for v in a.values():
            if isinstance(v, list):
                for x in v:
                    if hasattr(x, "relation"):
                        x.value = "changed"
                v.append(v[0] if len(v) else 1)
            elif hasattr(v, "face_name"):
                v.face_name, v.height = "changed", 99
        spoil(a)
        ctx.eq(C.view_config(b), want, "loaded at the same time")
        ctx.eq(C.view_config(loads_configuration(raw)), want, "loaded after")
        ctx.eq(C.view_config(load_configuration(BytesIO(raw))), want, "loaded after from a stream")
    return run


def dumping(names, size):
    def run(ctx):
        d, raw = options(ctx, names, size)
        want = C.view_config(d)
        kept = list(d.items())
        lists = [(v, list(v)) for v in d.values() if isinstance(v, list)]
        ctx.eq(dumps_configuration(d), raw, "dumped")
        s = BytesIO()
        dump_configuration(d, s)
        ctx.eq(s.getvalue(), raw, "dumped again")
        ctx.eq(C.view_config(d), want, "what was dumped")
        ctx.check(len(kept) == len(d) and all(a is b for (_, a), (_, b) in zip(kept, d.items())), "the same values")
        for v, was in lists:
            ctx.check(len(v) == len(was) and all(type(x) is int or x is y for x, y in zip(v, was)), "the same elements")
        ctx.eq(dumps_configuration(d), raw, "dumped once more")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for name, kind in zoo.KINDS.items():
        for is64 in (0, 1):
            if not deep and is64 != len(name) % 2:
                continue
            out.append(Scenario("event-%s-%d" % (name, is64), events(kind, is64, name != "RegSetInfoKey"), "all values of the event's fields", weight=2))
    for is64 in (0, 1):
        out.append(Scenario("reader-%d" % is64, reader(is64), "3 processes and events"))
    for name in C.KNOWN + ("Other",):
        for n in (1, 2) if not deep else (0, 1, 2, 3):
            out.append(Scenario("load-%s-%d" % (name, n), loading((name,), n), "%d elements" % n))
            out.append(Scenario("dump-%s-%d" % (name, n), dumping((name,), n), "%d elements" % n))
    for g in (("FilterRules", "HighlightRules", "Columns"), ("LogFont", "HighlightFont", "Logfile"), ("ColumnMap", "Other", "HistoryDepth")):
        out.append(Scenario("load-" + "-".join(g), loading(g, 1), "three options"))
        out.append(Scenario("dump-" + "-".join(g), dumping(g, 1), "three options"))
    return out
