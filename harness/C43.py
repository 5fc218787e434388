"""C43 a malformed event harms only itself"""
from io import BytesIO

import procmon_parser
from rt.common import Scenario
from spec import pml as P, zoo

NOTE = """Bounds: events of every kind of the zoo, with all values of their fields, whose detail or extra block stops at every
byte, whose extra block is missing, or whose extra block or detail tail is arbitrary bytes; between a network and a registry
event with symbolic contents and one process each; read in three orders and by iteration, both bitnesses."""


def neighbours(ctx, is64):
    a = zoo.network()(ctx, is64)
    path = ctx.text("other path", 2)
    inf, raw = P.dstr(path, False)
    b = zoo.Ev(2, zoo.REG["RegDeleteKey"], inf + raw, None, "RegDeleteKey", "Write", path, [])
    return a, b


def judge(ctx, bad, common, is64, **opt):
    """bad: the record in the middle"""
    a, b = neighbours(ctx, is64)
    sa, sb = [5, 6], []
    data = P.pml(is64=is64, events=[a.record(is64, tid=11, process=0, stack=sa), bad, b.record(is64, tid=12, process=2, stack=sb)],
                 procs=[P.default_process(is64, index=i, pid=100 + i) for i in range(3)])

    def fine(e, ev, tid, pid, stack, what):
        if opt.get("should_get_details", True):
            ctx.eq(P.view_details(e), ev.expect(), what)
        elif ev is b:
            ctx.eq(e.path, ev.path, what + ": path")
        ctx.eq((e.tid, e.process.pid, list(e.stacktrace)), (tid, pid, stack if opt.get("should_get_stacktrace", True) else []),
               what + ": common fields")

    def middle(r):
        got = ctx.outcome(lambda: r[1])
        if got.ok:
            e = got.value
            ctx.eq((e.tid, e.process.pid, e.duration, e.date_filetime, e.result), common, "common fields of the malformed event")
            ctx.cover("read")
            return P.view_event(e)
        ctx.cover("refused")
        return None

    r = P.reader(data, **opt)
    x = middle(r)
    fine(r[0], a, 11, 100, sa, "event before, read after")
    fine(r[2], b, 12, 102, sb, "event after")
    ctx.eq(middle(r), x, "malformed event read again")
    fine(r[0], a, 11, 100, sa, "event before, read again")
    ctx.eq(middle(r), x, "malformed event read after the one before it")
    ctx.eq(middle(r), x, "malformed event read twice in a row")
    r = P.reader(data, **opt)
    fine(r[2], b, 12, 102, sb, "event after, read first")
    ctx.eq(middle(r), x, "malformed event read later")
    it = P.reader(data, **opt)
    fine(next(it), a, 11, 100, sa, "first of the iteration")
    got = ctx.outcome(next, it)
    ctx.check(got.ok == (x is not None), "iteration agrees")
    if got.ok:
        ctx.eq(P.view_event(got.value), x, "iteration gives the same")
        fine(next(it), b, 12, 102, sb, "last of the iteration")
    fine(it[2], b, 12, 102, sb, "event after, from the iterator")
    ctx.eq(len(it), 3, "length")
    if not opt:
        whole = ctx.outcome(procmon_parser.read_all_events_from_pml, BytesIO(data))
        ctx.check(whole.ok == (x is not None), "reading everything agrees")
        if whole.ok:
            ctx.eq(len(whole.value), 3, "number of all events")
            fine(whole.value[0], a, 11, 100, sa, "event before, all read")
            ctx.eq(P.view_event(whole.value[1]), x, "malformed event, all read")
            fine(whole.value[2], b, 12, 102, sb, "event after, all read")


def record(ctx, ev, is64, **f):
    common = dict(tid=ctx.u32("tid"), duration=ctx.u64("duration"), date=ctx.u64("date"), result=ctx.u32("result"))
    rec = ev.record(is64, process=1, **dict(common, **f))
    return rec, (common["tid"], 101, common["duration"], common["date"], common["result"])


def rename(ctx, tag):
    """a context whose inputs carry a prefix"""
    class Renamed(object):
        def __getattr__(self, name):
            f = getattr(ctx, name)
            if name in ("u8", "u16", "u32", "u64", "s64", "bytes", "text", "bits", "int", "choice"):
                return lambda n, *a, **k: f(tag + n, *a, **k)
            return f
    return Renamed()


OPTIONS = [dict(), dict(should_get_details=False), dict(should_get_stacktrace=False)]


def short_details(kind, is64, part, parts, opt):
    def run(ctx):
        ev = kind(rename(ctx, "bad."), is64)
        n = ctx.choice("kept", list(range(len(ev.details)))[part::parts])
        judge(ctx, *record(ctx, ev, is64, details=ev.details[:n]), is64, **opt)
    return run


def short_extra(kind, is64):
    def run(ctx):
        ev = kind(rename(ctx, "bad."), is64)
        n = ctx.choice("kept", [-1] + list(range(len(ev.extra))))
        judge(ctx, *record(ctx, ev, is64, extra=None if n < 0 else ev.extra[:n]), is64)
    return run


def any_extra(kind, is64, n):
    def run(ctx):
        ev = kind(rename(ctx, "bad."), is64)
        judge(ctx, *record(ctx, ev, is64, extra=ctx.bytes("anything", n)), is64)
    return run


def any_tail(kind, is64, n):
    """the last bytes of the details are arbitrary"""
    def run(ctx):
        ev = kind(rename(ctx, "bad."), is64)
        keep = max(0, len(ev.details) - n)
        judge(ctx, *record(ctx, ev, is64, details=ev.details[:keep] + ctx.bytes("anything", len(ev.details) - keep)), is64)
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for i, (name, kind) in enumerate(zoo.KINDS.items()):
        for is64 in (0, 1):
            if not deep and is64 != i % 2:
                continue
            parts = 1 if deep else 3
            opt = OPTIONS[0] if deep else OPTIONS[i % 3]
            for p in range(parts if name not in ("Profiling", "Thread_Profile") else 0):
                out.append(Scenario("short-%s-%d-%d" % (name, is64, p), short_details(kind, is64, p, parts, opt),
                                    "details stop at every byte, options %s" % opt, weight=4))
            out.append(Scenario("tail-%s-%d" % (name, is64), any_tail(kind, is64, 4), "last 4 bytes of the details", weight=2))
    for name in ("RegCreateKey", "RegOpenMax", "RegQueryKey-Full", "RegQueryKey-Name", "RegQueryValue", "RegEnumValue",
                 "CreateFile-result", "WriteFile-extra", "QueryDirectory", "QueryDirectory-filter"):
        for is64 in (0, 1):
            out.append(Scenario("extra-%s-%d" % (name, is64), short_extra(zoo.KINDS[name], is64),
                                "extra details stop at every byte or are missing", weight=4))
            for n in (2, 4) + ((8, 16) if deep else ()):
                out.append(Scenario("any-%s-%d-%d" % (name, is64, n), any_extra(zoo.KINDS[name], is64, n),
                                    "every %d bytes of extra details" % n))
    return out
