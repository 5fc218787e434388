"""C36 truncated logs"""
from collections import OrderedDict

from rt.common import Scenario
from spec import pml as P, zoo
from spec.pml import u16, u32

NOTE = """Bounds: logs with a network and a registry event, one or two processes (one with a module), ten strings, one or two
hosts and ports, all with symbolic contents, in three orders of the tables and both bitnesses, cut at every byte after
the header and at every 16th of the header (every byte in thorough); the table
texts with and without a terminator. Outside: what an event reads when its own bytes lie behind the cut."""


def build(ctx, is64, layout, terminated, gap=0):
    end = b"\0\0" if terminated else b""
    ip = b"\x0a\0\0\1" + b"\0" * 12
    other = b"\x0a\0\0\2" + b"\0" * 12
    net = u16(7) + b"\0\0" + u32(0) + ip + other + u16(80) + u16(443) + b"\0\0\0\0"
    path = P.dstr("HK", True)
    evs = [P.event(is64, process=0, tid=ctx.u32("tid"), cls=5, op=zoo.NET["Send"], details=net),
           P.event(is64, process=1, cls=2, op=zoo.REG["RegDeleteKey"], details=path[0] + path[1], date=ctx.u64("date"))]
    texts = [P.wide(t) + end for t in P.DEFAULT_STRINGS] + [P.wide(ctx.text("string", 2, "char")) + end]
    mod = P.module_record(is64, base=ctx.u32("base"), size=ctx.u32("size"), path=9, version=7, company=6, description=8,
                          timestamp=ctx.u32("stamp"))
    procs = [P.default_process(is64, index=0, pid=ctx.u32("pid"), user=9),
             P.default_process(is64, index=1, pid=8, start_time=ctx.u64("start"), modules=[mod])]
    hosts = [(ip, P.wide(ctx.text("host0", 2, "char")) + end), (other, P.wide(ctx.text("host1", 1, "char")) + end)]
    ports = [(80, 1, P.wide(ctx.text("port0", 2, "char")) + end), (443, 1, P.wide(ctx.text("port1", 2, "char")) + end)]
    tables = dict(S=P.string_table(texts))
    return P.pml(is64, events=evs, procs=procs, hosts=hosts, ports=ports, layout=layout, tables=tables,
                 computer=P.wide(ctx.text("computer", 2, "char")), build=ctx.u32("build"), ram=1 << 30,
                 gaps={"S": b"\0" * gap, "H": b"\0" * gap})


def look(r):
    """everything that comes from the header and the tables"""
    return [len(r), [P.view_process(p) for p in r.processes()],
            OrderedDict(sorted(r.system_details().items()))] + [P.view_event(r[i]) for i in range(2)]


def opens(data):
    return look(P.reader(data))


def truncated(is64, layout, terminated, part, parts, gap=0, step=16):
    def run(ctx):
        raw = build(ctx, is64, layout, terminated, gap)
        n = len(raw)
        cuts = [c for c in range(n + 1) if c >= 0x3a8 - 16 or c % step == 0]
        at = ctx.choice("cut", cuts[part::parts])
        want = look(P.reader(raw))
        got = ctx.outcome(opens, raw[:at])
        if got.ok:
            ctx.eq(got.value, want, "tables of a truncated log")
            ctx.cover("opens")
        else:
            ctx.check(at < n, "complete log is refused")
            ctx.cover("refused")
    return run


def extended(is64, layout):
    """bytes after the end change nothing"""
    def run(ctx):
        raw = build(ctx, is64, layout, True)
        tail = ctx.bytes("tail", ctx.choice("extra", [1, 2, 7]))
        ctx.eq(opens(raw + tail), look(P.reader(raw)), "log with trailing bytes")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        for layout in ("OPSH", "SOPH", "OPHS"):
            for term in (False, True):
                if not deep and term != (layout == "SOPH"):
                    continue
                parts = 8
                for p in range(parts):
                    out.append(Scenario("cut-%d-%s-%d-%d" % (is64, layout, term, p),
                                        truncated(is64, layout, term, p, parts, 4, 1 if deep else 16), "one eighth of the cuts"))
        out.append(Scenario("tail-%d" % is64, extended(is64, "OPSH"), "1 to 7 bytes after the end"))
    return out
