"""C40 the printed forms of events, processes, modules and rules"""
from procmon_parser import Rule
from procmon_parser.logs import Event, Module, Process
from harness.C26 import Instant
from rt.common import Scenario
from spec import pmc as C, pml as P, zoo

NOTE = """Bounds: texts of 0 to 4 arbitrary characters, all numbers of their field's width, every instant from 1601 to 9999;
events of every kind of the zoo read from a log, with two of its processes; every rule column, relation and action."""

def hexadecimal(n):
    return "0x" + "%x" % n


def module(n):
    def run(ctx):
        path, base, size = ctx.text("path", n, "any"), ctx.u64("base"), ctx.u32("size")
        m = Module(base_address=base, size=size, path=path, version=ctx.text("version", 1), company="c",
                   description="d", timestamp=ctx.u32("stamp"))
        ctx.eq(str(m), "\"" + path + "\", address=" + hexadecimal(base) + ", size=" + hexadecimal(size), "module")
        ctx.eq("{}".format(m), str(m), "formatted module")
    return run


def process(n):
    def run(ctx):
        path, pid = ctx.text("path", n, "any"), ctx.u32("pid")
        p = Process(pid=pid, parent_pid=ctx.u32("parent"), image_path=path, process_name=ctx.text("name", 1), user="u",
                    command_line="x", start_time=ctx.u64("start"))
        ctx.eq(str(p), "\"" + path + "\", " + str(pid), "process")
        ctx.eq("%s" % p, str(p), "formatted process")
    return run


def stamp(i):
    h, half = i.clock()
    return "%d/%d/%d %d:%02d:%02d.%07d %s" % (i.mo, i.d, i.y, h, i.mi, i.s, i.f, half)


class Moment(Instant):
    """a fixed instant"""
    y, mo, d, h, mi, s, f = 2020, 7, 12, 13, 8, 10, 7752429
    t = 132390328907752429

    def __init__(self):
        pass


def event(n, lo=None, hi=None):
    def run(ctx):
        i = Moment() if lo is None else Instant(ctx, "at", lo, hi)
        name, path = ctx.text("name", n, "any"), ctx.text("path", n, "any")
        pid = ctx.u32("pid") if lo is None else 4
        e = Event(process=Process(pid=pid, process_name=name, image_path="C:\\image"), tid=ctx.u32("tid"), event_class=3,
                  operation="CloseFile", duration=ctx.u64("duration"), date_filetime=i.t, result=ctx.u32("result"),
                  stacktrace=[], category="c", path=path, details={"k": "v"})
        ctx.eq(str(e), "Process Name=" + name + ", Pid=" + str(pid) + ", Operation=CloseFile, Path=\"" + path + "\", Time="
               + stamp(i), "event")
    return run


def from_log(kind, is64):
    """what is read from a log is printed with its own attributes"""
    def run(ctx):
        ev = kind(ctx, is64)
        i = Moment()
        pid = ctx.u32("process id")
        procs = [P.default_process(is64, index=0, pid=7), P.default_process(is64, index=1, pid=pid, process_name=8)]
        e = P.one_event(ev.record(is64, process=1, date=i.t, tid=ctx.u32("tid")), is64=is64, procs=procs)
        ctx.eq(str(e), "Process Name=" + P.DEFAULT_STRINGS[8] + ", Pid=" + str(pid) + ", Operation=" + ev.operation
               + ", Path=\"" + ev.path + "\", Time=" + stamp(i), "event")
        ctx.eq(str(e.process), "\"" + P.DEFAULT_STRINGS[4] + "\", " + str(pid), "its process")
        ctx.eq(P.view_details(e), ev.expect(), "printing changes nothing")
    return run


def rule(n, column):
    def run(ctx):
        relation = ctx.choice("relation", sorted(C.RELATION_NUMBERS))
        action = ctx.choice("action", sorted(C.ACTION_NUMBERS))
        v = ctx.text("value", n)
        r = Rule(column, relation, v, action)
        want = "If %s %s \"" % (column.capitalize(), relation.lower()) + v + "\", then " + action.capitalize()
        ctx.eq(str(r), want, "rule")
    return run


def scenarios(tier):
    out = []
    for n in (0, 1, 4):
        out.append(Scenario("module-%d" % n, module(n), "%d arbitrary characters, every number" % n))
        out.append(Scenario("process-%d" % n, process(n), "%d arbitrary characters, every number" % n))
        out.append(Scenario("event-%d" % n, event(n), "%d arbitrary characters, every process number" % n))
        for lo, hi in () if n != 1 else ((1601, 1969), (1970, 2099), (2100, 9999)):
            out.append(Scenario("event-%d-%d" % (n, lo), event(n, lo, hi), "every instant of the years %d to %d" % (lo, hi),
                                weight=4))
    for name, kind in zoo.KINDS.items():
        for is64 in (0, 1):
            if tier == "quick" and is64 != len(name) % 2:
                continue
            out.append(Scenario("log-%s-%d" % (name, is64), from_log(kind, is64), "all fields, every process number"))
    for c in sorted(C.COLUMN_NUMBERS):
        out.append(Scenario("rule-%s" % c, rule(2, c), "every relation and action, 2 arbitrary characters"))
    return out
