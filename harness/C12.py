"""C12 process and thread event details"""
from collections import OrderedDict

from rt.common import Scenario
from spec.large import large
from spec import pml as P, tables as T, zoo
from spec.pml import u8, u16, u32, u64

NOTE = """Bounds: strings of 0..3 characters in both encodings, environments of 0..4 words of 1..3 characters, every value
of every number, arbitrary reserved bytes; strings of up to 32760 characters and environments of up to 70000 with a few
arbitrary ones."""


def kind(make, is64, extra_tid=False):
    def run(ctx):
        ev = make(ctx, is64)
        rec = ev.record(is64, tid=ctx.u32("tid"), extra=zoo.unused(ctx))
        e = P.one_event(rec + b"\x55" * 8, is64)
        ctx.eq(P.view_details(e), ev.expect(), "event")
    return run


def thread_exit(ctx, is64):
    tid = ctx.u32("tid")
    k, u = ctx.u64("kernel"), ctx.u64("user")
    return tid, zoo.Ev(1, zoo.PROC["Thread_Exit"], ctx.bytes("head", 4) + u64(k) + u64(u), None, "Thread_Exit", "", "",
                       [("Thread ID", tid), ("User Time", u), ("Kernel Time", k)])


def thread_exit_case(is64):
    def run(ctx):
        tid, ev = thread_exit(ctx, is64)
        e = P.one_event(ev.record(is64, tid=tid, extra=zoo.unused(ctx)) + b"\x55" * 8, is64)
        ctx.eq(P.view_details(e), ev.expect(), "event")
    return run


def environment(is64, lens, end, count_extra):
    """the block is as long as its count says; words end at a zero unit, the list at an empty word"""
    def run(ctx):
        words = [ctx.text("env%d" % i, n) for i, n in enumerate(lens)]
        block = b"".join([P.wide(w) + b"\0\0" for w in words])
        block = block[:len(block) - 2] if end is None else block + end
        i1, r1, s1 = zoo.text(ctx, "cmd", 1)
        i2, r2, s2 = zoo.text(ctx, "cwd", 2, True)
        ppid = ctx.u32("ppid")
        d = u32(ppid) + i1 + i2 + u32(len(block) // 2 + count_extra) + r1 + r2 + block
        e = P.one_event(P.event(is64, cls=1, op=zoo.PROC["Process_Start"], details=d, extra=zoo.unused(ctx)) + b"z\0z\0z\0z\0", is64)
        ctx.eq(P.view_details(e), P.expect_details("Process_Start", "", "", [
            ("Parent PID", ppid), ("Command line", s1), ("Current directory", s2), ("Environment", words)]), "event")
    return run


def raw_environment(is64, n):
    def run(ctx):
        b = ctx.bytes("block", 2 * n)
        words, cur, done = [], b"", False
        for i in range(n):
            if done:
                break
            u = b[2 * i:2 * i + 2]
            if u == b"\0\0":
                if not cur and (words or i > 0):
                    done = True
                else:
                    words.append(P.units_text(cur))
                cur = b""
            else:
                cur += u
        if cur:
            words.append(P.units_text(cur))
        ctx.assume(b[0] != 0 or b[1] != 0)
        d = u32(1) + P.info(1, True) + P.info(0, True) + u32(n) + b"c" + b
        e = P.one_event(P.event(is64, cls=1, op=zoo.PROC["Process_Start"], details=d, extra=zoo.unused(ctx)) + b"z\0z\0z\0z\0", is64)
        ctx.eq(e.details["Environment"], words, "environment")
        ctx.eq(e.details["Command line"], "c", "command line")
    return run


def reserved_sizes(is64, opname):
    """the two reserved blocks before the strings are as long as their size fields say"""
    def run(ctx):
        a, b = ctx.choice("a", [0, 1, 28, 127]), ctx.choice("b", [0, 1, 255])
        ev = zoo.process_create(opname, (a, b), (1, 2), (ctx.choice("asc", [True, False]), False))(ctx, is64)
        e = P.one_event(ev.record(is64, extra=zoo.unused(ctx)) + b"\x55" * 8, is64)
        ctx.eq(P.view_details(e), ev.expect(), "event")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, make, bounds):
        for is64 in (0, 1):
            out.append(Scenario("%s-%d" % (name, is64), kind(make, is64), bounds))
    both = (True, False)
    ns = (0, 1, 3) + ((6,) if deep else ())
    for op in ("Process_Create", "Process_Defined"):
        for n in ns:
            for m in ns:
                for a in both:
                    for b in both:
                        add("%s-%d%d-%d%d" % (op, n, m, a, b), zoo.process_create(op, (0, 0), (n, m), (a, b)),
                            "strings of %d and %d characters" % (n, m))
        for is64 in (0, 1):
            out.append(Scenario("%s-reserved-%d" % (op, is64), reserved_sizes(is64, op), "12 pairs of sizes"))
    for n in ns:
        for m in ns:
            for a in both:
                for b in both:
                    add("Process_Start-%d%d-%d%d" % (n, m, a, b), zoo.process_start((n, m), (a, b)),
                        "strings of %d and %d characters, 2 environment words" % (n, m))
    for is64 in (0, 1):
        for lens in [(1,), (2, 1), (1, 3, 2), (1, 1, 1, 1)] + ([(5, 4, 3, 2, 1)] if deep else []):
            for j, (end, more) in enumerate(((b"\0\0", 0), (b"", 0), (None, 0), (b"\0\0k\0", 0))):
                out.append(Scenario("Environment-%d-%s-%d" % (is64, "".join(map(str, lens)), j),
                                    environment(is64, lens, end, more), "%d words" % len(lens)))
        for n in (1, 2, 3, 4):
            out.append(Scenario("Environment-raw-%d-%d" % (is64, n), raw_environment(is64, n), "%d arbitrary units" % n))
        for lens in ((127,), (126, 3), (255, 1), (60, 61, 62, 63, 64), (300, 2), (32767, 2), (3, 32762, 1)) + (
                ((65534, 3), (65536, 1), (3,) * 200, (70000, 2), (1, 2) * 1000) if deep else ((20,) * 40, (2,) * 300, (70000, 2))):
            out.append(Scenario("Environment-large-%d-%s" % (is64, "_".join(map(str, lens[:5]))),
                                large(environment(is64, lens, b"\0\0", 0)), "words of these lengths", steps=3000000))
        for n, m in ((127, 3), (2, 128), (256, 255), (300, 1), (16390, 4), (2, 32760)):
            for a in both:
                out.append(Scenario("long-create-%d-%d-%d-%d" % (is64, n, m, a), large(kind(
                    zoo.process_create("Process_Create", (3, 200), (n, m), (a, not a)), is64)), "%d and %d characters" % (n, m), steps=3000000))
                out.append(Scenario("long-start-%d-%d-%d-%d" % (is64, n, m, a), large(kind(
                    zoo.process_start((n, m), (a, not a), (5, 130)), is64)), "%d and %d characters" % (n, m), steps=3000000))
        out.append(Scenario("Thread_Exit-%d" % is64, thread_exit_case(is64), "all values"))
    add("Environment-none", zoo.process_start((1, 1), (True, True), (), False), "no environment")
    for op in ("Process_Exit", "Process_Statistics"):
        add(op, zoo.process_exit(op), "all values")
    for n in ns:
        for a in both:
            add("Load_Image-%d-%d" % (n, a), zoo.load_image(n, a), "path of %d characters" % n)
    add("Thread_Create", zoo.thread_create, "all values")
    return out
