"""C42 whatever loads can be dumped and loads again as the same"""
from procmon_parser import dumps_configuration, loads_configuration
from rt.common import Scenario
from spec import pmc as C
from spec.pmc import u8, u16, u32

NOTE = """Bounds: records whose stored bytes are arbitrary: texts of 0 to 6 (thorough 8) bytes, names of 2 and 4 bytes, rule
values of 0 to 6 bytes with every column, relation and action number and any further numbers, columns and widths of 0 to 5
bytes, numbers, unknown options of 0 to 8 bytes, font records with arbitrary numbers and arbitrary bytes at both ends of the
face name; one record, followed by another, and two records of the same name. Nothing is assumed about which of them load."""


def again(ctx, raw):
    """loads -> dumps -> loads"""
    first = ctx.outcome(loads_configuration, raw)
    if not first.ok:
        ctx.cover("refused")
        return
    ctx.cover("loads")
    want = C.view_config(first.value)
    dumped = dumps_configuration(first.value)
    second = loads_configuration(dumped)
    ctx.eq(C.view_config(second), want, "loaded again")
    ctx.eq(dumps_configuration(second), dumped, "dumped again")


def payload(name, n, follow):
    def run(ctx):
        raw = C.record(name, ctx.bytes("data", n))
        if follow:
            raw = raw + C.record("Profiling", u32(ctx.u32("next")))
        again(ctx, raw)
    return run


def named(n, m):
    def run(ctx):
        name, data = ctx.bytes("name", n), ctx.bytes("data", m)
        again(ctx, u32(0x10 + n + m) + u32(0x10) + u32(0x10 + n) + u32(m) + name + data)
    return run


def rule(ctx, tag, n, which):
    col, rel, act = 40071, 5, 1
    if which == "column":
        col = ctx.u32(tag + "column")
    elif which == "relation":
        rel = ctx.u32(tag + "relation")
    elif which == "action":
        act = ctx.u8(tag + "action")
    elif which == "architecture":
        col = 40088
    return (u32(col) + u32(rel) + u8(act) + u32(n) + ctx.bytes(tag + "value", n) + u32(ctx.u32(tag + "int"))
            + u32(ctx.u32(tag + "reserved")))


def rules(opt, lengths, which):
    def run(ctx):
        raws = [rule(ctx, "r%d." % i, n, which if i == 0 else "") for i, n in enumerate(lengths)]
        again(ctx, C.record(opt, C.rules_bytes(raws)))
    return run


def font(opt, head, tail, fill):
    def run(ctx):
        b = b"".join([u32(ctx.u32(k)) for k in C.FONT_LONGS]) + b"".join([u8(ctx.u8(k)) for k in C.FONT_BYTES])
        mid = fill * ((64 - head - tail) // 2)
        again(ctx, C.record(opt, b + ctx.bytes("head", head) + mid + ctx.bytes("tail", tail)))
    return run


def twice(name, n):
    """two records of one name"""
    def run(ctx):
        again(ctx, C.record(name, ctx.bytes("a", n)) + C.record("Profiling", u32(ctx.u32("b"))) + C.record(name, ctx.bytes("c", n)))
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for k in C.PATHS + C.ZPATHS:
        for n in (0, 1, 2, 3, 4, 6) + ((5, 8) if deep else ()):
            out.append(Scenario("text-%s-%d" % (k, n), payload(k, n, n == 2), "every text of %d bytes" % n))
    for k in C.INTS:
        out.append(Scenario("number-" + k, payload(k, 4, True), "every number"))
    for n in range(6):
        out.append(Scenario("columns-%d" % n, payload("Columns", n, n == 4), "every %d bytes" % n))
    for n in (0, 3, 4, 5, 8):
        out.append(Scenario("map-%d" % n, payload("ColumnMap", n, n == 4), "every %d bytes" % n, weight=3))
    for n in range(9):
        out.append(Scenario("other-%d" % n, payload("Other", n, n == 3), "every %d bytes" % n))
    for n in (2, 4) + ((6,) if deep else ()):
        for m in (0, 2):
            out.append(Scenario("name-%d-%d" % (n, m), named(n, m), "every name of %d and value of %d bytes" % (n, m)))
    for opt in C.RULES:
        for n in (0, 2, 4, 6):
            out.append(Scenario("rule-%s-%d" % (opt, n), rules(opt, (n,), ""), "every value of %d bytes" % n))
        for which in ("column", "relation", "action", "architecture"):
            out.append(Scenario("rule-%s-%s" % (opt, which), rules(opt, (2,), which), "every %s number" % which))
        out.append(Scenario("rules-%s" % opt, rules(opt, (2, 2), ""), "two rules"))
    for opt in C.FONTS:
        for h, t, fill in ((4, 0, b"\0\0"), (0, 4, b"a\0"), (2, 2, b"b\0"), (2, 2, b"\0\0")):
            out.append(Scenario("font-%s-%d-%d-%s" % (opt, h, t, fill[:1].hex()), font(opt, h, t, fill), "every number, %d bytes" % (h + t)))
    for k, n in (("Logfile", 2), ("SourcePath", 4), ("Other", 2), ("Columns", 4)):
        out.append(Scenario("twice-" + k, twice(k, n), "every two values"))
    return out
