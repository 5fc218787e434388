"""C34 configuration streams"""
from collections import OrderedDict
from io import BytesIO

from procmon_parser import dump_configuration, dumps_configuration, load_configuration, loads_configuration
from rt.common import Scenario
from spec import pmc as C

NOTE = """Bounds: streams with 0 to 12 (thorough 40) symbolic bytes before and after the position, configurations of one to
three options of every kind with symbolic contents, and every split of three options into two dictionaries."""

KINDS = ("HistoryDepth", "Logfile", "SourcePath", "Columns", "FilterRules", "LogFont", "Other", "ColumnMap")
GROUPS = [("HistoryDepth", "Logfile", "Other"), ("FilterRules", "SourcePath", "Columns"), ("LogFont", "Zz", "HighlightRules")]


def build(ctx, names, size, tag=""):
    d, raw = OrderedDict(), b""
    for i, k in enumerate(names):
        d[k], r = C.option(ctx, "%sv%d" % (tag, i), k, size, "char")
        raw = raw + C.record(k, r)
    return d, raw


def appends(names, size, before):
    """dump at the end of a stream that holds something"""
    def run(ctx):
        d, raw = build(ctx, names, size)
        head = ctx.bytes("head", before)
        s = BytesIO()
        s.write(head)
        ctx.check(dump_configuration(d, s) is None, "returns nothing")
        ctx.eq(s.getvalue(), head + raw, "appended")
        ctx.eq(s.tell(), before + len(raw), "position")
        ctx.eq(dumps_configuration(d), raw, "in memory")
        s.seek(before)
        ctx.eq(C.view_config(load_configuration(s)), C.view_config(d), "loaded from the offset")
        ctx.eq(s.tell(), before + len(raw), "consumed")
    return run


def large(name, size, before):
    """dump and load at an offset of a stream, a large option between two others"""
    def run(ctx):
        v, r = C.big_option(ctx, "v", name, size)
        a = ctx.u32("a")
        d = OrderedDict([("HistoryDepth", a), (name, v), ("Profiling", 7)])
        raw = C.record("HistoryDepth", C.u32(a)) + C.record(name, r) + C.record("Profiling", C.u32(7))
        head = ctx.bytes("head", before)
        s = BytesIO()
        s.write(head)
        dump_configuration(d, s)
        ctx.eq(s.getvalue(), head + raw, "appended")
        s.seek(before)
        ctx.eq(C.view_config(load_configuration(s)), C.view_config(d), "loaded from the offset")
        ctx.eq(s.tell(), before + len(raw), "consumed")
    return run


def overwrites(names, size, before, after):
    """dump in the middle of a stream"""
    def run(ctx):
        d, raw = build(ctx, names, size)
        n = before + len(raw) + after
        old = ctx.bytes("old", n)
        s = BytesIO(old)
        s.seek(before)
        dump_configuration(d, s)
        ctx.eq(s.getvalue(), old[:before] + raw + old[n - after:], "overwritten")
        ctx.eq(s.tell(), before + len(raw), "position")
    return run


def splits(names, size):
    """the dump of a dictionary is the concatenation of the dumps of its parts, in any order"""
    def run(ctx):
        d, raw = build(ctx, names, size)
        mask = ctx.choice("split", list(range(1 << len(names))))
        one, two = OrderedDict(), OrderedDict()
        for i, k in enumerate(names):
            (one if mask >> i & 1 else two)[k] = d[k]
        s = BytesIO()
        dump_configuration(one, s)
        dump_configuration(two, s)
        ctx.eq(s.getvalue(), dumps_configuration(one) + dumps_configuration(two), "one after the other")
        both = loads_configuration(s.getvalue())
        ctx.eq(C.view_config(both), C.view_config(one) + C.view_config(two), "union")
        again = loads_configuration(dumps_configuration(two) + dumps_configuration(one))
        ctx.eq(C.view_config(again), C.view_config(two) + C.view_config(one), "union in the other order")
    return run


def plain_dict(ctx):
    """an ordinary dictionary is dumped in its own order"""
    v, t = ctx.u32("v"), ctx.text("t", 1, "char")
    d = {"Logfile": t, "ColumnCount": v, "Other": b"x"}
    ctx.eq(dumps_configuration(d), C.record("Logfile", C.wide(t)) + C.record("ColumnCount", C.u32(v)) + C.record("Other", b"x"),
           "dump")
    ctx.eq(d, {"Logfile": t, "ColumnCount": v, "Other": b"x"}, "unchanged")


def repeated(ctx):
    """dumps do not influence each other"""
    d, raw = build(ctx, ("FilterRules", "HistoryDepth"), 2, "a")
    e, raw2 = build(ctx, ("FilterRules", "Logfile"), 1, "b")
    ctx.eq(dumps_configuration(d), raw, "first")
    ctx.eq(dumps_configuration(e), raw2, "second")
    ctx.eq(dumps_configuration(d), raw, "third")
    a, b = loads_configuration(raw), loads_configuration(raw2)
    ctx.eq(C.view_config(a), C.view_config(d), "first load")
    ctx.eq(C.view_config(b), C.view_config(e), "second load")
    b["FilterRules"].append(None)
    b["Logfile"] = "x"
    ctx.eq(C.view_config(loads_configuration(raw2)), C.view_config(e), "third load")
    ctx.eq(C.view_config(a), C.view_config(d), "first load, later")


def scenarios(tier):
    deep = tier == "thorough"
    offs = (0, 1, 7, 12, 40) if deep else (0, 1, 12)
    out = []
    for k in KINDS:
        for n in (1, 2) if k == "ColumnMap" or not deep else (0, 1, 2, 3):
            for b in offs:
                out.append(Scenario("append-%s-%d-%d" % (k, n, b), appends((k,), min(n, 1) if k == "ColumnMap" else n, b),
                                    "%d bytes before" % b))
    for g in GROUPS:
        for b in offs:
            out.append(Scenario("append-%s-%d" % ("-".join(g), b), appends(g, 1, b), "%d bytes before" % b))
            out.append(Scenario("middle-%s-%d" % ("-".join(g), b), overwrites(g, 1, b, b), "%d bytes before and after" % b))
        for n in (0, 1, 2):
            out.append(Scenario("split-%s-%d" % ("-".join(g), n), splits(g, n), "every split in two"))
    for k, n in C.LARGE if deep else [("Columns", 128), ("ColumnMap", 64), ("Logfile", 128), ("SourcePath", 130),
                                      ("FilterRules", 32), ("Other", 256)]:
        for b in (1, 300):
            out.append(Scenario("large-%s-%d-%d" % (k, n, b), large(k, n, b), "%d bytes before a large option" % b))
    out.append(Scenario("plain", plain_dict, "an ordinary dictionary"))
    out.append(Scenario("repeated", repeated, "several dumps and loads"))
    return out
