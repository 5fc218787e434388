"""C33 truncated and corrupt configurations"""
from collections import OrderedDict

from procmon_parser import dumps_configuration, loads_configuration
from procmon_parser.consts import Column
from rt.common import Scenario
from spec import pmc as C

NOTE = """Bounds: files of one to three records of every option kind with symbolic contents, cut at every byte; every value of
the constant, count, length, size, column, relation and action fields of small records, alone and for the three size fields
together. Outside: several corruptions at once other than the size fields, and a record whose three size fields agree with
each other but not with what its option's kind needs (the format has no way to tell)."""


def cut(options, size):
    """every cut position of a file with these options"""
    def run(ctx):
        config, starts, raw = [], [0], b""
        for i, k in enumerate(options):
            v, r = C.option(ctx, "v%d" % i, k, size, "char")
            config.append((k, C.view(v)))
            raw = raw + C.record(k, r)
            starts.append(len(raw))
        at = ctx.choice("cut", list(range(len(raw) + 1)))
        whole = len([s for s in starts[1:] if s <= at])
        r = ctx.outcome(loads_configuration, raw[:at])
        if r.ok:
            ctx.eq(C.view_config(r.value), config[:whole], "records loaded from a truncated file")
            ctx.cover("loads")
        if at == len(raw):
            ctx.check(r.ok, "complete file")
    return run


def cut_large(name, size):
    """cuts of a file with a large record in the middle, near the boundaries of the records and where a size would wrap"""
    def run(ctx):
        a, b = ctx.u32("a"), ctx.u32("b")
        v, r = C.big_option(ctx, "v", name, size)
        config = [("HistoryDepth", a), (name, C.view(v)), ("Profiling", b)]
        parts = [C.record("HistoryDepth", C.u32(a)), C.record(name, r), C.record("Profiling", C.u32(b))]
        raw = parts[0] + parts[1] + parts[2]
        one, two = len(parts[0]), len(parts[0]) + len(parts[1])
        spots = [one, one + 0x10, two - len(r), two - len(r) + (len(r) & 0xff), two - len(r) // 2, two - 256, two - 4, two - 2,
                 two - 1, two, two + 1, two + 0x10, len(raw) - 1, len(raw)]
        at = ctx.choice("cut", sorted(set([x for x in spots if x >= one])))
        whole = (at >= one) + (at >= two) + (at >= len(raw))
        r = ctx.outcome(loads_configuration, raw[:at])
        if r.ok:
            ctx.eq(C.view_config(r.value), config[:whole], "records loaded from a truncated file")
        if at == len(raw):
            ctx.check(r.ok, "complete file")
        ctx.cover("cut")
    return run


def number(ctx, table):
    """a symbolic number and the name it stands for, or None"""
    n = ctx.u32("number")
    for k, v in table.items():
        if n == v:
            return n, k
    return n, None


def enum_rule(which, opt):
    """every column, relation or action number"""
    def run(ctx):
        col, rel, act = 40071, 5, 1
        names = ["PATH", "ENDS_WITH", "INCLUDE"]
        if which == "column":
            col, names[0] = number(ctx, C.COLUMN_NUMBERS)
        elif which == "relation":
            rel, names[1] = number(ctx, C.RELATION_NUMBERS)
        else:
            act = ctx.u8("number")
            names[2] = "EXCLUDE" if act == 0 else ("INCLUDE" if act == 1 else None)
        v = ctx.text("value", 1, "char")
        first = ctx.u32("first")
        raw = C.record("HistoryDepth", C.u32(first)) + C.record(opt, C.rules_bytes([
            C.rule_bytes(col, rel, act, v, ctx.u32("int_value"), ctx.u32("reserved"))]))
        r = ctx.outcome(loads_configuration, raw)
        if None in names:
            ctx.check(r.is_err(), "unknown number accepted")
            ctx.cover("unknown")
        else:
            ctx.check(r.ok, "known number refused")
            ctx.eq(C.view_config(r.value), [("HistoryDepth", first), (opt, [tuple(names) + (v,)])], "loaded rule")
            ctx.cover("known")
    return run


def enum_map(position, count):
    def run(ctx):
        n, name = number(ctx, C.COLUMN_NUMBERS)
        cols = [("PID", 40054), ("PATH", 40071), ("USER", 40067)][:count]
        cols[position] = (name, n)
        r = ctx.outcome(loads_configuration, C.record("ColumnMap", b"".join([C.u32(x) for _, x in cols])))
        if name is None:
            ctx.check(r.is_err(), "unknown column accepted")
        else:
            ctx.check(r.ok, "known column refused")
            ctx.eq(C.view_config(r.value), [("ColumnMap", [k for k, _ in cols])], "loaded columns")
    return run


SIZES = ("header", "named", "data", "size", "all")


def sizes(option, which, size=1, follow=True):
    """symbolic size fields: contradictory ones must not yield the record"""
    def run(ctx):
        v, r = C.option(ctx, "v", option, size, "char")
        n = len(C.zwide(option))
        f = dict(header=0x10, named=0x10 + n, data_size=len(r), size=0x10 + n + len(r))
        true = dict(f)
        for k in ("header", "named", "data_size", "size"):
            if which == "all" and k != "header" or which == k:
                f[k] = ctx.u32(k)
        raw = C.record(option, r, **f)
        if follow:
            raw = raw + C.record("Profiling", C.u32(ctx.u32("next")))
        got = ctx.outcome(loads_configuration, raw)
        bad = ctx.either(f["header"] != 0x10, f["size"] != f["named"] + f["data_size"])
        if bad:
            if got.ok:
                ctx.eq(C.view_config(got.value), [], "record with contradictory sizes")
            ctx.cover("contradictory")
        elif ctx.both(f["named"] == true["named"], f["data_size"] == true["data_size"]):
            ctx.check(got.ok, "consistent record refused")
            ctx.eq(C.view_config(got.value)[0], (option, C.view(v)), "consistent record")
            ctx.cover("consistent")
    return run


def rules_count(count_bytes, follow):
    """a symbolic number of rules in the file's count field"""
    def run(ctx):
        names, raws = [], []
        for i in range(2):
            v = ctx.text("value%d" % i, 1, "char")
            names.append(("PATH", "ENDS_WITH", "INCLUDE", v))
            raws.append(C.rule_bytes(40071, 5, 1, v, ctx.u32("int%d" % i), ctx.u32("reserved%d" % i)))
        n = ctx.u32("count")
        raw = C.record("FilterRules", C.rules_bytes(raws, count=n))
        if follow:
            raw = raw + C.record("Zz", ctx.bytes("next", 3))
        got = ctx.outcome(loads_configuration, raw)
        if n == 2:
            ctx.check(got.ok, "right count refused")
            ctx.eq(C.view_config(got.value)[0], ("FilterRules", names), "rules")
        elif got.ok:
            ctx.eq(C.view_config(got.value), [], "rules with a wrong count")
    return run


def rules_version(ctx):
    n = ctx.u8("version")
    v = ctx.text("value", 1, "char")
    got = ctx.outcome(loads_configuration, C.record("HighlightRules", C.rules_bytes(
        [C.rule_bytes(40071, 5, 1, v, 0)], version=n)))
    if n == 1:
        ctx.check(got.ok, "version 1 refused")
        ctx.eq(C.view_config(got.value), [("HighlightRules", [("PATH", "ENDS_WITH", "INCLUDE", v)])], "rules")
    else:
        ctx.check(got.is_err(), "unknown version of the rules accepted")


def value_length(ctx):
    """the length field of a rule's value: another length never yields a rule list of the right length with the value"""
    v = ctx.text("value", 2, "char")
    n = ctx.u32("length")
    k = ctx.u32("int_value")
    raw = C.record("FilterRules", C.rules_bytes([C.rule_bytes(40071, 5, 1, v, k, ctx.u32("reserved"), length=n)]))
    got = ctx.outcome(loads_configuration, raw)
    if n == 6:
        ctx.check(got.ok, "right length refused")
        ctx.eq(C.view_config(got.value), [("FilterRules", [("PATH", "ENDS_WITH", "INCLUDE", v)])], "rules")
    elif n > 14:
        if got.ok:
            ctx.eq(C.view_config(got.value), [], "value reaching over the end of the file")


def malformed_text(option):
    """text that is no UTF-16 is refused, not replaced"""
    def run(ctx):
        a, b = ctx.u16("a"), ctx.u16("b")
        ctx.assume(b != 0)
        got = ctx.outcome(loads_configuration, C.record(option, C.u16(a) + C.u16(b)))
        high = ctx.both(a >= 0xd800, a <= 0xdbff)
        low = ctx.both(b >= 0xdc00, b <= 0xdfff)
        single_a = ctx.either(a < 0xd800, a > 0xdfff)
        single_b = ctx.either(b < 0xd800, b > 0xdfff)
        if ctx.both(high, low):
            want = chr(0x10000 + ((a & 0x3ff) << 10) + (b & 0x3ff))
        elif ctx.both(single_a, single_b):
            want = chr(a) + chr(b)
        else:
            ctx.check(got.is_err(), "malformed text accepted")
            return
        ctx.check(got.ok, "well-formed text refused")
        ctx.eq(C.view_config(got.value), [(option, want)], "text")
    return run


def odd_text(option):
    def run(ctx):
        raw = ctx.bytes("raw", 3)
        ctx.assume(raw[2] != 0)
        got = ctx.outcome(loads_configuration, C.record(option, raw))
        ctx.check(got.is_err(), "text of an odd size accepted")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    plain = ("HistoryDepth", "Logfile", "SourcePath", "Columns", "FilterRules", "LogFont", "Other")
    for k in plain + (("SymbolPath", "HighlightRules", "BoookmarkFont", "DbgHelpPath") if deep else ()):
        for n in (0, 1, 2) if k not in ("HistoryDepth", "LogFont") else (1,):
            out.append(Scenario("cut-%s-%d" % (k, n), cut((k,), n), "every cut of one record"))
    pairs = [("HistoryDepth", "Logfile"), ("Other", "FilterRules"), ("FilterRules", "SourcePath"), ("Columns", "Other"),
             ("Logfile", "FilterRules")]
    if deep:
        pairs = [(a, b) for a in plain for b in plain if a != b]
    for p in pairs:
        out.append(Scenario("cut-" + "-".join(p), cut(p, 1), "every cut of two records"))
    out.append(Scenario("cut-three", cut(("AlwaysOnTop", "SymbolPath", "Other"), 1), "every cut of three records"))
    for k, n in (C.LARGE if deep else [("Columns", 128), ("Columns", 200), ("ColumnMap", 65), ("Logfile", 128), ("Logfile", 300),
                                       ("SourcePath", 127), ("SourcePath", 300), ("FilterRules", 40), ("Other", 256),
                                       ("Other", 1000)]):
        out.append(Scenario("large-%s-%d" % (k, n), cut_large(k, n), "cuts near the boundaries of a large record"))
    for opt in C.RULES:
        for w in ("column", "relation", "action"):
            out.append(Scenario("rule-%s-%s" % (opt, w), enum_rule(w, opt), "every %s number" % w))
    for c in (1, 2, 3):
        for p in range(c):
            out.append(Scenario("map-%d-%d" % (p, c), enum_map(p, c), "every number at place %d of %d" % (p, c)))
    for opt in ("HistoryDepth", "Logfile", "Other", "SourcePath", "FilterRules", "Columns"):
        for w in ("header", "named", "data_size", "size", "all"):
            out.append(Scenario("sizes-%s-%s" % (opt, w), sizes(opt, w, 0 if opt == "FilterRules" and w == "all" and not deep else 1,
                                                                   deep or (opt == "Other" and w != "all")),
                                "every value of the size field(s)"))
    out.append(Scenario("count", rules_count(4, False), "every rule count"))
    out.append(Scenario("count-follow", rules_count(4, True), "every rule count, another record following"))
    out.append(Scenario("version", rules_version, "every first byte of a rule list"))
    out.append(Scenario("value-length", value_length, "every value length"))
    for k in C.PATHS + C.ZPATHS:
        out.append(Scenario("text-" + k, malformed_text(k), "every pair of UTF-16 units"))
        out.append(Scenario("odd-" + k, odd_text(k), "texts of 3 bytes"))
    return out
