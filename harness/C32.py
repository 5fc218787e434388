"""C32 the layout of dumped configurations"""
from collections import OrderedDict

from procmon_parser import dumps_configuration, loads_configuration
from procmon_parser.configuration import Font, Rule
from procmon_parser.consts import Column, RuleAction, RuleRelation
from rt.common import Scenario
from spec import pmc as C

NOTE = """Bounds: as C31; the expected bytes are built from docs/PMC Format.md. Numbers too large or negative for their field
(up to 2^40 in size), face names of over 32 units and values of a wrong type have to be refused."""

COLUMN_LIST = list(C.COLUMN_NUMBERS)
RELATION_LIST = list(C.RELATION_NUMBERS)
ACTION_LIST = list(C.ACTION_NUMBERS)


def same(ctx, config, raw, want_view=None):
    ctx.eq(dumps_configuration(config), raw, "dump")
    back = loads_configuration(raw)
    ctx.eq(C.view_config(back), C.view_config(config), "the layout loads back")
    ctx.cover("layout")


def one(name, size):
    def run(ctx):
        v, raw = C.option(ctx, "v", name, size)
        same(ctx, OrderedDict([(name, v)]), C.record(name, raw))
    return run


def face(name, n):
    def run(ctx):
        t = ctx.text("face", n, "char")
        f = Font(face_name=t)
        raw = C.font_bytes(dict([(k, getattr(f, k)) for k in C.FONT_ATTRS]))
        same(ctx, OrderedDict([(name, f)]), C.record(name, raw))
    return run


def rule(which, opt, n):
    def run(ctx):
        col, rel, act = "PID", "IS", "INCLUDE"
        if which == "column":
            col = ctx.choice("column", COLUMN_LIST)
        elif which == "relation":
            rel = ctx.choice("relation", RELATION_LIST)
        else:
            act = ctx.choice("action", ACTION_LIST)
        v = ctx.text("value", n, "ascii1")
        raw = C.rule_bytes(C.COLUMN_NUMBERS[col], C.RELATION_NUMBERS[rel], C.ACTION_NUMBERS[act], v, C.number_of(col, v))
        same(ctx, OrderedDict([(opt, [Rule(Column[col], RuleRelation[rel], v, RuleAction[act])])]),
             C.record(opt, C.rules_bytes([raw])))
    return run


def rules(opt, lengths):
    def run(ctx):
        rs, raws = [], []
        for i, n in enumerate(lengths):
            v = ctx.text("value%d" % i, n, "any")
            col, rel, act = COLUMN_LIST[3 * i + 1], RELATION_LIST[i], ACTION_LIST[i % 2]
            rs.append(Rule(Column[col], RuleRelation[rel], v, RuleAction[act]))
            raws.append(C.rule_bytes(C.COLUMN_NUMBERS[col], C.RELATION_NUMBERS[rel], C.ACTION_NUMBERS[act], v,
                                     C.number_of(col, v)))
        same(ctx, OrderedDict([(opt, rs)]), C.record(opt, C.rules_bytes(raws)))
    return run


def architecture(opt, before, after):
    """the number of an architecture stands anywhere in its text"""
    def run(ctx):
        v = ctx.choice("middle", ["32", "64", "32-bit", "64-bit", "3", ""])
        if before:
            v = ctx.text("a", before, "ascii1") + v
        if after:
            v = v + ctx.text("b", after, "ascii1")
        raw = C.rule_bytes(C.COLUMN_NUMBERS["ARCHITECTURE"], 0, 1, v, C.number_of("ARCHITECTURE", v))
        same(ctx, OrderedDict([(opt, [Rule(Column.ARCHITECTURE, RuleRelation.IS, v, RuleAction.INCLUDE)])]),
             C.record(opt, C.rules_bytes([raw])))
    return run


def unknown(name_length, size):
    def run(ctx):
        name = ctx.text("name", name_length, "any") if name_length else ""
        for k in C.KNOWN:
            ctx.assume(name != k)
        v = ctx.bytes("v", size)
        same(ctx, OrderedDict([(name, v)]), C.record(name, v))
    return run


def several(names, size):
    def run(ctx):
        d, raw = OrderedDict(), b""
        for i, k in enumerate(names):
            d[k], r = C.option(ctx, "v%d" % i, k, size)
            raw += C.record(k, r)
        same(ctx, d, raw)
    return run


def large(name, size):
    def run(ctx):
        v, raw = C.big_option(ctx, "v", name, size)
        same(ctx, OrderedDict([("HistoryDepth", 5), (name, v), ("Profiling", 7)]),
             C.record("HistoryDepth", C.u32(5)) + C.record(name, raw) + C.record("Profiling", C.u32(7)))
    return run


def long_rule(opt, size):
    def run(ctx):
        v, raw = C.long_rule(ctx, "v", size)
        same(ctx, OrderedDict([(opt, v)]), C.record(opt, raw))
    return run


def long_name(size):
    def run(ctx):
        name = C.big_text(ctx, "name", size)
        v = ctx.bytes("v", 2)
        same(ctx, OrderedDict([(name, v)]), C.record(name, v))
    return run


def number_text(opt, size):
    """decimal values near the largest stored number"""
    def run(ctx):
        v = ctx.text("v", size, "ascii1")
        for c in v:
            ctx.assume(ord(c) >= 48)
            ctx.assume(ord(c) <= 57)
        col = "PID" if opt == "FilterRules" else "DETAIL"
        raw = C.rule_bytes(C.COLUMN_NUMBERS[col], 0, 1, v, C.number_of(col, v))
        same(ctx, OrderedDict([(opt, [Rule(Column[col], RuleRelation.IS, v, RuleAction.INCLUDE)])]),
             C.record(opt, C.rules_bytes([raw])))
    return run


def refused(ctx, config, label):
    ctx.check(ctx.outcome(dumps_configuration, config).is_err(), label)
    ctx.cover("refused")


def out_of_range(name):
    def run(ctx):
        big = ctx.choice("which", ["large", "negative"])
        v = ctx.int("v", 1 << 32, 1 << 40) if big == "large" else ctx.int("v", -(1 << 40), -1)
        refused(ctx, {name: v}, "number outside 32 bits")
    return run


def column_range(ctx):
    big = ctx.choice("which", ["large", "negative"])
    v = ctx.int("v", 1 << 16, 1 << 40) if big == "large" else ctx.int("v", -(1 << 40), -1)
    refused(ctx, {"Columns": ctx.choice("list", [[v], [5, v], [v, 5]])}, "width outside 16 bits")


def font_range(k):
    def run(ctx):
        top = 32 if k in C.FONT_LONGS else 8
        big = ctx.choice("which", ["large", "negative"])
        v = ctx.int("v", 1 << top, 1 << 40) if big == "large" else ctx.int("v", -(1 << 40), -1)
        f = Font()
        setattr(f, k, v)
        refused(ctx, {"LogFont": f}, "font number out of range")
    return run


def face_range(n, kind):
    def run(ctx):
        t = ctx.text("face", n, kind)
        if kind == "any":
            ctx.assume(ord(t[0]) > 0xffff)
            ctx.assume(ord(t[1]) > 0xffff)
        refused(ctx, {"BoookmarkFont": Font(face_name=t)}, "face name of over 32 units")
    return run


def wrong_type(ctx):
    name = ctx.choice("option", ["Logfile", "DbgHelpPath", "SourcePath", "SymbolPath", "HistoryDepth", "FilterRules", "Columns",
                                 "ColumnMap", "LogFont", "Other"])
    v = ctx.choice("value", [5, b"x", 2.5, None, object()])
    if (name == "HistoryDepth" and v == 5) or (name == "Other" and v == b"x"):
        return
    if isinstance(v, bytes) and name in ("Columns", "ColumnMap"):
        return
    refused(ctx, {name: v}, "value of a wrong type")


def mixed(ctx):
    """a refused option after a good one"""
    v = ctx.u32("v")
    refused(ctx, OrderedDict([("HistoryDepth", v), ("Logfile", ctx.choice("bad", [1, b"C:", None]))]), "bad second option")


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for k in C.INTS:
        out.append(Scenario("int-" + k, one(k, 0), "all 32-bit numbers"))
        out.append(Scenario("range-" + k, out_of_range(k), "numbers of 33 to 40 bits, negative numbers"))
    for k in C.PATHS + C.ZPATHS:
        for n in range(6 if deep else 4):
            out.append(Scenario("path-%s-%d" % (k, n), one(k, n), "all texts of %d characters" % n))
    for n in range(6 if deep else 4):
        out.append(Scenario("Columns-%d" % n, one("Columns", n), "%d widths" % n))
    for n in range(4 if deep else 3):
        out.append(Scenario("ColumnMap-%d" % n, one("ColumnMap", n), "%d columns" % n))
    for k in C.FONTS:
        for n in range(5 if deep else 3):
            out.append(Scenario("font-%s-%d" % (k, n), one(k, n), "all fonts with face names of %d characters" % n))
        for n in (4, 31, 32):
            out.append(Scenario("face-%s-%d" % (k, n), face(k, n), "face names of %d characters" % n))
    for k in C.RULES:
        for w in ("column", "relation", "action"):
            out.append(Scenario("rule-%s-%s" % (k, w), rule(w, k, 2), "every %s, ASCII values of 2 characters" % w))
        for lens in [(), (0,), (1,), (2,), (0, 1), (1, 0), (2, 1), (1, 1, 1), (0, 0, 0), (2, 0, 1)] + \
                ([(3,), (3, 1), (1, 1, 1, 1), (2, 0, 2)] if deep else []):
            out.append(Scenario("rules-%s-%s" % (k, "_".join(map(str, lens))), rules(k, lens),
                                "rules with values of %s characters" % (lens,)))
    for nl in (0, 1, 2, 7, 8):
        for n in ((0, 1, 4, 8) if deep else (0, 4)):
            out.append(Scenario("unknown-%d-%d" % (nl, n), unknown(nl, n), "names of %d characters, %d bytes" % (nl, n)))
    for names in [("HistoryDepth", "Logfile"), ("SourcePath", "Columns"), ("FilterRules", "HighlightRules"),
                  ("FilterRules", "LogFont", "Other"), ("SymbolPath", "DbgHelpPath", "ColumnCount")]:
        for n in (0, 1, 2):
            out.append(Scenario("several-%s-%d" % ("-".join(names), n), several(names, n), "sizes %d" % n))
    for k, n in C.LARGE + (C.HUGE if deep else []):
        out.append(Scenario("large-%s-%d" % (k, n), large(k, n), "%d elements, characters or bytes, three of them symbolic" % n))
    for k in C.RULES:
        for a, b in ((0, 2), (1, 0), (2, 1)):
            out.append(Scenario("architecture-%s-%d-%d" % (k, a, b), architecture(k, a, b), "ASCII text around 32 or 64"))
        for n in C.LONG_RULES:
            out.append(Scenario("long-%s-%d" % (k, n), long_rule(k, n), "a rule whose value has %d characters" % n))
        for n in (9, 10, 11) if deep else (10,):
            out.append(Scenario("number-%s-%d" % (k, n), number_text(k, n), "every value of %d decimal digits" % n))
    for n in (119, 120, 126, 127, 128, 300):
        out.append(Scenario("long-name-%d" % n, long_name(n), "option names of %d characters" % n))
    out.append(Scenario("range-Columns", column_range, "widths of 17 to 40 bits, negative widths"))
    for k in C.FONT_LONGS + C.FONT_BYTES:
        out.append(Scenario("range-font-" + k, font_range(k), "numbers too large, negative numbers"))
    out.append(Scenario("range-face-33", face_range(33, "char"), "face names of 33 characters"))
    out.append(Scenario("range-face-34", face_range(34, "ascii1"), "face names of 34 characters"))
    out.append(Scenario("wrong-type", wrong_type, "values of other types"))
    out.append(Scenario("mixed", mixed, "a bad option after a good one"))
    return out
