"""C31 configurations survive a dump and load"""
from collections import OrderedDict

from procmon_parser import dumps_configuration, loads_configuration
from procmon_parser.configuration import Font, Rule
from procmon_parser.consts import Column, RuleAction, RuleRelation
from rt.common import Scenario
from spec import pmc as C

NOTE = """Bounds: every option kind with symbolic contents: all 32-bit numbers, texts of 0 to 3 (thorough 5) arbitrary
well-formed characters that are not NUL, 0 to 3 (5) columns or widths, every font field and face names of 0 to 4, 31 and
32 units, 0 to 3 (4) rules with symbolic values and every column, relation and action, unknown options of 0 to 4 (8) bytes
with symbolic names, and two or three options in every order. Outside: texts with NUL characters or lone surrogates."""

COLUMN_LIST, RELATION_LIST, ACTION_LIST = list(Column), list(RuleRelation), list(RuleAction)


def trip(ctx, config):
    """dump, load, dump, load"""
    before = C.view_config(config)
    raw = dumps_configuration(config)
    back = loads_configuration(raw)
    ctx.eq(C.view_config(back), before, "loaded")
    for v in back.values():
        ctx.check(isinstance(v, (int, str, bytes, list, Font)), "value type")
    ctx.check(isinstance(back, OrderedDict), "ordered")
    again = dumps_configuration(back)
    ctx.eq(again, raw, "second dump")
    ctx.eq(C.view_config(loads_configuration(again)), before, "second load")
    ctx.eq(C.view_config(config), before, "input unchanged")
    ctx.cover("round trip")


def one(name, size):
    def run(ctx):
        v, _ = C.option(ctx, "v", name, size)
        trip(ctx, OrderedDict([(name, v)]))
    return run


def face(n):
    def run(ctx):
        trip(ctx, OrderedDict([("LogFont", Font(face_name=ctx.text("face", n, "char")))]))
    return run


def rule(which, opt):
    """one attribute over all its members, any value"""
    def run(ctx):
        col, rel, act = Column.PID, RuleRelation.IS, RuleAction.INCLUDE
        if which == "column":
            col = ctx.choice("column", COLUMN_LIST)
        elif which == "relation":
            rel = ctx.choice("relation", RELATION_LIST)
        else:
            act = ctx.choice("action", ACTION_LIST)
        r = Rule(col, rel, ctx.text("value", 2, "ascii1"), act)
        trip(ctx, OrderedDict([(opt, [r])]))
        ctx.check(loads_configuration(dumps_configuration({opt: [r]}))[opt][0] == r, "equal rule")
    return run


def rules(opt, lengths, kind="char"):
    def run(ctx):
        rs = []
        for i, n in enumerate(lengths):
            v = ctx.text("value%d" % i, n, kind)
            rs.append(Rule(COLUMN_LIST[3 * i + 1], RELATION_LIST[i], v, ACTION_LIST[i % 2]))
        trip(ctx, OrderedDict([(opt, rs)]))
    return run


def unknown(name_length, size):
    def run(ctx):
        name = ctx.text("name", name_length, "any") if name_length else ""
        for k in C.KNOWN:
            ctx.assume(name != k)
        trip(ctx, OrderedDict([(name, ctx.bytes("v", size))]))
    return run


PAIRS = [("HistoryDepth", "Logfile"), ("SourcePath", "Columns"), ("FilterRules", "HighlightRules"), ("Other", "ColumnMap"),
         ("LogFont", "Zzz"), ("SymbolPath", "DbgHelpPath"), ("FilterRules", "LogFont")]
TRIPLES = [("HistoryDepth", "SourcePath", "Other"), ("FilterRules", "Columns", "Logfile"), ("Aa", "Bb", "Aab"),
           ("BoookmarkFont", "HighlightRules", "SymbolPath")]


def several(names, sizes):
    def run(ctx):
        d = OrderedDict()
        perm = ctx.choice("order", list(orders(len(names))))
        size = ctx.choice("size", sizes)
        for i in perm:
            d[names[i]] = C.option(ctx, "v%d" % i, names[i], size)[0] if names[i] != "ColumnMap" else \
                [Column.PATH, Column.PID][:size]
        trip(ctx, d)
    return run


def orders(n):
    if n == 1:
        return [(0,)]
    return [p[:i] + (n - 1,) + p[i:] for p in orders(n - 1) for i in range(n)]


def large(name, size):
    def run(ctx):
        v, _ = C.big_option(ctx, "v", name, size)
        trip(ctx, OrderedDict([("HistoryDepth", 5), (name, v), ("Profiling", 7)]))
    return run


def long_rule(opt, size):
    def run(ctx):
        trip(ctx, OrderedDict([(opt, C.long_rule(ctx, "v", size)[0])]))
    return run


def long_name(size):
    def run(ctx):
        name = C.big_text(ctx, "name", size, "char")
        trip(ctx, OrderedDict([(name, ctx.bytes("v", 2)), ("Profiling", 7)]))
    return run


def empty(ctx):
    ctx.eq(dumps_configuration({}), b"", "empty dump")
    ctx.eq(C.view_config(loads_configuration(b"")), [], "empty load")


def scenarios(tier):
    deep = tier == "thorough"
    out = [Scenario("empty", empty, "no options")]
    for k in C.INTS:
        out.append(Scenario("int-" + k, one(k, 0), "all 32-bit numbers"))
    for k in C.PATHS + C.ZPATHS:
        for n in range(6 if deep else 4):
            out.append(Scenario("path-%s-%d" % (k, n), one(k, n), "all texts of %d characters" % n))
    for n in range(6 if deep else 4):
        out.append(Scenario("Columns-%d" % n, one("Columns", n), "%d widths" % n))
    for n in range(4 if deep else 3):
        out.append(Scenario("ColumnMap-%d" % n, one("ColumnMap", n), "%d columns" % n))
    for k in C.FONTS:
        for n in range(5 if deep else 3):
            out.append(Scenario("font-%s-%d" % (k, n), one(k, n), "all fonts with face names of %d characters" % n))
    for n in (4, 31, 32):
        out.append(Scenario("face-%d" % n, face(n), "face names of %d characters" % n))
    for k in C.RULES:
        for w in ("column", "relation", "action"):
            out.append(Scenario("rule-%s-%s" % (k, w), rule(w, k), "every %s, ASCII values of 2 characters" % w))
        for lens in [(), (0,), (1,), (2,), (0, 1), (1, 0), (2, 1), (1, 1, 1), (0, 0, 0), (2, 0, 1)] + \
                ([(3,), (3, 3), (1, 1, 1, 1), (2, 0, 3, 1)] if deep else []):
            out.append(Scenario("rules-%s-%s" % (k, "_".join(map(str, lens))), rules(k, lens),
                                "rules with values of %s characters" % (lens,)))
    for nl in (0, 1, 2, 7, 8):
        for n in ((0, 1, 4, 8) if deep else (0, 4)):
            out.append(Scenario("unknown-%d-%d" % (nl, n), unknown(nl, n), "names of %d characters, %d bytes" % (nl, n)))
    for k, n in C.LARGE + (C.HUGE if deep else []):
        out.append(Scenario("large-%s-%d" % (k, n), large(k, n), "%d elements, characters or bytes, three of them symbolic" % n))
    for k in C.RULES:
        for n in C.LONG_RULES:
            out.append(Scenario("long-%s-%d" % (k, n), long_rule(k, n), "a rule whose value has %d characters" % n))
    for n in (119, 120, 126, 127, 128, 300):
        out.append(Scenario("long-name-%d" % n, long_name(n), "option names of %d characters" % n))
    for names in PAIRS + TRIPLES:
        out.append(Scenario("several-" + "-".join(names), several(names, (0, 1, 2) if deep else (0, 1)),
                            "every order, sizes 0 to %d" % (2 if deep else 1)))
    return out
