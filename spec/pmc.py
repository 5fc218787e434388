"""Builder for Process Monitor configuration files (PMC), written from docs/PMC Format.md, and symbolic options."""
import struct
from collections import OrderedDict

from procmon_parser.configuration import Font, Rule
from procmon_parser.consts import Column, RuleAction, RuleRelation

INTS = ("ColumnCount", "HighlightFG", "HighlightBG", "AdvancedMode", "Autoscroll", "HistoryDepth", "Profiling",
        "DestructiveFilter", "AlwaysOnTop", "ResolveAddresses")
PATHS = ("DbgHelpPath", "Logfile")              # text without a terminator
ZPATHS = ("SourcePath", "SymbolPath")           # text with a terminator, nothing for the empty text
FONTS = ("LogFont", "BoookmarkFont")
RULES = ("FilterRules", "HighlightRules")
KNOWN = INTS + PATHS + ZPATHS + FONTS + RULES + ("Columns", "ColumnMap")

COLUMNS = dict((c.name, int(c)) for c in Column)
# the numbers of the documented columns, relations and actions, independently of consts.py
COLUMN_NUMBERS = OrderedDict([
    ("NONE", 0), ("DATE_AND_TIME", 40052), ("PROCESS_NAME", 40053), ("PID", 40054), ("OPERATION", 40055),
    ("RESULT", 40056), ("DETAIL", 40057), ("SEQUENCE", 40058), ("COMPANY", 40064), ("DESCRIPTION", 40065),
    ("COMMAND_LINE", 40066), ("USER", 40067), ("IMAGE_PATH", 40068), ("SESSION", 40069), ("PATH", 40071),
    ("TID", 40072), ("RELATIVE_TIME", 40076), ("DURATION", 40077), ("TIME_OF_DAY", 40078), ("VERSION", 40081),
    ("EVENT_CLASS", 40082), ("AUTHENTICATION_ID", 40083), ("VIRTUALIZED", 40084), ("INTEGRITY", 40085),
    ("CATEGORY", 40086), ("PARENT_PID", 40087), ("ARCHITECTURE", 40088), ("COMPLETION_TIME", 40164)])
RELATION_NUMBERS = OrderedDict([("IS", 0), ("IS_NOT", 1), ("LESS_THAN", 2), ("MORE_THAN", 3), ("BEGINS_WITH", 4),
                                ("ENDS_WITH", 5), ("CONTAINS", 6), ("EXCLUDES", 7)])
ACTION_NUMBERS = OrderedDict([("EXCLUDE", 0), ("INCLUDE", 1)])


def u8(v): return struct.pack("<B", v)
def u16(v): return struct.pack("<H", v)
def u32(v): return struct.pack("<I", v)


def wide(s):
    return s.encode("utf-16-le")


def zwide(s):
    """terminated text; nothing at all for the empty text"""
    return wide(s) + b"\0\0" if len(s) else b""


FONT_LONGS = ("height", "width", "escapement", "orientation", "weight")
FONT_BYTES = ("italic", "underline", "strikeout", "char_set", "out_precision", "clip_precision", "quality",
              "pitch_and_family")
FONT_ATTRS = FONT_LONGS + FONT_BYTES + ("face_name",)


def font_bytes(f):
    out = b""
    for k in FONT_LONGS:
        out += u32(f[k])
    for k in FONT_BYTES:
        out += u8(f[k])
    face = wide(f["face_name"])
    return out + face + b"\0" * (64 - len(face))


def rule_bytes(column, relation, action, value, int_value, reserved=0, length=None):
    v = zwide(value)
    return (u32(column) + u32(relation) + u8(action) + u32(len(v) if length is None else length) + v + u32(int_value)
            + u32(reserved))


def rules_bytes(rules, count=None, version=1):
    return u8(version) + u32(len(rules) if count is None else count) + b"".join(rules)


def record(name, data, header=0x10, named=None, size=None, data_size=None):
    """one configuration record; the size fields can be overridden"""
    n = zwide(name)
    named = 0x10 + len(n) if named is None else named
    data_size = len(data) if data_size is None else data_size
    size = 0x10 + len(n) + len(data) if size is None else size
    return u32(size) + u32(header) + u32(named) + u32(data_size) + n + data


# ---------------------------------------------------------------------------- views
def view(v):
    """a plain picture of an option's value"""
    if isinstance(v, Font):
        return OrderedDict([(k, getattr(v, k)) for k in FONT_ATTRS])
    if isinstance(v, Rule):
        return (v.column.name, v.relation.name, v.action.name, v.value)
    if isinstance(v, Column):
        return v.name
    if isinstance(v, list):
        return [view(x) for x in v]
    return v


def view_config(d):
    return [(k, view(v)) for k, v in d.items()]


# ---------------------------------------------------------------------------- symbolic options
def number_of(column, value):
    """the integer stored with a rule"""
    if len(value) and value.isdecimal():
        n = int(value)
        if n < 1 << 32:
            return n
    if column == "ARCHITECTURE":
        return 32 if "32" in value else 64
    return 0


def option(ctx, tag, name, size=1, text="any"):
    """-> (value, its stored bytes).  size: number of characters, elements or bytes"""
    if name in INTS:
        v = ctx.u32(tag)
        return v, u32(v)
    if name in PATHS:
        v = ctx.text(tag, size, text)
        return v, wide(v)
    if name in ZPATHS:
        v = ctx.text(tag, size, text)
        return v, zwide(v)
    if name == "Columns":
        v = [ctx.u16("%s.%d" % (tag, i)) for i in range(size)]
        return v, b"".join([u16(x) for x in v])
    if name == "ColumnMap":
        names = list(COLUMN_NUMBERS)
        v = [ctx.choice("%s.%d" % (tag, i), names if i == 0 else names[::7]) for i in range(size)]
        return [Column[x] for x in v], b"".join([u32(COLUMN_NUMBERS[x]) for x in v])
    if name in FONTS:
        f = OrderedDict([(k, ctx.u32("%s.%s" % (tag, k))) for k in FONT_LONGS]
                        + [(k, ctx.u8("%s.%s" % (tag, k))) for k in FONT_BYTES])
        f["face_name"] = ctx.text(tag + ".face", size, text)
        return Font(**f), font_bytes(f)
    if name in RULES:
        out, raw = [], []
        for i in range(size):
            v = ctx.text("%s.%d" % (tag, i), 1, "ascii1")
            out.append(Rule(Column.PATH, RuleRelation.ENDS_WITH, v, RuleAction.EXCLUDE))
            raw.append(rule_bytes(40071, 5, 0, v, number_of("PATH", v)))
        return out, rules_bytes(raw)
    v = ctx.bytes(tag, size)
    return v, v


# ---------------------------------------------------------------------------- large options
def filled(ctx, tag, size, make, symbolic=3):
    """``size`` elements: the first, the last and the middle ones symbolic, the others fixed and different"""
    spots = sorted(set([0, size // 2, size - 1]))[-symbolic:] if size else []
    return [make(i, i in spots) for i in range(size)]


def big_text(ctx, tag, size, kind="char"):
    """a text of ``size`` characters whose first, middle and last characters are symbolic"""
    out = ""
    run = ""
    spots = set([0, size // 2, size - 1])
    for i in range(size):
        if i in spots:
            out = out + run + ctx.text("%s.%d" % (tag, i), 1, kind)
            run = ""
        else:
            run += chr(0x61 + i % 23)
    return out + run


def big_option(ctx, tag, name, size):
    """-> (value, its stored bytes) of an option with many elements, characters or bytes"""
    if name in PATHS:
        v = big_text(ctx, tag, size)
        return v, wide(v)
    if name in ZPATHS:
        v = big_text(ctx, tag, size)
        return v, zwide(v)
    if name == "Columns":
        v = filled(ctx, tag, size, lambda i, s: ctx.u16("%s.%d" % (tag, i)) if s else (i * 257 + 3) & 0xffff)
        return v, b"".join([u16(x) for x in v])
    if name == "ColumnMap":
        names = list(COLUMN_NUMBERS)
        last = ctx.choice(tag, [0, 6, len(names) - 1])
        v = [names[i % len(names)] for i in range(size - 1)] + [names[last]]
        return [Column[x] for x in v], b"".join([u32(COLUMN_NUMBERS[x]) for x in v])
    if name in RULES:
        out, raw = [], []
        for i in range(size):
            v = ctx.text("%s.%d" % (tag, i), 1, "ascii1") if i in (0, size - 1) else str(i)
            col = "PID" if i % 2 else "PATH"
            rel = list(RELATION_NUMBERS)[i % 8]
            act = list(ACTION_NUMBERS)[i % 3 % 2]
            out.append(Rule(Column[col], RuleRelation[rel], v, RuleAction[act]))
            raw.append(rule_bytes(COLUMN_NUMBERS[col], RELATION_NUMBERS[rel], ACTION_NUMBERS[act], v, number_of(col, v)))
        return out, rules_bytes(raw)
    out, run = b"", b""
    spots = set([0, size // 2, size - 1])
    for i in range(size):
        if i in spots:
            out = out + run + ctx.bytes("%s.%d" % (tag, i), 1)
            run = b""
        else:
            run += u8(i * 7 & 0xff)
    return out + run, out + run


def long_rule(ctx, tag, size):
    """-> (a list with a rule whose value is long, its stored bytes)"""
    v = big_text(ctx, tag, size)
    raw = rule_bytes(40071, 5, 0, v, number_of("PATH", v))
    return [Rule(Column.PATH, RuleRelation.ENDS_WITH, v, RuleAction.EXCLUDE)], rules_bytes([raw])


# where a field, a count or a size crosses a byte (or two)
LARGE = ([("Columns", n) for n in (64, 127, 128, 129, 200)] + [("ColumnMap", n) for n in (63, 64, 65, 100)]
         + [(k, n) for k in PATHS for n in (127, 128, 129, 260, 300)]
         + [(k, n) for k in ZPATHS for n in (126, 127, 128, 260, 300)]
         + [(k, n) for k in RULES for n in (32, 100)] + [(RULES[0], 260)] + [("Other", n) for n in (255, 256, 257, 1000)])
HUGE = ([("Columns", n) for n in (32767, 32768, 32769)] + [("ColumnMap", n) for n in (16383, 16384, 16385)]
        + [(k, n) for k in PATHS[:1] for n in (32767, 32768, 32769)] + [(k, n) for k in ZPATHS[:1] for n in (32766, 32767, 32768)]
        + [(k, n) for k in RULES for n in (255, 256, 257)] + [("Other", n) for n in (65535, 65536, 65537)])
LONG_RULES = (63, 126, 127, 128, 200, 300)
