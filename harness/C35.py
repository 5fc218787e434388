"""C35 construction and integer value of rules"""
from collections import OrderedDict

from procmon_parser import dumps_configuration, loads_configuration
from procmon_parser.configuration import Rule
from procmon_parser.consts import Column, RuleAction, RuleRelation
from rt.common import Scenario
from spec import pmc as C

NOTE = """Bounds: every name of every enumeration in every letter case, every ASCII text of 0 to 4 (thorough 6) characters as a
name, every number of up to 40 bits and every member; value texts of 0 to 3 characters with all code points but lone
surrogates and NUL, and decimal numerals of 9 to 11 digits. Outside: values of over 4300 digits."""

TABLES = {"column": C.COLUMN_NUMBERS, "relation": C.RELATION_NUMBERS, "action": C.ACTION_NUMBERS}
ENUMS = {"column": Column, "relation": RuleRelation, "action": RuleAction}
FIELDS = ("column", "relation", "action")


def make(**over):
    f = dict(column="PATH", relation="CONTAINS", value="v", action="EXCLUDE")
    f.update(over)
    return Rule(**f)


def expect(ctx, r, field, name, value="v"):
    """r is the rule that has this name for this field"""
    names = dict(column="PATH", relation="CONTAINS", action="EXCLUDE")
    names[field] = name
    ctx.eq((r.column.name, r.relation.name, r.action.name, r.value),
           (names["column"], names["relation"], names["action"], value), "normalised")
    ctx.check(isinstance(r.column, Column) and isinstance(r.relation, RuleRelation) and isinstance(r.action, RuleAction),
              "members")
    for f in FIELDS:
        ctx.eq(int(getattr(r, f)), TABLES[f][names[f]], "number of " + f)


def cased(ctx, tag, name):
    """the name in an arbitrary letter case"""
    t = ctx.text(tag, len(name), "ascii1")
    for i, c in enumerate(name):
        ctx.assume(ctx.either(t[i] == c, t[i] == c.lower()))
    return t


def by_name(field, name):
    def run(ctx):
        r = make(**{field: cased(ctx, "case", name)})
        expect(ctx, r, field, name)
    return run


def spellings(field, name):
    """all spellings give equal rules that hash and dump alike"""
    def run(ctx):
        v = ctx.text("value", 1, "ascii1")
        rs = [make(value=v, **{field: x}) for x in (name, name.lower(), name.title(), ENUMS[field][name], TABLES[field][name])]
        raw = [dumps_configuration({"FilterRules": [r]}) for r in rs]
        for r, b in zip(rs, raw):
            expect(ctx, r, field, name, v)
            ctx.check(r == rs[0], "equal")
            ctx.check(not (r != rs[0]), "not unequal")
            ctx.check(hash(r) == hash(rs[0]), "hash")
            ctx.eq(b, raw[0], "dump")
    return run


def any_name(field, n):
    """any ASCII text as the name"""
    def run(ctx):
        t = ctx.text("name", n, "ascii") if n else ""
        want = None
        for k in TABLES[field]:
            if len(k) == n and t.upper() == k:
                want = k
                break
        r = ctx.outcome(make, **{field: t})
        if want is None:
            ctx.check(r.is_err(), "unknown name accepted")
            ctx.cover("unknown name")
        else:
            ctx.check(r.ok, "name refused")
            expect(ctx, r.value, field, want)
            ctx.cover("known name")
    return run


def near_name(field, name):
    """a name with a character more, less or replaced"""
    def run(ctx):
        how = ctx.choice("how", ["prefix", "suffix", "replace", "space", "drop"])
        c = ctx.text("c", 1, "ascii")
        if how == "prefix":
            t = c + name
        elif how == "suffix":
            t = name + c
        elif how == "space":
            t = name.replace("_", " ")
        elif how == "drop":
            t = name[:-1]
        else:
            i = ctx.choice("at", list(range(len(name))))
            ctx.assume(c.upper() != name[i])
            t = name[:i] + c + name[i + 1:]
        for k in TABLES[field]:
            if t.upper() == k:
                return
        ctx.check(ctx.outcome(make, **{field: t}).is_err(), "unknown name accepted")
    return run


def alike(field, name):
    """other ways to write the words of a name are no names"""
    def run(ctx):
        words = name.split("_")
        sep = ctx.text("sep", 1, "ascii")
        ctx.assume(ord(sep) != 0x5f)
        t = ctx.choice("text", [sep.join(words) if len(words) > 1 else sep, "".join(words) if len(words) > 1 else "",
                                " " + name, name + " ", name + "\0", " ".join(words) + " ", "__".join(words) + "_",
                                name + "S", name + "_", "_" + name, field + "." + name, field.title() + "." + name, name[::-1],
                                words[0] if len(words) > 1 else name * 2, str(TABLES[field][name]), name[1:], '"%s"' % name])
        for k in TABLES[field]:
            if t.upper() == k:
                return
        ctx.check(ctx.outcome(make, **{field: t}).is_err(), "unknown name accepted")
    return run


def by_number(field, lo, hi):
    def run(ctx):
        n = ctx.int("number", lo, hi)
        want = None
        for k, v in TABLES[field].items():
            if n == v:
                want = k
                break
        r = ctx.outcome(make, **{field: n})
        if want is None:
            ctx.check(r.is_err(), "unknown number accepted")
        else:
            ctx.check(r.ok, "number refused")
            expect(ctx, r.value, field, want)
    return run


def not_a_member(field):
    def run(ctx):
        v = ctx.choice("value", [None, b"PATH", (), [], {}, 0.5, object(), -1])
        ctx.check(ctx.outcome(make, **{field: v}).is_err(), "accepted")
    return run


def not_text(ctx):
    v = ctx.choice("value", [None, b"x", 5, 0, True, 2.5, (), ["x"], Column.PID, object()])
    ctx.check(ctx.outcome(make, value=v).is_err(TypeError), "value that is no text accepted")
    ctx.check(ctx.outcome(make, value=ctx.u32("n")).is_err(TypeError), "number accepted")
    ctx.check(ctx.outcome(make, value=ctx.bytes("b", 2)).is_err(TypeError), "bytes accepted")


def defaults(ctx):
    r = Rule()
    ctx.eq((r.column.name, r.relation.name, r.value, r.action.name), ("ARCHITECTURE", "IS", "64-bit", "INCLUDE"), "defaults")
    v = ctx.text("v", 1, "any")
    s = Rule("pid", "is_not", v, "exclude")
    ctx.eq((s.column.name, s.relation.name, s.value, s.action.name), ("PID", "IS_NOT", v, "EXCLUDE"), "positional")


def stored(ctx, column, v):
    """the value is stored with its number, and any value can be dumped"""
    raw = dumps_configuration({"FilterRules": [make(column=column, value=v)]})
    want = C.rule_bytes(C.COLUMN_NUMBERS[column], 6, 0, v, C.number_of(column, v))
    ctx.eq(raw, C.record("FilterRules", C.rules_bytes([want])), "stored integer")
    back = loads_configuration(raw)
    ctx.check(back["FilterRules"] == [make(column=column, value=v)], "loaded rule")


def value(column, n, kind):
    def run(ctx):
        stored(ctx, column, ctx.text("value", n, kind) if n else "")
    return run


def numeral(column, digits):
    def run(ctx):
        v = ""
        for i in range(digits):
            d = ctx.u8("d%d" % i)
            ctx.assume(d < 10)
            v = v + chr(48 + d)
        n = int(v)
        if n >= 1 << 32:
            n = (32 if "32" in v else 64) if column == "ARCHITECTURE" else 0
        raw = dumps_configuration({"FilterRules": [make(column=column, value=v)]})
        ctx.eq(raw, C.record("FilterRules", C.rules_bytes([C.rule_bytes(C.COLUMN_NUMBERS[column], 6, 0, v, n)])), "stored")
    return run


def architecture(before, after, kind):
    """32 anywhere in the text"""
    def run(ctx):
        a = ctx.text("a", before, kind) if before else ""
        b = ctx.text("b", after, kind) if after else ""
        mid = ctx.choice("middle", ["32", "64", "32-bit", "64-bit", "3", ""])
        stored(ctx, "ARCHITECTURE", a + mid + b)
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for f in FIELDS:
        for k in TABLES[f]:
            out.append(Scenario("case-%s-%s" % (f, k), by_name(f, k), "every letter case"))
            out.append(Scenario("spellings-%s-%s" % (f, k), spellings(f, k), "name, lower case, title case, member, number"))
            out.append(Scenario("like-%s-%s" % (f, k), alike(f, k), "other spellings of the words of the name"))
            if deep or k in ("PID", "PATH", "IS", "IS_NOT", "INCLUDE", "EXCLUDE", "NONE", "TIME_OF_DAY", "DATE_AND_TIME"):
                out.append(Scenario("near-%s-%s" % (f, k), near_name(f, k), "names with one character changed"))
        for n in range(7 if deep else 5):
            out.append(Scenario("name-%s-%d" % (f, n), any_name(f, n), "every ASCII text of %d characters" % n))
        out.append(Scenario("number-%s" % f, by_number(f, 0, 1 << 40), "every number below 2^40"))
        out.append(Scenario("negative-%s" % f, by_number(f, -(1 << 40), -1), "every negative number above -2^40"))
        out.append(Scenario("other-%s" % f, not_a_member(f), "other types"))
    out.append(Scenario("not-text", not_text, "values that are no text"))
    out.append(Scenario("defaults", defaults, "defaults and positional arguments"))
    cols = list(C.COLUMN_NUMBERS) if deep else ["PATH", "PID", "ARCHITECTURE", "NONE"]
    for c in cols:
        for n in range(3):
            out.append(Scenario("value-%s-%d" % (c, n), value(c, n, "any"), "every text of %d characters" % n))
        out.append(Scenario("value-%s-3" % c, value(c, 3, "ascii1"), "every ASCII text of 3 characters"))
        for n in (9, 10, 11):
            out.append(Scenario("numeral-%s-%d" % (c, n), numeral(c, n), "every numeral of %d digits" % n))
    for a, b in [(0, 0), (1, 0), (0, 1), (1, 1)] + ([(2, 0), (0, 2), (2, 2)] if deep else []):
        out.append(Scenario("architecture-%d-%d" % (a, b), architecture(a, b, "ascii1"), "ASCII text around 32 or 64"))
    return out
