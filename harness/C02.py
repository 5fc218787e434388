"""C02 string table"""
import itertools

from rt.common import Scenario
from spec import pml as P

NOTE = """Bounds: tables of 1 to 4 strings of 0 to 4 (thorough 5) arbitrary code units in every order of storage, strings of up to
32768 (65536) units with four arbitrary ones, tables of 127 to 65540 strings with three arbitrary ones, every 32-bit
index, two orders of the tables."""

FIELDS = ("integrity", "user", "process_name", "image_path", "command_line", "company", "version", "description")


def contents(units, nstr, which):
    """string number `which` has arbitrary units, the others are fixed"""
    def run(ctx):
        raws = [P.wide("s%d" % i) for i in range(nstr)]
        raws[which] = ctx.bytes("raw", 2 * units)
        order = ctx.choice("order", list(itertools.permutations(range(nstr))))
        gap = ctx.choice("gap", [b"", b"\xff\xd8", b"x" * 3])
        exp = [P.units_text(r) for r in raws]
        pick = [ctx.choice("pick", list(range(nstr)))] + [which] * 7
        rec = P.default_process(1, **dict(zip(FIELDS, pick)))
        r = P.reader(P.pml(procs=[rec], tables={"S": P.string_table(raws, order, gap)}))
        p = r.processes()[0]
        for k, i in zip(FIELDS, pick):
            ctx.eq(getattr(p, k), exp[i], k)
    return run


def lengths(n, layout):
    def run(ctx):
        s = ctx.text("head", 2) + "-" * (n - 4) + ctx.text("tail", 2, "any")
        extra = ctx.choice("terminated", [b"", b"\0\0", b"\0\0A\0"])
        nxt = ctx.text("next", 2)
        raws = [P.wide("a"), P.wide(s) + extra, P.wide(nxt)]
        rec = P.default_process(1, integrity=0, user=1, process_name=2, image_path=1, command_line=2, company=0,
                                version=0, description=0)
        r = P.reader(P.pml(procs=[rec], tables={"S": P.string_table(raws)}, layout=layout, gaps={"S": b"zz"}))
        p = r.processes()[0]
        ctx.eq([p.integrity, p.user, p.process_name, p.image_path], ["a", s, nxt, s], "strings")
    return run


def index(nstr):
    def run(ctx):
        """an arbitrary index"""
        i = ctx.u32("index")
        vals = [ctx.text("s%d" % k, 1) for k in range(nstr)]
        where = ctx.choice("field", list(FIELDS) + ["module"])
        f = dict((k, 0) for k in FIELDS)
        mods = []
        if where == "module":
            mods = [P.module_record(1, company=i)]
        else:
            f[where] = i
        out = ctx.outcome(P.reader, P.pml(procs=[P.default_process(1, modules=mods, **f)], strings=vals))
        ctx.check((i < nstr) == out.ok, "an index outside the table is an error")
        if out.ok:
            p = out.value.processes()[0]
            got = p.modules[0].company if where == "module" else getattr(p, where)
            for k in range(nstr):
                ctx.check(ctx.either(i != k, got == vals[k]), "string %d" % k)
    return run


def shared_offset(ctx):
    """two indexes may share one stored string"""
    s = ctx.text("s", 2)
    raw = P.wide(s)
    table = P.u32(3) + P.u32(16) + P.u32(16) + P.u32(16) + P.u32(len(raw)) + raw
    p = P.reader(P.pml(procs=[P.default_process(1, **dict((k, i % 3) for i, k in enumerate(FIELDS)))],
                       tables={"S": table})).processes()[0]
    ctx.eq([getattr(p, k) for k in FIELDS], [s] * 8, "shared string")


def many(n, layout):
    """a table of many strings, named from all over it"""
    def run(ctx):
        spots = sorted(set([0, n // 2, n - 2, n - 1] + [k for k in (127, 128, 255, 256) if k < n]))
        strings = ["s%d" % i for i in range(n)]
        for i in (spots[0], spots[1], spots[-1]):
            strings[i] = ctx.text("s%d" % i, 2)
        ref = [spots[i % len(spots)] for i in range(8)]
        p = P.reader(P.pml(procs=[P.default_process(1, **dict(zip(FIELDS, ref)))], strings=strings,
                           layout=layout)).processes()[0]
        ctx.eq([getattr(p, k) for k in FIELDS], [strings[i] for i in ref], "strings")
        bad = ctx.u32("bad")
        ctx.assume(bad >= n)
        ctx.assume(bad < 1 << 31)
        out = ctx.outcome(P.reader, P.pml(procs=[P.default_process(1, user=bad)], strings=strings, layout=layout))
        ctx.check(not out.ok, "index outside the table")
    return run


def huge(n):
    """a very long string, another behind it"""
    def run(ctx):
        s = "0123456789abcdef" * (n // 16) + "x" * (n % 16)
        s = s[:n - 1] + ctx.text("b", 1, "char")
        t = ctx.text("next", 2, "char")
        p = P.reader(P.pml(procs=[P.default_process(1, **dict((k, i % 3) for i, k in enumerate(FIELDS)))],
                           strings=["", s, t])).processes()[0]
        ctx.eq([getattr(p, k) for k in FIELDS], [["", s, t][i % 3] for i in range(8)], "strings")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for units in range(0, 5 if deep else 4):
        for nstr in (1, 2, 3):
            for which in range(nstr):
                out.append(Scenario("contents-%d-%d-%d" % (units, nstr, which), contents(units, nstr, which),
                                    "%d arbitrary code units, %d strings, all file orders" % (units, nstr),
                                    weight=units * nstr))
    for n in (4, 5, 127, 128, 129, 255, 256) + ((1000, 4096) if deep else ()):
        for layout in ("OPSH", "SOPH"):
            out.append(Scenario("length-%d-%s" % (n, layout), lengths(n, layout),
                                "%d characters, 4 arbitrary at the ends, then an arbitrary string" % n))
    for n in (32767, 32768) + ((32769, 65536) if deep else ()):
        out.append(Scenario("huge-%d" % n, huge(n), "%d characters, the last arbitrary" % n, weight=5,
                            steps=1000000))
    for n in (127, 128, 129, 255, 256, 257, 300, 1025, 4100, 65540) + ((5000,) if deep else ()):
        out.append(Scenario("many-%d" % n, many(n, "OPSH" if n % 2 else "SOPH"), "%d strings, 3 of them arbitrary" % n,
                            weight=2 + n // 1000, steps=100000 + n * 100))
    for nstr in (1, 2, 4):
        out.append(Scenario("index-%d" % nstr, index(nstr), "all 32-bit indexes into %d arbitrary strings" % nstr))
    out.append(Scenario("shared", shared_offset, "2 arbitrary characters"))
    return out
