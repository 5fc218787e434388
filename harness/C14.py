"""C14 registry key query and enumeration"""
from rt.common import Scenario
from spec.large import large
from spec import pml as P, tables as T, zoo
from spec.pml import u32

NOTE = """Bounds: every information class (every 32-bit class number for unknown ones), names of 0..3 characters, every
value of every number, and arbitrary bytes behind the structure."""


def build(ctx, is64, op, klass, extra, n=1, asc=False):
    inf, raw, s = zoo.text(ctx, "path", n, asc)
    length, index = ctx.u32("length"), ctx.u32("index")
    d = inf + ctx.bytes("pad", 2) + u32(length) + (u32(index) if op == "RegEnumKey" else b"") + u32(klass) + raw
    rec = P.event(is64, cls=2, op=zoo.REG[op], details=d, extra=extra, gap=ctx.bytes("gap", 2))
    return rec + b"\x66" * 4, s, length, index


def first(op, klass, index):
    return [("Index", index)] if op == "RegEnumKey" else [("Query", T.REG_KEY_CLASS[klass])]


def struct_case(op, klass, is64, n, asc):
    def run(ctx):
        extra, out = zoo.key_struct(ctx, zoo.KEY_FIELDS[klass], n)
        extra += ctx.bytes("more", 3)
        rec, s, length, index = build(ctx, is64, op, klass, extra, 1, asc)
        e = P.one_event(rec, is64)
        ctx.eq(P.view_details(e), P.expect_details(op, "Read", s, first(op, klass, index) + out), "event")
    return run


def raw_name(op, klass, is64, n):
    """arbitrary stored units in the structure's name"""
    def run(ctx):
        fields = [f for f in zoo.KEY_FIELDS[klass] if f[1] != "name"]
        extra, out = zoo.key_struct(ctx, fields, 0)
        b = ctx.bytes("name", 2 * n)
        extra += u32(2 * n) + b + b"t\0t\0"
        rec, s, length, index = build(ctx, is64, op, klass, extra)
        e = P.one_event(rec, is64)
        ctx.eq(P.view_details(e), P.expect_details(op, "Read", s, first(op, klass, index) + out
                                                   + [("Name", P.units_text(b))]), "event")
    return run


def no_extra(op, klass, is64):
    def run(ctx):
        rec, s, length, index = build(ctx, is64, op, klass, None)
        e = P.one_event(rec, is64)
        ctx.eq(P.view_details(e), P.expect_details(op, "Read", s, first(op, klass, index) + [("Length", length)]),
               "event")
    return run


def unknown_class(op, is64, has_extra):
    def run(ctx):
        klass = ctx.u32("class")
        ctx.assume(klass > 9)
        rec, s, length, index = build(ctx, is64, op, klass, ctx.bytes("x", 8) if has_extra else None)
        out = ctx.outcome(P.one_event, rec, is64)
        ctx.check(out.ok, "an unknown class does not make the event unreadable")
        e = out.value
        ctx.eq((e.operation, e.category, e.path), (op, "Read", s), "event")
        if op == "RegEnumKey":
            ctx.eq(e.details["Index"], index, "index")
        else:
            ctx.check(not any(e.details["Query"] == T.REG_KEY_CLASS[k] for k in T.REG_KEY_CLASS), "not misnamed")
        if not has_extra:
            ctx.eq(e.details["Length"], length, "length")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        for op in ("RegQueryKey", "RegEnumKey"):
            for klass in T.REG_KEY_CLASS:
                named = any(k == "name" for _, k in zoo.KEY_FIELDS[klass])
                for n in ((0, 1, 3) + ((8,) if deep else ()) if named else (0,)):
                    for asc in (True, False):
                        out.append(Scenario("%s-%d-%d-%d-%d" % (op, is64, klass, n, asc),
                                            struct_case(op, klass, is64, n, asc), "every field value"))
                for n in (127, 128, 255, 256, 300, 16500) + ((16000, 32000) if deep else ()) if named else ():
                    out.append(Scenario("%s-%d-%d-long-%d" % (op, is64, klass, n), large(struct_case(op, klass, is64, n, n % 2 == 0)),
                                        "names of %d characters" % n, steps=2000000))
                if named:
                    for n in (1, 2) + ((3,) if deep else ()):
                        out.append(Scenario("%s-%d-%d-raw%d" % (op, is64, klass, n), raw_name(op, klass, is64, n),
                                            "%d arbitrary units" % n))
                out.append(Scenario("%s-%d-%d-none" % (op, is64, klass), no_extra(op, klass, is64), "every length"))
            for x in (0, 1):
                out.append(Scenario("%s-%d-unknown-%d" % (op, is64, x), unknown_class(op, is64, x),
                                    "every unknown class number"))
    return out
