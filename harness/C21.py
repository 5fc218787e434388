"""C21 directory enumeration and change notification"""
from rt.common import Scenario
from spec.large import large
from spec import masks as M, pml as P, tables as T, zoo
from spec.pml import u8, u16, u32, wide, dstr

NOTE = """Bounds: paths and filters of 0..3 characters in both encodings, with and without a trailing backslash; every
information class value; chains of 0..3 entries of every directory structure, names of 0..3 characters, gaps of 0..9
bytes, the other fields arbitrary, the last offset zero or any value at or beyond the end of the block.  Entries cut by
the end of the block are outside."""

ENTRIES = sorted(zoo.DIR_FIXED)


def record(ctx, is64, s, asc, flt, fasc, klass, extra):
    inf, raw = dstr(s, asc)
    finf, fraw = dstr(flt, fasc)
    blk = zoo.blob(ctx, is64, {zoo.at(is64, 0x14, 0x1c): u32(klass)})
    return P.event(is64, cls=3, op=zoo.FS["DirectoryControl"],
                   details=zoo.fs_details(ctx, 1, blk, inf, raw, finf + fraw), extra=extra)


def joined(s, flt):
    if flt == "":
        return s
    return s + flt if s.endswith("\\") else s + "\\" + flt


def names_and_class(is64, n, asc, m, fasc, extra):
    """every class value; the block is arbitrary where the class holds no entries"""
    def run(ctx):
        s, flt = ctx.text("path", n, "ascii" if asc else "char"), ctx.text("filter", m, "ascii" if fasc else "char")
        klass = ctx.u32("class")
        if extra:
            for k in ENTRIES:
                ctx.assume(klass != k)
        e = P.one_event(record(ctx, is64, s, asc, flt, fasc, klass, ctx.bytes("x", extra) if extra else None), is64)
        ctx.eq((e.operation, e.category, e.path), ("QueryDirectory", "Read Metadata", joined(s, flt)), "event")
        keys = ["Filter"] if m else []
        ctx.eq(list(e.details.keys()), keys + ["FileInformationClass"], "fields")
        if m:
            ctx.eq(e.details["Filter"], flt, "filter")
        if klass in T.FILE_CLASS:
            ctx.eq(e.details["FileInformationClass"], T.FILE_CLASS[klass], "class")
    return run


def chain(is64, klass, names, gaps, m, last):
    """last: None for a zero offset, 'far' for any offset at or past the end of the block"""
    def run(ctx):
        s, flt = ctx.text("path", 2), ctx.text("filter", m, "ascii")
        values = [ctx.text("entry%d" % i, n) for i, n in enumerate(names)]
        extra = zoo.directory_entries(ctx, klass, values, gaps)
        if last == "far":
            total = len(extra)
            start = total - zoo.DIR_FIXED[klass] - 2 * names[-1]
            nxt = ctx.u32("next")
            ctx.assume(nxt >= total - start)
            extra = extra[:start] + u32(nxt) + extra[start + 4:]
        elif last:
            extra += ctx.bytes("tail", last)
        e = P.one_event(record(ctx, is64, s, False, flt, True, klass, extra), is64)
        out = [("Filter", flt)] if m else []
        out.append(("FileInformationClass", T.FILE_CLASS[klass]))
        for i, v in enumerate(values):
            out.append((str(i + (1 if m else 0)), v))
        ctx.eq(P.view_details(e), P.expect_details("QueryDirectory", "Read Metadata", joined(s, flt), out), "event")
    return run


def empty_block(is64, klass):
    """a directory query that returned no bytes at all"""
    def run(ctx):
        s = ctx.text("path", 2)
        e = P.one_event(record(ctx, is64, s, False, "", False, klass, b""), is64)
        ctx.eq(P.view_details(e), P.expect_details("QueryDirectory", "Read Metadata", s,
                                                   [("FileInformationClass", T.FILE_CLASS[klass])]), "event")
    return run


def notify(is64, n, asc):
    def run(ctx):
        inf, raw, s = zoo.text(ctx, "path", n, asc)
        mask = ctx.u32("filter")
        blk = zoo.blob(ctx, is64, {zoo.at(is64, 0x10, 0x14): u32(mask)})
        e = P.one_event(P.event(is64, cls=3, op=zoo.FS["DirectoryControl"], details=zoo.fs_details(
            ctx, 2, blk, inf, raw, ctx.bytes("rest", 3))), is64)
        ctx.eq(P.view_details(e), P.expect_details("NotifyChangeDirectory", "Read Metadata", s,
                                                   [("Filter", M.notify(mask))]), "event")
    return run


def many_entries(is64, klass, n, m):
    """many entries, of which the first and the last have arbitrary names"""
    def run(ctx):
        s = ctx.text("path", 2)
        values = ["name%d" % i for i in range(n)]
        values[0], values[-1] = ctx.text("first", 2), ctx.text("last", 2)
        flt = "*" * m
        e = P.one_event(record(ctx, is64, s, False, flt, True, klass, zoo.directory_entries(ctx, klass, values)), is64)
        out = [("Filter", flt)] if m else []
        out.append(("FileInformationClass", T.FILE_CLASS[klass]))
        for i, v in enumerate(values):
            out.append((str(i + (1 if m else 0)), v))
        ctx.eq(P.view_details(e), P.expect_details("QueryDirectory", "Read Metadata", joined(s, flt), out), "event")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        for n, asc in ((0, False), (1, True), (3, False), (3, True)) + (((7, False),) if deep else ()):
            for m, fasc in ((0, False), (1, False), (2, True)) + (((5, False),) if deep else ()):
                out.append(Scenario("query-%d-%d%d-%d%d" % (is64, n, asc, m, fasc),
                                    names_and_class(is64, n, asc, m, fasc, 0), "every class value", weight=3))
            out.append(Scenario("notify-%d-%d%d" % (is64, n, asc), notify(is64, n, asc), "every change filter"))
        for n, m in ((127, 3), (3, 128), (256, 255), (300, 300)):
            out.append(Scenario("long-query-%d-%d-%d" % (is64, n, m), large(names_and_class(is64, n, n % 2 == 0, m, m % 2 == 1, 0)),
                                "long paths and filters", steps=400000))
            out.append(Scenario("long-notify-%d-%d" % (is64, n), large(notify(is64, n, n % 2 == 0)), "long paths"))
        out.append(Scenario("query-extra-%d" % is64, names_and_class(is64, 1, False, 1, True, 7),
                            "every class without entries, any block"))
        for klass in ENTRIES:
            for n in (20, 130, 257) if klass in (12, 37) or deep else (40,):
                out.append(Scenario("many-%d-%d-%d" % (is64, klass, n), many_entries(is64, klass, n, n % 2), "%d entries" % n,
                                    steps=400000))
            for names in ((127, 2), (1, 128, 1), (255, 256)):
                out.append(Scenario("long-%d-%d-%s" % (is64, klass, "_".join(map(str, names))), large(chain(
                    is64, klass, names, None, len(names) % 2, None)), "long names", steps=400000))
            out.append(Scenario("empty-%d-%d" % (is64, klass), empty_block(is64, klass), "no bytes returned"))
            for names, gaps in (((1,), None), ((0,), None), ((2, 0, 3), None), ((1, 0), None), ((1, 2), (0,)), ((3, 1, 1), (9, 2))) + (
                    (((4, 3, 2, 1, 5), None), ((8, 9), (1,))) if deep else ()):
                gaps = None if gaps is None else list(gaps) + [0]
                for m in (0, 1):
                    for last in (None, 5, "far"):
                        out.append(Scenario("chain-%d-%d-%s-%s-%d-%s" % (is64, klass, "".join(map(str, names)),
                                                                         gaps is None, m, last),
                                            chain(is64, klass, names, gaps, m, last), "%d entries" % len(names)))
    return out
