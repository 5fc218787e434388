"""C15 registry value data"""
from rt.common import Scenario
from spec.large import large
from spec import pml as P, tables as T, zoo
from spec.pml import u16, u32, u64

NOTE = """Bounds: every registry type (and every other 32-bit type number), data of 0..9 arbitrary bytes, names of 0..3
characters, every recorded length consistent with the data, three data offsets, arbitrary bytes around."""

TEXT = (1, 2)


def data_for(ctx, t, n):
    """stored data of type t in n bytes or units, and what it decodes to"""
    if t == 4:
        v = ctx.u32("value")
        return u32(v), v
    if t == 11:
        v = ctx.u64("value")
        return u64(v), v
    if t in TEXT:
        b = ctx.bytes("units", 2 * n)
        return b + b"\0\0", P.units_text(b)
    if t == 7:
        words = [ctx.text("word%d" % i, k) for i, k in enumerate(n)]
        return b"".join([P.wide(w) + b"\0\0" for w in words]) + b"\0\0", words
    b = ctx.bytes("data", n)
    return b, b if t == 3 else ""


def type_name(t):
    return T.REG_TYPE[t] if t in T.REG_TYPE else "<Unknown: %d>" % t


def path_part(ctx, n=1, asc=True):
    return zoo.text(ctx, "path", n, asc)


def set_value(t, n, is64, stored=None, asc=True):
    """RegSetValue holds the data behind the path; stored: how many bytes were captured"""
    def run(ctx):
        data, value = data_for(ctx, t, n)
        inf, raw, s = path_part(ctx, 1, asc)
        d = inf + ctx.bytes("pad", 2) + u32(t) + u32(len(data)) + u32(len(data)) + raw + data
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG["RegSetValue"], details=d, extra=zoo.unused(ctx)) + b"\x11" * 9, is64)
        out = [("Type", type_name(t)), ("Length", len(data))]
        if data and t in T.REG_TYPE:
            out.append(("Data", value))
        ctx.eq(P.view_details(e), P.expect_details("RegSetValue", "Write", s, out), "event")
    return run


def set_partial(is64, t):
    """the recorded length exceeds what was captured: only the captured bytes are data"""
    def run(ctx):
        have = ctx.choice("have", [0, 1, 2, 4])
        more = ctx.u32("length")
        ctx.assume(more >= have)
        b = ctx.bytes("data%d" % have, have)
        inf, raw, s = path_part(ctx)
        d = inf + b"\0\0" + u32(t) + u32(more) + u32(have) + raw + b + ctx.bytes("behind", 3)
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG["RegSetValue"], details=d), is64)
        out = [("Type", type_name(t)), ("Length", more)]
        if have:
            out.append(("Data", b))
        ctx.eq(P.view_details(e), P.expect_details("RegSetValue", "Write", s, out), "event")
    return run


def set_captured_less(is64):
    """the captured length exceeds the value's length: the data is as long as the value"""
    def run(ctx):
        n = ctx.choice("n", [0, 1, 3])
        more = ctx.int("captured", 3, 7)
        b = ctx.bytes("data", 7)
        inf, raw, s = path_part(ctx)
        d = inf + b"\0\0" + u32(3) + u32(n) + u32(more) + raw + b
        e = P.one_event(P.event(is64, cls=2, op=zoo.REG["RegSetValue"], details=d), is64)
        ctx.eq(list(e.details.items()), [("Type", "REG_BINARY"), ("Length", n)] + ([("Data", b[:n])] if n else []),
               "details")
    return run


def head(ctx, op, klass):
    inf, raw, s = path_part(ctx)
    length, index = ctx.u32("length"), ctx.u32("index")
    d = inf + ctx.bytes("pad", 2) + u32(length) + (u32(index) if op == "RegEnumValue" else b"") + u32(klass) + raw
    return d, s, length, ([("Index", index)] if op == "RegEnumValue" else [])


def read(ctx, op, d, extra, is64):
    return P.one_event(P.event(is64, cls=2, op=zoo.REG[op], details=d, extra=extra, gap=b"\x77") + b"\x11" * 9, is64)


def partial(op, t, n, is64):
    def run(ctx):
        d, s, length, out = head(ctx, op, 2)
        data, value = data_for(ctx, t, n)
        extra = ctx.bytes("title", 4) + u32(t) + u32(len(data)) + data
        e = read(ctx, op, d, extra, is64)
        out += [("Type", type_name(t)), ("Length", len(data))]
        if data:
            out.append(("Data", value if t in T.REG_TYPE else ""))
        ctx.eq(P.view_details(e), P.expect_details(op, "Read", s, out), "event")
    return run


def full(op, t, n, is64, nlen, gap):
    """the data lies at its recorded offset from the start of the structure"""
    def run(ctx):
        d, s, length, out = head(ctx, op, 1)
        data, value = data_for(ctx, t, n)
        name = ctx.text("name", nlen)
        off = 20 + 2 * nlen + gap
        extra = (ctx.bytes("title", 4) + u32(t) + u32(off) + u32(len(data)) + u32(2 * nlen) + P.wide(name)
                 + ctx.bytes("gap", gap) + data)
        e = read(ctx, op, d, extra, is64)
        out += [("Name", name), ("Type", type_name(t)), ("Length", len(data))]
        if data:
            out.append(("Data", value if t in T.REG_TYPE else ""))
        ctx.eq(P.view_details(e), P.expect_details(op, "Read", s, out), "event")
    return run


def anywhere(op, is64, t):
    """the data lies where its offset says, even within the fixed part or the name"""
    def run(ctx):
        d, s, length, out = head(ctx, op, 1)
        nlen, n = 2, 8 if t == 11 else 4
        off = ctx.int("offset", 0, 20 + 2 * nlen + 2)
        name, tail = ctx.bytes("name", 2 * nlen), ctx.bytes("tail", 2 + n)
        title = ctx.bytes("title", 4)
        k = ctx.concrete_int(off)
        extra = title + u32(t) + u32(k) + u32(n) + u32(2 * nlen) + name + tail
        e = read(ctx, op, d, extra, is64)
        b = extra[k:k + n]
        if t in (4, 11):
            v = 0
            for i in range(n):
                v += b[i] << (8 * i)
        else:
            v = b
        out += [("Name", P.units_text(name)), ("Type", type_name(t)), ("Length", n), ("Data", v)]
        ctx.eq(P.view_details(e), P.expect_details(op, "Read", s, out), "event")
    return run


def wide_number(op, is64, t):
    """a number's data is its leading bytes, whatever length is recorded for it"""
    def run(ctx):
        size = 4 if t == 4 else 8
        n = ctx.choice("n", [size, size + 1, size + 2, size + 3, 2 * size, 3 * size])
        v = ctx.bits("value", 8 * size)
        data = (u32(v) if t == 4 else u64(v)) + ctx.bytes("more%d" % n, n - size)
        if op == "RegSetValue":
            inf, raw, s = path_part(ctx)
            have = ctx.choice("captured", [n, n + 4])
            d = inf + b"\0\0" + u32(t) + u32(n) + u32(have) + raw + data + b"\1\2\3\4"
            e, out, cat = read(ctx, op, d, None, is64), [], "Write"
        else:
            d, s, length, out = head(ctx, op, 2)
            e, cat = read(ctx, op, d, b"\0\0\0\0" + u32(t) + u32(n) + data, is64), "Read"
        ctx.eq(P.view_details(e), P.expect_details(op, cat, s, out + [("Type", type_name(t)), ("Length", n), ("Data", v)]), "event")
    return run


def raw_full_name(op, is64, n):
    def run(ctx):
        d, s, length, out = head(ctx, op, 1)
        b, v = ctx.bytes("name", 2 * n), ctx.u32("value")
        extra = ctx.bytes("title", 4) + u32(4) + u32(20 + 2 * n) + u32(4) + u32(2 * n) + b + u32(v)
        e = read(ctx, op, d, extra, is64)
        ctx.eq(list(e.details.items()), out + [("Name", P.units_text(b)), ("Type", "REG_DWORD"), ("Length", 4),
                                               ("Data", v)], "details")
    return run


def text_length(op, t, n, end):
    """a string's data may lack its terminator, hold more behind it, or end with the block"""
    def run(ctx):
        d, s, length, out = head(ctx, op, 2)
        b = ctx.bytes("units", 2 * n)
        data = b + end
        e = read(ctx, op, d, ctx.bytes("title", 4) + u32(t) + u32(len(data)) + data, 1)
        out += [("Type", type_name(t)), ("Length", len(data))]
        if data:
            out.append(("Data", P.units_text(b + end)))
        ctx.eq(list(e.details.items()), out, "details")
    return run


def binary_length(op, is64):
    """the recorded length bounds binary data"""
    def run(ctx):
        d, s, length, out = head(ctx, op, 2)
        n = ctx.int("n", 0, 6)
        b = ctx.bytes("data", 6)
        e = read(ctx, op, d, b"\0" * 4 + u32(3) + u32(n) + b, is64)
        k = ctx.concrete_int(n)
        ctx.eq(list(e.details.items()), out + [("Type", "REG_BINARY"), ("Length", k)] + ([("Data", b[:k])] if k else
                                                                                       []), "details")
    return run


def any_type(op, is64):
    def run(ctx):
        t = ctx.u32("type")
        ctx.assume(t > 11)
        if op == "RegSetValue":
            inf, raw, s = path_part(ctx)
            n = ctx.u32("length")
            rec = inf + b"\0\0" + u32(t) + u32(n) + u32(n) + raw + ctx.bytes("data", 4)
            e = read(ctx, op, rec, None, is64)
            ctx.eq(list(e.details.items()), [("Type", type_name_unknown(t)), ("Length", n)], "details")
            return
        d, s, length, out = head(ctx, op, 2)
        n = ctx.choice("n", [0, 4])
        e = read(ctx, op, d, b"\0" * 4 + u32(t) + u32(n) + ctx.bytes("data", n), is64)
        keys = list(e.details.items())
        ctx.eq(keys[:len(out) + 2], out + [("Type", type_name_unknown(t)), ("Length", n)], "details")
        ctx.check(len(keys) <= len(out) + 3, "nothing more than the data")
    return run


def type_name_unknown(t):
    return "<Unknown: %d>" % t


def no_extra(op, is64):
    def run(ctx):
        klass = ctx.choice("class", list(T.REG_VALUE_CLASS))
        d, s, length, out = head(ctx, op, klass)
        e = read(ctx, op, d, None, is64)
        ctx.eq(P.view_details(e), P.expect_details(op, "Read", s, out + [("Length", length)]), "event")
    return run


def other_class(op, is64):
    """classes without data still give the type"""
    def run(ctx):
        klass = ctx.u32("class")
        ctx.assume(klass != 1)
        ctx.assume(klass != 2)
        t = ctx.choice("type", list(T.REG_TYPE))
        d, s, length, out = head(ctx, op, klass)
        r = ctx.outcome(read, ctx, op, d, b"\0" * 4 + u32(t) + ctx.bytes("x", 8), is64)
        ctx.check(r.ok, "a class number does not make the event unreadable")
        ctx.eq(P.view_details(r.value), P.expect_details(op, "Read", s, out + [("Type", type_name(t))]), "event")
    return run


def unknown_class_no_extra(op, is64):
    def run(ctx):
        klass = ctx.u32("class")
        ctx.assume(klass > 5)
        d, s, length, out = head(ctx, op, klass)
        r = ctx.outcome(read, ctx, op, d, None, is64)
        ctx.check(r.ok, "a class number does not make the event unreadable")
        ctx.eq(P.view_details(r.value), P.expect_details(op, "Read", s, out + [("Length", length)]), "event")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    sizes = {1: (0, 1, 2), 2: (0, 1, 2), 3: (0, 1, 2, 9), 4: (0,), 11: (0,), 7: ((1,), (2, 1), (1, 1, 2))}
    if deep:
        sizes.update({1: (0, 1, 2, 3), 3: (0, 1, 2, 3, 9, 64), 7: ((1,), (2, 1), (1, 1, 2), (3, 3, 3, 3))})
    for is64 in (0, 1):
        for t in T.REG_TYPE:
            for n in sizes.get(t, (0, 3)):
                tag = "".join(map(str, n)) if isinstance(n, tuple) else str(n)
                out.append(Scenario("RegSetValue-%d-%d-%s" % (is64, t, tag), set_value(t, n, is64), "all data"))
                out.append(Scenario("RegSetValue-%d-%d-%s-w" % (is64, t, tag), set_value(t, n, is64, asc=False),
                                    "all data"))
                for op in ("RegQueryValue", "RegEnumValue"):
                    out.append(Scenario("%s-%d-%d-%s-partial" % (op, is64, t, tag), partial(op, t, n, is64),
                                        "all data"))
                    for nlen, gap in ((0, 0), (1, 2), (3, 0)) if not isinstance(n, int) or n < 2 else ((1, 2),):
                        out.append(Scenario("%s-%d-%d-%s-full%d%d" % (op, is64, t, tag, nlen, gap),
                                            full(op, t, n, is64, nlen, gap), "all data"))
        for t, ns in ((1, (126, 127, 128, 255, 256)), (2, (127, 300)), (3, (127, 128, 255, 256, 257, 32768, 65535)),
                      (7, ((60, 70), (126,), (130, 255), (5,) * 60, (2,) * 300)), (0, (300,))):
            for n in ns:
                tag = "_".join(map(str, n[:4])) if isinstance(n, tuple) else str(n)
                out.append(Scenario("large-set-%d-%d-%s" % (is64, t, tag), large(set_value(t, n, is64)), "large data",
                                    steps=400000))
                if isinstance(n, int) and n > 60000:
                    n -= 100
                for op in ("RegQueryValue", "RegEnumValue"):
                    out.append(Scenario("large-%s-%d-%d-%s" % (op, is64, t, tag), large(partial(op, t, n, is64)), "large data",
                                        steps=400000))
                    if isinstance(n, tuple) or n < 60000:
                        out.append(Scenario("large-full-%s-%d-%d-%s" % (op, is64, t, tag),
                                            large(full(op, t, n, is64, 120 if t == 3 else 130, 6 if t == 1 else 260)),
                                            "large data, long names", steps=400000))
        out.append(Scenario("large-set-%d-7-33000" % is64, large(set_value(7, (33000, 1), is64)), "large data", steps=4000000))
        for n in (66000, 131072):
            out.append(Scenario("large-set-%d-3-%d" % (is64, n), large(set_value(3, n, is64)), "large data", steps=400000))
        out.append(Scenario("RegSetValue-%d-partial" % is64, set_partial(is64, 3), "every length"))
        out.append(Scenario("RegSetValue-%d-less" % is64, set_captured_less(is64), "lengths of 0, 1, 3"))
        for op in ("RegSetValue", "RegQueryValue", "RegEnumValue"):
            for t in (4, 11):
                out.append(Scenario("%s-%d-wide-%d" % (op, is64, t), wide_number(op, is64, t), "recorded lengths from the number's size on"))
            for t in (3, 4, 11) if op != "RegSetValue" else ():
                out.append(Scenario("%s-%d-anywhere-%d" % (op, is64, t), anywhere(op, is64, t), "every offset in the block"))
            out.append(Scenario("%s-%d-any-type" % (op, is64), any_type(op, is64), "every unknown type number"))
            if op != "RegSetValue":
                out.append(Scenario("%s-%d-none" % (op, is64), no_extra(op, is64), "every class"))
                out.append(Scenario("%s-%d-other" % (op, is64), other_class(op, is64), "every other class number"))
                out.append(Scenario("%s-%d-unknown-none" % (op, is64), unknown_class_no_extra(op, is64),
                                    "every unknown class number"))
                out.append(Scenario("%s-%d-binary" % (op, is64), binary_length(op, is64), "lengths 0..6"))
                for n in (1, 2):
                    out.append(Scenario("%s-%d-raw%d" % (op, is64, n), raw_full_name(op, is64, n),
                                        "%d arbitrary units" % n))
    for op in ("RegQueryValue", "RegEnumValue"):
        for t in TEXT:
            for n in (0, 1, 2):
                for j, end in enumerate((b"", b"\0\0x\0", b"\0\0\0\0")):
                    out.append(Scenario("%s-text-%d-%d-%d" % (op, t, n, j), text_length(op, t, n, end),
                                        "%d arbitrary units" % n))
    return out
