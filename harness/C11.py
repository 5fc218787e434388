"""C11 network operation, length and key/value details"""
from collections import OrderedDict

from rt.common import Scenario
from spec.large import large
from spec import pml as P, tables as T, zoo
from spec.pml import u16, u32

NOTE = """Bounds: 0..5 stored words of 0..3 characters, arbitrary contents, with and without the final terminator;
every flag word, length and network operation."""


def fixed(ctx, flags=3, length=0):
    ip = ctx.bytes("sip", 4) + ctx.bytes("s.rest", 12), ctx.bytes("dip", 4) + ctx.bytes("d.rest", 12)
    return u16(flags) + ctx.bytes("pad", 2) + u32(length) + ip[0] + ip[1] + u16(ctx.u16("sp")) + u16(ctx.u16("dp"))


def operation(is64, op):
    def run(ctx):
        flags, length = ctx.u16("flags") | 3, ctx.u32("length")
        e = P.one_event(P.event(is64, cls=5, op=op, details=fixed(ctx, flags, length) + b"\0\0\0\0", extra=zoo.unused(ctx)), is64)
        ctx.eq(e.operation, ("TCP " if flags & 4 != 0 else "UDP ") + T.OPERATIONS[5][op], "operation")
        ctx.eq((list(e.details.items())[0], e.category), (("Length", length), ""), "length")
    return run


def pairs(words):
    out = OrderedDict()
    for i in range(len(words) // 2):
        out[words[2 * i]] = words[2 * i + 1]
    return out


def words_case(is64, lens, end):
    """distinct names; end: stored bytes after the last word's terminator; None drops that terminator too"""
    def run(ctx):
        words = [ctx.text("w%d" % i, n) for i, n in enumerate(lens)]
        names = words[0::2]
        for i, a in enumerate(names):
            ctx.assume(a != "Length")
            for b in names[:i]:
                ctx.assume(a != b)
        length = ctx.u32("length")
        d = fixed(ctx, 7, length) + b"".join([P.wide(w) + b"\0\0" for w in words])
        d = d[:len(d) - 2] if end is None else d + end
        e = P.one_event(P.event(is64, cls=5, op=4, details=d) + b"q\0q\0q\0q\0", is64)
        expect = [("Length", length)] + list(pairs(words).items())
        ctx.eq(list(e.details.items()), expect, "details")
    return run


def raw_block(is64, n):
    """arbitrary stored units: words end at a zero unit, the list at a second one or with the block"""
    def run(ctx):
        b = ctx.bytes("block", 2 * n)
        words, cur = [], b""
        done = False
        for i in range(n):
            if done:
                break
            u = b[2 * i:2 * i + 2]
            if u == b"\0\0":
                if not cur:
                    done = True
                else:
                    words.append(P.units_text(cur))
                cur = b""
            else:
                cur += u
        if cur:
            words.append(P.units_text(cur))
        # an empty first word is a word
        ctx.assume(n == 0 or b[0] != 0 or b[1] != 0)
        expect = OrderedDict([("Length", 9)])
        for k, v in pairs(words).items():
            expect[k] = v
        for i, k in enumerate(words[0::2]):
            ctx.assume(k != "Length")
            for j in words[0::2][:i]:
                ctx.assume(j != k)
        e = P.one_event(P.event(is64, cls=5, op=4, details=fixed(ctx, 7, 9) + b), is64)
        ctx.eq(list(e.details.items()), list(expect.items()), "details")
    return run


def none(is64, tail):
    def run(ctx):
        n = ctx.u32("length")
        e = P.one_event(P.event(is64, cls=5, op=4, details=fixed(ctx, 7, n) + tail), is64)
        ctx.eq(list(e.details.items()), [("Length", n)], "details")
    return run


def many(is64, n):
    """many words; the first value and the last two words are arbitrary"""
    def run(ctx):
        words = ["w%d" % i for i in range(n)]
        words[1], words[-1] = ctx.text("first value", 2), ctx.text("last", 2)
        length = ctx.u32("length")
        d = fixed(ctx, 7, length) + b"".join([P.wide(w) + b"\0\0" for w in words]) + b"\0\0"
        e = P.one_event(P.event(is64, cls=5, op=4, details=d), is64)
        names = words[0::2]
        ctx.assume(ctx.both(*[words[-1] != w for w in names[:-1] if len(w) == 2] + [True, True]) if n % 2 else True)
        ctx.eq(list(e.details.items()), [("Length", length)] + list(pairs(words).items()), "details")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        for op in T.OPERATIONS[5]:
            out.append(Scenario("op-%d-%d" % (is64, op), operation(is64, op), "every flag word and length"))
        for lens in [(1,), (2, 1), (1, 2, 1), (1, 1, 1, 1), (2, 3), (1, 1, 1, 1, 1), (3, 3, 2, 2)] + (
                [(4, 4, 4), (2, 2, 2, 2, 2, 2), (1,) * 8] if deep else []):
            for j, end in enumerate((b"\0\0", b"", None, b"\0\0x\0y\0")):
                out.append(Scenario("words-%d-%s-%d" % (is64, "".join(map(str, lens)), j), words_case(is64, lens, end),
                                    "words of these lengths, arbitrary distinct names"))
        for n in (16, 33, 64, 128, 256, 257, 514) + ((2000,) if deep else ()):
            out.append(Scenario("many-%d-%d" % (is64, n), many(is64, n), "%d words" % n, steps=200000))
        for lens in ((1, 127), (128, 2), (255, 256), (300, 1, 2, 257)):
            out.append(Scenario("long-%d-%s" % (is64, "_".join(map(str, lens))), large(words_case(is64, lens, b"\0\0")),
                                "long words", steps=200000))
        for n in (1, 2, 3, 4) + ((5,) if deep else ()):
            out.append(Scenario("raw-%d-%d" % (is64, n), raw_block(is64, n), "%d arbitrary units" % n))
        for j, tail in enumerate((b"", b"\0\0\0\0")):
            out.append(Scenario("none-%d-%d" % (is64, j), none(is64, tail), "no words"))
    return out
