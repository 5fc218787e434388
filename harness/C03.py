"""C03 process table"""
import itertools
from collections import OrderedDict

from rt.common import Scenario
from spec import pml as P

NOTE = """Bounds: every value of every numeric and unknown field; 0 to 2 (thorough 5) arbitrary modules, 127 to 1026 (4100) modules of which two
are arbitrary; 1 to 3 (4) processes with all distinct 32-bit indexes in all orders, 128 to 1026 (4100) processes of which one is
arbitrary; both bitnesses."""

TEXT = ("integrity", "user", "process_name", "image_path", "command_line", "company", "version", "description")
MODULE_TEXT = ("path", "version", "company", "description")


def sym_module(ctx, is64, i, strings, text=None):
    w = 64 if is64 else 32
    f = dict(base=ctx.bits("m%d.base" % i, w), size=ctx.u32("m%d.size" % i), timestamp=ctx.u32("m%d.ts" % i),
             unknown=ctx.bits("m%d.unk" % i, w), tail=ctx.bytes("m%d.tail" % i, 24))
    idx = dict(path=(1 + i) % 6, version=(2 + i) % 7, company=(3 + i) % 8, description=(4 + i) % 9)
    if isinstance(text, str):      # only that one is empty
        idx[text] = 0
    elif text is not None:
        idx = dict.fromkeys(idx, text)
    rec = P.module_record(is64, **dict(f, **idx))
    exp = OrderedDict([("base_address", f["base"]), ("size", f["size"])])
    for k in MODULE_TEXT:
        exp[k] = strings[idx[k]]
    exp["timestamp"] = f["timestamp"]
    return rec, exp


def sym_process(ctx, is64, tag, index, strings, mods, first=1, bit=None, texts=None):
    f = OrderedDict()
    for k in ("pid", "parent_pid", "session", "virtualized"):
        f[k] = ctx.u32(tag + k)
    for k in ("authentication_id", "start_time", "end_time"):
        f[k] = ctx.u64(tag + k)
    f["is_64bit"] = ctx.u32(tag + "is64") if bit is None else bit
    idx = OrderedDict((k, texts if isinstance(texts, int) else (first + i) % len(strings)) for i, k in enumerate(TEXT))
    if isinstance(texts, str):
        idx[texts] = 0
    junk = dict(unknown1=ctx.u32(tag + "u1"), unknown2=ctx.u32(tag + "u2"),
                unknown3=ctx.bits(tag + "u3", 64 if is64 else 32), icon_small=ctx.u32(tag + "i1"),
                icon_big=ctx.u32(tag + "i2"))
    rec = P.process_record(is64, modules=[m[0] for m in mods], index=index, **dict(dict(f, **idx), **junk))
    exp = OrderedDict()
    for k in P.PROCESS_ATTRS:
        if k in idx:
            exp[k] = strings[idx[k]]
        elif k == "is_process_64bit":
            exp[k] = f["is_64bit"] != 0
        else:
            exp[k] = f[k]
    exp["modules"] = [m[1] for m in mods]
    return rec, exp


STR = [u"", u"alpha", u"b", u"gamma", u"delta", u"e\u20ac", u"zeta", u"eta", u"theta", u"iota"]


def one(is64, nmod, sysbit):
    def run(ctx):
        # different ones, all empty, all the same, one empty
        texts = ctx.choice("texts", [None, 0, 5] + list(TEXT))
        blank = MODULE_TEXT[TEXT.index(texts) % 4] if isinstance(texts, str) else texts
        mods = [sym_module(ctx, is64, i, STR, blank) for i in range(nmod)]
        rec, exp = sym_process(ctx, is64, "", ctx.u32("index"), STR, mods, texts=texts)
        ps = P.reader(P.pml(is64=sysbit, procs=[rec], strings=STR)).processes()
        ctx.eq(len(ps), 1, "one process")
        ctx.eq(P.view_process(ps[0]), exp, "process")
    return run


def several(is64, n):
    def run(ctx):
        """processes in any file order, with arbitrary distinct indexes; an event names one by its index"""
        idx = [ctx.u32("index%d" % i) for i in range(n)]
        for a, b in itertools.combinations(idx, 2):
            ctx.assume(a != b)
        recs, exps = [], []
        for i in range(n):
            mods = [sym_module(ctx, is64, i, STR)] if i == 0 else []
            pid = ctx.u32("pid%d" % i)      # the same one perhaps: Windows uses them again
            rec = P.default_process(is64, modules=[m[0] for m in mods], index=idx[i], pid=pid, user=i,
                                    session=100 + i)
            recs.append(rec)
            exps.append((pid, STR[i], 100 + i, [m[1] for m in mods]))
        order = ctx.choice("order", list(itertools.permutations(range(n))))
        gap = ctx.choice("gap", [b"", b"\1\2\3"])
        want = ctx.u32("want")
        ev = P.event(is64, process=want, cls=4, op=0, tid=9)
        r = P.reader(P.pml(is64=is64, events=[ev], strings=STR,
                           tables={"P": P.process_table(recs, idx, order, gap)}))
        ps = r.processes()
        got = sorted(ps, key=lambda p: p.session)
        ctx.eq([(p.pid, p.user, p.session, [P.view_module(m) for m in p.modules]) for p in got], exps, "all processes")
        out = ctx.outcome(lambda: r[0])
        ctx.check(ctx.either(*[want == i for i in idx]) == out.ok, "an unknown index is an error")
        if out.ok:
            for i in range(n):
                ctx.check(ctx.either(want != idx[i], out.value.process.session == 100 + i), "process by index")
    return run


def twins(is64, n):
    def run(ctx):
        """processes that differ in nothing but their index"""
        idx = [ctx.u32("index%d" % i) for i in range(n)]
        for a, b in itertools.combinations(idx, 2):
            ctx.assume(a != b)
        fields = dict(pid=ctx.u32("pid"), parent_pid=ctx.u32("parent"), start_time=ctx.u64("start"))
        text = ctx.choice("text", [0, 1])
        recs = [P.default_process(is64, index=i, user=text, process_name=text, image_path=text, command_line=text, **fields)
                for i in idx]
        k = ctx.choice("which", range(n))
        r = P.reader(P.pml(is64=is64, events=[P.event(is64, process=idx[k], cls=4, op=0)], strings=STR, procs=recs))
        ctx.eq([(p.pid, p.parent_pid, p.start_time, p.process_name) for p in r.processes()],
               [(fields["pid"], fields["parent_pid"], fields["start_time"], STR[text])] * n, "all processes")
        ctx.eq(r[0].process.start_time, fields["start_time"], "process of the event")
    return run


def many_modules(is64, n):
    def run(ctx):
        mods = [sym_module(ctx, is64, i, STR) if i in (0, n - 1) else fixed_module(is64, i) for i in range(n)]
        rec, exp = sym_process(ctx, is64, "", 3, STR, mods)
        other = P.default_process(is64, index=9, pid=900)
        ps = P.reader(P.pml(is64=is64, procs=[rec, other], strings=STR)).processes()
        ctx.eq(len(ps), 2, "processes")
        ctx.eq(P.view_process(ps[0]), exp, "process")
        ctx.eq(ps[1].pid, 900, "next process")
    return run


def fixed_module(is64, i):
    idx = dict(path=1 + i % 5, version=2 + i % 3, company=3 + i % 4, description=4 + i % 2)
    rec = P.module_record(is64, base=0x10000 * i, size=i, timestamp=i * 7, **idx)
    exp = OrderedDict([("base_address", 0x10000 * i), ("size", i)])
    for k in MODULE_TEXT:
        exp[k] = STR[idx[k]]
    exp["timestamp"] = i * 7
    return rec, exp


def many(is64, n, base):
    """many processes; the last has arbitrary fields; events name the first, some between and the last"""
    def run(ctx):
        recs = [P.default_process(is64, index=base + i, pid=100 + i, user=i % 9) for i in range(n - 1)]
        rec, exp = sym_process(ctx, is64, "", base + n - 1, STR, [])
        spots = sorted(set([0, n // 2, n - 2] + [k for k in (127, 128, 255, 256) if k < n - 1]))
        evs = [P.event(is64, process=base + i, cls=4, op=0) for i in spots + [n - 1]]
        r = P.reader(P.pml(is64=is64, events=evs, strings=STR, procs=recs + [rec]))
        ps = r.processes()
        ctx.eq(len(ps), n, "number of processes")
        ctx.eq([(p.pid, p.user) for p in ps[:-1]], [(100 + i, STR[i % 9]) for i in range(n - 1)], "processes")
        ctx.eq(P.view_process(ps[-1]), exp, "last process")
        ctx.eq([e.process.pid for e in r[:-1]], [100 + i for i in spots], "process of an event")
        ctx.eq(P.view_process(r[-1].process), exp, "process of the last event")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        for nmod in (0, 1, 2) + ((3, 5) if deep else ()):
            out.append(Scenario("fields-%d-%d" % (is64, nmod), one(is64, nmod, is64),
                                "all values of every numeric and unknown field, %d modules" % nmod))
        for n in (127, 128, 255, 256, 257, 1026) + ((4100,) if deep else ()) if is64 or deep else (128, 256):
            out.append(Scenario("many-modules-%d-%d" % (is64, n), many_modules(is64, n), "%d modules, two of them arbitrary" % n,
                                steps=100000 + n * 1000))
        for n in (128, 255, 256, 257, 300, 1026) + ((4100,) if deep else ()) if is64 or deep else (129, 257):
            out.append(Scenario("many-%d-%d" % (is64, n), many(is64, n, 0 if n % 2 else 65400),
                                "%d processes, one of them arbitrary" % n, weight=2, steps=100000 + n * 1000))
        for n in (2, 3):
            out.append(Scenario("twins-%d-%d" % (is64, n), twins(is64, n), "%d processes with the same arbitrary fields" % n))
        for n in (1, 2, 3) + ((4,) if deep else ()):
            out.append(Scenario("several-%d-%d" % (is64, n), several(is64, n),
                                "%d processes, all distinct 32-bit indexes, all file orders" % n, weight=n))
    return out
