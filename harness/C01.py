"""C01 header"""
from rt.common import Scenario
from spec import pml as P

NOTE = """Bounds: every signature, version, header size and table offset; every value of the version, build, processor and unknown
fields; fixed text fields of 0 to their full size whose four outer characters and the bytes behind the terminator are
arbitrary; 0 to 5 events."""

NAMES = {(6, 0): "Windows Vista", (6, 1): "Windows 7", (6, 2): "Windows 8", (6, 3): "Windows 8.1",
         (10, 0): "Windows 10"}


def some(ctx):
    return [P.event(1, cls=4, op=0)] * ctx.choice("events", [0, 2])


def gate_signature(ctx):
    sig = ctx.bytes("signature", 4)
    out = ctx.outcome(P.reader, P.pml(signature=sig, events=some(ctx)))
    ctx.check((sig == b"PML_") == out.ok, "opens exactly when the signature is PML_")


def gate_version(ctx):
    v = ctx.u32("version")
    out = ctx.outcome(P.reader, P.pml(version=v, events=some(ctx)))
    ctx.check((v == 9) == out.ok, "opens exactly when the version is 9")


def gate_header_size(ctx):
    v = ctx.u64("header_size")
    out = ctx.outcome(P.reader, P.pml(header_size=v, events=some(ctx)))
    ctx.check((v == P.HEADER_SIZE) == out.ok, "opens exactly when the header size is right")


def gate_offsets(kind):
    def run(ctx):
        # each table offset is either right or zero; the two that are not followed are arbitrary
        evs = some(ctx)
        base = P.pml(events=evs)
        vals, conds = {}, []
        for name, at in (("offsets_at", 0x248), ("procs_at", 0x250), ("strings_at", 0x258), ("hosts_at", 0x3a0)):
            right = int.from_bytes(base[at:at + 8], "little")
            present = ctx.bool(name)
            vals[name] = ctx.ite(present, right, 0)
            conds.append(present)
        for name in ("events_at", "icons_at"):
            vals[name] = ctx.u64(name)
            conds.append(vals[name] != 0)
        out = ctx.outcome(P.reader, P.pml(events=evs, **vals))
        ctx.check(ctx.both(*conds) == out.ok, "opens exactly when every table offset is present")
    return run


def field_numbers(is64):
    def run(ctx):
        major, minor = ctx.u32("major"), ctx.u32("minor")
        build, after, nproc = ctx.u32("build"), ctx.u32("after"), ctx.u32("nproc")
        r = P.reader(P.pml(is64=is64, major=major, minor=minor, build=build, after=after, nproc=nproc,
                           unknown1=ctx.bytes("u1", 8), unknown2=ctx.bytes("u2", 12), unknown3=ctx.bytes("u3", 0xd6),
                           ram=1 << 30, events=[P.event(is64, cls=4, op=0)] * 2))
        ctx.eq(len(r), 2, "event count")
        out = ctx.outcome(r.system_details)
        known = None
        for k, v in NAMES.items():
            if ctx.both(major == k[0], minor == k[1]):
                known = v
        if known is None:
            if out.ok:  # no name for it in Windows' own history: never one of another version
                for v in NAMES.values():
                    ctx.check(not out.value["Operating System"].startswith(v + " "), "unknown version is not named")
            else:
                ctx.check(True, "refused")
            return
        ctx.check(out.ok, "system details are available")
        d = out.value
        ctx.eq(d["Operating System"], "{} (build {}.{})".format(known, build, after), "operating system")
        ctx.eq(d["Logical Processors"], nproc, "processors")
        ctx.eq(d["System Type"], "64-bit" if is64 else "32-bit", "bitness")
    return run


def field_strings(which, full, n):
    def run(ctx):
        # n characters of a field of `full` characters; the first and last two are arbitrary
        if n <= 4:
            s = ctx.text("s", n)
        else:
            s = ctx.text("head", 2) + "m" * (n - 4) + ctx.text("tail", 2)
        raw = P.wide(s)
        if n < full:
            raw = raw + b"\0\0" + ctx.bytes("junk", min(6, 2 * (full - n - 1)))
        other = {"computer": P.wide("COMP"), "root": P.wide("C:\\Windows"), "service_pack": P.wide("SP")}
        exp = {"computer": "COMP", "root": "C:\\Windows", "service_pack": "SP"}
        other[which] = raw
        exp[which] = s
        d = P.reader(P.pml(build=7, after=1, **other)).system_details()
        ctx.eq(d["Computer Name"], exp["computer"], "computer name")
        ctx.eq(d["System Root"], exp["root"], "system root")
        sp = exp["service_pack"]
        ctx.eq(d["Operating System"], "Windows 10" + (", " + sp if len(sp) else "") + " (build 7.1)", "service pack")
        ctx.eq(sorted(d), ["Computer Name", "Logical Processors", "Memory (RAM)", "Operating System", "System Root",
                           "System Type"], "keys")
    return run


def event_count(ctx):
    n = ctx.choice("n", [0, 1, 2, 3, 5])
    tids = [ctx.u32("tid%d" % i) for i in range(n)]
    r = P.reader(P.pml(events=[P.event(1, cls=4, op=0, tid=t) for t in tids],
                       offset_flags=[ctx.u8("flag%d" % i) for i in range(n)]))
    ctx.eq(len(r), n, "event count")
    ctx.eq([r[i].tid for i in range(n)], tids, "events")


def scenarios(tier):
    out = [Scenario("signature", gate_signature, "all 4-byte signatures"),
           Scenario("version", gate_version, "all 32-bit versions"),
           Scenario("header-size", gate_header_size, "all 64-bit sizes"),
           Scenario("offsets", gate_offsets(0), "each followed offset right or zero; the others all 64-bit values"),
           Scenario("event-count", event_count, "0,1,2,3,5 events, all flag bytes")]
    for is64 in (0, 1):
        out.append(Scenario("numbers-%d" % is64, field_numbers(is64), "all 32-bit values of the version, build and "
                            "processor fields, arbitrary unknown fields"))
    for which, full in (("computer", 16), ("root", 260), ("service_pack", 25)):
        for n in sorted({0, 1, 2, 3, full - 1, full} | ({8, full - 2} if tier == "thorough" else set())):
            out.append(Scenario("string-%s-%d" % (which, n), field_strings(which, full, n),
                                "%d characters (4 arbitrary at the ends), arbitrary bytes after the terminator" % n))
    return out
