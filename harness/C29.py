"""C29 result messages"""
from procmon_parser.logs import Event, Process
from rt.common import Scenario
from spec import pml as P, tables as T
from spec.pml import u32

NOTE = """Bounds: every 32-bit result code (split in ranges), in both bitnesses; one timestamp and duration (C26 decides
those)."""

START, LENGTH = 132000000012345678, 12345


def message(lo, hi, is64):
    def run(ctx):
        code = ctx.u32("result")
        ctx.assume(code >= lo)
        ctx.assume(code <= hi)
        want = None
        for k, v in sorted(T.ERRORS.items()):
            if lo <= k <= hi and code == k:
                want = v
                break
        if want is None:
            want = "0x%X" % code
        e = P.one_event(P.event(is64, cls=1, op=3, details=u32(1), date=START, duration=LENGTH, result=code, tid=0), is64)
        r = e.get_compatible_csv_info()
        ctx.eq(r["Result"], want, "result")
        if want == "":
            ctx.eq((r["Duration"], r["Completion Time"]), ("", ""), "no duration")
        else:
            ctx.eq((r["Duration"], r["Completion Time"]), ("0.0012345", "6:40:01.2358023 PM"), "duration")
        ctx.eq((e.result, r["TID"], r["Relative Time"]), (code, "0", "00:00:00.0000000"), "the rest")
    return run


def scenarios(tier):
    out = []
    codes = sorted(T.ERRORS)
    cuts = [0] + codes[8::8] + [1 << 32]
    for is64 in (0, 1):
        for lo, hi in zip(cuts, cuts[1:]):
            out.append(Scenario("result-%d-%x-%x" % (is64, lo, hi - 1), message(lo, hi - 1, is64),
                                "every code in 0x%x..0x%x" % (lo, hi - 1)))
    return out
