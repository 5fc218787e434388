"""C37 the RAM size in the system details"""

from rt.common import Scenario
from spec import pml

NOTE = """Bounds: every 64-bit memory size (in linear integer arithmetic, in four ranges), read from the file's header."""


def text(size):
    n = size * 100 // 2 ** 30
    whole, part = n // 100, n % 100
    if part == 0:
        return "%d.0 GB" % whole
    if part % 10 == 0:
        return "%d.%d GB" % (whole, part // 10)
    return "%d.%02d GB" % (whole, part)


def ram(lo, hi):
    def run(ctx):
        size = ctx.int("ram", lo, hi)
        is64 = ctx.choice("is64", [1, 0])
        r = pml.reader(pml.pml(is64, ram=size))
        d = r.system_details()
        ctx.eq(d["Memory (RAM)"], text(size), "memory")
        ctx.cover("memory")
    return run


def scenarios(tier):
    out = []
    for k, (a, b) in enumerate([(0, 36), (36, 46), (46, 52), (52, 64)]):
        out.append(Scenario("2^%d" % b, ram(2 ** a if a else 0, 2 ** b - 1), "2^%d to 2^%d bytes" % (a, b)))
    return out
