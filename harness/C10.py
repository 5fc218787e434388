"""C10 network endpoints"""
from rt.common import Scenario
from spec.large import large
from spec import pml as P, zoo
from spec.pml import u16, u32

NOTE = """Bounds: host and port tables of 0..2 entries with arbitrary distinct 16-byte addresses, port numbers and
protocols, names of 0..2 arbitrary characters; every 16-byte address, every port number, every flag word;
names of up to 256 (32768) characters, tables of up to 4100 entries."""


def details(flags, sip, dip, sport, dport, junk=b"\0\0", length=0):
    return u16(flags) + junk + u32(length) + sip + dip + u16(sport) + u16(dport) + b"\0\0\0\0"


def dotted(ip):
    return "%d.%d.%d.%d" % (ip[0], ip[1], ip[2], ip[3])


def groups(ip):
    return ":".join(["%x" % (ip[2 * i] * 256 + ip[2 * i + 1]) for i in range(8)])


def host(hosts, ip, v4):
    for a, name in hosts:
        if a == ip and name != "":
            return name
    return dotted(ip) if v4 else groups(ip)


def port(ports, number, tcp):
    for n, t, name in ports:
        if n == number and (t != 0) == tcp:
            return name
    return str(number)


def make_hosts(ctx, n, lens):
    out = []
    for i in range(n):
        out.append((ctx.bytes("host%d" % i, 16), ctx.text("hostname%d" % i, lens[i])))
    for i in range(n):
        for j in range(i):
            ctx.assume(out[i][0] != out[j][0])
    return out


def numeric(is64, v4, nsym):
    """no table entries; addresses with nsym arbitrary bytes, and any port"""
    def run(ctx):
        at = ctx.choice("at", [0, 2, 4, 6, 8, 10, 12, 14]) if nsym == 2 else 0
        src = addr(ctx, "src", v4, nsym, at)
        dst = addr(ctx, "dst", v4, 2, 14 - at)
        tcp = ctx.choice("tcp", [False, True])
        sp, dp = ctx.u16("sport"), 443
        flags = (3 if v4 else 0) | (4 if tcp else 0)
        e = P.one_event(P.event(is64, cls=5, op=zoo.NET["Send"], details=details(flags, src, dst, sp, dp)), is64)
        f = dotted if v4 else groups
        ctx.eq(e.path, "%s:%d -> %s:443" % (f(src), sp, f(dst)), "path")
    return run


def addr(ctx, name, v4, nsym, k):
    if v4:
        return ctx.bytes(name, 4) + ctx.bytes(name + ".rest", 12)
    fixed = bytes([0x20, 0x01, 0x0d, 0xb8, 0, 0, 0, 7, 0x10, 0, 0, 0, 0, 0x20, 0, 1])
    return fixed[:k] + ctx.bytes(name + ".sym", nsym) + fixed[k + nsym:]


def flagged(is64):
    """the flag word says for each endpoint on its own how its address reads, and which protocol"""
    def run(ctx):
        flags = ctx.u16("flags")
        src = b"\x0a\0\0\1" + b"\0" * 12
        dst = b"\xfe\x80" + b"\0" * 13 + b"\1"
        e = P.one_event(P.event(is64, cls=5, op=zoo.NET["Send"], details=details(flags, src, dst, 80, 80)), is64,
                        ports=[(80, 1, P.wide("http")), (80, 0, P.wide("quic"))])
        s4, d4, tcp = flags & 1 == 1, flags & 2 == 2, flags & 4 == 4
        pn = "http" if tcp else "quic"
        ctx.eq(e.path, "%s:%s -> %s:%s" % ("10.0.0.1" if s4 else "a00:1:0:0:0:0:0:0", pn,
                                           "254.128.0.0" if d4 else "fe80:0:0:0:0:0:0:1", pn), "path")
        ctx.eq(e.operation, ("TCP " if tcp else "UDP ") + "Send", "operation")
    return run


def hosts_case(is64, n, lens, v4):
    def run(ctx):
        hosts = make_hosts(ctx, n, lens)
        src, dst = ctx.bytes("src", 16) if v4 else fixed6(ctx, "src"), fixed6(ctx, "dst")
        flags = 4 | (1 if v4 else 0)
        e = P.one_event(P.event(is64, cls=5, op=zoo.NET["Send"], details=details(flags, src, dst, 1, 2)), is64,
                        hosts=[(a, P.wide(s)) for a, s in hosts])
        ctx.eq(e.path, "%s:1 -> %s:2" % (host(hosts, src, v4), host(hosts, dst, False)), "path")
    return run


def fixed6(ctx, name):
    """an IPv6 address with the first and the last byte arbitrary"""
    return ctx.bytes(name + ".hi", 1) + b"\x80" + b"\0" * 12 + b"\x10" + ctx.bytes(name + ".lo", 1)


def ports_case(is64, n, lens):
    def run(ctx):
        ports = [(ctx.u16("p%d" % i), ctx.u16("t%d" % i), ctx.text("pname%d" % i, lens[i])) for i in range(n)]
        for i in range(n):
            for j in range(i):
                ctx.assume(ctx.either(ports[i][0] != ports[j][0], (ports[i][1] != 0) != (ports[j][1] != 0)))
        tcp = ctx.choice("tcp", [False, True])
        sp, dp = ctx.u16("sport"), ctx.u16("dport")
        ip = b"\1\2\3\4" + b"\0" * 12
        e = P.one_event(P.event(is64, cls=5, op=zoo.NET["Send"], details=details(3 | (4 if tcp else 0), ip, ip, sp, dp)), is64,
                        ports=[(p, t, P.wide(s)) for p, t, s in ports], hosts=[(b"\0" * 16, P.wide("h"))])
        ctx.eq(e.path, "1.2.3.4:%s -> 1.2.3.4:%s" % (port(ports, sp, tcp), port(ports, dp, tcp)), "path")
    return run


def raw_names(is64, n):
    """any stored bytes of a host and a port name"""
    def run(ctx):
        h, p = ctx.bytes("h", 2 * n), ctx.bytes("p", 2 * n)
        ip = b"\1\2\3\4" + b"\0" * 12
        ctx.assume(P.units_text(p) != "")
        e = P.one_event(P.event(is64, cls=5, op=zoo.NET["Send"], details=details(7, ip, ip, 80, 81)), is64,
                        ports=[(81, 1, p), (82, 1, b"")], hosts=[(ip, h), (b"\0" * 16, b"")])
        t = P.units_text(h)
        ctx.eq(e.path, "%s:80 -> %s:%s" % (t if t != "" else "1.2.3.4", t if t != "" else "1.2.3.4", P.units_text(p)),
               "path")
    return run


def many(is64, n, v4):
    """many entries in both tables; the first, some in the middle and the last are used"""
    def run(ctx):
        spots = sorted(set([0, n // 2, n - 1] + [k for k in (127, 128, 255, 256) if k < n]))
        k, j = ctx.choice("k", spots), ctx.choice("j", spots)
        hosts = [(bytes([10, i // 256, i % 256, 1] + [0] * 12), "host%d" % i) for i in range(n)]
        ports = [(1000 + i, i % 2, "port%d" % i) for i in range(n)]
        hosts[-1] = (hosts[-1][0], ctx.text("last host", 2))
        ports[-1] = ports[-1][:2] + (ctx.text("last port", 2),)
        tcp = ports[k][1] == 1
        e = P.one_event(P.event(is64, cls=5, op=zoo.NET["Send"], details=details((3 if v4 else 0) | (4 if tcp else 0), hosts[k][0],
                                                                                 hosts[j][0], ports[k][0], ports[j][0])), is64,
                        hosts=[(a, P.wide(s)) for a, s in hosts], ports=[(p, t, P.wide(s)) for p, t, s in ports])
        other = ports[j][2] if ports[j][1] == ports[k][1] else str(ports[j][0])
        ctx.eq(e.path, hosts[k][1] + ":" + ports[k][2] + " -> " + hosts[j][1] + ":" + other, "path")
    return run


def long_names(is64, n):
    """long names, another entry behind each"""
    def run(ctx):
        h, p, q = ctx.text("h", n), ctx.text("p", n), ctx.text("q", 2)
        a, b = bytes([1, 2, 3, 4] + [0] * 12), bytes([1, 2, 3, 5] + [0] * 12)
        e = P.one_event(P.event(is64, cls=5, op=zoo.NET["Send"], details=details(7, a, b, 80, 81)), is64,
                        hosts=[(a, P.wide(h)), (b, P.wide(q))], ports=[(80, 1, P.wide(p)), (81, 1, P.wide(q))])
        ctx.eq(e.path, h + ":" + p + " -> " + q + ":" + q, "path")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for is64 in (0, 1):
        out.append(Scenario("ipv4-%d" % is64, numeric(is64, True, 4), "every IPv4 address, port and protocol"))
        out.append(Scenario("ipv6-2-%d" % is64, numeric(is64, False, 2), "IPv6 with an arbitrary group at each place"))
        for n in (128, 255, 256, 257) + ((4100,) if is64 or deep else ()):
            out.append(Scenario("many-%d-%d" % (is64, n), many(is64, n, n % 2 == is64), "%d hosts and ports" % n, steps=200000 + n * 1000))
        for n in (63, 64, 127, 128, 129, 255, 256) + ((32767, 32768) if deep else ()):
            out.append(Scenario("long-%d-%d" % (is64, n), large(long_names(is64, n)), "names of %d characters" % n, steps=2000000))
        out.append(Scenario("flags-%d" % is64, flagged(is64), "every flag word"))
        for n, lens in ((0, ()), (1, (1,)), (1, (0,)), (2, (1, 2)), (2, (0, 1))):
            for v4 in (True, False):
                out.append(Scenario("hosts-%d-%s-%d" % (is64, "".join(map(str, lens)), v4),
                                    hosts_case(is64, n, lens, v4), "%d arbitrary host entries" % n))
        for n, lens in ((0, ()), (1, (1,)), (1, (0,)), (2, (1, 2)), (2, (0, 1))) + (((3, (1, 1, 1)),) if deep else ()):
            out.append(Scenario("ports-%d-%s" % (is64, "".join(map(str, lens))), ports_case(is64, n, lens), "%d arbitrary port entries" % n))
        for n in (0, 1, 2, 3):
            if n:
                out.append(Scenario("names-%d-%d" % (is64, n), raw_names(is64, n), "%d arbitrary units" % n))
    out.append(Scenario("ipv6-all", numeric(1, False, 16), "every IPv6 address", weight=5))
    return out
