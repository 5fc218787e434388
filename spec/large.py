"""Large inputs: a context whose long texts and byte strings are fixed but for a few symbolic places, and a stream that
is mostly holes."""


class Large(object):
    """long texts and bytes have symbolic first, middle and last elements (very long texts only
    the last one; up to 8 elements are all symbolic)"""
    LIMIT = 8

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def text(self, name, n, *kind, **kw):
        if n <= self.LIMIT:
            return self.ctx.text(name, n, *kind, **kw)
        out, run = "", ""
        spots = (0, n // 2, n - 1) if n < 4096 else (n - 1,)
        for i in range(n):
            if i in spots:
                out = out + run + self.ctx.text("%s.%d" % (name, i), 1, *kind, **kw)
                run = ""
            else:
                run += chr(0x61 + i % 23)
        return out + run

    def bytes(self, name, n):
        if n <= self.LIMIT:
            return self.ctx.bytes(name, n)
        a, b, c = self.ctx.bytes(name + ".first", 2), self.ctx.bytes(name + ".middle", 2), self.ctx.bytes(name + ".last", 2)
        m = n // 2 - 1 - (n // 2 - 1) % 2
        fill = [1 + i % 251 for i in range(n)]
        return a + bytes(fill[2:m]) + b + bytes(fill[m + 2:n - 2]) + c


def large(fn):
    """a scenario function run with the large context"""
    def run(ctx):
        return fn(Large(ctx))
    return run


class Holes(object):
    """a file of any size of which only some parts hold anything; the rest reads as zeros"""

    def __init__(self, parts):
        self.parts = sorted(parts, key=lambda p: p[0])   # (offset, bytes)
        self.size = max([o + len(b) for o, b in parts])
        self.pos = 0

    def seek(self, offset, whence=0):
        self.pos = offset if whence == 0 else self.pos + offset if whence == 1 else self.size + offset
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        start = self.pos
        end = self.size if n is None or n < 0 else min(self.size, start + n)
        if end <= start:
            return b""
        out, at = b"", start
        for o, b in self.parts:
            if o + len(b) <= at or o >= end:
                continue
            if o > at:
                out += b"\0" * (o - at)
                at = o
            out += b[at - o:end - o]
            at = min(end, o + len(b))
        out += b"\0" * (end - at)
        self.pos = end
        return out


def far_file(is64, placed, tables_at, offsets=None, procs=None, strings=None, hosts=(), ports=(), gap=0, **head):
    """a file with these (offset, bytes) and its tables, ``gap`` bytes apart, from ``tables_at`` on"""
    from spec import pml as P
    offs = [o for o, _ in placed] if offsets is None else offsets
    parts = [b"".join([P.u32(o) + P.u8(0) for o in offs]),
             P.process_table([P.default_process(is64)] if procs is None else procs),
             P.string_table([P.wide(s) for s in (P.DEFAULT_STRINGS if strings is None else strings)]),
             P.hosts_table(hosts) + P.ports_table(ports)]
    where, at = [], tables_at
    for i, p in enumerate(parts):
        where.append(at)
        at += len(p) + (gap if i else 0)
    h = P.header(is64=is64, nevents=len(offs), offsets_at=where[0], procs_at=where[1], strings_at=where[2],
                 icons_at=P.HEADER_SIZE, hosts_at=where[3], **head)
    return Holes([(0, h)] + list(placed) + list(zip(where, parts)))
