"""C09 detail strings in both stored encodings"""
from rt.common import Scenario
from spec import pml as P, zoo
from spec.pml import u8, u16, u32

NOTE = """Bounds: strings of 0..3 arbitrary stored bytes/units (5 in thorough), and lengths 127, 128, 255, 256, 4095,
32767 whose last two characters are arbitrary; in every place where a detail block holds a string."""


def stored(ctx, name, n, asc, filler=0):
    """(info, raw, expected or None) with arbitrary contents: n symbolic characters after filler plain ones"""
    if asc:
        b = ctx.bytes(name, n)
        raw = b"x" * filler + b
        return P.info(filler + n, True), raw, None if not all_ascii(ctx, b) else "x" * filler + b.decode("ascii")
    b = ctx.bytes(name, 2 * n)
    return P.info(filler + n, False), b"y\0" * filler + b, "y" * filler + P.units_text(b)


def all_ascii(ctx, b):
    for c in b:
        if c > 127:
            return False
    return True


# each place: (number of strings, build(ctx, is64, strings) -> (record fields), look(event) -> (strings, rest), rest)
def reg_delete(ctx, is64, s):
    return dict(cls=2, op=zoo.REG["RegDeleteKey"], details=s[0][0] + s[0][1]), lambda e: ([e.path], []), []


def reg_set_value(ctx, is64, s):
    v = ctx.u32("value")
    d = s[0][0] + b"\0\0" + u32(4) + u32(4) + u32(4) + s[0][1] + u32(v)
    return dict(cls=2, op=zoo.REG["RegSetValue"], details=d), lambda e: ([e.path], [e.details["Data"]]), [v]


def reg_rename(ctx, is64, s):
    d = s[0][0] + s[1][0] + s[0][1] + s[1][1]
    return (dict(cls=2, op=zoo.REG["RegRenameKey"], details=d), lambda e: ([e.path, e.details["New Name"]], []), [])


def fs_close(ctx, is64, s):
    d = zoo.fs_details(ctx, 0, zoo.blob(ctx, is64, {}), s[0][0], s[0][1])
    return dict(cls=3, op=zoo.FS["CloseFile"], details=d), lambda e: ([e.path], []), []


def fs_create(ctx, is64, s):
    blk = zoo.blob(ctx, is64, {zoo.at(is64, 0x10, 0x14): u32(0x1000020), zoo.at(is64, 0x14, 0x1c): u16(0x80),
                               zoo.at(is64, 0x16, 0x1e): u16(3)})
    a = ctx.u32("authority")
    sid = b"\1\1\0\0\0\0\0\5" + u32(a)
    d = zoo.fs_details(ctx, 0, blk, s[0][0], s[0][1], u32(0x120089) + u8(12) + b"\0\0\0" + sid)
    return (dict(cls=3, op=zoo.FS["CreateFile"], details=d),
            lambda e: ([e.path], [e.details["Desired Access"], e.details["Impersonating"]]),
            ["Generic Read", "S-1-5-%d" % a])


def fs_query_directory(ctx, is64, s):
    blk = zoo.blob(ctx, is64, {zoo.at(is64, 0x14, 0x1c): u32(4)})
    ctx.assume(s[0][2] is None or not s[0][2].endswith("\\"))
    d = zoo.fs_details(ctx, 1, blk, s[0][0], s[0][1], s[1][0] + s[1][1])

    def look(e):
        flt = e.details.get("Filter", "")
        path = e.path
        if flt:
            if not path.endswith("\\" + flt):
                return ["filter missing in the path"], []
            path = path[:len(path) - len(flt) - 1]
        return [path, flt], [e.details["FileInformationClass"]]
    return dict(cls=3, op=zoo.FS["DirectoryControl"], details=d), look, ["FileBasicInformation"]


def process_create(ctx, is64, s):
    pid = ctx.u32("pid")
    d = (b"\0" * 4 + u32(pid) + b"\0" * 0x24 + u8(2) + u8(1) + s[0][0] + s[1][0] + ctx.bytes("junk", 5) + s[0][1]
         + s[1][1])
    return (dict(cls=1, op=zoo.PROC["Process_Create"], details=d),
            lambda e: ([e.path, e.details["Command line"]], [e.details["PID"]]), [pid])


def process_start(ctx, is64, s):
    w = ctx.text("env", 2)
    env = P.wide(w) + b"\0\0\0\0"
    d = u32(9) + s[0][0] + s[1][0] + u32(len(env) // 2) + s[0][1] + s[1][1] + env
    return (dict(cls=1, op=zoo.PROC["Process_Start"], details=d),
            lambda e: ([e.details["Command line"], e.details["Current directory"]], [e.details["Environment"]]), [[w]])


def load_image(ctx, is64, s):
    base, size = ctx.bits("base", 64 if is64 else 32), ctx.u32("size")
    d = P.pvoid(base, is64) + u32(size) + s[0][0] + b"\0\0" + s[0][1]
    return (dict(cls=1, op=zoo.PROC["Load_Image"], details=d),
            lambda e: ([e.path], [e.details["Image Base"], e.details["Image Size"]]), [base, size])


PLACES = [("RegDeleteKey", 1, reg_delete), ("RegSetValue", 1, reg_set_value), ("RegRenameKey", 2, reg_rename),
          ("CloseFile", 1, fs_close), ("CreateFile", 1, fs_create), ("QueryDirectory", 2, fs_query_directory),
          ("Process_Create", 2, process_create), ("Process_Start", 2, process_start), ("Load_Image", 1, load_image)]


def case(place, is64, spec, shared=None):
    """spec: (symbolic characters, ascii, filler) per string"""
    def run(ctx):
        if shared is None:
            chosen = spec
        else:
            n = ctx.choice("n", shared)
            chosen = [(n if x == "n" else x, a, f) for x, a, f in spec]
        s = [stored(ctx, "s%d" % i, n, a, f) for i, (n, a, f) in enumerate(chosen)]
        fields, look, rest = place(ctx, is64, s)
        out = ctx.outcome(P.one_event, P.event(is64, **fields) + b"\x7f" * 4, is64)
        if any(x[2] is None for x in s):
            ctx.check(not out.ok, "a non-ASCII byte in an ASCII string is an error")
            return
        ctx.check(out.ok, "readable")
        got, after = look(out.value)
        ctx.eq(got, [x[2] for x in s], "strings")
        ctx.eq(after, rest, "fields behind")
    return run


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    small = [0, 1, 2, 3] + ([4, 5] if deep else [])
    for name, count, place in PLACES:
        for is64 in (0, 1):
            for asc in (True, False):
                if count == 1:
                    out.append(Scenario("%s-%d-%s" % (name, is64, "a" if asc else "w"),
                                        case(place, is64, [("n", asc, 0)], small), "0..3 stored characters"))
                else:
                    for asc2 in (True, False):
                        t = "%s-%d-%s%s" % (name, is64, "a" if asc else "w", "a" if asc2 else "w")
                        out.append(Scenario(t + "-1", case(place, is64, [("n", asc, 0), (1, asc2, 0)], small[:3]),
                                            "0..2 and 1 stored characters"))
                        out.append(Scenario(t + "-2", case(place, is64, [(1, asc, 0), ("n", asc2, 0)], small[:3]),
                                            "1 and 0..2 stored characters"))
        lens = [127, 128, 255, 256, 4095, 32767]
        for asc in (True, False):
            for n in lens:
                if not deep and n in (4095,) and name not in ("CloseFile",):
                    continue
                if not deep and n == 32767 and name not in ("RegSetValue", "CreateFile", "Process_Create"):
                    continue
                k = 2
                spec = [(k, asc, n - k)] + [(1, not asc, 0)] * (count - 1)
                out.append(Scenario("%s-long-%s-%d" % (name, "a" if asc else "w", n), case(place, n % 2, spec),
                                    "%d characters, the last 2 arbitrary" % n, weight=3 if n > 1000 else 1, steps=80000))
                if count == 2 and n < 1000:
                    out.append(Scenario("%s-long2-%s-%d" % (name, "a" if asc else "w", n),
                                        case(place, n % 2, [(1, not asc, 0), (k, asc, n - k)]),
                                        "second string of %d characters, the last 2 arbitrary" % n))
    return out
