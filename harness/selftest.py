"""Engine self-test: library operations on symbolic values against the same operations in Python itself.

Not a property: VERIF_EVERY_WITNESS=1 ./check.sh selftest quick replays one input of every path natively."""
import struct
from collections import OrderedDict
from io import BytesIO

from rt.common import Scenario

STR = OrderedDict([
    ("splitlines", lambda s: s.splitlines()), ("splitlines-keep", lambda s: s.splitlines(True)),
    ("split", lambda s: s.split()), ("split-comma", lambda s: s.split(",")), ("split-1", lambda s: s.split(",", 1)),
    ("rsplit", lambda s: s.rsplit(",", 1)), ("rsplit-all", lambda s: s.rsplit(",")),
    ("partition", lambda s: s.partition(",")), ("rpartition", lambda s: s.rpartition(",")),
    ("find", lambda s: s.find("a", 1)), ("rfind", lambda s: s.rfind("a")), ("count", lambda s: s.count("aa")),
    ("replace", lambda s: s.replace("a", "bc")), ("replace-1", lambda s: s.replace("a", "", 1)),
    ("strip", lambda s: s.strip()), ("lstrip", lambda s: s.lstrip("0a")), ("rstrip", lambda s: s.rstrip("0")),
    ("upper", lambda s: s.upper()), ("lower", lambda s: s.lower()), ("casefold", lambda s: s.casefold()),
    ("capitalize", lambda s: s.capitalize()), ("zfill", lambda s: s.zfill(5)), ("rjust", lambda s: s.rjust(5, "x")),
    ("ljust", lambda s: s.ljust(5)), ("center", lambda s: s.center(6, "-")), ("center-odd", lambda s: s.center(8, "-")),
    ("isdigit", lambda s: bool(s.isdigit())), ("isdecimal", lambda s: bool(s.isdecimal())),
    ("isalpha", lambda s: bool(s.isalpha())), ("isspace", lambda s: bool(s.isspace())),
    ("isprintable", lambda s: bool(s.isprintable())), ("isascii", lambda s: bool(s.isascii())),
    ("utf8", lambda s: s.encode()), ("utf16", lambda s: s.encode("utf-16-le")), ("utf16be", lambda s: s.encode("utf-16-be")),
    ("ascii", lambda s: s.encode("ascii", "replace") if s.isascii() else b""),
    ("starts", lambda s: bool(s.startswith("a", 1))), ("ends", lambda s: bool(s.endswith(("a", "b"), 1))),
    ("removeprefix", lambda s: s.removeprefix("a")), ("removesuffix", lambda s: s.removesuffix("a")),
    ("slice", lambda s: s[::-1]), ("less", lambda s: bool(s < "ab,")), ("in", lambda s: bool("a" in s)),
    ("format", lambda s: "<{:>5}|{!r}>".format(s, s)), ("percent", lambda s: "%s-%5s" % (s, s)),
    ("join", lambda s: s.join(["x", "y", s])), ("mul", lambda s: s * 2), ("ord", lambda s: [ord(c) for c in s]),
    ("fstring", lambda s: f"{s}:{len(s)}"), ("list", lambda s: list(s)), ("sorted", lambda s: sorted(s)),
    ("enumerate", lambda s: [(i, c) for i, c in enumerate(s)]), ("max", lambda s: max(s)), ("set", lambda s: len(set(s))),
])

BYTES = OrderedDict([
    ("find", lambda b: b.find(b"a")), ("rfind", lambda b: b.rfind(b"a")), ("count", lambda b: b.count(b"a")),
    ("replace", lambda b: b.replace(b"a", b"bc")), ("split", lambda b: b.split(b"\0")), ("rsplit", lambda b: b.rsplit(b"\0", 1)),
    ("partition", lambda b: b.partition(b"\0")), ("rpartition", lambda b: b.rpartition(b"\0")),
    ("strip", lambda b: b.strip()), ("rstrip", lambda b: b.rstrip(b"\0")), ("lstrip", lambda b: b.lstrip(b"\0 ")),
    ("ljust", lambda b: b.ljust(5, b"\0")), ("rjust", lambda b: b.rjust(5, b"x")), ("isascii", lambda b: bool(b.isascii())),
    ("less", lambda b: bool(b < b"ab\0")), ("geq", lambda b: bool(b >= b"ab")), ("hex", lambda b: b.hex()),
    ("starts", lambda b: bool(b.startswith(b"a", 1))), ("ends", lambda b: bool(b.endswith((b"a", b"b")))),
    ("in", lambda b: bool(b"a" in b)), ("in-int", lambda b: bool(7 in b)), ("list", lambda b: list(b)),
    ("int", lambda b: int.from_bytes(b, "little")), ("intbe", lambda b: int.from_bytes(b, "big")),
    ("intsigned", lambda b: int.from_bytes(b, "little", signed=True)), ("slice", lambda b: b[::-2]),
    ("removeprefix", lambda b: b.removeprefix(b"a")), ("any", lambda b: bool(any(b))), ("all", lambda b: bool(all(b))),
    ("sum", lambda b: sum(b)), ("bytearray", lambda b: bytes(bytearray(b))), ("bytes", lambda b: bytes(b)),
    ("view", lambda b: bytes(memoryview(b)[1:])), ("join", lambda b: b.join([b"x", b])), ("mul", lambda b: b * 2),
    ("latin", lambda b: b.decode("latin-1")), ("ascii", lambda b: b.decode("ascii", "replace")),
    ("iter", lambda b: [x ^ 255 for x in b]), ("max", lambda b: max(b)), ("reversed", lambda b: bytes(reversed(b))),
    ("zip", lambda b: [x + y for x, y in zip(b, b[1:])]), ("io", lambda b: [BytesIO(b).read(2), BytesIO(b).getvalue()]),
])

INT = OrderedDict([
    ("divmod", lambda n: divmod(n, 60)), ("div", lambda n: n // 7), ("mod", lambda n: n % 7), ("neg", lambda n: -n // 7),
    ("shift", lambda n: (n << 3, n >> 5)), ("bits", lambda n: (n & 0xf0, n | 0xf0, n ^ 0xff, ~n)), ("abs", lambda n: abs(5 - n)),
    ("hex", lambda n: hex(n)), ("hexfmt", lambda n: "{:x} {:08X} {:#x}".format(n, n, n)), ("dec", lambda n: "%d %5d %05d" % (n, n, n)),
    ("comma", lambda n: "{:,}".format(n)), ("str", lambda n: str(n)), ("pack", lambda n: struct.pack("<I", n)),
    ("to_bytes", lambda n: n.to_bytes(4, "big")), ("cmp", lambda n: [bool(n < 10), bool(n == 7), bool(3 <= n <= 9)]),
    ("bool", lambda n: bool(n)), ("tern", lambda n: "a" if n & 1 else "b"), ("min", lambda n: min(n, 100)), ("max", lambda n: max(n, 100)),
    ("get", lambda n: {1: "a", 2: "b"}.get(n, "c")), ("in", lambda n: bool(n in (1, 2, 3))), ("bit_length", lambda n: n.bit_length()),
    ("pow", lambda n: (n & 15) ** 2), ("float", lambda n: n / 2 == 3), ("mul", lambda n: n * 1000), ("octfmt", lambda n: oct(n)),
    ("binfmt", lambda n: bin(n & 7)), ("round", lambda n: n - n % 10), ("list", lambda n: [10, 20, 30, 40][n & 3]),
    ("range", lambda n: list(range(n & 3))), ("sorted", lambda n: sorted([n, 5, 7])), ("join", lambda n: ":".join("%02x" % ((n >> s) & 255) for s in (0, 8))),
])


def on(kind, f, n):
    def run(ctx):
        if kind == "text":
            v = ctx.text("v", n, "any")
        elif kind == "ascii":
            v = ctx.text("v", n, "ascii")
        elif kind == "bytes":
            v = ctx.bytes("v", n)
        else:
            v = ctx.bits("v", n)
        r = f(v)
        if isinstance(r, tuple):
            r = list(r)
        ctx.eq(r, r, "result")
    return run


def scenarios(tier):
    out = []
    for k, f in STR.items():
        for kind in ("text", "ascii"):
            for n in (1, 3):
                out.append(Scenario("str-%s-%s-%d" % (k, kind, n), on(kind, f, n), ""))
    for k, f in BYTES.items():
        for n in (1, 3):
            out.append(Scenario("bytes-%s-%d" % (k, n), on("bytes", f, n), ""))
    for k, f in INT.items():
        for n in (8, 32):
            out.append(Scenario("int-%s-%d" % (k, n), on("int", f, n), ""))
    return out


STR.update([
    ("set-iter", lambda s: sorted(set(s))), ("set-lit", lambda s: len({s[0], "a", s[-1]})), ("set-comp", lambda s: len({c.lower() if c < "a" else "z" for c in s})),
    ("set-in", lambda s: bool("a" in set(s))), ("frozen", lambda s: bool(frozenset(s) == frozenset("abc"))), ("set-ops", lambda s: [len(set(s) & set("abc")), len(set("abc") - set(s)), len(set(s) | {"a"})]),
    ("fromkeys", lambda s: list(dict.fromkeys(s))), ("dictcomp", lambda s: len({c: 1 for c in s})), ("dict-get", lambda s: dict(zip(s, range(3))).get("a")),
])


# ---- language constructs and library helpers a rewrite may use
import bisect, collections, contextlib, dataclasses, enum, functools, itertools, operator, string


def match_values(n):
    match n & 255:
        case 1 | 2:
            r = "low"
        case 7 if n & 256:
            r = "seven"
        case x if x > 200:
            r = ("big", x)
        case _:
            r = "other"
    return [r]


def match_truth(n):
    match (n & 1 == 1, n & 2 != 0):
        case (True, True):
            return "both"
        case (True, False):
            return "first"
        case (False, x):
            return ["not", bool(x)]


def match_single(n):
    match n > 7:
        case True:
            return 1
        case False:
            return 2


def match_types(n):
    out = []
    for v in (n, str(n), None, [n, 2], {"k": n}, b"x"):
        match v:
            case bool():
                out.append("bool")
            case int(i):
                out.append(("int", i))
            case str() as s:
                out.append(("str", len(s) > 1))
            case None:
                out.append("none")
            case [a, b]:
                out.append(("pair", a, b))
            case {"k": w, **rest}:
                out.append(("map", w, len(rest)))
            case _:
                out.append("else")
    return out


class Flag(enum.IntFlag):
    A = 1
    B = 2
    C = 4


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2
    TEN = 10


@dataclasses.dataclass(frozen=True, order=True)
class Pt:
    x: int
    y: int = 5


@functools.lru_cache(maxsize=None)
def cached(n):
    return n * 3


@functools.singledispatch
def kind(v):
    return "object"


@kind.register
def _(v: int):
    return "int"


@kind.register
def _(v: str):
    return "str"


class Desc:
    def __set_name__(self, owner, name):
        self.name = "_" + name

    def __get__(self, obj, owner=None):
        return getattr(obj, self.name, None)

    def __set__(self, obj, value):
        setattr(obj, self.name, value * 2)


class Holder:
    v = Desc()

    def __init__(self, v):
        self.v = v

    @functools.cached_property
    def twice(self):
        return self.v * 2

    def __contains__(self, x):
        return x == self.v

    def __len__(self):
        return 3

    def __getitem__(self, i):
        return self.v + i

    def __call__(self, a):
        return a + self.v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return True


def with_holder(n):
    out = []
    with Holder(n) as v:
        out.append(v)
        raise ValueError
    return out


def gen(n):
    got = yield n
    yield got + 1
    yield from (n + i for i in range(2))


def use_gen(n):
    g = gen(n)
    a = next(g)
    return [a, g.send(n), list(g)]


def looped(n):
    out = []
    while (d := n & 15) and len(out) < 9:
        out.append(d)
        n >>= 4
    else:
        out.append("end")
    for i, x in enumerate(out):
        if x == 3:
            break
    else:
        i = -1
    return [out, i]


def excepts(n):
    try:
        r = {1: "a", 2: "b"}[n & 3]
    except KeyError as e:
        r = "missing"
    else:
        r += "!"
    finally:
        n = 0
    try:
        r2 = [1, 2][len(r) - 2]
    except (IndexError, TypeError):
        r2 = None
    return [r, r2]


def defaults(n):
    d = collections.defaultdict(list)
    d[n & 1].append(n)
    d[1].append(5)
    return sorted((k, len(v)) for k, v in d.items())


def nested(n):
    total = 0

    def add(x):
        nonlocal total
        total += x
        return add
    add(n & 3)(n & 1)
    return total


def starred(n):
    a, *b, c = [n, 1, 2, n + 1]
    (d, e), f = (n, 2), 3
    return [a, b, c, d, e, f, *[n], *(1, 2)]


def enum_from(n):
    try:
        return Num(n & 15).name
    except ValueError:
        return "none"


def enum_members(n):
    return [m.name for m in Num if m == n & 15]


def enum_has(n):
    return (n & 15) in Num._value2member_map_


def bisected(n):
    return bisect.bisect_right([3, 10, 100], n & 127)


def deque_ops(n):
    d = collections.deque([n, 1], maxlen=3)
    d.appendleft(2)
    d.append(n + 1)
    d.rotate(1)
    return list(d) + [d[0]]


def template(n):
    return string.Template("$a-$b").substitute(a=n & 7, b="x")


def suppressed(n):
    r = "kept"
    with contextlib.suppress(KeyError):
        r = {5: "five"}[n & 7]
    return r


def chained(n):
    return list(itertools.chain([n], itertools.islice(itertools.count(n & 3), 2), itertools.repeat(n, 1)))


def group(n):
    return [(k, len(list(g))) for k, g in itertools.groupby([n & 1, 1, 1, 0], key=lambda x: x)]


def fill(n):
    b = bytearray(4)
    k = BytesIO(struct.pack("<I", n)).readinto(b)
    b.insert(0, n & 255)
    x = b.pop()
    b.reverse()
    return [k, x, bytes(b), bytes(memoryview(b)[1:3])]


CODE = OrderedDict([("fill", fill)] + [(f.__name__, f) for f in (match_values, match_truth, match_single, match_types, with_holder, use_gen,
                                              looped, excepts, defaults, nested, starred, enum_from, enum_members, enum_has, bisected, deque_ops,
                                              template, suppressed, chained, group)] + [
    ("dataclass", lambda n: [Pt(n).x, Pt(1, n).y, bool(Pt(n) == Pt(3)), repr(Pt(n & 3)), dataclasses.astuple(Pt(n))]),
    ("dataclass-replace", lambda n: dataclasses.replace(Pt(1), y=n).y), ("dataclass-less", lambda n: bool(Pt(n, 1) < Pt(7, 2))),
    ("cached", lambda n: cached(n & 3)), ("kind", lambda n: [kind(n), kind(str(n)), kind(None)]),
    ("holder", lambda n: [Holder(n).v, Holder(n).twice, bool(6 in Holder(n)), len(Holder(n)), Holder(n)[2], Holder(n)(1)]),
    ("flag", lambda n: [bool(Flag.A in Flag(n & 7)), int(Flag(n & 7) | Flag.C)]), ("flag-names", lambda n: [f.name for f in Flag if n & f]),
    ("enum-int", lambda n: bool(Num.TEN == n & 15)), ("enum-dict", lambda n: {Num.ONE: "x", Num.TWO: "y"}.get(n & 3)),
    ("reduce", lambda n: functools.reduce(operator.or_, [n, 1, 4])), ("partial", lambda n: functools.partial(operator.add, n)(2)),
    ("itemgetter", lambda n: operator.itemgetter(1, 0)([n, 2])), ("attrgetter", lambda n: operator.attrgetter("x")(Pt(n))),
    ("methodcaller", lambda n: operator.methodcaller("bit_length")(n & 7)), ("accumulate", lambda n: list(itertools.accumulate([n, 1, 2]))),
    ("zip_longest", lambda n: list(itertools.zip_longest([n, 1], [2], fillvalue=n))), ("starmap", lambda n: list(itertools.starmap(operator.add, [(n, 1)]))),
    ("takewhile", lambda n: list(itertools.takewhile(lambda x: x < 10, [n & 15, 3]))), ("dropwhile", lambda n: list(itertools.dropwhile(lambda x: x < 10, [n & 15, 3]))),
    ("filter", lambda n: list(filter(None, [n & 1, n & 2, 5]))), ("filterfalse", lambda n: list(itertools.filterfalse(lambda x: x & 1, [n, 2, 3]))),
    ("compress", lambda n: list(itertools.compress("abc", [n & 1, n & 2, 1]))), ("product", lambda n: list(itertools.product([n], [1, 2]))),
    ("pairwise", lambda n: list(itertools.pairwise([n, 1, 2]))), ("chain-from", lambda n: list(itertools.chain.from_iterable([[n], [1]]))),
    ("counter", lambda n: collections.Counter([n & 1, 1])[1]), ("chainmap", lambda n: collections.ChainMap({1: "a"}, {2: "b"}).get(n & 3)),
    ("ordered", lambda n: list(OrderedDict([("a", n), ("b", 1)]).items())), ("next-default", lambda n: next((x for x in (1, 2, 3) if x == n & 7), None)),
    ("next-iter", lambda n: next(iter([n]))), ("iter-sentinel", lambda n: list(iter(iter([n & 3, 1, 2]).__next__, 2))),
    ("all-gen", lambda n: bool(all(x & n for x in (1, 2)))), ("sum-gen", lambda n: sum(1 for x in (1, 2, 4) if x & n)),
    ("sorted-key", lambda n: sorted([n & 7, 3, 5], key=lambda x: -x)), ("max-key", lambda n: max([(n & 7, "a"), (3, "b")], key=lambda p: p[0])),
    ("min-default", lambda n: min([], default=n)), ("min-gen", lambda n: min(x for x in (n, 9))), ("max-map", lambda n: max(map(abs, [n, 4]))),
    ("cond-dict", lambda n: {k: v for k, v in [("a", n & 1), ("b", n & 2)] if v}), ("cond-list", lambda n: [k for k, v in [("a", n & 1), ("b", n & 2)] if v]),
    ("dict-merge", lambda n: {**{"a": 1}, **({"b": n} if n & 1 else {})}), ("dict-or", lambda n: {"a": 1} | {"a": n}),
    ("fstring-spec", lambda n: f"{n:#06x}|{n & 7!r:>4}|{n:,}|{n & 7:03}"), ("format-map", lambda n: "{a}-{b:x}".format_map({"a": n & 3, "b": n})),
    ("percent-dict", lambda n: "%(a)d %(b)x" % {"a": n, "b": n}), ("percent-hash", lambda n: "%#x %X %08x" % (n, n, n)),
    ("bytes-join", lambda n: b"".join(struct.pack("<H", x) for x in (n & 0xffff, 1))), ("pack-into", lambda n: pack_into(n)),
    ("iter-unpack", lambda n: [x for (x,) in struct.iter_unpack("<H", struct.pack("<I", n))]),
    ("unpack-from", lambda n: struct.unpack_from("<xH", struct.pack("<I", n))), ("struct-obj", lambda n: struct.Struct("<BxH").unpack(struct.pack("<I", n))),
    ("array-item", lambda n: bytearray(struct.pack("<I", n))[1]), ("int-index", lambda n: "abcdefgh"[n & 7]),
    ("slice-sym", lambda n: "abcdefgh"[:n & 3]), ("tuple-cmp", lambda n: bool((n & 7, 1) < (3, 0))), ("list-index", lambda n: [5, 6, 7].index(6 if n & 1 else 7)),
    ("list-in", lambda n: bool([n] == [5])), ("chain-cmp", lambda n: bool(1 < n & 15 <= 7 != 3)), ("is-none", lambda n: (None if n & 1 else 3) is None),
    ("isinstance", lambda n: [isinstance(n, int), isinstance(str(n), str), isinstance(n, (str, bytes)), type(n) is int]),
    ("callable", lambda n: [callable(n), hasattr(n, "bit_length")]), ("try-int", lambda n: int(str(n & 255))), ("int-base", lambda n: int("%x" % (n & 255), 16)),
    ("vars", lambda n: vars(Holder(n))), ("setattr", lambda n: set_get(n)), ("lambda-default", lambda n: (lambda x=n: x + 1)()), ("kwargs", lambda n: dict(a=n, **{"b": 2})),
    ("reversed", lambda n: list(reversed([n, 1]))), ("range-step", lambda n: list(range(0, 10, 3 if n & 1 else 4))), ("not", lambda n: not n & 1),
    ("or-default", lambda n: (n & 3) or "zero"), ("and-chain", lambda n: (n & 1) and (n & 2) and "both"), ("walrus", lambda n: [y := n & 3, y + 1]),
    ("bool-int", lambda n: (n & 1 == 1) + (n & 2 == 2)), ("bool-index", lambda n: ("no", "yes")[n & 1 == 1]), ("bool-mul", lambda n: "x" * (n & 1 == 1)),
    ("shift-sym", lambda n: 1 << (n & 7)), ("pow-sym", lambda n: 2 ** (n & 7)), ("xor", lambda n: n ^ (n >> 1)), ("neg-mod", lambda n: (-n) % 16),
    ("divmod2", lambda n: divmod(n, 1000)), ("to-bytes-le", lambda n: n.to_bytes(8, "little")), ("hex-strip", lambda n: hex(n).lstrip("0x")), ("hex-slice", lambda n: hex(n & 255)[2:].zfill(4)),
    ("str-join", lambda n: ", ".join(k for k, b in (("a", 1), ("b", 2)) if n & b)), ("bin-count", lambda n: bin(n & 15).count("1")), ("bit-count", lambda n: (n & 15).bit_count()),
    ("eval-order", lambda n: [x for x in (n & 1, n & 2) if x] or ["none"]), ("slice-assign", lambda n: slice_assign(n)), ("del", lambda n: del_item(n)),
    ("pop", lambda n: {"a": n}.pop("a", None)), ("setdefault", lambda n: {"a": 1}.setdefault("b", n)), ("popitem", lambda n: OrderedDict([("a", n)]).popitem()),
    ("extend", lambda n: extend(n)), ("insert", lambda n: insert(n)), ("sort", lambda n: sort(n)), ("copy", lambda n: [n, 2].copy() + list((n,))),
])


def pack_into(n):
    b = bytearray(6)
    struct.pack_into("<I", b, 1, n)
    b[0] = n & 255
    b += b"x"
    return bytes(b)


def set_get(n):
    h = Pt.__new__(Pt)
    object.__setattr__(h, "x", n)
    return getattr(h, "x", 0) + getattr(h, "nope", 1)


def slice_assign(n):
    x = [1, 2, 3]
    x[1:2] = [n, n]
    return x


def del_item(n):
    x = [1, n, 3]
    del x[0]
    d = {"a": n, "b": 2}
    del d["b"]
    return x + list(d.values())


def extend(n):
    x = [1]
    x.extend([n, 2])
    x += (3,)
    return x


def insert(n):
    x = [1, 2]
    x.insert(1, n)
    x.remove(2)
    return x + [x.pop()]


def sort(n):
    x = [n & 7, 3]
    x.sort(reverse=True)
    return x


INT.update(CODE)


TEXTS = OrderedDict([
    ("translate", lambda s: s.translate({97: "b", 98: None})), ("maketrans", lambda s: s.translate(str.maketrans("ab", "xy"))),
    ("splitter", lambda s: [p for p in s.replace("a", ",").split(",") if p]), ("startswith-tuple", lambda s: bool(s.startswith(("a", "b")))),
    ("eq-lower", lambda s: bool(s.lower() == "abc")), ("dict-key", lambda s: {"a": 1, "abc": 3}.get(s, 0)), ("in-tuple", lambda s: bool(s in ("a", "abc"))),
    ("in-set", lambda s: bool(s in {"a", "abc"})), ("match", lambda s: match_text(s)), ("cmp", lambda s: [bool(s == "a"), bool(s != "abc"), bool("b" > s)]),
    ("concat", lambda s: "x" + s + "\\"), ("fmt-pad", lambda s: f"[{s:<5}]"), ("index", lambda s: s[0] + s[-1]), ("chars", lambda s: [c for c in s if c != "a"]),
    ("any", lambda s: bool(any(c == "a" for c in s))), ("encode", lambda s: s.encode("utf-16-le", "surrogatepass")), ("unpack", lambda s: [*s]),
    ("zip", lambda s: list(zip(s, "xyz"))), ("mapord", lambda s: list(map(ord, s))), ("rfindsl", lambda s: s[s.rfind("\\") + 1:]), ("endsw", lambda s: s if s.endswith("\\") else s + "\\"),
    ("ternary", lambda s: s or "empty"), ("len", lambda s: len(s.strip())), ("repeat", lambda s: s * 3), ("isinst", lambda s: isinstance(s, str)), ("casefold", lambda s: bool(s.casefold() == "a")),
    ("reverse-join", lambda s: "".join(reversed(s))), ("iter", lambda s: next(iter(s))), ("expandtabs", lambda s: s.expandtabs()), ("title", lambda s: s.title()), ("swapcase", lambda s: s.swapcase()),
])


def match_text(s):
    match s:
        case "a" | "b":
            return 1
        case "abc":
            return 2
        case _:
            return 3


STR.update(TEXTS)


# ---- ways of computing with dates (n: 100 ns since 1601, 1601..9999)
import datetime as dt
from datetime import timezone, timedelta

EPOCH = 116444736000000000
B1601 = dt.datetime(1601, 1, 1)
B1970 = dt.datetime(1970, 1, 1)
UTC = timezone.utc


def secs(n):
    return (n - EPOCH) // 10000000


DATES = OrderedDict([
    ("utcfrom", lambda n: dt.datetime.utcfromtimestamp(secs(n))), ("fromtz", lambda n: dt.datetime.fromtimestamp(secs(n), UTC).replace(tzinfo=None)),
    ("fromtz-kw", lambda n: dt.datetime.fromtimestamp(secs(n), tz=timezone.utc).replace(tzinfo=None)),
    ("base", lambda n: B1601 + timedelta(microseconds=n // 10)), ("base-secs", lambda n: B1970 + timedelta(seconds=secs(n), microseconds=n % 10000000 // 10)),
    ("base-days", lambda n: B1601 + timedelta(days=n // 864000000000, microseconds=n % 864000000000 // 10)), ("td-mul", lambda n: B1601 + timedelta(microseconds=1) * (n // 10)),
    ("aware", lambda n: (dt.datetime(1970, 1, 1, tzinfo=UTC) + timedelta(seconds=secs(n))).replace(tzinfo=None)),
    ("replace-us", lambda n: dt.datetime.utcfromtimestamp(secs(n)).replace(microsecond=n // 10 % 1000000)), ("replace-0", lambda n: (B1601 + timedelta(microseconds=n // 10)).replace(microsecond=0)),
    ("strftime", lambda n: (B1601 + timedelta(seconds=n // 10000000)).strftime("%I:%M:%S %p %m/%d/%Y")), ("strftime-24", lambda n: (B1601 + timedelta(seconds=n // 10000000)).strftime("%H-%M %y %j")),
    ("fstring", lambda n: f"{B1601 + timedelta(seconds=n // 10000000):%I:%M:%S %p}"), ("format", lambda n: "{:%m/%d/%Y}".format(B1601 + timedelta(seconds=n // 10000000))),
    ("fields", lambda n: (lambda d: [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond])(B1601 + timedelta(microseconds=n // 10))),
    ("hour12", lambda n: (lambda d: "%d:%02d" % (d.hour % 12 or 12, d.minute))(B1601 + timedelta(seconds=n // 10000000))),
    ("ampm", lambda n: (lambda d: "AM" if d.hour < 12 else "PM")(B1601 + timedelta(seconds=n // 10000000))), ("date", lambda n: str((B1601 + timedelta(seconds=n // 10000000)).date())),
    ("time", lambda n: str((B1601 + timedelta(seconds=n // 10000000)).time())), ("combine", lambda n: (lambda d: dt.datetime.combine(d.date(), d.time()))(B1601 + timedelta(microseconds=n // 10))),
    ("iso", lambda n: (B1601 + timedelta(microseconds=n // 10)).isoformat()), ("str", lambda n: str(B1601 + timedelta(seconds=n // 10000000))), ("diff", lambda n: ((B1601 + timedelta(microseconds=n // 10)) - B1970) // timedelta(microseconds=1)),
    ("diff-days", lambda n: (lambda t: [t.days, t.seconds, t.microseconds])((B1601 + timedelta(microseconds=n // 10)) - B1970)), ("td-div", lambda n: timedelta(microseconds=n // 10) // timedelta(hours=1)),
    ("td-mod", lambda n: timedelta(microseconds=n // 10) % timedelta(hours=1) == timedelta(0)), ("td-divmod", lambda n: divmod(timedelta(microseconds=n // 10), timedelta(hours=1))[0]), ("timetuple", lambda n: list((B1601 + timedelta(seconds=n // 10000000)).timetuple()[:6])),
    ("cmp", lambda n: bool(B1601 + timedelta(microseconds=n // 10) < B1970)), ("ordinal", lambda n: dt.date.fromordinal(584389 - 1 + 1 + n // 864000000000).isoformat()), ("rep-tz", lambda n: (B1601.replace(tzinfo=UTC) + timedelta(microseconds=n // 10)).astimezone(UTC).replace(tzinfo=None)),
    ("td-sub", lambda n: B1970 - timedelta(microseconds=n % 10000000)), ("constructed", lambda n: dt.datetime(2000, 1 + n % 12, 1 + n % 28)), ("td-abs", lambda n: abs(timedelta(microseconds=5) - timedelta(microseconds=n % 10)) // timedelta(microseconds=1)),
    ("td-sum", lambda n: sum([timedelta(seconds=n % 60), timedelta(hours=1)], timedelta()) // timedelta(seconds=1)), ("td-seconds", lambda n: (lambda s: [s.seconds // 3600, s.seconds // 60 % 60, s.seconds % 60])(timedelta(seconds=n % 86400))), ("min", lambda n: min(B1601 + timedelta(microseconds=n // 10), B1970)),
    ("ctime", lambda n: (B1601 + timedelta(seconds=n // 10000000)).year), ("weekday", lambda n: (B1601 + timedelta(seconds=n // 10000000)).weekday()),
])


def on_date(f):
    def run(ctx):
        n = ctx.bits("v", 62)
        ctx.assume(n < 2650467743999999999)
        r = f(n)
        r = list(r) if isinstance(r, tuple) else r
        if isinstance(r, dt.datetime):
            r = [r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo is None]
        ctx.eq(r, r, "result")
    return run


_scenarios = scenarios


def scenarios(tier):
    return _scenarios(tier) + [Scenario("date-" + k, on_date(f), "") for k, f in DATES.items()]


# ---- shapes of classes and modules
import abc, typing
from collections import namedtuple, UserDict, UserList
from collections.abc import Mapping, Sequence, MutableMapping

NT = namedtuple("NT", "a b c", defaults=(3,))


class TN(typing.NamedTuple):
    a: int
    b: str = "x"

    @property
    def double(self):
        return self.a * 2


@functools.total_ordering
class Ord:
    __slots__ = ("k", "_m")

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return self.k == o.k if isinstance(o, Ord) else NotImplemented

    def __lt__(self, o):
        return self.k < o.k

    def __hash__(self):
        return hash(self.k)


class Base(abc.ABC):
    registry = {}

    def __init_subclass__(cls, code=None, **kw):
        super().__init_subclass__(**kw)
        Base.registry[code] = cls

    @abc.abstractmethod
    def read(self, n):
        ...

    @classmethod
    def make(cls, code):
        return cls.registry.get(code, Other)()

    @staticmethod
    def plus(a, b):
        return a + b


class One(Base, code=1):
    def read(self, n):
        return self.plus(n, 1)


class Two(Base, code=2):
    def read(self, n):
        return super().plus(n, 2)


class Other(Base, code=None):
    def read(self, n):
        return "other"


class Missing(dict):
    def __missing__(self, k):
        return "<%s>" % k


class Table(Sequence):
    def __init__(self, items):
        self._items = items

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]


class Map(MutableMapping):
    def __init__(self):
        self._d = {}

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class ListSub(list):
    def total(self):
        return sum(self)

    def __getitem__(self, i):
        return list.__getitem__(self, i) + 1


class DictSub(dict):
    def __getitem__(self, k):
        return super().__getitem__(k) if k in self else "none"


class Lazy:
    def __getattr__(self, name):
        if name.startswith("x"):
            return name
        raise AttributeError(name)


def deco(f):
    @functools.wraps(f)
    def inner(*a, **k):
        try:
            return f(*a, **k)
        except ZeroDivisionError:
            return "zero"
    return inner


@deco
def divide(n):
    return 100 // (n & 3)


def kwonly(n, /, *rest, key=2, **more):
    return [n, list(rest), key, sorted(more)]


@contextlib.contextmanager
def closing(n, log):
    log.append(n)
    try:
        yield n + 1
    except KeyError:
        log.append("key")
    finally:
        log.append("end")


def managed(n):
    log = []
    with closing(n, log) as x, contextlib.closing(BytesIO(b"ab")) as io:
        log.append([x, io.read(1)])
        if n & 1:
            raise KeyError
    return log


def stack(n):
    log = []
    with contextlib.ExitStack() as s:
        s.callback(log.append, n)
        s.enter_context(closing(n, log))
    return log


def chained_errors(n):
    try:
        try:
            return [10, 20][n & 3]
        except IndexError as e:
            raise ValueError("bad %d" % (n & 3)) from e
    except ValueError as e:
        return [str(e), type(e.__cause__).__name__, list(e.args)]


def own_error(n):
    class Bad(Exception):
        def __init__(self, code):
            super().__init__("code {}".format(code))
            self.code = code
    try:
        if n & 1:
            raise Bad(n)
    except Bad as b:
        return [b.code, isinstance(b, Exception)]
    return None


def user(n):
    d = UserDict()
    d["a"] = n
    l = UserList([1, n])
    l.append(2)
    return [d["a"], d.get("b", 1), list(l), len(l)]


def state(n):
    s = "start"
    out = []
    steps = {"start": lambda: ("mid", n & 1), "mid": lambda: ("end", n & 2)}
    while s in steps:
        s, v = steps[s]()
        out.append(v)
    return out


def recurse(n):
    def f(k):
        return 0 if k == 0 else (n >> k & 1) + f(k - 1)
    return f(5)


def seq_unpack(n):
    head, *tail = struct.unpack("<BBH", struct.pack("<I", n))
    return [head, tail, [x for x, y in zip(tail, tail[1:]) if x or y]]


def io_ops(n):
    io = BytesIO(struct.pack("<IHB", n, 7, 1))
    out = [io.read(2), io.tell(), io.seek(-1, 2), io.read(), io.seek(1), io.read(100), io.read(1)]
    with io.getbuffer() as view:
        out.append(len(view))
    io2 = BytesIO()
    io2.write(struct.pack("<H", n & 0xffff))
    io2.write(b"zz")
    out += [io2.getvalue(), io2.tell(), io2.seek(0), io2.truncate(1), io2.getvalue()]
    return out


class Meta(type):
    def __call__(cls, *a):
        o = super().__call__(*a)
        o.tag = cls.__name__
        return o


class WithMeta(metaclass=Meta):
    def __init__(self, n):
        self.n = n


class Prop:
    def __init__(self, n):
        self._n = n

    @property
    def n(self):
        return self._n

    @n.setter
    def n(self, v):
        self._n = v & 1

    __str__ = lambda self: "Prop(%d)" % self._n

    def __repr__(self):
        return f"<{self!s}>"

    def __bool__(self):
        return self._n != 0

    def __iter__(self):
        yield self._n
        yield 1

    def __add__(self, o):
        return Prop(self._n + (o._n if isinstance(o, Prop) else o))

    __radd__ = __add__

    def __index__(self):
        return self._n


def prop(n):
    p = Prop(n & 7)
    out = [str(p), repr(p), bool(p), list(p), (p + 1).n, (2 + p).n, sum([p, p], Prop(0)).n]
    p.n = n
    return out + [p.n, "abcdefgh"[p]]


CLASSES = OrderedDict([
    ("nt", lambda n: [NT(n, 1), NT(n, 1)._replace(b=n), NT(n, 1)._asdict(), NT._make([n, 1, 2]).a, NT(1, n)[1], list(NT(n, 2))]),
    ("nt-eq", lambda n: bool(NT(n, 1) == NT(5, 1))), ("tn", lambda n: [TN(n).double, TN(n).b, TN(a=n, b="y")]), ("nt-unpack", lambda n: (lambda a, b, c: [c, a])(*NT(n, 1))),
    ("ord", lambda n: [bool(Ord(n) < Ord(5)), bool(Ord(n) >= Ord(5)), bool(Ord(n) == Ord(5)), bool(Ord(n) != 5)]), ("ord-sorted", lambda n: [o.k for o in sorted([Ord(n & 3), Ord(1)])]),
    ("registry", lambda n: Base.make(n & 3).read(n)), ("missing", lambda n: Missing({1: "a"})[n & 3]), ("table", lambda n: [list(Table([n, 1])), bool(5 in Table([n])), Table([n, 2])[::-1], len(Table([1])), list(reversed(Table([n, 3])))]),
    ("table-index", lambda n: Table([7, 8]).index(7 + (n & 1))), ("map", lambda n: mapping(n)), ("listsub", lambda n: [ListSub([n, 1]).total(), ListSub([n])[0], list(ListSub([n]))]), ("dictsub", lambda n: DictSub({1: "a"})[n & 3]),
    ("lazy", lambda n: [Lazy().xyz, getattr(Lazy(), "q", n)]), ("deco", divide), ("kwonly", lambda n: kwonly(n, 1, key=n, z=1)), ("managed", managed), ("stack", stack), ("chained-errors", chained_errors), ("own-error", own_error),
    ("user", user), ("state", state), ("recurse", recurse), ("seq-unpack", seq_unpack), ("io", io_ops), ("meta", lambda n: [WithMeta(n).n, WithMeta(n).tag]), ("prop", prop),
    ("type-call", lambda n: type("T", (), {"v": n})().v), ("partialmethod", lambda n: PM().twice(n)), ("zip-strict", lambda n: list(zip([n], [1], strict=True))), ("dict-view", lambda n: [list({"a": n}.keys()), list({"a": n}.values()), ("a", 1) in {"a": n}.items()]),
    ("dict-eq", lambda n: bool({"a": n} == {"a": 5})), ("list-eq", lambda n: bool([n, 1] == [5, 1])), ("list-less", lambda n: bool([n & 3, 1] < [2, 0])), ("dict-iter", lambda n: [k for k in OrderedDict(a=n)]), ("move", lambda n: moved(n)),
    ("own-len", lambda n: ["yes" if Sized(n & 1) else "no", not Sized(n & 2), len(Sized(n & 3))]), ("own-contains", lambda n: [bool((n & 3) in Odd()), "a" if n & 1 in Odd([5]) else "b"]),
    ("fmt-count", lambda n: counted("<%dH", n & 3)), ("fmt-count-2", lambda n: counted("<{}H".format(n & 3), None)), ("fmt-size", lambda n: struct.calcsize("<%dI" % (n & 3))), ("fmt-pack", lambda n: struct.pack("<%dB" % (n & 3), *range(n & 3))), ("fmt-obj", lambda n: [struct.Struct("<%dH" % (n & 3)).size, struct.Struct("<B%dH" % (n & 3)).unpack_from(b"abcdefghi")]),
    ("gen-masks", lambda n: ["|".join(gen_masks(n)), list(gen_masks(n)), [x for x in gen_masks(n)], next(gen_masks(n), None), sorted(gen_masks(n)), len(list(gen_masks(n)))]), ("gen-count", lambda n: [sum(1 for _ in gen_masks(n & 7)), "b" in gen_masks(n & 2), any(gen_masks(n)), dict(enumerate(gen_masks(n & 3)))]), ("gen-early", lambda n: [list(gen_early(n)), list(gen_early(n, iter([1, 2])))]),
    ("hash-eq", lambda n: hash(n) == hash(n)), ("nested-comp", lambda n: [[x * y for x in (1, n)] for y in (1, 2)]), ("cond-expr", lambda n: "a" if n & 1 else "b" if n & 2 else "c"), ("lambda-list", lambda n: [f(n) for f in (lambda x: x + 1, hex)]),
    ("global", lambda n: glob(n)), ("bytes-fmt", lambda n: b"%d-%s" % (n & 7, b"x")), ("str-bytes", lambda n: str(struct.pack("<H", n & 0x7f7f), "latin-1")), ("enum-iter", lambda n: {m.value: m.name for m in Num}.get(n & 15)),
    ("enum-members", lambda n: [k for k, m in Num.__members__.items() if m == n & 15]), ("enum-try", lambda n: Num(n & 3) if n & 3 in (1, 2) else None), ("enum-cmp", lambda n: [bool(n & 15 >= Num.TWO), bool(Num.TEN > n & 15), n & 15 in (Num.ONE, Num.TWO)]),
    ("enum-in", lambda n: bool((n & 3) in {Num.ONE, Num.TWO})), ("enum-list", lambda n: [x.name for x in (Num.ONE, Num.TEN) if n & x]), ("enum-fmt", lambda n: "{}".format(Num.TEN + (n & 1))),
])


MASKS = OrderedDict([(3, "ab"), (1, "a"), (2, "b"), (4, "c")])


def gen_masks(n):
    for bits, name in MASKS.items():
        if n & bits == bits:
            yield name
            n &= ~bits


def gen_early(n, xs=(1, 2, 4)):
    for x in xs:
        if n & 8:
            return
        if n & x:
            yield x


class Sized:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class Odd(list):
    def __contains__(self, x):
        return x & 1 == 1


def counted(fmt, n):
    try:
        return struct.unpack(fmt % n if n is not None else fmt, b"abcd")
    except struct.error:
        return "error"


class PM:
    def times(self, k, n):
        return n * k
    twice = functools.partialmethod(times, 2)


_count = 0


def glob(n):
    global _count
    _count = n
    return _count + 1


def mapping(n):
    m = Map()
    m["a"] = n
    m.update(b=1)
    return [m["a"], m.get("c"), sorted(m), m.setdefault("d", n), m.pop("b"), dict(m), "a" in m, len(m)]


def moved(n):
    d = OrderedDict([("a", n), ("b", 2)])
    d.move_to_end("a")
    return list(d.items())


INT.update(("class-" + k, f) for k, f in CLASSES.items())


# ---- containers of other kinds
from collections import ChainMap, Counter
import operator

CHAIN = ChainMap({0: True, 2: True, 3: True}, {1: False, 4: False, 5: False})
SMALL = frozenset({1, 2, 5})


class Missing(dict):
    def __missing__(self, key):
        return "0x" + format(key, "X")


OTHERS = OrderedDict([
    ("chainmap-get", lambda n: CHAIN.get(n, "other")), ("chainmap-in", lambda n: bool(n in CHAIN)),
    ("chainmap-item", lambda n: CHAIN[n] if n in CHAIN else None),
    ("frozenset-intersection", lambda n: bool(SMALL.intersection((n,)))),
    ("set-intersection", lambda n: bool({1, 2, 5}.intersection((n,)))), ("set-and", lambda n: bool({1, 2, 5} & {n})),
    ("frozenset-isdisjoint", lambda n: SMALL.isdisjoint([n])), ("set-issuperset", lambda n: SMALL.issuperset([n, 1])),
    ("set-of", lambda n: len({n, 1, 2})), ("set-union", lambda n: sorted(SMALL.union([n]))),
    ("set-difference", lambda n: sorted(SMALL - {n})), ("set-issubset", lambda n: {n}.issubset({1, 2, 3})),
    ("missing", lambda n: Missing({1: "one", 7: "seven"})[n]), ("counter", lambda n: Counter([n, 1, 1])[1]),
    ("tuple-index", lambda n: (1, 2, 5).index(n) if n in (1, 2, 5) else -1), ("tuple-count", lambda n: (1, 2, 1).count(n)),
    ("accumulate", lambda n: list(itertools.accumulate((1, 2, 4), lambda r, b: r & ~b if r & b == b else r, initial=n))),
    ("accumulate-guard", lambda n: [s for r, s in zip(itertools.accumulate((1, 2, 4), lambda r, b: r & ~b, initial=n), "abc") if r & 1]),
    ("filterfalse", lambda n: list(itertools.filterfalse(lambda p: not p & n, (1, 2, 4)))),
    ("first-matching", lambda n: list(itertools.islice(itertools.filterfalse(lambda p: not p & n, (1, 2, 4)), 1))),
    ("reduce-guard", lambda n: functools.reduce(operator.or_, (m for b, m in zip((1, 2, 4), (16, 32, 64)) if n & b), n)),
    ("zfill", lambda n: str(n).zfill(8)), ("zfill-cut", lambda n: (str(n).zfill(8)[:-7], str(n).zfill(8)[-7:])),
    ("star-format", lambda n: "%02d:%02d.%03d" % (*divmod(n, 60), n)), ("pick", lambda n: ("a", "b")[bool(n)]),
    ("bool-start", lambda n: list(enumerate("ab", bool(n)))), ("format-map", lambda n: "{x:x} {y}".format_map(dict(x=n, y=n % 4))),
    ("bits-list", lambda n: [bool(n >> b & 1) for b in range(3)]), ("xor-divmod", lambda n: divmod(n ^ 0x80, 1 << 7)),
    ("product-key", lambda n: {k: 1 for k in itertools.product([1], [2, 3])}.get((1, n), 0)),
    ("compress", lambda n: list(itertools.compress("abc", (n & 1, n & 2, n & 4)))),
    ("dropwhile", lambda n: list(itertools.dropwhile(lambda b: b < n, (1, 5, 9)))),
    ("takewhile", lambda n: list(itertools.takewhile(lambda b: b < n, (1, 5, 9)))),
    ("groupby", lambda n: [(k, len(list(g))) for k, g in itertools.groupby((1, 5, 9), lambda b: bool(b < n))]),
    ("sum-bits", lambda n: sum(1 for b in range(4) if n >> b & 1)), ("max-key", lambda n: max((n, 3, 9), key=lambda v: v ^ 1)),
    ("sorted-key", lambda n: sorted((n, 3, 9), key=lambda v: -v)), ("any-all", lambda n: (any(b == n for b in (1, 2)), all(b < n for b in (1, 2)))),
    ("next-default", lambda n: next((s for b, s in ((1, "a"), (2, "b")) if n & b), "none")),
    ("next-iter", lambda n: next(iter((n, 1)))), ("starmap", lambda n: list(itertools.starmap(divmod, [(n, 2), (2, 3)]))),
    ("zip-longest", lambda n: list(itertools.zip_longest([n], [1, 2], fillvalue=n))),
    ("pairwise", lambda n: list(itertools.pairwise([n, 1, 2]))), ("chain", lambda n: list(itertools.chain([n], (1,), range(2)))),
    ("tee", lambda n: [list(t) for t in itertools.tee(iter([n, 1]))]), ("cycle", lambda n: list(itertools.islice(itertools.cycle([n, 1]), 3))),
    ("map-two", lambda n: list(map(operator.add, [n, 1], [1, n]))), ("reversed", lambda n: list(reversed([n, 1]))),
    ("itemgetter", lambda n: operator.itemgetter(0, 1)([n, 5])), ("methodcaller", lambda n: operator.methodcaller("bit_length")(n)),
    ("hex-replace", lambda n: hex(n)[2:].upper()), ("int-str", lambda n: int(str(n))), ("bin-count", lambda n: bin(n & 15).count("1")),
    ("rfind-hex", lambda n: "{:04x}".format(n)[:2]), ("oct", lambda n: oct(n & 7)),
    ("round-trip", lambda n: int.from_bytes(n.to_bytes(4, "little"), "big")), ("not-in", lambda n: n not in {1, 2, 3}),
    ("chained", lambda n: 1 <= n < 5 != n), ("ternary-nest", lambda n: "a" if n < 1 else "b" if n < 5 else "c"),
])
INT.update(("other-" + k, f) for k, f in OTHERS.items())

MASKS = OrderedDict([(1 << i, chr(97 + i)) for i in range(8)] + [(0xc0, "z")])


def masks_accumulated(mask):
    left = itertools.accumulate(MASKS, lambda rest, bits: rest & ~bits if rest & bits == bits else rest, initial=mask)
    return ", ".join(string for rest, (bits, string) in zip(left, MASKS.items()) if not bits & ~rest)


INT["other-masks-accumulated"] = masks_accumulated
INT["other-masks-v1"] = lambda mask: ", ".join(s for bits, s in MASKS.items() if not bits & ~mask)
INT["other-masks-v2"] = lambda mask: ", ".join(s for r, (bits, s) in zip([mask] * 9, MASKS.items()) if not bits & ~r)
INT["other-masks-v3"] = lambda mask: ", ".join(s for r, (bits, s) in zip(itertools.repeat(mask), MASKS.items()) if not bits & ~r)
INT["other-masks-v4"] = lambda mask: len(list(itertools.accumulate(MASKS, lambda rest, bits: rest & ~bits if rest & bits == bits else rest, initial=mask)))
INT["other-masks-v5"] = lambda mask: (lambda rest, bits: rest & ~bits if rest & bits == bits else rest)(mask, 7) 
INT["other-masks-v6"] = lambda mask: ", ".join([s for bits, s in MASKS.items() if not bits & ~mask])
INT["other-range-step"] = lambda n: [(list(range(0, n & 7, 2)), len(range(1, n & 7, 3))), [i for i in range(0, n, 2) if i < 4 or n < 9][:9] if n < 20 else None]
BYTES_MORE = OrderedDict([
    ("hexlify-sep", lambda b: binascii.hexlify(b, " ").decode().upper()), ("hexlify-2", lambda b: binascii.b2a_hex(b, "-", 2)),
    ("hex-sep-2", lambda b: b.hex(":", 2)), ("hex-sep-left", lambda b: b.hex(":", -2)), ("hexlify", lambda b: binascii.hexlify(b)),
    ("hexlify-sep-bytes", lambda b: binascii.hexlify(b, b"-", 1)),
])
import binascii
BYTES.update(("more-" + k, f) for k, f in BYTES_MORE.items())
for _w in (0, 3, 8):
    for _c in (1, 2, 3, 7):
        INT["other-zcut-%d-%d" % (_w, _c)] = lambda n, w=_w, c=_c: (str(n).zfill(w)[:-c], str(n).zfill(w)[-c:], str(n).rjust(w, "0"), "{:05d}".format(n)[-c:])
