"""Symbolic-aware stand-ins for the parts of the standard library that the code under test calls into C for.

Each stands for the documented behaviour of the real module and delegates to it on concrete values.
"""
import binascii as _binascii
import codecs as _codecs
import datetime as _datetime
import io as _io
import ipaddress as _ipaddress
import struct as _struct
import types
import z3
from . import values as V, hooks as H
from .core import Unsupported
from .values import SymInt, SymBool, SymBytes, SymStr, SymOpaque, is_sym, contains_sym, mkbool, zb

E = V.E


def module(name, real, **over):
    m = types.ModuleType(name)
    for k in dir(real):
        if not (k.startswith("__") and k not in ("__doc__",)):
            setattr(m, k, getattr(real, k))
    for k, v in over.items():
        setattr(m, k, v)
    return m


# ------------------------------------------------------------------------------------------- struct
_SIZES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
          "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order, s = "@", fmt
    if s and s[0] in "@=<>!":
        order, s = s[0], s[1:]
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c.isspace():
            i += 1
            continue
        n = ""
        while i < len(s) and s[i].isdigit():
            n += s[i]
            i += 1
        c = s[i]
        i += 1
        n = int(n) if n else None
        if c in "sp":
            out.append((c, 1 if n is None else n))
        elif c == "x":
            out.append(("x", 1 if n is None else n))
        else:
            out.extend([(c, 1)] * (1 if n is None else n))
    return order, out


def _unpack(fmt, items):
    """items: exactly calcsize(fmt) byte items"""
    order, codes = parse_fmt(fmt)
    if order == "@":
        # native alignment: only handled where it makes no difference
        if len(codes) > 1 and _struct.calcsize(fmt) != _struct.calcsize("=" + fmt.lstrip("@")):
            raise Unsupported("native struct alignment")
    bo = "big" if order in ">!" else "little"
    out, p = [], 0
    for c, n in codes:
        if c == "x":
            p += n
        elif c == "s":
            out.append(V.mkbytes(items[p:p + n]))
            p += n
        elif c == "c":
            out.append(V.mkbytes(items[p:p + 1]))
            p += 1
        elif c == "?":
            b = items[p]
            out.append(bool(b) if isinstance(b, int) else mkbool(b != z3.BitVecVal(0, 8)))
            p += 1
        elif c in _SIZES:
            size, signed = _SIZES[c]
            if order == "@" and c in "lL":
                size = 8
            out.append(V.bytes_to_int(list(items[p:p + size]), bo, signed))
            p += size
        else:
            size = _struct.calcsize(("=" if order == "@" else order) + c)
            raw = bytes(V.concretise(V.mkbytes(items[p:p + size])))
            out.append(_struct.unpack(("=" if order == "@" else order) + c, raw)[0])
            p += size
    return tuple(out)


def sized_format(fmt, n):
    """the concrete format for a buffer of n bytes, fmt having symbolic repeat counts"""
    if not is_sym(fmt):
        return fmt
    size = s_calcsize(fmt)
    if type(size) is SymInt:
        if not E().fork(zb(size == n)):
            raise _struct.error("unpack requires a buffer of a different size")
    return V.exact(fmt)


def s_calcsize(fmt):
    if not is_sym(fmt):
        return _struct.calcsize(fmt)
    if type(fmt) is SymStr:
        counts = [(i, c) for i, c in enumerate(fmt.items) if type(c) is V.Fmt and c.spec in ("", "d")]
        if len(counts) == 1 and all(type(c) is int for c in fmt.items if type(c) is not V.Fmt) and fmt.items[0] in map(ord, "<>=!"):
            i, c = counts[0]
            order, head = chr(fmt.items[0]), "".join(map(chr, fmt.items[1:i]))
            tail = "".join(map(chr, fmt.items[i + 1:]))
            if tail and tail[0] in "bBhHiIlLqQs?cxfd" and (not head or not head[-1].isdigit()) and not E().fork(zb(c.x < 0)):
                return c.x * _struct.calcsize(order + tail[0]) + _struct.calcsize(order + head) + _struct.calcsize(order + tail[1:])
    return _struct.calcsize(V.exact(fmt))


def s_unpack(fmt, buf):
    if is_sym(fmt):
        fmt = sized_format(fmt, len(V.bitems(buf)))
    if not (is_sym(buf) or type(buf) is H.SymByteArray):
        return _struct.unpack(fmt, buf)
    items = V.bitems(buf)
    _struct.unpack(fmt, bytes(len(items)))  # the real module's size check
    return _unpack(fmt, items)


def s_unpack_from(fmt, buffer, offset=0):
    if is_sym(fmt):
        size = s_calcsize(fmt)
        off = offset
        n = len(V.bitems(buffer))
        if type(size) is SymInt and E().fork(zb(size > (n - off if type(off) is int and off >= 0 else n))):
            raise _struct.error("unpack_from requires a larger buffer")
        fmt = V.exact(fmt)
    if type(offset) is SymInt:
        offset = offset.__index__()
    if not (is_sym(buffer) or type(buffer) is H.SymByteArray):
        return _struct.unpack_from(fmt, buffer, offset)
    items = V.bitems(buffer)
    _struct.unpack_from(fmt, bytes(len(items)), offset)
    if offset < 0:
        offset += len(items)
    return _unpack(fmt, items[offset:offset + _struct.calcsize(fmt)])


def s_iter_unpack(fmt, buf):
    if not is_sym(buf) and not is_sym(fmt):
        for t in _struct.iter_unpack(fmt, buf):
            yield t
        return
    fmt = V.exact(fmt)
    n = _struct.calcsize(fmt)
    _struct.iter_unpack(fmt, bytes(len(buf)))
    for i in range(0, len(buf), n):
        yield _unpack(fmt, V.bitems(buf)[i:i + n])


def s_pack(fmt, *vals):
    fmt = V.exact(fmt)
    if is_sym(fmt):
        fmt = V.concretise(fmt)
    if not any(contains_sym(v) for v in vals):
        return _struct.pack(fmt, *vals)
    order, codes = parse_fmt(fmt)
    if order == "@" and len(codes) > 1 and _struct.calcsize(fmt) != _struct.calcsize("=" + fmt.lstrip("@")):
        raise Unsupported("native struct alignment")
    bo = "big" if order in ">!" else "little"
    out, vi = [], 0
    nvals = sum(1 for c, n in codes if c != "x")
    if nvals != len(vals):
        raise _struct.error("pack expected %d items for packing (got %d)" % (nvals, len(vals)))
    for c, n in codes:
        if c == "x":
            out.extend([0] * n)
            continue
        v = vals[vi]
        vi += 1
        if c == "s":
            its = list(V.bitems(v))[:n]
            out.extend(its + [0] * (n - len(its)))
        elif c == "c":
            its = list(V.bitems(v))
            if len(its) != 1:
                raise _struct.error("char format requires a bytes object of length 1")
            out.extend(its)
        elif c == "?":
            if type(v) is SymBool or type(v) is SymInt:
                b = V.zb(v if type(v) is SymBool else (v != 0))
                out.append(z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            else:
                out.append(1 if v else 0)
        elif c in _SIZES:
            size, signed = _SIZES[c]
            if order == "@" and c in "lL":
                size = 8
            if type(v) in (SymInt, SymBool):
                if type(v) is SymBool:
                    v = v._int()
                lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
                bad = z3.Or(zb(v < lo), zb(v > hi))
                if E().fork(z3.simplify(bad)):
                    raise _struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
                out.extend(V.bitems(V.int_to_bytes(v, size, bo)))
            else:
                if is_sym(v):
                    raise _struct.error("required argument is not an integer")
                out.extend(_struct.pack(("=" if order == "@" else order) + c, v))
        else:
            out.extend(_struct.pack(("=" if order == "@" else order) + c, V.concretise(v)))
    return V.mkbytes(out)


def s_pack_into(fmt, buffer, offset, *vals):
    fmt = V.exact(fmt)
    if type(buffer) is not H.SymByteArray and not any(contains_sym(v) for v in vals) and not is_sym(offset):
        return _struct.pack_into(fmt, buffer, offset, *vals)
    if type(buffer) is not H.SymByteArray:
        raise Unsupported("pack_into")
    if type(offset) is SymInt:
        offset = offset.__index__()
    _struct.pack_into(fmt, bytearray(len(buffer)), offset, *_struct.unpack(fmt, bytes(_struct.calcsize(fmt))))
    if offset < 0:
        offset += len(buffer)
    buffer[offset:offset + _struct.calcsize(fmt)] = s_pack(fmt, *vals)


class Struct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = s_calcsize(fmt)

    def unpack(self, buf):
        return s_unpack(self.format, buf)

    def unpack_from(self, buffer, offset=0):
        return s_unpack_from(self.format, buffer, offset)

    def iter_unpack(self, buf):
        return s_iter_unpack(self.format, buf)

    def pack(self, *v):
        return s_pack(self.format, *v)

    def pack_into(self, buffer, offset, *v):
        return s_pack_into(self.format, buffer, offset, *v)


struct_m = module("struct", _struct, Struct=Struct, unpack=s_unpack, unpack_from=s_unpack_from, pack=s_pack,
                  iter_unpack=s_iter_unpack, pack_into=s_pack_into, calcsize=s_calcsize)


# ------------------------------------------------------------------------------------------- io
class BytesIO(object):
    """io.BytesIO over possibly symbolic bytes; the length is concrete, the position may be symbolic"""

    def __init__(self, initial=b""):
        if initial is None:
            initial = b""
        if isinstance(initial, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self._b = list(V.bitems(initial))
        self._p = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def flush(self): pass
    def isatty(self): return False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _pos(self):
        """concrete position, or len(buffer) for any position at or past the end"""
        p = self._p
        if type(p) is not int:
            if E().fork(zb(p >= len(self._b))):
                return len(self._b)
            self._p = p = p.__index__()
        return min(p, len(self._b))

    def tell(self):
        self._chk()
        return self._p

    def seek(self, off, whence=0):
        self._chk()
        if type(off) is SymBool:
            off = off._int()
        if not isinstance(off, int):
            off = off.__index__() if hasattr(off, "__index__") else _io.BytesIO().seek(off)
        if whence == 0:
            if bool(off < 0):
                raise ValueError("negative seek value %s" % (off if type(off) is int else "<symbolic>"))
            p = off
        elif whence == 1:
            p = self._p + off
            if bool(p < 0):
                p = 0
        elif whence == 2:
            p = len(self._b) + off
            if bool(p < 0):
                p = 0
        else:
            raise ValueError("invalid whence (%r, should be 0, 1 or 2)" % (whence,))
        if type(p) is SymInt and bool(p > (1 << 63) - 1):
            raise OverflowError("Python int too large to convert to C ssize_t")
        if type(p) is int and p > (1 << 63) - 1:
            raise OverflowError("Python int too large to convert to C ssize_t")
        self._p = p
        return p

    def read(self, n=-1):
        self._chk()
        if n is None:
            n = -1
        if not isinstance(n, int):
            n = n.__index__()
        p = self._pos()
        avail = len(self._b) - p
        if type(n) is SymBool:
            n = n._int()
        if type(n) is SymInt:
            if bool(n > (1 << 63) - 1):
                raise OverflowError("Python int too large to convert to C ssize_t")
            if bool(mkbool(z3.Or(zb(n < 0), zb(n >= avail)))):
                n = avail
            else:
                n = n.__index__()
        elif n > (1 << 63) - 1:
            raise OverflowError("cannot fit 'int' into an index-sized integer")
        if n < 0 or n > avail:
            n = avail
        r = V.mkbytes(self._b[p:p + n])
        if n:
            self._p = p + n
        return r
    read1 = read

    def readinto(self, b):
        if type(b) is not H.SymByteArray:
            raise Unsupported("readinto")
        its = V.bitems(self.read(len(b)))
        b.items[:len(its)] = its
        return len(its)

    def readline(self, n=-1):
        raise Unsupported("readline")

    def peek(self, n=0):
        p = self._pos()
        return V.mkbytes(self._b[p:])

    def getvalue(self):
        self._chk()
        return V.mkbytes(self._b)

    def getbuffer(self):
        v = self.getvalue()
        return memoryview(v) if type(v) in (bytes, bytearray) else v

    def write(self, data):
        self._chk()
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        its = list(V.bitems(data))
        p = self._p if type(self._p) is int else self._p.__index__()
        if its:
            if p > len(self._b):
                self._b.extend([0] * (p - len(self._b)))
            self._b[p:p + len(its)] = its
            self._p = p + len(its)
        return len(its)

    def truncate(self, n=None):
        n = self._p if n is None else n
        n = n.__index__()
        del self._b[n:]
        return n

    def __iter__(self):
        raise Unsupported("line iteration")


io_m = module("io", _io, BytesIO=BytesIO)


FILES = {}      # path -> contents, the files of a scenario


def m_open(*a, **k):
    b = dict(zip(("file", "mode", "buffering"), a))
    b.update(k)
    path = b.pop("file", None)
    if not isinstance(path, str) or path not in FILES:
        return _io.open(*a, **k)
    if b.get("mode") not in ("rb", "br") or set(b) - {"mode", "buffering"}:
        raise Unsupported("open of a scenario's file in another mode")
    return BytesIO(FILES[path])


H.FUNC[_io.open] = m_open


# ------------------------------------------------------------------------------------------- binascii
def b2a_hex(data, sep=None, bytes_per_sep=1):
    if is_sym(data):
        return _HexBytes(V.hex_items(data.items, sep, bytes_per_sep))
    return _binascii.b2a_hex(data) if sep is None else _binascii.b2a_hex(data, sep, bytes_per_sep)


class _HexBytes(SymBytes):
    """bytes of the hexadecimal digits; decode('ascii') gives the digit characters back"""
    __slots__ = ("chars",)

    def __init__(self, chars):
        self.chars = tuple(chars)
        SymBytes.__init__(self, [z3.simplify(z3.Extract(7, 0, c)) if not isinstance(c, int) else c for c in chars])

    def decode(self, encoding="utf-8", errors="strict"):
        return V.mkstr(list(self.chars))


V._SYMSET = frozenset(V.SYM) | {_HexBytes}
binascii_m = module("binascii", _binascii, b2a_hex=b2a_hex, hexlify=b2a_hex)


# ------------------------------------------------------------------------------------------- codecs
def c_decode(obj, encoding="utf-8", errors="strict"):
    if is_sym(obj):
        return obj.decode(encoding, errors)
    return _codecs.decode(obj, encoding, errors)


def c_encode(obj, encoding="utf-8", errors="strict"):
    if is_sym(obj):
        return obj.encode(encoding, errors)
    return _codecs.encode(obj, encoding, errors)


codecs_m = module("codecs", _codecs, decode=c_decode, encode=c_encode,
                  utf_16_le_decode=lambda b, e="strict", f=False: (b.decode("utf-16-le", e), len(b)))


# ------------------------------------------------------------------------------------------- ipaddress
class _SymIP(object):
    _sx_model = True
    version = 4

    def __init__(self, items):
        self._items = tuple(items)

    def _groups(self):
        raise NotImplementedError

    @property
    def packed(self):
        return V.mkbytes(self._items)

    def __str__(self):
        return V.concretise(self._sx_str())
    __repr__ = __str__

    def _sx_format(self, spec):
        if spec not in ("", "s"):
            raise Unsupported("format of an address")
        return self._sx_str()

    def __int__(self):
        return V.bytes_to_int(list(self._items), "big")

    def __eq__(self, o):
        if isinstance(o, (_SymIP, _ipaddress.IPv4Address, _ipaddress.IPv6Address)):
            return self.version == o.version and self.packed == o.packed
        return False

    def __hash__(self):
        return object.__hash__(self)

    @property
    def exploded(self):
        return self._sx_exploded()


class _SymIPv4(_SymIP):
    version = 4

    @property
    def __class__(self):
        return _ipaddress.IPv4Address

    def _sx_str(self):
        out = []
        for k, b in enumerate(self._items):
            if k:
                out.append(46)
            out.extend(V.items_of(V.to_str(b if isinstance(b, int) else SymInt(b, "u", 0, 255))))
        return V.mkstr(out)
    _sx_exploded = _sx_str

    @property
    def compressed(self):
        return self._sx_str()


class _SymIPv6(_SymIP):
    version = 6

    @property
    def __class__(self):
        return _ipaddress.IPv6Address

    def _hextets(self):
        return [V.bytes_to_int(list(self._items[i:i + 2]), "big") for i in range(0, 16, 2)]

    def _sx_exploded(self):
        out = []
        for k, h in enumerate(self._hextets()):
            if k:
                out.append(58)
            out.extend(V.items_of(V.fmt_value(h, "04x") if type(h) is SymInt else "%04x" % h))
        return V.mkstr(out)

    def _sx_str(self):
        hs = self._hextets()
        zero = [bool(h == 0) for h in hs]
        # RFC 5952 as in the real module: longest run of zeroes of length > 1, the first one on ties
        best, bl, i = -1, 0, 0
        while i < 8:
            if zero[i]:
                j = i
                while j < 8 and zero[j]:
                    j += 1
                if j - i > bl:
                    best, bl = i, j - i
                i = j
            else:
                i += 1
        parts = [list(V.items_of(V.fmt_value(h, "x") if type(h) is SymInt else "%x" % h)) for h in hs]
        def join(ps):
            out = []
            for k, q in enumerate(ps):
                if k:
                    out.append(58)
                out.extend(q)
            return out
        if bl > 1:
            return V.mkstr(join(parts[:best]) + [58, 58] + join(parts[best + bl:]))
        return V.mkstr(join(parts))

    @property
    def compressed(self):
        return self._sx_str()

    @property
    def ipv4_mapped(self):
        head = V.mkbytes(self._items[:12])
        if bool(head == b"\0" * 10 + b"\xff\xff"):
            return _SymIPv4(self._items[12:])
        return None


class _IPMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)


class IPv4Address(metaclass=_IPMeta):
    real = _ipaddress.IPv4Address

    def __new__(cls, a):
        if is_sym(a):
            if isinstance(a, bytes):
                if len(a) != 4:
                    raise _ipaddress.AddressValueError("packed length")
                return _SymIPv4(V.bitems(a))
            if type(a) is SymInt:
                if bool(mkbool(z3.Or(zb(a < 0), zb(a >= 1 << 32)))):
                    raise _ipaddress.AddressValueError("range")
                return _SymIPv4(V.bitems(V.int_to_bytes(a, 4, "big")))
            a = V.concretise(a)
        return _ipaddress.IPv4Address(a)


class IPv6Address(metaclass=_IPMeta):
    real = _ipaddress.IPv6Address

    def __new__(cls, a):
        if is_sym(a):
            if isinstance(a, bytes):
                if len(a) != 16:
                    raise _ipaddress.AddressValueError("packed length")
                return _SymIPv6(V.bitems(a))
            if type(a) is SymInt:
                if bool(mkbool(z3.Or(zb(a < 0), zb(a >= 1 << 128)))):
                    raise _ipaddress.AddressValueError("range")
                return _SymIPv6(V.bitems(V.int_to_bytes(a, 16, "big")))
            a = V.concretise(a)
        return _ipaddress.IPv6Address(a)


def ip_address(a):
    if is_sym(a) and isinstance(a, bytes):
        return IPv4Address(a) if len(a) == 4 else IPv6Address(a)
    return _ipaddress.ip_address(V.concretise(a) if is_sym(a) else a)


ipaddress_m = module("ipaddress", _ipaddress, IPv4Address=IPv4Address, IPv6Address=IPv6Address, ip_address=ip_address)

import socket as _socket  # noqa: E402


def inet_ntoa(b):
    return _SymIPv4(V.bitems(b))._sx_str() if is_sym(b) else _socket.inet_ntoa(b)


def inet_ntop(fam, b):
    if is_sym(b):
        return (_SymIPv4(V.bitems(b)) if fam == _socket.AF_INET else _SymIPv6(V.bitems(b)))._sx_str()
    return _socket.inet_ntop(fam, b)


socket_m = module("socket", _socket, inet_ntoa=inet_ntoa, inet_ntop=inet_ntop)

from .dtmodel import datetime_m, time_m  # noqa: E402

MODULES = {"struct": struct_m, "io": io_m, "binascii": binascii_m, "ipaddress": ipaddress_m, "codecs": codecs_m,
           "datetime": datetime_m, "socket": socket_m}
if time_m is not None:
    MODULES["time"] = time_m
