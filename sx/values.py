"""Symbolic values: exact models of Python int / bool / bytes / str over z3 terms.

SymInt keeps Python's unbounded-integer semantics: each value carries an interval and the bit-vector
width is grown so that no operation wraps; values built on the Int sort use exact linear arithmetic.
SymBytes and SymStr have a concrete length (lengths are enumerated by the harness or by forking).
SymStr may contain lazy pieces (a formatted integer, UTF-16 units, a guarded fragment), which are
expanded - forking where necessary - only when something looks inside them.
"""
import codecs
import math
import random
import re
import sys
import datetime as _datetime
import z3
from . import core
from .core import Unsupported

CW = 21  # width of a character code


def E():
    return core.E


def is_sym(x):
    return isinstance(x, SYM)


HASHING = ("sx", "enum", "rt", "__main__", "procmon_parser", "construct", "spec", "harness")


def identity_hash(x):
    """the engine itself keeps values by identity; a library that the engine does not see through must not"""
    name = sys._getframe(1).f_globals.get("__name__", "")
    if name.split(".")[0] not in HASHING:
        raise Unsupported("symbolic value hashed in " + name)
    return object.__hash__(x)


# =====================================================================================================
# booleans
# =====================================================================================================
def mkbool(c):
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


def zb(x):
    """anything bool-like -> z3 Bool"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


class SymBool(object):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E().fork(self.e)

    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), "u", 0, 1)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)) and type(o) is not SymInt:
            return mkbool(z3.And(self.e, zb(o)))
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)) and type(o) is not SymInt:
            return mkbool(z3.Or(self.e, zb(o)))
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool)) and type(o) is not SymInt:
            return mkbool(z3.Xor(self.e, zb(o)))
        return self._int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(self.e == zb(o))
        if type(o) in (int, SymInt):
            return self._int() == o
        return NotImplemented if type(o).__name__ == "IsTruth" else False

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    __hash__ = identity_hash

    def __index__(self):
        return 1 if bool(self) else 0

    def __getattr__(self, name):
        if name.startswith("__"):
            f = getattr(SymInt, name, None)
            if f is None:
                raise AttributeError(name)
        return getattr(self._int(), name)

    def __add__(self, o): return self._int() + o
    def __radd__(self, o): return o + self._int()
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    def __rmul__(self, o): return o * self._int()
    def __lshift__(self, o): return self._int() << o
    def __invert__(self): return ~self._int()
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)


def sym_not(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    return not x


# =====================================================================================================
# integers
# =====================================================================================================
def bits_u(hi):
    return max(1, hi.bit_length())


def bits_s(lo, hi):
    return max(hi.bit_length() if hi > 0 else 0, (-lo - 1).bit_length() if lo < 0 else 0) + 1


def mkint(e, kind, lo, hi):
    if lo == hi:
        return lo
    if kind == "i":
        if z3.is_int_value(e):
            return e.as_long()
        note_range(e, lo, hi)
    elif z3.is_bv_value(e):
        return e.as_long() if kind == "u" else e.as_signed_long()
    return SymInt(e, kind, lo, hi)


def note_range(e, lo, hi):
    """remember the range of an integer term that linear arithmetic does not look into"""
    if z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e) or e.decl().kind() == z3.Z3_OP_UMINUS:
        return
    E().reprs.setdefault("range", {}).setdefault(e.get_id(), (e, lo, hi))


def linear_form(e):
    """an integer term as (constant, {id: (term, coefficient)})"""
    const, terms = 0, {}
    todo = [(e, 1)]
    while todo:
        t, c = todo.pop()
        if z3.is_int_value(t):
            const += c * t.as_long()
        elif z3.is_add(t):
            todo.extend((x, c) for x in t.children())
        elif z3.is_sub(t):
            todo.extend((x, c if i == 0 else -c) for i, x in enumerate(t.children()))
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            todo.append((t.arg(0), -c))
        elif z3.is_mul(t):
            rest = []
            for x in t.children():
                if z3.is_int_value(x):
                    c *= x.as_long()
                else:
                    rest.append(x)
            if len(rest) == 1:
                todo.append((rest[0], c))
            elif not rest:
                const += c
            else:
                t = z3.Product(*rest)
                old = terms.get(t.get_id(), (t, 0))
                terms[t.get_id()] = (t, old[1] + c)
        else:
            old = terms.get(t.get_id(), (t, 0))
            terms[t.get_id()] = (t, old[1] + c)
    return const, dict((k, v) for k, v in terms.items() if v[1])


def linear_divmod(a, b):
    """exact quotient and remainder where the part b does not divide stays within one multiple of b, else None"""
    const, terms = linear_form(z3.simplify(a.e))
    ranges = E().reprs.get("range", {})
    whole, part = [], []
    lo = hi = const
    for t, c in terms.values():
        if c % b == 0:
            whole.append((t, c // b))
            continue
        r = ranges.get(t.get_id())
        if r is None:
            return None
        part.append((t, c))
        x, y = c * r[1], c * r[2]
        lo, hi = lo + min(x, y), hi + max(x, y)
    k = lo // b
    if hi // b != k:
        return None

    def term(ts, c):
        e = z3.Sum([t if n == 1 else n * t for t, n in ts] + ([z3.IntVal(c)] if c or not ts else []))
        return z3.simplify(e)
    qlo, qhi = a.lo // b, a.hi // b
    return (mkint(term(whole, k), "i", qlo, qhi),
            mkint(term(part, const - k * b), "i", max(0, lo - k * b), min(b - 1, hi - k * b)))


def tobv(x, W):
    if type(x) is SymBool:
        x = x._int()
    if not isinstance(x, SymInt) or type(x) is not SymInt:
        return z3.BitVecVal(int(x) % (1 << W), W)
    if x.kind == "i":
        return z3.Int2BV(x.e, W)
    w = x.e.size()
    if W == w:
        return x.e
    if W < w:
        return z3.Extract(W - 1, 0, x.e)
    return z3.ZeroExt(W - w, x.e) if x.kind == "u" else z3.SignExt(W - w, x.e)


def toint(x):
    if type(x) is SymBool:
        x = x._int()
    if type(x) is not SymInt:
        return z3.IntVal(int(x))
    if x.kind == "i":
        return x.e
    return z3.BV2Int(x.e, x.kind == "s")


def rng(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    x = int(x)
    return x, x


def rep(lo, hi):
    if lo >= 0:
        return "u", bits_u(hi)
    return "s", bits_s(lo, hi)


def _num(o):
    """Is o something integer arithmetic is modelled for?"""
    t = type(o)
    return t is int or t is SymInt or t is bool or (isinstance(o, int) and t is not SymBool)


def _n(o):
    if type(o) is SymBool:
        return o._int()
    return o


def _ik(a, b):
    return (type(a) is SymInt and a.kind == "i") or (type(b) is SymInt and b.kind == "i")


def i_addsub(a, b, sub):
    a, b = _n(a), _n(b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = (al - bh, ah - bl) if sub else (al + bl, ah + bh)
    if _ik(a, b):
        e = toint(a) - toint(b) if sub else toint(a) + toint(b)
        return mkint(e, "i", lo, hi)
    k, W = rep(lo, hi)
    x, y = tobv(a, W), tobv(b, W)
    return mkint(z3.simplify(x - y if sub else x + y), k, lo, hi)


def i_mul(a, b):
    a, b = _n(a), _n(b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    c = [al * bl, al * bh, ah * bl, ah * bh]
    lo, hi = min(c), max(c)
    if _ik(a, b):
        return mkint(z3.simplify(toint(a) * toint(b)), "i", lo, hi)
    k, W = rep(lo, hi)
    return mkint(z3.simplify(tobv(a, W) * tobv(b, W)), k, lo, hi)


def i_bit(a, b, op):
    a, b = _n(a), _n(b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    if _ik(a, b):
        # masks of the form 2^k-1 and shifts stay linear; everything else goes through Int2BV
        if op == "&" and type(b) is int and b >= 0 and (b & (b + 1)) == 0:
            return a % (b + 1)
        if op == "&" and type(a) is int and a >= 0 and (a & (a + 1)) == 0:
            return b % (a + 1)
    if op == "&":
        if al >= 0 and bl >= 0:
            hi = min((1 << bits_u(ah)) - 1, (1 << bits_u(bh)) - 1, ah, bh)
            k, W, lo = "u", min(bits_u(ah), bits_u(bh)), 0
        elif al >= 0 or bl >= 0:
            h = ah if al >= 0 else bh
            k, W, lo, hi = "u", bits_u(h), 0, h
        else:
            W = max(bits_s(al, ah), bits_s(bl, bh))
            k, lo, hi = "s", -(1 << (W - 1)), (1 << (W - 1)) - 1
        e = tobv(a, W) & tobv(b, W)
    else:
        if al >= 0 and bl >= 0:
            W = max(bits_u(ah), bits_u(bh))
            k, lo, hi = "u", 0, (1 << W) - 1
        else:
            W = max(bits_s(al, ah), bits_s(bl, bh))
            k, lo, hi = "s", -(1 << (W - 1)), (1 << (W - 1)) - 1
        e = tobv(a, W) | tobv(b, W) if op == "|" else tobv(a, W) ^ tobv(b, W)
    e = z3.simplify(e)
    return mkint(e, k, lo, hi)


def i_shift(a, b, left):
    a, b = _n(a), _n(b)
    if type(b) is SymInt:
        b = b.__index__()
    if b < 0:
        raise ValueError("negative shift count")
    if type(a) is not SymInt:
        return a << b if left else a >> b
    if left:
        return i_mul(a, 1 << b)
    if a.kind == "i":
        return i_divmod(a, 1 << b)[0]
    lo, hi = a.lo >> b, a.hi >> b
    w = a.e.size()
    if b >= w:
        if a.kind == "u":
            return 0
        b = w - 1
    if b == 0:
        return a
    e = z3.simplify(z3.Extract(w - 1, b, a.e))
    return mkint(e, a.kind, lo, hi)


def i_divmod(a, b):
    a, b = _n(a), _n(b)
    if type(b) is SymInt:
        b = b.__index__()
    if type(a) is not SymInt:
        return divmod(a, b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if b < 0:
        q, r = i_divmod(-a, -b)
        return q, -r
    lo, hi = a.lo // b, a.hi // b
    mlo, mhi = (a.lo, a.hi) if 0 <= a.lo and a.hi < b else (0, b - 1)
    if a.kind != "i" and (b & (b - 1)) == 0:
        k = b.bit_length() - 1
        if k == 0:
            return a, 0
        w = a.e.size()
        q = i_shift(a, k, False)
        if k >= w and a.kind == "u":
            return 0, a
        r = mkint(z3.simplify(tobv(a, k)), "u", mlo, mhi)
        return q, r
    if a.kind != "i" and a.e.size() <= 24 and a.kind == "u" and bits_u(b) <= a.e.size():
        w = a.e.size()
        bv = z3.BitVecVal(b, w)
        k, W = rep(lo, hi)
        q = mkint(z3.simplify(tobv(SymInt(z3.UDiv(a.e, bv), "u", 0, hi), W)), k, lo, hi)
        k, W = rep(mlo, mhi)
        r = mkint(z3.simplify(tobv(SymInt(z3.URem(a.e, bv), "u", 0, mhi), W)), k, mlo, mhi)
        return q, r
    e = toint(a)
    if isinstance(e, z3.ArithRef):
        if a.kind == "i":
            qr = linear_divmod(a, b)
            if qr is not None:
                return qr
        e = z3.simplify(e)
        memo = E().reprs.setdefault("divmod", {})
        if (e.get_id(), b) not in memo:
            q, r = z3.Int(E().fresh("q")), z3.Int(E().fresh("r"))
            E().define(z3.And(e == b * q + r, r >= 0, r < b, q >= lo, q <= hi))
            note_range(q, lo, hi)
            note_range(r, mlo, mhi)
            memo[e.get_id(), b] = e, q, r
        _, q, r = memo[e.get_id(), b]
        return mkint(q, "i", lo, hi), mkint(r, "i", mlo, mhi)
    raise Unsupported("division")


def i_cmp(a, b, op):
    """op in == < <=.  Returns bool or SymBool."""
    a, b = _n(a), _n(b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    if op == "==":
        if ah < bl or bh < al:
            return False
        if al == ah == bl == bh:
            return True
    elif op == "<":
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == "<=":
        if ah <= bl:
            return True
        if al > bh:
            return False
    if _ik(a, b):
        x, y = toint(a), toint(b)
        c = x == y if op == "==" else (x < y if op == "<" else x <= y)
        return mkbool(z3.simplify(c))
    if al >= 0 and bl >= 0:
        W = max(bits_u(ah), bits_u(bh))
        x, y = tobv(a, W), tobv(b, W)
        c = x == y if op == "==" else (z3.ULT(x, y) if op == "<" else z3.ULE(x, y))
    else:
        W = max(bits_s(al, ah), bits_s(bl, bh))
        x, y = tobv(a, W), tobv(b, W)
        c = x == y if op == "==" else (x < y if op == "<" else x <= y)
    return mkbool(z3.simplify(c))


MEMORY = 4 << 30   # what the native replay may use, too


def repeat_size(size, n):
    """n copies of size bytes that do not fit into memory"""
    if type(n) is SymInt and size and n.hi * size > MEMORY and bool(n * size > MEMORY):
        e = MemoryError()
        e.sx_plain = True
        raise e


class SymInt(object):
    __slots__ = ("e", "kind", "lo", "hi")

    def __init__(self, e, kind, lo, hi):
        self.e, self.kind, self.lo, self.hi = e, kind, lo, hi

    @property
    def __class__(self):
        return int

    # arithmetic
    def __add__(self, o): return i_addsub(self, o, False) if _num(o) or type(o) is SymBool else NotImplemented
    def __radd__(self, o): return i_addsub(o, self, False) if _num(o) or type(o) is SymBool else NotImplemented
    def __sub__(self, o): return i_addsub(self, o, True) if _num(o) or type(o) is SymBool else NotImplemented
    def __rsub__(self, o): return i_addsub(o, self, True) if _num(o) or type(o) is SymBool else NotImplemented
    def __neg__(self): return i_addsub(0, self, True)
    def __pos__(self): return self
    def __abs__(self): return -self if E().fork(zb(self < 0)) else self

    def __mul__(self, o):
        if type(o) is _datetime.timedelta:
            from .dtmodel import mk_td, td_us
            return mk_td(self * td_us(o))
        if isinstance(o, (str, bytes, list, tuple)):
            repeat_size(len(o) * (1 if isinstance(o, (str, bytes)) else 8), self)
            return o * self.__index__()
        return i_mul(self, o) if _num(o) or type(o) is SymBool else NotImplemented
    __rmul__ = __mul__

    def __and__(self, o): return i_bit(self, o, "&") if _num(o) or type(o) is SymBool else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return i_bit(self, o, "|") if _num(o) or type(o) is SymBool else NotImplemented
    __ror__ = __or__
    def __xor__(self, o): return i_bit(self, o, "^") if _num(o) or type(o) is SymBool else NotImplemented
    __rxor__ = __xor__
    def __invert__(self): return -self - 1
    def __lshift__(self, o): return i_shift(self, o, True)
    def __rshift__(self, o): return i_shift(self, o, False)
    def __rlshift__(self, o): return i_shift(o, self, True)
    def __rrshift__(self, o): return i_shift(o, self, False)
    def __floordiv__(self, o):
        if type(o) is float:
            return SymOpaque("floordiv", (self, o))
        return i_divmod(self, o)[0] if _num(o) else NotImplemented
    def __mod__(self, o): return i_divmod(self, o)[1] if _num(o) else NotImplemented
    def __divmod__(self, o): return i_divmod(self, o) if _num(o) else NotImplemented
    def __rfloordiv__(self, o): return o // self.__index__()
    def __rmod__(self, o): return o % self.__index__()
    def __rdivmod__(self, o): return divmod(o, self.__index__())
    def __truediv__(self, o): return SymOpaque("truediv", (self, o))
    def __rtruediv__(self, o): return SymOpaque("truediv", (o, self))
    def __pow__(self, o, m=None): return pow(self.__index__(), o if type(o) is int else o.__index__(), m)
    def __rpow__(self, o): return pow(o, self.__index__())

    # comparisons
    def __eq__(self, o):
        if _num(o) or type(o) is SymBool:
            return i_cmp(self, o, "==")
        if type(o) is float:
            return self == int(o) if o == int(o) else False
        return False

    def __ne__(self, o): return sym_not(self.__eq__(o))

    def __lt__(self, o): return i_cmp(self, o, "<") if _num(o) or type(o) is SymBool else NotImplemented
    def __le__(self, o): return i_cmp(self, o, "<=") if _num(o) or type(o) is SymBool else NotImplemented
    def __gt__(self, o): return i_cmp(o, self, "<") if _num(o) or type(o) is SymBool else NotImplemented
    def __ge__(self, o): return i_cmp(o, self, "<=") if _num(o) or type(o) is SymBool else NotImplemented

    def __bool__(self):
        return E().fork(zb(self.__ne__(0)))

    __hash__ = identity_hash

    def __index__(self):
        return enumerate_int(self)

    def __int__(self):
        return enumerate_int(self)

    def __float__(self):
        return float(concretise(self))

    def __round__(self, n=None):
        return self if n is None or n >= 0 else round(concretise(self), n)

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def __str__(self):
        return str(concretise(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(concretise(self), spec)

    # int methods
    def bit_length(self):
        if self.lo >= 0 and self.kind == "u":
            w = bits_u(self.hi)
            for k in range(w, 0, -1):
                if E().fork(zb(self >= (1 << (k - 1)))):
                    return k
            return 0
        return concretise(self).bit_length()

    def bit_count(self):
        if self.lo >= 0 and self.kind == "u":
            n = 0
            for k in range(bits_u(self.hi)):
                n = n + (self >> k & 1)
            return n
        return concretise(self).bit_count()

    def to_bytes(self, length=1, byteorder="big", signed=False):
        if not isinstance(length, int) or type(length) is SymInt:
            length = length.__index__()
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if E().fork(zb(mkbool(z3.Or(zb(self < lo), zb(self > hi))))):
            raise OverflowError("int too big to convert")
        return int_to_bytes(self, length, byteorder)

    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def numerator(self): return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(int, name):
            raise AttributeError("'int' object has no attribute %r" % name)
        return getattr(concretise(self), name)


def int_to_bytes(x, n, byteorder="little"):
    if type(x) is SymBool:
        x = x._int()
    if type(x) is not SymInt:
        x = int(x)
        return (x % (1 << (8 * n))).to_bytes(n, byteorder)
    bv = tobv(x, 8 * n)
    items = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, bv)) for i in range(n)]
    if x.kind == "i" and x.lo >= 0 and x.hi < 1 << (8 * n):
        known = E().reprs.setdefault("ibyte", {})
        for i, b in enumerate(items):
            known[b.get_id()] = (b, x, i, n)
    if byteorder == "big":
        items.reverse()
    return mkbytes(items)


def bytes_to_int(items, byteorder="little", signed=False):
    """items: list of int | BV8"""
    if all(isinstance(b, int) for b in items):
        return int.from_bytes(bytes(items), byteorder, signed=signed)
    its = list(items)
    if byteorder == "little":
        its.reverse()
    n = 8 * len(its)
    known = E().reprs.get("ibyte")
    if known and not isinstance(its[-1], int):
        k = known.get(its[-1].get_id())
        if k is not None and k[2] == 0 and k[3] == len(its) and not (signed and k[1].hi >> (n - 1)):
            ks = [None if isinstance(b, int) else known.get(b.get_id()) for b in reversed(its)]
            if all(q is not None and q[1] is k[1] and q[2] == i for i, q in enumerate(ks)):
                return k[1]
    # drop concrete high zero bytes so that intervals stay tight
    if not signed:
        while its and isinstance(its[0], int) and its[0] == 0:
            its.pop(0)
        n = 8 * len(its)
    bvs = [z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in its]
    e = z3.simplify(z3.Concat(*bvs)) if len(bvs) > 1 else bvs[0]
    if signed:
        return mkint(e, "s", -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mkint(e, "u", 0, (1 << n) - 1)


def mkite(c, a, b):
    """if-then-else on two values, or None if they have no common symbolic form."""
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        return mkbool(z3.simplify(z3.If(c, zb(a), zb(b))))
    if ta in (int, SymInt) and tb in (int, SymInt):
        if ta is int and tb is int and a == b:
            return a
        (al, ah), (bl, bh) = rng(a), rng(b)
        lo, hi = min(al, bl), max(ah, bh)
        if _ik(a, b):
            return mkint(z3.If(c, toint(a), toint(b)), "i", lo, hi)
        k, W = rep(lo, hi)
        return mkint(z3.If(c, tobv(a, W), tobv(b, W)), k, lo, hi)
    if ta in (str, SymStr) and tb in (str, SymStr):
        x, y = list(items_of(a)), list(items_of(b))
        n = 0
        while n < len(x) and n < len(y) and same_item(x[n], y[n]):
            n += 1
        pre, x, y = x[:n], x[n:], y[n:]
        out = list(pre)
        if x:
            out.append(G(c, tuple(x)))
        if y:
            out.append(G(z3.Not(c), tuple(y)))
        return mkstr(out)
    return None


def same_item(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


# ---------------------------------------------------------------------------------------------------
# concretisation
# ---------------------------------------------------------------------------------------------------
def _model_value(x):
    m = E()._current_model()
    if m is None:
        raise Unsupported("no model to concretise with")
    v = m.eval(x.e, model_completion=True)
    if x.kind == "s":
        return v.as_signed_long()
    return v.as_long()


def enumerate_int(x, cap=400):
    """Fork over every feasible value of x (exhaustive up to cap values)."""
    if type(x) is SymBool:
        return 1 if bool(x) else 0
    if type(x) is not SymInt:
        return int(x)
    for _ in range(cap):
        v = E()._logged(lambda: _model_value(x))
        if E().fork(zb(x == v)):
            return v
    raise Unsupported("more than %d values for an index/size" % cap)


def concretise(x, why="concretised"):
    """Pick one value for x.  Narrows the path; the run is then reported as not exhaustive."""
    e = E()
    if type(x) is SymInt:
        v = e._logged(lambda: _model_value(x))
        if e.is_valid(zb(x == v)):
            return v    # the only value it can have here
        e.assume(zb(x == v))
        e.st.concretised += 1
        e.note_incomplete("%s an integer" % why)
        return v
    if type(x) is SymBool:
        return bool(x)
    if type(x) is SymBytes:
        out = []
        for b in x.items:
            out.append(b if isinstance(b, int) else concretise(SymInt(b, "u", 0, 255), why))
        return bytes(out)
    if type(x) is SymStr:
        out = []
        for c in expand(x.items):
            out.append(c if isinstance(c, int) else concretise(SymInt(c, "u", 0, (1 << CW) - 1), why))
        return "".join(map(chr, out))
    if type(x) is SymOpaque:
        return x.concrete()
    if type(x) is list:
        return [concretise(y, why) for y in x]
    if type(x) is tuple:
        return tuple(concretise(y, why) for y in x)
    return x


def exact(x):
    """the text x, one path for each of its values"""
    if type(x) is not SymStr:
        return x
    out = []
    for c in x.items:
        if type(c) is Fmt:
            out.append(format(enumerate_int(c.x) if type(c.x) is SymInt else c.x, c.spec))
        else:
            for d in expand([c]):
                out.append(chr(d if isinstance(d, int) else enumerate_int(SymInt(d, "u", 0, 0x10ffff))))
    return "".join(out)


def spread(x, why="concretised (float)"):
    """A few values for x, one per path, the run marked as not exhaustive."""
    if type(x) is not SymInt:
        return concretise(x, why)
    rnd = random.Random("%d %d" % (x.lo, x.hi))
    w = max(1, (x.hi - x.lo).bit_length())
    for k in (w, w - 1, w // 2, w // 2 + 5):
        v = x.lo + rnd.getrandbits(max(k, 1)) % (x.hi - x.lo + 1)
        if E().fork(zb(x == v)):
            E().note_incomplete("%s an integer" % why)
            return v
    return concretise(x, why)


def fratio(v):
    """a finite float or an int as an exact fraction"""
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return None
    return v.as_integer_ratio()


def float_norm(op, args):
    """(num, den, exact): the double nearest to num/den, which is num/den itself if exact; None if there is no such form"""
    B = 1 << 53

    def small(n):
        lo, hi = rng(n)
        return -B <= lo and hi <= B

    def done(n, d, exact=None):
        if d < 0:
            n, d = -n, -d
        if type(n) is int:
            return None
        if exact is None:
            exact = (d & (d - 1)) == 0 and small(n) and d < 1 << 900
        lo, hi = rng(n)
        if max(abs(lo), abs(hi)).bit_length() > 900 or d.bit_length() > 900:
            return None
        return n, d, exact

    if op == "float":
        x, = args
        return done(x, 1) if type(x) is SymInt else None
    if len(args) != 2:
        return None
    x, y = args
    if op == "truediv" and type(x) is SymInt and type(y) is int and y:
        return done(x, y)
    if type(y) is SymOpaque or type(y) is SymInt:
        if op in ("mul", "add") and type(x) in (int, float):
            x, y = y, x
        else:
            return None
    if type(y) is SymBool or not isinstance(y, (int, float)):
        return None
    if isinstance(y, int) and abs(y) > B:
        return None
    q = fratio(y)
    if q is None:
        return None
    A, C = q
    if type(x) is SymInt:
        if not small(x):
            return None
        num, den = x, 1
    elif type(x) is SymOpaque and x.form is not None and x.form[2]:
        num, den = x.form[:2]
    elif type(x) is SymOpaque and x.form is not None and op in ("mul", "truediv"):
        # a power of two moves the exponent only
        num, den = x.form[:2]
        if op == "truediv":
            A, C = C, A
        if A <= 0 or (A & (A - 1)) or (C & (C - 1)):
            return None
        return done(num * A, den * C, False)
    else:
        return None
    if op == "mul" and A:
        return done(num * A, den * C)
    if op == "truediv" and A:
        return done(num * C, den * A)
    if op in ("add", "sub"):
        return done(num * C + (A if op == "add" else -A) * den, den * C)
    if op == "floordiv" and A > 0:
        k = (num * C) // (den * A)
        if type(k) is SymInt and max(abs(k.lo), abs(k.hi)) < 1 << 51:
            return k, 1, True
    return None


def same_key(a, b):
    """are these two things equal, as arguments of hash()"""
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        cs = [same_key(x, y) for x, y in zip(a, b)]
        if any(c is False for c in cs):
            return False
        cs = [zb(c) for c in cs if c is not True]
        return mkbool(z3.And(*cs)) if cs else True
    if type(a) is SymOpaque:
        return a.same(b)
    if type(b) is SymOpaque:
        return False
    return a == b


class SymOpaque(object):
    """A float: an operation on symbolic numbers, with its exact fraction where that is known."""
    __slots__ = ("op", "args", "form")

    def __init__(self, op, args):
        self.op, self.args = op, args
        self.form = float_norm(op, args)

    def digits(self, places):
        """round(self * 10**places) as an integer, the way round() and format() round, or None"""
        if self.form is None:
            return None
        num, den, exact = self.form
        t = 10 ** places
        if t % den == 0 and max(abs(num.lo), abs(num.hi)) * t // den < 10 ** 15:
            return num * (t // den)
        if not exact:
            return None
        q, r = i_divmod(num * t, den)
        up = z3.Or(zb(2 * r > den), z3.And(zb(2 * r == den), zb(q % 2 == 1)))
        return q + 1 if E().fork(up) else q

    def floor(self):
        if self.form is None or not self.form[2]:
            return None
        return self.form[0] // self.form[1]

    def rounded(self, n=None):
        d = self.digits(n or 0) if n is None or (type(n) is int and 0 <= n <= 15) else None
        if d is None:
            return round(self.concrete(), n)
        if n is None:
            return d
        return SymOpaque("truediv", (d, 10 ** n))

    __round__ = rounded

    def __floor__(self):
        f = self.floor()
        return math.floor(self.concrete()) if f is None else f

    def __trunc__(self):
        if self.form is None or not self.form[2]:
            return int(self.concrete())
        q = abs(self.form[0]) // self.form[1]
        return -q if E().fork(zb(self.form[0] < 0)) else q

    def __ceil__(self):
        if self.form is None or not self.form[2]:
            return math.ceil(self.concrete())
        return -(-self.form[0] // self.form[1])

    def text(self, spec):
        """format(self, spec), or None"""
        m = re.match(r"^\.(\d)f$", spec)
        if m:
            k = int(m.group(1))
            d = self.digits(k)
            if d is None:
                return None
        elif spec in ("", "r"):
            if self.form is None:
                return None
            num, den, exact = self.form
            for k in range(0, 13):
                if 10 ** k % den == 0:
                    break
            else:
                return None
            d = num * (10 ** k // den)
            lo, hi = rng(d)
            if max(abs(lo), abs(hi)) >= 10 ** 15:
                return None
        else:
            return None
        neg = E().fork(zb(d < 0))
        if neg:
            d = -d
        whole, part = divmod(d, 10 ** k)
        if spec in ("", "r"):
            while k > 1 and E().fork(zb(part % 10 == 0)):
                part, k = part // 10, k - 1
            if k == 0:
                part, k = 0, 1
        out = to_str(whole)
        if k:
            out = out + "." + fmt_value(part, "0%dd" % k)
        return ("-" + out) if neg else out

    @property
    def __class__(self):
        return float

    def _b(op):
        def f(self, o):
            return SymOpaque(op, (self, o))

        def r(self, o):
            return SymOpaque(op, (o, self))
        return f, r
    __add__, __radd__ = _b("add")
    __sub__, __rsub__ = _b("sub")
    __mul__, __rmul__ = _b("mul")
    __truediv__, __rtruediv__ = _b("truediv")
    __floordiv__, __rfloordiv__ = _b("floordiv")
    __mod__, __rmod__ = _b("mod")
    del _b

    def concrete(self):
        import operator
        a = [y.concrete() if type(y) is SymOpaque else spread(y) for y in self.args]
        if self.op == "float":
            return float(*a)
        return getattr(operator, self.op)(*a)

    def _cmp(op):
        import operator
        def f(self, o):
            o = concretise(o)
            return getattr(operator, op)(self.concrete(), o)
        return f
    __lt__, __le__, __gt__, __ge__ = _cmp("lt"), _cmp("le"), _cmp("gt"), _cmp("ge")
    del _cmp

    def same(self, o):
        if self.op == "hash":
            return same_key(self.args[0], o.args[0]) if type(o) is SymOpaque and o.op == "hash" else False
        if type(o) is SymOpaque and self.form is not None and o.form is not None and \
                ((self.form[2] and o.form[2]) or self.form[1] == o.form[1] and self.form[2] == o.form[2]
                 and all(-10 ** 15 < v < 10 ** 15 for v in rng(self.form[0]) + rng(o.form[0]))):
            return mkbool(zb(self.form[0] * o.form[1] == o.form[0] * self.form[1]))
        if type(o) is not SymOpaque or o.op != self.op or len(o.args) != len(self.args):
            return False
        conds = []
        for x, y in zip(self.args, o.args):
            if type(x) is SymOpaque:
                c = x.same(y)
                if c is False:
                    return False
                conds.append(zb(c))
            elif type(x) in (int, SymInt) and type(y) in (int, SymInt):
                conds.append(zb(x == y))
            elif is_sym(x) or is_sym(y):
                return False
            elif x != y:
                return False
        return mkbool(z3.And(*conds)) if conds else True

    def __eq__(self, o):
        c = self.same(o)
        if self.op == "hash":
            return c
        if c is True:
            return True
        return self.concrete() == concretise(o)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    __hash__ = identity_hash

    def __bool__(self):
        return bool(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __int__(self):
        return int(self.concrete())

    def __str__(self):
        return str(self.concrete())
    __repr__ = __str__

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def is_integer(self):
        return self.concrete().is_integer()


# =====================================================================================================
# bytes
# =====================================================================================================
def bitems(x):
    if type(x) is SymBytes:
        return x.items
    return tuple(bytes(x))


def norm_byte(b):
    if isinstance(b, int):
        return b
    if z3.is_bv_value(b):
        return b.as_long()
    return b


def mkbytes(items):
    items = tuple(norm_byte(b) for b in items)
    if all(isinstance(b, int) for b in items):
        return bytes(items)
    return SymBytes(items)


def item_eq(a, b, w=8):
    """equality of two byte / char items -> bool | z3 Bool"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b >= 1 << a.size():
            return False
        h = E().hexmap.get(a.get_id())
        if h is not None:
            d = ("0123456789ABCDEF" if h[2] else "0123456789abcdef").find(chr(b))
            return False if d < 0 else h[1] == z3.BitVecVal(d, 4)
        return a == z3.BitVecVal(b, a.size())
    if a.eq(b):
        return True
    return a == b


def conj(conds):
    out = []
    for c in conds:
        if c is False:
            return False
        if c is True:
            continue
        out.append(c)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


class SymBytes(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if v is None else v.__index__() for v in (i.start, i.stop, i.step)])
            return mkbytes(self.items[i])
        b = self.items[i.__index__()]
        return b if isinstance(b, int) else SymInt(b, "u", 0, 255)

    def __iter__(self):
        for b in self.items:
            yield b if isinstance(b, int) else SymInt(b, "u", 0, 255)

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return mkbytes(self.items + bitems(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return mkbytes(bitems(o) + self.items)
        return NotImplemented

    def __mul__(self, n):
        repeat_size(len(self.items), n)
        return mkbytes(self.items * n.__index__())
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return False
        oi = bitems(o)
        if len(oi) != len(self.items):
            return False
        c = conj([item_eq(a, b) for a, b in zip(self.items, oi)])
        return mkbool(z3.simplify(c) if not isinstance(c, bool) else c)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    __hash__ = identity_hash

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        oi = (o,) if isinstance(o, int) and type(o) is not SymInt else \
            ((o.e,) if type(o) is SymInt else bitems(o))
        n = len(oi)
        if n == 0:
            return True
        conds = [conj([item_eq(a, b) for a, b in zip(self.items[i:i + n], oi)])
                 for i in range(len(self.items) - n + 1)]
        if any(c is True for c in conds):
            return True
        conds = [c for c in conds if c is not False]
        return mkbool(z3.Or(*conds)) if conds else False

    def find(self, sub, start=0, end=None):
        oi = (sub,) if isinstance(sub, int) else bitems(sub)
        n = len(oi)
        items = self.items if end is None else self.items[:end]
        for i in range(start, len(items) - n + 1):
            c = conj([item_eq(a, b) for a, b in zip(items[i:i + n], oi)])
            if c is True or (c is not False and E().fork(c)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rfind(self, sub, *a):
        cur = self[slice(*a)] if a else self
        off = slice(*a).indices(len(self))[0] if a else 0
        oi = (sub,) if isinstance(sub, int) else bitems(sub)
        items, n = bitems(cur), len(oi)
        for i in range(len(items) - n, -1, -1):
            c = conj([item_eq(x, y) for x, y in zip(items[i:i + n], oi)])
            if c is True or (c is not False and E().fork(c)):
                return i + off
        return -1

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub):
        oi = (sub,) if isinstance(sub, int) else bitems(sub)
        if not oi:
            return len(self.items) + 1
        n, i = 0, 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n, i = n + 1, i + len(oi)

    def replace(self, old, new, count=-1):
        if not bitems(old):
            return concretise(self).replace(b"", concretise(new), count)
        return mkbytes(bitems(new)).join(self.split(old, count)) if type(new) is SymBytes else \
            SymBytes(bitems(new)).join(self.split(old, count))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return b"", b"", self
        return self[:i], sep, self[i + len(sep):]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return concretise(self).rsplit(None, maxsplit)
        out, cur = [], self
        while maxsplit != 0:
            i = cur.rfind(sep)
            if i < 0:
                break
            out.append(cur[i + len(sep):])
            cur = cur[:i]
            maxsplit -= 1
        return [cur] + out[::-1]

    def ljust(self, n, f=b" "):
        return mkbytes(self.items + (f[0],) * max(0, n - len(self.items)))

    def rjust(self, n, f=b" "):
        return mkbytes((f[0],) * max(0, n - len(self.items)) + self.items)

    def isascii(self):
        return mkbool(z3.simplify(z3.And([z3.ULE(b, 127) for b in self.items if not isinstance(b, int)]
                                         + [z3.BoolVal(b < 128) for b in self.items if isinstance(b, int)])))

    def _order(self, o, on_equal):
        a, b = self.items, bitems(o)
        for x, y in zip(a, b):
            c = item_eq(x, y)
            if c is True or (c is not False and E().fork(c)):
                continue
            xi = x if not isinstance(x, int) else z3.BitVecVal(x, 8)
            yi = y if not isinstance(y, int) else z3.BitVecVal(y, 8)
            return E().fork(z3.simplify(z3.ULT(xi, yi)))
        return len(a) < len(b) or on_equal and len(a) == len(b)

    def __lt__(self, o): return self._order(o, False)
    def __le__(self, o): return self._order(o, True)
    def __gt__(self, o): return not self._order(o, True)
    def __ge__(self, o): return not self._order(o, False)

    def startswith(self, p, *a):
        if a:
            cur = self[slice(*(a if len(a) > 1 else (a[0], None)))]
            return cur.startswith(p)
        p = p if isinstance(p, tuple) else (p,)
        cs = []
        for q in p:
            qi = bitems(q)
            if len(qi) > len(self.items):
                continue
            c = conj([item_eq(x, y) for x, y in zip(self.items, qi)])
            if c is True:
                return True
            if c is not False:
                cs.append(c)
        return mkbool(z3.Or(*cs)) if cs else False

    def endswith(self, q, *a):
        if a:
            return self[slice(*(a if len(a) > 1 else (a[0], None)))].endswith(q)
        if isinstance(q, tuple):
            return any([bool(self.endswith(x)) for x in q])
        qi = bitems(q)
        if len(qi) > len(self.items):
            return False
        if not qi:
            return True
        return mkbool(conj([item_eq(x, y) for x, y in zip(self.items[-len(qi):], qi)]))

    def rstrip(self, chars=None):
        if chars is None:
            chars = b" \t\n\r\x0b\x0c"
        n = len(self.items)
        ci = bitems(chars)
        while n:
            c = [item_eq(self.items[n - 1], x) for x in ci]
            if any(x is True for x in c):
                n -= 1
                continue
            c = [x for x in c if x is not False]
            if c and E().fork(z3.Or(*c)):
                n -= 1
                continue
            break
        return mkbytes(self.items[:n])

    def lstrip(self, chars=None):
        return mkbytes(reversed(bitems(mkbytes(self.items[::-1]).rstrip(chars))))

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, b"", b""
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return concretise(self).split()
        out, cur = [], self
        while maxsplit != 0:
            i = cur.find(sep) if type(cur) is SymBytes else cur.find(sep)
            if i < 0:
                break
            out.append(cur[:i])
            cur = cur[i + len(sep):]
            maxsplit -= 1
        out.append(cur)
        return out

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            if k:
                out.extend(self.items)
            out.extend(bitems(p))
        return mkbytes(out)

    def hex(self, sep=None, n=1):
        return mkstr(hex_items(self.items, sep, n))

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_bytes(self.items, encoding, errors)

    def tobytes(self):
        return self

    def __bytes__(self):
        return concretise(self)

    # a memoryview of symbolic bytes is the bytes themselves
    @property
    def nbytes(self):
        return len(self.items)

    def tobytes(self):
        return self

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __str__(self):
        return str(concretise(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(concretise(self), spec)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError("'bytes' object has no attribute %r" % name)
        return getattr(concretise(self), name)


def hexdigit(n4, upper=False):
    """4-bit BV -> char item"""
    if z3.is_bv_value(n4):
        return ord(("0123456789ABCDEF" if upper else "0123456789abcdef")[n4.as_long()])
    a = 55 if upper else 87
    n = z3.ZeroExt(CW - 4, n4)
    c = z3.simplify(z3.If(z3.ULT(n4, z3.BitVecVal(10, 4)), n + 48, n + a))
    E().hexmap[c.get_id()] = (c, n4, upper)
    return c


def hex_items(src, sep=None, n=1):
    """the digits of bytes, a separator between groups of n (from the end; of -n from the start)"""
    out = []
    for k, b in enumerate(src):
        if k and sep is not None and n and (k % -n if n < 0 else (len(src) - k) % n) == 0:
            out.extend(map(ord, sep) if isinstance(sep, str) else sep)
        out.extend(byte_hex(b))
    return out


def byte_hex(b, upper=False):
    if isinstance(b, int):
        s = "%02X" % b if upper else "%02x" % b
        return [ord(c) for c in s]
    return [hexdigit(z3.Extract(7, 4, b), upper), hexdigit(z3.Extract(3, 0, b), upper)]


def norm_enc(encoding):
    try:
        return codecs.lookup(encoding).name
    except LookupError:
        return encoding


def unit_of(lo, hi):
    if isinstance(lo, int) and isinstance(hi, int):
        return lo | hi << 8
    a = z3.BitVecVal(lo, 8) if isinstance(lo, int) else lo
    b = z3.BitVecVal(hi, 8) if isinstance(hi, int) else hi
    return z3.simplify(z3.Concat(b, a))


def is_surr(u):
    if isinstance(u, int):
        return 0xD800 <= u <= 0xDFFF
    return z3.Extract(15, 11, u) == z3.BitVecVal(0x1b, 5)


def zx(u):
    return u if isinstance(u, int) else z3.simplify(z3.ZeroExt(CW - u.size(), u))


def decode_bytes(items, encoding, errors):
    enc = norm_enc(encoding)
    if all(isinstance(b, int) for b in items):
        return bytes(items).decode(encoding, errors)
    if enc in ("utf-16-le", "utf-16-be"):
        n = len(items) // 2
        units = []
        for i in range(n):
            a, b = items[2 * i], items[2 * i + 1]
            units.append(unit_of(a, b) if enc == "utf-16-le" else unit_of(b, a))
        tail = []
        if len(items) % 2:
            if errors == "replace":
                tail = [0xFFFD]
                # a high surrogate and the odd byte after it are replaced together
                if units:
                    u = units[-1]
                    if (0xD800 <= u <= 0xDBFF) if isinstance(u, int) else \
                            E().fork(z3.Extract(15, 10, u) == z3.BitVecVal(0x36, 6)):
                        tail = []
            elif errors == "ignore":
                tail = []
            else:
                raise UnicodeDecodeError(enc, b"", 0, 1, "truncated data")
        surr = [is_surr(u) for u in units]
        conds = [c for c in surr if c is not True and c is not False]
        if any(c is True for c in surr) or (conds and E().may(z3.Or(*conds))):
            if errors == "replace":
                return mkstr([U16(tuple(units))] + tail)
            return mkstr(u16_chars(units, errors, enc) + tail)
        return mkstr([zx(u) for u in units] + tail)
    if enc == "ascii":
        out = []
        for k, b in enumerate(items):
            if isinstance(b, int):
                bad = b >= 128
            else:
                bad = E().fork(z3.Extract(7, 7, b) == z3.BitVecVal(1, 1))
            if bad:
                if errors == "replace":
                    out.append(0xFFFD)
                elif errors == "ignore":
                    pass
                else:
                    raise UnicodeDecodeError("ascii", b"", 0, 1, "ordinal not in range(128)")
            else:
                out.append(zx(b))
        return mkstr(out)
    if enc == "iso8859-1":
        return mkstr([zx(b) for b in items])
    return bytes(concretise(SymBytes(items))).decode(encoding, errors)


def u16_chars(units, errors, enc="utf-16-le"):
    """Decode UTF-16 code units into characters, forking on surrogates."""
    out = []
    i = 0

    def test(c):
        return c if isinstance(c, bool) else E().fork(c)

    def rangec(u, lo, hi):
        if isinstance(u, int):
            return lo <= u <= hi
        return z3.And(z3.UGE(u, lo), z3.ULE(u, hi))

    def bad():
        if errors == "replace":
            out.append(0xFFFD)
        elif errors == "ignore":
            pass
        else:
            raise UnicodeDecodeError(enc, b"", 0, 1, "illegal UTF-16 surrogate")

    while i < len(units):
        u = units[i]
        if not test(is_surr(u)):
            out.append(zx(u))
            i += 1
            continue
        if test(rangec(u, 0xD800, 0xDBFF)) and i + 1 < len(units) and test(rangec(units[i + 1], 0xDC00, 0xDFFF)):
            v = units[i + 1]
            uu = u if not isinstance(u, int) else z3.BitVecVal(u, 16)
            vv = v if not isinstance(v, int) else z3.BitVecVal(v, 16)
            c = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(9, 0, uu), z3.Extract(9, 0, vv))
            c = z3.simplify(c + z3.BitVecVal(0x10000, CW))
            out.append(c.as_long() if z3.is_bv_value(c) else c)
            i += 2
        else:
            bad()
            i += 1
    return out


# =====================================================================================================
# strings
# =====================================================================================================
class Piece(object):
    pass


class Fmt(Piece):
    """format(x, spec) for a symbolic integer x"""

    def __init__(self, x, spec):
        self.x, self.spec = x, spec


def padded_decimal(items):
    """(x, width) of a string that is the decimal digits of x >= 0, padded with zeros to the width"""
    if len(items) == 1 and type(items[0]) is Fmt and type(items[0].x) is SymInt:
        m, x = re.match(r"(?:0(\d*))?d?$", items[0].spec), items[0].x
        if m is not None and ((x.lo is not None and x.lo >= 0) or not E().fork(zb(x < 0))):
            return items[0].x, int(m.group(1) or 0)


def decimal(x, width):
    return str(x).zfill(width) if type(x) is int else mkstr((Fmt(x, "0%dd" % width if width > 1 else ""),))


class U16(Piece):
    """UTF-16 code units decoded with errors='replace'"""

    def __init__(self, units):
        self.units = units


class G(Piece):
    """items, present only under a condition"""

    def __init__(self, cond, items):
        self.cond, self.items = cond, items


class Lazy(Piece):
    """repr() of something symbolic, one value of it picked if anything looks"""

    def __init__(self, v):
        self.v = v


def items_of(s):
    if type(s) is SymStr:
        return s.items
    return tuple(ord(c) for c in s)


def mkstr(items):
    out = []
    for c in items:
        if isinstance(c, z3.BitVecRef):
            if z3.is_bv_value(c):
                c = c.as_long()
            elif c.size() != CW:
                c = zx(c)
        elif isinstance(c, G):
            if z3.is_true(c.cond):
                out.extend(c.items)
                continue
            if z3.is_false(c.cond) or not c.items:
                continue
        elif isinstance(c, U16) and not c.units:
            continue
        out.append(c)
    if all(isinstance(c, int) for c in out):
        return "".join(map(chr, out))
    return SymStr(tuple(out))


_digit_ranges = {}


def class_ranges(method):
    """Ranges of BMP+ code points for which str.<method> holds, from CPython itself."""
    if method not in _digit_ranges:
        rs = []
        start = None
        for c in range(0x110000):
            ok = getattr(chr(c), method)()
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                rs.append((start, c - 1))
                start = None
        if start is not None:
            rs.append((start, 0x10FFFF))
        _digit_ranges[method] = rs
    return _digit_ranges[method]


def in_ranges(c, rs):
    return z3.Or(*[z3.And(z3.UGE(c, lo), z3.ULE(c, hi)) if lo != hi else c == lo for lo, hi in rs])


def fmt_parts(spec):
    """parse a (sub)set of the format mini-language for ints"""
    s = spec
    fill, align = " ", ""
    if len(s) >= 2 and s[1] in "<>^=":
        fill, align, s = s[0], s[1], s[2:]
    elif s and s[0] in "<>^=":
        align, s = s[0], s[1:]
    sign = ""
    if s and s[0] in "+- ":
        sign, s = s[0], s[1:]
    alt = False
    if s and s[0] == "#":
        alt, s = True, s[1:]
    if s and s[0] == "0":
        if not align:
            fill, align = "0", "="
        s = s[1:]
    w = ""
    while s and s[0].isdigit():
        w, s = w + s[0], s[1:]
    grp = ""
    if s and s[0] in ",_":
        grp, s = s[0], s[1:]
    ty = s or "d"
    if ty not in ("d", "x", "X", "b", "o"):
        raise Unsupported("format spec %r" % spec)
    return fill, align or ">", sign, alt, int(w or 0), grp, ty


def digits_of(x, base, upper=False, fixed=None):
    """x: SymInt known to be >= 0 on this path.  Char items of its digits, most significant first."""
    e = E()
    key = (x.e.get_id(), x.kind, base, fixed)
    hit = e.reprs.get(key)
    maxd = 1
    while base ** maxd <= x.hi:
        maxd += 1
    if fixed is not None and maxd <= fixed:
        n = fixed
    elif maxd == 1:
        n = 1
    else:
        # number of digits
        conds = []
        for k in range(1, maxd + 1):
            lo, hi = (0 if k == 1 else base ** (k - 1)), base ** k - 1
            conds.append(z3.And(zb(x >= lo), zb(x <= hi)))
        n = e.switch(conds) + 1
    if hit is not None and hit[1] == n:
        ds = hit[2]
    else:
        if base == 16 and x.kind != "i":
            bv = tobv(x, 4 * n)
            ds = [z3.simplify(z3.Extract(4 * i + 3, 4 * i, bv)) for i in range(n)][::-1]
        elif base == 2 and x.kind != "i":
            bv = tobv(x, n)
            ds = [z3.simplify(z3.ZeroExt(3, z3.Extract(i, i, bv))) for i in range(n)][::-1]
        else:
            names = [e.fresh("dig") for _ in range(n)]
            ds = [z3.BitVec(nm, 4) for nm in names]
            for d in ds:
                e.define(z3.ULT(d, z3.BitVecVal(base, 4)) if base < 16 else z3.BoolVal(True))
            if x.kind == "i" or n > 6:
                tot = z3.Sum([z3.BV2Int(d) * (base ** (n - 1 - i)) for i, d in enumerate(ds)])
                e.define(toint(x) == tot)
            else:
                W = max(bits_u(base ** n), x.e.size())
                tot = z3.BitVecVal(0, W)
                for d in ds:
                    tot = tot * base + z3.ZeroExt(W - 4, d)
                e.define(tobv(x, W) == tot)
        e.reprs[key] = (x, n, ds)
    return [hexdigit(d, upper) for d in ds]


def expand_fmt(x, spec):
    fill, align, sign, alt, width, grp, ty = fmt_parts(spec)
    if type(x) is not SymInt:
        return [ord(c) for c in format(x, spec)]
    neg = x.lo < 0 and E().fork(zb(x < 0))
    if neg:
        x = -x
    elif x.lo < 0:
        if x.kind == "i":
            x = SymInt(x.e, "i", 0, max(x.hi, 1))
        else:
            W = bits_u(max(x.hi, 1))
            x = mkint(tobv(x, W), "u", 0, max(x.hi, 1))
    if type(x) is not SymInt:
        body = [ord(c) for c in format(x, ty)]
    else:
        if x.lo < 0:
            x = SymInt(x.e, x.kind, 0, x.hi)
        fx = width - (1 if neg or sign in ("+", " ") and sign else 0) \
            if fill == "0" and align == "=" and not grp and not alt and width else None
        body = digits_of(x, {"d": 10, "x": 16, "X": 16, "b": 2, "o": 8}[ty], ty == "X", fx)
    if grp:
        step = 3 if ty == "d" else 4
        out = []
        for i, c in enumerate(body):
            if i and (len(body) - i) % step == 0:
                out.append(ord(grp))
            out.append(c)
        if width and fill == "0" and align == "=":
            raise Unsupported("zero padded grouping")
        body = out
    pre = []
    if neg:
        pre = [ord("-")]
    elif sign in ("+", " ") and sign:
        pre = [ord(sign)]
    if alt and ty in "xXbo":
        pre += [ord("0"), ord(ty)]
    pad = width - len(pre) - len(body)
    if pad > 0:
        f = [ord(fill)]
        if align == "=":
            return pre + f * pad + body
        if align == "<":
            return pre + body + f * pad
        if align == "^":
            return f * (pad // 2) + pre + body + f * (pad - pad // 2)
        return f * pad + pre + body
    return pre + body


def expand(items):
    """-> list of char items only (forks where needed)"""
    out = []
    for c in items:
        if isinstance(c, Fmt):
            out.extend(expand_fmt(c.x, c.spec))
        elif isinstance(c, U16):
            out.extend(u16_chars(c.units, "replace"))
        elif isinstance(c, Lazy):
            out.extend(map(ord, repr(concretise(c.v))))
        elif isinstance(c, G):
            if E().fork(c.cond):
                out.extend(expand(c.items))
        else:
            out.append(c)
    return out


def eval_str(model, items):
    """the concrete string a SymStr denotes under a model"""
    out = []

    def iv(x):
        if type(x) is not SymInt:
            return int(x)
        v = model.eval(x.e, model_completion=True)
        return v.as_signed_long() if x.kind == "s" else v.as_long()

    for c in items:
        if isinstance(c, int):
            out.append(chr(c))
        elif isinstance(c, Fmt):
            out.append(format(iv(c.x), c.spec))
        elif isinstance(c, U16):
            raw = b"".join((u if isinstance(u, int) else model.eval(u, model_completion=True).as_long()).to_bytes(2, "little")
                           for u in c.units)
            out.append(raw.decode("utf-16-le", "replace"))
        elif isinstance(c, Lazy):
            from .ctx import under
            out.append(repr(under(model, c.v)))
        elif isinstance(c, G):
            if z3.is_true(model.eval(c.cond, model_completion=True)):
                out.append(eval_str(model, c.items))
        else:
            out.append(chr(model.eval(c, model_completion=True).as_long()))
    return "".join(out)


def only_chars(items):
    return not any(isinstance(c, Piece) for c in items)


def align_eq(a, b):
    """A condition sufficient for equality of two item lists, or None if they do not line up."""
    if len(a) != len(b):
        return None
    conds = []
    for x, y in zip(a, b):
        if isinstance(x, Piece) != isinstance(y, Piece):
            return None
        if not isinstance(x, Piece):
            c = item_eq(x, y)
        elif isinstance(x, Fmt) and isinstance(y, Fmt):
            if x.spec != y.spec:
                try:
                    if fmt_parts(x.spec) != fmt_parts(y.spec):
                        return None
                except Unsupported:
                    return None
            c = x.x == y.x
            c = c.e if type(c) is SymBool else c
        elif isinstance(x, U16) and isinstance(y, U16):
            if len(x.units) != len(y.units):
                return None
            c = conj([item_eq(p, q) for p, q in zip(x.units, y.units)])
        elif isinstance(x, G) and isinstance(y, G):
            inner = align_eq(x.items, y.items)
            if inner is None:
                return None
            c = z3.And(x.cond == y.cond, z3.Or(z3.Not(x.cond), inner if not isinstance(inner, bool) else z3.BoolVal(inner)))
        else:
            return None
        if c is False:
            return False
        conds.append(c)
    return conj(conds)


def settle(items):
    """write out the formatted numbers that can have only one value here"""
    out = []
    for p in items:
        if isinstance(p, Fmt) and type(p.x) is SymInt:
            try:
                v = _model_value(p.x)
            except Unsupported:
                v = None
            c = None if v is None else p.x == v
            c = c.e if type(c) is SymBool else c
            if c is not None and c is not False and (c is True or E().is_valid(c)):
                out.extend(ord(k) for k in format(v, p.spec))
                continue
        out.append(p)
    return out


def definitely_differ(a, b):
    if a and b:
        if isinstance(a[0], int) and isinstance(b[0], int) and a[0] != b[0]:
            return True
        if isinstance(a[-1], int) and isinstance(b[-1], int) and a[-1] != b[-1]:
            return True
    if only_chars(a) and only_chars(b):
        return len(a) != len(b)
    mina, minb = min_len(a), min_len(b)
    if only_chars(a) and len(a) < minb:
        return True
    if only_chars(b) and len(b) < mina:
        return True
    return False


def min_len(items):
    n = 0
    for c in items:
        if isinstance(c, G):
            continue
        if isinstance(c, U16):
            n += (len(c.units) + 1) // 2
        else:
            n += 1
    return n


def only_guards(items):
    return all(not isinstance(c, Piece) or isinstance(c, G) and only_guards(c.items) for c in items)


def linear(items, out=None):
    """flatten nested guards: ints/expressions, and (condition, where to go when it does not hold)"""
    out = [] if out is None else out
    for c in items:
        if isinstance(c, G):
            k = len(out)
            out.append(None)
            linear(c.items, out)
            out[k] = (c.cond, len(out))
        else:
            out.append(c)
    return out


def guard_match(x, y):
    """the condition under which two sequences of guarded characters read the same.

    Under any assignment each sequence spells one string, so equality is reachability of the end of both in the
    product of the two walks."""
    a, b = linear(x), linear(y)
    levels = {0: {(0, 0): [z3.BoolVal(True)]}}
    end = len(a) + len(b)
    for lvl in range(end):
        states = levels.pop(lvl, None)
        if not states:
            continue

        def go(p, q, k):
            levels.setdefault(p + q, {}).setdefault((p, q), []).append(k)
        for (p, q), ks in states.items():
            k = ks[0] if len(ks) == 1 else z3.Or(*ks)
            if p < len(a) and type(a[p]) is tuple:
                c, skip = a[p]
                go(p + 1, q, z3.And(k, c))
                go(skip, q, z3.And(k, z3.Not(c)))
            elif q < len(b) and type(b[q]) is tuple:
                c, skip = b[q]
                go(p, q + 1, z3.And(k, c))
                go(p, skip, z3.And(k, z3.Not(c)))
            elif p < len(a) and q < len(b):
                c = item_eq(a[p], b[q])
                if c is not False:
                    go(p + 1, q + 1, k if c is True else z3.And(k, c))
    r = levels.get(end, {}).get((len(a), len(b)))
    return False if r is None else z3.simplify(z3.Or(*r))


def str_eq(a, b):
    """exact equality -> bool | z3 Bool (may fork)"""
    a, b = list(items_of(a)), list(items_of(b))
    if definitely_differ(a, b):
        return False
    if not (only_chars(a) and only_chars(b)):
        c = align_eq(a, b)
        if c is None:
            a, b = settle(a), settle(b)
            c = align_eq(a, b)
        if c is True or (c is not None and c is not False and E().is_valid(c)):
            return True
        if only_guards(a) and only_guards(b):
            return guard_match(a, b)
        # strip the common prefix / suffix before looking inside
        while a and b and same_item(a[0], b[0]):
            a.pop(0), b.pop(0)
        while a and b and same_item(a[-1], b[-1]):
            a.pop(), b.pop()
        a, b = expand(a), expand(b)
    if len(a) != len(b):
        return False
    return conj([item_eq(x, y) for x, y in zip(a, b)])


_CASE = {}


def case_table(name):
    """runs (first, last, step, delta) of characters that str.<name> changes into one other character, and the ranges
    of those it changes into several (or differently in context)"""
    if name in _CASE:
        return _CASE[name]
    runs, special = [], []
    for i in range(0x110000):
        r = getattr(chr(i), name)()
        if len(r) != 1 or (name == "lower" and i == 0x3a3):
            if special and special[-1][1] == i - 1:
                special[-1][1] = i
            else:
                special.append([i, i])
            continue
        d = ord(r) - i
        if not d:
            continue
        for run in runs[-3:]:
            if run[3] == d and (run[1] + run[2] == i or (run[0] == run[1] and i - run[1] == 2)):
                run[2], run[1] = (i - run[1]) if run[0] == run[1] else run[2], i
                break
        else:
            runs.append([i, i, 1, d])
    _CASE[name] = runs, special
    return _CASE[name]


def case_term(c, runs):
    delta = z3.BitVecVal(0, CW)
    for a, b, step, d in runs:
        cond = z3.And(z3.UGE(c, a), z3.ULE(c, b)) if a != b else c == a
        if step == 2:
            cond = z3.And(cond, z3.Extract(0, 0, c) == a % 2)
        delta = z3.If(cond, z3.BitVecVal(d % (1 << CW), CW), delta)
    return c + delta


LINE_ENDS = (10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029)


def sym_add_str(a, b):
    return mkstr(tuple(items_of(a)) + tuple(items_of(b)))


class SymStr(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def __class__(self):
        return str

    def chars(self):
        if not only_chars(self.items):
            r = mkstr(expand(self.items))
            self.items = items_of(r)
        return self.items

    def truth(self):
        conds = []
        for c in self.items:
            if isinstance(c, G):
                conds.append(c.cond)
            else:
                return True
        return mkbool(z3.simplify(z3.Or(*conds))) if conds else False

    def __bool__(self):
        t = self.truth()
        return t if isinstance(t, bool) and type(t) is bool else bool(t)

    def __len__(self):
        return len(self.chars())

    def __iter__(self):
        for c in self.chars():
            yield mkstr((c,))

    def __getitem__(self, i):
        if type(i) is slice and i.step is None and len(self.items) == 1 and type(self.items[0]) is Fmt:
            number = padded_decimal(self.items)
            for cut in (i.start, i.stop):
                if number is not None and type(cut) is int and -number[1] < cut < 0 and (cut, None) in ((i.start, i.stop), (i.stop, i.start)):
                    x, width = number
                    return decimal(x % 10 ** -cut, -cut) if cut == i.start else decimal(x // 10 ** -cut, width + cut)
        cs = self.chars()
        if isinstance(i, slice):
            i = slice(*[None if v is None else v.__index__() for v in (i.start, i.stop, i.step)])
            return mkstr(cs[i])
        i = i.__index__()
        if not -len(cs) <= i < len(cs):
            raise IndexError("string index out of range")
        return mkstr((cs[i],))

    def __add__(self, o):
        if isinstance(o, str):
            return mkstr(self.items + items_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mkstr(items_of(o) + self.items)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.items * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        return concretise(self) % args

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        c = str_eq(self, o)
        return mkbool(z3.simplify(c) if not isinstance(c, bool) else c)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    __hash__ = identity_hash

    def _cmp(self, o, strict_less):
        a, b = list(self.chars()), list(items_of(o) if only_chars(items_of(o)) else expand(items_of(o)))
        for x, y in zip(a, b):
            c = item_eq(x, y)
            if c is True or (c is not False and E().fork(c)):
                continue
            xi = x if not isinstance(x, int) else z3.BitVecVal(x, CW)
            yi = y if not isinstance(y, int) else z3.BitVecVal(y, CW)
            return E().fork(z3.simplify(z3.ULT(xi, yi)))
        return len(a) < len(b) if strict_less else len(a) <= len(b)

    def __lt__(self, o): return self._cmp(o, True)
    def __le__(self, o): return self._cmp(o, False)
    def __gt__(self, o): return not self._cmp(o, False)
    def __ge__(self, o): return not self._cmp(o, True)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        return str_contains(self, o)

    def _match(self, cs, i, sub):
        if i + len(sub) > len(cs):
            return False
        return conj([item_eq(x, y) for x, y in zip(cs[i:i + len(sub)], sub)])

    def _test(self, c):
        return c if isinstance(c, bool) else E().fork(c)

    @staticmethod
    def _sub(o):
        its = items_of(o)
        return list(its) if only_chars(its) else expand(its)

    def find(self, sub, start=0, end=None):
        cs, sub = self.chars(), self._sub(sub)
        if end is not None:
            cs = cs[:end]
        for i in range(start, len(cs) - len(sub) + 1):
            if self._test(self._match(cs, i, sub)):
                return i
        return -1

    def rfind(self, sub):
        cs, sub = self.chars(), self._sub(sub)
        for i in range(len(cs) - len(sub), -1, -1):
            if self._test(self._match(cs, i, sub)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub):
        n, i = 0, 0
        cs, sub = self.chars(), self._sub(sub)
        while i + len(sub) <= len(cs):
            if self._test(self._match(cs, i, sub)):
                n += 1
                i += max(1, len(sub))
            else:
                i += 1
        return n

    def startswith(self, p, *a):
        if a:
            return self[slice(*(a if len(a) > 1 else (a[0], None)))].startswith(p)
        ps = p if isinstance(p, tuple) else (p,)
        cs = []
        for q in ps:
            qi = self._sub(q)
            its = self.items
            k = 0
            # avoid expanding pieces beyond the prefix
            head = []
            while len(head) < len(qi) and k < len(its) and not isinstance(its[k], Piece):
                head.append(its[k])
                k += 1
            if len(head) < len(qi):
                head = list(self.chars())
            c = self._match(head, 0, qi)
            if c is True:
                return True
            if c is not False:
                cs.append(c)
        return mkbool(z3.Or(*cs)) if cs else False

    def endswith(self, p, *a):
        if a:
            return self[slice(*(a if len(a) > 1 else (a[0], None)))].endswith(p)
        ps = p if isinstance(p, tuple) else (p,)
        cs = []
        for q in ps:
            qi = self._sub(q)
            its = self.items
            tail = list(its[len(its) - len(qi):]) if len(qi) <= len(its) else []
            if len(tail) < len(qi) or any(isinstance(c, Piece) for c in tail):
                its = self.chars()
                tail = list(its[len(its) - len(qi):]) if len(qi) <= len(its) else None
            if tail is None:
                continue
            c = self._match(tail, 0, qi)
            if c is True:
                return True
            if c is not False:
                cs.append(c)
        return mkbool(z3.Or(*cs)) if cs else False

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        cs, old, new = self.chars(), self._sub(old), list(items_of(new))
        if not old:
            return concretise(self).replace("", concretise(mkstr(new)), count)
        out, i = [], 0
        while i < len(cs):
            if count != 0 and self._test(self._match(cs, i, old)):
                out.extend(new)
                i += len(old)
                count -= 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        cs = self.chars()
        while i < len(cs):
            c = cs[i]
            if not self._in(c, LINE_ENDS):
                cur.append(c)
                i += 1
                continue
            end = [c]
            if i + 1 < len(cs) and self._test(conj([item_eq(c, 13), item_eq(cs[i + 1], 10)])):
                end.append(cs[i + 1])
            i += len(end)
            out.append(mkstr(cur + end if keepends else cur))
            cur = []
        if cur:
            out.append(mkstr(cur))
        return out

    def _in(self, c, codes):
        if isinstance(c, int):
            return c in codes
        return E().fork(z3.Or(*[c == z3.BitVecVal(x, CW) for x in codes]))

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) == 0:
            return concretise(self).rsplit(sep, maxsplit)
        out, cur = [], self
        while maxsplit != 0:
            i = cur.rfind(sep)
            if i < 0:
                break
            out.append(cur[i + len(sep):])
            cur = cur[:i]
            maxsplit -= 1
        return [cur] + out[::-1]

    def rindex(self, sub):
        i = self.rfind(sub)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def capitalize(self):
        cs = self.chars()
        first = cs[0]
        if not isinstance(first, int) and not E().is_valid(z3.ULE(first, 127)) or \
                isinstance(first, int) and chr(first).upper() != chr(first).title():
            return concretise(self).capitalize()
        return sym_add_str(mkstr((first,)).upper(), mkstr(cs[1:]).lower())

    def center(self, n, f=" "):
        cs = self.chars()
        fill = max(0, n - len(cs))
        left = fill // 2 + (fill & n & 1)
        return mkstr((ord(f),) * left + tuple(cs) + (ord(f),) * (fill - left))

    def isprintable(self):
        return self._all("isprintable") if len(self) else True

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1:
                return concretise(self).split(None, maxsplit)
            out, cur = [], []
            for c in self.chars():
                if self._instrip(c, None):
                    if cur:
                        out.append(mkstr(cur))
                    cur = []
                else:
                    cur.append(c)
            return out + [mkstr(cur)] if cur else out
        cs, sp = self.chars(), self._sub(sep)
        out, cur, i = [], [], 0
        while i < len(cs):
            if maxsplit != 0 and self._test(self._match(cs, i, sp)):
                out.append(mkstr(cur))
                cur = []
                i += len(sp)
                maxsplit -= 1
            else:
                cur.append(cs[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def _instrip(self, c, chars):
        if chars is None:
            if isinstance(c, int):
                return chr(c).isspace()
            return E().fork(in_ranges(c, class_ranges("isspace")))
        conds = [item_eq(c, x) for x in chars]
        if any(x is True for x in conds):
            return True
        conds = [x for x in conds if x is not False]
        return bool(conds) and E().fork(z3.Or(*conds))

    def lstrip(self, chars=None):
        ch = None if chars is None else self._sub(chars)
        its = list(self.items)
        # only expand as far as needed
        i = 0
        while i < len(its):
            if isinstance(its[i], Piece):
                its[i:i + 1] = expand([its[i]])
                continue
            if self._instrip(its[i], ch):
                i += 1
            else:
                break
        return mkstr(its[i:])

    def rstrip(self, chars=None):
        ch = None if chars is None else self._sub(chars)
        its = list(self.items)
        while its:
            if isinstance(its[-1], Piece):
                its[-1:] = expand([its[-1]])
                continue
            if self._instrip(its[-1], ch):
                its.pop()
            else:
                break
        return mkstr(its)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def _all(self, method):
        cs = self.chars()
        if not cs:
            return False
        conds = []
        for c in cs:
            if isinstance(c, int):
                if not getattr(chr(c), method)():
                    return False
            else:
                conds.append(in_ranges(c, class_ranges(method)))
        return mkbool(z3.And(*conds)) if conds else True

    def isdigit(self): return self._all("isdigit")
    def isdecimal(self): return self._all("isdecimal")
    def isnumeric(self): return self._all("isnumeric")
    def isspace(self): return self._all("isspace")
    def isalpha(self): return self._all("isalpha")
    def isalnum(self): return self._all("isalnum")

    def isascii(self):
        cs = self.chars()
        conds = []
        for c in cs:
            if isinstance(c, int):
                if c > 127:
                    return False
            else:
                conds.append(z3.ULE(c, 127))
        return mkbool(z3.And(*conds)) if conds else True

    def _case(self, lo, hi, delta, name):
        out = []
        for c in self.items:
            if isinstance(c, int):
                out.extend(map(ord, getattr(chr(c), name)()))
            elif isinstance(c, Piece):
                if isinstance(c, Fmt) and c.spec in ("", "d"):
                    out.append(c)
                    continue
                if isinstance(c, G):
                    sub = getattr(mkstr(c.items), name)()
                    if len(items_of(sub)):
                        out.append(G(c.cond, tuple(items_of(sub))))
                    continue
                return getattr(mkstr(expand(self.items)), name)()
            else:
                if not E().is_valid(z3.ULE(c, 127)):
                    runs, special = case_table(name)
                    if special and E().fork(z3.Or(*[z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in special])):
                        return getattr(concretise(self), name)()
                    out.append(case_term(c, runs))
                    continue
                out.append(z3.simplify(z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + delta, c)))
        return mkstr(out)

    def upper(self): return self._case(97, 122, z3.BitVecVal(-32 % (1 << CW), CW), "upper")
    def lower(self): return self._case(65, 90, z3.BitVecVal(32, CW), "lower")
    def swapcase(self):
        cs = self.chars()
        if not E().is_valid(z3.And(*[z3.ULE(c, 127) for c in cs if not isinstance(c, int)])) or \
                any(isinstance(c, int) and c > 127 for c in cs):
            return concretise(self).swapcase()
        return mkstr(tuple(x for c in cs for x in items_of(self._swap(c))))

    @staticmethod
    def _swap(c):
        if isinstance(c, int):
            return chr(c).swapcase()
        d = z3.BitVecVal(32, CW)
        return mkstr((z3.simplify(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - d,
                                        z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + d, c))),))

    def translate(self, table):
        if not isinstance(table, dict) or any(type(k) is not int or is_sym(v) for k, v in table.items()):
            return concretise(self).translate(concretise(table) if is_sym(table) else table)
        out = []
        for c in self.chars():
            if isinstance(c, int):
                out.extend(map(ord, chr(c).translate(table)))
                continue
            for k, v in table.items():
                if E().fork(z3.simplify(c == k)):
                    out.extend(() if v is None else (v,) if isinstance(v, int) else map(ord, v))
                    break
            else:
                out.append(c)
        return mkstr(tuple(out))

    def casefold(self): return self._case(65, 90, z3.BitVecVal(32, CW), "casefold")

    def zfill(self, n):
        number = padded_decimal(self.items)
        if number is not None:
            return decimal(number[0], max(n, number[1]))
        cs = self.chars()
        if len(cs) >= n:
            return self
        neg = cs and self._test(conj([item_eq(cs[0], 45)]))
        pos = cs and not neg and self._test(conj([item_eq(cs[0], 43)]))
        if neg or pos:
            return mkstr((cs[0],) + (48,) * (n - len(cs)) + tuple(cs[1:]))
        return mkstr((48,) * (n - len(cs)) + tuple(cs))

    def rjust(self, n, f=" "):
        if f == "0" and padded_decimal(self.items) is not None:
            return self.zfill(n)
        cs = self.chars()
        return mkstr((ord(f),) * max(0, n - len(cs)) + tuple(cs))

    def ljust(self, n, f=" "):
        cs = self.chars()
        return mkstr(tuple(cs) + (ord(f),) * max(0, n - len(cs)))

    def join(self, parts):
        return str_join(self, parts)

    def format(self, *a, **k):
        return str_format(self, a, k)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = norm_enc(encoding)
        if enc in ("utf-16-le", "utf-16-be"):
            out = []
            for c in self.chars():
                if isinstance(c, int):
                    out.extend(chr(c).encode(enc, errors))
                    continue
                if E().fork(z3.UGE(c, 0x10000)):
                    v = c - 0x10000
                    us = [z3.Concat(z3.BitVecVal(0x36, 6), z3.Extract(19, 10, v)),
                          z3.Concat(z3.BitVecVal(0x37, 6), z3.Extract(9, 0, v))]
                else:
                    u = z3.Extract(15, 0, c)
                    if E().fork(is_surr(u)):
                        if errors == "surrogatepass":
                            pass
                        elif errors == "replace":
                            u = z3.BitVecVal(63, 16)
                        else:
                            raise UnicodeEncodeError(enc, "\ud800", 0, 1, "surrogates not allowed")
                    us = [u]
                for u in us:
                    p = [z3.simplify(z3.Extract(7, 0, u)), z3.simplify(z3.Extract(15, 8, u))]
                    if enc == "utf-16-be":
                        p.reverse()
                    out.extend(p)
            return mkbytes(out)
        if enc in ("ascii", "iso8859-1"):
            lim = 128 if enc == "ascii" else 256
            out = []
            for c in self.chars():
                big = c >= lim if isinstance(c, int) else E().fork(z3.UGE(c, lim))
                if big:
                    if errors != "strict":
                        return concretise(self).encode(encoding, errors)
                    raise UnicodeEncodeError(enc, "\u0100", 0, 1, "ordinal not in range")
                out.append(c if isinstance(c, int) else z3.simplify(z3.Extract(7, 0, c)))
            return mkbytes(out)
        if enc == "utf-8" and errors == "strict":
            out = []
            for c in self.chars():
                if isinstance(c, int):
                    out.extend(chr(c).encode())
                    continue
                ex = lambda hi, lo: z3.Extract(hi, lo, c)
                tail = lambda lo: z3.simplify(z3.Concat(z3.BitVecVal(2, 2), ex(lo + 5, lo)))
                if E().fork(z3.ULT(c, 0x80)):
                    out.append(z3.simplify(ex(7, 0)))
                elif E().fork(z3.ULT(c, 0x800)):
                    out += [z3.simplify(z3.Concat(z3.BitVecVal(6, 3), ex(10, 6))), tail(0)]
                elif E().fork(z3.ULT(c, 0x10000)):
                    if E().fork(ex(15, 11) == z3.BitVecVal(0x1b, 5)):
                        raise UnicodeEncodeError(enc, "\ud800", 0, 1, "surrogates not allowed")
                    out += [z3.simplify(z3.Concat(z3.BitVecVal(14, 4), ex(15, 12))), tail(6), tail(0)]
                else:
                    out += [z3.simplify(z3.Concat(z3.BitVecVal(30, 5), ex(20, 18))), tail(12), tail(6), tail(0)]
            return mkbytes(out)
        return concretise(self).encode(encoding, errors)

    def __str__(self):
        return concretise(self)

    def __repr__(self):
        return repr(concretise(self))

    def __format__(self, spec):
        return format(concretise(self), spec)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(concretise(self), name)


def str_contains(hay, needle):
    """needle in hay -> bool | SymBool"""
    if type(hay) is not SymStr and type(needle) is not SymStr:
        return needle in hay
    h, n = items_of(hay), items_of(needle)
    if not n:
        return True
    # cheap answers without expanding: needle occurs in a run of concrete characters
    if all(isinstance(c, int) for c in n):
        run = "".join(chr(c) if isinstance(c, int) else "\0" for c in h)
        nd = "".join(map(chr, n))
        if "\0" not in nd and nd in run:
            return True
    if not only_chars(h):
        h = expand(h)
    if not only_chars(n):
        n = expand(n)
    conds = []
    for i in range(len(h) - len(n) + 1):
        c = conj([item_eq(x, y) for x, y in zip(h[i:i + len(n)], n)])
        if c is True:
            return True
        if c is not False:
            conds.append(c)
    return mkbool(z3.Or(*conds)) if conds else False


class GuardedElem(object):
    """list element that is present only under a condition (see hooks: merged ifs)"""
    __slots__ = ("cond", "value")

    def __init__(self, cond, value):
        self.cond, self.value = cond, value


def str_join(sep, parts):
    parts = list(parts)
    sep_items = tuple(items_of(sep))
    if not any(type(p) is GuardedElem for p in parts):
        out = []
        for k, p in enumerate(parts):
            if not isinstance(p, str):
                raise TypeError("sequence item %d: expected str instance, %s found" % (k, type(p).__name__))
            if k:
                out.extend(sep_items)
            out.extend(items_of(p))
        return mkstr(out)
    out = []
    before = []      # conditions under which something has been emitted before
    certain = False  # something certainly precedes
    for p in parts:
        g, v = (p.cond, p.value) if type(p) is GuardedElem else (None, p)
        its = tuple(items_of(v))
        if certain:
            chunk = sep_items + its
            out.append(G(g, chunk)) if g is not None else out.extend(chunk)
        else:
            if before and sep_items:
                pre = z3.Or(*before) if len(before) > 1 else before[0]
                out.append(G(pre if g is None else z3.And(pre, g), sep_items))
            out.append(G(g, its)) if g is not None else out.extend(its)
        if g is None:
            certain = True
        else:
            before.append(g)
    return mkstr(out)


# ---------------------------------------------------------------------------------------------------
# formatting
# ---------------------------------------------------------------------------------------------------
def fmt_value(v, spec):
    """format(v, spec) -> str | SymStr"""
    if type(spec) is SymStr:
        spec = concretise(spec)
    t = type(v)
    if t is SymInt:
        fmt_parts(spec)
        if spec == "d":
            spec = ""
        return mkstr((Fmt(v, spec),))
    if t is SymBool:
        return format(bool(v), spec)
    if t is SymStr:
        if spec in ("", "s"):
            return v
        s = spec[:-1] if spec.endswith("s") else spec
        fill, align = " ", "<"
        if len(s) >= 2 and s[1] in "<>^":
            fill, align, s = s[0], s[1], s[2:]
        elif s and s[0] in "<>^":
            align, s = s[0], s[1:]
        if s.startswith("0") and s[1:].isdigit():
            fill, s = "0", s[1:]
        if s.isdigit():
            cs = list(v.chars())
            pad = [ord(fill)] * max(0, int(s) - len(cs))
            if align == "<":
                return mkstr(cs + pad)
            if align == ">":
                return mkstr(pad + cs)
        return format(concretise(v), spec)
    if t is SymBytes:
        return format(concretise(v), spec)
    if t is SymOpaque:
        return SymStrOpaque(v, spec)
    if spec == "" and t in (list, tuple, dict) or (spec == "" and isinstance(v, dict)):
        return to_str(v)
    r = call_format(v, spec)
    return r


def SymStrOpaque(v, spec):
    t = v.text(spec)
    if t is not None:
        return t
    return format(v.concrete(), spec)


def call_format(v, spec):
    f = type(v).__format__
    if getattr(type(v), "_sx_model", False) and hasattr(v, "_sx_format"):
        return v._sx_format(spec)
    if f is object.__format__:
        if spec:
            raise TypeError("unsupported format string passed to %s.__format__" % type(v).__name__)
        return to_str(v)
    if getattr(v, "_sx_model", False):
        return v._sx_format(spec)
    return format(v, spec)


def to_str(v):
    """str(v)"""
    t = type(v)
    if t is SymStr:
        return v
    if t is SymInt:
        return mkstr((Fmt(v, ""),))
    if t is SymBool:
        return str(bool(v))
    if t is SymBytes:
        return str(concretise(v))
    if t is SymOpaque:
        return SymStrOpaque(v, "")
    if getattr(v, "_sx_model", False):
        return v._sx_str()
    if t in (list, tuple) or isinstance(v, dict):
        return to_repr(v)
    if isinstance(v, BaseException):
        if len(v.args) == 1:
            return to_str(v.args[0])
        return to_repr(tuple(v.args)) if v.args else ""
    f = t.__str__
    if hasattr(f, "__code__"):
        return f(v)
    if f is object.__str__:
        return to_repr(v)
    return str(v)


def to_repr(v):
    t = type(v)
    if t is SymInt:
        return mkstr((Fmt(v, ""),))
    if t is SymStr:
        cs = v.items
        # quote without inspecting: exact only when no character needs escaping
        conds = []
        for c in cs:
            if isinstance(c, int):
                if not (32 <= c < 127) or c in (39, 92):
                    return mkstr((Lazy(v),))
            elif isinstance(c, Fmt):
                continue
            elif isinstance(c, Piece):
                return mkstr((Lazy(v),))
            else:
                conds.append(z3.And(z3.UGE(c, 32), z3.ULT(c, 127), c != 39, c != 92))
        if conds and not E().is_valid(z3.And(*conds)):
            return mkstr((Lazy(v),))
        return mkstr((39,) + tuple(cs) + (39,))
    if t is SymBool:
        return repr(bool(v))
    if t in (SymBytes, SymOpaque):
        return mkstr((Lazy(v),))
    if getattr(v, "_sx_model", False):
        return v._sx_str()
    if t is list or t is tuple:
        out = []
        for k, x in enumerate(v):
            if k:
                out.extend((44, 32))
            out.extend(items_of(to_repr(x)))
        if t is tuple and len(v) == 1:
            out.append(44)
        o, c = ("[", "]") if t is list else ("(", ")")
        return mkstr([ord(o)] + out + [ord(c)])
    if isinstance(v, dict) and type(v).__repr__ in (dict.__repr__,):
        out = []
        for k, (a, b) in enumerate(v.items()):
            if k:
                out.extend((44, 32))
            out.extend(items_of(to_repr(a)))
            out.extend((58, 32))
            out.extend(items_of(to_repr(b)))
        return mkstr([123] + out + [125])
    import collections
    if type(v) is collections.OrderedDict:
        if not v:
            return "OrderedDict()"
        return mkstr(list(map(ord, "OrderedDict(")) + list(items_of(to_repr(dict(v)))) + [41])
    f = t.__repr__
    if hasattr(f, "__code__"):
        return f(v)
    return repr(v)


import string as _string  # noqa: E402
_formatter = _string.Formatter()


def str_format(template, args, kwargs):
    if type(template) is SymStr:
        # literal template text may be symbolic (e.g. the result of strftime): expand what could be a brace
        its = template.items
        if all(isinstance(c, int) or isinstance(c, Fmt) or no_brace(c) for c in its):
            out, cur = [], []
            auto = [0]

            def flush():
                if cur:
                    out.extend(items_of(_format_concrete("".join(cur), args, kwargs, auto)))
                    del cur[:]
            for c in its:
                if isinstance(c, int):
                    cur.append(chr(c))
                else:
                    flush()
                    out.append(c)
            flush()
            return mkstr(out)
        return concretise(template).format(*args, **kwargs)
    return _format_concrete(template, args, kwargs, [0])


def no_brace(c):
    if isinstance(c, Piece):
        return False
    if c.get_id() in E().hexmap:
        return True
    return E().is_valid(z3.And(c != 123, c != 125))


def _format_concrete(template, args, kwargs, auto):
    out = []
    for lit, field, spec, conv in _formatter.parse(template):
        out.extend(map(ord, lit))
        if field is None:
            continue
        head = field
        for k, ch in enumerate(field):
            if ch in ".[":
                head = field[:k]
                break
        if head == "":
            key = auto[0]
            auto[0] += 1
        else:
            key = int(head) if head.isdigit() else head
        first, rest = (key, field[len(head):])
        v = args[first] if isinstance(first, int) else kwargs[first]
        if rest:
            _, it = _string._string.formatter_field_name_split("0" + rest)
            for is_attr, name in it:
                v = getattr(v, name) if is_attr else v[name]
        if conv == "r":
            v = to_repr(v)
        elif conv == "s":
            v = to_str(v)
        elif conv == "a":
            v = ascii(concretise(v))
        if spec and "{" in spec:
            spec = _format_concrete(spec, args, kwargs, auto)
        out.extend(items_of(fmt_value(v, spec)))
    return mkstr(out)


_PRINTS = (int, str, float, bool, bytes, type(None))


def percent_format(template, args):
    if type(template) is SymStr:
        template = concretise(template)
    import re
    if isinstance(template, (bytes, bytearray)):
        return template % concretise(args)
    if not isinstance(args, tuple):
        args_t = (args,)
    else:
        args_t = args
    out, k, pos = [], 0, 0
    for m in re.finditer(r"%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", template):
        out.extend(map(ord, template[pos:m.start()]))
        pos = m.end()
        name, flags, width, prec, ty = m.groups()
        if ty == "%":
            out.append(37)
            continue
        if name:
            v = args[name]
        else:
            if k >= len(args_t):
                raise TypeError("not enough arguments for format string")
            v = args_t[k]
            k += 1
        if (type(v) in _PRINTS or ty not in "sr") and not is_sym(v) and not contains_sym(v):
            out.extend(map(ord, ("%" + flags + width + ("." + prec if prec else "") + ty) % (v,)))
            continue
        if ty in "diuxXo":
            spec = ""
            if "-" in flags:
                spec += "<"
            if "+" in flags:
                spec += "+"
            elif " " in flags:
                spec += " "
            if "#" in flags:
                spec += "#"
            if "0" in flags and "-" not in flags:
                spec += "0"
            if prec:
                spec += "0" + prec
            else:
                spec += width
            spec += {"d": "", "i": "", "u": ""}.get(ty, ty)
            out.extend(items_of(fmt_value(v, spec)))
        elif ty == "s":
            s = to_str(v)
            if prec:
                s = s[:int(prec)]
            if width:
                s = fmt_value(s, ("<" if "-" in flags else ">") + width)
            out.extend(items_of(s))
        elif ty == "r":
            out.extend(items_of(to_repr(v)))
        else:
            out.extend(map(ord, ("%" + flags + width + ("." + prec if prec else "") + ty) % (concretise(v),)))
    out.extend(map(ord, template[pos:]))
    if k < len(args_t) and not isinstance(args, dict):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


def parse_int(s, base=10):
    """int(str | bytes, base)"""
    if type(s) is SymBytes:
        s = mkstr([zx(b) for b in s.items])
        if type(s) is str:
            return int(s, base)
    if type(s) is not SymStr:
        return int(s, base)
    its = s.items
    if len(its) == 1 and isinstance(its[0], Fmt) and \
            ((base == 10 and its[0].spec in ("", "d")) or (base == 16 and its[0].spec in ("x", "X"))):
        return its[0].x
    if base not in (10, 16):
        return int(concretise(s), base)
    if len(its) == 1 and isinstance(its[0], Fmt):
        try:
            fill, align, sign, alt, width, grp, ty = fmt_parts(its[0].spec)
            if not grp and not alt and (fill == "0" or width == 0) and \
                    {"d": 10, "x": 16, "X": 16}.get(ty) == base:
                return its[0].x
        except Unsupported:
            pass
    cs = s.chars()
    val = 0
    err = ValueError("invalid literal for int() with base %d: %s" % (base, "<symbolic>"))
    if not cs:
        raise err
    for c in cs:
        if isinstance(c, int):
            d = chr(c)
            if d.isdecimal():
                v = int(d)
            elif base == 16 and d in "abcdefABCDEF":
                v = int(d, 16)
            else:
                # signs, underscores, blanks: fall back to one concrete value
                if d in "+-_" or d.isspace():
                    return int(concretise(s), base)
                raise err
        else:
            e = E()
            h = e.hexmap.get(c.get_id())
            if h is not None and (base == 16 or e.is_valid(z3.ULT(h[1], z3.BitVecVal(10, 4)))):
                v = mkint(h[1], "u", 0, base - 1)
            elif e.fork(z3.And(z3.UGE(c, 48), z3.ULE(c, 57))):
                v = mkint(z3.simplify(z3.Extract(3, 0, c - 48)), "u", 0, 9)
            elif base == 16 and e.fork(z3.And(z3.UGE(c, 97), z3.ULE(c, 102))):
                v = mkint(z3.simplify(z3.Extract(3, 0, c - 87)), "u", 10, 15)
            elif base == 16 and e.fork(z3.And(z3.UGE(c, 65), z3.ULE(c, 70))):
                v = mkint(z3.simplify(z3.Extract(3, 0, c - 55)), "u", 10, 15)
            elif e.fork(in_ranges(c, class_ranges("isdecimal"))):
                rs = class_ranges("isdecimal")
                zs = []
                for lo, hi in rs:
                    for z in range(lo, hi + 1, 10):
                        zs.append(z)
                v = z3.BitVecVal(0, CW)
                for z in zs:
                    v = z3.If(z3.And(z3.UGE(c, z), z3.ULE(c, z + 9)), c - z, v)
                v = mkint(z3.simplify(z3.Extract(3, 0, v)), "u", 0, 9)
            elif e.fork(z3.Or(c == 43, c == 45, c == 95, in_ranges(c, class_ranges("isspace")))):
                return int(concretise(s), base)
            else:
                raise err
        val = val * base + v
    return val


# ---------------------------------------------------------------------------------------------------
SYM = (SymInt, SymBool, SymBytes, SymStr, SymOpaque)
_SYMSET = frozenset(SYM)


def issym(x):
    return type(x) in _SYMSET


def is_sym(x):  # noqa: F811
    return type(x) in _SYMSET


def contains_sym(x, depth=3):
    t = type(x)
    if t in _SYMSET or t is GuardedElem:
        return True
    if getattr(t, "_sx_model", False):
        return True
    if depth and t in (list, tuple, set):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(contains_sym(k, depth - 1) or contains_sym(v, depth - 1) for k, v in x.items())
    return False
