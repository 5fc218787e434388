"""The harness API in symbolic mode."""
import collections
import datetime as _dt
import enum
import traceback
import os
import re
import z3
from . import core, values as V, hooks as H, dtmodel, shims
from .core import Unsupported
from .values import SymInt, SymBool, SymBytes, SymStr, SymOpaque, is_sym, mkbool, zb
from rt.common import Outcome, dict_items, enter

HERE = os.path.dirname(os.path.abspath(__file__))


PLAIN_TYPE_ERROR = re.compile(r"object of type '(int|float|bool|NoneType|object)' has no len\(\)$|"
                              r"'(int|float|bool|NoneType|object)' object is not (iterable|subscriptable)$")


def soft_exception(e):
    """Does this exception look like the engine's own inability rather than the program's behaviour?"""
    if isinstance(e, z3.Z3Exception):
        return True
    if getattr(e, "sx_plain", False):
        return False
    if isinstance(e, (RecursionError, MemoryError)):
        return True
    if isinstance(e, (TypeError, AttributeError, NotImplementedError, AssertionError, NameError)):
        tb = e.__traceback__
        last = None
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        if isinstance(e, TypeError) and len(e.args) == 1 and type(e.args[0]) is str and PLAIN_TYPE_ERROR.match(e.args[0]):
            return False    # a hook handed a plain value of a wrong type on to the built-in function
        if last and os.path.dirname(os.path.abspath(last)) == HERE:
            return True
        s = " ".join(a for a in e.args if type(a) is str)
        if "Sym" in s or "z3" in s or "GuardedElem" in s:
            return True
    return False


def where(e):
    fs = traceback.extract_tb(e.__traceback__)
    return " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(fs[-4:]))


class Mismatch(Exception):
    pass


class SymCtx(object):
    symbolic = True

    def __init__(self, engine, scenario):
        self.e = engine
        self.scenario = scenario
        self.observing = scenario.observe
        self.observed = []

    def start(self):
        self.observed = []
        shims.FILES.clear()
        enter(self, self.scenario)

    # ------------------------------------------------------------------ inputs
    def _reg(self, name, kind, sym, meta=None):
        if name in self.e.inputs:
            raise AssertionError("duplicate input %r" % name)
        self.e.inputs[name] = (kind, sym, meta)

    def bits(self, name, n):
        x = z3.BitVec("in." + name, n)
        self._reg(name, "int", x)
        return SymInt(x, "u", 0, (1 << n) - 1)

    def u8(self, name): return self.bits(name, 8)
    def u16(self, name): return self.bits(name, 16)
    def u32(self, name): return self.bits(name, 32)
    def u64(self, name): return self.bits(name, 64)

    def _signed(self, name, n):
        x = z3.BitVec("in." + name, n)
        self._reg(name, "int", x, {"signed": True, "bits": n})
        return SymInt(x, "s", -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def s32(self, name): return self._signed(name, 32)
    def s64(self, name): return self._signed(name, 64)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        x = z3.Int("in." + name)
        self._reg(name, "int", x)
        self.e.assume(z3.And(x >= lo, x <= hi))
        V.note_range(x, lo, hi)
        return SymInt(x, "i", lo, hi)

    def bool(self, name):
        x = z3.Bool("in." + name)
        self._reg(name, "bool", x)
        return SymBool(x)

    def bytes(self, name, n):
        bs = [z3.BitVec("in.%s.%d" % (name, i), 8) for i in range(n)]
        self._reg(name, "bytes", bs)
        return V.mkbytes(bs)

    def text(self, name, n, kind="char"):
        """n characters; kind: ascii (0..127), ascii1 (1..127), char (BMP, no surrogate, not NUL),
        bmp (BMP, no surrogate), any (all code points but surrogates, not NUL), raw (all code points, with surrogates)"""
        cs, us = [], []
        for i in range(n):
            nm = "in.%s.%d" % (name, i)
            if kind in ("ascii", "ascii1"):
                b = z3.BitVec(nm, 7)
                c = z3.ZeroExt(V.CW - 7, b)
                if kind == "ascii1":
                    self.e.assume(b != 0)
            elif kind in ("char", "bmp"):
                b = z3.BitVec(nm, 16)
                c = z3.ZeroExt(V.CW - 16, b)
                self.e.assume(z3.Extract(15, 11, b) != z3.BitVecVal(0x1b, 5))
                if kind == "char":
                    self.e.assume(b != 0)
            else:
                c = z3.BitVec(nm, V.CW)
                self.e.assume(z3.ULE(c, 0x10FFFF))
                if kind == "any":
                    self.e.assume(z3.And(c != 0, z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF))))
            cs.append(c)
        self._reg(name, "text", cs)
        return V.mkstr(cs)

    def file(self, data):
        """the path of a file that holds these bytes"""
        path = os.path.join(HERE, "no-such-folder", "%d.PML" % len(shims.FILES))
        shims.FILES[path] = data
        return path

    def choice(self, name, options):
        i = self.e.choose(len(options))
        self._reg(name, "choice", i)
        return options[i]

    def date(self, name, lo=1, hi=9999):
        ys = [z3.Int("in.%s.%s" % (name, p)) for p in "ymd"]
        for p, y in zip("ymd", ys):
            self._reg("%s.%s" % (name, p), "int", y)
        self.e.assume(z3.And(dtmodel.valid_date_z(*ys), ys[0] >= lo, ys[0] <= hi))
        for t, a, b in zip(ys, (lo, 1, 1), (hi, 12, 31)):
            V.note_range(t, a, b)
        y, m, d = SymInt(ys[0], "i", lo, hi), SymInt(ys[1], "i", 1, 12), SymInt(ys[2], "i", 1, 31)
        n = z3.Int(self.e.fresh("daynum"))
        self.e.define(n == dtmodel.day_number_z(*ys))
        dl = (_dt.date(lo, 1, 1) - _dt.date(1970, 1, 1)).days
        dh = (_dt.date(hi, 12, 31) - _dt.date(1970, 1, 1)).days
        self.e.define(z3.And(n >= dl, n <= dh))
        V.note_range(n, dl, dh)
        n = SymInt(n, "i", dl, dh)
        dtmodel.register_date(n, y, m, d)
        return y, m, d, n

    # ------------------------------------------------------------------ obligations
    def assume(self, cond):
        cond = H.sx_cond(cond)
        self.e.assume(cond.e if type(cond) is SymBool else cond)

    def _obs(self, label, v):
        if self.observing:
            self.observed.append((label, snap(v)))

    def check(self, cond, label):
        cond = H.m_bool(cond)
        self._obs(label, cond)
        self.e.prove(cond.e if type(cond) is SymBool else cond, label)

    def fail(self, label):
        self.e.prove(False, label)

    def eq(self, a, b, label):
        self._obs(label, a)
        conds = []
        try:
            self._eq(a, b, "", conds)
        except Mismatch as m:
            self.e.prove(False, label, str(m))
            return
        self.e.prove(z3.And(*conds) if conds else True, label)

    def _eq(self, a, b, path, conds):
        for t in (bool, int, str, (bytes, bytearray), float, list, tuple, dict, _dt.datetime):
            if isinstance(a, t) != isinstance(b, t):
                raise Mismatch("%s: type %s is not %s" % (path, type(a).__name__, type(b).__name__))
        if isinstance(a, dict):
            if H.is_symdict(a) or H.is_symdict(b) or H.contains_sym(a) or H.contains_sym(b):
                pass
            xa, xb = dict_items(a), dict_items(b)
            if len(xa) != len(xb):
                raise Mismatch("%s: %d entries, not %d" % (path, len(xa), len(xb)))
            for (ka, va), (kb, vb) in zip(xa, xb):
                self._eq(ka, kb, path + ".key", conds)
                self._eq(va, vb, "%s[%s]" % (path, ka if type(ka) is str else "?"), conds)
            return
        if isinstance(a, (list, tuple)):
            for x in (a, b):
                if type(x) is list and H.guarded(x):
                    H.resolve(x)
            if len(a) != len(b):
                raise Mismatch("%s: %d elements, not %d" % (path, len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                self._eq(x, y, "%s[%d]" % (path, i), conds)
            return
        if type(a) is SymOpaque or type(b) is SymOpaque:
            c = a.same(b) if type(a) is SymOpaque else b.same(a)
            if c is True:
                return
            if type(c) is SymBool:
                if self.e.is_valid(c.e):
                    return
            a, b = V.concretise(a), V.concretise(b)
        m = getattr(type(a), "__module__", "") or ""
        if m.startswith("procmon_parser") and not isinstance(a, (int, enum.Enum, list, dict)):
            if type(a) is not type(b):
                raise Mismatch("%s: %s is not %s" % (path, type(a).__name__, type(b).__name__))
            self._eq(vars(a), vars(b), path + "." + type(a).__name__, conds)
            return
        c = H.key_eq(a, b)
        if type(c) is SymBool:
            conds.append(c.e)
        elif not c:
            raise Mismatch("%s differs" % path)

    def outcome(self, f, *a, **k):
        try:
            r = f(*a, **k)
        except Exception as e:
            if soft_exception(e):
                raise Unsupported("engine limit: %s: %s at %s" % (type(e).__name__, str(e)[:120], where(e)))
            return Outcome("err", e)
        return Outcome("ok", r)

    def cover(self, label):
        self.e.covers.add(label)

    def concrete(self, v):
        return V.concretise(v)

    def concrete_int(self, v):
        """explore every value of v (few)"""
        return V.enumerate_int(v) if type(v) is SymInt else v

    # conditions without forking
    def either(self, *conds):
        return mkbool(z3.Or(*[zb(H.m_bool(c)) for c in conds]))

    def both(self, *conds):
        return mkbool(z3.And(*[zb(H.m_bool(c)) for c in conds]))

    def ite(self, c, a, b):
        c = H.m_bool(c)
        if type(c) is not SymBool:
            return a if c else b
        r = V.mkite(c.e, a, b)
        if r is None:
            return a if bool(c) else b
        return r


# ------------------------------------------------------------------------------------ values under a model
class Items(list):
    """the items of a dict at the time it was looked at"""


def snap(v):
    """containers as they are now (the scenario may change them later)"""
    if isinstance(v, dict):
        return Items((snap(k), snap(x)) for k, x in dict_items(v))
    if isinstance(v, (list, tuple)):
        return [H.GuardedElem(x.cond, snap(x.value)) if type(x) is H.GuardedElem else snap(x) for x in v]
    if isinstance(v, Outcome):
        return Outcome(v.kind, snap(v.value)) if v.ok else v
    return v


def under(model, v):
    """the concrete value v denotes under a model"""
    t = type(v)
    if t is SymInt:
        x = model.eval(v.e, model_completion=True)
        return x.as_signed_long() if v.kind == "s" else x.as_long()
    if t is SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if isinstance(v, SymBytes) and V.issym(v):
        return bytes(b if isinstance(b, int) else model.eval(b, model_completion=True).as_long() for b in v.items)
    if t is SymStr:
        return V.eval_str(model, v.items)
    if t is H.SymByteArray:
        return under(model, v._v())
    if t is SymOpaque:
        import operator
        return getattr(operator, v.op)(*[under(model, x) for x in v.args]) if hasattr(operator, v.op) else \
            {"hash": hash, "float": float}[v.op](under(model, v.args[0]))
    if t is dtmodel.SymDT:
        return _dt.datetime(1970, 1, 1) + _dt.timedelta(seconds=under(model, v.secs), microseconds=under(model, v.us))
    if t is dtmodel.SymTD:
        return _dt.timedelta(microseconds=under(model, v.us))
    if isinstance(v, dict):
        return collections.OrderedDict((FrozenKey(under(model, k)), under(model, x)) for k, x in dict_items(v))
    if t is Items:
        return collections.OrderedDict((FrozenKey(under(model, k)), under(model, x)) for k, x in v)
    if t in (list, tuple):
        out = []
        for x in v:
            if type(x) is H.GuardedElem:
                if z3.is_true(model.eval(x.cond, model_completion=True)):
                    out.append(under(model, x.value))
            else:
                out.append(under(model, x))
        return out
    if isinstance(v, (list, tuple)):
        return [under(model, x) for x in v]
    if isinstance(v, Outcome):
        return Outcome(v.kind, under(model, v.value) if v.ok else v.value)
    if getattr(t, "_sx_model", False):
        return str(v)
    m = getattr(t, "__module__", "") or ""
    if m.startswith("procmon_parser") and hasattr(v, "__dict__") and not isinstance(v, (enum.Enum, type)):
        return Obj(t.__name__, under(model, dict(vars(v))))
    return v


class FrozenKey(object):
    """a dict key after evaluation (kept distinct by identity so that equal keys would show)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Obj(object):
    def __init__(self, name, vars_):
        self.name, self.vars_ = name, vars_


def norm_under(v):
    from rt.common import norm
    if isinstance(v, FrozenKey):
        return norm_under(v.v)
    if isinstance(v, Obj):
        return {"obj": v.name, "vars": norm_under(v.vars_)}
    if isinstance(v, dict):
        return {"dict": [[norm_under(k), norm_under(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return [norm_under(x) for x in v]
    if isinstance(v, Outcome):
        return {"outcome": v.kind, "value": norm_under(v.value) if v.ok else type(v.value).__name__}
    return norm(v)
