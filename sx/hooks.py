"""Runtime hooks the instrumented code calls: models of Python's own operations on symbolic values."""
import bisect
import builtins
import collections
import enum
import functools
import itertools
import operator
import types
import z3
from . import core, values as V
from .core import Unsupported
from .values import SymInt, SymBool, SymBytes, SymStr, SymOpaque, GuardedElem, is_sym, contains_sym, mkbool, zb

E = V.E
BFT = types.BuiltinFunctionType
FT = types.FunctionType
MT = types.MethodType
MISSING = object()
UNB = type("Unbound", (), {})()
_plain = frozenset((int, str, bytes, bool, float, type(None)))


def sym_arg(x):
    t = type(x)
    return t not in _plain and contains_sym(x)


def any_sym(a, k):
    for x in a:
        if type(x) not in _plain and contains_sym(x):
            return True
    if k:
        for x in k.values():
            if type(x) not in _plain and contains_sym(x):
                return True
    return False


# ------------------------------------------------------------------------------------ guarded lists
def guarded(x):
    g = E().guarded
    return bool(g) and id(x) in g and g[id(x)] is x


def resolve(x):
    """make the presence of every element of a guarded list definite (forks)"""
    e = E()
    out = []
    for y in list.__iter__(x):
        if type(y) is GuardedElem:
            if e.fork(y.cond):
                out.append(y.value)
        else:
            out.append(y)
    x[:] = out
    e.guarded.pop(id(x), None)
    return x


def gtruth(x):
    conds = []
    for y in list.__iter__(x):
        if type(y) is not GuardedElem:
            return True
        conds.append(y.cond)
    return mkbool(z3.simplify(z3.Or(*conds))) if conds else False


def sx_truth(x):
    """operand of a test"""
    if type(x) is list and E().guarded and guarded(x):
        return gtruth(x)
    own = OWN_BOOL.get(type(x), 0)
    if own == 0:
        own = OWN_BOOL[type(x)] = instrumented(type(x), "__bool__") or \
            (instrumented(type(x), "__len__") if not hasattr(type(x), "__bool__") and not is_sym(x) else None)
    if own is not None:
        return sx_truth(own(x))     # its own test, which may give a symbolic truth value
    return x


OWN_BOOL = {}


def instrumented(t, name):
    """the special method of class t where the code under check defines it"""
    f = getattr(t, name, None)
    return f if type(f) is FT and "__sx_call__" in f.__builtins__ else None


def sx_wtruth(x):
    """condition of a while loop"""
    E().tick()
    return sx_truth(x)


def sx_truthv(x):
    """operand of and/or (its value may be the result)"""
    if type(x) is list and E().guarded and guarded(x):
        return x if bool(gtruth(x)) else []
    return x


def sx_not(x):
    x = sx_truth(x)
    t = type(x)
    if t is SymBool:
        return V.sym_not(x)
    if t is SymInt:
        return x == 0
    if t is SymStr:
        tr = x.truth()
        return V.sym_not(tr)
    return not x


def sx_cond(x):
    """condition of a mergeable if: True / False / SymBool (undecided)"""
    x = sx_truth(x)
    t = type(x)
    if t is SymInt:
        x = x != 0
    elif t is SymStr:
        x = x.truth()
    if type(x) is SymBool:
        c = z3.simplify(x.e)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return SymBool(c)
    return bool(x)


def sx_gappend(obj, c, thunk):
    if type(obj) is list:
        try:
            v = thunk()
        except Exception:
            v = MISSING
        if v is not MISSING:
            obj.append(GuardedElem(c.e, v))
            E().guarded[id(obj)] = obj
            return
    if bool(c):
        obj.append(thunk())


def sx_merge(c, old, thunk):
    if old is not UNB:
        try:
            new = thunk()
        except Exception:
            new = MISSING
        if new is not MISSING:
            r = V.mkite(c.e, new, old)
            if r is not None:
                return r
    if bool(c):
        return thunk()
    return old


def sx_ite(c, yes, no):
    """a conditional expression of integers that depend on the input is one value, others fork"""
    if c is True:
        return yes()
    if c is False:
        return no()
    try:
        a, b = yes(), no()
    except Exception:
        a = b = None
    if type(a) is SymInt and type(b) in (SymInt, int) or type(b) is SymInt and type(a) is int:
        r = V.mkite(c.e, a, b)
        if r is not None:
            return r
    return yes() if bool(c) else no()


def sx_ge(cond, thunk):
    """element of a filtered comprehension"""
    c = sx_cond(cond)
    if c is False:
        return MISSING
    if c is True:
        return thunk()
    try:
        return GuardedElem(c.e, thunk())
    except Exception:
        return thunk() if bool(c) else MISSING


def sx_glist(xs):
    out = [x for x in xs if x is not MISSING]
    if any(type(x) is GuardedElem for x in out):
        E().guarded[id(out)] = out
    return out


def sx_iter(x):
    if type(x) is list and E().guarded and guarded(x):
        resolve(x)
    return x


class GenList(object):
    """what a generator function yielded (see instr.pure_generator), to be taken like from the generator"""
    def __init__(self, items):
        self.items, self.it = items, None

    def __iter__(self):
        return self

    def __next__(self):
        if self.it is None:
            self.it = iter(sx_iter(self.items))
        return next(self.it)

    def take(self):
        """all of it as a list whose elements may be there or not"""
        if self.it is not None:
            return list(self.it)
        self.it = iter(())
        return self.items

    def close(self):
        self.it = iter(())


def iters(*xs):
    return any(is_iterator(x) for x in xs)


def is_iterator(x):
    return hasattr(type(x), "__next__") and type(x) is not GenList


def finite(x):
    if is_iterator(x) and not isinstance(x, (zip, enumerate, reversed)):
        raise Unsupported("generator over an iterator")
    return x


# ------------------------------------------------------------------------------------ equality, dicts
def key_eq(a, b):
    """semantic equality of two keys -> bool | SymBool, without forking where possible"""
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = key_eq(x, y)
            if type(c) is SymBool:
                conds.append(c.e)
            elif not c:
                return False
        return mkbool(z3.And(*conds)) if conds else True
    if a is b:
        return True
    r = a == b
    return r if type(r) is SymBool else bool(r)


def mark_symdict(d):
    E().symdicts[id(d)] = d


def is_symdict(d):
    s = E().symdicts
    return bool(s) and id(d) in s and s[id(d)] is d


def hashable_check(k):
    if type(k) in (list, dict, set):
        hash(k)


def dict_find(d, k):
    """the physical key equal to k, or MISSING (forks over the candidates)"""
    hashable_check(k)
    cands, conds = [], []
    for q in list(dict.keys(d)):
        c = key_eq(q, k)
        if type(c) is SymBool:
            s = z3.simplify(c.e)
            if z3.is_true(s):
                return q
            if z3.is_false(s):
                continue
            cands.append(q)
            conds.append(s)
        elif c:
            return q
    if not cands:
        return MISSING
    none = z3.Not(z3.Or(*conds)) if len(conds) > 1 else z3.Not(conds[0])
    # the common outcome first
    i = E().switch(conds + [none])
    return cands[i] if i < len(cands) else MISSING


def symbolic_key(d, k):
    return (type(k) not in _plain and contains_sym(k)) or (E().symdicts and is_symdict(d))


def dict_store(d, k, v):
    q = dict_find(d, k)
    if q is MISSING:
        if contains_sym(k):
            mark_symdict(d)
        dict_setitem(d, k, v)
    else:
        dict_setitem(d, q, v)


def dict_setitem(d, k, v):
    d[k] = v


def sx_dict(pairs):
    d = {}
    for k, v in pairs:
        if symbolic_key(d, k):
            dict_store(d, k, v)
        else:
            d[k] = v
    return d


class SymSet(object):
    """a set with symbolic members, kept pairwise distinct on this path (in order of insertion)"""
    def __init__(self, xs=()):
        self.xs = []
        for x in xs:
            self.add(x)

    @property
    def __class__(self):
        return set

    def __len__(self): return len(self.xs)
    def __iter__(self): return iter(list(self.xs))
    def __bool__(self): return bool(self.xs)
    def __contains__(self, x): return bool(any_eq(x, self.xs))

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def add(self, x):
        if type(x) not in _plain:
            hash_key(x)
        if not bool(any_eq(x, self.xs)):
            self.xs.append(x)

    def discard(self, x):
        self.xs = [y for y in self.xs if not bool(key_eq(y, x))]

    def remove(self, x):
        n = len(self.xs)
        self.discard(x)
        if len(self.xs) == n:
            raise KeyError(x)

    def update(self, *os):
        for o in os:
            for x in sx_iter(o):
                self.add(x)

    def copy(self): return SymSet(self.xs)
    def clear(self): self.xs = []

    def union(self, *os):
        r = SymSet(self.xs)
        r.update(*os)
        return r

    def intersection(self, o):
        o = list(o)
        return SymSet([x for x in self.xs if bool(any_eq(x, o))])

    def difference(self, o):
        o = list(o)
        return SymSet([x for x in self.xs if not bool(any_eq(x, o))])

    def symmetric_difference(self, o): return self.difference(o).union(SymSet(o).difference(self))
    def issubset(self, o): return all([bool(any_eq(x, list(o))) for x in self.xs])
    def issuperset(self, o): return SymSet(o).issubset(self)
    def isdisjoint(self, o): return not self.intersection(o)
    def __eq__(self, o): return isinstance(o, (set, frozenset)) and len(self) == len(o) and self.issubset(o)
    def __ne__(self, o): return not self.__eq__(o)
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    __or__ = __ror__ = union
    __and__ = __rand__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference
    def __rsub__(self, o): return SymSet(o).difference(self)


def m_mkset(cls):
    def g(x=()):
        xs = list(sx_iter(x))
        if contains_sym(xs) or cls is set and not xs:  # an empty one is there to be filled
            return SymSet(xs)
        return cls(xs)
    return g


def sx_set(xs):
    return SymSet(xs) if contains_sym(xs) else set(xs)


# ------------------------------------------------------------------------------------ subscripts
def clamp_bound(v, n, step_neg=False):
    """a slice bound: symbolic ones outside the sequence collapse into one case each"""
    if v is None or type(v) is int:
        return v
    if type(v) is SymInt:
        e = E()
        if v.hi >= n and e.fork(zb(v >= n)):
            return n
        if v.lo < 0 and e.fork(zb(v < -n)):
            return -n
        return v.__index__()
    return v.__index__()


def norm_slice(o, s):
    if is_sym(s.start) or is_sym(s.stop) or is_sym(s.step):
        n = len(o)
        step = None if s.step is None else s.step.__index__()
        if step is not None and step < 0:
            return slice(None if s.start is None else s.start.__index__(),
                         None if s.stop is None else s.stop.__index__(), step)
        return slice(clamp_bound(s.start, n), clamp_bound(s.stop, n), step)
    return s


def seq_index(o, i):
    """concrete position for a symbolic index into o, IndexError when out of range"""
    n = len(o)
    if type(i) is SymBool:
        i = i._int()
    pos, conds = [], []
    for p in list(range(n)) + list(range(-n, 0)):
        if i.lo <= p <= i.hi:
            pos.append(p)
            conds.append(zb(i == p))
    rest = z3.And(*[z3.Not(c) for c in conds]) if conds else z3.BoolVal(True)
    if not conds:
        raise IndexError("list index out of range")
    k = E().switch(conds + [rest])
    if k == len(pos):
        raise IndexError("list index out of range")
    return pos[k]


_seq = (list, tuple, str, bytes)


def sx_getitem(o, i):
    t = type(o)
    if t is dict:
        if symbolic_key(o, i):
            q = dict_find(o, i)
            if q is MISSING:
                raise KeyError(i)
            return o[q]
        return o[i]
    ti = type(i)
    if t is list and E().guarded and guarded(o):
        resolve(o)
    if ti not in (int, slice, str, tuple, SymInt, SymBool, SymStr, SymBytes) and isinstance(o, (list, tuple, str, bytes)) or \
            t in (SymBytes, SymStr):
        own = instrumented(ti, "__index__")
        if own is not None:
            i = own(i)
            ti = type(i)
    if isinstance(o, dict) and instrumented(t, "__getitem__") is not None:
        return o[i]
    if ti is slice:
        if isinstance(o, (list, tuple, str, bytes)):
            return o[norm_slice(o, i)]
        return o[i]
    if ti is SymInt or ti is SymBool:
        if isinstance(o, _seq) and type(o).__getitem__ in (list.__getitem__, tuple.__getitem__, str.__getitem__,
                                                          bytes.__getitem__):
            return o[seq_index(o, i)]
        if t is SymBytes or t is SymStr:
            return o[seq_index(o, i)]
    if isinstance(o, dict) and symbolic_key(o, i):
        q = dict_find(o, i)
        if q is not MISSING:
            return o[q]
        miss = getattr(type(o), "__missing__", None)
        if miss is not None and isinstance(o, collections.defaultdict):
            if o.default_factory is None:
                raise KeyError(i)
            v = o.default_factory()
            dict_store(o, i, v)
            return v
        if miss is not None:
            return miss(o, i)
        raise KeyError(i)
    if (t is types.MappingProxyType or t is collections.ChainMap) and sym_arg(i):
        return sx_getitem(dict(o), i)
    if isinstance(o, enum.EnumMeta) and ti is SymStr:
        names = list(o.__members__)
        conds = []
        for nm in names:
            c = V.str_eq(i, nm)
            conds.append(z3.BoolVal(c) if isinstance(c, bool) else c)
        k = E().switch(conds + [z3.Not(z3.Or(*conds))])
        if k == len(names):
            raise KeyError(i)
        return o[names[k]]
    return o[i]


class Tgt(object):
    """target of a subscript store / delete / augmented assignment"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __getitem__(self, i):
        return sx_getitem(self.o, i)

    def __setitem__(self, i, v):
        o = self.o
        if isinstance(o, dict):
            if symbolic_key(o, i):
                dict_store(o, i, v)
            else:
                o[i] = v
            return
        if type(o) is list and E().guarded and guarded(o):
            resolve(o)
        if type(i) is SymInt and isinstance(o, list):
            i = seq_index(o, i)
        elif type(i) is slice and isinstance(o, list):
            i = norm_slice(o, i)
        o[i] = v

    def __delitem__(self, i):
        o = self.o
        if isinstance(o, dict) and symbolic_key(o, i):
            q = dict_find(o, i)
            if q is MISSING:
                raise KeyError(i)
            del o[q]
            return
        if type(o) is list and E().guarded and guarded(o):
            resolve(o)
        if type(i) is SymInt and isinstance(o, list):
            i = seq_index(o, i)
        del o[i]


def any_eq(a, items):
    conds = []
    for x in items:
        c = key_eq(x, a)
        if type(c) is SymBool:
            conds.append(c.e)
        elif c:
            return True
    return mkbool(z3.simplify(z3.Or(*conds))) if conds else False


_views = (type({}.keys()), type({}.values()), type(collections.OrderedDict().keys()),
          type(collections.OrderedDict().values()))


def sx_in(a, c):
    t = type(c)
    if t is SymStr or t is SymBytes:
        return c.contains(a)
    if t is SymInt and isinstance(a, enum.Flag):
        return (c & a._value_) == a._value_
    if t is SymByteArray:
        return SymBytes(tuple(c)).contains(a) if c.items else False
    if type(c) is list and E().guarded and guarded(c):
        conds = []
        for x in list.__iter__(c):
            g, v = (x.cond, x.value) if type(x) is GuardedElem else (z3.BoolVal(True), x)
            conds.append(z3.And(g, zb(key_eq(v, a))))
        return mkbool(z3.simplify(z3.Or(*conds)))
    if isinstance(c, dict) and (t is dict or instrumented(t, "__contains__") is None):
        if symbolic_key(c, a):
            hashable_check(a)
            return any_eq(a, list(dict.keys(c)))
        return a in c
    if t in _plain and t is not str and t is not bytes:
        return a in c
    if t is types.MappingProxyType or t is collections.ChainMap and sym_arg(a):
        return sx_in(a, dict(c))
    if t is not list and t is not tuple:
        own = instrumented(t, "__contains__")
        if own is not None:
            return m_bool(own(c, a))
    if sym_arg(a) or (isinstance(c, (list, tuple, set, frozenset)) and contains_sym(c)) or \
            (isinstance(c, _views) and any(contains_sym(y) for y in c)):
        if isinstance(c, (list, tuple, set, frozenset)) or isinstance(c, _views):
            return any_eq(a, list(c))
        if t is range and type(a) is SymInt:
            if c.step == 1:
                return (a >= c.start) & (a < c.stop)
            return any_eq(a, list(c))
        if isinstance(c, str):
            return V.str_contains(c, a)
        if isinstance(c, (bytes, bytearray)):
            return SymBytes(tuple(c)).contains(a)
        if isinstance(c, enum.EnumMeta):
            return any_eq(a, list(c))
    return a in c


_CONTAINERS = (dict, list, tuple)


def has_symdict(v, depth=0):
    if isinstance(v, dict):
        if is_symdict(v):
            return True
        vs = list(dict.values(v))
    elif isinstance(v, (list, tuple)):
        vs = v
    else:
        return False
    if depth > 6:
        return False
    return any(has_symdict(x, depth + 1) for x in vs if isinstance(x, _CONTAINERS))


def deep_eq(a, b):
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        if isinstance(a, collections.OrderedDict) and isinstance(b, collections.OrderedDict):
            return all(bool(key_eq(x, y)) for x, y in zip(list(dict.keys(a)), list(dict.keys(b)))) and \
                all(deep_eq(x, y) for x, y in zip(list(dict.values(a)), list(dict.values(b))))
        for k in list(dict.keys(a)):
            q = dict_find(b, k)
            if q is MISSING or not deep_eq(dict.__getitem__(a, k), dict.__getitem__(b, q)):
                return False
        return True
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    return bool(a == b)


def sx_eq(a, b):
    if isinstance(a, _CONTAINERS) and isinstance(b, _CONTAINERS) and E().symdicts and (has_symdict(a) or has_symdict(b)):
        return deep_eq(a, b)
    return a == b


def sx_ne(a, b):
    if isinstance(a, _CONTAINERS) and isinstance(b, _CONTAINERS) and E().symdicts and (has_symdict(a) or has_symdict(b)):
        return not deep_eq(a, b)
    return a != b


def sx_notin(a, c):
    return V.sym_not(sx_in(a, c))


def sx_mod(a, b):
    if isinstance(a, (str, bytes, bytearray)):
        if contains_sym(a) or contains_sym(b) or (type(b) is tuple and any(type(x) not in _plain for x in b)) or \
                (type(b) is not tuple and type(b) not in _plain):
            return V.percent_format(a, b)
        return a % b
    return a % b


def sx_fv(v, conv, spec):
    if conv == 114:
        v = V.to_repr(v)
    elif conv == 115:
        v = V.to_str(v)
    elif conv == 97:
        v = ascii(V.concretise(v))
    if type(v) in _plain and type(spec) is str:
        return format(v, spec)
    return V.fmt_value(v, spec)


def sx_join(*parts):
    out = []
    for p in parts:
        out.extend(V.items_of(p))
    return V.mkstr(out)


# ------------------------------------------------------------------------------------ calls
def m_len(x):
    if type(x) is list and E().guarded and guarded(x):
        n = 0
        for y in list.__iter__(x):
            if type(y) is GuardedElem:
                n = n + SymBool(y.cond)._int()
            else:
                n = n + 1
        return n
    if getattr(type(x), "_sx_len", None):
        return x._sx_len()
    ln = getattr(type(x), "__len__", None)
    if type(ln) is FT and not is_sym(x):
        return ln(x)     # may return a symbolic value
    return len(x)


def m_ord(c):
    if type(c) is SymStr:
        cs = c.chars()
        if len(cs) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(cs))
        return V.mkint(cs[0], "u", 0, 0x10FFFF)
    if type(c) is SymBytes:
        return c[0]
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        if E().fork(zb(mkbool(z3.Or(zb(i < 0), zb(i > 0x10FFFF))))):
            raise ValueError("chr() arg not in range(0x110000)")
        return V.mkstr((V.tobv(i, V.CW),))
    return chr(i)


def m_hex(x):
    return V.fmt_value(x, "#x") if type(x) is SymInt else hex(x)


def m_oct(x):
    return V.fmt_value(x, "#o") if type(x) is SymInt else oct(x)


def m_bin(x):
    return V.fmt_value(x, "#b") if type(x) is SymInt else bin(x)


def m_format(v, spec=""):
    if type(v) in _plain and type(spec) is str:
        return format(v, spec)
    return V.fmt_value(v, spec)


def m_repr(x):
    return V.to_repr(x)


def hash_key(x):
    """what hash(x) depends on; raises TypeError like hash() for what is not hashable"""
    t = type(x)
    if t is tuple:
        return tuple(hash_key(y) for y in x)
    if is_sym(x):
        return x
    h = getattr(t, "__hash__", None)
    if type(h) is FT:
        return h(x)
    if t is frozenset and contains_sym(tuple(x)):
        raise Unsupported("hash of a set with symbolic members")
    hash(x)
    return x


def m_hash(x):
    if type(x) in _plain:
        return hash(x)
    if isinstance(x, tuple) or is_sym(x):
        k = hash_key(tuple(x) if isinstance(x, tuple) else x)
        return SymOpaque("hash", (k,)) if contains_sym(k) or is_sym(k) else hash(k)
    h = getattr(type(x), "__hash__", None)
    if type(h) is FT:
        return h(x)
    return hash(x)


def m_print(*a, **k):
    return None


def m_isinstance(x, t):
    return isinstance(x, t)


def m_iter(x, *a):
    return iter(sx_iter(x), *a)


def m_sorted(x, key=None, reverse=False):
    x = list(sx_iter(x))
    return sorted(x, key=(None if key is None else (lambda y: sx_call(key, y))), reverse=reverse)


def m_minmax(name):
    f = getattr(builtins, name)

    def g(*a, **k):
        if "key" in k and k["key"] is not None:
            key = k["key"]
            k["key"] = lambda y: sx_call(key, y)
            return f(*a, **k)
        xs = list(sx_iter(a[0])) if len(a) == 1 else a
        if len(a) == 1:
            a = (xs,)
        if not k and xs and all(type(x) in (int, SymInt) for x in xs) and any(type(x) is SymInt for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = (x < r) if name == "min" else (x > r)
                if type(c) is SymBool:
                    r = V.mkite(c.e, x, r)
                elif c:
                    r = x
            return r
        return f(*a, **k)
    return g


def m_sum(x, start=0):
    r = start
    for y in sx_iter(x):
        r = r + y
    return r


def m_anyall(isall):
    def g(x):
        for y in sx_iter(x):
            b = bool(sx_truth(y))
            if isall and not b:
                return False
            if not isall and b:
                return True
        return isall
    return g


def pick_name(o, name):
    """which attribute of the object the symbolic name is; None: none of them"""
    if type(name) is not SymStr:
        return name
    names = dir(o)
    if isinstance(o, enum.EnumMeta):
        names = list(o.__members__) + [x for x in names if x not in o.__members__]
    conds = []
    for nm in names:
        c = V.str_eq(name, nm)
        conds.append(z3.BoolVal(c) if isinstance(c, bool) else c)
    k = E().switch(conds + [z3.Not(z3.Or(*conds))])
    return None if k == len(names) else names[k]


def m_getattr(o, name, *default):
    name = pick_name(o, name)
    if name is None:
        if default:
            return default[0]
        raise AttributeError("no such attribute")
    if is_sym(o) or type(name) is not str:
        return getattr(o, name, *default)
    v = getattr(o, name, MISSING)
    if v is MISSING:
        if default:
            return default[0]
        x = AttributeError("'%s' object has no attribute '%s'" % (type(o).__name__, name))
        x.sx_plain = True   # the program's own
        raise x
    return v


def m_hasattr(o, name):
    name = pick_name(o, name)
    return name is not None and hasattr(o, name)


def m_bisect(right):
    def g(a, x, lo=0, hi=None, *, key=None):
        a = list(sx_iter(a))
        for i in range(lo, len(a) if hi is None else hi):
            y = a[i] if key is None else sx_call(key, a[i])
            if (x < y) if right else (not y < x):
                return i
        return len(a) if hi is None else hi
    return g


FUNC = {bisect.bisect: m_bisect(True), bisect.bisect_right: m_bisect(True), bisect.bisect_left: m_bisect(False), getattr: m_getattr, hasattr: m_hasattr, len: m_len, ord: m_ord, chr: m_chr, hex: m_hex, oct: m_oct, bin: m_bin, format: m_format, repr: m_repr,
        hash: m_hash, print: m_print, sorted: m_sorted, min: m_minmax("min"), max: m_minmax("max"), sum: m_sum,
        any: m_anyall(False), all: m_anyall(True), iter: m_iter}
NATIVE_OK = {abs, divmod, round, pow, next, getattr, setattr, hasattr, delattr, callable, id, vars, issubclass,
             isinstance, operator.add, operator.sub, operator.mul, operator.and_, operator.or_, operator.xor,
             operator.floordiv, operator.mod, operator.lshift, operator.rshift, operator.eq, operator.ne,
             operator.lt, operator.le, operator.gt, operator.ge, operator.not_, operator.neg, operator.invert,
             operator.index, functools.reduce, operator.truth, object.__setattr__, object.__getattribute__}
OPER = {operator.getitem: lambda o, i: sx_getitem(o, i), operator.contains: lambda c, a: sx_in(a, c),
        operator.mod: sx_mod}


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get("base", MISSING)
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._int()
    if t is SymStr or t is SymBytes:
        return V.parse_int(x, 10 if base is MISSING else base)
    if t is SymOpaque:
        return x.__trunc__()
    for nm in ("__int__", "__index__"):
        f = getattr(t, nm, None)
        if type(f) is FT and base is MISSING:
            return f(x)
    return int(*a, **k)


def m_str(*a, **k):
    if not a and not k:
        return ""
    if len(a) == 1 and not k:
        x = a[0]
        return x if type(x) is str else V.to_str(x)
    if sym_arg(a[0]):
        return m_str_decode(*a, **k)
    return str(*a, **k)


def m_str_decode(b, encoding="utf-8", errors="strict"):
    return V.decode_bytes(V.bitems(b), encoding, errors)


def m_bool(*a):
    if not a:
        return False
    r = sx_truth(a[0])
    t = type(r)
    if t is SymInt:
        return r != 0
    if t is SymBool:
        return r
    if t is SymStr:
        return r.truth()
    return bool(r)


def m_bytes(*a, **k):
    if a:
        x = a[0]
        t = type(x)
        if t is SymBytes:
            return x
        if t is SymByteArray:
            return V.mkbytes(x.items)
        if t is SymStr:
            return x.encode(*a[1:], **k)
        if t is SymInt:
            V.repeat_size(1, x)
            if x.hi > 1 << 26 and bool(x > 1 << 26):
                raise Unsupported("a buffer of more than 64 MB")
            return bytes(x.__index__())
        if t in (list, tuple) or isinstance(x, types.GeneratorType) or t in (map, filter, range):
            x = list(x)
            if contains_sym(x):
                out = []
                for y in x:
                    if type(y) is SymInt:
                        if E().fork(zb(mkbool(z3.Or(zb(y < 0), zb(y > 255))))):
                            raise ValueError("bytes must be in range(0, 256)")
                        out.append(V.tobv(y, 8))
                    else:
                        out.extend(bytes([y]))
                return V.mkbytes(out)
            return bytes(x)
        f = getattr(t, "__bytes__", None)
        if type(f) is FT:
            return f(x)
    return bytes(*a, **k)


class SymByteArray(object):
    """bytearray in instrumented code"""
    def __init__(self, *a, **k):
        self.items = list(V.bitems(m_bytes(*a, **k))) if a else []

    @property
    def __class__(self):
        return bytearray

    def _v(self):
        return V.mkbytes(self.items)

    def append(self, x):
        self.items.extend(V.bitems(m_bytes([x])))

    def extend(self, x):
        self.items.extend(V.bitems(x if isinstance(x, (bytes, bytearray)) else m_bytes(list(x))))

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __add__(self, x):
        r = SymByteArray()
        r.items = self.items + list(V.bitems(x._v() if type(x) is SymByteArray else x))
        return r

    def __radd__(self, x):
        return V.mkbytes(tuple(V.bitems(x)) + tuple(self.items))

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __iter__(self):
        return iter(self._v())

    def __getitem__(self, i):
        r = sx_getitem(self._v(), i)
        if type(i) is slice:
            b = SymByteArray()
            b.items = list(V.bitems(r))
            return b
        return r

    def __setitem__(self, i, x):
        if type(i) is slice:
            self.items[i] = list(V.bitems(x))
        else:
            self.items[i] = V.bitems(m_bytes([x]))[0]

    def __delitem__(self, i):
        del self.items[i]

    def insert(self, i, x):
        self.items[i:i] = V.bitems(m_bytes([x]))

    def pop(self, i=-1):
        x = self[i]
        del self.items[i]
        return x

    def reverse(self):
        self.items.reverse()

    def copy(self):
        return self[:]

    def __eq__(self, o):
        return self._v() == (o._v() if type(o) is SymByteArray else o)

    def __ne__(self, o):
        return V.sym_not(self.__eq__(o))

    __hash__ = None

    def __bytes__(self):
        return bytes(V.concretise(self._v()))

    def clear(self):
        self.items = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(SymBytes(tuple(self.items)), name)


_bitems = V.bitems


def bitems(x):
    if type(x) is SymByteArray:
        return tuple(x.items)
    if type(x) is memoryview:
        return tuple(bytes(x))
    return _bitems(x)


V.bitems = bitems


def m_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if is_sym(x) or type(x) is SymByteArray or getattr(type(x), "_sx_model", False):
            return x.__class__
        return type(x)
    return type(*a, **k)


def m_map(f, *its):
    return (sx_call(f, *xs) for xs in zip(*[sx_iter(i) for i in its]))


def m_filter(f, it):
    return (x for x in sx_iter(it) if sx_truth(x if f is None else sx_call(f, x)))


class SymRange(object):
    """range(start, stop) with a symbolic end: iterating asks at each step whether it goes on"""
    CAP = 400

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step, self._r = start, stop, step, None

    def _range(self):
        if self._r is None:
            self._r = range(self.start, self.stop.__index__(), self.step)
        return self._r

    def __iter__(self):
        if self._r is not None:
            for i in self._r:
                yield i
            return
        end = self.start + self.CAP * self.step
        for i in range(self.start, end, self.step):
            if not E().fork(zb(self.stop > i)):
                return
            yield i
        if E().fork(zb(self.stop > end)):
            raise Unsupported("more than %d iterations" % self.CAP)

    def __len__(self): return len(self._range())
    def __getitem__(self, i): return self._range()[i]
    def __reversed__(self): return reversed(self._range())
    def __contains__(self, x): return x in self._range()
    def __bool__(self): return bool(E().fork(zb(self.stop > self.start)))


def m_range(*a):
    if len(a) == 1 and type(a[0]) is SymInt:
        return SymRange(0, a[0])
    if len(a) == 2 and type(a[1]) is SymInt and type(a[0]) is int:
        return SymRange(a[0], a[1])
    if len(a) == 3 and type(a[1]) is SymInt and type(a[0]) is int and type(a[2]) is int and a[2] > 0:
        return SymRange(*a)
    if any(type(x) is SymInt for x in a):
        a = [x.__index__() for x in a]
    return range(*a)


def m_memoryview(x):
    if type(x) in (SymBytes, SymByteArray):
        return x
    return memoryview(x)


def m_float(*a):
    if a and is_sym(a[0]):
        return SymOpaque("float", (a[0],)) if type(a[0]) is SymInt else float(V.concretise(a[0]))
    return float(*a)


def m_mkdict(cls):
    def g(*a, **k):
        d = cls() if cls is not collections.defaultdict else cls(*a[:1])
        rest = a if cls is not collections.defaultdict else a[1:]
        if not rest:
            return cls(*a, **k)
        src = rest[0]
        if isinstance(src, dict):
            if not (E().symdicts and is_symdict(src)):
                return cls(*a, **k)
            pairs = list(src.items())
        elif hasattr(src, "keys"):
            return cls(*a, **k)
        else:
            pairs = [tuple(p) for p in sx_iter(src)]
        for p in pairs:
            kk, v = p
            if symbolic_key(d, kk):
                dict_store(d, kk, v)
            else:
                d[kk] = v
        d.update(k)
        return d
    return g


TYPES = {int: m_int, str: m_str, bool: m_bool, bytes: m_bytes, bytearray: SymByteArray, type: m_type, map: m_map,
         filter: m_filter, range: m_range, set: m_mkset(set), frozenset: m_mkset(frozenset), memoryview: m_memoryview, float: m_float, dict: m_mkdict(dict),
         collections.OrderedDict: m_mkdict(collections.OrderedDict),
         collections.defaultdict: m_mkdict(collections.defaultdict)}
PASS_TYPES = {list, tuple, enumerate, zip, reversed, slice, object, property, staticmethod,
              classmethod, super, collections.deque, collections.Counter}


def m_enum(cls, x):
    if isinstance(x, cls):
        return cls(x)
    members = list(cls)
    conds, ms = [], []
    for m in members:
        c = key_eq(m._value_, x)
        if type(c) is SymBool:
            conds.append(z3.simplify(c.e))
            ms.append(m)
        elif c:
            return m
    if issubclass(cls, enum.Flag) and type(x) is SymInt:
        return x
    if conds:
        k = E().switch(conds + [z3.Not(z3.Or(*conds))])
        if k < len(ms):
            return ms[k]
    miss = cls._missing_
    if getattr(miss, "__func__", None) is not enum.Enum._missing_.__func__:
        r = miss(x)
        if r is not None:
            return r
    raise ValueError("%s is not a valid %s" % ("<symbolic>", cls.__qualname__))


def call_type(f, a, k):
    if f is list and len(a) == 1 and type(a[0]) is GenList:
        return a[0].take()
    m = TYPES.get(f)
    if m is not None:
        if E().guarded and a and type(a[0]) is list and f is not bool:
            for x in a:
                sx_iter(x)
        return m(*a, **k)
    if f in PASS_TYPES:
        if E().guarded:
            for x in a:
                sx_iter(x)
        return f(*a, **k)
    if isinstance(f, enum.EnumMeta):
        if len(a) == 1 and not k and is_sym(a[0]):
            return m_enum(f, a[0])
        return f(*a, **k)
    if f.__flags__ & 512:  # a class defined in Python (heap type)
        if issubclass(f, (int, str, bytes, float)) and any_sym(a, k):
            if f.__new__ in (int.__new__, str.__new__, bytes.__new__) and f.__init__ is object.__init__:
                return call_type(next(b for b in f.__mro__ if b in (int, str, bytes, float)), a, k)
        return f(*a, **k)
    if issubclass(f, BaseException) or not any_sym(a, k):
        return f(*a, **k)
    return f(*[V.concretise(x, "concretised for %s" % f.__name__) for x in a],
             **{n: V.concretise(x) for n, x in k.items()})


_dict_models = {}


def _dm(name):
    def deco(f):
        _dict_models[name] = f
        return f
    return deco


@_dm("get")
def _d_get(d, k, default=None):
    q = dict_find(d, k)
    return default if q is MISSING else dict.__getitem__(d, q)


@_dm("__getitem__")
def _d_getitem(d, k):
    return sx_getitem(d, k)


@_dm("__setitem__")
def _d_setitem(d, k, v):
    Tgt(d)[k] = v


@_dm("__contains__")
def _d_contains(d, k):
    return sx_in(k, d)


@_dm("has_key")
def _d_has_key(d, k):
    return sx_in(k, d)


@_dm("setdefault")
def _d_setdefault(d, k, default=None):
    q = dict_find(d, k)
    if q is MISSING:
        dict_store(d, k, default)
        return default
    return d[q]


@_dm("pop")
def _d_pop(d, k, *default):
    q = dict_find(d, k)
    if q is MISSING:
        if default:
            return default[0]
        raise KeyError(k)
    v = d[q]
    del d[q]
    return v


def raw_item(f, s, i):
    """the built-in subscript f of s, whatever a subclass makes of s[i]"""
    if isinstance(s, dict):
        if not symbolic_key(s, i):
            return f(i)
        q = dict_find(s, i)
        if q is not MISSING:
            return f(q)
        miss = getattr(type(s), "__missing__", None)
        if miss is not None:
            return sx_getitem(s, i) if isinstance(s, collections.defaultdict) else miss(s, i)
        raise KeyError(i)
    if type(i) in (SymInt, SymBool):
        return f(seq_index(s, i))
    return f(norm_slice(s, i) if type(i) is slice else i)


def call_method(f, s, name, a, k):
    t = type(s)
    if name == "__getitem__" and len(a) == 1 and not k and isinstance(s, (dict, list, tuple, str, bytes)) and not is_sym(s):
        return raw_item(f, s, a[0])
    if isinstance(s, str) and not is_sym(s):
        if name == "join":
            parts = a[0] if type(a[0]) is list else a[0].take() if type(a[0]) is GenList else list(a[0])
            if contains_sym(parts) or any(type(p) is GuardedElem for p in parts):
                return V.str_join(s, parts)
            return f(parts)
        if name == "format":
            if any(type(x) not in _plain for x in a) or any(type(x) not in _plain for x in k.values()):
                return V.str_format(s, a, k)
            return f(*a, **k)
        if name == "format_map":
            return V.str_format(s, (), a[0])
        if any_sym(a, k):
            return getattr(SymStr(V.items_of(s)), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, (bytes, bytearray)) and not is_sym(s) and t is not SymByteArray:
        if name == "join":
            parts = list(a[0])
            if contains_sym(parts) or any(type(p) is SymByteArray for p in parts):
                out = []
                for i, p in enumerate(parts):
                    if i:
                        out.extend(s)
                    out.extend(V.bitems(p))
                return V.mkbytes(out)
            return f(parts)
        if any_sym(a, k):
            return getattr(SymBytes(tuple(s)), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, dict):
        if name in ("get", "setdefault", "pop", "__getitem__", "__setitem__", "__contains__", "has_key"):
            if a and symbolic_key(s, a[0]):
                return _dict_models[name](s, *a, **k)
            return f(*a, **k)
        if name == "update" and a:
            src = a[0]
            pairs = list(src.items()) if isinstance(src, dict) else \
                (None if hasattr(src, "keys") else [tuple(p) for p in sx_iter(src)])
            if pairs is None:
                return f(*a, **k)
            if any(contains_sym(p[0]) for p in pairs) or is_symdict(s):
                for kk, v in pairs:
                    Tgt(s)[kk] = v
                for kk, v in k.items():
                    Tgt(s)[kk] = v
                return None
            return f(pairs, **k)
        if name == "copy" and is_symdict(s):
            r = f(*a, **k)
            mark_symdict(r)
            return r
        return f(*a, **k)
    if isinstance(s, list):
        if E().guarded:
            if guarded(s):
                if name == "append" and t is list:
                    return f(*a, **k)
                if name == "extend" and t is list and type(a[0]) is list:
                    return f(*a, **k)
                resolve(s)
            if name == "extend" and a and guarded(a[0]):
                f(*a)
                E().guarded[id(s)] = s
                return None
            for x in a:
                if name not in ("append", "insert"):
                    sx_iter(x)
        if name == "sort" and k.get("key") is not None:
            key = k["key"]
            k = dict(k, key=lambda y: sx_call(key, y))
        return f(*a, **k)
    if t is types.MappingProxyType:
        return call_method(getattr(dict(s), name), dict(s), name, a, k)
    if isinstance(s, type):
        # alternative constructors: int.from_bytes, bytes.fromhex, dict.fromkeys, str.maketrans
        if name == "fromkeys" and issubclass(s, dict) and a:
            d = s()
            for x in sx_iter(a[0]):
                Tgt(d)[x] = a[1] if len(a) > 1 else None
            return d
        if s is itertools.chain and name == "from_iterable":
            return (y for x in sx_iter(a[0]) for y in sx_iter(x))
        if name == "from_bytes" and issubclass(s, int):
            return m_from_bytes(*a, **k)
        if not any_sym(a, k):
            return f(*a, **k)
        if name == "__new__" and s in (object, tuple, list, dict, set, frozenset) and not k:
            if s is tuple and len(a) == 2 and is_sym(a[1]):
                return f(a[0], list(sx_iter(a[1])))
            return f(*a, **k)
        return f(*[V.concretise(x, "concretised for %s.%s" % (s.__name__, name)) for x in a],
                 **{n: V.concretise(x) for n, x in k.items()})
    if isinstance(s, (set, frozenset)) and name in ("isdisjoint", "issubset", "issuperset", "symmetric_difference", "add", "update", "remove", "discard", "union", "intersection", "difference") and \
            contains_sym([list(x) if isinstance(x, (set, frozenset)) else x for x in a]):
        if name in ("add", "update"):
            raise Unsupported("symbolic value added to a set")
        return getattr(SymSet(s), name)(*a)
    if isinstance(s, (set, frozenset, collections.deque, tuple)):
        return f(*a, **k)
    if isinstance(s, types.GeneratorType) or name in ("__init__", "__new__", "__init_subclass__", "__setattr__",
                                                      "__getattribute__", "__eq__", "__ne__", "__exit__"):
        return f(*a, **k)
    if not any_sym(a, k):
        return f(*a, **k)
    return f(*[V.concretise(x, "concretised for %s.%s" % (t.__name__, name)) for x in a],
             **{n: V.concretise(x) for n, x in k.items()})


class IsTruth(object):
    """compares equal to what 'is True' ('is False') holds for"""
    def __init__(self, value):
        self.value = value

    def __eq__(self, o):
        if type(o) is SymBool:
            return o if self.value else o.__eq__(False)
        return o is self.value
    __hash__ = None


IsTruth.True_, IsTruth.False_ = IsTruth(True), IsTruth(False)


def m_from_bytes(b, byteorder="big", signed=False):
    if type(b) in (SymBytes, SymByteArray):
        its = V.bitems(b)
        if not its:
            return 0
        return V.bytes_to_int(list(its), byteorder, signed)
    if type(b) in (list, tuple) and contains_sym(b):
        return m_from_bytes(m_bytes(b), byteorder, signed)
    return int.from_bytes(b, byteorder, signed=signed)


_mdesc = types.MethodDescriptorType
_mwrap = types.MethodWrapperType
_wdesc = types.WrapperDescriptorType


def sx_call(f, /, *a, **k):
    t = type(f)
    if t is MT and type(f.__self__) is collections.ChainMap and any_sym(a, k) and f.__name__ in ("get", "__contains__", "__getitem__"):
        d = dict(f.__self__)
        return call_method(getattr(d, f.__name__), d, f.__name__, a, k)
    if t is FT or t is MT:
        return f(*a, **k)
    if t is BFT:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            m = FUNC.get(f)
            if m is not None:
                if E().guarded and f is not len and f is not any and f is not all:
                    for x in a:
                        sx_iter(x)
                return m(*a, **k)
            m = OPER.get(f)
            if m is not None:
                return m(*a, **k)
            if f in NATIVE_OK or not any_sym(a, k):
                return f(*a, **k)
            return f(*[V.concretise(x, "concretised for %s()" % f.__name__) for x in a],
                     **{n: V.concretise(x) for n, x in k.items()})
        return call_method(f, s, f.__name__, a, k)
    if isinstance(f, type):
        return call_type(f, a, k)
    if (t is _mdesc or t is _wdesc) and a:
        if is_sym(a[0]) or type(a[0]) is SymByteArray:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if t is _mdesc and isinstance(a[0], f.__objclass__):
            return call_method(f.__get__(a[0]), a[0], f.__name__, a[1:], k)
        if f.__name__ == "__contains__" and issubclass(f.__objclass__, (dict, list, tuple, str, bytes)) and len(a) == 2:
            return call_method(f.__get__(a[0]), a[0], f.__name__, a[1:], k)
        if f.__name__ == "__getitem__" and issubclass(f.__objclass__, (tuple, str, bytes)) and len(a) == 2:
            return raw_item(f.__get__(a[0]), a[0], a[1])
    if t is functools.partial:
        kw = dict(f.keywords)
        kw.update(k)
        return sx_call(f.func, *(tuple(f.args) + a), **kw)
    if t is operator.itemgetter and len(a) == 1:
        idx = f.__reduce__()[1]
        r = tuple(sx_getitem(a[0], i) for i in idx)
        return r[0] if len(r) == 1 else r
    if t is operator.methodcaller and len(a) == 1:
        return f(a[0])
    if t is _mwrap and isinstance(getattr(f, "__self__", None), (str, bytes, dict, tuple, list)):
        if f.__name__ in ("__getitem__",):
            return raw_item(f, f.__self__, *a)
        if f.__name__ in ("__contains__",):
            return sx_in(a[0], f.__self__)
    return f(*a, **k)


HOOKS = {"__sx_call__": sx_call, "__sx_getitem__": sx_getitem, "__sx_tgt__": Tgt, "__sx_eq__": sx_eq, "__sx_ne__": sx_ne, "__sx_in__": sx_in,
         "__sx_notin__": sx_notin, "__sx_is__": IsTruth, "__sx_mod__": sx_mod, "__sx_fv__": sx_fv, "__sx_join__": sx_join,
         "__sx_truth__": sx_truth, "__sx_wtruth__": sx_wtruth, "__sx_truthv__": sx_truthv, "__sx_not__": sx_not, "__sx_cond__": sx_cond,
         "__sx_gappend__": sx_gappend, "__sx_gen__": GenList, "__sx_finite__": finite, "__sx_iters__": iters, "__sx_merge__": sx_merge, "__sx_ite__": sx_ite, "__sx_ge__": sx_ge, "__sx_glist__": sx_glist,
         "__sx_iter__": sx_iter, "__sx_dict__": sx_dict, "__sx_set__": sx_set, "__sx_UNB__": UNB, "__sx_slice__": slice}
