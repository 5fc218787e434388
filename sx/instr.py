"""Instrumentation of Python source: every operation that could meet a symbolic value goes through a hook.

The encoding is regenerated from the current source each time a module is imported.
"""
import ast
import builtins
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from . import core, hooks, shims

NAME_SKIP = {"super", "locals", "globals", "eval", "exec", "__import__"}
SAFE_CALLS = {"str", "hex", "int", "repr", "bool", "len", "ord", "chr"}
SAFE_METHODS = {"format", "lower", "upper", "strip", "capitalize"}


def hname(n):
    return ast.Name(id=n, ctx=ast.Load())


def hcall(n, *args):
    return ast.Call(func=hname(n), args=list(args), keywords=[])


def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def safe(e):
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return safe(e.value)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)) and \
            safe(e.left) and safe(e.right)
    if isinstance(e, ast.UnaryOp):
        return safe(e.operand)
    if isinstance(e, ast.Subscript):
        return safe(e.value) and not isinstance(e.slice, ast.Slice) and safe(e.slice)
    if isinstance(e, ast.JoinedStr):
        return all(safe(v.value) and v.format_spec is None for v in e.values if isinstance(v, ast.FormattedValue))
    if isinstance(e, ast.Tuple):
        return all(safe(x) for x in e.elts)
    if isinstance(e, ast.Call) and not e.keywords and all(safe(a) for a in e.args):
        if isinstance(e.func, ast.Name):
            return e.func.id in SAFE_CALLS
        if isinstance(e.func, ast.Attribute):
            return e.func.attr in SAFE_METHODS and safe(e.func.value)
    return False


def as_append(s):
    """'x += [e]' as 'x.append(e)'"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and \
            isinstance(s.value, ast.List) and len(s.value.elts) == 1 and safe(s.value.elts[0]):
        return ast.copy_location(ast.Expr(ast.Call(func=ast.Attribute(value=hname(s.target.id), attr="append",
                                                                      ctx=ast.Load()),
                                                   args=[s.value.elts[0]], keywords=[])), s)
    return s


def mergeable_stmt(s):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        c = s.value
        return isinstance(c.func, ast.Attribute) and c.func.attr == "append" and safe(c.func.value) and \
            len(c.args) == 1 and not c.keywords and safe(c.args[0])
    if isinstance(s, ast.AugAssign):
        return isinstance(s.target, ast.Name) and safe(s.value) and \
            isinstance(s.op, (ast.Add, ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor))
    if isinstance(s, ast.Assign):
        return len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and safe(s.value) and \
            isinstance(s.value, (ast.BinOp, ast.UnaryOp))
    return False


def interesting(body):
    """worth merging: an accumulation"""
    return any(isinstance(s, (ast.Expr, ast.AugAssign)) for s in body) or \
        any(isinstance(s, ast.Assign) and any(isinstance(n, ast.Name) and n.id == s.targets[0].id
                                              for n in ast.walk(s.value)) for s in body)


def own_nodes(body):
    """the nodes of a function's own body, without those of functions inside it"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def pure_iter(e):
    if safe(e):
        return True
    if isinstance(e, ast.Call) and not e.keywords:
        if isinstance(e.func, ast.Name):
            return e.func.id in ("zip", "enumerate", "range", "reversed", "sorted") and all(pure_iter(a) for a in e.args)
        return isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "keys", "values") and not e.args and \
            safe(e.func.value)
    return False


def pure_test(e):
    if isinstance(e, ast.Compare):
        return pure_test(e.left) and all(pure_test(c) for c in e.comparators)
    if isinstance(e, ast.BoolOp):
        return all(pure_test(v) for v in e.values)
    if isinstance(e, ast.UnaryOp):
        return pure_test(e.operand)
    return safe(e)


def pure_body(body):
    for s in body:
        if isinstance(s, ast.Expr):
            v = s.value
            if not (isinstance(v, ast.Constant) or isinstance(v, ast.Yield) and v.value is not None and safe(v.value)):
                return False
        elif isinstance(s, (ast.Assign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if not all(isinstance(t, ast.Name) for t in ts) or not pure_test(s.value):
                return False
        elif isinstance(s, ast.For):
            if s.orelse or not pure_iter(s.iter) or not pure_body(s.body):
                return False
        elif isinstance(s, ast.If):
            if not pure_test(s.test) or not pure_body(s.body) or not pure_body(s.orelse):
                return False
        elif isinstance(s, ast.Return):
            if s.value is not None:
                return False
        elif not isinstance(s, (ast.Pass, ast.Continue, ast.Break)):
            return False
    return True


class Collect(ast.NodeTransformer):
    """a generator function as one that collects what it yields"""
    def visit_Expr(self, node):
        if isinstance(node.value, ast.Yield):
            return ast.copy_location(ast.Expr(ast.Call(
                func=ast.Attribute(value=hname("__sx_y"), attr="append", ctx=ast.Load()), args=[node.value.value],
                keywords=[])), node)
        return node

    def visit_Return(self, node):
        return ast.copy_location(ast.Return(value=hcall("__sx_gen__", hname("__sx_y"))), node)

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = hcall("__sx_finite__", node.iter)
        return node


def pure_generator(node):
    """a generator function whose results do not depend on when they are taken and that may yield under a condition"""
    if not isinstance(node, ast.FunctionDef) or node.decorator_list and \
            not all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in node.decorator_list):
        return False
    own = list(own_nodes(node.body))
    return any(isinstance(n, ast.If) and any(isinstance(m, ast.Yield) for m in ast.walk(n)) for n in own) and \
        any(isinstance(n, ast.For) for n in own) and pure_body(node.body)


class Tr(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.modname, self.record = modname, record
        self.fdepth = 0
        self.scope = []
        self.n = 0

    # -------------------------------------------------------------- scopes
    def _func(self, node):
        if node.name != "__sx_lazy" and pure_generator(node):
            y = ast.Assign(targets=[ast.Name(id="__sx_y", ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))
            ps = node.args
            plain = [a.arg for a in ps.posonlyargs + ps.args]
            lazy = ast.FunctionDef(name="__sx_lazy", args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=n) for n in plain + [a.arg for a in ps.kwonlyargs]], kwonlyargs=[],
                kw_defaults=[], defaults=[]), body=copy.deepcopy(node.body), decorator_list=[])
            names = [hname(a.arg) for a in lazy.args.args]
            first = [] if ps.vararg or ps.kwarg else [
                ast.If(test=hcall("__sx_iters__", *names), body=[lazy, ast.Return(value=ast.Call(
                    func=hname("__sx_lazy"), args=names, keywords=[]))], orelse=[])]
            node.body = first + [y] + [Collect().visit(b) for b in node.body] + \
                [ast.Return(value=hcall("__sx_gen__", hname("__sx_y")))]
            ast.fix_missing_locations(node)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self._args(node.args)
        self.scope.append(node.name)
        self.fdepth += 1
        node.body = self._stmts(node.body)
        self.fdepth -= 1
        if self.record:
            q = ".".join(self.scope)
            rec = ast.Expr(hcall("__sx_fn__", ast.Constant("%s:%s" % (self.modname, q))))
            at = 1 if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str) else 0
            node.body.insert(at, rec)
        self.scope.pop()
        return node
    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]

    def visit_Lambda(self, node):
        self._args(node.args)
        self.fdepth += 1
        node.body = self.visit(node.body)
        self.fdepth -= 1
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.scope.append(node.name)
        d, self.fdepth = self.fdepth, 0
        node.body = self._stmts(node.body)
        self.fdepth = d
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def generic_visit(self, node):
        for f, old in ast.iter_fields(node):
            if isinstance(old, list) and old and isinstance(old[0], ast.stmt):
                setattr(node, f, self._stmts(old))
            elif isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new.extend(v)
                            continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, f, self.visit(old))
        return node

    # -------------------------------------------------------------- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NAME_SKIP and not (f.id == "super" and node.args):
            return self.generic_visit(node)
        if isinstance(f, ast.Attribute) and f.attr in ("join",) and len(node.args) == 1 and \
                isinstance(node.args[0], ast.GeneratorExp) or \
                (isinstance(f, ast.Name) and f.id in ("list", "tuple") and len(node.args) == 1 and
                 isinstance(node.args[0], ast.GeneratorExp)):
            g = node.args[0]
            if self._guardable(g):
                node.args = [ast.ListComp(elt=g.elt, generators=g.generators)]
        self.generic_visit(node)
        return ast.Call(func=hname("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return hcall("__sx_slice__", *[x if x is not None else none for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            s.elts = [self._slice(e) for e in s.elts]
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return hcall("__sx_getitem__", node.value, self._slice(node.slice))
        return ast.Subscript(value=hcall("__sx_tgt__", node.value), slice=node.slice, ctx=node.ctx)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return hcall("__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__",
                         node.left, node.comparators[0])
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)) and \
                not isinstance(node.left, ast.Constant) and not isinstance(node.comparators[0], ast.Constant):
            return hcall("__sx_eq__" if isinstance(node.ops[0], ast.Eq) else "__sx_ne__", node.left, node.comparators[0])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return hcall("__sx_mod__", node.left, node.right)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return hcall("__sx_not__", node.operand)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        node.values = [hcall("__sx_truthv__", v) for v in node.values[:-1]] + node.values[-1:]
        return node

    def visit_IfExp(self, node):
        pure = self.fdepth > 0 and safe(node.body) and safe(node.orelse)
        self.generic_visit(node)
        if pure:
            return hcall("__sx_ite__", hcall("__sx_cond__", node.test), lam(node.body), lam(node.orelse))
        node.test = hcall("__sx_truth__", node.test)
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        node.test = hcall("__sx_truth__", node.test)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(hcall("__sx_fv__", self.visit(v.value), ast.Constant(v.conversion), spec))
            else:
                parts.append(v)
        return hcall("__sx_join__", *parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        if self.fdepth == 0:
            return node
        return hcall("__sx_dict__", ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                                   for k, v in zip(node.keys, node.values)], ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return hcall("__sx_dict__", ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                                 generators=node.generators))

    def _gens(self, node):
        for g in node.generators:
            g.iter = hcall("__sx_iter__", g.iter)
            g.ifs = [hcall("__sx_truth__", i) for i in g.ifs]

    def _guardable(self, node):
        return self.fdepth > 0 and len(node.generators) == 1 and len(node.generators[0].ifs) == 1 and \
            not node.generators[0].is_async and safe(node.elt)

    def visit_ListComp(self, node):
        if self._guardable(node):
            self.generic_visit(node)
            g = node.generators[0]
            cond = g.ifs[0]
            g.ifs = []
            g.iter = hcall("__sx_iter__", g.iter)
            node.elt = hcall("__sx_ge__", cond, lam(node.elt))
            return hcall("__sx_glist__", node)
        self.generic_visit(node)
        self._gens(node)
        return node

    def _comp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return node
    visit_GeneratorExp = _comp

    def visit_SetComp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return hcall("__sx_set__", ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        if self.fdepth == 0 or any(isinstance(x, ast.Starred) for x in node.elts) or \
                all(isinstance(x, ast.Constant) for x in node.elts):
            return node
        return hcall("__sx_set__", ast.List(elts=node.elts, ctx=ast.Load()))

    # -------------------------------------------------------------- statements
    def visit_For(self, node):
        node.body = self._uncontinue(node.body)
        self.generic_visit(node)
        node.iter = hcall("__sx_iter__", node.iter)
        return node

    def visit_While(self, node):
        node.body = self._uncontinue(node.body)
        self.generic_visit(node)
        node.test = hcall("__sx_wtruth__", node.test)
        return node

    def _uncontinue(self, body):
        """'if c: continue' followed by accumulations only  ->  'if not c: accumulations'"""
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
                rest = [as_append(r) for r in body[i + 1:]]
                if rest and all(mergeable_stmt(r) for r in rest) and interesting(rest):
                    return body[:i] + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=rest, orelse=[])]
        return body

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign(targets=[node.target], value=hcall(
                "__sx_mod__", ast.Name(id=node.target.id, ctx=ast.Load()), node.value))
        return node

    def visit_If(self, node):
        if any(isinstance(s, ast.AugAssign) for s in node.body):
            body = [as_append(s) for s in node.body]
            if all(mergeable_stmt(s) for s in body):
                node.body = body
        if self.fdepth > 0 and not node.orelse and all(mergeable_stmt(s) for s in node.body) and \
                interesting(node.body):
            return self._merged_if(node)
        self.generic_visit(node)
        node.test = hcall("__sx_truth__", node.test)
        return node

    def _plain_case(self, pat, name):
        """the test (None: always) and the bound names of a case, None if it is not a plain one"""
        if isinstance(pat, ast.MatchValue):
            return ast.Compare(left=hname(name), ops=[ast.Eq()], comparators=[pat.value]), []
        if isinstance(pat, ast.MatchSingleton) and pat.value is None:
            return ast.Compare(left=hname(name), ops=[ast.Is()], comparators=[ast.Constant(None)]), []
        if isinstance(pat, ast.MatchOr):
            alts = [self._plain_case(p, name) for p in pat.patterns]
            if any(a is None or a[0] is None or a[1] for a in alts):
                return None
            return ast.BoolOp(op=ast.Or(), values=[a[0] for a in alts]), []
        if isinstance(pat, ast.MatchAs) and pat.pattern is None:
            return None, ([pat.name] if pat.name else [])
        if isinstance(pat, ast.MatchAs):
            a = self._plain_case(pat.pattern, name)
            return a and (a[0], a[1] + [pat.name])
        return None

    def visit_Match(self, node):
        self.n += 1
        name = "__sx_s%d" % self.n
        cases = [self._plain_case(c.pattern, name) for c in node.cases]
        if self.fdepth > 0 and all(p is not None and not (c.guard and p[1]) for p, c in zip(cases, node.cases)):
            rest = []
            for (test, names), c in reversed(list(zip(cases, node.cases))):
                bind = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=hname(name)) for n in names]
                tests = [t for t in (test, c.guard) if t is not None]
                if not tests:
                    rest = bind + c.body
                else:
                    t = tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests)
                    rest = [ast.If(test=t, body=bind + c.body, orelse=rest)]
            head = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=node.subject)
            out = []
            for s in [head] + rest:
                s = self.visit(ast.fix_missing_locations(ast.copy_location(s, node)))
                out += s if isinstance(s, list) else [s]
            return out
        # other patterns are left to the interpreter, except that a symbolic truth value is no constant
        for p in ast.walk(node):
            for f, v in ast.iter_fields(p):
                if isinstance(v, ast.MatchSingleton) and v.value is not None:
                    setattr(p, f, self._truth_pattern(v))
                elif isinstance(v, list):
                    v[:] = [self._truth_pattern(x) if isinstance(x, ast.MatchSingleton) and x.value is not None else x
                            for x in v]
        self.generic_visit(node)
        for c in node.cases:
            if c.guard is not None:
                c.guard = hcall("__sx_truth__", c.guard)
        return node

    def _truth_pattern(self, p):
        return ast.MatchValue(value=ast.Attribute(value=hname("__sx_is__"), attr=str(p.value) + "_", ctx=ast.Load()))

    def visit_MatchValue(self, node):
        return node

    def _merged_if(self, node):
        self.n += 1
        v = "__sx_m%d" % self.n
        plain = self._stmts(copy.deepcopy(node.body))
        merged = []
        for s in node.body:
            if isinstance(s, ast.Expr):
                c = s.value
                merged.append(ast.Expr(hcall("__sx_gappend__", self.visit(c.func.value), hname(v),
                                             lam(self.visit(c.args[0])))))
            else:
                if isinstance(s, ast.AugAssign):
                    name = s.target.id
                    val = ast.BinOp(left=ast.Name(id=name, ctx=ast.Load()), op=s.op, right=s.value)
                else:
                    name = s.targets[0].id
                    val = s.value
                o = "__sx_o%d" % self.n
                merged.append(ast.Try(
                    body=[ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=ast.Name(id=name, ctx=ast.Load()))],
                    handlers=[ast.ExceptHandler(type=hname("NameError"), name=None, body=[
                        ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=hname("__sx_UNB__"))])],
                    orelse=[], finalbody=[]))
                merged.append(ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=hcall(
                    "__sx_merge__", hname(v), hname(o), lam(self.visit(val)))))
        test = self.visit(node.test)
        return [ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=hcall("__sx_cond__", test)),
                ast.If(test=ast.Compare(left=hname(v), ops=[ast.Is()], comparators=[ast.Constant(True)]),
                       body=plain,
                       orelse=[ast.If(test=ast.Compare(left=hname(v), ops=[ast.IsNot()],
                                                       comparators=[ast.Constant(False)]), body=merged, orelse=[])])]


# ------------------------------------------------------------------------------------ import machinery
def record_function(name):
    e = core.E
    if e is not None:
        e.functions.add(name)


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in shims.MODULES:
        return shims.MODULES[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    b = dict(builtins.__dict__)
    b.update(hooks.HOOKS)
    b["__import__"] = sx_import
    b["__sx_fn__"] = record_function
    return b


PREFIXES = ["procmon_parser", "construct", "spec", "harness"]
BUILTINS = make_builtins()


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Tr(module.__name__, self.name.split(".")[0] == "procmon_parser").visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] not in PREFIXES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        is_pkg = spec.submodule_search_locations is not None
        new = importlib.util.spec_from_file_location(name, spec.origin, loader=Loader(name, spec.origin, is_pkg),
                                                     submodule_search_locations=spec.submodule_search_locations)
        return new


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
