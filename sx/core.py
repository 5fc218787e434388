"""Path-exploring symbolic execution engine (deciding procedure: z3).

The engine runs a harness repeatedly.  Every time execution needs the truth value of a symbolic
condition it calls Engine.switch, which asks z3 which outcomes are feasible under the current path
condition, follows one of them and remembers the rest.  When no alternative is left, the explored
paths partition the whole (bounded) input space of the harness.
"""
import os
import time
import z3


class PathKilled(BaseException):
    """The current path is infeasible / was assumed away."""


class Unsupported(BaseException):
    """The engine has no model for an operation on a symbolic value."""


class BudgetExceeded(BaseException):
    pass


class Violation(BaseException):
    """a confirmed violation: stop exploring"""
    def __init__(self, label):
        BaseException.__init__(self, label)
        self.label = label


class PathEnded(BaseException):
    """nothing further to check on this path"""


class Hang(BaseException):
    """too many loop iterations on one path"""


E = None  # the active engine


def set_engine(e):
    global E
    E = e


def engine():
    return E


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.killed = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.obligations = 0
        self.trivial = 0
        self.incomplete = []
        self.concretised = 0


class Engine(object):
    def __init__(self, query_timeout_ms=20000, deadline=None, max_paths=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.deadline = deadline
        self.max_paths = max_paths
        self.decisions = []  # [alternatives, index, pushed]
        self.pos = 0
        self.st = Stats()
        self.inputs = {}      # name -> (kind, sym, meta) in creation order
        self.model = None     # cached model of the current path condition
        self.violations = []
        self.inconclusive = []
        self.fresh_n = 0
        self.functions = set()
        self.covers = set()
        self.reached_checks = 0
        self.guarded = {}
        self.symdicts = {}
        self.reprs = {}
        self.hexmap = {}
        self.steps = 0
        self.max_steps = 20000
        self.on_violation = None
        self.on_limit = lambda e: None
        self.soft_exception = lambda e: False

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded("time budget")
        t = time.time()
        r = self.solver.check(*extra)
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if r == z3.unknown:
            self.st.unknown += 1
        return r

    def _current_model(self):
        if self.model is None:
            if self._check() == z3.sat:
                self.model = self.solver.model()
        return self.model

    @staticmethod
    def _mval(model, cond):
        v = model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def in_replay(self):
        return self.pos < len(self.decisions)

    # ---------------------------------------------------------------- forking
    def switch(self, conds):
        """conds: z3 Bools, mutually exclusive and jointly exhaustive.  Returns the index taken."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d[1]
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded("time budget")
        self.st.decisions += 1
        n = len(conds)
        # find the first feasible alternative, preferring what the cached model says is free
        first = None
        m = self._current_model()
        if m is not None:
            for i, c in enumerate(conds):
                if self._mval(m, c):
                    first = i
                    break
        order = list(range(n))
        if first is not None:
            order.remove(first)
            order.insert(0, first)
            known = True
        else:
            known = False
        d = [[(i, conds[i]) for i in order], None, False]
        self.decisions.append(d)
        self.pos += 1
        if not self._advance(d, known):
            self.decisions.pop()
            self.pos -= 1
            raise PathKilled()
        return d[1]

    def _advance(self, d, known=False):
        """Move decision d to its next feasible alternative (solver level must be that of d)."""
        if d[2]:
            self.solver.pop()
            d[2] = False
        while d[0]:
            i, c = d[0].pop(0)
            if known:
                keep = self.model
                known = False
                self.solver.push()
                d[2] = True
                self.solver.add(c)
                self.model = keep
                d[1] = i
                return True
            # all remaining alternatives: is this one feasible?
            self.solver.push()
            self.solver.add(c)
            r = self._check()
            if r == z3.unsat:
                self.solver.pop()
                continue
            d[2] = True
            d[1] = i
            self.model = self.solver.model() if r == z3.sat else None
            return True
        return False

    def fork(self, cond):
        """cond: z3 Bool.  Returns a concrete bool."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos >= len(self.decisions):
            c = z3.simplify(cond)
            if z3.is_true(c) or z3.is_false(c):
                # keep the decision log aligned with replays (which do not simplify)
                self.decisions.append([[], 0 if z3.is_true(c) else 1, False])
                self.pos += 1
                return z3.is_true(c)
        return self.switch([cond, z3.Not(cond)]) == 0

    def choose(self, n, label=None):
        """Harness-level choice between n alternatives (explores all of them)."""
        if n == 1:
            return 0
        return self.switch([z3.BoolVal(True)] * n)

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathKilled()
            return
        if self.in_replay():
            return
        if z3.is_true(cond):
            return
        m = self.model
        self.solver.add(cond)
        if m is not None and self._mval(m, cond):
            return
        self.model = None
        r = self._check()
        if r == z3.unsat:
            raise PathKilled()
        if r == z3.sat:
            self.model = self.solver.model()

    def define(self, cond):
        """Add a definitional constraint on fresh variables (never infeasible)."""
        if not self.in_replay():
            self.solver.add(cond)
            self.model = None

    def _logged(self, f):
        """Log the answer of a solver question, so that a replay of the prefix takes the same turn."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d[1]
        r = f()
        self.decisions.append([[], r, False])
        self.pos += 1
        return r

    def is_valid(self, cond):
        """True iff cond holds on the whole current path (False = refuted or unknown)."""
        if isinstance(cond, bool):
            return cond
        return self._logged(lambda: self._is_valid(cond))

    def _is_valid(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        m = self.model
        if m is not None and self._mval(m, c) is False:
            return False
        return self._check(z3.Not(c)) == z3.unsat

    def may(self, cond):
        if isinstance(cond, bool):
            return cond
        return not self.is_valid(z3.Not(cond))

    # ---------------------------------------------------------------- obligations
    def prove(self, cond, label, info=None):
        """The obligation: cond must hold for every value on this path."""
        self.reached_checks += 1
        if self.in_replay():
            return True  # discharged when this prefix was first explored
        self.st.obligations += 1
        if isinstance(cond, bool):
            if cond:
                self.st.trivial += 1
                return True
            r = self._check()
            if r == z3.sat:
                self._violated(label, self.solver.model(), info)
                raise PathEnded()
            self.inconclusive.append("path feasibility unknown at failed %s" % label)
            raise PathEnded()
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.st.trivial += 1
            return True
        self.solver.push()
        try:
            self.solver.add(z3.Not(c))
            r = self._check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        if r == z3.unsat:
            return True
        if m is not None:
            self._violated(label, m, info)
            self.assume(c)  # known or unconfirmed: go on with the values that satisfy it
            return False
        self.inconclusive.append("solver unknown: %s" % label)
        return False

    def _violated(self, label, model, info):
        self.on_violation(label, self.model_inputs(model), info)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Hang()
        if self.deadline is not None and self.steps % 256 == 0 and time.time() > self.deadline:
            raise BudgetExceeded("time budget")

    # ---------------------------------------------------------------- exploration
    def fresh(self, prefix):
        self.fresh_n += 1
        return "%s!%d" % (prefix, self.fresh_n)

    def note_incomplete(self, why):
        if why not in self.st.incomplete:
            self.st.incomplete.append(why)

    def explore(self, fn, on_path=None):
        """Run fn() over all its paths.  Returns True if the exploration was exhaustive.

        A confirmed violation leaves as a Violation exception (raised by on_violation)."""
        set_engine(self)
        while True:
            self.pos = 0
            self.fresh_n = 0
            self.inputs = {}
            self.guarded = {}
            self.symdicts = {}
            self.reprs = {}
            self.hexmap = {}
            self.steps = 0
            try:
                try:
                    fn()
                    self.st.paths += 1
                    if on_path is not None:
                        on_path(self)
                except PathKilled:
                    self.st.killed += 1
                except PathEnded:
                    self.st.paths += 1
                except Unsupported as u:
                    self.st.paths += 1
                    self.note_incomplete("unsupported: %s" % u)
                    self.on_limit(self)
                except Hang:
                    self.st.paths += 1
                    self._fail_path("does not terminate")
                except Exception as e:
                    self.st.paths += 1
                    if self.soft_exception(e):
                        if os.environ.get("VERIF_TRACE"):
                            import traceback
                            traceback.print_exc()
                        self.note_incomplete("engine limit: %s: %s" % (type(e).__name__, str(e)[:200]))
                        self.on_limit(self)
                    else:
                        self._fail_path("unexpected exception %s" % type(e).__name__)
            except BudgetExceeded as b:
                self.note_incomplete(str(b))
                return False
            if self.max_paths is not None and self.st.paths >= self.max_paths:
                self.note_incomplete("path budget")
                return False
            # backtrack
            self.model = None
            while self.decisions:
                d = self.decisions[-1]
                try:
                    ok = self._advance(d)
                except BudgetExceeded as b:
                    self.note_incomplete(str(b))
                    return False
                if ok:
                    break
                self.decisions.pop()
            if not self.decisions:
                return not self.st.incomplete and not self.inconclusive

    def _fail_path(self, label):
        r = self._check()
        if r == z3.sat:
            self._violated(label, self.solver.model(), None)
        elif r == z3.unknown:
            self.inconclusive.append("solver unknown: %s" % label)

    # ---------------------------------------------------------------- models
    def path_model(self):
        m = self._current_model()
        return m

    def model_inputs(self, model):
        out = {}
        for name, (kind, sym, meta) in self.inputs.items():
            out[name] = read_input(model, kind, sym, meta)
        return out


def z3_int(model, e):
    v = model.eval(e, model_completion=True)
    return v.as_long()


def read_input(model, kind, sym, meta):
    if kind == "int":
        v = z3_int(model, sym)
        if meta and meta.get("signed") and v >= 1 << (meta["bits"] - 1):
            v -= 1 << meta["bits"]
        return v
    if kind == "bool":
        return z3.is_true(model.eval(sym, model_completion=True))
    if kind == "bytes":
        return {"hex": bytes(bytearray(z3_int(model, b) for b in sym)).hex()}
    if kind == "text":
        return {"units": [z3_int(model, b) for b in sym]}
    if kind == "choice":
        return sym
    raise AssertionError(kind)


set_engine(Engine())
