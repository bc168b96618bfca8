"""Path contexts: branching, assumptions, feasibility, exploration."""
import sys
import time

try:
    import z3
except ImportError:  # the z3 bindings live in the tooling venv
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

z3.set_param("auto_config", True)


class Unsupported(Exception):
    """The engine cannot decide this function in the current mode."""


class PathInfeasible(BaseException):
    pass


class Budget(Unsupported):
    pass


class PyRaise(BaseException):
    """An exception raised by the interpreted program."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


STATS = {
    "queries": 0,
    "solver_s": 0.0,
    "paths": 0,
    "unknown": 0,
}

_STACK = []  # active contexts


def cur():
    return _STACK[-1]


def active():
    return bool(_STACK)


def is_sym(x):
    return isinstance(x, z3.ExprRef)


_and = z3.And


def mk_and(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return z3.BoolVal(False)
    if not xs:
        return z3.BoolVal(True)
    return _and(*xs) if len(xs) > 1 else xs[0]


QUERY_MS = 3000


def check_sat(assertions, timeout_ms=None):
    """'sat' | 'unsat' | 'unknown', model-or-None."""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout_ms or QUERY_MS)
    for a in assertions:
        s.add(a)
    r = s.check()
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    if r == z3.sat:
        return "sat", s.model()
    if r == z3.unsat:
        return "unsat", None
    STATS["unknown"] += 1
    return "unknown", None


class Ctx:
    """One execution of the program under a decision prefix."""

    def __init__(self, prefix=(), assumptions=(), names=None, deadline=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []  # (value, has_alternative)
        self.base = list(assumptions)
        self.pc = []
        self.names = names if names is not None else {}
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        for a in self.base:
            self.solver.add(a)
        self.inputs = {}
        self.quantified = False
        self.notes = []

    # -- naming ---------------------------------------------------------
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f"{base}!{n}" if n else base

    def fresh_int(self, base="i"):
        return z3.Int(self.fresh(base))

    def fresh_bool(self, base="b"):
        return z3.Bool(self.fresh(base))

    # -- constraints ----------------------------------------------------
    def constraints(self):
        return self.base + self.pc

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathInfeasible()
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, c):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget for this function exhausted")
        t0 = time.time()
        r = self.solver.check(c)
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t0
        if r == z3.unsat:
            return False
        if r == z3.unknown:
            STATS["unknown"] += 1
        return True

    def entails(self, c):
        if c is True:
            return True
        if c is False:
            c = z3.BoolVal(False)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        return not self._check(z3.Not(c))

    def feasible(self):
        return self._check(z3.BoolVal(True))

    def branch(self, c):
        """Decide a boolean condition, forking if both sides are feasible."""
        if c is True or c is False:
            return c
        if not isinstance(c, z3.BoolRef):
            raise Unsupported(f"branch on {type(c)}")
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((v, False))
            self.assume(c if v else z3.Not(c))
            return v
        self.pos += 1
        can_t = self._check(c)
        can_f = self._check(z3.Not(c))
        if can_t:
            self.decisions.append((True, can_f))
            self.assume(c)
            return True
        if can_f:
            self.decisions.append((False, False))
            self.assume(z3.Not(c))
            return False
        raise PathInfeasible()

    def choose(self, n, label=""):
        """Nondeterministic choice of 0..n-1 (full enumeration)."""
        for k in range(n - 1):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append((v, False))
            else:
                self.pos += 1
                v = True
                self.decisions.append((True, True))
            if v:
                return k
        return n - 1


def unique_value(ctx, t):
    """The single integer value `t` can have on this path, or None."""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    t0 = time.time()
    r = ctx.solver.check()
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    if r != z3.sat:
        # with quantified facts the model search may give up; probe small values
        for v in range(0, 7):
            if ctx.entails(t == v):
                return v
        return None
    v = ctx.solver.model().eval(t, model_completion=True)
    if not z3.is_int_value(v):
        return None
    v = v.as_long()
    return v if ctx.entails(t == v) else None


def explore(run, assumptions=(), max_paths=600, deadline=None, names=None):
    """Run `run(ctx)` on every feasible path; yields (ctx, kind, value).

    kind is 'return' or 'raise'.  Re-executes from scratch per path.
    """
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            raise Budget(f"more than {max_paths} paths")
        if deadline is not None and time.time() > deadline:
            raise Budget("time budget for this function exhausted")
        STATS["paths"] += 1
        ctx = Ctx(prefix, assumptions, dict(names or {}), deadline)
        _STACK.append(ctx)
        try:
            try:
                v = run(ctx)
                res = (ctx, "return", v)
            except PyRaise as e:
                res = (ctx, "raise", e.exc)
            except PathInfeasible:
                res = None
            except RecursionError:
                raise Unsupported("recursion depth")
        finally:
            _STACK.pop()
        ds = ctx.decisions
        for i in range(len(prefix), len(ds)):
            v_i, alt = ds[i]
            if alt:
                work.append([d[0] for d in ds[:i]] + [not v_i])
        if res is not None:
            yield res


class active_ctx:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        _STACK.append(self.ctx)
        return self.ctx

    def __exit__(self, *a):
        _STACK.pop()


# --- z3 operator patches: python semantics, truth tests fork ---------------
_orig_bool = z3.BoolRef.__bool__


def _sym_bool(self):
    if _STACK:
        return _STACK[-1].branch(self)
    return _orig_bool(self)


z3.BoolRef.__bool__ = _sym_bool


def _no_index(self):
    raise Unsupported("symbolic integer used where native code needs a concrete one")


z3.ArithRef.__index__ = _no_index
