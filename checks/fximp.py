"""Common parts of the importer contracts: ghosts, effect logs, loop cuts."""
import inspect
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks import fxeval as E  # noqa: E402
from checks.oblig import Oblig  # noqa: E402,F401
from pyvc import ctx as C, sval as S, load, mlir_rec as R  # noqa: E402
from pyvc.interp import Havoc, Interp  # noqa: E402

z3 = C.z3
_tags = {}


def tagcode(tag):
    return _tags.setdefault(tag, len(_tags) + 1)


class G:
    """an opaque value: a kind and up to three indices; equal iff all are"""

    _pyvc_ok = _pyvc_alt = True
    N = 3

    def __init__(self, tag, *ix, code=None):
        self.code = tagcode(tag) if code is None else code
        self.ix = tuple(ix) + (0,) * (self.N - len(ix))

    def _pyvc_terms(self):
        return [self.code, *self.ix]

    def _pyvc_rebuild(self, t):
        return type(self)(None, *t[1:], code=t[0])

    def is_(self, tag, *ix):
        ix = tuple(ix) + (0,) * (self.N - len(ix))
        return S.conj(S.zeq(self.code, tagcode(tag)), *[S.zeq(a, b) for a, b in zip(self.ix, ix)])

    def _pyvc_eq(self, o):
        return S.conj(S.zeq(self.code, o.code), *[S.zeq(a, b) for a, b in zip(self.ix, o.ix)]) if type(o) is type(self) else False

    def __repr__(self):
        names = {v: k for k, v in _tags.items()}
        return f"<{names.get(self.code, self.code)} {self.ix}>"


class GN(G):
    """a ghost for an object that may be None (is it? an uninterpreted predicate)"""

    NONE = z3.Function("is_None", z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def _pyvc_is_none(self):
        return GN.NONE(S.zterm(self.code), S.zterm(self.ix[0]))

    def __bool__(self):
        raise C.Unsupported("truth of an opaque object")


class GV(R.Value):
    """an opaque MLIR value, a function of (tag, indices)"""

    def __init__(self, tag, *ix, type=None, code=None):
        R.Value.__init__(self, type)
        self.code = tagcode(tag) if code is None else code
        self.ix = tuple(ix) + (0,) * (3 - len(ix))

    _pyvc_terms = G._pyvc_terms
    is_ = G.is_
    N = 3
    __repr__ = G.__repr__

    @property
    def _pyvc_tag(self):
        return self.type

    def _pyvc_rebuild(self, t):
        return GV(None, *t[1:], code=t[0], type=self.type)


def is_(v, tag, *ix):
    """goal: v is the ghost (tag, ix)"""
    return S.over(lambda w: w.is_(tag, *ix) if isinstance(w, (G, GV)) else False, v)


def args_of(fn, a, k):
    """the arguments of a call by parameter name, defaults filled in"""
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


class Stop(Exception):
    """ends a path with its goals (the preservation half of a loop cut)"""

    def __init__(self, goals):
        self.goals = goals


def fx():
    return E.FX()


def files():
    return [fx().__file__]


GROW = {"append", "extend", "insert", "pop", "clear", "remove", "add", "update", "setdefault", "popitem", "discard", "sort", "reverse"}


def assigned(body):
    """(names the statements assign, names of containers they change in place)"""
    import ast

    names, mutated = set(), set()

    def walk(nd):
        if isinstance(nd, (ast.FunctionDef, ast.ClassDef)):
            names.add(nd.name)
            return
        if isinstance(nd, ast.Lambda):
            return
        if isinstance(nd, ast.Name) and isinstance(nd.ctx, (ast.Store, ast.Del)):
            names.add(nd.id)
        if isinstance(nd, (ast.Subscript, ast.Attribute)) and isinstance(nd.ctx, (ast.Store, ast.Del)) and isinstance(nd.value, ast.Name):
            mutated.add(nd.value.id)
        if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in GROW and isinstance(nd.func.value, ast.Name):
            mutated.add(nd.func.value.id)
        if isinstance(nd, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
            raise C.Unsupported("construct in a loop cut by its invariant")
        for x in ast.iter_child_nodes(nd):
            walk(x)

    for st in body:
        walk(st)
    return names, mutated


class Cut:
    """A loop over a sequence of symbolic length by its invariant.

    enter(interp, frame): goals of the invariant before the first iteration.
    at(interp, frame, k): puts frame and heap into a state satisfying the invariant
    before iteration k. after(interp, frame, k): goals of the invariant after it,
    plus what the iteration itself must do. Locals the body assigns and `keep` does
    not name cannot be read from an earlier iteration or after the loop."""

    def __init__(self, enter, at, after, keep=(), matches=None, may_break=False):
        self.may_break = may_break
        self.enter, self.at, self.after, self.keep = enter, at, after, set(keep)
        self.matches = matches or (lambda seq: True)
        self.goals = []

    def __call__(self, it, s, seq, fr):
        import ast

        if not self.matches(seq):
            return False
        c = C.cur()
        names, mutated = assigned(s.body)
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        self.goals += [("loop invariant on entry: " + a, b) for a, b in self.enter(it, fr)]
        bad = {v for v in mutated if v in fr.locals and v not in self.keep and isinstance(fr.locals[v], (list, dict, set, S.SList)) and v not in ("self",)}
        if bad:
            raise C.Unsupported(f"the loop changes {sorted(bad)}, which its invariant does not mention")
        n = S.zterm(seq.n)
        temps = (names | tnames) - self.keep
        if c.choose(2, "loop") == 0:
            k = c.fresh_int("k")
            c.assume(z3.And(0 <= k, k < n))
            for v in temps:
                if v in fr.locals:
                    fr.locals[v] = Havoc(v)
            self.at(it, fr, k)
            it.assign(s.target, seq.f(k), fr)
            from pyvc.interp import BreakEx, ContinueEx

            try:
                it.block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                if not self.may_break:
                    raise C.PyRaise(Stop(self.goals + [("the loop is left only at its end", k == n - 1)]))
                return True  # the state after the loop is the one of this iteration
            raise C.PyRaise(Stop(self.goals + list(self.after(it, fr, k))))
        for v in temps:
            if v in fr.locals:
                fr.locals[v] = Havoc(v)
        # never an uninterpreted constant: that is how `at` tells the end from iteration k
        self.at(it, fr, z3.If(n > 0, n, z3.IntVal(0)))
        it.block(s.orelse, fr)
        return True


def stopped(raises=None):
    """`raises` of Oblig.prove for runs that contain loop cuts"""

    def f(e):
        if isinstance(e, Stop):
            return e.goals
        return raises(e) if raises else [(f"no exception ({type(e).__name__}: {str(e)[:80]})", False)]

    return f


def new_importer():
    """a real importer on the recorder, and a node importer with a fresh block"""
    imp = E.importer()
    f = fx()
    b = R.Block([])
    gni = f.GraphNodeImporter(imp, imp._c, imp._cc, b)
    return imp, gni, b


def interp(contracts):
    """contracts: {real function: handler(interp, {name: value})}"""

    def wrap(fn, h):
        return lambda it, a, k: h(it, args_of(fn, a, k))

    return Interp(files(), {id(fn): wrap(fn, h) for fn, h in contracts.items()})
