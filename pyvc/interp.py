"""AST interpreter over the real source text, with symbolic values."""
import ast
import itertools
import builtins
import inspect
import linecache
import math
import os
import types

from . import sval as S
from . import text as T
from .ctx import (
    z3,
    cur,
    is_sym,
    Unsupported,
    PyRaise,
    PathInfeasible,
    unique_value,
)
from .sval import SList


class ReturnEx(BaseException):
    def __init__(self, v):
        self.v = v


class BreakEx(BaseException):
    pass


class ContinueEx(BaseException):
    pass


class SSeq:
    """Lazily indexed sequence (range/zip/enumerate/...) of symbolic length."""

    def __init__(self, n, f):
        self.n = n
        self.f = f


class Opaque:
    """A value the engine only passes around (e.g. an f-string of terms)."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<{self.what}>"

    def __format__(self, spec):
        return repr(self)


class Havoc:
    """A loop-carried variable whose pre-iteration value must not be read."""

    def __init__(self, name):
        self.name = name


class Frame:
    __slots__ = ("locals", "parent", "globals", "nonlocals", "globs", "fn")

    def __init__(self, globals_, parent=None, fn=None):
        self.locals = {}
        self.parent = parent
        self.globals = globals_
        self.nonlocals = set()
        self.globs = set()
        self.fn = fn


class Source:
    """Parsed source files, keyed by path; functions found by line."""

    def __init__(self):
        self.files = {}

    def load(self, path):
        path = os.path.realpath(path)
        if path not in self.files:
            text = open(path, encoding="utf-8").read()
            tree = ast.parse(text, path)
            by_line = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    first = min(
                        [node.lineno] + [d.lineno for d in node.decorator_list]
                    )
                    by_line[(node.name, first)] = node
                    by_line.setdefault((node.name, node.lineno), node)
            lambdas = {}
            for node in ast.walk(tree):
                if isinstance(node, ast.Lambda):
                    lambdas.setdefault(node.lineno, []).append(node)
            self.files[path] = (text, tree, by_line, lambdas)
        return self.files[path]

    def find(self, fn):
        code = fn.__code__
        path = os.path.realpath(code.co_filename)
        _, _, by_line, lambdas = self.load(path)
        if code.co_name == "<lambda>":
            c = lambdas.get(code.co_firstlineno, [])
            return c[0] if len(c) == 1 else None
        return by_line.get((code.co_name, code.co_firstlineno))


SRC = Source()


class IFunction:
    """A function whose body is interpreted."""

    def __init__(self, interp, node, frame, globals_, defaults, kwdefaults, name):
        self.interp = interp
        self.node = node
        self.frame = frame
        self.globals = globals_
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.__name__ = name
        self.attrs = {}

    def __call__(self, *args, **kwargs):
        return self.interp.call_ifunction(self, list(args), dict(kwargs))


BIN = {
    ast.Add: "+",
    ast.Sub: "-",
    ast.Mult: "*",
    ast.Div: "/",
    ast.FloorDiv: "//",
    ast.Mod: "%",
    ast.Pow: "**",
    ast.BitOr: "|",
    ast.BitAnd: "&",
    ast.BitXor: "^",
    ast.LShift: "<<",
    ast.RShift: ">>",
    ast.MatMult: "@",
}

import operator as _op

NATIVE_BIN = {
    "+": _op.add,
    "-": _op.sub,
    "*": _op.mul,
    "/": _op.truediv,
    "//": _op.floordiv,
    "%": _op.mod,
    "**": _op.pow,
    "|": _op.or_,
    "&": _op.and_,
    "^": _op.xor,
    "<<": _op.lshift,
    ">>": _op.rshift,
    "@": _op.matmul,
}


def has_sym(x, depth=4):
    if is_sym(x) or isinstance(x, (SList, SSeq)):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values()) or any(
            has_sym(y, depth - 1) for y in x.keys()
        )
    return False


class Interp:
    def __init__(self, interpret_files=(), contracts=None, natives=(), unroll=None,
                 max_depth=60):
        self.files = {os.path.realpath(p) for p in interpret_files}
        self.contracts = dict(contracts or {})  # id(fn) -> handler(interp,args,kwargs)
        self.native_ok = set(natives)
        self.loop_templates = None
        # handler(interp, loop, sequence, frame) -> bool: cuts the loop by the check's own invariant
        self.loop_contract = None
        self.texts = False  # f-strings, str() and join() of symbolic values give Text
        self.empty = None  # kind -> ghost container for an empty `[]` or `{}` display, or None
        self.while_contract = None  # handler(interp, stmt, frame) -> handled, for while loops
        self.dict_comp = None  # handler(interp, node, sequence, frame): dict comprehensions of symbolic length
        self.empty_as_slist = False  # `[]` displays may come to have a symbolic length
        self.unroll = unroll  # None: summarise loops; k: fork-unroll up to k
        self.depth = 0
        self.max_depth = max_depth
        self.used_contracts = set()
        self.interpreted = set()
        self.bounded_loops = False
        self.trace_calls = None
        self.overrides = {}  # (globals id, name) -> value
        self.builtin_models = self._builtins()

    # ------------------------------------------------------------------
    def is_interpretable(self, fn):
        if not isinstance(fn, types.FunctionType):
            return False
        return os.path.realpath(fn.__code__.co_filename) in self.files

    def lift(self, fn):
        node = SRC.find(fn)
        if node is None:
            raise Unsupported(f"source of {fn.__qualname__} not found")
        frame = None
        if fn.__closure__:
            frame = Frame(fn.__globals__)
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    frame.locals[n] = c.cell_contents
                except ValueError:
                    pass
        return IFunction(
            self,
            node,
            frame,
            fn.__globals__,
            list(fn.__defaults__ or ()),
            dict(fn.__kwdefaults__ or {}),
            fn.__name__,
        )

    # ------------------------------------------------------------------
    def bind(self, f, args, kwargs):
        a = f.node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        star = None
        if any(isinstance(x, S.Star) for x in args):
            # a sequence of symbolic length may only become the whole *args
            if a.vararg is None or len(args) != len(pos) + 1 or not isinstance(args[-1], S.Star):
                raise Unsupported("star-args of symbolic length")
            star, args = args[-1].seq, args[:-1]
        if len(args) > len(pos) and a.vararg is None:
            S.raise_py(TypeError, f"{f.__name__}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(pos):]) if star is None else star
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        posonly = {x.arg for x in a.posonlyargs}
        for n, v in kwargs.items():
            if n in posonly or (n not in pos and n not in kwonly):
                if a.kwarg is None:
                    S.raise_py(TypeError, f"{f.__name__}() got an unexpected keyword argument '{n}'")
                extra[n] = v
                continue
            if n in loc:
                S.raise_py(TypeError, f"{f.__name__}() got multiple values for argument '{n}'")
            loc[n] = v
        if a.kwarg is not None:
            loc[a.kwarg.arg] = extra
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (len(pos) - nd)
                if j < 0:
                    S.raise_py(TypeError, f"{f.__name__}() missing required argument: '{n}'")
                loc[n] = f.defaults[j]
        for n in kwonly:
            if n not in loc:
                if n not in f.kwdefaults:
                    S.raise_py(TypeError, f"{f.__name__}() missing keyword argument: '{n}'")
                loc[n] = f.kwdefaults[n]
        return loc

    def call_ifunction(self, f, args, kwargs):
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth = 0
            raise Unsupported("call depth")
        try:
            fr = Frame(f.globals, f.frame, f)
            fr.locals = self.bind(f, args, kwargs)
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, fr)
            if getattr(f.node, "_is_gen", None) is None:
                f.node._is_gen = any(
                    isinstance(n, (ast.Yield, ast.YieldFrom))
                    for st in f.node.body for n in _walk_own(st)
                )
            if f.node._is_gen:
                fr.locals["__yielded__"] = []
                try:
                    self.block(f.node.body, fr)
                except ReturnEx:
                    pass
                return iter(fr.locals["__yielded__"])
            try:
                self.block(f.node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------------
    # statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} (line {s.lineno})")
        return m(s, fr)

    def s_Expr(self, s, fr):
        self.expr(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnEx(self.expr(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Global(self, s, fr):
        fr.globs.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            try:
                mod = __import__(a.name)
            except ImportError as e:
                raise PyRaise(e)
            if a.asname:
                for p in a.name.split(".")[1:]:
                    mod = getattr(mod, p)
                self.store_name(a.asname, mod, fr)
            else:
                self.store_name(a.name.split(".")[0], mod, fr)

    def s_ImportFrom(self, s, fr):
        try:
            mod = __import__(
                s.module or "", fr.globals, {}, [a.name for a in s.names], s.level
            )
        except ImportError as e:
            raise PyRaise(e)
        for a in s.names:
            self.store_name(a.asname or a.name, getattr(mod, a.name), fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.expr(s.test, fr)):
            msg = self.expr(s.msg, fr) if s.msg is not None else ""
            S.raise_py(AssertionError, msg)

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(fr, "fn", None)
            cur_exc = self._handling[-1] if getattr(self, "_handling", None) else None
            if cur_exc is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur_exc)
        e = self.expr(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise PyRaise(TypeError("exceptions must derive from BaseException"))
        raise PyRaise(e)

    def s_If(self, s, fr):
        if self.truth(self.expr(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        op = BIN[type(s.op)]
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            rhs = self.expr(s.value, fr)
            self.store_name(t.id, self.aug(op, old, rhs), fr)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, fr)
            idx = self.index_expr(t.slice, fr)
            old = self.getitem(base, idx)
            rhs = self.expr(s.value, fr)
            self.setitem(base, idx, self.aug(op, old, rhs))
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, fr)
            old = self.getattr(base, t.attr)
            rhs = self.expr(s.value, fr)
            self.setattr(base, t.attr, self.aug(op, old, rhs))
        else:
            raise Unsupported("augassign target")

    def aug(self, op, old, rhs):
        if op == "+" and isinstance(old, (list, SList)):
            # in-place extend keeps identity
            if isinstance(old, list) and not isinstance(rhs, (SList, SSeq)):
                old.extend(self.to_list(rhs))
                return old
            if isinstance(old, SList):
                return self.list_extend(old, rhs)
            raise Unsupported("list += symbolic list (identity)")
        if _ops(old):
            f = getattr(type(old), f"__i{self._DN.get(op)}__", None)
            if f is not None:
                try:
                    return f(old, rhs)
                except (Unsupported, PyRaise, PathInfeasible):
                    raise
                except Exception as ex:
                    raise _raised(ex, old, rhs)
        if op in ("|", "&") and isinstance(old, set):
            return NATIVE_BIN[op](old, rhs)
        return self.binop(op, old, rhs)

    def list_extend(self, lst, rhs):
        r = self.to_list(rhs)
        if isinstance(lst, list) and isinstance(r, list):
            lst.extend(r)
            return lst
        if hasattr(type(lst), "log_op"):
            if isinstance(r, list):
                for v in r:
                    lst.log_op("append", v)
                return lst
            lst.log_op("extend", r)
            return lst
        if isinstance(lst, list):
            raise Unsupported("extend of a concrete list by a symbolic one")
        c = S.concat(lst.copy(), r)
        lst.n, lst.f = c.n, c.f
        return lst

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.expr(t.value, fr)
                idx = self.index_expr(t.slice, fr)
                if isinstance(base, SList):
                    if isinstance(idx, slice):
                        raise Unsupported("del slice")
                    self.list_pop(base, idx)
                else:
                    if is_sym(idx):
                        self.list_pop(base, idx)
                        continue
                    try:
                        del base[idx]
                    except Exception as e:
                        raise PyRaise(e)
            elif isinstance(t, ast.Attribute):
                delattr(self.expr(t.value, fr), t.attr)
            else:
                raise Unsupported("del target")

    def s_FunctionDef(self, s, fr):
        f = self.make_function(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.expr(d, fr), [f], {})
        self.store_name(s.name, f, fr)

    def make_function(self, node, fr):
        a = node.args
        defaults = [self.expr(d, fr) for d in a.defaults]
        kwd = {
            x.arg: self.expr(d, fr)
            for x, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None
        }
        return IFunction(
            self, node, fr, fr.globals, defaults, kwd, getattr(node, "name", "<lambda>")
        )

    def s_With(self, s, fr):
        mgrs = []
        for it in s.items:
            m = self.expr(it.context_expr, fr)
            v = self.call(self.getattr(m, "__enter__"), [], {})
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            for m in reversed(mgrs):
                if self.truth(
                    self.call(
                        self.getattr(m, "__exit__"), [type(e.exc), e.exc, None], {}
                    )
                ):
                    return
            raise
        except BaseException as ex:
            if isinstance(ex, (ReturnEx, BreakEx, ContinueEx)):
                for m in reversed(mgrs):
                    self.call(self.getattr(m, "__exit__"), [None, None, None], {})
            raise
        for m in reversed(mgrs):
            self.call(self.getattr(m, "__exit__"), [None, None, None], {})

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.expr(h.type, fr)
                        match = isinstance(e.exc, t)
                    if match:
                        if h.name:
                            self.store_name(h.name, e.exc, fr)
                        self._handling = getattr(self, "_handling", [])
                        self._handling.append(e.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self._handling.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            import sys as _sys

            ex = _sys.exc_info()[1]
            if s.finalbody and not isinstance(ex, (Unsupported, PathInfeasible)):
                self.block(s.finalbody, fr)

    def s_While(self, s, fr):
        n = 0
        limit = self.unroll if self.unroll is not None else 0
        if self.while_contract is not None and self.while_contract(self, s, fr):
            return
        while True:
            t = self.expr(s.test, fr)
            tv = self.as_bool(t)
            if is_sym(tv):
                sv = S.simp_bool(tv)
                if is_sym(sv):
                    if cur().entails(sv):
                        tv = True
                    elif cur().entails(z3.Not(sv)):
                        tv = False
                    elif n >= limit:
                        raise Unsupported(
                            f"while loop with symbolic trip count (line {s.lineno})"
                        )
                    else:
                        self.bounded_loops = True
                        tv = cur().branch(sv)
                else:
                    tv = sv
            if not tv:
                break
            n += 1
            if n > 4000:
                raise Unsupported("while loop does not terminate in 4000 steps")
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.iterate(self.expr(s.iter, fr))
        if isinstance(it, SSeq):
            u = unique_value(cur(), it.n)
            if u is not None:
                it = [it.f(i) for i in range(max(u, 0))]
            elif self.unroll is not None:
                return self.for_unroll(s, it, fr)
            else:
                from . import loops

                if self.loop_contract is not None and self.loop_contract(self, s, it, fr):
                    return
                if self.loop_templates is not None:
                    return loops.invariant_for(self, s, it, fr, *self.loop_templates)
                return loops.summarise_for(self, s, it, fr)
        for v in it:
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, fr)

    def for_unroll(self, s, seq, fr):
        i = 0
        while True:
            if not cur().branch(S.zlt(i, seq.n)):
                break
            if i >= self.unroll:
                raise Unsupported("loop unrolling bound")
            self.bounded_loops = True
            self.assign(s.target, seq.f(i), fr)
            i += 1
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, fr)

    # ------------------------------------------------------------------
    def iterate(self, v):
        """python iterable, or SSeq for symbolic length."""
        if isinstance(v, SSeq):
            return v
        if isinstance(v, SList):
            n, f = v.n, v.f
            if not is_sym(n):
                return [f(i) for i in range(n)]
            return SSeq(n, f)
        if isinstance(v, (list, tuple, range, set, frozenset, dict, str)):
            return list(v)
        if is_sym(v) or v is None or isinstance(v, (int, float)):
            S.raise_py(TypeError, f"'{type(v).__name__}' object is not iterable")
        if isinstance(v, Havoc):
            raise Unsupported(f"read of loop-carried '{v.name}'")
        ghost = getattr(type(v), "_pyvc_iter", None)
        if ghost is not None:
            return self.iterate(ghost(v))
        m = self._user_method(v, "__iter__")
        if m is not None:
            return self.iterate(self.call(m, [], {}))
        try:
            return _native_iter(v)
        except TypeError as e:
            raise PyRaise(e)

    def to_list(self, v):
        it = self.iterate(v)
        if isinstance(it, SSeq):
            return SList(it.n, it.f)
        return list(it)

    # ------------------------------------------------------------------
    # names
    def load_name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.locals:
                v = f.locals[n]
                if isinstance(v, Havoc):
                    raise Unsupported(f"read of loop-carried '{n}'")
                if type(v).__name__ == "OptVar":
                    v = None if cur().branch(v.isnone) else v.val
                return v
            f = f.parent
        ov = self.overrides.get(n)
        if ov is not None:
            return ov
        g = fr.globals
        if n in g:
            return g[n]
        b = g.get("__builtins__", builtins)
        b = b if isinstance(b, dict) else vars(b)
        if n in b:
            return b[n]
        S.raise_py(NameError, f"name '{n}' is not defined")

    def store_name(self, n, v, fr):
        if n in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if n in f.locals:
                    f.locals[n] = v
                    return
                f = f.parent
        if n in fr.globs:
            raise Unsupported("global assignment")
        fr.locals[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                idx = self.index_expr(t.slice, fr)
                self.set_slice(base, idx, v)
                return
            self.setitem(base, self.index_expr(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assign target")

    def set_slice(self, base, sl, v):
        if isinstance(base, list) and not has_sym([sl.start, sl.stop, sl.step]):
            v = self.to_list(v)
            if isinstance(v, list):
                try:
                    base[sl] = v
                except ValueError as e:
                    raise PyRaise(e)
                return
        raise Unsupported("slice assignment")

    def unpack(self, elts, v, fr):
        it = self.iterate(v)
        if isinstance(it, SSeq):
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported("starred unpack of symbolic list")
            if not cur().branch(S.zeq(it.n, len(elts))):
                S.raise_py(ValueError, "unpack length")
            vals = [it.f(i) for i in range(len(elts))]
        else:
            vals = list(it)
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(elts) - i - 1
                if len(vals) < len(elts) - 1:
                    S.raise_py(ValueError, "not enough values to unpack")
                end = len(vals) - after
                vals = vals[:i] + [vals[i:end]] + vals[end:]
            elif len(vals) != len(elts):
                S.raise_py(ValueError, "wrong number of values to unpack")
        for e, x in zip(elts, vals):
            self.assign(e, x, fr)

    # ------------------------------------------------------------------
    # expressions
    def expr(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} (line {e.lineno})")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Yield(self, e, fr):
        v = self.expr(e.value, fr) if e.value is not None else None
        f = fr
        while "__yielded__" not in f.locals:
            f = f.parent
        f.locals["__yielded__"].append(v)
        return None

    def e_YieldFrom(self, e, fr):
        for v in self.iterate(self.expr(e.value, fr)):
            fr.locals["__yielded__"].append(v)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        if not e.elts and self.empty is not None:
            g = self.empty("list")
            if g is not None:
                return g
        if not e.elts and self.empty_as_slist:
            return SList(0, lambda i: None)
        r = self.elts(e.elts, fr)
        return r

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.expr(x.value, fr))
                if isinstance(it, SSeq):
                    rest = SList(it.n, it.f)
                    out = S.concat(out, rest) if out else rest
                else:
                    out = self._cat(out, list(it))
            else:
                v = self.expr(x, fr)
                out = self._cat(out, [v])
        return out

    def _cat(self, a, b):
        if isinstance(a, list):
            a.extend(b)
            return a
        return S.concat(a, b)

    def e_Set(self, e, fr):
        vals = self.elts(e.elts, fr)
        if has_sym(vals):
            return SymSet(vals)
        return set(vals)

    def e_Dict(self, e, fr):
        if not e.keys and self.empty is not None:
            g = self.empty("dict")
            if g is not None:
                return g
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.expr(v, fr))
            else:
                kk = self.expr(k, fr)
                if has_sym(kk) and not isinstance(d, S.SymDict):
                    d = S.SymDict(d.items())
                d[kk] = self.expr(v, fr)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.expr(p.value, fr)
                if isinstance(v, z3.SeqRef) and p.conversion == -1 and p.format_spec is None:
                    parts.append(v)
                    continue
                if self.texts and (has_sym(v, 3) or isinstance(v, T.Text) or hasattr(v, "_pyvc_text")):
                    t = T.of(v) if p.conversion in (-1, 115) and p.format_spec is None else None
                    if t is None:
                        raise Unsupported("text of a symbolic value")
                    parts.append(t)
                    continue
                if has_sym(v):
                    parts.append(f"<{v}>")
                else:
                    try:
                        if p.conversion == 114:
                            v = repr(v)
                        elif p.conversion == 115:
                            v = str(v)
                        spec = (
                            self.expr(p.format_spec, fr)
                            if p.format_spec is not None
                            else ""
                        )
                        parts.append(format(v, spec))
                    except Exception as ex:
                        raise PyRaise(ex)
        if any(isinstance(p, z3.SeqRef) for p in parts):
            zs = [z3.StringVal(p) if isinstance(p, str) else p for p in parts]
            return z3.Concat(*zs) if len(zs) > 1 else zs[0]
        if any(isinstance(p, T.Text) for p in parts):
            return T.Text([x for p in parts for x in T.of(p).p])
        return "".join(parts)

    def e_FormattedValue(self, e, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), fr)

    def e_Lambda(self, e, fr):
        return self.make_function(e, fr)

    def e_IfExp(self, e, fr):
        c = self.as_bool(self.expr(e.test, fr))
        if isinstance(c, bool):
            return self.expr(e.body if c else e.orelse, fr)
        c = S.simp_bool(c)
        if isinstance(c, bool):
            return self.expr(e.body if c else e.orelse, fr)
        if _pure(e.body) and _pure(e.orelse):
            a, b = self.expr(e.body, fr), self.expr(e.orelse, fr)
            if S.is_num_like(a) and S.is_num_like(b):
                return S.norm(S.ite(c, a, b))
        return self.expr(e.body if cur().branch(c) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            try:
                v = self.expr(x, fr)
            except PyRaise:
                if acc is None:
                    raise
                t = cur().branch(acc)
                if t != isand:
                    return t
                raise
            last = i == len(e.values) - 1
            if isinstance(v, z3.BoolRef):
                v = S.simp_bool(v)
            if isinstance(v, z3.BoolRef):
                # can we keep going without forking?
                if last:
                    return v if acc is None else self._bool_join(isand, acc, v)
                if all(_pure_bool(y) for y in e.values[i + 1 :]):
                    acc = v if acc is None else self._bool_join(isand, acc, v)
                    continue
                if acc is not None:
                    v = self._bool_join(isand, acc, v)
                    acc = None
                t = cur().branch(v)
                if t != isand:
                    return t
                continue
            if acc is not None:
                t = self.truth(v)
                if t != isand:
                    # short circuit value decides
                    return False if isand else True
                if last:
                    return acc
                continue
            if last:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return acc

    def _bool_join(self, isand, a, b):
        return z3.And(a, b) if isand else z3.Or(a, b)

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand, fr)
        if isinstance(e.op, ast.Not):
            b = self.as_bool(v)
            return (not b) if isinstance(b, bool) else z3.Not(b)
        if is_sym(v):
            v = S.to_arith(v)
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert):
                return -v - 1
            raise Unsupported("unary op")
        try:
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            return ~v
        except Exception as ex:
            raise _raised(ex, v)

    def e_BinOp(self, e, fr):
        a = self.expr(e.left, fr)
        b = self.expr(e.right, fr)
        return self.binop(BIN[type(e.op)], a, b)

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Havoc):
                raise Unsupported("read of loop-carried value")
        if _ops(a) or _ops(b):
            return self._own_op(self._DN.get(op), "r" + self._DN.get(op, ""), a, b)
        if isinstance(a, (z3.SeqRef, str)) and isinstance(b, (z3.SeqRef, str)):
            if op == "+" and (is_sym(a) or is_sym(b)):
                sa = z3.StringVal(a) if isinstance(a, str) else a
                sb = z3.StringVal(b) if isinstance(b, str) else b
                return z3.Concat(sa, sb)
        if is_sym(a) or is_sym(b):
            if S.is_num_like(a) and S.is_num_like(b):
                return self.num_binop(op, a, b)
            if op == "*" and isinstance(a, list) and S.is_num_like(b):
                a, b = SList(len(a), S.as_slist(a).f) if len(a) != 1 else a, b
                return self.repeat(a, b)
            if op == "*" and isinstance(b, list) and S.is_num_like(a):
                return self.repeat(b, a)
            if op == "*" and isinstance(a, SList):
                return self.repeat(a, b)
            if op == "%" and isinstance(a, str):
                return Opaque("formatted string")
            m = self._dunder(op, a, b)
            if m is not NotImplemented:
                return m
            if (is_sym(a) and b is None) or (is_sym(b) and a is None):
                S.raise_py(TypeError, "unsupported operand type(s)")
            raise Unsupported(f"operator {op} on {type(a).__name__},{type(b).__name__}")
        if isinstance(a, (SList, SSeq)) or isinstance(b, (SList, SSeq)):
            if op == "+":
                if not isinstance(a, (SList, list)) or not isinstance(b, (SList, list)):
                    S.raise_py(TypeError, "can only concatenate list to list")
                return S.concat(a, b)
            if op == "*":
                return self.repeat(a if isinstance(a, SList) else b, b if isinstance(a, SList) else a)
            raise Unsupported(f"operator {op} on symbolic list")
        m = self._dunder(op, a, b)
        if m is not NotImplemented:
            return m
        try:
            return NATIVE_BIN[op](a, b)
        except Exception as ex:
            if isinstance(ex, Unsupported):
                raise
            raise _raised(ex, a, b)

    _DN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv",
           "%": "mod", "**": "pow", "|": "or", "&": "and", "@": "matmul"}

    def _own_op(self, name, rname, a, b):
        """operators of a check's own value class (marked _pyvc_ops)"""
        try:
            for x, y, n in ((a, b, name), (b, a, rname)):
                f = getattr(type(x), f"__{n}__", None) if _ops(x) else None
                if f is not None:
                    r = f(x, y)
                    if r is not NotImplemented:
                        return r
        except (Unsupported, PyRaise, PathInfeasible):
            raise
        except Exception as ex:
            raise _raised(ex, a, b)
        raise Unsupported(f"{name} on {type(a).__name__}, {type(b).__name__}")

    def _dunder(self, op, a, b):
        n = self._DN.get(op)
        if n is None:
            return NotImplemented
        m = self._user_method(a, f"__{n}__")
        if m is not None:
            r = self.call(m, [b], {})
            if r is not NotImplemented:
                return r
        m = self._user_method(b, f"__r{n}__")
        if m is not None:
            return self.call(m, [a], {})
        return NotImplemented

    def _user_method(self, obj, name):
        """Interpretable special method defined on the class of obj."""
        for k in type(obj).__mro__:
            f = k.__dict__.get(name)
            if f is not None:
                if isinstance(f, types.FunctionType) and self.is_interpretable(f):
                    return types.MethodType(f, obj)
                return None
        return None

    def repeat(self, lst, n):
        if isinstance(lst, list) and not is_sym(n):
            return lst * n
        u = unique_value(cur(), n) if is_sym(n) else n
        if u is not None and isinstance(lst, list):
            return lst * u
        if S.length(lst) == 1 and not is_sym(S.length(lst)):
            v = S.at(lst, 0)
            nn = n
            if not cur().entails(S.zterm(n) >= 0):
                nn = z3.If(S.zterm(n) > 0, S.zterm(n), z3.IntVal(0))
            return SList(nn, lambda i: v)
        raise Unsupported("list repetition")

    def num_binop(self, op, a, b):
        if op == "/":
            return S.truediv(a, b)
        if op == "//":
            return S.floordiv(a, b)
        if op == "%":
            return S.mod(a, b)
        if isinstance(a, z3.BoolRef) and isinstance(b, (bool, z3.BoolRef)) and op in "&|^":
            zb = S.zterm(b)
            return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a, zb)
        if isinstance(b, z3.BoolRef) and isinstance(a, bool) and op in "&|^":
            return self.num_binop(op, b, a)
        a, b = S.to_arith(a), S.to_arith(b)
        if op in ("+", "-", "*"):
            if op == "*":
                if not is_sym(a) and a == 1 and S.is_int_like(b):
                    return b
                if not is_sym(b) and b == 1 and S.is_int_like(a):
                    return a
            if S.both_int(a, b):
                za, zb = S.zterm(a), S.zterm(b)
            else:
                za, zb = S.to_real(a), S.to_real(b)
            r = za + zb if op == "+" else za - zb if op == "-" else za * zb
            return r
        if op == "**" and not is_sym(b) and isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = r * S.zterm(a)
            return r
        raise Unsupported(f"symbolic operator {op}")

    def e_Compare(self, e, fr):
        left = self.expr(e.left, fr)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(c, fr)
            r = self.compare(op, left, right)
            if len(e.ops) == 1:
                return r
            if isinstance(r, bool):
                if not r:
                    return False if res is None else (False)
            else:
                r = self.as_bool(r)
                if not isinstance(r, bool):
                    res = r if res is None else z3.And(res, r)
                elif not r:
                    return False
            left = right
        return True if res is None else res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if _ops(a) or _ops(b):
            n = _CMP[type(op)]
            return self._own_op(n, _CMP_R[n], a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            m = self._user_method(a, "__eq__")
            if m is not None and not dataclass_like(a):
                r = self.call(m, [b], {})
            elif has_sym(a) or has_sym(b):
                r = S.eq(a, b)
            else:
                try:
                    r = a == b
                except Exception as ex:
                    raise _raised(ex, a, b)
            if isinstance(op, ast.NotEq):
                if isinstance(r, z3.BoolRef):
                    return z3.Not(r)
                if isinstance(r, bool):
                    return not r
                return a != b
            return r
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            raise Unsupported("read of loop-carried value")
        if is_sym(a) or is_sym(b):
            if not (S.is_num_like(a) and S.is_num_like(b)):
                if a is None or b is None:
                    S.raise_py(TypeError, "comparison with None")
                raise Unsupported("ordering on non-numbers")
            if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
                inf_b = isinstance(b, float) and math.isinf(b)
                v = b if inf_b else a
                big = (v > 0) == inf_b  # other < +inf  or  -inf < other
                lt = isinstance(op, (ast.Lt, ast.LtE))
                return big if lt else not big
            a, b = S.to_arith(a), S.to_arith(b)
            if S.both_int(a, b):
                za, zb = S.zterm(a), S.zterm(b)
            else:
                za, zb = S.to_real(a), S.to_real(b)
            r = {
                ast.Lt: lambda: za < zb,
                ast.LtE: lambda: za <= zb,
                ast.Gt: lambda: za > zb,
                ast.GtE: lambda: za >= zb,
            }[type(op)]()
            return S.norm(r)
        if isinstance(a, (SList, SSeq)) or isinstance(b, (SList, SSeq)):
            raise Unsupported("ordering on lists")
        try:
            return {
                ast.Lt: _op.lt,
                ast.LtE: _op.le,
                ast.Gt: _op.gt,
                ast.GtE: _op.ge,
            }[type(op)](a, b)
        except Exception as ex:
            raise _raised(ex, a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            o = b if a is None else a
            return o._pyvc_is_none() if hasattr(type(o), "_pyvc_is_none") else False
        if type(a) is S.Alt or type(b) is S.Alt:
            raise Unsupported("identity of one of two opaque values")
        if is_sym(a) or is_sym(b):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                return S.zeq(a, b)
            if S.is_num_like(a) and S.is_num_like(b):
                return S.zeq(a, b)
            return False
        return a is b

    def contains(self, coll, x):
        if isinstance(coll, SymSet):
            coll = coll.items
        ghost = getattr(type(coll), "_pyvc_contains", None)
        if ghost is not None:
            return ghost(coll, x)
        if isinstance(coll, (SList, SSeq)):
            u = unique_value(cur(), coll.n)
            if u is not None:
                return S.disj(*[S.eq(coll.f(i), x) for i in range(u)])
            k = z3.Int(cur().fresh("k_in"))
            body = S.eq(coll.f(k), x)
            if isinstance(body, bool) and not body:
                return False
            return z3.Exists(
                [k], z3.And(0 <= k, k < S.zterm(coll.n), S.zterm(body))
            )
        if isinstance(coll, (list, tuple, set, frozenset)) and (
            has_sym(x) or has_sym(coll)
        ):
            return S.disj(*[self.compare(ast.Eq(), y, x) for y in coll])
        if isinstance(coll, dict) and has_sym(x):
            return S.disj(*[S.eq(y, x) for y in coll.keys()])
        if isinstance(coll, range) and is_sym(x):
            if coll.step == 1:
                return z3.And(x >= coll.start, x < coll.stop)
            return S.disj(*[S.eq(y, x) for y in coll])
        if isinstance(coll, str) and isinstance(x, z3.SeqRef):
            return z3.Contains(z3.StringVal(coll), x)
        if isinstance(coll, z3.SeqRef):
            return z3.Contains(coll, z3.StringVal(x) if isinstance(x, str) else x)
        m = self._user_method(coll, "__contains__")
        if m is not None:
            return self.call(m, [x], {})
        try:
            return x in coll
        except Exception as ex:
            if isinstance(ex, Unsupported):
                raise
            raise _raised(ex, coll, x)

    def as_bool(self, v):
        """bool or BoolRef"""
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, z3.SeqRef):
            return z3.Length(v) > 0
        if isinstance(v, (SList, SSeq)):
            return v.n != 0 if is_sym(v.n) else v.n != 0
        if isinstance(v, Havoc):
            raise Unsupported("read of loop-carried value")
        if _ops(v) or hasattr(type(v), "_pyvc_bool"):
            return self.as_bool(v._pyvc_bool())
        m = self._user_method(v, "__bool__")
        if m is not None:
            return self.as_bool(self.call(m, [], {}))
        try:
            return bool(v)
        except Exception as ex:
            if isinstance(ex, Unsupported):
                raise
            raise _raised(ex, v)

    def truth(self, v):
        b = self.as_bool(v)
        return b if isinstance(b, bool) else cur().branch(b)

    def e_Subscript(self, e, fr):
        base = self.expr(e.value, fr)
        return self.getitem(base, self.index_expr(e.slice, fr))

    def index_expr(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(
                self.expr(s.lower, fr) if s.lower is not None else None,
                self.expr(s.upper, fr) if s.upper is not None else None,
                self.expr(s.step, fr) if s.step is not None else None,
            )
        return self.expr(s, fr)

    def e_Slice(self, e, fr):
        return self.index_expr(e, fr)

    def getitem(self, base, idx):
        if isinstance(base, Havoc) or isinstance(idx, Havoc):
            raise Unsupported("read of loop-carried value")
        if isinstance(base, (list, tuple, SList)):
            if isinstance(idx, slice):
                return S.getslice(base, idx.start, idx.stop, idx.step)
            return S.getitem(base, idx)
        if base is None:
            S.raise_py(TypeError, "'NoneType' object is not subscriptable")
        if isinstance(base, dict) and has_sym(idx):
            keys = list(base.keys())
            for k in keys:
                if self.truth(S.eq(k, idx)):
                    return base[k]
            S.raise_py(KeyError, idx)
        if is_sym(base):
            if isinstance(base, z3.SeqRef) and isinstance(idx, int) and idx >= 0:
                if cur().branch(z3.Length(base) <= idx):
                    S.raise_py(IndexError, "string index out of range")
                return z3.SubString(base, idx, 1)
            if isinstance(base, z3.SeqRef) and isinstance(idx, slice) and idx.step is None:
                st = 0 if idx.start is None else idx.start
                if isinstance(st, int) and st >= 0 and idx.stop is None:
                    return z3.SubString(base, st, z3.Length(base))
            raise Unsupported("subscript of a scalar term")
        m = self._user_method(base, "__getitem__")
        if m is not None:
            return self.call(m, [idx], {})
        try:
            return base[idx]
        except Exception as ex:
            if isinstance(ex, Unsupported):
                raise
            raise _raised(ex, base, idx)

    def setitem(self, base, idx, v):
        if isinstance(idx, slice):
            return self.set_slice(base, idx, v)
        if hasattr(type(base), "log_op"):
            base.log_op("store", idx, v)
            return
        if isinstance(base, (list, SList)):
            S.setitem(base, idx, v)
            return
        if isinstance(base, dict) and has_sym(idx):
            raise Unsupported("dict store at symbolic key")
        m = self._user_method(base, "__setitem__")
        if m is not None:
            self.call(m, [idx, v], {})
            return
        try:
            base[idx] = v
        except Exception as ex:
            if isinstance(ex, Unsupported):
                raise
            raise _raised(ex, base, idx, v)

    def e_Attribute(self, e, fr):
        return self.getattr(self.expr(e.value, fr), e.attr)

    def getattr(self, obj, name):
        if name == "__class__":
            c = self.class_of(obj)
            if c is not None:
                return c
        if isinstance(obj, (SList, SSeq)):
            return SListMethod(self, obj, name)
        if isinstance(obj, list) and name in _LIST_METHODS:
            return SListMethod(self, obj, name)
        if is_sym(obj):
            return SymMethod(self, obj, name)
        if isinstance(obj, Havoc):
            raise Unsupported("read of loop-carried value")
        if isinstance(obj, IFunction) and name in obj.attrs:
            return obj.attrs[name]
        # properties of interpreted classes
        for k in type(obj).__mro__:
            d = k.__dict__.get(name)
            if isinstance(d, property):
                if d.fget is not None and self.is_interpretable(d.fget):
                    return self.call(d.fget, [obj], {})
                break
            if d is not None:
                break
        try:
            return getattr(obj, name)
        except Exception as ex:
            if isinstance(ex, Unsupported):
                raise
            raise _raised(ex, obj)

    def setattr(self, obj, name, v):
        if isinstance(obj, IFunction):
            obj.attrs[name] = v
            return
        try:
            setattr(obj, name, v)
        except Exception as ex:
            raise _raised(ex, obj)

    # comprehensions ---------------------------------------------------
    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_SetComp(self, e, fr):
        v = self.comp(e, fr)
        if has_sym(v):
            return SymSet(v)
        return set(v)

    def comp(self, e, fr):
        inner = Frame(fr.globals, fr, fr.fn)
        out = []
        res = self._comp(e.generators, 0, e.elt, inner, out)
        return out if res is None else res

    def _comp(self, gens, i, elt, fr, out):
        if i == len(gens):
            out.append(self.expr(elt, fr))
            return None
        g = gens[i]
        it = self.iterate(self.expr(g.iter, fr))
        if isinstance(it, SSeq):
            u = unique_value(cur(), it.n)
            if u is not None:
                it = [it.f(j) for j in range(max(0, u))]
            elif self.unroll is not None:
                j = 0
                while cur().branch(S.zlt(j, it.n)):
                    if j >= self.unroll:
                        raise Unsupported("loop unrolling bound")
                    self.bounded_loops = True
                    self._comp_one(g, it.f(j), gens, i, elt, fr, out)
                    j += 1
                return None
            else:
                if i != 0 or len(gens) != 1:
                    raise Unsupported("nested symbolic comprehension")
                from . import loops

                return loops.summarise_comp(self, g, it, elt, fr)
        for v in it:
            self._comp_one(g, v, gens, i, elt, fr, out)
        return None

    def _comp_one(self, g, v, gens, i, elt, fr, out):
        self.assign(g.target, v, fr)
        for c in g.ifs:
            if not self.truth(self.expr(c, fr)):
                return
        r = self._comp(gens, i + 1, elt, fr, out)
        if r is not None:
            raise Unsupported("nested symbolic comprehension")

    def e_DictComp(self, e, fr):
        inner = Frame(fr.globals, fr, fr.fn)
        out = []
        if self.dict_comp is not None and len(e.generators) == 1:
            seq = self.iterate(self.expr(e.generators[0].iter, fr))
            if isinstance(seq, SSeq) and unique_value(cur(), seq.n) is None:
                return self.dict_comp(self, e, seq, inner)
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        r = self._comp(e.generators, 0, pair, inner, out)
        if r is not None:
            raise Unsupported("symbolic dict comprehension")
        d = S.SymDict() if any(has_sym(k) for k, _ in out) else {}
        for k, v in out:
            d[k] = v
        return d

    # calls --------------------------------------------------------------
    def e_Call(self, e, fr):
        if (
            isinstance(e.func, ast.Name)
            and e.func.id == "super"
            and not e.args
            and fr.fn is not None
        ):
            self_name = fr.fn.node.args.args[0].arg
            obj = self.load_name(self_name, fr)
            cls = self._owner_class(type(obj), fr.fn)
            return super(cls, obj)
        f = self.expr(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.expr(a.value, fr))
                if isinstance(it, SSeq):
                    args.append(S.Star(S.STuple(it.n, it.f)))
                else:
                    args.extend(it)
            else:
                args.append(self.expr(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.expr(k.value, fr))
            else:
                kwargs[k.arg] = self.expr(k.value, fr)
        self.call_line = e.lineno
        return self.call(f, args, kwargs)

    def _owner_class(self, t, ifn):
        for k in t.__mro__:
            for v in k.__dict__.values():
                fn = getattr(v, "__func__", v)
                if isinstance(fn, types.FunctionType) and fn.__name__ == ifn.__name__:
                    try:
                        if SRC.find(fn) is ifn.node:
                            return k
                    except Exception:
                        pass
        raise Unsupported("super()")

    def call(self, f, args, kwargs):
        h = self.contracts.get(_fid(f))
        if h is not None:
            self.used_contracts.add(getattr(f, "__name__", str(f)))
            return h(self, args, kwargs)
        if isinstance(f, (SListMethod, SymMethod)):
            return f(*args, **kwargs)
        if isinstance(f, IFunction):
            return self.call_ifunction(f, args, kwargs)
        try:
            m = self.builtin_models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kwargs)
        if isinstance(f, types.FunctionType):
            if self.is_interpretable(f):
                self.interpreted.add(f.__qualname__)
                return self.call_ifunction(self.lift(f), args, kwargs)
            w = getattr(f, "__wrapped__", None)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            h = self.contracts.get(_fid(fn))
            if h is not None:
                self.used_contracts.add(fn.__name__)
                return h(self, [f.__self__] + args, kwargs)
            if isinstance(fn, IFunction):
                return self.call_ifunction(fn, [f.__self__] + args, kwargs)
            if self.is_interpretable(fn):
                self.interpreted.add(fn.__qualname__)
                return self.call_ifunction(self.lift(fn), [f.__self__] + args, kwargs)
        if isinstance(f, type):
            init = _find_init(f)
            if init is not None and self.is_interpretable(init):
                try:
                    obj = f.__new__(f)
                except Exception as ex:
                    raise PyRaise(ex)
                self.interpreted.add(init.__qualname__)
                self.call_ifunction(self.lift(init), [obj] + args, kwargs)
                return obj
            if issubclass(f, BaseException):
                return f(*[_opaque(a) for a in args])
        else:
            cm = type(f).__dict__.get("__call__") if not isinstance(
                f, (types.BuiltinFunctionType, types.MethodType, types.FunctionType)
            ) else None
            if isinstance(cm, types.FunctionType) and self.is_interpretable(cm):
                return self.call_ifunction(self.lift(cm), [f] + args, kwargs)
        return self.native_call(f, args, kwargs)

    def native_call(self, f, args, kwargs):
        if self.texts and getattr(f, "__name__", "") == "join" and isinstance(getattr(f, "__self__", None), str) and len(args) == 1:
            xs = self.iterate(args[0])
            if not isinstance(xs, SSeq):
                xs = list(xs)
            if isinstance(xs, SSeq) or any(not isinstance(x, str) for x in xs):
                return T.join(f.__self__, xs)
            args = [xs]
        if any(isinstance(x, S.Star) for x in args):
            raise Unsupported("star-args of symbolic length in a native call")
        if (has_sym(args) or has_sym(kwargs)) and not self.allow_native(f):
            raise Unsupported(
                f"native call {getattr(f, '__qualname__', f)} with symbolic arguments"
            )
        try:
            return f(*args, **kwargs)
        except (Unsupported, PyRaise, PathInfeasible):
            raise
        except z3.Z3Exception as ex:
            raise Unsupported(f"native call on terms: {ex}")
        except Exception as ex:
            raise _raised(ex, f, *args, *kwargs.values())

    def allow_native(self, f):
        if isinstance(getattr(f, "__self__", None), str) and f.__name__ == "format":
            return True
        if f in self.native_ok if _hashable(f) else False:
            return True
        o = getattr(f, "__self__", None)
        if o is not None and isinstance(o, (list, dict, set)) :
            n = f.__name__
            if isinstance(o, list) and n in ("append", "extend", "insert", "clear", "reverse", "copy"):
                return True
            if isinstance(o, dict) and n in ("items", "values", "keys", "update", "copy", "clear"):
                return True
            if isinstance(o, dict) and n in ("get", "setdefault", "pop"):
                return True
        if _marked(f):
            return True
        if o is not None and _marked(o):
            return True
        if isinstance(f, type) and (
            hasattr(f, "__dataclass_fields__") or issubclass(f, tuple)
        ):
            return True
        return False

    # builtins -----------------------------------------------------------
    def _builtins(self):
        B = {
            len: self.b_len,
            range: self.b_range,
            isinstance: self.b_isinstance,
            min: lambda *a, **k: self.b_minmax(True, a, k),
            max: lambda *a, **k: self.b_minmax(False, a, k),
            abs: self.b_abs,
            int: self.b_int,
            float: self.b_float,
            bool: lambda x=False: self.as_bool(x),
            list: lambda x=(): self.to_list(x),
            tuple: self.b_tuple,
            dict: self.b_dict,
            enumerate: self.b_enumerate,
            zip: self.b_zip,
            itertools.zip_longest: self.b_zip_longest,
            reversed: self.b_reversed,
            sum: self.b_sum,
            any: self.b_any,
            all: self.b_all,
            map: self.b_map,
            filter: self.b_filter,
            sorted: self.b_sorted,
            set: self.b_set,
            print: lambda *a, **k: None,
            str: self.b_str,
            repr: self.b_repr,
            math.ceil: S.ceil,
            math.floor: S.floor,
            round: self.b_round,
            type: self.b_type,
            getattr: self.b_getattr,
            hasattr: self.b_hasattr,
            iter: lambda x: iter(_as_native_list(self.iterate(x))),
            next: self.b_next,
            math.prod: self.b_prod,
            divmod: lambda a, b: (self.binop("//", a, b), self.binop("%", a, b)),
            callable: callable,
            id: id,
        }
        return B

    def b_getattr(self, o, n, *d):
        try:
            return self.getattr(o, n)
        except PyRaise as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    def b_hasattr(self, o, n):
        if is_sym(o):
            raise Unsupported("hasattr on a term")
        return hasattr(o, n)

    def b_next(self, it, *d):
        try:
            return next(it, *d)
        except StopIteration as e:
            raise PyRaise(e)
        except TypeError as e:
            if isinstance(it, list):  # generator expressions evaluate to lists
                if it:
                    return it[0]
                if d:
                    return d[0]
                raise PyRaise(StopIteration())
            raise PyRaise(e)

    def b_type(self, x, *r):
        if r:
            return type(x, *r)
        c = self.class_of(x)
        return type(x) if c is None else c

    def b_len(self, x):
        if isinstance(x, (SList, SSeq)):
            return x.n
        if isinstance(x, z3.SeqRef):
            return z3.Length(x)
        if isinstance(x, SymSet):
            return x.size()
        if is_sym(x) or x is None:
            S.raise_py(TypeError, "object has no len()")
        if hasattr(type(x), "_pyvc_len"):
            return x._pyvc_len()
        m = self._user_method(x, "__len__")
        if m is not None:
            return self.call(m, [], {})
        try:
            return len(x)
        except TypeError as e:
            raise PyRaise(e)

    def b_range(self, *a):
        a = [S.to_arith(x) for x in a]
        if not any(is_sym(x) for x in a):
            try:
                return range(*a)
            except Exception as e:
                raise PyRaise(e)
        lo, hi, st = 0, None, 1
        if len(a) == 1:
            hi = a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo, hi, st = a
        if is_sym(st):
            u = unique_value(cur(), st)
            if u is None:
                raise Unsupported("range with symbolic step")
            st = u
        if st == 0:
            S.raise_py(ValueError, "range() arg 3 must not be zero")
        d = S.sub(hi, lo) if st > 0 else S.sub(lo, hi)
        ast_ = abs(st)
        cnt = d if ast_ == 1 else S.norm(S.pure_floordiv(S.add(d, ast_ - 1), ast_))
        if is_sym(cnt) and not cur().entails(cnt >= 0):
            if cur().entails(cnt <= 0):
                cnt = 0
            else:
                cnt = z3.If(cnt > 0, cnt, z3.IntVal(0))
        elif not is_sym(cnt):
            cnt = max(cnt, 0)
        return SSeq(cnt, lambda k: S.add(lo, k if st == 1 else (S.sub(0, k) if st == -1 else S.zterm(k) * st if is_sym(k) else k * st)))

    def class_of(self, x):
        """the class a symbolic value stands for, None for an ordinary object"""
        if type(x) is S.Alt:
            raise Unsupported("class of one of two opaque values")
        if isinstance(x, SList):
            return getattr(x, "_pyvc_class", list)
        if isinstance(x, z3.BoolRef):
            return bool
        if isinstance(x, z3.ArithRef):
            return int if x.is_int() else float
        if isinstance(x, z3.SeqRef):
            return str
        pretend = getattr(type(x), "_pyvc_class", None)
        if pretend is not None:
            return x._pyvc_class() if callable(pretend) else pretend
        return None

    def b_isinstance(self, x, t):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for y in ts:
            if isinstance(y, tuple):
                flat.extend(y)
            elif isinstance(y, types.UnionType):
                flat.extend(y.__args__)
            else:
                flat.append(y)
        if isinstance(x, IFunction):
            return isinstance(lambda: 0, t)
        if type(x) is S.Alt:
            return S.norm(S.ite(x.c, self.b_isinstance(x.a, t), self.b_isinstance(x.b, t)))
        if hasattr(type(x), "_pyvc_isinstance"):
            return x._pyvc_isinstance(flat)
        c = self.class_of(x)
        if c is not None:
            return any(_abc_sub(c, y) for y in flat)
        try:
            return isinstance(x, t)
        except Exception as e:
            raise PyRaise(e)

    def b_minmax(self, is_min, a, k):
        key = k.pop("key", None)
        default = k.pop("default", _MISSING)
        if len(a) == 1:
            it = self.iterate(a[0])
            if isinstance(it, SSeq):
                raise Unsupported("min/max over a symbolic list")
            a = list(it)
            if not a:
                if default is not _MISSING:
                    return default
                S.raise_py(ValueError, "min()/max() arg is an empty sequence")
        if key is not None or not any(is_sym(x) for x in a):
            if any(has_sym(x) for x in a):
                raise Unsupported("min/max with key")
            try:
                kk = {"key": key} if key is not None else {}
                return (min if is_min else max)(a, **kk)
            except Exception as e:
                raise PyRaise(e)
        r = a[0]
        for x in a[1:]:
            c = self.compare(ast.Lt() if is_min else ast.Gt(), x, r)
            r = S.ite(c if isinstance(c, bool) else S.simp_bool(c), x, r)
        return S.norm(r)

    def b_abs(self, x):
        if is_sym(x):
            x = S.to_arith(x)
            return z3.If(x >= 0, x, -x)
        return abs(x)

    def b_int(self, x=0, *base):
        if isinstance(x, z3.SeqRef):
            raise Unsupported("int(str)")
        m = self._user_method(x, "__int__")
        if m is not None:
            return self.call(m, [], {})
        if base:
            try:
                return int(x, *base)
            except Exception as e:
                raise PyRaise(e)
        return S.trunc_int(x)

    def b_float(self, x=0.0):
        if is_sym(x):
            return S.to_real(x)
        try:
            return float(x)
        except Exception as e:
            raise PyRaise(e)

    def b_round(self, x, *a):
        if is_sym(x):
            raise Unsupported("round")
        return round(x, *a)

    def b_tuple(self, x=()):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            return S.STuple(it.n, it.f)
        return tuple(it)

    def b_dict(self, x=(), **k):
        if isinstance(x, dict):
            r = dict(x)
        else:
            r = {}
            it = self.iterate(x) if not hasattr(x, "keys") else None
            if it is None or isinstance(it, SSeq):
                raise Unsupported("dict() of symbolic arguments")
            for kv in it:
                kv = kv if isinstance(kv, (list, tuple)) else self.b_tuple(kv)
                if len(kv) != 2 or has_sym(kv[0]):
                    raise Unsupported("dict() of symbolic arguments")
                r[kv[0]] = kv[1]
        r.update(k)
        return r

    def b_set(self, x=()):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            return SymSet(SList(it.n, it.f))
        it = list(it)
        if has_sym(it):
            return SymSet(it)
        try:
            return set(it)
        except TypeError as e:
            raise PyRaise(e)

    def b_enumerate(self, x, start=0):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            return SSeq(it.n, lambda k: (S.add(k, start), it.f(k)))
        if is_sym(start):
            return [(S.add(start, i), v) for i, v in enumerate(it)]
        return list(enumerate(it, start))

    def b_zip(self, *xs, strict=False):
        its = [x if isinstance(x, itertools.repeat) else self.iterate(x) for x in xs]
        if any(isinstance(i, itertools.repeat) for i in its):
            if strict or any(isinstance(i, SSeq) for i in its) or all(isinstance(i, itertools.repeat) for i in its):
                raise Unsupported("zip of an unbounded iterator")
            return list(zip(*its))
        if not any(isinstance(i, SSeq) for i in its):
            its = [list(i) for i in its]
            if strict and len({len(i) for i in its}) > 1:
                S.raise_py(ValueError, "zip() arguments have different lengths")
            return list(zip(*its))
        its = [
            i if isinstance(i, SSeq) else SSeq(len(i), (lambda L: lambda k: S.pick(L, k))(list(i)))
            for i in its
        ]
        n = its[0].n
        for i in its[1:]:
            a, b = S.zterm(n), S.zterm(i.n)
            if cur().entails(a <= b):
                continue
            if cur().entails(b <= a):
                n = i.n
                continue
            n = z3.If(a <= b, a, b)
        if strict:
            for i in its:
                if not cur().branch(S.zeq(i.n, n)):
                    S.raise_py(ValueError, "zip() lengths")
        return SSeq(n, lambda k: tuple(i.f(k) for i in its))

    def b_zip_longest(self, *xs, fillvalue=None):
        its = [self.iterate(x) for x in xs]
        if not any(isinstance(i, SSeq) for i in its):
            return list(itertools.zip_longest(*map(list, its), fillvalue=fillvalue))
        its = [i if isinstance(i, SSeq) else SSeq(len(i), (lambda L: lambda k: S.pick(L, k))(list(i))) for i in its]
        n = its[0].n
        for i in its[1:]:
            a, b = S.zterm(n), S.zterm(i.n)
            if cur().entails(a >= b):
                continue
            n = i.n if cur().entails(b >= a) else z3.If(a >= b, a, b)
        full = [cur().entails(S.zterm(i.n) == S.zterm(n)) for i in its]
        return SSeq(n, lambda k: tuple(i.f(k) if whole or cur().branch(S.zterm(k) < S.zterm(i.n)) else fillvalue for i, whole in zip(its, full)))

    def b_reversed(self, x):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            n, f = it.n, it.f
            return SSeq(n, lambda k: f(S.sub(S.sub(n, 1), k)))
        return list(reversed(list(it)))

    def b_sum(self, x, start=0):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            from . import loops

            return loops.opaque_fold("sum", it, start)
        r = start
        for v in it:
            r = self.binop("+", r, v)
        return r

    def b_prod(self, x, *, start=1):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            from . import loops

            return loops.opaque_fold("prod", it, start)
        r = start
        for v in it:
            r = self.binop("*", r, v)
        return r

    def b_any(self, x):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            k = z3.Int(cur().fresh("k_any"))
            b = self.as_bool(it.f(k))
            return z3.Exists([k], z3.And(0 <= k, k < S.zterm(it.n), S.zterm(b)))
        out = []
        for v in it:
            b = self.as_bool(v)
            if b is True:
                return True
            out.append(b)
        return S.disj(*out)

    def b_all(self, x):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            k = z3.Int(cur().fresh("k_all"))
            b = self.as_bool(it.f(k))
            return S.forall_range(k, 0, it.n, b)
        out = []
        for v in it:
            b = self.as_bool(v)
            if b is False:
                return False
            out.append(b)
        return S.conj(*out)

    def b_map(self, f, *xs):
        if len(xs) == 1:
            it = self.iterate(xs[0])
            if isinstance(it, SSeq):
                return SSeq(it.n, lambda k: self.call(f, [it.f(k)], {}))
            return [self.call(f, [v], {}) for v in it]
        return [self.call(f, list(t), {}) for t in self.b_zip(*xs)]

    def b_filter(self, f, x):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            raise Unsupported("filter over a symbolic list")
        return [v for v in it if self.truth(v if f is None else self.call(f, [v], {}))]

    def b_sorted(self, x, *, key=None, reverse=False):
        it = self.iterate(x)
        if isinstance(it, SSeq):
            raise Unsupported("sorted over a symbolic list")
        it = list(it)
        keys = [self.call(key, [v], {}) for v in it] if key is not None else it
        if has_sym(keys):
            return self._sym_sort(it, keys, reverse)
        try:
            idx = sorted(range(len(it)), key=lambda i: keys[i], reverse=reverse)
        except Exception as e:
            raise PyRaise(e)
        return [it[i] for i in idx]

    def _sym_sort(self, items, keys, reverse):
        # insertion sort with forks (stable)
        out = []
        for v, k in zip(items, keys):
            j = len(out)
            while j > 0:
                kk = out[j - 1][1]
                lt = self.compare(ast.Lt(), kk, k) if reverse else self.compare(ast.Lt(), k, kk)
                if not self.truth(lt):
                    break
                j -= 1
            out.insert(j, (v, k))
        return [v for v, _ in out]

    def b_str(self, x=""):
        if isinstance(x, z3.SeqRef) or isinstance(x, T.Text):
            return x
        if self.texts and (has_sym(x, 3) or hasattr(x, "_pyvc_text")):
            t = T.of(x)
            if t is None:
                raise Unsupported("text of a symbolic value")
            return t
        if has_sym(x):
            return f"<{x}>"
        m = self._user_method(x, "__str__")
        if m is not None:
            return self.call(m, [], {})
        try:
            return str(x)
        except Exception as e:
            raise PyRaise(e)

    def b_repr(self, x):
        if has_sym(x):
            return f"<{x}>"
        m = self._user_method(x, "__repr__")
        if m is not None:
            return self.call(m, [], {})
        return repr(x)

    # list methods -------------------------------------------------------
    def list_pop(self, x, i=-1):
        if isinstance(x, list) and not is_sym(i):
            try:
                return x.pop(i)
            except IndexError as e:
                raise PyRaise(e)
        if isinstance(x, list):
            j = S.norm_index(len(x), i, "pop index out of range")
            if is_sym(j):
                for c in range(len(x)):
                    if cur().branch(j == c):
                        j = c
                        break
            return x.pop(j)
        if hasattr(type(x), "log_op"):
            raise Unsupported("pop in a summarised loop")
        j = S.norm_index(x.n, i, "pop index out of range")
        n, f = x.n, x.f
        v = f(j)
        x.n = S.sub(n, 1)
        if not cur().entails(S.zeq(j, S.sub(n, 1))):
            x.f = lambda k: S.ite(S.simp_bool(S.zlt(k, j)), f(k), f(S.add(k, 1)))
        return v


class SymSet:
    """set() of values containing terms: membership only (and size by cases)."""

    def __init__(self, items):
        self.items = items

    def size(self):
        if isinstance(self.items, SList):
            raise Unsupported("len of a symbolic set")
        n = 0
        for i, x in enumerate(self.items):
            dup = S.disj(*[S.eq(x, y) for y in self.items[:i]])
            n = S.add(n, S.ite(dup, 0, 1) if is_sym(dup) else (0 if dup else 1))
        return n

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set")


class SymMethod:
    def __init__(self, interp, obj, name):
        self.obj, self.name, self.interp = obj, name, interp

    def __call__(self, *args, **kw):
        o, n = self.obj, self.name
        if isinstance(o, z3.SeqRef):
            zs = lambda s: z3.StringVal(s) if isinstance(s, str) else s
            if n == "startswith":
                if isinstance(args[0], tuple):
                    return z3.Or(*[z3.PrefixOf(zs(a), o) for a in args[0]])
                return z3.PrefixOf(zs(args[0]), o)
            if n == "endswith":
                return z3.SuffixOf(zs(args[0]), o)
            if n == "replace" and len(args) == 2 and False:
                return z3.Replace(o, zs(args[0]), zs(args[1]))
        if isinstance(o, z3.ArithRef) and n == "is_integer":
            return z3.IsInt(o) if o.is_real() else True
        raise Unsupported(f"method {n} of a term")


_LIST_METHODS = {
    "append", "insert", "extend", "pop", "copy", "index", "count", "reverse", "remove",
}


class SListMethod:
    _pyvc_ok = True

    def __init__(self, interp, obj, name):
        self.interp, self.obj, self.name = interp, obj, name

    def __call__(self, *args, **kw):
        o, n, it = self.obj, self.name, self.interp
        if hasattr(type(o), "log_op") and n in ("append", "insert"):
            o.log_op(n, *args)
            return None
        if n == "append":
            if isinstance(o, list):
                o.append(*args)
            else:
                S.append(o, args[0])
            return None
        if n == "insert":
            S.insert(o, args[0], args[1])
            return None
        if n == "extend":
            if isinstance(o, list) and has_sym(args[0], 1) and isinstance(it.to_list(args[0]), SList):
                raise Unsupported("extend of a concrete list by a symbolic one")
            it.list_extend(o, args[0])
            return None
        if n == "pop":
            return it.list_pop(o, *args)
        if n == "copy":
            return o.copy() if isinstance(o, list) else o.copy()
        if n == "reverse":
            if isinstance(o, list):
                o.reverse()
                return None
            m, f = o.n, o.f
            o.f = lambda k: f(S.sub(S.sub(m, 1), k))
            return None
        if isinstance(o, list):
            if n == "index":
                for k, v in enumerate(o):
                    if it.truth(it.compare(ast.Eq(), v, args[0])):
                        return k
                S.raise_py(ValueError, "not in list")
            if n == "count":
                r = 0
                for v in o:
                    c = it.as_bool(it.compare(ast.Eq(), v, args[0]))
                    r = S.add(r, S.ite(c, 1, 0) if is_sym(c) else int(c))
                return r
            if n == "remove":
                for k, v in enumerate(o):
                    if it.truth(it.compare(ast.Eq(), v, args[0])):
                        del o[k]
                        return None
                S.raise_py(ValueError, "list.remove(x): x not in list")
        raise Unsupported(f"list.{n} on a symbolic list")


_MISSING = object()


def _ghost(x):
    m = (x if isinstance(x, (type, types.FunctionType)) else type(x)).__module__ or ""
    if m.startswith("checks.") or m == "pyvc.mlir_rec" or isinstance(x, types.MethodType) and _ghost(x.__self__):
        return True
    return isinstance(x, (list, tuple)) and any(_ghost(y) for y in x)


def _raised(ex, *objs):
    """what an exception out of native code means: the code's own, unless a stand-in
    was asked for something it does not have"""
    if isinstance(ex, (Unsupported, PyRaise, PathInfeasible)):
        return ex
    if type(ex).__name__ == "AbsentNativeCode" or isinstance(ex, (AttributeError, TypeError)) and any(_ghost(x) for x in objs):
        return Unsupported(f"stand-in: {type(ex).__name__}: {ex}"[:200])
    return PyRaise(ex)


def _marked(f):
    # never through a user-defined __getattr__
    if getattr(type(f), "_pyvc_ok", False):
        return True
    if isinstance(f, types.MethodType):
        return _marked(f.__func__) or _marked(f.__self__)
    return isinstance(f, (types.FunctionType, type)) and bool(vars(f).get("_pyvc_ok", False))


def _ops(x):
    return getattr(type(x), "_pyvc_ops", False)


_CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
_CMP_R = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}


def _fid(f):
    return id(f)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _opaque(a):
    return a


def _as_native_list(it):
    if isinstance(it, SSeq):
        raise Unsupported("iter() over a symbolic list")
    return it


def _native_iter(v):
    it = iter(v)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return
        except (Unsupported, PyRaise, PathInfeasible):
            raise
        except Exception as e:
            raise PyRaise(e)
        yield x


def dataclass_like(a):
    return hasattr(type(a), "__dataclass_fields__")


def _abc_sub(c, y):
    try:
        return issubclass(c, y)
    except TypeError:
        return False


def _find_init(cls):
    for k in cls.__mro__:
        f = k.__dict__.get("__init__")
        if f is not None:
            return f if isinstance(f, types.FunctionType) else None
    return None


_PURE = (
    ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Add, ast.Sub, ast.Mult,
    ast.USub, ast.UAdd, ast.Load, ast.Compare, ast.Lt, ast.LtE, ast.Gt, ast.GtE,
    ast.Eq, ast.NotEq, ast.IfExp, ast.Not, ast.BoolOp, ast.And, ast.Or,
)


def _pure(e):
    return all(isinstance(n, _PURE) for n in ast.walk(e))


def _pure_bool(e):
    """Cannot raise and cannot have effects on ints (no `is None` guards)."""
    if not all(
        isinstance(n, _PURE + (ast.Call, ast.Is, ast.IsNot)) for n in ast.walk(e)
    ):
        return False
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance")):
                return False
    return True


def _walk_own(node):
    """walk without entering nested functions"""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.append(c)
