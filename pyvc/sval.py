"""Symbolic values: z3 Int/Real/Bool terms, lists of symbolic length."""
import math
import operator

from .ctx import z3, cur, is_sym, Unsupported, PyRaise, unique_value, mk_and


def norm(t):
    """Numerals back to python values."""
    if isinstance(t, z3.IntNumRef):
        return t.as_long()
    if isinstance(t, z3.BoolRef):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t


def is_int_like(x):
    return (isinstance(x, int)) or (isinstance(x, z3.ArithRef) and x.is_int())


def is_bool_like(x):
    return isinstance(x, (bool, z3.BoolRef))


def is_num_like(x):
    return isinstance(x, (int, float, z3.ArithRef, z3.BoolRef))


def to_arith(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def to_real(x):
    x = to_arith(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("non-finite float with symbolic arithmetic")
        n, d = x.as_integer_ratio()
        return z3.Q(n, d)
    if x.is_int():
        return z3.ToReal(x)
    return x


def both_int(a, b):
    return is_int_like(a) and is_int_like(b)


def zterm(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return to_real(x)
    return x


def raise_py(cls, *args):
    raise PyRaise(cls(*args))


def floordiv(a, b):
    a, b = to_arith(a), to_arith(b)
    if not is_sym(a) and not is_sym(b):
        try:
            return a // b
        except ZeroDivisionError as e:
            raise PyRaise(e)
    if not both_int(a, b):
        if cur().branch(zterm(b) == 0):
            raise_py(ZeroDivisionError, "float floor division by zero")
        return z3.ToReal(z3.ToInt(to_real(a) / to_real(b)))
    if is_sym(b):
        if cur().branch(b == 0):
            raise_py(ZeroDivisionError, "integer division or modulo by zero")
        return norm(pure_floordiv(a, b))
    if b == 0:
        raise_py(ZeroDivisionError, "integer division or modulo by zero")
    return norm(pure_floordiv(a, b))


def pure_floordiv(a, b):
    """Floor division of terms; meaningful for b != 0 (no branch)."""
    a, b = to_arith(a), to_arith(b)
    if not is_sym(a) and not is_sym(b):
        return a // b if b != 0 else 0
    if isinstance(b, int):
        if b == 1:
            return a
        if b == 0:
            return 0
        if b > 0:
            return zterm(a) / z3.IntVal(b)
        return (-zterm(a)) / z3.IntVal(-b)
    za = zterm(a)
    return z3.If(b > 0, za / b, (-za) / (-b))


def pure_mod(a, b):
    a, b = to_arith(a), to_arith(b)
    if not is_sym(a) and not is_sym(b):
        return a % b if b != 0 else 0
    return norm(zterm(a) - zterm(b) * zterm(pure_floordiv(a, b)))


def mod(a, b):
    a, b = to_arith(a), to_arith(b)
    if not is_sym(a) and not is_sym(b):
        try:
            return a % b
        except ZeroDivisionError as e:
            raise PyRaise(e)
    if not both_int(a, b):
        raise Unsupported("symbolic float modulo")
    if is_sym(b):
        if cur().branch(b == 0):
            raise_py(ZeroDivisionError, "integer modulo by zero")
    elif b == 0:
        raise_py(ZeroDivisionError, "integer modulo by zero")
    if isinstance(b, int) and b > 0:
        return norm(zterm(a) % z3.IntVal(b)) if False else norm(_smtmod(a, b))
    return pure_mod(a, b)


def _smtmod(a, b):
    return z3.ArithRef(
        z3.Z3_mk_mod(a.ctx_ref(), a.as_ast(), z3.IntVal(b).as_ast()), a.ctx
    )


def truediv(a, b):
    a, b = to_arith(a), to_arith(b)
    if not is_sym(a) and not is_sym(b):
        try:
            return a / b
        except ZeroDivisionError as e:
            raise PyRaise(e)
    if cur().branch(zterm(b) == 0):
        raise_py(ZeroDivisionError, "division by zero")
    return to_real(a) / to_real(b)


def trunc_int(x):
    """int(x)"""
    if isinstance(x, z3.BoolRef):
        return to_arith(x)
    if isinstance(x, z3.ArithRef):
        if x.is_int():
            return x
        return norm(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
    try:
        return int(x)
    except (ValueError, TypeError, OverflowError) as e:
        raise PyRaise(e)


def ceil(x):
    if isinstance(x, z3.ArithRef):
        return x if x.is_int() else -z3.ToInt(-x)
    try:
        return math.ceil(x)
    except (ValueError, OverflowError) as e:
        raise PyRaise(e)


def floor(x):
    if isinstance(x, z3.ArithRef):
        return x if x.is_int() else z3.ToInt(x)
    try:
        return math.floor(x)
    except (ValueError, OverflowError) as e:
        raise PyRaise(e)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if type(a) is Alt or type(b) is Alt:
        if getattr(type(a), "_pyvc_alt", False) and getattr(type(b), "_pyvc_alt", False):
            return Alt(c, a, b)
        raise Unsupported("one of two opaque values, or another")
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else z3.Not(c)
    if is_bool_like(a) and is_bool_like(b):
        return z3.If(c, zterm(a), zterm(b))
    if is_num_like(a) and is_num_like(b):
        a, b = to_arith(a), to_arith(b)
        if both_int(a, b):
            if not is_sym(a) and not is_sym(b) and a == b:
                return a
            return z3.If(c, zterm(a), zterm(b))
        return z3.If(c, to_real(a), to_real(b))
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
        a, b = as_slist(a), as_slist(b)
        return SList(ite(c, a.n, b.n), lambda i: ite(c, a.f(i), b.f(i)))
    if hasattr(type(a), "_pyvc_terms") and type(a) is type(b) and getattr(a, "_pyvc_tag", None) is getattr(b, "_pyvc_tag", None):
        return a._pyvc_rebuild([ite(c, x, y) for x, y in zip(a._pyvc_terms(), b._pyvc_terms())])
    if getattr(type(a), "_pyvc_alt", False) and getattr(type(b), "_pyvc_alt", False):
        return Alt(c, a, b)
    if hasattr(type(a), "_pyvc_ite") or hasattr(type(b), "_pyvc_ite"):
        return (a if hasattr(type(a), "_pyvc_ite") else b)._pyvc_ite(c, a, b)
    raise Unsupported(f"ite of {type(a)} / {type(b)}")


class Alt:
    """a if c else b, for opaque objects (classes marked _pyvc_alt): only specifications look inside"""

    _pyvc_alt = True

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def _pyvc_terms(self):
        return [self.c] + [t for x in (self.a, self.b) if hasattr(type(x), "_pyvc_terms") for t in x._pyvc_terms()]

    def _pyvc_rebuild(self, ts):
        ts = list(ts)
        c, parts = ts.pop(0), []
        for x in (self.a, self.b):
            if hasattr(type(x), "_pyvc_terms"):
                k = len(x._pyvc_terms())
                x, ts = x._pyvc_rebuild(ts[:k]), ts[k:]
            parts.append(x)
        return Alt(c, *parts)

    @property
    def _pyvc_tag(self):  # never merged term by term
        return self

    def _no(self, *a):
        raise Unsupported("use of one of two opaque values")

    __eq__ = __ne__ = __bool__ = __hash__ = __len__ = __iter__ = __repr__ = __getitem__ = _no

    def __getattr__(self, n):
        self._no()


def over(test, v):
    """the test of an opaque value, case by case"""
    if type(v) is Alt:
        return conj(z3.Implies(v.c, zterm(over(test, v.a))), z3.Implies(z3.Not(v.c), zterm(over(test, v.b))))
    return test(v)


def conj(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def disj(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


def neg(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


class SList:
    """A python list whose length is a term; elements given by a closure."""

    __slots__ = ("n", "f", "name", "view")

    def __init__(self, n, f, name=None):
        self.n = n
        self.f = f
        self.name = name
        self.view = None

    def copy(self):
        return SList(self.n, self.f)

    def __len__(self):
        u = unique_value(cur(), self.n)
        if u is None:
            raise Unsupported("len() of a symbolic list in native code")
        return u

    def __iter__(self):
        u = unique_value(cur(), self.n)
        if u is None:
            raise Unsupported("native iteration over a list of symbolic length")
        return iter([self.f(i) for i in range(u)])

    def __bool__(self):
        return cur().branch(self.n != 0)

    def __repr__(self):
        return f"SList({self.n})"


class STuple(SList):
    """A python tuple whose length is a term."""

    __slots__ = ()
    _pyvc_class = tuple


class Star:
    """`*seq` as an argument, seq of symbolic length"""

    _pyvc_ok = True

    def __init__(self, seq):
        self.seq = seq



def as_slist(x):
    if isinstance(x, SList):
        return x
    items = list(x)
    return SList(len(items), lambda i: pick(items, i))


def pick(items, i):
    """items[i] for an in-range term i (no bounds check)."""
    if isinstance(i, int):
        return items[i] if 0 <= i < len(items) else _dummy(items)
    if not items:
        return 0
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = ite(i == k, items[k], r)
    return r


def _dummy(items):
    return items[0] if items else 0


def length(x):
    if isinstance(x, SList):
        return x.n
    return len(x)


def at(x, i):
    if isinstance(x, SList):
        return x.f(i)
    return pick(x, i)


def norm_index(n, i, what="list index out of range"):
    """Python index normalisation with bounds check."""
    if isinstance(i, (bool, z3.BoolRef)):
        i = to_arith(i)
    if not is_sym(i) and not is_sym(n):
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise_py(IndexError, what)
        return i
    ctx = cur()
    ok = conj(zle(0, i), zlt(i, n))
    if ctx.branch(ok):
        return i
    okn = conj(zle(-n if not is_sym(n) else -n, i), zlt(i, 0))
    if ctx.branch(okn):
        return norm(z3.simplify(zterm(i) + zterm(n)))
    raise_py(IndexError, what)


def zle(a, b):
    if not is_sym(a) and not is_sym(b):
        return a <= b
    return zterm(a) <= zterm(b)


def zlt(a, b):
    if not is_sym(a) and not is_sym(b):
        return a < b
    return zterm(a) < zterm(b)


def getitem(x, i):
    if isinstance(x, SList):
        return x.f(norm_index(x.n, i))
    if isinstance(x, (list, tuple, str)):
        if is_sym(i):
            j = norm_index(len(x), i)
            if isinstance(j, int):
                return x[j]
            try:
                return pick(x, j)
            except Unsupported:
                for k in range(len(x) - 1):
                    if cur().branch(j == k):
                        return x[k]
                return x[-1]
        try:
            return x[i]
        except (IndexError, TypeError) as e:
            raise PyRaise(e)
    raise Unsupported(f"getitem on {type(x)}")


def setitem(x, i, v):
    if isinstance(x, SList):
        j = norm_index(x.n, i, "list assignment index out of range")
        old = x.f
        x.f = lambda k: ite(zeq(k, j), v, old(k))
        return
    if isinstance(x, list):
        if is_sym(i):
            j = norm_index(len(x), i, "list assignment index out of range")
            if isinstance(j, int):
                x[j] = v
                return
            for k in range(len(x)):
                x[k] = ite(j == k, v, x[k])
            return
        try:
            x[i] = v
        except IndexError as e:
            raise PyRaise(e)
        return
    raise Unsupported(f"setitem on {type(x)}")


def zeq(a, b):
    """Equality of scalar values as a term or bool."""
    if a is b:
        return True
    if not is_sym(a) and not is_sym(b):
        return a == b
    if a is None or b is None:
        return False
    if is_num_like(a) and is_num_like(b):
        if isinstance(a, z3.BoolRef) and is_bool_like(b):
            return a == zterm(b)
        if isinstance(b, z3.BoolRef) and is_bool_like(a):
            return zterm(a) == b
        a, b = to_arith(a), to_arith(b)
        if both_int(a, b):
            return zterm(a) == zterm(b)
        return to_real(a) == to_real(b)
    if isinstance(a, z3.SeqRef) or isinstance(b, z3.SeqRef):
        if isinstance(a, (str, z3.SeqRef)) and isinstance(b, (str, z3.SeqRef)):
            return (z3.StringVal(a) if isinstance(a, str) else a) == (
                z3.StringVal(b) if isinstance(b, str) else b
            )
        return False
    if is_sym(a) and is_sym(b) and a.sort() == b.sort():
        return a == b
    h = EQ_HOOK.get((type(a), type(b)))
    if h:
        return h(a, b)
    return False


EQ_HOOK = {}


def eq(a, b):
    """Python == for program values (may fork for structured values)."""
    if isinstance(a, SList) or isinstance(b, SList):
        if not isinstance(a, (SList, list)) or not isinstance(b, (SList, list)):
            return False
        return list_eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        return conj(*[eq(x, y) for x, y in zip(a, b)])
    if type(a) is Alt:
        return conj(z3.Implies(a.c, zterm(eq(a.a, b))), z3.Implies(z3.Not(a.c), zterm(eq(a.b, b))))
    if type(b) is Alt:
        return eq(b, a)
    if hasattr(type(a), "_pyvc_eq"):
        return a._pyvc_eq(b)
    if hasattr(type(b), "_pyvc_eq"):
        return b._pyvc_eq(a)
    if is_sym(a) or is_sym(b):
        return zeq(a, b)
    r = a == b
    return r


def list_eq(a, b):
    """Equality of (possibly symbolic) lists as a formula."""
    na, nb = length(a), length(b)
    if not is_sym(na) and not is_sym(nb):
        if na != nb:
            return False
        return conj(*[eq(at(a, i), at(b, i)) for i in range(na)])
    ne = zeq(na, nb)
    if not is_sym(na) or not is_sym(nb):
        n = na if not is_sym(na) else nb
        return conj(ne, *[eq(at(a, i), at(b, i)) for i in range(n)])
    k = z3.Int(cur().fresh("k_eq"))
    body = eq(at(a, k), at(b, k))
    return conj(ne, forall_range(k, 0, na, body))


def _mentions(t, k):
    seen, todo = set(), [t]
    kid = k.get_id()
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend(e.children())
    return False


def forall_range(k, lo, hi, body):
    if body is True:
        return True
    rng = z3.And(zterm(lo) <= k, k < zterm(hi))
    if body is False:
        return neg(zterm(lo) < zterm(hi))
    if not _mentions(zterm(body), k):
        return z3.Or(zterm(hi) <= zterm(lo), zterm(body))
    return z3.ForAll([k], z3.Implies(rng, zterm(body)))


def slice_bounds(n, lo, hi):
    """Clamp like list slicing with step 1 -> (start, len)."""

    def clamp(v, default):
        if v is None:
            return default
        if not is_sym(v) and not is_sym(n):
            if v < 0:
                v += n
            return max(0, min(v, n))
        v, m = zterm(v), zterm(n)
        v2 = z3.If(v < 0, v + m, v)
        r = z3.If(v2 < 0, z3.IntVal(0), z3.If(v2 > m, m, v2))
        return norm(z3.simplify(r))

    s, e = clamp(lo, 0), clamp(hi, n)
    if not is_sym(s) and not is_sym(e):
        return s, max(0, e - s)
    s_, e_ = zterm(s), zterm(e)
    ctx = cur()
    if ctx.entails(s_ <= e_):
        ln = e_ - s_
    elif ctx.entails(s_ >= e_):
        ln = 0
    else:
        ln = z3.If(e_ > s_, e_ - s_, z3.IntVal(0))
    if is_sym(s):
        # simplify the clamped start under the path condition
        for cand in (lo, (zterm(n) + zterm(lo)) if lo is not None else None, 0):
            if cand is not None and ctx.entails(zterm(cand) == s_):
                s = cand
                break
    ln = norm(z3.simplify(ln)) if is_sym(ln) else ln
    return s, ln


def getslice(x, lo, hi, step=None):
    if isinstance(step, int) and step == 1:
        step = None
    if step is not None:
        if isinstance(x, SList):
            if step == -1 and lo is None and hi is None:
                n, f = x.n, x.f
                return SList(n, lambda i: f(add(n, add(-1, neg_i(i)))))
            if step == -1 and all(v is None or is_sym(v) or type(v) is int for v in (lo, hi)):
                n, f = zterm(x.n), x.f

                def bound(v):
                    v = zterm(v)
                    v = z3.If(v < 0, v + n, v)
                    return z3.If(v < 0, z3.IntVal(-1), z3.If(v >= n, n - 1, v))

                a = n - 1 if lo is None else bound(lo)
                b = z3.IntVal(-1) if hi is None else bound(hi)
                ln = z3.simplify(z3.If(a > b, a - b, z3.IntVal(0)))
                return SList(norm(ln), lambda i: f(z3.simplify(a - zterm(i))))
            raise Unsupported("slice with step on a symbolic list")
        if is_sym(lo) or is_sym(hi) or is_sym(step):
            raise Unsupported("symbolic slice with step")
        return x[lo:hi:step]
    if not isinstance(x, SList):
        if not is_sym(lo) and not is_sym(hi):
            return x[lo:hi]
        n = len(x)
        if not isinstance(x, list):
            raise Unsupported("symbolic slice of non-list")
        s, ln = slice_bounds(n, lo, hi)
        us, ul = unique_value(cur(), s), unique_value(cur(), ln)
        if us is None:
            for c in range(n + 1):
                if cur().branch(zterm(s) == c):
                    us = c
                    break
        if ul is None:
            for c in range(n + 1):
                if cur().branch(zterm(ln) == c):
                    ul = c
                    break
        return x[us : us + ul]
    s, ln = slice_bounds(x.n, lo, hi)
    f = x.f
    if not is_sym(s) and s == 0:
        return SList(ln, f)
    return SList(ln, lambda i: f(add(i, s)))


def neg_i(i):
    return -i


def add(a, b):
    if not is_sym(a) and not is_sym(b):
        return a + b
    if not is_sym(a) and a == 0:
        return b
    if not is_sym(b) and b == 0:
        return a
    return norm(z3.simplify(zterm(a) + zterm(b)))


def sub(a, b):
    if not is_sym(a) and not is_sym(b):
        return a - b
    if not is_sym(b) and b == 0:
        return a
    return norm(z3.simplify(zterm(a) - zterm(b)))


def concat(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    na, nb = length(a), length(b)
    if not is_sym(na) and na == 0:
        return SList(nb, as_slist(b).f)
    if not is_sym(nb) and nb == 0:
        return SList(na, as_slist(a).f)
    fa, fb = as_slist(a).f, as_slist(b).f
    return SList(
        add(na, nb), lambda i: _cat_at(i, na, fa, fb)
    )


def _cat_at(i, na, fa, fb):
    if not is_sym(i) and not is_sym(na):
        return fa(i) if i < na else fb(i - na)
    return ite(simp_bool(zlt(i, na)), fa(i), fb(sub(i, na)))


def simp_bool(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    return norm(c)


def append(x, v):
    if isinstance(x, list):
        x.append(v)
        return
    n, f = x.n, x.f
    if not is_sym(n) and n == 0:
        x.n, x.f = 1, lambda i: v
        return
    x.f = lambda i: ite(simp_bool(zeq(i, n)), v, f(i)) if is_sym(i) or is_sym(n) else (v if i == n else f(i))
    x.n = add(n, 1)


def insert(x, pos, v):
    if isinstance(x, list) and not is_sym(pos):
        x.insert(pos, v)
        return
    if isinstance(x, list):
        n = len(x)
        s, _ = slice_bounds(n, pos, None)
        for c in range(n + 1):
            if cur().branch(zterm(s) == c):
                x.insert(c, v)
                return
        raise Unsupported("insert")
    n, f = x.n, x.f
    s, _ = slice_bounds(n, pos, None)
    x.f = lambda i: ite(
        simp_bool(zlt(i, s)), f(i), ite(simp_bool(zeq(i, s)), v, f(sub(i, 1)))
    )
    x.n = add(n, 1)


def to_native_term(x):
    return x


class SymDict:
    """a dict display with symbolic keys: pairs in insertion order, keys compared by =="""

    _pyvc_ok = True
    _pyvc_class = dict

    def __init__(self, pairs=()):
        self.kv = []
        for k, v in pairs:
            self[k] = v

    def _find(self, k):
        for i, (q, _) in enumerate(self.kv):
            e = eq(q, k)
            if e if isinstance(e, bool) else cur().branch(zterm(e)):
                return i
        return None

    def __setitem__(self, k, v):
        i = self._find(k)
        if i is None:
            self.kv.append((k, v))
        else:
            self.kv[i] = (self.kv[i][0], v)

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            raise_py(KeyError, "key")
        return self.kv[i][1]

    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.kv[i][1]

    def __contains__(self, k):
        return self._find(k) is not None

    def __len__(self):
        return len(self.kv)

    def keys(self):
        return [k for k, _ in self.kv]

    def values(self):
        return [v for _, v in self.kv]

    def items(self):
        return list(self.kv)

    def __iter__(self):
        return iter(self.keys())

    for _m in (get, keys, values, items):
        _m._pyvc_ok = True
