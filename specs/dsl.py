"""Contract language for the shape/dtype contracts.

A contract is a plain python function over the same arguments as the function it
specifies.  It runs on concrete ints/lists (replay, differential validation), on
z3 terms with python lists (bounded mode) and on lists of symbolic length
(unbounded mode).  `REQ` clauses are the precondition, the returned value is the
postcondition's result.
"""
import math

from pyvc.ctx import z3, cur, active, is_sym, PathInfeasible, Unsupported
from pyvc import sval as S
from pyvc import loops as LO
from pyvc.sval import SList


class Invalid(BaseException):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class Mode:
    strict = None  # None: prune invalid inputs; else predicate(label) -> fork
    known = None  # callable(id, cond) for known-finding carve outs
    label_prefix = ""


MODE = Mode()


def sym():
    return active()


def _b(c):
    if isinstance(c, z3.BoolRef):
        return S.simp_bool(c)
    return bool(c)


def REQ(c, label="valid"):
    """Precondition clause. In strict mode its negation is explored as well."""
    c = _b(c)
    if c is True:
        return
    if c is False:
        if sym() and not (MODE.strict and MODE.strict(label)):
            raise PathInfeasible()
        raise Invalid(label)
    if MODE.strict and MODE.strict(label):
        if not cur().branch(c):
            raise Invalid(label)
        return
    cur().assume(c)


def PRE(c, label="domain"):
    """Domain restriction that the function itself need not check."""
    c = _b(c)
    if c is True:
        return
    if c is False:
        if sym():
            raise PathInfeasible()
        raise Invalid("pre:" + label)
    cur().assume(c)


class KnownFailure(BaseException):
    pass


def KNOWN(fid, ok):
    """`ok` excludes exactly the inputs of known finding `fid`."""
    c = _b(ok)
    if MODE.known is not None:
        MODE.known(fid, c)
        return
    if c is True:
        return
    if c is False:
        if sym():
            raise PathInfeasible()
        raise Invalid("known:" + fid)
    cur().assume(c)


def LEN(x):
    return S.length(x)


def AT(x, i):
    """x[i] for 0 <= i < len (unchecked)."""
    if isinstance(x, (list, tuple)) and isinstance(i, int):
        return x[i] if 0 <= i < len(x) else 0
    return S.at(x, i)


def LAST(x, k=1):
    """x[-k]"""
    return AT(x, SUB(LEN(x), k))


def ADD(a, b):
    return S.add(a, b)


def SUB(a, b):
    return S.sub(a, b)


def MUL(*xs):
    r = 1
    for x in xs:
        if not is_sym(r) and r == 1:
            r = x
        elif not is_sym(x) and x == 1:
            pass
        else:
            r = r * x
    return r


def MK(n, f):
    if not is_sym(n):
        return [f(i) for i in range(max(n, 0))]
    u = None
    if sym():
        s = z3.simplify(n)
        if z3.is_int_value(s):
            u = s.as_long()
    if u is not None:
        return [f(i) for i in range(max(u, 0))]
    return SList(n, f)


def CAT(*ls):
    r = ls[0]
    for x in ls[1:]:
        r = S.concat(r, x)
    return r


def SEG(x, a, b):
    """x[a:b] for 0 <= a <= b <= len"""
    return MK(SUB(b, a), lambda i: AT(x, ADD(i, a)))


def COPY(x):
    return MK(LEN(x), lambda i: AT(x, i))


def ITE(c, a, b):
    c = _b(c)
    if c is True:
        return a
    if c is False:
        return b
    return S.ite(c, a, b)


def AND(*cs):
    return S.conj(*[_b(c) for c in cs])


def OR(*cs):
    return S.disj(*[_b(c) for c in cs])


def NOT(c):
    return S.neg(_b(c))


def IMP(a, b):
    return OR(NOT(a), b)


def EQ(a, b):
    return S.eq(a, b)


def NE(a, b):
    return NOT(S.eq(a, b))


def IN(x, vals):
    return OR(*[EQ(x, v) for v in vals])


def BETW(lo, x, hi):
    """lo <= x < hi"""
    return AND(S.zle(lo, x), S.zlt(x, hi))


def ALL(lo, hi, f):
    if not is_sym(lo) and not is_sym(hi):
        return AND(*[f(i) for i in range(lo, hi)])
    k = z3.Int(cur().fresh("q_spec"))
    body = _b(f(k))
    if body is True:
        return True
    return z3.ForAll([k], z3.Implies(z3.And(S.zterm(lo) <= k, k < S.zterm(hi)), S.zterm(body)))


def EX(lo, hi, f):
    return NOT(ALL(lo, hi, lambda i: NOT(f(i))))


def MIN(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return ITE(S.zle(a, b), a, b)


def MAX(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return ITE(S.zle(b, a), a, b)


def ABS(a):
    return abs(a) if not is_sym(a) else ITE(a >= 0, a, -a)


def FDIV(a, b):
    """floor division; the contract guarantees b != 0 by a REQ"""
    return S.pure_floordiv(a, b)


def FMOD(a, b):
    return S.pure_mod(a, b)


def CDIV(a, b):
    return -FDIV(-a, b)


def TRUNC(x):
    return S.trunc_int(x)


def CEIL(x):
    return S.ceil(x)


def RDIV(a, b):
    if not is_sym(a) and not is_sym(b):
        return a / b
    return S.to_real(a) / S.to_real(b)


def PROD(x):
    n = LEN(x)
    if not is_sym(n):
        return MUL(*[AT(x, i) for i in range(n)])
    from pyvc.interp import SSeq

    return LO.opaque_fold("prod", SSeq(n, lambda i: AT(x, i)), 1)


def SUMOF(n, f):
    if not is_sym(n):
        r = 0
        for i in range(n):
            r = r + f(i)
        return r
    from pyvc.interp import SSeq

    return LO.opaque_fold("sum", SSeq(n, f), 0)


def FILTER(n, keep, val):
    """[val(i) for i in range(n) if keep(i)]"""
    if not is_sym(n):
        out = []
        for i in range(n):
            c = _b(keep(i))
            if c if isinstance(c, bool) else cur().branch(c):
                out.append(val(i))
        return out
    k = cur().fresh_int("k_flt")
    return LO.make_filter(
        k, n, lambda j: LO.subst(_b(keep(k)), [(k, S.zterm(j))]) if is_sym(_b(keep(k))) else _b(keep(k)), val
    )


# ---- vocabulary shared by the contracts ------------------------------------
def WRAP(dim, n, label="dim range"):
    """A dimension index of a rank-n tensor; rank 0 is treated as rank 1."""
    m = ITE(EQ(n, 0), 1, n)
    z = EQ(n, 0)
    REQ(OR(NOT(z), AND(S.zle(-1, dim), S.zlt(dim, 1))), label + " (rank 0)")
    REQ(OR(z, AND(S.zle(-n, dim), S.zlt(dim, n))), label)
    if not is_sym(dim) and not is_sym(m):
        return dim if dim >= 0 else dim + m
    c = _b(S.zle(0, dim))
    return ITE(c, dim, ADD(dim, m))


def BDIM(a, b):
    return ITE(EQ(a, 1), b, a)


def RAT(x, n, i):
    """entry i of x right-aligned to rank n, 1 beyond"""
    j = SUB(i, SUB(n, LEN(x)))
    return ITE(S.zle(0, j), AT(x, j), 1)


def BCAST(a, b, label="broadcast"):
    na, nb = LEN(a), LEN(b)
    n = MAX(na, nb)
    REQ(
        ALL(0, n, lambda i: OR(EQ(RAT(a, n, i), RAT(b, n, i)), EQ(RAT(a, n, i), 1), EQ(RAT(b, n, i), 1))),
        label,
    )
    return MK(n, lambda i: BDIM(RAT(a, n, i), RAT(b, n, i)))


def BCASTABLE_TO(a, b):
    """a can be expanded to shape b"""
    na, nb = LEN(a), LEN(b)
    return AND(
        S.zle(na, nb),
        ALL(0, nb, lambda i: OR(EQ(RAT(a, nb, i), AT(b, i)), EQ(RAT(a, nb, i), 1))),
    )


def SAME(a, b):
    return AND(EQ(LEN(a), LEN(b)), ALL(0, LEN(a), lambda i: EQ(AT(a, i), AT(b, i))))
