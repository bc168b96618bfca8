"""PyTorch's type promotion, as contract terms (torch.result_type and its lattice).

Dtypes are ScalarType codes.  `JOIN` is torch.promote_types on the twelve dtypes the
library handles; `RESULT` is the n-ary torch.result_type: the joins over tensors with
dimensions, over zero-dim tensors and over python scalars are combined by category.
Both are compared with the installed PyTorch, exhaustively over their finite domain,
by `validate()` on every run of the checks that use them.
"""
from .dsl import *
from pyvc.ctx import z3, is_sym

U8, I8, I16, I32, I64, F16, F32, F64, C32, C64, C128, BOOL, QINT8, QUINT8, QINT32, BF16 = range(16)
BC32 = 46  # the complex type of bfloat16
DTYPES = (BOOL, U8, I8, I16, I32, I64, F16, BF16, F32, F64, C64, C128)
INTS = (BOOL, U8, I8, I16, I32, I64)
FLOATS = (F16, BF16, F32, F64)
UNDEF = -1

_SIGNED = (I8, I16, I32, I64)


def _join(a, b):
    """the promotion lattice (written out; checked against torch.promote_types)"""
    if a == b:
        return a
    cat = lambda d: 0 if d == BOOL else 1 if d in INTS else 2 if d in FLOATS else 3
    if cat(a) > cat(b):
        a, b = b, a
    ca, cb = cat(a), cat(b)
    if ca == 0:
        return b
    if ca == 1 and cb == 1:
        if U8 in (a, b):
            return {I8: I16}.get(a if b == U8 else b, a if b == U8 else b)
        return max(a, b)
    if ca == 1:
        return b
    if ca == 2 and cb == 2:
        if {a, b} == {F16, BF16}:
            return F32
        if F64 in (a, b):
            return F64
        return F32
    if ca == 2 and cb == 3:
        if b == C32:
            return {F16: C32, BF16: C64, F32: C64, F64: C128}[a]
        return C128 if F64 == a or b == C128 else b
    return max(a, b)


ALLD = DTYPES + (C32,)
TABLE = {(a, b): _join(a, b) for a in ALLD for b in ALLD}


def lookup(x, table, default):
    """nested choice over the codes of x"""
    if not is_sym(x):
        return table.get(x, default)
    by = {}
    for k, v in table.items():
        by.setdefault(v if not is_sym(v) else v.get_id(), (v, []))[1].append(k)
    r = default
    groups = sorted(by.values(), key=lambda g: -len(g[1]))
    r = groups[0][0]
    for v, ks in groups[1:]:
        r = ITE(OR(*[EQ(x, k) for k in ks]), v, r)
    return r


def JOIN(a, b):
    if not is_sym(a) and not is_sym(b):
        if UNDEF in (a, b):
            return b if a == UNDEF else a
        return TABLE[(a, b)]
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if not is_sym(a):
        if a == UNDEF:
            return b
        return ITE(EQ(b, UNDEF), a, lookup(b, {d: TABLE[(a, d)] for d in ALLD}, UNDEF))
    if not is_sym(b):
        return JOIN(b, a)
    rows = {d: JOIN(d, b) for d in ALLD}
    r = rows[C128]
    for d in ALLD[:-1]:
        if d != C128:
            r = ITE(EQ(a, d), rows[d], r)
    r = ITE(EQ(a, C32), rows[C32], r)
    r = ITE(EQ(b, UNDEF), a, r)
    return ITE(EQ(a, UNDEF), b, r)


def INT(d):
    return OR(*[EQ(d, x) for x in INTS])


def FLT(d):
    return OR(*[EQ(d, x) for x in FLOATS])


def CPLX(d):
    return OR(EQ(d, C64), EQ(d, C128))


def _cplx(d):
    return OR(EQ(d, C32), EQ(d, C64), EQ(d, C128), EQ(d, BC32))


def COMPLEX_OF(d):
    return lookup(d, {F16: C32, BF16: BC32, F32: C64, F64: C128}, C64)


def COMBINE(hi, lo):
    """combine_categories"""
    both = ITE(
        OR(EQ(hi, BOOL), FLT(lo), _cplx(lo)),
        JOIN(hi, lo),
        ITE(EQ(hi, UNDEF), lo, hi),
    )
    return ITE(_cplx(hi), hi, ITE(FLT(hi), ITE(_cplx(lo), COMPLEX_OF(hi), hi), both))


class T:
    """a tensor argument"""

    def __init__(self, rank, dt):
        self.rank, self.dt = rank, dt

    def __repr__(self):
        return f"T({self.rank},{self.dt})"


class Num:
    """a python number argument: dt is I64 or F64"""

    rank = None

    def __init__(self, dt):
        self.dt = dt

    def __repr__(self):
        return f"Num({self.dt})"


def RESULT(items):
    """torch.result_type of [(rank or None, dtype)]"""
    if all(r is None for r, d in items):
        # numbers only: the type of the number the operator computes
        res = UNDEF
        for r, d in items:
            res = JOIN(res, d)
        return res
    dim = zero = num = UNDEF
    for r, d in items:
        if r is None:
            num = JOIN(num, lookup(d, {F64: F32, F32: F32, I64: I64, BOOL: BOOL, C128: C64}, d))
            continue
        isdim = S.zlt(0, r)
        dim = ITE(isdim, JOIN(dim, d), dim)
        zero = ITE(isdim, zero, JOIN(zero, d))
    return COMBINE(dim, COMBINE(zero, num))


def PROMOTE(*args):
    return RESULT([(a.rank, a.dt) for a in args])


def torch_dtype(c):
    import torch

    m = {
        U8: torch.uint8, I8: torch.int8, I16: torch.int16, I32: torch.int32, I64: torch.int64,
        F16: torch.float16, F32: torch.float32, F64: torch.float64, C32: torch.complex32,
        C64: torch.complex64, C128: torch.complex128, BOOL: torch.bool, QINT8: torch.qint8,
        QUINT8: torch.quint8, QINT32: torch.qint32, BF16: torch.bfloat16,
    }
    return m.get(c)


_CODE = {}


def code_of(d):
    """ScalarType code of a torch.dtype (ints pass through)"""
    import torch

    if not _CODE:
        for c in range(16):
            t = torch_dtype(c)
            if t is not None:
                _CODE[t] = c
        if hasattr(torch, "bcomplex32"):
            _CODE[torch.bcomplex32] = BC32
    if isinstance(d, torch.dtype):
        return _CODE.get(d, 1000 + hash(str(d)) % 1000)
    return d


def validate():
    """The contract against the installed PyTorch: every pair (and scalar kind), every
    dimension category. Returns (cases, mismatches)."""
    import torch

    n, bad = 0, []
    for (a, b), v in TABLE.items():
        n += 1
        if code_of(torch.promote_types(torch_dtype(a), torch_dtype(b))) != v:
            bad.append(("promote_types", a, b, v))
    for a in DTYPES:
        for ra in (0, 1):
            x = torch.zeros([1] * ra, dtype=torch_dtype(a))
            for b in DTYPES:
                for rb in (0, 1):
                    y = torch.zeros([1] * rb, dtype=torch_dtype(b))
                    n += 1
                    if code_of(torch.result_type(x, y)) != RESULT([(ra, a), (rb, b)]):
                        bad.append(("result_type", ra, a, rb, b))
            for num, c in ((1, I64), (1.0, F64)):
                n += 1
                if code_of(torch.result_type(x, num)) != RESULT([(ra, a), (None, c)]):
                    bad.append(("result_type scalar", ra, a, num))
                if code_of(torch.result_type(num, x)) != RESULT([(None, c), (ra, a)]):
                    bad.append(("result_type scalar", ra, a, num))
    return n, bad
