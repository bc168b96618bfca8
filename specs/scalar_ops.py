"""What each scalar operator computes, over terms or numbers (PyTorch's own operators are the
oracle these are compared with on every run; see `agreement` in checks/fold_check.py).

class -> (defined(args), value(args)); int is a mathematical integer, float a real number."""
from pyvc import sval as S
from checks import mlir_rt as RT

NOT, AND, EQ = S.neg, S.conj, S.eq


def always(*a):
    return True


def real(x):
    return RT.conv_float(x)


def ite(c, a, b):
    return (a if c else b) if isinstance(c, bool) else S.ite(c, a, b)


def floordiv(a, b):
    return S.pure_floordiv(a, b) if S.is_sym(a) or S.is_sym(b) else a // b


def mod(a, b):
    return a - b * floordiv(a, b)


def nonzero2(a, b):
    return NOT(EQ(b, 0))


def is_int(x):
    return RT.int_like(x)


def both(f):
    """a Scalar operator: integers stay integers"""
    return lambda a, b: f(a, b) if is_int(a) and is_int(b) else f(real(a), real(b))


def range_length(lo, hi, step):
    up = ite(lo < hi, floordiv(hi - lo - 1, step) + 1, 0)
    down = ite(lo > hi, floordiv(lo - hi - 1, -step) + 1, 0)
    return ite(step > 0, up, down)


def any_(xs):
    return S.disj(*xs) if xs else False


def all_(xs):
    return S.conj(*xs) if xs else True


def least(xs):
    r = xs[0]
    for x in xs[1:]:
        r = RT.cmin(r, x)
    return r


def count(xs):
    return len(xs)


OPS = {
    "Aten__RangeLengthOp": (lambda lo, hi, step: NOT(EQ(step, 0)), range_length),
    "Aten__DeriveIndexOp": (always, lambda i, start, step: start + i * step),
    "Aten__Not__Op": (always, lambda a: NOT(a)),
    "Aten__Or__BoolOp": (always, lambda a, b: S.disj(a, b)),
    "AtenEqBoolOp": (always, lambda a, b: EQ(a, b)),
    "AtenNeBoolOp": (always, lambda a, b: NOT(EQ(a, b))),
    "AtenLtFloatOp": (always, lambda a, b: a < b),
    "AtenGtFloatOp": (always, lambda a, b: a > b),
    "AtenGeFloatOp": (always, lambda a, b: a >= b),
    "AtenEqFloatOp": (always, lambda a, b: EQ(a, b)),
    "AtenNeIntOp": (always, lambda a, b: NOT(EQ(a, b))),
    "AtenEqIntOp": (always, lambda a, b: EQ(a, b)),
    "AtenLtIntOp": (always, lambda a, b: a < b),
    "AtenLeIntOp": (always, lambda a, b: a <= b),
    "AtenGtIntOp": (always, lambda a, b: a > b),
    "AtenGeIntOp": (always, lambda a, b: a >= b),
    "AtenEqStrOp": (always, lambda a, b: EQ(a, b)),
    "AtenNeStrOp": (always, lambda a, b: NOT(EQ(a, b))),
    "AtenBoolFloatOp": (always, lambda a: NOT(EQ(a, 0))),
    "AtenBoolIntOp": (always, lambda a: NOT(EQ(a, 0))),
    "AtenFloatScalarOp": (always, real),
    "AtenIntFloatOp": (always, RT.conv_int),
    "AtenIntScalarOp": (always, RT.conv_int),
    "AtenIntBoolOp": (always, lambda a: ite(a, 1, 0)),
    "AtenFloordivIntOp": (nonzero2, floordiv),
    "AtenRemainderIntOp": (nonzero2, mod),
    "AtenAddIntOp": (always, lambda a, b: a + b),
    "AtenSubIntOp": (always, lambda a, b: a - b),
    "AtenMulIntOp": (always, lambda a, b: a * b),
    "AtenAddFloatOp": (always, lambda a, b: a + b),
    "AtenSubFloatOp": (always, lambda a, b: a - b),
    "AtenMulFloatOp": (always, lambda a, b: a * b),
    "AtenAddOp": (always, both(lambda a, b: a + b)),
    "AtenSubOp": (always, both(lambda a, b: a - b)),
    "AtenMulOp": (always, both(lambda a, b: a * b)),
    "AtenDivOp": (nonzero2, lambda a, b: RT.c_div(real(a), real(b))),
    "AtenDivIntOp": (nonzero2, lambda a, b: RT.c_div(real(a), real(b))),
    "AtenDivFloatOp": (nonzero2, lambda a, b: RT.c_div(a, b)),
    "AtenMulIntFloatOp": (always, lambda a, b: real(a) * b),
    "AtenMulFloatIntOp": (always, lambda a, b: a * real(b)),
    "AtenAddFloatIntOp": (always, lambda a, b: a + real(b)),
    "AtenPowIntFloatOp": (always, lambda a, b: RT.pow_(real(a), b)),
    "AtenCeilScalarOp": (always, lambda a: RT.conv_int(RT.ceil(a))),
    "AtenCeilFloatOp": (always, lambda a: RT.conv_int(RT.ceil(a))),
    "AtenNegIntOp": (always, lambda a: -a),
    "AtenNegFloatOp": (always, lambda a: -a),
    "AtenSqrtIntOp": (lambda a: a >= 0, lambda a: RT.sqrt(real(a))),
    "PrimMaxIntOp": (always, RT.cmax),
    "PrimMinIntOp": (always, RT.cmin),
    "PrimMinSelfIntOp": (lambda xs: len(xs) > 0, least),
    "AtenAnyBoolOp": (always, any_),
    "AtenAllBoolOp": (always, all_),
    "Aten__Contains__IntListOp": (always, lambda xs, a: any_([EQ(x, a) for x in xs])),
    "Aten__Contains__StrListOp": (always, lambda xs, a: any_([EQ(x, a) for x in xs])),
    "AtenLenTOp": (always, count),
    "AtenEqIntListOp": (always, lambda xs, ys: all_([EQ(x, y) for x, y in zip(xs, ys)]) if len(xs) == len(ys) else False),
}
