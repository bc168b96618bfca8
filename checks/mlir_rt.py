"""Assumed contracts of the MLIR interfaces that the extracted C++ calls.

Values, attributes and operations are stand-ins built by a check's scenario; the same
functions serve symbolic terms (under the interpreter) and concrete numbers (replay).
int64_t is a mathematical integer and double a real number; both are stated assumptions.
"""
import fractions
import math
import re

from pyvc import ctx as C, sval as S

z3 = C.z3
is_sym = S.is_sym
NAMES = {}


def rt(f, name=None):
    f._pyvc_ok = True
    NAMES[name or f.__name__] = f
    return f


class Crash(Exception):
    """undefined behaviour or a failed assertion inside the compiler"""


def crash(why):
    raise C.PyRaise(Crash(why)) if C._STACK else Crash(why)


def decide(c):
    """the truth of a condition on this path"""
    if isinstance(c, z3.BoolRef):
        c = S.norm(c)
        if isinstance(c, bool):
            return c
        return C.cur().branch(c)
    return bool(c)


class Uninit:
    _pyvc_ok = True

    def __repr__(self):
        return "uninitialised"


UNINIT = NAMES["UNINIT"] = Uninit()


# ---- types, attributes, values, operations --------------------------------------
class Obj:
    _pyvc_ok = True
    kinds = ()

    def isa(self, k):
        return k in self.kinds

    def _pyvc_bool(self):  # not null
        return True


class Ty(Obj):
    """a type; equal types are equal objects"""

    _pyvc_ops = True

    def __init__(self, kind, kinds=(), **a):
        self.kind, self.kinds, self.a = kind, (kind, "Type") + tuple(kinds), a

    def __eq__(self, o):
        return isinstance(o, Ty) and self.kind == o.kind and self.a == o.a

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"{self.kind}{self.a or ''}"

    def getContext(self):
        return CTX

    def getIntOrFloatBitWidth(self):
        return self.a["width"]

    def isInteger(self, w=None):
        return self.kind == "IntegerType" and (w is None or self.a["width"] == w)

    def isSignlessInteger(self, w=None):
        return self.isInteger(w) and self.a.get("sign") is None

    def isSignedInteger(self, w=None):
        return self.isInteger(w) and self.a.get("sign") == "s"

    def isUnsignedInteger(self, w=None):
        return self.isInteger(w) and self.a.get("sign") == "u"

    def isSigned(self):
        return self.a.get("sign") == "s"

    def isUnsigned(self):
        return self.a.get("sign") == "u"

    def getContainedType(self):
        return self.a["of"]


class Tensor(Ty):
    """a tensor type: sizes is None, or one size per dimension, -1 where it is not known"""

    def __init__(self, sizes, known=None):
        Ty.__init__(self, "ValueTensorType", ("BaseTensorType",))
        self.sizes, self.known = sizes, known

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    def hasSizes(self):
        return self.sizes is not None

    def getSizes(self):
        return self.sizes

    def areAllSizesKnown(self):
        if self.sizes is None:
            return False
        if not isinstance(self.sizes, list):
            raise C.Unsupported("every size of a type of symbolic rank")
        return S.conj(*[S.neg(S.eq(x, -1)) for x in self.sizes])


INT, FLOAT, BOOL, NUMBER, STR, NONE = (Ty(k) for k in ("IntType", "FloatType", "BoolType", "NumberType", "StringType", "NoneType"))
I64, I1, F64 = Ty("IntegerType", width=64), Ty("IntegerType", width=1), Ty("Float64Type", ("FloatType",))
CTX = "context"


class APInt(Obj):
    """the signed value for 64 bits, 0 or 1 for one bit"""

    _pyvc_ops = True

    def __init__(self, v, w):
        self.v, self.w = v, w

    def _other(self, o):
        if isinstance(o, APInt):
            if o.w != self.w:
                crash("APInt of different widths")
            return o.v
        return o

    def _new(self, v):
        return APInt(v, self.w) if self.w == 64 else APInt(S.pure_mod(v, 2) if is_sym(v) else v % 2, self.w)

    def __add__(self, o):
        return self._new(self.v + self._other(o))

    def __sub__(self, o):
        return self._new(self.v - self._other(o))

    def __mul__(self, o):
        return self._new(self.v * self._other(o))

    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return self._new(-self.v)

    def __eq__(self, o):
        return S.eq(self.v, self._other(o))

    def __ne__(self, o):
        return S.neg(S.eq(self.v, self._other(o)))

    def eq(self, o):
        return self == o

    def ne(self, o):
        return self != o

    def slt(self, o):
        return self.sext() < signed(o)

    def sgt(self, o):
        return self.sext() > signed(o)

    def sle(self, o):
        return self.sext() <= signed(o)

    def sge(self, o):
        return self.sext() >= signed(o)

    def sext(self):
        return -self.v if self.w == 1 else self.v

    def srem(self, o):
        return APInt(c_mod(self.sext(), signed(o)), self.w)

    def sdiv(self, o):
        return APInt(c_div(self.sext(), signed(o)), self.w)


def signed(o):
    return o.sext() if isinstance(o, APInt) else o


class Attr(Obj):
    _pyvc_ops = True

    def __init__(self, kind, v, ty=None):
        self.kind, self.v, self.ty = kind, v, ty
        self.kinds = (kind, "Attribute") + (("TypedAttr",) if ty is not None else ())

    def __repr__(self):
        return f"{self.kind}({self.v})"

    def __eq__(self, o):
        if o is None:
            return False
        return isinstance(o, Attr) and o.kind == self.kind and o.ty == self.ty and S.eq(self.v, o.v)

    def __ne__(self, o):
        return S.neg(S.conj(self == o))

    __hash__ = object.__hash__

    def getType(self):
        return self.ty

    def getContext(self):
        return CTX

    def getValue(self):
        return APInt(self.v, self.ty.a["width"]) if self.kind == "IntegerAttr" else self.v

    def getInt(self):
        return m_getSExtValue(self.getValue())

    def getSInt(self):
        return self.getInt()

    def getValueAsDouble(self):
        return self.v


class Value(Obj):
    """an SSA value: its type, what it stands for, and the operation that defines it"""

    kinds = ("Value",)

    def __init__(self, ty, term=None, const=None, op=None, name="%"):
        self.ty, self.term, self.const, self.op, self.name = ty, term, const, op, name
        self.users, self.uses = [], 1

    def __repr__(self):
        return f"{self.name}: {self.ty}"

    def getType(self):
        return self.ty

    def getDefiningOp(self, cls=None):
        if cls is None:
            return self.op
        return self.op if self.op is not None and self.op.isa(cls) else None

    def getUsers(self):
        return list(self.users)

    def hasOneUse(self):
        return self.uses == 1

    def getContext(self):
        return CTX


class Op(Obj):
    """an operation with named operands"""

    def __init__(self, cls, operands, ty=None, names=(), attrs=None, readonly=True):
        self.cls, self.operands, self.ty, self.attrs = cls, list(operands), ty, dict(attrs or {})
        self.kinds = (cls, "Operation") + (("MemoryEffectOpInterface",) if not readonly else ())
        self.names = {accessor(n): i for i, n in enumerate(names)}
        self.readonly, self.nresults = readonly, 1
        self.result = Value(ty, op=self, name=f"%{cls}")

    def __repr__(self):
        return f"{self.cls}({', '.join(map(repr, self.operands))})"

    def __getattr__(self, n):
        if n in ("names", "operands"):
            raise AttributeError(n)
        i = self.names.get(n)
        if i is not None:
            return Getter(self.operands[i])
        if n in self.attrs:
            return Getter(self.attrs[n])
        raise AttributeError(n)

    def getOperand(self, i=0):
        if is_sym(i):
            for k, v in enumerate(self.operands):
                if decide(S.eq(i, k)):
                    return v
            crash("operand out of range")
        if not 0 <= i < len(self.operands):
            crash("operand out of range")
        return self.operands[i]

    def getOperands(self):
        return list(self.operands)

    def getNumOperands(self):
        return len(self.operands)

    def getElements(self):
        return list(self.operands)

    def getType(self):
        return self.ty

    def getResult(self, i=0):
        return self.result

    def getContext(self):
        return CTX

    def getLoc(self):
        return "loc"

    def getUsers(self):
        return self.result.getUsers()

    def hasOneUse(self):
        return self.result.uses == 1

    def hasTrait(self, t):
        return self.readonly

    def hasNoEffect(self):
        return False

    def getNumResults(self):
        return self.nresults

    def use_empty(self):
        return False


def accessor(n):
    return "get" + "".join(p[:1].upper() + p[1:] for p in n.split("_"))


class Getter(Obj):
    def __init__(self, v):
        self.v = v

    def __call__(self):
        return self.v


class Adaptor(Obj):
    """the operands' constant attributes"""

    def __init__(self, op):
        self.op = op

    def __getattr__(self, n):
        if n == "op":
            raise AttributeError(n)
        i = self.op.names.get(n)
        if i is None:
            raise AttributeError(n)
        return Getter(self.op.operands[i].const)

    def getOperands(self):
        return [v.const for v in self.op.operands]


class Rewriter(Obj):
    """records how an operation is replaced"""

    def __init__(self, ops=None):
        self.result, self.erased, self.ops, self.failed = None, [], ops, False

    def replaceOp(self, op, v):
        self.result = (op, v[0] if isinstance(v, list) and len(v) == 1 else v)

    def getType(self, k, *a):
        return Ty(k)

    def replaceAllUsesWith(self, old, new):
        self.result = (old.op if isinstance(old, Value) else old, new)

    def replaceOpWithNewOp(self, cls, op, *a):
        ty = [x for x in a if isinstance(x, Ty)]
        vs = [y for x in a for y in (x if isinstance(x, list) else [x])]
        new = Op(cls, [value_of(x) for x in vs if not isinstance(x, (Ty, str, Attr))], ty[0] if ty else op.ty)
        for x in vs:
            if isinstance(x, Attr):
                new.result.const, new.result.term = x, x.v
        self.result = (op, new.result)
        return new

    def eraseOp(self, op):
        self.erased.append(op)

    def notifyMatchFailure(self, op, why):
        return False

    def getI64IntegerAttr(self, v):
        return Attr("IntegerAttr", v, I64)

    def getContext(self):
        return CTX


class Patterns(Obj):
    def __init__(self):
        self.all = []

    def add(self, f, *a):
        self.all.append(f)


def value_of(x):
    return x.result if isinstance(x, Op) else x


# ---- functions --------------------------------------------------------------------
@rt
def isa(x, *ks):
    if x is None:
        crash("isa of a null value")
    return any(x.isa(k) for k in ks)


@rt
def isa_and_nonnull(x, *ks):
    return x is not None and isa(x, *ks)


NAMES["isa_and_present"] = isa_and_nonnull


@rt
def dyn_cast(x, k):
    return x if isa(x, k) else None


@rt
def dyn_cast_or_null(x, k):
    return x if x is not None and x.isa(k) else None


NAMES["dyn_cast_if_present"] = dyn_cast_or_null


@rt
def cast(x, k):
    if x is None or not x.isa(k):
        crash(f"cast to {k}")
    return x


PATTERNS = {
    "m_TorchConstantInt": (INT, "IntegerAttr"), "m_TorchConstantFloat": (FLOAT, "FloatAttr"), "m_TorchConstantBool": (BOOL, "IntegerAttr"), "m_TorchConstantStr": (STR, "StringAttr"),
}


@rt
def matchPattern(v, pattern, *olds):
    if pattern in PATTERNS:
        ty, kind = PATTERNS[pattern]
        if v.ty == ty and v.const is not None and v.const.isa(kind):
            x = v.const.v
            return (True, S.eq(x, 1) if ty == BOOL and not isinstance(x, bool) else x)
        return (False, olds[0])
    if pattern in ("m_TorchListOfConstantInts", "m_TorchListOfConstantStrs", "m_TorchListOfConstantBools"):
        one = "m_TorchConstant" + pattern[len("m_TorchListOfConstant"):-1]
        op = v.getDefiningOp("PrimListConstructOp")
        if op is None:
            return (False, olds[0])
        rs = [matchPattern(x, one, None) for x in op.operands]
        return (True, [r[1] for r in rs]) if all(r[0] for r in rs) else (False, olds[0])
    if pattern == "m_TorchConstantNone":
        return (v.ty == NONE,)
    raise C.Unsupported(f"pattern {pattern}")


@rt
def conv_int(x):
    if isinstance(x, APInt):
        return m_getSExtValue(x)
    if isinstance(x, Uninit):
        crash("read of an uninitialised variable")
    if isinstance(x, z3.BoolRef):
        return S.to_arith(x)
    if is_sym(x):
        return S.trunc_int(x)
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        crash("conversion of a value that is not finite")
    return int(x)


@rt
def conv_float(x):
    if isinstance(x, Uninit):
        crash("read of an uninitialised variable")
    if is_sym(x):
        return S.to_real(x)
    return float(x)


@rt
def conv_bool(x):
    if x is None:
        return False
    if isinstance(x, bool) or isinstance(x, z3.BoolRef):
        return x
    if S.is_num_like(x):
        return S.neg(S.eq(x, 0))
    return True


def _trunc_div(a, b):
    if not is_sym(a) and not is_sym(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    a, b = S.to_arith(a), S.to_arith(b)
    a, b = (z3.IntVal(x) if isinstance(x, int) else x for x in (a, b))
    # z3's division rounds to make the remainder nonnegative
    return z3.If(a >= 0, a / b, -((-a) / b))


def int_like(x):
    return S.to_arith(x).is_int() if is_sym(x) else isinstance(x, int)


def _fresh_real():
    return z3.Real(C.cur().fresh("quotient")) if hasattr(C.cur(), "fresh") else z3.FreshReal("quotient")


@rt
def c_div(a, b):
    a, b = (x.v if isinstance(x, APInt) else x for x in (a, b))
    if int_like(a) and int_like(b):
        if decide(S.eq(b, 0)):
            crash("integer division by zero")
        return _trunc_div(a, b)
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    if decide(S.eq(b, 0)):
        return z3.FreshReal("quotient")
    return S.to_real(a) / S.to_real(b)


@rt
def c_mod(a, b):
    if decide(S.eq(b, 0)):
        crash("integer division by zero")
    return a - b * _trunc_div(a, b)


SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())


@rt
def sqrt(x):
    if is_sym(x):
        return SQRT(S.to_real(x))
    return math.sqrt(x) if x >= 0 else math.nan


@rt
def pow_(a, b):
    if is_sym(a) or is_sym(b):
        return POW(S.to_real(a), S.to_real(b))
    try:
        r = math.pow(a, b)
    except (ValueError, OverflowError):
        return math.nan
    return r


NAMES["pow"] = pow_


@rt
def floor(x):
    return S.to_real(S.floor(x)) if is_sym(x) else (float(math.floor(x)) if math.isfinite(x) else x)


@rt
def ceil(x):
    return S.to_real(S.ceil(x)) if is_sym(x) else (float(math.ceil(x)) if math.isfinite(x) else x)


@rt
def trunc(x):
    return S.to_real(S.trunc_int(x)) if is_sym(x) else (float(math.trunc(x)) if math.isfinite(x) else x)


@rt
def fmod(a, b):
    if not is_sym(a) and not is_sym(b):
        return math.fmod(a, b) if b != 0 else math.nan
    if decide(S.eq(b, 0)):
        return z3.FreshReal("fmod")
    a, b = S.to_real(a), S.to_real(b)
    return a - b * S.to_real(S.trunc_int(a / b))


def cabs(x):
    return S.ite(x >= 0, x, -x) if is_sym(x) else abs(x)


cabs._pyvc_ok = True
for n in ("abs", "fabs", "llabs"):
    NAMES[n] = cabs


def cmin(a, b):
    return S.ite(b < a, b, a) if is_sym(a) or is_sym(b) else min(a, b)


def cmax(a, b):
    return S.ite(a < b, b, a) if is_sym(a) or is_sym(b) else max(a, b)


cmin._pyvc_ok = cmax._pyvc_ok = True
NAMES["min"], NAMES["max"] = cmin, cmax


class Iter(Obj):
    def __init__(self, xs, i):
        self.xs, self.i = xs, i


class Ref(Obj):
    def __init__(self, v):
        self.v = v


def _extreme(pick):
    def f(a, b=None):
        xs = a.xs if isinstance(a, Iter) else a
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return Ref(r)

    f._pyvc_ok = True
    return f


NAMES["min_element"], NAMES["max_element"] = _extreme(cmin), _extreme(cmax)


@rt
def deref(x):
    if isinstance(x, Ref):
        return x.v
    if x is None:
        crash("null dereference")
    return x


@rt
def each(x):
    return x


@rt
def unpack(x):
    return x


@rt
def zip_(*xs):
    return [tuple(t) for t in zip(*xs)]


@rt
def to_vector(*a):
    return list(a[-1])


NAMES["zip"] = NAMES["zip_equal"] = zip_


@rt
def get(i, x):
    return x[int(i)]


@rt
def new_vector(n=0, v=0):
    if isinstance(n, list):
        return list(n)
    return [v] * n


@rt
def construct(kind, *a):
    if kind == "APInt":
        return APInt(a[1], a[0])
    if kind in ("DenseElementsAttr", "Value", "Attribute", "Type") and not a:
        return None
    raise C.Unsupported(f"a {kind} is built")


@rt
def subscript(x, i):
    if isinstance(x, (list, tuple, S.SList)):
        n = S.length(x)
        if is_sym(i) or is_sym(n):
            if not decide(S.conj(i >= 0, i < n)):
                crash("index out of bounds")
            if isinstance(x, (list, tuple)):
                for k, v in enumerate(x[:-1]):
                    if decide(S.eq(i, k)):
                        return v
                return x[-1]
            return S.at(x, i)
        if not 0 <= i < n:
            crash("index out of bounds")
    return x[i]


@rt
def m_size(x):
    return S.length(x)


@rt
def m_empty(x):
    return len(x) == 0


@rt
def m_back(x):
    return x[-1]


@rt
def m_front(x):
    return x[0]


@rt
def m_begin(x):
    return Iter(x, 0)


@rt
def m_end(x):
    return Iter(x, len(x))


@rt
def m_value(x):
    return deref(x)


@rt
def m_has_value(x):
    return x is not None


@rt
def m_value_or(x, d):
    return d if x is None else x


@rt
def m_reserve(x, n):
    pass


@rt
def m_str(x):
    return x


@rt
def m_getSExtValue(x):
    return x.sext() if isinstance(x, APInt) else x


@rt
def m_getZExtValue(x):
    if isinstance(x, APInt) and x.w == 64 and decide(x.v < 0):
        return x.v + 2**64
    return x.v if isinstance(x, APInt) else x


NAMES["m_getLimitedValue"] = m_getZExtValue


@rt
def m_isNegative(x):
    return m_getSExtValue(x) < 0


@rt
def m_isZero(x):
    return S.eq(m_getSExtValue(x), 0)


@rt
def m_isOne(x):
    return S.eq(m_getZExtValue(x), 1)


@rt
def m_convertToDouble(x):
    return x


@rt
def m_getBitWidth(x):
    return x.w


NAMES["APInt__Rounding__UP"], NAMES["APInt__Rounding__DOWN"], NAMES["APInt__Rounding__TOWARD_ZERO"] = "up", "down", "zero"


@rt
def APIntOps__RoundingSDiv(a, b, how):
    a, b = (x.sext() if isinstance(x, APInt) else x for x in (a, b))
    if decide(S.eq(b, 0)):
        crash("integer division by zero")
    if how == "zero":
        q = _trunc_div(a, b)
    elif how == "down":
        q = S.pure_floordiv(a, b) if is_sym(a) or is_sym(b) else a // b
    else:
        q = -(S.pure_floordiv(-a, b) if is_sym(a) or is_sym(b) else -a // b)
    return APInt(q, 64)


@rt
def IntegerType__get(ctx, w, *sign):
    return Ty("IntegerType", width=w)


NAMES["IntegerType__Signless"] = None


@rt
def Float64Type__get(ctx):
    return F64


@rt
def IntegerAttr__get(ty, v):
    if isinstance(v, APInt):
        if v.w != ty.a["width"]:
            crash("IntegerAttr of another width")
        return Attr("IntegerAttr", v.v, ty)
    if ty.a["width"] == 1:
        v = v if isinstance(v, (bool, z3.BoolRef)) else conv_bool(S.pure_mod(v, 2) if is_sym(v) else v % 2)
        return Attr("IntegerAttr", S.to_arith(v) if is_sym(v) else int(v), ty)
    return Attr("IntegerAttr", conv_int(v), ty)


@rt
def FloatAttr__get(ty, v):
    return Attr("FloatAttr", conv_float(v), ty)


@rt
def ConstantIntOp__create(rewriter, loc, attr):
    v = attr.v if isinstance(attr, Attr) else attr
    r = Op("ConstantIntOp", [], INT)
    r.result.term, r.result.const = v, Attr("IntegerAttr", v, I64)
    return r.result


@rt
def failed(x):
    return x is None or x is False


@rt
def succeeded(x):
    return not failed(x)


NAMES["nullopt"], NAMES["kUnknownSize"] = None, -1


@rt
def ListType__get(t):
    return Ty("ListType", of=t)


@rt
def TensorStaticInfoCastOp__create(rewriter, loc, ty, v):
    r = Op("TensorStaticInfoCastOp", [v], ty)
    r.result.term = v.term
    return r.result


@rt
def success(*a):
    return True


@rt
def failure(*a):
    return False


def all_of(it, a, k):
    xs, f = a
    return all(it.truth(it.call(f, [x], {})) for x in xs)


def any_of(it, a, k):
    xs, f = a
    return any(it.truth(it.call(f, [x], {})) for x in xs)


def native_all_of(xs, f):
    return all(f(x) for x in xs)


def native_any_of(xs, f):
    return any(f(x) for x in xs)


def native_none_of(xs, f):
    return not any(f(x) for x in xs)


NAMES.update({"all_of": native_all_of, "any_of": native_any_of, "none_of": native_none_of})
CONTRACTS = {id(native_all_of): all_of, id(native_any_of): any_of, id(native_none_of): lambda it, a, k: not any_of(it, a, k)}


def ods(text):
    """class -> (PyTorch operator, [(operand, ODS type)], ODS result types) from the operations' definitions"""
    out = {}
    for m in re.finditer(r"^def Torch_(\w+) : Torch_Op<(.*?)^}", text, re.M | re.S):
        body = m.group(2)
        s = re.search(r"Generated op for `([^`:]+::[\w.]+)(?: : ([^`]*))?`", body)
        a = re.search(r"let arguments = \(ins(.*?)\);", body, re.S)
        r = re.search(r"let results = \(outs(.*?)\);", body, re.S)

        def pairs(t):
            return [(n, ty.strip()) for ty, n in re.findall(r"([\w<>:, ]+?):\$(\w+)", t)] if t else []

        out[m.group(1)] = (s.group(1) if s else None, pairs(a.group(1) if a else ""), pairs(r.group(1) if r else ""))
    return out
