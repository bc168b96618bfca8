"""Result-shape contracts, one per op: what PyTorch's operator produces.

Written from PyTorch's operator semantics (documentation and observed behaviour of
the operators on meta/cpu tensors), not from the shape functions they judge.
Families: 'elem' element-wise / broadcasting / creation, 'red' reductions,
'view' views, indexing and rearrangement, 'nn' linear algebra, convolution, pooling,
padding, losses.  KNOWN(id, c) excludes the inputs of a recorded finding.
"""
from .dsl import *

SPECS = {}
FAMILY = {}
OPTS = {}


def spec(family, *names, **opts):
    def deco(fn):
        for n in " ".join(names).split():
            assert n not in SPECS, n
            SPECS[n] = fn
            FAMILY[n] = family
            OPTS[n] = opts
        return fn

    return deco


def NONNEG(size):
    PRE(ALL(0, LEN(size), lambda i: S.zle(0, AT(size, i))), "sizes are >= 0")


# ============================================================ element-wise
@spec(
    "elem",
    """aten.triu aten.tril aten.fake_quantize_per_tensor_affine
    aten.fake_quantize_per_tensor_affine.tensor_qparams aten.fake_quantize_per_channel_affine
    aten.rad2deg aten.sin aten.sinh aten.asin aten.asinh aten.cos aten.cosh aten.acos aten.acosh
    aten.tan aten.tanh aten.atan aten.atanh aten.erf aten.sigmoid aten.hardsigmoid aten.softplus
    aten.square aten.hardswish aten.silu aten.exp aten.exp2 aten.expm1 aten.special_expm1
    aten.hardtanh aten.sqrt prims.sqrt aten.neg aten.floor aten.sign aten.sgn aten.detach aten.log2
    aten.log10 aten.log1p aten.logit aten.rsqrt aten.abs aten.absolute aten.reciprocal
    aten.ceil aten.trunc aten.fix aten.log aten.log_sigmoid aten.hardshrink aten.softshrink
    aten.mish aten.relu aten.relu6 aten.round aten.round.decimals aten._safe_softmax
    aten.clamp aten.clamp_min aten.clamp_max aten.rsub.Scalar aten.quantize_per_channel
    aten.quantize_per_tensor aten.dequantize.self aten.dequantize.tensor aten.int_repr
    aten._make_per_channel_quantized_tensor aten._make_per_tensor_quantized_tensor
    prims.convert_element_type aten.to.dtype aten.to.device aten.to.other aten._cast_Float
    aten._cast_Long aten.type_as aten.dropout aten.gelu aten.bucketize.Tensor aten.contiguous
    aten.clone aten.lift_fresh_copy aten.isnan aten.isinf aten.isneginf aten.isposinf
    aten.eq.Scalar aten.ne.Scalar aten.gt.Scalar aten.ge.Scalar aten.le.Scalar aten.lt.Scalar
    aten.add.Scalar aten.sub.Scalar aten.mul.Scalar aten.div.Scalar aten.remainder.Scalar
    aten.__and__.Scalar aten.floor_divide.Scalar aten.pow.Tensor_Scalar aten.leaky_relu aten.elu
    aten.celu aten.rrelu aten.rrelu_with_noise aten.selu aten.zeros_like aten.ones_like
    aten.empty_like aten._to_copy aten.div.Scalar_mode aten.bitwise_and.Scalar aten.bitwise_not
    aten.logical_not aten.threshold aten.nan_to_num aten.real aten.imag aten.deg2rad
    quantized_decomposed.quantize_per_tensor quantized_decomposed.dequantize_per_tensor
    quantized_decomposed.quantize_per_channel quantized_decomposed.dequantize_per_channel
    aten.isfinite aten.to.dtype_layout aten.full_like aten.zero aten.fill.Scalar aten.fill.Tensor
    aten.uniform aten.exponential aten.bernoulli.float aten.bernoulli.p aten.bernoulli
    aten.rand_like aten.randn_like aten.normal_functional aten.frac aten.signbit prims.view_of
    aten._log_softmax aten._softmax aten.log_softmax.int aten.softmax.int
    aten.cumsum aten.cumprod aten.logcumsumexp aten.argsort aten.where.Scalar aten.prelu
    aten.layer_norm aten.rms_norm aten.group_norm aten.instance_norm aten.batch_norm
    aten.renorm aten._log_softmax_backward_data aten.bernoulli.Tensor
    onnx.rotary_embedding
    """,
)
def same_as_first(x, *_):
    return COPY(x)


@spec(
    "elem",
    """aten.tanh_backward aten.sigmoid_backward aten.gelu_backward aten.elu_backward
    aten.leaky_relu_backward aten.hardtanh_backward aten.softplus_backward""",
)
def grad_pointwise(*args):
    t = [x for x in args if isinstance(x, (list, SList))]
    PRE(SAME(t[0], t[1]), "gradient and saved tensor have one shape")
    return COPY(t[0])


@spec("elem", "aten.rrelu_with_noise_backward")
def _(grad, self, noise, *_):
    PRE(AND(SAME(grad, self), SAME(grad, noise)), "one shape")
    return COPY(grad)


@spec("elem", "aten._softmax_backward_data")
def _(grad, output, *_):
    PRE(SAME(grad, output))
    return COPY(output)


@spec("elem", "aten.rrelu_with_noise_functional")
def _(self, noise, *_):
    return COPY(self), COPY(noise)


@spec(
    "elem",
    """aten.fake_quantize_per_tensor_affine_cachemask
    aten._fake_quantize_per_tensor_affine_cachemask_tensor_qparams
    aten.fake_quantize_per_channel_affine_cachemask aten.native_dropout""",
)
def twice_first(x, *_):
    return COPY(x), COPY(x)


@spec("elem", "aten.pow.Scalar")
def _(self, exponent):
    return COPY(exponent)


@spec("elem", "aten.copy")
def _(self, src, *_):
    PRE(BCASTABLE_TO(src, self))
    return COPY(self)


@spec("elem", "aten.masked_scatter")
def _(self, mask, source):
    PRE(BCASTABLE_TO(mask, self), "mask fits self")
    return COPY(self)


@spec("elem", "aten.new_full aten.new_zeros aten.new_ones aten.new_empty aten.new_empty_strided aten.resize_ aten.randint")
def size_arg1(self, size, *_):
    NONNEG(size)
    return COPY(size)


@spec("elem", "aten.as_strided")
def _(self, size, stride, offset):
    NONNEG(size)
    PRE(EQ(LEN(size), LEN(stride)))
    return COPY(size)


@spec("elem", "aten.randint.low")
def _(low, high, size, *_):
    NONNEG(size)
    return COPY(size)


@spec(
    "elem",
    """aten.zeros aten.ones aten.empty.memory_format aten.empty_strided aten.full aten.rand
    aten.randn aten.randn.generator""",
)
def size_arg0(size, *_):
    NONNEG(size)
    return COPY(size)


@spec(
    "elem",
    """aten.ne.Tensor aten.pow.Tensor_Tensor aten.min.other aten.max.other aten.add.Tensor
    aten.sub.Tensor aten.mul.Tensor aten.div.Tensor aten.div.Tensor_mode aten.floor_divide
    aten.atan2 aten.ldexp.Tensor aten.copysign.Tensor aten.__and__.Tensor aten.__or__.Tensor
    aten.minimum aten.maximum aten.fmin aten.fmax aten.bitwise_or.Tensor aten.bitwise_and.Tensor
    aten.bitwise_xor.Tensor aten.bitwise_right_shift.Tensor aten.bitwise_left_shift.Tensor
    aten.logical_or aten.logical_and aten.logical_xor aten.threshold_backward aten.eq.Tensor
    aten.gt.Tensor aten.ge.Tensor aten.lt.Tensor aten.le.Tensor aten.isclose
    aten.where.ScalarOther aten.heaviside aten.lerp.Scalar""",
)
def bcast01(a, b, *_):
    return BCAST(a, b)


def _bcast_or_first(a, b):
    """broadcast; the shape function just returns the first operand's shape"""
    r = BCAST(a, b)
    KNOWN("elementwise-binary-as-unary", BCASTABLE_TO(b, a))
    return r


@spec(
    "elem",
    """aten.remainder.Tensor aten.fmod.Tensor aten.logaddexp aten.logaddexp2 aten.polar
    aten.masked_fill.Scalar aten.clamp_min.Tensor""",
)
def bcast01_known(a, b, *_):
    return _bcast_or_first(a, b)


@spec("elem", "aten.masked_fill.Tensor")
def _(self, mask, value):
    PRE(EQ(LEN(value), 0), "value is 0-d")
    return _bcast_or_first(self, mask)


@spec("elem", "aten.clamp.Tensor")
def _(self, min, max):
    PRE(min is not None or max is not None, "min or max given")
    r = self
    if min is not None:
        r = _bcast_or_first(r, min)
    if max is not None:
        r = _bcast_or_first(r, max)
    return COPY(r)


@spec("elem", "aten.where.ScalarSelf")
def _(condition, self, other):
    return BCAST(condition, other)


@spec("elem", "aten.where.self aten.lerp.Tensor aten.addcmul aten.addcdiv")
def bcast3(a, b, c, *_):
    return BCAST(a, BCAST(b, c))


@spec(
    "elem",
    """prim.NumToTensor.Scalar aten.tensor.float aten.tensor.int aten.tensor.bool aten.scalar_tensor""",
)
def scalar(*_):
    return []


@spec("elem", "aten.hann_window.periodic prims.iota")
def length_arg0(n, *_):
    PRE(S.zle(0, n))
    return [n]


@spec("elem", "aten.linspace")
def _(start, end, steps, *_):
    PRE(S.zle(0, steps))
    return [steps]


@spec("elem", "aten.eye")
def _(n, *_):
    PRE(S.zle(0, n))
    return [n, n]


@spec("elem", "aten.eye.m")
def _(n, m, *_):
    PRE(AND(S.zle(0, n), S.zle(0, m)))
    return [n, m]


@spec("elem", "aten.arange")
def _(end, *_):
    REQ(S.to_real(end) >= 0 if is_sym(end) else end >= 0, "end >= 0")
    return [CEIL(end)]


@spec("elem", "aten.arange.start")
def _(start, end, *_):
    REQ(start <= end, "start <= end")
    KNOWN("arange-start-negative-end", end >= 0)
    return [CEIL(end - start)]


@spec("elem", "aten.arange.start_step")
def _(start, end, step, *_):
    REQ(NE(step, 0), "step != 0")
    if step > 0:
        REQ(start <= end, "range direction")
    else:
        REQ(start >= end, "range direction")
    return [CEIL(RDIV(end - start, step))]


@spec("elem", "aten.triu_indices")
def _(row, col, offset, *_):
    PRE(AND(S.zle(0, row), S.zle(0, col)))
    return [2, SUB(MUL(row, col), _tril_count(row, col, offset - 1))]


@spec("elem", "aten.tril_indices")
def _(row, col, offset, *_):
    PRE(AND(S.zle(0, row), S.zle(0, col)))
    return [2, _tril_count(row, col, offset)]


def _tril_count(row, col, offset):
    """#{(i, j) : j - i <= offset}: row i contributes clip(i + offset + 1, 0, col)"""
    mx = lambda x, y: x if S.zle(y, x) else y
    mn = lambda x, y: x if S.zle(x, y) else y
    a = mn(mx(-offset, 0), row)  # rows [0, a) contribute nothing
    b = mx(mn(mx(col - offset - 1, 0), row), a)  # rows [b, row) contribute col
    if OR(EQ(row, 0), EQ(col, 0)):
        return 0
    # rows [a, b) contribute i + offset + 1: an arithmetic series
    return FDIV((b - a) * (a + b + 2 * offset + 1), 2) + (row - b) * col


# ============================================================ reductions
def _red_pred(n, dims):
    m = ITE(EQ(n, 0), 1, n)
    w = lambda d: ITE(S.zle(0, d), d, ADD(d, m))
    return lambda i: EX(0, LEN(dims), lambda j: EQ(w(AT(dims, j)), i))


def _req_dims(n, dims):
    z = EQ(n, 0)
    REQ(ALL(0, LEN(dims), lambda j: OR(NOT(z), AND(S.zle(-1, AT(dims, j)), S.zlt(AT(dims, j), 1)))), "dim range (rank 0)")
    REQ(ALL(0, LEN(dims), lambda j: OR(z, AND(S.zle(-n, AT(dims, j)), S.zlt(AT(dims, j), n)))), "dim range")


def REDUCE(self, dims, keepdim, none_is_all=True):
    """dims: None/[] mean every dimension"""
    n = LEN(self)
    if dims is None:
        everything = True
    else:
        everything = EQ(LEN(dims), 0)
        if everything if isinstance(everything, bool) else cur().branch(everything):
            everything = True
        else:
            everything = False
    if everything:
        if keepdim:
            return MK(n, lambda i: 1)
        return []
    _req_dims(n, dims)
    red = _red_pred(n, dims)
    if keepdim:
        return MK(n, lambda i: ITE(red(i), 1, AT(self, i)))
    return FILTER(n, lambda i: NOT(red(i)), lambda i: AT(self, i))


def REDUCE1(self, dim, keepdim):
    n = LEN(self)
    if dim is None:
        if keepdim:
            return MK(n, lambda i: 1)
        return []
    w = WRAP(dim, n)
    if keepdim:
        return MK(n, lambda i: ITE(EQ(i, w), 1, AT(self, i)))
    if EQ(n, 0):
        return []
    return DROP(self, w)


def DROP(x, w):
    """x without entry w (0 <= w < len)"""
    return MK(SUB(LEN(x), 1), lambda i: ITE(S.zlt(i, w), AT(x, i), AT(x, ADD(i, 1))))


def PUT(x, w, v):
    return MK(LEN(x), lambda i: ITE(EQ(i, w), v, AT(x, i)))


@spec("red", "aten.any aten.all aten.min aten.max aten.sum aten.prod aten.mean aten.var aten.std")
def full_reduction(*_):
    return []


@spec("red", "aten.var_mean")
def _(*_):
    return [], []


@spec("red", "aten.dot")
def _(self, tensor):
    return []


@spec("red", "aten.var.dim aten.var.correction aten.std.dim aten.std.correction")
def red_013(self, dim, _u, keepdim, *_):
    return REDUCE(self, dim, keepdim)


@spec("red", "aten.var_mean.correction aten.var_mean.dim")
def _(self, dim, _u, keepdim, *_):
    r = REDUCE(self, dim, keepdim)
    return r, r


@spec("red", "aten.any.dims")
def _(self, dim, keepdim):
    if dim is not None:
        # an explicitly empty list of dimensions reduces nothing
        KNOWN("any-dims-empty", S.zlt(0, LEN(dim)))
        if EQ(LEN(dim), 0):
            return COPY(self)
    return REDUCE(self, dim, keepdim)


@spec("red", "aten.amax aten.amin aten.mean.dim aten.sum.dim_IntList aten.frobenius_norm.dim")
def red_012(self, dim, keepdim, *_):
    return REDUCE(self, dim, keepdim)


@spec("red", "prims.sum prims.prod prims.var")
def prims_red(inp, dims, *_):
    # prims name their reduction dimensions explicitly, non-negative and non-empty
    if dims is not None:
        n = LEN(inp)
        PRE(S.zlt(0, LEN(dims)), "some dims")
        PRE(ALL(0, LEN(dims), lambda j: AND(S.zle(0, AT(dims, j)), S.zlt(AT(dims, j), n))))
    return REDUCE(inp, dims, False)


@spec("red", "aten.linalg_vector_norm aten.linalg_norm")
def _(self, ord, dim, keepdim, *_):
    return REDUCE(self, dim, keepdim)


@spec("red", "aten.norm.ScalarOpt_dim")
def _(self, p, dim, keepdim):
    return REDUCE(self, dim, keepdim)


@spec("red", "aten.norm.Scalar")
def _(self, p):
    return []


@spec("red", "aten.prod.dim_int")
def _(self, dim, keepdim, *_):
    return REDUCE1(self, dim, keepdim)


@spec("red", "aten.argmax aten.argmin aten.any.dim aten.all.dim")
def red1(self, dim, keepdim, *_):
    return REDUCE1(self, dim, keepdim)


@spec("red", "aten.max.dim aten.min.dim aten.aminmax")
def red1_pair(self, dim, keepdim):
    r = REDUCE1(self, dim, keepdim)
    return r, r


@spec("red", "aten.kthvalue")
def _(self, k, dim, keepdim):
    w = WRAP(dim, LEN(self))
    PRE(AND(S.zlt(0, k), S.zle(k, ITE(EQ(LEN(self), 0), 1, AT(self, w)))))
    r = REDUCE1(self, dim, keepdim)
    return r, r


@spec("red", "aten.count_nonzero")
def _(self, dim):
    if dim is not None:
        PRE(S.zlt(0, LEN(self)), "rank >= 1")
    return REDUCE1(self, dim, False)


@spec("red", "aten.count_nonzero.dim_IntList")
def _(self, dim):
    PRE(S.zlt(0, LEN(self)), "rank >= 1")
    return REDUCE(self, dim, False)


@spec("red", "aten.trace")
def _(self):
    REQ(EQ(LEN(self), 2), "rank 2")
    return []


@spec("red", "aten.nonzero torchvision.nms aten.bincount aten.masked_select", skip="data-dependent size")
def _(*_):
    raise Unsupported("data dependent")


# ============================================================ views
def NUMEL(x):
    return PROD(x)


@spec("view", "aten.view aten.reshape aten._reshape_alias")
def view_infer(self, size, *_):
    """the entries of size, with one -1 replaced by what makes the element
    count match"""
    n = LEN(size)
    REQ(ALL(0, n, lambda i: S.zle(-1, AT(size, i))), "sizes >= -1")
    numel = NUMEL(self)
    known = PROD(MK(n, lambda i: ITE(EQ(AT(size, i), -1), 1, AT(size, i))))
    hasm1 = EX(0, n, lambda i: EQ(AT(size, i), -1))
    one = (
        ALL(0, n, lambda i: ALL(0, n, lambda j: IMP(AND(EQ(AT(size, i), -1), EQ(AT(size, j), -1)), EQ(i, j))))
    )
    REQ(one, "one -1")
    if hasm1 if isinstance(hasm1, bool) else cur().branch(hasm1):
        REQ(S.zlt(0, known), "-1 is determined")
        REQ(EQ(FMOD(numel, known), 0), "element count")
        return MK(n, lambda i: ITE(EQ(AT(size, i), -1), FDIV(numel, known), AT(size, i)))
    REQ(EQ(numel, known), "element count")
    return COPY(size)


@spec("view", "aten.reshape_as")
def _(self, other):
    REQ(EQ(NUMEL(self), NUMEL(other)), "element count")
    return COPY(other)


@spec("view", "aten._unsafe_view")
def _(self, size):
    NONNEG(size)
    return COPY(size)


@spec("view", "aten.expand_as")
def _(self, other):
    PRE(BCASTABLE_TO(self, other))
    return COPY(other)


@spec("view", "aten.expand aten.broadcast_to")
def expand_(self, sizes, *_):
    """right aligned; -1 keeps the dimension"""
    n, m = LEN(sizes), LEN(self)
    REQ(S.zle(m, n), "rank grows")
    off = SUB(n, m)
    tgt = lambda i: ITE(EQ(AT(sizes, i), -1), RAT(self, n, i), AT(sizes, i))
    REQ(ALL(0, n, lambda i: IMP(EQ(AT(sizes, i), -1), S.zle(off, i))), "-1 names an existing dim")
    PRE(ALL(0, n, lambda i: S.zle(-1, AT(sizes, i))), "sizes >= -1")
    REQ(
        ALL(0, n, lambda i: IMP(S.zle(off, i), OR(EQ(tgt(i), RAT(self, n, i)), EQ(RAT(self, n, i), 1)))),
        "expandable",
    )
    return MK(n, tgt)


@spec("view", "aten.permute")
def _(self, dims):
    n = LEN(self)
    REQ(EQ(LEN(dims), n), "one entry per dim")
    w = lambda d: ITE(S.zle(0, d), d, ADD(d, n))
    REQ(ALL(0, n, lambda i: AND(S.zle(-n, AT(dims, i)), S.zlt(AT(dims, i), n))), "dim range")
    REQ(ALL(0, n, lambda i: ALL(0, n, lambda j: IMP(EQ(w(AT(dims, i)), w(AT(dims, j))), EQ(i, j)))), "distinct")
    return MK(n, lambda i: AT(self, w(AT(dims, i))))


@spec("view", "aten.movedim.int")
def _(self, source, destination):
    """dimension `source` ends up at `destination`, the others keep their order"""
    n = LEN(self)
    s = WRAP(source, n) if not _le1(n) else PREWRAP(source, n)
    d = WRAP(destination, n) if not _le1(n) else PREWRAP(destination, n)
    # position i of the result takes old dim:
    old = lambda i: ITE(
        EQ(i, d),
        s,
        (lambda r: ITE(S.zlt(r, s), r, ADD(r, 1)))(ITE(S.zlt(i, d), i, SUB(i, 1))),
    )
    return MK(n, lambda i: AT(self, old(i)))


def _le1(n):
    c = S.zle(n, 1)
    return c if isinstance(c, bool) else cur().branch(S.simp_bool(c)) if not isinstance(S.simp_bool(c), bool) else S.simp_bool(c)


def PREWRAP(dim, n):
    m = ITE(EQ(n, 0), 1, n)
    PRE(AND(S.zle(-m, dim), S.zlt(dim, m)), "dim range")
    return ITE(S.zle(0, dim), dim, ADD(dim, m))


@spec("view", "aten.transpose.int")
def _(self, dim0, dim1):
    n = LEN(self)
    a, b = WRAP(dim0, n), WRAP(dim1, n)
    return MK(n, lambda i: AT(self, ITE(EQ(i, a), b, ITE(EQ(i, b), a, i))))


@spec("view", "aten.t")
def _(self):
    n = LEN(self)
    PRE(S.zle(n, 2), "rank <= 2")
    KNOWN("t-rank-below-2", EQ(n, 2))
    return MK(n, lambda i: AT(self, SUB(SUB(n, 1), i)))


@spec("view", "aten.numpy_T")
def _(self):
    n = LEN(self)
    return MK(n, lambda i: AT(self, SUB(SUB(n, 1), i)))


@spec("view", "aten.flip")
def _(self, dims):
    PRE(ALL(0, LEN(dims), lambda j: AND(S.zle(-LEN(self), AT(dims, j)), S.zlt(AT(dims, j), LEN(self)))))
    return COPY(self)


@spec("view", "aten.fliplr")
def _(self):
    REQ(S.zle(2, LEN(self)), "rank >= 2")
    return COPY(self)


@spec("view", "aten.flipud")
def _(self):
    REQ(S.zle(1, LEN(self)), "rank >= 1")
    return COPY(self)


@spec("view", "aten.roll")
def _(self, *_):
    return COPY(self)


@spec("view", "aten.rot90")
def _(self, k, dims):
    n = LEN(self)
    REQ(S.zle(2, n), "rank >= 2")
    REQ(EQ(LEN(dims), 2), "two dims")
    d0, d1 = AT(dims, 0), AT(dims, 1)
    a, b = PREWRAP(d0, n), PREWRAP(d1, n)
    PRE(NE(a, b), "distinct dims")
    odd = EQ(FMOD(k, 2), 1)
    return MK(n, lambda i: AT(self, ITE(odd, ITE(EQ(i, a), b, ITE(EQ(i, b), a, i)), i)))


@spec("view", "aten.flatten.using_ints")
def _(self, start_dim, end_dim):
    n = LEN(self)
    s, e = WRAP(start_dim, n), WRAP(end_dim, n)
    REQ(S.zle(s, e), "start <= end")
    if EQ(n, 0):
        return [1]
    if EQ(s, e):
        return COPY(self)
    return _merge(self, s, e)


def _merge(self, s, e):
    """dims s..e (inclusive) become their product"""
    n = LEN(self)
    p = PROD(SEG(self, s, ADD(e, 1)))
    return MK(
        SUB(n, SUB(e, s)),
        lambda i: ITE(S.zlt(i, s), AT(self, i), ITE(EQ(i, s), p, AT(self, ADD(i, SUB(e, s))))),
    )


@spec("view", "prims.collapse")
def _(a, start, end):
    n = LEN(a)
    REQ(AND(S.zle(0, start), S.zlt(start, n)), "start range")
    REQ(AND(S.zle(0, end), S.zlt(end, n)), "end range")
    REQ(S.zle(start, end), "start <= end")
    return _merge(a, start, end)


@spec("view", "prims.split_dim")
def _(a, dim, outer_length):
    n = LEN(a)
    REQ(AND(S.zle(0, dim), S.zlt(dim, n)), "dim range")
    REQ(S.zlt(0, outer_length), "outer_length > 0")
    REQ(EQ(FMOD(AT(a, dim), outer_length), 0), "divisible")
    q = FDIV(AT(a, dim), outer_length)
    return MK(
        ADD(n, 1),
        lambda i: ITE(
            S.zlt(i, dim),
            AT(a, i),
            ITE(EQ(i, dim), outer_length, ITE(EQ(i, ADD(dim, 1)), q, AT(a, SUB(i, 1)))),
        ),
    )


@spec("view", "aten.unflatten.int")
def _(self, dim, sizes):
    n = LEN(self)
    PRE(S.zlt(0, n), "rank >= 1")
    w = PREWRAP(dim, n)
    PRE(S.zlt(0, LEN(sizes)), "sizes non-empty")
    new = view_infer([AT(self, w)], sizes)
    return CAT(SEG(self, 0, w), new, SEG(self, ADD(w, 1), n))


@spec("view", "aten.unsqueeze")
def _(self, dim):
    n = LEN(self)
    w = WRAP(dim, ADD(n, 1))
    return MK(
        ADD(n, 1),
        lambda i: ITE(S.zlt(i, w), AT(self, i), ITE(EQ(i, w), 1, AT(self, SUB(i, 1)))),
    )


@spec("view", "aten.squeeze")
def _(self):
    return FILTER(LEN(self), lambda i: NE(AT(self, i), 1), lambda i: AT(self, i))


@spec("view", "aten.squeeze.dim")
def _(self, dim):
    n = LEN(self)
    w = WRAP(dim, n)
    if EQ(n, 0):
        return []
    if EQ(AT(self, w), 1):
        return DROP(self, w)
    return COPY(self)


@spec("view", "prims.squeeze")
def _(a, dimensions):
    n = LEN(a)
    PRE(S.zlt(0, n), "rank >= 1")
    PRE(
        ALL(0, LEN(dimensions), lambda j: AND(S.zle(0, AT(dimensions, j)), S.zlt(AT(dimensions, j), n))),
        "canonical dims",
    )
    hit = lambda i: EX(0, LEN(dimensions), lambda j: EQ(AT(dimensions, j), i))
    return FILTER(n, lambda i: NOT(AND(EQ(AT(a, i), 1), hit(i))), lambda i: AT(a, i))


@spec("view", "aten._shape_as_tensor")
def _(self):
    return [LEN(self)]


@spec("view", "aten.diagonal")
def _(self, offset, dim1, dim2):
    n = LEN(self)
    REQ(S.zle(2, n), "rank >= 2")
    a, b = WRAP(dim1, n), WRAP(dim2, n)
    REQ(NE(a, b), "distinct dims")
    A, B = AT(self, a), AT(self, b)
    size = MAX(0, ITE(S.zle(0, offset), MIN(A, SUB(B, offset)), MIN(ADD(A, offset), B)))
    lo, hi = MIN(a, b), MAX(a, b)
    rest = DROP(DROP(self, hi), lo)
    return CAT(rest, [size])


@spec("view", "aten.diag")
def _(self, diagonal):
    n = LEN(self)
    REQ(IN(n, [1, 2]), "rank 1 or 2")
    if EQ(n, 1):
        m = ADD(AT(self, 0), ABS(diagonal))
        return [m, m]
    A, B = AT(self, 0), AT(self, 1)
    return [MAX(0, ITE(S.zle(0, diagonal), MIN(A, SUB(B, diagonal)), MIN(ADD(A, diagonal), B)))]


@spec("view", "aten.diag_embed")
def _(self, offset, dim1, dim2):
    n = LEN(self)
    PRE(S.zle(1, n), "rank >= 1")
    m = ADD(n, 1)
    a, b = WRAP(dim1, m), WRAP(dim2, m)
    REQ(NE(a, b), "distinct dims")
    e = ADD(LAST(self), ABS(offset))
    lo, hi = MIN(a, b), MAX(a, b)
    return MK(
        m,
        lambda i: ITE(
            OR(EQ(i, lo), EQ(i, hi)),
            e,
            AT(self, ITE(S.zlt(i, lo), i, ITE(S.zlt(i, hi), SUB(i, 1), SUB(i, 2)))),
        ),
    )


@spec("view", "aten.slice.Tensor")
def _(self, dim, start, end, step):
    n = LEN(self)
    REQ(S.zlt(0, n), "rank >= 1")
    w = WRAP(dim, n)
    PRE(S.zlt(0, step), "step > 0")  # PyTorch rejects other steps
    d = AT(self, w)
    clip = lambda v: MIN(MAX(ITE(S.zlt(v, 0), ADD(v, d), v), 0), d)
    s = 0 if start is None else clip(start)
    e = d if end is None else clip(end)
    PRE(S.zle(d, 2**62))
    if start is not None:
        PRE(S.zlt(start, 2**63 - 1), "start is not the int64 maximum")
    ln = MAX(0, SUB(e, s))
    return PUT(self, w, FDIV(ln + step - 1, step))


@spec("view", "aten.narrow")
def _(self, dim, start, length):
    n = LEN(self)
    PRE(S.zlt(0, n), "rank >= 1")
    w = WRAP(dim, n)
    d = AT(self, w)
    PRE(S.zle(0, length))
    PRE(AND(S.zle(-d, start), S.zle(start, d)))
    s = ITE(S.zlt(start, 0), ADD(start, d), start)
    PRE(S.zle(ADD(s, length), d))
    PRE(S.zle(d, 2**62))
    KNOWN("narrow-negative-start-to-end", OR(S.zle(0, start), S.zlt(ADD(start, length), 0)))
    return PUT(self, w, length)


@spec("view", "aten.narrow.Tensor")
def _(self, dim, start, length):
    n = LEN(self)
    PRE(S.zlt(0, n), "rank >= 1")
    w = PREWRAP(dim, n)
    PRE(AND(S.zle(0, length), S.zle(length, AT(self, w))))
    return PUT(self, w, length)


@spec("view", "aten.select.int")
def _(self, dim, index):
    n = LEN(self)
    REQ(S.zlt(0, n), "rank >= 1")
    w = WRAP(dim, n)
    d = AT(self, w)
    REQ(AND(S.zle(-d, index), S.zlt(index, d)), "index range")
    return DROP(self, w)


@spec("view", "aten.index_select")
def _(self, dim, index):
    n = LEN(self)
    w = WRAP(dim, n)
    REQ(S.zle(LEN(index), 1), "index is 0-d or 1-d")
    if EQ(n, 0):
        PRE(EQ(PROD(index), 1), "one index for a scalar")
        return []
    return PUT(self, w, ITE(EQ(LEN(index), 0), 1, AT(index, 0)))


@spec("view", "aten.gather")
def _(self, dim, index, *_):
    return COPY(index)


@spec(
    "view",
    """aten.scatter.src aten.scatter.value aten.scatter_add aten.scatter_reduce.two aten.slice_scatter
    aten.select_scatter aten.index_put aten.index_put.hacked_twin aten._index_put_impl""",
)
def into_self(self, *_):
    return COPY(self)


@spec("view", "aten.topk")
def _(self, k, dim, *_):
    n = LEN(self)
    w = PREWRAP(dim, n)
    if EQ(n, 0):
        PRE(EQ(k, 1))
        return [], []
    PRE(S.zle(0, k))
    REQ(S.zle(k, AT(self, w)), "k fits")
    r = PUT(self, w, k)
    return r, r


@spec("view", "aten.sort")
def _(self, *_):
    return COPY(self), COPY(self)


@spec("view", "aten.unfold")
def _(self, dimension, size, step):
    n = LEN(self)
    PRE(S.zlt(0, step), "step > 0")
    PRE(S.zle(0, size), "size >= 0")
    if EQ(n, 0):
        PRE(IN(dimension, [0, -1]))
        KNOWN("unfold-scalar-negative-dim", EQ(dimension, 0))
        REQ(S.zle(size, 1), "size fits")
        return [size]
    w = WRAP(dimension, n)
    REQ(S.zle(size, AT(self, w)), "size fits")
    q = ADD(FDIV(AT(self, w) - size, step), 1)
    return CAT(PUT(self, w, q), [size])


@spec("view", "aten.repeat")
def _(self, repeats):
    n, m = LEN(repeats), LEN(self)
    REQ(S.zle(m, n), "one repeat per dim")
    PRE(ALL(0, n, lambda i: S.zle(0, AT(repeats, i))))
    return MK(n, lambda i: AT(repeats, i) * RAT(self, n, i))


@spec("view", "aten.tile")
def _(self, dims):
    r, m = LEN(dims), LEN(self)
    PRE(ALL(0, r, lambda i: S.zle(0, AT(dims, i))))
    n = MAX(r, m)
    return MK(n, lambda i: RAT(dims, n, i) * RAT(self, n, i))


@spec("view", "aten.repeat_interleave.self_int")
def _(self, repeats, dim, output_size):
    PRE(S.zle(0, repeats))
    n = LEN(self)
    if dim is None:
        return [MUL(PROD(self), repeats)]
    w = PREWRAP(dim, n)
    PRE(S.zlt(0, n), "rank >= 1")
    KNOWN("repeat-interleave-last-dim-negative", NE(dim, -1))
    return PUT(self, w, AT(self, w) * repeats)


@spec("view", "aten.repeat_interleave.Tensor")
def _(repeats, output_size):
    REQ(output_size is not None, "output size given")
    return [output_size]


@spec("view", "aten.one_hot")
def _(self, num_classes):
    REQ(NE(num_classes, -1), "num_classes known")
    PRE(S.zle(0, num_classes))
    return CAT(COPY(self), [num_classes])


@spec("view", "aten.nonzero_static")
def _(self, size, fill_value):
    PRE(S.zle(0, size))
    return [size, LEN(self)]


@spec("view", "aten.atleast_1d")
def _(self):
    if EQ(LEN(self), 0):
        return [1]
    return COPY(self)


@spec("view", "aten.atleast_2d")
def _(self):
    n = LEN(self)
    if EQ(n, 0):
        return [1, 1]
    if EQ(n, 1):
        return [1, AT(self, 0)]
    return COPY(self)


@spec("view", "aten.view_as_real")
def _(self):
    return CAT(COPY(self), [2])


@spec("view", "aten.view_as_complex")
def _(self):
    n = LEN(self)
    PRE(S.zlt(0, n), "rank >= 1")
    PRE(EQ(LAST(self), 2))
    return SEG(self, 0, SUB(n, 1))


@spec("view", "aten.pixel_shuffle")
def _(self, r):
    n = LEN(self)
    REQ(S.zle(3, n), "rank >= 3")
    PRE(S.zlt(0, r))
    c, h, w = LAST(self, 3), LAST(self, 2), LAST(self)
    REQ(EQ(FMOD(c, r * r), 0), "channels divisible")
    return CAT(SEG(self, 0, SUB(n, 3)), [FDIV(c, r * r), h * r, w * r])


@spec("view", "aten.pixel_unshuffle")
def _(self, r):
    n = LEN(self)
    REQ(S.zle(3, n), "rank >= 3")
    PRE(S.zlt(0, r))
    c, h, w = LAST(self, 3), LAST(self, 2), LAST(self)
    REQ(EQ(FMOD(h, r), 0), "height divisible")
    REQ(EQ(FMOD(w, r), 0), "width divisible")
    return CAT(SEG(self, 0, SUB(n, 3)), [c * (r * r), FDIV(h, r), FDIV(w, r)])


@spec("view", "aten.channel_shuffle")
def _(self, groups):
    REQ(S.zle(3, LEN(self)), "rank >= 3")
    return COPY(self)


@spec("view", "aten.glu")
def _(self, dim):
    n = LEN(self)
    PRE(S.zlt(0, n), "rank >= 1")
    w = PREWRAP(dim, n)
    REQ(EQ(FMOD(AT(self, w), 2), 0), "even")
    return PUT(self, w, FDIV(AT(self, w), 2))


# ---- lists of tensors (bounded number of operands)
def _cat(tensors, dim, label=""):
    skip = [AND(EQ(LEN(t), 1), EQ(AT(t, 0), 0)) for t in tensors]
    ref = None
    total = 0
    w = None
    REQ(S.zlt(0, LEN(tensors)), "some tensor")
    for t in tensors:
        REQ(S.zlt(0, LEN(t)), "no 0-d operand")
    for t, s in zip(tensors, skip):
        if s if isinstance(s, bool) else cur().branch(S.simp_bool(s)) if not isinstance(S.simp_bool(s), bool) else S.simp_bool(s):
            continue
        if ref is None:
            ref = t
            w = WRAP(dim, LEN(t))
        else:
            REQ(EQ(LEN(t), LEN(ref)), "equal ranks")
            REQ(
                ALL(0, LEN(ref), lambda i, t=t: OR(EQ(i, w), EQ(AT(t, i), AT(ref, i)))),
                "equal sizes off dim",
            )
        total = ADD(total, AT(t, w))
    if ref is None:
        PRE(AND(S.zle(-1, dim), S.zle(dim, 0)))
        return [0]
    return PUT(ref, w, total)


@spec("view", "aten.cat")
def cat(tensors, dim):
    return _cat(tensors, dim)


@spec("view", "aten.stack")
def _(tensors, dim):
    REQ(S.zlt(0, LEN(tensors)), "some tensor")
    t0 = tensors[0]
    for t in tensors[1:]:
        PRE(EQ(LEN(t), LEN(t0)), "equal ranks")
    for t in tensors[1:]:
        REQ(SAME(t, t0), "equal shapes")
    w = WRAP(dim, ADD(LEN(t0), 1))
    n = LEN(t0)
    return MK(
        ADD(n, 1),
        lambda i: ITE(S.zlt(i, w), AT(t0, i), ITE(EQ(i, w), LEN(tensors), AT(t0, SUB(i, 1)))),
    )


@spec("view", "aten.hstack")
def _(tensors):
    PRE(S.zlt(0, LEN(tensors)))
    ts = [[1] if LEN(t) == 0 else t for t in tensors]
    return _cat(ts, 0 if LEN(ts[0]) == 1 else 1)


@spec("view", "aten.column_stack")
def _(tensors):
    PRE(S.zlt(0, LEN(tensors)))
    ts = [[1, 1] if LEN(t) == 0 else [AT(t, 0), 1] if LEN(t) == 1 else t for t in tensors]
    return _cat(ts, 1)


@spec("view", "aten.broadcast_tensors")
def _(tensors):
    PRE(S.zlt(0, LEN(tensors)))
    r = tensors[0]
    for t in tensors[1:]:
        r = BCAST(r, t)
    return [r] * len(tensors)


def _index(self, indices):
    """advanced indexing by integer index tensors"""
    n = LEN(self)
    REQ(S.zle(LEN(indices), n), "too many indices")
    b = []
    used = [k for k, ix in enumerate(indices) if ix is not None]
    for k in used:
        b = BCAST(b, indices[k])
    PRE(len(used) > 0, "an index tensor")
    rest = [k for k in range(len(indices)) if indices[k] is None]
    tail = SEG(self, len(indices), n)
    together = used[-1] - used[0] == len(used) - 1
    if together:
        return CAT(SEG(self, 0, used[0]), b, SEG(self, used[-1] + 1, len(indices)), tail)
    return CAT(b, [AT(self, k) for k in rest], tail)


@spec("view", "aten.index.Tensor")
def _(self, indices):
    return _index(self, indices)


@spec("view", "aten.index.Tensor_hacked_twin")
def _(self, indices):
    return _index(self, indices)


# ============================================================ linear algebra, nn
@spec("nn", "aten.mm aten._scaled_mm aten._int_mm aten._scaled_mm_v2")
def mm(self, mat2, *_):
    REQ(AND(EQ(LEN(self), 2), EQ(LEN(mat2), 2)), "matrices")
    REQ(EQ(AT(self, 1), AT(mat2, 0)), "inner dims")
    return [AT(self, 0), AT(mat2, 1)]


@spec("nn", "aten.bmm")
def bmm(self, mat2):
    REQ(AND(EQ(LEN(self), 3), EQ(LEN(mat2), 3)), "3-d")
    REQ(EQ(AT(self, 0), AT(mat2, 0)), "batch dims")
    REQ(EQ(AT(self, 2), AT(mat2, 1)), "inner dims")
    return [AT(self, 0), AT(self, 1), AT(mat2, 2)]


@spec("nn", "aten.baddbmm")
def _(self, batch1, batch2, *_):
    r = bmm(batch1, batch2)
    PRE(BCASTABLE_TO(self, r), "self expands to the product")
    return r


@spec("nn", "aten.addbmm")
def _(self, batch1, batch2, *_):
    b = bmm(batch1, batch2)
    r = [b[1], b[2]]
    REQ(BCASTABLE_TO(self, r), "self expands to the product")
    return r


@spec("nn", "aten.addmm")
def _(self, mat1, mat2, *_):
    r = mm(mat1, mat2)
    PRE(BCASTABLE_TO(self, r), "self expands to the product")
    return r


@spec("nn", "aten.mv")
def _(self, vec):
    REQ(AND(EQ(LEN(self), 2), EQ(LEN(vec), 1)), "matrix and vector")
    REQ(EQ(AT(self, 1), AT(vec, 0)), "inner dims")
    return [AT(self, 0)]


@spec("nn", "aten.outer")
def _(self, vec2):
    PRE(AND(EQ(LEN(self), 1), EQ(LEN(vec2), 1)))
    return [AT(self, 0), AT(vec2, 0)]


def _matmul(a, b, label="inner dims", check_batch=True):
    na, nb = LEN(a), LEN(b)
    REQ(AND(S.zle(1, na), S.zle(1, nb)), "rank >= 1")
    inner_a = LAST(a)
    if EQ(nb, 1):
        inner_b = AT(b, 0)
    else:
        inner_b = LAST(b, 2)
    small = AND(S.zle(na, 2), S.zle(nb, 2))
    if small if isinstance(small, bool) else cur().branch(small):
        REQ(EQ(inner_a, inner_b), label)
    else:
        PRE(EQ(inner_a, inner_b), label)
    ba = SEG(a, 0, SUB(na, 2)) if not EQ(na, 1) else []
    bb = SEG(b, 0, SUB(nb, 2)) if not EQ(nb, 1) else []
    r = BCAST(ba, bb, "batch dims")
    if not EQ(na, 1):
        r = CAT(r, [LAST(a, 2)])
    if not EQ(nb, 1):
        r = CAT(r, [LAST(b)])
    return r


@spec("nn", "aten.matmul")
def _(self, other):
    return _matmul(self, other)


@spec("nn", "aten.linear")
def _(input, weight, bias):
    """input @ weight^T + bias"""
    PRE(EQ(LEN(weight), 2), "weight is a matrix")
    PRE(S.zle(1, LEN(input)), "rank >= 1")
    small = S.zle(LEN(input), 2)
    if small if isinstance(small, bool) else cur().branch(small):
        REQ(EQ(LAST(input), AT(weight, 1)), "inner dims")
    else:
        PRE(EQ(LAST(input), AT(weight, 1)), "inner dims")
    n = LEN(input)
    r = PUT(input, SUB(n, 1), AT(weight, 0))
    if bias is not None:
        PRE(AND(EQ(LEN(bias), 1)), "bias is a vector")
        PRE(EQ(AT(bias, 0), AT(weight, 0)))
    return r


@spec("nn", "aten.linalg_det")
def _(A):
    n = LEN(A)
    PRE(S.zle(2, n))
    KNOWN("linalg-det-batch-rank", S.zle(n, 3))
    REQ(EQ(LAST(A), LAST(A, 2)), "square")
    return SEG(A, 0, SUB(n, 2))


@spec("nn", "aten._linalg_det")
def _(A):
    n = LEN(A)
    PRE(S.zle(2, n))
    KNOWN("linalg-det-batch-rank", S.zle(n, 3))
    REQ(EQ(LAST(A), LAST(A, 2)), "square")
    return SEG(A, 0, SUB(n, 2)), COPY(A), SEG(A, 0, SUB(n, 1))


@spec("nn", "aten.linalg_slogdet")
def _(A):
    n = LEN(A)
    PRE(S.zle(2, n))
    KNOWN("linalg-det-batch-rank", S.zle(n, 3))
    REQ(EQ(LAST(A), LAST(A, 2)), "square")
    r = SEG(A, 0, SUB(n, 2))
    return r, r


@spec("nn", "aten.linalg_cross")
def _(self, other, dim):
    REQ(EQ(LEN(self), LEN(other)), "equal ranks")
    return BCAST(self, other)


@spec("nn", "aten.cosine_similarity")
def _(x1, x2, dim, eps):
    b = BCAST(x1, x2)
    n = LEN(b)
    PRE(S.zlt(0, n), "rank >= 1")
    KNOWN("cosine-similarity-last-dim-negative", NE(dim, -1))
    w = PREWRAP(dim, n)
    return DROP(b, w)


@spec("nn", "aten.bilinear")
def _(input1, input2, weight, bias):
    n = LEN(input1)
    REQ(EQ(LEN(input2), n), "equal ranks")
    REQ(EQ(LEN(weight), 3), "weight rank")
    PRE(S.zle(1, n))
    REQ(EQ(LAST(input1), AT(weight, 1)), "in1 features")
    REQ(EQ(LAST(input2), AT(weight, 2)), "in2 features")
    REQ(ALL(0, SUB(n, 1), lambda i: EQ(AT(input1, i), AT(input2, i))), "batch dims")
    if bias is not None:
        REQ(EQ(LEN(bias), 1), "bias rank")
        REQ(EQ(AT(bias, 0), AT(weight, 0)), "bias size")
    return CAT(SEG(input1, 0, SUB(n, 1)), [AT(weight, 0)])


# ---- convolution
def _conv_dims(input, weight, stride, padding, dilation, spatial=None):
    n = LEN(input)
    PRE(EQ(LEN(weight), n), "weight rank")
    k = SUB(n, 2)
    for p in (stride, padding, dilation):
        PRE(EQ(LEN(p), k), "one parameter per spatial dim")
    PRE(ALL(0, k, lambda i: AND(S.zlt(0, AT(stride, i)), S.zlt(0, AT(dilation, i)))), "positive")


def _conv_fwd(input, weight, bias, stride, padding, dilation, groups, strictsz=True):
    n = LEN(input)
    _conv_dims(input, weight, stride, padding, dilation)
    R = REQ if strictsz else PRE
    R(ALL(0, SUB(n, 2), lambda i: S.zle(0, AT(padding, i))), "padding >= 0")
    PRE(S.zlt(0, groups), "groups > 0")
    R(EQ(FMOD(AT(weight, 0), groups), 0), "groups divide out channels")
    R(S.zle(groups, AT(weight, 0)), "groups <= out channels")
    R(EQ(AT(input, 1), AT(weight, 1) * groups), "in channels")
    if bias is not None:
        R(AND(EQ(LEN(bias), 1), EQ(AT(bias, 0), AT(weight, 0))), "bias size")
    eff = lambda i: AT(dilation, SUB(i, 2)) * (AT(weight, i) - 1) + 1
    pad = lambda i: AT(input, i) + 2 * AT(padding, SUB(i, 2))
    PRE(ALL(2, n, lambda i: S.zle(1, AT(weight, i))), "kernel non-empty")
    R(ALL(2, n, lambda i: S.zle(eff(i), pad(i))), "kernel fits")
    return MK(
        n,
        lambda i: ITE(
            EQ(i, 0),
            AT(input, 0),
            ITE(
                EQ(i, 1),
                AT(weight, 0),
                ADD(FDIV(pad(i) - eff(i), AT(stride, SUB(i, 2))), 1),
            ),
        ),
    )


def _conv_tr(input, weight, bias, stride, padding, output_padding, groups, dilation):
    n = LEN(input)
    _conv_dims(input, weight, stride, padding, dilation)
    PRE(EQ(LEN(output_padding), SUB(n, 2)))
    PRE(S.zlt(0, groups))
    PRE(ALL(2, n, lambda i: S.zle(1, AT(weight, i))), "kernel non-empty")
    PRE(EQ(AT(input, 1), AT(weight, 0)))

    def out(i):
        j = SUB(i, 2)
        return (
            (AT(input, i) - 1) * AT(stride, j)
            - 2 * AT(padding, j)
            + AT(dilation, j) * (AT(weight, i) - 1)
            + AT(output_padding, j)
            + 1
        )

    PRE(ALL(2, n, lambda i: S.zle(0, out(i))), "non-negative size")
    return MK(
        n,
        lambda i: ITE(EQ(i, 0), AT(input, 0), ITE(EQ(i, 1), AT(weight, 1) * groups, out(i))),
    )


@spec("nn", "aten.conv2d")
def _(input, weight, bias, stride, padding, dilation, groups):
    REQ(EQ(LEN(input), 4), "batched rank")
    REQ(EQ(LEN(weight), 4), "weight rank")
    return _conv_fwd(input, weight, bias, stride, padding, dilation, groups)


@spec("nn", "aten.conv3d")
def _(input, weight, bias, stride, padding, dilation, groups):
    REQ(EQ(LEN(input), 5), "batched rank")
    REQ(EQ(LEN(weight), 5), "weight rank")
    return _conv_fwd(input, weight, bias, stride, padding, dilation, groups)


@spec("nn", "aten.conv1d")
def _(input, weight, bias, stride, padding, dilation, groups):
    PRE(EQ(LEN(input), 3), "batched rank")
    PRE(EQ(LEN(weight), 3), "weight rank")
    return _conv_fwd(input, weight, bias, stride, padding, dilation, groups, strictsz=False)


def _same(weight, dilation, nd, padding):
    if padding == "valid":
        return [0] * nd, [0] * nd
    tot = [AT(dilation, i) * (AT(weight, i + 2) - 1) for i in range(nd)]
    return tot, None


def _conv_padding(nd):
    def f(input, weight, bias, stride, padding, dilation, groups):
        """padding='same' keeps the spatial sizes (stride 1); 'valid' pads nothing"""
        PRE(EQ(LEN(input), nd + 2), "batched rank")
        PRE(EQ(LEN(weight), nd + 2), "weight rank")
        for p in (stride, dilation):
            PRE(EQ(LEN(p), nd), "one parameter per spatial dim")
        PRE(padding in ("same", "valid"), "padding mode")
        PRE(ALL(0, nd, lambda i: S.zle(1, AT(weight, i + 2))), "kernel non-empty")
        PRE(ALL(0, nd, lambda i: S.zlt(0, AT(dilation, i))), "dilation")
        if padding == "valid":
            return _conv_fwd(input, weight, bias, stride, [0] * nd, dilation, groups, strictsz=nd > 1)
        PRE(ALL(0, nd, lambda i: EQ(AT(stride, i), 1)), "same needs stride 1")
        PRE(S.zlt(0, groups))
        PRE(EQ(FMOD(AT(weight, 0), groups), 0), "groups divide out channels")
        PRE(S.zle(groups, AT(weight, 0)), "groups <= out channels")
        PRE(EQ(AT(input, 1), AT(weight, 1) * groups), "in channels")
        if bias is not None:
            PRE(AND(EQ(LEN(bias), 1), EQ(AT(bias, 0), AT(weight, 0))), "bias size")
        KNOWN(
            "conv-padding-same-odd-total",
            AND(*[EQ(FMOD(AT(dilation, i) * (AT(weight, i + 2) - 1), 2), 0) for i in range(nd)]),
        )
        KNOWN(
            "conv-padding-same-dilation-order",
            AND(*[EQ(AT(dilation, i), AT(dilation, nd - 1 - i)) for i in range(nd)]),
        )
        PRE(ALL(0, nd, lambda i: S.zle(1, AT(input, i + 2))), "non-empty input")
        return [AT(input, 0), AT(weight, 0)] + [AT(input, i + 2) for i in range(nd)]

    return f


spec("nn", "aten.conv1d.padding")(_conv_padding(1))
spec("nn", "aten.conv2d.padding")(_conv_padding(2))
spec("nn", "aten.conv3d.padding")(_conv_padding(3))


@spec("nn", "aten.conv_transpose1d aten.conv_transpose3d.input aten.conv_transpose2d.input")
def convtr(input, weight, bias, stride, padding, output_padding, groups, dilation):
    return _conv_tr(input, weight, bias, stride, padding, output_padding, groups, dilation)


@spec("nn", "aten.convolution aten._convolution aten._convolution.deprecated")
def convolution(input, weight, bias, stride, padding, dilation, transposed, output_padding, groups, *_):
    if transposed:
        return _conv_tr(input, weight, bias, stride, padding, output_padding, groups, dilation)
    no = LEN(output_padding)
    PRE(OR(EQ(no, 0), EQ(no, SUB(LEN(input), 2))), "one output padding per spatial dim")
    return _conv_fwd(input, weight, bias, stride, padding, dilation, groups, strictsz=False)


@spec("nn", "aten.convolution_backward")
def _(grad_output, input, weight, *_):
    PRE(S.zle(2, LEN(grad_output)))
    return COPY(input), COPY(weight), [AT(grad_output, 1)]


@spec("nn", "aten.conv_tbc", skip="see not covered")
def _(self, weight, bias, pad):
    raise Unsupported("conv_tbc")


@spec("nn", "torchvision.deform_conv2d")
def _(input, weight, offset, *_):
    PRE(AND(EQ(LEN(input), 4), EQ(LEN(weight), 4), EQ(LEN(offset), 4)))
    return [AT(input, 0), AT(weight, 0), AT(offset, 2), AT(offset, 3)]


@spec("nn", "torchvision.roi_align")
def _(input, rois, spatial_scale, pooled_height, pooled_width, *_):
    PRE(AND(EQ(LEN(input), 4), EQ(LEN(rois), 2)))
    return [AT(rois, 0), AT(input, 1), pooled_height, pooled_width]


@spec("nn", "torchvision.roi_pool")
def _(input, rois, spatial_scale, pooled_height, pooled_width):
    PRE(AND(EQ(LEN(input), 4), EQ(LEN(rois), 2)))
    r = [AT(rois, 0), AT(input, 1), pooled_height, pooled_width]
    return r, r


# ---- pooling
def _per_dim(p, nd, i, default=None):
    """a scalar or per-dimension parameter list"""
    n = LEN(p)
    if default is not None and EQ(n, 0):
        return default
    if EQ(n, 1):
        return AT(p, 0)
    return AT(p, i)


OPAQUE_POOL = [False]


def pool_out(I, k, p, s, d, ceil_mode):
    """output size of one pooled dimension: also the contract of the upstream helper
    pooling_output_shape (s != 0), which the callers below are checked against"""
    if OPAQUE_POOL[0] and sym():
        Z = S.zterm
        args = [Z(I), Z(k), Z(p), Z(s), Z(d), Z(ITE(ceil_mode, 1, 0))]
        return z3.Function("pooled_size", *[z3.IntSort()] * 7)(*args)
    x = I + 2 * p - d * (k - 1) - 1
    o = ADD(FDIV(x + ITE(ceil_mode, s - 1, 0), s), 1)
    last = ITE(ceil_mode, ITE(S.zle(I + p, (o - 1) * s), 1, 0), 0)
    return SUB(o, last)


def _pool(nd, self, kernel_size, stride, padding, dilation, ceil_mode):
    n = LEN(self)
    REQ(IN(n, [nd + 1, nd + 2]), "input rank")
    lens = [1, nd] if nd > 1 else [1]
    REQ(IN(LEN(kernel_size), lens), "kernel_size length")
    REQ(IN(LEN(stride), [0] + lens), "stride length")
    REQ(IN(LEN(padding), lens), "padding length")
    if dilation is not None:
        REQ(IN(LEN(dilation), lens), "dilation length")
    out = []
    ks = [_per_dim(kernel_size, nd, i) for i in range(nd)]
    ss = [_per_dim(stride, nd, i, ks[i]) for i in range(nd)]
    ps = [_per_dim(padding, nd, i) for i in range(nd)]
    ds = [1 if dilation is None else _per_dim(dilation, nd, i) for i in range(nd)]
    P = PRE if nd == 1 else REQ
    for i in range(nd):
        P(S.zlt(0, ks[i]), "kernel > 0")
        P(S.zlt(0, ss[i]), "stride > 0")
        P(S.zlt(0, ds[i]), "dilation > 0")
        PRE(S.zle(0, ps[i]), "padding >= 0")
        P(S.zle(ps[i], FDIV(ks[i], 2)), "padding <= kernel / 2")
    if nd == 3 and not (AND(EQ(ks[0], ks[1]), EQ(ks[1], ks[2]))):
        KNOWN("pool3d-default-stride", NOT(EQ(LEN(stride), 0)))
    first = SUB(n, nd)
    # non-empty apart from the batch
    P(AND(*[S.zlt(0, LAST(self, nd + 1 - j)) for j in range(nd + 1)]), "non-empty")
    if nd == 3 and EQ(n, 5):
        PRE(S.zlt(0, AT(self, 0)), "non-empty batch")
    for i in range(nd):
        I = AT(self, ADD(first, i))
        o = pool_out(I, ks[i], ps[i], ss[i], ds[i], ceil_mode)
        P(S.zle(1, o), "non-empty result")
        out.append(o)
    return CAT(SEG(self, 0, first), out)


@spec("nn", "aten.max_pool2d")
def _(self, k, s, p, d, c):
    return _pool(2, self, k, s, p, d, c)


@spec("nn", "aten.max_pool3d")
def _(self, k, s, p, d, c):
    return _pool(3, self, k, s, p, d, c)


@spec("nn", "aten.max_pool2d_with_indices")
def _(self, k, s, p, d, c):
    r = _pool(2, self, k, s, p, d, c)
    return r, r


@spec("nn", "aten.max_pool3d_with_indices")
def _(self, k, s, p, d, c):
    r = _pool(3, self, k, s, p, d, c)
    return r, r


@spec("nn", "aten.avg_pool1d")
def _(self, k, s, p, c, *_):
    return _pool(1, self, k, s, p, None, c)


@spec("nn", "aten.avg_pool2d")
def _(self, k, s, p, c, *_):
    return _pool(2, self, k, s, p, None, c)


@spec("nn", "aten.avg_pool3d")
def _(self, k, s, p, c, *_):
    return _pool(3, self, k, s, p, None, c)


@spec("nn", "aten.max_pool1d")
def _(self, k, s, p, d, c):
    r = _pool(1, self, k, s, p, d, c)
    KNOWN("max-pool1d-dilation", EQ(AT(d, 0), 1))
    return r


@spec("nn", "aten.max_pool1d_with_indices")
def _(self, k, s, p, d, c):
    r = _pool(1, self, k, s, p, d, c)
    KNOWN("max-pool1d-dilation", EQ(AT(d, 0), 1))
    return r, r


def _adaptive(nd, self, out):
    n = LEN(self)
    REQ(EQ(LEN(out), nd), "output rank")
    REQ(IN(n, [nd + 1, nd + 2]), "input rank")
    PRE(ALL(0, n, lambda i: S.zlt(0, AT(self, i))), "non-empty")
    NONNEG(out)
    return CAT(SEG(self, 0, SUB(n, nd)), COPY(out))


for _n, _d, _pair in [
    ("aten.adaptive_avg_pool1d", 1, False),
    ("aten.adaptive_avg_pool2d", 2, False),
    ("aten.adaptive_avg_pool3d", 3, False),
    ("aten.adaptive_max_pool1d", 1, True),
    ("aten.adaptive_max_pool2d", 2, True),
    ("aten.adaptive_max_pool3d", 3, True),
]:

    def _f(self, out, d=_d, pair=_pair):
        r = _adaptive(d, self, out)
        return (r, r) if pair else r

    spec("nn", _n)(_f)


@spec("nn", "aten.max_pool2d_with_indices_backward")
def _(grad, self, *_):
    return COPY(self)


@spec("nn", "aten.max_unpool2d")
def _(self, indices, output_size):
    n = LEN(self)
    REQ(IN(n, [3, 4]), "input rank")
    REQ(EQ(LEN(output_size), 2), "output rank")
    REQ(EQ(LEN(indices), n), "indices rank")
    NONNEG(output_size)
    return CAT(SEG(self, 0, SUB(n, 2)), COPY(output_size))


@spec("nn", "aten.max_unpool3d")
def _(self, indices, output_size, *_):
    n = LEN(self)
    REQ(IN(n, [4, 5]), "input rank")
    REQ(EQ(LEN(output_size), 3), "output rank")
    REQ(EQ(LEN(indices), n), "indices rank")
    NONNEG(output_size)
    return CAT(SEG(self, 0, SUB(n, 3)), COPY(output_size))


# ---- resampling
@spec("nn", "aten.upsample_nearest1d")
def _(self, output_size, *_):
    PRE(AND(EQ(LEN(self), 3), EQ(LEN(output_size), 1)))
    NONNEG(output_size)
    return [AT(self, 0), AT(self, 1), AT(output_size, 0)]


@spec("nn", "aten.upsample_nearest2d aten.upsample_bilinear2d")
def _(self, output_size, *_):
    PRE(AND(EQ(LEN(self), 4), EQ(LEN(output_size), 2)))
    NONNEG(output_size)
    return [AT(self, 0), AT(self, 1), AT(output_size, 0), AT(output_size, 1)]


@spec("nn", "aten.upsample_nearest2d_backward")
def _(grad, output_size, input_size, *_):
    NONNEG(input_size)
    return COPY(input_size)


def _upsample_vec(nd, input, output_size, scale_factors):
    PRE(EQ(LEN(input), nd + 2))
    REQ((output_size is None) != (scale_factors is None), "size xor scale")
    if output_size is not None:
        PRE(EQ(LEN(output_size), nd))
        NONNEG(output_size)
        return [AT(input, 0), AT(input, 1)] + [AT(output_size, i) for i in range(nd)]
    PRE(EQ(LEN(scale_factors), nd))
    return [AT(input, 0), AT(input, 1)] + [
        TRUNC(AT(input, i + 2) * AT(scale_factors, i)) for i in range(nd)
    ]


@spec("nn", "aten.upsample_nearest1d.vec")
def _(input, output_size, scale_factors):
    return _upsample_vec(1, input, output_size, scale_factors)


@spec("nn", "aten.upsample_nearest2d.vec")
def _(input, output_size, scale_factors):
    return _upsample_vec(2, input, output_size, scale_factors)


@spec("nn", "aten.upsample_bilinear2d.vec")
def _(input, output_size, align_corners, scale_factors):
    return _upsample_vec(2, input, output_size, scale_factors)


@spec("nn", "aten.__interpolate.size_list_scale_list")
def _(input, size, scale_factor, *_):
    return _upsample_vec(2, input, size, scale_factor)


@spec("nn", "aten.grid_sampler")
def _(input, grid, *_):
    PRE(AND(EQ(LEN(input), 4), EQ(LEN(grid), 4)), "2-d sampling")
    PRE(EQ(AT(input, 0), AT(grid, 0)))
    return [AT(input, 0), AT(input, 1), AT(grid, 1), AT(grid, 2)]


# ---- padding
def _pad(self, pad, limit=None):
    n, m = LEN(self), LEN(pad)
    REQ(EQ(FMOD(m, 2), 0), "low/high pairs")
    k = FDIV(m, 2)
    REQ(S.zle(k, n), "not more pairs than dims")

    def out(i):
        j = SUB(SUB(n, 1), i)  # pair index of dimension i
        return ITE(
            S.zlt(j, k),
            AT(self, i) + AT(pad, ADD(MUL(2, j), 0)) + AT(pad, ADD(MUL(2, j), 1)),
            AT(self, i),
        )

    if limit:
        REQ(
            ALL(
                0,
                k,
                lambda j: AND(
                    S.zlt(AT(pad, MUL(2, j)), LAST(self, ADD(j, 1))),
                    S.zlt(AT(pad, ADD(MUL(2, j), 1)), LAST(self, ADD(j, 1))),
                ),
            ),
            "reflection stays inside",
        )
    PRE(ALL(0, n, lambda i: S.zle(0, out(i))), "non-negative size")
    return MK(n, out)


@spec("nn", "aten.constant_pad_nd aten.pad")
def _(self, pad, *_):
    return _pad(self, pad)


def _padn(nd, reflect):
    def f(self, padding):
        n = LEN(self)
        PRE(IN(n, [nd + 1, nd + 2]), "input rank")
        if reflect and nd == 1:
            PRE(EQ(LEN(padding), 2), "padding length")
        else:
            REQ(EQ(LEN(padding), 2 * nd), "padding length")
        return _pad(self, padding, reflect)

    return f


for _d in (1, 2, 3):
    spec("nn", f"aten.replication_pad{_d}d")(_padn(_d, False))
    spec("nn", f"aten.reflection_pad{_d}d")(_padn(_d, True))


# ---- normalisation
@spec("nn", "aten.native_layer_norm")
def _(input, normalized_shape, *_):
    n, m = LEN(input), LEN(normalized_shape)
    REQ(S.zle(m, n), "normalized rank")
    PRE(S.zlt(0, m))
    PRE(ALL(0, m, lambda i: EQ(AT(normalized_shape, i), AT(input, ADD(i, SUB(n, m))))))
    st = MK(n, lambda i: ITE(S.zlt(i, SUB(n, m)), AT(input, i), 1))
    return COPY(input), st, st


@spec("nn", "aten.native_group_norm")
def _(input, weight, bias, N, C, HxW, group, eps):
    PRE(AND(S.zlt(0, group), EQ(FMOD(C, group), 0)))
    return COPY(input), [N, group], [N, group]


@spec("nn", "aten.native_batch_norm")
def _(input, weight, bias, running_mean, running_var, training, *_):
    PRE(S.zle(2, LEN(input)), "rank >= 2")
    if training:
        st = [AT(input, 1)]
    else:
        st = [0]
    return COPY(input), st, st


@spec("nn", "aten._weight_norm_interface")
def _(v, g, *_):
    return COPY(v), COPY(g)


# ---- embedding
@spec("nn", "aten.embedding")
def _(weight, indices, *_):
    REQ(EQ(LEN(weight), 2), "weight is a matrix")
    return CAT(COPY(indices), [AT(weight, 1)])


def _embedding_bag(weight, indices, offsets, mode, per_sample_weights, include_last_offset, padding_idx, always_i):
    REQ(EQ(LEN(weight), 2), "weight is a matrix")
    REQ(EQ(LEN(indices), 1), "indices are 1-d")
    REQ(EQ(LEN(offsets), 1), "offsets are 1-d")
    PRE(IN(mode, [0, 1, 2]))
    bags = AT(offsets, 0)
    if include_last_offset:
        PRE(S.zlt(0, bags))
        bags = SUB(bags, 1)
    return [bags, AT(weight, 1)]


# first result only: the bookkeeping outputs depend on the backend
@spec("nn", "aten.embedding_bag.padding_idx", first_only=True)
def _(weight, indices, offsets, scale, mode, sparse, psw, include_last, padding_idx):
    return _embedding_bag(weight, indices, offsets, mode, psw, include_last, padding_idx, 0)


@spec("nn", "aten._embedding_bag", first_only=True)
def _(weight, indices, offsets, scale, mode, sparse, psw, include_last, padding_idx):
    return _embedding_bag(weight, indices, offsets, mode, psw, include_last, padding_idx, 0)


# ---- losses
@spec("nn", "aten.nll_loss_forward")
def _(self, target, weight, reduction, *_):
    n = LEN(self)
    REQ(IN(n, [1, 2]), "input rank")
    REQ(S.zle(LEN(target), 1), "target rank")
    if EQ(n, 2):
        PRE(EQ(LEN(target), 1))
        REQ(EQ(AT(self, 0), AT(target, 0)), "batch")
    else:
        PRE(EQ(LEN(target), 0))
    if weight is not None:
        REQ(AND(EQ(LEN(weight), 1), EQ(AT(weight, 0), LAST(self))), "one weight per class")
    PRE(IN(reduction, [0, 1, 2]))
    none = AND(EQ(reduction, 0), EQ(n, 2))
    if none if isinstance(none, bool) else cur().branch(none):
        return [AT(self, 0)], []
    return [], []


@spec("nn", "aten.nll_loss_backward")
def _(grad, self, *_):
    return COPY(self)


@spec("nn", "aten.cross_entropy_loss")
def _(self, target, weight, reduction, *_):
    n = LEN(self)
    REQ(IN(n, [1, 2]), "input rank")
    REQ(S.zle(LEN(target), 1), "target rank")
    PRE(IN(reduction, [0, 1, 2]))
    if EQ(n, 2):
        PRE(EQ(LEN(target), 1))
        REQ(EQ(AT(self, 0), AT(target, 0)), "batch")
    else:
        PRE(EQ(LEN(target), 0))
    if weight is not None:
        REQ(AND(EQ(LEN(weight), 1), EQ(AT(weight, 0), LAST(self))), "one weight per class")
    none = EQ(reduction, 0)
    if none:
        if EQ(n, 2):
            return [AT(self, 0)]
    return []


def _loss(self, target, reduction, known=True):
    PRE(IN(reduction, [0, 1, 2]))
    r = BCAST(self, target)
    if EQ(reduction, 0):
        KNOWN("loss-broadcast", BCASTABLE_TO(target, self))
        return r
    return []


@spec("nn", "aten.mse_loss aten.l1_loss")
def _(self, target, reduction):
    PRE(IN(reduction, [0, 1, 2]))
    return _loss2(self, target, reduction)


def _loss2(self, target, reduction):
    if EQ(reduction, 0):
        PRE(OR(BCOK(self, target)), "broadcastable")
        KNOWN("loss-broadcast", BCASTABLE_TO(target, self))
        return COPY(self)
    return []


def BCOK(a, b):
    n = MAX(LEN(a), LEN(b))
    return ALL(
        0, n, lambda i: OR(EQ(RAT(a, n, i), RAT(b, n, i)), EQ(RAT(a, n, i), 1), EQ(RAT(b, n, i), 1))
    )


@spec("nn", "aten.kl_div")
def _(self, target, reduction, log_target):
    REQ(IN(reduction, [0, 1, 2]), "reduction")
    return _loss2(self, target, reduction)


@spec("nn", "aten.poisson_nll_loss")
def _(input, target, log_input, full, eps, reduction):
    PRE(IN(reduction, [0, 1, 2]))
    return _loss2(input, target, reduction)


@spec("nn", "aten.binary_cross_entropy_with_logits")
def _(self, target, weight, pos_weight, reduction):
    PRE(IN(reduction, [0, 1, 2]))
    PRE(SAME(self, target), "one shape")
    for w in (weight, pos_weight):
        if w is not None:
            PRE(BCASTABLE_TO(w, self), "weights fit the input")
    if EQ(reduction, 0):
        return COPY(self)
    return []


@spec("nn", "aten.multinomial")
def _(self, num_samples, *_):
    n = LEN(self)
    REQ(IN(n, [1, 2]), "rank 1 or 2")
    PRE(S.zlt(0, num_samples))
    if EQ(n, 1):
        return [num_samples]
    return [AT(self, 0), num_samples]


@spec("nn", "aten.scaled_dot_product_attention")
def _(query, key, value, attn_mask, *_):
    """(N, ..., L, E) x (N, ..., S, E) x (N, ..., S, Ev) -> (N, ..., L, Ev)"""
    n = LEN(query)
    PRE(S.zle(3, n), "rank >= 3")
    PRE(AND(EQ(LEN(key), n), EQ(LEN(value), n)), "equal ranks")
    PRE(ALL(0, SUB(n, 2), lambda i: AND(EQ(AT(query, i), AT(key, i)), EQ(AT(query, i), AT(value, i)))), "batch dims")
    PRE(AND(EQ(LAST(query), LAST(key)), EQ(LAST(key, 2), LAST(value, 2))))
    return PUT(query, SUB(n, 1), LAST(value))


# ---- signal
@spec("nn", "aten.fft_fft aten.fft_ifft")
def _(self, n, dim, norm):
    r = LEN(self)
    PRE(S.zlt(0, r))
    w = PREWRAP(dim, r)
    PRE(S.zlt(0, AT(self, w)))
    if n is not None:
        PRE(S.zlt(0, n))
        KNOWN("fft-n-ignored", EQ(n, AT(self, w)))
        return PUT(self, w, n)
    return COPY(self)


@spec("nn", "aten.fft_rfft")
def _(self, n, dim, norm):
    r = LEN(self)
    PRE(S.zlt(0, r))
    w = WRAP(dim, r)
    m = AT(self, w)
    PRE(S.zlt(0, m))
    if n is not None:
        PRE(S.zlt(0, n))
        KNOWN("fft-n-ignored", EQ(n, m))
        m = n
    return PUT(self, w, ADD(FDIV(m, 2), 1))


def _stft(self, n_fft, hop_length, win_length, window, center, onesided, return_complex):
    n = LEN(self)
    REQ(IN(n, [1, 2]), "rank 1 or 2")
    L = LAST(self)
    hop = FDIV(n_fft, 4) if hop_length is None else hop_length
    REQ(S.zlt(0, n_fft), "n_fft > 0")
    REQ(S.zle(n_fft, L), "n_fft <= length")
    REQ(S.zlt(0, hop), "hop > 0")
    if onesided is None:
        onesided = True
    freq = ITE(onesided, ADD(FDIV(n_fft, 2), 1), n_fft)
    if center is None:
        center = True
    if center:
        L2 = L + 2 * FDIV(n_fft, 2)
        KNOWN("stft-center-odd-window", EQ(FMOD(n_fft, 2), 0))
    else:
        L2 = L
    frames = ADD(FDIV(L2 - n_fft, hop), 1)
    r = CAT(SEG(self, 0, SUB(n, 1)), [freq, frames])
    if return_complex is not None:
        if NOT(return_complex):
            r = CAT(r, [2])
    return r


@spec("nn", "aten.stft")
def _(self, n_fft, hop_length, win_length, window, normalized, onesided, return_complex, *_):
    return _stft(self, n_fft, hop_length, win_length, window, False, onesided, return_complex)


@spec("nn", "aten.stft.center")
def _(self, n_fft, hop_length, win_length, window, center, pad_mode, normalized, onesided, return_complex, *_):
    return _stft(self, n_fft, hop_length, win_length, window, center, onesided, return_complex)


@spec("nn", "aten.col2im")
def _(self, output_size, kernel_size, dilation, padding, stride):
    n = LEN(self)
    for p, nm in ((output_size, "output_size"), (kernel_size, "kernel_size"), (dilation, "dilation"), (padding, "padding"), (stride, "stride")):
        REQ(EQ(LEN(p), 2), nm + " length")
    REQ(IN(n, [2, 3]), "rank 2 or 3")
    REQ(AND(S.zlt(0, LAST(self)), S.zlt(0, LAST(self, 2))), "non-empty")
    if EQ(n, 2):
        pass
    NONNEG(output_size)
    REQ(ALL(0, 2, lambda i: S.zlt(0, AT(kernel_size, i))), "kernel > 0")
    REQ(ALL(0, 2, lambda i: S.zlt(0, AT(dilation, i))), "dilation > 0")
    REQ(ALL(0, 2, lambda i: S.zle(0, AT(padding, i))), "padding >= 0")
    REQ(ALL(0, 2, lambda i: S.zlt(0, AT(stride, i))), "stride > 0")
    kk = AT(kernel_size, 0) * AT(kernel_size, 1)
    planes = LAST(self, 2)
    REQ(EQ(FMOD(planes, kk), 0), "channels divisible")
    blocks = [
        ADD(FDIV(AT(output_size, i) + 2 * AT(padding, i) - AT(dilation, i) * (AT(kernel_size, i) - 1) - 1, AT(stride, i)), 1)
        for i in range(2)
    ]
    REQ(EQ(LAST(self), blocks[0] * blocks[1]), "number of blocks")
    return CAT(SEG(self, 0, SUB(n, 2)), [FDIV(planes, kk)], COPY(output_size))


@spec("nn", "aten._trilinear", concrete=True, bounds=(2,), maxlen=dict(expand1=1, expand2=1, expand3=1, sumdim=1))
def _(i1, i2, i3, expand1, expand2, expand3, sumdim, unroll_dim):
    """i_k unsqueezed at expand_k (in order), multiplied, summed over sumdim"""
    ins = []
    for x, e in ((i1, expand1), (i2, expand2), (i3, expand3)):
        cur_ = list(x)
        for d in e:
            PRE(BETW(0, d, len(x) + 1) if is_sym(d) else 0 <= d <= len(x))
            if is_sym(d):
                for c in range(len(cur_) + 1):
                    if d == c:
                        cur_.insert(c, 1)
                        break
            else:
                cur_.insert(d, 1)
        ins.append(cur_)
    n = len(ins[0])
    PRE(len(ins[1]) == n and len(ins[2]) == n, "equal ranks")
    REQ(BETW(0, unroll_dim, n), "unroll_dim range")
    PRE(len(ins[1]) == n and len(ins[2]) == n, "equal ranks")
    b = BCAST(BCAST(ins[0], ins[1]), ins[2])
    PRE(AND(*[BETW(0, d, n) for d in sumdim]))
    hit = lambda i: OR(*[EQ(d, i) for d in sumdim])
    return FILTER(n, lambda i: NOT(hit(i)), lambda i: AT(b, i))
