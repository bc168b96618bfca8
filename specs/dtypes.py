"""Result-dtype contracts of the library's dtype functions.

`a.<name>` is the argument <name> (`<name>_rank_dtype` for tensors: .rank, .dt).
REQ: the function must reject inputs violating it; PRE: outside the contract's domain
(PyTorch rejects these, the function need not); KNOWN: a recorded finding.
"""
from .dsl import *
from .promotion import *

SPECS = {}
OPTS = {}


def D(names, f, **opts):
    for n in names.split():
        assert n not in SPECS, n
        SPECS[n] = f
        OPTS[n] = opts


IF = ITE


def flt_op(d):
    """ops computing in floating point: integers become float32"""
    return IF(INT(d), F32, d)


def real_of(d):
    return lookup(d, {C64: F32, C128: F64, **{x: x for x in INTS + FLOATS}}, d)


def complex_of(d):
    """the complex type an FFT produces for a real input"""
    return lookup(d, {F16: C32, BF16: C64, F32: C64, F64: C128, **{x: C64 for x in INTS}}, C64)


def sum_dtype(d, dtype):
    return IF(INT(d), I64, d) if dtype is None else dtype


def not_integer(d):
    REQ(NOT(INT(d)), "not integer")
    return d


def not_bool(d):
    REQ(NE(d, BOOL), "not bool")
    return d


def bool_to_i64(d):
    return IF(EQ(d, BOOL), I64, d)


def nonempty(ts):
    REQ(len(ts) > 0, "at least one tensor")
    return ts


def stack1(a):
    """hstack/column_stack make their inputs at least 1-d first"""
    ts = nonempty(a.tensors)
    KNOWN(
        "stack-zero-dim-promotion",
        OR(AND(*[S.zlt(0, t.rank) for t in ts]), AND(*[EQ(t.rank, 0) for t in ts])),
    )
    return RESULT([(1, t.dt) for t in ts])


def conv_dtype(x, w):
    REQ(EQ(x.dt, w.dt), "same dtype")
    REQ(NOT(CPLX(x.dt)), "not complex")
    REQ(NE(x.dt, BOOL), "not bool")
    return x.dt


def fake_quant(a):
    REQ(FLT(a.self.dt), "float")
    KNOWN("fake-quantize-bfloat16", NE(a.self.dt, BF16))
    return a.self.dt


def given(x):
    """(is not None, value) of an optional argument"""
    if x is None:
        return False, False
    return (NOT(x.isnone), x.val) if hasattr(x, "isnone") else (True, x)


def stft_dtype(a):
    d = a.self.dt
    PRE(NOT(INT(d)))
    KNOWN("stft-bfloat16", NE(d, BF16))
    some, cplx = given(a.return_complex)
    KNOWN("stft-return-complex-default", some)
    cplx = AND(some, cplx)
    return IF(cplx, IF(CPLX(d), d, complex_of(d)), real_of(d))


def norm_dtype(a):
    d = not_integer(a.self.dt)
    if a.dtype is None:
        return real_of(d)
    REQ(NOT(INT(a.dtype)), "dtype not integer")
    REQ(EQ(CPLX(d), CPLX(a.dtype)) if not is_sym(CPLX(d)) and not is_sym(CPLX(a.dtype))
        else OR(AND(CPLX(d), CPLX(a.dtype)), AND(NOT(CPLX(d)), NOT(CPLX(a.dtype)))), "complex iff self complex")
    return real_of(a.dtype)


def hann(a):
    d = F32 if a.dtype is None else a.dtype
    REQ(FLT(d), "float")
    return d


def polar(a):
    REQ(EQ(a.abs.dt, a.angle.dt), "same dtype")
    PRE(OR(EQ(a.abs.dt, F32), EQ(a.abs.dt, F64)))
    return complex_of(a.abs.dt)


def weight_norm(a):
    REQ(EQ(a.v.dt, a.g.dt), "same dtype")
    d = not_integer(a.g.dt)
    return (d, lookup(d, {C128: F64, C64: F32, BF16: F32, F16: F16, F32: F32, F64: F64}, d))


def broadcast_tensors(a):
    m = 0
    for t in a.tensors:
        m = MAX(m, t.rank)
    return [(m, t.dt) for t in a.tensors]


def ldexp(a):
    """self * 2 ** other in floating point"""
    KNOWN(
        "ldexp-promotion",
        NOT(
            OR(
                AND(EQ(a.self.dt, F64), CPLX(a.other.dt)),
                AND(EQ(a.other.dt, F64), CPLX(a.self.dt)),
                AND(INT(a.self.dt), EQ(a.other.rank, 0), OR(EQ(a.other.dt, F16), EQ(a.other.dt, BF16))),
            )
        ),
    )
    return flt_op(PROMOTE(a.self, a.other))


def floor_div(a):
    REQ(NOT(CPLX(a.self.dt)), "self not complex")
    REQ(NOT(CPLX(a.other.dt)), "other not complex")
    return not_bool(PROMOTE(a.self, a.other))


def true_div(p, a):
    # a half-precision tensor with a lower-category complex has a 32-bit complex result,
    # which the library does not model
    half = OR(EQ(a.self.dt, F16), EQ(a.self.dt, BF16), EQ(a.other.dt, F16), EQ(a.other.dt, BF16))
    PRE(NOT(AND(half, OR(CPLX(a.self.dt), CPLX(a.other.dt)))))
    return IF(INT(p), F32, p)


def div_mode(a):
    if a.rounding_mode == "floor":
        if a.other.rank is None:
            REQ(NOT(CPLX(a.self.dt)), "self not complex")
            return PROMOTE(a.self, a.other)
        return floor_div(a)
    if a.rounding_mode == "trunc":
        return PROMOTE(a.self, a.other)
    return true_div(PROMOTE(a.self, a.other), a)


def matmul(a):
    batched = OR(S.zlt(2, a.other.rank), AND(EQ(a.self.rank, 1), EQ(a.other.rank, 1)))
    REQ(OR(NOT(batched), EQ(a.self.dt, a.other.dt)), "same dtype")
    PRE(EQ(a.self.dt, a.other.dt))
    return a.self.dt


def arange(a, *xs):
    if a.dtype is not None:
        REQ(NOT(CPLX(a.dtype)), "not complex")
        return a.dtype
    return F32 if any(x.dt == F64 for x in xs) else I64


def half_to_float(a, halves):
    d = a.self.dt
    REQ(OR(NOT(a.half_to_float), *[EQ(d, h) for h in halves]), "half input")
    return IF(a.half_to_float, F32, d)


D("""aten.replication_pad1d aten.replication_pad2d aten.replication_pad3d aten.adaptive_avg_pool1d
aten.pixel_shuffle aten.pixel_unshuffle aten.channel_shuffle aten.adaptive_avg_pool2d aten.adaptive_avg_pool3d
aten.bernoulli_.float aten.bernoulli aten.bernoulli.Tensor aten.bitwise_not aten.broadcast_to aten.ceil
aten.trunc aten.fix aten.clone aten.constant_pad_nd aten.reflection_pad2d aten.contiguous aten.copy aten.cpu
aten.logcumsumexp aten.detach aten.expand_as aten.expand aten.fill.Scalar aten.fill.Tensor
aten.flatten.using_ints aten.unflatten.int aten.flip aten.fliplr aten.flipud aten.sign aten.sgn aten.floor
aten.gather aten.gelu aten.hardsigmoid aten.hardswish aten.index_put.hacked_twin
aten._unsafe_index_put.hacked_twin aten._index_put_impl aten.index_put aten.index_select
aten.index.Tensor_hacked_twin aten.index.Tensor aten.lift_fresh_copy aten.masked_fill.Scalar
aten.masked_fill_.Scalar aten.masked_fill.Tensor aten.masked_select aten.max_pool1d aten.max_pool2d
aten.max_pool3d aten.max_unpool3d aten.max_unpool2d aten.mish aten.narrow aten.narrow.Tensor aten.numpy_T
aten.pad aten.permute aten.celu aten.rrelu aten.relu aten.repeat aten.repeat_interleave.self_int aten.tile
aten._reshape_alias aten.reshape aten.reshape_as aten.resize_ aten.roll aten.round aten.round.decimals
aten.glu aten.scatter_reduce.two aten.select.int aten.select_scatter aten.scatter.src aten.scatter.value
aten.scatter_add aten.masked_scatter aten.silu aten.slice_scatter aten.slice.Tensor aten.as_strided
aten.squeeze.dim aten.squeeze aten.threshold aten.t aten.transpose.int aten.triu aten.tril aten.diagonal
aten.uniform aten.exponential aten._unsafe_view aten.unsqueeze aten.upsample_nearest1d aten.upsample_nearest2d
aten.upsample_bilinear2d aten.view aten.zero aten.zero_ aten.nan_to_num aten.min aten.max
aten.binary_cross_entropy_with_logits aten.diag_embed aten.diag aten.rot90 aten.atleast_1d aten.atleast_2d
aten.unfold""",
  lambda a: a.self.dt)

D("""aten.cosh aten.acosh aten.tanh aten.exp aten.exp2 aten.expm1 aten.special_expm1 aten.sin aten.sinh aten.asin
aten.asinh aten.cos aten.acos aten.sigmoid aten.reciprocal aten.sqrt aten.log aten.log2 aten.log10 aten.log1p
aten.logit aten.rsqrt aten.erf aten.deg2rad""",
  lambda a: flt_op(a.self.dt))

D("""aten.isfinite aten.eq.Scalar aten.eq.Tensor aten.ge.Scalar aten.gt.Scalar aten.gt.Tensor aten.ge.Tensor
aten.le.Scalar aten.logical_and aten.logical_not aten.isclose aten.logical_or aten.logical_xor aten.lt.Scalar
aten.lt.Tensor aten.le.Tensor aten.isnan aten.isinf aten.ne.Tensor aten.ne.Scalar aten.signbit""",
  lambda a: BOOL)

D("""aten.__and__.Tensor aten.__or__.Tensor aten.add.Tensor aten.bitwise_and.Tensor aten.bitwise_or.Tensor
aten.bitwise_xor.Tensor aten.bitwise_right_shift.Tensor aten.bitwise_left_shift.Tensor aten.maximum
aten.minimum aten.fmax aten.fmin aten.mul.Tensor aten.sub.Tensor aten.fmod.Tensor aten.remainder.Tensor""",
  lambda a: PROMOTE(a.self, a.other))

D("""aten.zeros_like aten.ones_like aten.empty_like aten.full_like aten.new_full aten.new_zeros aten.new_ones
aten.new_empty aten.new_empty_strided aten.rand_like aten._to_copy aten.to.dtype_layout""",
  lambda a: a.self.dt if a.dtype is None else a.dtype)

D("""aten.batch_norm aten.instance_norm onnx.rotary_embedding aten.__interpolate.size_list_scale_list aten.dropout
aten.conv2d aten.conv3d aten.conv_transpose1d aten.conv_transpose2d.input aten.conv_transpose3d.input
aten.convolution""",
  lambda a: a.input.dt)

D("""prims.iota aten.to.dtype prims.convert_element_type aten.to.device aten.quantize_per_channel
aten.quantize_per_tensor quantized_decomposed.quantize_per_tensor quantized_decomposed.quantize_per_channel""",
  lambda a: a.dtype)

D("""aten.multinomial aten.nonzero aten.nonzero_static aten.argmax aten.argmin aten.count_nonzero aten._cast_Long
aten._shape_as_tensor""",
  lambda a: I64)

D("""aten.__and__.Scalar aten.bitwise_and.Scalar aten.add.Scalar aten.sub.Scalar aten.mul.Scalar aten.fmod.Scalar
aten.remainder.Scalar aten.where.ScalarOther""",
  lambda a: PROMOTE(a.self, a.other))

D("""aten.rand aten.zeros aten.eye aten.eye.m aten.ones aten.empty.memory_format aten.empty_strided""",
  lambda a: F32 if a.dtype is None else a.dtype)

D("""aten.max_pool1d_with_indices aten.max_pool2d_with_indices aten.max_pool3d_with_indices
aten.adaptive_max_pool1d aten.adaptive_max_pool2d aten.adaptive_max_pool3d""",
  lambda a: (a.self.dt, I64))

D("""aten.hardshrink aten.clamp_max aten.clamp_min aten.clamp aten.square""",
  lambda a: IF(EQ(a.self.dt, BOOL), I64, a.self.dt))

D("""aten.cumsum aten.cumprod aten.sum aten.prod aten.prod.dim_int""",
  lambda a: sum_dtype(a.self.dt, a.dtype))

D("""aten.std.dim aten.std.correction aten.var aten.var.dim aten.var.correction""",
  lambda a: real_of(a.self.dt))

D("""aten.gelu_backward aten.softplus_backward aten.leaky_relu_backward""",
  lambda a: PROMOTE(a.grad_output, a.self))

D("""aten.hstack aten.column_stack""", stack1)
D("""aten.cat aten.einsum""",
  lambda a: PROMOTE(*nonempty(a.tensors)))

D("""aten.avg_pool1d aten.avg_pool2d aten.avg_pool3d""",
  lambda a: (REQ(NE(a.self.dt, U8), 'not uint8'), a.self.dt)[1])

D("""aten.neg aten.relu6 aten.frac""",
  lambda a: (REQ(NE(a.self.dt, BOOL), 'not bool'), a.self.dt)[1])

D("""aten.to.prim_Device aten.softmax.int aten.log_softmax.int""",
  lambda a: a.self.dt if a.dtype is None else a.dtype)

D("""aten.upsample_nearest1d.vec aten.upsample_nearest2d.vec aten.upsample_bilinear2d.vec""",
  lambda a: a.input.dt)

D("""aten._convolution aten.conv1d aten._convolution.deprecated""",
  lambda a: conv_dtype(a.input, a.weight))

D("""aten.any.dim aten.any.dims aten.all.dim""",
  lambda a: IF(EQ(a.self.dt, U8), U8, BOOL))

D("""aten._cast_Float aten.dequantize.self aten.dequantize.tensor""",
  lambda a: F32)

D("""aten.tan aten.atan aten.atanh""",
  lambda a: IF(INT(a.self.dt), F32, a.self.dt))

D("""torchvision.roi_align torchvision.deform_conv2d""",
  lambda a: a.input.dt)

D("""aten.movedim.int aten.col2im""",
  lambda a: a.self.dt)

D("""prims.view_of prims.split_dim""",
  lambda a: a.a.dt)

D("""aten.topk aten.kthvalue""",
  lambda a: (a.self.dt, I64))

D("""aten.real""",
  lambda a: (KNOWN('real-of-real', CPLX(a.self.dt)), real_of(a.self.dt))[1])

D("""aten.imag""",
  lambda a: (REQ(CPLX(a.self.dt), 'complex'), real_of(a.self.dt))[1])

D("""aten.fake_quantize_per_tensor_affine.tensor_qparams aten.fake_quantize_per_channel_affine""",
  fake_quant)

D("""aten._fake_quantize_per_tensor_affine_cachemask_tensor_qparams aten.fake_quantize_per_channel_affine_cachemask""",
  lambda a: (fake_quant(a), BOOL))

D("""aten.softplus prims.sqrt""",
  lambda a: IF(INT(a.self.dt), a.self.dt, flt_op(a.self.dt)))

D("""prims.sum prims.prod""",
  lambda a: (KNOWN('prims-sum-output-dtype', a.output_dtype is None), a.inp.dt)[1])

D("""aten.abs aten.absolute""",
  lambda a: real_of(a.self.dt))

D("""aten.group_norm aten.rms_norm""",
  lambda a: (REQ(NOT(INT(a.input.dt)), 'not integer'), a.input.dt)[1])

D("""aten._log_softmax_backward_data aten._softmax_backward_data""",
  lambda a: a.input_dtype)

D("""aten.tanh_backward aten.sigmoid_backward""",
  lambda a: PROMOTE(a.grad_output, a.output))

D("""prim.abs.Scalar prim.NumToTensor.Scalar""",
  lambda a: a.a.dt)

D("""aten.all aten.any""",
  lambda a: IF(EQ(a.self.dt, U8), U8, BOOL))

D("""aten.isneginf aten.isposinf""",
  lambda a: (REQ(NOT(CPLX(a.self.dt)), 'not complex'), BOOL)[1])

D("""aten.fft_fft aten.fft_ifft""",
  lambda a: IF(CPLX(a.self.dt), a.self.dt, complex_of(a.self.dt)))

D("""aten.stft aten.stft.center""",
  stft_dtype)

D("""aten._scaled_mm aten._scaled_mm_v2""",
  lambda a: a.self.dt if a.out_dtype is None else a.out_dtype)

D("""aten.mse_loss aten.l1_loss""",
  lambda a: not_integer(PROMOTE(a.self, a.target)))

D("""aten.linalg_vector_norm aten.linalg_norm""",
  norm_dtype)

D("""aten.tensor.float aten.linspace""",
  lambda a: F32 if a.dtype is None else a.dtype)

D("""aten.to.other aten.type_as""",
  lambda a: a.other.dt)

D("""aten.randn aten.randn.generator""",
  lambda a: F32 if a.dtype is None else not_integer(a.dtype))

D("""aten.var_mean.correction aten.var_mean""",
  lambda a: (real_of(not_integer(a.self.dt)), a.self.dt))

D("""aten._embedding_bag aten.embedding_bag.padding_idx""",
  lambda a: (a.weight.dt, I64, I64, I64))

D("""prims.squeeze prims.collapse""",
  lambda a: a.a.dt)

D("""aten.triu_indices aten.tril_indices""",
  lambda a: I64 if a.dtype is None else a.dtype)

D("""aten._make_per_channel_quantized_tensor aten._make_per_tensor_quantized_tensor""",
  lambda a: (PRE(OR(EQ(a.self.dt, U8), EQ(a.self.dt, I8), EQ(a.self.dt, I32))), IF(EQ(a.self.dt, U8), QUINT8, IF(EQ(a.self.dt, I8), QINT8, QINT32)))[1])

D("""quantized_decomposed.dequantize_per_tensor quantized_decomposed.dequantize_per_channel""",
  lambda a: F32 if a.out_dtype is None else a.out_dtype)

D("torchvision.roi_pool",
  lambda a: (a.input.dt, I64))

D("torchvision.nms",
  lambda a: I32)

D("aten._linalg_det",
  lambda a: (a.A.dt, a.A.dt, a.A.dt))

D("aten.var_mean.dim",
  lambda a: (PRE(NOT(INT(a.self.dt))), PRE(NOT(CPLX(a.self.dt))), (a.self.dt, a.self.dt))[2])

D("aten.scalar_tensor",
  lambda a: F32 if a.dtype is None else a.dtype)

D("aten.view_as_complex",
  lambda a: (PRE(FLT(a.self.dt)), PRE(NE(a.self.dt, BF16)), complex_of(a.self.dt))[2])

D("aten.view_as_real",
  lambda a: (REQ(CPLX(a.self.dt), 'complex'), real_of(a.self.dt))[1])

D("aten.sort",
  lambda a: (a.self.dt, I64))

D("aten.argsort",
  lambda a: I64)

D("aten.fake_quantize_per_tensor_affine",
  lambda a: (REQ(FLT(a.self.dt), 'float'), a.self.dt)[1])

D("aten.fake_quantize_per_tensor_affine_cachemask",
  lambda a: (REQ(FLT(a.self.dt), 'float'), (a.self.dt, BOOL))[1])

D("aten.rad2deg",
  lambda a: (REQ(NOT(CPLX(a.self.dt)), 'not complex'), flt_op(a.self.dt))[1])

D("aten.log_sigmoid",
  lambda a: (REQ(NE(a.self.dt, BOOL), 'not bool'), a.self.dt)[1])

D("aten.hann_window.periodic",
  hann)

D("aten.softshrink",
  lambda a: flt_op(not_integer(a.self.dt)))

D("aten.polar",
  polar)

D("aten.frobenius_norm.dim",
  lambda a: real_of(not_integer(a.self.dt)))

D("aten.native_group_norm",
  lambda a: (not_integer(a.input.dt), a.input.dt, a.input.dt))

D("aten._weight_norm_interface",
  weight_norm)

D("aten.broadcast_tensors",
  broadcast_tensors)

D("aten.cosine_similarity",
  lambda a: (REQ(EQ(a.x1.dt, a.x2.dt), 'same dtype'), REQ(FLT(a.x1.dt), 'float'), a.x1.dt)[2])

D("aten.clamp_min.Tensor",
  lambda a: PROMOTE(a.self, a.min))

D("aten.clamp.Tensor",
  lambda a: PROMOTE(*[t for t in (a.self, a.min, a.max) if t is not None]))

D("aten.grid_sampler",
  lambda a: a.input.dt)

D("aten.reflection_pad1d",
  lambda a: (PRE(EQ(LEN(a.padding), 2)), a.self.dt)[1])

D("aten.linalg_det",
  lambda a: not_integer(a.A.dt))

D("aten.native_dropout",
  lambda a: (a.input.dt, BOOL))

D("aten.elu_backward",
  lambda a: PROMOTE(a.grad_output, a.self_or_result))

D("aten.hardtanh_backward",
  lambda a: PROMOTE(a.grad_output, a.self))

D("aten.hardtanh",
  lambda a: (REQ(AND(NE(a.self.dt, U8), NE(a.self.dt, BOOL)), 'not uint8/bool'), a.self.dt)[1])

D("aten.layer_norm",
  lambda a: (not_integer(a.input.dt), REQ(NOT(CPLX(a.input.dt)), 'not complex'), a.input.dt)[2])

D("aten.linalg_cross",
  lambda a: (REQ(EQ(a.self.dt, a.other.dt), 'same dtype'), REQ(NE(a.self.dt, BOOL), 'not bool'), a.self.dt)[2])

D("aten.logaddexp",
  lambda a: (REQ(AND(NE(a.self.dt, BOOL), NE(a.other.dt, BOOL)), 'not bool'), PRE(EQ(a.self.dt, a.other.dt)), a.self.dt)[2])

D("aten.logaddexp2",
  lambda a: (REQ(AND(NE(a.self.dt, BOOL), NOT(CPLX(a.self.dt))), 'not bool/complex'), PRE(EQ(a.self.dt, a.other.dt)), a.self.dt)[2])

D("aten.pow.Tensor_Tensor",
  lambda a: bool_to_i64(PROMOTE(a.self, a.exponent)))

D("aten.prelu",
  lambda a: (REQ(EQ(a.self.dt, a.weight.dt), 'same dtype'), a.self.dt)[1])

D("aten.rrelu_with_noise",
  lambda a: (PRE(EQ(a.self.rank, a.noise.rank)), a.self.dt)[1])

D("aten.rrelu_with_noise_functional",
  lambda a: (PRE(EQ(a.self.rank, a.noise.rank)), (a.self.dt, a.noise.dt))[1])

D("aten.repeat_interleave.Tensor",
  lambda a: a.repeats.dt)

D("aten.linalg_slogdet",
  lambda a: (not_integer(a.A.dt), REQ(AND(NE(a.A.dt, F16), NE(a.A.dt, BF16)), 'not half'), (a.A.dt, real_of(a.A.dt)))[2])

D("aten.upsample_nearest2d_backward",
  lambda a: a.grad_output.dt)

D("aten.nll_loss_backward",
  lambda a: bool_to_i64(PROMOTE(a.self, a.grad_output)))

D("aten.max_pool2d_with_indices_backward",
  lambda a: (REQ(EQ(a.grad_output.dt, a.self.dt), 'same dtype'), a.self.dt)[1])

D("aten.scaled_dot_product_attention",
  lambda a: not_integer(a.query.dt))

D("aten.add",
  lambda a: PROMOTE(a.a, a.b))

D("aten.fft_rfft",
  lambda a: (REQ(NOT(CPLX(a.self.dt)), 'not complex'), complex_of(a.self.dt))[1])

D("aten.rsub.Scalar",
  lambda a: PROMOTE(a.self, a.other))

D("aten.ldexp.Tensor",
  ldexp)

D("aten.copysign.Tensor",
  lambda a: IF(AND(INT(a.self.dt), INT(a.other.dt)), F32, PROMOTE(a.self, a.other)))

D("aten.bmm",
  lambda a: (REQ(EQ(a.self.dt, a.mat2.dt), 'same dtype'), a.self.dt)[1])

D("aten.floor_divide",
  floor_div)

D("aten.div.Tensor",
  lambda a: true_div(PROMOTE(a.self, a.other), a))

D("aten.div.Tensor_mode",
  div_mode)

D("aten.floor_divide.Scalar",
  lambda a: (REQ(NOT(CPLX(a.self.dt)), 'not complex'), PROMOTE(a.self, a.other))[1])

D("aten.div.Scalar_mode",
  div_mode)

D("aten.dot",
  lambda a: (REQ(EQ(a.self.dt, a.tensor.dt), 'same dtype'), a.self.dt)[1])

D("aten.matmul",
  matmul)

D("aten.outer",
  lambda a: PROMOTE(a.self, a.vec2))

D("aten.mm",
  lambda a: (PRE(EQ(a.self.dt, a.mat2.dt)), a.self.dt)[1])

D("aten._int_mm",
  lambda a: (REQ(AND(EQ(a.self.dt, I8), EQ(a.mat2.dt, I8)), 'int8'), I32)[1])

D("aten.kl_div",
  lambda a: PROMOTE(a.self, a.target))

D("aten.mv",
  lambda a: PROMOTE(a.self, a.vec))

D("aten.threshold_backward",
  lambda a: (REQ(AND(NOT(CPLX(a.grad_output.dt)), NOT(CPLX(a.self.dt))), 'not complex'), not_bool(PROMOTE(a.grad_output, a.self)))[1])

D("aten.conv_tbc",
  lambda a: conv_dtype(a.self, a.weight))

D("aten.convolution_backward",
  lambda a: (a.grad_output.dt, a.grad_output.dt, a.grad_output.dt))

D("aten.bincount",
  lambda a: (REQ(AND(INT(a.self.dt), NE(a.self.dt, BOOL)), 'integer'), I64 if a.weights is None else F64)[1])

D("aten.addmm",
  lambda a: PROMOTE(a.self, a.mat1, a.mat2))

D("aten.addbmm",
  lambda a: (PRE(AND(EQ(a.self.dt, a.batch1.dt), EQ(a.self.dt, a.batch2.dt))), a.self.dt)[1])

D("aten.lerp.Tensor",
  lambda a: PROMOTE(a.self, a.end, a.weight))

D("aten.lerp.Scalar",
  lambda a: PROMOTE(a.self, a.end))

D("aten.addcmul",
  lambda a: PROMOTE(a.self, a.tensor1, a.tensor2))

D("aten.addcdiv",
  lambda a: PROMOTE(a.self, a.tensor1, a.tensor2))

D("aten.div.Scalar",
  lambda a: IF(INT(PROMOTE(a.self, a.other)), F32, PROMOTE(a.self, a.other)))

D("aten.pow.Scalar",
  lambda a: PROMOTE(a.self, a.exponent))

D("aten.pow.Tensor_Scalar",
  lambda a: PROMOTE(a.self, a.exponent))

D("aten.leaky_relu",
  lambda a: (REQ(NE(a.self.dt, BOOL), 'not bool'), REQ(OR(NOT(INT(a.self.dt)), INT(a.negative_slope.dt)), 'integer self needs an integer slope'), PROMOTE(a.self, a.negative_slope))[2])

D("aten.elu",
  lambda a: (REQ(NE(a.self.dt, BOOL), 'not bool'), REQ(OR(NOT(INT(a.self.dt)), AND(INT(a.alpha.dt), INT(a.scale.dt), INT(a.input_scale.dt))), 'integer self needs integer parameters'), a.self.dt)[2])

D("aten.selu",
  lambda a: not_integer(a.self.dt))

D("aten.baddbmm",
  lambda a: (REQ(AND(NE(a.batch1.dt, BOOL), NE(a.batch2.dt, BOOL)), 'not bool'), REQ(EQ(a.batch1.dt, a.batch2.dt), 'same dtype'), PRE(EQ(a.self.dt, a.batch1.dt)), a.self.dt)[3])

D("aten.where.self",
  lambda a: PROMOTE(a.self, a.other))

D("aten.where.Scalar",
  lambda a: I64 if a.self.dt == I64 and a.other.dt == I64 else F32)

D("aten.where.ScalarSelf",
  lambda a: PROMOTE(a.self, a.other))

D("aten.heaviside",
  lambda a: PROMOTE(a.self, a.values))

D("aten.nll_loss_forward",
  lambda a: (PRE(AND(FLT(a.self.dt), True if a.weight is None else EQ(a.weight.dt, a.self.dt))), REQ(OR(EQ(a.target.dt, I64), EQ(a.target.dt, I32)), 'target index'), (a.self.dt, a.self.dt))[2])

D("aten.poisson_nll_loss",
  lambda a: (PRE(AND(FLT(a.input.dt), EQ(a.target.dt, a.input.dt))), KNOWN('poisson-nll-half', AND(NE(a.input.dt, F16), NE(a.input.dt, BF16))), a.input.dt)[2])

D("aten.native_layer_norm",
  lambda a: (not_integer(a.input.dt), REQ(NOT(CPLX(a.input.dt)), 'not complex'), KNOWN('native-layer-norm-half-stats', AND(NE(a.input.dt, F16), NE(a.input.dt, BF16))), (a.input.dt, a.input.dt, a.input.dt))[3])

D("aten.one_hot",
  lambda a: (REQ(EQ(a.self.dt, I64), 'int64'), I64)[1])

D("aten.native_batch_norm",
  lambda a: (PRE(NOT(INT(a.input.dt))), KNOWN('native-batch-norm-half-stats', AND(NE(a.input.dt, F16), NE(a.input.dt, BF16))), (a.input.dt, a.input.dt, a.input.dt))[2])

D("aten.arange",
  lambda a: arange(a, a.end))

D("aten.arange.start",
  lambda a: arange(a, a.start, a.end))

D("aten.arange.start_step",
  lambda a: arange(a, a.start, a.end, a.step))

D("aten.sum.dim_IntList",
  lambda a: sum_dtype(a.self.dt, a.dtype))

D("aten.mean.dim",
  lambda a: not_integer(sum_dtype(a.self.dt, a.dtype)))

D("aten.min.other",
  lambda a: PROMOTE(a.self, a.other))

D("aten.max.other",
  lambda a: PROMOTE(a.self, a.other))

D("aten.amax",
  lambda a: a.self.dt)

D("aten.max.dim",
  lambda a: (a.self.dt, I64))

D("aten.amin",
  lambda a: a.self.dt)

D("aten.min.dim",
  lambda a: (a.self.dt, I64))

D("aten.aminmax",
  lambda a: (a.self.dt, a.self.dt))

D("aten.mean",
  lambda a: not_integer(sum_dtype(a.self.dt, a.dtype)))

D("aten.std",
  lambda a: real_of(a.self.dt))

D("prims.var",
  lambda a: real_of(a.inp.dt))

D("aten.renorm",
  lambda a: not_integer(a.self.dt))

D("aten.norm.Scalar",
  lambda a: real_of(not_integer(a.self.dt)))

D("aten.tensor.int",
  lambda a: I64 if a.dtype is None else a.dtype)

D("aten.tensor.bool",
  lambda a: BOOL if a.dtype is None else a.dtype)

D("aten.full",
  lambda a: (F32 if a.fill_value.dt == F64 else a.fill_value.dt) if a.dtype is None else a.dtype)

D("aten.randn_like",
  lambda a: not_integer(a.self.dt if a.dtype is None else a.dtype))

D("aten.randint.low",
  lambda a: I64 if a.dtype is None else (REQ(NOT(CPLX(a.dtype)), 'not complex'), a.dtype)[1])

D("aten.normal_functional",
  lambda a: not_integer(a.self.dt))

D("aten.atan2",
  lambda a: IF(INT(PROMOTE(a.self, a.other)), F32, PROMOTE(a.self, a.other)))

D("aten.linear",
  lambda a: PROMOTE(a.input, a.weight))

D("aten.bilinear",
  lambda a: PROMOTE(a.input1, a.input2, a.weight))

D("aten._trilinear",
  lambda a: PROMOTE(a.i1, a.i2, a.i3))

D("aten.trace",
  lambda a: IF(INT(a.self.dt), I64, a.self.dt))

D("aten.ScalarImplicit",
  lambda a: (REQ(NOT(CPLX(a.a.dt)), 'not complex'), IF(EQ(a.a.dt, BOOL), BOOL, IF(INT(a.a.dt), I64, F64)))[1])

D("aten._softmax",
  lambda a: half_to_float(a, (F16, BF16)))

D("aten._safe_softmax",
  lambda a: a.self.dt if a.dtype is None else a.dtype)

D("aten._log_softmax",
  lambda a: half_to_float(a, (F16,)))

D("aten.embedding",
  lambda a: a.weight.dt)

D("aten.bucketize.Tensor",
  lambda a: IF(a.out_int32, I32, I64))

D("aten.int_repr",
  lambda a: IF(EQ(a.self.dt, QUINT8), U8, IF(EQ(a.self.dt, QINT8), I8, I32)), dom=(QINT8, QUINT8, QINT32))

D("aten.rrelu_with_noise_backward",
  lambda a: (PRE(EQ(a.noise.dt, a.self.dt)), PROMOTE(a.grad_output, a.self))[1])
