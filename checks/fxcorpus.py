"""Programs for the importer: each case builds a program, imports it with the
recorder and evaluates the imported function (see fxeval)."""
import math
import random

import torch
from torch.export import Dim
from torch.fx.experimental.proxy_tensor import make_fx

from checks import fxeval as E

CASES = []  # (properties, name, thunk)


def case(*props):
    def deco(f):
        CASES.append((set(props), f.__name__, f))
        return f

    return deco


def mod(fwd, **state):
    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            for k, v in state.items():
                if isinstance(v, torch.nn.Parameter):
                    setattr(self, k, v)
                elif isinstance(v, tuple):  # non-persistent buffer
                    self.register_buffer(k, v[0], persistent=False)
                elif isinstance(v, torch.Tensor):
                    self.register_buffer(k, v)
                else:
                    setattr(self, k, v)

        def forward(self, *args):
            return fwd(self, *args)

    # torch.export wants named parameters
    import inspect

    names = list(inspect.signature(fwd).parameters)[1:]
    src = f"def forward(self, {', '.join(names)}):\n    return _f(self, {', '.join(names)})\n"
    ns = {"_f": fwd}
    exec(src, ns)
    M.forward = ns["forward"]
    return M()


def export(m, inputs, decompose=False, **kw):
    with torch.no_grad():
        p = torch.export.export(m, inputs, **kw)
        return p.run_decompositions() if decompose else p


def program(fwd, *inputs, more=(), symbolic=False, frozen=False, decompose=False, state=None, **kw):
    p = export(mod(fwd, **(state or {})), inputs, decompose, **kw)
    E.run_program(p, [inputs, *more], symbolic=symbolic, frozen=frozen)


def graph(f, *inputs, more=(), mode="real", **kw):
    E.run_graph(make_fx(f, tracing_mode=mode, **kw)(*E.clone(inputs)), [inputs, *more])


g = torch.Generator().manual_seed(7)


def R(*s):
    return torch.randn(*s, generator=g)


def I(*s, hi=9, dtype=torch.int64):
    return torch.randint(-hi, hi, s, generator=g).to(dtype)


# ------------------------------------------------------------------ dataflow
@case("C12")
def arithmetic():
    graph(lambda x, y: (x + y, x - y * 3, torch.sub(x, y, alpha=2), torch.add(x, 1.5), torch.rsub(x, 2), -x, x / y, y // 2 if False else y), R(2, 3), R(2, 3))


@case("C12")
def operand_order():
    graph(lambda x, y, z: (torch.addcmul(x, y, z, value=0.5), torch.addcdiv(z, x, y, value=2), torch.where(x > 0, y, z), torch.lerp(x, y, z), torch.addmm(x, y, z, beta=2, alpha=3)), R(3, 3), R(3, 3), R(3, 3))


@case("C12")
def multiple_results():
    def f(x):
        a, b = torch.max(x, 1)
        c, d = torch.topk(x, 2, 0)
        e, h, k = torch.native_layer_norm(x, [4], None, None, 1e-5)
        v, m = torch.var_mean(x, 0)
        return b, a, d, c, k, h, e, m, v

    graph(f, R(3, 4))


@case("C12")
def some_results_unused():
    def f(x):
        return torch.max(x, 1)[1], torch.native_layer_norm(x, [4], None, None, 1e-5)[2], torch.topk(x, 2, 1)[0]

    graph(f, R(3, 4))


@case("C12")
def list_results():
    def f(x):
        a = torch.split(x, [1, 2, 1], 1)
        b = torch.unbind(x, 0)
        c = torch.chunk(x, 2, 1)
        return a[2], a[0], a[1], b[1] * 2, b[0], c[1], b[2]

    graph(f, R(3, 4))


@case("C12")
def split_program():
    program(lambda s, x: (torch.split(x, [1, 2, 1], 1)[1], torch.split(x, 2, 1), torch.unbind(x, 0)[-1]), R(3, 4))


@case("C12")
def list_arguments():
    graph(lambda x, y: (torch.cat([y, x, y], 1), torch.stack([x, y], 2), x.permute(1, 0), x.reshape(4, 3), torch.flip(x, [1]), x.sum([0], keepdim=True), torch.nn.functional.pad(x, [1, 2], value=3.0), torch.einsum("ij,kj->ik", x, y)), R(3, 4), R(3, 4))


@case("C12")
def optional_list():
    i = torch.tensor([1, 0])
    graph(lambda x, i: (torch.ops.aten.index.Tensor(x, [None, i]), torch.ops.aten.index.Tensor(x, [i]), torch.ops.aten.index_put.default(x, [i, i], torch.ones(2), True), torch.ops.aten.upsample_nearest2d.vec(x.reshape(1, 1, 3, 4), None, [2.0, 2.0])), R(3, 4), i)


@case("C12")
def scalar_tensor_overloads():
    A = torch.ops.aten

    def f(x, i):
        return A.add.Tensor(x, 2), A.mul.Tensor(x, 2.5), A.sub.Tensor(x, 3, alpha=2), A.div.Tensor(x, 2), A.floor_divide.default(i, 2), A.bitwise_and.Tensor(i, 3) if False else i, A.add.Tensor(x, i), A.mul.Tensor(i, 3), A.eq.Scalar(x, 0.0)

    graph(f, R(2, 3), I(2, 3))


@case("C12")
def scalar_as_tensor():
    from torch._subclasses.fake_tensor import FakeTensorMode

    A = torch.ops.aten
    for target, args, res in (
        (A.eq.Tensor, lambda x: (x, 2), torch.bool),
        (A.where.self, lambda x: (x, 5, 7), torch.int64),
        (A.maximum.default, lambda x: (x, 1), torch.int64),
        (A.bitwise_and.Tensor, lambda x: (x, 3), torch.int64),
    ):
        gr = torch.fx.Graph()
        x = gr.placeholder("x")
        n = gr.call_function(target, args(x))
        gr.output((n,))
        dt = torch.bool if target is A.where.self else torch.int64
        with FakeTensorMode() as fm:
            x.meta["val"] = torch.empty(2, 3, dtype=dt)
            n.meta["val"] = torch.empty(2, 3, dtype=res)
        gm = torch.fx.GraphModule(torch.nn.Module(), gr)
        v = I(2, 3, hi=3) if dt is torch.int64 else I(2, 3, hi=3) > 0
        want = target(*[a if a is x and False else (v if a is x else torch.tensor(a)) for a in args(x)])
        imp = E.importer()
        op = imp.import_graph_module(gm, func_name="main")
        got = E.Machine(imp).call(op.name_, [v])
        if len(got) != 1 or not E.same(got[0], want):
            raise E.Wrong(f"{target} with a number: {E.show(got[0])}, expected {E.show(want)}")


@case("C12")
def kinds_of_arguments():
    def f(x):
        return (
            x.to(torch.float64), x.to(torch.int32), torch.zeros([2, 3], dtype=torch.int16), torch.full([2], 7), torch.full([2], 1.5, dtype=torch.float16),
            torch.arange(1, 7, 2), torch.ones([1], dtype=torch.bool), torch.empty([0]), torch.clone(x, memory_format=torch.contiguous_format),
            torch.nn.functional.gelu(x, approximate="tanh"), torch.cumsum(x, 1, dtype=torch.float64), torch.sum(x, dtype=torch.float64), torch.full([2], True), torch.full_like(x, 3), torch.scalar_tensor(2.5),
        )

    graph(f, R(2, 3))


@case("C12")
def keywords():
    graph(lambda x, w: (torch.nn.functional.conv2d(x, w, stride=(2, 1), padding=(1, 0)), torch.nn.functional.avg_pool2d(x, 2, count_include_pad=False, ceil_mode=True), torch.nn.functional.max_pool2d(x, 3, stride=1, padding=1), torch.nn.functional.interpolate(x, scale_factor=2.0), torch.clamp(x, max=0.2), torch.clamp(x, min=0.1), torch.argmax(x, dim=1, keepdim=True), torch.norm(x)), R(1, 2, 6, 6), R(3, 2, 3, 3))


@case("C12")
def shared_and_duplicate_results():
    graph(lambda x: (lambda y: (y, x, y, y + y, y * x))(x.exp()), R(3))


@case("C12")
def nested_output():
    program(lambda s, x: {"a": x + 1, "b": (x * 2, [x - 1])}, R(3))


@case("C12")
def constants_in_graph():
    graph(lambda x: (x[torch.tensor([1, 0])], x + torch.tensor([1.0, 2.0]), x * torch.tensor(3.0)), R(2), mode="real")


@case("C12")
def getattr_reused():
    # one get_attr node, used twice and inside a list
    gr = torch.fx.Graph()
    x = gr.placeholder("x")
    c = gr.get_attr("c")
    a = gr.call_function(torch.ops.aten.add.Tensor, (x, c))
    b = gr.call_function(torch.ops.aten.mul.Tensor, (a, c))
    d = gr.call_function(torch.ops.aten.cat.default, ([c, b],))
    gr.output((a, b, d))
    root = torch.nn.Module()
    root.register_buffer("c", torch.tensor([1.0, 2.0]))
    from torch._subclasses.fake_tensor import FakeTensorMode

    with FakeTensorMode():
        for n, k in ((x, 2), (a, 2), (b, 2), (d, 4)):
            n.meta["val"] = torch.empty(k)
    E.run_graph(torch.fx.GraphModule(root, gr), [(R(2),)])


@case("C12")
def single_output_node():
    graph(lambda x: x * 2, R(3))


@case("C12")
def random_graphs(n=14, seed=1):
    A = torch.ops.aten
    for t in range(n):
        rnd = random.Random(seed * 1000 + t)

        def build(*xs):
            vals = list(xs)
            outs = []
            for _ in range(rnd.randint(4, 12)):
                p = lambda: rnd.choice(vals)
                k = rnd.randint(0, 13)
                if k == 0:
                    v = A.add.Tensor(p(), p(), alpha=rnd.choice([1, 2]))
                elif k == 1:
                    v = A.sub.Tensor(p(), p())
                elif k == 2:
                    v = A.mul.Tensor(p(), rnd.choice([2, 0.5]))
                elif k == 3:
                    a, b = A.max.dim(p(), rnd.choice([0, 1]), True)
                    v = a + b if rnd.random() < 0.5 else A.expand.default(a, [3, 3])
                    v = A.expand.default(v, [3, 3])
                elif k == 4:
                    s = A.split_with_sizes.default(p(), [1, 2], rnd.choice([0, 0]))
                    v = A.cat.default([s[1], s[0]], 0)
                elif k == 5:
                    v = A.permute.default(p(), [1, 0])
                elif k == 6:
                    v = A.where.self(A.gt.Tensor(p(), p()), p(), p())
                elif k == 7:
                    v = A.addmm.default(p(), p(), p(), beta=rnd.choice([1, 2]))
                elif k == 8:
                    v = A.clamp.default(p(), None, 1.0) if rnd.random() < 0.5 else A.clamp.default(p(), -0.5)
                elif k == 9:
                    u = A.unbind.int(p(), 1)
                    v = A.stack.default([u[2], u[0], u[1]], rnd.choice([0, 1]))
                elif k == 10:
                    v = A.roll.default(p(), [1], [rnd.choice([0, 1])])
                elif k == 11:
                    v = A.tanh.default(p())
                elif k == 12:
                    v = A.sum.dim_IntList(p(), [rnd.choice([0, 1])], True) + p()
                else:
                    v = A.index.Tensor(p(), [None, torch.tensor([2, 0, 1])])
                vals.append(v)
            rnd.shuffle(vals)
            return tuple(vals[: rnd.randint(1, 4)])

        ins = tuple(R(3, 3) for _ in range(rnd.randint(1, 3)))
        gm = make_fx(build)(*ins)
        rnd.seed(seed * 1000 + t)
        E.run_graph(gm, [ins, tuple(R(3, 3) for _ in ins)])


@case("C12")
def symbolic_scalars():
    import operator as O

    class Two(torch.nn.Module):
        def forward(self, x, y):
            n, m = x.shape[0], y.shape[0]
            return n + m, n - m, n * m, n // 2, n % 3, n * 2 + 1, 7 - n, x.reshape(n // 1, 3), torch.zeros(n + m), -n

    d, e = Dim("d", min=2, max=100), Dim("e", min=2, max=100)
    p = export(Two(), (R(4, 3), R(5)), dynamic_shapes={"x": {0: d}, "y": {0: e}})
    E.run_program(p, [(R(4, 3), R(5)), (R(7, 3), R(3))])


SCALAR_OPS = ["truediv", "mul", "add", "sub", "lt", "le", "ge", "ne", "gt", "mod", "eq", "floordiv", "neg"]


@case("C12")
def scalar_op_table(values=((7, 2), (2, 7), (-7, 2), (7, -2), (3, 3), (-4, -4))):
    """every builtin on every mix of int and float operands, symbolic or literal"""
    import itertools
    import operator as O

    from torch.fx.experimental.symbolic_shapes import ShapeEnv

    env = ShapeEnv()
    si, sf = env.create_unbacked_symint(), env.create_unbacked_symfloat()
    fx = E.FX()
    reg = {"remainder.int", "lt.float_int", "ge.float_int", "ne.float_int", "gt.float_int", "add.float_int"}
    for name in SCALAR_OPS:
        f = getattr(O, name)
        arity = 1 if name == "neg" else 2
        for kinds in itertools.product((("node", int), ("node", float), ("lit", int), ("lit", float)), repeat=arity):
            if all(k == "lit" for k, _ in kinds):
                continue
            for vals in values:
                vals = [t(v) + (0.5 if t is float else 0) for (_, t), v in zip(kinds, vals)]
                gr = torch.fx.Graph()
                args, ins = [], []
                for j, ((k, t), v) in enumerate(zip(kinds, vals)):
                    if k == "lit":
                        args.append(v)
                        continue
                    pnode = gr.placeholder(f"p{j}")
                    pnode.meta["val"] = si if t is int else sf
                    args.append(pnode)
                    ins.append(v)
                n = gr.call_function(f, tuple(args))
                want = f(*vals)
                if isinstance(want, bool):
                    n.meta["val"] = si > 5
                else:
                    n.meta["val"] = si if isinstance(want, int) else sf
                gr.output((n,))
                gm = torch.fx.GraphModule(torch.nn.Module(), gr)
                imp = E.importer()
                try:
                    op = imp.import_graph_module(gm, func_name="main")
                except (AttributeError, AssertionError, NotImplementedError):
                    continue  # rejected, not mis-imported
                try:
                    got = E.Machine(imp).call(op.name_, ins)
                except AttributeError:
                    continue  # no such overload in this PyTorch: the op stays unregistered
                if len(got) != 1 or not E.same(got[0], want):
                    raise E.Wrong(f"{name}{tuple(vals)} ({kinds}) is imported as {[o.name for o, _ in E.mlir_rec.LOG if hasattr(o, 'result_types')][-1]} and gives {got}, expected {want}")


@case("C12")
def bool_conversion():
    A = torch.ops.aten
    graph(lambda x: (A.full.default([2, 2], True), A.full.default([2], False, dtype=torch.int64), A.add.Scalar(x, True)), I(2, 2))


@case("C12")
def canonical_forms():
    graph(lambda x: (torch.ops.aten.lift_fresh_copy.default(x), torch.ops.aten._unsafe_index_put.default(x, [torch.tensor([0])], torch.ones(1, 3))), R(2, 3))


@case("C12")
def embedding_bag():
    A = torch.ops.aten
    w, i, o = R(5, 3), torch.tensor([1, 2, 4, 0]), torch.tensor([0, 2])
    for args, kw in (((w, i, o), {}), ((w, i, o, False, 1), {}), ((w, i, o, False, 0, False, R(4)), {}), ((w, i, o), {"mode": 1}), ((w, i, o, False, 2, False, None, False, 1), {}), ((w, i, o), {"padding_idx": 2})):
        gm = make_fx(lambda *t: A._embedding_bag_forward_only.default(*t, *args[3:], **kw)[0])(w, i, o)
        try:
            E.run_graph(gm, [(w, i, o)])
        except E.Wrong as e:
            raise E.Wrong(f"_embedding_bag_forward_only{args[3:]}{kw}: {e}")
    # "no padding index" given in so many words
    for args, kw in (((False, 0, False, None, False, -1), {}), ((), {"padding_idx": -1}), ((False, 0), {"padding_idx": -2})):
        gm = make_fx(lambda *t: A._embedding_bag_forward_only.default(*t)[0])(w, i, o)
        for n in gm.graph.nodes:
            if n.target is A._embedding_bag_forward_only.default:
                n.args, n.kwargs = n.args[:3] + args, kw
        gm.recompile()
        try:
            E.run_graph(gm, [(w, i, torch.tensor([0, 3]))])
        except E.Wrong as e:
            raise E.Wrong(f"_embedding_bag_forward_only{args}{kw}: {e}")


@case("C12")
def local_scalar_dense():
    A = torch.ops.aten
    from torch._subclasses.fake_tensor import FakeTensorMode
    from torch.fx.experimental.symbolic_shapes import ShapeEnv
    from torch.fx.passes.shape_prop import _extract_tensor_metadata

    env = ShapeEnv()
    for dt, sym in ((torch.float32, env.create_unbacked_symfloat()), (torch.int64, env.create_unbacked_symint()), (torch.float64, env.create_unbacked_symfloat()), (torch.int32, env.create_unbacked_symint()), (torch.bool, env.create_unbacked_symbool())):
        gr = torch.fx.Graph()
        x = gr.placeholder("x")
        n = gr.call_function(A._local_scalar_dense.default, (x,))
        gr.output((n,))
        with FakeTensorMode():
            x.meta["val"] = torch.empty((), dtype=dt)
        x.meta["tensor_meta"] = _extract_tensor_metadata(torch.empty((), dtype=dt))
        n.meta["val"] = sym
        v = torch.tensor(3).to(dt)
        E.run_graph_expect(torch.fx.GraphModule(torch.nn.Module(), gr), [v], [v.item()])


@case("C12")
def while_loop():
    from torch._higher_order_ops.while_loop import while_loop as wl

    class M(torch.nn.Module):
        def forward(self, i, x):
            return wl(lambda i, x: i < 4, lambda i, x: (i + 1, x * 2 + i), (i, x))

    p = export(M(), (torch.tensor(0), R(3)))
    E.run_program(p, [(torch.tensor(0), R(3)), (torch.tensor(9), R(3))])


@case("C12")
def while_loop_one_value():
    from torch._higher_order_ops.while_loop import while_loop as wl

    class M(torch.nn.Module):
        def forward(self, x):
            return wl(lambda x: x.sum() < 40, lambda x: (x * 2 + 1,), (x,))

    E.run_program(export(M(), (torch.zeros(2),)), [(torch.zeros(2),), (torch.ones(2) * 50,)])


@case("C12")
def while_loop_captured():
    from torch._higher_order_ops.while_loop import while_loop as wl

    class M(torch.nn.Module):
        def forward(self, i, x, y):
            return wl(lambda i, x: i < y.sum(), lambda i, x: (i + 1, x + y), (i, x))

    ins = (torch.tensor(0), torch.zeros(2, dtype=torch.int64), torch.tensor([1, 2]))
    E.run_program(export(M(), ins), [ins, (torch.tensor(1), torch.ones(2, dtype=torch.int64), torch.tensor([2, 2]))])


@case("C12", "C14")
def two_while_loops():
    from torch._higher_order_ops.while_loop import while_loop as wl

    class M(torch.nn.Module):
        def forward(self, i, x):
            a, b = wl(lambda i, x: i < 4, lambda i, x: (i + 1, x * 2), (i, x))
            c, d = wl(lambda i, x: i < 7, lambda i, x: (i + 2, x + 1), (a, b))
            return d, c, b

    E.run_program(export(M(), (torch.tensor(0), R(3))), [(torch.tensor(0), R(3))])


@case("C12")
def auto_functionalized():
    if not hasattr(torch.ops, "verif_fx") or not hasattr(torch.ops.verif_fx, "acc"):
        lib = torch.library.Library("verif_fx", "DEF")
        lib.define("acc(Tensor(a!) x, Tensor y, float k, Tensor(b!) z) -> ()")
        lib.define("accr(Tensor(a!) x, Tensor y) -> Tensor")

        def acc(x, y, k, z):
            x.add_(y * k)
            z.sub_(y)

        def accr(x, y):
            x.add_(y)
            return y * 2

        lib.impl("acc", acc, "CompositeExplicitAutograd")
        lib.impl("accr", accr, "CompositeExplicitAutograd")
        globals()["_LIB"] = lib
    from torch._higher_order_ops.auto_functionalize import auto_functionalized
    from torch._subclasses.fake_tensor import FakeTensorMode

    fm = FakeTensorMode()
    for op, kw, val, names in (
        (torch.ops.verif_fx.acc.default, lambda x, y: {"x": x, "y": y, "k": 2.0, "z": y}, lambda: [None, fm.from_tensor(R(2)), fm.from_tensor(R(3))], (1, 2)),
        (torch.ops.verif_fx.accr.default, lambda x, y: {"y": y, "x": x}, lambda: [fm.from_tensor(R(3)), fm.from_tensor(R(2))], (1, 0)),
    ):
        import operator

        from torch.fx.passes.shape_prop import _extract_tensor_metadata

        gr = torch.fx.Graph()
        x, y = gr.placeholder("x"), gr.placeholder("y")
        n = gr.call_function(auto_functionalized, (op,), kw(x, y))
        gs = [gr.call_function(operator.getitem, (n, i)) for i in names]
        gr.output(tuple(gs))
        # metadata as AOT export records it
        v = val()
        n.meta["val"] = tuple(None if t is None else _extract_tensor_metadata(t) for t in v)
        for q, t in ((x, R(2)), (y, R(3))):
            q.meta["val"] = fm.from_tensor(t)
        for q, i in zip(gs, names):
            q.meta["val"] = v[i]
        imp = E.importer()
        E.mlir_rec.Context.current.registered = lambda nm: "verif_fx" not in nm
        fop = imp.import_graph_module(torch.fx.GraphModule(torch.nn.Module(), gr), func_name="main")
        ops = [o for o, _ in E.mlir_rec.LOG if getattr(o, "name", "") == "torch.operator"]
        if len(ops) != 1:
            raise E.Wrong(f"auto_functionalized emits {len(ops)} operations")
        o = ops[0]
        a = fop.body.blocks[0].arguments
        kwv = kw(a[0], a[1])
        for got, ar in zip(o.operands, op._schema.arguments):
            w = kwv[ar.name]
            if got is not w and not (isinstance(w, float) and got.owner.name == "torch.constant.float" and got.owner.attributes["value"].payload[1] == w):
                raise E.Wrong(f"operand {ar.name} of {o.attributes}: {got}")
        off = 1 if not op._schema.returns else 0
        ret = fop.body.blocks[0].operations[-1].operands
        want = [o.results[i - off] for i in names]
        if len(o.operands) != len(op._schema.arguments) or [id(q) for q in ret] != [id(q) for q in want]:
            raise E.Wrong(f"results of auto_functionalized: returns {ret}, expected {want}")


@case("C12")
def import_twice():
    """importing does not change the graph: a second import gives the same"""
    import operator

    p = export(mod(lambda s, x: (torch.zeros(3, x.shape[0] * 2 + 1), x + 1)), (R(4, 3),), dynamic_shapes={"x": {0: Dim("d", min=2, max=100)}})
    for n in p.graph.nodes:  # symbolic scalar times a float literal
        if n.op == "call_function" and n.target is operator.mul:
            with p.graph.inserting_after(n):
                h = p.graph.call_function(operator.mul, (2.5, n))
                h.meta["val"] = 2.5 * n.meta["val"]
            break
    E.run_program(p, [(R(4, 3),)])
    E.run_program(p, [(R(6, 3),)])


# ------------------------------------------------------------------ literals and types
@case("C13", "C14")
def literals():
    DT = [torch.float16, torch.bfloat16, torch.float32, torch.float64, torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64, torch.bool, torch.complex64, torch.complex128,
          torch.float8_e5m2, torch.float8_e4m3fn, torch.float8_e5m2fnuz, torch.float8_e4m3fnuz]
    base = torch.tensor([[0.0, 1.0, -2.5], [3.0, 120.0, 0.125]], dtype=torch.float64)
    tens = []
    for dt in DT:
        for f in (lambda b: b, lambda b: b.t(), lambda b: b[:, 1], lambda b: b[0, 1], lambda b: b[:, 1:2][:1], lambda b: b[:0], lambda b: b.reshape(1, 2, 1, 3), lambda b: b[:, :0], lambda b: b[0, 2]):
            v = f(base)
            if dt is torch.uint8:
                v = v.abs()
            tens.append(v.to(dt) if not (dt.is_complex) else (v + 1j * v).to(dt))
    tens += [torch.tensor([2**62 + 1, -(2**63)]), torch.tensor(2**53 + 1), torch.tensor([1e-40, 3.4e38, float("inf"), float("nan")]), torch.tensor([0.1], dtype=torch.float64)]
    fx = E.FX()
    imp = E.importer()
    imp2 = fx.FxImporter
    for chunk in range(0, len(tens), 8):
        ts = tens[chunk : chunk + 8]
        gr = torch.fx.Graph()
        root = torch.nn.Module()
        ns = []
        for i, t in enumerate(ts):
            setattr(root, f"c{i}", t)
            n = gr.get_attr(f"c{i}")
            from torch._subclasses.fake_tensor import FakeTensorMode

            with FakeTensorMode():
                n.meta["val"] = torch.empty(t.shape, dtype=t.dtype)
            ns.append(n)
        gr.output(tuple(ns))
        E.run_graph_expect(torch.fx.GraphModule(root, gr), [], ts)


@case("C13")
def literals_are_not_shared():
    """many tensors that live one after another, and one that is used twice"""
    imp = E.importer()
    fx = E.FX()
    fn = imp._cc
    blk = E.mlir_rec.Block()
    gni = fx.GraphNodeImporter(imp, imp._c, imp._cc, blk)
    vals = []
    with E.mlir_rec.InsertionPoint(blk):
        for i in range(200):
            t = torch.full((2,), float(i))
            vals.append((gni._import_literal(t), float(i)))
            del t
        u = torch.tensor([5.0, 6.0])
        a, b = gni._import_literal(u), gni._import_literal(u)
        w = torch.tensor([5.0, 7.0])
        c = gni._import_literal(w)
    for v, x in vals:
        if not E.same(E.literal(v.owner), torch.full((2,), x)):
            raise E.Wrong(f"the literal of a tensor holding {x} holds {E.literal(v.owner)}")
    for v, x in ((a, u), (b, u), (c, w)):
        if not E.same(E.literal(v.owner), x):
            raise E.Wrong(f"the literal of {x} holds {E.literal(v.owner)}")


@case("C13")
def scalars():
    gr = torch.fx.Graph()
    x = gr.placeholder("x")
    from torch._subclasses.fake_tensor import FakeTensorMode

    with FakeTensorMode():
        x.meta["val"] = torch.empty(2)
    vs = [0, 1, -1, 2**62, -(2**63), 2**63 - 1, 0.0, -0.0, 1e300, 0.1, float("inf"), True, False, None, "a b", ""]
    gr.output((x, *vs))
    E.run_graph_expect(torch.fx.GraphModule(torch.nn.Module(), gr), [R(2)], None, tail=vs)


@case("C13")
def dtype_arguments():
    A = torch.ops.aten
    for dt in E.FX().TORCH_DTYPE_TO_INT:
        if dt.is_complex and dt is torch.complex32 or "float4" in str(dt) or "e8m0" in str(dt):
            continue
        graph(lambda x: (A._to_copy.default(x, dtype=dt), A.zeros.default([2, 1], dtype=dt)), R(2, 3).abs())


@case("C13")
def memory_formats():
    A = torch.ops.aten
    for mf in (torch.contiguous_format, torch.preserve_format, torch.channels_last):
        gm = make_fx(lambda x: A.clone.default(x, memory_format=mf))(R(1, 2, 3, 4))
        imp = E.importer()
        imp.import_graph_module(gm, func_name="main")
        code = [o.attributes["value"].payload[1] for o, _ in E.mlir_rec.LOG if getattr(o, "name", "") == "torch.constant.int"]
        want = {torch.contiguous_format: 0, torch.preserve_format: 1, torch.channels_last: 2}[mf]
        if code != [want]:
            raise E.Wrong(f"{mf} is imported as {code}, c10::MemoryFormat says {want}")


@case("C13")
def sparse_inputs():
    enc = E.FX().sparsity_encoding
    from checks import sparse_spec

    for t in sparse_spec.samples():
        r = sparse_spec.disagreement(t, enc(t))
        if r:
            raise E.Wrong(f"{t.layout} {tuple(t.shape)}: {enc(t)}: {r}")


# ------------------------------------------------------------------ signature
@case("C14")
def parameters_and_buffers():
    program(lambda s, x: (x * s.w + s.b, s.c - x), R(3), state=dict(w=torch.nn.Parameter(R(3)), b=R(3), c=(R(3),)))


@case("C14")
def constants():
    k = torch.tensor([1.0, 2.0, 3.0])
    program(lambda s, x: x * k + torch.tensor(2.0), R(3))


@case("C14")
def same_shape_state():
    program(lambda s, x: (x * s.a - s.b * s.c + s.d, s.d - s.a), R(3), state={k: (torch.nn.Parameter(R(3)) if k in "ac" else R(3)) for k in "abcd"})


@case("C14")
def buffer_mutations():
    def f(s, x):
        s.b.add_(x)
        s.c.mul_(2)
        return s.b - s.c

    program(f, R(3), state=dict(b=R(3), c=R(3), d=R(3)), more=[(R(3),)], decompose=True)


@case("C14")
def overwritten_input_not_read():
    class M(torch.nn.Module):
        def forward(self, x, y):
            x.copy_(y * 2)
            return y + 1

    p = torch.export.export(M(), (R(2, 3), R(2, 3))).run_decompositions()
    for n in list(p.graph.nodes):
        if str(n.target) == "aten.copy.default":
            new = n.args[1]
            n.replace_all_uses_with(new)
            for o in p.graph_signature.output_specs:
                if o.arg.name == n.name:
                    o.arg.name = new.name
            p.graph.erase_node(n)
    kinds = [str(a.type) for a in E.importer().import_program(p).body.blocks[0].arguments]
    if [k.split("<")[0] for k in kinds] != ["!torch.tensor", "!torch.vtensor"]:
        raise E.Wrong(f"an overwritten input and one only read have the types {kinds}")
    E.run_program(p, [(R(2, 3), R(2, 3))])


@case("C14")
def buffer_from_input():
    def f(s, x):
        s.b.copy_(x)
        return x + 1

    program(f, R(3), state=dict(b=R(3)), decompose=True)


@case("C14")
def buffers_share_a_producer():
    def f(s, x):
        y = x * 2
        s.b.copy_(y)
        s.c.copy_(y)
        return y

    program(f, R(3), state=dict(b=R(3), c=R(3)), decompose=True)


@case("C14")
def buffers_exchanged():
    def f(s, x):
        t = s.b.clone()
        s.b.copy_(s.c)
        s.c.copy_(t + x)
        return s.b * 1

    program(f, R(3), state=dict(b=R(3), c=R(3)), decompose=True)


@case("C14")
def buffer_read_after_its_new_value():
    """the new value is computed before the old one is read"""

    def f(s, x):
        t = x + 1
        y = s.b * 2
        s.b.copy_(t)
        s.c.add_(y)
        return y

    def g(s, x):
        y = s.b * 2
        s.b.copy_(x)
        return y + s.c

    program(f, R(3), state=dict(b=R(3), c=R(3)), decompose=True)
    program(g, R(3), state=dict(b=R(3), c=R(3)), decompose=True)


@case("C14")
def multi_result_mutation():
    def f(s, x):
        v, i = torch.max(x, 0)
        s.b.copy_(v)
        s.c.copy_(i)
        return i

    program(f, R(3, 2), state=dict(b=R(2), c=torch.zeros(2, dtype=torch.int64)), decompose=True)


@case("C14")
def input_mutations():
    def f(s, x, y):
        x.add_(y)
        y.mul_(2)
        return x - y

    program(f, R(3), R(3), more=[(R(3), R(3))], decompose=True)


@case("C14")
def input_takes_input():
    def f(s, x, y):
        x.copy_(y)
        return y + 1

    program(f, R(3), R(3), decompose=True)


@case("C14")
def inputs_share_a_producer():
    def f(s, x, y, z):
        t = z * 2
        x.copy_(t)
        y.copy_(t)
        return z

    program(f, R(3), R(3), R(3), decompose=True)


@case("C14")
def inputs_exchanged():
    def f(s, x, y):
        t = x.clone()
        x.copy_(y)
        y.copy_(t)
        return t

    program(f, R(3), R(3), decompose=True)


@case("C14")
def unmutated_neighbours():
    def f(s, x, y, z):
        y.add_(1)
        return x + z

    program(f, R(3), R(3), R(3), decompose=True)


@case("C14")
def mutation_and_state():
    def f(s, x, y):
        s.b.add_(x)
        x.mul_(s.w)
        return s.b + y, x

    program(f, R(3), R(3), state=dict(w=torch.nn.Parameter(R(3)), b=R(3)), decompose=True)


@case("C14")
def constant_inputs_and_outputs():
    program(lambda s, x, k, n, z: (x * k, 7, None, "a", n, x + 1, True, 2.5), R(3), 5, "hello", None)


@case("C14")
def constant_outputs_with_mutation():
    def f(s, x):
        s.b.add_(x)
        x.add_(1)
        return 3, x * 2, 4

    program(f, R(3), state=dict(b=R(3)), decompose=True)


@case("C14")
def output_is_input_or_state():
    program(lambda s, x, y: (y, x, s.b, s.w, y), R(3), R(3), state=dict(w=torch.nn.Parameter(R(3)), b=R(3)))


@case("C14")
def unused_inputs():
    program(lambda s, x, y, z: y * 2, R(3), R(2), R(1))


@case("C14")
def frozen_program():
    program(lambda s, x: (x * s.w + s.b, s.c - x + torch.tensor([1.0, 2.0, 3.0])), R(3), frozen=True, state=dict(w=torch.nn.Parameter(R(3)), b=R(3), c=(R(3),)))


@case("C14")
def program_names():
    """several programs and HOP functions in one module keep apart"""
    from torch._higher_order_ops.while_loop import while_loop as wl

    def loop(k):
        class M(torch.nn.Module):
            def forward(self, i, x):
                return wl(lambda i, x: i < k, lambda i, x: (i + 1, x * k), (i, x))

        return M()

    ins = (torch.tensor(0), R(3))
    imp = E.importer()
    ms = [(f"f{k}", loop(k)) for k in (2, 3, 4)]
    for nm, m in ms:
        imp.import_program(export(m, ins), func_name=nm)
    mach = E.Machine(imp)
    for nm, m in ms:
        want = E._leaves(m(*E.clone(ins)))
        got = mach.call(nm, [E.clone(x) for x in ins])
        if not all(E.same(a, b) for a, b in zip(got, want)):
            raise E.Wrong(f"{nm}: {[E.show(x) for x in got]}, expected {[E.show(x) for x in want]}")


# ------------------------------------------------------------------ symbolic shapes
def dyn(fwd, inputs, shapes, more, **kw):
    m = mod(fwd)
    p = export(m, inputs, dynamic_shapes=shapes, **kw)
    E.run_program(p, [inputs, *more], symbolic=True)


@case("C15")
def symbolic_shapes():
    d, e = Dim("d", min=2, max=50), Dim("e", min=3, max=70)
    dyn(
        lambda s, x, y: (torch.cat([x, x], 0), x.reshape(-1), torch.cat([x.reshape(-1), y]), y.repeat(3), x.t(), y[1:], torch.zeros(x.shape[0] * y.shape[0] - 1)),
        (R(4, 6), R(5)),
        {"x": {0: d}, "y": {0: e}},
        [(R(7, 6), R(3)), (R(2, 6), R(70)), (R(50, 6), R(11))],
    )


@case("C15")
def derived_dims():
    d = Dim("d", min=2, max=50)
    dyn(lambda s, x, y: (x.reshape(-1, 2), y + 1, torch.cat([x, y])), (R(8), R(5)), {"x": {0: 2 * d}, "y": {0: d + 1}}, [(R(12), R(7)), (R(4), R(3))])


@case("C15")
def unbounded_dims():
    d = Dim("d")
    dyn(lambda s, x: (x + 1, x.repeat(2)), (R(8),), {"x": {0: d}}, [(R(300),), (R(2),)])


@case("C15")
def modulo_and_powers():
    d = Dim("d", min=2, max=50)
    dyn(lambda s, x: (torch.zeros(x.shape[0] * x.shape[0]), torch.ones(x.shape[0] * x.shape[0] * x.shape[0], 2)), (R(8),), {"x": {0: d}}, [(R(9),), (R(10),)])


@case("C15")
def symbolic_with_state():
    d = Dim("d", min=2, max=50)

    def f(s, x):
        s.b.add_(1)
        return x + s.b, torch.cat([x, x], 0)

    p = export(mod(f, b=R(3)), (R(4, 3),), True, dynamic_shapes={"x": {0: d}})
    E.run_program(p, [(R(4, 3),), (R(9, 3),)], symbolic=True)


@case("C15")
def several_symbols_in_one_shape():
    d, e, g = Dim("d", min=2, max=50), Dim("e", min=3, max=70), Dim("g", min=2, max=20)

    def f(s, x, y, z):
        return x[:, None] * y, y.t(), torch.einsum("ab,c->cab", y, z), z[:, None].repeat(1, x.shape[0]), x.t()

    dyn(f, (R(4, 5), R(6, 5), R(3)), {"x": {0: e}, "y": {0: d}, "z": {0: g}}, [(R(3, 5), R(7, 5), R(19)), (R(70, 5), R(2, 5), R(2))])


@case("C15")
def ranges_of_an_earlier_program():
    """one importer, two programs: the second has no symbolic size"""
    d = Dim("d", min=2, max=50)
    imp = E.importer()
    a = export(mod(lambda s, x: x + 1), (R(4),), dynamic_shapes={"x": {0: d}})
    b = export(mod(lambda s, x: x + 1), (R(4),))
    imp.import_program(a, func_name="a", import_symbolic_shape_expressions=True)
    op = imp.import_program(b, func_name="b", import_symbolic_shape_expressions=True)
    names = [x.name for x in op.regions[0].blocks[0].operations]
    if "torch.symbolic_int" in names:
        raise E.Wrong("a program without symbolic sizes is given the shape symbols of the program imported before")


@case("C15")
def symbol_names():
    """shapes over symbols whose names do not sort by number"""
    import sympy
    from torch._subclasses.fake_tensor import FakeTensorMode
    from torch.fx.experimental.symbolic_shapes import ShapeEnv
    from torch.utils._sympy.value_ranges import ValueRanges

    fx = E.FX()
    for names in (("s9", "s10"), ("s10", "s9"), ("s100", "s20", "s3"), ("b", "a0", "a")):
        env = ShapeEnv()
        size = {n: 3 + 2 * k for k, n in enumerate(names)}

        def sym(n):
            s = sympy.Symbol(n, integer=True, positive=True)
            env.var_to_range[s] = ValueRanges(2, 100)
            for d in ("var_to_val", "backed_var_to_val"):
                if hasattr(env, d):
                    getattr(env, d)[s] = sympy.Integer(size[n])
            return env.create_symintnode(s, hint=size[n])

        with FakeTensorMode(shape_env=env):
            syms = [sym(n) for n in names]
            t = torch.empty([*syms, 2 * syms[0] + 3 * syms[-1]])
        gr = torch.fx.Graph()
        x = gr.placeholder("x")
        gr.output((x,))
        x.meta["val"] = t
        imp = E.importer()
        imp._cc._symbolic_guards = {n: fx.RangeConstraint(2, 100) for n in names}
        imp.import_graph_module(torch.fx.GraphModule(torch.nn.Module(), gr), func_name="main", import_symbolic_shape_expressions=True)
        binds = [o for o, _ in E.mlir_rec.LOG if getattr(o, "name", "") == "torch.bind_symbolic_shape"]
        if len(binds) != 1:
            raise E.Wrong(f"{len(binds)} bind operations for one value")
        m = binds[0].attributes["shape_expressions"].payload[0]
        vals = [size[v.owner.attributes["symbol_name"].payload[-1]] for v in binds[0].operands[1:]]
        got = [E.affine(e, vals) for e in m.exprs]
        want = [size[n] for n in names] + [2 * size[names[0]] + 3 * size[names[-1]]]
        if got != want:
            raise E.Wrong(f"shape over {names} = {size}: the map gives {got}, the sizes are {want}")


@case("C12")
def keyword_given_as_none():
    if not hasattr(torch.ops, "verif_fx2") or not hasattr(torch.ops.verif_fx2, "clampish"):
        lib = torch.library.Library("verif_fx2", "DEF")
        lib.define("clampish(Tensor x, float? mid=0.5, *, float? low=0.0, float? high=1.0) -> Tensor")
        lib.impl("clampish", lambda x, mid=0.5, *, low=0.0, high=1.0: torch.clamp(x, low, high) + (mid or 7) if low is not None or high is not None else x + (mid or 7), "CompositeExplicitAutograd")
        globals()["_LIB2"] = lib
    from torch._subclasses.fake_tensor import FakeTensorMode

    fm = FakeTensorMode()
    for a, kw in (((), {}), ((None,), {}), ((), {"low": None}), ((), {"high": None}), ((1.5,), {"low": None, "high": None}), ((), {"mid": None, "low": None, "high": 0.25})):
        gr = torch.fx.Graph()
        x = gr.placeholder("x")
        n = gr.call_function(torch.ops.verif_fx2.clampish.default, (x, *a), kw)
        gr.output((n,))
        x.meta["val"] = n.meta["val"] = fm.from_tensor(R(3))
        E.run_graph(torch.fx.GraphModule(torch.nn.Module(), gr), [(R(3) * 2,)])


@case("C13")
def sparse_values_of_one_shape():
    """values that differ only in their encoding, one after another on one importer"""
    import warnings

    from torch.fx.passes.shape_prop import TensorMetadata

    warnings.filterwarnings("ignore")
    d = torch.eye(4)
    i32 = torch.sparse_csr_tensor(torch.arange(5, dtype=torch.int32), torch.arange(4, dtype=torch.int32), torch.ones(4), (4, 4))
    ts = [d, d.to_sparse_bsr((2, 2)), d.to_sparse_bsr((4, 1)), d.to_sparse_csr(), i32, d.to_sparse(), d.to_sparse_csc(), d.clone()]
    for order in (ts, ts[::-1]):
        cc = E.importer()._cc
        for t in order:
            got = str(cc.tensor_metadata_to_type(TensorMetadata(t.shape, t.dtype, False, (), None, False, {}), val=t))
            want = "!torch.vtensor<[4,4],f32" + ("" if t.layout is torch.strided else "," + E.FX().sparsity_encoding(t)) + ">"
            if got != want:
                raise E.Wrong(f"a {t.layout} value of encoding {want} has type {got}")
