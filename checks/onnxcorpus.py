"""ONNX models for the contracts of C16-C18: failing-input search and bounded stand-in.

Models written here, and the models of ONNX's own backend tests (part of the installed
onnx package), each as it is and with every operator that has a function expanded."""
import glob
import os
import warnings

from checks import onnxeval as E

CASES = []  # (properties, name, function)
# models of the backend tests that say nothing about the importer
SKIP = {
    "bernoulli": "random",
    "test_identity_sequence": "a sequence of tensors without a rank (outside the importer's documented inputs)",
    "test_loop13_seq": "a sequence of tensors without a rank",
    "test_loop16_seq_none": "a sequence of tensors without a rank",
    "test_sequence_insert_at": "a sequence of tensors without a rank",
    "test_range_float_type_positive_delta_expanded": "the evaluator's result is not of the type the model declares",
    "test_range_int32_type_negative_delta_expanded": "the evaluator's result is not of the type the model declares",
    "test_scatter_with": "no evaluator for a withdrawn operator",
    "test_gradient": "no evaluator",
    "test_if_opt": "refused: an attribute of a type",
    "label_encoder_tensor_mapping": "refused: strings as tensor data",
}


def case(*props):
    def put(f):
        CASES.append((props, f.__name__, f))
        return f

    return put


def hp():
    import onnx

    return onnx.helper, onnx.TensorProto


def vi(n, t=None, s=(2, 3)):
    h, T = hp()
    return h.make_tensor_value_info(n, T.FLOAT if t is None else t, s)


def model(nodes, ins, outs, init=(), op=17, opsets=None, infer=True, name="g"):
    import onnx

    h, _ = hp()
    m = h.make_model(h.make_graph(nodes, name, ins, outs, list(init)), opset_imports=opsets or [h.make_opsetid("", op)])
    return onnx.shape_inference.infer_shapes(m) if infer else m


def X(*s):
    import numpy as np

    return (np.arange(1, 1 + int(np.prod(s)), dtype=np.float32) / 7).reshape(s)


def arr(a, n):
    import onnx

    return onnx.numpy_helper.from_array(a, n)


def flat():
    """every operator with a function is expanded"""
    return E.OX().Config(function_expansion_allowlists_by_domain=None)


def refused(f):
    """f() may be refused, but not be wrong"""
    try:
        f()
    except E.OX().OnnxImportError:
        pass


# ---------------------------------------------------------------- functions
@case("C18")
def functions_by_attribute():
    h, T = hp()
    x = X(2, 3)
    for k in (None, flat()):
        kw = {"config": k} if k else {}
        m = model([h.make_node("MeanVarianceNormalization", ["x"], ["a"], axes=[0]), h.make_node("MeanVarianceNormalization", ["x"], ["b"], axes=[1]), h.make_node("MeanVarianceNormalization", ["x"], ["c"], axes=[0]), h.make_node("Sub", ["a", "b"], ["y"]), h.make_node("Sub", ["y", "c"], ["z"])], [vi("x")], [vi("y"), vi("z")])
        E.compare(m, [[x]], near=True, **kw)


@case("C16", "C18")
def function_inputs_left_out():
    h, T = hp()
    for ins in (["x", ""], ["x"]):
        m = model([h.make_node("ReduceSumSquare", ins, ["y"], keepdims=0)], [vi("x")], [vi("y", s=())], op=18)
        E.compare(m, [[X(2, 3)]], near=True, config=flat())


@case("C16", "C18")
def function_outputs_left_out():
    h, T = hp()
    for outs in (["y"], ["y", "m"], ["y", "m", "i"], ["y", "", "i"], ["y", "i_"]):
        m = model([h.make_node("LayerNormalization", ["x", "w"], outs, axis=-1)], [vi("x"), vi("w", s=(3,))], [vi(n, s=(2, 3) if n == "y" else (2, 1)) for n in outs if n])
        E.compare(m, [[X(2, 3), X(3)]], near=True, config=flat())


@case("C18")
def functions_by_type():
    import numpy as np

    h, T = hp()
    m = model([h.make_node("Softmax", ["x"], ["a"]), h.make_node("Softmax", ["y"], ["b"]), h.make_node("Softmax", ["z"], ["c"]), h.make_node("Softmax", ["x"], ["d"], axis=0)], [vi("x"), vi("y", s=(3, 2)), vi("z", T.DOUBLE)], [vi("a"), vi("b", s=(3, 2)), vi("c", T.DOUBLE), vi("d")])
    E.compare(m, [[X(2, 3), X(3, 2), X(2, 3).astype(np.float64)]], near=True, config=flat())


@case("C18")
def functions_by_version():
    h, T = hp()
    for op in (12, 13, 17, 18, 21):
        for nd, ins, outs, xs in (
            (h.make_node("Softmax", ["x"], ["y"]), [vi("x")], [vi("y")], [X(2, 3)]),
            (h.make_node("ReduceL2" if op < 18 else "ReduceMean", ["x"], ["y"], keepdims=1), [vi("x")], [vi("y", s=(1, 1))], [X(2, 3)]),
            (h.make_node("Clip", ["x", "", "m"], ["y"]), [vi("x"), vi("m", T.FLOAT, ())], [vi("y")], [X(2, 3), X(1)[0]]),
            (h.make_node("LeakyRelu", ["x"], ["y"], alpha=0.25), [vi("x")], [vi("y")], [-X(2, 3)]),
            (h.make_node("Elu", ["x"], ["y"]), [vi("x")], [vi("y")], [-X(2, 3)]),
        ):
            E.compare(model([nd], ins, outs, op=op), [xs], near=True, config=flat())


@case("C18")
def function_in_a_branch():
    import numpy as np

    h, T = hp()
    b = lambda op, **k: h.make_graph([h.make_node("Identity", ["x"], [op + "i"]), h.make_node(op, [op + "i"], [op + "o"], **k)], "b", [], [vi(op + "o")])  # noqa: E731
    m = model([h.make_node("If", ["c"], ["y"], then_branch=b("MeanVarianceNormalization", axes=[0]), else_branch=b("Relu"))], [vi("c", T.BOOL, ()), vi("x")], [vi("y")])
    E.compare(m, [[np.array(True), X(2, 3)], [np.array(False), X(2, 3)]], near=True)


@case("C18")
def attributes_bound_in_subgraphs():
    import onnx

    h, T = hp()
    f = E.OX()

    def ref():
        a = onnx.AttributeProto(name="axis", ref_attr_name="axis", type=onnx.AttributeProto.INT)
        n = h.make_node("Softmax", ["x"], ["y"])
        n.attribute.append(a)
        return n

    def graph(k=0):
        nodes = [ref()] + ([h.make_node("If", ["c"], ["z"], then_branch=graph(k - 1), else_branch=graph(k - 1))] if k else []) + [ref()]
        return h.make_graph(nodes, "g", [], [h.make_empty_tensor_value_info("y")])

    nodes = [h.make_node("If", ["c"], ["z"], then_branch=graph(2), else_branch=graph(1))]
    many = h.make_node("Many", ["c"], ["z"])
    many.attribute.append(onnx.AttributeProto(name="bodies", type=onnx.AttributeProto.GRAPHS, graphs=[graph(1), graph(0)]))
    many.attribute.append(onnx.AttributeProto(name="to", type=onnx.AttributeProto.INT, i=3))
    nodes.append(many)

    def bind(n, axis):
        for a in list(n.attribute):
            if a.ref_attr_name:
                a.CopyFrom(h.make_attribute(a.name, axis))
            if a.HasField("g"):
                for x in a.g.node:
                    bind(x, axis)
            for g in a.graphs:
                for x in g.node:
                    bind(x, axis)
        return n

    schema = onnx.defs.get_schema("Softmax", 13)
    for call, axis in ((h.make_node("Softmax", ["x"], ["y"], axis=3), 3), (h.make_node("Softmax", ["x"], ["y"]), -1)):
        for n in nodes:
            r = f._bind_attributes_on_node(n, call, schema)
            want = onnx.NodeProto()
            want.CopyFrom(n)
            if r != bind(want, axis):
                raise E.Wrong(f"attributes of {n.op_type} are bound as {r}")


# ---------------------------------------------------------------- graphs
@case("C16")
def branches_of_constants():
    import numpy as np

    h, T = hp()
    cb = lambda v: h.make_graph([h.make_node("Constant", [], ["o"], value=h.make_tensor("v", T.FLOAT, [2, 3], [v] * 6))], "b", [], [vi("o")])  # noqa: E731
    E.compare(model([h.make_node("If", ["c"], ["y"], then_branch=cb(1.0), else_branch=cb(2.0))], [vi("c", T.BOOL, ())], [vi("y")]), [[np.array(True)], [np.array(False)]])


@case("C16")
def initialized_inputs():
    h, T = hp()
    E.compare(model([h.make_node("Sub", ["x", "w"], ["y"])], [vi("w"), vi("x")], [vi("y")], init=[arr(X(2, 3) * 3, "w")]), [[X(2, 3)]])
    E.compare(model([h.make_node("Sub", ["x", "w"], ["a"]), h.make_node("Mul", ["a", "z"], ["y"])], [vi("z"), vi("w"), vi("x")], [vi("y"), vi("a")], init=[arr(X(2, 3) * 3, "w")]), [[X(2, 3), X(2, 3) + 1]])


@case("C16")
def direct_outputs():
    h, T = hp()
    E.compare(model([], [vi("x"), vi("z")], [vi("z"), vi("x"), vi("w")], init=[arr(X(2, 3) * 2, "w")]), [[X(2, 3), X(2, 3) + 1]])


@case("C16")
def nested_loops():
    import numpy as np

    h, T = hp()
    inner = h.make_graph([h.make_node("Identity", ["c2"], ["c2o"]), h.make_node("Add", ["s2", "x"], ["s2a"]), h.make_node("Sub", ["s2a", "w"], ["s2o"])], "inner", [vi("i2", T.INT64, ()), vi("c2", T.BOOL, ()), vi("s2")], [vi("c2o", T.BOOL, ()), vi("s2o")], [arr(X(2, 3) * 2, "w")])
    outer = h.make_graph([h.make_node("Identity", ["c1"], ["c1o"]), h.make_node("Loop", ["n", "", "s1"], ["s1o"], body=inner)], "outer", [vi("i1", T.INT64, ()), vi("c1", T.BOOL, ()), vi("s1")], [vi("c1o", T.BOOL, ()), vi("s1o")])
    E.compare(model([h.make_node("Loop", ["n", "", "x"], ["y"], body=outer), h.make_node("Sub", ["y", "x"], ["z"])], [vi("n", T.INT64, ()), vi("x")], [vi("z"), vi("y")]), [[np.array(2), X(2, 3)], [np.array(0), X(2, 3)]])


@case("C16")
def omitted_inputs_and_outputs():
    h, T = hp()
    E.compare(model([h.make_node("Clip", ["x", "", "m"], ["y"])], [vi("x"), vi("m", T.FLOAT, ())], [vi("y")]), [[X(2, 3), X(1)[0] * 3]])
    E.compare(model([h.make_node("LayerNormalization", ["x", "s"], ["y", "", "v"])], [vi("x"), vi("s", T.FLOAT, (3,))], [vi("y"), vi("v", T.FLOAT, (2, 1))]), [[X(2, 3), X(3)]])
    # one omitted input among several operations, and in a branch
    b = h.make_graph([h.make_node("Clip", ["x", "m"], ["p"]), h.make_node("Clip", ["p", "", "k"], ["o"])], "b", [], [vi("o")])
    import numpy as np

    E.compare(model([h.make_node("Clip", ["x", "", "k"], ["q"]), h.make_node("If", ["c"], ["r"], then_branch=b, else_branch=b), h.make_node("Sub", ["q", "r"], ["y"])], [vi("x"), vi("m", T.FLOAT, ()), vi("k", T.FLOAT, ()), vi("c", T.BOOL, ())], [vi("y")]), [[X(2, 3), X(1)[0] * 2, X(1)[0] * 3, np.array(True)]])


@case("C16")
def odd_names():
    h, T = hp()
    E.compare(model([h.make_node("Sub", ["a b/", "1:0"], ["y::"]), h.make_node("Neg", ["y::"], ["a_b_"])], [vi("a b/")], [vi("a_b_"), vi("y::")], init=[arr(X(2, 3) * 2, "1:0")]), [[X(2, 3)]])


@case("C16")
def operators_of_other_domains():
    """imported as they are named, attributes and all; the default operator set stays known"""
    h, T = hp()
    for order in (0, 1):
        sets = [h.make_opsetid("", 17), h.make_opsetid("my", 3)]
        m = model([h.make_node("Foo", ["x"], ["a"], domain="my", k=4), h.make_node("Relu", ["a"], ["y"])], [vi("x")], [vi("y")], opsets=sets[:: -1 if order else 1], infer=False)
        m.graph.value_info.append(vi("a"))
        f, back, _ = E.reread(m)
        got = [(n.op_type, n.domain, {a.name: a.i for a in n.attribute}) for n in back.graph.node if n.op_type != "Identity"]
        if got != [("Foo", "my", {"k": 4}), ("Relu", "", {})]:
            raise E.Wrong(f"operators {got}")
        sets = {o.domain: o.version for o in back.opset_import if o.domain != "local"}
        if sets != {"": 17, "my": 3}:
            raise E.Wrong(f"operator sets {sets}")


@case("C16")
def use_before_definition():
    """is an error"""
    h, T = hp()
    m = model([h.make_node("Relu", ["b"], ["a"]), h.make_node("Relu", ["x"], ["b"])], [vi("x")], [vi("a")], infer=False)
    m.graph.value_info.append(vi("b"))
    try:
        E.reread(m)
    except E.OX().OnnxImportError:
        return
    raise E.Wrong("a graph that is not sorted is imported")


# ---------------------------------------------------------------- types and constants
@case("C17")
def constants_of_every_type():
    import numpy as np

    h, T = hp()
    for dt in (T.FLOAT, T.BOOL, T.UINT8, T.INT8, T.INT16, T.INT32, T.INT64, T.DOUBLE, T.UINT32, T.UINT64, T.UINT16, T.FLOAT16, T.COMPLEX64, T.COMPLEX128):
        np_t = h.tensor_dtype_to_np_dtype(dt)
        for s in ((3,), (), (2, 0, 3), (3, 1)):
            n = int(np.prod(s))
            vals = np.array([1, 0, 3, 100, 7, 2][:n]).astype(np_t)
            if np_t.kind == "i":
                vals = -vals
            for raw in (0, 1):
                tp = h.make_tensor("w", dt, s, vals.tobytes() if raw else [int(x) if np_t.kind in "iub" else x for x in vals], raw=bool(raw))
                refused(lambda: E.compare(model([h.make_node("Identity", ["w"], ["y"])], [], [vi("y", dt, s)], init=[tp]), [[]]))
                refused(lambda: E.compare(model([h.make_node("Constant", [], ["y"], value=tp)], [], [vi("y", dt, s)]), [[]]))


@case("C17")
def extreme_constants():
    import numpy as np

    h, T = hp()
    for dt in (T.UINT8, T.INT8, T.INT16, T.INT32, T.INT64, T.UINT32, T.UINT64):
        i = np.iinfo(h.tensor_dtype_to_np_dtype(dt))
        tp = h.make_tensor("w", dt, [2], [int(i.min), int(i.max)])
        E.compare(model([h.make_node("Identity", ["w"], ["y"])], [], [vi("y", dt, (2,))], init=[tp]), [[]])
    for dt in (T.FLOAT, T.DOUBLE):
        tp = h.make_tensor("w", dt, [4], [float("inf"), float("-inf"), -0.0, 1e-40])
        E.compare(model([h.make_node("Identity", ["w"], ["y"])], [], [vi("y", dt, (4,))], init=[tp]), [[]])


@case("C17")
def attributes_of_every_kind():
    h, T = hp()
    k = lambda o, **v: h.make_node("Constant", [], [o], **v)  # noqa: E731
    E.compare(model([k("a", value_float=1.5), k("b", value_ints=[1, 0, -2]), k("c", value_strings=["p", "", "q"]), k("d", value_floats=[0.1, 0.0, -0.2]), k("e", value_int=-5), k("f", value_string="hi")], [], [vi("a", T.FLOAT, ()), vi("b", T.INT64, (3,)), vi("c", T.STRING, (3,)), vi("d", T.FLOAT, (3,)), vi("e", T.INT64, ()), vi("f", T.STRING, ())]), [[]])


@case("C17")
def sizes_of_every_kind():
    import numpy as np

    h, T = hp()
    sh = [("N", 0, None), (0, "N", None), (None, None, None), (2, 0, 3), (None, 0, 3), (2, "N", 3), (0, 0, 0), (0, 0)]
    m = model([h.make_node("Relu", [f"x{i}"], [f"y{i}"]) for i in range(len(sh))], [vi(f"x{i}", s=s) for i, s in enumerate(sh)], [vi(f"y{i}", s=s) for i, s in enumerate(sh)], infer=False)
    E.compare(m, [[np.zeros([d if isinstance(d, int) else 2 for d in s], np.float32) for s in sh]])
    f, _ = E.import_model(m)
    want = ["!torch.vtensor<[%s],f32>" % ",".join(str(d) if isinstance(d, int) else "?" for d in s) for s in sh]
    got = [str(t) for t in f.type.inputs]
    if got != want:
        raise E.Wrong(f"types {got} for sizes {sh}")


@case("C17")
def sequences_and_optionals():
    import onnx

    h, T = hp()
    t = lambda *s: h.make_tensor_type_proto(T.FLOAT, s)  # noqa: E731
    ts = {
        "!torch.list<vtensor<[2,?],f32>>": h.make_sequence_type_proto(t(2, None)),
        "!torch.list<vtensor<[],f32>>": h.make_sequence_type_proto(t()),
        "!torch.optional<vtensor<[0,3],f32>>": h.make_optional_type_proto(t(0, 3)),
        "!torch.optional<list<vtensor<[2],f32>>>": h.make_optional_type_proto(h.make_sequence_type_proto(t(2))),
        "!torch.optional<vtensor<[2,?],f32>>": h.make_optional_type_proto(t(2, "N")),
    }
    cc = E.OX().ContextCache(E.R.Context())
    for _ in range(2):
        for want, tp in ts.items():
            got = str(cc.type_proto_to_type(tp))
            if got != want:
                raise E.Wrong(f"type {got} for {tp}")
    for tp in (h.make_sequence_type_proto(h.make_sequence_type_proto(t(2))), h.make_map_type_proto(T.INT64, t(2)), onnx.TypeProto(tensor_type=onnx.TypeProto.Tensor())):
        try:
            got = cc.type_proto_to_type(tp)
        except E.OX().OnnxImportError:
            continue
        raise E.Wrong(f"type {got} for {tp}")


# ---------------------------------------------------------------- ONNX's backend tests
def backend_models():
    import onnx

    d = os.path.join(os.path.dirname(onnx.__file__), "backend", "test", "data")
    return [p for p in sorted(glob.glob(os.path.join(d, "*", "*", "model.onnx"))) if not any(k in p for k in SKIP)]


def backend_inputs(m, folder):
    import onnx
    from onnx.reference.op_run import to_array_extended

    runs = []
    for d in sorted(glob.glob(os.path.join(folder, "test_data_set_*"))):
        xs = []
        for i, inp in enumerate(m.graph.input):
            f = os.path.join(d, f"input_{i}.pb")
            if not os.path.exists(f):
                xs.append(None)
                continue
            b = open(f, "rb").read()
            k = inp.type.WhichOneof("value")
            if k == "sequence_type":
                q = onnx.SequenceProto()
                q.ParseFromString(b)
                v = onnx.numpy_helper.to_list(q)
            elif k == "optional_type":
                q = onnx.OptionalProto()
                q.ParseFromString(b)
                v = onnx.numpy_helper.to_optional(q)
            else:
                q = onnx.TensorProto()
                q.ParseFromString(b)
                v = to_array_extended(q) if q.data_type >= 16 else onnx.numpy_helper.to_array(q)
            xs.append(v)
        runs.append(xs)
    return runs


def backend(paths, expand):
    """[(model, what is wrong)], number compared, number read back only"""
    import onnx
    from onnx.reference import ReferenceEvaluator

    warnings.simplefilter("ignore")
    wrong, n, unrun = [], 0, 0
    for p in paths:
        nm = os.path.basename(os.path.dirname(p))
        try:
            m = onnx.shape_inference.infer_shapes(onnx.load(p))
            runs = backend_inputs(m, os.path.dirname(p))
        except Exception:
            continue
        try:
            ev = ReferenceEvaluator(m)
            for xs in runs:
                ev.run(None, dict(zip([i.name for i in m.graph.input], xs)))
        except Exception:
            runs, unrun = [], unrun + 1
        try:
            E.compare(m, runs, near=expand, **({"config": flat()} if expand else {}))
            n += 1
        except E.Fit:
            unrun += 1
        except E.Wrong as e:
            wrong.append((nm, str(e)[:600]))
        except E.OX().OnnxImportError as e:
            wrong.append((nm, f"refused: {e}"[:600]))
        except (AssertionError, KeyError, IndexError, ValueError, TypeError, AttributeError, NameError, RuntimeError) as e:
            wrong.append((nm, f"{type(e).__name__}: {e}"[:600]))
    return wrong, n, unrun
