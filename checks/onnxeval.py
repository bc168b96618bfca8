"""Read back imported ONNX programs: what the importer emitted becomes an ONNX model
again, value by value, and is run with ONNX's reference evaluator next to the model
that was imported. Failing-input search of the importer contracts, and a labelled
bounded stand-in. Nothing here looks at how the importer is written."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pyvc import load, mlir_rec as R  # noqa: E402

_ox = None


def OX():
    global _ox
    if _ox is None:
        R.install(load)
        _ox = importlib.import_module("torch_mlir.extras.onnx_importer")
    return _ox


class Wrong(Exception):
    """what was imported is not the model"""


class Fit(Exception):
    """what was emitted is outside what this reader understands"""


def elems():
    """element type -> TensorProto code, in the compiler's own reading of them"""
    import onnx

    T = onnx.TensorProto
    return {
        "f32": T.FLOAT, "f64": T.DOUBLE, "f16": T.FLOAT16, "bf16": T.BFLOAT16, "i1": T.BOOL,
        **{f"{'u' if u else 's'}i{w}": getattr(T, f"{'U' if u else ''}INT{w}") for u in (0, 1) for w in (4, 8, 16, 32, 64)},
        "complex<f32>": T.COMPLEX64, "complex<f64>": T.COMPLEX128, "f8E4M3FN": T.FLOAT8E4M3FN, "f8E4M3FNUZ": T.FLOAT8E4M3FNUZ,
        "f8E5M2": T.FLOAT8E5M2, "f8E5M2FNUZ": T.FLOAT8E5M2FNUZ, "!torch.str": T.STRING,
    }


def read_type(asm):
    """('none',) | ('t', dims, code) | ('list', t) | ('optional', t)"""
    asm = asm.removeprefix("!torch.")
    if asm == "none":
        return ("none",)
    for k in ("list", "optional"):
        if asm.startswith(k + "<"):
            return (k, read_type(asm[len(k) + 1 : -1]))
    if asm.startswith("vtensor<["):
        dims, el = asm[len("vtensor<[") : -1].split("],", 1)
        return ("t", [None if d == "?" else int(d) for d in dims.split(",")] if dims else [], elems()[el])
    raise Wrong(f"type {asm}")


def type_proto(t):
    import onnx

    h = onnx.helper
    if t[0] == "t":
        return h.make_tensor_type_proto(t[2], t[1])
    if t[0] == "list":
        return h.make_sequence_type_proto(type_proto(t[1]))
    if t[0] == "optional":
        return h.make_optional_type_proto(type_proto(t[1]))
    raise Fit(f"type {t}")


def admits(t, v):
    """is v a value of type t?"""
    import numpy as np
    import onnx

    if t[0] == "none":
        return v is None
    if t[0] == "list":
        return isinstance(v, list) and all(admits(t[1], x) for x in v)
    if t[0] == "optional":
        return v is None or admits(t[1], v)
    if isinstance(v, list) or v is None:
        return False
    v = np.asarray(v)
    if len(v.shape) != len(t[1]) or any(d is not None and d != s for d, s in zip(t[1], v.shape)):
        return False
    T = onnx.TensorProto
    custom = (T.BFLOAT16, T.FLOAT8E4M3FN, T.FLOAT8E4M3FNUZ, T.FLOAT8E5M2, T.FLOAT8E5M2FNUZ, T.UINT4, T.INT4, T.STRING)
    if t[2] in custom:
        return v.dtype not in (np.float32, np.float64, np.int64, np.bool_) or t[2] == T.BFLOAT16
    return v.dtype == onnx.helper.tensor_dtype_to_np_dtype(t[2])


def tensor(a):
    """the TensorProto an elements attribute is"""
    import numpy as np
    import onnx

    if a.kind == "resource":
        ty, _, data = a.payload[:3]
        tp = onnx.TensorProto(data_type=elems()[str(ty.element_type)], raw_data=bytes(data))
        tp.dims.extend(ty.shape)
        return tp
    if a.kind == "dense":
        ty, shape, arr = a.payload[:3]
        if ty is not None and elems()[str(ty)] != onnx.helper.np_dtype_to_tensor_dtype(np.asarray(arr).dtype):
            raise Wrong(f"constant of {np.asarray(arr).dtype} declared {ty}")
        if shape is not None and list(shape) != list(np.asarray(arr).shape):
            raise Wrong(f"constant of shape {np.asarray(arr).shape} declared {list(shape)}")
        return onnx.numpy_helper.from_array(np.asarray(arr))
    if a.kind == "splat":
        ty, e = a.payload
        return onnx.helper.make_tensor("", elems()[str(ty.element_type)], ty.shape, [e.payload[1]] * int(np.prod(ty.shape)))
    raise Fit(f"attribute {a}")


def attribute(name, a):
    import onnx

    A = onnx.AttributeProto
    p = A(name=name)

    def scalar(a, plural=False):
        k = a.kind
        if k == "int":
            if str(a.payload[0]) != "si64":
                raise Wrong(f"attribute {name} of type {a.payload[0]}")
            return (A.INTS if plural else A.INT), a.payload[1]
        if k == "float":
            if str(a.payload[0]) != "f32":
                raise Wrong(f"attribute {name} of type {a.payload[0]}")
            return (A.FLOATS if plural else A.FLOAT), a.payload[1]
        if k == "str":
            s = a.payload[0]
            return (A.STRINGS if plural else A.STRING), s.encode() if isinstance(s, str) else s
        return (A.TENSORS if plural else A.TENSOR), tensor(a)

    if a.kind == "array":
        vs = [scalar(x, True) for x in a.payload[0]]
        if len({t for t, _ in vs}) > 1:
            raise Wrong(f"attribute {name} mixes kinds")
        p.type = vs[0][0] if vs else A.INTS
        {A.INTS: p.ints, A.FLOATS: p.floats, A.STRINGS: p.strings, A.TENSORS: p.tensors}[p.type].extend(v for _, v in vs)
        return p
    p.type, v = scalar(a)
    if p.type == A.INT:
        p.i = v
    elif p.type == A.FLOAT:
        p.f = v
    elif p.type == A.STRING:
        p.s = v
    else:
        p.t.CopyFrom(v)
    return p


class Reader:
    """the emitted module as an ONNX model"""

    def __init__(self, model):
        self.model = model  # for the graph attributes' names, which regions follow in sorted order
        self.names = {}
        self.types = {}
        self.held = []

    def name(self, v):
        if id(v) not in self.names:
            raise Wrong(f"{v!r} is used but is no value that is in scope")
        return self.names[id(v)]

    def bind(self, v, scope):
        n = f"v{len(self.names)}"
        self.names[id(v)] = n
        self.held.append(v)
        scope.append(id(v))
        t = read_type(str(v.type))
        self.types[n] = t
        return n if t[0] != "none" or True else n

    def block(self, b, gname, top=False):
        import onnx

        scope, nodes = [], []
        h = onnx.helper
        ins = []
        for a in b.arguments:
            n = self.bind(a, scope)
            ins.append(h.make_value_info(n, type_proto(read_type(str(a.type)))) if read_type(str(a.type))[0] != "none" else h.make_empty_tensor_value_info(n))
        outs = None
        for op in b.operations:
            if outs is not None:
                raise Wrong("operations after the terminator")
            nm = op.name
            if nm == "torch.constant.none":
                self.names[id(op.results[0])] = ""
                self.held.append(op.results[0])
                continue
            if nm in ("func.return", "torch.operator_terminator"):
                if (nm == "func.return") != top:
                    raise Wrong(f"{nm} ends the wrong kind of block")
                outs = [self.name(v) for v in op.operands]
                break
            if nm == "func.call":
                args = [self.name(v) for v in op.operands]
                nodes.append(h.make_node(self.function(op.callee), args, [self.bind(r, scope) for r in op.results], domain="local"))
                if [str(r.type) for r in op.results] != [str(t) for t in op.callee.type.results]:
                    raise Wrong("call with other result types")
                if [str(v.type) for v in op.operands] != [str(t) for t in op.callee.type.inputs]:
                    raise Wrong("call with other argument types")
                continue
            if nm != "torch.operator":
                raise Wrong(f"operation {nm}")
            at = dict(op.attributes)
            ty = at.pop("name").payload[0]
            if not ty.startswith("onnx."):
                raise Wrong(f"operator {ty}")
            args = [self.name(v) for v in op.operands]
            pa = []
            for k, v in at.items():
                if not k.startswith("torch.onnx."):
                    raise Wrong(f"attribute {k}")
                pa.append(attribute(k[len("torch.onnx.") :], v))
            if op.regions:
                rn = {"If": ["else_branch", "then_branch"], "Loop": ["body"], "Scan": ["body"], "SequenceMap": ["body"]}.get(ty[5:])
                if rn is None:
                    raise Fit(f"regions of {ty}")
                if len(rn) != len(op.regions):
                    raise Wrong(f"{len(op.regions)} regions on {ty}")
                for k, r in zip(rn, op.regions):
                    if len(r.blocks) != 1:
                        raise Wrong("a region with other than one block")
                    pa.append(h.make_attribute(k, self.block(r.blocks[0], k)))
            nd = h.make_node(ty[5:], args, [self.bind(r, scope) for r in op.results], domain=self.domains.get(ty[5:], ""))
            nd.attribute.extend(pa)
            nodes.append(nd)
        if outs is None:
            raise Wrong("a block without a terminator")
        g = onnx.GraphProto(name=gname)
        g.node.extend(nodes)
        g.input.extend(ins)
        # an output may be named once only, and not also be an input
        seen = set()
        for o in outs:
            if o == "":
                raise Fit("none as an output")
            n = f"{o}_out{len(g.output)}"
            g.node.append(h.make_node("Identity", [o], [n]) if self.types[o][0] != "optional" else h.make_node("Identity", [o], [n]))
            seen.add(n)
            g.output.append(h.make_value_info(n, type_proto(self.types[o])))
        for i in scope:
            self.names.pop(i, None)
        for op in b.operations:
            if getattr(op, "name", None) == "torch.constant.none":
                self.names.pop(id(op.results[0]), None)
        return g

    def function(self, f):
        import onnx

        if f not in self.funcs:
            self.funcs[f] = None
            g = self.sub(f).block(f.body.blocks[0], "f", top=True)
            nm = f"f{len(self.funcs)}"
            fp = onnx.helper.make_function("local", nm, [i.name for i in g.input], [o.name for o in g.output], g.node, self.opsets(f))
            self.funcs[f] = (nm, fp)
        if self.funcs[f] is None:
            raise Wrong("a function that calls itself")
        return self.funcs[f][0]

    def sub(self, f):
        r = Reader(self.model)
        r.funcs, r.domains = self.funcs, self.domains
        return r

    def opsets(self, f):
        import onnx

        at = f.attributes
        out = []
        if "torch.onnx_meta.opset_version" in at:
            out.append(onnx.helper.make_opsetid("", at["torch.onnx_meta.opset_version"].payload[1]))
        if "torch.onnx_meta.opset_versions" in at:
            out += [onnx.helper.make_opsetid(k, v.payload[1]) for k, v in at["torch.onnx_meta.opset_versions"].payload[0].items()]
        return out

    def read(self, f):
        import onnx

        self.funcs = {}
        g = self.block(f.body.blocks[0], "main", top=True)
        used = {n.op_type: n.domain for n in walk(self.model.graph)}
        m = onnx.ModelProto(ir_version=f.attributes["torch.onnx_meta.ir_version"].payload[1])
        m.opset_import.extend(self.opsets(f) + [onnx.helper.make_opsetid("local", 1)])
        if all(o.domain not in ("", "ai.onnx") for o in m.opset_import):
            m.opset_import.append(onnx.helper.make_opsetid("", 21))  # for the Identity nodes of this reader
        m.functions.extend(fp for _, fp in self.funcs.values())
        m.graph.CopyFrom(g)
        return m


def walk(g):
    for n in g.node:
        yield n
        for a in n.attribute:
            if a.HasField("g"):
                yield from walk(a.g)


def import_model(model, **kw):
    ox = OX()
    R.reset()
    cx = R.Context()
    info = ox.ModelInfo(model, **kw)
    m = info.create_module(context=cx).operation
    imp = ox.NodeImporter.define_function(info.main_graph, m)
    imp.import_all()
    return imp._p, m


def reread(model, **kw):
    f, m = import_model(model, **kw)
    r = Reader(model)
    # an operator does not carry its domain: this reader takes it from the model
    r.domains = {n.op_type: n.domain for n in walk(model.graph) if n.domain not in ("", "ai.onnx")}
    back = r.read(f)
    if f.name_ != model.graph.name:
        raise Wrong(f"function {f.name_} for graph {model.graph.name}")
    return f, back, r


def same(a, b, near=False):
    import numpy as np

    if isinstance(a, list) or isinstance(b, list):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, near) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and (a.tobytes() == b.tobytes() or near and a.dtype.kind in "fc" and np.allclose(a, b, rtol=1e-3, atol=1e-5, equal_nan=True)) or (a.dtype == object and a.shape == b.shape and (a == b).all())


def compare(model, inputs, near=False, **kw):
    """inputs: one list of values per run, in the order of the function's parameters"""
    import numpy as np
    import onnx
    from onnx.reference import ReferenceEvaluator

    f, back, r = reread(model, **kw)
    a, b = ReferenceEvaluator(model), ReferenceEvaluator(back)
    init = {i.name for i in model.graph.initializer}
    names = [i.name for i in model.graph.input if i.name not in init]
    if len(names) != len(back.graph.input):
        raise Wrong(f"{len(back.graph.input)} parameters for inputs {names}")
    for xs in inputs:
        for n, i, v in zip(names, back.graph.input, xs):
            if not admits(r.types[i.name], v):
                raise Wrong(f"parameter {n} of type {r.types[i.name]} is given {v!r}"[:400])
        want = a.run(None, dict(zip(names, xs)))
        got = b.run(None, {i.name: v for i, v in zip(back.graph.input, xs)})
        if len(want) != len(got):
            raise Wrong(f"{len(got)} results for {len(want)}")
        for o, x, y in zip(back.graph.output, want, got):
            if not same(x, y, near):
                raise Wrong(f"result {o.name} is {y!r}, the model gives {x!r}"[:800])
            t = r.types[o.name.rsplit("_out", 1)[0]]
            if not admits(t, y):
                raise Wrong(f"result of type {t} is {y!r}"[:400])
    return back
