"""Run imported IR: importing a real program with the recording bindings and
evaluating what was emitted, op by op, with PyTorch. Used as the failing-input
search of the importer contracts and as a labelled bounded stand-in."""
import importlib
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pyvc import load, mlir_rec  # noqa: E402

_fx = None


def FX():
    global _fx
    if _fx is None:
        mlir_rec.install(load)
        _fx = importlib.import_module("torch_mlir.extras.fx_importer")
    return _fx


class Wrong(Exception):
    """what the imported function does is not what the program does"""


# names the registered ops of torch-mlir use for scalar arithmetic
DT = {
    "f16": "float16", "bf16": "bfloat16", "f32": "float32", "f64": "float64",
    "ui8": "uint8", "si8": "int8", "si16": "int16", "si32": "int32", "si64": "int64",
    "i1": "bool", "complex<f16>": "complex32", "complex<f32>": "complex64", "complex<f64>": "complex128",
    "f8E5M2": "float8_e5m2", "f8E4M3FN": "float8_e4m3fn", "f8E5M2FNUZ": "float8_e5m2fnuz",
    "f8E4M3FNUZ": "float8_e4m3fnuz", "f8E8M0FNU": "float8_e8m0fnu",
}


# the names of element types in TorchUpstream.h that are not those of the Python dtype
CPP = {
    "Byte": "uint8", "Char": "int8", "Short": "int16", "Int": "int32", "Long": "int64", "Half": "float16", "Float": "float32", "Double": "float64",
    "ComplexHalf": "complex32", "ComplexFloat": "complex64", "ComplexDouble": "complex128",
}
_codes = None


def codes():
    """what the integer codes of dtypes, layouts and memory formats mean: the dtypes by
    the enumeration the compiler reads them with, the others by PyTorch's own"""
    global _codes
    if _codes is not None:
        return _codes
    import torch

    h = open(os.path.join(load.REPO, "include/torch-mlir/Dialect/Torch/Utils/TorchUpstream.h")).read()
    m = re.search(r"#define AT_FORALL_SCALAR_TYPES_WITH_COMPLEX_AND_QINTS\(_\)((?:.*\\\n)*.*\n)", h)
    names = re.findall(r"_\([^,]+,\s*(\w+)\)", m.group(1))
    dt = {}
    for i, n in enumerate(names):
        d = getattr(torch, CPP.get(n, n.lower()), None)
        if isinstance(d, torch.dtype):
            dt[i] = d

    def jit(cls):
        out = {}
        for n in dir(torch):
            v = getattr(torch, n)
            if isinstance(v, cls):
                g = torch.jit.CompilationUnit(f"def f():\n    return torch.{n}\n").f.graph
                out[[x for x in g.nodes() if x.kind() == "prim::Constant"][0].i("value")] = v
        return out

    _codes = (dt, jit(torch.layout), jit(torch.memory_format))
    return _codes


def hooks_cls():
    fx = FX()

    class Hooks(fx.FxImporterHooks):
        def store_produced_value(self, gni, py_value, produced, info):
            mlir_rec.Operation.create("verif.store", results=[], operands=[produced], attributes={"target": info.input_spec.target})

    class Loading(Hooks):
        """buffers are loads from storage that the stores update"""

        def resolve_input(self, gni, value, info):
            if info.input_spec.kind.name != "BUFFER":
                return None
            return mlir_rec.Operation.create("verif.load", results=[info.ir_type], attributes={"target": info.input_spec.target, "initial": value}).result

    return Hooks, Loading


def importer(loads=False, **kw):
    mlir_rec.reset()
    fx = FX()
    return fx.FxImporter(hooks=hooks_cls()[loads](), **kw)


def check_type(asm, v, mutable=False):
    import torch

    asm = str(asm)
    m = re.fullmatch(r"!torch\.(v?tensor)<\[([^\]]*)\],([^,]*)(,.*)?>", asm)
    if m:
        if not isinstance(v, torch.Tensor):
            raise Wrong(f"a {type(v).__name__} has type {asm}")
        shape = [x.strip() for x in m.group(2).split(",")] if m.group(2).strip() else []
        if len(shape) != v.dim() or any(s != "?" and int(s) != d for s, d in zip(shape, v.shape)):
            raise Wrong(f"a tensor of shape {tuple(v.shape)} has type {asm}")
        if getattr(torch, DT.get(m.group(3), "?"), None) is not v.dtype:
            raise Wrong(f"a tensor of {v.dtype} has type {asm}")
        if mutable is not None and (m.group(1) == "tensor") != mutable:
            raise Wrong(f"mutability of {asm}")
        return
    want = {"!torch.int": int, "!torch.float": float, "!torch.bool": bool, "!torch.none": type(None), "!torch.str": str, "!torch.Device": str}.get(asm)
    if want is not None:
        if type(v) is not want:
            raise Wrong(f"a {type(v).__name__} ({v!r}) has type {asm}")
        return
    m = re.fullmatch(r"!torch\.list<(.*)>", asm)
    if m:
        if not isinstance(v, list):
            raise Wrong(f"a {type(v).__name__} has type {asm}")
        e = m.group(1)
        opt = re.fullmatch(r"optional<(.*)>", e)
        e = opt.group(1) if opt else e
        for x in v:
            if x is None and opt:
                continue
            if e == "vtensor":
                if not isinstance(x, torch.Tensor):
                    raise Wrong(f"{x!r} in {asm}")
            else:
                check_type("!torch." + e, x)
        return
    raise Wrong(f"type {asm}")


def literal(op):
    import numpy as np
    import torch

    a = op.attributes["value"]
    asm = str(op.result_types[0])
    m = re.fullmatch(r"!torch\.vtensor<\[([^\]]*)\],([^,]*)>", asm)
    shape = [int(x) for x in m.group(1).split(",")] if m.group(1).strip() else []
    fx = FX()
    dt = getattr(torch, DT[m.group(2)])
    if a.kind == "resource":
        ty, _, arr = a.payload
        elt, ashape = ty.element_type, list(ty.shape)
    else:
        elt, ashape, arr = a.payload[:3]
        ashape = list(ashape)
    if ashape != shape:
        raise Wrong(f"literal of shape {ashape} has type {asm}")
    if elt.asm != fx.TORCH_DTYPE_TO_MLIR_TYPE[dt]().asm or elt.asm != m.group(2):
        raise Wrong(f"literal of element type {elt.asm} has type {asm}")
    if int(np.prod(shape)) != arr.size:
        raise Wrong(f"literal holds {arr.size} elements, type {asm}")
    if arr.dtype != np.dtype(fx.TORCH_DTYPE_TO_NPY_TYPE[dt]) or arr.dtype.itemsize != torch.empty((), dtype=dt).element_size():
        raise Wrong(f"literal stored as {arr.dtype}, type {asm}")
    raw = np.ascontiguousarray(arr).view(np.uint8).reshape(-1).copy()
    t = torch.frombuffer(bytearray(raw.tobytes()), dtype=torch.uint8) if raw.size else torch.empty(0, dtype=torch.uint8)
    return t.view(dt).reshape(shape)


def coerce(v):
    return v


class Machine:
    """evaluates the functions of one imported module"""

    def __init__(self, imp, symbols=None):
        self.imp = imp
        self.stores = {}
        self.symbols = symbols
        self.funcs = {}
        for f in imp._m.body.operations:
            if f.name_ in self.funcs and self.funcs[f.name_] is not f:
                raise Wrong(f"two functions are called {f.name_}")
            self.funcs[f.name_] = f
        self.bound = 0

    def call(self, name, args, depth=0):
        if name not in self.funcs:
            raise Wrong(f"call of an unknown function {name}")
        f = self.funcs[name]
        blk = f.body.blocks[0]
        types = f.type.inputs
        if len(blk.arguments) != len(types) or len(args) != len(types):
            raise Wrong(f"{name} takes {len(types)} arguments, {len(args)} given")
        env = {}
        for v, t, x in zip(blk.arguments, types, args):
            check_type(t, x, mutable=None)
            env[id(v)] = x
        r = self.block(blk, env)
        if r is None or r[0] != "return":
            raise Wrong(f"{name} does not return")
        if len(r[1]) != len(f.type.results):
            raise Wrong(f"{name} returns {len(r[1])} values, its type says {len(f.type.results)}")
        for t, x in zip(f.type.results, r[1]):
            check_type(t, x, mutable=None)
        return r[1]

    def block(self, blk, env):
        for op in blk.operations:
            r = self.op(op, env)
            if r is not None:
                return r
        return None

    def get(self, v, env):
        if id(v) not in env:
            raise Wrong(f"{v} is used before it is defined")
        return env[id(v)]

    def op(self, op, env):
        import torch

        n = op.name
        xs = [self.get(v, env) for v in op.operands]
        if n == "func.return":
            return ("return", xs)
        if n == "torch.prim.Loop.condition":
            return ("loop", xs)
        A = op.attributes
        out = None
        if n == "torch.constant.none":
            out = [None]
        elif n == "torch.constant.bool":
            if A["value"].payload[0].asm != "i1":
                raise Wrong(f"bool constant of type {A['value'].payload[0]}")
            out = [bool(A["value"].payload[1])]
        elif n == "torch.constant.int":
            if A["value"].payload[0].asm != "i64":
                raise Wrong(f"int constant of type {A['value'].payload[0]}")
            out = [int(A["value"].payload[1])]
        elif n == "torch.constant.float":
            if A["value"].payload[0].asm != "f64":
                raise Wrong(f"float constant of type {A['value'].payload[0]}")
            out = [float(A["value"].payload[1])]
        elif n in ("torch.constant.str", "torch.constant.device"):
            out = [A["value"].payload[0]]
        elif n == "torch.vtensor.literal":
            out = [literal(op)]
        elif n == "torch.prim.ListConstruct":
            out = [list(xs)]
        elif n == "torch.prim.ListUnpack":
            out = list(xs[0])
        elif n == "torch.prim.NumToTensor.Scalar":
            out = [torch.tensor(xs[0])]
        elif n == "torch.prims.convert_element_type":
            out = [xs[0].to(codes()[0][xs[1]])]
        elif n == "torch.aten.Int.bool":
            # retypes a bool as an int; the value keeps its Python type, as
            # torch-mlir has no bool Scalar (see basic_test.py::test_full)
            if type(xs[0]) is not bool or str(op.result_types[0]) != "!torch.int":
                raise Wrong(f"Int.bool of {xs[0]!r} to {op.result_types[0]}")
            env[id(op.results[0])] = xs[0]
            return None
        elif n == "torch.copy.to_vtensor":
            out = [xs[0].clone()]
        elif n == "torch.overwrite.tensor.contents":
            xs[1].copy_(xs[0])
            out = []
        elif n == "verif.store":
            self.stores[A["target"]] = xs[0].clone()
            out = []
        elif n == "verif.load":
            out = [self.stores.get(A["target"], A["initial"]).clone()]
        elif n == "func.call":
            out = self.call(A["callee"].payload[0], [x.clone() if isinstance(x, torch.Tensor) else x for x in xs])
        elif n == "torch.prim.Loop":
            mx, cond, *carry = xs
            blk = op.regions[0].blocks[0]
            i = 0
            while cond and i < min(mx, 1000):
                for v, x in zip(blk.arguments, [i] + carry):
                    env[id(v)] = x
                if len(blk.arguments) != 1 + len(carry):
                    raise Wrong("loop block takes another number of values")
                for v, x in zip(blk.arguments, [i] + carry):
                    check_type(v.type, x, mutable=None)
                r = self.block(blk, env)
                if r is None or r[0] != "loop":
                    raise Wrong("loop body without a condition")
                cond, *carry = r[1]
                i += 1
            out = carry
        elif n == "torch.symbolic_int":
            nm = A["symbol_name"].payload[0]
            v = None if self.symbols is None else value_of(nm, self.symbols)
            if v is None:
                raise Wrong(f"unknown shape symbol {nm}")
            if not A["min_val"].payload[1] <= v <= A["max_val"].payload[1]:
                raise Wrong(f"{nm} = {v} outside [{A['min_val'].payload[1]}, {A['max_val'].payload[1]}]")
            out = [v]
        elif n == "torch.bind_symbolic_shape":
            m = A["shape_expressions"].payload[0]
            t, *syms = xs
            if m.ndims != 0 or m.nsyms != len(syms) or len(m.exprs) != t.dim():
                raise Wrong(f"shape map with {m.nsyms} symbols and {len(m.exprs)} results for {len(syms)} operands, rank {t.dim()}")
            got = [affine(e, syms) for e in m.exprs]
            if got != list(t.shape):
                raise Wrong(f"shape expressions give {got} for a tensor of shape {list(t.shape)}")
            self.bound += 1
            out = []
        else:
            out = self.torch_op(A["name"].payload[0] if n == "torch.operator" else n, xs)
        if len(out) != len(op.result_types):
            raise Wrong(f"{n} has {len(op.result_types)} results for {len(out)} values")
        for v, t, x in zip(op.results, op.result_types, out):
            if isinstance(x, tuple):
                x = list(x)
            check_type(t, x)
            env[id(v)] = x
        return None

    def torch_op(self, name, xs):
        import torch

        parts = name.split(".")
        if parts[0] != "torch":
            raise Wrong(f"operation {name}")
        o = torch.ops
        for p in parts[1:]:
            o = getattr(o, p)
        if isinstance(o, torch._ops.OpOverloadPacket):
            o = o.default
        s = o._schema
        if len(xs) != len(s.arguments):
            raise Wrong(f"{name} has {len(xs)} operands for {len(s.arguments)} parameters")
        pos, kw = [], {}
        dtypes, layouts, formats = codes()
        for a, x in zip(s.arguments, xs):
            ty = str(a.real_type) if hasattr(a, "real_type") else str(a.type)
            if "ScalarType" in ty and type(x) is int:
                x = dtypes[x]
            elif "Layout" in ty and type(x) is int:
                x = layouts[x]
            elif "MemoryFormat" in ty and type(x) is int:
                x = formats[x]
            elif "Device" in ty and isinstance(x, str):
                x = torch.device(x)
            if a.kwarg_only:
                kw[a.name] = x
            else:
                pos.append(x)
        r = o(*pos, **kw)
        n = len(s.returns)
        if n == 0:
            return []
        return [r] if n == 1 else list(r)


def value_of(nm, symbols):
    """a constraint may be on an expression of the symbols, e.g. 2*s0"""
    import sympy

    if nm in symbols:
        return symbols[nm]
    try:
        v = sympy.sympify(nm).subs(symbols)
        return int(v) if v.is_Integer else None
    except Exception:
        return None


def affine(e, syms):
    op, a = e.op, e.args
    if op == "const":
        return int(a[0])
    if op == "sym":
        return syms[a[0]]
    x, y = affine(a[0], syms), affine(a[1], syms)
    if op == "+":
        return x + y
    if op == "*":
        return x * y
    if op == "mod":
        return x % y
    if op == "floordiv":
        return x // y
    if op == "ceildiv":
        return -(-x // y)
    raise Wrong(f"affine {op}")


def same(a, b):
    import torch

    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.layout != torch.strided:
            a, b = a.to_dense(), b.to_dense()
        if a.dtype in (torch.float8_e5m2, torch.float8_e4m3fn, torch.float8_e5m2fnuz, torch.float8_e4m3fnuz, torch.float8_e8m0fnu):
            a, b = a.float(), b.float()
        if a.dtype is torch.complex32:
            a, b = a.to(torch.complex64), b.to(torch.complex64)
        return torch.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True) if a.is_floating_point() or a.is_complex() else torch.equal(a, b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) < 1e-6 * max(abs(a), abs(b), 1) or (a != a and b != b)
    return type(a) is type(b) and a == b


def clone(x):
    import torch

    if isinstance(x, torch.Tensor):
        return x.clone()
    if isinstance(x, (list, tuple)):
        return type(x)(clone(y) for y in x)
    return x


def show(x):
    import torch

    return f"{x.dtype}{x.tolist()}" if isinstance(x, torch.Tensor) else repr(x)


def symbols_of(prog, inputs):
    """value of every shape symbol that is the size of an input dimension"""
    import sympy
    import torch

    out = {}
    q = sympy.Symbol("q")
    us = [n for n in prog.graph.nodes if n.op == "placeholder" and n.name in prog.graph_signature.user_inputs]
    flat = torch.utils._pytree.tree_leaves(inputs)
    byname = {n.name: n for n in prog.graph.nodes}
    for spec, x in zip([s for s in prog.graph_signature.input_specs if s.kind.name == "USER_INPUT"], flat):
        n = byname.get(getattr(spec.arg, "name", None))
        if n is None:
            continue
        v = n.meta.get("val")
        if isinstance(v, torch.Tensor) and isinstance(x, torch.Tensor):
            for s, d in zip(v.shape, x.shape):
                if isinstance(s, torch.SymInt):
                    e = s.node.expr
                    fs = list(e.free_symbols)
                    if len(fs) == 1:
                        sol = sympy.solve(e.subs(fs[0], q) - int(d), q)
                        if len(sol) == 1:
                            out[str(fs[0])] = int(sol[0])
        elif isinstance(v, torch.SymInt) and isinstance(v.node.expr, sympy.Symbol):
            out[str(v.node.expr)] = int(x)
    return out


def run_program(prog, inputs_list, symbolic=False, frozen=False):
    """import once, run on every input tuple; returns what is wrong or None"""
    import torch

    wants = []
    state = [(v, v.detach().clone()) for d in (prog.state_dict, prog.constants) for v in d.values() if isinstance(v, torch.Tensor)]
    for inputs in inputs_list:
        m = prog.module()
        ins = clone(inputs)
        with torch.no_grad():
            r = m(*ins)
        st = {k: v.detach().clone() for k, v in m.named_buffers()}
        wants.append((clone(_leaves(r)), _leaves(ins), st))
        with torch.no_grad():  # the module shares its state with the program
            for v, v0 in state:
                v.copy_(v0)
    buffers = any(x.kind.name == "BUFFER" for x in prog.graph_signature.input_specs)
    for loads in (False, True) if buffers and not frozen else (False,):
        imp = importer(loads=loads)
        f = imp.import_frozen_program if frozen else imp.import_program
        sigs = [s for s in prog.graph_signature.input_specs if s.kind.name == "USER_INPUT"]
        constin = [type(s.arg).__name__ == "ConstantArgument" for s in sigs]
        muts = {s.target for s in prog.graph_signature.output_specs if s.kind.name == "BUFFER_MUTATION"}
        syms = [symbols_of(prog, i) for i in inputs_list] if symbolic else None
        op = f(prog, func_name="main", **({"import_symbolic_shape_expressions": True} if symbolic else {}))
        if op.name_ != "main":
            raise Wrong(f"the program is imported as {op.name_}")
        for i, inputs in enumerate(inputs_list):
            mach = Machine(imp, syms[i] if symbolic else None)
            ins = [clone(x) for x, c in zip(_leaves(inputs), constin) if not c or frozen]
            got = mach.call("main", ins)
            want, wins, wst = wants[i]
            if frozen:
                want = want[-len(got):] if len(got) == len(want) else want
            if len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
                raise Wrong(f"returns {[show(x) for x in got]}, the program {[show(x) for x in want]}")
            if frozen:
                continue
            wins = [x for x, c in zip(wins, constin) if not c]
            for a, b in zip(ins, wins):
                if isinstance(a, torch.Tensor) and not same(a, b):
                    raise Wrong(f"leaves an input as {show(a)}, the program as {show(b)}")
            if set(mach.stores) != muts:
                raise Wrong(f"stores {sorted(mach.stores)}, the program updates {sorted(muts)}")
            for k, v in mach.stores.items():
                if not same(v, wst[k]):
                    raise Wrong(f"stores {show(v)} to {k}, the program {show(wst[k])}")
    return None


def _leaves(x):
    """like tree_leaves, None kept"""
    import torch

    return torch.utils._pytree.tree_flatten(x)[0]


def run_graph(gm, inputs_list):
    """a functional graph module, imported as a stateless graph"""
    import torch

    wants = [_leaves(gm(*clone(i))) for i in inputs_list]
    imp = importer()
    op = imp.import_graph_module(gm, func_name="main")
    for inputs, want in zip(inputs_list, wants):
        got = Machine(imp).call(op.name_, [clone(x) for x in _leaves(inputs)])
        if len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
            raise Wrong(f"returns {[show(x) for x in got]}, the graph {[show(x) for x in want]}")


def run_graph_expect(gm, inputs, want, tail=None):
    imp = importer()
    op = imp.import_graph_module(gm, func_name="main")
    got = Machine(imp).call(op.name_, [clone(x) for x in inputs])
    if tail is not None:
        want = list(inputs) + list(tail)
    if len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
        raise Wrong(f"returns {[show(x) for x in got]}, expected {[show(x) for x in want]}")
