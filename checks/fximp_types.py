"""C13: element types, shapes, codes and constants mean in the IR what they mean in PyTorch."""
import os
import re

from checks.fximp import C, Cut, E, G, GV, Oblig, R, S, Stop, fx, interp, is_, new_importer, z3
from checks.fximp_flow import FxNode, Map, Pretend, imp_loc
from pyvc import load
from pyvc import text as T

I = z3.IntVal


def asm_of(dt):
    """the MLIR element type that stores a PyTorch dtype"""
    import torch

    if dt is torch.bool:
        return "i1"
    name = str(dt).removeprefix("torch.")
    if name in ("qint8", "quint8"):
        return "!torch." + name
    if dt.is_complex:
        return f"complex<{asm_of(torch.empty((), dtype=dt).real.dtype)}>"
    if dt.is_floating_point:
        m = re.fullmatch(r"float(8|4)_(\w+?)(_x2)?", name)
        if m:
            return f"f{m.group(1)}{m.group(2).upper()}"
        return "bf16" if dt is torch.bfloat16 else f"f{torch.finfo(dt).bits}"
    i = torch.iinfo(dt)
    return ("si" if i.min < 0 else "ui") + str(i.bits)


def cpp_types():
    """{name of the element type: MLIR type} as the compiler's own switch has it"""
    s = open(os.path.join(load.REPO, "lib/Dialect/Torch/Utils/Utils.cpp")).read()
    i = s.index("Torch::getTypeForScalarType(")
    body = s[i : s.index("\n}\n", i)]
    out = {}
    for names, expr in re.findall(r"((?:case torch_upstream::ScalarType::\w+:\s*)+)return ([^;]*);", body):
        m = re.search(r"(\w+)::get\((.*)\)$", expr.replace("\n", " "))
        if not m:
            continue
        cls, arg = m.group(1), m.group(2)
        asm = {"Float16Type": "f16", "BFloat16Type": "bf16", "Float32Type": "f32", "Float64Type": "f64"}.get(cls)
        if cls == "IntegerType":
            w = re.search(r",\s*(\d+)", arg).group(1)
            asm = ("si" if "Signed" in arg else "ui" if "Unsigned" in arg else "i") + w
            asm = asm.replace("ui", "ui")
            if "Unsigned" in arg:
                asm = "ui" + w
        elif cls == "ComplexType":
            asm = "complex<f" + re.search(r"Float(\d+)Type", arg).group(1) + ">"
        elif re.fullmatch(r"Float[48]E\w+Type", cls):
            asm = "f" + cls[5:-4]
        elif cls.startswith("Q"):
            asm = "!torch." + cls[:-4].lower()
        for n in re.findall(r"ScalarType::(\w+)", names):
            out[n] = asm
    return out


def tables():
    """every entry of the translation tables, one obligation each (all entries)"""
    import numpy as np
    import torch

    f = fx()
    o = Oblig("dtype, layout, memory format and scalar type tables")

    def values(dt, npy):
        """same storage: equal size, and the same value for every (sampled, above 16 bits) bit pattern"""
        t0 = torch.empty((), dtype=dt)
        n = t0.element_size()
        if np.dtype(npy).itemsize != n:
            return False
        if dt is torch.bool:
            return np.dtype(npy) == np.bool_
        if n <= 2:
            raw = np.arange(256 ** n, dtype=np.uint8 if n == 1 else np.uint16)
        else:
            raw = np.random.RandomState(1).randint(0, 256, 4096 * n).astype(np.uint8)
        raw = raw.view(np.uint8)
        a = torch.from_numpy(raw.copy()).view(dt).tolist()
        b = raw.view(npy).tolist()
        return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))

    def run(c):
        g = []
        dtypes, layouts, formats = E.codes()
        cpp = cpp_types()
        for dt, asm in f.TORCH_DTYPE_TO_MLIR_TYPE_ASM.items():
            g.append((f"{dt}: its element type", asm == asm_of(dt)))
        for dt, get in f.TORCH_DTYPE_TO_MLIR_TYPE.items():
            want = {"!torch.qint8": "si8", "!torch.quint8": "ui8"}.get(asm_of(dt), asm_of(dt))
            g.append((f"{dt}: the element type of its constants", str(get()) == want))
        for dt, npy in f.TORCH_DTYPE_TO_NPY_TYPE.items():
            g.append((f"{dt}: its bytes", values(dt, npy)))
        for dt, code in f.TORCH_DTYPE_TO_INT.items():
            g.append((f"{dt}: its code", dtypes.get(code) is dt))
        names = {}
        for code, dt in dtypes.items():
            names[dt] = [n for n in cpp if (getattr(torch, E.CPP.get(n, n.lower()), None)) is dt]
        for dt, ns in names.items():
            if ns and dt in f.TORCH_DTYPE_TO_MLIR_TYPE_ASM and not asm_of(dt).startswith("!torch"):
                g.append((f"{dt}: the type the compiler has for its code", all(cpp[n] == f.TORCH_DTYPE_TO_MLIR_TYPE_ASM[dt] for n in ns)))
        for lay, code in f.TORCH_LAYOUT_TO_INT.items():
            g.append((f"{lay}: its code", layouts.get(code) is lay))
        for mf, code in f.TORCH_MEMORY_FORMAT_TO_INT.items():
            g.append((f"{mf}: its code", formats.get(code) is mf))
        want = {torch.SymInt: "int", torch.SymFloat: "float", torch.SymBool: "bool", int: "int", float: "float", str: "str", bool: "bool", type(None): "none"}
        for t, asm in f.SCALAR_TYPE_TO_TORCH_MLIR_TYPE.items():
            g.append((f"{t.__name__}: its type", asm == "!torch." + want.get(t, "?")))
        return g

    return o.prove(run)


# ---------------------------------------------------------------- tensor types
SYM = z3.Function("dimension_is_symbolic", z3.IntSort(), z3.BoolSort())
DIM = z3.Function("dimension", z3.IntSort(), z3.IntSort())


class Dim:
    """dimension i of a shape: a number or a symbolic integer"""

    _pyvc_ok = _pyvc_alt = True

    def __init__(self, i, tag=0):
        self.i, self.tag = i, tag

    def _pyvc_terms(self):
        return [self.i]

    @property
    def _pyvc_tag(self):
        return self.tag

    def _pyvc_rebuild(self, t):
        return Dim(t[0], self.tag)

    def _at(self):
        return S.zterm(self.i) + I(1000000) * self.tag

    def _pyvc_isinstance(self, classes):
        import torch

        sym = any(issubclass(torch.SymInt, k) for k in classes)
        num = any(issubclass(int, k) for k in classes)
        return True if sym and num else False if not sym and not num else SYM(self._at()) if sym else z3.Not(SYM(self._at()))

    def _pyvc_eq(self, o):
        return DIM(self._at()) == DIM(o._at()) if isinstance(o, Dim) else False

    def _pyvc_text(self):
        return T.Text([T.Dec(DIM(self._at()))])

    @property
    def node(self):
        return G("symbolic dimension", DIM(self._at()))


def shape(n, tag=0):
    return S.STuple(n, lambda i: Dim(i, tag))


def shape_text(n, tag=0):
    return T.Join(",", n, lambda i: ["?"] if C.cur().branch(SYM(Dim(i, tag)._at())) else [T.Dec(DIM(Dim(i, tag)._at()))])


def parse_type(it, d):
    return R.Type(d["asm"])


def text_interp(con):
    con = dict(con)
    it = interp(con)
    it.texts = True
    return it


LAYOUTS = ["strided", "sparse_coo", "sparse_csr", "sparse_csc", "sparse_bsr", "sparse_bsc"]


def vtensor_type():
    import torch

    f = fx()
    CC = f.ContextCache
    o = Oblig("ContextCache.get_vtensor_type, create_vtensor_type")

    def run(c):
        imp, gni, b = new_importer()
        cc = imp._cc
        n = z3.Int("rank")
        c.assume(n >= 0)
        dt = torch.float32
        case = c.choose(2)
        c.assume(z3.ForAll([z3.Int("i")], DIM(z3.Int("i")) >= 0))
        if case:  # a tensor of known sizes
            sz = S.STuple(n, lambda i: DIM(S.zterm(i)))
            it = text_interp({CC.dtype_to_type: lambda it, d: R.Type("element" if d["dtype"] is dt else "?")})
            if c.choose(2):
                r = it.call(cc.create_vtensor_type, [dt, sz], {})
            else:
                t = Pretend(torch.Tensor, dtype=dt, size=lambda: sz)
                t.size._pyvc_ok = True
                r = it.call(cc.tensor_to_vtensor_type, [t], {})
            want = T.Text(["!torch.vtensor<[", T.Join(",", n, lambda i: [T.Dec(DIM(S.zterm(i)))]), "],", "element", ">"])
            return [(f"{dt}, known sizes: {a}", y) for a, y in T.same(r.asm, want)]
        mutable = bool(c.choose(2))
        lay = c.choose(1 + len(LAYOUTS))
        val = None if lay == 0 else Pretend(torch.Tensor, layout=getattr(torch, LAYOUTS[lay - 1]))
        enc = []

        def encoding(it, d):
            enc.append(d["t"])
            return "#sparse"

        asked = []
        it = text_interp({f.sparsity_encoding: encoding, CC.dtype_to_type: lambda it, d: asked.append(d["dtype"]) or R.Type("element")})
        kw = {"val": val} if val is not None or c.choose(2) else {}
        if mutable or c.choose(2):
            kw["mutable"] = mutable
        r = it.call(cc.get_vtensor_type, [shape(n), dt], kw)
        sparse = lay > 1
        want = T.Text([f"!torch.{'tensor' if mutable else 'vtensor'}<[", shape_text(n), "],", "element", *([",#sparse"] if sparse else []), ">"])
        lab = f"{dt}, {'mutable, ' if mutable else ''}{LAYOUTS[lay - 1] if lay else 'no value'}: "
        return [(lab + a, y) for a, y in T.same(r.asm, want)] + [(lab + "the encoding of this value", all(x is val for x in enc)), (lab + "the element type of this dtype", asked == [dt])]

    return o.prove(run, budget_s=120, max_paths=20000)


def dtype_cache():
    """dtype_to_type, whatever was asked before"""
    f = fx()
    o = Oblig("ContextCache.dtype_to_type")

    def run(c):
        import torch

        imp, gni, b = new_importer()
        cc = imp._cc
        table = f.TORCH_DTYPE_TO_MLIR_TYPE_ASM
        every = sorted({v for v in vars(torch).values() if isinstance(v, torch.dtype)}, key=str)
        dt = every[c.choose(len(every))]
        # invariant of the cache: a dtype is absent or has its type
        seeded = {d: R.Type(asm_of(d)) for d in table if d is not dt}
        if dt in table and c.choose(2):
            seeded[dt] = R.Type(asm_of(dt))
        cc._dtype_to_type = seeded
        try:
            r = interp({}).call(cc.dtype_to_type, [dt], {})
        except C.PyRaise as e:
            return [(f"{dt}: only an unknown dtype is refused", dt not in table and isinstance(e.exc, ValueError))]
        ok = dt in table and str(r) == asm_of(dt)
        return [(f"{dt}: its element type", ok), (f"{dt}: what is remembered stays right", all(str(t) == asm_of(d) for d, t in cc._dtype_to_type.items()))]

    return o.prove(run, budget_s=60)


def metadata_cache():
    """tensor_metadata_to_type after any other query that it may answer from its cache"""
    import torch

    f = fx()
    CC = f.ContextCache
    o = Oblig("ContextCache.tensor_metadata_to_type")
    from torch.fx.passes.shape_prop import TensorMetadata

    def run(c):
        imp, gni, b = new_importer()
        cc = imp._cc
        n1, n2 = z3.Ints("rank1 rank2")
        c.assume(z3.And(n1 >= 0, n2 >= 0))
        asked = []

        def make(it, d):
            asked.append(d)
            return G("type", len(asked))

        class Cache:
            """a dictionary with one entry that may or may not have the key asked for"""

            _pyvc_ok = True

            def __init__(self):
                self.entries = []

            def get(self, key, default=None):
                for k, v in self.entries:
                    e = S.eq(k, key)
                    if c.branch(S.zterm(e)) if not isinstance(e, bool) else e:
                        return v
                return default

            def __contains__(self, key):
                raise C.Unsupported("in")

            def __getitem__(self, key):
                v = self.get(key, self)
                if v is self:
                    raise C.PyRaise(KeyError(key))
                return v

            def __setitem__(self, key, v):
                self.entries.append((key, v))

        cc._tensor_metadata_cache = Cache()
        dts = [torch.float32, torch.int64]
        # dense values have one type; sparse ones the one of their encoding
        sparse = [Pretend(torch.Tensor, layout=torch.sparse_coo, encoding=z3.Int(f"encoding{i}")) for i in range(2)]
        vals = [None, Pretend(torch.Tensor, layout=torch.strided), Pretend(torch.Tensor, layout=torch.strided), *sparse]

        def encode(it, d):
            if not any(d["t"] is s for s in sparse):
                raise C.Unsupported("encoding of something else")
            return G("encoding", d["t"].encoding)
        q = []
        for tag, n in ((0, n1), (1, n2)):
            tm = Pretend(TensorMetadata, shape=shape(n, tag), dtype=dts[c.choose(2)])
            v, mu = vals[c.choose(len(vals))], bool(c.choose(2))
            q.append((tm, v, mu, n))
        it = interp({CC.get_vtensor_type: make, f.sparsity_encoding: encode})
        r1 = it.call(cc.tensor_metadata_to_type, [q[0][0]], {"val": q[0][1], "mutable": q[0][2]})
        k1 = len(asked)
        r2 = it.call(cc.tensor_metadata_to_type, [q[1][0]], {"val": q[1][1], "mutable": q[1][2]})

        def alike(v, w):
            if v is w:
                return True
            a, b_ = (x if any(x is s for s in sparse) else None for x in (v, w))
            return a is b_ is None or (a is not None and b_ is not None and S.zeq(a.encoding, b_.encoding))

        def right(d, p):
            tm, v, mu, n = p
            j = c.fresh_int("j")
            sh = d["shape"]
            g = [("dtype", d["dtype"] is tm.dtype), ("value", alike(d["val"], v)), ("mutability", d["mutable"] is mu), ("rank", S.zeq(S.length(sh), n))]
            return g

        g = [("first: asked once", k1 == 1 and r1 is not None)]
        g += [("first: " + a, y) for a, y in right(asked[0], q[0])] + [("first: its own shape", asked[0]["shape"] is q[0][0].shape)]
        if len(asked) == 2:
            g += [("second: " + a, y) for a, y in right(asked[1], q[1])] + [("second: its own shape", asked[1]["shape"] is q[1][0].shape), ("second: its own type", is_(r2, "type", 2))]
        else:
            g.append(("second, as the first", r2 is r1))
            # then the type of the first is the type of the second
            g += [("second, as the first: " + a, y) for a, y in right(asked[0], q[1])]
            j = c.fresh_int("j")
            if c.branch(z3.And(0 <= j, j < n2)):
                a, b_ = Dim(j, 0)._at(), Dim(j, 1)._at()
                g.append(("second, as the first: dimension", z3.And(SYM(a) == SYM(b_), z3.Implies(z3.Not(SYM(b_)), DIM(a) == DIM(b_)))))
        return g

    return o.prove(run, budget_s=120, max_paths=20000)


# ---------------------------------------------------------------- sparsity
def sparsity():
    """sparsity_encoding, for any numbers of batch, sparse and dense dimensions"""
    import torch

    f = fx()
    o = Oblig("sparsity_encoding")
    VS = z3.Function("values_shape", z3.IntSort(), z3.IntSort())

    def run(c):
        B, D = z3.Ints("batch dense")
        lay = LAYOUTS[1 + c.choose(5)]
        Sp = z3.Int("sparse") if lay == "sparse_coo" else I(2)
        c.assume(z3.And(B >= 0, D >= 0, Sp >= 2))
        if lay == "sparse_coo":
            c.assume(B == 0)  # PyTorch has no batched COO tensors
        idt = [torch.int32, torch.int64][c.choose(2)]
        used = []

        class Idx:
            _pyvc_ok = True

            def __init__(self, which):
                self.which = which

            @property
            def dtype(self):
                used.append(self.which)
                return idt

        rank = B + Sp + D

        class T_:
            _pyvc_ok = True
            ndim = z3.simplify(rank)
            layout = getattr(torch, lay)

            def sparse_dim(self):
                return Sp

            def dense_dim(self):
                return D

            def dim(self):
                return self.ndim

            def _indices(self):
                return Idx("coo")

            def col_indices(self):
                return Idx("col")

            def row_indices(self):
                return Idx("row")

            def crow_indices(self):
                return Idx("col")

            def ccol_indices(self):
                return Idx("row")

            def values(self):
                sh = S.STuple(z3.simplify(B + 1 + (2 if "bs" in lay else 0) + D), lambda i: VS(S.zterm(i)))
                return Pretend(torch.Tensor, shape=sh)

            for m in (sparse_dim, dense_dim, dim, _indices, col_indices, row_indices, crow_indices, ccol_indices, values):
                m._pyvc_ok = True

        it = text_interp({})
        r = it.call(f.sparsity_encoding, [T_()], {})
        d = lambda t: T.Dec(z3.simplify(S.zterm(t)))  # noqa: E731
        p = ["#sparse_tensor.encoding<{map=(", T.Join(",", rank, lambda i: ["d", d(i)]), ")->("]
        if c.branch(B > 0):
            p += [T.Join(",", B, lambda i: ["d", d(i), ":batch"]), ","]
        if lay == "sparse_coo":
            p += ["d", d(B), ":compressed(nonunique),"]
            if c.branch(Sp > 2):
                p += [T.Join(",", Sp - 2, lambda i: ["d", d(B + 1 + i), ":singleton(nonunique,soa)"]), ","]
            p += ["d", d(B + Sp - 1), ":singleton(soa)"]
        else:
            major, minor = (B, B + 1) if lay in ("sparse_csr", "sparse_bsr") else (B + 1, B)
            if "bs" in lay:
                bs = lambda x: VS(B + 1) if x is B else VS(B + 2)  # noqa: E731
                p += ["d", d(major), "floordiv", d(bs(major)), ":dense,d", d(minor), "floordiv", d(bs(minor)), ":compressed,"]
                p += ["d", d(B), "mod", d(VS(B + 1)), ":dense,d", d(B + 1), "mod", d(VS(B + 2)), ":dense"]
            else:
                p += ["d", d(major), ":dense,d", d(minor), ":compressed"]
        if c.branch(D > 0):
            p += [",", T.Join(",", D, lambda i: ["d", d(B + Sp + i), ":dense"])]
        bits = 32 if idt is torch.int32 else 64
        p += [f"),posWidth={bits},crdWidth={bits}}}>"]
        which = {"sparse_coo": "coo", "sparse_csr": "col", "sparse_bsr": "col", "sparse_csc": "row", "sparse_bsc": "row"}[lay]
        return [(f"{lay}: {a}", y) for a, y in T.same(r, T.Text(p))] + [(f"{lay}: the width of its own indices", set(used) == {which})]

    return o.prove(run, budget_s=120)


# ---------------------------------------------------------------- types of values
def value_types():
    """value_info_to_type and node_val_to_type: every kind of value there is"""
    import torch
    from torch._subclasses.fake_tensor import FakeTensor
    from torch.fx.passes.shape_prop import TensorMetadata

    f = fx()
    CC = f.ContextCache
    o = Oblig("ContextCache.value_info_to_type, node_val_to_type")

    def run(c):
        imp, gni, b = new_importer()
        cc = imp._cc
        n = z3.Int("length")
        c.assume(n >= 0)
        size = G("size")
        fake = Pretend(FakeTensor, size=lambda: size, dtype=G("dtype"), shape=size)
        fake.size._pyvc_ok = True
        vals = {
            "nothing": None,
            "a tensor": fake,
            "tensors": S.SList(n, lambda i: fake),
            "an int": z3.Int("v"),
            "a float": z3.Real("w"),
            "a bool": z3.Bool("u"),
            "a string": "s",
            "a symbolic int": Pretend(torch.SymInt),
            "a symbolic float": Pretend(torch.SymFloat),
            "a symbolic bool": Pretend(torch.SymBool),
            "another object": Pretend(torch.Generator),
            "a list of others": [fake, 3],
        }
        kind = sorted(vals)[c.choose(len(vals))]
        val = vals[kind]
        quant = bool(c.choose(2))
        meta = [None, Pretend(TensorMetadata, is_quantized=quant, shape=size, dtype=G("dtype"))][c.choose(2)]
        if meta is None and quant:
            raise C.PathInfeasible()
        mutable = [None, False, True][c.choose(3)]
        calls = []

        def tm(it, d):
            calls.append(("meta", d["tm"], d["val"], d["mutable"]))
            return R.Type("from metadata")

        def vt(it, d):
            calls.append(("value", d["shape"], d["dtype"], d["val"], d["mutable"]))
            return R.Type("from value")

        it = interp({CC.tensor_metadata_to_type: tm, CC.get_vtensor_type: vt})
        kw = {} if mutable is None else {"mutable": mutable}
        via = bool(c.choose(2))
        lab = f"{kind}{', tensor metadata' if meta else ''}{', quantized' if quant else ''}: "
        m = bool(mutable)
        try:
            if via:
                node = FxNode("node")
                if meta is not None or c.choose(2):
                    node.meta["tensor_meta"] = meta
                if kind != "nothing" or c.choose(2):
                    node.meta["val"] = val
                r = it.call(cc.node_val_to_type, [node], kw)
            else:
                if meta is not None or c.choose(2):
                    kw["tensor_meta"] = meta
                r = it.call(cc.value_info_to_type, [val], kw)
        except C.PyRaise as e:
            bad = quant and kind != "tensors" or (meta is None and kind in ("another object", "a list of others"))
            return [(lab + "refused only if it has no type", bad)]
        s = str(r)
        lists = kind == "tensors"
        if lists:
            return [(lab + "a list of tensors", s == "!torch.list<vtensor>")]
        if meta is not None:
            ok = calls == [("meta", meta, val, m)] if not S.is_sym(val) else len(calls) == 1 and calls[0][1] is meta and calls[0][3] == m
            return [(lab + "not quantized", not quant), (lab + "the type of its metadata", s == "from metadata" and ok)]
        if kind == "a tensor":
            ok = len(calls) == 1 and calls[0][0] == "value" and calls[0][1] is size and calls[0][2] is fake.dtype and calls[0][3] is fake and calls[0][4] == m
            return [(lab + "the type of the tensor", s == "from value" and ok)]
        want = {"nothing": "none", "an int": "int", "a float": "float", "a bool": "bool", "a string": "str", "a symbolic int": "int", "a symbolic float": "float", "a symbolic bool": "bool"}.get(kind)
        return [(lab + "its scalar type", want is not None and s == "!torch." + want)]

    return o.prove(run, budget_s=60, max_paths=20000)


# ---------------------------------------------------------------- constants
def literals():
    """the constant a Python value is imported as, for every kind of value"""
    import torch

    f = fx()
    o = Oblig("LITERAL_CONVERTER_MAP, _import_default_value")

    def run(c):
        imp, gni, b = new_importer()
        dtypes, layouts, formats = E.codes()
        v, w, u, s = z3.Int("v"), z3.Real("w"), z3.Bool("u"), z3.String("s")
        t = Pretend(torch.Tensor)
        kinds = [("none", None), ("int", v), ("float", w), ("bool", u), ("str", s), ("tensor", t), ("parameter", t)]
        kinds += [("device", torch.device(x)) for x in ("cpu", "cuda", "cuda:1", "meta")]
        kinds += [("code", x) for x in sorted(f.TORCH_DTYPE_TO_INT, key=str)]
        kinds += [("code", x) for x in sorted(f.TORCH_LAYOUT_TO_INT, key=str)]
        kinds += [("code", x) for x in sorted(f.TORCH_MEMORY_FORMAT_TO_INT, key=str)]
        kind, x = kinds[c.choose(len(kinds))]
        made = []

        def lit(it, d):
            made.append(d)
            return Pretend(R.Operation, result=GV("literal"))

        con = {f._make_vtensor_literal_op: lit, f.ContextCache.tensor_to_vtensor_type: lambda it, d: G("type of the tensor") if d["tensor"] is t else G("?")}
        it = interp(con)
        cls = {"none": type(None), "int": int, "float": float, "bool": bool, "str": str, "tensor": torch.Tensor, "parameter": torch.nn.Parameter}.get(kind, type(x))
        way = c.choose(2)
        n0 = len(b.operations)
        lab = f"{kind} {x if kind in ('device', 'code') else ''}: "
        loc = imp_loc(gni)
        with R.InsertionPoint(b):
            if way and kind not in ("tensor", "parameter"):
                r = it.call(gni._import_default_value, [loc, x, None], {})
            else:
                conv = it.call(f.LITERAL_CONVERTER_MAP.lookup, [cls], {})
                r = it.call(conv, [x, gni, gni._cc], {})
        ops = b.operations[n0:]
        if kind in ("tensor", "parameter"):
            ok = len(made) == 1 and made[0]["tensor"] is t and isinstance(made[0]["vtensor_type"], G) and made[0]["py_attr_tracker"] is gni._cc._py_attr_tracker
            return [(lab + "a literal of the tensor", ok and not ops and is_(r, "literal") is not False), (lab + "of its type", made[0]["vtensor_type"].is_("type of the tensor"))]
        g = [(lab + "one operation", len(ops) == 1 and r is ops[0].results[0])]
        if len(ops) != 1:
            return g
        op = ops[0]
        a = op.attributes.get("value")
        want = {"none": "none", "device": "device"}.get(kind, "int" if kind == "code" else kind)
        g.append((lab + "its kind", op.name == "torch.constant." + want and not op.operands))
        ty = {"none": "none", "device": "Device"}.get(kind, want)
        g.append((lab + "its type", [str(z) for z in op.result_types] == ["!torch." + ty]))
        if kind == "none":
            return g
        p = a.payload
        if want == "int":
            g.append((lab + "64 bits", str(p[0]) == "i64"))
            if kind == "code":
                table = dtypes if isinstance(x, torch.dtype) else layouts if isinstance(x, torch.layout) else formats
                g.append((lab + "its code", table.get(p[1]) is x))
            else:
                g.append((lab + "its value", S.zeq(p[1], v)))
        elif want == "float":
            g.append((lab + "its value", str(p[0]) == "f64" and (S.zeq(p[1], w) if S.is_sym(p[1]) else False)))
        elif want == "bool":
            y = p[1]
            g.append((lab + "its value", str(p[0]) == "i1" and (S.zterm(y) == u if isinstance(y, z3.BoolRef) else S.zeq(y, z3.If(u, I(1), I(0))) if S.is_sym(y) else False)))
        elif want == "str":
            g.append((lab + "its value", a.kind == "str" and isinstance(p[0], z3.SeqRef) and p[0] == s if hasattr(a, "kind") else False))
        else:
            g.append((lab + "its name", p[0] == str(x)))
        return g

    return o.prove(run, budget_s=60)


def import_literal():
    """_import_literal: the hook's value if it has one, else the converter's; bool tensors as bytes, retyped"""
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_literal, _import_input")

    def run(c):
        imp, gni, b = new_importer()
        kinds = ["bool tensor", "tensor", "parameter", "int", "another object"]
        kind = kinds[c.choose(len(kinds))]
        size = G("size")
        bytes_ = Pretend(torch.Tensor, dtype=torch.uint8)

        def to(*a, **k):
            if list(a) + list(k.values()) != [torch.uint8]:
                raise C.Unsupported("conversion of a bool tensor")
            return bytes_

        to._pyvc_ok = True
        sz = lambda: size  # noqa: E731
        sz._pyvc_ok = True

        class Other:
            pass

        # the concrete class matters to lookup(type(value))
        real = {"parameter": torch.nn.Parameter, "tensor": torch.Tensor, "bool tensor": torch.Tensor}
        x = z3.Int("v") if kind == "int" else Other() if kind == "another object" else Pretend(real[kind], dtype=torch.bool if kind == "bool tensor" else G("dtype"), to=to, size=sz, shape=size)
        hooked = bool(c.choose(2))
        info = G("info") if c.choose(2) else None
        seen = []

        def resolve(*a):
            seen.append(a[-2:])
            return GV("hook") if hooked else None

        resolve._pyvc_ok = True

        class Hooks:
            _pyvc_ok = True
            resolve_literal = staticmethod(resolve)

        imp._hooks = Hooks()
        conv = []

        def converter(v, g, cc):
            conv.append((v, g, cc))
            return GV("converted")

        converter._pyvc_ok = True
        looked = []

        def lookup(it, d):
            looked.append(d["t"])
            return None if d["t"] is Other else converter

        retyped = []

        def convert(it, d):
            retyped.append(d)
            return GV("retyped")

        it = interp({f.TypeSubclassMap.lookup: lookup, GNI._convert_type: convert})
        lab = f"{kind}{' with a hook' if hooked else ''}: "
        with R.InsertionPoint(b):
            try:
                r = it.call(gni._import_literal, [x, info] if info is not None else [x], {})
            except C.PyRaise as e:
                return [(lab + "refused only without a converter", kind == "another object" and not hooked and isinstance(e.exc, TypeError))]
        val = bytes_ if kind == "bool tensor" else x
        g = [(lab + "the hook is asked about this value", len(seen) == 1 and seen[0][0] is val and seen[0][1] is info)]
        src = "hook" if hooked else "converted"
        if hooked:
            g.append((lab + "nothing else is made", not conv))
        else:
            want = int if kind == "int" else real.get(kind, Other)
            g.append((lab + "converted by its class", looked == [want] and len(conv) == 1 and conv[0][0] is val and conv[0][1] is gni and conv[0][2] is gni._cc))
        if kind == "bool tensor":
            ok = len(retyped) == 1 and retyped[0]["expected_type"] is torch.Tensor if retyped and "expected_type" in retyped[0] else len(retyped) == 1
            d = retyped[0] if retyped else {}
            args = list(d.values())
            ok = ok and any(isinstance(a, GV) for a in args) and any(a is torch.bool for a in args) and any(a is size for a in args) and any(a is torch.Tensor for a in args)
            g.append((lab + "retyped as bool, of its size", ok and S.conj(is_(r, "retyped"), *[is_(a, src) for a in args if isinstance(a, GV)])))
        else:
            g.append((lab + "its value", not retyped and is_(r, src)))
        return g

    o.prove(run, budget_s=60)

    def inputs(c):
        """_import_input: the hook's value, else the literal unless it is mutated"""
        imp, gni, b = new_importer()
        hooked, mut = bool(c.choose(2)), bool(c.choose(2))
        x = G("value")
        seen = []

        def resolve(*a):
            seen.append(a[-2:])
            return GV("hook") if hooked else None

        resolve._pyvc_ok = True

        class Hooks:
            _pyvc_ok = True
            resolve_input = staticmethod(resolve)

        class Info:
            _pyvc_ok = True
            mutable_producer_node_name = "n" if mut else None
            input_spec = "spec"

        info = Info()
        imp._hooks = Hooks()
        it = interp({GNI._import_literal: lambda it, d: GV("literal") if d["py_value"] is x and d["info"] is info else GV("?")})
        try:
            r = it.call(gni._import_input, [x, info], {})
        except C.PyRaise as e:
            return [("refused only if mutated and not taken by the hook", mut and not hooked and isinstance(e.exc, ValueError))]
        g = [("the hook is asked", len(seen) == 1 and seen[0][0] is x and seen[0][1] is info)]
        return g + [("the hook's value" if hooked else "the literal, of a value that is not mutated", is_(r, "hook") if hooked else S.conj(is_(r, "literal"), not mut))]

    return o.prove(inputs)


def tensor_literal():
    """_make_vtensor_literal_op: the elements of the tensor, in order, at its type"""
    import numpy as np
    import torch

    f = fx()
    o = Oblig("_make_vtensor_literal_op, create_mlir_tensor_type")

    def run(c):
        imp, gni, b = new_importer()
        dts = sorted(f.TORCH_DTYPE_TO_NPY_TYPE, key=str) + [torch.complex32, torch.quint8]
        dt = dts[c.choose(len(dts))]
        n = z3.Int("rank")
        c.assume(n >= 0)
        SZ = z3.Function("size", z3.IntSort(), z3.IntSort())
        j = z3.Int("j")
        c.assume(z3.ForAll([j], SZ(j) >= 0))
        size = S.STuple(n, lambda i: SZ(S.zterm(i)))
        listed = Pretend(list)
        fn = lambda h: (setattr(h, "_pyvc_ok", True), h)[1]  # noqa: E731
        ten = Pretend(torch.Tensor, dtype=dt, shape=size, size=fn(lambda: size), tolist=fn(lambda: listed))
        count = z3.Int("count")
        c.assume(count >= 0)

        class Array:
            """numpy array: `what` it holds, as which element type"""

            _pyvc_ok = True

            def __init__(self, what, dtype):
                self.what, self.dtype = what, dtype
                self.size, self.shape = count, size

            def astype(self, d):
                return Array(self.what, d)

            def view(self, d):
                return self if d is self.dtype else Array("reinterpreted", d)

            astype._pyvc_ok = view._pyvc_ok = True

        def np_array(*a, **k):
            if len(a) != 1 or a[0] is not listed or (k and set(k) != {"dtype"}):
                raise C.Unsupported("numpy array of something else")
            return Array(listed, k.get("dtype"))

        class Tracker:
            _pyvc_ok = True

            def __init__(self):
                self.mapping = f.RefMapping(f.Empty)
                self.asked = []

            def track(self, x):
                self.asked.append(x)
                return self.mapping

            track._pyvc_ok = True

        tr = Tracker()
        known = bool(c.choose(2))
        before = R.Attribute("before", ()) if known else None
        if known:
            tr.mapping.value = before
        vt = G("its type")
        it = text_interp({})
        it.contracts[id(np.array)] = lambda i, a, k: np_array(*a, **k)
        lab = f"{dt}{', seen before' if known else ''}: "
        with R.InsertionPoint(b):
            try:
                op = it.call(f._make_vtensor_literal_op, [ten, vt, tr], {})
            except C.PyRaise as e:
                return [(lab + "refused only if numpy cannot hold it", dt not in f.TORCH_DTYPE_TO_NPY_TYPE and not known)]
        ok = b.operations == [op] and op.name == "torch.vtensor.literal" and not op.operands
        g = [(lab + "one literal", ok), (lab + "of the type given", len(op.result_types) == 1 and op.result_types[0] is vt), (lab + "remembered for this tensor", tr.asked == [ten] and tr.mapping.value is op.attributes.get("value"))]
        a = op.attributes["value"]
        if known:
            return g + [(lab + "what was made for it", a is before)]
        npy = f.TORCH_DTYPE_TO_NPY_TYPE[dt]
        mt = f.TORCH_DTYPE_TO_MLIR_TYPE[dt]()
        if a.kind == "resource":
            ty, name, arr = a.payload
            elt, shp = ty.element_type, ty.shape
        elif a.kind == "dense":
            elt, shp, arr = a.payload[:3]
            g.append((lab + "a splat only for one element", S.zeq(count, 1)))
        else:
            return g + [(lab + "elements", False)]
        g.append((lab + "the elements of the tensor", arr.what is listed and arr.dtype is npy))
        g.append((lab + "element type", str(elt) == str(mt)))
        g.append((lab + "shape", shp is size or S.eq(shp, size)))
        return g

    return o.prove(run, budget_s=60)


def tracker():
    """RefTracker.track: a value is only ever found for the object it was made for"""
    f = fx()
    o = Oblig("RefTracker.track")

    class Obj:
        pass

    def run(c):
        x, y = Obj(), Obj()
        t = f.RefTracker()
        state = c.choose(4)
        # the entry under the object's id: none; its own; a dead object's; a living other's
        e = None
        if state:
            z = Obj()
            e = f.RefMapping({1: x, 2: z, 3: y}[state])
            del z
            e.value = "value"
            t._refs[id(x)] = e
        other = f.RefMapping(y)
        other.value = "other"
        if c.choose(2):
            t._refs[id(y)] = other
        r = interp({}).call(t.track, [x], {})
        kind = {0: "never seen", 1: "seen", 2: "takes the place of a dead object", 3: "of the id of another object"}[state]
        if state == 1:
            return [(f"{kind}: what was made for it", r is e)]
        return [(f"{kind}: nothing is known", r is not e and r is not other and r.is_empty), (f"{kind}: remembered from now on", t._refs.get(id(x)) is r and r._referrent() is x)]

    return o.prove(run)


def type_map():
    """TypeSubclassMap.lookup: the entry of the class itself, else of the first class it derives from"""
    f = fx()
    o = Oblig("TypeSubclassMap.lookup")
    SUB = z3.Function("subclass_of_entry", z3.IntSort(), z3.BoolSort())

    def run(c):
        m = f.TypeSubclassMap()
        n = z3.Int("entries")
        c.assume(n >= 0)
        t = G("class")

        def subclass(i, a, k):
            if a[0] is not t or not isinstance(a[1], G) or a[1].code != G("entry class").code:
                raise C.Unsupported("another class test")
            return SUB(S.zterm(a[1].ix[0]))

        m._mapping = S.SList(n, lambda i: (G("entry class", i), G("value", i)))

        class Cache:
            _pyvc_ok = True

            def __init__(self):
                self.v, self.has = None, c.choose(2)
                self.first = self.has

            def __getitem__(self, k):
                if k is not t:
                    raise C.Unsupported("another key")
                if self.first:
                    return G("remembered")
                raise C.PyRaise(KeyError("class"))

            def __setitem__(self, k, v):
                if k is not t:
                    raise C.Unsupported("another key")
                self.v, self.has = v, True

        m._cache = Cache()
        j = c.fresh_int("j")
        none_of = lambda k: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(SUB(j))))  # noqa: E731

        def at(it, fr, k):
            c.assume(none_of(k))

        def after(it, fr, k):
            return [("entries passed over are no superclasses", z3.Not(SUB(k))), ("nothing remembered on the way", not m._cache.has)]

        cut = Cut(lambda it, fr: [("nothing remembered before", not m._cache.has)], at, after)
        it = interp({})
        it.loop_contract = cut
        it.contracts[id(issubclass)] = subclass
        try:
            r = it.call(m.lookup, [t], {})
        except C.PyRaise as e:
            if isinstance(e.exc, Stop):
                return e.exc.goals
            raise
        if m._cache.first:
            return [("what is remembered for the class", is_(r, "remembered"))]
        if r is None:
            return cut.goals + [("nothing only if it derives from no entry", none_of(n)), ("which is remembered", m._cache.has and m._cache.v is None)]
        k = S.zterm(r.ix[0]) if isinstance(r, G) else None
        if k is None:
            return cut.goals + [("a value of the map", False)]
        return cut.goals + [("the value of an entry", S.conj(is_(r, "value", k), k >= 0, k < n)), ("that it derives from", SUB(k)), ("the first such", none_of(k)), ("which is remembered", m._cache.v is r)]

    return o.prove(run)
