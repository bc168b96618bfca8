"""C17: types and constants of an ONNX model are imported as they are."""
import inspect

from checks.fximp import C, G, GV, Oblig, R, S, args_of, is_, tagcode, z3
from checks.onnx_flow import Msg, Name, files, new_node_importer, oi, ox
from pyvc import text as T

I = z3.IntVal
INT, BOOL = z3.IntSort(), z3.BoolSort()
GIVEN = z3.Function("size_is_given", INT, BOOL)
SIZE = z3.Function("size_of_dimension", INT, INT)


def elements():
    """{data type code: (MLIR element type, field of inline data)}, from the ONNX standard"""
    import onnx

    D = onnx.TensorProto.DataType
    t = {
        "FLOAT": ("f32", "float_data"),
        "UINT8": ("ui8", "int32_data"),
        "INT8": ("si8", "int32_data"),
        "UINT16": ("ui16", "int32_data"),
        "INT16": ("si16", "int32_data"),
        "INT32": ("si32", "int32_data"),
        "INT64": ("si64", "int64_data"),
        "STRING": ("!torch.str", "string_data"),
        "BOOL": ("i1", "int32_data"),
        "FLOAT16": ("f16", "int32_data"),
        "DOUBLE": ("f64", "double_data"),
        "UINT32": ("ui32", "uint64_data"),
        "UINT64": ("ui64", "uint64_data"),
        "COMPLEX64": ("complex<f32>", "float_data"),
        "COMPLEX128": ("complex<f64>", "double_data"),
        "BFLOAT16": ("bf16", "int32_data"),
        "FLOAT8E4M3FN": ("f8E4M3FN", "int32_data"),
        "FLOAT8E4M3FNUZ": ("f8E4M3FNUZ", "int32_data"),
        "FLOAT8E5M2": ("f8E5M2", "int32_data"),
        "FLOAT8E5M2FNUZ": ("f8E5M2FNUZ", "int32_data"),
        "UINT4": ("ui4", "int32_data"),
        "INT4": ("si4", "int32_data"),
    }
    return {D.Value(k): (k, *v) for k, v in t.items()}


class Optional_:
    """a number or None"""

    _pyvc_ok = _pyvc_ops = True
    _pyvc_tag = None

    def __init__(self, has, val):
        self.has, self.val = has, val

    def _pyvc_terms(self):
        return [S.zterm(self.has), S.zterm(self.val)]

    def _pyvc_rebuild(self, t):
        return Optional_(*t)

    @staticmethod
    def _pyvc_ite(c, a, b):
        N = Optional_(z3.BoolVal(False), I(0))
        up = lambda x: N if x is None else Optional_(z3.BoolVal(True), S.zterm(x)) if S.is_num_like(x) else x  # noqa: E731
        a, b = up(a), up(b)
        if isinstance(a, Optional_) and isinstance(b, Optional_):
            return Optional_(S.ite(c, a.has, b.has), S.ite(c, a.val, b.val))
        raise C.Unsupported("a size or something else")

    def _pyvc_is_none(self):
        return S.neg(self.has) if isinstance(self.has, bool) else z3.Not(self.has)

    def _pyvc_bool(self):
        return S.conj(self.has, S.zterm(self.val) != 0)

    def _pyvc_text(self):
        return T.Text([T.Case(self.has, [T.Dec(self.val)], ["None"])])

    def _cmp(self, o, f):
        if not (C.cur().entails(S.zterm(self.has)) and (isinstance(o, int) or C.is_sym(o))):
            raise C.Unsupported("a size that may be missing is compared")
        return f(S.zterm(self.val), o)

    def __eq__(self, o):
        if o is None:
            return self._pyvc_is_none()
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return S.neg(self.__eq__(o))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    __hash__ = object.__hash__


class DimMsg:
    """a dimension: given by a number, by a parameter's name, or not at all"""

    _pyvc_ok = True

    def __init__(self, i):
        self.i = i

    def HasField(self, f):
        g = GIVEN(S.zterm(self.i))
        if f == "dim_value":
            return g
        if f == "dim_param":
            p = z3.Function("parameter_is_named", INT, BOOL)(S.zterm(self.i))
            return z3.And(z3.Not(g), p)
        raise C.Unsupported(f)

    @property
    def dim_value(self):  # a field that is not set reads as 0
        return Optional_(True, z3.If(GIVEN(S.zterm(self.i)), SIZE(S.zterm(self.i)), 0))

    def WhichOneof(self, g):
        raise C.Unsupported("WhichOneof of a dimension")


for _c in (Optional_, DimMsg):
    for _fn in vars(_c).values():
        if inspect.isfunction(_fn):
            _fn._pyvc_ok = True


class Cache:
    """a cache of types: what it holds for a key is that key's type; it may hold any"""

    _pyvc_ok = True

    def __init__(self):
        self.hit, self.put = [], []

    def get(self, k, d=None):
        if self.put or not C.cur().choose(2):
            return d
        r = R.Type("cached")
        self.hit.append((k, r))
        return r

    def __contains__(self, k):
        raise C.Unsupported("a cache asked in another way")

    def __getitem__(self, k):
        r = self.get(k)
        if r is None:
            raise C.PyRaise(KeyError(k))
        return r

    def __setitem__(self, k, t):
        self.put.append((k, t))


for _fn in vars(Cache).values():
    if inspect.isfunction(_fn):
        _fn._pyvc_ok = True


def cache():
    R.reset()
    cc = ox().ContextCache(R.Context())
    return cc


def ti(con=None):
    it = oi(con or {})
    it.texts = True
    return it


def sizes(n):
    return S.STuple(n, lambda i: Optional_(GIVEN(S.zterm(i)), SIZE(S.zterm(i))))


def sizes_text(n):
    return T.Join(",", n, lambda i: [T.Dec(SIZE(S.zterm(i)))] if C.cur().branch(GIVEN(S.zterm(i))) else ["?"])


def rank(c):
    n = z3.Int("rank")
    c.assume(n >= 0)
    k = z3.Int("i")
    c.assume(z3.ForAll([k], SIZE(k) >= 0))
    return n


# ---------------------------------------------------------------- element types
def element_types():
    import onnx

    f = ox()
    o = Oblig("ContextCache.tensor_element_type")
    el = elements()
    codes = sorted(el) + [0, max(onnx.TensorProto.DataType.values()) + 1, 12345]

    def run(c):
        cc = cache()
        k = codes[c.choose(len(codes))]
        seeded = {x: R.Type(el[x][1]) for x in el if x != k}
        if k in el and c.choose(2):
            seeded[k] = R.Type(el[k][1])
        cc._elem_type_map = dict(seeded)
        try:
            r = ti().call(cc.tensor_element_type, [k], {})
        except C.PyRaise as e:
            return [(f"data type {k}: only one that is not known is refused", k not in el and isinstance(e.exc, f.OnnxImportError))]
        if k not in el:
            return [(f"data type {k} is refused", False)]
        return [
            (f"{el[k][0]}: the element type", str(r) == el[k][1]),
            (f"{el[k][0]}: what the cache holds stays that type's", set(cc._elem_type_map) <= set(el) and all(str(t) == el[x][1] for x, t in cc._elem_type_map.items())),
        ]

    o.prove(run)

    def every(c):
        known = {v for k, v in onnx.TensorProto.DataType.items() if k != "UNDEFINED"}
        return [("every data type of the standard", known <= set(el) | {v for k, v in onnx.TensorProto.DataType.items() if k in ("FLOAT4E2M1",)})]

    return o.prove(every)


# ---------------------------------------------------------------- tensor types
def vtensor_type():
    """get_vtensor_type, for any rank and whatever was asked before"""
    f = ox()
    o = Oblig("ContextCache.get_vtensor_type, tensor_proto_to_type")

    def same_key(k, n, e, known):
        if not (isinstance(k, tuple) and len(k) == 2 and k[1] is e and isinstance(k[0], S.SList)):
            raise C.Unsupported("a cache with another key")
        j = z3.Int("j")
        x = k[0].f(j)
        if known:
            return z3.And(S.zterm(S.zeq(k[0].n, n)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < S.zterm(n)), S.zterm(x) == SIZE(j))))
        return z3.And(S.zterm(S.zeq(k[0].n, n)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < S.zterm(n)), z3.And(S.zterm(x.has) == GIVEN(j), z3.Implies(GIVEN(j), S.zterm(x.val) == SIZE(j))))))

    def run(c):
        cc = cache()
        n = rank(c)
        e = R.Type("element")
        cc._vtensor_type_map = m = Cache()
        known = bool(c.choose(2))
        if known:  # of a tensor
            k = z3.Int("i")
            c.assume(z3.ForAll([k], GIVEN(k)))
            dims = S.SList(n, lambda i: SIZE(S.zterm(i)))
            code = G("data type")
            asked = []
            it = ti({f.ContextCache.tensor_element_type: lambda it, d: asked.append(d["elem_type"]) or e})
            r = it.call(cc.tensor_proto_to_type, [Msg("tensor", dims=dims, data_type=code, name=Name("t", 0))], {})
            g = [("the element type of its data type", asked == [code])]
        else:
            r = ti().call(cc.get_vtensor_type, [sizes(n), e], {})
            g = []
        if m.hit:
            return g + [("a type held for the same sizes and element type", r is m.hit[0][1]), ("asked for this one", same_key(m.hit[0][0], n, e, known))]
        want = T.Text(["!torch.vtensor<[", sizes_text(n), "],", "element", ">"])
        g += [("a tensor type: " + a, y) for a, y in T.same(r.asm, want)]
        g += [("what is held for later", S.conj(t is r, same_key(k, n, e, known))) for k, t in m.put]
        return g

    return o.prove(run)


class TP:
    """a TypeProto: of one kind, or empty; reading another kind's field gives an empty one"""

    _pyvc_ok = True

    def __init__(self, kind=None, elem=None, n=None, shaped=True):
        self.kind = kind
        e = TP.EMPTY if kind != "empty" else None
        self.tensor_type = Msg("tensor type", elem_type=elem if kind == "tensor" else 0, shape=Msg("shape", dim=S.SList(n, DimMsg) if kind == "tensor" and n is not None else []))
        self.sparse_tensor_type = Msg("sparse")
        self.sequence_type = Msg("sequence", elem_type=elem if kind == "sequence" and elem is not None else e)
        self.optional_type = Msg("optional", elem_type=elem if kind == "optional" and elem is not None else e)

    def WhichOneof(self, g):
        return None if self.kind in (None, "empty") else self.kind + "_type"

    def HasField(self, f):
        return self.WhichOneof("value") == f

    def __str__(self):
        return f"<{self.kind} type>" if self.kind not in (None, "empty") else ""

    __repr__ = __str__

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


for _fn in vars(TP).values():
    if inspect.isfunction(_fn):
        _fn._pyvc_ok = True
TP.EMPTY = None
TP.EMPTY = TP("empty")
TP.EMPTY.sequence_type.elem_type = TP.EMPTY.optional_type.elem_type = TP.EMPTY


def type_proto():
    """type_proto_to_type, for all kinds of types"""
    f = ox()
    CC = f.ContextCache
    o = Oblig("ContextCache.type_proto_to_type, get_list_element_type, get_optional_element_type")

    def run(c):
        cc = cache()
        n = rank(c)
        code = 7
        t = lambda: TP("tensor", code, n)  # noqa: E731
        seq = lambda x: TP("sequence", x)  # noqa: E731
        opt = lambda x: TP("optional", x)  # noqa: E731
        vt = ["vtensor<[", sizes_text(n), "],element>"]
        cases = {
            "tensor": (t(), "vt"),
            "sequence of tensors": (seq(t()), ["list", vt]),
            "optional tensor": (opt(t()), ["optional", vt]),
            "optional sequence of tensors": (opt(seq(t())), ["optional", ["list<", *vt, ">"]]),
            "no type": ("", "none"),
            "empty type": (TP(), "none"),
            "tensor of undefined type": (TP("tensor", 0), None),
            "map": (TP("map"), None),
            "sparse tensor": (TP("sparse_tensor"), None),
            "sequence of nothing": (TP("sequence"), None),
            "sequence of sequences": (seq(seq(t())), None),
            "sequence of maps": (seq(TP("map")), None),
            "optional nothing": (TP("optional"), None),
            "optional map": (opt(TP("map")), None),
            "optional sequence of sequences": (opt(seq(seq(t()))), None),
        }
        name = list(cases)[c.choose(len(cases))]
        tp, want = cases[name]
        asked, vts = [], []
        e = R.Type("element")
        wrapped = lambda kind: lambda it, d: R.Type(T.Text([f"{kind}<", *T.of(d["element_type"]).p, ">"]))  # noqa: E731
        it = ti(
            {
                CC.tensor_element_type: lambda it, d: asked.append(d["elem_type"]) or e,
                CC.get_vtensor_type: lambda it, d: vts.append((d["dims"], d["element_type"])) or R.Type("vt"),
                CC.get_list_type: wrapped("list"),
                CC.get_optional_type: wrapped("optional"),
                CC.get_none_type: lambda it, d: R.Type("none"),
            }
        )
        try:
            r = it.call(cc.type_proto_to_type, [tp], {})
        except C.PyRaise as ex:
            return [(f"{name}: only a type that has no counterpart is refused", want is None and isinstance(ex.exc, f.OnnxImportError))]
        if want is None:
            return [(f"{name}: refused", False)]
        g = [(f"{name}: the element type of its data type", asked == ([] if want == "none" else [code]))]
        if want in ("vt", "none"):
            g.append((f"{name}: its type", r.asm == want))
            if want == "vt":
                ok = len(vts) == 1 and vts[0][1] is e and isinstance(vts[0][0], S.SList)
                g.append((f"{name}: a tensor type of the element type", ok))
                if ok:
                    j = z3.Int("j")
                    x = vts[0][0].f(j)
                    g += [
                        (f"{name}: of its rank", S.zeq(vts[0][0].n, n)),
                        (f"{name}: of its sizes", z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Not(S.zterm(x._pyvc_is_none())) == GIVEN(j), z3.Implies(GIVEN(j), S.zterm(x.val) == SIZE(j)))) if isinstance(x, Optional_) else False),
                        (f"{name}: a key of the cache", getattr(vts[0][0], "_pyvc_class", list) is tuple),
                    ]
            return g
        return g + [(f"{name}: {a}", y) for a, y in T.same(r.asm, T.Text([want[0] + "<", *want[1], ">"]))]

    return o.prove(run)


def wrapper_types():
    """get_list_type, get_optional_type, get_none_type"""
    o = Oblig("ContextCache.get_list_type, get_optional_type, get_none_type")

    def run(c):
        cc = cache()
        kind = ["list", "optional"][c.choose(2)]
        cc._list_type_map, cc._optional_type_map = Cache(), Cache()
        m = getattr(cc, f"_{kind}_type_map")
        other = cc._optional_type_map if kind == "list" else cc._list_type_map
        e = "vtensor<[2,?],f32>"
        r = ti().call(getattr(cc, f"get_{kind}_type"), [e], {})
        g = [("each kind has its own cache", not other.hit and not other.put)]
        if m.hit:
            return g + [(f"{kind}: a type held for the same element type", r is m.hit[0][1] and m.hit[0][0] == e)]
        return g + [
            (f"{kind}: of the element type", str(r.asm).replace(" ", "") == f"!torch.{kind}<{e}>"),
            (f"{kind}: what is held for later", all(t is r and k == e for k, t in m.put)),
        ]

    o.prove(run)

    def none(c):
        cc = cache()
        r = ti().call(cc.get_none_type, [], {})
        return [("the none type", str(r.asm) == "!torch.none")]

    return o.prove(none)


def builtin_type():
    f = ox()
    o = Oblig("ContextCache.tensor_proto_to_builtin_type")

    def run(c):
        cc = cache()
        n = rank(c)
        e, code, asked = R.Type("element"), G("data type"), []
        it = ti({f.ContextCache.tensor_element_type: lambda it, d: asked.append(d["elem_type"]) or e})
        r = it.call(cc.tensor_proto_to_builtin_type, [Msg("tensor", dims=S.SList(n, lambda i: SIZE(S.zterm(i))), data_type=code, name=Name("t", 0))], {})
        j = z3.Int("j")
        return [
            ("of its rank", S.zeq(r.shape.n, n)),
            ("of its sizes", z3.Implies(z3.And(0 <= j, j < n), S.zterm(S.at(r.shape, j)) == SIZE(j))),
            ("of its element type", r.element_type is e and asked == [code]),
        ]

    return o.prove(run)


# ---------------------------------------------------------------- constants
def tensor_attr():
    """tensor_proto_to_attr: raw data as it is, inline data of the standard's field"""
    import ml_dtypes
    import numpy as np
    import onnx

    f = ox()
    CC = f.ContextCache
    o = Oblig("ContextCache.tensor_proto_to_attr, inline data of every data type")
    el = elements()
    FIELDS = ["float_data", "int32_data", "string_data", "int64_data", "double_data", "uint64_data"]
    # what numpy's element types are in MLIR, from the bindings: (signless, not signless)
    def asm_of_np(dt, signless):
        dt = np.dtype(dt)
        if dt == np.bool_:
            return None  # stored as bits; needs the type
        if dt.kind in "iu":
            return ("i" if signless else "si" if dt.kind == "i" else "ui") + str(8 * dt.itemsize)
        if dt.kind == "c":
            return f"complex<f{4 * dt.itemsize}>"
        return {"float32": "f32", "float64": "f64", "float16": "f16", "bfloat16": "bf16"}.get(dt.name)

    class Array:
        """a numpy array: the numbers of a field, as which element type, in which shape"""

        _pyvc_ok = True

        def __init__(self, of, dtype, shape=None, packed=False):
            self.of, self.dtype, self.shape, self.packed = of, dtype, shape, packed

        def reshape(self, *s):
            return Array(self.of, self.dtype, s[0] if len(s) == 1 else s)

        def astype(self, dt, **k):
            return Array(self.of, ("cast", self.dtype, dt), self.shape)

        def view(self, dt):
            return Array(self.of, ("view", self.dtype, dt), self.shape)

    for fn_ in vars(Array).values():
        if inspect.isfunction(fn_):
            fn_._pyvc_ok = True

    def asarray(it, a, k):
        x = a[0]
        dt = a[1] if len(a) > 1 else k.get("dtype")
        if not isinstance(x, G):
            raise C.Unsupported("an array of something else")
        return Array(x, dt)

    def run(c):
        cc = cache()
        n = rank(c)
        k = sorted(el)[c.choose(len(el))]
        nm, asm, field = el[k]
        raw = bool(c.choose(2))
        dims = S.SList(n, lambda i: SIZE(S.zterm(i)))
        fields = {x: G(x) for x in FIELDS}
        tp = Msg("tensor", dims=dims, data_type=k, name="a/b", raw_data=G("raw data") if raw else b"", has={"raw_data": raw}, **fields)
        ty = R.Type("of the tensor")
        it = ti({CC.tensor_proto_to_builtin_type: lambda it, d: ty if d["tp"] is tp else None, CC._sanitize_name: lambda it, d: "clean" if d["name"] == "a/b" else None})
        for q in (np.asarray, np.array):
            it.contracts[id(q)] = asarray
        try:
            r = it.call(cc.tensor_proto_to_attr, [tp], {})
        except C.PyRaise as e:
            return [(f"{nm}: only inline data of a type without support is refused", not raw and isinstance(e.exc, f.OnnxImportError) and nm in ("STRING", "UINT16", "FLOAT16", "BFLOAT16", "COMPLEX64", "COMPLEX128", "UINT4", "INT4") or not raw and nm.startswith("FLOAT8"))]
        if raw:
            return [(f"{nm}: raw data is passed on unchanged, at the type", r.kind == "resource" and r.payload[0] is ty and is_(r.payload[2], "raw data")), (f"{nm}: under a name MLIR takes", r.payload[1] == "clean")]
        if r.kind != "dense":
            raise C.Unsupported(f"a constant of the kind {r.kind}")
        t, shape, arr, signless = r.payload
        if not isinstance(arr, Array) or not isinstance(arr.of, G):
            raise C.Unsupported("data made in another way")
        got = str(t) if t is not None else asm_of_np(arr.dtype, signless) if not isinstance(arr.dtype, tuple) else None
        isnp = not isinstance(arr.dtype, tuple) and arr.dtype is not None
        want = {"i1": np.bool_, "f32": np.float32, "f64": np.float64}.get(asm) or (np.dtype(("uint" if asm[0] == "u" else "int") + asm[2:]) if asm[:2] in ("ui", "si") and asm[2:] != "4" else None)
        return [
            (f"{nm}: the field the standard puts its numbers in", is_(arr.of, field)),
            (f"{nm}: as its own element type", isnp and want is not None and np.dtype(arr.dtype) == np.dtype(want)),
            (f"{nm}: its MLIR element type", got == asm),
            (f"{nm}: in its shape", arr.shape is dims and (shape is None or shape is dims)),
        ]

    del ml_dtypes
    o.prove(run)

    def handlers(c):
        bad = set(f.ELEM_TYPE_INLINE_TENSOR_PROTO_CB) - set(onnx.TensorProto.DataType.values())
        return [("no handler of another data type", not bad)]

    return o.prove(handlers)


def names():
    """_sanitize_name: an identifier of MLIR; bounded: names of up to three characters"""
    import itertools
    import re

    f = ox()
    o = Oblig("ContextCache._sanitize_name", bounded="names of up to 3 characters from an alphabet of 14")
    cc = cache()
    fn = f.ContextCache._sanitize_name
    alphabet = ["a", "Z", "_", "0", "9", ".", "/", ":", " ", "-", "\"", "\n", "é", "$"]
    it = ti()

    def run(c):
        bad = []
        for k in range(4):
            for s in itertools.product(alphabet, repeat=k):
                s = "".join(s)
                r = it.call(fn, [cc, s], {}) if k < 2 else fn(cc, s)
                ok = isinstance(r, str) and re.fullmatch(r"[^\W\d][\w.]*", r) is not None
                if not ok:
                    bad.append((s, r))
                elif s.isidentifier() and r != s:
                    bad.append((s, r))
        return [(f"an identifier for every name, the name itself if it is one {bad[:2]}", not bad)]

    return o.prove(run)


# ---------------------------------------------------------------- attributes
def attributes():
    """import_attributes: one per attribute, of its kind and with its value"""
    import onnx

    f = ox()
    CC = f.ContextCache
    A = onnx.AttributeProto
    o = Oblig("NodeImporter.import_attributes, attribute handlers")
    kinds = list(A.AttributeType.values()) + [99]
    KIND = {A.AttributeType.Value(k): k for k in A.AttributeType.keys()}
    SCALAR = {"FLOAT": ("f", "float", "f32"), "INT": ("i", "int", "si64"), "STRING": ("s", "str", None), "TENSOR": ("t", "tensor", None)}
    LIST = {"FLOATS": ("floats", "float", "f32"), "INTS": ("ints", "int", "si64"), "STRINGS": ("strings", "str", None), "TENSORS": ("tensors", "tensor", None)}

    NUM = {"int": z3.Function("integer", INT, INT, INT), "float": z3.Function("real", INT, INT, z3.RealSort())}

    def number(kind, tag, i=0):
        return NUM[kind](I(tagcode(tag)), S.zterm(i))

    def value(kind, tag, *i):
        return number(kind, tag, *i) if kind in NUM else G(tag, *i)

    def elem(x, kind, asm, tag, *ix):
        if kind == "tensor":
            return S.conj(isinstance(x, TA), is_(x.of, tag, *ix) if isinstance(x, TA) else False)
        if not (isinstance(x, R.Attribute) and x.kind == kind):
            return False
        v = x.payload[-1]
        if kind in NUM:
            return S.conj(str(x.payload[0]) == asm, S.zeq(v, number(kind, tag, *ix)))
        return is_(v, tag, *ix)

    class TA(R.Attribute):
        """tensor_proto_to_attr of a tensor"""

        def __init__(self, of):
            R.Attribute.__init__(self, "tensor", of)

        of = property(lambda self: self.payload[0])

    def run(c):
        imp, b = new_node_importer(Msg("info"), None)
        n = z3.Int("length")
        c.assume(n >= 0)
        k = kinds[c.choose(len(kinds))]
        nm = KIND.get(k, "unknown")
        fields = {v[0]: value(v[1], v[0]) for v in SCALAR.values()}
        fields.update({v[0]: S.SList(n, (lambda v: lambda i: value(v[1], v[0], i))(v)) for v in LIST.values()})
        a = Msg("attribute", name="one", type=k, g=G("graph"), graphs=G("graphs"), **fields)
        # among others, before and after: an INT of the name "two"
        other = Msg("attribute", name="two", type=A.INT, **{**fields, "i": number("int", "other")})
        lay = [[a], [other, a], [a, other]][c.choose(3)]
        it = ti({CC.tensor_proto_to_attr: lambda it, d: TA(d["tp"])})
        try:
            r = it.call(imp.import_attributes, [lay], {})
        except C.PyRaise as e:
            return [(f"{nm}: only a kind without a counterpart is refused", isinstance(e.exc, f.OnnxImportError) and nm not in SCALAR and nm not in LIST and nm != "GRAPH")]
        r = dict(r)
        g = []
        if other in lay:
            x = r.pop("torch.onnx.two", None)
            g.append((f"{nm}: the other attribute", elem(x, "int", "si64", "other")))
        if nm == "GRAPH":  # a region of the operation
            return g + [("a graph is not an attribute", not r)]
        x = r.pop("torch.onnx.one", None)
        g.append((f"{nm}: nothing else", not r))
        if nm in SCALAR:
            fld, kind, asm = SCALAR[nm]
            return g + [(f"{nm}: its value", elem(x, kind, asm, fld))]
        if nm in LIST:
            fld, kind, asm = LIST[nm]
            if not (isinstance(x, R.Attribute) and x.kind == "array"):
                return g + [(f"{nm}: an array", False)]
            xs = x.payload[0]
            if isinstance(xs, (list, tuple)):
                return g + [(f"{nm}: as many", S.zeq(n, len(xs)))] + [(f"{nm}: each value", elem(y, kind, asm, fld, i)) for i, y in enumerate(xs)]
            j = c.fresh_int("j")
            c.assume(z3.And(0 <= j, j < n))
            return g + [(f"{nm}: as many", S.zeq(xs.n, n)), (f"{nm}: each value, in order", elem(xs.f(j), kind, asm, fld, j))]
        return g + [(f"{nm}: refused", False)]

    return o.prove(run)
