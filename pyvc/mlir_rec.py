"""A recording stand-in for the MLIR Python bindings (absent from this sandbox).

Every class does exactly what the bindings document, on plain objects: an
operation keeps its name, operands, result types and attributes and is appended
to the block the innermost InsertionPoint points at. No verifier, no printing.
Assumed contract: the bindings behave like this recorder.
"""
import sys
import types as _t

from . import ctx as C


class _Obj:
    _pyvc_ok = True


class Type(_Obj):
    _pyvc_alt = True

    def __init__(self, asm, **kw):
        self.asm = asm
        self.__dict__.update(kw)

    @classmethod
    def parse(cls, asm, context=None):
        return Type(asm)

    def __eq__(self, o):
        return isinstance(o, Type) and self.asm == o.asm

    def __hash__(self):
        return hash(str(self.asm))

    def __str__(self):
        return self.asm if isinstance(self.asm, str) else repr(self.asm)

    __repr__ = __str__


def _scalar_type(asm):
    class T(Type):
        @classmethod
        def get(cls, context=None):
            return Type(asm)

    return T


F16Type, BF16Type = _scalar_type("f16"), _scalar_type("bf16")
F32Type, F64Type = _scalar_type("f32"), _scalar_type("f64")
Float8E5M2Type, Float8E4M3FNType = _scalar_type("f8E5M2"), _scalar_type("f8E4M3FN")
Float8E5M2FNUZType, Float8E4M3FNUZType = _scalar_type("f8E5M2FNUZ"), _scalar_type("f8E4M3FNUZ")
Float8E8M0FNUType, Float4E2M1FNType = _scalar_type("f8E8M0FNU"), _scalar_type("f4E2M1FN")


class IntegerType(Type):
    @classmethod
    def get_signed(cls, w, context=None):
        return Type(f"si{w}")

    @classmethod
    def get_unsigned(cls, w, context=None):
        return Type(f"ui{w}")

    @classmethod
    def get_signless(cls, w, context=None):
        return Type(f"i{w}")


class ComplexType(Type):
    @classmethod
    def get(cls, e):
        return Type(f"complex<{e}>")


class RankedTensorType(Type):
    @classmethod
    def get(cls, shape, element_type, encoding=None, loc=None):
        if hasattr(shape, "_pyvc_class") or not isinstance(shape, (list, tuple)) and hasattr(shape, "n"):  # a shape of symbolic rank
            return Type(("ranked", id(shape), element_type), shape=shape, element_type=element_type)
        return Type(("ranked", tuple(shape), element_type), shape=list(shape), element_type=element_type)


class FunctionType(Type):
    @classmethod
    def get(cls, inputs, results, context=None):
        return Type(("function",), inputs=inputs, results=results)


class Attribute(_Obj):
    """kind and payload; equality by both"""

    def __init__(self, kind, *payload):
        self.kind, self.payload = kind, payload

    # the terms inside, for a generic element of a list; never merged by cases
    def _pyvc_terms(self):
        return [t for x in self.payload for t in ([x] if C.is_sym(x) else x._pyvc_terms() if hasattr(type(x), "_pyvc_terms") else [])]

    def _pyvc_rebuild(self, ts):
        ts, out = list(ts), []
        for x in self.payload:
            if C.is_sym(x):
                x = ts.pop(0)
            elif hasattr(type(x), "_pyvc_terms"):
                k = len(x._pyvc_terms())
                x, ts = x._pyvc_rebuild(ts[:k]), ts[k:]
            out.append(x)
        r = type(self).__new__(type(self))
        Attribute.__init__(r, self.kind, *out)
        return r

    @property
    def _pyvc_tag(self):
        return self

    def __eq__(self, o):
        return isinstance(o, Attribute) and (self.kind, self.payload) == (o.kind, o.payload)

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"{self.kind}{self.payload}"

    @property
    def type(self):
        return self.payload[0]


class FloatAttr(Attribute):
    @staticmethod
    def get_f64(v, loc=None):
        return Attribute("float", Type("f64"), v)

    @staticmethod
    def get_f32(v, loc=None):
        return Attribute("float", Type("f32"), v)

    @staticmethod
    def get(t, v, loc=None):
        return Attribute("float", t, v)


class IntegerAttr(Attribute):
    @staticmethod
    def get(t, v):
        return Attribute("int", t, v)


class StringAttr(Attribute):
    @staticmethod
    def get(v, context=None):
        return Attribute("str", v)


class UnitAttr(Attribute):
    @staticmethod
    def get(context=None):
        return Attribute("unit")


class FlatSymbolRefAttr(Attribute):
    @staticmethod
    def get(v, context=None):
        return Attribute("symref", v)


class ArrayAttr(Attribute):
    @staticmethod
    def get(xs, context=None):
        return Attribute("array", tuple(xs) if isinstance(xs, list) else xs)


class DictAttr(Attribute):
    @staticmethod
    def get(d=None, context=None):
        return Attribute("dict", d if d is not None and not isinstance(d, dict) else dict(d or {}))


class DenseElementsAttr(Attribute):
    @staticmethod
    def get(array, signless=True, type=None, shape=None, context=None):
        return Attribute("dense", type, shape, array, signless)

    @staticmethod
    def get_splat(shaped_type, element_attr):
        return Attribute("splat", shaped_type, element_attr)


class DenseResourceElementsAttr(Attribute):
    @staticmethod
    def get_from_buffer(array, name, type, alignment=None, is_mutable=False, context=None):
        return Attribute("resource", type, name, array)


# ------------------------------------------------------------------ affine
class AffineExpr(_Obj):
    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __repr__(self):
        return f"{self.op}{self.args}"

    def __eq__(self, o):
        return isinstance(o, AffineExpr) and (self.op, self.args) == (o.op, o.args)

    def __hash__(self):
        return hash(self.op)


def _affine(op):
    class E(AffineExpr):
        @staticmethod
        def get(*a):
            return AffineExpr(op, *a)

    return E


AffineConstantExpr, AffineSymbolExpr, AffineDimExpr = _affine("const"), _affine("sym"), _affine("dim")
AffineAddExpr, AffineMulExpr, AffineModExpr = _affine("+"), _affine("*"), _affine("mod")
AffineFloorDivExpr, AffineCeilDivExpr = _affine("floordiv"), _affine("ceildiv")


class AffineMap(_Obj):
    def __init__(self, ndims, nsyms, exprs):
        self.ndims, self.nsyms, self.exprs = ndims, nsyms, exprs

    @staticmethod
    def get(ndims, nsyms, exprs, context=None):
        return AffineMap(ndims, nsyms, exprs)


class AffineMapAttr(Attribute):
    @staticmethod
    def get(m):
        return Attribute("affine_map", m)


# ------------------------------------------------------------------ structure
class _Scoped(_Obj):
    def __enter__(self):
        _STACK.append(self)
        return self

    def __exit__(self, *a):
        popped = _STACK.pop()
        assert popped is self, "insertion stack out of order"
        return False


_STACK = []


class _Dialects(_Obj):
    def __getitem__(self, k):
        return k


class Context(_Scoped):
    current = None

    def __init__(self):
        Context.current = self
        self.dialects = _Dialects()
        self.registered = lambda name: True

    def is_registered_operation(self, name):
        return self.registered(name)


class Location(_Scoped):
    def __init__(self, kind, *payload, context=None):
        self.kind, self.payload = kind, payload
        # without one given, the context of the enclosing insertion point
        self.context = context if context is not None else Context.current

    def __eq__(self, o):
        return isinstance(o, Location) and (self.kind, self.payload) == (o.kind, o.payload)

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"loc({self.kind}{self.payload})"

    @staticmethod
    def unknown(context=None):
        return Location("unknown", context=context)

    @staticmethod
    def file(name, line, col, context=None):
        return Location("file", name, line, col, context=context)

    @staticmethod
    def callsite(callee, frames, context=None):
        return Location("callsite", callee, tuple(frames), context=context)

    @staticmethod
    def name(name, childLoc=None, context=None):
        return Location("name", name, context=context)


class Value(_Obj):
    _pyvc_alt = True

    def __init__(self, type, owner=None, index=0, name=None):
        self.type, self.owner, self.index, self.name = type, owner, index, name

    def __repr__(self):
        return f"%{self.name or (getattr(self.owner, 'name', '?') + '#' + str(self.index))}"


class Block(_Obj):
    def __init__(self, arg_types=(), region=None):
        if isinstance(arg_types, (list, tuple)):
            self.arguments = [Value(t, self, i, name=f"arg{i}") for i, t in enumerate(arg_types)]
        else:  # a list of symbolic length
            from . import sval as S

            self.arguments = S.SList(arg_types.n, lambda i: SymResult(self, i))
        self.arg_types = arg_types
        self.operations = []
        self.region = region

    @staticmethod
    def create_at_start(region, arg_types=(), arg_locs=None):
        b = Block(arg_types, region)
        region.blocks.insert(0, b)
        return b


class Region(_Obj):
    def __init__(self):
        self.blocks = Blocks()


class Blocks(list):
    """a region's blocks; append(block), or append(*types, arg_locs) for a new one"""

    def append(self, *a, arg_locs=None):
        if len(a) == 1 and isinstance(a[0], Block):
            return list.append(self, a[0])
        b = Block(a[0].seq if len(a) == 1 and type(a[0]).__name__ == "Star" else list(a))
        b.arg_locs = arg_locs
        list.append(self, b)
        return b


class InsertionPoint(_Scoped):
    def __init__(self, block):
        self.block = block

    @staticmethod
    def at_block_begin(block):
        return InsertionPoint(block)


def current_block():
    for s in reversed(_STACK):
        if isinstance(s, InsertionPoint):
            return s.block
    return None


class Operation(_Obj):
    def __init__(self, name, results, operands, attributes, regions, loc):
        self.name = name
        self.operands = operands
        self.result_types = results
        self.attributes = dict(attributes) if attributes else {}
        self.regions = [Region() for _ in range(regions)] if isinstance(regions, int) else regions
        self.loc = loc
        self._results = None

    @staticmethod
    def create(name, results=None, operands=None, attributes=None, successors=None, regions=0, loc=None, ip=None, infer_type=False):
        op = Operation(name, [] if results is None else results, [] if operands is None else operands, attributes, regions, loc)
        b = ip.block if ip is not None else current_block()
        if b is not None:
            b.operations.append(op)
        LOG.append((op, b))
        return op

    @property
    def results(self):
        if self._results is None:
            r = self.result_types
            if isinstance(r, (list, tuple)):
                self._results = [Value(t, self, i) for i, t in enumerate(r)]
            else:  # a list of symbolic length
                from . import sval as S

                self._results = S.SList(r.n, lambda i: SymResult(self, i))
        return self._results

    @property
    def result(self):
        assert len(self.results) == 1
        return self.results[0]

    @property
    def operation(self):
        return self

    @property
    def context(self):
        return self.loc.context if self.loc is not None else Context.current

    @property
    def location(self):
        return self.loc

    def __repr__(self):
        return f"{self.results} = {self.name}({self.operands}) {self.attributes}"


class SymResult(Value):
    """result `index` (a term) of an operation with a symbolic number of results"""

    def __init__(self, owner, index):
        Value.__init__(self, None, owner, index)

    def _pyvc_terms(self):
        return [self.index]

    @property
    def _pyvc_tag(self):
        return self.owner

    def _pyvc_rebuild(self, t):
        return SymResult(self.owner, t[0])


LOG = []


class Module(_Obj):
    def __init__(self, context=None):
        self.context = context
        self.body = Block()
        self.operation = Operation("builtin.module", [], [], {}, 1, Location.unknown(context))
        self.operation.regions[0].blocks.append(self.body)

    @staticmethod
    def create(loc=None):
        return Module(loc.context if loc is not None else None)


class SymbolTable(_Obj):
    """insert renames a symbol that is already taken, like mlir::SymbolTable"""

    def __init__(self, op):
        self.op = op
        self.names = {}

    def insert(self, op):
        name = op.name_
        if name in self.names and self.names[name] is not op:
            i = 0
            while f"{name}_{i}" in self.names:
                i += 1
            op.renamed = (name, f"{name}_{i}")
            op.name_ = name = f"{name}_{i}"
        self.names[name] = op
        return name


class FuncOp(_Obj):
    _pyvc_ok = True

    def __init__(self, name, type, *, visibility=None, body_builder=None, loc=None, ip=None):
        self.name_, self.type, self.visibility = name, type, visibility
        self.attributes = {}
        self.body = Region()
        self.renamed = None
        b = ip.block if ip is not None else current_block()
        if b is not None:
            b.operations.append(self)
        LOG.append((self, b))

    @property
    def operation(self):
        return self

    @property
    def regions(self):
        return [self.body]

    @property
    def context(self):
        return Context.current

    def add_entry_block(self, arg_locs=None):
        b = Block(self.type.inputs)
        b.arg_locs = arg_locs
        self.body.blocks.append(b)
        return b


class CallOp(_Obj):
    """a call: of the function it is given, with that function's result types"""

    _pyvc_ok = True
    name = "func.call"

    def __init__(self, callee, operands, loc=None, ip=None):
        self.callee, self.operands = callee, operands
        r = callee.type.results
        if isinstance(r, (list, tuple)):
            self.results = [Value(t, self, i) for i, t in enumerate(r)]
        else:  # a list of symbolic length
            from . import sval as S

            self.results = S.SList(r.n, lambda i: SymResult(self, i))
        b = ip.block if ip is not None else current_block()
        if b is not None:
            b.operations.append(self)
        LOG.append((self, b))


class ReturnOp(_Obj):
    _pyvc_ok = True
    name = "func.return"

    def __init__(self, operands, loc=None, ip=None):
        self.operands = operands
        self.loc = loc
        b = ip.block if ip is not None else current_block()
        if b is not None:
            b.operations.append(self)
        LOG.append((self, b))


class MLIRError(Exception):
    pass


IrType = Type

for _c in list(vars().values()):  # the recorder may be handed symbolic values
    if isinstance(_c, type) and issubclass(_c, _Obj):
        _c._pyvc_ok = True
        for _f in vars(_c).values():
            if isinstance(_f, (staticmethod, classmethod)):
                _f.__func__._pyvc_ok = True
            elif isinstance(_f, _t.FunctionType):
                _f._pyvc_ok = True


def _absent(load, mod, name):
    if name.startswith("__"):
        raise AttributeError(name)
    return load._Meta(name, (), {"__qualname__": f"{mod}.{name}"})


def install(load):
    """make `torch_mlir.ir` and `torch_mlir.dialects.func` this recorder"""
    me = sys.modules[__name__]
    ir = _t.ModuleType("torch_mlir.ir")
    for k, v in vars(me).items():
        if not k.startswith("_") and isinstance(v, type):
            setattr(ir, k, v)
    # anything else of the bindings can be imported, but not used
    ir.__getattr__ = lambda name: _absent(load, "torch_mlir.ir", name)
    fn = _t.ModuleType("torch_mlir.dialects.func")
    fn.FuncOp, fn.ReturnOp, fn.CallOp = FuncOp, ReturnOp, CallOp
    load.STANDINS["torch_mlir.ir"] = ir
    load.STANDINS["torch_mlir.dialects.func"] = fn


def reset():
    LOG.clear()
    _STACK.clear()
