"""Compile-time evaluation of scalar operators (C21): lib/Dialect/Torch/IR/TorchOps.cpp."""
import hashlib
import importlib.util
import itertools
import math
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check, REPO  # noqa: E402
from checks.oblig import Oblig, contract  # noqa: E402
from checks import mlir_rt as RT  # noqa: E402
from pyvc import cpp, ctx as C, sval as S  # noqa: E402
from pyvc.interp import Interp  # noqa: E402
from specs import scalar_ops as SP  # noqa: E402

z3 = C.z3
OPS_CPP = "lib/Dialect/Torch/IR/TorchOps.cpp"
FILES = [OPS_CPP, "lib/Dialect/Torch/Utils/Utils.cpp"]
ODS = ["include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td"]


def read(p):
    with open(os.path.join(REPO, p)) as f:
        return f.read()


class Code:
    """the extracted functions, as a Python module"""

    def __init__(self, files, keys):
        self.m = cpp.Module([read(f) for f in files], RT.NAMES)
        self.m.source(keys)
        text = "\n\n\n".join(self.m.chunks.values()) + "\n"
        self.text = text
        self.dir = tempfile.mkdtemp(prefix="verif-cpp-")
        self.path = os.path.join(self.dir, f"cpp_{hashlib.sha1(text.encode()).hexdigest()[:10]}.py")
        with open(self.path, "w") as f:
            f.write(text)
        spec = importlib.util.spec_from_file_location(os.path.basename(self.path)[:-3], self.path)
        mod = importlib.util.module_from_spec(spec)
        mod.__dict__.update(RT.NAMES)
        sys.dont_write_bytecode = True
        spec.loader.exec_module(mod)
        self.mod = mod

    def fn(self, key):
        p = self.m.functions[key][0].py
        if p in self.m.bad:
            raise C.Unsupported(f"{key}: {self.m.bad[p]}")
        return getattr(self.mod, p)

    def interp(self):
        it = Interp([self.path], RT.CONTRACTS)
        it.unroll = 64
        return it

    def close(self):
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)


# ---- scenarios ------------------------------------------------------------------
SORT = {"int": z3.Int, "float": z3.Real, "bool": z3.Bool, "str": z3.Int}
TYPES = {"int": RT.INT, "float": RT.FLOAT, "bool": RT.BOOL, "str": RT.STR}
ATTR = {"int": ("IntegerAttr", RT.I64), "float": ("FloatAttr", RT.F64), "bool": ("IntegerAttr", RT.I1), "str": ("StringAttr", None)}
GRID = {"int": [-7, -2, -1, 0, 1, 2, 3, 7], "float": [-2.5, -1.0, 0.0, 0.5, 1.0, 2.0], "bool": [False, True], "str": [0, 1, 2]}
KIND = {"Torch_IntType": ["int"], "Torch_FloatType": ["float"], "Torch_BoolType": ["bool"], "Torch_StringType": ["str"], "AnyTorchScalarType": ["int", "float"]}
LISTS = {"AnyTorchListOfTorchIntType": "int", "AnyTorchListOfTorchBoolType": "bool", "AnyTorchListOfTorchStringType": "str", "AnyTorchListType": "int"}
MAXLIST = 3


def attr_of(kind, term):
    k, ty = ATTR[kind]
    if kind == "bool":
        term = S.to_arith(term) if RT.is_sym(term) else int(term)
    return RT.Attr(k, term, ty)


class Shape:
    """how one operand comes about; make(term source) gives the value"""

    def __init__(self, kind, how, number=False):
        self.kind, self.how, self.number = kind, how, number

    def __repr__(self):
        return f"{self.how} {self.kind}" + (" as a number" if self.number else "")

    def make(self, name, term):
        ty = RT.NUMBER if self.number else TYPES[self.kind]
        v = RT.Value(ty, term, name=name)
        if self.how == "constant":
            v.const = attr_of(self.kind, term)
            v.op = RT.Op({"int": "ConstantIntOp", "float": "ConstantFloatOp", "bool": "ConstantBoolOp", "str": "ConstantStrOp"}[self.kind], [], ty)
        elif self.how == "size":
            v.op = RT.Op("AtenSizeIntOp", [], ty)
        elif self.how == "other":
            v.op = RT.Op("AtenOtherOp", [], ty)
        return v


def shapes(ods):
    out = []
    for kind in KIND[ods]:
        hows = ["constant", "argument", "other"] + (["size"] if kind == "int" else [])
        for h in hows:
            out.append(Shape(kind, h))
            if ods == "AnyTorchScalarType" and h in ("constant", "argument"):
                out.append(Shape(kind, h, True))
    return out


def scenarios(operands):
    """[(label, build)]: build(terms) -> operand values, their meanings; terms(kind, name) makes a number"""
    out = []
    ods = [t for _, t in operands]
    per = []
    for (n, t) in operands:
        if t in LISTS:
            k = LISTS[t]
            two = [Shape(k, "constant"), Shape(k, "argument")]
            per.append([("list", c, True) for r in range(MAXLIST + 1) for c in itertools.product(two, repeat=r)] + [("list", (two[0], two[1]), False), ("unknown list", (two[0],), True)])
        else:
            per.append([("one", s) for s in shapes(t)])
    for combo in itertools.product(*per):
        out.append((combo, False))
    if len(ods) == 2 and ods[0] == ods[1] and ods[0] in KIND:
        for s in shapes(ods[0]):
            out.append(((("one", s), ("one", s)), True))
    return out


def label(combo, same):
    parts = []
    for c in combo:
        if c[0] == "one":
            parts.append(repr(c[1]))
        else:
            parts.append(f"{c[0]} of [{', '.join(map(repr, c[1]))}]" + ("" if c[2] else " appended to"))
    return ("one operand twice: " if same else "") + ", ".join(parts)


def build(cls, operands, combo, same, term):
    vs, sem, facts = [], [], []
    for n, ((name, ods), c) in enumerate(zip(operands, combo)):
        if same and n:
            vs.append(vs[0])
            sem.append(sem[0])
            continue
        if c[0] == "one":
            t = term(c[1].kind, name)
            if c[1].how == "size":
                facts.append(t >= 0)
            vs.append(c[1].make(name, t))
            sem.append(t)
        else:
            ts = [term(s.kind, f"{name}{i}") for i, s in enumerate(c[1])]
            op = RT.Op("PrimListConstructOp" if c[0] == "list" else "AtenOtherOp", [s.make(f"{name}{i}", t) for i, (s, t) in enumerate(zip(c[1], ts))], RT.Ty("ListType", of=TYPES[LISTS[ods]]))
            l = op.result
            if not c[2]:
                l.users.append(RT.Op("AtenAppendTOp", [l], readonly=False))
                ts = ts + [term(LISTS[ods], f"{name}_appended")]
            vs.append(l)
            sem.append(ts)
    return vs, sem, facts


RESULT = {"Torch_IntType": "int", "Torch_FloatType": "float", "Torch_BoolType": "bool", "Torch_StringType": "str"}


def result_types(ods, sem_kind):
    """the types the result may be declared with"""
    if ods in RESULT:
        return [TYPES[RESULT[ods]]]
    return [RT.NUMBER, TYPES[sem_kind]]


def sem_kind(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return "bool"
    return "int" if RT.int_like(v) else "float"


def goals(r, op, want):
    """what a fold's result must be"""
    kind = sem_kind(want)
    if isinstance(r, RT.Attr):
        ok = {"int": r.kind == "IntegerAttr" and r.ty == RT.I64, "bool": r.kind == "IntegerAttr" and r.ty == RT.I1, "float": r.kind == "FloatAttr"}[kind]
        yield "the attribute is a constant of the result's type", ok
        if ok:
            yield "the folded constant is the operator's value", close_to(S.neg(S.eq(r.v, 0)) if kind == "bool" else r.v, want)
        return
    if isinstance(r, RT.Value):
        yield "the value folded to has the result's type", r.ty == op.ty
        if isinstance(r.term, list):
            yield "the value folded to is the operator's value", False
        else:
            yield "the value folded to is the operator's value", close_to(r.term, want)
        return
    yield f"a fold gives an attribute or a value, not {r!r}", False


def close_to(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if not RT.is_sym(a) and not RT.is_sym(b):
            return a == b or math.isclose(a, b, rel_tol=1e-9)
    if (isinstance(a, bool) or isinstance(a, z3.BoolRef)) != (isinstance(b, bool) or isinstance(b, z3.BoolRef)):
        return False
    return S.eq(a, b)


def fold(code, cls, operands, results, only=None):
    defined, value = SP.OPS[cls]
    f = code.fn(cls + "::fold")
    o = Oblig(cls + "::fold", bounded=f"lists of at most {MAXLIST} elements" if any(t in LISTS for _, t in operands) else None)
    names = [n for n, _ in operands]
    for combo, same in scenarios(operands):
        lab = label(combo, same)

        def sym(kind, name):
            return SORT[kind](name)

        _, sem0, _ = build(cls, operands, combo, same, sym)
        if not defined_ever(defined, sem0):
            continue
        for ty in result_types(results[0][1], sem_kind(kind_probe(value, sem0))):

            def run(c):
                vs, sem, facts = build(cls, operands, combo, same, sym)
                for x in facts:
                    c.assume(x)
                op = RT.Op(cls, vs, ty, names)
                r = code.interp().call(f, [op, RT.Adaptor(op)], {})
                if r is None:
                    return [("no fold", True)]
                if not RT.decide(defined(*sem)):
                    return [("the operator is not defined here", True)]
                return list(goals(r, op, value(*sem)))

            o.prove(run, raises=lambda e: [(f"folding does not crash the compiler ({e})", False)], tag=lab + ": ", budget_s=30)
            if o.unsupported:
                return o
    return o


def kind_probe(value, sem):
    for c, k, v in C.explore(lambda c: value(*sem)):
        if k == "return":
            return v
    return 0


def defined_ever(defined, sem):
    try:
        return defined(*sem) is not False
    except Exception:
        return True


def search(code, cls, operands, results, torch_op=None):
    """a concrete scenario in which the extracted code goes wrong"""
    defined, value = SP.OPS[cls]
    f = code.fn(cls + "::fold")
    names = [n for n, _ in operands]
    for combo, same in scenarios(operands):
        kinds = []

        def note(kind, name):
            kinds.append(kind)
            return GRID[kind][0]

        try:
            build(cls, operands, combo, same, note)
        except Exception:
            continue
        for xs in itertools.product(*[GRID[k] for k in kinds]):
            it = iter(xs)
            vs, sem, facts = build(cls, operands, combo, same, lambda k, n: next(it))
            if not all(facts):
                continue
            ok = defined(*sem)
            want = value(*sem) if ok else None
            for ty in result_types(results[0][1], sem_kind(want) if ok else "int"):
                op = RT.Op(cls, vs, ty, names)
                data = {"operands": label(combo, same), "values": sem}
                try:
                    r = f(op, RT.Adaptor(op))
                except RT.Crash as e:
                    return {**data, "what": f"folding crashes the compiler: {e}"}
                except (AttributeError, TypeError, C.Unsupported):
                    continue
                if r is None or not ok:
                    continue
                for lab, g in goals(r, op, want):
                    if g is not True:
                        return {**data, "result": repr(r), "expected": want, "what": lab, "pytorch": oracle(torch_op, sem)}
    return None


def oracle(torch_op, sem):
    import torch

    try:
        ns, name = torch_op.split("::")
        o = getattr(torch.ops, ns)
        for p in name.split("."):
            o = getattr(o, p)
        return repr(o(*sem))
    except Exception as e:
        return f"{type(e).__name__}: {e}"[:120]


def agreement(ops):
    """the specification against PyTorch's own operators"""
    import torch

    n, bad, without = 0, [], []
    for cls, (defined, value) in SP.OPS.items():
        if cls not in ops:
            continue
        name, operands, _ = ops[cls]
        if not name or any(t not in KIND and t not in LISTS for _, t in operands):
            without.append(cls)
            continue
        ns, rest = name.split("::")
        o = getattr(torch.ops, ns)
        try:
            for p in rest.split("."):
                o = getattr(o, p)
        except AttributeError:
            without.append(cls)
            continue
        per = []
        for _, t in operands:
            if t in LISTS:
                g = GRID[LISTS[t]][:4]
                per.append([list(x) for r in range(3) for x in itertools.product(g, repeat=r)])
            else:
                per.append([x for k in KIND[t] for x in GRID[k]])
        before, err = n, ""
        for xs in itertools.product(*per):
            if not defined(*xs):
                continue
            ys = [("abc"[y] if t == "Torch_StringType" else y) for y, (_, t) in zip(xs, operands)]
            ys = [["abc"[z] for z in y] if t == "AnyTorchListOfTorchStringType" else y for y, (_, t) in zip(ys, operands)]
            try:
                r = o(*ys)
            except Exception as e:
                err = f": {type(e).__name__}: {str(e)[:60]}"
                continue
            r = r.item() if isinstance(r, torch.Tensor) else r
            w = value(*xs)
            n += 1
            if isinstance(r, complex) or (isinstance(w, float) and math.isnan(w)):
                continue
            if type(r) is not type(w) or not (close_to(r, w) or isinstance(w, float) and math.isclose(r, w, rel_tol=1e-5)):
                bad.append((cls, xs, r, w))
        if n == before:
            without.append(cls + err)
    return n, bad, without


# ---- infinities and NaN: outside the reals, so executed one by one ------------------
SPECIAL = [math.nan, math.inf, -math.inf, -0.0, 0.0, 1.5]


def special(code, cls, operands, results, torch_op):
    """(cases, failures) of the fold on special floating-point values, against PyTorch's operator"""
    import torch

    o = getattr(torch.ops, torch_op.split("::")[0])
    for p in torch_op.split("::")[1].split("."):
        o = getattr(o, p)
    f = code.fn(cls + "::fold")
    names = [n for n, _ in operands]
    n, bad = 0, []
    for combo, same in scenarios(operands):
        kinds = []
        build(cls, operands, combo, same, lambda kind, name: (kinds.append(kind), 0)[1])
        for xs in itertools.product(*[SPECIAL if k == "float" else [0, 2] for k in kinds]):
            it = iter(xs)
            vs, sem, facts = build(cls, operands, combo, same, lambda k, n: next(it))
            try:
                want = o(*sem)
            except Exception:  # PyTorch refuses these operands
                continue
            if isinstance(want, complex) or (type(want) is int and not all(map(math.isfinite, sem))):
                continue  # the conversion of infinity or NaN to an integer is not defined
            op = RT.Op(cls, vs, result_types(results[0][1], sem_kind(want))[0], names)
            try:
                r = f(op, RT.Adaptor(op))
            except (AttributeError, TypeError, C.Unsupported):
                continue
            except (RT.Crash, ZeroDivisionError, OverflowError, ValueError) as e:
                bad.append({"function": cls + "::fold", "operands": label(combo, same), "values": list(map(str, xs)), "what": f"folding crashes: {e!r}", "pytorch": repr(want)})
                continue
            n += 1
            got = None if r is None else r.v if isinstance(r, RT.Attr) else r.term
            if r is None or (bool(got) == want if isinstance(want, bool) else got == want and math.copysign(1, got) == math.copysign(1, want) or got != got and want != want):
                continue
            bad.append({"function": cls + "::fold", "operands": label(combo, same), "values": list(map(str, xs)), "result": repr(got), "pytorch": repr(want)})
    return n, bad


# ---- canonicalisation: an operation is replaced by values that mean the same --------
def meaning(v):
    """what a value stands for; of a new operation, by its own semantics"""
    if isinstance(v, list):
        return [meaning(x) for x in v]
    if v.term is not None:
        return v.term
    op = v.op
    if v.ty.kind == "NoneType":
        return None
    if op is None:
        raise C.Unsupported("a value without meaning")
    if op.cls == "PrimListConstructOp":
        return [meaning(x) for x in op.operands]
    if op.cls == "TensorStaticInfoCastOp":
        return meaning(op.operands[0])
    if op.cls in MEANS:
        return MEANS[op.cls](*[meaning(x) for x in op.operands])
    if op.cls in SP.OPS:
        return SP.OPS[op.cls][1](*[meaning(x) for x in op.operands])
    raise C.Unsupported(f"meaning of {op.cls}")


def elem(xs, i):
    """xs[i], as in Python"""
    n = len(xs)
    if not RT.is_sym(i):
        return xs[i]
    r = xs[0]
    for k in range(1, n):
        r = S.ite(S.disj(S.eq(i, k), S.eq(i, k - n)), xs[k], r)
    return r


def in_range(xs, i):
    return S.conj(i >= -len(xs), i < len(xs))


def product(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def slice_of(xs, start, end, step):
    """xs[start:end:step], as Python slices; decides what it has to know about symbolic bounds"""
    n, d = len(xs), RT.decide
    if d(step > 0):
        lo, hi = 0 if start is None else start, n if end is None else end
        lo = clamp(lo + n if d(lo < 0) else lo, 0, n)
        hi = clamp(hi + n if d(hi < 0) else hi, 0, n)
        on = lambda i: i < hi
    else:
        lo, hi = n - 1 if start is None else start, -n - 1 if end is None else end
        lo = clamp(lo + n if d(lo < 0) else lo, -1, n - 1)
        hi = clamp(hi + n if d(hi < 0) else hi, -1, n - 1)
        on = lambda i: i > hi
    out, i = [], lo
    while d(on(i)):
        out.append(elem(xs, i))
        i = i + step
    return out


def clamp(x, lo, hi):
    return lo if RT.decide(x < lo) else hi if RT.decide(x > hi) else x


MEANS = {
    "AtenSliceTOp": slice_of,
    "Aten__Getitem__TOp": elem,
    "PrimTupleIndexOp": elem,
    "AtenAddTOp": lambda a, b: list(a) + list(b),
    "PrimListUnpackOp": lambda a: a if len(a) != 1 else a[0],
    "AtenSizeOp": lambda t: t,
    "AtenSizeIntOp": lambda t, d: elem(t, d),
    "AtenNumelOp": product,
    "AtenDimOp": len,
}
DEFINED = {"AtenSliceTOp": lambda xs, start, end, step: S.neg(S.eq(step, 0)), "Aten__Getitem__TOp": in_range, "PrimTupleIndexOp": in_range, "AtenSizeIntOp": in_range}


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)):
            return False
        return S.conj(*[same(x, y) for x, y in zip(a, b)])
    return close_to(a, b)


def product_value(name, l, r, uses, term):
    """x * y, computed by an AtenMulIntOp"""
    vs = [Shape("int", h).make(f"{name}{k}", term("int", f"{name}{k}")) for k, h in enumerate((l, r))]
    op = RT.Op("AtenMulIntOp", vs, RT.INT, ["a", "b"])
    op.result.term = vs[0].term * vs[1].term
    op.result.uses = uses
    return op.result


def arith_scenarios(cls):
    hows = ["constant", "argument", "product"]
    for l, r in itertools.product(hows, hows):
        inner = [(x, y, u) for x in ("constant", "argument") for y in ("constant", "argument") for u in (1, 2)]
        for pl in inner if l == "product" else [None]:
            for pr in inner if r == "product" else [None]:
                if pl and pr and (pl[2] == 2 or pr[2] == 2):
                    continue

                def make(term, l=l, r=r, pl=pl, pr=pr):
                    a = product_value("p", *pl, term) if pl else Shape("int", l).make("a", term("int", "a"))
                    b = product_value("q", *pr, term) if pr else Shape("int", r).make("b", term("int", "b"))
                    return RT.Op(cls, [a, b], RT.INT, ["a", "b"]), []

                yield f"{pl or l}, {pr or r}", make


def list_value(name, n, term, mutated=False, cls="PrimListConstructOp"):
    vs = [Shape("int", "argument").make(f"{name}{k}", term("int", f"{name}{k}")) for k in range(n)]
    op = RT.Op(cls, vs, RT.Ty("ListType", of=RT.INT))
    op.result.term = [v.term for v in vs]
    if mutated:
        op.result.users.append(RT.Op("AtenAppendTOp", [op.result], readonly=False))
        op.result.term = op.result.term + [term("int", f"{name}_appended")]
    return op.result


def list_scenarios(cls):
    for n in range(MAXLIST + 1):
        for kind in ("list", "appended to", "unknown", "sizes"):
            for how in ("constant", "argument"):
                if cls in ("Aten__Getitem__TOp", "PrimTupleIndexOp"):
                    if cls == "PrimTupleIndexOp" and kind in ("appended to", "sizes") or n == 0:
                        continue

                    def make(term, n=n, kind=kind, how=how):
                        i = Shape("int", how).make("i", term("int", "i"))
                        if cls == "PrimTupleIndexOp":
                            l = list_value("x", n, term, cls="PrimTupleConstructOp" if kind == "list" else "AtenOtherOp")
                            return RT.Op(cls, [l, i], RT.INT, ["tup", "i"]), []
                        if kind == "sizes":
                            t, facts = tensor_value("t", n, term)
                            s = RT.Op("AtenSizeOp", [t], RT.Ty("ListType", of=RT.INT), ["self"])
                            s.result.term = t.term
                            return RT.Op(cls, [s.result, i], RT.INT, ["list", "idx"]), facts
                        return RT.Op(cls, [list_value("x", n, term, kind == "appended to", "AtenOtherOp" if kind == "unknown" else "PrimListConstructOp"), i], RT.INT, ["list", "idx"]), []

                    yield f"{kind} of {n}, {how} index", make
                elif how == "constant" or kind == "sizes":
                    continue
                elif cls == "PrimListUnpackOp":

                    def make(term, n=n, kind=kind):
                        l = list_value("x", n, term, kind == "appended to", "AtenOtherOp" if kind == "unknown" else "PrimListConstructOp")
                        op = RT.Op(cls, [l], RT.INT, ["operand"])
                        op.nresults = len(l.term)
                        return op, []

                    yield f"{kind} of {n}", make
                else:
                    for m in range(MAXLIST):
                        for k2 in ("list", "appended to"):

                            def make(term, n=n, m=m, kind=kind, k2=k2):
                                a = list_value("x", n, term, kind == "appended to", "AtenOtherOp" if kind == "unknown" else "PrimListConstructOp")
                                b = list_value("y", m, term, k2 == "appended to")
                                return RT.Op(cls, [a, b], a.ty, ["a", "b"]), []

                            yield f"{kind} of {n}, {k2} of {m}", make


def slice_scenarios(cls):
    def bound(name, how, term):
        if how == "none":
            return RT.Op("ConstantNoneOp", [], RT.Ty("NoneType")).result
        return Shape("int", how).make(name, term("int", name))

    for n in range(MAXLIST + 1):
        for kind in ("list", "appended to", "unknown"):
            for hows in itertools.product(("constant", "none", "argument"), ("constant", "none", "argument"), ("constant", "argument")):
                if kind != "list" and "argument" in hows or hows.count("argument") > 1:
                    continue

                def make(term, n=n, kind=kind, hows=hows):
                    l = list_value("x", n, term, kind == "appended to", "AtenOtherOp" if kind == "unknown" else "PrimListConstructOp")
                    return RT.Op(cls, [l] + [bound(k, h, term) for k, h in zip(("start", "end", "step"), hows)], l.ty, ["l", "start", "end", "step"]), []

                yield f"{kind} of {n}, bounds {', '.join(hows)}", make


def tensor_value(name, rank, term, chain=0, sizes=True):
    """a tensor of `rank` dimensions whose type knows some of the sizes; under `chain` casts"""
    dims = [term("int", f"{name}_d{k}") for k in range(rank)]
    facts = [d >= 0 for d in dims]

    def ty(tag):
        known = [term("bool", f"{name}_k{tag}_{k}") for k in range(rank)]
        return RT.Tensor([ite_py(k, d, -1) for k, d in zip(known, dims)])

    v = RT.Value(ty(0) if sizes else RT.Tensor(None), dims, name=name)
    for k in range(chain):
        op = RT.Op(("TensorStaticInfoCastOp", "CopyToValueTensorOp")[k % 2], [v], RT.Tensor(None) if k == 0 else ty(k + 1), ["operand"])
        v = op.result
        v.term = dims
    return v, facts


def ite_py(c, a, b):
    return (a if c else b) if isinstance(c, bool) else S.ite(c, a, b)


def tensor_scenarios(cls):
    for n in range(5):
        for chain in (0, 1, 2):
            for how in ("constant", "argument") if cls == "AtenSizeIntOp" else ("",):
                for sizes in (True, False):

                    def make(term, n=n, chain=chain, how=how, sizes=sizes):
                        t, facts = tensor_value("t", n, term, chain, sizes)
                        if cls == "AtenSizeIntOp":
                            return RT.Op(cls, [t, Shape("int", how).make("i", term("int", "i"))], RT.INT, ["self", "dim"]), facts
                        return RT.Op(cls, [t], RT.Ty("ListType", of=RT.INT) if cls == "AtenSizeOp" else RT.INT, ["self"]), facts

                    yield f"rank {n}, {chain} casts, {how} sizes {'known or not' if sizes else 'absent'}", make


CANON = {
    "AtenMulIntOp": (arith_scenarios, None),
    "AtenFloordivIntOp": (arith_scenarios, None),
    "Aten__Getitem__TOp": (list_scenarios, f"lists of at most {MAXLIST} elements"),
    "PrimTupleIndexOp": (list_scenarios, f"tuples of at most {MAXLIST} elements"),
    "PrimListUnpackOp": (list_scenarios, f"lists of at most {MAXLIST} elements"),
    "AtenAddTOp": (list_scenarios, f"lists of at most {MAXLIST} elements"),
    "AtenSliceTOp": (slice_scenarios, f"lists of at most {MAXLIST} elements"),
    "AtenSizeOp": (tensor_scenarios, "rank at most 4"),
    "AtenNumelOp": (tensor_scenarios, "rank at most 4"),
}
TYPED_FOLDS = {"AtenSizeIntOp": (tensor_scenarios, "rank at most 4"), "AtenDimOp": (tensor_scenarios, "rank at most 4")}


def spec_of(cls, op):
    args = [meaning(v) for v in op.operands]
    defined, value = (DEFINED.get(cls, SP.always), MEANS[cls]) if cls in MEANS else SP.OPS[cls]
    return (lambda: defined(*args)), (lambda: value(*args))


def replaced(cls, op, rw, ok):
    """goals about what a pattern did"""
    if not ok:
        yield "an operation that is not rewritten is left alone", rw.result is None and not rw.erased
        return
    if rw.result is None:
        yield "a rewritten operation is replaced", False
        return
    d, w = spec_of(cls, op)
    yield "the operation matched is the one replaced", rw.result[0] is op
    for e in rw.erased:
        yield "an erased operation has no other use", e is op or e.result.uses == 1 and any(v is e.result for v in op.operands)
    if not RT.decide(d()):
        return
    yield "the replacement means what the operation does", same(meaning(rw.result[1]), w())


def patterns_of(call, f):
    ps = RT.Patterns()
    call(f, [RT.Op("any", []), ps, RT.CTX])
    return ps.all


def canon(code, cls):
    scen, bound = CANON[cls]
    f = code.fn(cls + "::getCanonicalizationPatterns")
    o = Oblig(cls + "::getCanonicalizationPatterns", bounded=bound)
    with C.active_ctx(C.Ctx([], (), {}, None)):
        n = len(patterns_of(lambda f, a: code.interp().call(f, a, {}), f))
    for lab, make in scen(cls):
        for k in range(n):

            def run(c):
                it = code.interp()
                op, facts = make(lambda kind, name: SORT[kind](name))
                for x in facts:
                    c.assume(x)
                rw = RT.Rewriter()
                r = it.call(patterns_of(lambda f, a: it.call(f, a, {}), f)[k], [op, rw], {})
                return list(replaced(cls, op, rw, RT.decide(RT.conv_bool(r))))

            o.prove(run, raises=lambda e: [(f"the pattern does not crash the compiler ({e})", False)], tag=f"pattern {k}, {lab}: ", budget_s=30)
            if o.unsupported:
                return o
    return o


def typed_fold(code, cls):
    scen, bound = TYPED_FOLDS[cls]
    f = code.fn(cls + "::fold")
    o = Oblig(cls + "::fold", bounded=bound)
    for lab, make in scen(cls):

        def run(c):
            op, facts = make(lambda kind, name: SORT[kind](name))
            for x in facts:
                c.assume(x)
            r = code.interp().call(f, [op, RT.Adaptor(op)], {})
            if r is None:
                return [("no fold", True)]
            d, w = spec_of(cls, op)
            if not RT.decide(d()):
                return [("the operator is not defined here", True)]
            return list(goals(r, op, w()))

        o.prove(run, raises=lambda e: [(f"folding does not crash the compiler ({e})", False)], tag=lab + ": ", budget_s=30)
        if o.unsupported:
            return o
    return o


SMALL = {"int": [-2, -1, 0, 1, 2, 3], "bool": [False, True]}


def search_made(code, cls, scen, how):
    """a concrete scenario in which a pattern or a typed fold goes wrong"""
    import random

    rng = random.Random(1)
    f = code.fn(f"{cls}::{how}")
    fs = [f] if how == "fold" else patterns_of(lambda f, a: f(*a), f)
    for lab, make in scen(cls):
        for _ in range(60):
            vals = {}

            def term(kind, name):
                return vals.setdefault(name, rng.choice(SMALL[kind]))

            op, facts = make(term)
            if not all(facts):
                continue
            for g in fs:
                op, _f = make(term)
                data = {"operands": lab, "values": vals}
                try:
                    if how == "fold":
                        r = g(op, RT.Adaptor(op))
                        d, w = spec_of(cls, op)
                        gs = list(goals(r, op, w())) if r is not None and d() else []
                    else:
                        rw = RT.Rewriter()
                        gs = list(replaced(cls, op, rw, bool(g(op, rw))))
                except RT.Crash as e:
                    return {**data, "what": f"the compiler crashes: {e}"}
                except (AttributeError, TypeError, C.Unsupported):
                    continue
                except IndexError as e:
                    return {**data, "what": f"out of bounds: {e}"}
                for l, x in gs:
                    if x is not True:
                        return {**data, "what": l}
    return None


def main():
    ck = Check("C21")
    ops = {}
    for p in ODS:
        ops.update(RT.ods(read(p)))
    keys = [c + "::fold" for c in list(SP.OPS) + list(TYPED_FOLDS)] + [c + "::getCanonicalizationPatterns" for c in CANON]
    code = Code(FILES, keys)
    try:
        n, bad, without = agreement(ops)
        print(f"# specification agrees with PyTorch's operators on {n - len(bad)} of {n} calls; not comparable: {without}")
        if bad:
            ck.undecide("specification of the scalar operators", f"PyTorch disagrees: {bad[:5]}")
        ck.cov["functions"] = []
        for cls in SP.OPS:
            if cls not in ops:
                ck.undecide(cls, "not among the operations' definitions")
                continue
            name, operands, results = ops[cls]
            o, r = contract(ck, fold, code, cls, operands, results, search=lambda: search(code, cls, operands, results, name))
            ck.cov["functions"].append({"function": o.name, "obligations": o.obl, "result": r})
        ck.cov["special_values"] = 0
        for cls in SP.OPS:
            if cls not in ops or not ops[cls][0] or all(t != "Torch_FloatType" for _, t in ops[cls][1]):
                continue
            try:
                n, bad = special(code, cls, ops[cls][1], ops[cls][2], ops[cls][0])
            except Exception as e:
                print(f"# special values of {cls}: {type(e).__name__}: {e}"[:200])
                continue
            ck.cov["special_values"] += n
            for k in ck.known:
                if any(k["function"] == b["function"] and k["operands"] == b["operands"] and k["values"] == b["values"] for b in bad):
                    ck.known_finding(k["what"])
                    bad = [b for b in bad if not (k["function"] == b["function"] and k["operands"] == b["operands"] and k["values"] == b["values"])]
            if bad:
                ck.violation(f"{cls}::fold: infinities and NaN", {**bad[0], "others": bad[1:10]})
        for cls, (scen, _) in TYPED_FOLDS.items():
            o, r = contract(ck, typed_fold, code, cls, search=lambda: search_made(code, cls, scen, "fold"))
            ck.cov["functions"].append({"function": o.name, "obligations": o.obl, "result": r})
        for cls, (scen, _) in CANON.items():
            o, r = contract(ck, canon, code, cls, search=lambda: search_made(code, cls, scen, "getCanonicalizationPatterns"))
            ck.cov["functions"].append({"function": o.name, "obligations": o.obl, "result": r})
        rest = sorted(k for f in code.m.files for fn in f.funcs for k in [fn.key] if k.endswith("::fold") and k not in keys)
        ck.cov["folds_not_under_contract"] = rest
        ck.cov["agreement_with_pytorch"] = {"calls": n, "not_comparable": without}
    finally:
        code.close()
    ck.trusted += [
        "pyvc.cpp: the mechanical translation of the C++ functions' text into Python, run on every check (drops comments, casts between integer widths and error-message text; no C++ front end can type these files here, MLIR's headers are not installed)",
        "checks/mlir_rt.py: assumed contracts of MLIR's interfaces (matchPattern, attributes, getDefiningOp, adaptors, rewriter)",
        "specs/scalar_ops.py, compared on every run with PyTorch's own operators",
    ]
    ck.assumptions += [
        "int64_t arithmetic does not overflow; double is a real number (no rounding, infinities or NaN)",
        "a value defined by aten.size.int is not negative; tensor types tell the truth about the sizes they state",
    ]
    ck.finish("/opt/venv/bin/python -W ignore checks/fold_check.py")


if __name__ == "__main__":
    main()
