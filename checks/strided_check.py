"""as_strided rewriting before FX import (C11): extras/fx_as_strided.py."""
import importlib
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check  # noqa: E402
from checks.oblig import Oblig, contract  # noqa: E402
from pyvc import ctx as C, sval as S, load  # noqa: E402
from pyvc.interp import Interp  # noqa: E402

import importlib.util  # noqa: E402

z3 = C.z3
PATH = load.REPO + "/python/torch_mlir/extras/fx_as_strided.py"
_m = None


def M():
    """the module alone: torch_mlir.extras needs the MLIR bindings, this file does not"""
    global _m
    if _m is None:
        spec = importlib.util.spec_from_file_location("pyvc_fx_as_strided", PATH)
        _m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_m)
    return _m


# ---------------------------------------------------------------- pointwise tensors
def is1(d):
    return isinstance(d, int) and d == 1


class PT:
    """A tensor known by its value at a generic position: fn(position) -> term.

    In-place operators change the object, so aliasing shows."""

    _pyvc_ok = True
    _pyvc_ops = True

    def __init__(self, shape, fn, dtype="int64"):
        self.shape, self.fn, self._dt = list(shape), fn, dtype
        self.viewed = False

    def _pyvc_class(self):
        import torch

        return torch.Tensor

    @property
    def dtype(self):
        import torch

        return getattr(torch, self._dt)

    def at(self, pos):
        """value at a position of a tensor this one is broadcast to"""
        own = pos[len(pos) - len(self.shape):]
        return self.fn([z3.IntVal(0) if is1(d) else p for d, p in zip(self.shape, own)])

    def _bin(self, o, f, dtype=None):
        if not isinstance(o, PT):
            v = S.zterm(o)
            g = self.fn
            return PT(self.shape, lambda pos: f(g(pos), v), dtype or self._dt)
        n = max(len(self.shape), len(o.shape))
        a = [1] * (n - len(self.shape)) + self.shape
        b = [1] * (n - len(o.shape)) + o.shape
        shape = []
        for x, y in zip(a, b):
            if is1(x) or is1(y):
                shape.append(y if is1(x) else x)
            elif C.cur().entails(S.zterm(x) == S.zterm(y)):
                shape.append(x)
            else:
                raise C.Unsupported("broadcast of unrelated sizes")
        u, v = PT(self.shape, self.fn), PT(o.shape, o.fn)
        return PT(shape, lambda pos: f(u.at(pos), v.at(pos)), dtype or self._dt)

    def _inplace(self, r):
        if self.viewed:
            raise C.Unsupported("in-place update of a viewed tensor")
        if len(r.shape) != len(self.shape) or any(is1(x) != is1(y) for x, y in zip(self.shape, r.shape)):
            S.raise_py(RuntimeError, "output with shape doesn't match the broadcast shape")
        self.fn = r.fn
        return self

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __floordiv__(self, o):
        return floor_div(self, o)[0]

    def __mod__(self, o):
        return floor_div(self, o)[1]

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __ifloordiv__(self, o):
        return self._inplace(self // o)

    def __imod__(self, o):
        return self._inplace(self % o)

    add, sub, mul = __add__, __sub__, __mul__
    add_, sub_, mul_ = __iadd__, __isub__, __imul__

    def _cmp(self, o, f):
        return self._bin(o, f, "bool")

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    __hash__ = None

    def _log(self, o, f):
        if self._dt != "bool" or (isinstance(o, PT) and o._dt != "bool"):
            raise C.Unsupported("bitwise operator on integers")
        return self._bin(o, f, "bool")

    def __or__(self, o):
        return self._log(o, lambda x, y: z3.Or(x, y))

    def __and__(self, o):
        return self._log(o, lambda x, y: z3.And(x, y))

    def __invert__(self):
        if self._dt != "bool":
            raise C.Unsupported("~ on integers")
        g = self.fn
        return PT(self.shape, lambda pos: z3.Not(g(pos)), "bool")

    def _pyvc_bool(self):
        if self.shape:
            raise C.Unsupported("truth value of a tensor with elements")
        return C.cur().branch(self.at([]) if self._dt == "bool" else self.at([]) != 0)

    def item(self):
        if self.shape:
            raise C.Unsupported("item() of a tensor with elements")
        return self.at([])

    def numel(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    def dim(self):
        return len(self.shape)

    def size(self, i=None):
        return tuple(self.shape) if i is None else self.shape[i]

    def clone(self):
        return PT(self.shape, self.fn, self._dt)

    def reshape(self, *shape):
        if len(shape) == 1 and not isinstance(shape[0], int) and not C.is_sym(shape[0]):
            shape = tuple(shape[0])
        big = [i for i, d in enumerate(shape) if not is1(d)]
        mine = [i for i, d in enumerate(self.shape) if not is1(d)]
        if len(big) != len(mine):
            raise C.Unsupported("general reshape")
        for i, j in zip(mine, big):
            d = shape[j]
            if not (isinstance(d, int) and d == -1 and len(big) == 1) and not C.cur().entails(S.zterm(d) == S.zterm(self.shape[i])):
                raise C.Unsupported("general reshape")
        out = [self.shape[mine[big.index(j)]] if j in big else 1 for j in range(len(shape))]
        g, n = self.fn, len(self.shape)

        def fn(pos):
            own = [z3.IntVal(0)] * n
            for i, j in zip(mine, big):
                own[i] = pos[j]
            return g(own)

        self.viewed = True
        r = PT(out, fn, self._dt)
        r.viewed = True
        return r

    view = reshape

    def any(self):
        return any_of(self)

    def all(self):
        return ~any_of(~self)

    def __repr__(self):
        return f"PT({self.shape})"


class Pos:
    """the generic position of the result, for one path"""

    def __init__(self, pos, empty):
        self.pos, self.empty, self.anys = pos, empty, []


def any_of(t):
    """torch.any: false everywhere, or true at the generic position, chosen to be a
    witness (the path then proves nothing about other positions)"""
    st = C.cur().gpos
    if t._dt != "bool":
        t = t != 0
    if st.empty:
        return PT([], lambda p: z3.BoolVal(False), "bool")
    b = t.at(st.pos)
    st.anys.append(b)
    return PT([], lambda p: b, "bool")


def floor_div(a, b, trunc=False):
    """division (rounding down, or to zero) and remainder by a positive divisor, as fresh terms"""
    c = C.cur()
    if isinstance(b, PT):
        raise C.Unsupported("division by a tensor")
    bz = S.zterm(b)
    if not c.entails(bz > 0):
        raise C.Unsupported("division by a number not known to be positive")
    memo = {}

    def qm(pos):
        x = z3.simplify(a0.fn(pos))
        key = x.get_id()
        if key not in memo:
            k = C.cur()
            q, m = k.fresh_int("q"), k.fresh_int("m")
            if trunc:
                k.assume(z3.And(x == q * bz + m, z3.If(x >= 0, z3.And(0 <= m, m < bz), z3.And(-bz < m, m <= 0))))
            else:
                k.assume(z3.And(x == q * bz + m, 0 <= m, m < bz))
            for cd in getattr(k, "digits", []):
                # lemma digit_lemma, instantiated
                k.assume(z3.Implies(z3.And(x >= 0 if trunc else True, 0 <= x - cd * bz, x - cd * bz < bz), q == cd))
            memo[key] = (q, m, x)
        return memo[key]

    a0 = PT(a.shape, a.fn)
    return PT(a.shape, lambda p: qm(p)[0]), PT(a.shape, lambda p: qm(p)[1])


def tensor_contracts():
    import torch

    def shape_of(a):
        if len(a) == 1 and isinstance(a[0], (list, tuple, torch.Size)):
            return list(a[0])
        return list(a)

    def dt(k, v=None):
        d = k.get("dtype")
        if d is None:
            return "int64" if v is None or S.is_num_like(v) and not isinstance(v, float) else "float32"
        return str(d).replace("torch.", "")

    def full(it, a, k):
        a = list(a)
        size = a.pop(0) if a else k["size"]
        v = a.pop(0) if a else k["fill_value"]
        return PT(list(size), lambda pos: S.zterm(v), dt(k, v))

    def const(v):
        def h(it, a, k):
            size = shape_of(a) if a else list(k["size"])
            return PT(size, lambda pos: z3.IntVal(v), dt(k) if k.get("dtype") is not None else "float32")

        return h

    def like(v):
        return lambda it, a, k: PT(a[0].shape, lambda pos: z3.IntVal(v), dt(k) if k.get("dtype") is not None else a[0]._dt)

    def arange(it, a, k):
        a = list(a) or [k["end"]]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if st != 1 or k.get("step", 1) != 1:
            raise C.Unsupported("arange with a step")
        n = hi if isinstance(lo, int) and lo == 0 else hi - lo
        return PT([n], lambda pos: pos[0] + S.zterm(lo), dt(k))

    def div(it, a, k):
        if k.get("rounding_mode") not in ("floor", "trunc"):
            raise C.Unsupported("division that does not round")
        return floor_div(a[0], a[1], k["rounding_mode"] == "trunc")[0]

    con = {
        id(torch.full): full,
        id(torch.zeros): const(0),
        id(torch.ones): const(1),
        id(torch.zeros_like): like(0),
        id(torch.ones_like): like(1),
        id(torch.full_like): lambda it, a, k: PT(a[0].shape, lambda pos: S.zterm(a[1]), a[0]._dt),
        id(torch.arange): arange,
        id(torch.div): div,
        id(torch.floor_divide): lambda it, a, k: floor_div(a[0], a[1])[0],
        id(torch.remainder): lambda it, a, k: floor_div(a[0], a[1])[1],
        id(torch.any): lambda it, a, k: any_of(a[0]),
        id(torch.all): lambda it, a, k: a[0].all(),
        id(torch.add): lambda it, a, k: a[0] + a[1],
        id(torch.sub): lambda it, a, k: a[0] - a[1],
        id(torch.mul): lambda it, a, k: a[0] * a[1],
        id(torch.reshape): lambda it, a, k: a[0].reshape(a[1]),
    }
    return con


def ints(c, nm, n, lo=None):
    out = []
    for i in range(n):
        v = z3.Int(f"{nm}{i}")
        if lo is not None:
            c.assume(v >= lo)
        out.append(v)
    return out


def request(c, n, empty):
    size, stride = ints(c, "size", n, 0), ints(c, "stride", n, 0)
    pos = ints(c, "p", n)
    if empty:
        c.assume(z3.Or(*[s == 0 for s in size]))
    else:
        for s, p in zip(size, pos):
            c.assume(z3.And(0 <= p, p < s))
    c.gpos = Pos(pos, empty)
    return size, stride, pos


def total(terms):
    return z3.Sum(*terms) if len(terms) > 1 else terms[0] if terms else z3.IntVal(0)


def same_shape(t, size):
    if not isinstance(t, PT) or len(t.shape) != len(size):
        return False
    return S.conj(*[S.eq(x, y) for x, y in zip(t.shape, size)])


def generic_return(c):
    """no any() answered yes on this path, so the position is generic"""
    for b in c.gpos.anys:
        if not c.entails(z3.Not(b)):
            raise C.Unsupported("goes on after torch.any answered yes")


INDICES = "_indices"


def indices_sound(pats):
    name = "_indices: accepted indices read the requested storage elements"

    def pattern(t):
        nb, nr, order, zero, empty = t
        o = Oblig(name, q_ms=20000)

        def run(c):
            bs, bstr = ints(c, "bsize", nb, 0), ints(c, "bstride", nb, 0)
            for d in range(nb):
                c.assume(bstr[d] == 0 if zero[d] else bstr[d] >= 1)
            for i, j in zip(order, order[1:]):
                c.assume(bstr[i] >= bstr[j])
            size, stride, pos = request(c, nr, empty)
            off, boff = z3.Int("offset"), z3.Int("base_offset")
            it = Interp([PATH], tensor_contracts())
            f = getattr(M(), INDICES)
            try:
                got = list(it.call(f, [tuple(bs), tuple(bstr), boff, tuple(size), tuple(stride), off], {}))
            except C.PyRaise as e:
                return [("a request is only rejected with ValueError", isinstance(e.exc, ValueError))]
            out = [
                ("one index per base dimension", len(got) == nb),
                ("int64 indices", all(isinstance(x, PT) and x._dt == "int64" for x in got)),
            ]
            if len(got) != nb:
                return out
            out += [(f"index {d} has the result's shape", same_shape(x, size)) for d, x in enumerate(got)]
            if not empty:
                generic_return(c)
                v = [x.at(pos) for x in got]
                out += [(f"index {d} inside the base", z3.And(0 <= x, x < bs[d])) for d, x in enumerate(v)]
                out.append(("the storage element requested", boff + total([x * s for x, s in zip(v, bstr)]) == off + total([p * s for p, s in zip(pos, stride)])))
            return out

        return o.prove(run, tag=f"base rank {nb}, request rank {nr}{', empty' if empty else ''}: ", budget_s=200)

    return Oblig(name, bounded="base rank at most %d, request rank at most %d; all sizes, strides and offsets" % (max(p[0] for p in pats), max(p[1] for p in pats))).parallel(pats, pattern)


def sound_patterns(maxb, maxr):
    out = []
    for nb in range(maxb + 1):
        for nr in range(maxr + 1):
            for order in itertools.permutations(range(nb)):
                for zero in itertools.product((False, True), repeat=nb):
                    z = [zero[i] for i in order]
                    if z != sorted(z):
                        continue  # zero strides sort last
                    for empty in (False, True) if nr and order == tuple(range(nb)) else (False,):
                        out.append((nb, nr, order, zero, empty))
    return out


def digit_lemma(t=False):
    o = Oblig("lemma: the quotient of a mixed-radix number is its digit")

    def run(c):
        x, q, m, s, d = z3.Ints("x q m s d")
        for a in (s > 0, x == q * s + m, 0 <= m, m < s, 0 <= x - d * s, x - d * s < s):
            c.assume(a)
        return [("q == d", q == d)]

    return o.prove(run)


def indices_complete(pats):
    """a base whose elements do not overlap: every request for its elements is accepted"""
    name = "_indices: requests for elements of a non-overlapping base are accepted"

    def pattern(t):
        nb, nr, order, unit = t
        o = Oblig(name, q_ms=30000)

        def run(c):
            bs, bstr = ints(c, "bsize", nb, 1), ints(c, "bstride", nb, 0)
            for d in range(nb):
                c.assume(bs[d] == 1 if unit[d] else bs[d] >= 2)
            for k, d in enumerate(order):
                c.assume(bstr[d] >= 1)
                c.assume(bstr[d] > total([(bs[e] - 1) * bstr[e] for e in order[k + 1:]]))
            size, stride, pos = request(c, nr, False)
            off, boff = z3.Int("offset"), z3.Int("base_offset")
            dig = ints(c, "digit", nb, 0)
            for d in range(nb):
                c.assume(dig[d] < bs[d])
            c.assume(off + total([p * s for p, s in zip(pos, stride)]) == boff + total([x * s for x, s in zip(dig, bstr)]))
            # the products of the request, as the code forms them
            c.digits = [dig[d] for d in order] + [z3.IntVal(0)]
            it = Interp([PATH], tensor_contracts())
            try:
                got = it.call(getattr(M(), INDICES), [tuple(bs), tuple(bstr), boff, tuple(size), tuple(stride), off], {})
            except C.PyRaise as e:
                if C.check_sat(c.constraints(), 30000)[0] != "unsat" and sum(1 for b in c.gpos.anys if c.entails(b)) > 1:
                    raise C.Unsupported("rejected after two torch.any answered yes")
                return [("an in-bounds request of a non-overlapping base is accepted", False)]
            return [("accepted", True)]

        return o.prove(run, tag=f"base rank {nb}, request rank {nr}: ", budget_s=200)

    return Oblig(name, bounded="base rank at most %d, request rank at most %d; all sizes, strides and offsets" % (max(p[0] for p in pats), max(p[1] for p in pats))).parallel(pats, pattern)


def complete_patterns(maxb, nrs):
    out = []
    for nb in range(maxb + 1):
        for nr in nrs:
            for unit in itertools.product((False, True), repeat=nb):
                for order in itertools.permutations([d for d in range(nb) if not unit[d]]):
                    out.append((nb, nr, order, unit))
    return out



# ---------------------------------------------------------------- the graph side
class FakeT:
    """FakeTensor metadata: shape, strides, storage"""

    _pyvc_ok = True

    def __init__(self, shape, stride, offset, dtype, storage, conj=False, neg=False):
        self.shape, self._st, self._off, self.dtype = shape, stride, offset, dtype
        self._s, self._c, self._n = storage, conj, neg

    def _pyvc_class(self):
        import torch

        return torch.Tensor

    def stride(self):
        return tuple(self._st)

    def storage_offset(self):
        return self._off

    def untyped_storage(self):
        return self._s

    def size(self):
        return self.shape

    def is_conj(self):
        return self._c

    def is_neg(self):
        return self._n

    def kind(self):
        return (self.dtype, self._c, self._n)


class NodeS:
    """stand-in for fx.Node"""

    _pyvc_ok = True

    def __init__(self, op, target, args=(), kwargs=None, val=None, name="n", graph=None):
        self.op, self.target, self.args, self.kwargs = op, target, tuple(args), dict(kwargs or {})
        self.meta = {} if val is None else {"val": val}
        self.name, self.graph = name, graph

    def _pyvc_class(self):
        import torch.fx as fx

        return fx.Node

    def __repr__(self):
        return f"<{self.name}: {self.op} {self.target}>"


class GraphS:
    """stand-in for fx.Graph: records what is inserted, and where"""

    _pyvc_ok = True

    def __init__(self, gm=None):
        self.log, self.where, self.owning_module = [], None, gm

    def inserting_before(self, node):
        g = self

        class Cm:
            _pyvc_ok = True

            def __enter__(self):
                self.old, g.where = g.where, node

            def __exit__(self, *a):
                g.where = self.old

        return Cm()

    def call_function(self, target, args=(), kwargs=None):
        n = NodeS("call_function", target, args, kwargs, name=f"new{len(self.log)}", graph=self)
        self.log.append((self.where, n))
        return n

    def get_attr(self, name):
        n = NodeS("get_attr", name, name=f"new{len(self.log)}", graph=self)
        self.log.append((self.where, n))
        return n


class ModuleS:
    _pyvc_ok = True

    def __init__(self, **have):
        self.__dict__.update(have)
        self._reg = {}

    def register_buffer(self, name, tensor, persistent=True):
        if hasattr(self, name):
            S.raise_py(KeyError, f"attribute '{name}' already exists")
        self._reg[name] = tensor
        setattr(self, name, tensor)


def fn(name):
    return getattr(M(), name, None)


def contract_for(con, name, h):
    f = fn(name)
    if f is not None:
        con[id(f)] = h
    return con


def indices_contract(it, a, k):
    """what indices_sound proves"""
    import inspect

    b = inspect.signature(M()._indices).bind(*a, **k).arguments
    bs, bstr, boff, size, stride, off = (b[x] for x in ("base_shape", "base_stride", "base_offset", "size", "stride", "offset"))
    c = C.cur()
    c.asked = (bs, bstr, boff, size, stride, off)
    if c.choose(2):
        S.raise_py(ValueError, "rejected")
    pos = c.gpos.pos
    v = [c.fresh_int("ix") for _ in bs]
    for x, n in zip(v, bs):
        c.assume(z3.And(0 <= x, x < n))
    c.assume(S.zterm(boff) + total([x * s for x, s in zip(v, bstr)]) == S.zterm(off) + total([p * s for p, s in zip(pos, stride)]))
    return tuple(PT(list(size), (lambda x: lambda p: x)(x)) for x in v)


def const_contract(it, a, k):
    g, node, i, t = a
    with g.inserting_before(node):
        n = g.get_attr(f"const{len(g.log)}")
    n.meta["val"] = t
    return n


OFFSETS = ("given", "keyword", "none", "missing", "dynamic")
BAD = ("", "size", "stride", "offset", "base.shape", "base.stride", "base.offset", "source.offset", "bool size")


def rewrite_node(t):
    """_rewrite against the contracts of its callees"""
    import torch

    o = Oblig("_rewrite: the replacement reads the storage elements of the request", bounded="base rank at most 2, request rank at most 2")
    for nb, nr, how, bad in itertools.product(range(3), range(3), OFFSETS[:4], BAD):
        if bad in ("size", "stride", "bool size") and nr == 0 or bad in ("base.shape", "base.stride") and nb == 0:
            continue
        if bad == "offset" and how not in ("given", "keyword") or bad == "source.offset" and how in ("given", "keyword"):
            continue

        def run(c):
            bs, bstr = ints(c, "bsize", nb, 0), ints(c, "bstride", nb, 0)
            size, stride, pos = request(c, nr, False)
            boff, soff, off = z3.Ints("base_offset source_offset offset")
            dyn = NodeS("call_function", "sym", name="sym")
            base_v = FakeT(torch.Size(()) if nb == 0 else tuple(bs), bstr, boff, torch.float32, "S")
            if bad == "base.shape":
                base_v.shape = (dyn, *bs[1:])
            if bad == "base.stride":
                base_v._st = [dyn, *bstr[1:]]
            if bad == "base.offset":
                base_v._off = dyn
            src_v = FakeT((3,), [1], dyn if bad == "source.offset" else soff, torch.float32, "S")
            base = NodeS("placeholder", "x", val=base_v, name="base")
            src = NodeS("call_function", "view", (base,), val=src_v, name="src")
            res = FakeT(tuple(size), stride, off, torch.float32, "S")
            sz = [dyn if bad == "size" else True if bad == "bool size" else size[0], *size[1:]] if nr else []
            st = [dyn, *stride[1:]] if bad == "stride" else list(stride)
            o_ = dyn if bad == "offset" else off
            args, kw = [src, sz, st], {}
            if how == "given":
                args.append(o_)
            elif how == "keyword":
                kw = {"storage_offset": o_}
            elif how == "none":
                args.append(None)
            g = GraphS()
            node = NodeS("call_function", torch.ops.aten.as_strided.default, args, kw, val=res, name="node", graph=g)
            node.meta["other"] = "kept"
            con = tensor_contracts()
            con[id(torch.empty)] = lambda it, a, k: FakeT(tuple(a[0]), None, 0, k.get("dtype"), "new")
            contract_for(con, "_indices", indices_contract)
            contract_for(con, "_constant", const_contract)
            contract_for(con, "_base", lambda it, a, k: base if a[0] is src else dyn)
            it = Interp([PATH], con)
            try:
                r = it.call(M()._rewrite, [g, node], {})
            except C.PyRaise as e:
                return [("rejected with ValueError", isinstance(e.exc, ValueError)), ("only what cannot be decoded is rejected", bool(bad) or hasattr(c, "asked"))]
            if bad:
                return [("a request that is not static is rejected", False)]
            want = off if how in ("given", "keyword") else soff
            addr = S.zterm(want) + total([p * s for p, s in zip(pos, stride)])
            out = [
                ("the replacement is the last node inserted, before the request", bool(g.log) and g.log[-1][1] is r and all(w is node for w, n in g.log)),
                ("metadata: result shape", isinstance(r.meta.get("val"), FakeT) and S.eq(list(r.meta["val"].shape), list(size))),
                ("metadata: result dtype", isinstance(r.meta.get("val"), FakeT) and r.meta["val"].dtype is torch.float32),
                ("metadata: a tensor with its own storage", isinstance(r.meta.get("val"), FakeT) and r.meta["val"]._s != "S"),
                ("other metadata is kept", r.meta.get("other") == "kept"),
                ("a function call without keywords", r.op == "call_function" and not r.kwargs),
            ]
            if r.target is torch.ops.aten.index.Tensor:
                x, idx = r.args
                ok = x is base and nb > 0 and len(idx) == nb and all(isinstance(i, NodeS) and isinstance(i.meta.get("val"), PT) for i in idx)
                out.append(("one index tensor per dimension of the base", ok))
                if ok:
                    v = [i.meta["val"].at(pos) for i in idx]
                    out += [("result shape", same_shape(idx[0].meta["val"], size)), ("the storage element requested", boff + total([a * b for a, b in zip(v, bstr)]) == addr)]
            elif r.target is torch.ops.aten.expand.default:
                x, sz2 = r.args
                out += [("a zero-dimensional base", x is base and nb == 0), ("result shape", S.eq(list(sz2), list(size))), ("the storage element requested", boff == addr)]
            else:
                out.append((f"known replacement ({r.target})", False))
            return out

        o.prove(run, tag=f"base rank {nb}, request rank {nr}, offset {how}{', dynamic ' + bad if bad else ''}: ")
    return o


def storage_operand(t):
    """_same_storage_arg, _storage_operand: an operand with the same storage, element for element"""
    import torch

    o = Oblig("_storage_operand: an operand holding the same storage with the same element type", bounded="argument nesting up to depth 2, lists up to two items")
    f32, i32 = torch.float32, torch.int32
    S1, S2 = object(), object()
    mine = FakeT((2,), [1], 0, f32, S1)
    leaf = {
        "same": lambda: NodeS("placeholder", "a", val=FakeT((4,), [1], 0, f32, S1), name="same"),
        "other storage": lambda: NodeS("placeholder", "a", val=FakeT((4,), [1], 0, f32, S2), name="otherstorage"),
        "other dtype": lambda: NodeS("placeholder", "a", val=FakeT((4,), [1], 0, i32, S1), name="otherdtype"),
        "conj": lambda: NodeS("placeholder", "a", val=FakeT((4,), [1], 0, f32, S1, conj=True), name="conj"),
        "neg": lambda: NodeS("placeholder", "a", val=FakeT((4,), [1], 0, f32, S1, neg=True), name="neg"),
        "scalar": lambda: NodeS("placeholder", "a", val=None, name="scalar"),
        "sym": lambda: NodeS("placeholder", "a", val="symint", name="sym"),
        "int": lambda: 3,
        "str": lambda: "same",
        "none": lambda: None,
    }
    names = list(leaf)
    shapes = []
    for a in names:
        shapes += [(a,), ([a],), ((a,),)]
        for b in names:
            shapes += [(a, b), ([a, b],), ([[a], b],), ([a], [b])]
    import torch.fx as fx

    for i, sh in enumerate(shapes):
        for kwpos in (False, True):
            if kwpos and len(sh) < 2:
                continue

            def run(c):
                found = []

                def build(x):
                    if isinstance(x, (list, tuple)):
                        r = [build(y) for y in x]
                        return tuple(r) if isinstance(x, tuple) else fx.immutable_collections.immutable_list(r) if i % 2 else r
                    v = leaf[x]()
                    if x == "same":
                        found.append(v)
                    return v

                args = [build(x) for x in sh]
                node = NodeS("call_function", "f", args[:1] if kwpos else args, {"k": args[1]} if kwpos else {}, val=mine, name="node")
                got = Interp([PATH], {}).call(M()._storage_operand, [node], {})
                if not found:
                    return [("no such operand: the node is a storage boundary", got is None)]
                return [("an operand with the same storage and element type", any(got is x for x in found))]

            o.prove(run, tag=f"{sh}: ")

    def nometa(c):
        node = NodeS("call_function", "f", [], {}, val=None)
        Interp([PATH], {}).call(M()._storage_operand, [node], {})
        return [("a tensor node without metadata is rejected", False)]

    o.prove(nometa, raises=lambda e: [("a tensor node without metadata is rejected", isinstance(e, ValueError))])
    return o


def base_walk(t):
    """_base: follows storage operands to the end, any chain length up to the bound"""
    o = Oblig("_base: the boundary of the chain of storage operands", bounded="chains of at most 6 views")
    for n in range(7):

        def run(c):
            chain = [NodeS("call_function", "v", name=f"v{i}") for i in range(n + 1)]
            con = {}
            contract_for(con, "_storage_operand", lambda it, a, k: chain[chain.index(a[0]) + 1] if chain.index(a[0]) < n else None)
            return [("the end of the chain", Interp([PATH], con).call(M()._base, [chain[0]], {}) is chain[n])]

        o.prove(run, tag=f"{n} views: ")
    return o


def constant_node(t):
    """_constant: a fresh buffer that holds the tensor, read just before the request"""
    o = Oblig("_constant: a fresh buffer holding the index tensor")
    base = "_torch_mlir_as_strided_node_"
    for i in (0, 1, 7):
        for taken in ((), (f"{base}index_{i}",), (f"{base}index_{i}", f"{base}index_{i}_"), ("unrelated",)):

            def run(c):
                gm = ModuleS(**{x: "theirs" for x in taken})
                g = GraphS(gm)
                node = NodeS("call_function", "t", name="node", graph=g)
                T = object()
                r = Interp([PATH], {}).call(M()._constant, [g, node, i, T], {})
                return [
                    ("one new buffer holding the tensor", len(gm._reg) == 1 and list(gm._reg.values())[0] is T),
                    ("no existing attribute is replaced", all(getattr(gm, x) == "theirs" for x in taken)),
                    ("read by the node returned", r.op == "get_attr" and r.target in gm._reg and r.meta.get("val") is T),
                    ("inserted before the request", g.log == [(node, r)]),
                ]

            o.prove(run, tag=f"index {i}, taken {len(taken)}: ")

    def orphan(c):
        g = GraphS(None)
        Interp([PATH], {}).call(M()._constant, [g, NodeS("call_function", "t", name="node", graph=g), 0, object()], {})
        return [("a graph without a module is rejected", False)]

    o.prove(orphan, raises=lambda e: [("a graph without a module is rejected", isinstance(e, ValueError))])
    return o


def whole_graph(t):
    """rewrite_as_strided: every request is replaced, in place and under its name"""
    import torch
    import torch.fx as fx

    o = Oblig("rewrite_as_strided: every request is replaced where it is used, under its name", bounded="chains of at most 4 operators")
    AS, other = torch.ops.aten.as_strided.default, torch.ops.aten.neg.default
    for n in range(5):
        for ops in itertools.product((AS, other), repeat=n):
            for used in itertools.product((False, True), repeat=n):
                if n == 4 and not all(used):
                    continue

                def run(c):
                    gm = fx.GraphModule(torch.nn.Module(), fx.Graph())
                    g = gm.graph
                    x = g.placeholder("x")
                    cur, outs, nodes = x, [], []
                    for i, op in enumerate(ops):
                        nd = g.call_function(op, (cur, [2], [1]) if op is AS else (cur,), name=f"node_{i}") if False else g.call_function(op, (cur, [2], [1]) if op is AS else (cur,))
                        nd.meta["val"] = f"m{i}"
                        nodes.append(nd)
                        if used[i]:
                            outs.append(nd)
                        cur = nd
                    g.output(tuple(outs))
                    names = [nd.name for nd in nodes]
                    seen = []

                    def repl(it, a, k):
                        gg, node = a
                        seen.append(node)
                        # the producers of a request must still be there to be traced
                        src = node.args[0]
                        c.ok = getattr(c, "ok", True) and (src is x or src.target in (AS, other)) and src in list(gg.nodes)
                        with gg.inserting_before(node):
                            return gg.call_function(torch.ops.aten.abs.default, (node.args[0],))

                    con = contract_for({}, "_rewrite", repl)
                    changed = Interp([PATH], con).call(M().rewrite_as_strided, [g], {})
                    left = [nd for nd in g.nodes if nd.op == "call_function"]
                    live = [i for i in range(n) if any(used[i:])]
                    want = [(names[i], torch.ops.aten.abs.default if ops[i] is AS else other) for i in live] if AS in ops else [(names[i], other) for i in range(n)]
                    got = [(nd.name, nd.target) for nd in left]
                    out_args = [a for a in list(g.nodes)[-1].args[0]]
                    wired = [nd.args[0].name for nd in left] == (["x"] + [w[0] for w in want[:-1]] if want else [])
                    return [
                        ("says whether it changed the graph", changed is (AS in ops)),
                        ("requests replaced, other operators kept, names kept", got == want),
                        ("uses point at the replacements", wired),
                        ("results keep their names", [a.name for a in out_args] == [names[i] for i in range(n) if used[i]]),
                        ("users are rewritten while their producers are there", getattr(c, "ok", True)),
                    ]

                o.prove(run, tag=f"{''.join('S' if q is AS else 'o' for q in ops)}/{''.join('u' if u else '-' for u in used)}: ")
    return o


# ---------------------------------------------------------------- concrete search
def programs(rng, n):
    """operators applied to real tensors, ending in as_strided requests"""
    import torch

    A = torch.ops.aten
    starts = [
        lambda: torch.arange(24.0).reshape(2, 3, 4),
        lambda: torch.arange(40.0).reshape(2, 1, 4, 5).to(memory_format=torch.channels_last),
        lambda: torch.arange(24.0).reshape(2, 3, 4).permute(2, 0, 1),
        lambda: torch.arange(12.0)[2:],
        lambda: torch.tensor(3.0),
        lambda: torch.arange(10.0).reshape(10, 1).t(),
        lambda: torch.arange(12.0).reshape(3, 4).to(torch.complex64) * (1 + 2j),
        lambda: torch.arange(6.0).reshape(2, 3)[:, 1:],
        lambda: torch.arange(3.0).reshape(3, 1).expand(3, 4),
    ]
    views = [
        lambda x: (A.transpose.int, (x, 0, -1)) if x.dim() > 1 else None,
        lambda x: (A.slice.Tensor, (x, 0, 1, 100)) if x.dim() and x.shape[0] > 1 else None,
        lambda x: (A.select.int, (x, 0, x.shape[0] - 1)) if x.dim() else None,
        lambda x: (A.unsqueeze.default, (x, 0)),
        lambda x: (A.view_as_real.default, (x,)) if x.is_complex() and not x.is_conj() else None,
        lambda x: (A._conj.default, (x,)) if x.is_complex() else None,
        lambda x: (A.view.dtype, (x, torch.int32)) if x.dtype == torch.float32 else None,
        lambda x: (A.clone.default, (x,)),
        lambda x: (A.add.Tensor, (x, 1)),
        lambda x: (A.as_strided.default, (x, [2], [1])),
    ]
    for _ in range(n):
        x = rng.choice(starts)()
        steps = []
        for _ in range(rng.randrange(4)):
            steps.append(rng.choice(views))
        r = rng.randrange(3)
        size = [rng.randrange(0 if rng.random() < 0.1 else 1, 4) for _ in range(r)]
        stride = [rng.randrange(0, 5) for _ in range(r)]
        yield x, steps, size, stride, rng.choice([None, 0, 1, 2, 5, "kw", "missing"])


def build(x, steps, size, stride, off):
    import torch
    import torch.fx as fx

    gm = fx.GraphModule(torch.nn.Module(), fx.Graph())
    g = gm.graph
    n = g.placeholder("x")
    n.meta["val"] = x

    def call(target, args, kw={}):
        try:
            v = target(*[a.meta["val"] if isinstance(a, fx.Node) else a for a in args], **kw)
        except Exception:
            return None
        r = g.call_function(target, tuple(args), kw)
        r.meta["val"] = v
        return r

    for s in steps:
        o = s(n.meta["val"])
        if o is None:
            continue
        n2 = call(o[0], [n if isinstance(a, torch.Tensor) else a for a in o[1]])
        n = n2 if n2 is not None else n
    args, kw = [n, size, stride], {}
    if off == "kw":
        kw = {"storage_offset": 1}
    elif off != "missing":
        args.append(off)
    r = call(torch.ops.aten.as_strided.default, args, kw)
    if r is None:
        return None
    g.output((r,))
    return gm, r


def non_overlapping(v):
    d = sorted(((s, n) for s, n in zip(v.stride(), v.shape) if n != 1), reverse=True)
    return all(s > sum((n2 - 1) * s2 for s2, n2 in d[i + 1:]) for i, (s, n) in enumerate(d))


def search(seed=1, n=1500):
    import torch

    rng = random.Random(seed)
    for x, steps, size, stride, off in programs(rng, n):
        b = build(x, steps, size, stride, off)
        if b is None:
            continue
        gm, node = b
        want = node.meta["val"].resolve_conj().clone()
        name = node.name
        desc = {"graph": str(gm.graph), "input": f"shape {tuple(x.shape)} stride {x.stride()} dtype {x.dtype}"}
        dense = not steps and x.numel() and non_overlapping(x)
        lo = x.storage_offset()
        hi = lo + sum((a - 1) * s for a, s in zip(x.shape, x.stride()))
        elems = set()
        if dense:
            elems = {lo + sum(i * s for i, s in zip(p, x.stride())) for p in itertools.product(*[range(a) for a in x.shape])}
            o = x.storage_offset() if off in (None, "missing") else 1 if off == "kw" else off
            asked = {o + sum(i * s for i, s in zip(p, stride)) for p in itertools.product(*[range(a) for a in size])}
        try:
            changed = M().rewrite_as_strided(gm.graph)
            gm.recompile()
        except ValueError as e:
            if dense and asked <= elems:
                return {**desc, "expected": "accepted: every address is an element of the input", "code": repr(e)}
            continue
        except Exception as e:
            return {**desc, "expected": "rewritten, or rejected with ValueError", "code": repr(e)}
        outn = list(gm.graph.nodes)[-1].args[0][0]
        try:
            got = gm(x)[0]
        except Exception as e:
            return {**desc, "rewritten": str(gm.graph), "expected": want.tolist(), "code": repr(e)}
        got = got.resolve_conj()
        m = outn.meta.get("val")
        if not changed or any(k.target is torch.ops.aten.as_strided.default for k in gm.graph.nodes) or outn.name != name:
            return {**desc, "rewritten": str(gm.graph), "expected": f"the request replaced by a node named {name}"}
        if got.dtype != want.dtype or got.shape != want.shape or not torch.equal(torch.nan_to_num(got), torch.nan_to_num(want)):
            return {**desc, "rewritten": str(gm.graph), "expected": want.tolist(), "code": got.tolist()}
        if m is None or m.dtype != want.dtype or tuple(m.shape) != tuple(want.shape):
            return {**desc, "rewritten": str(gm.graph), "expected": f"metadata {want.dtype} {tuple(want.shape)}", "code": repr(m)}
    return None


def main(prop):
    ck = Check(prop)
    M(), __import__("torch")
    t = ck.thorough
    find = lambda: search(ck.seed, 6000 if t else 2500)
    st = {}
    for f in (
        digit_lemma,
        lambda t: indices_sound(sound_patterns(4 if t else 3, 3 if t else 2)),
        lambda t: indices_complete(complete_patterns(4 if t else 3, (1, 2, 3) if t else (2,))),
        rewrite_node,
        storage_operand,
        base_walk,
        constant_node,
        whole_graph,
    ):
        o, verdict = contract(ck, f, t, search=find)
        st[o.name] = (verdict, o.obl, o.done)
        ck.samples.append({"function": o.name, "obligations": o.obl, "status": st[o.name][0]})
    ck.cov["functions_under_contract"] = {k: {"status": v[0], "obligations": v[1], "discharged": v[2]} for k, v in st.items()}
    ck.assumptions += [
        "tensor operators (full, arange, zeros_like, div, reshape, broadcasting arithmetic, any) through pointwise contracts; int64 arithmetic without overflow",
        "the FX metadata describes the storage the exported program uses; graphs are functional (no in-place operator between base and request)",
        "aten.index with one full-rank integer index per dimension reads base[i0, i1, ...] elementwise; aten.expand of a scalar repeats it",
    ]
    ck.finish(f"/opt/venv/bin/python -W ignore checks/strided_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
