"""Prove one dtype function against its contract (or find a failing input)."""
import itertools
import os
import time

from pyvc import ctx as C, sval as S, inputs as I, loops as LO
from pyvc.interp import Interp
from specs import dsl, promotion as PR, dtypes
from specs.promotion import T, Num, DTYPES
from checks import shape_prover as P

z3 = C.z3
DT_PARAMS = {"dtype", "out_dtype", "output_dtype", "input_dtype", "dst_dtype"}
STR = {"rounding_mode": ["floor", "trunc"]}
SUFFIX = "_rank_dtype"


class DtInterp(Interp):
    """torch.dtype constants are their ScalarType codes, as in TorchScript"""

    def expr(self, e, fr):
        v = super().expr(e, fr)
        return PR.code_of(v) if type(v) is _dtype() else v


_D = []


def _dtype():
    if not _D:
        import torch

        _D.append(torch.dtype)
    return _D[0]


def generator_module():
    import importlib

    if P.EMBEDDED:
        return P.lib()
    return importlib.import_module("torch_mlir.jit_ir_importer.build_tools.library_generator")


def scalar_code(x):
    if isinstance(x, (bool, z3.BoolRef)):
        return PR.BOOL
    if isinstance(x, int) or (C.is_sym(x) and isinstance(x, z3.ArithRef) and x.is_int()):
        return PR.I64
    return PR.F64


def promote_contract(interp, a, k):
    ranks = k.get("ranks", a[0] if a else None)
    dts = k.get("dtypes", a[1] if len(a) > 1 else None)
    if not isinstance(ranks, list) or not isinstance(dts, list):
        raise C.Unsupported("promote_dtypes on lists of symbolic length")
    items = list(zip(ranks, dts))
    if not ranks or not dts:
        S.raise_py(IndexError, "promote_dtypes of nothing")
    if any(r is not None for r, d in items):
        for r, d in items:
            if r is None and not C.is_sym(d) and d not in (PR.I64, PR.F64):
                S.raise_py(ValueError, "Unhandled dtype")
    return PR.RESULT(items)


def contracts():
    g = generator_module()
    if P.EMBEDDED:
        return {id(g.result_type): promote_contract, id(g.number_dtype): lambda interp, a, k: scalar_code(a[0])}
    con = {
        id(g.get_dtype_of_scalar): lambda interp, a, k: scalar_code(a[0] if a else k["scalar"]),
        id(g.promote_dtypes): promote_contract,
    }
    import torch

    con[id(torch.jit.annotate)] = lambda interp, a, k: a[1]
    return con


def short(p):
    return p[: -len(SUFFIX)] if p.endswith(SUFFIX) else p


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


def spec_args(ps, args, name):
    """namespace of the contract's view of the arguments"""
    d = {}
    for (p, k, _), v in zip(ps, args):
        d[short(p)] = spec_val(v, k)
    return NS(d)


def spec_val(v, k):
    if isinstance(v, LO.OptVar):
        return v
    if v is None:
        return None
    if isinstance(k, tuple) and k[0] == "opt":
        return spec_val(v, k[1])
    if isinstance(k, tuple) and k[0] == "tuple":
        return T(v[0], v[1])
    if isinstance(k, tuple) and k[0] == "list" and isinstance(v, list):
        return [spec_val(x, k[1]) for x in v]
    if isinstance(k, tuple) and k[0] == "union":
        return Num(scalar_code(v))
    return v


def is_tensor_kind(k):
    return isinstance(k, tuple) and (k[0] == "tuple" or (k[0] in ("opt", "list") and is_tensor_kind(k[1])))


def has_union(k):
    return isinstance(k, tuple) and (k[0] == "union" or (k[0] == "opt" and has_union(k[1])))


def variants(ps):
    """discrete choices: None or not, int or float scalar, rounding mode"""
    axes = []
    for p, k, d in ps:
        ax = [()]
        if isinstance(k, tuple) and k[0] == "opt" and (is_tensor_kind(k) or p in DT_PARAMS or has_union(k) or k[1] in ("str",)):
            ax = [((p + "?", 0),), ((p + "?", 1),)]
        if has_union(k):
            ax = [x + ((p + "|", u),) for x in ax for u in (0, 1) if not (x and x[0][1] == 0 and u)]
        if k == "str" or k == ("opt", "str"):
            ax = [x + ((p, s),) for x in ax for s in STR.get(p, ["none"]) if not (x and x[0][1] == 0 and s != STR.get(p, ["none"])[0])]
        axes.append(ax)
    n = 1
    for a in axes:
        n *= len(a)
    if n > 64:
        # every axis against the all-first and all-last choice
        base = [a[0] for a in axes], [a[-1] for a in axes]
        out = []
        for b in base:
            out.append(b)
            for i, a in enumerate(axes):
                for x in a:
                    out.append(b[:i] + [x] + b[i + 1 :])
        combos = [sum(map(tuple, c), ()) for c in out]
        combos = list(dict.fromkeys(combos))
    else:
        combos = [sum(c, ()) for c in itertools.product(*axes)]
    for c in combos:
        yield dict(c)


class Prover:
    def __init__(self, name, spec=None, fn=None, budget_s=60, strict=None, opts=None):
        self.name = name
        self.fn = fn or P.fn_of(name, "dtype")
        self.spec = spec or dtypes.SPECS[name]
        self.opts = opts if opts is not None else dtypes.OPTS.get(name, {})
        self.dom = self.opts.get("dom", DTYPES)
        self.ps = I.params(self.fn)
        self.deadline = time.time() + budget_s
        self.obl = self.done = self.results = 0
        self.failed = []
        self.partial = False
        self.strict = strict
        self.labels = {}
        self.q_ms = 10000

    def dtype_var(self, nm):
        v = z3.Int(nm)
        C.cur().assume(z3.Or(*[v == d for d in self.dom]))
        return v

    def one(self, nm, k, ch):
        if isinstance(k, tuple) and k[0] == "opt":
            if nm + "?" in ch:
                return self.one(nm, k[1], ch) if ch[nm + "?"] else None
            if is_tensor_kind(k[1]):  # inside a list
                return None if C.cur().choose(2) else self.one(nm, k[1], ch)
            if k[1] == "any":
                return None
            return LO.OptVar(z3.Bool("isnone_" + nm), self.one(nm, k[1], ch))
        if isinstance(k, tuple) and k[0] == "tuple":
            r = z3.Int(nm + "!rank")
            C.cur().assume(r >= 0)
            return (r, self.dtype_var(nm + "!dtype"))
        if isinstance(k, tuple) and k[0] == "union":
            return z3.Real(nm) if ch.get(nm + "|") else z3.Int(nm)
        if isinstance(k, tuple) and k[0] == "list":
            if is_tensor_kind(k[1]):
                self.partial = True
                n = C.cur().choose(4)
                return [self.one(f"{nm}_{j}", k[1], ch) for j in range(n)]
            if k[1] in ("int", "float", "bool"):
                n = z3.Int("len_" + nm)
                C.cur().assume(n >= 0)
                so = {"int": z3.IntSort(), "float": z3.RealSort(), "bool": z3.BoolSort()}[k[1]]
                F = z3.Function(nm, z3.IntSort(), so)
                return S.SList(n, lambda i: F(S.zterm(i)), nm)
            return None
        if k == "int":
            return self.dtype_var(nm) if nm in DT_PARAMS else z3.Int(nm)
        if k == "bool":
            return z3.Bool(nm)
        if k == "float":
            return z3.Real(nm)
        if k == "str":
            return ch[nm]
        return None

    def prove(self):
        for ch in variants(self.ps):
            self.variant(ch)
        return self

    def variant(self, ch):
        it = DtInterp(P.files(), self.opts.get("contracts") or contracts())
        dsl.MODE.strict = self.strict

        def run(c):
            it.depth = 0
            args = [self.one(p, k, ch) for p, k, d in self.ps]
            c.args = args
            c.label = None
            want = None
            try:
                want = self.spec(spec_args(self.ps, args, self.name))
            except dsl.Invalid as e:
                c.label = e.label
            if self.strict is not None and c.label is None:
                raise C.PathInfeasible()
            got = it.call(self.fn, [copy_in(a) for a in args], {})
            return want, got

        for c, kind, v in C.explore(run, deadline=self.deadline, max_paths=4000):
            with C.active_ctx(c):
                if self.strict is not None:
                    lab = self.labels.setdefault(c.label, [0, 0])
                    lab[0] += 1
                    self.obl += 1
                    if kind == "raise":
                        self.done += 1
                    else:
                        lab[1] += 1
                        self.query(c, c.constraints(), f"rejects: {c.label}")
                    continue
                if kind == "raise":
                    self.obl += 1
                    self.query(c, c.constraints(), f"no exception on valid input ({type(v).__name__})")
                    continue
                self.results += 1
                self.compare(c, v[0], v[1], "result dtype")

    def query(self, c, q, label):
        r, m = C.check_sat(q, self.q_ms)
        if r == "unsat":
            self.done += 1
            return
        self.failed.append((label, r, model_args(m, c.args) if m is not None else None))

    def compare(self, c, want, got, where):
        if isinstance(want, (tuple, list)):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                self.obl += 1
                self.query(c, c.constraints(), f"{where}: {len(want)} results")
                return
            for i, (w, g) in enumerate(zip(want, got)):
                self.compare(c, w, g, f"{where} [{i}]")
            return
        self.obl += 1
        got = PR.code_of(got)
        if not isinstance(got, (int, z3.ExprRef)) or isinstance(got, bool):
            self.query(c, c.constraints(), f"{where} is a dtype")
            return
        g = S.eq(want, got)
        if g is True:
            self.done += 1
            return
        self.query(c, c.constraints() + ([] if g is False else [z3.Not(S.zterm(g))]), where)


def copy_in(v):
    if isinstance(v, S.SList):
        return v.copy()
    if isinstance(v, list):
        return [copy_in(x) for x in v]
    return v


def model_args(m, args):
    def val(v):
        if isinstance(v, LO.OptVar):
            return None if z3.is_true(m.eval(v.isnone, model_completion=True)) else val(v.val)
        if isinstance(v, S.SList):
            n = min(max(val(v.n), 0), 6)
            return [val(v.f(z3.IntVal(i))) for i in range(n)]
        if isinstance(v, tuple):
            return tuple(val(x) for x in v)
        if isinstance(v, list):
            return [val(x) for x in v]
        if C.is_sym(v):
            r = m.eval(v, model_completion=True)
            if z3.is_int_value(r):
                return r.as_long()
            if z3.is_rational_value(r):
                return float(r.as_fraction())
            if z3.is_true(r) or z3.is_false(r):
                return z3.is_true(r)
            return 0
        return v

    try:
        return [val(a) for a in args]
    except Exception:
        return None


# ---- concrete replay ---------------------------------------------------------
def run_spec(name, args):
    ps = I.params(P.fn_of(name, "dtype"))
    dsl.MODE.strict = None
    try:
        return "ok", norm(dtypes.SPECS[name](spec_args(ps, args, name)))
    except dsl.Invalid as e:
        return "invalid", e.label


def norm(r):
    if isinstance(r, (tuple, list)):
        return [norm(x) for x in r]
    return PR.code_of(r)


def real_args(args, ps):
    """codes -> torch.dtype where the python function is given dtypes"""
    if P.EMBEDDED:
        return args

    def conv(v, k):
        if v is None:
            return None
        if isinstance(k, tuple) and k[0] == "opt":
            return conv(v, k[1])
        if isinstance(k, tuple) and k[0] == "tuple":
            return (v[0], PR.torch_dtype(v[1]))
        if isinstance(k, tuple) and k[0] == "list":
            return [conv(x, k[1]) for x in v]
        return v

    return [
        (PR.torch_dtype(v) if p in DT_PARAMS and v is not None and k != "bool" else conv(v, k))
        for v, (p, k, d) in zip(args, ps)
    ]


def run_real(name, args):
    fn = P.fn_of(name, "dtype")
    try:
        return "ok", norm(fn(*real_args(args, I.params(fn))))
    except Exception as e:
        return "raise", repr(e)[:200]


def tens_of(o, out):
    from torch_mlir.jit_ir_importer.build_tools.testing_framework import TensorOfShape

    if isinstance(o, TensorOfShape):
        out.append(o)
    elif isinstance(o, (list, tuple)):
        for x in o:
            tens_of(x, out)
    return out


def flat_tensors(args, ps):
    out = []

    def go(v, k):
        if v is None:
            return
        if isinstance(k, tuple) and k[0] == "opt":
            return go(v, k[1])
        if isinstance(k, tuple) and k[0] == "tuple":
            out.append(v)
        elif isinstance(k, tuple) and k[0] == "list" and isinstance(v, list):
            for x in v:
                go(x, k[1])

    for v, (p, k, d) in zip(args, ps):
        go(v, k)
    return out


def run_op(name, args):
    """What the PyTorch operator gives for these dtypes, using one of the sample
    invocations with its dtypes (and, if the operator accepts it, ranks) replaced."""
    lib = P.lib()
    fn = P.fn_of(name, "dtype")
    ps = I.params(fn)
    from torch_mlir.jit_ir_importer.build_tools.testing_framework import TensorOfShape, Invocation
    import torch

    ns = name.split(".")
    try:
        op = getattr(getattr(getattr(torch.ops, ns[0]), ns[1]), ".".join(ns[2:]) or "default")
    except Exception:
        return None
    want = flat_tensors(args, ps)
    last = None
    seen = 0
    for inv in lib._pyvc_invocations.get(fn.__name__, []):
        ts = tens_of(inv.args, [])
        if len(ts) != len(want):
            continue
        # non-tensor arguments of the input, where they have the same kind
        a2 = list(inv.args)
        kw = dict(inv.kwargs)
        names = [p for p, k, d in ps]
        ok = True
        for i, (p, k, d) in enumerate(ps):
            if is_tensor_kind(k):
                continue
            v = args[i]
            cur_v = a2[i] if i < len(a2) else kw.get(p, d)
            if p in DT_PARAMS:
                v = PR.torch_dtype(v) if v is not None else None
            elif isinstance(k, tuple) and k[0] == "union" or k in ("bool", "str", ("opt", "str")) or has_union(k):
                if isinstance(v, float) and isinstance(cur_v, float):
                    v = cur_v  # keep the sample's value, the kind matters
                elif isinstance(v, int) and not isinstance(v, bool) and isinstance(cur_v, int):
                    v = cur_v
            else:
                continue
            if i < len(a2):
                a2[i] = v
            else:
                kw[p] = v
        seen += 1
        if seen > 40:
            break
        for keep_shape in (False, True):
            m = {}
            for t, (r, d) in zip(ts, want):
                shp = t.shape
                if not keep_shape and len(shp) != r:
                    shp = shp[-r:] if r <= len(shp) and r > 0 else [1] * (min(r, 8) - len(shp)) + shp if r > 0 else []
                m[id(t)] = TensorOfShape(*shp, dtype=PR.torch_dtype(d), device=t.device)
            if keep_shape and any((len(t.shape) == 0) != (r == 0) for t, (r, d) in zip(ts, want)):
                continue
            for dev in (None, "cpu"):
                def sub(o):
                    if isinstance(o, TensorOfShape):
                        x = m[id(o)]
                        return x if dev is None else TensorOfShape(*x.shape, dtype=x.dtype, device=dev)
                    if isinstance(o, (list, tuple)):
                        return type(o)(sub(x) for x in o)
                    return o

                J = Invocation(*sub(a2), **kw)
                try:
                    r = op(*J.to_real_op_args(), **kw)
                except Exception as e:
                    last = ("raise", repr(e)[:160])
                    continue
                if isinstance(r, (tuple, list)):
                    return "ok", [res_code(x) for x in r]
                return "ok", res_code(r)
    return last


def res_code(x):
    return PR.code_of(
        {int: PR.I64, float: PR.F64, bool: PR.BOOL}.get(type(x), getattr(x, "dtype", None))
    )


def confirm(name, args):
    st, want = run_spec(name, args)
    if st != "ok":
        return None
    rst, got = run_real(name, args)
    if rst == "ok" and got == want:
        return None
    op = None
    try:
        op = run_op(name, args)
    except Exception:
        pass
    if op is not None and op[0] == "ok" and rst == "ok" and op[1] == got:
        return None
    return {"function": name, "args": args, "contract_result": want, "code": [rst, got], "pytorch": op}


def agreed(name, args):
    """PyTorch gives the dtype the code gives on this input"""
    if args is None:
        return False
    try:
        rst, got = run_real(name, args)
        op = run_op(name, args)
    except Exception:
        return False
    return rst == "ok" and op is not None and op[0] == "ok" and op[1] == got


def confirm_reject(name, args, label):
    st, lab = run_spec(name, args)
    if st != "invalid" or lab.startswith(("pre:", "known:")):
        return None
    rst, got = run_real(name, args)
    if rst == "raise":
        return None
    op = None
    try:
        op = run_op(name, args)
    except Exception:
        pass
    if op is not None and op[0] == "ok":
        return None
    return {"function": name, "args": args, "contract": f"must reject: {label}", "code": [rst, got], "pytorch": op}


def from_json(args):
    """tensor arguments are [rank, dtype] pairs there"""
    return [tuple(a["t"]) if isinstance(a, dict) else [from_json([x])[0] for x in a] if isinstance(a, list) else a for a in args]


def search(name, strict, budget_s=10, seed=1):
    """the contract evaluated against the real function on random dtypes and ranks"""
    import random

    rng = random.Random(seed)
    ps = I.params(P.fn_of(name, "dtype"))
    chs = list(variants(ps))
    n, t0 = 0, time.time()

    def gen(p, k, ch):
        if isinstance(k, tuple) and k[0] == "opt":
            if p + "?" in ch:
                return gen(p, k[1], ch) if ch[p + "?"] else None
            return gen(p, k[1], ch) if k[1] != "any" and rng.random() < 0.5 else None
        if isinstance(k, tuple) and k[0] == "tuple":
            return (rng.randrange(5), rng.choice(DTYPES))
        if isinstance(k, tuple) and k[0] == "union":
            return 1.0 if ch.get(p + "|") else 1
        if isinstance(k, tuple) and k[0] == "list":
            return [gen(p, k[1], ch) for _ in range(rng.randrange(4))]
        if k == "int":
            return rng.choice(DTYPES) if p in DT_PARAMS else rng.randrange(-2, 4)
        if k == "bool":
            return rng.random() < 0.5
        return {"float": 0.5, "str": ch.get(p, "none")}.get(k)

    while n < 4000 and time.time() - t0 < budget_s:
        ch = rng.choice(chs)
        args = [gen(p, k, ch) for p, k, d in ps]
        n += 1
        try:
            r = confirm_reject(name, args, "search") if strict else confirm(name, args)
        except Exception:
            continue
        if r:
            return {**r, "obligation": "contract", "verifier": "contract evaluated on a concrete input"}, n
    return None, n
