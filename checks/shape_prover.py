"""Prove one shape function against its contract (or find a failing input)."""
import dis
import itertools
import os
import random
import re
import sys
import time
import warnings

warnings.filterwarnings("ignore")
sys.setrecursionlimit(8000)

from pyvc import load, ctx as C, sval as S, inputs as I, loops as LO
from pyvc.interp import Interp, Opaque
from pyvc.sval import SList
from specs import dsl
from specs import shapes

z3 = C.z3
_LIB = None
MAX_TENSORS = 3
EMBEDDED = False  # the functions the compiler embeds, instead of those they were generated from

LAZY = {
    "dtype", "layout", "device", "pin_memory", "memory_format", "generator",
    "output_dtype", "out_dtype",
}
STRINGS = {"padding": ["same", "valid"]}


def lib():
    global _LIB
    if _LIB is None:
        if EMBEDDED:
            from pyvc import embedded

            _LIB = embedded.shape_lib()
        else:
            _LIB = load.shape_lib()
        import torch  # noqa: F401

        try:
            import torchvision  # noqa: F401  registers its operators
        except Exception:
            pass
        from pyvc.interp import SRC

        for f in files():
            SRC.load(f)
        import gc

        gc.collect()
        gc.freeze()
    return _LIB


def files():
    l = lib()
    return [
        l.__file__,
        load.PT1 + "/torch_mlir/jit_ir_importer/build_tools/library_generator.py",
        l.upstream_shape_functions.__file__,
    ]


def fn_of(name, suffix="shape"):
    l = lib()
    return getattr(l, name.replace(".", "〇") + "〡" + suffix, None)


def schema(n):
    import torch

    p = n.split(".")
    try:
        o = getattr(getattr(torch.ops, p[0]), p[1])
        return getattr(o, ".".join(p[2:]) or "default")._schema
    except Exception:
        return None


NO_SCHEMA_TENSORS = {
    "aten.bernoulli.float": {"self"},
    "onnx.rotary_embedding": {"input", "position_ids", "cos_cache", "sin_cache"},
    "quantized_decomposed.quantize_per_tensor": {"input"},
    "quantized_decomposed.dequantize_per_tensor": {"input"},
    "quantized_decomposed.quantize_per_channel": {"input", "scales", "zero_points"},
    "quantized_decomposed.dequantize_per_channel": {"input", "scales", "zero_points"},
}


def tensor_params(name, ps):
    s = schema(name)
    if s is None:
        return NO_SCHEMA_TENSORS.get(name, set())
    out = set()
    for (p, k, d), a in zip(ps, s.arguments):
        if "Tensor" in str(a.type):
            out.add(p)
    return out


def variants(name, ps):
    opts = [p for p, k, d in ps if isinstance(k, tuple) and k[0] == "opt" and p not in LAZY]
    if len(opts) > 5:
        combos = [(0,) * len(opts), (1,) * len(opts)]
        for i in range(len(opts)):
            combos.append(tuple(int(j == i) for j in range(len(opts))))
            combos.append(tuple(int(j != i) for j in range(len(opts))))
        combos = list(dict.fromkeys(combos))
    else:
        combos = list(itertools.product([0, 1], repeat=len(opts)))
    strs = [p for p, k, d in ps if k == "str"]
    svals = [STRINGS.get(p, ["none"]) for p in strs]
    for c in combos:
        for sv in itertools.product(*svals):
            ch = {o + "?": v for o, v in zip(opts, c)}
            ch.update(dict(zip(strs, sv)))
            for p, k, d in ps:
                if k == ("opt", "str"):
                    ch[p] = "none"
            yield ch


def list_kinds(k):
    """'L' flat int list, 'LL' list of lists, 'F' float list ..."""
    if isinstance(k, tuple) and k[0] == "opt":
        return list_kinds(k[1])
    if isinstance(k, tuple) and k[0] == "list":
        if k[1] == "int":
            return "L"
        if k[1] in ("float", "bool"):
            return "S"
        if k[1] == ("list", "int"):
            return "LL"
        if k[1] == ("opt", ("list", "int")):
            return "LO"
    return None


class Inputs:
    """Fresh symbolic arguments. bound=None: lists of any length."""

    def __init__(self, name, ps, choice, tens, bound):
        self.name, self.ps, self.choice, self.tens, self.bound = name, ps, choice, tens, bound
        self.vals = {}
        self.partial = False

    def flat(self, nm, ek, is_tensor):
        n = z3.Int("len_" + nm)
        C.cur().assume(n >= 0)
        if EMBEDDED:  # lists are the machine's; `enumerate` became range(min([2**63 - 1, n]))
            C.cur().assume(n <= 2**63 - 1)
        if self.bound is not None:
            C.cur().assume(n <= min(self.bound, shapes.OPTS.get(self.name, {}).get("maxlen", {}).get(nm, 99)))
        if ek == "int":
            F = z3.Function(nm, z3.IntSort(), z3.IntSort())
            if is_tensor:
                i = z3.Int("i!" + nm)
                C.cur().assume(z3.ForAll([i], F(i) >= 0, patterns=[F(i)]))
        elif ek == "float":
            F = z3.Function(nm, z3.IntSort(), z3.RealSort())
        else:
            F = z3.Function(nm, z3.IntSort(), z3.BoolSort())
        return SList(n, lambda i: F(S.zterm(i)), nm)

    def unused(self, nm):
        """neither the function nor its contract looks at the parameter"""
        for f in (fn_of(self.name), shapes.SPECS.get(self.name)):
            c = getattr(getattr(f, "__wrapped__", f), "__code__", None)
            if c is None:
                return False
            pos = [p for p, k, d in self.ps].index(nm)
            if pos >= c.co_argcount:
                return False
            var = c.co_varnames[pos]
            if var in c.co_cellvars or any(i.argval == var or isinstance(i.argval, tuple) and var in i.argval for i in dis.get_instructions(c)):
                return False
        return True

    def one(self, nm, k, is_tensor):
        if isinstance(k, tuple) and k[0] == "opt":
            if nm in LAZY:
                v = LO.OptVar(z3.Bool("isnone_" + nm), self.one(nm, k[1], is_tensor))
                return v
            if not self.choice.get(nm + "?"):
                return None
            return self.one(nm, k[1], is_tensor)
        if isinstance(k, tuple) and k[0] == "list":
            kind = list_kinds(k)
            if kind in ("L", "S"):
                return self.flat(nm, k[1], is_tensor)
            if kind in ("LL", "LO") and self.unused(nm):
                return SList(z3.Int("len_" + nm), lambda i: Opaque("a list that is not looked at"))
            if kind in ("LL", "LO"):
                self.partial = True  # bounded: at most three tensors in a list
                n = C.cur().choose(MAX_TENSORS + 1)
                out = []
                for j in range(n):
                    if kind == "LO" and C.cur().choose(2):
                        out.append(None)
                        continue
                    out.append(self.flat(f"{nm}_{j}", "int", True))
                return out
        if isinstance(k, tuple) and k[0] == "union":
            return self.one(nm, "float" if "float" in k else k[1], is_tensor)
        if k == "int":
            return z3.Int(nm)
        if k == "bool":
            return z3.Bool(nm)
        if k == "float":
            return z3.Real(nm)
        if k == "str":
            return self.choice[nm]
        if k == "any":
            return None
        raise C.Unsupported(f"parameter kind {k}")

    def make(self):
        out = []
        for p, k, d in self.ps:
            v = self.one(p, k, p in self.tens)
            self.vals[p] = v
            out.append(v)
        return out


def copy_in(v):
    if isinstance(v, SList):
        return v.copy()
    if isinstance(v, list):
        return [copy_in(x) for x in v]
    return v


def spec_in(v):
    if isinstance(v, LO.OptVar):
        return v
    return copy_in(v)


def concretize(v):
    """symbolic-length list -> python list, forking on its length"""
    if isinstance(v, SList):
        u = C.unique_value(C.cur(), v.n)
        if u is None:
            u = 0
            while not C.cur().branch(S.zterm(v.n) == u):
                u += 1
                if u > 12:
                    raise C.Unsupported("length not bounded")
        return [v.f(i) for i in range(u)]
    if isinstance(v, list):
        return [concretize(x) for x in v]
    return v


def deslist(v):
    return v


# ---- model -> concrete arguments -------------------------------------------
def model_args(model, vals, ps, maxlen=10):
    ev = lambda t: model.eval(t, model_completion=True)

    def num(t):
        if not C.is_sym(t):
            return t
        r = ev(t)
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_rational_value(r):
            return float(r.as_fraction())
        if z3.is_algebraic_value(r):
            return float(r.approx(10).as_fraction())
        if z3.is_true(r) or z3.is_false(r):
            return z3.is_true(r)
        raise ValueError("no value")

    def val(v):
        if isinstance(v, LO.OptVar):
            return None if num(v.isnone) else val(v.val)
        if isinstance(v, SList):
            n = num(v.n)
            if n > maxlen or n < 0:
                raise ValueError("list too long to replay")
            return [num(v.f(z3.IntVal(i))) for i in range(n)]
        if isinstance(v, list):
            return [val(x) for x in v]
        return num(v)

    return [val(vals[p]) for p, k, d in ps]


# ---- concrete evaluation ----------------------------------------------------
def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def run_spec(name, args, strict=False):
    """('ok', result) | ('invalid', label)"""
    import copy

    dsl.MODE.strict = None
    try:
        r = shapes.SPECS[name](*copy.deepcopy(args))
        return "ok", plain(r)
    except dsl.Invalid as e:
        return "invalid", e.label
    except (S.PyRaise if hasattr(S, "PyRaise") else C.PyRaise) as e:
        return "invalid", "error " + repr(e)


def run_real(name, args, suffix="shape"):
    import copy

    f = fn_of(name, suffix)
    try:
        return "ok", plain(f(*copy.deepcopy(args)))
    except Exception as e:
        return "raise", repr(e)[:200]


def op_args(name, ps, args, dt, device):
    import torch

    s = schema(name)
    if s is None:
        return None

    def T(shape):
        if device == "meta":
            return torch.empty(shape, dtype=dt, device="meta")
        if dt.is_floating_point or dt.is_complex:
            return torch.zeros(shape, dtype=dt)
        return torch.zeros(shape, dtype=dt)

    pos, kw = [], {}
    for (p, k, d), v, a in zip(ps, args, s.arguments):
        t = str(a.type)
        if v is None:
            x = None
        elif "List[Optional[Tensor]]" in t or "List[Tensor]" in t:
            x = [None if q is None else (torch.zeros(q, dtype=torch.long, device=device) if p == "indices" else T(q)) for q in v]
        elif "Tensor" in t:
            if p in ("indices", "index", "target", "mask", "condition") and name not in ("aten.mse_loss", "aten.l1_loss", "aten.kl_div"):
                x = torch.zeros(v, dtype=torch.bool if p in ("mask", "condition") else torch.long, device=device)
            else:
                x = T(v)
        elif p in LAZY:
            x = None
        elif "Generator" in t:
            x = None
        else:
            x = v
        if p in LAZY and x is None and "Optional" not in t:
            if p in ("dtype", "out_dtype"):
                x = torch.float32
            else:
                return None
        if a.kwarg_only:
            if x is not None or "Optional" in t:
                kw[a.name] = x
        else:
            pos.append(x)
    return pos, kw


def run_op(name, ps, args):
    """('ok', shapes) | ('raise', msg) | None (cannot execute here)"""
    import torch

    s = schema(name)
    if s is None:
        return None
    p = name.split(".")
    op = getattr(getattr(getattr(torch.ops, p[0]), p[1]), ".".join(p[2:]) or "default")
    last = None
    devs = ["meta", "cpu"]
    tot = 1
    for dt in (torch.float32, torch.int64, torch.bool, torch.complex64):
        for dev in devs:
            try:
                pk = op_args(name, ps, args, dt, dev)
                if pk is None:
                    return None
                r = op(*pk[0], **pk[1])
            except NotImplementedError as e:
                last = ("raise", repr(e)[:200])
                continue
            except Exception as e:
                last = ("raise", repr(e)[:300])
                continue

            def sh(x):
                if isinstance(x, torch.Tensor):
                    return list(x.shape)
                if isinstance(x, (list, tuple)):
                    return [sh(y) for y in x]
                return None

            return "ok", sh(r)
    return last


def confirm(name, ps, args):
    """Replay one input on the real code. None, or a dict describing the failure."""
    st, want = run_spec(name, args)
    if st != "ok":
        return None
    rst, got = run_real(name, args)
    if shapes.OPTS[name].get("first_only") and rst == "ok":
        got = got[0]
    if rst == "ok" and got == want:
        return None
    op = None
    try:
        op = run_op(name, ps, args)
    except Exception as e:
        op = None
    if op is not None and op[0] == "ok" and rst == "ok":
        o = op[1]
        if shapes.OPTS[name].get("first_only"):
            o = o[0]
        if o == got:
            return None  # PyTorch agrees with the code
    if op is not None and op[0] == "raise" and rst == "raise":
        return None  # PyTorch rejects this input as well
    return {
        "function": name,
        "args": args,
        "contract_result": want,
        "code": [rst, got],
        "pytorch": op,
    }


def confirm_reject(name, ps, args, label):
    st, lab = run_spec(name, args)
    if st != "invalid" or lab.startswith(("pre:", "known:")):
        return None
    rst, got = run_real(name, args)
    if rst == "raise":
        return None
    op = None
    try:
        op = run_op(name, ps, args)
    except Exception:
        pass
    if op is not None and op[0] == "ok":
        return None  # PyTorch accepts it
    return {
        "function": name,
        "args": args,
        "contract": f"must reject: {label}",
        "code": [rst, got],
        "pytorch": op,
    }


# ---- the obligations ----------------------------------------------------------
def fold_lemmas(terms):
    """congruence and emptiness lemmas for the opaque folds in `terms`"""
    names = set()
    for t in terms:
        if C.is_sym(t):
            names |= {c for c in LO.consts_of(t) if c in LO.FOLDS}
    fs = [LO.FOLDS[n] for n in sorted(names)]
    out = []
    grew = True
    i = z3.Int("i!lem")
    for f in fs:
        one = 1 if f.kind == "prod" else 0
        out.append(z3.Implies(S.zterm(f.n) <= 0, f.term == one))
        e0 = S.zterm(S.to_arith(f.f(z3.IntVal(0))))
        out.append(z3.Implies(S.zterm(f.n) == 1, f.term == e0))
        if f.kind == "prod":
            e = S.zterm(S.to_arith(f.f(i)))
            out.append(
                z3.Or(
                    z3.Exists([i], z3.And(0 <= i, i < S.zterm(f.n), e < 0)),
                    f.term >= 0,
                )
            )
    for a, b in itertools.combinations(fs, 2):
        if a.kind != b.kind:
            continue
        ea, eb = S.zterm(S.to_arith(a.f(i))), S.zterm(S.to_arith(b.f(i)))
        # skolemised: either the folds agree or some in-range element differs
        w = z3.Int(f"w!{a.term}!{b.term}")
        ea = z3.substitute(ea, (i, w))
        eb = z3.substitute(eb, (i, w))
        out.append(
            z3.Or(
                a.term == b.term,
                S.zterm(a.n) != S.zterm(b.n),
                z3.And(0 <= w, w < S.zterm(a.n), ea != eb),
            )
        )
    return out


def calls_helper(fn):
    """TorchScript inlines the helper in some of the functions the compiler embeds"""
    if not EMBEDDED:
        return True
    seen, todo = set(), [fn]
    g = vars(lib())
    while todo:
        f = todo.pop()
        if f.__name__ == "up_pooling_output_shape":
            return True
        for n in f.__code__.co_names:
            x = g.get(n)
            if getattr(x, "_embedded", None) and n not in seen:
                seen.add(n)
                todo.append(x)
    return False


class Prover:
    def __init__(self, name, mode, spec=None, fn=None, suffix="shape", bound=4, budget_s=20, strict=None):
        self.name, self.mode = name, mode
        self.fn = fn or fn_of(name, suffix)
        self.spec = spec or shapes.SPECS[name]
        self.first_only = shapes.OPTS.get(name, {}).get("first_only")
        self.bound = bound if mode == "bounded" else None
        self.ps = I.params(self.fn)
        self.tens = tensor_params(name, self.ps)
        self.deadline = time.time() + budget_s
        self.strict = strict
        self.obl = 0
        self.done = 0
        self.failed = []  # (label, 'sat'|'unknown', args or None)
        self.q_ms = 8000
        self.labels = {}  # strict label -> [paths, failed]
        self.wrap = None
        self.results = 0  # paths on which a result was compared
        self.partial = False  # some input dimension was bounded

    def interp(self):
        con = {}
        try:
            import torch

            con[id(torch.jit.annotate)] = lambda interp, a, k: a[1]
        except Exception:
            pass
        u = getattr(lib(), "upstream_shape_functions", None)
        pos = getattr(u, "pooling_output_shape", None)
        if pos is not None and self.fn is not pos and HELPERS.get("pooling_output_shape"):
            con[id(pos)] = _pool_contract
        return Interp(files(), con, unroll=(None if self.bound is None else 40))

    def prove(self):
        """Obligations of every variant. The pooled-size helper is first kept opaque
        (callers only need its contract as a function of its arguments); where that
        does not suffice its definition is unfolded."""
        if self.mode == "unbounded" and HELPERS.get("pooling_output_shape") and self.wrap is None and calls_helper(self.fn):
            t = dict(obl=self.obl, done=self.done, failed=list(self.failed), labels={k: list(v) for k, v in self.labels.items()})
            shapes.OPAQUE_POOL[0] = True
            try:
                self._prove()
                if self.obl == self.done:
                    return self
            except (C.Unsupported, C.Budget):
                if time.time() > self.deadline:
                    self.__dict__.update(t)  # with the helper opaque a failure says nothing
                    raise
            finally:
                shapes.OPAQUE_POOL[0] = False
            self.__dict__.update(t)
        return self._prove()

    def _prove(self):
        for ch in variants(self.name, self.ps):
            self.variant(ch)
        return self

    def variant(self, ch):
        it = self.interp()
        self.it = it
        dsl.MODE.strict = self.strict

        def run(c):
            it.depth = 0
            inp = Inputs(self.name, self.ps, ch, self.tens, self.bound)
            args = inp.make()
            self.partial |= inp.partial
            c.vals = inp.vals
            c.label = None
            try:
                if self.bound is not None and not shapes.OPTS.get(self.name, {}).get("concrete"):
                    saved = dsl.MODE.strict
                    dsl.MODE.strict = None if self.strict is None else saved
                    self.spec(*[spec_in(a) for a in args])
            except dsl.Invalid as e:
                c.label = e.label
            if self.bound is not None:
                args = [concretize(a) for a in args]
                c.vals = dict(zip([p for p, k, d in self.ps], args))
            want = None
            if c.label is None:
                try:
                    want = self.spec(*[spec_in(a) for a in args])
                except dsl.Invalid as e:
                    c.label = e.label
            if c.label is not None and self.strict is not None:
                pass
            elif self.strict is not None:
                raise C.PathInfeasible()
            nd = len(c.pc)
            c.nspec = nd
            got = it.call(self.fn, [copy_in(a) for a in args], {})
            return want, got

        for c, kind, v in C.explore(run, deadline=self.deadline, max_paths=3000 if self.bound is not None else 3000):
            with C.active_ctx(c):
                if self.strict is None:
                    if kind == "raise":
                        self.unreachable(c, f"no exception on valid input ({type(v).__name__})", ch)
                    else:
                        want, got = v
                        self.results += 1
                        if self.wrap:
                            got = self.wrap(got)
                        if self.first_only:
                            got = got[0] if isinstance(got, (tuple, list)) else got
                        self.compare(c, want, got, "result", ch)
                else:
                    lab = self.labels.setdefault(c.label, [0, 0])
                    if kind == "return":
                        ok = self.unreachable(c, f"rejects: {c.label}", ch)
                        if ok is not True:
                            lab[1] += 1
                        if ok is None:
                            lab.append("u")
                    else:
                        self.obl += 1
                        self.done += 1
                    lab[0] += 1

    def fail(self, c, label, how, model, ch, q=None):
        args = None
        if model is not None:
            try:
                args = model_args(model, c.vals, self.ps)
            except Exception as e:
                args = None
        if args is None and how == "sat" and q:
            small = [v.n <= 5 for v in c.vals.values() if isinstance(v, SList) and C.is_sym(v.n)]
            r, m = C.check_sat(q + small, self.q_ms)
            m = m or unknown_model(q + small)
            if m is not None:
                try:
                    args = model_args(m, c.vals, self.ps)
                except Exception:
                    args = None
        self.failed.append((label, how, args))

    def check(self, c, goal, label, ch):
        self.obl += 1
        if goal is True:
            self.done += 1
            return True
        goal = S.zterm(goal)
        cons = c.constraints()
        q = cons + [z3.Not(goal)]
        r, m = check_inst(q + fold_lemmas(q), self.q_ms)
        if r == "unsat":
            self.done += 1
            return True
        if r == "unknown":
            m = unknown_model(q)
        self.fail(c, label, r, m, ch, q)
        return False if r == "sat" else None

    def unreachable(self, c, label, ch):
        self.obl += 1
        q = c.constraints()
        r, m = check_inst(q + fold_lemmas(q), self.q_ms)
        if r == "unsat":
            self.done += 1
            return True
        if r == "unknown":
            m = unknown_model(q)
        self.fail(c, label, r, m, ch, q)
        return False if r == "sat" else None

    def compare(self, c, want, got, where, ch):
        if isinstance(want, tuple):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                self.obl += 1
                r, m = C.check_sat(c.constraints(), self.q_ms)
                self.fail(c, f"{where}: {len(want)} results", "sat", m, ch)
                return
            for i, (w, g) in enumerate(zip(want, got)):
                self.compare(c, w, g, f"{where}[{i}]", ch)
            return
        if isinstance(want, list) and want and isinstance(want[0], (list, SList)):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                self.obl += 1
                r, m = C.check_sat(c.constraints(), self.q_ms)
                self.fail(c, f"{where}: {len(want)} results", "sat", m, ch)
                return
            for i, (w, g) in enumerate(zip(want, got)):
                self.compare(c, w, g, f"{where}[{i}]", ch)
            return
        if not isinstance(got, (list, SList)):
            self.obl += 1
            r, m = C.check_sat(c.constraints(), self.q_ms)
            self.fail(c, f"{where} is a list", "sat", m, ch)
            return
        vw = getattr(want, "view", None)
        vg = getattr(got, "view", None)
        if vw and vg:
            _, n1, p1, f1 = vw
            _, n2, p2, f2 = vg
            k = z3.Int(c.fresh("idx"))
            rng = z3.And(0 <= k, k < S.zterm(n1))
            self.check(c, S.zeq(n1, n2), f"{where}: filtered range", ch)
            a, b = S.zterm(p1(k)), S.zterm(p2(k))
            self.check(c, z3.Implies(rng, a == b), f"{where}: kept dimensions", ch)
            self.check(c, z3.Implies(z3.And(rng, a), S.zterm(S.zeq(f1(k), f2(k)))), f"{where}: kept sizes", ch)
            return
        if vw or vg:
            # one side is a plain list: the filter keeps everything (sufficient)
            plain_, (_, n1, p1, f1) = (got, vw) if vw else (want, vg)
            k = z3.Int(c.fresh("idx"))
            rng = z3.And(0 <= k, k < S.zterm(n1))
            self.check(c, z3.Implies(rng, S.zterm(p1(k))), f"{where}: nothing dropped", ch)
            self.check(c, S.zeq(n1, S.length(plain_)), f"{where}: rank", ch)
            self.check(c, z3.Implies(rng, S.zterm(S.zeq(f1(k), S.at(plain_, k)))), f"{where}: sizes", ch)
            return
        nw, ng = S.length(want), S.length(got)
        ok = self.check(c, S.zeq(nw, ng), f"{where}: rank", ch)
        if ok is False and not C.is_sym(nw) and not C.is_sym(ng):
            return
        if not C.is_sym(nw):
            for i in range(nw):
                if C.is_sym(ng) or i < ng:
                    self.check(c, S.eq(S.at(want, i), S.at(got, i)), f"{where}: size {i}", ch)
            return
        k = z3.Int(c.fresh("idx"))
        c.assume(z3.And(0 <= k, k < S.zterm(nw)))
        if ok is not True:
            c.assume(k < S.zterm(ng))
        self.check(c, S.eq(S.at(want, k), S.at(got, k)), f"{where}: sizes", ch)


def check_inst(q, ms):
    """check_sat with a second attempt that instantiates the universal facts at the
    skolem constants (and their neighbours) when the solver gives up"""
    r, m = C.check_sat(q, ms)
    if r != "unknown":
        return r, m
    try:
        fs = instances(q)
    except z3.Z3Exception:
        return r, m
    if not fs:
        return r, m
    r2, m2 = C.check_sat(fs, ms)
    if r2 == "unsat":
        return r2, None
    return r, m


def instances(q, cap=400):
    g = z3.Goal()
    g.add(*q)
    fs = []
    for sub in z3.Then("simplify", "nnf")(g):
        fs += list(sub)
    consts = {}

    def leaves(t):
        todo, seen = [t], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
                continue
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(e):
                consts[str(e)] = e
            todo.extend(e.children())

    for f in fs:
        leaves(f)
    idx = [c for n, c in consts.items() if not n.startswith("len_")][:8]
    terms = [z3.IntVal(0)] + idx + [c - 1 for c in idx] + [c + 1 for c in idx]
    terms += [c - 1 for n, c in consts.items() if n.startswith("len_")][:4]
    out = list(fs)

    def inst(f, depth):
        if z3.is_and(f):
            for c in f.children():
                inst(c, depth)
            return
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort():
            for t in terms:
                if len(out) > cap:
                    return
                b = z3.simplify(z3.substitute_vars(f.body(), t))
                out.append(b)
                if depth:
                    inst(b, depth - 1)

    for f in fs:
        inst(f, 1)
    return out


def unknown_model(q):
    """a candidate model (replayed before use) when the solver gave up"""
    s = z3.Solver()
    s.set("timeout", 1500)
    for a in q:
        if not has_quant(a):
            s.add(a)
    if s.check() == z3.sat:
        return s.model()
    return None


def has_quant(t):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if z3.is_quantifier(e):
            return True
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        todo.extend(e.children())
    return False


# helper contracts, used at call sites once their own obligations are discharged
HELPERS = {}


def _pool_contract(interp, a, k):
    def c(inputSize, kernelSize, pad_l, stride, dilation, ceil_mode):
        if S.eq(stride, 0) if not C.is_sym(stride) else C.cur().branch(stride == 0):
            raise C.PyRaise(AssertionError("stride should not be zero"))
        return shapes.pool_out(inputSize, kernelSize, pad_l, stride, dilation, ceil_mode)

    return c(*a, **k)


def prove_helpers(budget_s=30):
    """obligations of the helper contracts; a failing one is not used by callers"""
    f = getattr(lib().upstream_shape_functions, "pooling_output_shape", None)
    if f is None:
        return 0, 0

    def spec_(I, k, p, s, d, c):
        dsl.REQ(dsl.NE(s, 0), "stride is not zero")
        return [shapes.pool_out(I, k, p, s, d, c)]

    HELPERS.pop("pooling_output_shape", None)
    real = f
    p = Prover("pooling_output_shape", "unbounded", spec=spec_, fn=real, budget_s=budget_s)
    p.wrap = lambda r: [r]
    obl = done = 0
    ok = True
    for strict in (None, lambda l: True):
        p.strict = strict
        try:
            p.prove()
        except (C.Unsupported, C.Budget):
            ok = False
        ok = ok and p.obl and p.obl == p.done
    HELPERS["pooling_output_shape"] = bool(ok)
    return p.obl, p.done


# ---- concrete search --------------------------------------------------------
LONG = [False]  # more tensors in a list than the proof covers


def rand_args(rng, ps, tens, choice, s):
    pool = rng.choice([[1, 2, 3], [0, 1, 2], [2, 3, 4, 5], [1], [4, 6, 8, 9], [2, 2, 3]])
    base = [rng.choice(pool) for _ in range(rng.randint(2, 7) if LONG[0] else rng.randint(0, 4))]
    types = {a.name: str(a.type) for a in s.arguments} if s else {}
    big = rng.random() < 0.3

    def shape():
        x = list(base)
        r = rng.random()
        if r < 0.25 and x:
            x = x[rng.randint(0, len(x)) :]
        elif r < 0.5 and x:
            x[rng.randrange(len(x))] = rng.choice([1] + pool)
        elif r < 0.7:
            x = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
        return x

    def ival():
        return rng.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3, 4, 5, 7])

    def one(p, k):
        if isinstance(k, tuple) and k[0] == "opt":
            if p in LAZY:
                return None
            if choice is not None and not choice.get(p + "?"):
                return None
            return one(p, k[1])
        if isinstance(k, tuple) and k[0] == "list":
            kd = list_kinds(k)
            if kd == "L":
                if p in tens:
                    return shape()
                if rng.random() < 0.3:
                    x = shape()
                    if rng.random() < 0.5 and x:
                        x[rng.randrange(len(x))] = -1
                    return x
                return [ival() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, len(base), max(0, len(base) - 2)]))]
            if kd == "S":
                return [rng.choice([0.5, 1.0, 2.0, 3.0]) if k[1] == "float" else rng.random() < 0.5 for _ in range(rng.choice([1, 2, 3]))]
            if kd == "LL":
                if LONG[0]:
                    near = rng.random() < 0.7
                    out = []
                    for _ in range(rng.randint(4, 6)):
                        x = list(base) if near else shape()
                        if near and x and rng.random() < 0.5:
                            x[rng.randrange(len(x)) if rng.random() < 0.3 else -1] = rng.choice([1] + pool)
                        out.append(x)
                    return out
                return [shape() for _ in range(rng.randint(0, 3))]
            if kd == "LO":
                if LONG[0]:
                    b = [rng.choice([1, 2, 3]) for _ in range(rng.randint(0, 3))]
                    return [
                        None if rng.random() < 0.4 else [1 if rng.random() < 0.2 else d for d in (b[rng.randint(0, len(b)) :] if rng.random() < 0.3 else b)]
                        for _ in range(rng.randint(4, 6))
                    ]
                return [shape() if rng.random() < 0.6 else None for _ in range(rng.randint(0, 4))]
        if k == "int":
            return ival()
        if k == "bool":
            return rng.random() < 0.5
        if k == "float" or isinstance(k, tuple):
            return rng.choice([0.0, 1.0, 2.0, -1.0, 0.5, 3.7, 7.0])
        if k == "str":
            return rng.choice(STRINGS.get(p, ["none"]))
        return None

    return [one(p, k) for p, k, d in ps]


def random_search(name, n=400, seed=1, budget_s=6, strict=None):
    """inputs on which the real code and the contract disagree"""
    f = fn_of(name)
    ps = I.params(f)
    tens = tensor_params(name, ps)
    s = schema(name)
    rng = random.Random(f"{seed}:{name}")
    chs = list(variants(name, ps))
    t0 = time.time()
    hits = tried = 0
    for _ in range(n * 20):
        if time.time() - t0 > budget_s or hits >= n:
            break
        tried += 1
        args = rand_args(rng, ps, tens, rng.choice(chs), s)
        try:
            st, want = run_spec(name, args)
        except Exception:
            continue
        if strict is None:
            if st != "ok":
                continue
            hits += 1
            rst, got = run_real(name, args)
            if shapes.OPTS[name].get("first_only") and rst == "ok":
                got = got[0]
            if rst == "ok" and got == want:
                continue
            r = confirm(name, ps, args)
            if r:
                return r, hits
        else:
            if st != "invalid" or want not in strict:
                continue
            hits += 1
            rst, got = run_real(name, args)
            if rst == "raise":
                continue
            r = confirm_reject(name, ps, args, want)
            if r:
                return r, hits
    return None, hits
