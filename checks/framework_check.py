"""Tracing and running tests (C10): framework.py, configs, registry, main."""
import builtins
import contextlib
import importlib
import io
import itertools
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check  # noqa: E402
from checks.oblig import Oblig, contract  # noqa: E402
from pyvc import ctx as C, sval as S, load, loops  # noqa: E402
from pyvc.interp import Interp  # noqa: E402

z3 = C.z3
E2E = load.PT1 + "/torch_mlir_e2e_test"
FILES = [
    E2E + "/framework.py",
    E2E + "/registry.py",
    E2E + "/configs/utils.py",
    E2E + "/configs/native_torch.py",
    E2E + "/configs/torchscript.py",
    E2E + "/configs/fx_importer_backend.py",
    E2E + "/configs/torchdynamo.py",
    load.REPO + "/projects/pt1/e2e_testing/main.py",
]


KNOWN = set()  # findings of known_findings.json that the contracts leave out


def mod(n):
    return importlib.import_module("torch_mlir_e2e_test." + n)


# ---------------------------------------------------------------- values
class V:
    """a component of a value; Cl(v): what a faithful copy of it is"""

    _pyvc_ok = True

    def __init__(self, i, how=""):
        self.i, self.how = i, how

    def _pyvc_terms(self):
        return [self.i]

    def _pyvc_rebuild(self, t):
        return V(t[0], self.how)

    def __repr__(self):
        return f"V({self.i}{self.how})"


def cl(v, how):
    return V(v.i, v.how + how)


class Tensor:
    """ghost tensor: `val` changes when the program updates it in place"""

    _pyvc_ok = True

    def __init__(self, val, log=()):
        self.val = val
        self.log = log

    def _pyvc_class(self):
        import torch

        return torch.Tensor

    def clone(self):
        return Tensor(self.val, self.log + ("clone",))

    def numpy(self):
        return ("numpy", self)


def elementwise(how):
    def handler(it, a, k):
        if not isinstance(a[0], V):
            raise C.Unsupported("recursive call on something that is not a component")
        return cl(a[0], how)

    return handler


def recursive(name, fn, how, leaf, leaf_goal, other_raises=True):
    """A structural map over script values; `fn` recursive, by its own contract."""
    o = Oblig(name)
    n0 = z3.Int("n")
    real = fn

    def interp():
        it = Interp(FILES, {})
        return it

    def call(it, x):
        # the outer call is interpreted, recursive calls use the contract
        f = it.lift(real)
        it.contracts[id(real)] = elementwise(how)
        return it.call_ifunction(f, [x], {})

    def seq(kind):
        def run(c):
            c.assume(n0 >= 0)
            cls = S.STuple if kind == "tuple" else S.SList
            x = cls(n0, lambda i: V(S.zterm(i)))
            it = interp()
            r = call(it, x)
            if not isinstance(r, (S.SList, list, tuple)):
                return [(f"{kind}: result is a {kind}", False)]
            want = tuple if kind == "tuple" else list
            got = it.class_of(r) or type(r)
            n = S.length(r)
            goals = [
                (f"{kind}: result is a {kind}", got is want),
                (f"{kind}: same length", S.zeq(n, n0)),
                (f"{kind}: a new container", r is not x),
            ]
            j = z3.Int("j")
            with_bounds = z3.And(0 <= j, j < n0)
            if isinstance(r, S.SList):
                e = r.f(j)
                ok = isinstance(e, V) and e.how == how
                goals.append((f"{kind}: every element is converted in place", z3.Implies(with_bounds, S.zterm(e.i) == j) if ok else False))
            else:
                for q, e in enumerate(r):
                    goals.append((f"{kind}: element {q}", isinstance(e, V) and e.how == how and S.zeq(e.i, q)))
            return goals

        return run

    o.prove(seq("list"), tag="")
    o.prove(seq("tuple"), tag="")

    def dct(c):
        keys = ["a", "b", 3]
        x = {k: V(i) for i, k in enumerate(keys) if c.choose(2)}
        it = interp()
        # dict keys are script values too: a clone of a str or int is itself
        it.contracts[id(real)] = lambda it2, a, k: elementwise(how)(it2, a, k) if isinstance(a[0], V) else a[0]
        r = it.call_ifunction(it.lift(real), [x], {})
        return [
            ("dict: same keys", isinstance(r, dict) and set(r) == set(x)),
            ("dict: a new container", r is not x),
            ("dict: every value converted", isinstance(r, dict) and all(isinstance(r[k], V) and r[k].how == how and r[k].i == x[k].i for k in x if k in r)),
        ]

    o.prove(dct)
    for nm, mk in (("int", lambda: z3.Int("x")), ("float", lambda: z3.Real("x")), ("bool", lambda: z3.Bool("x")), ("str", lambda: z3.String("x"))):

        def scalar(c):
            x = mk()
            r = call(interp(), x)
            same = type(r) is type(x) and r.sort() == x.sort()
            return [(f"{nm}: unchanged", r == x if same else False)]

        o.prove(scalar)

    def tens(c):
        x = leaf()
        r = call(interp(), x)
        return leaf_goal(x, r)

    o.prove(tens)
    for bad in (None, object(), {1, 2}, b"x", 1j):

        def other(c):
            r = call(interp(), bad)
            return [(f"{type(bad).__name__}: not passed on silently", False)]

        o.prove(other, raises=lambda e: [(f"{type(bad).__name__}: rejected", True)])
    return o


def clone_value(t):
    fw = mod("framework")

    def goal(x, r):
        return [
            ("tensor: a clone", isinstance(r, Tensor) and r is not x and r.log[-1:] == ("clone",)),
            ("tensor: same value", isinstance(r, Tensor) and r.val == x.val),
        ]

    return recursive("clone_torch_script_value", fw.clone_torch_script_value, "'", lambda: Tensor("v"), goal)


def to_numpy(t):
    u = mod("configs.utils")
    return recursive(
        "recursively_convert_to_numpy", u.recursively_convert_to_numpy, "n", lambda: Tensor("v"),
        lambda x, r: [("tensor: its numpy array", isinstance(r, tuple) and r == ("numpy", x))],
    )


class NArr:
    _pyvc_ok = True

    def _pyvc_class(self):
        import numpy

        return numpy.ndarray


def from_numpy(t):
    import torch

    u = mod("configs.utils")

    class It(Interp):
        pass

    real = torch.from_numpy
    saved = Interp.__init__

    def init(self, files, contracts, *a, **k):
        c = dict(contracts)
        c[id(real)] = lambda it, a, k: ("torch", a[0])
        saved(self, files, c, *a, **k)

    Interp.__init__ = init
    try:
        return recursive(
            "recursively_convert_from_numpy", u.recursively_convert_from_numpy, "t", NArr,
            lambda x, r: [("array: its tensor", isinstance(r, tuple) and r == ("torch", x))],
        )
    finally:
        Interp.__init__ = saved


def search_structural():
    """the same contracts on concrete values of the real code"""
    import numpy as np
    import torch

    fw, u = mod("framework"), mod("configs.utils")
    t = lambda *x: torch.tensor(x)
    vals = [1, 2.5, True, "s", t(1.0, 2.0), [], (), {}, [1, t(1.0)], (t(2.0), 1), {"a": t(1.0), "b": [t(2.0), (3, "x")]}, [[t(1.0)], (t(2.0), {"k": t(3.0)})], (t(1), t(2), t(3)), [0, 1, 2, 3]]

    def shape(x):
        if isinstance(x, (torch.Tensor, np.ndarray)):
            return ("t", tuple(np.asarray(x).reshape(-1).tolist()), tuple(x.shape))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [shape(y) for y in x])
        if isinstance(x, dict):
            return ("dict", {k: shape(v) for k, v in x.items()})
        return (type(x).__name__, x)

    def leaves(x, T):
        if isinstance(x, T):
            yield x
        elif isinstance(x, (list, tuple)):
            for y in x:
                yield from leaves(y, T)
        elif isinstance(x, dict):
            for y in x.values():
                yield from leaves(y, T)

    for v in vals:
        try:
            r = fw.clone_torch_script_value(v)
            if shape(r) != shape(v):
                return {"function": "clone_torch_script_value", "value": repr(v), "code": repr(r)}
            a = {y.data_ptr() for y in leaves(v, torch.Tensor)} & {y.data_ptr() for y in leaves(r, torch.Tensor)}
            if a:
                return {"function": "clone_torch_script_value", "value": repr(v), "code": "shares storage"}
            n = u.recursively_convert_to_numpy(v)
            b = u.recursively_convert_from_numpy(n)
            if shape(n) != shape(v) or list(leaves(n, torch.Tensor)):
                return {"function": "recursively_convert_to_numpy", "value": repr(v), "code": repr(n)}
            if shape(b) != shape(v) or list(leaves(b, np.ndarray)):
                return {"function": "recursively_convert_from_numpy", "value": repr(n), "code": repr(b)}
        except Exception as e:
            return {"function": "structural conversion", "value": repr(v), "code": repr(e)}
    for bad in (None, object(), {1, 2}):
        for f in (fw.clone_torch_script_value, u.recursively_convert_to_numpy, u.recursively_convert_from_numpy):
            try:
                r = f(bad)
            except Exception:
                continue
            if r is bad:
                return {"function": f.__name__, "value": repr(bad), "code": "passed on silently"}
    return None


def clone_trace(t):
    fw = mod("framework")
    o = Oblig("clone_trace")

    class It:
        _pyvc_ok = True

        def __init__(self, i):
            self.i = i

        def _pyvc_terms(self):
            return [self.i]

        def _pyvc_rebuild(self, x):
            return It(x[0])

        symbol = property(lambda s: V(s.i, ".symbol"))
        inputs = property(lambda s: V(s.i, ".inputs"))
        output = property(lambda s: V(s.i, ".output"))

    def item(it, a, k):
        names = ("symbol", "inputs", "output")
        d = dict(zip(names, a))
        d.update(k)
        return tuple(d[n] for n in names)

    def run(c):
        n = z3.Int("n")
        c.assume(n >= 0)
        it = Interp(FILES, {id(fw.clone_torch_script_value): elementwise("'"), id(fw.TraceItem): item})
        r = it.call(fw.clone_trace, [S.SList(n, lambda i: It(S.zterm(i)))], {})
        j = z3.Int("j")
        e = r.f(j) if isinstance(r, S.SList) else None
        goals = [("same length", S.zeq(S.length(r), n))]
        ok = isinstance(e, tuple) and len(e) == 3 and all(isinstance(x, V) for x in e)
        if not ok:
            return goals + [("every item is a copy of the item at its place", False)]
        want = (".symbol", ".inputs'", ".output'")
        for x, w in zip(e, want):
            goals.append((f"item {w}", z3.Implies(z3.And(0 <= j, j < n), S.zterm(x.i) == j) if x.how == w else False))
        return goals

    return o.prove(run)


def search_clone_trace():
    import torch

    fw = mod("framework")
    for n in range(4):
        tr = [fw.TraceItem(f"s{i}", [torch.tensor([float(i)]), i], torch.tensor([i + 0.5])) for i in range(n)]
        try:
            r = fw.clone_trace(tr)
        except Exception as e:
            return {"trace": repr(tr), "code": repr(e)}
        if len(r) != n or repr(r) != repr(tr) or any(a.output.data_ptr() == b.output.data_ptr() or a.inputs[0].data_ptr() == b.inputs[0].data_ptr() for a, b in zip(r, tr)):
            return {"trace": repr(tr), "code": repr(r)}
    return None


# ---------------------------------------------------------------- the tracer
class Boom(Exception):
    pass


def tracer(t):
    """A call made through the tracer: one more item, by value, result passed on."""
    fw = mod("framework")
    o = Oblig("_Tracer", bounded="at most 3 arguments")

    def run(c):
        it = Interp(FILES, {})
        nargs = c.choose(4)
        args = [Tensor(f"a{i}") if c.choose(2) == 0 else i for i in range(nargs)]
        before = [a.val if isinstance(a, Tensor) else a for a in args]
        mutates, result, kw = c.choose(2), c.choose(3), c.choose(2)
        seen = []

        def program(*xs, **ks):
            seen.append((list(xs), ks))
            out = {0: Tensor("out"), 1: next((x for x in xs if isinstance(x, Tensor)), Tensor("buf"))}.get(result)
            if mutates:
                for x in xs:
                    if isinstance(x, Tensor):
                        x.val = x.val + "*"
            if out is None:
                raise Boom("program raised")
            prog.out = out
            return out

        class Prog:
            _pyvc_ok = True
            out = None

            def __call__(self, *xs, **ks):
                try:
                    return program(*xs, **ks)
                except Boom as e:
                    raise C.PyRaise(e)

        prog = Prog()
        old = fw.TraceItem("earlier", [], 0)
        trace = [old] if c.choose(2) else []
        n0 = len(trace)
        path = ["m", "sub", "forward"][: c.choose(3) + 1]
        tr = fw._Tracer.__new__(fw._Tracer)
        it.call(fw._Tracer.__init__, [tr, prog, list(path), trace], {})
        kws = {"k": 1} if kw else {}
        try:
            r = it.call(tr, list(args), dict(kws))
        except C.PyRaise as e:
            return [
                ("an exception of the program reaches the caller", isinstance(e.exc, Boom)),
                ("a call that raised records nothing", len(trace) == n0),
            ]
        if result == 2:
            return [("an exception of the program reaches the caller", False)]
        goals = [
            ("the program ran once on the arguments given", len(seen) == 1 and len(seen[0][0]) == nargs and all(x is y for x, y in zip(seen[0][0], args)) and seen[0][1] == kws),
            ("the result is handed on", r is prog.out),
            ("one more item", len(trace) == n0 + 1 and (n0 == 0 or trace[0] is old)),
        ]
        if len(trace) != n0 + 1:
            return goals
        x = trace[-1]
        goals.append(("symbol is the access path", x.symbol == ".".join(path)))
        goals.append(("one input per argument", isinstance(x.inputs, list) and len(x.inputs) == nargs))
        for i, (u, v) in enumerate(zip(x.inputs, args)):
            if isinstance(v, Tensor):
                goals.append((f"input {i} has the value passed", isinstance(u, Tensor) and u.val == before[i]))
                goals.append((f"input {i} is a copy", u is not v))
            else:
                goals.append((f"input {i} has the value passed", u == v))
        ov = prog.out.val
        goals.append(("output has the value returned", isinstance(x.output, Tensor) and x.output.val == ov))
        if "tracer-output-reference" not in KNOWN:
            goals.append(("output is a copy: later calls cannot change it", x.output is not prog.out and all(x.output is not a for a in args)))
        return goals

    o.prove(run, budget_s=120, max_paths=20000)

    def attr(c):
        it = Interp(FILES, {})

        class M:
            _pyvc_ok = True

        m, sub = M(), M()
        m.sub = sub
        tr = []
        x = fw._Tracer(m, ["p"], tr)
        r = it.call(fw._Tracer.__getattr__, [x, "sub"], {})
        d = r.__dict__
        return [
            ("attribute access is traced too", isinstance(r, fw._Tracer) and d["__wrapped__"] is sub),
            ("the path grows by the attribute", d["__property_base_path__"] == ["p", "sub"]),
            ("the same trace", d["__trace__"] is tr),
            ("the parent's path is unchanged", x.__dict__["__property_base_path__"] == ["p"]),
        ]

    o.prove(attr)

    def golden(c):
        made, calls = [], []

        class Prog:
            _pyvc_ok = True

        def factory():
            made.append(Prog())
            return made[-1]

        def invoker(tracer, utils):
            calls.append((tracer, utils))
            tracer.__trace__.append("item")

        factory._pyvc_ok = invoker._pyvc_ok = True
        seeds = []
        import torch

        it = Interp(FILES, {id(torch.manual_seed): lambda i, a, k: seeds.append(a[0])})
        r = it.call(fw.generate_golden_trace, [fw.Test("t", factory, invoker, 1)], {})
        return [
            ("the program is made once", len(made) == 1),
            ("the invoker runs once", len(calls) == 1 and isinstance(calls[0][1], fw.TestUtils)),
            ("it sees the traced program", bool(calls) and calls[0][0].__dict__["__wrapped__"] is made[0] and calls[0][0].__dict__["__property_base_path__"] == []),
            ("what it did is the trace", r == ["item"]),
            ("the random seed is reset before the invoker runs", seeds == [0]),
        ]

    return o.prove(golden)


def search_tracer():
    import torch

    fw = mod("framework")

    class Sub(torch.nn.Module):
        def forward(self, x):
            return x + 1

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.register_buffer("b", torch.zeros(2))
            self.sub = Sub()

        def forward(self, x, y=None):
            x += 1
            return x

        def acc(self, x):
            self.b += x
            return self.b

        def bad(self, x):
            raise Boom("bad")

        def kw(self, x, *, s):
            return x * s

    def go(name, invoke, want):
        try:
            tr = fw.generate_golden_trace(fw.Test("t", M, invoke, 1))
        except Exception as e:
            return {"history": name, "code": repr(e)}
        got = [(i.symbol, [str(x) for x in i.inputs], str(i.output)) for i in tr]
        w = [(s, [str(x) for x in ins], str(out)) for s, ins, out in want]
        return None if got == w else {"history": name, "expected": w, "code": got}

    o, z = torch.ones(2), torch.zeros(2)
    rets = []

    def try_bad(m, u):
        try:
            m.bad(o.clone())
        except Boom:
            pass
        m.sub(o.clone())

    def ret(m, u):
        rets.append(m.sub(o.clone()))

    cases = [
        ("forward mutates its input", lambda m, u: m.forward(z.clone()), [("forward", [z], o)]),
        ("buffer returned and updated by a later call", lambda m, u: [m.acc(o), m.acc(o)], [("acc", [o], o), ("acc", [o], 2 * o)]),
        ("submodule", lambda m, u: m.sub.forward(o), [("sub.forward", [o], 2 * o)]),
        ("two inputs", lambda m, u: m.forward(z.clone(), 3), [("forward", [z, 3], o)]),
        ("keyword argument", lambda m, u: m.kw(o, s=3), [("kw", [o], 3 * o)]),
        ("exception in the program", try_bad, [("sub", [o], 2 * o)]),
        ("result is passed on", ret, [("sub", [o], 2 * o)]),
        ("aliasing input and output, then update", lambda m, u: [m.forward(x := z.clone()), m.forward(x)], [("forward", [z], o), ("forward", [o], 2 * o)]),
    ]
    for name, f, w in cases:
        if "tracer-output-reference" in KNOWN and "update" in name:
            continue
        r = go(name, f, w)
        if r:
            return r
    if len(rets) != 1 or not isinstance(rets[0], torch.Tensor) or str(rets[0]) != str(2 * o):
        return {"history": "result is passed on", "code": repr(rets)}
    return None


# ---------------------------------------------------------------- compile_and_run_test
class Thing:
    _pyvc_ok = True

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


def one_test(t):
    fw = mod("framework")
    o = Oblig("compile_and_run_test")

    def run(c):
        alarm = {"now": 0, "log": []}
        events = []

        def step(name, value):
            """an external call: returns, times out, or fails"""

            def h(it, a, k):
                events.append((name, list(a), dict(k), alarm["now"]))
                w = c.choose(4)
                if w == 0:
                    return value
                e = [None, TimeoutError("Timeout"), Boom("boom"), ValueError("x")][w]
                outcome.append((name, e))
                raise C.PyRaise(e)

            return h

        outcome = []
        gold, comp, got = Thing("golden"), Thing("compiled"), Thing("trace")

        def set_alarm(it, a, k):
            alarm["now"] = a[0]
            return 0

        class Config:
            _pyvc_ok = True

            def compile(self, *a, **k):
                return step("compile", comp)(None, a, k)

            def run(self, *a, **k):
                return step("run", got)(None, a, k)

        progs = []

        def factory():
            progs.append(Thing(f"program{len(progs)}"))
            return progs[-1]

        factory._pyvc_ok = True
        secs = z3.Int("timeout_seconds")
        c.assume(secs >= 1)
        it = Interp(
            FILES,
            {
                id(fw.generate_golden_trace): step("golden", gold),
                id(signal.signal): lambda i, a, k: alarm["log"].append(a[0]),
                id(signal.alarm): set_alarm,
                id(traceback.format_exception): lambda i, a, k: [f"{type(x).__name__}" for x in a if isinstance(x, BaseException)] or [str(a)],
                id(fw.clone_trace): lambda i, a, k: ("clone", a[0]),
                id(builtins.print): lambda i, a, k: None,
            },
        )
        verbose = bool(c.choose(2))
        test = fw.Test("name", factory, None, secs)
        r = it.call(fw.compile_and_run_test, [test, Config(), verbose], {})
        names = [e[0] for e in events]
        goals = [
            ("the result names the test", isinstance(r, fw.TestResult) and r.unique_name == "name"),
            ("the alarm is off afterwards", alarm["now"] == 0),
            ("the timeout is armed during every step", S.conj(*[S.zeq(e[3], secs) for e in events])),
            ("SIGALRM is handled", alarm["log"] == [signal.SIGALRM]),
        ]
        if not isinstance(r, fw.TestResult):
            return goals
        err = lambda x: isinstance(x, str) and x != "" or C.is_sym(x)
        if outcome and outcome[0][0] in ("golden", "compile"):
            goals += [
                ("a failure before running is a compilation error", err(r.compilation_error) and r.runtime_error is None),
                ("a failed test has no traces", r.trace is None and r.golden_trace is None),
                ("nothing runs after a failure", names[-1] == outcome[0][0]),
            ]
            if type(outcome[0][1]) is Boom:
                goals.append(("the error names the exception", "Boom" in str(r.compilation_error)))
        elif outcome:
            goals += [
                ("a failure while running is a runtime error", err(r.runtime_error) and r.compilation_error is None),
                ("a failed test has no traces", r.trace is None and r.golden_trace is None),
            ]
            if type(outcome[0][1]) is Boom:
                goals.append(("the error names the exception", "Boom" in str(r.runtime_error)))
        else:
            goals += [
                ("every step ran once", sorted(names) == ["compile", "golden", "run"] and names[-1] == "run"),
                ("no error is reported", r.compilation_error is None and r.runtime_error is None),
                ("the trace of the backend is the trace reported", r.trace == ("clone", got)),
                ("the golden trace is the golden trace reported", r.golden_trace == ("clone", gold)),
            ]
            ev = {e[0]: e for e in events}
            if {"compile", "run", "golden"} <= set(ev):
                goals += [
                    ("the golden trace is of this test", ev["golden"][1] == [test]),
                    ("a fresh program is compiled", len(progs) == 1 and ev["compile"][1][:1] == [progs[0]]),
                    ("the compiled program runs on the golden trace", ev["run"][1] == [comp, gold]),
                ]
        return goals

    return o.prove(run, max_paths=2000)


def search_one_test():
    import torch

    fw = mod("framework")

    class P(torch.nn.Module):
        n = 0

        def forward(self, x):
            self.n += 1
            return x + self.n

    def mk(mode):
        class Cfg(fw.TestConfig):
            def compile(self, program, verbose=False):
                if mode == "compile-raises":
                    raise Boom("c")
                if mode == "compile-times-out":
                    raise TimeoutError("t")
                if mode == "compile-slow":
                    import time

                    time.sleep(3)
                return program

            def run(self, artifact, trace):
                if mode == "run-raises":
                    raise Boom("r")
                if mode == "run-times-out":
                    raise TimeoutError("t")
                if mode == "run-slow":
                    import time

                    time.sleep(3)
                return [fw.TraceItem(i.symbol, i.inputs, artifact(*i.inputs)) for i in trace]

        return Cfg()

    def inv(mode):
        def f(m, u):
            if mode == "golden-raises":
                raise Boom("g")
            m.forward(torch.ones(2))

        return f

    modes = ["ok", "compile-raises", "compile-times-out", "run-raises", "run-times-out", "golden-raises", "compile-slow", "run-slow"]
    for mode in modes:
        try:
            r = fw.compile_and_run_test(fw.Test("name", P, inv(mode), 1), mk(mode))
        except Exception as e:
            return {"mode": mode, "code": repr(e)}
        if signal.alarm(0) != 0:
            return {"mode": mode, "code": "the alarm is still armed"}
        k = "compilation" if mode.split("-")[0] in ("compile", "golden") else "runtime"
        if mode == "ok":
            ok = r.compilation_error is None and r.runtime_error is None and r.trace is not None and len(r.trace) == len(r.golden_trace) == 1 and torch.equal(r.trace[0].output, r.golden_trace[0].output)
        else:
            ok = r.trace is None and r.golden_trace is None and ((r.compilation_error if k == "compilation" else r.runtime_error) or "") != "" and (r.runtime_error if k == "compilation" else r.compilation_error) is None
        if not ok or r.unique_name != "name":
            return {"mode": mode, "code": repr(r)}
    return None


# ---------------------------------------------------------------- run_tests
def all_tests(t):
    """Bounded: up to 3 tests, any subset of results delivered by the workers."""
    fw = mod("framework")
    o = Oblig("run_tests", bounded="at most 3 tests, every subset of delivered results")
    import torch

    NAMES = ["b", "a", "c"]

    def run(c):
        n = 1 + c.choose(3)
        tests = [fw.Test(x, None, None, 1) for x in NAMES[:n]]
        config = Thing("config")
        cpus = z3.Int("cpus")
        c.assume(z3.And(cpus >= 1, cpus < 4096))
        env = {"TORCH_MLIR_TEST_CONCURRENCY": [None, "0", "1", "2", "-3"][c.choose(5)], "TORCH_MLIR_TEST_VERBOSE": [None, "1"][c.choose(2)]}
        lost = [bool(c.choose(2)) for _ in tests]
        crash = bool(c.choose(2))
        slow = c.choose(2)
        st = {"procs": None, "jobs": None, "waits": 0}

        class Proc:
            _pyvc_ok = True
            exitcode = 3 if crash else None

        class Handles:
            _pyvc_ok = True

            def ready(self):
                # with a crashed worker the job never completes
                return not crash and st["waits"] >= slow

            def wait(self, timeout=None):
                st["waits"] += 1
                if st["waits"] > 3:
                    raise C.Unsupported("run_tests waits for ever")

            def get(self, timeout=None):
                return [fw.TestResult(j[0].unique_name, None, None, [], []) for j, l in zip(st["jobs"], lost) if not l]

        class Pool:
            _pyvc_ok = True

            def __init__(self, k):
                st["procs"] = k
                self._pool = [Proc()]

            def starmap_async(self, f, jobs, *a):
                st["f"], st["jobs"] = f, list(jobs)
                return Handles()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

            terminate = join = close

        it = Interp(
            FILES,
            {
                id(fw.mp.Pool): lambda i, a, k: Pool(a[0]),
                id(fw.mp.cpu_count): lambda i, a, k: cpus,
                id(os.getenv): lambda i, a, k: env.get(a[0]) if env.get(a[0]) is not None else (a[1] if len(a) > 1 else None),
                id(torch.autograd.set_grad_enabled): lambda i, a, k: None,
                id(builtins.print): lambda i, a, k: None,
                id(fw.compile_and_run_test): lambda i, a, k: fw.TestResult(a[0].unique_name, None, None, [], []),
                id(builtins.exit): lambda i, a, k: (_ for _ in ()).throw(C.PyRaise(SystemExit(*a))),
                id(sys.exit): lambda i, a, k: (_ for _ in ()).throw(C.PyRaise(SystemExit(*a))),
                id(os._exit): lambda i, a, k: (_ for _ in ()).throw(C.PyRaise(SystemExit(*a))),
            },
        )
        seq = bool(c.choose(2))
        try:
            r = it.call(fw.run_tests, [list(tests), config, seq, False], {})
        except C.PyRaise as e:
            if crash and isinstance(e.exc, SystemExit):
                return [("a crashed worker ends the run with a failure code", e.exc.code not in (0, None))]
            if crash:
                return [("a crashed worker ends the run with a failure", True)]
            return [(f"no exception ({e.exc!r})", False)]
        got = [x.unique_name for x in r]
        goals = [
            ("every test has exactly one result, in order of name", got == sorted(x.unique_name for x in tests)),
        ]
        if st["procs"] is not None:
            goals += [
                ("at least one process", S.zterm(st["procs"]) >= 1),
                ("at most the requested concurrency", S.zterm(st["procs"]) <= max(1, int(env["TORCH_MLIR_TEST_CONCURRENCY"] or 0)) if int(env["TORCH_MLIR_TEST_CONCURRENCY"] or 0) > 0 else True),
                ("every test is submitted once with the config", sorted(j[0].unique_name for j in st["jobs"]) == sorted(x.unique_name for x in tests) and all(j[1] is config for j in st["jobs"]) and st["f"] is fw.compile_and_run_test),
            ]
            delivered = {j[0].unique_name for j, l in zip(st["jobs"], lost) if not l}
            for x in r:
                if x.unique_name in delivered:
                    goals.append((f"a delivered result is kept", x.compilation_error is None and x.runtime_error is None and x.trace == []))
                else:
                    goals.append(("a test without a result counts as a runtime error", bool(x.runtime_error) and x.trace is None))
        return goals

    return o.prove(run, max_paths=20000, budget_s=200)


def search_all_tests():
    fw = mod("framework")
    import torch
    from unittest import mock

    results = {}
    for n, seq, lost, conc in itertools.product((1, 2, 3), (False, True), (0, 1, 2, 3, 7), ("0", "1", "2", "-3")):
        tests = [fw.Test(x, None, None, 1) for x in ["b", "a", "c"][:n]]
        st = {}

        class Handles:
            def ready(self):
                return True

            def wait(self, timeout=None):
                pass

            def get(self, timeout=None):
                return [fw.TestResult(j[0].unique_name, None, None, [], []) for i, j in enumerate(st["jobs"]) if not lost >> i & 1]

        class Pool:
            def __init__(self, k=None, *a, **kk):
                st["k"] = k
                self._pool = []

            def starmap_async(self, f, jobs, *a):
                st["jobs"] = list(jobs)
                return Handles()

        with mock.patch.object(fw.mp, "Pool", Pool), mock.patch.object(fw, "compile_and_run_test", lambda *a: fw.TestResult(a[0].unique_name, None, None, [], [])), mock.patch.dict(os.environ, {"TORCH_MLIR_TEST_CONCURRENCY": conc}), contextlib.redirect_stdout(io.StringIO()):
            g = torch.is_grad_enabled()
            try:
                r = fw.run_tests(list(tests), None, seq)
                got = [x.unique_name for x in r]
                miss = {j[0].unique_name for i, j in enumerate(st.get("jobs", [])) if lost >> i & 1}
                ok = got == sorted(x.unique_name for x in tests) and all(bool(x.runtime_error) == (x.unique_name in miss) for x in r) and st.get("k", 1) >= 1
                if int(conc) > 0:
                    ok = ok and st.get("k", 1) <= int(conc)
                code = repr(r) + f" processes={st.get('k')}"
            except (Exception, SystemExit) as e:
                ok, code = False, repr(e)
            finally:
                torch.set_grad_enabled(g)
        if not ok:
            return {"tests": n, "sequential": seq, "lost": lost, "concurrency": conc, "code": code}
    # a crashed worker
    class H2:
        def __init__(self):
            self.n = 0

        def ready(self):
            self.n += 1
            return self.n > 3

        def wait(self, timeout=None):
            pass

        def get(self, timeout=None):
            return [fw.TestResult("a", None, None, [], [])]

    class P2:
        def __init__(self, *a):
            self._pool = [type("X", (), {"exitcode": 0})(), type("X", (), {"exitcode": -11})()]

        def starmap_async(self, f, jobs, *a):
            return H2()

    with mock.patch.object(fw.mp, "Pool", P2), contextlib.redirect_stdout(io.StringIO()):
        g = torch.is_grad_enabled()
        try:
            r = fw.run_tests([fw.Test("a", None, None, 1)], None)
            return {"history": "a worker exits with code -11", "code": repr(r)}
        except SystemExit as e:
            if e.code in (0, None):
                return {"history": "a worker exits with code -11", "code": "exit 0"}
        except Exception:
            pass
        finally:
            torch.set_grad_enabled(g)
    return None


# ---------------------------------------------------------------- configs
SYM = {"NativeTorchTestConfig": ["f", "g"], "TorchScriptTestConfig": ["f", "sub.g"]}


def config_run(t):
    """NativeTorch/TorchScript: one item per item, same symbol and inputs, output by value."""
    o = Oblig("TestConfig.run (native_torch, torchscript)", bounded="at most 3 calls")
    fw = mod("framework")
    for mname, cname in (("configs.native_torch", "NativeTorchTestConfig"), ("configs.torchscript", "TorchScriptTestConfig")):
        cls = getattr(mod(mname), cname)

        def run(c):
            it = Interp(FILES, {})
            n = c.choose(4)
            calls = []
            buf = Tensor("buf")
            alias = "config-output-reference" not in KNOWN and bool(c.choose(2))

            class Prog:
                _pyvc_ok = True

                def meth(self, which):
                    def f(*xs):
                        calls.append((which, list(xs)))
                        if alias:
                            buf.val += "+"
                            return buf
                        return Tensor(f"{which}{len(calls)}")

                    f._pyvc_ok = True
                    return f

                @property
                def sub(self):
                    p = Prog()
                    p.prefix = self.prefix + "sub."
                    return p

                prefix = ""

                @property
                def f(self):
                    return self.meth(self.prefix + "f")

                @property
                def g(self):
                    return self.meth(self.prefix + "g")

            items = [fw.TraceItem(SYM[cname][c.choose(2)], [Thing(f"in{i}")] * c.choose(3), None) for i in range(n)]
            r = it.call(cls.run, [cls(), Prog(), list(items)], {})
            goals = [("one item per call", isinstance(r, list) and len(r) == n), ("every call is made once, in order", calls == [(x.symbol, x.inputs) for x in items])]
            if len(r) == n:
                for i, (x, y) in enumerate(zip(r, items)):
                    want = "buf" + "+" * (i + 1) if alias else f"{y.symbol}{i + 1}"
                    goals.append(("symbol and inputs of the call", x.symbol == y.symbol and x.inputs == y.inputs))
                    goals.append(("output is the value this call returned", isinstance(x.output, Tensor) and x.output.val == want))
            return goals

        o.prove(run, tag=cname + ": ", max_paths=5000, budget_s=120)
    return o


def search_config_run():
    import torch

    fw = mod("framework")

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.register_buffer("b", torch.zeros(2))

        def forward(self, x):
            self.b += x
            return self.b.clone() if "config-output-reference" in KNOWN else self.b

    o = torch.ones(2)
    for mname, cname in (("configs.native_torch", "NativeTorchTestConfig"), ("configs.torchscript", "TorchScriptTestConfig")):
        cfg = getattr(mod(mname), cname)()
        for n in range(4):
            tr = [fw.TraceItem("forward", [o * (i + 1)], None) for i in range(n)]
            try:
                r = cfg.run(cfg.compile(M()), tr)
                got = [(x.symbol, str(x.inputs), str(x.output)) for x in r]
            except Exception as e:
                got = repr(e)
            want = [("forward", str([o * (i + 1)]), str(o * ((i + 1) * (i + 2) // 2))) for i in range(n)]
            if got != want:
                return {"config": cname, "calls": n, "expected": want, "code": got}
    return None


# ---------------------------------------------------------------- registry
def registry(t):
    o = Oblig("register_test_case", bounded="at most 3 registrations")
    reg, fw = mod("registry"), mod("framework")

    def run(c):
        n = c.choose(4)
        names = ["xyz"[c.choose(3)] for _ in range(n)]
        gl, seen = [], set()
        facs = [Thing(f"fac{i}") for i in range(n)]
        save = (reg.GLOBAL_TEST_REGISTRY, reg._SEEN_UNIQUE_NAMES)
        reg.GLOBAL_TEST_REGISTRY, reg._SEEN_UNIQUE_NAMES = gl, seen
        fns = []
        dup = None
        try:
            for i, nm in enumerate(names):
                it = Interp(FILES, {})

                def f(m, tu):
                    pass

                f.__name__ = nm
                kw = {"timeout_seconds": 7} if i % 2 else {}
                try:
                    deco = it.call(reg.register_test_case, [], {"module_factory": facs[i], **kw})
                    r = it.call(deco, [f], {})
                except C.PyRaise:
                    dup = i
                    break
                fns.append((f, r))
        finally:
            reg.GLOBAL_TEST_REGISTRY, reg._SEEN_UNIQUE_NAMES = save
        first_dup = next((i for i, x in enumerate(names) if x in names[:i]), None)
        goals = [
            ("a repeated name is rejected, no other", dup == first_dup),
            ("names in the registry are unique", len({x.unique_name for x in gl}) == len(gl)),
            ("every accepted test is in the registry", [x.unique_name for x in gl] == names[: len(fns)]),
        ]
        for i, ((f, r), x) in enumerate(zip(fns, gl)):
            goals.append(("the test is the function and the factory", x.program_invoker is f and x.program_factory is facs[i] and r is f))
            goals.append(("the timeout given", x.timeout_seconds == (7 if i % 2 else 120)))
        return goals

    return o.prove(run)


def search_registry():
    reg = mod("registry")
    save = (reg.GLOBAL_TEST_REGISTRY, reg._SEEN_UNIQUE_NAMES)
    try:
        for names in itertools.product("xy", repeat=3):
            reg.GLOBAL_TEST_REGISTRY, reg._SEEN_UNIQUE_NAMES = [], set()
            dup = None
            for i, nm in enumerate(names):

                def f(m, tu):
                    pass

                f.__name__ = nm
                try:
                    reg.register_test_case(lambda: None)(f)
                except Exception:
                    dup = i
                    break
            want = next((i for i, x in enumerate(names) if x in names[:i]), None)
            if dup != want or len(reg.GLOBAL_TEST_REGISTRY) != (3 if dup is None else dup):
                return {"names": names, "expected_rejection_at": want, "code": dup}
    finally:
        reg.GLOBAL_TEST_REGISTRY, reg._SEEN_UNIQUE_NAMES = save
    return None


# ---------------------------------------------------------------- main
def entry(t):
    """Exit code and selection of the command; bounded: 3 registered tests."""
    if load.REPO + "/projects/pt1" not in sys.path:
        sys.path.insert(0, load.REPO + "/projects/pt1")
    m = importlib.import_module("e2e_testing.main")
    fw = mod("framework")
    o = Oblig("e2e_testing.main", bounded="3 registered tests")
    CONFIGS = [a for a in m._get_argparse()._actions if a.dest == "config"][0].choices
    SETS = {
        "linalg": ("LINALG_XFAIL_SET", None, "LINALG_CRASHING_SET"),
        "stablehlo": (None, "STABLEHLO_PASS_SET", "STABLEHLO_CRASHING_SET"),
        "tosa": (None, "TOSA_PASS_SET", "TOSA_CRASHING_SET"),
        "native_torch": (None, None, None),
        "torchscript": (None, None, None),
        "lazy_tensor_core": ("LTC_XFAIL_SET", None, "LTC_CRASHING_SET"),
        "fx_importer": ("FX_IMPORTER_XFAIL_SET", None, "FX_IMPORTER_CRASHING_SET"),
        "fx_importer_stablehlo": ("FX_IMPORTER_STABLEHLO_XFAIL_SET", None, "FX_IMPORTER_STABLEHLO_CRASHING_SET"),
        "fx_importer_tosa": ("FX_IMPORTER_TOSA_XFAIL_SET", None, "FX_IMPORTER_TOSA_CRASHING_SET"),
        "torchdynamo": ("TORCHDYNAMO_XFAIL_SET", None, "TORCHDYNAMO_CRASHING_SET"),
        "onnx": ("ONNX_XFAIL_SET", None, "ONNX_CRASHING_SET"),
        "onnx_tosa": ("ONNX_TOSA_XFAIL_SET", None, "ONNX_TOSA_CRASHING_SET"),
    }

    def run(c):
        cfg = CONFIGS[c.choose(len(CONFIGS))]
        names = ["t_a", "t_b", "u_c"]
        gl = [fw.Test(x, None, None, 1) for x in names]
        xn, pn, cn = SETS.get(cfg, (None, None, None))
        crash = {"t_b"} if c.choose(2) else set()
        explicit = [None, ["t_a"], ["nope"]][c.choose(3)]
        flt = [".*", "t_", "zzz", "_b"][c.choose(4)]
        ignore, bad = bool(c.choose(2)), bool(c.choose(2))
        sets = {k: set() for k in vars(m) if k.endswith("_SET")}
        for k in sets:
            sets[k] = {f"only-{k}"}
        if cn:
            sets[cn] = crash
        if xn:
            sets[xn] = {"u_c"}
        if pn:
            sets[pn] = {"t_a", "t_b"}
        made = []

        class Args:
            _pyvc_ok = True
            config, filter, verbose, sequential = cfg, flt, bool(c.choose(2)), bool(c.choose(2))
            ignore_failures = ignore
            crashing_tests_to_not_attempt_to_run_and_a_bug_is_filed = explicit

        class Parser:
            _pyvc_ok = True

            def parse_args(self, *a):
                return Args()

        calls = {}

        def mk(nm):
            def h(it, a, k):
                made.append(nm)
                return Thing(nm)

            return h

        def h_run(it, a, k):
            calls["run"] = (list(a), dict(k))
            return "results"

        def h_report(it, a, k):
            calls["report"] = (list(a), dict(k))
            return bad

        def h_exit(it, a, k):
            raise C.PyRaise(SystemExit(*a))

        con = {id(m._get_argparse): lambda i, a, k: Parser(), id(m.run_tests): h_run, id(m.report_results): h_report, id(sys.exit): h_exit, id(builtins.print): lambda i, a, k: None, id(builtins.exit): h_exit}
        for nm, v in vars(m).items():
            if nm.endswith("TestConfig") or nm.endswith("Backend"):
                con[id(v)] = mk(nm)
        keep = {k: getattr(m, k) for k in (*sets, "GLOBAL_TEST_REGISTRY")}
        for k, v in sets.items():
            setattr(m, k, v)
        m.GLOBAL_TEST_REGISTRY = gl
        code = None
        try:
            Interp(FILES, con).call(m.main, [], {})
            code = 0
        except C.PyRaise as e:
            if not isinstance(e.exc, SystemExit):
                return [(f"{cfg}: no exception ({type(e.exc).__name__}: {str(e.exc)[:60]})", False)]
            code = e.exc.code
        finally:
            for k, v in keep.items():
                setattr(m, k, v)
        zero = code in (0, None, False)
        import re

        do_not = set(explicit or []) | (crash if cn else set())
        want = [x for x in gl if x.unique_name not in do_not and re.match(flt, x.unique_name)]
        if explicit == ["nope"]:
            return [("an unknown test name is an error", not zero and "run" not in calls)]
        if not want:
            return [("a filter that selects nothing is an error", not zero)]
        if "run" not in calls or "report" not in calls:
            return [("the selected tests are run and reported", False)]
        ra, rk = calls["run"]
        pa, pk = calls["report"]
        xf = pa[1] if len(pa) > 1 else pk.get("expected_failures")
        want_xf = {"u_c"} if (xn or pn) else set()
        return [
            ("exactly the selected tests are run", [x.unique_name for x in ra[0]] == [x.unique_name for x in want]),
            ("the results of the run are reported", (pa[0] if pa else pk.get("results")) == "results"),
            (f"{cfg}: against its own expected failures", set(xf) == want_xf),
            ("exit code 1 exactly on an unexpected outcome", zero == (ignore or not bad)),
        ]

    return o.prove(run, max_paths=60000, budget_s=400)


def search_entry():
    from unittest import mock

    m = importlib.import_module("e2e_testing.main")
    fw = mod("framework")
    gl = [fw.Test(x, None, None, 1) for x in ("t_a", "t_b", "u_c")]
    sets = {k: ({"t_b"} if k.endswith("CRASHING_SET") else {f"only-{k}"}) for k in vars(m) if k.endswith("_SET")}
    for argv, bad in itertools.product(
        ([], ["-f", "t_"], ["-f", "zzz"], ["-f", "_b"], ["--ignore_failures"], ["--crashing_tests_to_not_attempt_to_run_and_a_bug_is_filed", "t_a"], ["--crashing_tests_to_not_attempt_to_run_and_a_bug_is_filed", "nope"]),
        (False, True),
    ):
        for cfg, prefix in (("native_torch", None), ("linalg", "LINALG"), ("torchscript", None), ("stablehlo", "STABLEHLO"), ("tosa", "TOSA"), ("lazy_tensor_core", "LTC"), ("fx_importer", "FX_IMPORTER"), ("fx_importer_stablehlo", "FX_IMPORTER_STABLEHLO"), ("fx_importer_tosa", "FX_IMPORTER_TOSA"), ("torchdynamo", "TORCHDYNAMO"), ("onnx", "ONNX"), ("onnx_tosa", "ONNX_TOSA")):
            calls = {}
            with contextlib.ExitStack() as es:
                for k, v in sets.items():
                    es.enter_context(mock.patch.object(m, k, v))
                for k in vars(m).copy():
                    if k.endswith("TestConfig") or k.endswith("Backend"):
                        es.enter_context(mock.patch.object(m, k, lambda *a, **k: None))
                es.enter_context(mock.patch.object(m, "GLOBAL_TEST_REGISTRY", gl))
                es.enter_context(mock.patch.object(m, "run_tests", lambda tests, *a, **k: calls.update(run=[x.unique_name for x in tests]) or "results"))
                es.enter_context(mock.patch.object(m, "report_results", lambda r, xf, *a, **k: calls.update(report=(r, set(xf))) or bad))
                es.enter_context(mock.patch.object(sys, "argv", ["main", "-c", cfg, *argv]))
                es.enter_context(contextlib.redirect_stdout(io.StringIO()))
                try:
                    m.main()
                    code = 0
                except SystemExit as e:
                    code = e.code
                except Exception as e:
                    return {"argv": argv, "config": cfg, "code": repr(e)}
            no = {"t_b"} if prefix else set()
            sel = [x for x in ("t_a", "t_b", "u_c") if x not in no]
            want = 1 if bad else 0
            if argv == ["-f", "t_"]:
                sel = [x for x in sel if x.startswith("t_")]
            elif argv[:1] == ["-f"]:
                sel = []
            elif argv == ["--ignore_failures"]:
                want = 0
            elif argv[-1:] == ["t_a"]:
                sel.remove("t_a")
            elif argv[-1:] == ["nope"]:
                sel = []
            if not sel:
                want = 1
            xf = set()
            if prefix in ("STABLEHLO", "TOSA"):
                xf = {"t_a", "t_b", "u_c"}
            elif prefix:
                xf = {f"only-{prefix}_XFAIL_SET"}
            if (code or 0) != want or (sel and (calls.get("run") != sel or calls.get("report") != ("results", xf))):
                return {"argv": argv, "config": cfg, "unexpected_outcome": bad, "expected": [want, sel, sorted(xf)], "code": [code, repr(calls)]}
    return None


def demonstrate(ck):
    """the listed findings, each shown on the code as it is"""
    import torch

    fw = mod("framework")

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.register_buffer("b", torch.zeros(1))

        def forward(self, x):
            self.b += x
            return self.b

    o = torch.ones(1)
    for f in ck.known:
        try:
            if f["id"] == "tracer-output-reference":
                tr = fw.generate_golden_trace(fw.Test("t", M, lambda m, u: [m.forward(o), m.forward(o)], 1))
                still = tr[0].output.item() == 2
            else:
                still = True
                for mname, cname in (("configs.native_torch", "NativeTorchTestConfig"), ("configs.torchscript", "TorchScriptTestConfig")):
                    cfg = getattr(mod(mname), cname)()
                    r = cfg.run(cfg.compile(M()), [fw.TraceItem("forward", [o], None)] * 2)
                    still = still and r[0].output.item() == 2
        except Exception:
            still = False
        if still:
            KNOWN.add(f["id"])
            ck.known_finding(f["what"])


def main(prop):
    ck = Check(prop)
    t = ck.thorough
    demonstrate(ck)
    loops.COMPLETE_FILTERS = True
    st = {}
    for f, s in (
        (clone_value, search_structural),
        (to_numpy, search_structural),
        (from_numpy, search_structural),
        (clone_trace, search_clone_trace),
        (tracer, search_tracer),
        (one_test, search_one_test),
        (config_run, search_config_run),
        (all_tests, search_all_tests),
        (registry, search_registry),
        (entry, search_entry),
    ):
        o, verdict = contract(ck, f, t, search=s)
        st[o.name] = (verdict, o.obl, o.done)
        ck.samples.append({"function": o.name, "obligations": o.obl, "status": st[o.name][0]})
    ck.cov["functions_under_contract"] = {k: {"status": v[0], "obligations": v[1], "discharged": v[2]} for k, v in st.items()}
    ck.finish(f"/opt/venv/bin/python -W ignore checks/framework_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
