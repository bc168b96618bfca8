"""The verdict of the end-to-end suite (C09): reporting, tracing, running."""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check  # noqa: E402
from checks.oblig import Oblig, contract  # noqa: E402
from pyvc import ctx as C, sval as S, load, loops  # noqa: E402
from pyvc.interp import Interp  # noqa: E402

import importlib  # noqa: E402

z3 = C.z3
loops.COMPLETE_FILTERS = True
E2E = load.PT1 + "/torch_mlir_e2e_test"
FILES = [E2E + "/reporting.py", E2E + "/framework.py"]


def mods():
    fw = importlib.import_module("torch_mlir_e2e_test.framework")
    rp = importlib.import_module("torch_mlir_e2e_test.reporting")
    return fw, rp


# ---------------------------------------------------------------- abstract values
MATCH = z3.Function("MATCH", z3.IntSort(), z3.IntSort(), z3.BoolSort())
CLOSE = z3.Function("CLOSE", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort(), z3.BoolSort())


class Elem:
    """a component of a value: only the report on it is looked at"""

    def __init__(self, i):
        self.i = i

    def _pyvc_terms(self):
        return [self.i]

    def _pyvc_rebuild(self, t):
        return Elem(t[0])

    def __repr__(self):
        return f"Elem({self.i})"


LOOPS = True


class Rep:
    """what the contract of a report says"""

    _pyvc_ok = True

    def __init__(self, bad, n):
        self.bad, self.n = bad, n

    def _pyvc_terms(self):
        return [self.bad, self.n]

    def _pyvc_rebuild(self, t):
        return Rep(*t)

    @property
    def failed(self):
        return self.bad

    @property
    def failure_reasons(self):
        if LOOPS:
            return S.SList(self.n, lambda i: "<reason>")
        # dict reports (bounded to three keys): one or several reasons
        c = C.cur()
        if not c.branch(self.n > 0):
            return []
        return ["<reason>"] if c.branch(self.n == 1) else ["<reason>", "<reason>"]

    def error_str(self):
        return "<reasons>"


class Tens:
    def __init__(self, torch, nm):
        self._t = torch.Tensor
        self.id = z3.Int(nm + "!id")
        rank = z3.Int(nm + "!rank")
        F = z3.Function(nm + "!size", z3.IntSort(), z3.IntSort())
        C.cur().assume(rank >= 0)
        self.shape = S.SList(rank, lambda i: F(S.zterm(i)))
        self.dtype = z3.Int(nm + "!dtype")

    def _pyvc_class(self):
        return self._t


KNOWN = set()  # findings of known_findings.json that the contracts leave out


def known_float(v, g):
    """float-golden: a golden float that is not positive, or an infinite or nan operand"""
    if "float-golden" not in KNOWN or not isinstance(v, float) or not isinstance(g, float):
        return False
    return not (g > 0 and math.isfinite(g) and math.isfinite(v))


def touches_known(v, g):
    if isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    if isinstance(g, tuple) and len(g) == 1:
        g = g[0]
    if isinstance(g, (tuple, list)) and isinstance(v, (tuple, list)):
        return any(touches_known(a, b) for a, b in zip(v, g))
    if isinstance(g, dict) and isinstance(v, dict):
        return any(touches_known(v[k], g[k]) for k in g if k in v)
    return known_float(v, g)


REASONS = z3.Function("REASONS", z3.IntSort(), z3.IntSort(), z3.IntSort())


def report_axioms():
    i, j = z3.Ints("ri rj")
    C.cur().assume(z3.ForAll([i, j], (REASONS(i, j) > 0) == z3.Not(MATCH(i, j)), patterns=[REASONS(i, j)]))
    C.cur().assume(z3.ForAll([i, j], REASONS(i, j) >= 0, patterns=[REASONS(i, j)]))


def value_report_contract(interp, a, k):
    v, g = a[0], a[1]
    if not isinstance(v, Elem) or not isinstance(g, Elem):
        raise C.Unsupported("report on something that is not a component")
    vi, gi = S.zterm(v.i), S.zterm(g.i)
    return Rep(z3.Not(MATCH(vi, gi)), REASONS(vi, gi))


def isclose_contract(interp, a, k):
    x, y = a[0], a[1]
    rel = k.get("rel_tol", a[2] if len(a) > 2 else 1e-09)
    ab = k.get("abs_tol", a[3] if len(a) > 3 else 0.0)
    if not any(C.is_sym(t) for t in (x, y)):
        return math.isclose(x, y, rel_tol=rel, abs_tol=ab)
    d = rabs(S.to_real(x) - S.to_real(y))
    m = rmax(rabs(S.to_real(x)), rabs(S.to_real(y)))
    return z3.Or(d <= S.to_real(rel) * m, d <= S.to_real(ab))


def allclose_contract(interp, a, k):
    x, y = a[0], a[1]
    rtol = k.get("rtol", a[2] if len(a) > 2 else 1e-05)
    atol = k.get("atol", a[3] if len(a) > 3 else 1e-08)
    en = k.get("equal_nan", a[4] if len(a) > 4 else False)
    if not isinstance(x, Tens) or not isinstance(y, Tens):
        raise C.Unsupported("allclose of something else")
    return CLOSE(x.id, y.id, S.to_real(rtol), S.to_real(atol), z3.BoolVal(bool(en)))


def rabs(x):
    return z3.If(x < 0, -x, x)


def rmax(a, b):
    return z3.If(a > b, a, b)


KINDS = ["float", "int", "bool", "str", "tuple", "list", "dict", "tensor", "none"]
SPECIAL = [float("nan"), float("inf"), float("-inf"), 0.0, -0.0, 1.0, -1.0, 2.0, 1e-30, -1e30]


def make(kind, nm, base):
    """(value handed to the code, description for the contract)"""
    import torch

    c = C.cur()
    if kind == "float":
        v = z3.Real(nm)
    elif kind == "int":
        v = z3.Int(nm)
    elif kind == "bool":
        v = z3.Bool(nm)
    elif kind == "str":
        v = z3.String(nm)
    elif kind in ("tuple", "list"):
        n = z3.Int(nm + "!len")
        c.assume(n >= 0)
        f = lambda i: Elem(base + S.zterm(i)) if C.is_sym(i) or True else None
        if kind == "tuple":
            v = S.STuple(n, f)
            c.assume(n != 1)  # one-element tuples are separate cases
        else:
            v = S.SList(n, f)
    elif kind == "dict":
        keys = ["a", "b", "c"]
        ks = [x for x in keys if c.choose(2)]
        if c.choose(2):
            ks.reverse()
        v = {x: Elem(base + keys.index(x)) for x in ks}
    elif kind == "tensor":
        v = Tens(torch, nm)
    else:
        v = None
    return v


def goal(vk, v, gk, g, failed):
    """[(label, goal)]: what the verdict `failed` must be"""
    fz = failed if isinstance(failed, z3.BoolRef) else z3.BoolVal(bool(failed))
    ok = z3.Not(fz)

    def iff(c, what):
        return [(f"{what}: passes exactly if it matches", ok == S.zterm(c))]

    if gk == "none":
        return [("an unsupported golden type fails", fz)]
    num = {"int", "bool"}
    if not (vk == gk or {vk, gk} <= num):
        return [("a value of another type fails", fz)]
    if gk == "float":
        d = rabs(v - g)
        big = rmax(rabs(v), rabs(g))
        small = z3.If(rabs(v) < rabs(g), rabs(v), rabs(g))
        q = z3.Q
        if "float-golden" in KNOWN:
            # the finding's inputs are left out, everything else must hold
            return [
                ("float: a passing value is close", z3.Implies(z3.And(g > 0, ok), d <= q(2, 10**4) * big + q(1, 10**7))),
                ("float: a close value passes", z3.Implies(z3.And(g > 0, d <= q(1, 2 * 10**4) * small), ok)),
            ]
        return [
            ("float: a passing value is close", z3.Implies(ok, d <= q(2, 10**4) * big + q(1, 10**7))),
            ("float: a close value passes", z3.Implies(d <= q(1, 2 * 10**4) * small, ok)),
        ]
    if gk in num:
        a = z3.If(v, 1, 0) if vk == "bool" else v
        b = z3.If(g, 1, 0) if gk == "bool" else g
        return iff(a == b, "int")
    if gk == "str":
        return iff(v == g, "str")
    if gk in ("tuple", "list"):
        i = z3.Int("qi")
        allm = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g.n), MATCH(v.f(i).i, g.f(i).i)))
        return [
            (f"{gk}: a passing value has the same length", z3.Implies(ok, v.n == g.n)),
            (f"{gk}: every component of a passing value matches", z3.Implies(ok, allm)),
            (f"{gk}: matching components pass", z3.Implies(z3.And(v.n == g.n, allm), ok)),
        ]
    if gk == "dict":
        if set(v) != set(g):
            return [("dict: different keys fail", fz)]
        return iff(S.conj(*[MATCH(S.zterm(v[x].i), S.zterm(g[x].i)) for x in g]), "dict")
    # tensor
    same = S.list_eq(v.shape, g.shape)
    dt = v.dtype == g.dtype
    cl = CLOSE(v.id, g.id, S.to_real(1e-3), S.to_real(1e-7), z3.BoolVal(True))
    return iff(z3.And(S.zterm(same), dt, cl), "tensor")


def contracts(extra=()):
    import torch

    fw, rp = mods()
    return {
        id(rp.ValueReport): value_report_contract,
        id(math.isclose): isclose_contract,
        # a symbolic float is a finite one; the others are run natively
        id(math.isnan): lambda it, a, k: False if C.is_sym(a[0]) else math.isnan(a[0]),
        id(math.isinf): lambda it, a, k: False if C.is_sym(a[0]) else math.isinf(a[0]),
        id(math.isfinite): lambda it, a, k: True if C.is_sym(a[0]) else math.isfinite(a[0]),
        id(torch.allclose): allclose_contract,
        id(rp.TensorSummary): lambda it, a, k: "<summary>",
        **dict(extra),
    }


def value_report(thorough):
    fw, rp = mods()
    o = Oblig("ValueReport._evaluate_outcome")
    init = rp.ValueReport.__init__
    for vk, gk in itertools.product(KINDS, KINDS):
        for vw, gw in itertools.product((0, 1), (0, 1)):  # wrapped in a 1-tuple
            if vw and gw and vk != gk:
                continue

            def run(c):
                global LOOPS
                LOOPS = gk != "dict"
                report_axioms()
                it = Interp(FILES, contracts())
                v, g = make(vk, "v", 0), make(gk, "g", 1000000)
                obj = rp.ValueReport.__new__(rp.ValueReport)
                it.call(init, [obj, (v,) if vw else v, (g,) if gw else g, rp.ErrorContext.empty()], {})
                failed = it.getattr(obj, "failed")
                return goal(vk, v, gk, g, failed)

            def raises(e):
                if "float-golden" in KNOWN and vk == gk == "float" and isinstance(e, ZeroDivisionError):
                    return [("a golden value of zero (known finding)", z3.Real("g") == 0)]
                return [(f"no exception ({type(e).__name__}: {str(e)[:80]})", False)]

            o.prove(run, raises, tag=f"value {vk}{'(1-tuple)' if vw else ''}, golden {gk}{'(1-tuple)' if gw else ''}: ", budget_s=60)
    # special floats: the interpreter computes on the machine's floats
    for x, y in itertools.product(SPECIAL, SPECIAL):
        if known_float(x, y):
            continue

        def run(c):
            it = Interp(FILES, contracts())
            obj = rp.ValueReport.__new__(rp.ValueReport)
            it.call(init, [obj, x, y, rp.ErrorContext.empty()], {})
            return [(f"float {x} against {y}", bool(it.getattr(obj, "failed")) != spec_match(x, y))]

        o.prove(run, tag="special ")
    return o


# ---------------------------------------------------------------- concrete oracle
def spec_match(v, g):
    """True/False, or None where the tolerance leaves the choice open"""
    import torch

    if isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    if isinstance(g, tuple) and len(g) == 1:
        g = g[0]
    if isinstance(g, float):
        if not isinstance(v, float):
            return False
        if v == g or (math.isnan(v) and math.isnan(g)):
            return True
        if not (math.isfinite(v) and math.isfinite(g)):
            return False
        d, big, small = abs(v - g), max(abs(v), abs(g)), min(abs(v), abs(g))
        if d > 2e-4 * big + 1e-7:
            return False
        if d <= 0.5e-4 * small:
            return True
        return None
    if isinstance(g, int):
        return isinstance(v, int) and v == g
    if isinstance(g, str):
        return isinstance(v, str) and v == g
    for t in (tuple, list):
        if isinstance(g, t):
            if not isinstance(v, t) or len(v) != len(g):
                return False
            return tri(spec_match(a, b) for a, b in zip(v, g))
    if isinstance(g, dict):
        if not isinstance(v, dict) or set(v) != set(g):
            return False
        return tri(spec_match(v[k], g[k]) for k in g)
    if isinstance(g, torch.Tensor):
        if not isinstance(v, torch.Tensor) or v.shape != g.shape or v.dtype != g.dtype:
            return False
        return bool(torch.allclose(v, g, rtol=1e-3, atol=1e-7, equal_nan=True))
    return False


def tri(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def corpus():
    import torch

    t = torch.tensor
    base = [
        0, 1, -3, True, False, 1.0, -1.0, 0.0, 2.5, -2.5, 1.00003, -1.0002, -1.5, float("nan"), float("inf"), float("-inf"),
        "a", "b", "", None,
        t([1.0, 2.0]), t([1.0, 2.1]), t([1.0, 2.0001]), t([[1.0, 2.0]]), t([1, 2]), t([float("nan"), 1.0]),
        t([], dtype=torch.float32), t([1.0, 2.0], dtype=torch.float64), t([1.0]), t(1.0), t([True, False]), t([-1.0, -2.0]),
        t([0.0, 0.0]), t([1e-6, 0.0]),
    ]
    mid = [1, 2, 1.0, -1.0, "a", t([1.0, 2.0]), t([1.0, 3.0])]
    out = list(base)
    out += [(x,) for x in mid]
    out += [[x] for x in mid]
    out += [[], (), {}, [1, 2], [1, 3], [2, 2], [1], [1, 2, 3], (1, 2), (1, 3), (1, 2, 3), (2, 2), [[1], [2]], [[1], [3]], ([1], 2), ([2], 2), ((1,),), ((1, 2),)]
    out += [{"a": 1}, {"a": 2}, {"b": 1}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": 1, "b": 3}, {"a": [1]}, {"a": [2]}]
    return out


def search_values():
    fw, rp = mods()
    cs = corpus()
    for v in cs:
        for g in cs:
            if touches_known(v, g):
                continue
            want = spec_match(v, g)
            try:
                got = not rp.ValueReport(v, g, rp.ErrorContext.empty()).failed
            except Exception as e:
                got = repr(e)
            if want is not None and got != want:
                return {"value": repr(v), "golden": repr(g), "expected_pass": want, "code": got}
    return None


# ---------------------------------------------------------------- trace reports
def trace_item(thorough):
    fw, rp = mods()
    o = Oblig("TraceItemReport._evaluate_outcome")

    def run(c):
        global LOOPS
        LOOPS = True
        report_axioms()
        it = Interp(FILES, contracts())
        n, m = z3.Int("n_in"), z3.Int("m_in")
        c.assume(n >= 0)
        c.assume(m >= 0)
        sv, sg = z3.String("sym"), z3.String("gsym")
        item = fw.TraceItem(sv, S.SList(n, lambda i: Elem(S.zterm(i))), Elem(z3.IntVal(-1)))
        gold = fw.TraceItem(sg, S.SList(m, lambda i: Elem(1000000 + S.zterm(i))), Elem(z3.IntVal(-2)))
        obj = rp.TraceItemReport.__new__(rp.TraceItemReport)
        it.call(rp.TraceItemReport.__init__, [obj, item, gold, rp.ErrorContext.empty()], {})
        f = it.getattr(obj, "failed")
        fz = f if isinstance(f, z3.BoolRef) else z3.BoolVal(bool(f))
        i = z3.Int("qi")
        want = z3.And(
            sv == sg, n == m, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), MATCH(i, 1000000 + i))), MATCH(-1, -2)
        )
        return [
            ("a passing item matches in symbol, inputs and output", z3.Implies(z3.Not(fz), want)),
            ("a matching item passes", z3.Implies(want, z3.Not(fz))),
        ]

    return o.prove(run)


def search_items():
    fw, rp = mods()
    T = fw.TraceItem
    opts = [T(s, i, x) for s in ("f", "g") for i in ([], [1], [2], [1, 1], [1, 2]) for x in (1, 2)]
    for a in opts:
        for b in opts:
            want = a == b
            try:
                got = not rp.TraceItemReport(a, b, rp.ErrorContext.empty()).failed
            except Exception as e:
                got = repr(e)
            if got != want:
                return {"item": repr(a), "golden": repr(b), "expected_pass": want, "code": got}
    return None


ITEM = z3.Function("ITEMBAD", z3.IntSort(), z3.IntSort(), z3.BoolSort())


class Item:
    _pyvc_ok = True
    symbol = "<symbol>"

    def __init__(self, i):
        self.i = i

    def _pyvc_terms(self):
        return [self.i]

    def _pyvc_rebuild(self, t):
        return Item(t[0])


def item_report_contract(interp, a, k):
    return Rep(ITEM(S.zterm(a[0].i), S.zterm(a[1].i)), 1)


def single_test(thorough):
    fw, rp = mods()
    o = Oblig("SingleTestReport")
    for ce, re_ in ((None, None), ("boom", None), (None, "boom")):

        def run(c):
            it = Interp(FILES, contracts([(id(rp.TraceItemReport), item_report_contract)]))
            n, m = z3.Int("n_tr"), z3.Int("m_tr")
            c.assume(n >= 0)
            c.assume(m >= 0)
            tr = gt = None
            if ce is None and re_ is None:
                tr = S.SList(n, lambda i: Item(S.zterm(i)))
                gt = S.SList(m, lambda i: Item(1000000 + S.zterm(i)))
            res = fw.TestResult("t", ce, re_, tr, gt)
            obj = rp.SingleTestReport.__new__(rp.SingleTestReport)
            it.call(rp.SingleTestReport.__init__, [obj, res, rp.ErrorContext.empty()], {})
            f = it.getattr(obj, "failed")
            fz = f if isinstance(f, z3.BoolRef) else z3.BoolVal(bool(f))
            if ce is not None or re_ is not None:
                return [("an error fails the test", fz)]
            i = z3.Int("qi")
            want = z3.And(n == m, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Not(ITEM(i, 1000000 + i)))))
            if "trace-length" in KNOWN:
                return [
                    ("every item of a passing test passes", z3.Implies(z3.And(n == m, z3.Not(fz)), want)),
                    ("a test whose items pass passes", z3.Implies(want, z3.Not(fz))),
                ]
            return [
                ("a passing test has one trace item per golden item", z3.Implies(z3.Not(fz), n == m)),
                ("every item of a passing test passes", z3.Implies(z3.Not(fz), want)),
                ("a test whose items pass passes", z3.Implies(want, z3.Not(fz))),
            ]

        o.prove(run, tag=f"compilation_error={ce}, runtime_error={re_}: ")
    return o


def search_tests():
    fw, rp = mods()
    T, R = fw.TraceItem, fw.TestResult
    items = [T("f", [1], 1), T("f", [1], 2), T("g", [1], 1)]
    traces = [list(x) for n in range(3) for x in itertools.product(items, repeat=n)]
    cases = [(R("t", None, None, a, b), a == b) for a in traces for b in traces]
    cases += [(R("t", "e", None, None, None), False), (R("t", None, "e", None, None), False)]
    for r, want in cases:
        if "trace-length" in KNOWN and r.trace is not None and len(r.trace) != len(r.golden_trace):
            continue
        try:
            rep = rp.SingleTestReport(r, rp.ErrorContext.empty())
            got = not rep.failed
            if not got:
                rep.error_str()
        except Exception as e:
            got = repr(e)
        if got != want:
            return {"result": repr(r), "expected_pass": want, "code": got}
    return None


# ---------------------------------------------------------------- report_results
def results_verdict(thorough):
    """bounded: every list of at most 3 results"""
    fw, rp = mods()
    o = Oblig("report_results", bounded="at most 3 results")
    N = 4 if thorough else 3

    class Xfail:
        _pyvc_ok = True

        def __contains__(self, x):
            return bool(z3.Bool("xfail_" + x))

    class TestRep:
        _pyvc_ok = True

        def __init__(self, r):
            self.failed = z3.Bool("failed_" + r.unique_name)

        def error_str(self):
            return "<error>"

    for verbose in (False, True):
        for n in range(N + 1):

            def run(c):
                it = Interp(FILES, contracts([(id(rp.SingleTestReport), lambda i, a, k: TestRep(a[0])), (id(print), lambda i, a, k: None)]))
                rs = [fw.TestResult(f"t{i}", None, None, [], []) for i in range(n)]
                got = it.call(rp.report_results, [rs, Xfail(), verbose, "cfg"], {})
                gz = S.zterm(got) if C.is_sym(got) else z3.BoolVal(bool(got))
                unexpected = S.disj(*[z3.Bool(f"failed_t{i}") != z3.Bool(f"xfail_t{i}") for i in range(n)])
                return [("True exactly if some outcome is unexpected", gz == S.zterm(unexpected))]

            o.prove(run, tag=f"{n} results, verbose={verbose}: ")
    return o


def search_results():
    import contextlib
    import io

    fw, rp = mods()
    T, R = fw.TraceItem, fw.TestResult
    good = lambda n: R(n, None, None, [T("f", [], 1)], [T("f", [], 1)])
    bads = [lambda n: R(n, None, None, [T("f", [], 1)], [T("f", [], 2)]), lambda n: R(n, "e", None, None, None), lambda n: R(n, None, "e", None, None)]
    for n in range(4):
        for kinds in itertools.product((good, *bads), repeat=n):
            for xf in itertools.product((False, True), repeat=n):
                rs = [k(f"t{i}") for i, k in enumerate(kinds)]
                xs = {f"t{i}" for i in range(n) if xf[i]}
                want = any((k is not good) != x for k, x in zip(kinds, xf))
                for verbose in (False, True):
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            got = rp.report_results(list(rs), xs, verbose, "c")
                    except Exception as e:
                        got = repr(e)
                    if got != want:
                        return {"results": repr(rs), "expected_failures": sorted(xs), "expected": want, "code": got}
    return None


def demonstrate(ck):
    """the listed findings, each shown on the code as it is"""
    fw, rp = mods()
    T, R = fw.TraceItem, fw.TestResult
    for f in ck.known:
        KNOWN.add(f["id"])
        try:
            if f["id"] == "float-golden":
                still = not rp.ValueReport(1.0, -1.0, rp.ErrorContext.empty()).failed
            else:
                still = not rp.SingleTestReport(R("t", None, None, [], [T("f", [1], 1)]), rp.ErrorContext.empty()).failed
        except Exception:
            still = False
        if still:
            ck.known_finding(f["what"])
        else:
            KNOWN.discard(f["id"])  # repaired: the full contract applies


def main(prop):
    ck = Check(prop)
    t = ck.thorough
    st = {}
    demonstrate(ck)
    for f, s in (
        (value_report, search_values),
        (trace_item, search_items),
        (single_test, search_tests),
        (results_verdict, search_results),
    ):
        o, verdict = contract(ck, f, t, search=s)
        st[o.name] = (verdict, o.obl, o.done)
        ck.samples.append({"function": o.name, "obligations": o.obl, "status": st[o.name][0]})
    ck.cov["functions_under_contract"] = {k: {"status": v[0], "obligations": v[1], "discharged": v[2]} for k, v in st.items()}
    ck.finish(f"/opt/venv/bin/python -W ignore checks/e2e_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
