"""Type promotion of operand lists and dtype predicates (C08): library_generator.py."""
import importlib
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check, VERIF  # noqa: E402
from checks.oblig import Oblig, contract  # noqa: E402
from checks.dtype_prover import DtInterp, generator_module  # noqa: E402
from pyvc import ctx as C, sval as S, load  # noqa: E402
from specs import promotion as PR  # noqa: E402
from specs.dsl import OR, EQ, ITE  # noqa: E402

z3 = C.z3
FILES = [load.PT1 + "/torch_mlir/jit_ir_importer/build_tools/library_generator.py"]
KNOWN = json.load(open(os.path.join(VERIF, "specs", "promote3_known.json")))
NUMS = (PR.I64, PR.F64)


class Ten:
    """a tensor: only its rank and dtype are looked at"""

    _pyvc_ok = True

    def __init__(self, rank, dt):
        self.rank, self._dt = rank, dt

    def to(self, dtype):
        return Ten(self.rank, PR.code_of(dtype))

    dtype = property(lambda s: s._dt)


def item_of(x):
    if isinstance(x, Ten):
        return (x.rank, x._dt)
    if isinstance(x, bool) or isinstance(x, z3.BoolRef):
        return (None, PR.BOOL)
    if isinstance(x, int) or (isinstance(x, z3.ArithRef) and x.is_int()):
        return (None, PR.I64)
    return (None, PR.F64)


def factory(default):
    """torch.rand/zeros/ones/empty(list of ones): rank and dtype"""

    def h(it, a, k):
        size = a[0] if a else k["size"]
        dt = k.get("dtype")
        if isinstance(size, (list, tuple, S.SList)):
            return Ten(S.length(size), default if dt is None else PR.code_of(dt))
        return Ten(len(a), default if dt is None else PR.code_of(dt))

    return h


def result_type(it, a, k):
    x, y = a
    if not isinstance(x, Ten) and not isinstance(y, Ten):
        # two numbers: the default dtype of the wider one
        return PR.COMBINE(PR.UNDEF, PR.COMBINE(PR.UNDEF, PR.JOIN(*[PR.lookup(item_of(v)[1], {PR.F64: PR.F32}, item_of(v)[1]) for v in a])))
    return PR.RESULT([item_of(x), item_of(y)])


class Prim:
    _pyvc_ok = True


def contracts():
    import torch

    con = {
        id(torch.result_type): result_type,
        id(torch.promote_types): lambda it, a, k: PR.JOIN(PR.code_of(a[0]), PR.code_of(a[1])),
    }
    for f in (torch.rand, torch.zeros, torch.ones, torch.empty, torch.randn):
        con[id(f)] = factory(PR.F32)
    return con


def interp():
    return DtInterp(FILES, contracts())


def G():
    return generator_module()


def member(v, xs):
    return z3.Or(*[v == x for x in xs])


# ---------------------------------------------------------------- predicates
def predicates(t):
    g = G()
    import torch

    o = Oblig("dtype predicates and lists")
    want = {
        "is_integer_dtype": PR.INTS,
        "is_float_dtype": PR.FLOATS,
        "is_complex_dtype": (PR.C64, PR.C128),
    }
    for name, xs in want.items():

        def run(c):
            d = z3.Int("d")
            c.assume(member(d, PR.DTYPES))
            r = interp().call(getattr(g, name), [d], {})
            return [(f"{name}: true exactly for its category", S.zterm(r) == member(d, xs))]

        o.prove(run)
    for name, xs in (("all_integer_dtypes", PR.INTS), ("all_float_dtypes", PR.FLOATS), ("all_complex_dtypes", (PR.C64, PR.C128))):

        def lists(c):
            r = [PR.code_of(x) for x in interp().call(getattr(g, name), [], {})]
            return [(f"{name}: exactly its category", sorted(r) == sorted(xs))]

        o.prove(lists)
    return o


def search_predicates():
    g = G()
    for c in PR.DTYPES:
        d = PR.torch_dtype(c)
        for name, want in (
            ("is_integer_dtype", not d.is_floating_point and not d.is_complex),
            ("is_float_dtype", d.is_floating_point),
            ("is_complex_dtype", d.is_complex),
        ):
            try:
                got = getattr(g, name)(d)
            except Exception as e:
                got = repr(e)
            if got != want:
                return {"function": name, "dtype": str(d), "expected": want, "code": got}
        for name, i in (("all_integer_dtypes", 0), ("all_float_dtypes", 1), ("all_complex_dtypes", 2)):
            want = i == (1 if d.is_floating_point else 2 if d.is_complex else 0)
            if (list(getattr(g, name)()).count(d)) != int(want):
                return {"function": name, "dtype": str(d), "expected": want}
    return None


def priority(t):
    g = G()
    o = Oblig("get_priority_of_dtype")

    def run(c):
        a, b = z3.Int("a"), z3.Int("b")
        c.assume(member(a, PR.DTYPES))
        c.assume(member(b, PR.DTYPES))
        j = PR.JOIN(a, b)
        f = lambda d: interp().call(g.get_priority_of_dtype, [d], {})
        pa, pb, pj = f(a), f(b), f(j)
        z = S.zterm
        return [
            ("different dtypes have different priorities", z3.Implies(a != b, z(pa) != z(pb))),
            ("a type that another promotes to has no lower priority", z3.And(z(pj) >= z(pa), z(pj) >= z(pb))),
        ]

    o.prove(run, max_paths=4000, budget_s=200)

    def bad(c):
        d = z3.Int("d")
        c.assume(z3.Not(member(d, PR.DTYPES)))
        c.assume(z3.And(d >= 0, d < 64))
        interp().call(g.get_priority_of_dtype, [d], {})
        return [("an unsupported dtype is rejected", False)]

    o.prove(bad, raises=lambda e: [("an unsupported dtype is rejected", True)])
    return o


def search_priority():
    import torch

    g = G()
    ds = [PR.torch_dtype(c) for c in PR.DTYPES]
    for a in ds:
        for b in ds:
            try:
                p = {d: g.get_priority_of_dtype(d) for d in (a, b, torch.promote_types(a, b))}
            except Exception as e:
                return {"dtypes": [str(a), str(b)], "code": repr(e)}
            if (a != b and p[a] == p[b]) or p[torch.promote_types(a, b)] < max(p[a], p[b]):
                return {"dtypes": [str(a), str(b)], "code": {str(k): v for k, v in p.items()}}
    for d in (torch.complex32, torch.qint8):
        try:
            return {"dtype": str(d), "code": g.get_priority_of_dtype(d)}
        except Exception:
            pass
    return None


# ---------------------------------------------------------------- promotion
def operand(c, kind, i):
    d = z3.Int(f"d{i}")
    if kind == "S":
        c.assume(member(d, NUMS))
        return None, d
    c.assume(member(d, PR.DTYPES))
    if kind == "Z":
        return 0, d
    r = z3.Int(f"r{i}")
    c.assume(r >= 1)
    return r, d


def kind_of(r):
    return "S" if r is None else "Z" if r == 0 else "D"


def supported(items):
    """no pair promotes to a type outside the twelve (half x complex -> complex32)"""
    goals = []
    for n in range(2, len(items) + 1):
        for sub in itertools.combinations(items, n):
            goals.append(OR(*[EQ(PR.RESULT(list(sub)), x) for x in PR.DTYPES]))
    return S.conj(*goals)


def known(kinds, ds):
    rows = KNOWN.get("".join(kinds), [])
    return OR(*[S.conj(*[EQ(d, x) for d, x in zip(ds, row)]) for row in rows]) if rows else False


def promote_n(n):
    g = G()
    name = f"promote_dtypes of {n} operand{'s' if n > 1 else ''}"

    def pattern(kinds):
        o = Oblig(name, q_ms=60000)

        def run(c):
            items = [operand(c, k, i) for i, k in enumerate(kinds)]
            ok = supported(items)
            if ok is not True:
                c.assume(S.zterm(ok))
            got = interp().call(g.promote_dtypes, [[r for r, d in items], [d for r, d in items]], {})
            want = PR.RESULT(items)
            return [("the PyTorch result type", OR(S.eq(got, want), known(kinds, [d for r, d in items])))]

        return o.prove(run, tag="".join(kinds) + ": ", max_paths=3000, budget_s=250)

    return Oblig(name, bounded="exactly 3 operands, every mix of kinds" if n == 3 else None).parallel(list(itertools.product("DZS", repeat=n)), pattern)


def promote_any():
    """Any number of operands of one kind: the join of their dtypes."""
    g = G()
    o = Oblig("promote_dtypes of any number of operands of one kind")
    for kind in "DZS":
        D = z3.Function(f"D{kind}", z3.IntSort(), z3.IntSort())
        R = z3.Function(f"R{kind}", z3.IntSort(), z3.IntSort())
        J = z3.Function(f"J{kind}", z3.IntSort(), z3.IntSort())
        M = z3.Function(f"M{kind}", z3.IntSort(), z3.IntSort())
        dom = NUMS if kind == "S" else PR.DTYPES

        def facts(k):
            f = []
            for i in (z3.IntVal(0), k, k + 1):
                f += [member(D(i), dom), member(J(i), dom), J(i + 1) == PR.JOIN(J(i), D(i))]
                f += [R(i) == 0, M(i) == 0] if kind == "Z" else [R(i) >= 1, M(i) >= 1, M(i + 1) == z3.If(M(i) >= R(i), M(i), R(i))]
            f += [J(0) == D(0), M(0) == R(0), member(J(k + 2), dom)]
            return z3.And(*f)

        def run(c):
            n = z3.Int("n")
            c.assume(n >= 1)
            c.assume(facts(z3.IntVal(0)))
            it = interp()
            it.loop_templates = (
                [lambda k: J(k), lambda k: J(k + 1)]
                + ([lambda k: None] if kind == "S" else [lambda k: z3.IntVal(0)] if kind == "Z" else [lambda k: M(k), lambda k: M(k + 1)]),
                facts,
            )
            ranks = S.SList(n, lambda i: None if kind == "S" else 0 if kind == "Z" else R(S.zterm(i)))
            dts = S.SList(n, lambda i: D(S.zterm(i)))
            got = it.call(g.promote_dtypes, [ranks, dts], {})
            return [("the join of the dtypes", got == J(n))]

        o.prove(run, tag={"D": "tensors", "Z": "zero-dim tensors", "S": "numbers"}[kind] + ": ")
    return o


def run_real(items):
    g = G()
    try:
        return PR.code_of(g.promote_dtypes([r for r, d in items], [PR.torch_dtype(d) for r, d in items]))
    except Exception as e:
        return repr(e)


def search_promote():
    def ops(rs):
        for r in rs:
            for d in NUMS if r is None else PR.DTYPES:
                yield (r, d)

    for n, rs in ((1, (0, 1, 3, None)), (2, (0, 1, 3, None)), (3, (0, 1, 2, None))):
        for items in itertools.product(ops(rs), repeat=n):
            items = list(items)
            if n == 3 and any(r == 2 for r, d in items) and not any(r == 1 for r, d in items):
                continue
            if supported(items) is not True:
                continue
            ks = "".join(kind_of(r) for r, d in items)
            want = PR.RESULT(items)
            got = run_real(items)
            if got != want and [d for r, d in items] not in KNOWN.get(ks, []):
                return {
                    "ranks": [r for r, d in items],
                    "dtypes": [str(PR.torch_dtype(d)) for r, d in items],
                    "expected": str(PR.torch_dtype(want)),
                    "code": str(PR.torch_dtype(got)) if isinstance(got, int) else got,
                }
    return None


def scalar_dtype(t):
    """get_dtype_of_scalar: the dtype PyTorch gives a python number (finite: one case per type)."""
    g = G()
    o = Oblig("get_dtype_of_scalar", bounded="a finite case list per type, run natively")
    import torch

    def run(c):
        out = []
        for v, w in ((0, torch.int64), (-7, torch.int64), (2**40, torch.int64), (0.0, torch.float64), (1.5, torch.float64), (1e300, torch.float64), (1j, torch.complex128)):
            if isinstance(v, complex):
                w = torch.ops.prim.NumToTensor(v).dtype
            got = g.get_dtype_of_scalar(v)
            out.append((f"{v!r}", got == w))
        return out

    return o.prove(run)


def main(prop):
    ck = Check(prop)
    n, bad = PR.validate()
    ck.cov["promotion_contract_vs_installed_pytorch"] = {"cases": n, "mismatches": len(bad)}
    if bad:
        print("# the promotion contract does not match the installed PyTorch:", bad[:3])
        sys.exit(2)
    st = {}
    for f, s in (
        (lambda t: predicates(t), search_predicates),
        (lambda t: priority(t), search_priority),
        (lambda t: promote_n(1), search_promote),
        (lambda t: promote_n(2), search_promote),
        (lambda t: promote_n(3), search_promote),
        (lambda t: promote_any(), search_promote),
        (scalar_dtype, None),
    ):
        o, verdict = contract(ck, f, ck.thorough, search=s)
        st[o.name] = (verdict, o.obl, o.done)
        ck.samples.append({"function": o.name, "obligations": o.obl, "status": st[o.name][0]})
    for ks, rows in sorted(KNOWN.items()):
        rank = {"D": 1, "Z": 0, "S": None}
        live = [row for row in rows if run_real([(rank[k], d) for k, d in zip(ks, row)]) != PR.RESULT([(rank[k], d) for k, d in zip(ks, row)])]
        if live:
            row = live[0]
            ck.known_finding(
                f"promote_dtypes folds pairwise: {len(live)} dtype triples for operands "
                + str([{"D": "tensor", "Z": "zero-dim tensor", "S": "number"}[k] for k in ks])
                + f", e.g. {[str(PR.torch_dtype(d)) for d in row]} gives {PR.torch_dtype(run_real([(rank[k], d) for k, d in zip(ks, row)]))}, PyTorch gives {PR.torch_dtype(PR.RESULT([(rank[k], d) for k, d in zip(ks, row)]))}"
            )
    ck.cov["functions_under_contract"] = {k: {"status": v[0], "obligations": v[1], "discharged": v[2]} for k, v in st.items()}
    ck.assumptions += [
        "operands whose promotion leaves the twelve supported dtypes (float16/bfloat16 with zero-dim complex) are excluded",
        "torch.result_type and torch.promote_types through the contracts of specs/promotion.py, compared with the installed PyTorch on every run",
        "recorded deviations for three mixed operands: specs/promote3_known.json",
    ]
    ck.finish(f"/opt/venv/bin/python -W ignore checks/promote_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
