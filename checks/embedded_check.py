"""The contracts of C01-C07 on the library the compiler embeds (C19 shapes, C20 dtypes).

lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp is decompiled on every run
(pyvc/embedded.py); every function under contract in specs/ is then proved against the
same contract as the Python function it was generated from."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check  # noqa: E402
from checks import shape_prover as P  # noqa: E402

P.EMBEDDED = True

from checks import dtype_check, dtype_prover as D, reject_check, shape_check  # noqa: E402
from pyvc import embedded, sched  # noqa: E402
from specs import dtypes, promotion, shapes  # noqa: E402

HEAVY = ("max_pool2d", "_trilinear", "pool3d", "pool", "movedim", "index", "view", "unflatten", "reshape", "cat", "broadcast_tensors", "conv", "stft", "addbmm", "ldexp", "div", "elu", "clamp")

TYPES = {
    "int": "int", "float": "float", "bool": "bool", "str": "str", "None": "none", "Device": "Device", "device": "Device",
    "Any": "any", "any": "any", "number": "number",
}


def annotated(t):
    """the type the MLIR function must give a parameter of this Python annotation"""
    import typing

    o, a = typing.get_origin(t), typing.get_args(t)
    if o is typing.Union and type(None) in a:
        rest = [x for x in a if x is not type(None)]
        inner = annotated(rest[0] if len(rest) == 1 else typing.Union[tuple(rest)])
        return None if inner is None else f"!torch.optional<{inner}>"
    if o is typing.Union:
        u = [annotated(x) for x in a]
        if None in u:
            return None
        return "!torch.union<" + ", ".join(u) + ">"
    if o is list:
        inner = annotated(a[0])
        return None if inner is None else f"!torch.list<{inner}>"
    if o is tuple:
        u = [annotated(x) for x in a]
        return None if None in u else f"!torch.tuple<{', '.join(u)}>"
    n = getattr(t, "__name__", str(t))
    return f"!torch.{TYPES[n]}" if n in TYPES else None


def squash(t):
    """printed inside another type the prefix is left out"""
    t = t.replace("!torch.", "").replace(" ", "")
    if t.startswith("union<"):
        t = "union<" + ",".join(sorted(embedded.split(t[6:-1]))) + ">"
    return t


def declared(name, kind):
    """(obligation, holds, detail) of one operator's function: there, and with the types
    of the library's function"""
    import inspect
    import typing

    from pyvc import load

    lib = P.lib()
    full = f"__torch_mlir_{kind}_fn.{name}"
    f = lib._functions.get(full)
    if f is None and full in lib._unsupported:
        return None  # there, and cannot be read
    if f is None:
        return f"{name} ({kind}): the embedded library has a function", False, {"missing": full}
    py = getattr(load.shape_lib(), name.replace(".", "〇") + "〡" + kind, None)
    if py is None:
        return None
    py = getattr(py, "__wrapped__", py)
    want = []
    try:
        hints = typing.get_type_hints(py)
    except Exception:
        return None
    for p in inspect.signature(py).parameters:
        want.append(annotated(hints[p]) if p in hints else None)
    if len(want) != len(f.ptypes):
        return f"{name} ({kind}): parameters", False, {"library": len(want), "embedded": f.ptypes}
    for w, g in zip(want, f.ptypes):
        if w is not None and squash(w) != squash(g):
            return f"{name} ({kind}): parameter types", False, {"library": want, "embedded": f.ptypes}
    return f"{name} ({kind}): declared", True, None


def decide(task, ck):
    what, name = task
    if what == "shape":
        return shape_check.decide(name, ck.thorough, ck.seed)
    if what == "reject":
        return reject_check.decide(name, ck.thorough, ck.seed)
    return dtype_check.decide(name, ck.thorough, what == "dtype-reject")


def main(prop):
    ck = Check(prop)
    lib = P.lib()
    kind = "shape" if prop == "C19" else "dtype"
    ck.cov["functions_decompiled"] = len(lib._functions) - len(lib._unsupported)
    ck.cov["functions_not_decompiled"] = lib._unsupported
    names = [n for n in shapes.SPECS if not shapes.OPTS[n].get("skip")] if kind == "shape" else list(dtypes.SPECS)
    for n in names:
        d = declared(n, kind)
        if d is None:
            continue
        ck.obl += 1
        ck.done += d[1]
        if not d[1]:
            ck.violation(d[0], {"function": n, **d[2]})
    present = [n for n in names if P.fn_of(n, kind) is not None]
    if kind == "shape":
        ho, hd = P.prove_helpers()
        ck.obl += ho
        ck.done += hd
        tasks = [("shape", n) for n in present] + [("reject", n) for n in reject_check.CLAUSES if P.fn_of(n) is not None]
    else:
        n, bad = promotion.validate()
        ck.cov["promotion_contract_vs_installed_pytorch"] = {"cases": n, "mismatches": len(bad)}
        if bad:
            print("# the promotion contract does not match the installed PyTorch:", bad[:3])
            sys.exit(2)
        tasks = [(w, n) for w in ("dtype", "dtype-reject") for n in present]
    if "--only" in sys.argv:
        tasks = [t for t in tasks if t[1] in sys.argv]
    tasks.sort(key=lambda t: next((i for i, h in enumerate(HEAVY) if h in t[1]), len(HEAVY)))
    res = sched.run_tasks(
        tasks,
        lambda t: decide(t, ck),
        workers=8,
        hard_s=(900 if ck.thorough else 240),
        deadline=time.time() + (3000 if ck.thorough else 560),
    )
    st = {}
    for n in names:
        if n not in present and f"__torch_mlir_{kind}_fn.{n}" in set(lib._unsupported) | set(lib._functions):
            ck.obl += 1
            ck.undecide(n, "the function is outside the subset that is read")
    for t in tasks:
        r = res[t]
        s = r.get("status", "crash")
        label = t[1] if t[0] in ("shape", "dtype") else f"{t[1]} (rejects)"
        st.setdefault(s, []).append(label)
        ck.obl += r.get("obl", 0) if s == "no clause" else max(r.get("obl", 0), 1)
        if s in ("proved", "proved-partial"):
            ck.done += r["done"]
        elif s == "bounded":
            ck.done += min(r.get("done", 0), max(r.get("obl", 0), 1))
        for v in r.get("violations", [])[:1]:
            ck.violation(f"{label}: {v['obligation']}", v)
        if s == "open" and r.get("failed"):
            ck.violation(
                f"{label}: {r['failed'][0][0]}",
                {"function": t[1], "verifier": r["failed"], "unbounded": r.get("unbounded"), "bounded": r.get("bounded")},
                no_input=True,
            )
        elif s in ("open", "timeout", "crash", "skipped"):
            ck.undecide(label, str({k: v for k, v in r.items() if k in ("unbounded", "bounded", "error", "trace", "status")})[:700])
    for f in ck.known:
        if P.fn_of(f["function"], kind) is None:
            continue
        got = P.run_real(f["function"], f["args"]) if kind == "shape" else D.run_real(f["function"], D.from_json(f["args"]))
        if got != ("ok", f["pytorch"]):
            ck.known_finding(f"{f['what']} (got {got[1]}, PyTorch gives {f['pytorch']})")
    ck.cov["functions_under_contract"] = len(present)
    ck.cov["proved_for_all_inputs"] = len(st.get("proved", []))
    ck.cov["proved_for_at_most_3_tensors_in_a_list"] = st.get("proved-partial", [])
    ck.cov["bounded_stand_in"] = {n: "lists of bounded length" for n in st.get("bounded", [])}
    ck.cov["slowest"] = sorted(((r.get("wall_s", 0), n) for n, r in res.items()), reverse=True)[:5]
    ck.samples = [
        {"function": t[1], "contract": t[0], "obligations": res[t].get("obl"), "status": res[t].get("status"), "seconds": res[t].get("wall_s")}
        for t in tasks[:: max(1, len(tasks) // 10)]
    ]
    ck.trusted += [
        "the contracts in specs/ (see C01-C07)",
        "pyvc/embedded.py: that a torch-dialect operation means the Python expression it is written as (aten.add.int is +, prim.Loop is a for/while loop, ...)",
        "torch.promote_dtypes is used through its contract (C08)" if kind == "dtype" else "a list has at most 2**63 - 1 elements",
    ]
    ck.assumptions += [
        "tensor sizes are >= 0; domain restrictions written as PRE clauses, and inputs of recorded findings (KNOWN clauses), are excluded",
        "dropped by the decompilation: types of intermediate values, texts of error messages",
    ]
    ck.finish(f"/opt/venv/bin/python -W ignore checks/embedded_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
