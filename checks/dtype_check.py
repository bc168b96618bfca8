"""Result-dtype contracts (C06) and operand-dtype rejection (C07) of the dtype functions."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check  # noqa: E402
from checks import shape_prover as P, dtype_prover as D  # noqa: E402
from pyvc import ctx as C, sched  # noqa: E402
from specs import dtypes, promotion  # noqa: E402


def decide(name, thorough, strict):
    out = {"name": name, "violations": [], "obl": 0, "done": 0}
    p = D.Prover(name, budget_s=60 * (4 if thorough else 1), strict=(lambda l: True) if strict else None)
    err = None
    try:
        p.prove()
    except (C.Unsupported, C.Budget) as e:
        err = f"{type(e).__name__}: {e}"
    except RecursionError:
        err = "recursion"
    out.update(obl=p.obl, done=p.done, clauses=sorted(p.labels))
    if err is None and p.obl == p.done:
        out["status"] = ("proved-partial" if p.partial else "proved") if p.obl else "no clause"
        return out
    for label, how, args in p.failed:
        if args is None:
            continue
        r = D.confirm_reject(name, args, label) if strict else D.confirm(name, args)
        if r:
            out["violations"].append({**r, "obligation": label, "verifier": how})
            out["status"] = "violated"
            return out
    out["status"] = "open"
    out["unbounded"] = err
    # failures PyTorch itself refutes (it does what the code does) are not violations
    out["failed"] = [] if strict else [f for f in p.failed if f[1] == "sat" and not D.agreed(name, f[2])][:4]
    # outside the prover's reach: every dtype and a few ranks, on the contract
    r, n = D.search(name, strict, budget_s=10 * (4 if thorough else 1))
    out["searched"] = n
    if r:
        out["violations"].append(r)
        out["status"] = "violated"
    return out


def main(prop):
    ck = Check(prop)
    strict = prop == "C07"
    P.lib()
    n, bad = promotion.validate()
    ck.cov["promotion_contract_vs_installed_pytorch"] = {"cases": n, "mismatches": len(bad)}
    if bad:
        print("# the promotion contract does not match the installed PyTorch:", bad[:3])
        sys.exit(2)
    present = [n for n in dtypes.SPECS if P.fn_of(n, "dtype") is not None]
    heavy = ("addbmm", "ldexp", "div", "elu", "clamp")
    present.sort(key=lambda n: 0 if any(h in n for h in heavy) else 1)
    res = sched.run_tasks(
        present,
        lambda n: decide(n, ck.thorough, strict),
        workers=8,
        hard_s=(900 if ck.thorough else 120),
        deadline=time.time() + (3000 if ck.thorough else 420),
    )
    st = {}
    nclauses = 0
    for n in present:
        r = res[n]
        s = r.get("status", "crash")
        st.setdefault(s, []).append(n)
        ck.obl += r.get("obl", 0) if s not in ("crash", "timeout") else 1
        nclauses += len(r.get("clauses", []))
        if s in ("proved", "proved-partial"):
            ck.done += r["done"]
        for v in r.get("violations", [])[:1]:
            ck.violation(f"{n}: {v['obligation']}", v)
        if s == "open" and r.get("failed"):
            ck.violation(
                f"{n}: {r['failed'][0][0]}",
                {"function": n, "verifier": r["failed"], "unbounded": r.get("unbounded")},
                no_input=True,
            )
        elif s in ("open", "timeout", "crash", "skipped"):
            ck.undecide(n, str({k: v for k, v in r.items() if k in ("unbounded", "error", "trace", "status")})[:700])
    for f in ck.known:
        if P.fn_of(f["function"], "dtype") is None:
            continue
        got = D.run_real(f["function"], D.from_json(f["args"]))
        if got != ("ok", f["pytorch"]):
            ck.known_finding(f"{f['what']} (got {got[1]}, PyTorch gives {f['pytorch']})")
    ck.cov["functions_under_contract"] = len(present)
    ck.cov["proved_for_all_inputs"] = len(st.get("proved", []))
    ck.cov["proved_for_at_most_3_tensors_in_a_list"] = st.get("proved-partial", [])
    if strict:
        ck.cov["clauses"] = nclauses
    ck.samples = [
        {"function": n, "obligations": res[n].get("obl"), "status": res[n].get("status"), "seconds": res[n].get("wall_s")}
        for n in present[:: max(1, len(present) // 10)]
    ]
    ck.trusted += [
        "the contracts in specs/dtypes.py (written from PyTorch's operator semantics; every replayed violation "
        "is also confronted with the installed PyTorch operator)",
        "promote_dtypes and get_dtype_of_scalar are used through their contracts here; C08 discharges them",
    ]
    ck.assumptions += [
        "operand dtypes are the twelve the library's own tests use (bool, u8, i8-i64, f16, bf16, f32, f64, c64, c128)",
        "domain restrictions written as PRE clauses, and inputs of recorded findings (KNOWN clauses), are excluded",
    ]
    ck.finish(f"/opt/venv/bin/python -W ignore checks/dtype_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
