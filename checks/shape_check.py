"""Result-shape contracts of one family of operators (properties C01-C04)."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check  # noqa: E402
from checks import shape_prover as P  # noqa: E402
from pyvc import ctx as C, sched  # noqa: E402
from specs import shapes  # noqa: E402

FAM = {"C01": "elem", "C02": "red", "C03": "view", "C04": "nn"}


def decide(name, thorough, seed):
    """verdict for one function"""
    out = {"name": name, "violations": [], "obl": 0, "done": 0, "solver_ms": 0}
    ps = P.I.params(P.fn_of(name))

    def replay(p):
        for label, how, args in p.failed:
            if args is None:
                continue
            r = P.confirm(name, ps, args)
            if r:
                r["obligation"] = label
                r["verifier"] = how
                out["violations"].append(r)
                return True
        return False

    scale = 4 if thorough else 1
    p = P.Prover(name, "unbounded", budget_s=110 * scale)
    err = None
    try:
        p.prove()
    except (C.Unsupported, C.Budget) as e:
        err = f"{type(e).__name__}: {e}"
    except RecursionError:
        err = "recursion"
    out["obl"], out["done"] = p.obl, p.done
    if err is None and p.obl and p.obl == p.done:
        out["status"] = "proved" if not p.partial else "proved-partial"
        if p.partial:  # beyond what the proof covers, a search
            P.LONG[0] = True
            r, out["longer_lists_searched"] = P.random_search(name, n=4000, seed=seed, budget_s=5 * scale)
            if r:
                out["violations"].append({**r, "obligation": "result (more than three tensors)", "verifier": "contract evaluated on a concrete input"})
                out["status"] = "violated"
        return out
    if replay(p):
        out["status"] = "violated"
        return out
    out["unbounded"] = err or [f[:2] for f in p.failed[:4]]
    failed = list(p.failed)
    # a quick concrete search on the same contract
    r, n = P.random_search(name, n=3000, seed=seed, budget_s=6 * scale)
    out["search"] = n
    if r:
        r["obligation"] = failed[0][0] if failed else "result"
        r["verifier"] = "contract evaluated on a concrete input"
        out["violations"].append(r)
        out["status"] = "violated"
        return out
    # bounded stand-in: every rank up to the bound
    err = None
    for b in shapes.OPTS[name].get("bounds", (3, 4, 5, 6) if thorough else (3, 4)):
        q = P.Prover(name, "bounded", budget_s=60 * scale, bound=b)
        err = None
        try:
            q.prove()
        except (C.Unsupported, C.Budget) as e:
            err = f"{type(e).__name__}: {e}"
        except RecursionError:
            err = "recursion"
        if replay(q):
            out["status"] = "violated"
            return out
        if err or q.obl != q.done:
            failed += q.failed
            if not (err or "").startswith(("Unsupported", "recursion")):
                out.setdefault("bounded_tried", b)
            break
        if q.results:  # otherwise nothing of that size is a valid input
            out["bound"] = b
    if "bound" in out:
        out["status"] = "bounded"
        return out
    out["bounded"] = err or [f[:2] for f in q.failed[:4]]
    out["status"] = "open"
    out["failed"] = [f for f in failed if f[1] == "sat"][:4]
    return out


def main(prop):
    ck = Check(prop)
    P.lib()
    ho, hd = P.prove_helpers()
    ck.obl += ho
    ck.done += hd
    ck.cov["helper_contracts"] = {k: "discharged, used at call sites" if v else "not discharged, not used" for k, v in P.HELPERS.items()}
    names = [n for n in shapes.SPECS if shapes.FAMILY[n] == FAM[prop]]
    todo = [n for n in names if not shapes.OPTS[n].get("skip")]
    present = [n for n in todo if P.fn_of(n) is not None]
    if "--only" in sys.argv:
        present = [n for n in present if n in sys.argv]
    # the long ones first
    heavy = ("pool3d", "pool", "index", "broadcast_tensors", "_trilinear", "cat", "diag_embed", "movedim", "conv", "stft")
    present.sort(key=lambda n: 0 if any(h in n for h in heavy) else 1)
    res = sched.run_tasks(
        present,
        lambda n: decide(n, ck.thorough, ck.seed),
        workers=8,
        hard_s=(900 if ck.thorough else 240),
        deadline=time.time() + (3000 if ck.thorough else 420),
    )
    st = {}
    for n in present:
        r = res[n]
        s = r.get("status", "crash")
        st.setdefault(s, []).append(n)
        ck.obl += max(r.get("obl", 0), 1)
        if s in ("proved", "proved-partial"):
            ck.done += r["done"]
        elif s == "bounded":
            ck.done += min(r.get("done", 0), max(r.get("obl", 0), 1))
        for v in r.get("violations", [])[:1]:
            ck.violation(f"{n}: {v['obligation']}", v)
        if s == "open" and r.get("failed"):
            ck.violation(
                f"{n}: {r['failed'][0][0]}",
                {"function": n, "verifier": r["failed"], "unbounded": r.get("unbounded"), "bounded": r.get("bounded")},
                no_input=True,
            )
        elif s in ("open", "timeout", "crash", "skipped"):
            ck.undecide(n, str({k: v for k, v in r.items() if k in ("unbounded", "bounded", "error", "trace", "status")})[:700])
    for f in ck.known:
        fn = P.fn_of(f["function"])
        if fn is None:
            continue
        got = P.run_real(f["function"], f["args"])
        if got != ("ok", f["pytorch"]):
            ck.known_finding(f["what"] + f" (got {got[1]}, PyTorch gives {f['pytorch']})")
    ck.cov["functions_under_contract"] = len(present)
    ck.cov["proved_for_all_inputs"] = len(st.get("proved", []))
    ck.cov["proved_any_rank_at_most_3_tensors_in_a_list"] = st.get("proved-partial", [])
    ck.cov["bounded_stand_in"] = {n: f"every list of length <= {res[n]['bound']}" for n in st.get("bounded", [])}
    ck.cov["functions_without_contract"] = [n for n in names if shapes.OPTS[n].get("skip")] + [
        n for n in todo if n not in present
    ]
    ck.cov["slowest"] = sorted(((r.get("wall_s", 0), n) for n, r in res.items()), reverse=True)[:5]
    ck.samples = [
        {"function": n, "obligations": res[n].get("obl"), "status": res[n].get("status"), "seconds": res[n].get("wall_s")}
        for n in present[:: max(1, len(present) // 10)]
    ]
    ck.trusted += [
        "the contracts in specs/shapes.py (written from PyTorch's operator semantics; every replayed "
        "violation is also confronted with the installed PyTorch operator)",
    ]
    ck.assumptions += [
        "tensor sizes are >= 0; domain restrictions written as PRE clauses in specs/shapes.py",
        "inputs of recorded findings (KNOWN clauses) are excluded from the obligations",
        "torch.jit._shape_functions (installed dependency) is interpreted from its source, not assumed",
    ]
    ck.finish(f"/opt/venv/bin/python -W ignore checks/shape_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
