"""Property C05: invalid operand combinations are rejected, not given a shape."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.common import Check, VERIF  # noqa: E402
from checks import shape_prover as P  # noqa: E402
from pyvc import ctx as C, sched  # noqa: E402
from specs import shapes  # noqa: E402

CLAUSES = json.load(open(os.path.join(VERIF, "specs", "strict_clauses.json")))


def decide(name, thorough, seed):
    labels = set(CLAUSES[name])
    out = {"violations": [], "obl": 0, "done": 0}
    ps = P.I.params(P.fn_of(name))
    scale = 4 if thorough else 1

    def replay(p):
        for label, how, args in p.failed:
            if args is None:
                continue
            clause = label.replace("rejects: ", "")
            st, lab = P.run_spec(name, args)
            r = P.confirm_reject(name, ps, args, clause)
            if r:
                r["obligation"] = label
                r["verifier"] = how
                out["violations"].append(r)
                return True
        return False

    def attempt(mode, budget, bound=3):
        p = P.Prover(name, mode, budget_s=budget, bound=bound, strict=lambda l: l in labels)
        try:
            p.prove()
            return p, None
        except (C.Unsupported, C.Budget) as e:
            return p, f"{type(e).__name__}: {e}"
        except RecursionError:
            return p, "recursion"

    p, err = attempt("unbounded", 110 * scale)
    missing = labels - set(p.labels)
    bad = {l for l, v in p.labels.items() if v[1]}
    out["obl"], out["done"] = p.obl, p.done
    if err is None and p.obl == p.done and not missing:
        out["status"] = "proved" if not p.partial else "proved-partial"
        if p.partial:  # beyond what the proof covers, a search
            P.LONG[0] = True
            r, out["longer_lists_searched"] = P.random_search(name, n=3000, seed=seed, budget_s=4 * scale, strict=labels)
            if r:
                out["violations"].append({**r, "obligation": r["contract"]})
                out["status"] = "violated"
        return out
    if replay(p):
        out["status"] = "violated"
        return out
    out["unbounded"] = err or [f[:2] for f in p.failed[:4]] or f"clauses never reached: {sorted(missing)}"
    r, n = P.random_search(name, n=3000, seed=seed, budget_s=6 * scale, strict=labels)
    if r:
        r["obligation"] = r["contract"]
        out["violations"].append(r)
        out["status"] = "violated"
        return out
    for b in shapes.OPTS[name].get("bounds", (3, 4)):
        q, err = attempt("bounded", 60 * scale, b)
        if replay(q):
            out["status"] = "violated"
            return out
        if err or q.obl != q.done:
            out["bounded"] = err or [f[:2] for f in q.failed[:4]]
            break
        if not labels - set(q.labels):
            out["bound"] = b
    if "bound" in out:
        out["status"] = "bounded"
        return out
    out["status"] = "open"
    out["failed"] = [f for f in p.failed if f[1] == "sat"][:3] if err is None else []
    return out


def main(prop):
    ck = Check(prop)
    P.lib()
    ho, hd = P.prove_helpers()
    ck.obl += ho
    ck.done += hd
    present = [n for n in CLAUSES if P.fn_of(n) is not None]
    heavy = ("pool3d", "pool", "broadcast_tensors", "stft", "index", "cat", "diag_embed", "_trilinear")
    present.sort(key=lambda n: 0 if any(h in n for h in heavy) else 1)
    res = sched.run_tasks(
        present,
        lambda n: decide(n, ck.thorough, ck.seed),
        workers=8,
        hard_s=(900 if ck.thorough else 240),
        deadline=time.time() + (3000 if ck.thorough else 420),
    )
    st = {}
    for n in present:
        r = res[n]
        s = r.get("status", "crash")
        st.setdefault(s, []).append(n)
        ck.obl += max(r.get("obl", 0), 1)
        if s in ("proved", "proved-partial"):
            ck.done += r["done"]
        elif s == "bounded":
            ck.done += r.get("done", 0)
        for v in r.get("violations", [])[:1]:
            ck.violation(f"{n}: {v['obligation']}", v)
        if s in ("open", "timeout", "crash", "skipped"):
            ck.undecide(n, str({k: v for k, v in r.items() if k in ("unbounded", "bounded", "error", "trace", "status")})[:700])
    for f in ck.known:
        fn = P.fn_of(f["function"])
        if fn is not None and P.run_real(f["function"], f["args"])[0] == "ok":
            ck.known_finding(f["what"])
    ck.cov["functions_under_contract"] = len(present)
    ck.cov["clauses"] = sum(len(CLAUSES[n]) for n in present)
    ck.cov["proved_for_all_inputs"] = len(st.get("proved", []))
    ck.cov["proved_any_rank_at_most_3_tensors_in_a_list"] = st.get("proved-partial", [])
    ck.cov["bounded_stand_in"] = {n: f"every list of length <= {res[n]['bound']}" for n in st.get("bounded", [])}
    ck.samples = [
        {"function": n, "clauses": CLAUSES[n], "status": res[n].get("status"), "seconds": res[n].get("wall_s")}
        for n in present[:: max(1, len(present) // 10)]
    ]
    ck.trusted += ["the precondition clauses in specs/shapes.py; which of them a function enforces is the committed list specs/strict_clauses.json"]
    ck.assumptions += [
        "each clause is judged with the clauses before it satisfied",
        "an input counts as a violation only if the installed PyTorch operator rejects it too (or cannot be run here)",
    ]
    ck.finish(f"/opt/venv/bin/python -W ignore checks/reject_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
