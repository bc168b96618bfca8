"""One-off: record which precondition clauses the shape functions enforce.

Run on the reference tree only; the result, specs/strict_clauses.json, is committed
and is the contract of property C05 (never rewritten by a check)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import shape_prover as P  # noqa: E402
from pyvc import ctx as C, sched  # noqa: E402
from specs import shapes  # noqa: E402


def task(n):
    p = P.Prover(n, "unbounded", budget_s=200, strict=lambda l: True)
    try:
        p.prove()
    except (C.Unsupported, C.Budget):
        p = P.Prover(n, "bounded", budget_s=200, bound=3, strict=lambda l: True)
        try:
            p.prove()
        except (C.Unsupported, C.Budget):
            return []
    return sorted(l for l, v in p.labels.items() if v[0] and not v[1] and l and not l.startswith(("pre:", "known:")))


if __name__ == "__main__":
    P.lib()
    P.prove_helpers()
    names = [n for n in shapes.SPECS if not shapes.OPTS[n].get("skip")]
    r = sched.run_tasks(names, task, hard_s=420)
    out = {n: r[n] for n in sorted(r) if isinstance(r[n], list) and r[n]}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs", "strict_clauses.json"), "w") as f:
        json.dump(out, f, indent=0)
    print(sum(map(len, out.values())), "clauses of", len(out), "functions", [n for n in r if not isinstance(r[n], list)])
