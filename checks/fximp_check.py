"""C12-C15: the FX importer against its contracts.

Every contract below is discharged by z3 over all paths of the interpreted code of
fx_importer.py. The corpus (fxcorpus.py) imports programs with the same code and runs
what was emitted; it supplies failing inputs and is reported as a bounded stand-in."""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks import fxeval as E  # noqa: E402
from checks.common import Check  # noqa: E402
from checks.oblig import Oblig, settle  # noqa: E402
from pyvc import ctx as C, load, sched  # noqa: E402

CONTRACTS = {
    "C12": [("fximp_flow", n) for n in (
        "import_nodes", "overload", "convert_type", "argument", "scalar_tensor", "list_argument", "binding", "getitem", "result_types",
        "emit", "builtins_", "while_loop", "auto_functionalized", "flex_attention", "canonicalisers", "node_location")],
    "C13": [("fximp_types", n) for n in (
        "tables", "vtensor_type", "dtype_cache", "metadata_cache", "sparsity", "value_types", "literals", "import_literal", "tensor_literal",
        "tracker", "type_map")],
    "C14": [("fximp_prog", n) for n in (
        "mutated_input", "state", "outputs", "the_program", "child_modules", "graph_module", "stateless_graph", "function_meta", "frozen_program")],
    "C15": [("fximp_syms", n) for n in ("expressions", "ranges", "symbol_ops", "bind_ops")],
}
# what a program that is imported wrongly, or no longer, can raise from inside the importer
REJECTS = (AssertionError, KeyError, IndexError, ValueError, RuntimeError, ZeroDivisionError)


def run_case(f):
    """None, or what the imported program does wrong; Undecided if the harness does not fit"""
    try:
        f()
        return None
    except E.Wrong as e:
        return str(e)[:1500]
    except Exception as e:
        fr = traceback.extract_tb(e.__traceback__)[-1]
        inside = os.path.abspath(fr.filename) == os.path.abspath(E.FX().__file__)
        raised = (fr.line or "").lstrip().startswith(("raise", "assert"))
        if inside and (isinstance(e, REJECTS) or raised):
            return f"the importer stops with {type(e).__name__}: {e}"[:1500]
        raise


def corpus(prop, names=None):
    from checks import fxcorpus as X

    cases = {nm: f for props, nm, f in X.CASES if prop in props and (names is None or nm in names)}

    def task(nm):
        try:
            return {"wrong": run_case(cases[nm])}
        except Exception as e:
            return {"error": f"{type(e).__name__}: {e}"[:300], "at": str(traceback.extract_tb(e.__traceback__)[-1])[:200]}

    return sched.run_tasks(list(cases), task, hard_s=150)


def main(prop):
    ck = Check(prop)
    E.FX()
    wrong, done = [], []
    for nm, r in corpus(prop).items():
        if r.get("wrong"):
            wrong.append({"case": nm, "module": "checks/fxcorpus.py", "what": r["wrong"]})
        elif "wrong" in r:
            done.append(nm)
        else:
            ck.undecide(f"program {nm}", str(r.get("error") or r.get("status")) + " " + str(r.get("at", "")))
    todo = CONTRACTS[prop]

    def task(t):
        m = importlib.import_module("checks." + t[0])
        try:
            o = getattr(m, t[1])()
        except C.PyRaise as e:
            return {"fail": f"raised {e}"[:300]}
        except BaseException as e:
            return {"fail": f"{type(e).__name__}: {e}"[:300]}
        return {"oblig": [{**x.data(), "name": x.name, "bounded": x.bounded} for x in (o if isinstance(o, list) else [o])]}

    st = {}
    for t, r in sched.run_tasks(todo, task, hard_s=400).items():
        for d in r.get("oblig") or [None]:
            o = Oblig(d["name"] if d else t[1], bounded=d["bounded"] if d else None)
            if d is None:
                o.obl, o.unsupported = 1, r.get("fail") or r.get("status")
            else:
                o.obl, o.done, o.paths, o.unsupported, o.labels = d["obl"], d["done"], d["paths"], d["unsupported"], d["labels"]
                o.failed = [(a, b, m, None) for a, b, m in d["failed"]]
            v = settle(ck, o, (lambda: {"input": wrong[0]}) if wrong else None)
            st[o.name] = {"status": v, "obligations": o.obl, "discharged": o.done, "paths": o.paths, "solver_s": r.get("wall_s")}
            ck.samples.append({"function": o.name, "obligations": o.obl, "status": v})
    if wrong and not ck.viol:
        for w in wrong:
            ck.violation(f"program {w['case']}: imported as something else", {"input": w})
    ck.cov.setdefault("bounded_stand_ins", []).append({"function": "the importer as a whole", "bound": f"{len(done) + len(wrong)} programs, imported and evaluated", "programs": done})
    ck.cov["functions_under_contract"] = st
    ck.cov["backend"] = {"z3": True}
    ck.assumptions += [
        "MLIR's Python bindings (not built here) behave as the recorder pyvc/mlir_rec.py: an operation has the operands, attributes, result types and location it was created with, at the insertion point",
        "torch.fx nodes, torch.export programs and schemas have the attributes PyTorch documents",
        "within one contract the importer's other functions are replaced by their own contracts",
    ]
    ck.finish(f"/opt/venv/bin/python -W ignore checks/fximp_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
