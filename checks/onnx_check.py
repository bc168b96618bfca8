"""C16-C18: the ONNX importer against its contracts.

Every contract below is discharged by z3 over all paths of the interpreted code of
onnx_importer.py. The corpus (onnxcorpus.py) imports models with the same code and
runs what was emitted; it supplies failing inputs and is reported as a bounded stand-in."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks import onnxcorpus as K, onnxeval as E  # noqa: E402
from checks.common import Check  # noqa: E402
from checks.oblig import Oblig, settle  # noqa: E402
from pyvc import ctx as C, sched  # noqa: E402

CONTRACTS = {
    "C16": [("onnx_flow", n) for n in (
        "import_node", "import_all", "get_none", "none_type", "define_function", "graph_attrs", "import_regions", "import_initializer",
        "constants", "graph_info", "find_type")],
    "C17": [("onnx_types", n) for n in (
        "element_types", "vtensor_type", "type_proto", "wrapper_types", "builtin_type", "tensor_attr", "names", "attributes")],
    "C18": [("onnx_fn", n) for n in ("clear_list", "bind_node", "specialize", "operator_function")],
}
GROUPS = 8


def run_case(f):
    """None, or what the imported model does wrong"""
    try:
        f()
        return None
    except E.Wrong as e:
        return str(e)[:1500]
    except Exception as e:
        inside = [x for x in traceback.extract_tb(e.__traceback__) if os.path.abspath(x.filename) == os.path.abspath(E.OX().__file__)]
        if inside:
            return f"the importer stops with {type(e).__name__}: {e}"[:1500]
        raise


def corpus(prop):
    cases = {nm: (props, f) for props, nm, f in K.CASES}
    paths = K.backend_models()

    def task(t):
        try:
            if isinstance(t, str):
                return {"wrong": run_case(cases[t][1])}
            g, expand = t
            w, n, unrun = K.backend(paths[g::GROUPS], expand)
            return {"models": w, "n": n, "unrun": unrun}
        except Exception as e:
            return {"error": f"{type(e).__name__}: {e}"[:300], "at": str(traceback.extract_tb(e.__traceback__)[-1])[:200]}

    tasks = list(cases)
    if prop in ("C16", "C18"):
        tasks += [(g, prop == "C18") for g in range(GROUPS)]
    return {t: (cases[t][0] if isinstance(t, str) else (prop,), r) for t, r in sched.run_tasks(tasks, task, hard_s=240).items()}


def main(prop):
    ck = Check(prop)
    E.OX()
    mine, others, done, n, unrun = [], [], [], 0, 0
    for nm, (props, r) in corpus(prop).items():
        if r.get("wrong"):
            (mine if prop in props else others).append({"case": nm, "module": "checks/onnxcorpus.py", "what": r["wrong"]})
        elif "wrong" in r:
            done.append(nm)
        elif "models" in r:
            mine += [{"backend test": a, "every function expanded": prop == "C18", "what": b} for a, b in r["models"]]
            n, unrun = n + r["n"], unrun + r["unrun"]
        else:
            ck.undecide(f"models {nm}", str(r.get("error") or r.get("status")) + " " + str(r.get("at", "")))

    def task(t):
        m = importlib.import_module("checks." + t[0])
        try:
            o = getattr(m, t[1])()
        except C.PyRaise as e:
            return {"fail": f"raised {e}"[:300]}
        except BaseException as e:
            return {"fail": f"{type(e).__name__}: {e}"[:300]}
        return {"oblig": [{**x.data(), "name": x.name, "bounded": x.bounded} for x in (o if isinstance(o, list) else [o])]}

    wrong = mine + others
    st = {}
    for t, r in sched.run_tasks(CONTRACTS[prop], task, hard_s=400).items():
        for d in r.get("oblig") or [None]:
            o = Oblig(d["name"] if d else t[1], bounded=d["bounded"] if d else None)
            if d is None:
                o.obl, o.unsupported = 1, r.get("fail") or r.get("status")
            else:
                o.obl, o.done, o.paths, o.unsupported, o.labels = d["obl"], d["done"], d["paths"], d["unsupported"], d["labels"]
                o.failed = [(a, b, m, None) for a, b, m in d["failed"]]
            # a case of another property is an input only where an obligation of this one fails
            found = wrong if o.failed else mine
            v = settle(ck, o, (lambda: {"input": found[0]}) if found else None)
            st[o.name] = {"status": v, "obligations": o.obl, "discharged": o.done, "paths": o.paths, "solver_s": r.get("wall_s")}
            ck.samples.append({"function": o.name, "obligations": o.obl, "status": v})
    if mine and not ck.viol:
        for w in mine[:5]:
            ck.violation(f"model {w.get('case') or w.get('backend test')}: imported as something else", {"input": w})
    b = {"function": "the importer as a whole", "bound": f"{len(done) + len(mine)} models written for it, imported, read back and evaluated", "models": done}
    if n:
        b["onnx_backend_tests"] = {"compared": n, "read back only": unrun, "every function expanded": prop == "C18"}
    ck.cov.setdefault("bounded_stand_ins", []).append(b)
    ck.cov["functions_under_contract"] = st
    ck.cov["backend"] = {"z3": True}
    ck.assumptions += [
        "MLIR's Python bindings (not built here) behave as the recorder pyvc/mlir_rec.py: an operation has the operands, attributes, result types, regions and location it was created with, at the insertion point",
        "ONNX protobuf messages have the fields of the ONNX standard; a field that is not set reads as its default",
        "onnx.shape_inference.infer_shapes and the functions onnx.defs holds for operators are right",
        "a model is sorted, passes onnx.checker and has ranked types, as docs/importers/onnx_importer.md asks",
        "within one contract the importer's other functions are replaced by their own contracts",
    ]
    ck.finish(f"/opt/venv/bin/python -W ignore checks/onnx_check.py {prop}")


if __name__ == "__main__":
    main(sys.argv[1])
