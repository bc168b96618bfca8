"""Helper to create seeded/<id>: python3 tools/seed.py spec.json-like python file.

A spec file defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source), optional DEMO_SH.
"""
import json
import os
import runpy
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")  # a clone will do while /repo is in use
# the importers need MLIR bindings: the recorder and the evaluator, laid beside the demo
SH_RT = """#!/bin/bash
# exit 0: the property holds; 1: it does not
export PYTHONDONTWRITEBYTECODE=1 HF_HUB_OFFLINE=1 OMP_NUM_THREADS=1
export VERIF_REPO="$PWD" PYTHONPATH="$(dirname "$0")/rt"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
RT = {
    "embedded": ["pyvc/load.py", "pyvc/embedded.py"],
    "fold": ["pyvc/ctx.py", "pyvc/sval.py", "pyvc/cpp.py", "checks/mlir_rt.py"],
    "fx": ["pyvc/load.py", "pyvc/mlir_rec.py", "checks/fxeval.py"],
    "onnx": ["pyvc/load.py", "pyvc/mlir_rec.py", "checks/fxeval.py", "checks/onnxeval.py"],
}
CTX = "def is_sym(x):\n    return False\n"
SH = """#!/bin/bash
# exit 0: behaves as PyTorch / the property says; 1: it does not
export PYTHONDONTWRITEBYTECODE=1 HF_HUB_OFFLINE=1 OMP_NUM_THREADS=1
export PYTHONPATH=/opt/vp/harness/site:/repo/build/python_packages/torch_mlir
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(path):
    s = runpy.run_path(path)
    d = os.path.join(V, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    assert sh(f"git -C {R} status --porcelain").stdout == ""
    rt = s.get("RUNTIME")
    if rt:
        for f in RT[rt]:
            p = os.path.join(d, "rt", f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(open(os.path.join(V, f)).read())
        if rt != "fold":
            open(os.path.join(d, "rt/pyvc/ctx.py"), "w").write(CTX)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write(s["DEMO"])
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(s.get("DEMO_SH", SH_RT if rt else SH))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, f, indent=1)
    a = sh(f"bash {d}/demo.sh", cwd=R)
    ok = a.returncode == 0
    print("clean demo", a.returncode, "" if ok else a.stdout[-500:] + a.stderr[-1500:])
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {R} diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "--build" in sys.argv:
            print(sh("bash /opt/vp/build.sh").stderr[-300:])
        b = sh(f"bash {d}/demo.sh", cwd=R)
        print("patched demo", b.returncode, b.stdout[-300:], b.stderr[-300:])
        if "--check" in sys.argv:
            m = json.load(open(os.path.join(V, "MANIFEST.json")))
            for c in m["checks"]:
                if c["property"] == s["PROPERTY"]:
                    r = sh(f"VERIF_REPO={R} " + c["quick_cmd"], cwd=V)
                    print("check", r.returncode, "\n".join(l for l in r.stdout.splitlines() if "VIOL" in l or "failed" in l)[-1500:], r.stderr[-500:])
        if "--test" in sys.argv:
            out = f"/tmp/t_{s['ID']}.json"
            print(sh(f"bash /opt/vp/test.sh {out}").stdout[-400:])
            print(sh(f"python3 {V}/tools/cmp.py {out}").stdout)
    finally:
        sh(f"git -C {R} checkout -- .")
        if "--build" in sys.argv or "--test" in sys.argv:
            sh("bash /opt/vp/build.sh")
    print(s["ID"], "OK" if ok and b.returncode else "BAD")


if __name__ == "__main__":
    main(sys.argv[1])
