"""setup_cmd: the tools the checks need are there and the engine still refutes a wrong contract."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import shape_prover as P  # noqa: E402

P.lib()
p = P.Prover("aten.relu", "unbounded", budget_s=60)
p.prove()
assert p.obl == p.done and p.obl > 0
print("ok: torch and z3 load, /repo's shape library is read")
