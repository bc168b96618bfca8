"""Shared by all checks: verdict lines, replay files, evidence, known findings."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")

BASE_TRUST = [
    "pyvc (this repository): AST interpreter for the analysed Python subset, its loop "
    "summarisation rules and the list/None model",
    "z3 5.3 (python bindings 4.x API) deciding every verification condition",
    "CPython's ast module parsing the same file the interpreter imports",
    "Python int is a mathematical integer (exact); float is treated as a real number",
]


class Check:
    def __init__(self, prop, level="proof"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tier = "quick"
        args = sys.argv[1:]
        if "--tier" in args:
            self.tier = args[args.index("--tier") + 1]
        elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
            self.tier = os.environ["VERIF_TIER"]
        if "--thorough" in args:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.obl = self.done = 0
        self.cov = {}
        self.assumptions = []
        self.trusted = list(BASE_TRUST)
        self.viol = []
        self.samples = []
        self.undecided = []
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
        self.known = [f for f in d["findings"] if f["property"] == prop]

    def violation(self, name, data, no_input=False):
        """data: what fails, with everything needed to replay it"""
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        safe = "".join(c if c.isalnum() or c in "._-" else "_" for c in name)[:100]
        path = os.path.join(d, f"{self.prop}-{safe}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "obligation": name, **data}, f, indent=1, default=repr)
        self.viol.append(name)
        print(f"# failed obligation: {name}: {json.dumps(data, default=repr)[:600]}")
        tail = " no-failing-input-found" if no_input else ""
        print(f"VIOLATION property={self.prop} replay={path}{tail}", flush=True)

    def known_finding(self, what):
        print(f"KNOWN-FINDING: property={self.prop} {what}", flush=True)

    def undecide(self, name, why):
        self.undecided.append({"obligation": name, "why": why})
        print(f"# undecided (no verdict claimed): {name}: {why}"[:400], flush=True)

    def finish(self, cmd=None):
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "obligations": self.obl,
            "discharged": self.done,
            "checker_cmd": cmd or "/opt/venv/bin/python -W ignore -m checks." + os.path.basename(sys.argv[0]).replace(".py", ""),
            "trusted_base": self.trusted,
            "samples": self.samples[:12],
            "undecided": self.undecided,
        }
        cov.update(self.cov)
        if self.obl == 0 and not self.viol:
            # an empty run proves nothing: fail loudly, without claiming a violation
            print("# ERROR: no obligation was generated")
            self._write(cov)
            sys.exit(2)
        self._write(cov)
        print(
            f"# {self.prop}: {self.done}/{self.obl} obligations discharged, "
            f"{len(self.undecided)} undecided, {len(self.viol)} violations, "
            f"{time.time() - self.t0:.1f}s"
        )
        sys.stdout.flush()
        sys.exit(1 if self.viol else 0)

    def _write(self, cov):
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        p = os.path.join(EVID, f"{self.prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(p + ".tmp", p)
