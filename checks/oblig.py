"""Discharge named obligations over all paths of an interpreted function."""
import time

from pyvc import ctx as C, sval as S

z3 = C.z3


class Oblig:
    """`run(ctx)` interprets the real code and returns [(label, goal)]; a goal is a
    bool or a term. `raises(exc)` -> goal for paths that end in an exception."""

    def __init__(self, name, q_ms=10000, bounded=None):
        """bounded: the stated bound, where the obligations do not cover every input"""
        self.name = name
        self.bounded = bounded
        self.obl = self.done = self.paths = 0
        self.failed = []  # (label, verdict, model or None, ctx)
        self.unsupported = None
        self.q_ms = q_ms
        self.labels = {}

    def prove(self, run, raises=None, budget_s=60, max_paths=4000, tag=""):
        deadline = time.time() + budget_s
        try:
            for c, kind, v in C.explore(run, deadline=deadline, max_paths=max_paths):
                self.paths += 1
                with C.active_ctx(c):
                    if kind == "raise":
                        goals = raises(v) if raises else [(f"no exception ({type(v).__name__}: {str(v)[:80]})", False)]
                    else:
                        goals = v
                    for label, g in goals:
                        self.one(c, tag + label, g)
        except (C.Unsupported, C.Budget) as e:
            self.unsupported = f"{tag}{type(e).__name__}: {e}"
        except RecursionError:
            self.unsupported = f"{tag}recursion"
        return self

    def one(self, c, label, g):
        self.obl += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if g is True:
            self.done += 1
            return
        q = c.constraints() + ([] if g is False else [z3.Not(S.zterm(g))])
        r, m = C.check_sat(q, self.q_ms)
        if r == "unsat":
            self.done += 1
            return
        self.failed.append((label, r, m, c))

    def data(self):
        """picklable outcome, for obligations run in a forked child"""
        return {
            "obl": self.obl,
            "done": self.done,
            "paths": self.paths,
            "failed": [(a, b, str(m)[:800]) for a, b, m, _ in self.failed],
            "unsupported": self.unsupported,
            "labels": self.labels,
        }

    def parallel(self, tasks, fn, hard_s=300, workers=None):
        """fn(task) -> Oblig, each task in its own process; outcomes are added up"""
        from pyvc import sched

        for t, r in sched.run_tasks(tasks, lambda t: fn(t).data(), workers=workers, hard_s=hard_s).items():
            if "obl" not in r:
                self.obl += 1
                self.unsupported = f"{t}: {r}"[:300]
                continue
            self.obl += r["obl"]
            self.done += r["done"]
            self.paths += r["paths"]
            self.failed += [(a, b, m, None) for a, b, m in r["failed"]]
            self.unsupported = self.unsupported or r["unsupported"]
            for k, v in r["labels"].items():
                self.labels[k] = self.labels.get(k, 0) + v
        return self

    @property
    def ok(self):
        return self.unsupported is None and self.obl > 0 and self.obl == self.done


def settle(ck, o, search=None, bounded=None):
    """Record the outcome of one function's obligations in the check.

    search() -> dict | None: a concrete failing input of the real code.
    Returns 'proved' | 'violated' | 'bounded' | 'undecided'."""
    if o.bounded:
        # a bounded stand-in is never counted as proved
        ck.cov.setdefault("bounded_stand_ins", []).append({"function": o.name, "bound": o.bounded, "obligations": o.obl, "discharged": o.done})
        if o.ok:
            return "bounded"
    else:
        ck.obl += max(o.obl, 1)
        ck.done += o.done
    if o.ok:
        return "proved"
    r = search() if search else None
    label = o.failed[0][0] if o.failed else "contract"
    if r:
        ck.violation(f"{o.name}: {label}", {"function": o.name, "verifier": [f[:2] for f in o.failed[:5]], **r})
        return "violated"
    sat = [f for f in o.failed if f[1] == "sat"]
    if sat:
        ck.violation(
            f"{o.name}: {sat[0][0]}",
            {"function": o.name, "verifier": [(f[0], f[1], str(f[2])[:800]) for f in sat[:4]]},
            no_input=True,
        )
        return "violated"
    ck.undecide(o.name, o.unsupported or str([f[:2] for f in o.failed[:4]]))
    return "undecided"


def contract(ck, f, *a, search=None):
    """f(*a) -> Oblig, settled; a contract whose harness no longer fits the code
    (a function renamed, say) is undecided unless the search finds a failing input"""
    try:
        o = f(*a)
    except (C.Unsupported, C.Budget, Exception) as e:  # noqa: B014
        o = Oblig(f.__name__)
        o.obl = 1
        o.unsupported = f"{type(e).__name__}: {e}"[:300]
    except C.PyRaise as e:
        o = Oblig(f.__name__)
        o.obl = 1
        o.unsupported = f"raised {e}"[:300]

    def guarded():
        try:
            return search()
        except Exception as e:
            print(f"# search for {o.name} ended with {type(e).__name__}: {e}"[:300])
            return None

    return o, settle(ck, o, guarded if search else None)
