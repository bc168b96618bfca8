"""Summaries of loops with a symbolic trip count.

The body is executed once, symbolically, at a generic iteration k with the
loop-carried state replaced by placeholders; the effect of all iterations is then
derived in closed form (no invariants are written by hand, no unrolling):
  scalars : unchanged | v0 + c*k | last value | boolean latch | opaque product/sum
  lists   : append | insert at front | store at an affine index | filtered append
Exits (raise / return / break) become: exists a first k that exits, or none does.
Anything else is Unsupported, and the caller falls back to a labelled bound.
"""
import ast
import copy
import types

from . import sval as S
from .ctx import (
    z3, cur, is_sym, Unsupported, PyRaise, PathInfeasible, Ctx, explore, _STACK,
    unique_value,
)
from .sval import SList
from .interp import (
    Frame, SSeq, Havoc, BreakEx, ContinueEx, ReturnEx, has_sym, Opaque,
)


class LogList(SList):
    """A list mutated by the loop body: operations are logged, not applied."""

    __slots__ = ("log", "pre_n", "name_", "writes", "reads")

    def __init__(self, name, n, f):
        super().__init__(n, f)
        self.log = []
        self.name_ = name

    def log_op(self, op, *args):
        if op == "append":
            self.log.append(("append", args[0]))
            self.n = S.add(self.n, 1)
        elif op == "insert":
            if args[0] != 0 or is_sym(args[0]):
                raise Unsupported("insert not at front in a summarised loop")
            self.log.append(("insert0", args[1]))
            self.n = S.add(self.n, 1)
        elif op == "extend":
            self.log.append(("extend", args[0]))
            self.n = S.add(self.n, S.length(args[0]))
        elif op == "store":
            j = S.norm_index(self.n, args[0], "list assignment index out of range")
            old = self.f
            v = args[1]
            self.log.append(("store", j, v))
            self.f = lambda i: S.ite(S.simp_bool(S.zeq(i, j)), v, old(i))
        else:
            raise Unsupported(op)


def subst(v, pairs):
    if is_sym(v):
        return S.norm(z3.substitute(v, *pairs)) if pairs else v
    if isinstance(v, SList):
        n, f = v.n, v.f
        return SList(subst(n, pairs), lambda i: _subst_app(f, i, pairs))
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if hasattr(type(v), "_pyvc_terms"):
        return v._pyvc_rebuild([subst(t, pairs) for t in v._pyvc_terms()])
    return v


def _subst_app(f, i, pairs):
    # evaluate the closure at a fresh variable, then substitute both
    m = z3.Int(cur().fresh("m_sub"))
    r = f(m)
    r = subst(r, pairs)
    return subst(r, [(m, S.zterm(i))])


def consts_of(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def go(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(e.decl().name())
        for c in e.children():
            go(c)
        if z3.is_quantifier(e):
            go(e.body())

    if is_sym(t):
        go(t)
    return acc


def value_consts(v):
    if is_sym(v):
        return consts_of(v)
    if isinstance(v, SList):
        m = z3.Int("m!probe")
        a = value_consts(v.n) | value_consts(v.f(m))
        a.discard("m!probe")
        return a
    if isinstance(v, (list, tuple)):
        r = set()
        for x in v:
            r |= value_consts(x)
        return r
    if hasattr(type(v), "_pyvc_terms"):
        return value_consts(list(v._pyvc_terms()))
    return set()


def find_const(t, name):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() == name:
            return e
        todo.extend(e.children())
        if z3.is_quantifier(e):
            todo.append(e.body())
    raise KeyError(name)


def assigned_names(body):
    names, mutated = set(), set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            if isinstance(n, ast.AugAssign):
                t = n.target
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    mutated.add(t.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name):
                    mutated.add(n.value.id)
                else:
                    raise Unsupported("store through an expression in a loop")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in ("append", "insert", "extend", "pop", "remove", "reverse", "sort", "clear"):
                    if isinstance(n.func.value, ast.Name):
                        mutated.add(n.func.value.id)
                    else:
                        raise Unsupported("mutation through an expression in a loop")
            if isinstance(n, (ast.FunctionDef, ast.Global, ast.Nonlocal, ast.With, ast.Try)):
                raise Unsupported("construct in a summarised loop")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                raise Unsupported("attribute store in a summarised loop")
    return names, mutated


def find_frame(name, fr):
    f = fr
    while f is not None:
        if name in f.locals:
            return f
        f = f.parent
    return None


class Outcome:
    pass


def run_body(interp, k, n, setup, body_fn, extra=()):
    """Explore the body at generic k. Returns list of Outcome."""
    parent = cur()
    base = parent.constraints() + [0 <= k, k < S.zterm(n)] + list(extra)
    names = dict(parent.names)
    outs = []
    depth = interp.depth

    def run(ctx):
        interp.depth = depth
        fr, logs = setup()
        try:
            body_fn(fr)
            kind, val = "normal", None
        except ContinueEx:
            kind, val = "normal", None
        except BreakEx:
            kind, val = "break", None
        except ReturnEx as r:
            kind, val = "return", r.v
        except PyRaise as e:
            kind, val = "raise", e.exc
        return fr, logs, kind, val

    for ctx, how, v in explore(run, base, max_paths=64, deadline=parent.deadline, names=names):
        if how != "return":
            raise Unsupported("unexpected exit")
        o = Outcome()
        o.fr, o.logs, o.kind, o.val = v
        o.pc = S.conj(*ctx.pc) if ctx.pc else True
        o.ctx = ctx
        # skolems introduced inside the body depend on k: give up on those
        o.new = {
            nm if i == 0 else f"{nm}!{i}"
            for nm, c in ctx.names.items()
            for i in range(names.get(nm, 0), c)
        }
        outs.append(o)
    interp.depth = depth
    for nm in set().union(*[set(o.ctx.names.items()) for o in outs]) if outs else ():
        parent.names[nm[0]] = max(parent.names.get(nm[0], 0), nm[1])
    return outs


def drop_firstness(o):
    """`some iteration exits, and none before it` is `some iteration exits` when
    nothing else depends on which one: a non-empty set of naturals has a least
    element. Dropping the minimality keeps nested loops first-order."""
    fs = getattr(o.ctx, "firsts", None)
    if not fs:
        return
    pc = list(o.ctx.pc)
    for k0, before, own in fs:
        users = [p for p in pc if S._mentions(p, k0)]
        if not any(p.eq(before) for p in users):
            continue
        rest = [p for p in users if not p.eq(before)]
        if o.kind == "raise" and all(any(p.eq(w) for w in own) for p in rest):
            pc = [p for p in pc if not p.eq(before)]
    o.pc = S.conj(*pc) if pc else True


def check_no_skolem(outs):
    for o in outs:
        drop_firstness(o)
        used = consts_of(o.pc) if is_sym(o.pc) else set()
        bad = sorted(c for c in used if c in o.new)
        if bad:
            # existential over what only this path introduced (effects that use
            # it are caught by `need`: the names stay unresolved)
            vs = [find_const(o.pc, c) for c in bad]
            o.pc = z3.Exists(vs, o.pc)


GROW = ("append", "extend", "insert")


def summarise_for(interp, s, seq, fr):
    """Lists held in attributes (`self.xs.append(..)`) are treated as locals."""
    recv = {}
    for st in s.body:
        for nd in ast.walk(st):
            if (
                isinstance(nd, ast.Call)
                and isinstance(nd.func, ast.Attribute)
                and nd.func.attr in GROW
                and isinstance(nd.func.value, ast.Attribute)
                and isinstance(nd.func.value.value, ast.Name)
            ):
                a = nd.func.value
                recv[(a.value.id, a.attr)] = f"{a.value.id}.{a.attr}"
    if not recv:
        return _summarise_peeling(interp, s, seq, fr)
    stored = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    if any(o in stored for o, a in recv):
        raise Unsupported("mutation through a loop variable")

    class T(ast.NodeTransformer):
        def visit_Attribute(self, nd):
            if isinstance(nd.value, ast.Name) and (nd.value.id, nd.attr) in recv:
                return ast.copy_location(ast.Name(recv[(nd.value.id, nd.attr)], nd.ctx), nd)
            return self.generic_visit(nd)

    s2 = copy.deepcopy(s)
    s2.body = [ast.fix_missing_locations(T().visit(st)) for st in s2.body]
    objs = {}
    for (o, a), loc in recv.items():
        obj = interp.load_name(o, fr)
        objs[loc] = (obj, a)
        fr.locals[loc] = interp.getattr(obj, a)
    _summarise_invariant(interp, s2, seq, fr, attrs=True)
    for loc, (obj, a) in objs.items():
        interp.setattr(obj, a, fr.locals.pop(loc))


class NotInvariant(Exception):
    """a list variable that was assumed to stay the same does not"""


def _summarise_peeling(interp, s, seq, fr):
    """When the iterations cannot be summarised together because the first ones
    differ (they index a list of known length), execute those and summarise the
    rest."""
    used = {nd.id for st in s.body for nd in ast.walk(st) if isinstance(nd, ast.Name)}
    lens = [len(x) for w, x in fr.locals.items() if w in used and isinstance(x, list) and 0 < len(x) <= 4]
    saved = dict(fr.locals)
    kept = {id(x): (x, list(x)) for x in fr.locals.values() if isinstance(x, list)}
    kept_s = {id(x): (x, x.n, x.f, x.view) for x in fr.locals.values() if isinstance(x, SList)}
    ctx = cur()
    npc = len(ctx.pc)
    try:
        return _summarise_invariant(interp, s, seq, fr)
    except Unsupported:
        now = dict(fr.locals)
        same = (
            now.keys() == saved.keys()
            and all(now[w] is x for w, x in saved.items())
            and all(len(x) == len(o) and all(a is b for a, b in zip(x, o)) for x, o in kept.values())
            and all(x.n is n and x.f is f for x, n, f, _ in kept_s.values())
        )
        if not lens or s.orelse or not same or len(ctx.pc) != npc:
            raise
    for t in range(max(lens)):
        if not ctx.branch(S.zlt(t, seq.n)):
            return
        interp.assign(s.target, seq.f(t), fr)
        try:
            interp.block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            continue
    p, f = max(lens), seq.f
    _summarise_invariant(interp, s, SSeq(S.sub(seq.n, p), lambda i: f(S.add(i, p))), fr)


def _summarise_invariant(interp, s, seq, fr, attrs=False):
    """A rebound list variable is first assumed to have the same value in every
    iteration: it holds when it does before the loop and every normally completing
    iteration leaves it so (checked for all such variables together)."""
    try:
        return _summarise_for(interp, s, seq, fr, attrs, invariant=True)
    except NotInvariant:
        return _summarise_for(interp, s, seq, fr, attrs)


def _user_objects(fr):
    """(object, its attributes, contents of its lists) for the guard below"""
    out = []
    for x in list(fr.locals.values()):
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict) and type(x).__module__ != "builtins" and not isinstance(x, (type, types.ModuleType, types.FunctionType)):
            out.append((x, dict(d), {k: list(v) for k, v in d.items() if isinstance(v, list)}))
    return out


def _check_user_objects(saved):
    for x, d, ls in saved:
        now = x.__dict__
        same = now.keys() == d.keys() and all(now[k] is d[k] for k in d)
        same = same and all(len(now[k]) == len(v) and all(a is b for a, b in zip(now[k], v)) for k, v in ls.items())
        if not same:
            x.__dict__.clear()
            x.__dict__.update(d)
            for k, v in ls.items():
                d[k][:] = v
            raise Unsupported("object mutated in a summarised loop")


def _summarise_for(interp, s, seq, fr, attrs=False, invariant=False):
    if s.orelse:
        raise Unsupported("for/else with symbolic trip count")
    names, mutated = assigned_names(s.body)
    tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    ctx = cur()
    k = ctx.fresh_int("k")
    n = seq.n
    scalars = {}
    for v in sorted(names - tnames):
        f = find_frame(v, fr)
        scalars[v] = f.locals[v] if f is not None else None
        if f is not None and f is not fr:
            pass
    place = {}
    optplace = {}  # variables that start as None: (is-none, value)
    for v, cur_v in scalars.items():
        if cur_v is None:
            f = find_frame(v, fr)
            if f is not None:
                optplace[v] = (ctx.fresh_bool("isnone_" + v), ctx.fresh_int("optv_" + v))
            continue
        if isinstance(cur_v, (bool, z3.BoolRef)):
            place[v] = ctx.fresh_bool("pre_" + v)
        elif S.is_int_like(cur_v):
            place[v] = ctx.fresh_int("pre_" + v)
    # mutated lists, by identity
    lists = {}
    for v in sorted(mutated):
        f = find_frame(v, fr)
        if f is None:
            continue  # created inside the body
        lv = f.locals[v]
        if v in names and v not in tnames and not isinstance(lv, (list, SList)):
            continue
        if not isinstance(lv, (list, SList)):
            if isinstance(lv, Havoc):
                continue
            raise Unsupported("mutation of a non-list in a summarised loop")
        lists[v] = (f, lv)
    for v in list(scalars):
        if v in lists:
            raise Unsupported("list variable both rebound and mutated in a loop")
    len_place = {v: ctx.fresh_int("len_" + v) for v in lists}
    inv = {v for v, x in scalars.items() if invariant and isinstance(x, (list, SList)) and v not in place}

    def setup():
        nf = Frame(fr.globals, fr.parent, fr.fn)
        nf.locals = dict(fr.locals)
        nf.nonlocals, nf.globs = fr.nonlocals, fr.globs
        for v, cv in scalars.items():
            if v in place:
                nf.locals[v] = place[v]
            elif v in optplace:
                nf.locals[v] = OptVar(*optplace[v])
            elif cv is None and v not in fr.locals:
                pass
            elif v in inv:
                nf.locals[v] = cv
            else:
                nf.locals[v] = Havoc(v)
        logs = {}
        for v, (f, lv) in lists.items():
            if f is not fr:
                raise Unsupported("mutation of an enclosing list in a loop")
            sl = S.as_slist(lv)
            rd = []
            L = LogList(v, len_place[v], _guarded_read(v, sl.f, rd))
            L.reads = rd
            for w, x in list(nf.locals.items()):
                if x is lv:
                    nf.locals[w] = L
            logs[v] = L
        snap[:] = [
            (w, x, list(x) if isinstance(x, list) else (x.n, x.f))
            for w, x in nf.locals.items()
            if isinstance(x, (list, SList)) and not isinstance(x, LogList)
        ]
        return nf, logs

    reads = set()
    closed = set()

    def _guarded_read(v, f, rd):
        def g(i):
            if v in closed:
                raise Unsupported("late read of a list that the loop stores to")
            reads.add(v)
            rd.append(i)
            return f(i)

        return g

    snap = []

    def body(nf):
        interp.assign(s.target, seq.f(k), nf)
        saved = _user_objects(fr)
        try:
            interp.block(s.body, nf)
        finally:
            _check_user_objects(saved)
        for w, x, old in snap:
            now = list(x) if isinstance(x, list) else (x.n, x.f)
            same = (
                len(now) == len(old) and all(a is b for a, b in zip(now, old))
            )
            if not same:
                raise Unsupported("aliased mutation in a summarised loop")

    outs = run_body(interp, k, n, setup, body, [p >= 0 for p in len_place.values()])
    if not outs:
        # the body is infeasible: zero iterations
        if not ctx.branch(S.zle(n, 0)):
            raise PathInfeasible()
        return
    check_no_skolem(outs)
    normals = [o for o in outs if o.kind == "normal"]
    exits = [o for o in outs if o.kind != "normal"]
    if any(o.fr.locals.get(v) is not scalars[v] for o in outs if o.kind in ("normal", "break") for v in inv):
        raise NotInvariant()
    if exits and attrs:
        raise Unsupported("exit from a loop that grows an attribute")

    # ---- scalars
    resolved = {}  # placeholder -> fn(j) value before iteration j
    final = {}
    pending = dict(place)
    # list lengths resolve first
    counts = {}
    for v in lists:
        ops = [[e for e in o.logs[v].log] for o in normals]
        counts[v] = ops
    list_fin = {}
    kind_of = {}
    for v in lists:
        kind_of[v] = classify_list(counts[v])
    for v in lists:
        n0 = S.length(lists[v][1])
        kd = kind_of[v]
        if kd[0] in ("append", "insert0"):
            m = kd[1]
            resolved[len_place[v]] = (lambda n0, m: lambda j: S.add(n0, S.zterm(j) * m if m != 1 else j))(n0, m)
        elif kd[0] in ("store", "none"):
            resolved[len_place[v]] = (lambda n0: lambda j: n0)(n0)
        # 'filter': resolved later (reading the length inside is not allowed)

    if optplace:
        weaken_paths(normals, {str(q) for pr in optplace.values() for q in pr}, ctx)

    def merged(getter):
        vals = [(getattr(o, "mpc", o.pc), getter(o)) for o in normals]
        if not vals:
            return None
        r = vals[-1][1]
        for pc, v in reversed(vals[:-1]):
            r = S.ite(pc, v, r)
        return r

    def sub_known(e, j):
        pairs = [(p, S.zterm(f(j))) for p, f in resolved.items()]
        return subst(e, pairs)

    progress = True
    optlast = {}
    post = {}
    for v in place:
        try:
            post[v] = merged(lambda o: o.fr.locals[v])
        except Unsupported:
            post[v] = None
    weakened = False
    while pending and (progress or not weakened):
        if not progress:  # conditions over what is not resolved may not be needed
            weaken_paths(normals, {str(p) for p in pending.values()}, ctx)
            weakened = True
            for v in place:
                try:
                    post[v] = merged(lambda o: o.fr.locals[v])
                except Unsupported:
                    post[v] = None
        progress = False
        for v, p in list(pending.items()):
            e = post[v]
            if e is None and normals:
                continue
            v0 = scalars[v]
            if not normals:
                resolved[p] = lambda j, v0=v0: v0
                del pending[v]
                progress = True
                continue
            e = sub_known(e, k)
            others = {str(q) for w, q in pending.items() if w != v}
            r = closed_form(interp, k, n, p, e, v0, others, normals)
            if r is not None:
                resolved[p] = r
                del pending[v]
                progress = True
    for v, (isn, val) in optplace.items():
        resolve_opt(interp, k, n, v, isn, val, normals, resolved, sub_known, optlast)
    unresolved = {str(p) for p in pending.values()} | {
        str(q) for v, pr in optplace.items() for q in pr if q not in resolved
    } | {
        str(len_place[v]) for v in lists if len_place[v] not in resolved
    }

    for o in outs:
        unresolved |= o.new

    def need(v, what):
        bad = value_consts(v) & unresolved
        if bad:
            raise Unsupported(f"loop-carried {sorted(bad)} needed by {what}")

    def at_iter(v, j):
        """value computed in iteration j"""
        need(v, "loop effect")
        pairs = [(p, S.zterm(f(k))) for p, f in resolved.items()]
        v = subst(v, pairs)
        return subst(v, [(k, S.zterm(j))])

    def cond_iter(pc, j):
        if isinstance(pc, bool):
            return pc
        return at_iter(pc, j)

    # ---- lists
    def list_state(v, cnt):
        """list contents before iteration cnt (a term)"""
        lv = lists[v][1]
        base = S.as_slist(lv)
        n0, f0 = base.n, base.f
        kd = kind_of[v]
        if kd[0] == "none":
            return SList(n0, f0)
        if kd[0] == "append":
            m = kd[1]
            vals = [merged(lambda o: o.logs[v].log[t][1]) for t in range(m)]
            for x in vals:
                need(x, "append")

            def f(i):
                if not is_sym(i) and not is_sym(n0) and i < n0:
                    return f0(i)
                rel = S.sub(i, n0)
                if m == 1:
                    new = at_iter(vals[0], rel)
                else:
                    q = S.pure_floordiv(S.zterm(rel), m)
                    r = S.pure_mod(S.zterm(rel), m)
                    new = at_iter(vals[m - 1], q)
                    for t in range(m - 2, -1, -1):
                        new = S.ite(S.simp_bool(S.zeq(r, t)), at_iter(vals[t], q), new)
                if not is_sym(n0) and n0 == 0:
                    return new
                return S.ite(S.simp_bool(S.zlt(i, n0)), f0(i), new)

            return SList(S.add(n0, cnt if m == 1 else S.zterm(cnt) * m), f)
        if kd[0] == "insert0":
            val = merged(lambda o: o.logs[v].log[0][1])
            need(val, "insert")

            def f(i):
                new = at_iter(val, S.sub(S.sub(cnt, 1), i))
                if not is_sym(n0) and n0 == 0:
                    return new
                return S.ite(S.simp_bool(S.zlt(i, cnt)), new, f0(S.sub(i, cnt)))

            return SList(S.add(n0, cnt), f)
        if kd[0] == "store":
            st = [o for o in normals if o.logs[v].log]
            idx = st[0].logs[v].log[-1][1]
            for o in st[1:]:
                if not interp_equal(o.logs[v].log[-1][1], idx):
                    raise Unsupported("different store indices per path")
            idx_s = S.zterm(at_iter(idx, k))
            step = z3.simplify(S.zterm(subst(idx_s, [(k, k + 1)])) - idx_s)
            if not z3.is_int_value(step) or abs(step.as_long()) != 1:
                raise Unsupported("store index is not affine in the iteration")
            sg = step.as_long()
            e0 = z3.simplify(S.zterm(subst(idx_s, [(k, z3.IntVal(0))])))
            val = None
            for o in st:
                x = o.logs[v].log[-1][2]
                val = x if val is None else S.ite(o.pc, x, val)
            written = S.disj(*[o.pc for o in st]) if len(st) < len(normals) else True
            need(val, "store")
            if v in reads:
                pass  # verify_reads

            def f(i):
                j = z3.simplify(sg * (S.zterm(i) - e0))
                inr = z3.And(j >= 0, j < S.zterm(cnt))
                w = cond_iter(written, j)
                c = inr if w is True else z3.And(inr, S.zterm(w))
                return S.ite(S.simp_bool(c), at_iter(val, j), f0(i))

            return SList(n0, f)
        if kd[0] == "grow":
            # how many elements are added is not expressed, only whether any is
            L = ctx.fresh_int("grown")
            adds = S.disj(
                *[
                    S.conj(
                        o.pc,
                        S.disj(*[True if e[0] == "append" else S.simp_bool(S.zlt(0, S.length(e[1]))) for e in o.logs[v].log]),
                    )
                    for o in normals
                    if o.logs[v].log
                ]
            )
            j = ctx.fresh_int("j")
            some = S.neg(S.forall_range(j, 0, cnt, S.neg(cond_iter(adds, j))))
            z = S.zterm
            ctx.assume(z(L) >= z(n0))
            ctx.assume((z(L) > z(n0)) == z(some))
            return SList(L, lambda i: f0(i) if not is_sym(i) and not is_sym(n0) and i < n0 else Opaque("loop-built element"))
        if kd[0] == "filter":
            return filter_list(interp, k, cnt, n, normals, v, n0, f0, at_iter, cond_iter, need)
        raise Unsupported(kd[0])

    for v in lists:
        if v in reads and kind_of[v][0] == "store":
            verify_reads(v, outs, k, n, sub_known, need)
            closed.add(v)
        elif v in reads and kind_of[v][0] != "none":
            raise Unsupported("loop reads a list that it grows")

    # ---- exits
    def scalar_before(v, j):
        p = place.get(v)
        if p is not None and p in resolved:
            return resolved[p](j)
        return None

    def write_state(j, target_frame, use_post_of=None):
        """store state before iteration j into target_frame"""
        for v in scalars:
            if v in inv:
                continue
            if v in optlast:
                target_frame.locals[v] = optlast[v](j)
            elif v in place and place[v] in resolved:
                target_frame.locals[v] = S.norm(_simp(resolved[place[v]](j)))
            else:
                # a per-iteration temporary: value of the previous iteration
                target_frame.locals[v] = Havoc(v)
        for v in lists:
            st = list_state(v, j)
            replace_list(fr, v, lists[v][1], st)

    exit_conds = []
    for o in exits:
        need(o.pc, "exit condition") if is_sym(o.pc) else None
        exit_conds.append(o)
    if exits:
        any_exit = S.disj(*[o.pc for o in exits])
        j = ctx.fresh_int("j")
        ae_j = cond_iter(any_exit, j)
        none = S.forall_range(j, 0, n, S.neg(ae_j) if not isinstance(ae_j, bool) else (not ae_j))
        # choose: no exit, or the first exit through outcome o
        ch = ctx.choose(len(exits) + 1)
        if ch > 0:
            o = exits[ch - 1]
            k0 = ctx.fresh_int("k0")
            npc = len(ctx.pc)
            ctx.assume(z3.And(0 <= k0, k0 < S.zterm(n)))
            c = cond_iter(o.pc, k0)
            if c is not True:
                ctx.assume(S.zterm(c))
            own = list(ctx.pc[npc:])
            j2 = ctx.fresh_int("j")
            ae2 = cond_iter(any_exit, j2)
            before = S.forall_range(j2, 0, k0, S.neg(ae2) if not isinstance(ae2, bool) else (not ae2))
            if before is not True:
                ctx.assume(S.zterm(before))
                if len(exits) == 1:
                    ctx.__dict__.setdefault("firsts", []).append((k0, ctx.pc[-1], own))
            if not ctx.feasible():
                raise PathInfeasible()
            if o.kind == "raise":
                raise PyRaise(o.val)
            if o.kind == "return":
                if o.val is None:
                    raise ReturnEx(None)
                rv = o.val
                for v in lists:
                    if rv is o.logs[v]:
                        raise Unsupported("return of a list built in the exiting loop")
                raise ReturnEx(at_iter(rv, k0))
            # break: state at k0, then the effects of the partial body
            write_state(k0, fr)
            for v in lists:
                if o.logs[v].log:
                    for e in o.logs[v].log:
                        if e[0] == "append":
                            S.append(fr.locals[v], at_iter(e[1], k0))
                        else:
                            raise Unsupported("list effect before break")
            for v in list(scalars) + sorted(tnames):
                if v in o.fr.locals and v not in inv:
                    x = o.fr.locals[v]
                    if isinstance(x, Havoc):
                        continue
                    fr.locals[v] = at_iter(x, k0)
            return
        if none is not True:
            ctx.assume(S.zterm(none))
        if not ctx.feasible():
            raise PathInfeasible()
    # ---- normal completion
    write_state(n, fr)
    # last value of temporaries and loop targets
    if normals:
        for v in sorted(set(scalars) | tnames):
            if v in place and place[v] in resolved or v in optlast or v in inv:
                continue
            try:
                e = merged(lambda o: o.fr.locals[v])
                last = at_iter(e, S.sub(n, 1))
            except (Unsupported, KeyError):
                fr.locals[v] = Havoc(v)
                continue
            if ctx.entails(S.zlt(0, n)):
                fr.locals[v] = last
            else:
                old = scalars.get(v)
                if v in scalars and old is not None and S.is_num_like(old) and S.is_num_like(last):
                    fr.locals[v] = S.ite(S.zlt(0, n), last, old)
                else:
                    fr.locals[v] = Havoc(v)


def weaken_paths(normals, names, ctx):
    """Among normally completing iterations exactly one path condition holds, so a
    conjunct may be dropped from one of them while it stays disjoint from the
    others. Drops conjuncts over `names` (state that is resolved later)."""
    for o in normals:
        if not is_sym(o.pc):
            continue
        cs = o.pc.children() if z3.is_and(o.pc) else [o.pc]
        keep = [c for c in cs if not (consts_of(c) & names)]
        if len(keep) == len(cs):
            continue
        new = z3.And(*keep) if len(keep) > 1 else (keep[0] if keep else z3.BoolVal(True))
        others = [S.zterm(getattr(p, "mpc", p.pc)) for p in normals if p is not o]
        if all(C_check(ctx, [new, q]) == "unsat" for q in others):
            o.mpc = new


def C_check(ctx, extra):
    from pyvc.ctx import check_sat

    return check_sat(ctx.constraints() + extra, 2000)[0]


def _simp(x):
    return z3.simplify(x) if is_sym(x) else x


class OptVar:
    """None-or-int loop variable; the engine forks when it is inspected."""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


def under(pc, c):
    """`c` is a conjunct of `pc`"""
    return is_sym(pc) and (pc.eq(c) or z3.is_and(pc) and any(under(x, c) for x in pc.children()))


def resolve_opt(interp, k, n, v, isn, val, normals, resolved, sub_known, optlast):
    """`v` starts as None and is set to a loop-independent-of-v value in some
    iterations: is-none is a latch, the value is that of the last setting one."""
    setters = []
    for o in normals:
        x = o.fr.locals[v]
        if isinstance(x, OptVar):
            continue
        if is_sym(x) and x.eq(val) and under(o.pc, z3.Not(isn)):
            continue  # copied after it was found to be set: as before
        if x is None and under(o.pc, isn):
            continue
        if x is None or not S.is_num_like(x):
            return
        if is_sym(x) and (str(val) in consts_of(x)):
            return
        setters.append((o.pc, x))
    if not setters:
        resolved[isn] = lambda j: True
        resolved[val] = lambda j: 0
        optlast[v] = lambda j: None
        return
    # the setting condition may mention is-none itself (a guard): with v still
    # None it is the same as setting at all, so substitute is-none := true, and
    # require that a set variable is never set again without it.
    c_raw = S.disj(*[pc for pc, _ in setters])
    x_raw = None
    for pc, x in setters:
        x_raw = x if x_raw is None else S.ite(pc, x, x_raw)
    c_none = sub_known(subst(c_raw, [(isn, z3.BoolVal(True))]), k)
    c_set = sub_known(subst(c_raw, [(isn, z3.BoolVal(False))]), k)
    c_none, c_set = _simp(S.zterm(c_none)), _simp(S.zterm(c_set))
    x_raw = subst(x_raw, [(isn, z3.BoolVal(True))])
    m = z3.Int(cur().fresh("m"))
    cm = subst(c_none, [(k, m)])
    resolved[isn] = lambda j: z3.Not(
        z3.Exists([m], z3.And(0 <= m, m < S.zterm(j), S.zterm(cm)))
    )
    once = z3.is_false(c_set)

    def fin(j):
        # a guarded setter (never set again): value of the first iteration that
        # sets; an unguarded one: value of the last.
        if not once and not z3.is_true(z3.simplify(c_none == c_set)):
            raise Unsupported("optional loop variable")
        ctx = cur()
        q = ctx.fresh_int("at_" + v)
        cond = lambda t: S.zterm(subst(c_none, [(k, S.zterm(t))]))
        anyset = z3.Exists([m], z3.And(0 <= m, m < S.zterm(j), cond(m)))
        if not ctx.branch(anyset):
            return None
        ctx.assume(z3.And(0 <= q, q < S.zterm(j), cond(q)))
        w = z3.Int(ctx.fresh("w"))
        rng = z3.And(0 <= w, w < q) if once else z3.And(q < w, w < S.zterm(j))
        ctx.assume(z3.ForAll([w], z3.Implies(rng, z3.Not(cond(w)))))
        return subst(sub_known(x_raw, k), [(k, q)])

    optlast[v] = fin


def replace_list(fr, v, old, new):
    if isinstance(old, SList):
        old.n, old.f, old.view = new.n, new.f, new.view
        return
    # a concrete python list: rebind every local alias to one new SList
    if not is_sym(new.n):
        items = [new.f(i) for i in range(new.n)]
        old[:] = items
        return
    for w, x in list(fr.locals.items()):
        if x is old:
            fr.locals[w] = new


def interp_equal(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    return z3.is_true(z3.simplify(S.zterm(a) == S.zterm(b)))


def classify_list(per_path):
    kinds = set()
    counts = set()
    for log in per_path:
        ks = {e[0] for e in log}
        kinds |= ks
        counts.add(len(log))
    if not kinds:
        return ("none",)
    if "extend" in kinds and kinds <= {"append", "extend"}:
        return ("grow",)
    if len(kinds) > 1:
        raise Unsupported("mixed list operations in a summarised loop")
    kd = kinds.pop()
    if kd == "append":
        if len(counts) == 1:
            return ("append", counts.pop())
        if counts == {0, 1}:
            return ("filter",)
        raise Unsupported("irregular appends in a loop")
    if kd == "insert0":
        if counts == {1}:
            return ("insert0", 1)
        raise Unsupported("irregular insertions in a loop")
    return ("store",)


def verify_reads(v, outs, k, n, sub_known, need):
    """A list both read and stored in the loop: what is read is the original cell if
    no earlier iteration stored to it."""
    ctx = cur()
    stores = []
    for o in outs:
        for e in o.logs[v].log:
            if e[0] == "store":
                need(e[1], "store index")
                stores.append(S.zterm(sub_known(e[1], k)))
    m = z3.Int(ctx.fresh("earlier"))
    for o in outs:
        for r in o.logs[v].reads:
            need(r, "index of a read")
            r = S.zterm(sub_known(r, k))
            for j in stores:
                q = z3.substitute(j, (k, m))
                if z3.is_true(z3.simplify(r == j)) and _affine(j, k):
                    continue
                if C_check(ctx, [0 <= m, m < k, k < S.zterm(n), S.zterm(sub_known(o.pc, k)), r == q]) != "unsat":
                    raise Unsupported("loop reads and writes different cells of one list")


def _affine(j, k):
    """each iteration has another index"""
    d = z3.simplify(z3.substitute(j, (k, k + 1)) - j)
    return z3.is_int_value(d) and d.as_long() != 0


def closed_form(interp, k, n, p, e, v0, others, normals):
    """value of p before iteration j, or None"""
    e = _simp(e) if is_sym(e) else e
    cs = consts_of(e) if is_sym(e) else set()
    if cs & others:
        return None
    kname, pname = str(k), str(p)
    if isinstance(p, z3.BoolRef):
        if is_sym(e) and z3.is_true(z3.simplify(e == p)):
            return lambda j: v0
        if pname not in cs:
            if kname not in cs:
                return lambda j: S.ite(S.simp_bool(S.zlt(0, j)), e, v0)
            return lambda j: S.ite(
                S.simp_bool(S.zlt(0, j)), subst(e, [(k, S.zterm(j) - 1)]), v0
            )
        t = z3.simplify(z3.substitute(e, (p, z3.BoolVal(True))))
        f = z3.simplify(z3.substitute(e, (p, z3.BoolVal(False))))
        if z3.is_true(t):  # or-latch
            m = z3.Int(cur().fresh("m"))
            q = subst(f, [(k, m)])
            return lambda j: S.disj(
                v0, z3.Exists([m], z3.And(0 <= m, m < S.zterm(j), S.zterm(q)))
            )
        if z3.is_false(f):  # and-latch
            m = z3.Int(cur().fresh("m"))
            q = subst(t, [(k, m)])
            return lambda j: S.conj(
                v0, z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < S.zterm(j)), S.zterm(q)))
            )
        return None
    d = _less(S.zterm(e), p)
    dcs = consts_of(d) if is_sym(d) else set()
    if pname not in dcs and kname not in dcs:
        if z3.is_int_value(d) and d.as_long() == 0:
            return lambda j: v0
        return lambda j: S.add(v0, S.zterm(j) * d)
    if pname not in dcs:
        r = counted(d, k, v0)
        if r is not None:
            return r
        # prefix sum
        g = lambda m: subst(d, [(k, S.zterm(m))])
        return lambda j: S.add(v0, opaque_fold("sum", SSeq(j, g), 0))
    if pname not in cs:
        return lambda j: S.ite(
            S.simp_bool(S.zlt(0, j)), subst(e, [(k, S.zterm(j) - 1)]), v0
        )
    g = z3.simplify(z3.substitute(e, (p, z3.IntVal(1))))
    if str(p) not in consts_of(g):
        if z3.is_true(z3.simplify(S.zterm(e) == p * g)) or _valid(e == p * g):
            gg = lambda m: subst(g, [(k, S.zterm(m))])
            return lambda j: _mul(v0, opaque_fold("prod", SSeq(j, gg), 1))
    return None


def counted(d, k, v0):
    """d is a constant but for finitely many iterations, named in it (k == e)"""
    if not (z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE):
        return None
    pts, todo = [], [d.arg(0)]
    while todo:
        x = todo.pop(0)
        if z3.is_eq(x) and z3.is_int(x.arg(0)):
            dx = z3.simplify(x.arg(0) - x.arg(1))
            at0 = z3.simplify(z3.substitute(dx, (k, z3.IntVal(0))))
            sl = z3.simplify(z3.substitute(dx, (k, z3.IntVal(1))) - at0)
            if str(k) in consts_of(at0) or not z3.is_int_value(sl) or abs(sl.as_long()) != 1:
                return None
            if z3.is_true(z3.simplify(dx == sl * k + at0)):
                pts.append(z3.simplify(-at0 * sl))
                continue
            return None
        if str(k) not in consts_of(x):
            continue
        if not (z3.is_or(x) or z3.is_and(x) or z3.is_not(x)):
            return None
        todo += x.children()
    if not pts or len(pts) > 4:
        return None
    usual = z3.simplify(_at(d, k, None, pts))
    if str(k) in consts_of(usual):
        return None

    def f(j):
        out = S.add(v0, S.zterm(j) * usual)
        for i, e in enumerate(pts):
            once = z3.And(0 <= e, e < S.zterm(j), *[e != q for q in pts[:i]])
            out = S.add(out, z3.If(once, z3.simplify(z3.substitute(d, (k, e))) - usual, 0))
        return S.norm(out)

    return f


def _at(d, k, e, pts):
    """`d` where k is none of the points: their equations are false"""
    def go(x):
        if z3.is_eq(x) and z3.is_int(x.arg(0)) and str(k) in consts_of(x):
            return z3.BoolVal(False)
        if z3.is_app(x) and x.num_args():
            return x.decl()(*[go(c) for c in x.children()])
        return x

    return go(d)


def _less(e, p):
    """e - p, case by case"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.simplify(z3.If(e.arg(0), _less(e.arg(1), p), _less(e.arg(2), p)))
    return z3.simplify(e - p)


def _valid(f):
    s = z3.Solver()
    s.set("timeout", 1000)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


def _mul(a, b):
    if not is_sym(a) and a == 1:
        return b
    return S.zterm(a) * S.zterm(b)


# ---- opaque folds ---------------------------------------------------------
class Fold:
    def __init__(self, kind, n, f, term):
        self.kind, self.n, self.f, self.term = kind, n, f, term


def fold_table():
    c = cur()
    if not hasattr(c, "folds"):
        c.folds = []
    return c.folds


FOLDS = {}  # term name -> Fold (per process; names are unique)


def opaque_fold(kind, seq, start):
    """sum/prod over a symbolic sequence, as an uninterpreted value.

    Two folds are equal when their lengths are and their elements are pointwise
    (lemma `fold_congruence`, proved by induction on paper; applied by obligations)."""
    ctx = cur()
    m = z3.Int("m!fold")
    elem = seq.f(m)
    if not S.is_num_like(elem):
        raise Unsupported("fold over non-numbers")
    elem = z3.simplify(S.zterm(S.to_arith(elem)))
    key = (kind, z3.simplify(S.zterm(seq.n)).sexpr(), elem.sexpr())
    name = f"{kind}#{abs(hash(key)) % (10**12)}"
    t = z3.Int(name)
    f = seq.f
    FOLDS[name] = Fold(kind, seq.n, f, t)
    if kind == "sum":
        return S.add(start, t)
    return _mul(start, t)


# ---- filters --------------------------------------------------------------
def filter_list(interp, k, cnt, n, normals, v, n0, f0, at_iter, cond_iter, need):
    keep = [o for o in normals if o.logs[v].log]
    c = S.disj(*[o.pc for o in keep])
    need(c, "filter")
    val = None
    for o in keep:
        x = o.logs[v].log[0][1]
        val = x if val is None else S.ite(o.pc, x, val)
    need(val, "filter")
    cfun = lambda j: cond_iter(c, j)
    vfun = lambda j: at_iter(val, j)
    new = make_filter(k, cnt, cfun, vfun)
    if not is_sym(n0) and n0 == 0:
        return new
    return S.concat(SList(n0, f0), new)


def eq_atoms(e, k, acc):
    """terms t with k == t (or k + c == t) occurring in e"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
            d = z3.simplify(x.arg(0) - x.arg(1))
            d1 = z3.simplify(z3.substitute(d, (k, k + 1)) - d)
            if z3.is_int_value(d1) and abs(d1.as_long()) == 1:
                t = z3.simplify(-d1.as_long() * z3.substitute(d, (k, z3.IntVal(0))))
                if str(k) not in consts_of(t):
                    acc.append(t)
        todo.extend(x.children())
    return acc


def make_filter(k, cnt, cfun, vfun):
    """[vfun(j) for j in range(cnt) if cfun(j)]"""
    ctx = cur()
    cond = S.simp_bool(cfun(k))
    if isinstance(cond, bool):
        return SList(cnt, vfun) if cond else SList(0, vfun)
    atoms = []
    for t in eq_atoms(cond, k, []):
        if not any(z3.eq(t, u) for u in atoms):
            atoms.append(t)
    rng = z3.And(0 <= k, k < S.zterm(cnt))
    drop = z3.Or(*[k == t for t in atoms]) if atoms else z3.BoolVal(False)
    if len(atoms) <= 2 and ctx.entails(z3.Implies(rng, z3.Not(cond) == drop)):
        # distinct, in-range removed positions: decide each by forking
        ts = []
        for t in atoms:
            if not ctx.branch(z3.And(0 <= t, t < S.zterm(cnt))):
                continue
            if any(ctx.branch(t == u) for u in ts):
                continue
            ts.append(t)
        if not ts:
            return SList(cnt, vfun)
        if len(ts) == 1:
            t = ts[0]
            return SList(
                S.sub(cnt, 1),
                lambda i: vfun(z3.If(S.zterm(i) < t, S.zterm(i), S.zterm(i) + 1)),
            )
        lo = z3.If(ts[0] < ts[1], ts[0], ts[1])
        hi = z3.If(ts[0] < ts[1], ts[1], ts[0])
        return SList(
            S.sub(cnt, 2),
            lambda i: vfun(
                z3.If(
                    S.zterm(i) < lo, S.zterm(i),
                    z3.If(S.zterm(i) + 1 < hi, S.zterm(i) + 1, S.zterm(i) + 2),
                )
            ),
        )
    return opaque_filter(cnt, cfun, vfun)


FILTERS = []
COMPLETE_FILTERS = False  # a check that counts what was kept sets this


def opaque_filter(cnt, cfun, vfun):
    """A filter kept symbolic: length and positions are uninterpreted; two filters
    over the same range are equal when their predicates agree pointwise."""
    ctx = cur()
    m = z3.Int("m!flt")
    if z3.is_app_of(cnt, z3.Z3_OP_ITE) and ctx.entails(cnt == cnt.arg(1)):
        cnt = cnt.arg(1)  # If(n > 0, n, 0) where n >= 0
    key = (S.zterm(cnt).sexpr(), z3.simplify(S.zterm(cfun(m))).sexpr())
    tag = f"{abs(hash(key)) % (10**12)}"
    L = z3.Int(f"flen#{tag}")
    P = z3.Function(f"fpos#{tag}", z3.IntSort(), z3.IntSort())
    i = z3.Int("i!flt")
    ctx.assume(z3.And(L >= 0, L <= z3.If(S.zterm(cnt) > 0, S.zterm(cnt), z3.IntVal(0))))
    body = z3.And(P(i) >= 0, P(i) < S.zterm(cnt), S.zterm(subst(cfun(m), [(m, P(i))])))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L), body), patterns=[P(i)]))
    if COMPLETE_FILTERS:
        # every kept position occurs
        Q = z3.Function(f"finv#{tag}", z3.IntSort(), z3.IntSort())
        kept = z3.And(0 <= m, m < S.zterm(cnt), S.zterm(cfun(m)))
        ctx.assume(z3.ForAll([m], z3.Implies(kept, z3.And(0 <= Q(m), Q(m) < L, P(Q(m)) == m))))
    r = SList(L, lambda i: subst(vfun(m), [(m, P(S.zterm(i)))]))
    r.view = ("filter", cnt, cfun, vfun)
    return r


# ---- comprehensions -------------------------------------------------------
def summarise_comp(interp, g, seq, elt, fr):
    ctx = cur()
    k = ctx.fresh_int("k")

    def setup():
        nf = Frame(fr.globals, fr.parent, fr.fn)
        nf.locals = dict(fr.locals)
        return nf, {}

    def body(nf):
        interp.assign(g.target, seq.f(k), nf)
        for c in g.ifs:
            if not interp.truth(interp.expr(c, nf)):
                raise ContinueEx()
        raise ReturnEx(interp.expr(elt, nf))

    outs = run_body(interp, k, seq.n, setup, body)
    if not outs:
        if not ctx.branch(S.zle(seq.n, 0)):
            raise PathInfeasible()
        return []
    check_no_skolem(outs)
    keep = [o for o in outs if o.kind == "return"]
    skip = [o for o in outs if o.kind == "normal"]
    raises = [o for o in outs if o.kind == "raise"]
    if raises:
        any_exit = S.disj(*[o.pc for o in raises])
        ch = ctx.choose(len(raises) + 1)
        if ch > 0:
            o = raises[ch - 1]
            k0 = ctx.fresh_int("k0")
            ctx.assume(z3.And(0 <= k0, k0 < S.zterm(seq.n)))
            if o.pc is not True:
                ctx.assume(subst(o.pc, [(k, k0)]))
            if not ctx.feasible():
                raise PathInfeasible()
            raise PyRaise(o.val)
        none = S.forall_range(k, 0, seq.n, S.neg(any_exit) if not isinstance(any_exit, bool) else not any_exit)
        if none is not True:
            ctx.assume(S.zterm(none))
        if not ctx.feasible():
            raise PathInfeasible()
    if not keep:
        return []
    val = None
    for o in keep:
        val = o.val if val is None else S.ite(o.pc, o.val, val)
    vfun = lambda j: subst(val, [(k, S.zterm(j))])
    n = seq.n
    if ctx.entails(S.zle(0, n)):
        pass
    if not skip:
        return SList(n, vfun)
    c = S.disj(*[o.pc for o in keep])
    return make_filter(k, n, lambda j: c if isinstance(c, bool) else subst(c, [(k, S.zterm(j))]), vfun)


# ---- loops by invariant ----------------------------------------------------
def invariant_for(interp, s, seq, fr, templates, facts):
    """`for` over a list of symbolic length, by an inferred invariant.

    templates: [fn(k) -> value]; a loop-carried variable is claimed to hold one of
    them after k iterations. The claim is checked on entry and preserved by the body
    at a generic k (facts(k): what the contract says about the k-th element)."""
    ctx = cur()
    k = ctx.fresh_int("k")
    names, mutated = assigned_names(s.body)
    if mutated:
        raise Unsupported("loop by invariant with a mutated object")
    targets, _ = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0), lineno=0)])
    carried = [v for v in sorted(names - targets) if v in fr.locals]
    temps = names - targets - set(carried)

    def holds(a, b, c, extra=()):
        g = S.eq(a, b)
        if isinstance(g, bool):
            return g
        q = c.constraints() + list(extra) + [z3.Not(S.zterm(g))]
        from .ctx import check_sat

        return check_sat(q, 5000)[0] == "unsat"

    cands = {}
    zero = [facts(z3.IntVal(0))]
    for v in carried:
        cands[v] = [t for t in templates if type_ok(fr.locals[v], t(z3.IntVal(0))) and holds(fr.locals[v], t(z3.IntVal(0)), ctx, zero)]
        if not cands[v]:
            raise Unsupported(f"no invariant for '{v}'")
    import itertools

    for pick in itertools.islice(itertools.product(*[cands[v] for v in carried]), 24):
        inv = dict(zip(carried, pick))

        def setup():
            nf = Frame(fr.globals, fr.parent, fr.fn)
            nf.locals = dict(fr.locals)
            for v, t in inv.items():
                nf.locals[v] = t(k)
            for v in temps | targets:
                nf.locals.pop(v, None)
            return nf, {}

        def body(nf):
            interp.assign(s.target, seq.f(k), nf)
            interp.block(s.body, nf)

        outs = run_body(interp, k, seq.n, setup, body, extra=[facts(k)])
        ok = True
        for o in outs:
            if o.kind != "normal":
                raise Unsupported(f"loop by invariant: the body may {o.kind}")
            for v, t in inv.items():
                w = t(k + 1)
                if not type_ok(o.fr.locals.get(v), w) or not holds(o.fr.locals[v], w, o.ctx, [facts(k)]):
                    ok = False
                    break
            if not ok:
                break
        if ok:
            n = z3.If(S.zterm(seq.n) > 0, S.zterm(seq.n), z3.IntVal(0))
            for v, t in inv.items():
                fr.locals[v] = t(n)
            for v in temps | targets:
                fr.locals.pop(v, None)
            interp.block(s.orelse, fr)
            return
    raise Unsupported("no inductive invariant among the templates")


def type_ok(a, b):
    if a is None or b is None:
        return a is None and b is None
    return isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef))
