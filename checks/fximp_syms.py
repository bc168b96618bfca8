"""C15: symbolic shapes, their ranges and the expressions that bind them."""
from checks.fximp import C, Cut, assigned, G, GV, Oblig, R, S, fx, interp, is_, new_importer, stopped, z3
from checks.fximp_flow import FxNode, Pretend, imp_loc
from checks.fximp_prog import native

TOP, BOT = 2**63 - 1, -(2**63)


class Aff:
    """an affine expression, by its value under one arbitrary assignment of the symbols"""

    _pyvc_ok = True

    def __init__(self, val):
        self.val = val

    def _pyvc_terms(self):
        return [self.val]

    def _pyvc_rebuild(self, t):
        return Aff(t[0])


class Expr(Pretend):
    """a sympy expression of the class given, by its value under the same assignment"""

    def __init__(self, cls, val, name=None, **kw):
        Pretend.__init__(self, cls, **kw)
        self.val, self.name = val, name

    def __str__(self):
        return self.name


def affine_contracts(f):
    """mlir::AffineExpr: the constructors by the value of what they make"""
    con = {}

    def bad(what):
        raise C.PyRaise(TypeError(what))

    def num(x):
        if S.is_sym(x) or isinstance(x, int):
            return x
        return x.val if isinstance(x, Expr) else bad("not an integer")

    def binop(name, op):
        def h(it, a, k):
            x, y = a
            if not (isinstance(x, Aff) and isinstance(y, Aff)):
                bad(name)
            return Aff(op(x.val, y.val))

        con[id(getattr(f, name).get)] = h

    con[id(f.AffineConstantExpr.get)] = lambda it, a, k: Aff(S.zterm(num(a[0])))
    binop("AffineAddExpr", lambda x, y: S.zterm(x) + S.zterm(y))
    binop("AffineMulExpr", lambda x, y: S.zterm(x) * S.zterm(y))
    binop("AffineModExpr", lambda x, y: MOD(S.zterm(x), S.zterm(y)))
    return con


# floor modulus, as sympy.Mod and affine mod both define it for a positive divisor
MOD = z3.Function("mod", z3.IntSort(), z3.IntSort(), z3.IntSort())
VAL = z3.Function("value_of_operand", z3.IntSort(), z3.IntSort())


def expressions():
    """sympy_expr_to_semi_affine_expr: by induction on the expression, the value of the
    affine expression is the value of the sympy expression, under every assignment"""
    import sympy

    f = fx()
    o = Oblig("sympy_expr_to_semi_affine_expr")
    kinds = ["symbol", "integer", "int", "add", "mul", "pow", "mod"]
    other = [sympy.Rational, sympy.Float, sympy.floor, sympy.ceiling, sympy.Max, sympy.Min, sympy.Function, sympy.core.numbers.Infinity]
    from torch.utils._sympy import functions as T

    other += [x for x in vars(T).values() if isinstance(x, type) and issubclass(x, sympy.Basic)]
    other = [x for x in dict.fromkeys(other) if not issubclass(x, (sympy.Symbol, sympy.Integer, sympy.Add, sympy.Mul, sympy.Pow, sympy.Mod))]
    fn = f.sympy_expr_to_semi_affine_expr

    def run(c):
        kind = (kinds + other)[c.choose(len(kinds) + len(other))]
        smap = {"s0": Aff(z3.Int("s0")), "s1": Aff(z3.Int("s1"))}
        the_map = smap
        n = c.fresh_int("args")
        c.assume(n >= 0)
        SUM = z3.Function("sum_of_first", z3.IntSort(), z3.IntSort())
        acc = {"op": None}
        args = S.SList(n, lambda i: Expr(sympy.Expr, VAL(S.zterm(i))))
        want, rejected = None, False
        if kind == "symbol":
            nm = ("s0", "s1", "s2")[c.choose(3)]
            e, want = Expr(sympy.Symbol, z3.Int(nm), nm), z3.Int(nm)
            rejected = nm not in smap
        elif kind == "integer":
            e = Expr(sympy.Integer, z3.Int("value"))
            want = e.val
        elif kind == "int":
            e = want = z3.Int("value")
        elif kind in ("add", "mul"):
            e = Expr(getattr(sympy, kind.title()), SUM(n), args=args)
            want = SUM(n)
            unit = 0 if kind == "add" else 1
            acc["op"] = (lambda a, i: a + VAL(i)) if kind == "add" else (lambda a, i: a * VAL(i))
            acc["unit"] = unit
            c.assume(SUM(0) == unit)
        elif kind == "pow":
            k = c.choose(3)
            m = (c.fresh_int("exponent"), Expr(sympy.Symbol, z3.Int("s1"), "s1"), Expr(sympy.Rational, z3.Int("r")))[k]
            base = Expr(sympy.Expr, VAL(0))
            rejected = k != 0 or m <= 0
            e = Expr(sympy.Pow, None, args=(base, m))
            if k == 0:
                want = SUM(m)
            acc["op"], acc["unit"] = (lambda a, i: a * VAL(0)), 1
            c.assume(SUM(0) == 1)
        elif kind == "mod":
            e = Expr(sympy.Mod, MOD(VAL(0), VAL(1)), args=(Expr(sympy.Expr, VAL(0)), Expr(sympy.Expr, VAL(1))))
            want = e.val
        else:
            e, rejected = Expr(kind, z3.Int("?"), args=args), True
        lab = (kind if isinstance(kind, str) else "any other function") + ": "
        calls = []

        def rec(it, a, k):
            sub, mp = a
            calls.append(mp is the_map)
            if not isinstance(sub, Expr):
                raise C.Unsupported("a recursive call on something else")
            return Aff(sub.val)

        def holder(fr, keep=False):
            return [k for k, v in fr.locals.items() if isinstance(v, Aff)]

        def cut(it, s, seq, fr):
            if acc["op"] is None:
                return False
            hs = holder(fr)
            if len(hs) != 1:
                raise C.Unsupported("the accumulator of the loop")
            v = hs[0]

            def step(k):
                c.assume(SUM(S.zterm(k) + 1) == acc["op"](SUM(S.zterm(k)), S.zterm(k)))

            def setup(it_, fr_, k):
                fr_.locals[v] = Aff(SUM(S.zterm(k)))
                step(k)
                state["k"] = k

            state = {}
            return Cut(
                lambda it_, fr_: [(lab + "nothing before the first", fr_.locals[v].val == SUM(0))],
                setup,
                lambda it_, fr_, k: [(lab + "one operand at a time", S.zterm(fr_.locals[v].val) == SUM(S.zterm(k) + 1))]
                if isinstance(fr_.locals[v], Aff) else [(lab + "an affine expression", False)],
                keep={v})(it, s, seq, fr)

        # the first call runs the code, calls it makes are the induction hypothesis
        it = interp({})
        it.contracts.update(affine_contracts(f))
        node = it.lift(fn)
        it.contracts[id(fn)] = rec
        it.loop_contract = cut
        try:
            r = it.call(node, [e, smap], {})
        except C.PyRaise as ex:
            if "Stop" in type(ex.exc).__name__:
                raise
            ok = isinstance(ex.exc, (AssertionError, NotImplementedError, TypeError, KeyError))
            return [(lab + "rejected", S.conj(rejected, ok))]
        g = [(lab + "not rejected", S.neg(rejected))]
        g.append((lab + "an affine expression", isinstance(r, Aff)))
        if isinstance(r, Aff) and want is not None:
            g.append((lab + "of the same value", S.zterm(r.val) == want))
        g.append((lab + "operands under the same symbols", all(calls)))
        return g

    return o.prove(run, raises=stopped())


class Num(Pretend):
    """a finite sympy number: exactly `val` (an integer or a real term)"""

    def __init__(self, cls, val):
        Pretend.__init__(self, cls)
        self.val = val

    def _pyvc_eq(self, o):
        return o is self

    def __eq__(self, o):
        return o is self

    __hash__ = object.__hash__


def numbers(it):
    """int, math.ceil and math.floor of the numbers above"""
    import math

    def model(fn, op):
        old = it.builtin_models.get(fn, fn)
        it.builtin_models[fn] = lambda *a, **k: op(a[0].val) if a and isinstance(a[0], Num) else other(old, a, k)

    def other(old, a, k):
        try:
            return old(*a, **k)
        except TypeError as e:
            raise C.PyRaise(e)

    def integral(x):
        if not x.is_int():
            raise C.Unsupported("int of a fraction")
        return x

    model(int, integral)
    model(math.ceil, lambda x: x if x.is_int() else -z3.ToInt(-x))
    model(math.floor, lambda x: x if x.is_int() else z3.ToInt(x))


def ranges():
    """ContextCache.set_symbolic_guards: the least interval of integers of every range"""
    import sympy

    f = fx()
    o = Oblig("ContextCache.set_symbolic_guards")
    inf = [("infinite", sympy.oo, TOP)] + ([("int_oo", f.int_oo, TOP)] if f.int_oo is not None else [])
    ends = [("minus " + a, -b, BOT) for a, b, _ in inf] + inf

    def run(c):
        imp, gni, b = new_importer()
        cc = imp._cc
        stale = G("the ranges of another program")
        cc._symbolic_guards = stale
        n = c.fresh_int("ranges")
        c.assume(n >= 0)

        def end(name):
            """(a bound, the integer it stands for)"""
            k = c.choose(len(ends) + 2)
            if k < len(ends):
                return ends[k][1], ends[k][2]
            if k == len(ends):
                v = c.fresh_int(name)
                return Num(sympy.Integer, v), v
            r = z3.Real(c.fresh(name))
            c.assume(z3.Not(z3.IsInt(r)))
            return Num(sympy.Rational, r), (-z3.ToInt(-r) if name == "lower" else z3.ToInt(r))

        seen = []

        class Range:
            _pyvc_ok = True

            def __init__(self):
                self.is_bool, self.memo = bool(c.choose(2)), {}
                seen.append(self)

            @property
            def lower(self):
                return self.get("lower")

            @property
            def upper(self):
                return self.get("upper")

            def get(self, name):
                if self.is_bool:
                    return sympy.false if name == "lower" else sympy.true
                if name not in self.memo:
                    self.memo[name] = end(name)
                return self.memo[name][0]

        class Ranges:
            _pyvc_ok = True

            def values(self):
                return S.SList(n, lambda i: Range())

            def items(self):
                return S.SList(n, lambda i: (Expr(sympy.Symbol, None, "its name"), Range()))

        it = interp({})
        numbers(it)
        made, looked = [], []

        def comp(it_, e, seq, fr):
            k = c.fresh_int("k")
            c.assume(z3.And(0 <= k, k < n))
            pair = seq.f(k)
            looked.append(pair[1])
            it_.assign(e.generators[0].target, pair, fr)
            if e.generators[0].ifs:
                raise C.Unsupported("ranges left out")
            made.append((it_.expr(e.key, fr), it_.expr(e.value, fr), pair[1]))
            return made[-1]

        it.dict_comp = comp
        lab = "ranges: "
        def integral(r):
            whole = lambda x: isinstance(x, Num) and x.cls is sympy.Integer or f.int_oo is not None and (x is f.int_oo or x == -f.int_oo)  # noqa: E731
            return not r.is_bool and whole(r.lower) and whole(r.upper)

        def flag_loop(it_, s, seq, fr):
            """the search for a range of integers: the flag it may set is false before"""
            from checks.fximp import assigned

            flags = [v for v in assigned(s.body)[0] if isinstance(fr.locals.get(v), bool)]

            def put(i_, fr_, k):
                for v in flags:
                    fr_.locals[v] = entry[v]

            def kept(i_, fr_, k):
                return [(lab + "the search goes on only without having found one", all(fr_.locals[v] is entry[v] for v in flags)),
                        (lab + "a range of integers is found", not integral(seen[-1]))]

            entry = {v: fr.locals[v] for v in flags}
            return Cut(lambda *a: [], put, kept, keep=flags, may_break=True)(it_, s, seq, fr)

        it.loop_contract = flag_loop
        try:
            it.call(cc.set_symbolic_guards, [Pretend(object, range_constraints=Ranges())], {})
        except C.PyRaise as e:
            if "Stop" in type(e.exc).__name__:
                raise
            return [(lab + "only a range of booleans is rejected", bool(looked) and looked[-1].is_bool)]
        r = cc._symbolic_guards
        g = [("ranges: none of another program", r is not stale)]
        if r is stale:
            return g
        if isinstance(r, dict):
            g.append(("ranges: nothing is made up", not r))
            g.append(("ranges: none are dropped if one is of integers", not any(integral(x) for x in seen)))
            return g
        if not made or r is not made[-1]:
            raise C.Unsupported("ranges made otherwise")
        key, val, rng = r
        g.append(("ranges: under the symbol's name", key == "its name"))
        if rng.is_bool:
            raise C.Unsupported("a range of booleans")
        rng.lower, rng.upper
        g.append(("ranges: the least integer of the range", S.zeq(val.min_val, rng.memo["lower"][1])))
        g.append(("ranges: the greatest integer of the range", S.zeq(val.max_val, rng.memo["upper"][1])))
        return g

    return o.prove(run, raises=stopped())


def symbol_ops():
    """GraphNodeImporter._import_shape_symbols_with_guards, resolve_symbol_value, bind_symbol_value"""
    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_shape_symbols_with_guards")
    LO, HI = z3.Function("least", z3.IntSort(), z3.IntSort()), z3.Function("greatest", z3.IntSort(), z3.IntSort())

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        n = c.fresh_int("symbols")
        c.assume(n >= 0)
        bound = []

        class Guards:
            _pyvc_ok = True

            def items(self):
                return S.SList(n, lambda i: (G("symbol", i), f.RangeConstraint(LO(S.zterm(i)), HI(S.zterm(i)))))

        it = interp({GNI.bind_symbol_value: lambda it, d: bound.append((d["shape_symbol"], d["value"]))})

        def after(it_, fr, k):
            ops = list(b.operations)
            ok = len(ops) == 1 and ops[0].name == "torch.symbolic_int"
            g = [("one operation for each symbol", ok)]
            if not ok:
                return g
            op = ops[0]
            a = op.attributes
            g.append(("of a symbolic integer's attributes", set(a) == {"symbol_name", "min_val", "max_val"}))
            if set(a) != {"symbol_name", "min_val", "max_val"}:
                return g
            g.append(("of its name", is_(a["symbol_name"].payload[0], "symbol", k)))
            for nm, fn in (("min_val", LO), ("max_val", HI)):
                t, v = a[nm].payload
                g.append(("with its range", S.conj(S.zeq(v, fn(S.zterm(k))), repr(t) == repr(R.IntegerType.get_signless(64)))))
            g.append(("an integer", len(op.result_types) == 1 and op.result_types[0] is gni._cc.torch_int_type and not list(op.operands)))
            g.append(("at the location given", op.loc is loc))
            g.append(("which is the symbol's value", len(bound) == 1 and bound[0][1] is op.results[0]))
            if bound:
                g.append(("which is the symbol's value", is_(bound[0][0], "symbol", k)))
            return g

        it.loop_contract = Cut(lambda *a: [], lambda *a: None, after)
        with R.InsertionPoint(b):
            it.call(gni._import_shape_symbols_with_guards, [loc, Guards()], {})
        return [("nothing but the symbols", not list(b.operations) and not bound)]

    def table(c):
        """bind_symbol_value and resolve_symbol_value on a table of any content"""
        imp, gni, b = new_importer()
        has, val = c.choose(2) == 1, (GV("value"), R.Value(None))[c.choose(2)]
        keep = {"other": GV("other")}
        gni._symbol_to_value.update(keep)
        if has:
            gni._symbol_to_value["s"] = old = GV("earlier")
        it = interp({})
        if c.choose(2):
            try:
                r = it.call(gni.resolve_symbol_value, ["s"], {})
            except C.PyRaise as e:
                return [("an unknown symbol is rejected", not has and isinstance(e.exc, KeyError))]
            return [("a symbol's value is the one bound to it", has and r is old)]
        try:
            it.call(gni.bind_symbol_value, ["s", val], {})
        except C.PyRaise as e:
            return [("only a second binding is rejected", has and isinstance(e.exc, AssertionError))]
        return [("no second binding", not has), ("the value is bound, the others are kept", gni._symbol_to_value == {**keep, "s": val})]

    o2 = Oblig("GraphNodeImporter.bind_symbol_value, resolve_symbol_value")
    return [o.prove(run, raises=stopped()), o2.prove(table)]


def bind_ops():
    """GraphNodeImporter._create_bind_symbolic_shape_ops"""
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._create_bind_symbolic_shape_ops")
    SYM = z3.Function("is_symbolic", z3.IntSort(), z3.BoolSort())
    NAME = "the symbol's name"

    class Dim:
        _pyvc_ok = True

        def __init__(self, i):
            self.i = i
            self.expr = ShapeExpr(i)
            self.node = Pretend(object, expr=self.expr)

        def _pyvc_isinstance(self, ts):
            s = SYM(S.zterm(self.i))
            a, b_ = any(issubclass(torch.SymInt, t) for t in ts), any(issubclass(int, t) for t in ts)
            return s if a and not b_ else z3.Not(s) if b_ and not a else a and b_

    class ShapeExpr(G):
        """the expression of dimension i"""

        def __init__(self, *ix, code=None):
            G.__init__(self, "shape expression", *ix, code=code)
            self.free_symbols = Free(ix[0])

        def _pyvc_rebuild(self, t):
            return ShapeExpr(t[1])

    class Free:
        _pyvc_ok = True

        def __init__(self, i):
            self.i = i

    def run(c):
        imp, gni, b = new_importer()
        loc, node = imp_loc(gni), FxNode("node")
        n, m = c.fresh_int("rank"), c.fresh_int("symbols")
        c.assume(z3.And(n >= 0, m >= 0))
        case = c.choose(4)  # no value; not a tensor; no symbolic size; symbolic sizes
        sized = case == 3
        val = Pretend(f.TorchFakeTensor if case >= 2 else torch.SymInt, _has_symbolic_sizes_strides=sized)

        val.size = val_size = lambda: S.SList(n, Dim)
        val_size._pyvc_ok = True
        val.shape = S.SList(n, Dim)
        node.meta = {} if case == 0 and c.choose(2) else {"val": None if case == 0 else val}

        class Symbol(Pretend):
            def __init__(self, i):
                Pretend.__init__(self, f.sympy.Symbol)
                self.i, self.name = i, NAME

            def __str__(self):
                return NAME

        class SymSet:
            """the set of symbols collected so far; of m symbols when it is read"""

            _pyvc_ok = True
            _pyvc_class = set

            def __init__(self):
                self.log = []

            def _pyvc_iter(self):
                return S.SList(m, Symbol)

            def _pyvc_len(self):
                return m

            def update(self, *xs):
                self.log.extend(xs)

            def add(self, x):
                raise C.Unsupported("single symbols")

        native(SymSet)
        sets, maps, goals = [], [], []

        def mkset(*a):
            if a:
                raise C.Unsupported("a set made otherwise")
            sets.append(SymSet())
            return sets[-1]

        class Names(S.SList):
            __slots__ = ()

        class Map:
            """name of symbol i -> i, in order"""

            _pyvc_ok = True

            def keys(self):
                return Names(m, lambda i: G("name", i))

            _pyvc_iter = keys

            def _pyvc_len(self):
                return m

            def values(self):
                return S.SList(m, lambda i: G("affine symbol", i))

        native(Map)

        def comp(it_, e, seq, fr):
            k = c.fresh_int("i")
            c.assume(z3.And(0 <= k, k < m))
            it_.assign(e.generators[0].target, seq.f(k), fr)
            if e.generators[0].ifs:
                raise C.Unsupported("symbols left out")
            goals.append(("every symbol has its number", S.conj(S.zeq(seq.n, m), it_.expr(e.key, fr) == NAME, is_(it_.expr(e.value, fr), "affine symbol", k))))
            maps.append(Map())
            return maps[-1]

        def operand(it_, d):
            return R_(d["node"] is node and d["result_index"] == 0)

        def R_(ok):
            return GV("value of the node") if ok else GV("?")

        def translate(it_, d):
            ok = len(maps) == 1 and d["symbols_map"] is maps[0]
            x = d["expr"]
            if isinstance(x, Dim):
                return S.ite(SYM(S.zterm(x.i)), G("?"), G("affine", x.i)) if ok else G("?")
            if not ok or not isinstance(x, G):
                return G("?")
            return G("affine", x.ix[0]) if x.code == ShapeExpr(0).code else G("?")

        made = []

        def affine_map(it_, a, k):
            made.append(a)
            return G("the map", len(made))

        it = interp({GNI.resolve_node_value: operand, GNI.resolve_symbol_value: lambda it_, d: GV("value of symbol", d["shape_symbol"].ix[0]),
                     f.sympy_expr_to_semi_affine_expr: translate})
        it.contracts[id(f.AffineSymbolExpr.get)] = lambda it_, a, k: G("affine symbol", a[0])
        it.contracts[id(f.AffineMap.get)] = affine_map
        it.builtin_models[set] = mkset
        by_name = []

        def in_order(x, key=None, reverse=False):
            if isinstance(x, SymSet):
                by_name.append(key is not None and it.call(key, [Symbol(c.fresh_int("i"))], {}) == NAME)
                return S.SList(m, Symbol)
            if isinstance(x, Names) and key is None and by_name and all(by_name):
                return S.SList(m, lambda i: x.f(m - 1 - S.zterm(i))) if reverse else x
            return it.b_sorted(x, key=key, reverse=reverse)

        it.builtin_models[sorted] = in_order
        it.dict_comp = comp

        def cut(it_, s, seq, fr):
            if not sets or maps:
                return False
            ss = sets[-1]
            muts = [v for v in assigned(s.body)[1] if v in fr.locals]
            lists = [v for v in muts if isinstance(fr.locals[v], (list, S.SList))]
            if len(lists) != 1 or len(sets) != 1:
                raise C.Unsupported("the containers of the loop over the sizes")
            v = lists[0]

            def exact(i):
                return ShapeExpr(i)

            def setup(it__, fr_, k):
                ss.log.clear()
                fr_.locals[v] = S.SList(S.zterm(k), exact)

            def after(it__, fr_, k):
                L = fr_.locals[v]
                x = S.as_slist(L)
                last = x.f(k)
                here = isinstance(last, Dim) and last.i is k
                g = [("one expression for each size", S.zeq(x.n, k + 1))]
                symbolic = isinstance(last, ShapeExpr)
                g.append(("the size's own", symbolic and last.is_("shape expression", k) if not here else z3.Not(SYM(S.zterm(k)))))
                fs = [a for a in ss.log]
                g.append(("the symbols in it are known", z3.Implies(SYM(S.zterm(k)), len(fs) == 1 and isinstance(fs[0], Free) and S.zeq(fs[0].i, k))))
                g.append(("no other symbols", z3.Implies(z3.Not(SYM(S.zterm(k))), z3.BoolVal(not fs))))
                return g

            entry = [("no expression before the first", S.zeq(S.as_slist(fr.locals[v]).n, 0)), ("no symbol before the first", not ss.log)]
            return Cut(lambda *a: entry, setup, after, keep=muts)(it_, s, seq, fr)

        it.loop_contract = cut
        with R.InsertionPoint(b):
            it.call(gni._create_bind_symbolic_shape_ops, [loc, node], {})
        ops = list(b.operations)
        if not sized:
            return [("nothing for a value without symbolic sizes", not ops)]
        g = list(goals)
        ok = len(ops) == 1 and ops[0].name == "torch.bind_symbolic_shape" and len(made) == 1
        g.append(("one operation binds the shape", ok))
        if not ok:
            return g
        op = ops[0]
        g.append(("its map", set(op.attributes) == {"shape_expressions"} and op.attributes["shape_expressions"].payload[0].is_("the map", 1)))
        nd, ns, exprs = made[0][:3]
        g.append(("a map of the symbols alone", S.conj(S.zeq(nd, 0), S.zeq(ns, m))))
        xs = S.as_slist(exprs)
        j = c.fresh_int("j")
        c.assume(z3.And(0 <= j, j < n))
        g.append(("an expression for each dimension", S.zeq(xs.n, n)))
        g.append(("in order", is_(xs.f(j), "affine", j)))
        opl = S.as_slist(op.operands)
        i = c.fresh_int("i")
        c.assume(z3.And(0 <= i, i < m))
        first = S.is_sym(opl.n) and not c.branch(S.zeq(opl.n, m))
        g.append(("the value and the symbols are its operands", S.conj(S.zeq(opl.n, m + 1), first and is_(opl.f(0), "value of the node"))))
        if not first:
            return g
        g.append(("in the order the map numbers them", is_(opl.f(i + 1), "value of symbol", i)))
        g.append(("at the location given", op.loc is loc and not list(op.result_types)))
        return g

    return o.prove(run, raises=stopped())
