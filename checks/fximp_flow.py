"""C12: every node of the graph becomes the operation it stands for."""
import operator

from checks.fximp import C, Cut, E, G, GN, GV, Oblig, R, S, Stop, args_of, fx, interp, is_, new_importer, stopped, z3

I = z3.IntVal


class FxNode:
    """a node of the graph, known by its position"""

    _pyvc_ok = True

    def __init__(self, tag="node", *ix, op="call_function", target=None, args=(), kwargs=None, meta=None, name="n"):
        self.g = G(tag, *ix)
        self.op, self.target, self.args, self.meta, self.name = op, target, args, {} if meta is None else meta, name
        self.kwargs = {} if kwargs is None else kwargs
        self.users = {}
        self.graph = None

    def _pyvc_class(self):
        import torch

        return torch.fx.Node


class Pretend:
    """stands for an object of the class given"""

    _pyvc_ok = True

    def __init__(self, cls, **kw):
        self.__dict__.update(kw)
        self.cls = cls

    def _pyvc_class(self):
        return self.cls


def sym(cls=None):
    import torch

    return Pretend(cls or torch.SymInt)


TARGETS = None


def targets():
    """(label, target, meta val, effect expected or None for a rejection)"""
    import torch

    f = fx()
    out = [("getitem", operator.getitem, None, "_import_getitem"), ("getitem of a symbolic value", operator.getitem, sym(), "_import_getitem")]
    for t in sorted(f.SYMBOLIC_TORCH_OPS, key=str):
        out.append((str(t), t, sym(), "_import_symbolic_torch_op"))
        out.append((str(t) + " of static value", t, 3, "_import_symbolic_torch_op"))
    for cls in (torch.SymInt, torch.SymFloat, torch.SymBool):
        out.append((f"builtin giving {cls.__name__}", operator.mul, sym(cls), "_import_symbolic_torch_op"))
    out += [
        ("builtin on static values", operator.mul, 3, None),
        ("overload", Pretend(torch._ops.OpOverload), Pretend(torch.Tensor), "_import_torch_op_overload"),
        ("overload giving a SymInt", Pretend(torch._ops.OpOverload), sym(), "_import_torch_op_overload"),
        ("higher-order operator", Pretend(torch._ops.HigherOrderOperator), None, "_import_hop"),
        ("a Python function", Pretend(type(lambda: 0)), None, None),
    ]
    return out


def import_nodes():
    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter.import_nodes")
    P = z3.Function("placeholders_before", z3.IntSort(), z3.IntSort())

    def run(c):
        imp, gni, b = new_importer()
        nargs, n = z3.Int("nargs"), z3.Int("n")
        c.assume(z3.And(nargs >= 0, n >= 0, P(0) == 0))
        b.arguments = S.SList(nargs, lambda i: GV("block argument", i))
        skip, shapes = bool(c.choose(2)), bool(c.choose(2))
        eff = []

        def rec(name):
            def h(it, d):
                d.pop("self", None)
                eff.append((name, d, R.current_block() is b))
                return GV("imported", d["arg"].g.ix[0]) if name == "_import_argument" else None

            return h

        con = {getattr(GNI, m): rec(m) for m in ("bind_node_value", "_import_getitem", "_import_symbolic_torch_op", "_import_torch_op_overload", "_import_hop", "_import_argument", "_create_bind_symbolic_shape_ops", "_import_shape_symbols_with_guards")}
        guards = {"s0": object()}
        con[f.ContextCache.get_symbolic_guards] = lambda it, d: guards
        st = {}

        def node_location(it, d):
            st["known"] = c.choose(2)
            return G("location of node", d["node"].g.ix[0]) if st["known"] else None

        con[f.ContextCache.get_node_location] = node_location
        tg = targets()

        def node(k):
            if "node" in st:
                return st["node"]
            op = ("placeholder", "call_function", "output", "get_attr", "call_module", "call_method")[c.choose(6)]
            nd = FxNode("node", k, op=op)
            st["node"], st["k"], st["want"] = nd, k, None
            c.assume(P(k) >= 0)
            if op == "placeholder":
                c.assume(P(k) < nargs)  # the function has an argument for every placeholder
            if op == "call_function":
                lab, nd.target, val, st["want"] = tg[c.choose(len(tg))]
                st["label"] = lab
                if val is not None:
                    nd.meta["val"] = val
            if op == "output":
                m = st["m"] = z3.Int("m")
                c.assume(m >= 0)
                results = lambda cls: cls(m, lambda i: FxNode("result", S.zterm(i)))  # noqa: E731
                form = st["form"] = c.choose(3)
                nd.args = ([results(S.STuple), results(S.SList), FxNode("result", 0)][form],)
                if form == 2:
                    st["m"] = I(1)
            return nd

        def carried(fr):
            """the loop's counter of placeholders and its current location"""
            cnt = [v for v, x in fr.locals.items() if type(x) is int and not isinstance(x, bool)]
            loc = [v for v, x in fr.locals.items() if isinstance(x, R.Location)]
            if len(cnt) != 1 or len(loc) != 1:
                raise C.Unsupported("carried variables of the loop")
            return cnt[0], loc[0]

        def enter(it, fr):
            st["cnt"], st["loc"] = carried(fr)
            cut.keep |= {st["cnt"], st["loc"]}
            if shapes:
                ok = len(eff) == 1 and eff[0][0] == "_import_shape_symbols_with_guards" and eff[0][1]["symbolic_guards"] is guards and eff[0][2]
            else:
                ok = not eff
            return [
                ("no placeholder seen", fr.locals[st["cnt"]] == 0),
                ("location unknown", fr.locals[st["loc"]] == R.Location.unknown()),
                ("shape symbols are imported first, if asked for", ok),
            ]

        def at(it, fr, k):
            fr.locals[st["cnt"]] = P(k)
            fr.locals[st["loc"]] = G("current location", k)
            eff.clear()
            st["ops"] = len(b.operations)

        def after(it, fr, k):
            nd = st["node"]
            counts = nd.op == "placeholder" and not skip
            g = [
                ("placeholders are counted", S.zeq(fr.locals[st["cnt"]], P(k) + (1 if counts else 0))),
            ]
            l2 = fr.locals[st["loc"]]
            here = (lambda x: is_(x, "location of node", k)) if st["known"] else (lambda x: is_(x, "current location", k))
            g.append(("the location of the node, or that of the last node with one", here(l2)))
            es = list(eff)
            if shapes:
                ok = bool(es) and es[-1][0] == "_create_bind_symbolic_shape_ops" and es[-1][1]["node"] is nd and es[-1][2]
                g.append((f"{nd.op}: its symbolic shape is bound after it", ok))
                es = es[:-1] if ok else es
            else:
                g.append(("no symbolic shapes unless asked for", not any(e[0] == "_create_bind_symbolic_shape_ops" for e in es)))
            g.append((f"{nd.op}: emitted into the function's block", all(e[2] for e in es)))
            new = b.operations[st["ops"]:]
            if nd.op == "placeholder" and not skip:
                ok = len(es) == 1 and es[0][0] == "bind_node_value" and es[0][1]["node"] is nd and es[0][1]["result_index"] == 0
                g.append(("placeholder: bound once", ok and not new))
                g.append(("placeholder: the block argument at its place among the placeholders", is_(es[0][1]["value"], "block argument", P(k)) if ok else False))
            elif nd.op == "call_function":
                lab, want = st["label"], st["want"]
                if want is None:
                    g.append((f"{lab}: rejected", False))
                    return g
                ok = len(es) == 1 and es[0][0] == want and es[0][1]["node"] is nd and not new
                g.append((f"call of {lab}: imported once, by {want}", ok))
                if ok:
                    d = es[0][1]
                    g.append((f"call of {lab}: at its location", here(d["loc"])))
                    if want == "_import_torch_op_overload":
                        g.append((f"call of {lab}: its own target", d["concrete_target"] is None))
                    if want in ("_import_hop", "_import_symbolic_torch_op"):
                        g.append((f"call of {lab}: its own target", d.get("hop", d.get("target")) is nd.target))
            elif nd.op == "output" and not skip:
                # the operands are imported by a comprehension of symbolic length: its
                # effect log holds one generic element
                ok = len(new) == 1 and isinstance(new[0], R.ReturnOp)
                g.append(("output: one return", ok))
                if ok:
                    r = new[0].operands
                    g.append(("output: as many values as results", S.zeq(S.length(r), st["m"])))
                    j = z3.Int("j")
                    v = S.at(r, j) if isinstance(r, S.SList) else r[0]
                    jj = j if isinstance(r, S.SList) else I(0)
                    g.append(("output: every value is the imported result at its place", z3.Implies(z3.And(0 <= jj, jj < st["m"]), S.zterm(is_(v, "imported", jj)))))
                    g.append(("output: at its location", here(new[0].loc)))
            else:
                g.append((f"{nd.op}: nothing emitted, nothing bound", not es and not new))
            return g

        cut = Cut(enter, at, after, matches=lambda seq: seq.n is n)
        it = interp(con)
        it.loop_contract = cut
        nodes = S.SList(n, node)
        try:
            it.call(gni.import_nodes, [nodes], {"skip_placeholders_outputs": skip, "import_symbolic_shape_expressions": shapes})
        except C.PyRaise as e:
            if isinstance(e.exc, NotImplementedError):
                return [("only an unsupported target is rejected", st["node"].op == "call_function" and st["want"] is None)]
            raise
        return cut.goals + [("nothing after the last node", not eff)]

    return o.prove(run, raises=stopped(), budget_s=100, max_paths=20000)


class Map:
    """ghost dict: membership of a key is an uninterpreted predicate of its index"""

    _pyvc_ok = True

    def __init__(self, has, tag):
        self.has, self.tag = has, tag

    def __contains__(self, k):
        return bool(S.simp_bool(self.has(S.zterm(k.ix[0]))))

    def __getitem__(self, k):
        return GN(self.tag, k.ix[0])

    def get(self, k, default=None):
        return self[k] if k in self else default


def overload():
    """_import_torch_op_overload: operands by the schema, one operation, results bound."""
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_torch_op_overload")
    HAS = z3.Function("in_kwargs", z3.IntSort(), z3.BoolSort())

    def run(c):
        imp, gni, b = new_importer()
        nparams, nargs, nres = z3.Ints("nparams nargs nres")
        c.assume(z3.And(nparams >= 0, nargs >= 0, nargs <= nparams, nres >= 0))
        eff = []
        table = f.TENSOR_SCALAR_OP_CONVERTER
        rewritten = sorted(table)
        pick = c.choose(1 + 2 * len(rewritten))
        scalar = pick > 0 and pick % 2 == 1
        given = rewritten[(pick - 1) // 2] if pick else None
        node = FxNode("node", 0, args=S.STuple(nargs, lambda i: GN("arg", i)), kwargs=Map(HAS, "kwarg"))
        if pick:
            # a tensor operator on two or three arguments, which are concrete here
            na = 2 + c.choose(2)
            node.args = tuple(G("arg", i) for i in range(na))
            node.kwargs = {"alpha": G("kwarg", 2)} if na == 2 and c.choose(2) else {}

        class Param:
            _pyvc_ok = True

            def __init__(self, i):
                self.i = i

            def _pyvc_terms(self):
                return [self.i]

            def _pyvc_rebuild(self, t):
                return Param(t[0])

            name = property(lambda s: G("parameter name", s.i))
            type = property(lambda s: G("parameter type", s.i))
            default_value = property(lambda s: GN("default", s.i))

        schema = Pretend(torch._C.FunctionSchema)
        schema.arguments = S.SList(nparams, lambda i: Param(S.zterm(i)))
        schema.returns = S.SList(nres, lambda i: G("return", i))
        schema.name, schema.overload_name = "ghost::op", "overload"
        if pick:
            ns = torch.ops
            for p in given.split(".")[1:]:
                ns = getattr(ns, p)
            real = ns if isinstance(ns, torch._ops.OpOverload) else ns.default
            schema.arguments = real._schema.arguments
            schema.name, schema.overload_name = real._schema.name, real._schema.overload_name
        target = Pretend(torch._ops.OpOverload, _schema=schema)
        how = c.choose(3)  # canonicalised away, canonicalised to this node, explicit target
        canon = FxNode("canonical", 0, args=node.args, kwargs=node.kwargs, target=target)
        concrete = target if how == 2 else None
        used = node if how == 2 else canon
        start = FxNode("node", 1) if how != 2 else node
        loc = imp_loc(gni)
        def import_argument(it, d):
            a, t = d["arg"], d["expected_jit_type"]
            good = isinstance(a, (G, FxNode)) and d["loc"] is loc
            if not good:
                raise C.Unsupported("argument import of something else")
            ti = t.ix[0] if isinstance(t, G) else tagcode_(str(t))
            return GV("imported argument", a.ix[0], ti, a.code)

        def import_default(it, d):
            a, t = d["arg"], d["expected_jit_type"]
            ti = t.ix[0] if isinstance(t, G) else tagcode_(str(t))
            if isinstance(a, G):
                return GV("imported argument", a.ix[0], ti, a.code)
            return GV("imported argument", -1 if a is None else int(a), ti, tagcode_("concrete default"))

        def bind(it, d):
            eff.append(("bind", d["node"], d["value"], d["result_index"]))

        nrt = nres if not pick else 1
        rts = S.SList(nres, lambda i: G("result type", i)) if not pick else [G("result type", 0)]
        unpacked = []

        def unpack(it, d):
            unpacked.append((d["node"], d["schema"]))
            return rts

        asked = []

        def is_scalar(it, d):
            asked.append(d["arg"])
            return scalar

        con = {
            f.node_canonicalize: lambda it, d: (None if how == 0 else canon) if d["node"] is start else G("?"),
            GNI._import_argument: import_argument,
            GNI._import_default_value: import_default,
            GNI._unpack_node_result_types: unpack,
            GNI.bind_node_value: bind,
            f.is_scalar_arg: is_scalar,
        }
        want_name = "torch.ghost.op.overload" if not pick else given
        want_schema = schema
        if scalar:
            want_name = table[given]
            ns = torch.ops
            for p in want_name.split(".")[1:]:
                ns = getattr(ns, p)
            want_schema = ns._schema
        n_ops = len(b.operations)
        state = {}

        def enter(it, fr):
            state["bound0"] = list(eff)
            return [("nothing is bound before its operation exists", not any(e[0] == "bind" for e in eff) and len(b.operations) == n_ops + 1)]

        def at(it, fr, k):
            eff.clear()

        def after(it, fr, k):
            op = b.operations[-1]
            ok = len(eff) == 1 and eff[0][0] == "bind" and eff[0][1] is used
            g = [("one value bound per result, to this node", ok)]
            if ok:
                v = eff[0][2]
                g.append(("the result at its place", S.zeq(v.index, k) if isinstance(v, R.Value) and v.owner is op else False))
                g.append(("under its own index", S.zeq(eff[0][3], k)))
            return g

        cut = Cut(enter, at, after, matches=lambda seq: seq.n is nres)
        it = interp(con)
        it.loop_contract = cut
        kw = {} if concrete is None else {"concrete_target": concrete}
        from pyvc.mlir_rec import InsertionPoint

        with InsertionPoint(b):
            try:
                r = it.call(gni._import_torch_op_overload, [loc, start], kw)
            except C.PyRaise as e:
                if not isinstance(e.exc, Stop):
                    raise
                # a path that ends inside the loop: the operation is judged here too
                return e.exc.goals + judge(b.operations[n_ops:], c, locals())
        if how == 0:
            return [("a node that is canonicalised away emits nothing and binds nothing", not eff and len(b.operations) == n_ops)]
        g = cut.goals + judge(b.operations[n_ops:], c, locals())
        if pick:
            op = b.operations[-1]
            ok = len(eff) == 1 and eff[0][0] == "bind" and eff[0][1] is used and eff[0][2] is op.results[0] and eff[0][3] == 0
            g.append((f"{given}: its result is bound to the node", ok))
        else:
            g.append(("nothing bound after the last result", not any(e[0] == "bind" for e in eff)))
        return g

    def judge(ops, c, L):
        pick, given, scalar = L["pick"], L["given"], L["scalar"]
        used, loc, gni = L["used"], L["loc"], L["gni"]
        g = [("exactly one operation", len(ops) == 1)]
        if len(ops) != 1:
            return g
        op = ops[0]
        named = op.name == L["want_name"] or (op.name == "torch.operator" and op.attributes.get("name") == R.StringAttr.get(L["want_name"]))
        g.append((f"{given or 'operator'}: named after the schema{' of its scalar form' if scalar else ''}", named))
        g.append(("at the location given", op.loc is loc))
        g.append(("its result types are those of the node", op.result_types is L["rts"] and [x[0] for x in L["unpacked"]] == [used]))
        multi = used in gni._multi_result_nodes
        many = S.simp_bool(S.zterm(L["nrt"]) > 1) if not pick else False
        g.append(("noted as having several results exactly if it has", S.zeq(many, multi) if not isinstance(many, bool) else many == multi))
        if pick:
            g.append((f"{given}: asked about its second argument", [a is used.args[1] for a in L["asked"]] == [True]))
            ps = L["want_schema"].arguments
            g.append((f"{given}: one operand per parameter", len(op.operands) == len(ps)))
            for i, (v, p) in enumerate(zip(op.operands, ps)):
                if i < len(used.args):
                    w = ("arg", i)
                elif p.name in used.kwargs:
                    w = ("kwarg", used.kwargs[p.name].ix[0])
                else:
                    w = ("concrete default", -1 if p.default_value is None else int(p.default_value))
                ok = isinstance(v, GV) and S.conj(S.zeq(v.ix[2], tagcode_(w[0])), S.zeq(v.ix[0], w[1]), S.zeq(v.ix[1], tagcode_(str(p.type))))
                g.append((f"{given}: operand {i} ({p.name})", ok))
            return g
        nparams, nargs = L["nparams"], L["nargs"]
        xs = op.operands
        g.append(("one operand per parameter", S.zeq(S.length(xs), nparams)))
        j = z3.Int("j")
        if not isinstance(xs, S.SList):
            if isinstance(xs, list) and not xs:
                return g
            return g + [("operands", False)]
        v = S.at(xs, j)
        if not isinstance(v, GV):
            return g + [("operands are imported arguments", False)]
        rng = z3.And(0 <= j, j < nparams)
        HASj = HAS(j)
        src = z3.If(j < nargs, I(tagcode_("arg")), z3.If(HASj, I(tagcode_("kwarg")), I(tagcode_("default"))))
        g.append(("operand: the positional argument, else the keyword argument, else the default", z3.Implies(rng, z3.And(S.zterm(v.code) == tagcode_("imported argument"), S.zterm(v.ix[2]) == src, S.zterm(v.ix[0]) == j))))
        g.append(("operand: imported at the type of its parameter", z3.Implies(rng, S.zterm(v.ix[1]) == j)))
        return g

    return o.prove(run, raises=stopped(), budget_s=120, max_paths=20000)


def tagcode_(t):
    from checks.fximp import tagcode

    return tagcode(t)


def top():
    return R._STACK[-1] if R._STACK else None


def imp_loc(gni):
    return R.Location("given", context=gni._c)


# ---------------------------------------------------------------- arguments
def convert_type():
    """bool values where the schema wants a number"""
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._convert_type")
    jit = [None, torch.IntType.get(), torch.FloatType.get(), torch.NumberType.get(), torch.BoolType.get(), torch.TensorType.get(), torch.StringType.get(), torch.ListType(torch.IntType.get()), torch.OptionalType(torch.IntType.get())]
    vals = ["!torch.bool", "!torch.int", "!torch.float", "!torch.vtensor<[2],f32>", "!torch.none", "!torch.str", "!torch.list<int>"]

    def run(c):
        imp, gni, b = new_importer()
        t = jit[c.choose(len(jit))]
        vt = vals[c.choose(len(vals))]
        v = GV("v", type=R.Type(vt))
        with R.InsertionPoint(b):
            r = interp({}).call(gni._convert_type, [v, t], {})
        ops = b.operations
        lab = f"{vt} as {t}: "
        want = None
        if vt == "!torch.bool" and isinstance(t, torch.FloatType):
            want = ("torch.aten.Float.bool", "!torch.float")
        elif vt == "!torch.bool" and isinstance(t, (torch.IntType, torch.NumberType)):
            want = ("torch.aten.Int.bool", "!torch.int")
        if want is None:
            return [(lab + "the value itself", r is v and not ops)]
        ok = len(ops) == 1 and ops[0].name == want[0] and len(ops[0].operands) == 1 and ops[0].operands[0] is v and [str(x) for x in ops[0].result_types] == [want[1]]
        return [(lab + "one conversion of the value", ok), (lab + "its result", ok and r is ops[0].results[0])]

    o.prove(run)

    def to_tensor(c):
        """the second use: a boolean tensor stored as bytes gets its dtype back"""
        imp, gni, b = new_importer()
        v = GV("v", type=R.Type("!torch.vtensor<[2],ui8>"))
        size = torch.Size([2, 3])
        dts = sorted(f.TORCH_DTYPE_TO_INT, key=str)
        dt = dts[c.choose(len(dts))]
        ty = R.Type("T")
        con = {f.ContextCache.create_vtensor_type: lambda it, d: ty if d["dtype"] is dt and d["size"] is size else R.Type("?")}
        with R.InsertionPoint(b):
            r = interp(con).call(gni._convert_type, [v, torch.Tensor, dt, size], {})
        ops = b.operations
        ok = len(ops) == 2 and ops[1].name == "torch.prims.convert_element_type" and ops[1].operands[0] is v and len(ops[1].operands) == 2 and ops[1].operands[1] is ops[0].results[0] and ops[1].result_types == [ty]
        code = ops[0].name == "torch.constant.int" and ops[0].attributes["value"].payload[1] == f.TORCH_DTYPE_TO_INT[dt]
        return [(f"{dt}: one conversion to the dtype asked for", ok and code), (f"{dt}: its result", ok and r is ops[1].results[0])]

    return o.prove(to_tensor)


class FakeModule:
    _pyvc_ok = True

    def __init__(self, attrs):
        self.__dict__.update(attrs)


def argument():
    """_import_argument: by kind of argument and type expected"""
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_argument")
    jit = [None, torch.IntType.get(), torch.FloatType.get(), torch.NumberType.get(), torch.BoolType.get(), torch.TensorType.get(), torch.ListType(torch.IntType.get()), torch.OptionalType(torch.TensorType.get()), torch.OptionalType(torch.NumberType.get())]
    IL = torch.fx.immutable_collections.immutable_list
    lits = [None, True, 3, 2.5, "s", torch.device("cpu"), torch.float32, torch.strided, torch.contiguous_format, "tensor"]

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        t = jit[c.choose(len(jit))]
        kind = c.choose(7)
        calls = []

        def rec(name, res):
            def h(it, d):
                d.pop("self", None)
                calls.append((name, d, top() is loc))
                return res

            return h

        rv, lv, tv, sv, iv, cv = (GV(x, type=R.Type("T")) for x in ("resolved", "list", "tuple", "scalar", "literal", "converted"))

        def convert(it, d):
            if t is None and not isinstance(d["val"], list):
                return d["val"]
            calls.append(("convert", d, True))
            return cv

        con = {
            GNI.resolve_node_value: rec("resolve", rv), GNI._import_list_argument: rec("list", lv), GNI._import_scalar_as_tensor: rec("scalar", sv),
            GNI._import_literal: rec("literal", iv), GNI._convert_type: convert, GNI.bind_node_value: rec("bind", None), GNI._import_tuple_argument: rec("tuple", tv),
        }
        it = interp(con)

        def go(a):
            return it.call(gni._import_argument, [loc, a, t], {})

        names = lambda: [x[0] for x in calls]  # noqa: E731
        tail = [] if t is None else ["convert"]

        def finish(lab, mid, val, extra=()):
            g = [(lab + "as a value of its kind", names() == mid + tail)]
            if names() != mid + tail:
                return g
            if t is None:
                g.append((lab + "that value", r is val))
            else:
                g.append((lab + "converted to the type expected", calls[-1][1]["val"] is val and calls[-1][1]["expected_type"] is t and r is cv))
            return g + list(extra)

        tl = f" at {t}: "
        if kind == 0:  # a node with one value
            nd = FxNode("n", 0, op="call_function" if c.choose(2) else "placeholder")
            r = go(nd)
            return finish("node" + tl, ["resolve"], rv, [("node: resolved as itself", calls[0][1] == {"node": nd, "result_index": 0})])
        if kind == 1:
            nd = FxNode("n", 0)
            gni._multi_result_nodes.add(nd)
            try:
                go(nd)
            except C.PyRaise as e:
                return [("a node with several results is no value", isinstance(e.exc, RuntimeError) and not calls)]
            return [("a node with several results is no value", False)]
        if kind == 2:  # a constant attribute, first or later use
            obj = object()
            nd = FxNode("n", 0, op="get_attr", target="c")
            nd.graph = FakeModule({"owning_module": FakeModule({"c": obj} if c.choose(2) else {})})
            bound = c.choose(2)
            if bound:
                gni._v[(nd, 0)] = rv
            try:
                r = go(nd)
            except C.PyRaise as e:
                return [("an attribute that is not there is rejected", isinstance(e.exc, AssertionError) and not bound and not hasattr(nd.graph.owning_module, "c"))]
            if bound:
                return finish("later use of an attribute" + tl, ["resolve"], rv)
            return finish("attribute" + tl, ["literal", "bind", "resolve"], rv, [
                ("attribute: its object, at the location", calls[0][1]["py_value"] is obj and calls[0][2]) if calls else ("attribute", False),
                ("attribute: bound to the node", len(calls) > 1 and calls[1][1] == {"node": nd, "value": iv, "result_index": 0}),
            ])
        if kind == 3:
            a = IL([1, 2])
            r = go(a)
            return finish("list" + tl, ["list"], lv, [("list: the whole list at the type expected", calls[0][1]["arg"] is a and calls[0][1]["expected_jit_type"] is t and calls[0][1]["loc"] is loc)] if calls else [])
        if kind == 4:
            a = (1, FxNode("n", 0))
            r = go(a)
            return finish("tuple" + tl, ["tuple"], tv, [("tuple: the whole tuple", calls[0][1]["arg"] is a and calls[0][1]["loc"] is loc)] if calls else [])
        if kind == 5:
            a = lits[c.choose(len(lits))]
            a = torch.tensor([1.0]) if a == "tensor" else a
            r = go(a)
            if isinstance(t, torch.TensorType) and not isinstance(a, torch.Tensor):
                return finish(f"{a!r}{tl}", ["scalar"], sv, [("a scalar at a tensor type is made a tensor", calls[0][1]["arg"] is a and calls[0][1]["loc"] is loc)] if calls else [])
            lab = "a tensor" if isinstance(a, torch.Tensor) else repr(a)
            return finish(lab + tl, ["literal"], iv, [("literal: its value, at the location", calls[0][1]["py_value"] is a and calls[0][2])] if calls else [])
        a = (object(), {1: 2}, slice(1, 2), b"x")[c.choose(4)]
        if isinstance(t, torch.TensorType):
            r = go(a)  # handed to the scalar import, which rejects it
            return finish(f"{a!r}{tl}", ["scalar"], sv)
        try:
            go(a)
        except C.PyRaise as e:
            return [(f"{type(a).__name__}: rejected", isinstance(e.exc, TypeError))]
        return [(f"{type(a).__name__}: rejected", False)]

    o.prove(run, budget_s=60)

    def tup(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        n = z3.Int("n")
        c.assume(n >= 0)
        t = object()

        def one(it, d):
            if d["loc"] is not loc or d["expected_jit_type"] is not t:
                raise C.Unsupported("element import")
            return GV("imported", d["arg"].ix[0])

        r = interp({GNI._import_argument: one}).call(gni._import_tuple_argument, [loc, S.STuple(n, lambda i: G("element", i)), t], {})
        j = z3.Int("j")
        v = S.at(r, j)
        return [("tuple: as many values", S.zeq(S.length(r), n)), ("tuple: each element at its place", z3.Implies(z3.And(0 <= j, j < n), S.zterm(is_(v, "imported", j))))]

    return o.prove(tup)


def scalar_tensor():
    """_import_scalar_as_tensor: the constant, and the type torch.tensor gives it"""
    import torch

    f = fx()
    o = Oblig("GraphNodeImporter._import_scalar_as_tensor")

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        vals = {int: [0, -1, 2**40], float: [0.0, -2.5, 1e300], bool: [True, False]}
        cls = (int, float, bool)[c.choose(3)]
        a = vals[cls][c.choose(len(vals[cls]))]
        with R.InsertionPoint(b):
            r = interp({}).call(gni._import_scalar_as_tensor, [loc, a], {})
        k, t = torch.tensor(a), b.operations
        ok = len(t) == 2 and t[1].name == "torch.prim.NumToTensor.Scalar" and t[1].operands == [t[0].results[0]] and r is t[1].results[0] and t[1].loc is loc
        want = {int: "!torch.vtensor<[],si64>", float: "!torch.vtensor<[],f32>", bool: "!torch.vtensor<[],i1>"}[cls]
        cname = {int: "torch.constant.int", float: "torch.constant.float", bool: "torch.constant.bool"}[cls]
        return [
            (f"{cls.__name__}: a constant made a tensor", ok),
            (f"{cls.__name__}: the constant", ok and t[0].name == cname and t[0].attributes["value"].payload[1] == a),
            (f"{cls.__name__}: of torch.tensor's type", ok and [str(x) for x in t[1].result_types] == [want] and k.shape == ()),
        ]

    return o.prove(run)


def list_argument():
    """_import_list_argument for a list of any length: one operand per element."""
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_list_argument")
    prim = {"int": (torch.IntType, int), "float": (torch.FloatType, float), "bool": (torch.BoolType, bool), "str": (torch.StringType, str), "vtensor": (torch.TensorType, None)}
    IL = torch.fx.immutable_collections.immutable_list

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        names = list(prim)
        elt = names[c.choose(5)]
        jcls, pycls = prim[elt]
        opt_elem = bool(c.choose(2))
        form = c.choose(3)  # list, optional list, no type
        et = jcls.get()
        lt = torch.ListType(torch.OptionalType(et) if opt_elem else et)
        t = [lt, torch.OptionalType(lt), None][form]
        if form == 2 and (opt_elem or elt == "vtensor"):
            raise C.PathInfeasible()
        n = z3.Int("n")
        c.assume(n >= (1 if form == 2 else 0))
        st = {}
        eff = []
        mlir = {"int": "!torch.int", "float": "!torch.float", "bool": "!torch.bool", "str": "!torch.str", "vtensor": "!torch.vtensor<[2],f32>"}[elt]

        def elem(k):
            # a literal of the element's class, None, a bound node, an attribute node, a node with several results, something else
            ks = "nodes" if elt == "vtensor" else "all"
            first = not S.is_int_like(k) or False
            if form == 2 and (isinstance(k, int) and k == 0 or (C.is_sym(k) and z3.is_int_value(z3.simplify(k)) and z3.simplify(k).as_long() == 0)):
                return {"int": 5, "float": 0.5, "bool": True, "str": "z"}[elt]
            if "e" in st:
                return st["e"]
            kinds = ["node", "attribute", "bound attribute", "several", "none", "wrong"] + (["literal"] if ks == "all" else [])
            kd = st["kind"] = kinds[c.choose(len(kinds))]
            if kd == "literal":
                st["e"] = {"int": 7, "float": 2.5, "bool": True, "str": "s"}[elt]
            elif kd == "none":
                st["e"] = None
            elif kd == "wrong":
                st["e"] = {"int": 2.5, "float": 7, "bool": 7, "str": 7, "vtensor": 7}[elt]
            else:
                nd = FxNode("e", 0, op="get_attr" if "attr" in kd else "call_function", target="a")
                nd.graph = FakeModule({"owning_module": FakeModule({"a": "object"})})
                if kd == "bound attribute":
                    gni._v[(nd, 0)] = GV("bound")
                if kd == "several":
                    gni._multi_result_nodes.add(nd)
                st["e"] = nd
            return st["e"]

        def resolve(it, d):
            eff.append(("resolve", d["node"]))
            return GV("value of the node", k_of(), type=R.Type(mlir))

        def k_of():
            return st["k"]

        con = {
            GNI.resolve_node_value: resolve,
            GNI.bind_node_value: lambda it, d: eff.append(("bind", d["node"], d["value"], d["result_index"])),
            GNI._import_literal: lambda it, d: eff.append(("literal", d["py_value"], top() is loc)) or GV("literal"),
            GNI._import_default_value: lambda it, d: eff.append(("default", d["arg"])) or GV("value of the literal", k_of(), type=R.Type("?")),
        }
        lst = type("ImmutableList", (S.SList,), {"_pyvc_class": IL})(n, elem)
        OPER = lambda k: S.SList(k, lambda i: GV("operand", i))  # noqa: E731

        def carried(fr):
            ls = [v for v, x in fr.locals.items() if isinstance(x, list) and not x]
            if len(ls) != 1:
                raise C.Unsupported("carried variables of the loop")
            return ls[0]

        def enter(it, fr):
            st["ops"] = carried(fr)
            cut.keep.add(st["ops"])
            return [("no operand yet", fr.locals[st["ops"]] == [])]

        def at(it, fr, k):
            st["k"] = k
            fr.locals[st["ops"]] = OPER(k)
            eff.clear()

        def after(it, fr, k):
            kd = st.get("kind")
            xs = fr.locals[st["ops"]]
            g = [("one operand more", S.zeq(S.length(xs), k + 1))]
            last = S.at(xs, k)
            j = z3.Int("j")
            g.append(("earlier operands stay", z3.Implies(z3.And(0 <= j, j < k), S.zterm(is_(S.at(xs, j), "operand", j)))))
            if kd is None:
                return g
            e = st["e"]
            lab = f"list of {'optional ' if opt_elem else ''}{elt}, element is {kd}: "
            if kd in ("node", "bound attribute"):
                g.append((lab + "its value", S.conj(is_(last, "value of the node", k), eff == [("resolve", e)])))
            elif kd == "attribute":
                ok = [x[0] for x in eff] == ["literal", "bind", "resolve"] and eff[0][1:] == ("object", True) and eff[1][1] is e and eff[1][3] == 0 and eff[2][1] is e
                g.append((lab + "its object, bound to the node", S.conj(is_(last, "value of the node", k), ok)))
            elif kd == "literal" or (kd == "none" and opt_elem):
                g.append((lab + "its constant", S.conj(is_(last, "value of the literal", k), eff == [("default", e)])))
            else:
                g.append((lab + "rejected", False))
            return g

        cut = Cut(enter, at, after, matches=lambda seq: seq.n is n)
        it = interp(con)
        it.loop_contract = cut
        try:
            with R.InsertionPoint(b):
                r = it.call(gni._import_list_argument, [loc, lst, t], {})
        except C.PyRaise as e:
            if isinstance(e.exc, Stop):
                return e.exc.goals
            kd = st.get("kind")
            allowed = kd in ("several", "wrong") or (kd == "none" and not opt_elem)
            return [(f"list of {elt}: only a wrong element is rejected ({kd})", allowed and isinstance(e.exc, (AssertionError, RuntimeError)))]
        ops = b.operations
        ok = len(ops) == 1 and ops[0].name == "torch.prim.ListConstruct"
        g = cut.goals + [("one list", ok and r is ops[0].results[0] and ops[0].loc is loc)]
        if ok:
            want = f"!torch.list<optional<{elt}>>" if opt_elem else f"!torch.list<{elt}>"
            g.append((f"list of {elt}: its type", [str(x) for x in ops[0].result_types] == [want]))
            xs = ops[0].operands
            j = z3.Int("j")
            g.append(("as many operands as elements", S.zeq(S.length(xs), n)))
            if isinstance(xs, S.SList):
                g.append(("in their order", z3.Implies(z3.And(0 <= j, j < n), S.zterm(is_(S.at(xs, j), "operand", j)))))
            else:
                g.append(("in their order", xs == []))
        return g

    o.prove(run, budget_s=60)

    def wrong_type(c):
        imp, gni, b = new_importer()
        t = [torch.IntType.get(), torch.TensorType.get(), torch.OptionalType(torch.IntType.get())][c.choose(3)]
        try:
            interp({}).call(gni._import_list_argument, [imp_loc(gni), IL([1]), t], {})
        except C.PyRaise as e:
            return [(f"a list where {t} is expected is rejected", isinstance(e.exc, AssertionError))]
        return [(f"a list where {t} is expected is rejected", False)]

    o.prove(wrong_type)

    def default(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        calls = []
        lt = torch.ListType(torch.IntType.get())
        con = {GNI._import_list_argument: lambda it, d: calls.append(d) or GV("list")}
        a = [None, True, 3, 2.5, "s", [1, 2], [], torch.float32, torch.strided, torch.contiguous_format, torch.device("cpu"), object()][c.choose(12)]
        try:
            with R.InsertionPoint(b):
                r = interp(con).call(gni._import_default_value, [loc, a, lt], {})
        except C.PyRaise as e:
            return [("a default that has no literal is rejected", type(a) is object and isinstance(e.exc, RuntimeError))]
        if isinstance(a, list):
            return [("a list default is a list of its values", len(calls) == 1 and calls[0]["arg"] is a and calls[0]["expected_jit_type"] is lt and S.conj(is_(r, "list")) is True)]
        ops = b.operations
        v = ops[0].attributes.get("value") if ops else None
        want = None if a is None else {torch.float32: 6, torch.strided: 0, torch.contiguous_format: 0}.get(a, "cpu" if isinstance(a, torch.device) else a) if not isinstance(a, (bool, int, float, str)) else a
        got = None if a is None else v.payload[-1] if v is not None else "?"
        return [(f"default {a!r}: its constant", len(ops) == 1 and r is ops[0].results[0] and got == want and (a is None) == (ops[0].name == "torch.constant.none"))]

    return o.prove(default)


# ---------------------------------------------------------------- values of nodes
def binding():
    """bind_node_value / resolve_node_value: a map from (node, result) to values."""
    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter.bind_node_value, resolve_node_value")

    def run(c):
        imp, gni, b = new_importer()
        a, other = FxNode("a", name="a"), FxNode("b", name="b")
        it = interp({})
        i = c.choose(3)
        g = []
        # state before: any of the neighbouring keys may be bound already
        before = {}
        for key in ((a, (i + 1) % 3), (other, i)):
            if c.choose(2):
                gni._v[key] = before[key] = GV("old", len(before))
        taken = c.choose(2)
        if taken:
            gni._v[(a, i)] = before[(a, i)] = GV("taken")
        lazy = c.choose(2)
        made = []

        class Callback:
            _pyvc_ok = True

            def __call__(self):
                made.append(GV("lazily made", len(made)))
                return made[-1]

        v = Callback() if lazy else GV("value")
        seen = []

        class Hook:
            _pyvc_ok = True

            def __init__(self, q):
                self.q = q

            def __call__(self, x):
                seen.append((self.q, x))

        ncb = c.choose(3)
        gni._on_node_produced = {"b": [Hook("b")]}
        if ncb:
            gni._on_node_produced["a"] = [Hook(q) for q in range(ncb)]
        try:
            if i or c.choose(2):
                it.call(gni.bind_node_value, [a, v, i], {})
            else:
                it.call(gni.bind_node_value, [a, v], {})
        except C.PyRaise as e:
            return [("a result is not bound twice", bool(taken) and isinstance(e.exc, AssertionError) and gni._v == before)]
        g.append(("a result is not bound twice", not taken))
        g.append(("only that result is bound", {k for k in gni._v} == set(before) | {(a, i)} and all(gni._v[k] is before[k] for k in before)))
        r1 = it.call(gni.resolve_node_value, [a, i], {})
        r2 = it.call(gni.resolve_node_value, [a, i], {})
        g.append(("resolving gives the value bound", r1 is (made[0] if lazy else v) if (made or not lazy) else False))
        g.append(("a lazy value is made once", r2 is r1 and len(made) == (1 if lazy else 0)))
        g.append(("every hook on the node sees the value once, no other does", [q for q, _ in seen] == list(range(ncb)) and all(x is r1 for _, x in seen)))
        if not i:
            g.append(("result 0 by default", it.call(gni.resolve_node_value, [a], {}) is r1))
        return g

    o.prove(run, budget_s=60)

    def unbound(c):
        imp, gni, b = new_importer()
        a = FxNode("a", name="a")
        gni._v[(a, 0)] = GV("x")
        try:
            interp({}).call(gni.resolve_node_value, [a, 1], {})
        except C.PyRaise as e:
            return [("an unbound result is an error", isinstance(e.exc, KeyError))]
        return [("an unbound result is an error", False)]

    o.prove(unbound)

    def late(c):
        """a hook added after its node was bound sees the value at once"""
        imp, gni, b = new_importer()
        a, other = FxNode("a", name="a"), FxNode("b", name="b")
        seen = []
        nres = c.choose(3)
        for i in range(nres):
            gni._v[(a, i)] = GV("v", i)
        gni._v[(other, 0)] = GV("w")
        had = c.choose(2)

        class Hook:
            _pyvc_ok = True

            def __call__(self, x):
                seen.append(x)

        first, h = Hook(), Hook()
        if had:
            gni._on_node_produced["a"] = [first]
        interp({}).call(gni._add_node_produced_callback, ["a", h], {})
        return [
            ("the hook sees each value already bound, once", len(seen) == nres and all(any(x is gni._v[(a, i)] for x in seen) for i in range(nres))),
            ("and is kept beside earlier hooks", list(gni._on_node_produced.get("a", ())) == ([first] if had else []) + [h]),
        ]

    o.prove(late)

    def symbols(c):
        imp, gni, b = new_importer()
        it = interp({})
        v = GV("s")
        if c.choose(2):
            gni._symbol_to_value["s0"] = GV("old")
            try:
                it.call(gni.bind_symbol_value, ["s0", v], {})
            except C.PyRaise as e:
                return [("a shape symbol is not bound twice", isinstance(e.exc, AssertionError))]
            return [("a shape symbol is not bound twice", False)]
        it.call(gni.bind_symbol_value, ["s0", v], {})
        g = [("a shape symbol has the value bound", it.call(gni.resolve_symbol_value, ["s0"], {}) is v)]
        try:
            it.call(gni.resolve_symbol_value, ["s1"], {})
            g.append(("an unbound symbol is an error", False))
        except C.PyRaise as e:
            g.append(("an unbound symbol is an error", isinstance(e.exc, KeyError)))
        return g

    return o.prove(symbols)


def getitem():
    """_import_getitem: element `index` of what the node returned"""
    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_getitem")
    lists = sorted(f.TORCH_LIST_TYPES)

    def multi(c):
        imp, gni, b = new_importer()
        ref = FxNode("ref")
        idx = z3.Int("index")
        node = FxNode("node", args=(ref, idx))
        gni._multi_result_nodes.add(ref)
        got = []
        con = {
            GNI.resolve_node_value: lambda it, d: GV("result", d["result_index"]) if d["node"] is ref else GV("?"),
            GNI.bind_node_value: lambda it, d: got.append((d["node"], d["value"], d["result_index"])),
        }
        interp(con).call(gni._import_getitem, [imp_loc(gni), node], {})
        ok = len(got) == 1 and got[0][0] is node and got[0][2] == 0
        return [("of several results: one value bound to the node", ok and not b.operations), ("of several results: the result indexed", is_(got[0][1], "result", idx) if ok else False)]

    o.prove(multi)

    def lst(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        n = z3.Int("n")
        idx = z3.Int("index")
        c.assume(z3.And(n >= 0))
        ref = FxNode("ref")
        ref.meta["val"] = S.SList(n, lambda i: G("val", i))
        node = FxNode("node", args=(ref, idx))
        t = lists[c.choose(len(lists))]
        lv = GV("the list", type=R.Type(t))
        got = []
        con = {
            GNI.resolve_node_value: lambda it, d: lv if d["node"] is ref and d["result_index"] == 0 else GV("?"),
            GNI.bind_node_value: lambda it, d: got.append((d["node"], d["value"], d["result_index"])),
            f.ContextCache.value_info_to_type: lambda it, d: G("type of", d["val"].ix[0]),
        }
        cached = c.choose(2)
        old = S.STuple(n, lambda i: GV("unpacked before", i))
        if cached:
            gni._unpack_list_values[ref] = old
        try:
            with R.InsertionPoint(b):
                interp(con).call(gni._import_getitem, [loc, node], {})
        except C.PyRaise as e:
            return [("of a list: only an index outside it is an error", S.conj(isinstance(e.exc, RuntimeError), z3.Or(idx >= n, idx < -n)))]
        ok = len(got) == 1 and got[0][0] is node and got[0][2] == 0
        g = [("of a list: one value bound to the node", ok)]
        if not ok:
            return g
        v = got[0][1]
        place = z3.If(idx < 0, idx + n, idx)
        if cached:
            return g + [("of a list: unpacked once only", not b.operations), ("of a list: the element indexed", is_(v, "unpacked before", place))]
        ops = b.operations
        one = len(ops) == 1 and ops[0].name == "torch.prim.ListUnpack" and ops[0].operands == [lv] and ops[0].loc is loc
        g.append(("of a list: the list is unpacked", one))
        if one:
            rt = ops[0].result_types
            j = z3.Int("j")
            g.append(("of a list: one result per element", S.zeq(S.length(rt), n)))
            g.append(("of a list: of the element's type", z3.Implies(z3.And(0 <= j, j < n), S.zterm(is_(S.at(rt, j), "type of", j))) if isinstance(rt, S.SList) else rt == []))
            g.append(("of a list: the element indexed", S.zeq(v.index, place) if getattr(v, "owner", None) is ops[0] else False))
            g.append(("of a list: kept for the next element", ref in gni._unpack_list_values))
        return g

    return o.prove(lst)


def result_types():
    """_unpack_node_result_types: as many types as the schema returns"""
    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._unpack_node_result_types")

    def run(c):
        imp, gni, b = new_importer()
        n = z3.Int("n")
        c.assume(n >= 0)
        schema = Pretend(object)
        schema.returns = S.SList(n, lambda i: G("return", i))
        node = FxNode("node")
        many = C.cur().branch(n >= 2)
        node.meta["val"] = S.SList(n, lambda i: G("val", i)) if many else G("val")
        con = {
            f.ContextCache.node_val_to_type: lambda it, d: G("type of the node") if d["node"] is node and not d["mutable"] else G("?"),
            f.ContextCache.value_info_to_type: lambda it, d: G("type of", d["val"].ix[0]) if not d["mutable"] and d["tensor_meta"] is None else G("?"),
        }
        r = interp(con).call(gni._unpack_node_result_types, [node, schema], {})
        j = z3.Int("j")
        g = [("one type per result", S.zeq(S.length(r), n))]
        if many:
            g.append(("the type of the value at its place", z3.Implies(z3.And(0 <= j, j < n), S.zterm(is_(S.at(r, j), "type of", j)))))
        elif not C.cur().entails(n == 0):
            g.append(("the type of the node's value", is_(r[0], "type of the node")))
        return g

    return o.prove(run)


def emit():
    """_emit_operation: the registered operation, or torch.operator naming it"""
    f = fx()
    o = Oblig("_emit_operation")

    def run(c):
        imp, gni, b = new_importer()
        name = z3.String("name")
        reg = z3.Bool("registered")
        asked = []

        def registered(n):
            asked.append(n)
            return reg

        registered._pyvc_ok = True
        ctx_ = type("Ctx", (), {"_pyvc_ok": True})()
        ctx_.is_registered_operation = registered
        loc = Pretend(R.Location, context=ctx_)
        rts, ops = object(), object()
        with R.InsertionPoint(b):
            r = interp({}).call(f._emit_operation, [name, rts, ops, loc], {})
        ok = b.operations == [r] and r.operands is ops and r.result_types is rts and r.loc is loc
        g = [("one operation with these operands and types", ok), ("the name asked about is the operation's", len(asked) == 1 and asked[0] is name)]
        if r.name is name:
            g.append(("a registered operation", reg))
        else:
            a = r.attributes.get("name")
            g.append(("an unregistered operation", S.conj(z3.Not(reg), r.name == "torch.operator", isinstance(a, R.Attribute) and a.kind == "str" and a.payload[0] is name)))
        return g

    o.prove(run)

    import torch

    def all_schemas(c):
        """every schema registered with this PyTorch"""
        bad = []
        n = 0
        it = interp({})
        for s in torch._C._jit_get_all_schemas():
            q = Pretend(object, name=s.name, overload_name=s.overload_name)
            try:
                r = it.call(f._get_mlir_op_name_for_schema, [q], {})
            except C.PyRaise as e:
                r = e.exc
            if "::" not in s.name:
                continue
            a, _, bb = s.name.partition("::")
            if r != f"torch.{a}.{bb}" + (f".{s.overload_name}" if s.overload_name else ""):
                bad.append((s.name, s.overload_name, r))
            n += 1
        return [(f"operation named torch.<namespace>.<name>[.<overload>] {bad[:1]}", not bad and n > 1000)]

    o.prove(all_schemas)

    def scalar_arg(c):
        vals = [(1, True), (2.5, True), (True, True), (None, False), ("s", False), ((1,), False)]
        for cls in (torch.SymInt, torch.SymFloat, torch.SymBool):
            vals.append((Pretend(cls), True))
        vals.append((Pretend(torch.Tensor), False))
        v, want = vals[c.choose(len(vals))]
        node = c.choose(2)
        a = FxNode("a") if node else v
        if node and v is not None:
            a.meta["val"] = v
        return [(f"is_scalar_arg of {'a node holding ' if node else ''}{type(v).__name__}", interp({}).call(f.is_scalar_arg, [a], {}) is want)]

    o.prove(scalar_arg)

    def table(c):
        """the scalar form of a tensor operator is that operator on a number"""
        tb = f.TENSOR_SCALAR_OP_CONVERTER
        k = sorted(tb)[c.choose(len(tb))]

        def schema(n):
            x = torch.ops
            for p in n.split(".")[1:]:
                x = getattr(x, p)
            return (x if isinstance(x, torch._ops.OpOverload) else x.default)._schema

        a, z = schema(k), schema(tb[k])
        pa, pz = [(p.name, str(p.type)) for p in a.arguments], [(p.name, str(p.type)) for p in z.arguments]
        return [
            (f"{k}: of the same operator", z.name == a.name),
            (f"{k}: its parameters, the second a number", [p for p, _ in pz[: len(pa)]] == [p for p, _ in pa] and pz[1][1] == "number" and pa[1][1] == "Tensor" and all(x == y for (n, x), (_, y) in zip(pa, pz) if n != "other")),
            (f"{k}: parameters of the tensor form keep their defaults", all(p.default_value == q.default_value for p, q in zip(a.arguments, z.arguments))),
        ]

    return o.prove(table)


# ---------------------------------------------------------------- symbolic arithmetic
def _pyfloordiv(a, b):
    return S.pure_floordiv(a, b)


def py_sem(name, a, b):
    """the Python operator on mathematical integers and reals; None: undefined"""
    ints = a.sort() == z3.IntSort() and (b is None or b.sort() == z3.IntSort())
    if name == "neg":
        return -a
    R_ = S.to_real
    x, y = (a, b) if ints else (R_(a), R_(b))
    if name == "truediv":
        return R_(a) / R_(b)
    if name == "floordiv":
        return S.pure_floordiv(a, b) if ints else z3.ToReal(z3.ToInt(x / y))
    if name == "mod":
        return S.pure_mod(a, b) if ints else x - y * z3.ToReal(z3.ToInt(x / y))
    return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[name]()


# what PyTorch's scalar operators compute (assumed): the operator of this name on
# the operands in order, converted to the parameter types of the overload
ATEN_SEM = {"aten::add": "add", "aten::sub": "sub", "aten::mul": "mul", "aten::div": "truediv", "aten::floordiv": "floordiv", "aten::remainder": "mod", "aten::neg": "neg", "aten::lt": "lt", "aten::le": "le", "aten::gt": "gt", "aten::ge": "ge", "aten::eq": "eq", "aten::ne": "ne"}


def builtins_():
    """_import_symbolic_torch_op on Python operators: what is emitted computes them."""
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_symbolic_torch_op")
    ops = ["truediv", "mul", "add", "sub", "lt", "le", "ge", "ne", "gt", "mod", "eq", "floordiv", "neg"]

    class SymNode:
        _pyvc_ok = True

        def __init__(self, t):
            self.pytype = t

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        name = ops[c.choose(len(ops))]
        target = getattr(operator, name)
        unary = name == "neg"
        st = {"emitted": []}
        vals = {}

        def mk(tag, kind, lit):
            """(argument of the node, its value, its Python type)"""
            if lit:
                v = 3 if kind is int else 2.5
                return v, z3.IntVal(3) if kind is int else z3.RealVal("5/2"), kind
            nd = FxNode(tag, op="call_function", name=tag)
            t = z3.Int(tag) if kind is int else z3.Real(tag)
            nd.meta["val"] = Pretend(torch.SymInt if kind is int else torch.SymFloat, node=SymNode(kind))
            vals[id(nd)] = (t, kind)
            st.setdefault("keep", []).append(nd)
            return nd, t, kind

        ka, kb = (int, float)[c.choose(2)], (int, float)[c.choose(2)]
        la, lb = bool(c.choose(2)), bool(c.choose(2))
        if unary and (kb is float or lb):
            raise C.PathInfeasible()
        A, ta, _ = mk("a", ka, la)
        B, tb, _ = (None, None, None) if unary else mk("b", kb, lb)
        args = (A,) if unary else (A, B)
        if not unary and name in ("truediv", "mod", "floordiv"):
            c.assume(tb != 0)
        node = FxNode("node", op="call_function", target=target, args=args, name="r")
        res = [z3.Bool("x")]

        def value(x, it):
            """value and Python type of an operand of the emitted operation"""
            if isinstance(x, bool):
                raise C.Unsupported("bool operand")
            if isinstance(x, (int, float)):
                from fractions import Fraction

                fr = Fraction(x)
                return (z3.IntVal(x) if isinstance(x, int) else z3.RealVal(f"{fr.numerator}/{fr.denominator}")), type(x)
            return vals[id(x)]

        def emit_op(it, d):
            nd, t = d["node"], d["concrete_target"] if d["concrete_target"] is not None else d["node"].target
            st["emitted"].append((nd, t, tuple(nd.args), dict(nd.kwargs), d["loc"]))

        def promote(it, d):
            # the contract of the conversion, proved below: a node that is float(param)
            if d["loc"] is not loc:
                raise C.Unsupported("location")
            nd = FxNode("promoted", len(st["keep"]), name=f"p{len(st['keep'])}")
            t, kd = vals[id(d["param"])]
            vals[id(nd)] = (S.to_real(t), float)
            nd.meta["val"] = Pretend(torch.SymFloat, node=SymNode(float))
            st["keep"].append(nd)
            return nd

        con = {GNI._import_torch_op_overload: emit_op, GNI._promote_symbolic_scalar_int_float: promote}
        it = interp(con)
        lab = f"{name} of {'literal ' if la else ''}{ka.__name__}" + ("" if unary else f" and {'literal ' if lb else ''}{kb.__name__}") + ": "
        with R.InsertionPoint(b):
            try:
                it.call(gni._import_symbolic_torch_op, [loc, node, target], {})
            except C.PyRaise as e:
                # rejected, since there is no such operator (le.float_int, say)
                absent = name in ("neg",)
                return [(lab + "not rejected", isinstance(e.exc, AttributeError) and not hasattr(f.PY_BUILTIN_TO_TORCH_OP[name], "float") and False or absent and False)]
        g = [(lab + "the node is as it was", node.args is args or node.args == args)]
        em = st["emitted"]
        ok = len(em) == 1 and em[0][0] is node and isinstance(em[0][1], torch._ops.OpOverload) and em[0][4] is loc
        g.append((lab + "one operation", ok))
        if not ok:
            return g
        _, t, xs, ks, _ = em[0]
        sem = ATEN_SEM.get(t._schema.name)
        ps = t._schema.arguments
        g.append((lab + f"operator {t._schema.name}", sem is not None and len(ps) == len(xs) and not ks))
        if sem is None or len(ps) != len(xs):
            return g
        vs = []
        for x, p in zip(xs, ps):
            v, kd = value(x, it)
            want = {"int": int, "float": float}.get(str(p.type))
            g.append((lab + f"operand of type {p.type}", kd is want))
            vs.append(v)
        def defd(op, ys):
            return True
        want = py_sem(name, ta, tb)
        got = py_sem(sem, vs[0], vs[1] if len(vs) > 1 else None)
        # a result of another Python type would be another program
        same = want.sort() == got.sort()
        g.append((lab + "the same value", want == got if same else False))
        return g

    o.prove(run, budget_s=120, max_paths=4000)

    def promote(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        em = []

        class Sym:
            _pyvc_ok = True

        si = Sym()
        param = FxNode("p", name="p")
        param.meta["val"] = si
        made = []

        def node(it, a, k):
            nd = FxNode("new", name=k.get("name", "new"), op=k.get("op"), target=k.get("target"), args=k.get("args", ()), kwargs=k.get("kwargs", {}))
            nd.graph = k.get("graph", a[0] if a else None)
            made.append(nd)
            return nd

        sf = object()
        from checks.fximp import files
        from pyvc.interp import Interp

        it = Interp(files(), {
            id(GNI._import_torch_op_overload): lambda it, a, k: em.append((a[2], a[3] if len(a) > 3 else k.get("concrete_target"))),
            id(torch.fx.Node): node,
            id(torch.sym_float): lambda it, a, k: sf if a[0] is si else None,
        })
        gr = object()
        r = it.call(gni._promote_symbolic_scalar_int_float, [loc, gr, param], {})
        ok = len(made) == 1 and r is made[0]
        return [
            ("a new node", ok),
            ("it is aten.Float.Scalar of the value", ok and r.target is torch.ops.aten.Float.Scalar and tuple(r.args) == (param,) and r.kwargs == {}),
            ("its value is the float of the value", ok and r.meta.get("val") is sf),
            ("imported once", len(em) == 1 and em[0][0] is r and em[0][1] is torch.ops.aten.Float.Scalar),
        ]

    o.prove(promote)

    def sizes(c):
        """sym_size, sym_stride, sym_numel: the operator of the same name and arguments"""
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        tg = sorted(f.SYMBOLIC_TORCH_OPS, key=str)
        t = tg[c.choose(len(tg))]
        args = (FxNode("x"), 1)[: len(t._schema.arguments)]
        node = FxNode("node", target=t, args=args)
        em = []
        interp({GNI._import_torch_op_overload: lambda it, d: em.append((d["node"], d["concrete_target"], tuple(d["node"].args)))}).call(gni._import_symbolic_torch_op, [loc, node, t], {})
        ok = len(em) == 1 and em[0][0] is node and em[0][2] == args
        z = em[0][1] if ok else None
        want = "aten::" + t._schema.name.split("::sym_")[1]
        return [
            (f"{t}: one operation on its arguments", ok),
            (f"{t}: {want}", ok and z._schema.name == want and z._schema.overload_name == t._schema.overload_name and len(z._schema.arguments) == len(t._schema.arguments)),
        ]

    return o.prove(sizes)


# ---------------------------------------------------------------- higher-order operators
def seqgoal(xs, n, parts):
    """goals: the list xs of length n is the concatenation of parts [(length, i -> test(v, i))]"""
    j = z3.Int("j")
    g = [("length", S.zeq(S.length(xs), n))]
    lo = z3.IntVal(0)
    for q, (m, test) in enumerate(parts):
        m = S.zterm(m)
        i = z3.simplify(j - lo)
        if isinstance(xs, S.SList):
            v = S.at(xs, j)
            t = S.over(lambda w: test(w, i), v)
            g.append((f"part {q}", z3.Implies(z3.And(lo <= j, j < lo + m), S.zterm(t))))
        else:
            k0, k1 = z3.simplify(lo), z3.simplify(lo + m)
            if not (z3.is_int_value(k0) and z3.is_int_value(k1)):
                g.append((f"part {q}", False))
                continue
            for k in range(k0.as_long(), min(k1.as_long(), len(xs))):
                g.append((f"part {q}[{k}]", test(xs[k], z3.IntVal(k - k0.as_long()))))
        lo = lo + m
    return g


def own(op):
    """test: result i of op"""
    return lambda v, i: S.zeq(v.index, i) if isinstance(v, R.Value) and v.owner is op else False


def while_loop():
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_hop_while_loop")

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        m, e = z3.Ints("m e")
        c.assume(z3.And(m >= 1, e >= 0))
        single = bool(c.choose(2))  # the one value carried is not in a tuple
        if single:
            m = z3.IntVal(1)
        condm, bodym = FakeModule({}), FakeModule({})
        root = FakeModule({"cond_fn": condm, "body_fn": bodym})
        imp._graph_module_to_func_name = {id(condm): "@cond", id(bodym): "@body", id(root): "@other"}
        gr = FakeModule({"owning_module": root})
        cn, bn = FxNode("cond", op="get_attr", target="cond_fn"), FxNode("body", op="get_attr", target="body_fn")
        carries = S.STuple(m, lambda i: G("carry", i))
        extras = S.STuple(e, lambda i: G("extra", i))
        node = FxNode("node", args=(cn, bn, carries, extras))
        node.graph = gr
        node.meta["val"] = G("val", 0) if single else S.STuple(m, lambda i: G("val", i))
        eff = []

        def arg(it, d):
            a = d["arg"]
            if d["loc"] is not loc or not isinstance(a, G) or d["expected_jit_type"] is not None:
                raise C.Unsupported("argument")
            return GV("imported", a.code, a.ix[0])

        con = {
            GNI._import_argument: arg,
            f.ContextCache.value_info_to_type: lambda it, d: G("type of", d["val"].ix[0]),
            f.ContextCache.node_val_to_type: lambda it, d: G("type of", 0) if d["node"] is node else G("?"),
            GNI.bind_node_value: lambda it, d: eff.append((d["node"], d["value"], d["result_index"])),
        }

        def enter(it, fr):
            return [("nothing bound yet", not eff)]

        def at(it, fr, k):
            eff.clear()

        def after(it, fr, k):
            loop = [x for x in b.operations if x.name == "torch.prim.Loop"]
            ok = len(eff) == 1 and eff[0][0] is node and len(loop) == 1
            return [("one result bound at a time", ok)] + ([("the loop's result", own(loop[0])(eff[0][1], k)), ("under its index", S.zeq(eff[0][2], k))] if ok else [])

        cut = Cut(enter, at, after, matches=lambda seq: S.zterm(seq.n).eq(m))
        it = interp(con)
        it.empty_as_slist = True
        it.loop_contract = cut
        extra_goals = []
        try:
            with R.InsertionPoint(b):
                it.call(gni._import_hop_while_loop, [loc, node, None], {})
        except C.PyRaise as ex:
            if isinstance(ex.exc, Stop):
                return ex.exc.goals
            raise
        ops = b.operations
        g = list(cut.goals)
        names = [x.name for x in ops]
        ok = names == ["func.call", "torch.aten.Bool.Tensor", "torch.constant.int", "torch.prim.Loop"]
        g.append(("a test, then a loop", ok))
        if not ok:
            return g
        call, conv, mx, loop = ops
        carry = (m, lambda v, i: is_(v, "imported", tagcode_("carry"), i))
        extra = (e, lambda v, i: is_(v, "imported", tagcode_("extra"), i))
        V = lambda x: (1, lambda v, i: v is x)  # noqa: E731
        T = lambda x, i: S.conj(S.zeq(i, i), is_(x, "type of", i))  # noqa: E731

        def lab(p, gs):
            g.extend((p + ": " + a, y) for a, y in gs)

        g.append(("the test is the condition function", call.attributes.get("callee") == R.FlatSymbolRefAttr.get("@cond")))
        lab("the test is on the carried values and the extra ones", seqgoal(call.operands, m + e, [carry, extra]))
        g.append(("the test as a bool", conv.operands == [call.results[0]] and [str(x) for x in call.result_types] == ["!torch.vtensor<[],i1>"] and [str(x) for x in conv.result_types] == ["!torch.bool"]))
        g.append(("no bound on the iterations but that of the type", mx.attributes["value"] == R.IntegerAttr.get(R.IntegerType.get_signless(64), 2**63 - 1)))
        lab("the loop starts from the carried values", seqgoal(loop.operands, m + 2, [V(mx.results[0]), V(conv.results[0]), carry]))
        lab("the loop's results", seqgoal(loop.result_types, m, [(m, T)]))
        blocks = loop.regions[0].blocks
        g.append(("one block", len(blocks) == 1))
        if len(blocks) != 1:
            return g
        blk = blocks[0]
        lab("the block takes the iteration and the carried values", seqgoal(blk.arg_types, m + 1, [(1, lambda v, i: isinstance(v, R.Type) and str(v) == "!torch.int"), (m, T)]))
        inner = [x.name for x in blk.operations]
        ok = inner == ["func.call", "func.call", "torch.aten.Bool.Tensor", "torch.prim.Loop.condition"]
        g.append(("an iteration: the body, the test, what is carried on", ok))
        if not ok:
            return g
        body, test, cv, cond = blk.operations
        arg1 = (m, lambda v, i: S.zeq(v.index, i + 1) if isinstance(v, R.Value) and v.owner is blk else False)
        res = (m, own(body))
        g.append(("the body function", body.attributes.get("callee") == R.FlatSymbolRefAttr.get("@body")))
        lab("the body on the values carried in and the extra ones", seqgoal(body.operands, m + e, [arg1, extra]))
        lab("the body's results", seqgoal(body.result_types, m, [(m, T)]))
        g.append(("the test again", test.attributes.get("callee") == R.FlatSymbolRefAttr.get("@cond")))
        lab("the test on the new values and the extra ones", seqgoal(test.operands, m + e, [res, extra]))
        g.append(("the new test as a bool", cv.operands == [test.results[0]] and [str(x) for x in test.result_types] == ["!torch.vtensor<[],i1>"] and [str(x) for x in cv.result_types] == ["!torch.bool"]))
        lab("carried on: the test and the new values", seqgoal(cond.operands, m + 1, [V(cv.results[0]), res]))
        multi = node in gni._multi_result_nodes
        if single:
            g.append(("its one result", not multi and len(eff) == 1 and eff[0][0] is node and own(loop)(eff[0][1], z3.IntVal(0)) is not False and eff[0][2] == 0))
        else:
            g.append(("results taken by getitem", multi))
            if C.cur().entails(m == 1):
                g.append(("its one result", len(eff) == 1 and eff[0][0] is node and own(loop)(eff[0][1], z3.IntVal(0)) is not False and eff[0][2] == 0))
        return g

    return o.prove(run, raises=stopped(), budget_s=100)


def auto_functionalized():
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_hop_auto_functionalized")

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        n, r = z3.Ints("n r")
        c.assume(z3.And(n >= 0, r >= 0))
        none = bool(c.choose(2))  # the operator returns nothing: results start with None

        class P:
            _pyvc_ok = True

            def __init__(self, i):
                self.i = i

            def _pyvc_terms(self):
                return [self.i]

            def _pyvc_rebuild(self, t):
                return P(t[0])

            name = property(lambda s: G("name", s.i))
            type = property(lambda s: G("jit", s.i))

        schema = Pretend(torch._C.FunctionSchema, name="lib::op", overload_name="")
        schema.arguments = S.SList(n, lambda i: P(S.zterm(i)))
        schema.returns = [] if none else [1]
        op = Pretend(torch._ops.OpOverload, _schema=schema)
        node = FxNode("node", args=(op,), kwargs=Map(lambda i: z3.BoolVal(True), "kwarg"))
        vals = S.SList(r, lambda i: G("val", i))
        # with no actual results, the values begin with None
        node.meta["val"] = [None, G("val", 1), G("val", 2)][: 1 + c.choose(3)] if none else vals
        eff = []

        def arg(it, d):
            if d["loc"] is not loc or not isinstance(d["arg"], G):
                raise C.Unsupported("argument")
            return GV("imported", d["arg"].ix[0], d["expected_jit_type"].ix[0], d["arg"].code)

        con = {
            GNI._import_argument: arg,
            f.ContextCache.tensor_metadata_to_type: lambda it, d: G("type of", d["tm"].ix[0]) if "tm" in d else G("type of", list(d.values())[1].ix[0]),
            GNI.bind_node_value: lambda it, d: eff.append((d["node"], d["value"], d["result_index"])),
        }

        def enter(it, fr):
            return [("nothing bound yet", not eff)]

        def at(it, fr, k):
            eff.clear()

        def after(it, fr, k):
            ok = len(eff) == 1 and eff[0][0] is node and len(b.operations) == 1
            return [("one result bound at a time", ok)] + ([("the result", own(b.operations[0])(eff[0][1], k)), ("under its index", S.zeq(eff[0][2], k))] if ok else [])

        cut = Cut(enter, at, after, matches=lambda seq: seq.n is r)
        it = interp(con)
        it.loop_contract = cut
        try:
            with R.InsertionPoint(b):
                it.call(gni._import_hop_auto_functionalized, [loc, node, None], {})
        except C.PyRaise as ex:
            if isinstance(ex.exc, Stop):
                return ex.exc.goals
            raise
        ops = b.operations
        nm = "torch.lib.op"
        ok = len(ops) == 1 and (ops[0].name == nm or (ops[0].name == "torch.operator" and ops[0].attributes["name"] == R.StringAttr.get(nm))) and ops[0].loc is loc
        g = cut.goals + [("one operation, the wrapped operator", ok), ("its results are taken by getitem", node in gni._multi_result_nodes)]
        if not ok:
            return g
        g += [("operands by parameter: " + a, y) for a, y in seqgoal(ops[0].operands, n, [(n, lambda v, i: S.conj(is_(v, "imported", i, i, tagcode_("kwarg"))))])]
        if none:
            k = len(node.meta["val"])
            g.append(("None is bound as the actual result", bool(eff) and eff[0][:2] == (node, None) and eff[0][2] == 0))
            g.append(("then the values changed, in order", len(eff) == k and all(e[0] is node and e[2] == i + 1 and e[1] is ops[0].results[i] for i, e in enumerate(eff[1:])) and len(ops[0].results) == k - 1))
            g.append(("their types", all(is_(t, "type of", i + 1) is True or is_(t, "type of", i + 1) for i, t in enumerate(ops[0].result_types))))
        else:
            g += [("result types: " + a, y) for a, y in seqgoal(ops[0].result_types, r, [(r, lambda v, i: is_(v, "type of", i))])]
        return g

    return o.prove(run, raises=stopped(), budget_s=60)


def flex_attention():
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter._import_hop_flex_attention")

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        sm, mm = FakeModule({}), FakeModule({})
        root = FakeModule({"score": sm, "mask": mm})
        imp._graph_module_to_func_name = {id(sm): "@score", id(mm): "@mask"}
        q, k, v = (FxNode(x) for x in "qkv")
        has_s, has_m = c.choose(2), c.choose(3)
        score = FxNode("s", op="get_attr", target="score") if has_s else None
        mask = [None, (1, 2, None), (1, 2, FxNode("m", op="get_attr", target="mask"))][has_m]
        scale = [None, 0.5, 2, FxNode("sc")][c.choose(4)]
        ko = [{}, {"OUTPUT_LOGSUMEXP": True}, {"OUTPUT_MAX": True}, {"OUTPUT_LOGSUMEXP": False, "OUTPUT_MAX": 1}][c.choose(4)]
        many = c.choose(3)
        node = FxNode("node", args=(q, k, v, score, mask, scale, ko, (), ()))
        node.graph = FakeModule({"owning_module": root})
        node.meta["val"] = [G("val", 0), (G("val", 0), G("val", 1)), (G("val", 0), G("val", 1), G("val", 2))][many]
        eff, made = [], {}

        def arg(it, d):
            return made.setdefault(id(d["arg"]), GV("imported", len(made)))

        con = {
            GNI._import_argument: arg,
            f.ContextCache.value_info_to_type: lambda it, d: G("type of", d["val"].ix[0]),
            f.ContextCache.node_val_to_type: lambda it, d: G("type of", 0),
            GNI.bind_node_value: lambda it, d: eff.append((d["node"], d["value"], d["result_index"])),
        }
        with R.InsertionPoint(b):
            interp(con).call(gni._import_hop_flex_attention, [loc, node, None], {})
        ops = [x for x in b.operations if x.name == "torch.hop_flex_attention"]
        ok = len(ops) == 1 and b.operations[-1] is ops[0] and len(ops[0].operands) == 6
        g = [("one operation", ok)]
        if not ok:
            return g
        xs = ops[0].operands

        def const(x):
            w = x.owner
            return (w.name, w.attributes["value"].payload[-1] if "value" in w.attributes else None) if isinstance(w, R.Operation) else None

        g.append(("query, key and value", all(x is made.get(id(y)) for x, y in zip(xs, (q, k, v)))))
        g.append((f"scale {scale}", const(xs[3]) == ("torch.constant.none", None) if scale is None else const(xs[3]) == ("torch.constant.float", float(scale)) if not isinstance(scale, FxNode) else xs[3] is made.get(id(scale))))
        g.append(("whether the log-sum-exp is returned", const(xs[4]) is not None and const(xs[4])[0] == "torch.constant.bool" and bool(const(xs[4])[1]) == bool(ko.get("OUTPUT_LOGSUMEXP"))))
        g.append(("whether the maxima are returned", const(xs[5]) is not None and const(xs[5])[0] == "torch.constant.bool" and bool(const(xs[5])[1]) == bool(ko.get("OUTPUT_MAX"))))
        a = ops[0].attributes
        g.append(("the score function", a.get("score_mod_fn") == (R.FlatSymbolRefAttr.get("@score") if has_s else None)))
        g.append(("the mask function", a.get("mask_mod_fn") == (R.FlatSymbolRefAttr.get("@mask") if has_m == 2 else None)))
        nres = [1, 2, 3][many]
        g.append(("results", len(ops[0].results) == nres and all(is_(t, "type of", i) is not False for i, t in enumerate(ops[0].result_types))))
        g.append(("bound in order", [(e[0] is node, e[2]) for e in eff] == [(True, i) for i in range(nres)] and all(e[1] is x for e, x in zip(eff, ops[0].results))))
        g.append(("taken by getitem exactly if there are several", (node in gni._multi_result_nodes) == (many > 0)))
        return g

    o.prove(run, budget_s=60)

    def dispatch(c):
        """_import_hop: the handler of that name, once; anything else is rejected"""
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        hs = sorted(n[len("_import_hop_"):] for n in dir(GNI) if n.startswith("_import_hop_"))
        pick = c.choose(len(hs) + 1)
        name = hs[pick] if pick < len(hs) else "no_such_operator"
        calls = []
        con = {getattr(GNI, "_import_hop_" + h): (lambda h: lambda it, d: calls.append((h, d["loc"], d["node"], d["hop"])))(h) for h in hs}
        node = FxNode("node")
        hop = Pretend(torch._ops.HigherOrderOperator, namespace="higher_order")

        def nm():
            return name

        nm._pyvc_ok = True
        hop.name = nm
        try:
            interp(con).call(gni._import_hop, [loc, node, hop], {})
        except C.PyRaise as e:
            return [("only an operator without a handler is rejected", pick == len(hs) and isinstance(e.exc, NotImplementedError))]
        return [(f"{name}: imported once by its handler", len(calls) == 1 and calls[0][0] == name and calls[0][1] is loc and calls[0][2] is node and calls[0][3] is hop)]

    return o.prove(dispatch)


# ---------------------------------------------------------------- canonicalisation
def canonicalisers():
    """a node put into another form computes the same: each parameter of the operator
    it becomes has the value the node gave the parameter it stands for"""
    import torch

    f = fx()
    A = torch.ops.aten
    o = Oblig("node_canonicalize")
    same = lambda *ps: {p: p for p in ps}  # noqa: E731
    # operator -> allowed forms: operator -> {parameter: parameter it stands for, or a value, or a function}
    lfc = {"self": "self", "memory_format": ("value", None)}
    bag = {p.name: p.name for p in A.embedding_bag.padding_idx._schema.arguments}
    spec = {
        A.lift_fresh_copy.default: {A.clone.default: lfc},
        A.lift_fresh_copy.out: {A.clone.out: {**lfc, "out": "out"}},
        A.empty.memory_format: {
            A.empty.memory_format: same("size", "dtype", "layout", "device", "pin_memory", "memory_format"),
            # what an empty tensor holds is not specified
            A.zeros.default: same("size", "dtype", "layout", "device", "pin_memory"),
        },
        A._local_scalar_dense.default: {A.Float.Tensor: {"a": "self"}, A.Int.Tensor: {"a": "self"}, A.Bool.Tensor: {"a": "self"}},
        A._unsafe_index_put.default: {A._unsafe_index_put.hacked_twin: same("self", "indices", "values", "accumulate")},
        A._embedding_bag_forward_only.default: {A.embedding_bag.padding_idx: {**bag, "padding_idx": ("padding", "padding_idx")}},
        A._assert_async.msg: {},
    }

    def value_of(schema, node, p):
        """what the importer takes for the parameter: positional, keyword, default"""
        for i, q in enumerate(schema.arguments):
            if q.name == p:
                if i < len(node.args):
                    return ("given", node.args[i])
                if p in node.kwargs:
                    return ("given", node.kwargs[p])
                return ("default", q.default_value)
        return ("missing", None)

    def run(c):
        ops = sorted(spec, key=str)
        op = ops[c.choose(len(ops))]
        sc = op._schema.arguments
        npos = len([p for p in sc if not p.kwarg_only])
        nreq = len([p for p in sc if not p.has_default_value() and not p.kwarg_only])
        na = nreq + c.choose(npos - nreq + 1)
        node = FxNode("node", target=op, args=tuple(G("given", i) for i in range(na)))
        for i in range(na, len(sc)):
            if not sc[i].has_default_value() or c.choose(2):
                node.kwargs[sc[i].name] = G("given", i)
        pad = c.fresh_int("padding_idx")
        dts = sorted(f.TORCH_DTYPE_TO_INT, key=str)
        dtype = None
        if op is A._local_scalar_dense.default:
            dtype = dts[c.choose(len(dts))]
            if dtype.is_complex or str(dtype) == "torch.bits8":
                raise C.PathInfeasible()
            inp = FxNode("input")
            inp.meta["tensor_meta"] = Pretend(torch.fx.passes.shape_prop.TensorMetadata, dtype=dtype)
            node.args = (inp,)
        if op is A._embedding_bag_forward_only.default:
            if na > 8:
                node.args = node.args[:8] + (pad,)
            if "padding_idx" in node.kwargs:
                node.kwargs["padding_idx"] = pad
        users = c.choose(3)
        bad = [A.baddbmm.default, A.add.Tensor]
        for i in range(users):
            node.users[FxNode("user", i, target=bad[c.choose(2)])] = None
        if op is not A.empty.memory_format and users != 0:
            raise C.PathInfeasible()
        old = FxNode("old", target=op, args=node.args, kwargs=dict(node.kwargs))
        r = interp({}).call(f.node_canonicalize, [node], {})
        lab = f"{op} ({na} positional, {sorted(node.kwargs)}): "
        if op is A._assert_async.msg:
            return [(f"{op}: no result, so it may be left out", r is None or r is node)]
        if r is None:
            return [(lab + "still there", False)]
        if r.target is op:
            return [(f"{op}: unchanged", r.args == old.args and r.kwargs == old.kwargs)]
        forms = spec[op]
        if r.target not in forms:
            raise C.Unsupported(f"{op} becomes {r.target}, for which there is no rule")
        g = []
        if dtype is not None:
            want = A.Float.Tensor if dtype.is_floating_point else A.Bool.Tensor if dtype == torch.bool else A.Int.Tensor
            g.append((f"{op}: a scalar of the tensor's kind ({dtype})", r.target is want))
        new = r.target._schema
        for p, how in forms[r.target].items():
            kind, got = value_of(new, r, p)
            name = p
            if isinstance(how, str):
                wk, want = value_of(op._schema, old, how)
                if wk == "given":
                    ok = got is want
                else:
                    ok = kind in ("given", "default") and not isinstance(got, G) and got == want and type(got) is type(want)
            elif how[0] == "value":
                ok = kind in ("given", "default") and got is how[1]
            else:  # a row that is left out: any index but a row's, for one operator; None for the other
                wk, want = value_of(op._schema, old, how[1])
                if wk != "given":
                    ok = got is None
                else:
                    ok = S.zterm(want) < 0 if got is None else (S.conj(S.zeq(got, want), S.zterm(want) >= 0) if S.is_num_like(got) else False)
            g.append((f"{lab}{name} of {r.target}", ok))
        extra = [k for k in r.kwargs if k not in {q.name for q in new.arguments}]
        g.append((lab + "nothing given that the operator does not have", len(r.args) <= len(new.arguments) and all(k in old.kwargs for k in extra)))
        return g

    o.prove(run, budget_s=60, max_paths=20000)

    def other(c):
        node = FxNode("node", target=A.add.Tensor, args=(G("a"), G("b")), kwargs={"alpha": G("c")})
        r = interp({}).call(f.node_canonicalize, [node], {})
        return [("a node of any other operator is left alone", r is node and node.target is A.add.Tensor and len(node.args) == 2 and len(node.kwargs) == 1)]

    return o.prove(other)


def node_location():
    """ContextCache.get_node_location: the frames of the node's stack trace, innermost first"""
    import re

    f = fx()
    o = Oblig("ContextCache.get_node_location")
    samples = ["", "no frames\n", 'File "a.py", line 1, in f\n    x\n',
               '  File "/x/a b.py", line 10, in forward\n    return x + 1\n  File "/y/c.py", line 22, in g\n    File\n  File "d", line 333, in h\n']
    wants = [[], [], [("a.py", "1")], [("/x/a b.py", "10"), ("/y/c.py", "22"), ("d", "333")]]

    def run(c):
        imp, gni, b = new_importer()
        n = c.fresh_int("frames")
        c.assume(n >= 0)
        case = c.choose(3)  # no trace; an empty one; one with n frames
        trace = (None, "", "trace")[case]
        node = Pretend(object, meta={} if case == 0 and c.choose(2) else {"stack_trace": trace}, stack_trace=trace)
        g, made = [], []

        def findall(it, a, k):
            pat, s = a[:2]
            if k or len(a) > 2 or s is not trace:
                raise C.Unsupported("another search")
            for t, w in zip(samples, wants):
                g.append(("the pattern finds the file and the line of every frame", re.findall(pat, t) == w))
            return S.SList(n, lambda i: (G("file", i), G("line", i)))

        def file(it, a, k):
            nm, line = list(args_of(R.Location.file, a, k).values())[:2]
            right = isinstance(nm, G) and isinstance(line, G) and (nm.code, line.code) == (FILE, LINE)
            return G("frame", nm.ix[0], line.ix[0]) if right else G("another frame")

        def callsite(it, a, k):
            made.append(list(args_of(R.Location.callsite, a, k).values())[:2])
            return G("callsite")

        FILE, LINE = G("file").code, G("line").code
        it = interp({})
        it.contracts[id(re.findall)] = findall
        it.contracts[id(R.Location.file)] = file
        it.contracts[id(R.Location.callsite)] = callsite
        it.contracts[id(R.Location.unknown)] = lambda it_, a, k: G("unknown")
        old = it.builtin_models[int]
        it.builtin_models[int] = lambda *a: a[0] if isinstance(a[0], G) else old(*a)
        r = it.call(gni._cc.get_node_location, [node], {})
        if case == 0:
            return [("no trace, no location", r is None)]
        if case == 1:
            return [("an empty trace is an unknown location", is_(r, "unknown"))]
        g.append(("unknown exactly without frames", S.zeq(S.zterm(n) == 0, is_(r, "unknown"))))
        g.append(("a frame alone is the location", z3.Implies(n == 1, S.zterm(is_(r, "frame", 0, 0)))))
        g.append(("several frames are a call site", z3.Implies(n > 1, S.zterm(S.conj(is_(r, "callsite"), len(made) == 1)))))
        if made:
            callee, frames = made[0]
            fr = S.as_slist(frames)
            j = c.fresh_int("j")
            c.assume(z3.And(0 <= j, j < n - 1))
            g.append(("of the innermost frame", is_(callee, "frame", n - 1, n - 1)))
            g.append(("called by the others, from the inside out", S.conj(S.zeq(fr.n, n - 1), is_(fr.f(j), "frame", n - 2 - j, n - 2 - j))))
        return g

    return o.prove(run, raises=stopped())
