"""C14: a program's inputs, state, updates, outputs and functions."""
import inspect

from checks.fximp import C, Cut, E, G, GV, Oblig, R, S, Stop, assigned, fx, interp, is_, new_importer, stopped, z3
from checks.fximp_flow import FxNode, Pretend, imp_loc

I = z3.IntVal


def at(b):
    return R.current_block() is b


def top_loc():
    return next((s for s in reversed(R._STACK) if isinstance(s, R.Location)), None)


def entry(loc, c):
    """the location and block a function is called in: some other ones"""
    return R.Location.unknown(None)


class Binds:
    """bind_node_value / _add_node_produced_callback, recorded in order"""

    def __init__(self, f):
        self.log = []
        GNI = f.GraphNodeImporter
        self.contracts = {
            GNI.bind_node_value: lambda it, d: self.log.append(("bind", d["node"], d["value"], d["result_index"])),
            GNI._add_node_produced_callback: lambda it, d: self.log.append(("hook", d["producer_node_name"], d["callback"])),
        }


def mutated_input():
    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter.import_mutable_to_vtensor")

    def run(c):
        imp, gni, b = new_importer()
        loc, node, arg, out = imp_loc(gni), FxNode("x"), GV("argument"), GV("produced")
        bs = Binds(f)
        con = {**bs.contracts, f.ContextCache.node_val_to_type: lambda it, d: G("type", 1 if d["mutable"] else 0) if d["node"] is node else G("?")}
        name = ("producer", "x")[c.choose(2)]
        it = interp(con)
        it.call(gni.import_mutable_to_vtensor, [loc, node, arg, name], {})
        ops = list(b.operations)
        ok = len(ops) == 1 and ops[0].name == "torch.copy.to_vtensor"
        g = [("the input is copied once", ok)]
        if not ok:
            return g
        g.append(("from the argument", list(ops[0].operands) == [arg]))
        g.append(("to a value of the node's type", S.conj(len(ops[0].result_types) == 1, is_(ops[0].result_types[0], "type", 0))))
        binds = [x for x in bs.log if x[0] == "bind"]
        hooks = [x for x in bs.log if x[0] == "hook"]
        g.append(("the node is the copy", len(binds) == 1 and binds[0][1] is node and binds[0][2] is ops[0].results[0] and binds[0][3] == 0))
        g.append(("one update, when its producer is", len(hooks) == 1 and hooks[0][1] == name))
        g.append(("the copy is made before an update can be", bs.log and bs.log[0][0] == "bind"))
        if len(hooks) != 1:
            return g
        with R.InsertionPoint(R.Block([])):
            it.call(hooks[0][2], [out], {})
        new = b.operations[1:]
        g.append(("the argument is overwritten once, with the value produced", len(new) == 1 and new[0].name == "torch.overwrite.tensor.contents" and list(new[0].operands) == [out, arg] and not list(new[0].results)))
        return g

    return o.prove(run)


def state():
    """lazy_import_parameter, lazy_import_buffer, import_constant"""
    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter.lazy_import_parameter, lazy_import_buffer, import_constant")

    def run(c):
        imp, gni, b = new_importer()
        loc, node, val = imp_loc(gni), FxNode("x"), G("python value")
        bs = Binds(f)
        which = c.choose(3)
        used = c.choose(2)
        node.users = {FxNode("user"): None} if used else {}
        stored = which == 1 and c.choose(2)
        mutable = which == 1 and c.choose(2)
        info = Pretend(f.InputInfo, store_producer_node="producer" if stored else None, mutable_producer_node_name="m" if mutable else None)
        ev = []

        def inp(it, d):
            ev.append(("input", d["py_value"] is val and d["info"] is info, at(b)))
            return GV("imported")

        def lit(it, d):
            ev.append(("literal", d["py_value"] is val, at(b)))
            return GV("constant")

        def resolve(it, d):
            ev.append(("resolve", d["node"] is node and d["result_index"] == 0, True))
            return GV("value of the node")

        class Hooks:
            _pyvc_ok = True

            def store_produced_value(self, gni_, py, v, i):
                ev.append(("store", gni_ is gni and py is val and i is info and v is out, at(b)))

        imp._hooks = Hooks()
        out = GV("produced")
        it = interp({**bs.contracts, GNI._import_input: inp, GNI._import_literal: lit, GNI.resolve_node_value: resolve})
        lab = ("parameter", "buffer", "constant")[which] + (" with updates" if stored else "") + ": "
        try:
            if which == 2:
                r = it.call(gni.import_constant, [loc, node, val], {})
            else:
                it.call((gni.lazy_import_parameter, gni.lazy_import_buffer)[which], [loc, node, val, info], {})
        except C.PyRaise as e:
            return [(lab + "only updates as a mutable value are rejected", bool(mutable) and isinstance(e.exc, NotImplementedError))]
        g = [(lab + "not as a mutable value", not mutable)]
        binds = [x for x in bs.log if x[0] == "bind"]
        hooks = [x for x in bs.log if x[0] == "hook"]
        ok = len(binds) == 1 and binds[0][1] is node and binds[0][3] == 0
        g.append((lab + "the node is bound once", ok))
        if not ok:
            return g
        v = binds[0][2]
        if which == 2:
            g.append((lab + "to the constant", ev == [("literal", True, True)]))
            g.append((lab + "its value", S.conj(is_(v, "constant"), r is v)))
            g.append((lab + "no update", not hooks))
            return g
        g.append((lab + "nothing is read yet", not ev))
        if isinstance(v, R.Value):
            return g + [(lab + "read when first used", False)]
        with R.InsertionPoint(R.Block([])):
            x = it.call(v, [], {})
        g.append((lab + "what is read is the program's own value", ev == [("input", True, True)]))
        g.append((lab + "and becomes the node's value", is_(x, "imported")))
        if not stored:
            return g + [(lab + "no update", not hooks)]
        ok = len(hooks) == 1 and hooks[0][1] == "producer"
        g.append((lab + "one update, when its producer is", ok))
        if ok:
            ev.clear()
            with R.InsertionPoint(R.Block([])):
                it.call(hooks[0][2], [out], {})
            g.append((lab + "stored once, as the value produced", [e for e in ev if e[0] == "store"] == [("store", True, True)]))
            kinds = [e[0] for e in ev]
            if used:
                g.append((lab + "after its old value was read", kinds == ["resolve", "store"] and ev[0][1]))
            else:
                g.append((lab + "and nothing else", kinds == ["store"] or (kinds == ["resolve", "store"] and ev[0][1])))
        return g

    return o.prove(run)


def outputs():
    """return_node_values: every output at its place"""
    import torch

    f = fx()
    GNI = f.GraphNodeImporter
    o = Oblig("GraphNodeImporter.return_node_values")
    NODE = z3.Function("output_is_node", z3.IntSort(), z3.BoolSort())

    def run(c):
        imp, gni, b = new_importer()
        loc = imp_loc(gni)
        n = z3.Int("n")
        c.assume(n >= 0)
        eff = []

        class Consts:
            """the constants, by output position"""

            _pyvc_ok = True

            def __getitem__(self, i):
                if C.cur().branch(NODE(S.zterm(i))):
                    raise C.PyRaise(KeyError(i))
                return G("constant", S.zterm(i))

        class Out:
            """a node or None"""

            _pyvc_ok = True

            def __init__(self, i):
                self.g = G("output", i)

            def _pyvc_terms(self):
                return [self.g.ix[0]]

            def _pyvc_rebuild(self, t):
                return Out(t[0])

            def _pyvc_isinstance(self, cls):
                if tuple(cls) != (torch.fx.Node,):
                    raise C.Unsupported("kind of an output")
                return NODE(S.zterm(self.g.ix[0]))

            def _pyvc_is_none(self):
                return z3.Not(NODE(S.zterm(self.g.ix[0])))

            def _pyvc_eq(self, o):
                if o is None:
                    return z3.Not(NODE(S.zterm(self.g.ix[0])))
                raise C.Unsupported("comparison of outputs")

        def node(i):
            return Out(S.zterm(i))

        con = {
            GNI.resolve_node_value: lambda it, d: eff.append(at(b)) or (GV("value", d["node"].g.ix[0]) if d["result_index"] == 0 else GV("?")),
            GNI._import_literal: lambda it, d: eff.append(at(b)) or (GV("literal", d["py_value"].ix[0]) if d["info"] is None else GV("?")),
        }
        it = interp(con)
        it.call(gni.return_node_values, [loc, S.SList(n, node), Consts()], {})
        ops = b.operations
        ok = len(ops) == 1 and isinstance(ops[0], R.ReturnOp)
        g = [("one return", ok), ("everything in the function's block", all(eff))]
        if ok:
            r = ops[0].operands
            g.append(("at the location", ops[0].loc is loc))
            g.append(("as many values as outputs", S.zeq(S.length(r), n)))
            j = z3.Int("j")
            v = S.at(r, j)
            g.append(("every one the value of its node or its constant", z3.Implies(z3.And(0 <= j, j < n), z3.If(NODE(j), S.zterm(is_(v, "value", j)), S.zterm(is_(v, "literal", j))))))
        return g

    return o.prove(run)


# ------------------------------------------------------------------ import_program
class World:
    """the containers import_program builds, each of unknown content, and what it did"""

    def __init__(self, c):
        self.c, self.boxes, self.eff, self.decided, self.looked = c, [], [], {}, {}
        self.one_length = False

    def empty(self, kind):
        b = GList(self, len(self.boxes)) if kind == "list" else GDict(self, len(self.boxes))
        if kind == "list" and self.one_length:
            self.c.assume(b.n0 == z3.Int("entries_of_every_list"))
        self.boxes.append(b)
        return b

    def clear(self):
        for b in self.boxes:
            b.log.clear()
        self.eff.clear()

    def changed(self):
        return {b.idx: list(b.log) for b in self.boxes if b.log}


class GList(S.SList):
    """a list built in a loop: what the current iteration adds is logged"""

    __slots__ = ("w", "idx", "log", "n0")

    def __init__(self, w, idx):
        self.n0 = z3.Int(f"entries_of_list{idx}")
        w.c.assume(self.n0 >= 0)
        S.SList.__init__(self, self.n0, lambda i: Elem(("list", idx), i))
        self.w, self.idx, self.log = w, idx, []

    def log_op(self, op, *args):
        if op != "append":
            raise C.Unsupported(f"{op} in import_program")
        self.log.append(args[0])
        self.n = S.add(self.n, 1)


class Elem(FxNode):
    """an entry of a container, usable as the node it is there"""

    def __init__(self, of, *ix):
        FxNode.__init__(self, str(of), *ix)
        self.of = of
        self.name = G("name", self.g.code, *ix)

    def _pyvc_terms(self):
        return [self.g.ix[0]]

    def _pyvc_rebuild(self, t):
        return Elem(self.of, t[0])

    def __iter__(self):  # an entry that is a pair
        return iter((G(f"first of {self.of}", self.g.ix[0]), G(f"second of {self.of}", self.g.ix[0])))


class GDict:
    """a dictionary built in a loop"""

    _pyvc_ok = True
    _pyvc_class = dict

    def __init__(self, w, idx):
        self.w, self.idx, self.log = w, idx, []
        self.n = z3.Int(f"entries_of_dict{idx}")
        w.c.assume(self.n >= 0)

    def __setitem__(self, k, v):
        self.log.append((k, v))

    def fresh(self):
        if self.log:
            raise C.Unsupported("a dictionary is read in the iteration that extends it")

    def has(self, k):
        self.fresh()
        key = (self.idx, id(k))
        if key not in self.w.decided:
            self.w.decided[key] = (self.w.c.choose(2) == 1, k)
        return self.w.decided[key][0]

    def value(self, k):
        self.fresh()
        key = (self.idx, id(k))
        if key not in self.w.looked:
            e = Elem(("entry of", self.idx))
            e.name, e.box, e.key = k, self.idx, k
            self.w.looked[key] = e
        return self.w.looked[key]

    def __contains__(self, k):
        return self.has(k)

    def __getitem__(self, k):
        return self.value(k)

    def get(self, k, default=None):
        return self.value(k) if self.has(k) else default

    def _pyvc_len(self):
        self.fresh()
        return self.n

    def items(self):
        return S.SList(self.n, lambda i: (Elem(("key of", self.idx), i), Elem(("value of", self.idx), i)))

    def values(self):
        return View(self.idx)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise C.Unsupported(f"{n} of a dictionary")


class View:
    _pyvc_ok = True

    def __init__(self, idx):
        self.idx = idx


def native(k):
    """methods of `k` may be handed symbolic values"""
    for fn in vars(k).values():
        if inspect.isfunction(fn):
            fn._pyvc_ok = True


native(GDict)
native(World)


class State:
    """state_dict / constants of the program"""

    _pyvc_ok = True

    def __init__(self, w, name):
        self.w, self.name, self.memo = w, name, {}

    def _has(self, k):
        if self.name not in self.memo:
            self.memo[self.name] = self.w.c.choose(2) == 1
        return self.memo[self.name]

    def get(self, k, default=None):
        return self[k] if self._has(k) else default

    def __contains__(self, k):
        return self._has(k)

    def __getitem__(self, k):
        if not self._has(k):
            raise C.PyRaise(KeyError(k))
        return self.memo.setdefault((self.name, id(k)), G(f"tensor in {self.name}", k.code, *k.ix[:1]))


native(State)


class Ty:
    def __init__(self, of, mutable=False):
        self.of, self.mutable = of, mutable


def the_program():
    """FxImporter.import_program, for any number of nodes, inputs and outputs"""
    from torch.export import graph_signature as gs

    f = fx()
    o = Oblig("FxImporter.import_program")
    roles = {}

    def run(learn):
        def go(c):
            return once(c, learn)

        return go

    def once(c, learn):
        w = World(c)
        imp, _, _ = new_importer()
        nn, nin, nout = z3.Ints("nodes inputs outputs")
        c.assume(z3.And(nn >= 0, nin >= 0, nout >= 0))
        st = {}
        symbolic = bool(c.choose(2))
        flag = symbolic
        loc_found = R.Location("of the first node that has one")

        def role(name, idx):
            if learn:
                roles.setdefault(name, set()).add(idx)
                return True
            return idx in roles.get(name, ())

        def node(k):
            if "node" not in st:
                st["node"] = FxNode("node", k, op=("placeholder", "call_function", "get_attr", "output", "call_method")[c.choose(5)], name=G("name of node", k))
            return st["node"]

        OK, IK = list(gs.OutputKind), list(gs.InputKind)
        ARGS = [gs.TensorArgument, gs.SymIntArgument, gs.ConstantArgument, gs.TokenArgument]

        def out_spec(k):
            if "out" not in st:
                a = Pretend(ARGS[c.choose(4)], name=G("output name", k), value=G("output constant", k))
                st["out"] = Pretend(gs.OutputSpec, kind=OK[c.choose(len(OK))], arg=a, target=G("target of output", k))
            return st["out"]

        def in_spec(k):
            if "in" not in st:
                a = Pretend(ARGS[c.choose(4)], name=G("input name", k), value=G("input constant", k))
                st["in"] = Pretend(gs.InputSpec, kind=IK[c.choose(len(IK))], arg=a, target=G("target of input", k), persistent=bool(c.choose(2)))
            return st["in"]

        sig = Pretend(gs.ExportGraphSignature, output_specs=S.SList(nout, out_spec), input_specs=S.SList(nin, in_spec))
        graph = Pretend(__import__("torch").fx.Graph, nodes=S.SList(nn, node), owning_module=G("owning module"))
        prog = Pretend(__import__("torch").export.ExportedProgram, graph=graph, graph_signature=sig, state_dict=State(w, "state_dict"), constants=State(w, "constants"))
        gni = {}

        def log(name, *keys):
            def h(it, d):
                if "self" in d and isinstance(d["self"], f.GraphNodeImporter):
                    gni.setdefault("it", d["self"])
                    if d["self"] is not gni["it"]:
                        raise C.Unsupported("several node importers")
                w.eff.append((name,) + tuple(d[k] for k in keys))
                return None

            return h

        GNI, CC, FI = f.GraphNodeImporter, f.ContextCache, f.FxImporter

        def location(it, d):
            st["has loc"] = c.choose(2)
            return loc_found if st["has loc"] else None

        con = {
            GNI.import_constant: log("constant", "loc", "node", "constant"),
            GNI.import_mutable_to_vtensor: log("mutable", "loc", "node", "mutable_value", "producer_node_name"),
            GNI.bind_node_value: log("bind", "node", "value", "result_index"),
            GNI.lazy_import_parameter: log("parameter", "loc", "node", "parameter_value", "info"),
            GNI.lazy_import_buffer: log("buffer", "loc", "node", "buffer_value", "info"),
            GNI.import_nodes: log("nodes", "nodes", "skip_placeholders_outputs", "import_symbolic_shape_expressions"),
            GNI.return_node_values: log("return", "loc", "nodes", "constants"),
            FI._import_all_child_modules: log("children", "module", "import_symbolic_shape_expressions"),
            CC.set_symbolic_guards: log("guards", "prog"),
            CC.get_node_location: location,
            CC.node_val_to_type: lambda it, d: Ty(d["node"], d["mutable"]),
            CC.value_info_to_type: lambda it, d: Ty(("value", d["val"])),
            f.rewrite_as_strided: lambda it, d: log("as_strided", "g")(it, {"g": next(iter(d.values()))}),
        }
        it = interp(con)
        it.empty = w.empty

        def comp(it_, e, seq, inner):
            """{key: value for spec in specs if kind}"""
            if not seq.n.eq(nout):
                raise C.Unsupported("dictionary comprehension")
            d = w.empty("dict")
            st.setdefault("comps", set()).add(d.idx)
            if c.choose(2) == 0:
                k = c.fresh_int("k")
                c.assume(z3.And(0 <= k, k < nout))
                w.clear()
                g = e.generators[0]
                it_.assign(g.target, seq.f(k), inner)
                if all([it_.truth(it_.expr(t, inner)) for t in g.ifs]):
                    d[it_.expr(e.key, inner)] = it_.expr(e.value, inner)
                raise C.PyRaise(Stop(after_out(it_, inner, k, only={d.idx})))
            return d

        it.dict_comp = comp

        def keep(cut, fr, extra=()):
            cut.keep |= {v for v, x in fr.locals.items() if isinstance(x, (GList, GDict))} | set(extra)

        # ---- the nodes of the graph
        def enter_nodes(it_, fr):
            # a variable that is None so far and that the loop assigns holds the location
            st["locs"] = [v for v in sorted(assigned(st["loop"].body)[0]) if v in fr.locals and fr.locals[v] is None]
            keep(cn, fr, st["locs"])
            return []

        def at_nodes(it_, fr, k):
            w.clear()
            st["loc before"] = loc_found if c.choose(2) else None
            for v in st["locs"]:
                fr.locals[v] = st["loc before"]

        def after_nodes(it_, fr, k):
            nd = st["node"]
            g = []
            ch = w.changed()
            want = {"placeholder": ("producers", "placeholders"), "call_function": ("producers",)}.get(nd.op, ())
            for i, ad in ch.items():
                ok = len(ad) == 1 and ad[0][0] is nd.name and ad[0][1] is nd
                g.append((f"node: a {nd.op} is entered under its name", ok))
            if not learn:
                got = {r for r in ("producers", "placeholders") if any(i in roles.get(r, ()) for i in ch)}
                g.append((f"node: a {nd.op} is known where it has to be", set(want) <= got))
            for v in st["locs"]:
                exp = st["loc before"] or (loc_found if st.get("has loc") else None)
                g.append(("node: the first location found is the function's", fr.locals[v] is exp))
            if w.eff:
                raise C.Unsupported("the graph is imported while it is surveyed")
            return g

        cn = Cut(enter_nodes, at_nodes, after_nodes, matches=lambda seq: S.zterm(seq.n).eq(nn))

        # ---- the outputs
        def after_out(it_, fr, k, only=None):
            s, ch = st.get("out"), w.changed()
            kind, arg = s.kind, s.arg
            lab = f"output {kind.name} of {arg.cls.__name__}: "
            user = kind is gs.OutputKind.USER_OUTPUT
            g = []
            if learn:
                return g
            mut = {"mutated inputs": kind is gs.OutputKind.USER_INPUT_MUTATION, "updates": kind is gs.OutputKind.BUFFER_MUTATION}
            known = set()
            for r, on in mut.items():
                for i in roles.get(r, ()):
                    if only is not None and i not in only or only is None and i in st.get("comps", ()):
                        continue
                    if only is None and i not in ch and not on:
                        known.add(i)
                        continue
                    known.add(i)
                    ad = ch.get(i, [])
                    g.append((lab + f"is one of the {r} exactly if it is of that kind", len(ad) == (1 if on else 0)))
                    if len(ad) == 1:
                        g.append((lab + f"the value of the {r} by their target", ad[0][0] is s.target and ad[0][1] is arg.name))
            if only is not None:
                return g
            ret, typ, con_ = (roles.get(x, set()) for x in ("returned", "output types", "returned constants"))
            for i in ret:
                ad = ch.get(i, [])
                g.append((lab + "returned exactly if it is for the user", len(ad) == (1 if user else 0)))
                if len(ad) == 1 and user:
                    v = ad[0]
                    if arg.cls is gs.ConstantArgument:
                        g.append((lab + "no node", v is None))
                    else:
                        g.append((lab + "its node", isinstance(v, Elem) and v.name is arg.name and getattr(v, "box", None) in roles.get("producers", ())))
            for i in typ:
                ad = ch.get(i, [])
                g.append((lab + "has a type exactly if it is for the user", len(ad) == (1 if user else 0)))
                if len(ad) == 1 and user:
                    t = ad[0]
                    if arg.cls is gs.ConstantArgument:
                        g.append((lab + "the type of its constant", isinstance(t, Ty) and isinstance(t.of, tuple) and t.of[1] is arg.value))
                    else:
                        g.append((lab + "the type of its node", isinstance(t, Ty) and isinstance(t.of, Elem) and t.of.name is arg.name and not t.mutable))
            for i in con_:
                ad = ch.get(i, [])
                on = user and arg.cls is gs.ConstantArgument
                g.append((lab + "one constant exactly if it is one", len(ad) == (1 if on else 0)))
                if on and len(ad) == 1:
                    n0 = [b.n0 for b in w.boxes if b.idx in ret]
                    g.append((lab + "its value, at its position", S.conj(len(n0) == 1 and ad[0][1] is arg.value, S.zeq(ad[0][0], n0[0])) if n0 else False))
            other = set(ch) - ret - typ - con_ - known
            g.append((lab + "nothing else", not other))
            if w.eff:
                raise C.Unsupported("the signature and the bindings are handled together")
            g.append((lab + "not dropped", ok_out(s)))
            return g

        def ok_out(s):
            k, a = s.kind, s.arg.cls
            if k is gs.OutputKind.USER_OUTPUT:
                return a in ARGS[:3]
            if k is gs.OutputKind.BUFFER_MUTATION:
                return a is gs.TensorArgument
            return k is gs.OutputKind.USER_INPUT_MUTATION

        def enter(cutname):
            def e(it_, fr):
                keep(cuts[cutname], fr)
                return []

            return e

        def at_(it_, fr, k):
            w.clear()

        co = Cut(enter("out"), at_, after_out, matches=lambda seq: S.zterm(seq.n).eq(nout))

        # ---- the inputs
        def placeholder(v, arg):
            return isinstance(v, Elem) and v.name is arg.name and (learn or getattr(v, "box", None) in roles.get("placeholders", set()) | roles.get("producers", set()))

        def after_in(it_, fr, k):
            s, ch = st["in"], w.changed()
            kind, arg = s.kind, s.arg
            for (bx, key), e in w.looked.items():
                if e.key is arg.name:
                    role("placeholders", bx)
                elif e.key is s.target:
                    role("updates", bx)
            if learn:
                return []
            lab = f"input {kind.name} of {arg.cls.__name__}: "
            IKs = gs.InputKind
            tensor, const = arg.cls is gs.TensorArgument, arg.cls is gs.ConstantArgument
            user = kind is IKs.USER_INPUT and arg.cls in ARGS[:2]
            g = []
            mut = any(v for (bx, _), (v, key) in w.decided.items() if key is arg.name and bx in roles.get("mutated inputs", ()))
            asked = any(key is arg.name and bx in roles.get("mutated inputs", ()) for (bx, _), (v, key) in w.decided.items())
            allowed = set()
            for i in roles.get("user inputs", ()):
                ad = ch.get(i, [])
                allowed.add(i)
                g.append((lab + "an argument exactly if it is the user's", len(ad) == (1 if user else 0)))
                if len(ad) == 1:
                    g.append((lab + "its placeholder", placeholder(ad[0], arg)))
            for i in roles.get("input types", ()):
                ad = ch.get(i, [])
                allowed.add(i)
                g.append((lab + "has a type exactly if it is an argument", len(ad) == (1 if user else 0)))
                if len(ad) == 1:
                    t = ad[0]
                    g.append((lab + "the type of its placeholder", isinstance(t, Ty) and placeholder(t.of, arg)))
                    g.append((lab + "a mutable type exactly if it is updated", isinstance(t, Ty) and asked and bool(t.mutable) == mut))

            def bound(role_, on, good):
                n = 0
                for i in roles.get(role_, ()):
                    allowed.add(i)
                    for k_, v_ in ch.get(i, []):
                        n += 1
                        g.append((lab + f"bound among the {role_}", on and placeholder(k_, arg) and good(v_)))
                g.append((lab + f"one of the {role_} exactly if it is one", n == (1 if on else 0)))

            tin = lambda name: (lambda v: isinstance(v, G) and S.conj(v.is_(f"tensor in {name}", s.target.code, *s.target.ix[:1])) is True)  # noqa: E731
            is_const = kind is IKs.CONSTANT_TENSOR and tensor
            user_const = kind is IKs.USER_INPUT and const
            bound("constant", is_const or user_const, tin("constants") if is_const else (lambda v: v is arg.value))
            upd = [(e, w.decided.get((bx, id(s.target)))) for (bx, key), e in w.looked.items() if e.key is s.target and bx in roles.get("updates", ())]

            def info(v, stored):
                i = v[1] if isinstance(v, tuple) and len(v) == 2 else None
                if not isinstance(i, f.InputInfo):
                    return False
                ok = i.program is prog and i.input_spec is s and placeholder(i.node, arg) and isinstance(i.ir_type, Ty) and placeholder(i.ir_type.of, arg) and not i.ir_type.mutable and i.mutable_producer_node_name is None
                if stored is None:
                    return ok and i.store_producer_node is None
                return ok and i.store_producer_node is stored[0]

            bound("parameters", kind is IKs.PARAMETER and tensor, lambda v: info(v, None) and (v[0] is None and not s.persistent or tin("state_dict")(v[0])))

            def buf(v):
                was = [x for (bx, key), (x, kk) in w.decided.items() if kk is s.target and bx in roles.get("updates", ())]
                if len(was) != 1:
                    raise C.Unsupported("how a buffer's update is found")
                stored = (upd[0][0],) if was[0] and upd else None
                return info(v, stored) and tin("state_dict" if s.persistent else "constants")(v[0])

            bound("buffers", kind is IKs.BUFFER and tensor, buf)
            g.append((lab + "nothing else", not set(ch) - allowed))
            if w.eff:
                raise C.Unsupported("the signature and the bindings are handled together")
            g.append((lab + "not dropped", ok_in(s)))
            return g

        def ok_in(s):
            k, a = s.kind, s.arg.cls
            if k is gs.InputKind.USER_INPUT:
                return a in ARGS[:3]
            return k in (gs.InputKind.PARAMETER, gs.InputKind.BUFFER, gs.InputKind.CONSTANT_TENSOR) and a is gs.TensorArgument

        ci = Cut(enter("in"), at_, after_in, matches=lambda seq: S.zterm(seq.n).eq(nin))

        # ---- the bindings
        def dict_of(seq):
            return next((b for b in w.boxes if isinstance(b, GDict) and S.zterm(seq.n).eq(b.n)), None)

        def enter_items(it_, fr):
            keep(cb, fr)
            return []

        def at_items(it_, fr, k):
            st.setdefault("before", []).extend(w.eff)
            w.clear()

        SINK = {"constant": "constant", "parameter": "parameters", "buffer": "buffers"}

        def after_items(it_, fr, k):
            b, es = st["box"], list(w.eff)
            ok = len(es) == 1 and es[0][0] in SINK
            if not ok:
                return [("binding: every entry is bound once", False)]
            e = es[0]
            role(SINK[e[0]], b.idx)
            g = [("binding: every entry is bound once", ok)]
            key = ("key of", b.idx)
            g.append(("binding: its own node", isinstance(e[2], Elem) and e[2].of == key and S.zeq(e[2].g.ix[0], k)))
            val = ("value of", b.idx)
            if e[0] == "constant":
                g.append(("binding: its own value", isinstance(e[3], Elem) and e[3].of == val and S.zeq(e[3].g.ix[0], k)))
            else:
                g.append(("binding: its own value and description", S.conj(is_(e[3], f"first of {val}", k), is_(e[4], f"second of {val}", k))))
            g.append(("binding: nothing else changes", not w.changed()))
            return g

        def match_items(seq):
            st["box"] = dict_of(seq)
            return st["box"] is not None

        cb = Cut(enter_items, at_items, after_items, matches=match_items)

        def block():
            fo = [x for x in imp._m.body.operations if isinstance(x, R.FuncOp)]
            return fo[0].body.blocks[0] if len(fo) == 1 and len(fo[0].body.blocks) == 1 else None

        def match_args(seq):
            lists = [b for b in w.boxes if isinstance(b, GList) and S.zterm(seq.n).eq(b.n0)]
            if not lists:
                return False
            st["args of"] = lists
            return True

        def enter_args(it_, fr):
            keep(ca, fr)
            return []

        def after_args(it_, fr, k):
            es = list(w.eff)
            if len(es) != 1 or es[0][0] not in ("bind", "mutable"):
                return [("argument: bound once", False)]
            e = es[0]
            nd = e[1] if e[0] == "bind" else e[2]
            val = e[2] if e[0] == "bind" else e[3]
            g = [("argument: bound once", True)]
            ok = isinstance(nd, Elem) and nd.of[0] == "list"
            g.append(("argument: an input of the program", ok))
            if not ok:
                return g
            role("user inputs", nd.of[1])
            b = block()
            g.append(("argument: the input at its place", S.conj(S.zeq(nd.g.ix[0], k), isinstance(val, R.SymResult) and val.owner is b, S.zeq(val.index, k) if isinstance(val, R.SymResult) else False)))
            was = [(bx, v, key) for (bx, _), (v, key) in w.decided.items() if isinstance(key, G) and key.ix == nd.name.ix and key.code == nd.name.code]
            if e[0] == "mutable":
                p = e[4]
                ok = isinstance(p, Elem) and getattr(p, "key", None) is not None and p.key.ix == nd.name.ix
                g.append(("argument: updated by the producer of its update", ok))
                if ok:
                    role("mutated inputs", p.box)
            else:
                g.append(("argument: result 0", e[3] == 0))
            if not learn:
                m = [v for bx, v, key in was if bx in roles.get("mutated inputs", ())]
                g.append(("argument: mutable exactly if it is updated", m == [e[0] == "mutable"]))
            return g

        ca = Cut(enter_args, at_items, after_args, matches=match_args)
        cuts = {"out": co, "in": ci}
        seen = []

        def loop(it_, s, seq, fr):
            for nm, cut in (("nodes", cn), ("out", co), ("in", ci), ("items", cb), ("args", ca)):
                if cut.matches(seq):
                    w_eff = list(w.eff)
                    st["loop"] = s
                    r = cut(it_, s, seq, fr)
                    w.eff[:] = w_eff  # the loop's own effects are its iterations'
                    box = st.get("box")
                    w.eff.append(("loop", nm, box.idx if nm == "items" else tuple(b.idx for b in st["args of"]) if nm == "args" else None))
                    return r
            return False

        it.loop_contract = loop
        it.contracts_extra = None
        # in a loop over the arguments the two lists that make it up have one length
        w.one_length = learn
        if not learn:
            for a, b in (("user inputs", "input types"), ("returned", "output types")):
                st.setdefault("equal", []).append((roles.get(a, set()), roles.get(b, set())))
            for xs, ys in st["equal"]:
                for x in xs:
                    for y in ys:
                        c.assume(z3.Int(f"entries_of_list{x}") == z3.Int(f"entries_of_list{y}"))
        vis = (None, "private")[c.choose(2)]
        try:
            r = it.call(imp.import_program, [prog], {"func_name": "name", "func_visibility": vis, "import_symbolic_shape_expressions": flag})
        except C.PyRaise as e:
            if isinstance(e.exc, Stop):
                return e.exc.goals
            if learn:
                return []
            if isinstance(e.exc, NotImplementedError):
                bad = [x for x, okf in ((st.get("out"), ok_out), (st.get("in"), ok_in)) if x is not None and not okf(x)]
                return [("only what cannot be expressed is rejected", bool(bad))]
            s = st.get("in")
            if s is not None and isinstance(e.exc, (AssertionError, KeyError)):
                K = gs.InputKind
                src = "state_dict" if s.kind is K.PARAMETER or (s.kind is K.BUFFER and s.persistent) else "constants"
                missing = s.kind in (K.PARAMETER, K.BUFFER, K.CONSTANT_TENSOR) and prog.__dict__[src].memo.get(src) is False
                return [(f"{s.kind.name}: only a missing tensor is an error", missing)]
            raise
        except C.PathInfeasible:
            raise
        fo = [x for x in imp._m.body.operations if isinstance(x, R.FuncOp)]
        ok = len(fo) == 1 and r is fo[0]
        g = [("one function, which is returned", ok)]
        if not ok:
            return g
        fo = fo[0]
        ft = fo.type
        if not (isinstance(ft.inputs, GList) and isinstance(ft.results, GList)):
            raise C.Unsupported("how the function's type is made")
        role("input types", ft.inputs.idx)
        role("output types", ft.results.idx)
        E_ = list(w.eff)
        names = [e[0] for e in E_]
        nodes = [e for e in E_ if e[0] == "nodes"]
        ret = [e for e in E_ if e[0] == "return"]
        if len(nodes) == 1 and isinstance(nodes[0][1], View):
            role("producers", nodes[0][1].idx)
        elif len(nodes) == 1:
            raise C.Unsupported("what import_nodes is given")
        if len(ret) == 1:
            if not isinstance(ret[0][2], GList) or not isinstance(ret[0][3], GDict):
                raise C.Unsupported("what is returned")
            role("returned", ret[0][2].idx)
            role("returned constants", ret[0][3].idx)
        if learn:
            return []
        g.append(("its name and visibility", fo.name_ == "name" and fo.visibility == vis))
        g.append(("entered in the symbol table", imp.symbol_table.names.get("name") is fo))
        g.append(("symbolic shapes are exact", "torch.assume_strict_symbolic_shapes" in fo.attributes))
        g.append(("its arguments are the user's inputs", ft.inputs.idx in roles["input types"] and len(fo.body.blocks) == 1 and getattr(block().arg_types, "idx", None) == ft.inputs.idx))
        g.append(("its results are the user's outputs", ft.results.idx in roles["output types"]))
        g.append(("every computing node is imported once", len(nodes) == 1 and nodes[0][1].idx in roles["producers"] and nodes[0][2] is True and nodes[0][3] is flag))
        g.append(("one return, of the outputs", len(ret) == 1))
        i_n = names.index("nodes") if "nodes" in names else -1
        g.append(("the return is last", ret and names.index("return") > i_n))
        loops = [(e[2] if e[1] == "items" else e[2]) for e in E_[:i_n] if e[0] == "loop" and e[1] in ("items", "args")]
        flat = {x for e in loops for x in (e if isinstance(e, tuple) else (e,))}
        need = set().union(*(roles.get(x, set()) for x in ("constant", "parameters", "buffers", "user inputs")))
        g.append(("every input is bound before the nodes are imported", need <= flat and all(roles.get(x) for x in ("constant", "parameters", "buffers", "user inputs"))))
        ch = [e for e in E_[:i_n] if e[0] == "children"]
        g.append(("the functions of nested graphs come first", len(ch) == 1 and ch[0][1] is graph.owning_module and ch[0][2] is flag))
        gu = [e for e in E_[:i_n] if e[0] == "guards"]
        g.append(("symbolic guards are set if asked for", len(gu) == (1 if flag else 0) and all(x[1] is prog for x in gu)))
        g.append(("as_strided is rewritten first", bool(E_) and E_[0][0] == "as_strided" and E_[0][1] is graph and names.count("as_strided") == 1))
        g.append(("imported into the function's block", gni.get("it") is not None and gni["it"]._b is block() and gni["it"].fx_importer is imp))
        return g

    probe = Oblig("roles")
    # which container is for what shows in how it is used
    probe.prove(run(True), raises=stopped(lambda e: []), budget_s=60, max_paths=20000)
    need = {"producers", "placeholders", "mutated inputs", "updates", "returned", "output types", "returned constants", "user inputs", "input types", "constant", "parameters", "buffers"}
    if probe.unsupported or not need <= set(roles):
        o.unsupported = probe.unsupported or f"no container found for the {sorted(need - set(roles))}"
        return o
    return o.prove(run(False), raises=stopped(), budget_s=120, max_paths=20000)


def child_modules():
    """_import_all_child_modules: every nested graph, nothing else"""
    import torch

    f = fx()
    o = Oblig("FxImporter._import_all_child_modules")
    ISGM = z3.Function("child_is_graph_module", z3.IntSort(), z3.BoolSort())

    class Child:
        _pyvc_ok = True

        def __init__(self, i):
            self.i = i

        def _pyvc_terms(self):
            return [self.i]

        def _pyvc_rebuild(self, t):
            return Child(t[0])

        def _pyvc_isinstance(self, cls):
            if tuple(cls) != (torch.fx.GraphModule,):
                raise C.Unsupported("kind of a child module")
            return ISGM(S.zterm(self.i))

        @property
        def graph(self):
            return G("graph", self.i)

    def run(c):
        imp, _, _ = new_importer()
        n = z3.Int("n")
        c.assume(n >= 0)
        kids = S.SList(n, lambda i: (G("child name", S.zterm(i)), Child(S.zterm(i))))
        fn = lambda h: (setattr(h, "_pyvc_ok", True), h)[1]  # noqa: E731
        mod = Pretend(torch.fx.GraphModule, named_children=fn(lambda: kids))
        flag = bool(c.choose(2))
        eff = []
        con = {f.FxImporter.import_graph_module: lambda it, d: eff.append(d)}

        def after(it, fr, k):
            if c.branch(ISGM(k)):
                ok = len(eff) == 1
                g = [("a nested graph is imported once", ok)]
                if ok:
                    d = eff[0]
                    g.append(("itself", isinstance(d["gm"], Child) and S.zeq(d["gm"].i, k)))
                    g.append(("under its name", is_(d["func_name"], "child name", k)))
                    g.append(("as a private function", d["func_visibility"] == "private"))
                    g.append(("with shape expressions if asked for", d["import_symbolic_shape_expressions"] is flag))
                return g
            return [("nothing else is imported", not eff)]

        cut = Cut(lambda it, fr: [("nothing is imported before", not eff)], lambda it, fr, k: eff.clear(), after)
        it = interp(con)
        it.loop_contract = cut
        it.call(imp._import_all_child_modules, [mod, "parent", flag], {})
        return cut.goals + [("nothing is imported after", not eff)]

    return o.prove(run, raises=stopped())


def graph_module():
    """import_graph_module: one name per module, one module per name"""
    import torch

    f = fx()
    o = Oblig("FxImporter.import_graph_module")

    class Gm:
        _pyvc_ok = True

        def __init__(self):
            self.graph = G("graph")

    NAME = z3.Function("name_of_module", z3.IntSort(), z3.IntSort())

    USED = z3.Function("name_in_use", z3.IntSort(), z3.BoolSort())

    class Used:
        """the names in the table"""

        _pyvc_ok = True

        def _pyvc_contains(self, x):
            if not isinstance(x, G):
                raise C.Unsupported("another kind of name")
            return USED(S.zterm(x.ix[0]))

    class Table:
        """the names given to any number of other modules, and maybe to this one"""

        _pyvc_ok = True

        def __init__(self, c, gm, known):
            self.c, self.gm, self.known, self.log = c, gm, known, []
            self.n, self.mine = c.fresh_int("modules"), c.fresh_int("its_entry")
            c.assume(self.n >= 0)
            if known:
                c.assume(z3.And(0 <= self.mine, self.mine < self.n, USED(NAME(self.mine))))

        def name(self, i):
            return G("name", NAME(S.zterm(i)))

        def own(self, k):
            if k != id(self.gm):
                raise C.Unsupported("the name of another module")

        def __contains__(self, k):
            self.own(k)
            return self.known or bool(self.log)

        def __getitem__(self, k):
            self.own(k)
            if self.log:
                return self.log[-1][1]
            if not self.known:
                raise C.PyRaise(KeyError(k))
            return self.name(self.mine)

        def get(self, k, default=None):
            return self[k] if k in self else default

        def __setitem__(self, k, v):
            self.own(k)
            self.log.append((k, v))

        def setdefault(self, k, v):
            if k not in self:
                self[k] = v
            return self[k]

        def values(self):
            if self.log:
                raise C.Unsupported("names are read after one is given")
            return Used()

        def __getattr__(self, n):
            if n.startswith("_"):
                raise AttributeError(n)
            raise C.Unsupported(f"{n} of the table of names")

    native(Table)

    def run(c):
        imp, _, _ = new_importer()
        gm = Gm()
        known = bool(c.choose(2))
        table = Table(c, gm, known)
        asked = G("name", c.fresh_int("asked"))
        imp._graph_module_to_func_name = table
        kept = imp._named_graph_modules = [G("other module")] + ([gm] if known else [])
        imp._func_name_counter = c.fresh_int("counter")
        flag, vis = bool(c.choose(2)), (None, "private")[c.choose(2)]
        eff = []
        result = G("function")

        def graph(it, d):
            eff.append(("graph", d))
            return result

        con = {
            f.FxImporter._import_all_child_modules: lambda it, d: eff.append(("children", d)),
            f.FxImporter.import_stateless_graph: graph,
        }
        it = interp(con)

        def search(it_, s, fr):
            """a search for a free name: any name may be tried"""
            names, _ = assigned(s.body)
            tried = [v for v in names if v in fr.locals]
            entered = [v for v in tried if fr.locals[v] is asked]
            if len(tried) != 1 or entered != tried:
                return False
            first = c.branch(z3.Not(S.zterm(it_.as_bool(it_.expr(s.test, fr)))))
            if first:
                return True
            before = len(table.log), len(eff), len(kept)
            fr.locals[tried[0]] = G("name", c.fresh_int("tried"))
            imp._func_name_counter = c.fresh_int("counter")
            go = S.zterm(it_.as_bool(it_.expr(s.test, fr)))
            if c.choose(2) == 0:
                c.assume(go)
                it_.block(s.body, fr)
                one = fr.locals[tried[0]]
                it_.block(s.body, fr)
                raise C.PyRaise(Stop([("another name is tried each time", not (isinstance(one, str) and one == fr.locals[tried[0]])), ("the search has no other effect", before == (len(table.log), len(eff), len(kept)))]))
            c.assume(z3.Not(go))
            return True

        it.while_contract = search
        r = it.call(imp.import_graph_module, [gm], {"func_name": asked, "func_visibility": vis, "import_symbolic_shape_expressions": flag})
        mine = table.log[-1][1] if table.log else table.name(table.mine) if known else None
        g = [
            ("the function made is returned", r is result),
            ("the table of names stays", imp._graph_module_to_func_name is table and imp._named_graph_modules is kept),
            ("one entry for a module without one", len(table.log) == (0 if known else 1)),
            ("the module is kept alive while it is named", any(x is gm for x in kept) and isinstance(kept[0], G)),
            ("children first, then the graph", [e[0] for e in eff] == ["children", "graph"]),
        ]
        if not isinstance(mine, G):
            return g + [("a name", False)]
        k = c.fresh_int("k")
        c.assume(z3.And(0 <= k, k < table.n, USED(NAME(k))))
        if not known:
            g.append(("no two modules share a name", z3.Not(S.zterm(S.zeq(mine.ix[0], NAME(k))))))
        if not known:
            g.append(("the name asked for if it is free", z3.Or(USED(asked.ix[0]), S.zterm(S.zeq(mine.ix[0], asked.ix[0])))))
        if [e[0] for e in eff] == ["children", "graph"]:
            ch, gr = eff[0][1], eff[1][1]
            g.append(("its own children", ch["module"] is gm and ch["import_symbolic_shape_expressions"] is flag))
            nm = gr["func_name"]
            g.append(("its own graph, under its name", S.conj(is_(gr["g"], "graph"), S.zeq(nm.ix[0], mine.ix[0]) if isinstance(nm, G) else False)))
            g.append(("as asked for", gr["func_visibility"] == vis and gr["import_symbolic_shape_expressions"] is flag))
        return g

    return o.prove(run, raises=stopped(), max_paths=20000)


def stateless_graph():
    """import_stateless_graph: a function of the graph's type around its nodes"""
    import torch

    f = fx()
    o = Oblig("FxImporter.import_stateless_graph")

    def run(c):
        imp, _, _ = new_importer()
        graph = Pretend(torch.fx.Graph, nodes=G("nodes"))
        ni, no = z3.Ints("inputs outputs")
        c.assume(z3.And(ni >= 0, no >= 0))
        ft = R.FunctionType.get(S.SList(ni, lambda i: G("input type", i)), S.SList(no, lambda i: G("output type", i)))
        loc = R.Location("of the graph")
        flag, vis = bool(c.choose(2)), (None, "private")[c.choose(2)]
        eff = []
        con = {
            f.rewrite_as_strided: lambda it, d: eff.append(("as_strided", next(iter(d.values())))),
            f.FxImporter._graph_to_function_meta: lambda it, d: eff.append(("meta", d["g"])) or (ft, loc),
            f.GraphNodeImporter.import_nodes: lambda it, d: eff.append(("nodes", d)),
        }
        it = interp(con)
        r = it.call(imp.import_stateless_graph, [graph], {"func_name": "name", "func_visibility": vis, "import_symbolic_shape_expressions": flag})
        fo = [x for x in imp._m.body.operations if isinstance(x, R.FuncOp)]
        ok = len(fo) == 1 and r is fo[0] and len(fo[0].body.blocks) == 1
        g = [("one function, which is returned", ok)]
        if not ok:
            return g
        fo = fo[0]
        g.append(("its name and visibility", fo.name_ == "name" and fo.visibility == vis))
        g.append(("the type of the graph", fo.type is ft))
        g.append(("arguments of that type", fo.body.blocks[0].arg_types is ft.inputs))
        g.append(("entered in the symbol table", imp.symbol_table.names.get("name") is fo))
        g.append(("rewritten, typed, then imported", [e[0] for e in eff] == ["as_strided", "meta", "nodes"] and eff[0][1] is graph and eff[1][1] is graph))
        if [e[0] for e in eff][-1:] == ["nodes"]:
            d = eff[-1][1]
            n = d["nodes"]
            g.append(("all nodes of the graph", isinstance(n, G) and is_(n, "nodes")))
            g.append(("with placeholders and the output", d["skip_placeholders_outputs"] is False and d["import_symbolic_shape_expressions"] is flag))
            g.append(("into the function", d["self"]._b is fo.body.blocks[0] and d["self"].fx_importer is imp))
        return g

    return o.prove(run)


def function_meta():
    """_graph_to_function_meta: the types of the placeholders and of the results, in order"""
    import torch

    f = fx()
    o = Oblig("FxImporter._graph_to_function_meta")
    LEN = {}

    def run(c):
        imp, _, _ = new_importer()
        n, m = z3.Ints("nodes results")
        c.assume(z3.And(n >= 0, m >= 0))
        st, lists = {}, []
        found = R.Location("of the first node that has one")

        class L(S.SList):
            __slots__ = ("idx", "log")

            def __init__(self, idx):
                S.SList.__init__(self, z3.Int(f"len{idx}"), lambda i: G(f"list {idx}", S.zterm(i)))
                self.idx, self.log = idx, []

            def log_op(self, op, *a):
                if op not in ("append", "extend"):
                    raise C.Unsupported(f"{op} of a list of types")
                self.log.append((op, a[0]))

        def empty(kind):
            if kind != "list":
                return None
            lists.append(L(len(lists)))
            return lists[-1]

        SC = sorted(f.SCALAR_TYPE_TO_TORCH_MLIR_TYPE, key=str)
        VAL = {int: 3, float: 2.5, bool: True, str: "s"}
        TEN = torch.zeros(2)

        def result(i):
            """a result: None, a tensor, a number or a node"""
            if "result" not in st:
                k = c.choose(3 + len(SC))
                st["result"] = None if k == 0 else TEN if k == 1 else FxNode("result", i) if k == 2 else VAL.get(SC[k - 3], None)
                if k >= 3 and SC[k - 3] not in VAL:
                    raise C.PathInfeasible()
                st["kind"] = ("none", "tensor", "node")[k] if k < 3 else SC[k - 3]
            return st["result"]

        def node(k):
            if "node" not in st:
                op = ("placeholder", "output", "call_function", "get_attr")[c.choose(4)]
                st["node"] = nd = FxNode("node", k, op=op)
                if op == "output":
                    form = st["form"] = c.choose(3)
                    nd.args = ((S.SList(m, result), S.STuple(m, result), None)[form],)
                    if form == 2:
                        nd.args = (result(I(0)),)
            return st["node"]

        def location(it, d):
            st["has"] = c.choose(2)
            return found if st["has"] else None

        con = {
            f.ContextCache.get_node_location: location,
            f.ContextCache.node_val_to_type: lambda it, d: ("type of", d["node"], d["mutable"]),
            f.ContextCache.tensor_to_vtensor_type: lambda it, d: ("type of tensor", d["tensor"]),
        }
        it = interp(con)
        it.empty = empty
        roles = LEN

        def same_type(t):
            k, r = st["kind"], st["result"]
            if k == "none":
                return isinstance(t, R.Type) and str(t) == "!torch.none"
            if k == "tensor":
                return isinstance(t, tuple) and t[0] == "type of tensor" and t[1] is r
            if k == "node":
                return isinstance(t, tuple) and t[0] == "type of" and t[1] is r and not t[2]
            return isinstance(t, R.Type) and str(t) == f.SCALAR_TYPE_TO_TORCH_MLIR_TYPE[k]

        # the results of an output node
        def after_r(it_, fr, k):
            ch = {x.idx: x.log for x in lists if x.log}
            g = [("a result has one type", len(ch) == 1 and all(len(v) == 1 for v in ch.values()))]
            for i, v in ch.items():
                g.append(("a result's type is a result type", i == roles.get("results")))
                g.append((f"the type of a result: {st['kind']}", same_type(v[0][1])))
            return g

        def clear(*a):
            for x in lists:
                x.log.clear()

        cr = Cut(lambda it_, fr: cr.keep.update(v for v, x in fr.locals.items() if isinstance(x, L)) or [], lambda it_, fr, k: clear(), after_r, matches=lambda q: S.zterm(q.n).eq(m))

        def enter(it_, fr):
            st["locs"] = [v for v in sorted(assigned(st["loop"].body)[0]) if v in fr.locals and fr.locals[v] is None]
            cn.keep |= {v for v, x in fr.locals.items() if isinstance(x, L)} | set(st["locs"])
            return []

        def at_(it_, fr, k):
            clear()
            st["before"] = found if c.choose(2) else None
            for v in st["locs"]:
                fr.locals[v] = st["before"]

        def after(it_, fr, k):
            nd = st["node"]
            exp = st["before"] or (found if st.get("has") else None)
            g = [("the first location found is the graph's", fr.locals[v] is exp) for v in st["locs"]]
            ch = {x.idx: x.log for x in lists if x.log}
            if nd.op == "placeholder":
                v = ch.get(roles.get("inputs"), [])
                g.append(("a placeholder has one input type", set(ch) == {roles.get("inputs")} and len(v) == 1))
                if len(v) == 1:
                    g.append(("its own", v[0][0] == "append" and isinstance(v[0][1], tuple) and v[0][1][0] == "type of" and v[0][1][1] is nd and not v[0][1][2]))
            elif nd.op == "output" and st["form"] == 2:
                v = ch.get(roles.get("results"), [])
                g.append(("a single result has one type", set(ch) == {roles.get("results")} and len(v) == 1))
                if len(v) == 1:
                    g.append((f"the type of a single result: {st['kind']}", same_type(v[0][1])))
            elif nd.op == "output":
                g.append(("the types of the results", not ch))  # logged by the inner loop
            else:
                g.append(("other nodes are no part of the type", not ch))
            return g

        cn = Cut(enter, at_, after, matches=lambda q: S.zterm(q.n).eq(n))

        def loop(it_, s, q, fr):
            for cut in (cn, cr):
                if cut.matches(q):
                    st["loop"] = s
                    r = cut(it_, s, q, fr)
                    if cut is cr:
                        clear()
                    return r
            return False

        it.loop_contract = loop
        graph = Pretend(torch.fx.Graph, nodes=S.SList(n, node))
        r = it.call(imp._graph_to_function_meta, [graph], {})
        ft, loc = r
        if not (isinstance(ft.inputs, L) and isinstance(ft.results, L)):
            raise C.Unsupported("how the function type is made")
        LEN["inputs"], LEN["results"] = ft.inputs.idx, ft.results.idx
        g = cn.goals + [("inputs and results are different lists", ft.inputs.idx != ft.results.idx)]
        g.append(("the location found, else unknown", loc is found if st.get("before") else isinstance(loc, R.Location) and loc.kind == "unknown"))
        return g

    Oblig("roles").prove(run, raises=stopped(lambda e: []))
    if not LEN:
        o.unsupported = "how the function type is made"
        return o
    return o.prove(run, raises=stopped(), max_paths=20000)


def frozen_program():
    """import_frozen_program: every lifted placeholder is its own state, the rest is a stateless graph"""
    f = fx()
    FI, CC = f.FxImporter, f.ContextCache
    o = Oblig("FxImporter.import_frozen_program")
    KINDS = ("constant", "buffer", "parameter")

    def run(c):
        imp, _, _ = new_importer()
        w = World(c)
        flag, vis = bool(c.choose(2)), (None, "private")[c.choose(2)]
        old = c.choose(2)  # a program of a PyTorch without `constants`
        owner = (None, G("module"), "absent")[c.choose(3)]
        n = {k: c.fresh_int(k) for k in KINDS + ("nodes",)}
        c.assume(z3.And(*[v >= 0 for v in n.values()]))
        eff, asked = [], {}

        class Items:
            _pyvc_ok = True

            def __init__(self, kind):
                self.kind = kind

            def items(self):
                r = S.SList(n[self.kind], lambda i: (G(f"{self.kind} input", i), G(f"{self.kind} state", i)))
                return r

        class Persist:
            """the names of buffers that are not in the state dictionary"""

            _pyvc_ok = True

            def _pyvc_contains(self, x):
                return False if old else z3.Function("not_persistent", z3.IntSort(), z3.BoolSort())(S.zterm(x.ix[0]))

        class Store:
            def __init__(self, name):
                self.name = name

            _pyvc_ok = True

            def __getitem__(self, k):
                if asked.setdefault((self.name, repr(k)), c.choose(2)) == 0:
                    raise C.PyRaise(KeyError(repr(k)))
                return G(f"in {self.name}", k.code, k.ix[0])

        native(Store)
        sig = Pretend(object, inputs_to_lifted_tensor_constants=Items("constant"), inputs_to_buffers=Items("buffer"), inputs_to_parameters=Items("parameter"), non_persistent_buffers=Persist())

        class Nd:
            _pyvc_ok = True

            def __init__(self, i):
                self.i, self.name = i, G("node name", i)
                self.kind = ("placeholder", "call_function", "get_attr", "output")[c.choose(4)]
                self.op = self.kind

            def replace_all_uses_with(self, v, *a, **k):
                if a or k:
                    raise C.Unsupported("conditions on the uses replaced")
                eff.append(("replaced", self, v))

        native(Nd)
        nodes = []

        def node(i):
            nodes.append(Nd(i))
            return nodes[-1]

        class Gr:
            _pyvc_ok = True
            nodes = S.SList(n["nodes"], node)

            def erase_node(self, x):
                eff.append(("erased", x))

        native(Gr)
        g = Gr()
        if owner != "absent":
            g.owning_module = owner
        prog = Pretend(object, graph_signature=sig, state_dict=Store("state_dict"), graph=g)
        if not old:
            prog.constants = Store("constants")
        result = G("function")

        def stateless(it_, d):
            eff.append(("stateless", d))
            return result

        it = interp({
            CC.set_symbolic_guards: lambda it_, d: eff.append(("guards", d["prog"])),
            FI._import_all_child_modules: lambda it_, d: eff.append(("children", d)),
            FI.import_stateless_graph: stateless,
        })
        seen = []

        class Repl(GDict):
            def has(self, k):
                return asked.setdefault(("replaced", repr(k)), c.choose(2)) == 1

            def value(self, k):
                return G("replacement", k.ix[0])

        native(Repl)

        def empty(kind):
            if kind != "dict":
                raise C.Unsupported("another container")
            w.boxes.append(Repl(w, len(w.boxes)))
            return w.boxes[-1]

        it.empty = empty

        def cut(it_, s, seq, fr):
            first = seq.f(0)
            if isinstance(first, tuple):
                kind = next(k for k in KINDS if first[0].is_(f"{k} input", 0) is True)
            else:
                kind = "nodes"
            seen.append(kind)
            box = w.boxes[0]

            def after(it__, fr_, k):
                g_ = []
                if kind == "nodes":
                    x = nodes[-1]
                    here = x.kind == "placeholder" and asked.get(("replaced", repr(x.name)))
                    lab = "a lifted placeholder: " if here else "any other node: "
                    g_.append((lab + ("replaced, then removed" if here else "left alone"), [e[0] for e in eff] == (["replaced", "erased"] if here else [])))
                    if here and len(eff) == 2:
                        g_.append((lab + "by its own state", S.conj(eff[0][1] is x, eff[1][1] is x, is_(eff[0][2], "replacement", k))))
                    g_.append((lab + "the state stays", not box.log))
                    return g_
                g_.append((f"{kind}: one replacement for each", len(box.log) == 1 and not eff))
                if len(box.log) == 1:
                    key, v = box.log[0]
                    g_.append((f"{kind}: of its own input", is_(key, f"{kind} input", k)))
                    st = G(f"{kind} state", k)
                    if kind == "constant":
                        want = is_(v, "in constants", st.code, k)
                    elif kind == "parameter":
                        want = is_(v, "in state_dict", st.code, k)
                    else:
                        np = S.zterm(Persist()._pyvc_contains(st))
                        want = z3.If(np, S.zterm(is_(v, "in constants", st.code, k)), S.zterm(is_(v, "in state_dict", st.code, k)))
                    g_.append((f"{kind}: by its own tensor", want))
                return g_

            def setup(*a):
                box.log.clear()
                eff.clear()

            setup_eff = list(eff)
            r = Cut(lambda *a: [("nothing before the loops but the ranges", [e[0] for e in setup_eff] == (["guards"] if flag else []))], setup, after)(it_, s, seq, fr)
            eff[:] = setup_eff
            return r

        it.loop_contract = cut
        try:
            r = it.call(imp.import_frozen_program, [prog], {"func_name": "name", "func_visibility": vis, "import_symbolic_shape_expressions": flag})
        except C.PyRaise as e:
            if isinstance(e.exc, Stop):
                raise
            missing = any(v == 0 for k, v in asked.items() if k[0] != "replaced")
            return [("only state that is missing is rejected", missing and isinstance(e.exc, AssertionError))]
        g_ = [
            ("the function made is returned", r is result),
            ("all state, then the nodes", sorted(seen[:-1]) == sorted(k for k in KINDS if not (old and k == "constant")) and seen[-1] == "nodes"),
            ("ranges if asked for, children if any, then the graph", [e[0] for e in eff] == (["guards"] if flag else []) + (["children"] if isinstance(owner, G) else []) + ["stateless"]),
        ]
        for e in eff:
            if e[0] == "guards":
                g_.append(("the program's own ranges", e[1] is prog))
            if e[0] == "children":
                g_.append(("the children of the graph's module", e[1]["module"] is owner and e[1]["import_symbolic_shape_expressions"] is flag))
            if e[0] == "stateless":
                d = e[1]
                g_.append(("the graph, as asked for", d["g"] is g and d["func_name"] == "name" and d["func_visibility"] == vis and d["import_symbolic_shape_expressions"] is flag))
        return g_

    return o.prove(run, raises=stopped())
