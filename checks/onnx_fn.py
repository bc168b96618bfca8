"""C18: an operator that ONNX defines by a function is imported as that function."""
import inspect

from checks.fximp import C, Cut, G, Oblig, R, S, Stop, is_, stopped, tagcode, z3
from checks.onnx_flow import Known, Msg, dispatch, oi, over, ox

I = z3.IntVal
INT, BOOL = z3.IntSort(), z3.BoolSort()
_f = lambda n, *s: z3.Function(n, *s)  # noqa: E731


def ghost(cls):
    for x in vars(cls).values():
        if inspect.isfunction(x):
            x._pyvc_ok = True
    cls._pyvc_ok = True
    return cls


@ghost
class Str:
    """a string: 0 is the empty one"""

    _pyvc_ops = True
    _pyvc_class = str
    _pyvc_tag = None

    def __init__(self, t):
        self.t = t

    def _pyvc_terms(self):
        return [self.t]

    def _pyvc_rebuild(self, t):
        return Str(t[0])

    def __eq__(self, o):
        if isinstance(o, Str):
            return self.t == o.t
        if isinstance(o, str) and o == "":
            return self.t == 0
        raise C.Unsupported(f"a string is compared with {o!r}")

    def __ne__(self, o):
        return z3.Not(self.__eq__(o))

    _pyvc_eq = __eq__
    __hash__ = object.__hash__

    def _pyvc_bool(self):
        return self.t != 0

    def __bool__(self):
        return C.cur().branch(self.t != 0)


@ghost
class Rep(S.SList):
    """a repeated field"""

    __slots__ = ("log",)

    def __init__(self, n, f):
        S.SList.__init__(self, n, f)
        self.log = []

    def log_op(self, op, *a):
        if op not in ("append", "add", "extend"):
            raise C.Unsupported(f"{op} on a field")
        self.log.append((op, *a))


def append(rep, x):
    if isinstance(x, (ValueInfo, Attr, Graph)):
        x = x.copy()  # a field holds a copy
    rep.log.append(x)


@ghost
class Field:
    """a repeated field being filled: what it had at first is `seq`, then `log`"""

    _pyvc_ops = True

    def __init__(self, seq=None):
        self.seq, self.log = seq, []

    def append(self, x):
        self.log.append(x.copy() if hasattr(x, "copy") else x)

    def extend(self, xs):
        if self.seq is not None or self.log:
            raise C.Unsupported("a field is extended twice")
        self.seq = xs

    def _pyvc_iter(self):
        if self.log:
            raise C.Unsupported("a field is read while it is filled")
        return S.SList(0, lambda i: None) if self.seq is None else self.seq

    def _pyvc_len(self):
        return self._pyvc_iter().n

    @property
    def n(self):
        return self._pyvc_iter().n

    def _pyvc_bool(self):
        return S.zterm(self.n) > 0

    def __len__(self):
        u = S.unique_value(C.cur(), self.n) if C.is_sym(self.n) else self.n
        if u is None:
            raise C.Unsupported("the length of a field")
        return u

    def clear(self):
        self.seq, self.log = None, []


# ------------------------------------------------------------------ messages
REF, NAME, KIND = _f("reference", INT, INT), _f("attribute_name", INT, INT), _f("attribute_type", INT, INT)
HASG, NG = _f("has_a_graph", INT, BOOL), _f("graphs", INT, INT)
NN = _f("nodes", INT, INT, INT)
CALL = _f("attribute_of_the_call", INT, INT)
DEF = _f("type_of_the_default", INT, INT)


@ghost
class Node_:
    """node j of graph g of attribute i"""

    def __init__(self, i, g, j):
        self.at = (i, g, j)


@ghost
class Bound:
    """_bind_attributes_on_node(node, caller, schema)"""

    def __init__(self, of, caller, schema):
        self.of, self.caller, self.schema = of, caller, schema


@ghost
class Graph:
    """a graph: a source one (at = attribute, graph), or one made from it"""

    made = None

    def __init__(self, at=None):
        self.at = at
        self.node = Field(S.SList(NN(S.zterm(at[0]), S.zterm(at[1])), lambda j: Node_(at[0], at[1], j))) if at else Field()
        self.bound = None
        if Graph.made is not None:
            Graph.made.append(self)

    def CopyFrom(self, o):
        self.at, self.node, self.bound = o.at, Field(o.node._pyvc_iter() if o.bound is None else None), o.bound
        if o.bound is not None:
            self.node = o.node

    def copy(self):
        r = Graph()
        r.CopyFrom(self)
        return r


@ghost
class Attr:
    """an attribute: a source one (src = index), or one made"""

    def __init__(self, src=None, what="attribute"):
        self.what, self.src = what, src
        if src is None:
            self.name = None
            return
        i = S.zterm(src)
        if what == "attribute":
            self.name, self.ref_attr_name, self.type = Str(NAME(i)), Str(REF(i)), KIND(i)
            self.g = Graph((i, I(-1)))
            self.graphs = Field(S.SList(NG(i), lambda g: Graph((i, S.zterm(g)))))
        elif what == "call":
            self.name = Str(CALL(i))
        else:
            self.name, self.type = Str(i), DEF(i)

    def HasField(self, f):
        if self.what != "attribute" or f not in ("g", "ref_attr_name"):
            raise C.Unsupported(f"HasField({f!r})")
        return HASG(S.zterm(self.src)) if f == "g" else S.zterm(self.ref_attr_name.t) != 0

    def CopyFrom(self, o):
        self.__dict__.update({k: v for k, v in o.__dict__.items() if k not in ("g", "graphs")})
        if o.what == "attribute":
            self.g = o.g.copy()
            self.graphs = Field(o.graphs._pyvc_iter())

    def copy(self):
        r = Attr()
        r.__dict__.update(self.__dict__)
        return r


@ghost
class NodeMsg:
    def __init__(self):
        self.base, self.attribute = None, Field()

    def CopyFrom(self, o):
        self.base, self.attribute = o, Field(o.attribute._pyvc_iter() if isinstance(o.attribute, Field) else o.attribute)


class Schema:
    """its attributes by name: one for any reference"""

    _pyvc_ok = True

    def __init__(self):
        self.attributes = self

    def __getitem__(self, k):
        if not isinstance(k, Str):
            raise C.Unsupported("an attribute of the schema by another key")
        return Msg("attribute of the schema", default_value=Attr(k.t, "default"))

    __getitem__._pyvc_ok = True


def clear(it, d):
    x = d["protobuf_list"]
    r = x._pyvc_iter()
    x.clear()
    return r


def clear_list():
    f = ox()
    fn = f._shallow_copy_and_clear_protobuf_list
    o = Oblig("_shallow_copy_and_clear_protobuf_list")

    def run(c):
        n = z3.Int("length")
        c.assume(n >= 0)
        x = S.SList(n, lambda i: G("element", i))

        def shrink(it, s, fr):
            if c.choose(2) == 0:
                m = c.fresh_int("length")
                c.assume(z3.And(0 <= m, m <= n))
                x.n = m
                c.assume(S.zterm(it.as_bool(it.expr(s.test, fr))))
                it.block(s.body, fr)
                raise C.PyRaise(Stop([("the field shrinks", z3.And(S.zterm(x.n) < m, S.zterm(x.n) >= 0))]))
            m = c.fresh_int("length")
            c.assume(z3.And(0 <= m, m <= n))
            x.n = m
            c.assume(z3.Not(S.zterm(it.as_bool(it.expr(s.test, fr)))))
            return True

        it = oi({})
        it.while_contract = shrink
        r = it.call(fn, [x], {})
        j = c.fresh_int("j")
        c.assume(z3.And(0 <= j, j < n))
        return [
            ("another list", r is not x),
            ("of all the elements", S.conj(S.zeq(r.n, n), is_(r.f(j), "element", j))),
            ("and the field is empty", S.zeq(x.n, 0)),
        ]

    return o.prove(run, raises=stopped())


def bind_node():
    """_bind_attributes_on_node, for any number of attributes, subgraphs and nodes in them"""
    import onnx

    f = ox()
    fn = f._bind_attributes_on_node
    o = Oblig("_bind_attributes_on_node")

    def run(c):
        n, m = z3.Int("attributes"), z3.Int("attributes of the call")
        i, j = z3.Ints("i j")
        c.assume(z3.And(n >= 0, m >= 0))
        c.assume(z3.ForAll([i], z3.And(NG(i) >= 0, CALL(i) != 0, REF(i) >= 0, DEF(i) >= 0)))
        c.assume(z3.ForAll([i, j], NN(i, j) >= 0))
        # a call names an attribute once
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < m, CALL(i) == CALL(j)), i == j)))
        node = Msg("node", attribute=S.SList(n, lambda k: Attr(k)))
        caller = Msg("call", attribute=S.SList(m, lambda k: Attr(k, "call")))
        schema = Schema()
        nodes, Graph.made = [], []
        st = {}

        def new_node(it, a, k):
            nodes.append(NodeMsg())
            return nodes[-1]

        def bound_nodes(g):
            """the nodes of the graph, bound"""
            x = g.node
            if g.bound is not None:
                return g.bound == (caller, schema)
            return False

        def is_bound_graph(g, i, k):
            return S.conj(isinstance(g, Graph), *([S.zeq(g.at[0], i), S.zeq(g.at[1], k), bound_nodes(g)] if isinstance(g, Graph) and g.at else [False]))

        # --- the loop over the attributes of the node
        def enter(it, fr):
            return [("a node of its own, without attributes", len(nodes) == 1 and nodes[0].attribute.seq is None and not nodes[0].attribute.log)]

        def at(it, fr, k):
            nodes[0].attribute = st["f"] = Field()

        def after(it, fr, k):
            x = nodes[0].attribute
            if x is not st["f"] or x.seq is not None:
                raise C.Unsupported("the attributes are filled in another way")
            got = x.log
            if len(got) > 1:
                return [("one attribute becomes at most one", False)]
            ref = REF(k)
            called = z3.Exists([j], z3.And(0 <= j, j < m, CALL(j) == ref))
            if not got:
                return [("only a reference to nothing is dropped", z3.And(ref != 0, z3.Not(called), DEF(ref) == 0))]
            a = got[0]
            if not isinstance(a, Attr) or a.src is None:
                return [("an attribute", False)]
            g = [("under its own name", S.zterm(a.name == Str(NAME(k))))]
            if a.what == "call":
                return g + [("the attribute of the call that it refers to", z3.And(ref != 0, 0 <= S.zterm(a.src), S.zterm(a.src) < m, CALL(S.zterm(a.src)) == ref))]
            if a.what == "default":
                return g + [("the default of what it refers to", z3.And(ref != 0, z3.Not(called), S.zterm(a.src) == ref, DEF(ref) != 0))]
            g += [("an attribute with a value stays", z3.And(ref == 0, S.zterm(a.src) == k))]
            if c.branch(HASG(k)):
                g.append(("its graph is bound", is_bound_graph(a.g, k, I(-1))))
            gs = a.graphs
            if c.branch(NG(k) > 0):
                ok = isinstance(gs, Field) and not gs.log and gs.seq is not None
                g.append(("as many graphs", ok and S.zeq(gs.seq.n, NG(k))))
                if ok:
                    q = c.fresh_int("q")
                    c.assume(z3.And(0 <= q, q < NG(k)))
                    g.append(("each of its graphs is bound", is_bound_graph(gs.seq.f(q), k, q)))
            else:
                g.append(("no graph is added", isinstance(gs, Field) and not gs.log and (gs.seq is None or S.zeq(gs.seq.n, 0))))
            return g

        main = Cut(enter, at, after, matches=over(n, lambda p: any(isinstance(x, Attr) and x.what == "attribute" for x in p)))

        # --- the search among the attributes of the call
        def passed(it, fr, k):
            ref = st.get("ref")
            if ref is None:
                raise C.Unsupported("a search for no reference")
            c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), CALL(j) != ref)))

        def go(it, s, seq, fr):
            # the attribute being bound is the one whose reference is in the frame
            refs = [v.t for v in fr.locals.values() if isinstance(v, Str)] + [v.ref_attr_name.t for v in fr.locals.values() if isinstance(v, Attr) and v.what == "attribute" and v.src is not None]
            st["ref"] = refs[0] if refs and all(r.eq(refs[0]) for r in refs) else None
            return search(it, s, seq, fr)

        search = Cut(lambda it, fr: [], passed, lambda it, fr, k: [("an attribute of another name is passed over", CALL(k) != st["ref"])], matches=over(m, lambda p: any(isinstance(x, Attr) and x.what == "call" for x in p)))

        # --- the nodes of a subgraph
        def target(seq):
            e = seq.f(z3.Int("probe"))
            return e.at if isinstance(e, Node_) else None

        def nodes_of(it, s, seq, fr):
            e = seq.f(z3.Int("probe"))
            if not isinstance(e, Node_):
                return False
            gs = [g for g in Graph.made if g in list(fr.locals.values()) and not g.node._pyvc_iter().n is seq.n and S.zeq(g.node.n, 0) is True]
            gs = [g for g in Graph.made if any(v is g for v in fr.locals.values()) and g.bound is None and g.node.seq is None]
            if len(gs) != 1:
                raise C.Unsupported("the graph that is filled")
            g0 = gs[0]
            ei, eg = e.at[0], e.at[1]

            def at_(it, fr, k):
                g0.node = st["n"] = Field()
                if not (z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    g0.bound = (caller, schema)

            def after_(it, fr, k):
                x = g0.node.log
                ok = g0.node is st["n"] and len(x) == 1 and isinstance(x[0], Bound) and x[0].caller is caller and x[0].schema is schema
                return [("each node of a subgraph is bound, in order", S.conj(*[S.zeq(a, b) for a, b in zip(x[0].of.at, (ei, eg, k))]) if ok else False)]

            cut = Cut(lambda it, fr: [("filled from the start", not g0.node.log), ("with the nodes of the graph it is made from", S.conj(S.zeq(g0.at[0], ei), S.zeq(g0.at[1], eg)) if g0.at else False)], at_, after_)
            cut.goals = main.goals
            return cut(it, s, seq, fr)

        # --- the graphs of an attribute
        def graphs_of(it, s, seq, fr):
            e = seq.f(z3.Int("probe"))
            if not isinstance(e, Graph):
                return False
            news = [v for v in fr.locals.values() if isinstance(v, Attr) and v.what == "attribute" and v.src is not None and v.graphs.seq is None]
            if len(news) != 1:
                raise C.Unsupported("the attribute that is filled")
            a, i_ = news[0], e.at[0]

            def at_(it, fr, k):
                a.graphs = st["g"] = Field()
                if not (z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED):

                    def one(q):
                        g = Graph((S.zterm(i_), S.zterm(q)))
                        g.bound = (caller, schema)
                        return g

                    a.graphs.seq = S.SList(NG(S.zterm(i_)), one)

            def after_(it, fr, k):
                x = a.graphs.log
                return [("each graph is bound, in order", S.conj(a.graphs is st["g"], is_bound_graph(x[0], i_, k) if len(x) == 1 else False))]

            cut = Cut(lambda it, fr: [("filled from the start", not a.graphs.log)], at_, after_)
            cut.goals = main.goals
            return cut(it, s, seq, fr)

        search.goals = main.goals
        it = oi({f._shallow_copy_and_clear_protobuf_list: clear})
        lifted = it.lift(fn)
        it.contracts[id(fn)] = lambda it, a, k: Bound(*a, **k)
        it.contracts[id(onnx.NodeProto)] = new_node
        it.contracts[id(onnx.AttributeProto)] = lambda it, a, k: Attr()
        it.contracts[id(onnx.GraphProto)] = lambda it, a, k: Graph()
        it.loop_contract = lambda it, s, seq, fr: main(it, s, seq, fr) or go(it, s, seq, fr) or nodes_of(it, s, seq, fr) or graphs_of(it, s, seq, fr)
        r = it.call_ifunction(lifted, [node, caller, schema], {})
        return main.goals + [("the node made", len(nodes) == 1 and r is nodes[0]), ("otherwise the node it is made from", r.base is node)]

    return o.prove(run, raises=stopped(), max_paths=4000)


# ------------------------------------------------------------------ the model of a function
@ghost
class ValueInfo:
    """a name and a type"""

    def __init__(self):
        self.name, self.type = None, TypeOf()

    def copy(self):
        r = ValueInfo()
        r.name, r.type = self.name, self.type.copy()
        return r


@ghost
class TypeOf:
    def __init__(self):
        self.of = None

    def CopyFrom(self, o):
        self.of = o.of if isinstance(o, TypeOf) else o

    def copy(self):
        r = TypeOf()
        r.of = self.of
        return r


@ghost
class GraphMsg:
    def __init__(self):
        self.input, self.output, self.node, self.name = Field(), Field(), Field(), None

    def CopyFrom(self, o):
        if not isinstance(o, GraphMsg):
            raise C.Unsupported("a graph copied from something else")
        self.__dict__.update(o.__dict__)


@ghost
class Model:
    def __init__(self):
        self.graph, self.opset_import, self.ir_version = GraphMsg(), Field(), None


def specialize():
    """_specialize_function_and_create_model, for functions of any size"""
    import onnx

    f = ox()
    fn = f._specialize_function_and_create_model
    o = Oblig("_specialize_function_and_create_model")

    def run(c):
        ni, no, nn, no_ops = z3.Ints("inputs outputs nodes opsets")
        # a function has inputs; a call gives them a type, but for some last ones, and its outputs
        nt = z3.Int("types")
        c.assume(z3.And(ni >= 1, no >= 0, nn >= 0, no_ops >= 0, 0 <= nt, nt <= ni, z3.Int("all outputs") >= no))
        fp = Msg("function", input=S.SList(ni, lambda i: G("input", i)), output=S.SList(z3.Int("all outputs"), lambda i: G("output", i)), node=S.SList(nn, lambda i: G("node", i)), opset_import=S.SList(no_ops, lambda i: G("opset", i)), name=G("own name"))
        ti, to = S.SList(nt, lambda i: G("input type", i)), S.SList(no, lambda i: Known("output type", i))
        caller, schema, name = Msg("call"), Msg("schema"), G("name")
        graphs, models, inferred = [], [], []

        def graph():
            gs = [g for g in graphs if g.node is not None]
            if len(gs) != 1:
                raise C.Unsupported("the graph that is filled")
            return gs[0]

        def ended(k):
            return not (z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED)

        def filling(field, n, tag, check, only=lambda k: True):
            st = {}

            def enter(it, fr):
                x = getattr(graph(), field)
                return [(f"{field}: empty at first", x.seq is None and not x.log)]

            def at(it, fr, k):
                x = st["f"] = Field()
                setattr(graph(), field, x)
                if ended(k):
                    x.seq = ("all", field)
                    # a value made in the loop and used after it has arbitrary content
                    for v in st["names"]:
                        fr.locals[v] = ValueInfo()

            def after(it, fr, k):
                x = getattr(graph(), field)
                g = [(f"{field}: at most one each", x is st["f"] and len(x.log) <= 1), (f"{field}: one for each that has one", S.eq(only(k), len(x.log) == 1))]
                return g + (check(x.log[0], k) if len(x.log) == 1 else [])

            cut = Cut(enter, at, after, matches=lambda seq: C.is_sym(seq.n) and over(seq.n, lambda p: any(isinstance(v, G) and v.code == tagcode(tag) for v in p))(seq))

            def go(it, s, seq, fr):
                import ast

                if not cut.matches(seq):
                    return False
                cut.goals.append((f"{field}: every one", S.zterm(seq.n) == n))
                st["names"] = sorted({t.id for b in s.body for a in ast.walk(b) if isinstance(a, ast.Assign) and isinstance(a.value, ast.Call) and "ValueInfoProto" in ast.unparse(a.value.func) for t in a.targets if isinstance(t, ast.Name)})
                return cut(it, s, seq, fr)

            go.cut = cut
            return go

        info = lambda a, b: lambda x, k: [(f"{a}: its name, in order", isinstance(x, ValueInfo) and is_(x.name, a, k)), (f"{a}: its type", isinstance(x, ValueInfo) and x.type.of is not None and is_(x.type.of, b, k))]  # noqa: E731
        bound = lambda x, k: [("a node, bound to this call, in order", S.conj(isinstance(x, Bound), *([is_(x.of, "node", k), x.caller is caller, x.schema is schema] if isinstance(x, Bound) else [])))]  # noqa: E731
        given = info("input", "input type")

        def inputs(x, k):
            a, b = given(x, k)
            if not isinstance(x, ValueInfo) or isinstance(x.type.of, G):
                return [a, (b[0], z3.And(k < nt, S.zterm(b[1])))]
            return [a, ("input: one that is left out has the empty type", z3.And(k >= nt, z3.BoolVal(x.type.of is None or x.type.of == onnx.TypeProto())))]

        cuts = [filling("input", ni, "input", inputs), filling("output", no, "output", info("output", "output type"), Known.at), filling("node", nn, "node", bound)]
        for x in cuts[1:]:
            x.cut.goals = cuts[0].cut.goals

        def model(it, a, k):
            models.append(Model())
            return models[-1]

        def new_graph(it, a, k):
            graphs.append(GraphMsg())
            return graphs[-1]

        it = oi({f._bind_attributes_on_node: lambda it, d: Bound(d["interior_node"], d["caller_node"], d["op_schema"])})
        it.contracts[id(onnx.GraphProto)] = new_graph
        it.contracts[id(onnx.ValueInfoProto)] = lambda it, a, k: ValueInfo()
        it.contracts[id(onnx.ModelProto)] = model
        it.contracts[id(onnx.helper.find_min_ir_version_for)] = lambda it, a, k: G("least IR version") if a[0] is fp.opset_import else None

        def infer(it, a, k):
            r = Msg("inferred", graph=G("inferred graph"))
            inferred.append((a, k, r))
            return r

        it.contracts[id(onnx.shape_inference.infer_shapes)] = infer
        it.loop_contract = lambda it, s, seq, fr: any(x(it, s, seq, fr) for x in cuts)
        r = it.call(fn, [fp, schema, name, ti, to, caller], {})
        g = list(cuts[0].cut.goals)
        ok = len(inferred) == 1 and r is inferred[0][2]
        g.append(("the model with its inferred types", ok))
        if not ok:
            return g
        a, k, _ = inferred[0]
        m = a[0]
        ok = isinstance(m, Model)
        g.append(("of the model made", ok))
        if not ok:
            return g
        return g + [
            ("inference may not fail silently", k.get("strict_mode") is True and k.get("check_type") is True),
            ("all inputs, outputs and nodes", all(getattr(m.graph, x).seq == ("all", x) and not getattr(m.graph, x).log for x in ("input", "output", "node"))),
            ("under the name given", m.graph.name is name),
            ("the operator sets of the function", m.opset_import.seq is fp.opset_import),
            ("an IR version that has them", m.ir_version is not None and is_(m.ir_version, "least IR version")),
        ]

    o.prove(run, raises=stopped())

    def inputs(c):
        import onnx.defs as D

        return [("every function of the standard has an input", all(s.inputs for s in D.get_all_schemas_with_history() if s.function_opset_versions or s.context_dependent_function_opset_versions))]

    return o.prove(inputs)


# ------------------------------------------------------------------ which function
def operator_function():
    """ModuleCache.get_operator_function"""
    import onnx

    f = ox()
    MC = f.ModuleCache
    o = Oblig("ModuleCache.get_operator_function")
    # an operator of the standard has up to two versions of a function of each kind; checked below
    layouts = [(a, b) for a in range(3) for b in range(3)]

    class Proto:
        """a message whose text tells it from others"""

        _pyvc_ok = True

        def __init__(self, text, **kw):
            self.text = text
            self.__dict__.update(kw)

        def __repr__(self):
            return f"<{self.text}>"

        def SerializeToString(self):
            return "bytes of " + self.text

    for fn_ in (Proto.__repr__, Proto.SerializeToString):
        fn_._pyvc_ok = True

    def setup(c, lay):
        vs = z3.Ints(" ".join(f"version{k}" for k in range(lay[0] + lay[1]))) if sum(lay) else []
        asked = z3.Int("opset version")
        for v in [*vs, asked]:
            c.assume(v >= 1)
        if len(vs) > 1:
            c.assume(z3.Distinct(*vs))  # as in the standard; checked below
        return vs[: lay[0]], vs[lay[0] :], asked

    def args(asked, **kw):
        d = dict(op_name="Op", op_domain="dom", opset_version=asked, input_type_protos=[Proto("in 0"), Proto("in 1")], output_type_protos=[Proto("out 0")], caller_node=Proto("call", attribute=[Proto("attribute of the call")]), config=None)
        d.update(kw)
        return d

    def world(c, mc, ncd, cd, state):
        class Schema:
            _pyvc_ok = True
            function_opset_versions = ncd
            context_dependent_function_opset_versions = cd

            def get_function_with_opset_version(self, v):
                state["got"].append(("plain", v))
                return state["bytes"]

            def get_context_dependent_function_with_opset_version(self, v, node, types):
                state["got"].append(("dependent", v, node, types))
                return state["bytes"]

        for n in ("get_function_with_opset_version", "get_context_dependent_function_with_opset_version"):
            getattr(Schema, n)._pyvc_ok = True
        state["schema"] = sc = Schema()

        class Fn:
            _pyvc_ok = True

            def ParseFromString(self, b):
                self.of = b

        Fn.ParseFromString._pyvc_ok = True
        con = {
            f._specialize_function_and_create_model: lambda it, d: state["made"].append(d) or Msg("model", graph=Msg("graph")),
            f.NodeImporter.define_function: lambda it, d: state["defined"].append(d) or state["imp"],
            f.NodeImporter.import_all: lambda it, d: state["filled"].append(d["func"]) if d["self"] is state["imp"] else state["filled"].append("?"),
        }
        it = oi(con)
        it.contracts[id(f.ModelInfo)] = lambda it, a, k: Msg("model info", of=a[0])
        it.contracts[id(f.GraphInfo)] = lambda it, a, k: Msg("graph info", of=a, kw=k)
        it.contracts[id(onnx.onnx_pb.FunctionProto)] = it.contracts[id(onnx.FunctionProto)] = lambda it, a, k: Fn()

        def schema(it, a, k):
            b = inspect.signature(lambda op_type, max_inclusive_version=None, domain="": 0).bind(*a, **k)
            state["asked"].append((b.arguments.get("op_type"), b.arguments.get("domain", ""), b.arguments.get("max_inclusive_version")))
            return sc

        it.contracts[id(onnx.defs.get_schema)] = schema
        return it

    def fresh():
        R.reset()
        cx = R.Context()
        m = R.Module.create(R.Location.unknown(cx)).operation
        cc = f.ContextCache(cx)
        mc = MC(m, cc)
        imp = f.NodeImporter.__new__(f.NodeImporter)
        imp._p = R.Operation("func.func", [], [], {}, 1, None)
        st = dict(got=[], made=[], defined=[], filled=[], asked=[], imp=imp, bytes="bytes of the function")
        return mc, st

    ALLOW = [None, {}, {"dom": set()}, {"dom": {"Op"}}, {"": {"Op"}}, {"dom": {"Other"}}]
    DENY = [{}, {"dom": {"Op"}}, {"dom": {"Other"}}, {"": {"Op"}}]

    def lists(c):
        """only an operator that is allowed and not denied is expanded"""
        allow, deny = ALLOW[c.choose(len(ALLOW))], DENY[c.choose(len(DENY))]
        mc, st = fresh()
        it = world(c, mc, [1], [], st)
        r = it.call(mc.get_operator_function, [], args(3, config=Msg("config", function_expansion_allowlists_by_domain=allow, function_expansion_denylists_by_domain=deny)))
        ok = (allow is None or "Op" in allow.get("dom", ())) and "Op" not in deny.get("dom", ())
        return [("expanded iff allowed and not denied in its domain", (r is not None) == ok), ("nothing is made for another", ok or not (st["made"] or st["defined"]))]

    o.prove(lists)

    def run(c):
        lay = layouts[c.choose(len(layouts))]
        mc, st = fresh()
        ncd, cd, asked = setup(c, lay)
        it = world(c, mc, ncd, cd, st)
        a = args(asked, config=Msg("config", function_expansion_allowlists_by_domain=None, function_expansion_denylists_by_domain={}))
        if c.choose(2):
            st["bytes"] = ""
        # max() and filter() on symbolic numbers fork
        try:
            r = it.call(mc.get_operator_function, [], a)
        except C.PyRaise as e:
            return [("only a function that is missing is an error", not st["bytes"] and isinstance(e.exc, f.OnnxImportError))]
        fits = [v <= asked for v in ncd + cd]
        g = [("the schema of this operator at this version", len(st["asked"]) == 1 and st["asked"][0][:2] == ("Op", "dom") and S.zeq(st["asked"][0][2], asked))]
        if r is None:
            return g + [("only an operator without a function is none", z3.Not(z3.Or(*fits)) if fits else True), ("nothing is made", not (st["made"] or st["defined"]))]
        ok = len(st["got"]) == 1
        g.append(("the function is looked up", ok))
        if not ok:
            return g
        kind, v = st["got"][0][:2]
        mine = ncd if kind == "plain" else cd
        g += [
            ("a version of this kind", z3.Or(*[v == x for x in mine]) if mine else False),
            ("not of a later operator set", v <= asked),
            ("the latest of them", z3.And(*[z3.Implies(x <= asked, x <= v) for x in ncd + cd])),
        ]
        if kind == "dependent":
            g.append(("made for this call and the types of its inputs", st["got"][0][2] == "bytes of call" and st["got"][0][3] == ["bytes of in 0", "bytes of in 1"]))
        ok = len(st["made"]) == 1 and len(st["defined"]) == 1
        g.append(("one function is made", ok))
        if not ok:
            return g
        m, d = st["made"][0], st["defined"][0]
        gi = d["graph_info"]
        return g + [
            ("from the function looked up", getattr(m["function_proto"], "of", None) == st["bytes"]),
            ("for the types of this call", m["input_type_protos"] is a["input_type_protos"] and m["output_type_protos"] is a["output_type_protos"] and m["caller_node"] is a["caller_node"] and m["op_schema"] is st["schema"]),
            ("a private function of this module", d["private"] is True and d["module_op"] is mc._m and d["context_cache"] is mc._cc and d["module_cache"] is mc),
            ("of the model made", gi.what == "graph info" and gi.of[1].what == "graph" and not gi.kw),
            ("filled as a function", st["filled"] == [True]),
            ("is the result", r is st["imp"]._p),
            ("and held for the same call", list(mc._operator_function_map.values()) == [r]),
        ]

    o.prove(run, max_paths=4000)

    def again(c):
        """a function made before is taken only for the same operator, types and attributes"""
        dep = bool(c.choose(2))
        base = args(3)
        diffs = {
            "nothing": {},
            "the operator": dict(op_name="Op2"),
            "the domain": dict(op_domain="dom2"),
            "the version": dict(opset_version=4),
            "an input type": dict(input_type_protos=[Proto("in 0"), Proto("in 2")]),
            "the order of the inputs": dict(input_type_protos=[Proto("in 1"), Proto("in 0")]),
            "a further input": dict(input_type_protos=[Proto("in 0"), Proto("in 1"), Proto("in 1")]),
            "an output type": dict(output_type_protos=[Proto("out 1")]),
            "input for output": dict(input_type_protos=[Proto("in 0")], output_type_protos=[Proto("in 1"), Proto("out 0")]),
            "an attribute": dict(caller_node=Proto("call", attribute=[Proto("another attribute of the call")])),
            "another call": dict(caller_node=Proto("other call", attribute=[Proto("attribute of the call")])),
        }
        what = list(diffs)[c.choose(len(diffs))]
        if what == "an attribute" and dep:
            diffs[what]["caller_node"].text = "call with another attribute"
        mc, st = fresh()
        it = world(c, mc, [] if dep else [1], [1] if dep else [], st)
        cfg = Msg("config", function_expansion_allowlists_by_domain=None, function_expansion_denylists_by_domain={})
        r1 = it.call(mc.get_operator_function, [], {**base, "config": cfg})
        imp2 = f.NodeImporter.__new__(f.NodeImporter)
        imp2._p = R.Operation("func.func", [], [], {}, 1, None)
        st["imp"] = imp2
        r2 = it.call(mc.get_operator_function, [], {**base, **diffs[what], "config": cfg})
        same = what == "nothing"
        may = what == "another call" and not dep  # the call's names do not matter
        return [(f"{what} differs: {'the same function' if same else 'another function'}", (r2 is r1) if same else may or (r2 is imp2._p and len(st["made"]) == 2)), ("under names of their own", r2 is r1 or st["made"][0]["name_to_give_model"] != st["made"][1]["name_to_give_model"])]

    o.prove(again)

    def registry(c):
        ss = onnx.defs.get_all_schemas_with_history()
        n = max(max(len(s.function_opset_versions), len(s.context_dependent_function_opset_versions)) for s in ss)
        d = all(not set(s.function_opset_versions) & set(s.context_dependent_function_opset_versions) for s in ss)
        return [("operators have up to two versions of each kind", n <= 2), ("and no version of both kinds", d)]

    return o.prove(registry)
