"""C16: an imported ONNX graph is the model's graph, operation by operation."""
import inspect

from checks import onnxeval as X
from checks.fximp import C, Cut, G, GV, Oblig, R, S, Stop, args_of, assigned, is_, stopped, tagcode, z3
from pyvc.interp import Interp
from pyvc import text as T

I = z3.IntVal
_f = lambda n, *s: z3.Function(n, *s)  # noqa: E731
INT, BOOL = z3.IntSort(), z3.BoolSort()
EMPTY = _f("the_name_is_empty", INT, INT, BOOL)
KNOWN = _f("has_a_type", INT, INT, BOOL)
HAS = _f("is_defined", INT, INT, BOOL)
VER = _f("version_of_import", INT, INT)
DEFAULT = _f("import_is_of_the_default_domain", INT, BOOL)


def ox():
    return X.OX()


def files():
    return [ox().__file__]


def oi(contracts):
    def wrap(fn, h):
        return lambda it, a, k: h(it, args_of(fn, a, k))

    un = lambda fn: getattr(fn, "__func__", fn)  # noqa: E731
    return Interp(files(), {id(un(fn)): wrap(un(fn), h) for fn, h in contracts.items()})


class Name(G):
    """a name in the model: equal iff tag and index are; may be the empty one"""

    _pyvc_ops = True
    _pyvc_class = str

    def __init__(self, tag, *ix, code=None, pure=False):
        G.__init__(self, tag, *ix, code=code)

    def empty(self):
        return EMPTY(I(self.code) if isinstance(self.code, int) else self.code, S.zterm(self.ix[0]))

    def __eq__(self, o):
        if isinstance(o, str):
            if o == "":
                return self.empty()
            raise C.Unsupported(f"a name is compared with {o!r}")
        return self._pyvc_eq(o) if isinstance(o, G) else False

    def _pyvc_eq(self, o):
        if isinstance(o, str):
            return self.__eq__(o)
        return G._pyvc_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return z3.Not(r) if C.is_sym(r) else not r

    def __hash__(self):
        return id(self)

    def _pyvc_bool(self):
        return z3.Not(self.empty())

    def __bool__(self):
        return C.cur().branch(self._pyvc_bool())

    def _pyvc_text(self):
        return T.Text(["<", T.Dec(S.zterm(self.code)), ":", T.Dec(S.zterm(self.ix[0])), ">"])


class Msg:
    """a protobuf message: the fields named"""

    _pyvc_ok = True

    def __init__(self, what="message", **kw):
        self.__dict__.update(kw)
        self.what = what

    def HasField(self, f):
        return self.__dict__.get("has", {}).get(f, False)

    def __repr__(self):
        return f"<{self.what}>"


class Values:
    """the importer's names: any set of them, each with its value; changes are logged"""

    _pyvc_ok = True

    def __init__(self, tag="value", names=None):
        self.tag, self.log, self.names = tag, [], names

    def has(self, k):
        return HAS(S.zterm(k.code), S.zterm(k.ix[0]))

    def _pyvc_contains(self, k):
        if self.log:
            raise C.Unsupported("names are looked up after one is given")
        return self.has(k)

    __contains__ = _pyvc_contains

    def __getitem__(self, k):
        if self.log:
            raise C.Unsupported("names are looked up after one is given")
        if not isinstance(k, Name):
            raise C.Unsupported(f"the value named {k!r}")
        if not C.cur().branch(self.has(k)):
            raise C.PyRaise(KeyError(k))
        return GV(self.tag, k.code, k.ix[0])

    def get(self, k, default=None):
        return self[k] if C.cur().branch(self.has(k)) else default

    def __setitem__(self, k, v):
        self.log.append((k, v))

    def _pyvc_iter(self):
        if self.names is None:
            raise C.Unsupported("all names")
        return self.names

    keys = _pyvc_iter

    def items(self):
        return S.SList(self.names.n, lambda i: (self.names.f(i), GV(self.tag, self.names.f(i).code, i)))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise C.Unsupported(f"{n} of the names")


for _c in (Name, Msg, Values):
    for _fn in vars(_c).values():
        if callable(_fn) and not isinstance(_fn, type):
            try:
                _fn._pyvc_ok = True
            except AttributeError:
                pass


class Grown(S.SList):
    """a list in a loop: what this iteration adds is logged"""

    __slots__ = ("log",)

    def __init__(self, n, f):
        S.SList.__init__(self, n, f)
        self.log = []

    def log_op(self, op, *a):
        if op != "append":
            raise C.Unsupported(f"{op} in a loop")
        self.log.append(a[0])
        self.n = S.add(self.n, 1)


class Grow(Cut):
    """A loop that appends one element to each of some lists per iteration.

    roles: {name: (test, element)}: test(value, k) -> goal, or None if the value is not
    of that role at all; element(i): the ghost element the list has there afterwards.
    Which list has which role is found by what is appended, not by how it is called."""

    def __init__(self, roles, matches, before=None, extra=None, may_break=False):
        Cut.__init__(self, self._enter, self._at, self._after, matches=matches, may_break=may_break)
        self.roles, self.found, self.before, self.extra = roles, {}, before, extra

    def reset(self):
        self.goals, self.keep = [], set()
        return self

    def __call__(self, it, s, seq, fr):
        if not self.matches(seq):
            return False
        names, mutated = assigned(s.body)
        self.lists = [v for v in sorted(mutated) if isinstance(fr.locals.get(v), list)]
        self.keep |= set(self.lists)
        self.n, self.seq = seq.n, seq
        return Cut.__call__(self, it, s, seq, fr)

    def old(self):
        raise C.Unsupported("a list is read in the loop that extends it")

    def _enter(self, it, fr):
        return [("the lists are empty at first", all(fr.locals[v] == [] for v in self.lists))]

    def _at(self, it, fr, k):
        self.k = k
        exits = not (z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED)
        for v in self.lists:
            role = self.found.get(v)
            if exits and role is None:
                raise C.Unsupported(f"what {v} collects")
            fr.locals[v] = S.SList(k, self.roles[role][1]) if exits else Grown(k, lambda i: self.old())
        if self.before:
            self.before(it, fr, k, exits)

    def _after(self, it, fr, k):
        g = []
        for v in self.lists:
            xs = fr.locals[v]
            if not isinstance(xs, Grown) or len(xs.log) != 1:
                g.append(("one element each time", False))
                continue
            last = xs.log[0]
            for role, (test, _) in self.roles.items():
                r = test(last, k)
                if r is not None and self.found.get(v, role) == role:
                    self.found[v] = role
                    g.append((f"{role} of this one", r))
                    break
            else:
                g.append((f"{v} gets an element that has no place there: {last!r}"[:160], False))
        return g + (self.extra(it, fr, k) if self.extra else [])


def dispatch(*cuts):
    def h(it, s, seq, fr):
        return any(c(it, s, seq, fr) for c in cuts)

    return h


def new_node_importer(gi=None, nv=None):
    R.reset()
    cx = R.Context()
    m = R.Module.create(R.Location.unknown(cx)).operation
    f = ox()
    cc = f.ContextCache(cx)
    b = R.Block([])
    imp = f.NodeImporter(gi, parent_op=m, block=b, context_cache=cc, module_op=m, module_cache=G("module cache"))
    if nv is not None:
        imp._nv_map = nv
    return imp, b


def over(n, test=lambda parts: True):
    """loops of n iterations over elements with the parts tested"""

    def m(seq):
        if not C.is_sym(seq.n) or not C.cur().entails(S.zterm(seq.n) == S.zterm(n)):
            return False
        e = seq.f(z3.Int("probe"))
        return test(list(e) if isinstance(e, tuple) else [e])

    return m


class Known(G):
    """the type of a value, where one is known"""

    @staticmethod
    def at(i):
        return KNOWN(I(tagcode("out")), S.zterm(i))

    def _pyvc_bool(self):
        return Known.at(self.ix[0])


def typed_outputs(no, elem):
    """[elem(i) for those outputs i whose type is known]"""
    from pyvc import loops

    return loops.make_filter(C.cur().fresh_int("k"), no, Known.at, elem)


def named(tag):
    return lambda parts: any(isinstance(p, Name) and p.code == tagcode(tag) for p in parts)


def result_of(parts):
    return any(isinstance(p, R.SymResult) for p in parts)


def handled():
    """operator names with a handler of their own, and one without"""
    f = ox()
    return ["SomeOperator"] + sorted(n[len("_handle_node_"):] for n in dir(f.NodeImporter) if n.startswith("_handle_node_"))


def import_node():
    import onnx

    f = ox()
    NI, GI = f.NodeImporter, f.GraphInfo
    o = Oblig("NodeImporter.import_node")
    inputs_cut = Grow(
        {
            "the value": (lambda v, k: (lambda e: z3.If(e, S.zterm(is_(v, "none")), S.zterm(is_(v, "value", tagcode("in"), k))))(EMPTY(I(tagcode("in")), k)) if isinstance(v, GV) else None,
                          lambda i: GV("operand", i)),
            "the type": (lambda v, k: type_goal(v, k), lambda i: G("input type", i)),
        },
        over(z3.Int("inputs"), named("in")),
    )

    def type_goal(v, k):
        known = z3.And(z3.Not(EMPTY(I(tagcode("in")), k)), KNOWN(I(tagcode("in")), k))
        if isinstance(v, onnx.TypeProto):
            return S.conj(z3.Not(known), v == onnx.TypeProto())
        if isinstance(v, G):
            return S.conj(known, is_(v, "type of", tagcode("in"), k))
        return None

    OUT = tagcode("out")
    outputs_cut = Grow(
        {
            "the name": (lambda v, k: is_(v, "out", k) if isinstance(v, Name) else None, lambda i: Name("out", i)),
            "the type": (lambda v, k: is_(v, "type of", OUT, k) if isinstance(v, G) and v.code == tagcode("type of") else (z3.Not(KNOWN(I(OUT), k)) if v == "" else None) if isinstance(v, (G, str)) else None,
                         lambda i: Known("output type", i)),
            "the converted type": (lambda v, k: S.conj(S.zeq(v.ix[0], k), v.ix[1] == OUT) if isinstance(v, G) and v.code == tagcode("converted") else None, lambda i: G("result type", i)),
        },
        over(z3.Int("outputs"), lambda ps: named("out")(ps) and not result_of(ps)),
    )

    def run(c):
        st = {"nv": None}
        ni, no, nops, nf = z3.Ints("inputs outputs imports function_inputs")
        c.assume(z3.And(ni >= 0, no >= 0, nops >= 0))
        ops = handled()
        op = ops[c.choose(len(ops))]
        special = bool(c.choose(2)) if op != ops[0] else False
        dom = Name("domain", 0)
        nv = Values()
        eff = []
        attribute = G("attributes of the node")
        node = Msg("node", op_type=op, domain=dom, name="its name", input=S.SList(ni, lambda i: Name("in", i)), output=S.SList(no, lambda i: Name("out", i)), attribute=attribute)
        cfg = G("configuration")
        imports = S.SList(nops, lambda i: Msg("import", domain=Name("import domain", i), version=VER(S.zterm(i))))
        SAME = _f("import_has_the_domain", INT, BOOL)
        sameDom = lambda i: SAME(S.zterm(i))  # noqa: E731
        gi = Msg("graph info", model_info=Msg("model info", model_proto=Msg("model", opset_import=imports), config=cfg))
        gi.find_type_proto_for_name = lambda n: eff.append(("type", n)) or find(n)
        gi.find_type_proto_for_name._pyvc_ok = True

        def find(n):
            if not isinstance(n, Name):
                raise C.Unsupported("the type of another thing")
            return G("type of", n.code, n.ix[0]) if c.branch(KNOWN(I(n.code), S.zterm(n.ix[0]))) else ""

        imp, b = new_node_importer(gi, nv)
        fn = None
        expanded = bool(c.choose(2))
        if expanded:
            # trailing inputs of the function can be left out, and outputs
            positions = typed_outputs(no, lambda i: i)
            c.assume(nf >= ni)
            fn = Msg("function", type=Msg("type", inputs=S.SList(nf, lambda i: G("input of the function", i)), results=typed_outputs(no, lambda i: G("result type of the function", i))))
        asked = []

        def function(*a):
            asked.append(a)
            return fn

        function._pyvc_ok = True
        imp._mc = Msg("module cache", get_operator_function=function)

        class Dom(Name):
            """the node's domain, or that of an import"""

            def __eq__(self, o2):
                if isinstance(o2, Dom) and "import domain" in (self.tagname, o2.tagname) and self.tagname != o2.tagname:
                    i = (self if self.tagname == "import domain" else o2).ix[0]
                    return sameDom(i)
                return Name.__eq__(self, o2)

            _pyvc_eq = __eq__

            def __ne__(self, o2):
                r = self.__eq__(o2)
                return z3.Not(r) if C.is_sym(r) else not r

            __hash__ = Name.__hash__

        def mkdom(tag, i):
            d = Dom(tag, i)
            d.tagname = tag
            return d

        node.domain = dom = mkdom("domain", 0)
        imports.f = lambda i: Msg("import", domain=mkdom("import domain", i), version=VER(S.zterm(i)))
        regions = z3.Int("graph attributes")
        con = {
            NI.get_none: lambda it, d: GV("none"),
            f.ContextCache.type_proto_to_type: lambda it, d: conv(d["tp"]),
            NI.import_attributes: lambda it, d: {"torch.onnx.of": d["onnx_attrs"]},
            NI.count_regions: lambda it, d: regions if d["onnx_attrs"] is attribute else None,
            NI.import_regions: lambda it, d: eff.append(("regions", d["onnx_attrs"], d["op"])),
        }
        for n in handled()[1:]:
            con[getattr(NI, "_handle_node_" + n)] = (lambda n: lambda it, d: eff.append(("special", n, d["node"])) or special)(n)

        def conv(tp):
            if isinstance(tp, G) and tp.code == tagcode("type of"):
                return G("converted", tp.ix[1], tp.ix[0])
            if tp == "":
                return G("converted", outputs_cut.k, OUT)
            raise C.Unsupported("the conversion of another type")

        # a domain is imported once
        jj = z3.Ints("j1 j2")
        c.assume(z3.ForAll(jj, z3.Implies(z3.And(SAME(jj[0]), SAME(jj[1]), *[z3.And(0 <= x, x < nops) for x in jj]), jj[0] == jj[1])))

        def version(it, fr):
            v = [n for n in imports_cut.names if n not in imports_cut.first]
            if len(v) > 1:
                raise C.Unsupported("carried variables of the loop")
            return v

        def ops_enter(it, fr):
            imports_cut.first = set(fr.locals) | imports_cut.target
            imports_cut.keep |= set(version(it, fr))
            return []

        def ops_at(it, fr, k):
            j = z3.Int("j")
            sk = c.fresh_int("found")
            for v in version(it, fr):
                fr.locals.pop(v, None)
                if c.branch(z3.Exists([j], z3.And(0 <= j, j < k, SAME(j)))):
                    c.assume(z3.And(0 <= sk, sk < k, SAME(sk)))
                    fr.locals[v] = VER(sk)

        def ops_after(it, fr, k):
            j = z3.Int("j")
            g = []
            for v in version(it, fr):
                x = fr.locals.get(v)
                g.append(("the version of the domain's import so far", z3.And(z3.Exists([j], z3.And(0 <= j, j <= k, SAME(j), S.zterm(x) == VER(j)))) if x is not None else z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= k), z3.Not(SAME(j))))))
            return g

        class Imports(Cut):
            def __call__(self, it, s, seq, fr):
                import ast

                if not self.matches(seq):
                    return False
                self.names, _ = assigned(s.body)
                self.target = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                return Cut.__call__(self, it, s, seq, fr)

        imports_cut = Imports(ops_enter, ops_at, ops_after, matches=over(nops), may_break=True)

        def bind_at(it, fr, k):
            nv.log.clear()

        def bind_after(it, fr, k):
            p = S.zterm(S.at(positions, k)) if expanded else k
            e = EMPTY(I(OUT), S.zterm(p))
            op_ = b.operations[-1]
            one = len(nv.log) == 1 and S.conj(is_(nv.log[0][0], "out", p), nv.log[0][1].owner is op_ and isinstance(nv.log[0][1], R.SymResult), S.zeq(getattr(nv.log[0][1], "index", -1), k)) if nv.log else False
            return [("a result with a name gets it, one without none", z3.If(e, S.zterm(not nv.log), S.zterm(one)))]

        rounds = []

        def binding(seq):
            if C.is_sym(getattr(seq, "n", 0)) and over(seq.n, result_of)(seq):
                rounds.append(S.zterm(seq.n) == S.zterm(positions.n if expanded else no))
                return True
            return False

        bind_cut = Cut(lambda it, fr: [("no name is given before", not nv.log), ("each result is looked at", rounds[-1])], bind_at, bind_after, matches=binding)
        omitted = {}

        def rest_at(it, fr, k):
            for v, old in omitted.items():
                ended = not (z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED)
                fr.locals[v] = S.SList(S.add(old.n, k), lambda i: old.f(i) if C.cur().branch(S.zterm(i) < S.zterm(old.n)) else GV("none")) if ended else Grown(S.add(old.n, k), lambda i: (_ for _ in ()).throw(C.Unsupported("a list is read in the loop that extends it")))

        def rest_after(it, fr, k):
            g = [("one list gets none for the inputs left out", len(omitted) == 1)]
            for v in omitted:
                xs = fr.locals[v]
                g.append(("none for each", len(xs.log) == 1 and is_(xs.log[0], "none") if isinstance(xs, Grown) else False))
            return g

        class Rest(Cut):
            def __call__(self, it, s, seq, fr):
                if not self.matches(seq):
                    return False
                _, mutated = assigned(s.body)
                omitted.clear()
                omitted.update({v: fr.locals[v] for v in sorted(mutated) if isinstance(fr.locals.get(v), S.SList)})
                self.keep |= set(omitted)
                return Cut.__call__(self, it, s, seq, fr)

        rest_cut = Rest(lambda it, fr: [], rest_at, rest_after, matches=lambda seq: C.is_sym(getattr(seq, "n", 0)) and over(seq.n, lambda ps: any(isinstance(x, G) and x.code == tagcode("input of the function") for x in ps))(seq))
        it = oi(con)
        it.loop_contract = dispatch(inputs_cut.reset(), rest_cut, imports_cut, outputs_cut.reset(), bind_cut)
        try:
            it.call(imp.import_node, [node], {})
        except C.PyRaise as e:
            if isinstance(e.exc, Stop):
                return e.exc.goals
            if isinstance(e.exc, f.OnnxImportError):
                k = inputs_cut.k
                return [("only an input that nothing has produced is rejected", z3.And(z3.Not(EMPTY(I(tagcode("in")), k)), z3.Not(HAS(I(tagcode("in")), k))))]
            if isinstance(e.exc, (UnboundLocalError, NameError, C.Unsupported)):
                j = z3.Int("j")
                return [("only a domain that is not imported has no version", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nops), z3.Not(SAME(j)))))]
            return [(f"no other exception ({type(e.exc).__name__}: {str(e.exc)[:60]})", False)]
        goals = inputs_cut.goals + outputs_cut.goals + imports_cut.goals + bind_cut.goals + rest_cut.goals
        sp = [e for e in eff if e[0] == "special"]
        if special:
            return goals + [("a handled operator is left to its handler", sp == [("special", op, node)] and not b.operations and not nv.log)]
        goals.append(("its handler is asked once", sp == ([("special", op, node)] if op != ops[0] else [])))
        new = b.operations
        ok = len(new) == 1 and new[0].name == ("func.call" if expanded else "torch.operator")
        goals.append((f"one {'call' if expanded else 'operation'}", ok))
        if not ok:
            return goals
        x = new[0]
        j = z3.Int("j")

        def all_(xs, n, tag, *pre):
            if not isinstance(xs, S.SList):
                return False
            return z3.And(S.zterm(xs.n) == n, z3.Implies(z3.And(0 <= j, j < n), S.zterm(is_(S.at(xs, j), tag, j))))

        n = nf if expanded else ni
        operand = lambda v: z3.If(j < ni, S.zterm(is_(v, "operand", j)), S.zterm(is_(v, "none")))  # noqa: E731
        goals.append(("its operands are the inputs' values, none for those left out", z3.And(S.zterm(x.operands.n) == n, z3.Implies(z3.And(0 <= j, j < n), operand(S.at(x.operands, j)))) if isinstance(x.operands, S.SList) else False))
        ok = len(asked) == 1 and len(asked[0]) == 7
        goals.append(("one question for a function", ok))
        if ok:
            a = asked[0]
            goals += [
                ("for its operator and domain", a[0] == op and a[1] is dom),
                ("and the node", a[5] is node and a[6] is cfg),
                ("the input types", all_(a[3], ni, "input type")),
                ("the output types", all_(a[4], no, "output type")),
            ]
            v = S.zterm(a[2])
            k = z3.Int("k_im")
            goals.append(("at the version imported for the domain", z3.Exists([k], z3.And(0 <= k, k < nops, SAME(k), v == VER(k)))))
        if expanded:
            goals.append(("the function found is called", x.callee is fn))
        else:
            n = x.attributes.get("name")
            goals += [
                ("its result types", all_(x.result_types, no, "result type")),
                ("named after the operator", n == R.Attribute("str", "onnx." + op)),
                ("its attributes", set(x.attributes) == {"name", "torch.onnx.of"} and x.attributes["torch.onnx.of"] is attribute),
                ("a region for each graph attribute", x.regions is regions),
                ("and they are imported into it", [e for e in eff if e[0] == "regions"] == [("regions", attribute, x)]),
            ]
        return goals

    return o.prove(run, raises=stopped(), max_paths=20000, budget_s=200)


class GhostMap:
    """a mapping of symbolic size with the keys and values given"""

    _pyvc_ok = True
    _pyvc_class = dict

    def __init__(self, n, key, value):
        self.n, self.key, self.value = n, key, value

    def keys(self):
        return S.SList(self.n, self.key)

    _pyvc_iter = keys

    def values(self):
        return S.SList(self.n, self.value)

    def items(self):
        return S.SList(self.n, lambda i: (self.key(i), self.value(i)))

    def _pyvc_len(self):
        return self.n


def has_ghost(tag):
    return lambda ps: any(isinstance(p, (G, GV)) and p.code == tagcode(tag) for p in ps)


def import_all():
    f = ox()
    NI = f.NodeImporter
    o = Oblig("NodeImporter.import_all")
    outs = Grow({"the value": (lambda v, k: is_(v, "value", tagcode("output"), k) if isinstance(v, GV) else None, lambda i: GV("result", i))},
                over(z3.Int("outputs"), lambda ps: any(isinstance(p, Msg) for p in ps)))

    def run(c):
        ni, nn, no = z3.Ints("initializers nodes outputs")
        c.assume(z3.And(ni >= 0, nn >= 0, no >= 0))
        eff, order = [], []
        nv = Values()
        gi = Msg("graph info", initializer_map=GhostMap(ni, lambda i: Name("initializer", i), lambda i: G("initializer", i)),
                 graph_proto=Msg("graph", node=S.SList(nn, lambda i: G("node", i)), output=S.SList(no, lambda i: Msg("output", name=Name("output", i))),
                                 initializer=S.SList(ni, lambda i: G("initializer", i))))
        imp, b = new_node_importer(gi, nv)
        con = {
            NI.import_initializer: lambda it, d: eff.append(("init", d["initializer"], d["extern_name"])),
            NI.get_none: lambda it, d: order.append("none"),
            NI.import_node: lambda it, d: eff.append(("node", d["node"])),
        }

        def effects(n, test, tag, mark):
            def at(it, fr, k):
                eff.clear()
                if not (z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    order.append(mark)

            def after(it, fr, k):
                ok = len(eff) == 1 and eff[0][0] == mark and (mark == "node" or eff[0][2] is None)
                return [(f"each {mark} is imported once, in order", S.conj(ok, is_(eff[0][1], tag, k)) if ok else False)]

            return Cut(lambda it, fr: [(f"no {mark} is imported before", not eff)], at, after, matches=over(n, test))

        i1, i2 = effects(ni, has_ghost("initializer"), "initializer", "init"), effects(nn, has_ghost("node"), "node", "node")
        outs.before = lambda it, fr, k, exits: order.append("outputs") if exits else None
        it = oi(con)
        it.loop_contract = dispatch(i1, i2, outs.reset())
        func = bool(c.choose(2))
        try:
            it.call(imp.import_all, [] if func and c.choose(2) else [func], {})
        except C.PyRaise as e:
            if isinstance(e.exc, Stop):
                return e.exc.goals
            if isinstance(e.exc, f.OnnxImportError):
                return [("only an output that nothing has produced is rejected", z3.Not(HAS(I(tagcode("output")), outs.k)))]
            return [(f"no other exception ({type(e.exc).__name__}: {str(e.exc)[:60]})", False)]
        g = i1.goals + i2.goals + outs.goals
        g.append(("initializers before the nodes, the outputs after them", [x for x in order if x != "none"] == ["init", "node", "outputs"]))
        ok = len(b.operations) == 1 and b.operations[0].name == ("func.return" if func else "torch.operator_terminator")
        g.append(("one terminator", ok))
        if ok:
            xs, j = b.operations[0].operands, z3.Int("j")
            g.append(("of all outputs in their order", z3.And(S.zterm(xs.n) == no, z3.Implies(z3.And(0 <= j, j < no), S.zterm(is_(S.at(xs, j), "result", j)))) if isinstance(xs, S.SList) else False))
            if not func:
                g.append(("that gives nothing", not list(b.operations[0].results)))
        return g

    return o.prove(run, raises=stopped())


def get_none():
    f = ox()
    o = Oblig("NodeImporter.get_none")

    def run(c):
        imp, b = new_node_importer(Msg())
        other = R.Block([])
        it = oi({f.ContextCache.get_none_type: lambda it, d: R.Type("the type of none")})
        given = GV("made before")
        if c.choose(2):
            imp._none_value = given
            with R.InsertionPoint(other):
                r = it.call(imp.get_none, [], {})
            return [("the one made before", r is given and not b.operations and not other.operations)]
        with R.InsertionPoint(other):
            r = it.call(imp.get_none, [], {})
            r2 = it.call(imp.get_none, [], {})
        ok = len(b.operations) == 1 and not other.operations and b.operations[0].name == "torch.constant.none"
        return [("one constant, in the importer's block", ok), ("is the value, every time", ok and r is r2 is b.operations[0].results[0]), ("its type", ok and [str(t) for t in b.operations[0].result_types] == ["the type of none"])]

    return o.prove(run)


def none_type():
    f = ox()
    o = Oblig("ContextCache.get_none_type")
    return o.prove(lambda c: [("none", str(oi({}).call(new_node_importer(Msg())[0]._cc.get_none_type, [], {})) == "!torch.none")])


def define_function():
    f = ox()
    NI = f.NodeImporter
    o = Oblig("NodeImporter.define_function")

    def run(c):
        ni, no, nd = z3.Ints("inputs outputs declared")
        c.assume(z3.And(ni >= 0, no >= 0))
        R.reset()
        cx = R.Context()
        m = R.Module.create(R.Location.unknown(cx)).operation
        body = m.regions[0].blocks[0]
        inp = lambda i: Msg("input", name=Name("in", i), type=G("type of input", i))  # noqa: E731
        gi = Msg("graph info", input_map=GhostMap(ni, lambda i: Name("in", i), inp), declared_input_map=GhostMap(nd, lambda i: Name("declared", i), lambda i: Msg("declared", name=Name("declared", i), type=G("?"))),
                 graph_proto=Msg("graph", name="its name", output=S.SList(no, lambda i: Msg("output", name=Name("out", i), type=G("type of output", i)))))
        made, attrs = [], []
        caches = bool(c.choose(2))
        cc, mc = G("context cache"), G("module cache")
        cc.type_proto_to_type = lambda tp: conv(tp)
        cc.type_proto_to_type._pyvc_ok = True

        def conv(tp):
            if not (isinstance(tp, G) and tp.code in (tagcode("type of input"), tagcode("type of output"))):
                raise C.Unsupported("the conversion of another type")
            return GV("converted " + ("in" if tp.code == tagcode("type of input") else "out"), tp.ix[0])

        con = {
            f.ContextCache.type_proto_to_type: lambda it, d: conv(d["tp"]),
            NI._populate_graph_attrs: lambda it, d: attrs.append((d["self"], d["container_op"])),
        }
        nv = {}

        def before(it, fr):
            return []

        def at(it, fr, k):
            imps = [v for v in fr.locals.values() if isinstance(v, NI)]
            if len(imps) != 1:
                raise C.Unsupported("the importer made")
            nv["map"] = imps[0]._nv_map = Values()

        def after(it, fr, k):
            log = nv["map"].log
            blk = body.operations[-1].body.blocks[0]
            return [("each argument gets its input's name", S.conj(is_(log[0][0], "in", k), log[0][1].owner is blk, S.zeq(log[0][1].index, k)) if len(log) == 1 and isinstance(log[0][1], R.SymResult) else False)]

        cut = Cut(before, at, after, matches=over(ni, lambda ps: named("in")(ps) and result_of(ps)))
        it = oi(con)
        it.loop_contract = dispatch(cut)
        kw = {}
        private = c.choose(3)
        if private:
            kw["private"] = private == 2
        if caches:
            kw.update(context_cache=cc, module_cache=mc)
        r = it.call(NI.define_function, [gi, m], kw)
        ok = len(body.operations) == 1 and isinstance(body.operations[0], R.FuncOp)
        g = cut.goals + [("one function", ok)]
        if not ok:
            return g
        fo = body.operations[0]
        j = z3.Int("j")

        def all_(xs, n, tag):
            return z3.And(S.zterm(xs.n) == n, z3.Implies(z3.And(0 <= j, j < n), S.zterm(is_(S.at(xs, j), tag, j)))) if isinstance(xs, S.SList) else False

        g += [
            ("named after the graph", fo.name_ == "its name"),
            ("private exactly when asked for", fo.visibility == ("private" if private == 2 else None)),
            ("a parameter of each input's type", all_(fo.type.inputs, ni, "converted in")),
            ("a result of each output's type", all_(fo.type.results, no, "converted out")),
            ("one block, with these arguments", len(fo.body.blocks) == 1 and fo.body.blocks[0].arg_types is fo.type.inputs),
            ("its attributes are those of the model", attrs == [(r, fo)]),
            ("an importer into it, of this graph", isinstance(r, NI) and r._b is fo.body.blocks[0] and r._p is fo and r._m is m and r._gi is gi),
            ("with the caches given", not caches or (r._cc is cc and r._mc is mc)),
            ("with caches of this module", caches or (isinstance(r._cc, f.ContextCache) and r._cc._c is cx and isinstance(r._mc, f.ModuleCache) and r._mc._m is m and r._mc._cc is r._cc)),
            ("no none yet", r._none_value is None),
        ]
        return g

    return o.prove(run, raises=stopped())


def graph_attrs():
    """_populate_graph_attrs for any number of imports, each domain imported once"""
    f = ox()
    o = Oblig("NodeImporter._populate_graph_attrs")

    class Versions:
        _pyvc_ok = True
        _pyvc_class = dict

        def __init__(self, n):
            self.n, self.log = n, []

        def __setitem__(self, k, v):
            self.log.append((k, v))

        def __bool__(self):
            return C.cur().branch(self.n > 0)

    Versions.__setitem__._pyvc_ok = Versions.__bool__._pyvc_ok = True

    def run(c):
        n = z3.Int("imports")
        c.assume(n >= 0)
        E_ = lambda i: EMPTY(I(tagcode("import domain")), S.zterm(i))  # noqa: E731
        a, b = z3.Ints("a b")
        c.assume(z3.ForAll([a, b], z3.Implies(z3.And(E_(a), E_(b)), a == b)))
        c.assume(z3.ForAll([a], VER(a) > 0))
        imports = S.SList(n, lambda i: Msg("import", domain=Name("import domain", i), version=VER(S.zterm(i))))
        mp = Msg("model", opset_import=imports, ir_version=z3.Int("ir_version"), producer_name=G("producer"), producer_version=G("producer version"))
        imp, _ = new_node_importer(Msg("graph info", model_info=Msg("model info", model_proto=mp)))
        op = R.Operation("func", [], [], {}, 0, R.Location.unknown(imp._c))
        st = {}

        def carried(fr, cut):
            d = [v for v in cut.mutated if isinstance(fr.locals.get(v), (dict, Versions))]
            s = [v for v in cut.names - cut.target if v in fr.locals and (S.is_int_like(fr.locals[v]))]
            if len(d) != 1 or len(s) != 1:
                raise C.Unsupported("carried variables of the loop")
            return d[0], s[0]

        def enter(it, fr):
            d, s = st["v"] = carried(fr, cut)
            cut.keep |= {d, s}
            return [("no version yet", fr.locals[d] == {} and fr.locals[s] == 0)]

        def at(it, fr, k):
            d, s = st["v"]
            others = c.fresh_int("others")
            c.assume(z3.And(0 <= others, others <= k))
            j, sk = z3.Int("j"), c.fresh_int("default")
            named_ = z3.Exists([j], z3.And(0 <= j, j < k, z3.Not(E_(j))))
            c.assume((others > 0) == named_)
            st["d"] = fr.locals[d] = Versions(others)
            if c.branch(z3.Exists([j], z3.And(0 <= j, j < k, E_(j)))):
                c.assume(z3.And(0 <= sk, sk < k, E_(sk)))
                fr.locals[s] = VER(sk)
            else:
                fr.locals[s] = 0
            st["s"] = fr.locals[s]

        def after(it, fr, k):
            d, s = st["v"]
            log, s1, s0 = fr.locals[d].log, fr.locals[s], st["s"]
            one = S.conj(is_(log[0][0], "import domain", k), log[0][1].kind == "int", str(log[0][1].payload[0]) == "si64", S.zeq(log[0][1].payload[1], VER(k))) if len(log) == 1 else False
            return [
                ("a named domain's version is entered under its name", z3.If(E_(k), S.zterm(not log), S.zterm(one))),
                ("the default one's is kept", z3.If(E_(k), S.zterm(S.zeq(s1, VER(k))), S.zterm(S.zeq(s1, s0)))),
            ]

        class Carry(Cut):
            def __call__(self, it, s, seq, fr):
                import ast

                self.names, self.mutated = assigned(s.body)
                self.target = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                return Cut.__call__(self, it, s, seq, fr)

        cut = Carry(enter, at, after, matches=over(n))
        it = oi({})
        it.loop_contract = dispatch(cut)
        it.call(imp._populate_graph_attrs, [op], {})
        at_ = op.attributes
        P = "torch.onnx_meta."
        g = list(cut.goals)
        j = z3.Int("j")
        default = z3.Exists([j], z3.And(0 <= j, j < n, E_(j)))
        rest = z3.Exists([j], z3.And(0 <= j, j < n, z3.Not(E_(j))))
        v = at_.pop(P + "opset_version", None)
        g.append(("the default opset's version, if it is imported", z3.And(default, str(v.payload[0]) == "si64", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, E_(j)), S.zterm(v.payload[1]) == VER(j)))) if v is not None else z3.Not(default)))
        v = at_.pop(P + "opset_versions", None)
        g.append(("the versions of the other domains, if any", S.conj(rest, v.payload[0] is st["d"]) if v is not None else z3.Not(rest)))
        v = at_.pop(P + "ir_version", None)
        g.append(("the IR version", v is not None and v.kind == "int" and str(v.payload[0]) == "si64" and v.payload[1] is mp.ir_version))
        for k, w in (("producer_name", mp.producer_name), ("producer_version", mp.producer_version)):
            v = at_.pop(P + k, None)
            g.append((k, v is not None and v.kind == "str" and v.payload[0] is w))
        g.append(("no other attribute", not at_))
        return g

    return o.prove(run, raises=stopped())


def import_regions():
    """a region per graph attribute, in the order of the attributes' names"""
    import onnx
    import itertools

    f = ox()
    NI = f.NodeImporter
    GRAPH, INT_ = onnx.AttributeProto.GRAPH, onnx.AttributeProto.INT
    o = Oblig("NodeImporter.import_regions, count_regions", bounded=None)
    # operators of ONNX have up to two graph attributes; checked below
    layouts = []
    for names in (["else_branch", "then_branch"], ["body"], []):
        for extra in range(3):
            for p in sorted(set(itertools.permutations(names + ["axis", "bounds"][:extra]))):
                layouts.append(list(p))

    def run(c):
        lay = layouts[c.choose(len(layouts))]
        graphs = [n for n in lay if n in ("else_branch", "then_branch", "body")]
        nv = Values(names=S.SList(z3.Int("outer names"), lambda i: Name("outer", i)))
        c.assume(nv.names.n >= 0)
        gi = Msg("graph info", model_info=G("model info"))
        imp, b = new_node_importer(gi, nv)
        attrs = []
        for i, n in enumerate(lay):
            m = z3.Int("inputs of " + n)
            c.assume(m >= 0)
            mk = lambda n: lambda k: Msg("input", name=Name("in of " + n, k), type=G("type in " + n, k))  # noqa: E731
            attrs.append(Msg("attribute", name=n, type=GRAPH if n in graphs else INT_, g=Msg("graph " + n, input=S.SList(m, mk(n)))))
        by = {a.name: a for a in attrs}
        op = R.Operation("torch.operator", [], [], {}, len(graphs), R.Location("of the operator"))
        done, infos = [], []

        def info(it, a, k):
            d = args_of(f.GraphInfo.__init__, (None, *a), k)
            infos.append((d["model_info"], d["graph_proto"], d["is_subgraph"]))
            return Msg("info", model_info=d["model_info"], graph_proto=d["graph_proto"])

        con = {
            f.ContextCache.type_proto_to_type: lambda it, d: GV("converted", d["tp"].code, d["tp"].ix[0]),
            NI.import_all: lambda it, d: done.append((d["self"], d["func"])),
        }
        st = {}

        def inner(fr):
            imps = [v for v in fr.locals.values() if isinstance(v, NI) and v is not imp]
            if len(imps) != 1:
                raise C.Unsupported("the importer of the region")
            return imps[0]

        def at(it, fr, k):
            new = inner(fr)
            new._nv_map = Values()
            st.setdefault("maps", []).append(new._nv_map)

        exits = lambda k: not (z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED)  # noqa: E731

        def at_in(it, fr, k):
            at(it, fr, k)
            if exits(k):
                st.setdefault("bound", []).append(("in", inner(fr)))

        def after_in(it, fr, k):
            new = inner(fr)
            log = new._nv_map.log
            n = next((n for n in graphs if new._gi.graph_proto is by[n].g), None)
            return [("an argument of the region gets its input's name", S.conj(is_(log[0][0], "in of " + n, k), log[0][1].owner is new._b, S.zeq(log[0][1].index, k)) if n and len(log) == 1 and isinstance(log[0][1], R.SymResult) else False)]

        def at_out(it, fr, k):
            at(it, fr, k)
            if exits(k):
                st.setdefault("bound", []).append(("outer", inner(fr)))

        def after_out(it, fr, k):
            log = inner(fr)._nv_map.log
            return [("a name of the enclosing graph keeps its value", S.conj(is_(log[0][0], "outer", k), is_(log[0][1], "value", tagcode("outer"), k)) if len(log) == 1 and isinstance(log[0][1], GV) else False)]

        ins = [Cut(lambda it, fr: [], at_in, after_in, matches=over(z3.Int("inputs of " + n), result_of)) for n in graphs]
        cut2 = Cut(lambda it, fr: [], at_out, after_out, matches=over(nv.names.n, named("outer")))
        it = oi(con)
        it.contracts[id(f.GraphInfo)] = info
        it.loop_contract = dispatch(*ins, cut2)
        # every outer value is defined
        kk = z3.Int("kk")
        c.assume(z3.ForAll([kk], HAS(I(tagcode("outer")), kk)))
        with R.InsertionPoint(b):
            g = [("as many regions as graph attributes", it.call(imp.count_regions, [attrs], {}) == len(graphs))]
            it.call(imp.import_regions, [attrs, op], {})
        ok = [len(r.blocks) for r in op.regions] == [1] * len(graphs) and len(done) == len(graphs)
        g.append(("one block in each, filled once", ok))
        if not ok:
            return g
        j = z3.Int("j")
        for n, r, (new, func) in zip(sorted(graphs), op.regions, done):
            a = by[n].g
            blk = r.blocks[0]
            t = blk.arg_types
            g += [
                (f"region of {n}: its block", new._b is blk and new is not imp),
                (f"region of {n}: its graph, within this model", new._gi.graph_proto is a and [x for x in infos if x[1] is a] == [(gi.model_info, a, True)]),
                (f"region of {n}: ends as a region", func is False),
                (f"region of {n}: the caches and module of this importer", new._cc is imp._cc and new._mc is imp._mc and new._m is imp._m and new._p is op),
                (f"region of {n}: a none of its own", new._none_value is None),
                (f"region of {n}: arguments of its inputs' types", z3.And(S.zterm(t.n) == a.input.n, z3.Implies(z3.And(0 <= j, j < a.input.n), S.zterm(is_(S.at(t, j), "converted", tagcode("type in " + n), j)))) if isinstance(t, S.SList) else False),
                (f"region of {n}: names of its inputs and of the enclosing graph", {x for x, i in st.get("bound", []) if i is new} == {"in", "outer"}),
            ]
        return g + [x for q in ins + [cut2] for x in q.goals]

    o.prove(run, raises=stopped(), max_paths=20000, budget_s=200)

    def most(c):
        n = max(sum(a.type == onnx.defs.OpSchema.AttrType.GRAPH for a in s.attributes.values()) for s in onnx.defs.get_all_schemas_with_history())
        return [("operators have up to two graph attributes", n <= 2)]

    return o.prove(most)


def import_initializer():
    f = ox()
    o = Oblig("NodeImporter.import_initializer")

    def run(c):
        nv = Values()
        imp, b = new_node_importer(Msg(), nv)
        t = Msg("tensor", name=Name("tensor", 0))
        ext = [None, Name("given", 0)][c.choose(2)]
        if ext is not None:
            c.assume(z3.Not(ext.empty()))
        val = R.Attribute("value")
        it = oi({f.ContextCache.tensor_proto_to_attr: lambda it, d: val if d["tp"] is t else None, f.ContextCache.tensor_proto_to_type: lambda it, d: GV("type") if d["tp"] is t else None})
        with R.InsertionPoint(R.Block([])):
            r = it.call(imp.import_initializer, [t] if ext is None and c.choose(2) else [t, ext], {})
        ok = len(b.operations) == 1 and b.operations[0].name == "torch.operator"
        g = [("one constant", ok)]
        if not ok:
            return g
        x = b.operations[0]
        return g + [
            ("an onnx.Constant of the tensor", x.attributes == {"name": R.Attribute("str", "onnx.Constant"), "torch.onnx.value": val} and not list(x.operands)),
            ("of its type", S.conj(len(x.result_types) == 1, is_(x.result_types[0], "type"))),
            ("is the value", r is x.results[0]),
            ("of the name", len(nv.log) == 1 and nv.log[0][1] is r and S.conj(is_(nv.log[0][0], "tensor" if ext is None else "given", 0))),
        ]

    return o.prove(run)


def constants():
    """_handle_node_Constant and _get_attr"""
    import onnx

    f = ox()
    o = Oblig("NodeImporter._handle_node_Constant, _get_attr")
    NAMED = _f("attribute_has_the_name", INT, BOOL)

    class AttrName(Name):
        def __init__(self, i):
            Name.__init__(self, "attribute name", i)

        def __eq__(self, o2):
            return NAMED(S.zterm(self.ix[0])) if isinstance(o2, str) and o2 == "wanted" else Name.__eq__(self, o2)

        _pyvc_eq = __eq__

        def __ne__(self, o2):
            return z3.Not(self.__eq__(o2))

        __hash__ = Name.__hash__

    def get(c):
        n = z3.Int("attributes")
        c.assume(n >= 0)
        node = Msg("node", attribute=S.SList(n, lambda i: Msg("attribute", name=AttrName(i), at=i)))
        req = c.choose(3)

        def at(it, fr, k):
            j = z3.Int("j")
            c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(NAMED(j)))))

        cut = Cut(lambda it, fr: [], at, lambda it, fr, k: [("an attribute of another name is passed over", z3.Not(NAMED(k)))], matches=over(n))
        it = oi({})
        it.loop_contract = dispatch(cut)
        j = z3.Int("j")
        has = z3.Exists([j], z3.And(0 <= j, j < n, NAMED(j)))
        try:
            r = it.call(f._get_attr, [node, "wanted"] + ([] if req == 0 else [req == 1]), {})
        except C.PyRaise as e:
            if isinstance(e.exc, Stop):
                return e.exc.goals
            return [("only an attribute that is required and missing is an error", S.conj(req != 2, isinstance(e.exc, f.OnnxImportError), z3.Not(has)))]
        if r is None:
            return [("none without it", S.conj(req == 2, z3.Not(has)))]
        return [("the attribute of the name", S.conj(isinstance(r, Msg), NAMED(r.at), 0 <= r.at, r.at < n))]

    o.prove(get)

    def run(c):
        imp, b = new_node_importer(Msg("info", initializer_map={}), Values())
        kinds = [None, "tensor", "other"]
        kind = kinds[c.choose(3)]
        out = Name("out", 0)
        t = G("the tensor")
        attr = None if kind is None else Msg("attribute", type=onnx.AttributeProto.TENSOR if kind == "tensor" else onnx.AttributeProto.INT, t=t, name="value")
        node = Msg("node", output=[out])
        eff, asked = [], []
        it = oi({f._get_attr: lambda it, d: asked.append(d) or attr, f.NodeImporter.import_initializer: lambda it, d: eff.append((d["initializer"], d["extern_name"]))})
        try:
            r = it.call(imp._handle_node_Constant, [node], {})
        except C.PyRaise as e:
            return [("only a value of another kind is rejected", kind == "other" and isinstance(e.exc, AssertionError))]
        g = [("the value attribute is looked for, and may be missing", [(d["node"] is node, d["attr_name"], d["is_required"]) for d in asked] == [(True, "value", False)])]
        if kind is None:
            return g + [("a constant given otherwise is an operation as any", r is False and not eff and not imp._gi.initializer_map)]
        m = imp._gi.initializer_map
        return g + [
            ("a tensor constant is that constant under the output's name", kind == "tensor" and r is True and len(eff) == 1 and eff[0][0] is t and eff[0][1] is out),
            ("and its type is known", len(m) == 1 and next(iter(m)) is out and next(iter(m.values())) is t),
        ]

    return o.prove(run)


def graph_info():
    """GraphInfo.__init__ for graphs of any size"""
    f = ox()
    o = Oblig("GraphInfo.__init__")
    INIT = _f("input_has_an_initializer", INT, BOOL)
    TAGS = {"initializer": "initializer", "value_info": "value", "input": "input", "output": "output"}

    class Comp:
        """{key(x): value(x) for x in seq if cond(x)}"""

        _pyvc_ok = True
        _pyvc_class = dict

        def __init__(self, n, at):
            self.n, self.at_ = n, at

        def _pyvc_contains(self, k):
            key, _, _ = self.at_(z3.Int("probe"))
            if isinstance(k, Name) and k.code == tagcode("input") and isinstance(key, Name) and key.code == tagcode("initializer"):
                return INIT(S.zterm(k.ix[0]))
            raise C.Unsupported("membership of another name")

        def items(self):
            return S.SList(self.n, lambda i: self.at_(i)[:2])

        def values(self):
            return S.SList(self.n, lambda i: self.at_(i)[1])

        def keys(self):
            return Keys(self)

        def _pyvc_iter(self):
            return S.SList(self.n, lambda i: self.at_(i)[0])

    class Keys:
        """names, for the assertion on models that do not elide initialized inputs"""

        _pyvc_ok = _pyvc_ops = True

        def __init__(self, of):
            self.of = of

        def _pyvc_iter(self):
            return self.of._pyvc_iter()

        def _pyvc_contains(self, k):
            return self.of._pyvc_contains(k)

        def isdisjoint(self, o2):
            a, _, _ = self.of.at_(z3.Int("probe"))
            b, _, _ = o2.of.at_(z3.Int("probe"))
            if {a.code, b.code} != {tagcode("input"), tagcode("initializer")}:
                raise C.Unsupported("other names")
            n = (self.of if a.code == tagcode("input") else o2.of).n
            j = z3.Int("j")
            return z3.Not(z3.Exists([j], z3.And(0 <= j, j < n, INIT(j))))

        def __sub__(self, o2):
            return self

        def __repr__(self):
            return "names"

    for k_ in (Comp, Keys):
        for fn_ in vars(k_).values():
            if inspect.isfunction(fn_):
                fn_._pyvc_ok = True

    def run(c):
        n = {k: z3.Int(k) for k in TAGS}
        for x in n.values():
            c.assume(x >= 0)
        mk = lambda k: S.SList(n[k], lambda i: Msg(k, name=Name(TAGS[k], i), of=k, at=i))  # noqa: E731
        gp = Msg("graph", name="g", **{k: mk(k) for k in TAGS})
        sub, elide, none = bool(c.choose(2)), bool(c.choose(2)), bool(c.choose(2))
        mi = None if none else Msg("model info", config=Msg("config", elide_initialized_inputs=elide))
        made = []

        def comp(it, e, seq, fr):
            g = e.generators[0]

            def at_(i):
                from pyvc.interp import Frame

                fr2 = Frame(fr.globals, fr)
                it.assign(g.target, seq.f(i), fr2)
                cond = S.conj(*[it.as_bool(it.expr(x, fr2)) for x in g.ifs]) if g.ifs else True
                return it.expr(e.key, fr2), it.expr(e.value, fr2), cond

            r = Comp(seq.n, at_)
            made.append(r)
            return r

        it = oi({})
        it.dict_comp = comp
        gi = f.GraphInfo.__new__(f.GraphInfo)
        j = z3.Int("j")
        some = z3.Exists([j], z3.And(0 <= j, j < n["input"], INIT(j)))
        drops = not sub and not none and elide
        try:
            it.call(f.GraphInfo.__init__, [gi, mi, gp] + ([] if not sub and c.choose(2) else [sub]), {})
        except C.PyRaise as e:
            return [("only an input that has a value where none may have is rejected", S.conj(isinstance(e.exc, AssertionError), not drops, some))]
        g = [("its graph and model", gi.graph_proto is gp and gi.model_info is mi)]
        if not drops:
            g.append(("an input that has a value where none may have is rejected", z3.Not(some)))
        i = z3.Int("i")
        for field, k in (("initializer_map", "initializer"), ("value_info_map", "value_info"), ("declared_input_map", "input"), ("output_map", "output"), ("input_map", "input")):
            m = getattr(gi, field)
            if not isinstance(m, Comp):
                raise C.Unsupported(f"{field} is made in another way")
            key, val, cond = m.at_(i)
            keep = z3.Not(INIT(i)) if field == "input_map" and drops else z3.BoolVal(True)
            g += [
                (f"{field}: of all", S.zterm(S.zeq(m.n, n[k]))),
                (f"{field}: by name", S.conj(is_(key, TAGS[k], i), isinstance(val, Msg) and val.of == k and S.zeq(val.at, i))),
                (f"{field}: {'without those that have a value' if field == 'input_map' and drops else 'each'}", z3.Implies(z3.And(0 <= i, i < n[k]), S.zterm(cond) == keep)),
            ]
        return g

    return o.prove(run)


def find_type():
    import onnx

    f = ox()
    o = Oblig("GraphInfo.find_type_proto_for_name")
    maps = ["value_info_map", "output_map", "declared_input_map", "initializer_map", "input_map"]

    class Get:
        _pyvc_ok = True

        def __init__(self, name, has):
            self.name, self.has_ = name, has

        def get(self, k, d=None):
            has = k in self
            return Msg("of " + self.name, type=GV("type", tagcode(self.name)), data_type=G("data type"), dims=G("dims")) if has else d

        def __contains__(self, k):
            if not (isinstance(k, Name) and k.code == tagcode("n")):
                raise C.Unsupported("another name is looked up")
            return self.has_

        def __getitem__(self, k):
            if not self.has_:
                raise C.PyRaise(KeyError(k))
            return self.get(k)

    for fn_ in (Get.get, Get.__contains__, Get.__getitem__):
        fn_._pyvc_ok = True

    def run(c):
        gi = f.GraphInfo.__new__(f.GraphInfo)
        has = {m: bool(c.choose(2)) for m in maps[:4]}
        # an input is declared whether or not its initializer is elided
        has["input_map"] = has["declared_input_map"] and not has["initializer_map"]
        for m in maps:
            setattr(gi, m, Get(m, has[m]))
        made = []
        it = oi({})
        it.contracts[id(onnx.helper.make_tensor_type_proto)] = lambda it_, a, k: made.append((a, k)) or GV("tensor type")
        r = it.call(gi.find_type_proto_for_name, [Name("n", 0)], {})
        typed = [m for m in maps[:3] if has[m]]
        if typed:
            return [("the type declared for the name", isinstance(r, GV) and r.code == tagcode("type") and any(r.ix[0] == tagcode(m) for m in typed))]
        if has["initializer_map"]:
            ok = len(made) == 1 and not made[0][1] and len(made[0][0]) == 2
            return [("the type of the initializer", S.conj(is_(r, "tensor type"), ok and is_(made[0][0][0], "data type"), ok and is_(made[0][0][1], "dims")))]
        return [("no type", r == "")]

    return o.prove(run)
