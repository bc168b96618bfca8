"""Text built from symbolic numbers and sequences of symbolic length.

A Text is a list of pieces: str | Dec(term) | Join(sep, n, f) with f(i) a piece list.
Two texts are compared by `same`, which ignores white space."""
from . import sval as S
from .ctx import Unsupported, cur, z3


class Dec:
    """the decimal digits of a number"""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"{{{self.t}}}"


class Join:
    def __init__(self, sep, n, f):
        self.sep, self.n, self.f = sep, n, f

    def __repr__(self):
        return f"join({self.sep!r}, {self.n})"


class Case:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"({self.c} ? {self.a} : {self.b})"


class Text:
    _pyvc_ok = _pyvc_ops = True
    _pyvc_class = str

    def __init__(self, pieces):
        self.p = list(pieces)

    def __add__(self, o):
        return Text(self.p + of(o).p) if isinstance(o, (str, Text)) else NotImplemented

    def __radd__(self, o):
        return Text(of(o).p + self.p) if isinstance(o, (str, Text)) else NotImplemented

    def _pyvc_terms(self):
        out = []

        def walk(p):
            for x in p:
                if isinstance(x, Dec):
                    out.append(S.zterm(x.t))
                elif isinstance(x, Case):
                    out.append(x.c)
                    walk(x.a)
                    walk(x.b)
                elif isinstance(x, Join):
                    raise Unsupported("a sequence within a sequence of texts")

        walk(self.p)
        return out

    def _pyvc_rebuild(self, ts):
        ts = list(ts)

        def walk(p):
            r = []
            for x in p:
                if isinstance(x, Dec):
                    x = Dec(ts.pop(0))
                elif isinstance(x, Case):
                    c = ts.pop(0)
                    a = walk(x.a)
                    x = Case(c, a, walk(x.b))
                r.append(x)
            return r

        return Text(walk(self.p))

    @property
    def _pyvc_tag(self):  # never merged piece by piece
        return self

    @staticmethod
    def _pyvc_ite(c, a, b):
        a, b = of(a), of(b)
        if a is None or b is None:
            raise Unsupported("text or something else")
        return Text([Case(c, a.p, b.p)])

    def _no(self, *a):
        raise Unsupported("text of unknown content")

    __eq__ = __ne__ = __bool__ = __hash__ = __len__ = __iter__ = __getitem__ = __contains__ = _no

    def __repr__(self):
        return f"Text{self.p}"

    __str__ = __repr__


def of(x):
    """the text of a value, as str() gives it"""
    if isinstance(x, Text):
        return x
    if isinstance(x, str):
        return Text([x])
    t = getattr(x, "_pyvc_text", None)
    if t is not None:
        return of(t())
    if isinstance(x, z3.ArithRef) and x.is_int():
        return Text([Dec(x)])
    if isinstance(x, bool) or x is None:
        return Text([str(x)])
    if isinstance(x, int):
        return Text([str(x)])
    if isinstance(x, (list, S.SList)):
        if getattr(x, "_pyvc_class", list) is not list:
            raise Unsupported("text of a tuple")
        return Text(["[", *join(", ", x).p, "]"])
    return None


def join(sep, xs):
    if isinstance(xs, (list, tuple)):
        out = []
        for i, x in enumerate(xs):
            out += ([sep] if i else []) + of(x).p
        return Text(out)
    return Text([Join(sep, xs.n, lambda i: of(xs.f(i)).p)])


def pieces(p, expand=False):
    """normal form: no white space, neighbours merged, joins of known length expanded"""
    out = []

    def put(x):
        if isinstance(x, str):
            x = x.replace(" ", "").replace("\n", "").replace("\t", "")
            if out and isinstance(out[-1], str):
                out[-1] += x
                return
            if not x:
                return
        out.append(x)

    for x in p:
        if isinstance(x, Case):
            for y in pieces(x.a if (x.c if isinstance(x.c, bool) else cur().branch(x.c)) else x.b, expand):
                put(y)
            continue
        if isinstance(x, Dec):
            u = x.t if not S.is_sym(x.t) else S.unique_value(cur(), x.t)
            x = str(u) if u is not None else Dec(z3.simplify(x.t))
        if isinstance(x, Join):
            c = cur()
            n = x.n if not S.is_sym(x.n) else S.unique_value(c, x.n)
            if n is None and expand:
                for k in range(4):
                    if c.branch(S.zterm(x.n) <= k):
                        n = k
                        break
                else:
                    from .ctx import PathInfeasible

                    raise PathInfeasible()
            if n is not None:
                n = max(int(str(n)), 0)
                for k in range(n):
                    for y in ([x.sep] if k else []) + pieces(x.f(k), expand):
                        put(y)
                continue
        put(x)
    return [x for x in out if x != ""]


def same(a, b, j=None):
    """goals that the texts are the same. Forks paths; call inside a run."""
    a, b = of(a), of(b)
    pa, pb = pieces(a.p), pieces(b.p)
    shape = lambda p: [x if isinstance(x, str) else (type(x).__name__, x.sep.replace(" ", "") if isinstance(x, Join) else "") for x in p]  # noqa: E731
    g = []
    c = cur()
    if shape(pa) == shape(pb):
        for x, y in zip(pa, pb):
            if isinstance(x, Dec):
                g.append(("number", S.zeq(x.t, y.t)))
            elif isinstance(x, Join):
                nx, ny = S.zterm(x.n), S.zterm(y.n)
                z = z3.IntVal(0)
                g.append(("number of elements", z3.If(nx > 0, nx, z) == z3.If(ny > 0, ny, z)))
                j = c.fresh_int("j")
                if c.branch(z3.And(0 <= j, j < nx, j < ny)):
                    g += [("element: " + n, t) for n, t in same(Text(x.f(j)), Text(y.f(j)))]
        return g or [("text", True)]
    qa, qb = pieces(a.p, True), pieces(b.p, True)
    if shape(qa) != shape(qb):
        return [(f"text {qa} where {qb} is due"[:200], False)]
    for x, y in zip(qa, qb):
        if isinstance(x, Dec):
            g.append(("number", S.zeq(x.t, y.t)))
        elif not isinstance(x, str):
            raise Unsupported("texts built in another way")
    bad = [t for n, t in g if not c.entails(t)]
    if bad:
        return g
    raise Unsupported("texts built in another way: equal up to three elements")
