"""C++ function bodies as Python functions, mechanically, for pyvc to interpret.

The compiler's C++ needs MLIR's headers, which are not installed, so no C++ front end can
type it. The functions under contract here are plain: conditions, arithmetic, pattern
matches, calls. This reads the text of a file (comments and preprocessor lines dropped),
finds its function definitions and writes each one as a Python function with the same
control flow; everything it calls that the file does not define is the runtime's
(`checks/mlir_rt.py`): the assumed contracts of MLIR's interfaces. Integer operations keep
C++'s meaning (`c_div`, `c_mod` truncate; conversions of declared arithmetic types are explicit).
What it cannot read raises `Unreadable` for that function alone.
"""
import re

NAMESPACES = {"mlir", "torch", "Torch", "torch_upstream", "llvm", "std", "TorchConversion", "detail"}
INTS = {"int64_t", "int", "unsigned", "long", "size_t", "int32_t", "uint64_t", "uint32_t", "int8_t", "uint8_t", "unsigned long", "short"}
FLOATS = {"double", "float"}
OUTREF = INTS | FLOATS | {"bool", "Value", "Type", "Attribute"}
KEYWORDS = {"and", "or", "not", "is", "in", "def", "lambda", "from", "import", "pass", "None", "True", "False", "del", "global", "with", "as", "raise", "yield", "assert", "except", "finally", "nonlocal", "elif", "self"}
# methods of the value classes (vectors, strings, optionals, APInt, APFloat): functions of the runtime
VALUE_METHODS = {
    "push_back", "emplace_back", "size", "empty", "back", "front", "begin", "end", "append", "insert", "pop_back", "value", "has_value", "value_or", "reserve", "resize", "clear",
    "getSExtValue", "getZExtValue", "getLimitedValue", "isNegative", "isZero", "isOne", "convertToDouble", "getBitWidth", "str",
}
TOKEN = re.compile(
    r'\s+|//[^\n]*|/\*.*?\*/|(?P<str>"(?:[^"\\]|\\.)*")|(?P<chr>\'(?:[^\'\\]|\\.)*\')|(?P<num>0[xX][0-9a-fA-F]+[uUlL]*|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[uUlLfF]*)|(?P<id>[A-Za-z_]\w*)'
    r'|(?P<op>\.\.\.|->|::|\+\+|--|<<=|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|[{}()\[\];,.<>?:=+\-*/%&|^!~#])',
    re.S,
)


class Unreadable(Exception):
    pass


class Tok(str):
    __slots__ = ("kind", "at")


def tokenize(text):
    text = re.sub(r"^[ \t]*#(?:[^\n\\]|\\.|\\\n)*", "", text, flags=re.M)
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if m is None:
            raise Unreadable(f"character {text[i]!r}")
        i = m.end()
        if m.lastgroup:
            t = Tok(m.group())
            t.kind, t.at = m.lastgroup, m.start()
            if t.kind == "str" and out and out[-1].kind == "str":
                j = Tok(out[-1][:-1] + t[1:])
                j.kind, j.at = "str", out[-1].at
                out[-1] = j
            else:
                out.append(t)
    return out


PAIR = {"(": ")", "[": "]", "{": "}"}


def close(ts, i):
    """index of the bracket that closes the one at i"""
    stack = [PAIR[ts[i]]]
    while stack:
        i += 1
        if i >= len(ts):
            raise Unreadable("unbalanced")
        if ts[i].kind == "op":
            if ts[i] in PAIR:
                stack.append(PAIR[ts[i]])
            elif ts[i] == stack[-1]:
                stack.pop()
            elif ts[i] in ")]}":
                raise Unreadable("unbalanced")
    return i


def angle(ts, i, end=None):
    """index after the `>` closing the `<` at i, or None if it is not a list of template arguments"""
    end = len(ts) if end is None else end
    d = 0
    while i < end:
        t = ts[i]
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
            if d == 0:
                return i + 1
        elif t == "(" and d and i + 1 < end:  # std::function<bool(int, int)>
            j = close(ts, i)
            if any(x.kind not in ("id",) and x not in ("::", ",", "*", "&", "<", ">") for x in ts[i + 1 : j]):
                return None
            i = j
        elif t.kind not in ("id", "num") and t not in ("::", ",", "*", "&", "...", "&&"):
            return None
        elif t == "&&" and (i + 1 >= end or ts[i + 1] not in (">", ",")):
            return None
        i += 1
    return None


def split(ts):
    """at the commas outside brackets"""
    out, cur, i = [], [], 0
    while i < len(ts):
        t = ts[i]
        if t.kind == "op" and t in PAIR:
            j = close(ts, i)
            cur += ts[i : j + 1]
            i = j + 1
            continue
        if t == "<":
            j = angle(ts, i)
            if j:
                cur += ts[i:j]
                i = j
                continue
        if t == ",":
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


def strip_ns(parts):
    parts = [p for p in parts]
    while len(parts) > 1 and parts[0] in NAMESPACES:
        parts = parts[1:]
    return parts


class Param:
    def __init__(self, ts):
        if "=" in ts:
            k = ts.index("=")
            self.default, ts = ts[k + 1 :], ts[:k]
        else:
            self.default = None
        ts = list(ts)
        self.name = None
        if len(ts) > 3 and ts[-1] == ")" and ts[-3] == "(":  # T(name)
            ts = ts[:-3] + [ts[-2]]
        if len(ts) > 1 and ts[-1].kind == "id" and ts[-2] != "::" and ts[-1] not in INTS | FLOATS | {"const"} and not (len(ts) == 2 and ts[0] in ("const", "unsigned", "typename")):
            self.name = str(ts.pop())
        self.type = ts

    @property
    def base(self):
        """the type without const and reference"""
        ts = [t for t in self.type if t not in ("const", "&", "&&")]
        return "".join(strip_ns([t for t in ts if t != "::"])) if all(t.kind == "id" or t == "::" for t in ts) else " ".join(ts)

    @property
    def out(self):
        """a reference through which the caller's variable is assigned"""
        return "&" in self.type and "const" not in self.type and self.base in OUTREF


class Func:
    def __init__(self, name, cls, params, ret, body, pos):
        self.name, self.cls, self.params, self.ret, self.body, self.pos = name, cls, params, ret, body, pos
        self.py = None

    @property
    def key(self):
        return f"{self.cls}::{self.name}" if self.cls else self.name


class File:
    def __init__(self, text):
        self.ts = tokenize(text)
        self.funcs, self.alias, self.enums = [], {}, {}
        self.scope(0, len(self.ts), None)

    # ---- declarations ----
    def scope(self, i, end, cls):
        ts = self.ts
        while i < end:
            t = ts[i]
            if t in (";", "}"):
                i += 1
            elif t == "namespace":
                j = i
                while ts[j] not in ("{", ";", "="):
                    j += 1
                if ts[j] == "{":
                    k = close(ts, j)
                    self.scope(j + 1, k, None)
                    i = k + 1
                else:
                    i = self.skip(j)
            elif t in ("public", "private", "protected") and ts[i + 1] == ":":
                i += 2
            elif t == "template":
                i = self.template(i + 1)
            elif t == "using" or t == "typedef":
                j = self.skip(i)
                d = ts[i + 1 : j - 1]
                if len(d) > 2 and d[1] == "=":
                    self.alias[str(d[0])] = d[2:]
                i = j
            elif t in ("class", "struct", "union", "enum"):
                j = i + 1
                while ts[j] not in ("{", ";", "("):
                    j += 1
                if ts[j] == "{":
                    k = close(ts, j)
                    names = [x for x in ts[i + 1 : j] if x.kind == "id" and x not in ("class", "struct", "final")]
                    if t == "enum":
                        self.enum(str(names[0]) if names else "", ts[j + 1 : k])
                    elif names:
                        self.scope(j + 1, k, str(names[0]))
                    i = k + 1
                elif ts[j] == ";":
                    i = j + 1
                else:
                    i = self.declaration(i, end, cls)
            else:
                i = self.declaration(i, end, cls)

    def template(self, i):
        d = 0
        while True:
            if self.ts[i] == "<":
                d += 1
            elif self.ts[i] == ">":
                d -= 1
                if d == 0:
                    return i + 1
            i += 1

    def skip(self, i):
        """after the next `;` outside brackets"""
        ts = self.ts
        while ts[i] != ";":
            i = close(ts, i) + 1 if ts[i].kind == "op" and ts[i] in PAIR else i + 1
            if i >= len(ts):
                return i
        return i + 1

    def enum(self, name, ts):
        n = 0
        for e in split(ts):
            if len(e) > 2 and e[1] == "=":
                try:
                    n = int("".join(e[2:]), 0)
                except ValueError:
                    return
            self.enums[f"{name}__{e[0]}"] = n
            n += 1

    def declaration(self, i, end, cls):
        ts, start, paren = self.ts, i, None
        while i < end:
            t = ts[i]
            if t == "<":
                i = angle(ts, i) or i + 1
                continue
            if t == "(":
                paren = paren if paren is not None else i
                i = close(ts, i) + 1
                continue
            if t == ";":
                return i + 1
            if t == "operator":
                while ts[i] not in ("{", ";"):
                    i += 1
                return close(ts, i) + 1 if ts[i] == "{" else i + 1
            if t == "=":
                return self.skip(i)
            if t == ":" and paren is not None:  # a constructor with initialisers
                while ts[i] != "{" or ts[i - 1] not in (")", "}"):
                    i += 1
                return close(ts, i) + 1
            if t == "{":
                k = close(ts, i)
                if paren is not None:
                    self.function(start, paren, i, k, cls)
                    return k + 1
                i = k + 1
                continue
            i += 1
        return i

    def function(self, start, paren, brace, end, cls):
        ts = self.ts
        j = paren
        if ts[j - 1] == ">":  # f<int>(...): an instantiation or specialisation
            return
        names = []
        while j > start and ts[j - 1].kind == "id":
            names.insert(0, str(ts[j - 1]))
            j -= 1
            if j > start and ts[j - 1] == "::":
                j -= 1
            else:
                break
        if not names or names[-1] in ("if", "for", "while", "switch"):
            return
        ret = [t for t in ts[start:j] if t not in ("static", "inline", "constexpr", "virtual", "extern")]
        pend = close(ts, paren)
        if "->" in ts[pend:brace]:
            ret = ts[ts.index("->", pend) + 1 : brace]
        names = strip_ns(names)
        if len(names) > 1:
            cls = names[-2]
        ps = [Param(p) for p in split(ts[paren + 1 : pend])]
        for n, p in enumerate(ps):
            p.name = p.name or f"_p{n}"
        self.funcs.append(Func(names[-1], cls, ps, ret, ts[brace + 1 : end], ts[start].at))


# ---- bodies -------------------------------------------------------------------
BINARY = [
    {"||": "or"}, {"&&": "and"}, {"|": "|"}, {"^": "^"}, {"&": "&"}, {"==": "==", "!=": "!="}, {"<": "<", ">": ">", "<=": "<=", ">=": ">="},
    {"<<": "<<", ">>": ">>"}, {"+": "+", "-": "-"}, {"*": "*", "/": "/", "%": "%"},
]


class Body:
    """one function (or lambda) body"""

    def __init__(self, module, func, outer=None):
        self.m, self.func, self.outer = module, func, outer
        self.lines = []
        self.scopes = [{}]
        self.used = set() if outer is None else outer.used
        self.assigned, self.own = set(), set()  # Python names
        self.lambda_outs = {} if outer is None else outer.lambda_outs
        self.loops = []

    # -- names --
    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return self.outer.lookup(n) if self.outer else None

    def declare(self, n):
        n = str(n)
        p = n if n not in KEYWORDS and not n.startswith("__") else n + "_"
        k = 1
        while p in self.used or p in self.m.reserved:
            k += 1
            p = f"{n}_{k}"
        self.used.add(p)
        self.own.add(p)
        self.scopes[-1][n] = p
        return p

    def fresh(self, base):
        k = 1
        while f"{base}{k}" in self.used:
            k += 1
        self.used.add(f"{base}{k}")
        return f"{base}{k}"

    def put(self, ind, s):
        self.lines.append("    " * ind + s)

    # -- statements --
    def block(self, ts, ind):
        self.scopes.append({})
        n = len(self.lines)
        i = 0
        while i < len(ts):
            i = self.statement(ts, i, ind)
        if len(self.lines) == n:
            self.put(ind, "pass")
        self.scopes.pop()

    def one(self, ts, i, ind):
        """the statement at i as the body of an if or a loop"""
        if ts[i] == "{":
            k = close(ts, i)
            self.block(ts[i + 1 : k], ind)
            return k + 1
        self.scopes.append({})
        n = len(self.lines)
        i = self.statement(ts, i, ind)
        if len(self.lines) == n:
            self.put(ind, "pass")
        self.scopes.pop()
        return i

    def semi(self, ts, i):
        while i < len(ts) and ts[i] != ";":
            i = close(ts, i) + 1 if ts[i].kind == "op" and ts[i] in PAIR else i + 1
        return i

    def statement(self, ts, i, ind):
        t = ts[i]
        if t == ";":
            return i + 1
        if t == "{":
            k = close(ts, i)
            self.block(ts[i + 1 : k], ind)
            return k + 1
        if t == "if":
            return self.if_(ts, i, ind)
        if t == "for":
            return self.for_(ts, i, ind)
        if t == "while":
            k = close(ts, i + 1)
            c = self.expr(ts[i + 2 : k], ind)
            if self.hoisted(c):
                raise Unreadable("lambda in a loop condition")
            self.put(ind, f"while {c}:")
            self.loops.append(None)
            k = self.one(ts, k + 1, ind + 1)
            self.loops.pop()
            return k
        if t == "do":
            raise Unreadable("do")
        if t == "switch":
            return self.switch(ts, i, ind)
        if t == "return":
            k = self.semi(ts, i)
            e = ts[i + 1 : k]
            self.ret(e, ind)
            return k + 1
        if t in ("break", "continue") and ts[i + 1] == ";":
            step = self.loops[-1] if self.loops else None
            if t == "continue" and step:
                self.put(ind, step)
            self.put(ind, str(t))
            return i + 2
        if t == "assert" and ts[i + 1] == "(":
            return self.semi(ts, i) + 1
        if t in ("llvm_unreachable", "report_fatal_error") or (t == "llvm" and ts[i + 2] in ("llvm_unreachable", "report_fatal_error")):
            self.put(ind, "raise AssertionError()")
            return self.semi(ts, i) + 1
        if t in ("using", "static_assert"):
            return self.semi(ts, i) + 1
        if t == "goto" or t == "try" or t == "struct" or t == "class" or t == "enum":
            raise Unreadable(str(t))
        k = self.semi(ts, i)
        self.simple(ts[i:k], ind)
        return k + 1

    def ret(self, e, ind):
        f = self.func
        if not e:
            v = "None"
        elif e[0] == "{" and len(e) == 2:
            v = "None"
        else:
            v = self.convert(f.ret, self.expr(e, ind))
        outs = [self.lookup(p.name) for p in f.params if p.out]
        self.put(ind, f"return ({', '.join([v] + outs)})" if outs else f"return {v}")

    def convert(self, ty, e):
        ts = [t for t in ty if t not in ("const", "static", "constexpr", "&")]
        n = "".join(strip_ns([t for t in ts if t != "::"])) if ts and all(t.kind == "id" or t == "::" for t in ts) else ""
        if n in ("long", "unsigned", "unsignedlong") or n in INTS:
            return e if re.fullmatch(r"\(?-?\d+\)?", e) else f"conv_int({e})"
        if n in FLOATS:
            return f"conv_float({e})"
        if n == "bool" and e not in ("True", "False"):
            return f"conv_bool({e})"
        return e

    def type_at(self, ts, i):
        """index after a type that begins at i, or None"""
        j = i
        while j < len(ts) and ts[j] in ("const", "static", "constexpr", "typename"):
            j += 1
        if j >= len(ts) or ts[j].kind != "id":
            return None
        if ts[j] in ("unsigned", "long") and j + 1 < len(ts) and ts[j + 1] in ("long", "int"):
            j += 1
        j += 1
        while j < len(ts):
            if ts[j] == "::" and j + 1 < len(ts) and ts[j + 1].kind == "id":
                j += 2
            elif ts[j] == "<":
                k = angle(ts, j)
                if k is None:
                    return None
                j = k
            else:
                break
        while j < len(ts) and ts[j] in ("&", "*", "const", "&&"):
            j += 1
        return j

    def simple(self, ts, ind):
        if ts[0] == "(" and ts[1] == "void":
            return
        # a declaration?
        j = self.type_at(ts, 0)
        if j is not None and j < len(ts) and j > 0:
            if ts[j].kind == "id" and ts[j - 1] != "::" and (j + 1 == len(ts) or ts[j + 1] in ("=", ",", "(", "{", "[")):
                return self.declaration(ts, j, ind)
            if ts[j] == "[" and ts[0] in ("auto", "const"):
                k = close(ts, j)
                if k + 1 < len(ts) and ts[k + 1] == "=":
                    v = self.expr(ts[k + 2 :], ind)
                    names = [self.declare(x[0]) for x in split(ts[j + 1 : k])]
                    self.put(ind, f"{', '.join(names)} = unpack({v})")
                    return
        # an assignment?
        d = 0
        for k, t in enumerate(ts):
            if t.kind != "op":
                continue
            if t in "([{":
                d += 1
            elif t in ")]}":
                d -= 1
            elif d == 0 and (t == "=" or t in ("+=", "-=", "*=", "/=", "%=", "|=", "&=")):
                return self.assign(ts[:k], str(t), ts[k + 1 :], ind)
        if ts[-1] in ("++", "--"):
            return self.assign(ts[:-1], ts[-1][0] + "=", None, ind)
        if ts[0] in ("++", "--"):
            return self.assign(ts[1:], ts[0][0] + "=", None, ind)
        if len(ts) > 4 and ts[0] == "std" and ts[2] == "swap" or ts[0] == "swap":
            k = ts.index("(")
            a, b = [self.target(x, ind) for x in split(ts[k + 1 : close(ts, k)])]
            self.put(ind, f"{a}, {b} = {b}, {a}")
            return
        if any(t == "<<" for t in ts):
            if ts[0] in ("os", "ss") or "emitError" in ts or "emitOpError" in ts or ts[0] == "llvm":
                return  # text of a message
            raise Unreadable("stream")
        self.put(ind, self.expr(ts, ind))

    def target(self, ts, ind):
        if len(ts) == 1 and ts[0].kind == "id":
            p = self.lookup(str(ts[0]))
            if p is None:
                raise Unreadable(f"assignment to {ts[0]}")
            self.assigned.add(p)
            return p
        if len(ts) > 3 and ts[-1] == "]":
            k = len(ts) - 2
            d = 0
            while d or ts[k] != "[":
                d += {"]": 1, "[": -1}.get(str(ts[k]), 0)
                k -= 1
            return f"{self.expr(ts[:k], ind)}[{self.expr(ts[k + 1 : -1], ind)}]"
        return self.expr(ts, ind)

    def assign(self, left, op, right, ind):
        if left[0] == "std" and len(left) > 2 and left[2] == "tie":
            names = [self.target(x, ind) for x in split(left[4:-1])]
            self.put(ind, f"{', '.join(names)} = unpack({self.expr(right, ind)})")
            return
        r = "1" if right is None else self.expr(right, ind)
        if len(left) == 2 and left[0] == "*":  # an optional's value
            left = left[1:]
        x = self.target(left, ind)
        if op == "=":
            self.put(ind, f"{x} = {r}")
        elif op in ("/=", "%="):
            self.put(ind, f"{x} = {'c_div' if op == '/=' else 'c_mod'}({x}, {r})")
        elif op in ("|=", "&="):
            self.put(ind, f"{x} = c_bit({x}, {op[0]!r}, {r})")
        else:
            self.put(ind, f"{x} = {x} {op[0]} {r}")

    def declaration(self, ts, j, ind):
        ty = ts[:j]
        for d in split(ts[j:]):
            name, rest = d[0], d[1:]
            dims = 0
            while rest and rest[0] == "[":
                rest = rest[close(rest, 0) + 1 :]
                dims += 1
            if not rest:
                v = self.default(ty)
            elif rest[0] == "=":
                v = self.initial(ty, rest[1:], ind, dims)
            elif rest[0] in ("{", "("):
                v = self.construct(ty, rest[1 : close(rest, 0)], str(rest[0]), ind)
            else:
                raise Unreadable("declaration")
            q = self.declare(name)
            if v in self.lambda_outs:
                self.lambda_outs[q] = self.lambda_outs[v]
            self.put(ind, f"{q} = {v}")

    def base(self, ty):
        return [t for t in ty if t not in ("const", "static", "constexpr", "&", "&&", "*")]

    def default(self, ty):
        b = self.base(ty)
        n = self.head(b)
        if n in INTS | FLOATS | {"bool"}:
            return "UNINIT"
        if n in ("SmallVector", "vector"):
            return "[]"
        if n in ("optional", "Value", "Type", "Attribute", "ArrayAttr", "Operation"):
            return "None"
        return f"construct({n!r})"

    def head(self, b):
        k = b.index("<") if "<" in b else len(b)
        parts = strip_ns([str(t) for t in b[:k] if t != "::"])
        return "__".join(parts)

    def initial(self, ty, e, ind, dims=0):
        b = self.base(ty)
        if e[0] == "{" and close(e, 0) == len(e) - 1:
            if dims or self.head(b) in ("SmallVector", "vector", "ArrayRef"):
                return self.braces(e, ind)
            return self.construct(ty, e[1:-1], "{", ind)
        return self.convert(b, self.expr(e, ind))

    def construct(self, ty, args, how, ind):
        b = self.base(ty)
        n = self.head(b)
        xs = [self.expr(a, ind) for a in split(args)]
        if n in INTS | FLOATS | {"bool"}:
            return self.convert(b, xs[0]) if xs else "0"
        if n in ("SmallVector", "vector"):
            if how == "{":
                return f"[{', '.join(xs)}]"
            return f"new_vector({', '.join(xs)})"
        if n == "ArrayRef":
            return xs[0] if len(xs) == 1 and how == "(" else f"[{', '.join(xs)}]"
        return f"construct({', '.join([repr(n)] + xs)})"

    def braces(self, e, ind):
        xs = split(e[1:-1])
        return "[" + ", ".join(self.braces(x, ind) if x[0] == "{" and close(x, 0) == len(x) - 1 else self.expr(x, ind) for x in xs) + "]"

    def hoisted(self, c):
        return False

    def if_(self, ts, i, ind):
        if ts[i + 1] == "constexpr":
            raise Unreadable("if constexpr")
        k = close(ts, i + 1)
        self.scopes.append({})
        c = self.condition(ts[i + 2 : k], ind)
        self.put(ind, f"if {c}:")
        k = self.one(ts, k + 1, ind + 1)
        if k < len(ts) and ts[k] == "else":
            self.put(ind, "else:")
            if ts[k + 1] == "if":
                k = self.if_(ts, k + 1, ind + 1)
            else:
                k = self.one(ts, k + 1, ind + 1)
        self.scopes.pop()
        return k

    def condition(self, c, ind):
        k = self.semi(c, 0)
        if k < len(c):
            self.simple(c[:k], ind)
            c = c[k + 1 :]
        j = self.type_at(c, 0)
        if j is not None and j + 1 < len(c) and c[j].kind == "id" and c[j + 1] == "=":
            self.declaration(c, j, ind)
            return self.lookup(str(c[j]))
        return self.expr(c, ind)

    def for_(self, ts, i, ind):
        k = close(ts, i + 1)
        h = ts[i + 2 : k]
        self.scopes.append({})
        d = 0
        colon = None
        for n, t in enumerate(h):
            if t.kind == "op" and t in "([{":
                d += 1
            elif t.kind == "op" and t in ")]}":
                d -= 1
            elif t == ":" and d == 0 and colon is None:
                colon = n
            elif t == "?" and d == 0:
                break
        if ";" not in h and colon is not None:
            xs = self.expr(h[colon + 1 :], ind)
            d = h[:colon]
            if d[-1] == "]":
                o = len(d) - 1
                while d[o] != "[":
                    o -= 1
                names = ", ".join(self.declare(x[0]) for x in split(d[o + 1 : -1]))
            else:
                names = self.declare(d[-1])
            self.put(ind, f"for {names} in each({xs}):")
            self.loops.append(None)
            k = self.one(ts, k + 1, ind + 1)
            self.loops.pop()
            self.scopes.pop()
            return k
        parts, cur = [], []
        for t in h:
            if t == ";":
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        parts.append(cur)
        if len(parts) != 3:
            raise Unreadable("for")
        init, cond, step = parts
        body = ts[k + 1 :]
        # for (T i = a, e = n; i < e; ++i)
        st = [str(t) for t in step]
        if init and len(cond) >= 3 and len(st) == 2 and "++" in st:
            v = st[0] if st[1] == "++" else st[1]
            j = self.type_at(init, 0)
            ds = split(init[j:]) if j is not None else []
            n = k + 1
            e = close(ts, n) if ts[n] == "{" else self.semi(ts, n)
            writes = any(ts[x] == v and (ts[x + 1] in ("=", "++", "--", "+=", "-=") or ts[x - 1] in ("++", "--", "&")) for x in range(n, e))
            if ds and str(ds[0][0]) == v and str(cond[0]) == v and cond[1] in ("<", "!=", "<=") and not writes and all(len(x) > 2 and x[1] == "=" for x in ds):
                lo = self.convert(self.base(init[:j]), self.expr(ds[0][2:], ind))
                for x in ds[1:]:
                    self.put(ind, f"{self.declare(x[0])} = {self.expr(x[2:], ind)}")
                hi = self.expr(cond[2:], ind)
                name = self.declare(v)
                self.put(ind, f"for {name} in range({lo}, {hi}{' + 1' if cond[1] == '<=' else ''}):")
                self.loops.append(None)
                k = self.one(ts, k + 1, ind + 1)
                self.loops.pop()
                self.scopes.pop()
                return k
        # any other: while (cond) { body; step }
        if init:
            self.simple(init, ind)
        lines, self.lines = self.lines, []
        for x in split(step):
            self.simple(x, 0)
        then, self.lines = [x.strip() for x in self.lines], lines
        if any(x.endswith(":") for x in then):
            raise Unreadable("for")
        c = self.expr(cond, ind) if cond else "True"
        if self.hoisted(c):
            raise Unreadable("lambda in a loop condition")
        self.put(ind, f"while {c}:")
        then = "; ".join(then)
        self.loops.append(then)
        k = self.one(ts, k + 1, ind + 1)
        self.loops.pop()
        if then:
            self.put(ind + 1, then)
        self.scopes.pop()
        return k

    def switch(self, ts, i, ind):
        k = close(ts, i + 1)
        v = self.fresh("sw")
        self.put(ind, f"{v} = {self.expr(ts[i + 2 : k], ind)}")
        e = close(ts, k + 1)
        body = ts[k + 2 : e]
        # groups of labels and the statements after them
        groups, p = [], 0
        labels = []
        while p < len(body):
            if body[p] == "case":
                q = p
                while body[q] != ":":
                    q += 1
                labels.append(body[p + 1 : q])
                p = q + 1
            elif body[p] == "default":
                labels.append(None)
                p += 2
            else:
                q, d = p, 0
                while q < len(body) and body[q] not in ("case", "default"):
                    q = close(body, q) + 1 if body[q].kind == "op" and body[q] in PAIR else q + 1
                groups.append((labels, body[p:q]))
                labels = []
                p = q
        first = True
        last = None
        for ls, st in groups:
            inner = st[1:-1] if st[0] == "{" and close(st, 0) == len(st) - 1 else st
            tail = self.tail(inner)
            if tail is None and (ls, st) is not groups[-1]:
                raise Unreadable("a case that falls through")
            if tail == "break":
                inner = inner[:-2]
            if None in ls:
                last = inner
                if (ls, st) is not groups[-1]:
                    raise Unreadable("default before another case")
                continue
            c = " or ".join(f"{v} == {self.expr(x, ind)}" for x in ls)
            self.put(ind, f"{'if' if first else 'elif'} {c}:")
            first = False
            if "break" in inner:
                raise Unreadable("break inside a case")
            self.block(inner, ind + 1)
        if last is not None:
            if first:
                self.block(last, ind)
            else:
                self.put(ind, "else:")
                self.block(last, ind + 1)
        return e + 1

    def tail(self, st):
        if len(st) >= 2 and st[-1] == ";" and st[-2] == "break":
            return "break"
        # the last statement leaves the function
        i, start = 0, 0
        while i < len(st):
            start = i
            if st[i] in ("if", "for", "while"):
                i = close(st, i + 1) + 1
                continue
            if st[i] == "{":
                i = close(st, i) + 1
                continue
            i = self.semi(st, i) + 1
        if start < len(st) and (st[start] == "return" or any(t in ("llvm_unreachable", "report_fatal_error") for t in st[start:])):
            return "return"
        return None

    # -- expressions --
    def expr(self, ts, ind):
        if not ts:
            raise Unreadable("empty expression")
        p = Expr(self, ts, ind)
        e = p.ternary()
        if p.i != len(ts):
            raise Unreadable(f"expression at {' '.join(ts[p.i:p.i+6])}")
        return e

    def lambda_(self, caps, params, ret, body, ind):
        f = Func(None, None, params, ret, body, 0)
        f.cls = self.func.cls
        b = Body(self.m, f, self)
        name = self.fresh("lam")
        b.write(name, ind)
        outer_by_value = []
        copy_all = any(c[0] == "=" for c in caps)
        explicit = {str(c[0]) for c in caps if c and c[0].kind == "id"}
        text = "\n".join(b.lines)
        ref = any(c[0] == "&" and len(c) == 1 for c in caps)
        s, seen = self, set()
        while s:
            for sc in s.scopes:
                for n, p in sc.items():
                    if (n in explicit or copy_all) and p not in seen and re.search(rf"\b{re.escape(p)}\b", text):
                        seen.add(p)
                        outer_by_value.append(p)
            s = s.outer
        head = b.lines[0]
        if outer_by_value:
            extra = ", ".join(f"{p}={p}" for p in outer_by_value)
            b.lines[0] = head[:-2] + (", " if not head.endswith("():") else "") + extra + "):"
        outs = b.assigned - b.own
        self.assigned |= outs
        if outs and ref:
            b.lines.insert(1, "    " * (ind + 1) + "nonlocal " + ", ".join(sorted(outs)))
        elif outs:
            raise Unreadable("assignment to a captured copy")
        self.lines += b.lines
        return name

    def write(self, name, ind):
        f = self.func
        self.scopes = [{}]
        ps = [self.declare(p.name) for p in f.params]
        if f.name is not None and f.cls:
            ps = ["self"] + ps
        self.put(ind, f"def {name}({', '.join(ps)}):")
        for p, q in zip(f.params, ps[-len(f.params):] if f.params else []):
            fn = self.m.alias.get(p.base)
            ty = fn if fn else p.type
            ty = [t for t in ty if t not in ("const", "&")]
            if "function" in ty[:3] and "<" in ty:
                r = ty[ty.index("<") + 1]
                if r in INTS or r in FLOATS:
                    raw, x = self.fresh("raw_"), self.fresh("args_")
                    self.put(ind + 1, f"{raw} = {q}")
                    self.put(ind + 1, f"def {q}(*{x}):")
                    self.put(ind + 2, f"return {'conv_int' if r in INTS else 'conv_float'}({raw}(*{x}))")
            elif p.base in INTS and not p.out:
                self.put(ind + 1, f"{q} = conv_int({q})")
            elif p.base in FLOATS and not p.out:
                self.put(ind + 1, f"{q} = conv_float({q})")
        self.block(f.body, ind + 1)
        outs = [self.lookup(p.name) for p in f.params if p.out]
        if outs:
            self.put(ind + 1, f"return ({', '.join(['None'] + outs)})")


class Expr:
    def __init__(self, body, ts, ind):
        self.b, self.ts, self.i, self.ind = body, ts, 0, ind

    def peek(self, k=0):
        return self.ts[self.i + k] if self.i + k < len(self.ts) else ""

    def ternary(self):
        c = self.binary(0)
        if self.peek() == "?":
            self.i += 1
            a = self.ternary()
            if self.peek() != ":":
                raise Unreadable("?:")
            self.i += 1
            b = self.ternary()
            return f"({a} if {c} else {b})"
        return c

    def binary(self, level):
        if level == len(BINARY):
            return self.unary()
        a = self.binary(level + 1)
        while True:
            t = self.peek()
            ops = BINARY[level]
            if t == ">" and self.peek(1) == ">" and self.peek(1).at == t.at + 1:
                if ">>" not in ops:
                    return a
                raise Unreadable(">>")
            if t == "" or t.kind != "op" or str(t) not in ops:
                return a
            self.i += 1
            b = self.binary(level + 1)
            o = ops[str(t)]
            if o == "/":
                a = f"c_div({a}, {b})"
            elif o == "%":
                a = f"c_mod({a}, {b})"
            elif o in ("|", "^", "&", "<<"):
                a = f"c_bit({a}, {o!r}, {b})"
            else:
                a = f"({a} {o} {b})"

    def unary(self):
        t = self.peek()
        if t == "!":
            self.i += 1
            return f"(not {self.unary()})"
        if t == "-":
            self.i += 1
            return f"(-{self.unary()})"
        if t == "+":
            self.i += 1
            return self.unary()
        if t == "*":
            self.i += 1
            if self.peek() == "this":
                self.i += 1
                return "self"
            return f"deref({self.unary()})"
        if t in ("&", "~", "++", "--") and t != "":
            raise Unreadable(f"operator {t}")
        if t == "(":
            k = close(self.ts, self.i)
            inside = self.ts[self.i + 1 : k]
            n = self.ts[k + 1] if k + 1 < len(self.ts) else ""
            if inside and all(x.kind == "id" or x == "::" for x in inside) and (n != "" and (n.kind in ("id", "num", "str") or n == "(")):
                name = " ".join(strip_ns([str(x) for x in inside if x != "::"]))
                if name in INTS | FLOATS | {"bool", "void"} or name.replace(" ", "") in ("longlong", "unsignedlong"):
                    self.i = k + 1
                    return self.cast(name, self.unary())
        return self.postfix(self.primary())

    def cast(self, name, e):
        name = name.replace("const ", "")
        if name in FLOATS:
            return f"conv_float({e})"
        if name == "bool":
            return f"conv_bool({e})"
        if name in INTS or name in ("long long",):
            return f"conv_int({e})"
        return e

    def args(self):
        """the arguments of the call at `(`; (text, tokens) each"""
        k = close(self.ts, self.i)
        inner = self.ts[self.i + 1 : k]
        self.i = k + 1
        return split(inner)

    def values(self, args):
        out = []
        for a in args:
            if a[0] == "{" and close(a, 0) == len(a) - 1:
                out.append(self.b.braces(a, self.ind))
            elif a[0] == "&" and len(a) == 2:
                raise Unreadable("address of a variable")
            else:
                out.append(self.b.expr(a, self.ind))
        return out

    def primary(self):
        t = self.peek()
        if t == "":
            raise Unreadable("end of expression")
        if t.kind == "num":
            self.i += 1
            s = t.rstrip("uUlL") if not re.search(r"[.eE]", t) or t.lower().startswith("0x") else t.rstrip("fFlL")
            return f"{s}" if not s.endswith(".") else s + "0"
        if t.kind == "str":
            self.i += 1
            return str(t)
        if t.kind == "chr":
            self.i += 1
            return repr(eval(str(t)))
        if t == "(":
            k = close(self.ts, self.i)
            e = self.b.expr(self.ts[self.i + 1 : k], self.ind)
            self.i = k + 1
            return f"({e})"
        if t == "[":
            return self.lam()
        if t == "{":
            k = close(self.ts, self.i)
            e = self.b.braces(self.ts[self.i : k + 1], self.ind)
            self.i = k + 1
            return e
        if t == "::":
            self.i += 1
            t = self.peek()
        if t.kind != "id":
            raise Unreadable(f"expression at {t}")
        if t in ("nullptr", "true", "false", "this"):
            self.i += 1
            return {"nullptr": "None", "true": "True", "false": "False", "this": "self"}[t]
        if t in ("new", "sizeof", "delete", "typename", "throw"):
            raise Unreadable(str(t))
        parts, targs = [str(t)], None
        self.i += 1
        if parts[0] == "unsigned" and self.peek() in ("long", "int"):
            self.i += 1
        while True:
            if self.peek() == "::":
                self.i += 1
                if self.peek() == "template":
                    self.i += 1
                parts.append(str(self.peek()))
                self.i += 1
            elif self.peek() == "<":
                k = angle(self.ts, self.i)
                if k is None or k >= len(self.ts) or self.ts[k] not in ("(", "::", "{"):
                    break
                if self.ts[k] == "::" or self.ts[k] == "{":
                    targs = self.targs(k)
                    if self.ts[k] == "{":
                        break
                    continue
                targs = self.targs(k)
                break
            else:
                break
        parts = strip_ns(parts)
        name = "__".join(parts)
        if self.peek() == "(":
            return self.call(name, parts, targs)
        if self.peek() == "{" and len(parts) >= 1 and parts[-1][0].isupper():
            k = close(self.ts, self.i)
            xs = self.values(split(self.ts[self.i + 1 : k]))
            self.i = k + 1
            if name in ("SmallVector", "vector", "ArrayRef"):
                return f"[{', '.join(xs)}]"
            return f"construct({', '.join([repr(name)] + xs)})"
        if len(parts) == 1:
            p = self.b.lookup(name)
            if p is not None:
                return p
            if self.b.func.cls and self.b.m.is_member(name):
                return f"self.{name}"
            f = self.b.m.functions.get(name)
            if f:
                return f[0].py
        self.b.m.need(name)
        return self.b.m.glob(name)

    def targs(self, k):
        ts = self.ts[self.i + 1 : k - 1]
        self.i = k
        return ["".join(strip_ns([str(x) for x in a if x not in ("::", "const")])) if all(x.kind == "id" or x == "::" for x in a) else " ".join(a) for a in split(ts)]

    def call(self, name, parts, targs):
        b = self.b
        args = self.args()
        if name == "matchPattern":
            return self.match(args)
        if name == "static_cast":
            v = self.values(args)[0]
            return self.cast(targs[0], v)
        if name in INTS | FLOATS | {"bool"}:
            return self.cast(name, self.values(args)[0])
        if name == "move" or name == "forward":
            return self.values(args)[0]
        if name == "swap" or name == "tie":
            raise Unreadable(name)
        if name in ("SmallVector", "vector"):
            return f"new_vector({', '.join(self.values(args))})"
        local = b.lookup(name) if len(parts) == 1 else None
        fs = b.m.functions.get("::".join(parts)) if local is None else None
        if local is not None:
            outs = b.lambda_outs.get(local)
            return self.invoke(local, args, outs)
        if fs:
            fs2 = [f for f in fs if len(f.params) >= len(args) and all(p.default is not None for p in f.params[len(args):])]
            if len(fs2) != 1:
                raise Unreadable(f"{len(fs2)} functions named {name} fit")
            f = fs2[0]
            return self.invoke(f.py, args, [p.out for p in f.params] if any(p.out for p in f.params) else None)
        vs = self.values(args)
        if targs is not None:
            vs = vs + [repr(t) for t in targs] if name in ("isa", "cast", "dyn_cast", "dyn_cast_or_null", "isa_and_nonnull", "dyn_cast_if_present", "isa_and_present") else [repr(t) for t in targs] + vs
        if len(parts) == 1 and b.m.member_call(name, b.func):
            return f"self.{name}({', '.join(vs)})"
        b.m.need(name)
        return f"{b.m.glob(name)}({', '.join(vs)})"

    def invoke(self, f, args, outs):
        if not outs:
            return f"{f}({', '.join(self.values(args))})"
        r = self.b.fresh("r_")
        vs, sets = [], []
        for n, a in enumerate(args):
            if outs[n]:
                x = self.b.target(a, self.ind)
                if not x.isidentifier():
                    raise Unreadable("output argument")
                vs.append(x)
                sets.append(x)
            else:
                vs += self.values([a])
        parts = [f"({r} := {f}({', '.join(vs)}))"] + [f"({x} := {r}[{k + 1}])" for k, x in enumerate(sets)] + [f"{r}[0]"]
        return f"({', '.join(parts)})[-1]"

    def match(self, args):
        v = self.values(args[:1])[0]
        m = args[1]
        k = m.index("(") if "(" in m else None
        if k is None or close(m, k) != len(m) - 1:
            raise Unreadable("pattern")
        name = strip_ns([str(x) for x in m[:k] if x != "::"])[-1]
        outs = []
        for a in split(m[k + 1 : -1]):
            a = a[1:] if a[0] == "&" else a
            if len(a) != 1:
                raise Unreadable("pattern")
            outs.append(self.b.target(a, self.ind))
        r = self.b.fresh("m_")
        parts = [f"({r} := matchPattern({v}, {name!r}{''.join(', ' + x for x in outs)}))"] + [f"({x} := {r}[{n + 1}])" for n, x in enumerate(outs)] + [f"{r}[0]"]
        return f"({', '.join(parts)})[-1]"

    def lam(self):
        ts = self.ts
        k = close(ts, self.i)
        caps = split(ts[self.i + 1 : k])
        self.i = k + 1
        params = []
        if self.peek() == "(":
            params = [Param(p) for p in self.args()]
            for n, p in enumerate(params):
                p.name = p.name or f"_p{n}"
        ret = []
        while self.peek() in ("mutable", "const"):
            self.i += 1
        if self.peek() == "->":
            j = self.i + 1
            while ts[j] != "{":
                j += 1
            ret = ts[self.i + 1 : j]
            self.i = j
        k = close(ts, self.i)
        body = ts[self.i + 1 : k]
        self.i = k + 1
        name = self.b.lambda_(caps, params, ret, body, self.ind)
        if any(p.out for p in params):
            self.b.lambda_outs[name] = [p.out for p in params]
        return self.postfix(name)

    def postfix(self, e):
        while True:
            t = self.peek()
            if t in (".", "->") and t != "":
                self.i += 1
                if self.peek() == "template":
                    self.i += 1
                n = str(self.peek())
                self.i += 1
                targs = []
                if self.peek() == "<":
                    k = angle(self.ts, self.i)
                    if k and k < len(self.ts) and self.ts[k] == "(":
                        targs = [repr(x) for x in self.targs(k)]
                n = n if n not in KEYWORDS else n + "_"
                if self.peek() == "(" and n in ("push_back", "emplace_back"):
                    e = f"{e}.append({', '.join(self.values(self.args()))})"
                elif self.peek() == "(" and n in VALUE_METHODS:
                    e = f"m_{n}({', '.join([e] + self.values(self.args()))})"
                elif self.peek() == "(":
                    e = f"{e}.{n}({', '.join(targs + self.values(self.args()))})"
                else:
                    e = f"{e}.{n}"
            elif t == "[":
                k = close(self.ts, self.i)
                e = f"subscript({e}, {self.b.expr(self.ts[self.i + 1 : k], self.ind)})"
                self.i = k + 1
            elif t == "(":
                e = f"{e}({', '.join(self.values(self.args()))})"
            elif t in ("++", "--") and t != "":
                raise Unreadable("++ inside an expression")
            else:
                return e


class Module:
    """the functions of some files, as one Python source"""

    def __init__(self, texts, runtime, wanted=None):
        self.files = [File(t) for t in texts]
        self.runtime = runtime
        self.alias = {k: v for f in self.files for k, v in f.alias.items()}
        self.functions, self.needs = {}, {}
        self.reserved = set(runtime)
        self.bad, self.chunks = {}, {}
        names = set()
        for f in self.files:
            for fn in f.funcs:
                base = fn.key.replace("::", "__")
                p, k = base, 1
                while p in names or p in runtime:
                    k += 1
                    p = f"{base}_{k}"
                names.add(p)
                fn.py = p
                self.functions.setdefault(fn.key, []).append(fn)
        self.reserved |= names
        self.consts = {k: v for f in self.files for k, v in f.enums.items()}
        self.cls = None

    def member_call(self, name, func):
        """an unqualified call inside a member function of something the runtime has"""
        return func.cls is not None and name not in self.runtime

    def is_member(self, name):
        return False

    def need(self, name):
        self.current.add(name)

    def glob(self, name):
        return name if name not in KEYWORDS else name + "_"

    def source(self, keys):
        """Python text of the functions named and of those they call"""
        todo, done = list(keys), []
        while todo:
            k = todo.pop()
            if k in done:
                continue
            done.append(k)
            for fn in self.functions.get(k, []):
                self.current = set()
                b = Body(self, fn)
                try:
                    b.write(fn.py, 0)
                    self.chunks[fn.py] = "\n".join(b.lines)
                    self.needs[fn.py] = self.current
                except Unreadable as e:
                    self.bad[fn.py] = str(e)
                except (IndexError, ValueError) as e:
                    self.bad[fn.py] = f"{type(e).__name__}: {e}"
                text = " ".join(str(t) for t in fn.body)
                for g in self.functions:
                    if g not in done and g != k and re.search(r"\b" + re.escape(g).replace("::", r"\s*::\s*") + r"\b", text):
                        todo.append(g)
        return self.chunks
