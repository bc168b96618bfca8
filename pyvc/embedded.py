"""The abstract-interpretation library the compiler embeds, as Python functions.

lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp returns MLIR text. This module
takes the string literals out of the C++ source, parses the functions (torch dialect:
constants, list/tuple/scalar operators, prim.If, prim.Loop, calls) and writes each as a
Python function of the same control flow, one statement per operation. Dropped: types,
the texts of error messages, the order of constants. An operation that is not known
makes its function (and its callers) unsupported."""
import ast
import hashlib
import importlib.util
import inspect
import keyword
import os
import re
import subprocess
import tempfile
import types

from . import load

CPP = os.path.join(load.REPO, "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp")
PREFIX = re.compile(r"__torch_mlir_(\w+)_fn\.(.*)")


STUB = """#pragma once
#include <string>
#include <string_view>
namespace llvm {
class StringRef {
  std::string s;
public:
  StringRef() {}
  StringRef(const char *p) : s(p) {}
  StringRef(const char *p, size_t n) : s(p, n) {}
  StringRef(const std::string &x) : s(x) {}
  StringRef(std::string_view x) : s(x) {}
  size_t size() const { return s.size(); }
  const char *data() const { return s.data(); }
  std::string str() const { return s; }
  operator std::string_view() const { return s; }
};
using StringLiteral = StringRef;
} // namespace llvm
namespace mlir {
using llvm::StringLiteral;
using llvm::StringRef;
namespace torch { namespace Torch { StringRef getAbstractInterpLibrary(); } }
} // namespace mlir
"""
RUN = """#include <cstdio>
int main() {
  auto t = mlir::torch::Torch::getAbstractInterpLibrary();
  fwrite(t.data(), 1, t.size(), stdout);
}
"""


def text(path=None):
    """the MLIR text: what getAbstractInterpLibrary() returns when it is compiled (with
    a stand-in for the header that declares it)"""
    path = path or CPP
    with tempfile.TemporaryDirectory(prefix="verif-embedded-") as d:
        h = os.path.join(d, "torch-mlir/Dialect/Torch/Transforms/Passes.h")
        os.makedirs(os.path.dirname(h))
        open(h, "w").write(STUB)
        open(os.path.join(d, "main.cpp"), "w").write('#include "torch-mlir/Dialect/Torch/Transforms/Passes.h"\n' + RUN)
        c = subprocess.run(
            ["g++", "-std=c++17", "-O0", "-w", "-I", d, os.path.join(d, "main.cpp"), path, "-o", os.path.join(d, "a.out")],
            capture_output=True,
        )
        if c.returncode == 0:
            r = subprocess.run([os.path.join(d, "a.out")], capture_output=True)
            if r.returncode == 0 and r.stdout:
                return r.stdout.decode("utf-8")
    return literals(path)


def literals(path):
    """the string literals of the return statement (when the file does not compile so)"""
    src = open(path, encoding="utf-8").read()
    a = re.search(r"getAbstractInterpLibrary\(\)\s*\{", src)
    if not a:
        raise ValueError("getAbstractInterpLibrary is not there")
    out, i, n, returned = [], a.end(), len(src), False
    while i < n:
        ch = src[i]
        if src.startswith("//", i) or (ch == "#" and not out):
            i = src.find("\n", i)
            i = n if i < 0 else i
        elif src.startswith("/*", i):
            i = src.index("*/", i) + 2
        elif src.startswith("return", i):
            returned, i = True, i + 6
        elif src.startswith('R"', i):
            d = src[i + 2 : src.index("(", i)]
            j = src.index(")" + d + '"', i)
            out.append(src[i + 3 + len(d) : j])
            i = j + len(d) + 2
        elif ch == '"':
            m = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(src, i)
            out.append(unescape(m.group(1)))
            i = m.end()
        elif ch == ";" and returned:
            break
        else:
            i += 1
    return "".join(out)


ESC = {"n": "\n", "t": "\t", '"': '"', "\\": "\\", "'": "'"}


def unescape(s):
    return re.sub(r"\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)", lambda m: ESC[m[1]] if m[1] in ESC else chr(int(m[1][1:], 16)) if m[1][0] == "x" else chr(int(m[1], 8)), s)


# ---- parsing -----------------------------------------------------------------
TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|[%@^][\w.$\-]+(?:#\d+)?|@"(?:[^"\\]|\\.)*"|->|!?[\w.]+|-\d[\w.+\-]*|[(){}<>\[\],:=*?#-])')


class Op:
    def __init__(self, name):
        self.name, self.results, self.operands, self.attr, self.regions, self.types = name, [], [], None, [], ""


class Block:
    def __init__(self, args):
        self.args, self.ops = args, []


class Fn:
    def __init__(self, name, params, ptypes, result):
        self.name, self.params, self.ptypes, self.result = name, params, ptypes, result
        self.body = Block([])


def symbol(s):
    s = s[1:]
    return bytes(s[1:-1], "utf-8").decode("utf-8") if s.startswith('"') else s


def decode(s):
    """MLIR escapes: \\E3\\80\\A1"""
    return re.sub(r"((?:\\[0-9A-F]{2})+)", lambda m: bytes(int(x, 16) for x in m[1].split("\\")[1:]).decode("utf-8"), s)


def split(s):
    """at the commas outside brackets"""
    out, depth, cur_ = [], 0, ""
    for ch in s:
        depth += ch in "<([{"
        depth -= ch in ">)]}"
        if ch == "," and depth == 0:
            out.append(cur_.strip())
            cur_ = ""
        else:
            cur_ += ch
    if cur_.strip():
        out.append(cur_.strip())
    return out


VALUE = re.compile(r"%[\w\-]+(?:#\d+)?")


def parse(t, bad=None):
    """{name: Fn}; a function that cannot be read is named in `bad`"""
    out, cur_ = {}, []
    chunks = [cur_]
    for line in t.split("\n"):
        if line.strip().startswith("func.func"):
            cur_ = []
            chunks.append(cur_)
        cur_.append(line)
    for c in chunks:
        if not any(l.strip().startswith("func.func") for l in c):
            continue
        try:
            out.update(parse_function("\n".join(c)))
        except Exception as e:
            if bad is None:
                raise
            m = re.search(r'@("[^"]*"|[^(\s]*)', c[0])
            bad[decode(m[1].strip('"')) if m else c[0]] = repr(e)[:100]
    return out


def parse_function(t):
    """one operation per line, as the printer writes them"""
    fns, fn, stack = {}, None, []
    for line in t.split("\n"):
        s = line.strip()
        if not s or s.startswith("//") or s == "module {":
            continue
        m = re.match(r'func\.func (?:private |public )?@("[^"]*"|[^(]*)\((.*)\)(?: -> (.*?))? \{$', s)
        if m:
            ps = [p.split(":", 1) for p in split(m[2])]
            fn = Fn(decode(m[1].strip('"')), [p[0].strip() for p in ps], [p[1].strip() for p in ps], m[3])
            fns[fn.name] = fn
            stack = [(None, fn.body)]
            continue
        if fn is None:
            if s == "}":
                continue
            raise ValueError(f"outside a function: {s[:80]}")
        m = re.match(r"\^bb\d+\((.*)\):$", s)
        if m:
            stack[-1][1].args = [p.split(":")[0].strip() for p in split(m[1])]
            continue
        if s.startswith("}"):
            op, _ = stack.pop()
            if not stack:
                fn = None
                continue
            if s.startswith("} else {"):
                b = Block([])
                op.regions.append(b)
                stack.append((op, b))
            continue
        op = operation(s)
        stack[-1][1].ops.append(op)
        if s.endswith("{"):
            b = Block([])
            op.regions.append(b)
            stack.append((op, b))
    return fns


def operation(s):
    res = []
    m = re.match(r"((?:%[\w\-]+(?::\d+)?)(?:, %[\w\-]+(?::\d+)?)*) = (.*)$", s)
    if m:
        for r in m[1].split(", "):
            a, _, n = r.partition(":")
            res += [f"{a}#{i}" for i in range(int(n))] if n else [a]
        s = m[2]
    name, _, rest = s.partition(" ")
    if "(" in name:  # `torch.aten.format(`
        name, _, rest = s.partition("(")
        rest = "(" + rest
    op = Op(name)
    op.results, op.rest = res, rest
    if name in ("torch.constant.str", "torch.constant.int", "torch.constant.float", "torch.constant.bool", "torch.constant.none", "torch.constant.device"):
        op.attr = rest.strip()
    elif name in ("call", "func.call"):
        m = re.match(r'@("[^"]*"|[^(]*)\((.*?)\) :', rest)
        op.name, op.attr, op.operands = "call", decode(m[1].strip('"')), VALUE.findall(m[2])
    elif name == "torch.operator":
        m = re.match(r'"([^"]*)"\((.*?)\) :', rest)
        op.name, op.operands = "torch." + m[1], VALUE.findall(m[2])
    elif name == "torch.prim.Loop":
        m = re.match(r"(%\S+), (%\S+), init\((.*?)\)", rest)
        op.operands = [m[1], m[2], *VALUE.findall(m[3])]
    elif name == "torch.prim.Loop.condition":
        m = re.match(r"(%\S+), iter\((.*?)(?: :.*)?\)", rest)
        op.operands = [m[1], *VALUE.findall(m[2])]
    else:
        op.types = rest.rpartition(" : ")[2] if " : " in rest else ""
        op.operands = VALUE.findall(rest.split(" : ")[0] if " : " in rest else rest)
    return op


# ---- writing Python ----------------------------------------------------------
class Unknown(Exception):
    pass


BIN = {
    "add.int": "+", "sub.int": "-", "mul.int": "*", "floordiv.int": "//", "remainder.int": "%", "div": "/", "div.int": "/",
    "eq": "==", "ne": "!=", "eq.int": "==", "ne.int": "!=", "lt.int": "<", "gt.int": ">", "le.int": "<=", "ge.int": ">=",
    "eq.str": "==", "ne.str": "!=", "eq.bool": "==", "ne.bool": "!=", "eq.float": "==", "ne.float": "!=", "lt.float": "<", "gt.float": ">", "ge.float": ">=", "le.float": "<=",
    "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "lt.float_int": "<", "gt.float_int": ">", "ge.float_int": ">=", "eq.int_list": "==", "ne.int_list": "!=",
    "add": "+", "sub": "-", "mul": "*", "mul.float": "*", "mul.int_float": "*", "mul.float_int": "*", "sub.float": "-", "add.float_int": "+", "div.float": "/", "div.int_float": "/",
    "add.t": "+", "mul.left_t": "*", "__is__": "is", "__isnot__": "is not", "__and__.bool": "and", "__or__.bool": "or",
}
CALL = {
    "aten.len.t": "len({0})", "aten.neg.int": "-{0}", "aten.neg.float": "-{0}", "aten.__not__": "not {0}", "aten.__getitem__.t": "{0}[{1}]",
    "aten.__contains__.int_list": "{1} in {0}", "aten.__contains__.str_list": "{1} in {0}", "aten.slice.t": "{0}[{1}:{2}:{3}]",
    "aten.Int.float": "int({0})", "aten.Int.Scalar": "int({0})", "aten.Int.bool": "int({0})", "aten.Float.Scalar": "float({0})", "aten.Float.int": "float({0})", "aten.Bool.int": "bool({0})",
    "aten.ceil.Scalar": "math.ceil({0})", "aten.ceil.float": "math.ceil({0})", "aten.floor.float": "math.floor({0})",
    "prim.max.int": "max({0}, {1})", "prim.min.int": "min({0}, {1})", "prim.max.self_int": "max({0})", "prim.min.self_int": "min({0})", "prim.abs.int": "abs({0})",
    "prim.TupleIndex": "{0}[{1}]", "aten.__range_length": "len(range({0}, {1}, {2}))", "aten.__derive_index": "{1} + {0} * {2}",
    "derefine": "{0}", "prim.unchecked_cast": "{0}", "aten.list.t": "list({0})", "aten.copy.t": "list({0})", "aten.sqrt.int": "math.sqrt({0})",
    "prim.CreateObject": "object()", "prim.CallMethod": "None", "prim.id": "id({0})", "prim.NumToTensor.Scalar": "{0}", "prim.dtype": "number_dtype({0})",
    "promote_dtypes": "result_type({0}, {1})", "aten.any.bool": "any({0})", "aten.all.bool": "all({0})",
}


PURE = {"aten.len.t", "aten.neg.int", "aten.neg.float", "aten.__not__", "aten.__getitem__.t", "aten.__contains__.int_list", "prim.max.int", "prim.min.int", "prim.abs.int"}


class Writer:
    def __init__(self, fn, pnames, refer):
        self.fn, self.refer, self.lines, self.names = fn, refer, [], {}
        self.const, self.ty, self.taken = {}, {}, set(pnames)
        for p, n, t in zip(fn.params, pnames, fn.ptypes):
            self.names[p], self.ty[p] = n, t

    def v(self, x):
        if x in self.const:
            return self.const[x]
        if x not in self.names:
            base = name = "v" + re.sub(r"\W", "_", x[1:])
            i = 0
            while name in self.taken:  # the same number in another region: another value
                i += 1
                name = f"{base}_{i}"
            self.taken.add(name)
            self.names[x] = name
        return self.names[x]

    def put(self, ind, s):
        self.lines.append("    " * ind + s)

    def block(self, b, ind, last):
        n = len(self.lines)
        outer = dict(self.names), dict(self.const)  # names are those of the region
        for op in b.ops:
            self.op(op, ind, last)
        self.names, self.const = outer
        if len(self.lines) == n:
            self.put(ind, "pass")

    def op(self, op, ind, last):
        n, r, a = op.name, op.results, op.operands
        short = n[6:] if n.startswith("torch.") else n
        if short.startswith("constant."):
            k = short[9:]
            t = op.attr
            self.const[r[0]] = {"none": lambda: "None", "bool": lambda: t.capitalize(), "int": lambda: f"({int(t)})" if int(t) < 0 else str(int(t)), "float": lambda: f"({float(t)!r})",
                                "str": lambda: repr(decode(ast.literal_eval(t)) if "\\" not in t else t[1:-1])}[k]()
        elif n == "return":
            self.put(ind, "return " + ", ".join(map(self.v, VALUE.findall(op.rest.split(" : ")[0]))))
        elif short in ("prim.If.yield", "prim.Loop.condition"):
            last(op, ind)
        elif short == "prim.If":
            def yielded(y, i):
                for x, u in zip(r, y.operands):
                    self.put(i, f"{self.v(x)} = {self.v(u)}")

            if len(r) == 1 and len(op.regions) == 2:
                c = self.choice(op)
                if c is not None:
                    self.put(ind, f"{self.v(r[0])} = {c}")
                    return
            for x in r:
                self.v(x)
            self.put(ind, f"if {self.v(a[0])}:")
            self.block(op.regions[0], ind + 1, yielded)
            if len(op.regions) > 1 and (op.regions[1].ops[0].name != "torch.prim.If.yield" or r):
                self.put(ind, "else:")
                self.block(op.regions[1], ind + 1, yielded)
        elif short == "prim.Loop":
            self.loop(op, ind)
        elif short == "prim.RaiseException":
            self.put(ind, "raise AssertionError()")
        elif short in ("aten.format", "aten.add.str"):
            self.const[r[0]] = "''"  # the text of a message
        elif short == "prim.Uninitialized":
            self.const[r[0]] = "None"
        elif short == "prim.ListConstruct":
            self.put(ind, f"{self.v(r[0])} = [{', '.join(map(self.v, a))}]")
        elif short == "prim.TupleConstruct":
            self.put(ind, f"{self.v(r[0])} = ({', '.join(map(self.v, a))},)")
        elif short in ("prim.TupleUnpack", "prim.ListUnpack"):
            self.put(ind, f"{', '.join(map(self.v, r))}{',' if len(r) == 1 else ''} = {self.v(a[0])}")
        elif short == "aten.append.t":
            self.put(ind, f"{self.v(a[0])}.append({self.v(a[1])})")
            if r:
                self.names[r[0]] = self.v(a[0])
        elif short == "aten.insert.t":
            self.put(ind, f"{self.v(a[0])}.insert({self.v(a[1])}, {self.v(a[2])})")
        elif short in ("aten.extend.t",):
            self.put(ind, f"{self.v(a[0])}.extend({self.v(a[1])})")
        elif short == "aten._set_item.t":
            self.put(ind, f"{self.v(a[0])}[{self.v(a[1])}] = {self.v(a[2])}")
            if r:
                self.names[r[0]] = self.v(a[0])
        elif n == "call":
            self.put(ind, f"{self.v(r[0])} = {self.refer(op.attr)}({', '.join(map(self.v, a))})")
        elif short.startswith("aten.") and short[5:] in BIN and len(a) == 2:
            o = BIN[short[5:]]
            if o.startswith("is") and self.v(a[1]) != "None":
                o = "==" if o == "is" else "!="  # of values
            self.put(ind, f"{self.v(r[0])} = {self.v(a[0])} {o} {self.v(a[1])}")
        elif short in CALL:
            self.put(ind, f"{self.v(r[0])} = {CALL[short].format(*map(self.v, a))}")
        else:
            raise Unknown(f"{n}")

    def choice(self, op):
        """`a or b`, `a and b`, as an expression: the operands are evaluated as the
        regions are"""
        c = self.v(op.operands[0])
        one = self.expr(op.regions[0])
        if one is None:
            return None
        two = self.expr(op.regions[1])
        if two is None:
            return None
        if one == "True":
            return f"{c} or {two}"
        if two == "False":
            return f"{c} and {one}"
        number = re.search(r"-> \(!torch\.(int|bool|float)\) \{$", op.rest)
        if "[" not in one + two and ("(" in one + two or number):  # a computation that cannot fail
            return f"{one} if {c} else {two}"
        return None

    def expr(self, b):
        """the value a region yields, when its operations only compute"""
        outer = dict(self.names), dict(self.const)
        got = {}
        try:
            for op in b.ops:
                n, r, a = op.name, op.results, op.operands
                short = n[6:] if n.startswith("torch.") else n
                v = lambda x: got[x] if x in got else self.v(x)
                if short.startswith("constant."):
                    self.op(op, 0, None)
                elif short == "prim.If.yield":
                    return v(op.operands[0]) if len(op.operands) == 1 else None
                elif short == "prim.If" and len(r) == 1 and len(op.regions) == 2:
                    saved = dict(self.names)
                    self.names.update(got)
                    c = self.choice(op)
                    self.names = saved
                    if c is None:
                        return None
                    got[r[0]] = f"({c})"
                elif short[:5] == "aten." and short[5:] in BIN and len(a) == 2 and not BIN[short[5:]].startswith("is"):
                    got[r[0]] = f"({v(a[0])} {BIN[short[5:]]} {v(a[1])})"
                elif short in PURE:
                    got[r[0]] = f"({CALL[short].format(*map(v, a))})"
                else:
                    return None
            return None
        finally:
            self.names, self.const = outer

    def loop(self, op, ind):
        n, c0, *init = op.operands
        at = ind
        b = op.regions[0]
        i, *carried = b.args
        outer = dict(self.names), dict(self.const)
        for x, u in zip(carried, init):
            self.put(ind, f"{self.v(x)} = {self.v(u)}")
        if self.v(c0) != "True":
            self.put(ind, f"if {self.v(c0)}:")
            ind += 1

        def again(y, k):
            c, *new = y.operands
            new = [(self.v(x), self.v(u)) for x, u in zip(carried, new)]
            if len(new) > 1 and any(u in [x for x, _ in new] for _, u in new):
                self.put(k, f"{', '.join(x for x, _ in new)} = {', '.join(u for _, u in new)}")
            else:
                for x, u in new:
                    if x != u:
                        self.put(k, f"{x} = {u}")
            if self.v(c) != "True":
                self.put(k, f"if not {self.v(c)}:")
                self.put(k + 1, "break")

        self.put(ind, f"for {self.v(i)} in range({self.v(n)}):")
        self.block(b, ind + 1, again)
        us = [self.v(u) for u in carried]
        self.names, self.const = outer
        for x, u in zip(op.results, us):
            self.put(at, f"{self.v(x)} = {u}")


def ident(name):
    m = PREFIX.match(name)
    if m:
        return m[2].replace(".", "〇") + "〡" + m[1]
    return name.split(".")[-1]


UP = "__torch__.torch.jit._shape_functions."
GEN = "library_generator."


def convert(fns, params_of):
    """(source, {our name: original}, {unsupported name: why})"""
    own, names = {}, {}
    for n in fns:
        base = ident(n)
        i = ("up_" + base) if n.startswith(UP) else base
        if not i.isidentifier() or keyword.iskeyword(i):
            i = "f_" + re.sub(r"\W", "_", i)
        if i in own:
            i = re.sub(r"\W", "_", n)
        own[i], names[n] = n, i
    chunks, bad, called = {}, {}, {}
    for n, f in fns.items():
        uses = called.setdefault(n, set())

        def refer(m):
            if m not in fns:
                raise Unknown(f"call of {m}")
            uses.add(m)
            return names[m]

        ps = params_of(names[n], len(f.params)) or [f"arg{i}" for i in range(len(f.params))]
        w = Writer(f, ps, refer)
        try:
            w.block(f.body, 1, None)
        except Unknown as e:
            bad[n] = str(e)
            continue
        chunks[n] = f"def {names[n]}({', '.join(ps)}):\n" + "\n".join(w.lines) + "\n"
    more = True
    while more:
        more = [n for n in chunks if n not in bad and called[n] & set(bad)]
        bad.update({n: "calls a function that is unsupported" for n in more})
    return "\n\n".join(chunks[n] for n in chunks if n not in bad), names, {names[n]: w for n, w in bad.items()}


_lib = None
# what the operators stand for; the checks have contracts for these two
HEAD = """import math


def number_dtype(x):
    return 11 if isinstance(x, bool) else 4 if isinstance(x, int) else 7 if isinstance(x, float) else 10


def result_type(ranks, dtypes):
    return native_result_type(ranks, dtypes)


"""


def native_result_type(ranks, dtypes):
    """torch.promote_dtypes executed: PyTorch's promotion of zero-dimensional and other tensors and of numbers"""
    import torch

    order = [torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64, torch.float16, torch.float32, torch.float64, torch.complex32, torch.complex64, torch.complex128, torch.bool, torch.qint8, torch.quint8, torch.qint32, torch.bfloat16]
    if not dtypes:
        raise IndexError("promotion of nothing")
    top = {"dim": None, "zero": None, "number": None}
    for r, d in zip(ranks, dtypes):
        d = order[d]
        if r is None and d not in (torch.int64, torch.float64):
            raise ValueError("Unhandled dtype")
        if r is None and any(x is not None for x in ranks):
            d = torch.float32 if d == torch.float64 else d
        k = "number" if r is None else "dim" if r else "zero"
        top[k] = d if top[k] is None else torch.promote_types(top[k], d)

    complex_of = {torch.float16: 8, torch.float32: 9, torch.float64: 10, torch.bfloat16: 46}
    res = None
    for d in (top["number"], top["zero"], top["dim"]):
        if d is None or res is None:
            res = res if d is None else d
        elif d.is_complex:
            res = d
        elif d.is_floating_point:
            if res.is_complex and d is top["dim"]:
                return complex_of[d]
            res = d if not res.is_complex else order[complex_of[d]]
        elif d == torch.bool or res.is_complex or res.is_floating_point:
            res = torch.promote_types(d, res)
        else:
            res = d
    return order.index(res)


def shape_lib():
    """a module like abstract_interp_lib_gen, of the functions that are embedded"""
    global _lib
    if _lib is not None:
        return _lib
    py = load.shape_lib()
    up = py.upstream_shape_functions

    def original(i):
        return getattr(up, i[3:], None) if i.startswith("up_") else getattr(py, i, None)

    def params_of(i, n):
        f = original(i)
        f = getattr(f, "__wrapped__", f)
        if not inspect.isfunction(f):
            return None
        ps = list(inspect.signature(f).parameters)
        return ps if len(ps) == n else None

    unread = {}
    fns = parse(text(), unread)
    src, names, bad = convert(fns, params_of)
    bad.update(unread)
    head = HEAD
    src = head + src
    d = os.path.join("/tmp", f"verif-embedded-{os.getuid()}")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "embedded_" + hashlib.sha1(src.encode()).hexdigest()[:12] + ".py")
    if not os.path.exists(path):
        with open(path + f".{os.getpid()}", "w", encoding="utf-8") as f:
            f.write(src)
        os.replace(path + f".{os.getpid()}", path)
    spec = importlib.util.spec_from_file_location("verif_embedded", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.native_result_type = native_result_type
    upns = types.SimpleNamespace(__file__=path)
    for n, i in names.items():
        f = getattr(m, i, None)
        if f is None:
            continue
        o = original(i)
        if inspect.isfunction(o) and len(inspect.signature(o).parameters) == len(fns[n].params):
            f.__signature__ = inspect.signature(o)
        f._embedded = n
        if n.startswith(UP):
            setattr(upns, i[3:], f)
    m.upstream_shape_functions = upns
    m._pyvc_invocations = py._pyvc_invocations
    m._functions, m._names, m._unsupported = fns, names, bad
    _lib = m
    return m
