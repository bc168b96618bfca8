"""Symbolic inputs from parameter annotations of shape/dtype functions."""
import inspect
import re
import typing

from .ctx import z3, cur
from .sval import SList
from . import sval as S


def params(fn):
    """[(name, kind, default)] with kind a small type language."""
    out = []
    for p in inspect.signature(fn).parameters.values():
        out.append((p.name, kind_of(p.annotation), p.default))
    return out


def kind_of(a):
    if a is int:
        return "int"
    if a is bool:
        return "bool"
    if a is float:
        return "float"
    if a is str:
        return "str"
    o, args = typing.get_origin(a), typing.get_args(a)
    if o is list:
        return ("list", kind_of(args[0]))
    if o is tuple:
        return ("tuple",) + tuple(kind_of(x) for x in args)
    if o is typing.Union and type(None) in args:
        rest = [x for x in args if x is not type(None)]
        if len(rest) == 1:
            return ("opt", kind_of(rest[0]))
        return ("opt", ("union",) + tuple(kind_of(x) for x in rest))
    if o is typing.Union:
        return ("union",) + tuple(kind_of(x) for x in args)
    return "any"


class SymInputs:
    """Creates symbolic arguments; ranks is None (unbounded) or a dict/limit."""

    def __init__(self, ranks=None, opt_choice=None, str_choices=None):
        self.ranks = ranks  # name -> concrete length (bounded mode)
        self.names = []

    def make(self, name, kind, choice):
        """choice: dict of concrete discrete decisions for this variant"""
        ctx = cur()
        if kind == "int":
            return z3.Int(name)
        if kind == "bool":
            return z3.Bool(name)
        if kind == "float":
            return z3.Real(name)
        if kind == "str":
            return choice[name]
        if kind == "any":
            return choice.get(name)
        if kind[0] == "opt":
            if choice[name + "?"]:
                return self.make(name, kind[1], choice)
            return None
        if kind[0] == "list":
            return self.make_list(name, kind[1], choice)
        if kind[0] == "union":
            return self.make(name, kind[1 + choice.get(name + "|", 0)], choice)
        if kind[0] == "tuple":
            return tuple(
                self.make(f"{name}_{i}", k, choice) for i, k in enumerate(kind[1:])
            )
        raise KeyError(kind)

    def make_list(self, name, ek, choice):
        if self.ranks is None:
            n = z3.Int(f"len_{name}")
            cur().assume(n >= 0)
            if ek == "int":
                F = z3.Function(name, z3.IntSort(), z3.IntSort())
                return SList(n, lambda i: F(S.zterm(i)), name)
            if ek == ("list", "int"):
                F = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
                L = z3.Function("len_" + name + "_i", z3.IntSort(), z3.IntSort())
                i = z3.Int("i!" + name)
                cur().assume(z3.ForAll([i], L(i) >= 0, patterns=[L(i)]))
                return SList(
                    n,
                    lambda i: SList(
                        L(S.zterm(i)),
                        lambda j, i=i: F(S.zterm(i), S.zterm(j)),
                    ),
                    name,
                )
            from .ctx import Unsupported

            raise Unsupported(f"unbounded input of kind list of {ek}")
        n = self.ranks[name]
        if ek == "int":
            return [z3.Int(f"{name}_{i}") for i in range(n)]
        return [
            self.make(f"{name}_{i}", ek, choice) for i in range(n)
        ]
