"""Contracts of the value parser: nodes make up the value."""
import z3

from pyvc.core import mkstr, zint
from pyvc.engine import Contract, Eq
from pyvc.values import *  # noqa: F401,F403
from .schema import L, cat, text

PAIRS = {"(": ")", "{": "}", "[": "]"}


def char(it, s, i):
    """character of s at offset i (which must be in range)"""
    _, r = it.ctx.cut(s, i)
    c, _ = it.ctx.cut(r, 1)
    return c


def inrange(it, a):
    return [("index is in the value", z3.And(zint(a.index) >= 0, zint(a.index) < zint(it.ctx.slen(a.value))))]


def opening(it, a):
    c = char(it, a.value, a.index)
    for o, e in PAIRS.items():
        if it.truth(it.ctx.seq(c, o)):
            return e
    return None


def isopening(it, a):
    return inrange(it, a) + [("there is an opening bracket at the index", lambda: opening(it, a) is not None)]


def ends(it, a, r, old):
    """the end of a macro: behind the matching bracket if it starts with one"""
    if r is None:
        return []

    def closed():
        e = opening(it, a)
        return True if e is None else zint(r) >= zint(a.index) + 2

    def closing():
        e = opening(it, a)
        return True if e is None else Eq(char(it, a.value, zint(r) - 1), e)
    return [("the end is not before the index", zint(r) >= zint(a.index)),
            ("the end is in the value", zint(r) <= zint(it.ctx.slen(a.value))),
            ("brackets enclose something", closed), ("the closing bracket is at the end", closing)]


def pairs(it):
    return SDict(dict(PAIRS), it.birth())


def node(cls, args, value):
    """a constructor of a node keeps the text of its arguments"""
    def havoc(it, a):
        a.self.f.clear()
        a.self.lazy = True
    return Contract(f"value_parser:{cls}.__init__", args, "none", pre=lambda it, a: {"t": value(it, a)},
                    ensures=lambda it, a, r, old: [("text of the node", Eq(text(it, a.self), old.t))]
                    + it.e.spec.invariant(it, a.self),
                    havoc=havoc, modifies=("self",), setup=lambda it, a: None, props=("C08",))


CONTRACTS = [
    Contract("value_parser:ValueParser.parse.find_matching_parenthesis", {"index": "nat"}, ("opt", "nat"),
             requires=isopening, ensures=ends, closure={"value": "str", "pairs": pairs}, props=("C08",)),
    Contract("value_parser:ValueParser.parse.find_macro_end", {"index": "nat"}, ("opt", "nat"),
             requires=inrange, ensures=ends, closure={"value": "str", "pairs": pairs}, props=("C08",)),
    node("MacroSubstitution", {"body": "str"}, lambda it, a: mkstr("%", a.body)),
    node("EnclosedMacroSubstitution", {"body": "str"}, lambda it, a: mkstr("%{", a.body, "}")),
    node("ConditionalMacroExpansion", {"condition": "str", "body": L("Node")},
         lambda it, a: mkstr("%{", a.condition, ":", cat(it, a.body), "}")),
]
