"""Contracts of Options: the option that counts is the last one; other tokens are kept."""
import z3

from pyvc.core import mkstr, zbool, zint, zstr
from pyvc.engine import Contract, Eq, NoneOf, Only
from pyvc.models import find_from
from pyvc.values import *  # noqa: F401,F403
from .lookups import lazily
from .schema import L


def starts(it, s, p):
    return zbool(it.call(it.getattr(s, "startswith"), [p], {}))


def pred(it, name):
    return it.pred("option", name, lambda it, x: starts(it, it.getattr(x, "value"), mkstr("-", name)))


def white(it, x):
    return it.equal(it.getattr(x, "type"), it.getattr(it.world.classes["TokenType"], "WHITESPACE"))


def argument(it, a, ch, p):
    """index (relative to the option) of the argument of the option at position p: 0 is the option itself"""
    x = ch[p][1]
    if not it.truth(it.ctx.seq(it.getattr(x, "value"), mkstr("-", a.name))):
        return 0
    if not it.truth(it.call(it.getattr(a.self, "_requires_argument"), [a.name], {})):
        return None
    rest = it.mkchunks(ch[p + 1:])
    if not it.front(rest):
        return None
    n = 1
    if it.truth(white(it, it.chunks(rest)[0][1])):
        n = 2
        rest = it.mkchunks(it.chunks(rest)[1:])
        if not it.front(rest):
            return None
    if it.truth(starts(it, it.getattr(it.chunks(rest)[0][1], "value"), "-")):
        return None
    return n


def found(it, a, r, old):
    d = it.getattr(a.self, "_tokens")
    i, j = r
    if i is None:
        return [("no argument without an option", j is None),
                ("there is no such option", NoneOf(it.chunks(d), pred(it, a.name)))]
    goals = []

    def rest():
        p = it.locate(d, i)
        ch = it.chunks(d)
        out = [("", pred_holds(it, ch[p][1], a.name)), ("", NoneOf(ch[p + 1:], pred(it, a.name)))]
        n = argument(it, a, ch, p)
        return out + [("", j is None if n is None else False if j is None else zint(j) == zint(i) + n)]
    return [("index is within bounds", z3.And(zint(i) >= 0, zint(i) < zint(it.chunklen(it.chunks(d)))))] + lazily(
        it, goals, (rest, ("the token is the option", "it is the last one", "the argument is the token that follows")))


def pred_holds(it, x, name):
    return starts(it, it.getattr(x, "value"), mkstr("-", name))


def scan(it, a):
    return {"list": it.getattr(a.self, "_tokens"), "preds": {"option": pred(it, a.name)}}


REQUIRES = z3.Function("requires argument", z3.StringSort(), z3.StringSort(), z3.BoolSort())
VALID = z3.Function("valid option", z3.StringSort(), z3.StringSort(), z3.BoolSort())


def fn(f, it, a, n):
    return f(zstr(it.ctx.norm(it.getattr(a.self, "optstring"))), zstr(it.ctx.norm(a[n])))


def known(n):
    """precondition: n is the letter of a known option"""
    def requires(it, a):
        o, x = zstr(it.ctx.norm(it.getattr(a.self, "optstring"))), zstr(it.ctx.norm(a[n]))
        return [("the option is known", fn(VALID, it, a, n)), ("the name of the option is a letter", z3.And(
            z3.Length(x) == 1, x != z3.StringVal(":"), z3.Contains(o, x)))]
    return requires


def requires(it, a, r, old):
    return [("an argument is required if a colon follows", Only(lambda: zbool(r) == starts(it, old.rest, ":")))]


def valid(it, a, r, old):
    letters = it.call(it.getattr(it.getattr(a.self, "optstring"), "replace"), [":", ""], {})
    return [("an option is valid if it is in the string", Only(lambda: zbool(r) == zbool(it.contains(letters, a.name))))]


CONTRACTS = [
    Contract("options:Options._requires_argument", {"option": "line"}, lambda it, a: fn(REQUIRES, it, a, "option"),
             requires=known("option"), ensures=requires,
             pre=lambda it, a: {"rest": find_from(it, it.getattr(a.self, "optstring"), a.option, 0)[2]}, modifies=(), props=("C24",)),
    Contract("options:Options._valid_option", {"name": "line"}, lambda it, a: fn(VALID, it, a, "name"), ensures=valid,
             modifies=(), props=("C24",)),
    Contract("options:Options._find_option", {"name": "line"}, ("tuple", (("opt", "nat"), ("opt", "nat"))),
             requires=known("name"), ensures=found, scan=scan, plain=True, modifies=(), props=("C24",)),
]
