"""Contracts of release strings, file names and changelog entries."""
import z3

from pyvc.core import _ALIVE, _parts, mkstr, zbool, zint
from pyvc.engine import Contract, Eq, Only
from pyvc.values import *  # noqa: F401,F403


def only(ensures):
    """callers learn nothing from the goals"""
    return lambda it, a, r, old: [(nm, Only(g)) for nm, g in ensures(it, a, r, old)]


def behind(it, v, p):
    """what follows p in v, or None if v does not start with p"""
    v, p = list(_parts(it.ctx.norm(v))), list(_parts(it.ctx.norm(p)))
    for x in p:
        if not v:
            return None
        y = v.pop(0)
        if isinstance(x, str) and isinstance(y, str) and y.startswith(x):
            if y[len(x):]:
                v.insert(0, y[len(x):])
        elif isinstance(x, str) or isinstance(y, str) or not x.eq(y):
            return None
    return mkstr(*v)


def number(it, s):
    """value of a string of digits, or None"""
    p = _parts(it.ctx.norm(s))
    if len(p) != 1 or not isinstance(p[0], str) and p[0].get_id() not in it.ctx.digits:
        return None
    return it.call(Builtin("int"), [mkstr(*p)], {})


def splits(it, a, r, old):
    rel, dist, minor = r
    if dist is None:
        return [("the release is the whole string if it has no dist", Eq(rel, old.v)),
                ("no minor bump without dist", minor is None)]
    rest = behind(it, old.v, mkstr(rel, dist))
    if rest is None:
        return [("the string starts with release and dist", False)]
    one = z3.Or([zbool(it.ctx.seq(dist, x)) for x in ("%dist", "%{dist}", "%{?dist}")])
    if minor is None:
        return [("the string ends with dist", Eq(rest, "")), ("dist is one of the notations of the macro", one)]
    n = behind(it, rest, ".")
    n = None if n is None else number(it, n)
    return [("dist is one of the notations of the macro", one),
            ("a minor bump follows dist", False if n is None else zint(n) == zint(minor))]


def split(it, a):
    """the result for a caller, who learns what the parts make up"""
    ctx, v = it.ctx, a.raw_release
    if ctx.choice(2, "dist") == 0:
        return (v, None, None)
    rel, dist = it.fresh("line", "release"), it.fresh("line", "dist")
    ctx.assume(z3.Or([zbool(ctx.seq(dist, x)) for x in ("%dist", "%{dist}", "%{?dist}")]))
    if ctx.choice(2, "minor") == 0:
        ctx.assume_eq(v, mkstr(rel, dist))
        return (rel, dist, None)
    ctx.assume_eq(v, mkstr(rel, dist, ".", it.fresh("line", "minor")))
    return (rel, dist, it.fresh("nat", "minor"))


def updated(it, a, r, old):
    """the new release followed by the dist of the old one"""
    _, dist, _ = it.call(it.getattr(a.cls, "_split_raw_release"), [old.v], {})
    return [("the result is the release followed by dist", Eq(r, mkstr(a.release, "" if dist is None else dist)))]


def bumped(it, a, r, old):
    """one number is increased by one, or .1 is appended; nothing else changes"""
    def goal():
        ctx = it.ctx
        q = list(_parts(ctx.norm(r)))
        alt = [zbool(ctx.seq(r, mkstr(old.v, ".1")))]
        for i, x in enumerate(q):
            n = None if isinstance(x, str) else ctx.hints.get(("sint", x.get_id()))
            for d in sorted(ctx.digits) if n is not None else ():
                m = ctx.hints.get(("sint", d))
                if m is not None and ctx.known(zint(n) == zint(m) + 1):
                    alt.append(zbool(ctx.seq(old.v, mkstr(*q[:i], _ALIVE[d], *q[i + 1:]))))
        return z3.Or(alt)
    return [("one number is increased by one, or .1 is appended", goal)]


CONTRACTS = [
    Contract("specfile:Specfile._split_raw_release", {"raw_release": "line"},
             split, pre=lambda it, a: {"v": a.raw_release}, ensures=only(splits), pure=True, props=("C20",)),
    Contract("specfile:Specfile._get_updated_release", {"raw_release": "line", "release": "line"}, "line",
             pre=lambda it, a: {"v": a.raw_release}, ensures=updated, props=("C20",)),
    Contract("specfile:Specfile._bump_release_string", {"release_string": "line"}, "line",
             pre=lambda it, a: {"v": a.release_string}, ensures=only(bumped), props=("C20",)),
    Contract("utils:get_filename_from_location", {"location": "str"}, "str", pre=lambda it, a: {"v": a.location},
             ensures=lambda it, a, r, old: [("the name is at the end of the location", it.call(
                 it.getattr(old.v, "endswith"), [r], {}))], props=("C15", "C17")),
]
