"""Contracts of edits of lists: the text of everything but the edited item is kept."""
import z3

from pyvc.core import mkstr, zint
from pyvc.engine import Contract, Eq
from pyvc.values import *  # noqa: F401,F403
from .schema import text


def remake(it, a):
    a.self.f.clear()
    a.self.lazy = True


def at(it, L, i):
    """(chunks before, element, chunks after) of an index, or None if it is out of range"""
    try:
        p = it.locate(L, i)
    except PyExc:
        return None
    ch = it.chunks(L)
    return ch[:p], ch[p][1], ch[p + 1:]


def deletion(target, rest, props=("C12",)):
    """deleting an item by index; rest: text of the container without it"""
    def pre(it, a):
        d = it.getattr(a.self, "data")
        n = it.chunklen(it.chunks(d))
        x = at(it, d, a.i)
        return {"t": None if x is None else rest(it, a.self, *x), "n": n}

    def ensures(it, a, r, old):
        if old.t is None:
            return [("an index out of range is refused", False)]
        return [("only the lines of the item are removed", Eq(text(it, a.self), old.t)),
                ("one item less", lambda: zint(it.chunklen(it.chunks(it.getattr(a.self, "data")))) == zint(old.n) - 1)]

    return Contract(target, {"i": "int"}, "none", pre=pre, ensures=ensures, raises=("IndexError",), modifies=("self",),
                    exceptional=lambda it, a, old, exc: [("the index is out of range", old.t is None)],
                    havoc=remake, props=props)


def md_rest(it, o, before, x, after):
    return mkstr(it.cview(before, "text"), text(it, it.getattr(x, "_preceding_lines")), it.cview(after, "text"),
                 text(it, it.getattr(o, "_remainder")))


def centry_rest(it, o, before, x, after):
    """the entry goes with its header, its content and the blank line below"""
    fl = it.getattr(x, "_following_lines")
    left, keep, _ = it.slice(it.mkchunks(it.chunks(fl)), 1, None)
    return mkstr(text(it, it.getattr(o, "_predecessor")), it.cview(after, "rtext"), it.cview(keep, "text"),
                 it.cview(before, "rtext"))


def nb(it, L):
    return it.cview(it.chunks(L), "nb")


def tag_deletion():
    """as deletion(), but empty lines around the place may be dropped or added"""
    def tail(it, o, x, after):
        """text from tag x (None: below the last one) on, without empty lines above it"""
        rem = it.getattr(o, "_remainder")
        if x is None:
            return nb(it, rem)
        c = it.getattr(x, "comments")
        return mkstr(nb(it, it.getattr(c, "_preceding_lines")), text(it, it.getattr(c, "data")), *[
            it.getattr(x, n) for n in ("_prefix", "name", "_separator", "value", "_suffix")], "\n",
            it.cview(after, "text"), text(it, rem))

    def pre(it, a):
        d = it.getattr(a.self, "data")
        n = it.chunklen(it.chunks(d))
        x = at(it, d, a.i)
        if x is None:
            return {"t": None}
        before, t, rest = x[0], x[1], it.mkchunks(x[2])
        below = it.chunks(rest)[0][1] if it.front(rest) else None
        pl = it.getattr(it.getattr(t, "comments"), "_preceding_lines")
        return {"t": mkstr(it.cview(before, "text"), nb(it, pl), tail(it, a.self, below, it.chunks(rest)[1:])),
                "n": n, "below": below}

    def ensures(it, a, r, old):
        if old.t is None:
            return [("an index out of range is refused", False)]
        d = it.chunks(it.getattr(a.self, "data"))
        size = ("one item less", lambda: zint(it.chunklen(d)) == zint(old.n) - 1)
        if a.self.lazy and "$remade" in a.self.f:
            return [size]   # callers learn only this

        def goal():
            p = len(d)
            if old.below is not None:
                p = next((i for i, c in enumerate(d) if c[1] is old.below), None)
                if p is None:
                    return False
            return Eq(mkstr(it.cview(d[:p], "text"), tail(it, a.self, old.below, d[p + 1:])), old.t)
        return [("only the lines of the tag are removed", goal), size]

    def havoc(it, a):
        remake(it, a)
        a.self.f["$remade"] = True

    return Contract("tags:Tags.__delitem__", {"i": "int"}, "none", pre=pre, ensures=ensures, raises=("IndexError",),
                    modifies=("self",), exceptional=lambda it, a, old, exc: [("the index is out of range", old.t is None)],
                    havoc=havoc, props=("C12",))


def insertion(target, cls, above, props=("C13",)):
    """inserting an item at a non-negative index; above: the list of lines above an item that belong to it"""
    def setup(it, a):
        a.self.lazy = True
        a["item"] = it.fresh(("obj", cls), "item")

    def pre(it, a):
        d = it.getattr(a.self, "data")
        n = it.chunklen(it.chunks(d))
        it.e.spec.materialise(it, a.item)
        L = above(it, a.item)
        return {"t": text(it, a.self), "n": n, "above": list(it.chunks(L)), "item": text(it, a.item)}

    def ensures(it, a, r, old):
        if a.self.lazy and "$remade" in a.self.f:
            return []
        d = it.chunks(it.getattr(a.self, "data"))
        p = next((i for i, c in enumerate(d) if c[1] is a.item), None)
        if p is None:
            return [("the item is in the list", False)]
        ab, was = it.chunks(above(it, a.item)), it.expand(old.above)
        k = len(ab) - len(was)
        moved = ab[:k]

        def last():
            if not moved:
                return True
            x = it.mkchunks(moved)
            return it.back(x) is False or it.truth(it.call(it.getattr(it.chunks(x)[-1][1], "startswith"), ["%endif"], {}))
        return [
            ("the item keeps its text", Eq(text(it, a.item), mkstr(it.cview(moved, "text"), old.item))),
            ("all other lines are kept", Eq(mkstr(it.cview(d[:p], "text"), it.cview(moved, "text"), it.cview(d[p + 1:], "text"),
                                                  text(it, it.getattr(a.self, "_remainder"))), old.t)),
            ("the item is at the index", lambda: zint(it.chunklen(d[:p])) == z3.If(
                zint(a.i) < zint(old.n), zint(a.i), zint(old.n))),
            ("one item more", lambda: zint(it.chunklen(d)) == zint(old.n) + 1),
            ("only lines up to the end of a condition go above the item", last)]

    def havoc(it, a):
        remake(it, a)
        a.self.f["$remade"] = True

    return Contract(target, {"i": "nat", "item": ("obj", cls)}, "none", setup=setup, pre=pre, ensures=ensures,
                    modifies=("self", "item"), havoc=havoc, props=props)


CONTRACTS = [
    insertion("tags:Tags.insert", "Tag", lambda it, o: it.getattr(it.getattr(o, "comments"), "_preceding_lines")),
    tag_deletion(),
    deletion("prep:PrepMacros.__delitem__", md_rest),
    deletion("macro_definitions:MacroDefinitions.__delitem__", md_rest),
    deletion("changelog:Changelog.__delitem__", centry_rest),
]
