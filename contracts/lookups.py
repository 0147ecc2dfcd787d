"""Contracts of lookups by name: the first valid item of that name, or the first one if none is valid."""
import z3

from pyvc.core import zbool, zint
from pyvc.engine import Contract, Eq, NoneOf, Only
from pyvc.models import memo_str
from pyvc.values import *  # noqa: F401,F403
from .edits import at, md_rest, remake
from .schema import LINES, text
from .sections import normalized, sectionid, some


def tagmatch(it, x, name):
    return zbool(it.ctx.seq(memo_str(it, "capitalize", it.getattr(x, "name")), memo_str(it, "capitalize", name)))


def macromatch(it, x, name):
    return zbool(it.ctx.seq(it.getattr(x, "name"), name))


def preds(it, match, name):
    return {"match": it.pred(match.__name__, name, lambda it, x: match(it, x, name)),
            "valid": it.pred(match.__name__ + "+valid", name,
                             lambda it, x: z3.And(match(it, x, name), zbool(it.getattr(x, "valid"))))}


def scan(match):
    return lambda it, a: {"list": it.getattr(a.self, "data"), "preds": preds(it, match, a.name)}


def chosen(it, a, match, p):
    """goals: the item at position p is what a lookup gives"""
    d = it.getattr(a.self, "data")
    ch = it.chunks(d)
    x = ch[p][1]
    k = preds(it, match, a.name)
    out = [("the item has the name", match(it, x, a.name))]
    if a.get("position") is not None:
        return out + [("the item is at the position", zint(
            it.call(it.getattr(x, "get_position"), [a.self], {})) == zint(a.position))]
    if it.truth(it.getattr(x, "valid")):
        return out + [("no valid item of that name is above", NoneOf(ch[:p], k["valid"]))]
    return out + [("no item of that name is valid", NoneOf(ch[:p] + ch[p + 1:], k["valid"])),
                  ("no item of that name is above", NoneOf(ch[:p], k["match"]))]


def absent(it, a, match):
    if a.get("position") is not None:
        return []
    d = it.getattr(a.self, "data")
    return [("there is no item of that name", NoneOf(it.chunks(d), preds(it, match, a.name)["match"]))]


def find(target, match, props=("C14",)):
    def ensures(it, a, r, old):
        d = it.getattr(a.self, "data")
        n = zint(it.chunklen(it.chunks(d)))
        out = [("index is within bounds", z3.And(zint(r) >= 0, zint(r) < n))]
        goals = []

        def rest(i):
            def go():
                if not goals:
                    goals.extend(chosen(it, a, match, it.locate(d, r)))
                return goals[i][1] if i < len(goals) else True
            return go
        return out + [(nm, rest(i)) for i, nm in enumerate((
            "the item has the name", "the item is the first valid one (or at the position)", "the item is the first one"))]

    return Contract(target, {"name": "line", "position": ("opt", "int")}, "nat", ensures=ensures, raises=("ValueError",),
                    exceptional=lambda it, a, old, exc: absent(it, a, match), scan=scan(match),
                    cases=[{"position": "none"}, {"position": "int"}], props=props)



def untouched(it):
    return Only(lambda: not [o for o, f in it.writes if o.birth <= it.limit])


def place(it, L, x):
    return next((p for p, (k, y) in enumerate(it.chunks(L)) if k == "e" and y is x), None)


def lazily(it, goals, n):
    """goals that are worked out one after another"""
    def rest(i):
        def go():
            if not goals:
                goals.extend(n[0]())
            return goals[i][1] if i < len(goals) else True
        return go
    return [(nm, rest(i)) for i, nm in enumerate(n[1])]


CHOSEN = ("the item has the name", "the item is the first valid one (or at the position)", "the item is the first one")


def get(target, match, raises, position=True, props=("C14",)):
    def ensures(it, a, r, old):
        d = it.getattr(a.self, "data")
        p = place(it, d, r)
        if p is None:
            return [("the result is an item of the list", False)]
        goals = []
        return lazily(it, goals, (lambda: chosen(it, a, match, p), CHOSEN))

    return Contract(target, {"name": "line", **({"position": ("opt", "int")} if position else {})}, some, ensures=ensures,
                    raises=(raises,), exceptional=(lambda it, a, old, exc: absent(it, a, match)) if position else None,
                    cases=[{"position": "none"}, {"position": "int"}] if position else None, props=props)


def contains(target, match, props=("C14",)):
    return Contract(target, {"name": "line"}, "bool", scan=scan(match), ensures=lambda it, a, r, old: [
        ("no item has the name if the result is false", lambda: True if it.truth(r) else NoneOf(
            it.chunks(it.getattr(a.self, "data")), preds(it, match, a.name)["match"]))], props=props)


def assignment(target, match, inside, cls, field, t="str", arg="name", props=("C11",)):
    """assigning by name changes one value and nothing else"""
    def pre(it, a):
        d = it.getattr(a.self, "data")
        it.chunks(d)
        return {"data": d, "was": list(d.chunks)}

    def havoc(it, a):
        remake(it, a)
        a.self.f["$remade"] = True

    def ensures(it, a, r, old):
        if a.self.f.get("$remade"):
            return []   # callers learn nothing
        d = it.getattr(a.self, "data")
        now, was = it.chunks(d), it.expand(old.was)
        ws = [(o, f) for o, f in it.writes if o.birth <= it.limit]
        if not ws or all(o is a.self and f == "$other" for o, f in ws):
            if inside is None:
                return []
            return [("there is no item of that name", NoneOf(now, preds(it, inside, a[arg])["match"]))]
        if isinstance(a.value, SObj):
            p = place(it, d, a.value)
            if p is None or len(now) != len(was):
                return [("the item takes the place of another one", False)]
            return [("all other items are kept", d is old.data and all(o is d and f is None for o, f in ws)
                     and all(x == y and (u is v or i == p) for i, ((x, u), (y, v)) in
                                                      enumerate(zip(was, now)))),
                    ("the replaced item has the name", match(it, was[p][1], a[arg]))]
        xs = {id(o): o for o, f in ws}
        x = next(iter(xs.values()))
        p = place(it, d, x)
        goals = []
        if p is None:
            return [("an item is changed", False)]
        return [("one attribute of one item is set", len(xs) == 1 and all(f == field for _, f in ws)
                 and it.getattr(x, field) is a.value),
                ("all items are kept", d is old.data and len(now) == len(was) and all(
                    k == l and u is v for (k, u), (l, v) in zip(was, now)))] + (lazily(
                        it, goals, (lambda: chosen(it, a, match, p), CHOSEN)) if inside else [
                            ("the item has the name", match(it, x, a[arg]))])

    return Contract(target, {arg: "line", "value": ("union", (t, ("obj", cls)))}, "none", pre=pre, ensures=ensures,
                    raises=("AttributeError",), modifies=("self",), cases=[{"value": t}, {"value": ("obj", cls)}],
                    exceptional=lambda it, a, old, exc: [("nothing is changed", untouched(it))],
                    havoc=havoc, props=props)


def removal(target, rest, props=("C12",)):
    """deleting by name deletes the item that a lookup gives (rest: text of the container without it)"""
    def pre(it, a):
        d = it.getattr(a.self, "data")
        try:
            i = it.call(it.getattr(a.self, "find"), [a.name], {})
        except PyExc:
            return {"t": None}
        return {"t": rest(it, a.self, *at(it, d, i)), "n": it.chunklen(it.chunks(d))}

    def ensures(it, a, r, old):
        if old.t is None:
            return [("a name that is not there is refused", False)]
        return [("only the lines of the item are removed", Eq(text(it, a.self), old.t)),
                ("one item less", lambda: zint(it.chunklen(it.chunks(it.getattr(a.self, "data")))) == zint(old.n) - 1)]

    return Contract(target, {"name": "line"}, "none", pre=pre, ensures=ensures, raises=("AttributeError",),
                    modifies=("self",), exceptional=lambda it, a, old, exc: [("nothing is changed", untouched(it))], havoc=remake, props=props)


def section_removal(target):
    def pre(it, a):
        d = it.getattr(a.self, "data")
        return {"data": d, "was": list(it.chunks(d))}

    def ensures(it, a, r, old):
        if "data" not in a.self.f:
            return []
        d = it.getattr(a.self, "data")
        now, was = it.chunks(d), it.expand(old.was)
        gone = [x for k, x in was if k == "e" and not any(x is y for _, y in now)]
        left = [x for _, x in was if not any(x is y for y in gone)]
        return [("one section is removed, all others are kept", d is old.data and len(gone) == 1 and len(left) == len(now)
                 and all(x is y for x, (_, y) in zip(left, now)) and all(
                     o is d and f is None for o, f in it.writes if o.birth <= it.limit)),
                ("the section has the id", sectionmatch(it, gone[0], a.id) if gone else False)]

    return Contract(target, {"id": "line"}, "none", pre=pre, ensures=ensures, raises=("AttributeError",),
                    modifies=("self",), exceptional=lambda it, a, old, exc: [("nothing is changed", untouched(it))], havoc=remake, props=("C12",))


def tagin(it, x, name):
    return zbool(it.ctx.seq(memo_str(it, "lower", it.getattr(x, "name")), memo_str(it, "lower", name)))


def sectionmatch(it, x, name):
    return zbool(it.ctx.seq(normalized(it, x), sectionid(it, name)))


CONTRACTS = [
    assignment("sections:Sections.__setattr__", sectionmatch, None, "Section", "data", t=LINES, arg="id"),
    section_removal("sections:Sections.__delattr__"),
    removal("macro_definitions:MacroDefinitions.__delattr__", md_rest),
    find("tags:Tags.find", tagmatch),
    find("macro_definitions:MacroDefinitions.find", macromatch),
    get("tags:Tags.get", tagmatch, "ValueError"),
    get("macro_definitions:MacroDefinitions.get", macromatch, "ValueError"),
    get("tags:Tags.__getattr__", tagmatch, "AttributeError", position=False),
    get("macro_definitions:MacroDefinitions.__getattr__", macromatch, "AttributeError", position=False),
    contains("tags:Tags.__contains__", tagin),
    contains("macro_definitions:MacroDefinitions.__contains__", macromatch),
    assignment("tags:Tags.__setattr__", tagmatch, tagin, "Tag", "value"),
    assignment("macro_definitions:MacroDefinitions.__setattr__", macromatch, macromatch, "MacroDefinition", "body"),
]
