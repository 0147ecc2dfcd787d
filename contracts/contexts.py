"""Contracts of context managers: a context opened inside of an open one with the same arguments shares its value, and
the generator of the outermost one is resumed exactly once, whatever happens inside."""
from pyvc.core import Unsupported
from pyvc.engine import Contract, Only
from pyvc.models import run_cm
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNDEF

ABSENT = object()


class Key(Opaque):
    def __init__(self, leaves):
        super().__init__("key")
        self.leaves = leaves


def leaves(it, v):
    """parts of a pickled payload"""
    if isinstance(v, tuple):
        return [y for x in v for y in leaves(it, x)]
    if isinstance(v, SList):
        return [y for k, x in it.chunks(v) for y in (leaves(it, x) if k == "e" else [x])]
    return [v]


def make_key(it, payload):
    return Key(leaves(it, payload))


def alike(x, y):
    return x is y or isinstance(x, (str, int, bool)) and type(x) is type(y) and x == y


class Gen(External):
    """generator of the decorated function, which yields exactly once; it may raise before and after"""

    def __init__(self, it, state):
        super().__init__("generator")
        self.state = state
        self.log = []
        self.value = Opaque("any")
        self.frame = Opaque("frame")

    def m_attr(self, it, name, default):
        if name == "gi_frame":
            return None if self.state == "exhausted" else self.frame
        if name == "close":
            def close(it, args, kwargs):
                self.log.append("close")
                self.state = "exhausted"
            return Method("close", close)
        if name == "__next__":
            return Method("__next__", lambda it, args, kwargs: self.m_next(it, UNDEF))
        return super().m_attr(it, name, default)

    def m_truth(self, it):
        return True

    def m_next(self, it, default):
        self.log.append("next")
        if self.state == "fresh":
            if it.ctx.choice(2, "function raises"):
                self.state = "exhausted"
                raise PyExc("FunctionError")
            self.state = "suspended"
            return self.value
        if self.state == "suspended":
            self.state = "exhausted"
            if it.ctx.choice(2, "wrapping up raises"):
                raise PyExc("WrapUpError")
        if default is UNDEF:
            raise PyExc("StopIteration")
        return default


class Function(External):
    def __init__(self):
        super().__init__("function")
        self.log = []

    def m_call(self, it, args, kwargs):
        g = Gen(it, "fresh")
        self.log.append((args, kwargs, g))
        return g


class Map(External):
    """dictionary; all that matters is what it holds for the key of the call"""

    def __init__(self, name, initial):
        super().__init__("map " + name)
        self.key = None
        self.v = initial
        self.writes = 0

    def at(self, k):
        if self.key is None and isinstance(k, Key):
            self.key = k
        if k is not self.key:
            if not isinstance(k, Key) or len(k.leaves) != len(self.key.leaves) or not all(
                    alike(x, y) for x, y in zip(k.leaves, self.key.leaves)):
                raise Unsupported("another key")

    def m_contains(self, it, k):
        self.at(k)
        return self.v is not ABSENT

    def m_getitem(self, it, k):
        self.at(k)
        if self.v is ABSENT:
            raise PyExc("KeyError")
        return self.v

    def m_setitem(self, it, k, v):
        self.at(k)
        self.writes += 1
        self.v = v

    def m_delitem(self, it, k):
        self.m_getitem(it, k)
        self.writes += 1
        self.v = ABSENT

    def m_attr(self, it, name, default):
        if name == "get":
            def get(it, args, kwargs):
                self.at(args[0])
                return (args[1] if len(args) > 1 else None) if self.v is ABSENT else self.v
            return Method("get", get)
        if name == "pop":
            def pop(it, args, kwargs):
                self.at(args[0])
                v = self.v
                if v is ABSENT:
                    if len(args) > 1:
                        return args[1]
                    raise PyExc("KeyError")
                self.writes += 1
                self.v = ABSENT
                return v
            return Method("pop", pop)
        if name in ("setdefault", "clear", "keys", "items", "values", "update", "popitem", "copy"):
            self._no(name)
        return super().m_attr(it, name, default)


class Items(External):
    def __init__(self, it):
        super().__init__("items")
        self.sorted = it.newseg("any")
        self.unsorted = it.newseg("any")
        it.ctx.assume(it.seglen(self.sorted) == it.seglen(self.unsorted))

    def m_sorted(self, it, kwargs):
        if kwargs:
            self._no("sorting by a key")
        return it.mkchunks([("s", self.sorted)])

    def m_list(self, it):
        return it.mkchunks([("s", self.unsorted)])


class Kwargs(External):
    def __init__(self, it):
        super().__init__("kwargs")
        self.items = Items(it)
        self.keys = Items(it)
        self.values = Items(it)

    def m_attr(self, it, name, default):
        if name in ("items", "keys", "values"):
            return Method(name, lambda it, args, kwargs: getattr(self, name))
        return super().m_attr(it, name, default)

    def m_sorted(self, it, kwargs):
        return self.keys.m_sorted(it, kwargs)

    def m_truth(self, it):
        return it.list_truth(it.mkchunks([("s", self.items.sorted)]))


def setup(it, a):
    f = a.self.f
    bound = bool(it.ctx.choice(2, "bound"))
    rest = it.newseg("any")
    a["first"] = Opaque("any") if bound else None
    a["rest"] = rest
    a["*"] = it.mkchunks(([("e", a.first)] if bound else []) + [("s", rest)])
    a["**"] = Kwargs(it)
    state = ("absent", "exhausted", "suspended")[it.ctx.choice(3, "present")]
    f["function"] = Function()
    f["is_bound"] = bound
    g = Gen(it, state) if state != "absent" else ABSENT
    f["generators"] = Map("generators", g)
    # values of exhausted generators may have been left behind
    left = state == "suspended" or state == "exhausted" and it.ctx.choice(2, "value left")
    f["values"] = Map("values", (g.value if state == "suspended" else Opaque("any")) if left else ABSENT)
    a["state"] = state
    a["gen"] = g


def same(it, xs, ys):
    xs, ys = it.expand(xs), it.expand(ys)
    return len(xs) == len(ys) and all(k == j and (x is y or k == "s" and x.id == y.id) for (k, x), (j, y) in zip(xs, ys))


def called_right(it, a, call):
    args, kwargs, _ = call
    return kwargs is a["**"] and same(it, args, it.chunks(a["*"]))


def key_right(it, a):
    """the key is made of the identity of the bound object and all other arguments, by position and by name"""
    keys = [m.key for m in (a.self.f["generators"], a.self.f["values"]) if m.key is not None]
    if not keys:
        return False
    need = []
    if a.first is not None:
        need.append(it.ctx.hints.get(("idof", id(a.first))))
        if need[0] is None:
            return False
    need += [x for _, x in it.expand([("s", a.rest)])] + [x for _, x in it.expand([("s", a["**"].items.sorted)])]
    typ = it.ctx.hints.get(("typeof", id(a.first)))
    for k in keys:
        got = [x for x in k.leaves if not isinstance(x, (str, int)) and x is not None and x is not typ]
        if len(got) != len(need) or not all(x is y or getattr(x, "id", 0) == getattr(y, "id", 1) for x, y in zip(got, need)):
            return False
    return True


def ensures(it, a, r, old):
    f = a.self.f
    gens, vals, fn = f["generators"], f["values"], f["function"]
    writes = gens.writes + vals.writes
    if not isinstance(r, SObj) or "gen" not in r.f:
        return [("gives a context manager", Only(lambda: False))]
    key = key_right(it, a)
    inside, raised = [], []

    def body(v):
        inside.append((v, gens.v, vals.v))
        if it.ctx.choice(2, "body raises"):
            raised.append(PyExc("BodyError" if it.ctx.choice(2, "which") else "KeyError"))
            raise raised[0]

    out = None
    try:
        run_cm(it, r.f["gen"], body)
    except PyExc as e:
        out = e
    wrap = out is not None and out.name == "WrapUpError"
    goals = [("the key identifies the bound object and the arguments", key),
             ("the block is entered once", len(inside) == 1),
             ("what the block raises leaves it", wrap or (out is raised[0] if raised else out is None))]
    if a.state == "suspended":
        goals += [("a nested context does not start the generator again", not fn.log),
                  ("a nested context gives the value of the open one", all(v is a.gen.value for v, _, _ in inside)),
                  ("a nested context leaves the open one alone",
                   gens.writes + vals.writes == 0 and not a.gen.log and gens.v is a.gen and vals.v is a.gen.value)]
    else:
        one = len(fn.log) == 1 and called_right(it, a, fn.log[0])
        g = fn.log[0][2] if fn.log else None
        goals += [("the function is called once with the arguments", one),
                  ("the block gets the value of the generator", bool(inside) and g is not None and inside[0][0] is g.value),
                  ("nested contexts find the open one", bool(inside) and inside[0][1] is g and g is not None and inside[0][2] is g.value),
                  ("the generator is resumed exactly once", g is not None and g.log == ["next", "next"]),
                  ("the context is closed", gens.v is ABSENT or gens.v is g and g.state == "exhausted"),
                  ("the value is dropped", wrap or vals.v is ABSENT)]
    del writes
    return [(n, Only(lambda b=b: b)) for n, b in goals]


def exceptional(it, a, old, exc):
    f = a.self.f
    ok = a.state != "suspended" and len(f["function"].log) == 1 and called_right(it, a, f["function"].log[0])
    g = f["generators"].v
    return [("only the function itself raises", Only(lambda: ok)),
            ("no context is left open", Only(lambda: g is ABSENT or isinstance(g, Gen) and g.state == "exhausted"))]


def content_setup(it, a):
    a.self.f["gen"] = a["gen"] = Gen(it, "fresh")


CONTRACTS = [
    Contract("context_management:ContextManager.__call__", {}, lambda it, a: Opaque("any"), setup=setup, ensures=ensures,
             raises=("FunctionError",), exceptional=exceptional, modifies=(), props=("C16",)),
    Contract("context_management:GeneratorContextManager.content", {}, "any", setup=content_setup,
             ensures=lambda it, a, r, old: [
                 ("the value of the generator", Only(lambda: r is a.gen.value)),
                 ("the generator is consumed", Only(lambda: a.gen.log == ["next", "next"]))],
             raises=("FunctionError", "WrapUpError"),
             exceptional=lambda it, a, old, exc: [
                 ("the generator is consumed", Only(lambda: a.gen.state == "exhausted" and "close" not in a.gen.log))],
             modifies=(), props=("C16",)),
]
