"""Contracts of copies: the same text, nothing shared except for the context."""
from pyvc.engine import Contract, Eq
from pyvc.models import Memo
from pyvc.values import *  # noqa: F401,F403
from .schema import text

MUTABLE = ("macros", "spec")


def shared(it, a, b):
    """mutable values reachable from both; segments of objects stand for their elements"""
    def reach(v, out):
        if isinstance(v, (SObj, SList, SDict)):
            if id(v) in out:
                return
            out[id(v)] = v
            if isinstance(v, SObj):
                for k, x in v.f.items():
                    if not k.startswith("$"):
                        reach(x, out)
            elif isinstance(v, SList):
                for k, x in it.chunks(v):
                    if k == "e":
                        reach(x, out)
                    elif isinstance(x.et, tuple) and x.et[0] in ("obj", "list", "union"):
                        out["seg", x.id] = x
            else:
                for x in v.d.values():
                    reach(x, out)
        elif isinstance(v, tuple):
            for x in v:
                reach(x, out)
        elif isinstance(v, Opaque) and v.kind in MUTABLE:
            out[id(v)] = v
    x, y = {}, {}
    reach(a, x)
    reach(b, y)
    return [v for k, v in x.items() if k in y]


def setup(it, a):
    a.self.lazy = True
    a["memo"] = Memo()


def deep(target, hastext=True, extra=None):
    def pre(it, a):
        it.e.spec.materialise(it, a.self)
        return {"t": text(it, a.self) if hastext else None}

    def ensures(it, a, r, old):
        if not isinstance(r, SObj) or r is a.self:
            return [("a new object", False)]
        out = [("class is kept", r.cls is a.self.cls),
               ("nothing is shared", not shared(it, a.self, r)),
               ("all attributes are there", all(k in r.f for k in it.e.spec.fields(a.self.cls)))]
        if hastext:
            out += [("text is the same", Eq(text(it, r), old.t)),
                    ("text of the original is kept", Eq(text(it, a.self), old.t))]
        if "_context" in a.self.f:
            out.append(("context is shared", r.f.get("_context") is a.self.f["_context"]))
        return out + (extra(it, a, r) if extra else [])

    return Contract(target, {"memo": "any"}, None, pre=pre, ensures=ensures, setup=setup, props=("C26",), modifies=(),
                    inline=True)


def parser(it, a, r):
    s, o = r.f, a.self.f
    return [("the copy has not been parsed", s.get("spec") is None),
            ("macros are the same", getattr(s.get("macros"), "copyof", None) is o["macros"]),
            ("parsing is forced as in the original", it.identical(s.get("force_parse"), o["force_parse"])
             if not s.get("force_parse") is o["force_parse"] else True)]


CONTRACTS = [
    deep("tags:Tag.__deepcopy__"),
    deep("sourcelist:SourcelistEntry.__deepcopy__"),
    deep("spec_parser:SpecParser.__deepcopy__", hastext=False, extra=parser),
]
