"""Base of a specification: data structure schemas, object views, models of the environment."""
import z3

from .core import PathEnd, Unsupported, is_str, mkstr, zint
from .values import *  # noqa: F401,F403
from .values import UNDEF


def nlcount(it, s):
    from .models import nlcount as n
    return n(it, s)


def as_list(it, v):
    from .models import as_list as f
    return f(it, v)


class Spec:
    ABSTRACT = set()
    SCHEMA = {}
    VIEWS = {}

    def fields(self, cls):
        out = {}
        for c in reversed(cls.mro()):
            out.update(self.SCHEMA.get(c.name, {}))
        return out

    def fieldtype(self, cls, name):
        return self.fields(cls).get(name)

    def plain_field(self, cls, name):
        return name in self.fields(cls)

    def mkfield(self, it, o, name, t):
        first = "$text" in o.f and "$linked" not in o.f and not it.plain
        v = it.fresh(t, name)
        o.f[name] = v
        for y in v if isinstance(v, tuple) else (v,):
            if isinstance(y, (SObj, SList)):
                y.birth = o.birth
                if o.tag == "elem" and isinstance(y, SObj):
                    y.tag = "elem"
        if first:
            o.f["$linked"] = True
            it.ctx.assume_eq(mkstr(o.f["$text"]), self.define(it, o, "text"))
        if "$inv" not in o.f:
            o.f["$inv"] = True
            for _, g in self.invariant(it, o):
                it.e.assume(it, g)
        return o.f[name]

    def invariant(self, it, o):
        return []

    def materialise(self, it, o):
        if o.lazy:
            for n in self.fields(o.cls):
                if n not in o.f:
                    it.getattr(o, n)

    def viewable(self, cls, name):
        return cls.name in self.ABSTRACT or any(
            (c.name, "text") in self.VIEWS for c in cls.mro())

    def objview(self, it, o, name):
        if name not in ("text", "cat", "rtext", "rcat", "lines"):
            return self.define(it, o, name)
        real = [k for k in o.f if not k.startswith("$")]
        if not self.viewable(o.cls, name):
            raise Unsupported(f"view {name} of {o.cls.name}")
        if name == "lines":
            return nlcount(it, self.objview(it, o, "text"))
        if o.lazy and not real:
            if "$text" not in o.f:
                o.f["$text"] = it.ctx.fresh_atom("obj")
            return mkstr(o.f["$text"])
        return self.define(it, o, "text")

    def define(self, it, o, name):
        for c in o.cls.mro():
            d = self.VIEWS.get((c.name, name))
            if d is not None:
                return d(it, o)
        raise Unsupported(f"view {name} of {o.cls.name}")

    def list_views(self, t):
        if isinstance(t, tuple) and t[0] == "list" and isinstance(t[1], tuple) and t[1][0] in ("obj", "union"):
            return ("text", "cat", "rtext")
        return ("text", "cat") if t is not None else ("text",)

    # hooks with weak defaults
    def opaque_attr(self, it, o, name, default):
        raise Unsupported(f"attribute {name} of {o!r}")

    def call_opaque(self, it, f, args, kwargs):
        raise Unsupported(f"call of {f!r}")

    def opaque_truth(self, it, v):
        return True

    def opaque_eq(self, it, a, b):
        return True if a is b else it.memo_eq("opaque", a, b)

    def opaque_item(self, it, o, i):
        raise Unsupported("opaque item")

    def opaque_isinstance(self, it, v, t):
        return it.ctx.choice(2, "isinstance") == 0

    def opaque_list(self, it, v):
        raise Unsupported("opaque list")

    def call_external(self, it, f, args, kwargs):
        return UNDEF

    def run_cm(self, it, cm, run):
        return False

    def dropped(self, it, seg, pred):
        """elements of seg satisfy pred; if no other than the empty string does, they are no part of the view nb"""
        if seg.et in ("str", "line"):
            y = it.ctx.fresh_atom("y")
            it.ctx.nonempty.add(y.get_id())
            it.ctx.assume(z3.Length(y) >= 1)
            if it.call(pred, [mkstr(y)], {}) is False:
                for v in ("nb", "rnb"):
                    it.ctx.assume_eq(it.cview([("s", seg)], v), "")

    def first_found(self, it, s, elem):
        pass

    def stripped(self, it, s, a, mid, b, cs):
        pass

    def charclass(self, it, a, item, flags):
        pass

    def no_match(self, it, rx, tree, s, mode):
        pass

    def refine(self, it, v):
        pass

    def mkset(self, it, a):
        raise Unsupported("set")

    def sum_of(self, it, a):
        L = as_list(it, a[0])
        start = a[1] if len(a) > 1 else 0
        return start + it.cview(it.chunks(L), "lines")

    def minmax(self, it, name, a, kwargs):
        raise Unsupported(name)

    def sorted_of(self, it, a, kwargs):
        raise Unsupported("sorted")

    def hash_of(self, it, v):
        raise Unsupported("hash")
