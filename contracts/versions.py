"""Contracts of version comparison: every operator is RPM's comparison of epoch, version and release."""
import z3

from pyvc.core import _ALIVE, keep, is_bool, mkstr, simp, zbool, zint, zstr
from pyvc.engine import Contract, Eq
from pyvc.models import to_str
from pyvc.values import *  # noqa: F401,F403

S = z3.StringSort()
LC = z3.Function("labelCompare", S, S, S, S, S, S, z3.IntSort())
OPS = {"lt": lambda k: k < 0, "le": lambda k: k <= 0, "eq": lambda k: k == 0, "ne": lambda k: k != 0,
       "ge": lambda k: k >= 0, "gt": lambda k: k > 0}
CLASSES = ("EVR", "NEVR", "NEVRA")


def label_compare(it, a, b):
    """rpm.labelCompare, a function of the two triples: a comparison, antisymmetric and zero on equal triples"""
    x = [s if isinstance(s, z3.ExprRef) else zstr(it.ctx.norm(s)) for s in (*a, *b)]
    k, rk = LC(*x), LC(*x[3:], *x[:3])
    it.ctx.assume(z3.And(k >= -1, k <= 1, rk == -k))
    return k


def key(it, o):
    v = it.getattr(o, "version")
    return to_str(it, it.getattr(o, "epoch")), v if it.ctx.truth_str(v) else "0", it.getattr(o, "release")


def same(it, a, b, names):
    """the named attributes are equal"""
    for n in names:
        if not it.truth(it.ctx.seq(it.getattr(a, n), it.getattr(b, n))):
            return False
    return True


def compare(cls, op):
    own = {"EVR": (), "NEVR": ("name",), "NEVRA": ("name", "arch")}[cls]

    def ensures(it, a, r, old):
        def goal():
            o = a.other
            if not isinstance(o, SObj) or o.cls.name != cls:
                return isinstance(r, Builtin) and r.name == "NotImplemented"
            if not same(it, a.self, o, own):
                if op in ("eq", "ne"):
                    return zbool(r) == (op == "ne") if is_bool(r) else False
                return isinstance(r, Builtin) and r.name == "NotImplemented"
            k = label_compare(it, key(it, a.self), key(it, o))
            return zbool(r) == OPS[op](k) if is_bool(r) else False
        return [("comparison is RPM's, and refused for other types and packages", goal)]

    def result(it, a):
        o = a.other
        if isinstance(o, SObj) and o.cls.name == cls and (op in ("eq", "ne") or same(it, a.self, o, own)):
            return it.fresh("bool", "cmp")
        return Builtin("NotImplemented")

    return Contract(f"utils:{cls}.__{op}__", {"other": ("obj", cls)}, result, ensures=ensures,
                    cases=[{"other": ("obj", c)} for c in CLASSES] + [{"other": "str"}, {"other": "none"}],
                    props=("C19", "C22"))


def evr_text(it, o, epoch=None):
    """[EPOCH:]VERSION[-RELEASE]; epoch: its text, by default that of the number if it is positive"""
    e, v, r = (it.getattr(o, n) for n in ("epoch", "version", "release"))
    if epoch is None:
        epoch = mkstr(to_str(it, e), ":") if it.truth(zint(e) > 0) else ""
    return mkstr(epoch, v, mkstr("-", r) if it.ctx.truth_str(r) else "")


def v_evr(it, o, cls, epoch=None):
    t = evr_text(it, o, epoch)
    if cls != "EVR":
        t = mkstr(it.getattr(o, "name"), "-", t)
    if cls == "NEVRA":
        t = mkstr(t, ".", it.getattr(o, "arch"))
    return t


MAL = z3.Function("malformed", S, z3.BoolSort())
EPOCH = z3.Function("epochOf", S, z3.IntSort())
EPOCHTEXT = z3.Function("epochTextOf", S, S)
VERSION = z3.Function("versionOf", S, S)
RELEASE = z3.Function("releaseOf", S, S)


def evr_parts(it, s):
    """what EVR.from_string makes of a string that is not malformed; a function of the string"""
    z = zstr(it.ctx.norm(s))
    v = VERSION(z)
    it.ctx.assume(MAL(z3.StringVal("")))
    it.ctx.assume(z3.And(EPOCH(z) >= 0, z3.Length(v) >= 1))
    it.ctx.nonempty.add(keep(v))
    it.ctx.hints.setdefault(("istr", keep(simp(EPOCH(z)))), EPOCHTEXT(z))
    return EPOCH(z), mkstr(VERSION(z)), mkstr(RELEASE(z))


def parsed_evr(it, a):
    o = it.fresh(("obj", "EVR"), "evr")
    o.f["epoch"], o.f["version"], o.f["release"] = evr_parts(it, a.evr)
    return o


def from_string(cls):
    """the parts are those of the string; the text of the epoch is any string of digits with its value"""
    arg = cls.lower()

    def malformed(it, a):
        # which strings are malformed depends on nothing but the string; the empty one is (see below)
        it.ctx.assume(MAL(z3.StringVal("")))
        return MAL(zstr(it.ctx.norm(a.evr)))

    def ensures(it, a, r, old):
        if r.lazy:
            return []       # callers learn nothing about the parts

        def goal():
            e = it.getattr(r, "epoch")
            if isinstance(e, int):
                return Eq(old.s, v_evr(it, r, cls, "")) if e == 0 else False
            ws = [_ALIVE[k[1]] for k, v in it.ctx.hints.items()
                  if isinstance(k, tuple) and k[0] == "sint" and v.eq(e) and k[1] in it.ctx.digits]
            return Eq(old.s, v_evr(it, r, cls, mkstr(ws[0], ":"))) if ws else False
        return [("the string consists of the parts", goal),
                ("the empty string is malformed", lambda: z3.Length(zstr(old.s)) >= 1),
                ("epoch and version are there", lambda: z3.And(zint(it.getattr(r, "epoch")) >= 0,
                                                               z3.Length(zstr(it.getattr(r, "version"))) >= 1))]

    return Contract(f"utils:{cls}.from_string", {arg: "line"}, parsed_evr if cls == "EVR" else ("obj", cls),
                    decides=malformed if cls == "EVR" else None, pre=lambda it, a: {"s": a[arg]},
                    ensures=ensures, raises=("SpecfileException",), props=("C19",))


def to_string(cls):
    return Contract(f"utils:{cls}.__str__", {}, "str", pre=lambda it, a: {"t": v_evr(it, a.self, cls)},
                    ensures=lambda it, a, r, old: [("string form has all the parts", Eq(r, old.t))], props=("C19",))


CONTRACTS = [from_string(c) for c in CLASSES] + [to_string(c) for c in CLASSES] + [compare(c, op) for c in CLASSES for op in OPS]
