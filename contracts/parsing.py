"""Contracts of SpecParser: environment, cache of the last parse; Specfile: expansions use the current content."""
from pyvc.core import Unsupported, is_str, mkstr, zbool
from pyvc.engine import Contract, Eq
from pyvc.models import environ
from pyvc.values import *  # noqa: F401,F403
from .schema import SpecfileSpec, g
from .specfile import PATH

SpecfileSpec.SCHEMA["SpecParser"] = {"sourcedir": PATH, "macros": "opaque:macros", "force_parse": "bool",
                                     "spec": ("opt", "opaque:spec"), "tainted": "bool"}
SpecfileSpec.SCHEMA["Specfile"]["_parser"] = ("obj", "SpecParser")
EXTRA = ("opt", "opaque:macros")
PARTS = ("parser", "sourcedir", "macros", "force_parse", "content", "extra_macros")


# ---- environment ----------------------------------------------------------------------
def restored(it, a, r, old):
    e = environ(it)
    out = []
    for k in sorted(e.cur):
        was, now = e.init[k], e.cur[k]
        if was is None or now is None:
            out.append((f"${k} is restored", was is now))
        else:
            out.append((f"${k} is restored", Eq(now, was)))
    return out or [("environment is restored", True)]


# ---- cache of the last parse ---------------------------------------------------------
# ghost state: the input of the last successful parse, which the global macro context reflects
class Hash(Opaque):
    def __init__(self, payload):
        super().__init__("hash")
        self.payload = payload


def now(it, a):
    sd, ms, fp = g(it, a.self, "sourcedir", "macros", "force_parse")
    return {"parser": a.self, "sourcedir": sd, "macros": ms, "force_parse": fp, "content": a.content,
            "extra_macros": a.get("extra_macros")}


def ghost(it):
    h = it.ctx.hints
    if "populated" not in h:
        h["populated"] = {}
    return h["populated"]


def setup_cache(it):
    """nothing parsed yet (or the last attempt failed), or the hash belongs to the input the context reflects"""
    if ("SpecParser", "_last_parse_hash") not in it.classvars:
        ghost(it)
        it.classvars["SpecParser", "_last_parse_hash"] = None if it.ctx.choice(2, "last hash?none") == 0 else Hash(None)


def hash_eq(it, x, y):
    if not isinstance(x, Hash) or not isinstance(y, Hash):
        return False
    if x is y:
        return True
    if y.payload is not None:
        x, y = y, x
    if y.payload is not None:
        raise Unsupported("equality of hashes")
    if it.ctx.choice(2, "same hash"):
        return False
    # the input of the last parse agrees in all parts that are hashed
    for p in x.payload:
        ghost(it)[p[0]] = p[1]
    return True


def flatten(it, v):
    if isinstance(v, tuple):
        return [y for x in v for y in flatten(it, x)]
    if isinstance(v, SList):
        ch = it.chunks(v)
        if all(k == "e" for k, _ in ch):
            return [y for _, x in ch for y in flatten(it, x)]
    if isinstance(v, SDict):
        return [y for x in v.d.values() for y in flatten(it, x)]
    return [v]


def pickled(it, args):
    """the parts of the payload; those that are not understood put the function out of reach"""
    out = []
    cur = it.ctx.hints.get("input")
    for v in flatten(it, args[0]):
        if isinstance(v, str) or v is None and cur["extra_macros"] is not None:
            continue
        for n in PARTS:
            w = cur[n]
            if n == "parser":
                same = v is w or v is it.ctx.hints.get(("idof", id(w)))
            else:
                same = v is w or is_str(v) and is_str(w) and it.ctx.seq(v, w) is True
            if same:
                out.append((n, w))
                break
        else:
            raise Unsupported(f"part of the payload: {v!r}")
    o = Opaque("pickled")
    o.payload = out
    return o


def populated(it, a):
    p = ghost(it)
    p.clear()
    p.update(now(it, a))


def scrap(it, a, old, exc):
    ghost(it).clear()
    return []


def same(it, x, y):
    if x is y:
        return True
    if is_str(x) and is_str(y):
        return Eq(x, y)
    return False


def current(it, cur):
    p = ghost(it)
    return [(f"macros reflect the current {n.replace('_', ' ')}", same(it, p[n], cur[n]) if n in p else False)
            for n in PARTS]


def parse_pre(it, a):
    setup_cache(it)
    it.ctx.hints["input"] = now(it, a)
    return {"input": now(it, a), "hash": it.classvars["SpecParser", "_last_parse_hash"], "before": dict(ghost(it))}


def parse_ensures(it, a, r, old):
    return current(it, old.input)


def parse_failed(it, a, old, exc):
    h = it.classvars["SpecParser", "_last_parse_hash"]
    out = [("the next parse is not skipped", h is None or h is old.hash and ghost(it) == old.before and bool(old.before))]
    if exc == "RPMException":
        out.append(("the result of an older parse is not kept", it.getattr(a.self, "spec") is None))
    return out


def parse_havoc(it, a):
    populated(it, a)
    it.write(a.self, "spec")
    a.self.f["spec"] = Opaque("spec")
    it.write(a.self, "tainted")
    a.self.f["tainted"] = it.fresh("bool", "tainted")
    it.classvars["SpecParser", "_last_parse_hash"] = Hash(sorted(ghost(it).items()))


FAILS = ("RPMException", "OSError", "MemoryError")


def expand_pre(it, a):
    setup_cache(it)
    p = it.getattr(a.self, "_parser")
    c = it.call(it.getattr(a.self, "__str__"), [], {})
    sd, ms, fp = g(it, p, "sourcedir", "macros", "force_parse")
    return {"input": {"parser": p, "sourcedir": sd, "macros": ms, "force_parse": fp, "content": c,
                      "extra_macros": a.get("extra_macros")}}


def expand_ensures(it, a, r, old):
    if "skip_parsing" in a and it.truth(a.skip_parsing) and a.extra_macros is None:
        return []
    return current(it, old.input)


def user(target, args=None, result=None, **kw):
    """the content is parsed, unless that has been the last thing to be parsed"""
    return Contract(target, args or {}, result, pre=expand_pre, ensures=expand_ensures, raises=FAILS, modifies=("self",),
                    props=("C18",), **kw)


CONTRACTS = [
    Contract("spec_parser:SpecParser._sanitize_environment", {}, None, ensures=restored,
             exceptional=lambda it, a, old, exc: restored(it, a, None, old), view=True, inline=True, props=("C17",)),
    Contract("spec_parser:SpecParser._do_parse", {"content": "str", "extra_macros": EXTRA},
             ("tuple", ("opaque:spec", "bool")), trusted=True, raises=FAILS, havoc=populated, exceptional=scrap,
             modifies=None),
    Contract("spec_parser:SpecParser.parse", {"content": "str", "extra_macros": EXTRA}, None, pre=parse_pre,
             ensures=parse_ensures, exceptional=parse_failed, raises=FAILS, havoc=parse_havoc, modifies=None,
             props=("C18",)),
    Contract("specfile:Specfile._dump_debug_info", {}, None, trusted=True),
    Contract("macros:Macros.dump", {}, "opaque:macros", trusted=True),
    user("specfile:Specfile.expand", {"expression": "str", "extra_macros": EXTRA, "skip_parsing": "bool"}, "str"),
    user("specfile:Specfile.rpm_spec"),
    user("specfile:Specfile.tainted", result="bool"),
    user("specfile:Specfile.get_active_macros"),
]
