"""Contracts of sections: splitting and joining is lossless."""
import z3

from pyvc.core import Unsupported, mkstr, zbool, zint
from pyvc.engine import Contract, Eq, NoneOf
from pyvc.models import endswith, memo_str
from pyvc.values import *  # noqa: F401,F403
from .lossless import parser, strval, writer
from .schema import CONTEXT, LINES, SpecfileSpec, cat, g, text


def optlen(it, a):
    """number of options, a function of the tokens"""
    o = a.self
    ts = o.f.get("_tokens")
    if ts is not None and not it.chunks(ts):
        return 0
    k = ("optlen", id(o), None if ts is None else tuple((c, id(x)) for c, x in it.chunks(ts)))
    if k not in it.ctx.hints:
        it.ctx.hints[k] = (it.fresh("nat", "len"), o, ts and list(it.chunks(ts)))
    return it.ctx.hints[k][0]


def delimiter(it, o):
    d, op = g(it, o, "_delimiter", "options")
    if not it.ctx.truth_str(d) and it.truth(op):
        return " "
    return d


def ident(it, o):
    return mkstr(it.getattr(o, "name"), delimiter(it, o), cat(it, it.getattr(o, "options")))


def normalized(it, o):
    return mkstr(memo_str(it, "lower", it.getattr(o, "name")), delimiter(it, o), cat(it, it.getattr(o, "options")))


def ispreamble(it, o):
    return it.truth(it.ctx.seq(normalized(it, o), "package"))


def form(it, o):
    sep, data = g(it, o, "_separator", "data")
    if ispreamble(it, o):
        return text(it, data)
    return mkstr("%", ident(it, o), sep, text(it, data))


def v_section(it, o):
    """text of the section in the file: there is a newline at the end in any case"""
    f = form(it, o)
    if not ispreamble(it, o) and not it.list_truth(it.getattr(o, "data")) and not it.truth(endswith(it, f, "\n")):
        return mkstr(f, "\n")
    return f


def full(it, o):
    """text of a section that is not the preamble"""
    sep, data = g(it, o, "_separator", "data")
    return mkstr("%", ident(it, o), sep, text(it, data))


SpecfileSpec.VIEWS[("Section", "full")] = full
SpecfileSpec.VIEWS[("Section", "text")] = v_section
SpecfileSpec.VIEWS[("Sections", "text")] = lambda it, o: it.cview(it.chunks(it.getattr(o, "data")), "text")


def sid(target, value):
    return Contract(target, {}, "str", pre=lambda it, a: {"t": value(it, a.self), "text": text(it, a.self)},
                    ensures=lambda it, a, r, old: [("id is made up of name and options", Eq(r, old.t)),
                                                   ("the text of the section is kept", Eq(text(it, a.self), old.text))],
                    modifies=("self",), props=("C02", "C01"))


PARTS = ("tuple", ("line", ("opt", ("obj", "Options")), "line", "str", LINES))


def parts(it, r):
    name, options, delimiter, separator, content = r
    return mkstr(name, delimiter, "" if options is None else cat(it, options), separator, text(it, content))


def ended(it, r):
    return it.list_truth(r[4]) or it.truth(endswith(it, r[3], "\n"))


def parsed(it, a, r, old):
    """the content of the preamble followed by the other sections with their headers

    A caller learns it in terms of the text that is written, which drops the header of another section that has no
    options and the name of the preamble (RPM does not accept such a file).
    """
    if r.lazy:
        return [("text of the sections", Eq(text(it, r), old.t))]
    d = it.getattr(r, "data")
    ch = it.chunks(d) if it.front(d) else []
    if not ch:
        return [("there is a preamble", False)]
    return [("the first section is the preamble", ispreamble(it, ch[0][1])),
            ("text of the sections equals the text of the lines",
             Eq(mkstr(text(it, it.getattr(ch[0][1], "data")), it.cview(ch[1:], "full")), old.t))]


def element(it, L, i):
    """the element at an index that is within bounds"""
    p = it.locate(L, i)
    return it.chunks(L)[p][1]


def sectionid(it, id):
    """the id in which the name of the section, but not its options, is in lower case"""
    f = it.world.lookup("sections", "_normalize_id")
    if f is UNDEF:
        raise Unsupported("normalization of section ids")
    return it.call(f, [id], {})


def found(it, a, r, old):
    d = it.getattr(a.self, "data")
    n = zint(it.chunklen(d.chunks))
    ok = z3.And(zint(r) >= 0, zint(r) < n)
    return [("index is within bounds", ok),
            ("the section has the id", lambda: Eq(normalized(it, element(it, d, r)), sectionid(it, a.id)))]


def some(it, a):
    """an arbitrary element"""
    d = it.getattr(a.self, "data")
    i = it.fresh("nat", "i")
    it.ctx.assume(zint(i) < zint(it.chunklen(d.chunks)))
    return element(it, d, i)


def member(it, a, r, old):
    d = it.getattr(a.self, "data")
    return [("the result is one of the sections", any(k == "e" and x is r for k, x in it.chunks(d))),
            ("the section has the id", Eq(normalized(it, r), sectionid(it, a.id)))]


CONTRACTS = [
    Contract("sections:_normalize_id", {"id": "str"}, "str", pure=True, props=("C14",)),
    Contract("sections:Sections.find", {"id": "str"}, "nat", ensures=found, raises=("ValueError",), modifies=None,
             props=("C14",)),
    Contract("sections:Sections.get", {"id": "str"}, some, ensures=member, raises=("ValueError",), modifies=None,
             props=("C14",)),
    Contract("sections:Sections.__getattr__", {"id": "str"}, some, ensures=member, raises=("AttributeError",),
             modifies=None, props=("C14",)),
    Contract("options:Options.__len__", {}, optlen, trusted=True, modifies=None),
    sid("sections:Section.id", ident),
    sid("sections:Section.normalized_id", normalized),
    Contract("sections:Sections.parse.expand", {"s": "str"}, "str", raises=("RPMException",),
             closure={"context": CONTEXT}, modifies=None, props=("C02",)),
    Contract("sections:Sections.parse.split_id", {"line": "line"}, PARTS, pre=lambda it, a: {"t": a.line},
             ensures=lambda it, a, r, old: [("the parts make up the line", Eq(parts(it, r), mkstr(old.t, "\n"))),
                                            ("the last part is the newline or content", ended(it, r)),
                                            ("there is a delimiter in front of options",
                                             r[1] is None or it.ctx.truth_str(r[2]))],
             raises=("OptionsException", "UnterminatedMacroException"), closure={"context": CONTEXT}, props=("C02",)),
    Contract("sections:Sections.parse", {"lines": LINES, "context": CONTEXT}, ("obj", "Sections"),
             pre=lambda it, a: {"t": text(it, a.lines)}, ensures=parsed,
             raises=("OptionsException", "UnterminatedMacroException", "ValueError"), props=("C02", "C01")),
    writer("sections:Section.get_raw_data", ("C02", "C01"), modifies=("self",)),
    writer("sections:Sections.get_raw_data", ("C02", "C01"), modifies=None),
]
