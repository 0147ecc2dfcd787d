"""Contracts of Specfile: reading, writing, and views that are left without a change."""
import z3

from pyvc.core import mkstr, zbool
from pyvc.engine import Contract, Eq
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNDEF
from .schema import LINES, SpecfileSpec, g, text

PATH = "opaque:path"
SPECFILE = ("obj", "Specfile")
SpecfileSpec.SCHEMA["Specfile"] = {"autosave": "bool", "_path": PATH, "_lines": LINES, "_trailing_newline": "bool",
                                   "_parser": "opaque:parser"}
MODE = (("encoding", "utf8"), ("errors", "surrogateescape"))


class File:
    """ghost state: the text of the file as it is read and written in UTF-8 with surrogate escapes"""

    def __init__(self, it):
        self.text = it.fresh("str", "file")
        self.other = {}


def fileof(it, path):
    k = ("file", id(path))
    if k not in it.ctx.hints:
        it.ctx.hints[k] = (File(it), path)
    return it.ctx.hints[k][0]


def mode(args, kwargs):
    d = dict(zip(("encoding", "errors", "newline"), args))
    d.update(kwargs)
    d = {k: v for k, v in d.items() if v is not None}
    if str(d.get("encoding", "")).lower().replace("-", "").replace("_", "") == "utf8":
        d["encoding"] = "utf8"
    return tuple(sorted(d.items()))


def read_text(it, path, args, kwargs):
    f = fileof(it, path)
    m = mode(args, kwargs)
    if m == MODE:
        return f.text
    # other ways to decode the bytes give other texts or fail
    if m not in f.other:
        if it.ctx.choice(2, "decoding fails"):
            raise PyExc("UnicodeDecodeError")
        f.other[m] = it.fresh("str", "decoded")
    return f.other[m]


def write_text(it, path, args, kwargs):
    f = fileof(it, path)
    m = mode(args[1:], kwargs)
    f.other = {}
    if m != MODE:
        if it.ctx.choice(2, "encoding fails"):
            raise PyExc("UnicodeEncodeError")
        f.text = it.fresh("str", "encoded")
    else:
        f.text = args[0]
    return it.fresh("nat", "written")


def joined(it, ls, nl, s):
    """s is the text of the file made up of these lines"""
    ls = text(it, ls) if it.list_truth(ls) else "\n"
    return Eq(s if it.truth(nl) else mkstr(s, "\n"), ls)


def content(it, o):
    """what str() gives"""
    return it.call(it.getattr(o, "__str__"), [], {})


def rebuilt(it, r):
    ls, nl = r
    return it.call(it.getattr("\n", "join"), [ls], {}) if not it.truth(nl) else mkstr(
        it.call(it.getattr("\n", "join"), [ls], {}), "\n")


def state(it, a):
    ls, nl, p, au = g(it, a.self, "_lines", "_trailing_newline", "_path", "autosave")
    return {"lines": ls, "text": text(it, ls), "some": it.list_truth(ls), "nl": nl, "path": p, "auto": au,
            "file": fileof(it, p).text,
            "section": text(it, a.section) if isinstance(a.get("section"), SObj) else None}


def unchanged(it, a, r, old):
    """content and attributes are as before; with autosave the file holds the content"""
    ls, nl, p, au = g(it, a.self, "_lines", "_trailing_newline", "_path", "autosave")
    out = [("lines are in the same list", ls is old.lines),
           ("text of the lines is unchanged", Eq(text(it, ls), old.text)),
           ("end of the file is unchanged", zbool(nl) == zbool(old.nl)),
           ("path is unchanged", p is old.path)]
    f = fileof(it, p).text
    if it.truth(au):
        # when an outer view is suspended the file is written later
        if "existing lines" not in it.ctx.hints and "existing" not in it.ctx.hints:
            out.append(("with autosave the file holds the content", joined(it, ls, nl, f)))
    else:
        out.append(("the file is unchanged", Eq(f, old.file)))
    if isinstance(a.get("section"), SObj):
        out.append(("text of the section is unchanged", Eq(text(it, a.section), old.section)))
    for v, t in it.ctx.hints.get("existing", ()):
        out.append(("the value of the suspended outer view is unchanged", Eq(text(it, v), t)))
    return out


def existing(t):
    """the value of a suspended view"""
    def view(it, a):
        if t == "lines":
            it.ctx.hints["existing lines"] = True
            return it.getattr(a.self, "_lines")
        v = it.fresh(("obj", t), "existing")
        it.ctx.hints.setdefault("existing", []).append((v, text(it, v)))
        return v
    return view


def view(target, value, args=None, raises=(), props=("C01",), **kw):
    return Contract(target, args or {}, None, pre=state, ensures=unchanged, raises=raises, props=props, modifies=("self",) + (("section",) if "section" in (args or {}) else ()),
                    view=existing(value), inline=True,
                    exceptional=lambda it, a, old, exc: unchanged(it, a, None, old), **kw)


PARSING = ("OptionsException", "UnterminatedMacroException", "ValueError")

CONTRACTS = [
    Contract("specfile:Specfile._read_lines", {"path": PATH}, ("tuple", (LINES, "bool")),
             pre=lambda it, a: {"t": fileof(it, a.path).text},
             ensures=lambda it, a, r, old: [("the lines make up the text of the file", joined(it, r[0], r[1], old.t))],
             modifies=None, props=("C01",)),
    Contract("specfile:Specfile.__str__", {}, "str",
             ensures=lambda it, a, r, old: [("content is made up of the lines", joined(
                 it, *g(it, a.self, "_lines", "_trailing_newline"), r))], modifies=(), props=("C01",)),
    Contract("specfile:Specfile.save", {}, None,
             ensures=lambda it, a, r, old: [("the file holds the content", joined(
                 it, *g(it, a.self, "_lines", "_trailing_newline"), fileof(it, it.getattr(a.self, "_path")).text))],
             modifies=(), inline=True, props=("C01",)),
    Contract("specfile:Specfile.reload", {}, None, pre=lambda it, a: {"t": fileof(it, it.getattr(a.self, "_path")).text},
             ensures=lambda it, a, r, old: [("content is the text of the file", joined(
                 it, *g(it, a.self, "_lines", "_trailing_newline"), old.t))], modifies=("self",), inline=True,
             props=("C01",)),
    view("specfile:Specfile.lines", "lines"),
    view("specfile:Specfile.macro_definitions", "MacroDefinitions", raises=("RPMException",)),
    view("specfile:Specfile.sections", "Sections", raises=PARSING),
    view("specfile:Specfile.tags", "Tags", {"section": "str"},
         raises=PARSING + ("AttributeError", "RPMException"),
         cases=[{"section": "str"}, {"section": ("obj", "Section")}]),
    view("specfile:Specfile.changelog", "Changelog", {"section": ("opt", ("obj", "Section"))}, raises=PARSING),
    view("specfile:Specfile.prep", "Prep", raises=PARSING),
]
