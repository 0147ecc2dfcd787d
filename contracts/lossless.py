"""Contracts of the losslessness family: parsing followed by reconstruction gives the same text."""
from pyvc.core import is_bool, is_str, mkstr, zbool, zint
from pyvc.models import nlcount
from pyvc.engine import Contract, Eq
from pyvc.values import *  # noqa: F401,F403
from .schema import CONTEXT, LINES, L, cat, lines, text

VLINES = ("union", (LINES, ("list", ("tuple", ("line", "bool")))))
VALIDITY = ("list", ("tuple", ("line", "bool")))
MDS = ("obj", "MacroDefinitions")


def parser(target, arg, t, result, props, extra=None, **kw):
    """parsing preserves the text and changes nothing that existed before"""
    args = {arg: t}
    args.update(extra or {})
    return Contract(target, args, result, pre=lambda it, a: {"t": text(it, a[arg])},
                    ensures=lambda it, a, r, old: [("text of the result equals the text of the lines",
                                                    Eq(text(it, r), old.t))], props=props, **kw)


def secparser(target, result, props, context=True, **kw):
    """parsing of section data"""
    args = {"section": ("obj", "Section")}
    if context:
        args["context"] = CONTEXT
    return Contract(target, args, result, pre=lambda it, a: {"t": text(it, it.getattr(a.section, "data"))},
                    ensures=lambda it, a, r, old: [("text of the result equals the text of the section data",
                                                    Eq(text(it, r), old.t))], props=props, **kw)


def writer(target, props, result=LINES, **kw):
    """the reconstructed lines are the text of the structure, which is not changed"""
    def ensures(it, a, r, old):
        return [("reconstructed lines are the text of the object", Eq(text(it, r), old.t)),
                ("number of lines", lambda: zint(lines(it, r)) == zint(nlcount(it, old.t)))]
    return Contract(target, {}, result, pre=lambda it, a: {"t": text(it, a.self)}, ensures=ensures, props=props, **kw)


def strval(target, props, **kw):
    return Contract(target, {}, "str", pre=lambda it, a: {"t": cat(it, a.self)},
                    ensures=lambda it, a, r, old: [("string form is the text of the object", Eq(r, old.t))],
                    props=props, **kw)


def ctor(target, args, fields, props=(), **kw):
    """a constructor stores its arguments; fields: {attribute: function of the arguments, or name of the argument}"""
    def val(it, a, f):
        return a[f] if isinstance(f, str) else f(it, a)

    def havoc(it, a):
        for n, t in it.e.spec.fields(a.self.cls).items():
            if n in fields and fields[n] is not None:
                f = fields[n]
                v = val(it, a, f)
                if isinstance(v, (SList, SObj)):
                    v = it.fresh(t, n)
                a.self.f[n] = v
            else:
                a.self.f[n] = it.fresh(t, n)
        a.self.lazy = False

    def ensures(it, a, r, old):
        out = []
        for n, f in fields.items():
            if f is None:
                continue
            v, w = a.self.f[n], val(it, a, f)
            if isinstance(w, (SList, SObj)):
                out.append((f"{n} has the text of the argument", Eq(text(it, v), text(it, w))))
            elif is_str(w):
                out.append((f"{n} is the argument", Eq(v, w)))
            else:
                q = it.identical(v, w) if not is_bool(w) else zbool(v) == zbool(w)
                out.append((f"{n} is the argument", q))
        return out

    return Contract(target, args, "none", ensures=ensures, havoc=havoc, modifies=("self",), setup=lambda it, a: None,
                    props=props, **kw)


def orempty(n):
    return lambda it, a: "" if a[n] is None else a[n]


def before(it, o, container):
    """chunks of the container before o (by identity), or None"""
    ch = it.chunks(it.getattr(container, "data"))
    for i, (k, x) in enumerate(ch):
        if k == "e" and x is o:
            return ch[:i]
    return None


def position(target, cls, contcls, own, props):
    """position in a container is the number of lines above the object; own: text above it that belongs to it"""
    def setup(it, a):
        a.self.lazy = True
        a["container"] = it.fresh(("obj", contcls), "container")
        d = it.getattr(a.container, "data")
        d.chunks = [("s", it.newseg(("obj", cls))), ("e", a.self), ("s", it.newseg(("obj", cls)))]

    def requires(it, a):
        b = before(it, a.self, a.container)
        return [("the object is in the container", b is not None)]

    def pre(it, a):
        b = before(it, a.self, a.container)
        return {"n": mkstr(it.cview(b, "text"), own(it, a.self)) if b is not None else None}

    return Contract(target, {"container": ("obj", contcls)}, "nat", setup=setup, requires=requires, pre=pre,
                    ensures=lambda it, a, r, old: [
                        ("position is the number of lines above", lambda: zint(r) == zint(nlcount(it, old.n)))],
                    props=props)


CONTRACTS = [
    # environment: RPM
    Contract("macros:Macros.expand", {"s": "str"}, "str", raises=("RPMException",), trusted=True, modifies=None),
    Contract("utils:count_brackets", {"string": "str"}, ("tuple", ("nat", "nat")), props=("C03", "C04")),
    Contract("utils:split_conditional_macro_expansion", {"value": "str"}, ("tuple", ("str", "str", "str")),
             pre=lambda it, a: {"v": a.value},
             ensures=lambda it, a, r, old: [
                 ("prefix + body + suffix is the value", Eq(mkstr(r[1], r[0], r[2]), old.v))], props=("C03", "C06")),
    Contract("conditions:resolve_expression", {"keyword": "str", "expression": "str", "context": CONTEXT}, "bool",
             raises=("RPMException",), trusted=True, modifies=None),
    Contract("conditions:process_conditions.expand", {"s": "str"}, "str", raises=("RPMException",),
             closure={"context": CONTEXT}, modifies=None),
    parser("conditions:process_conditions", "lines", LINES, VALIDITY, ("C03", "C04", "C06", "C07", "C10"),
           {"macro_definitions": ("opt", MDS), "context": CONTEXT}, raises=("RPMException",), seconds=300),
    # positions
    position("macro_definitions:MacroDefinition.get_position", "MacroDefinition", "MacroDefinitions",
             lambda it, o: text(it, it.getattr(o, "_preceding_lines")), ("C14",)),
    position("tags:Tag.get_position", "Tag", "Tags", lambda it, o: text(it, it.getattr(o, "comments")), ("C14",)),
    # tags
    parser("tags:Comments.parse", "lines", LINES, ("obj", "Comments"), ("C03", "C07")),
    writer("tags:Comments.get_raw_data", ("C03", "C07")),
    ctor("tags:Tag.__init__", {"name": "line", "value": "str", "separator": "line", "comments": ("obj", "Comments"),
                               "valid": "bool", "prefix": ("opt", "line"), "suffix": ("opt", "line"),
                               "context": CONTEXT},
         {"name": "name", "value": "value", "_separator": "separator", "comments": "comments", "valid": "valid",
          "_prefix": orempty("prefix"), "_suffix": orempty("suffix"), "_context": "context"}, ("C03",),
         raises=("ValueError",)),
    secparser("tags:Tags.parse", ("obj", "Tags"), ("C03",), raises=("ValueError", "RPMException")),
    writer("tags:Tags.get_raw_section_data", ("C03",)),
    # macro definitions
    parser("macro_definitions:MacroDefinitions._parse", "lines", VLINES, MDS, ("C04",),
           cases=[{"lines": LINES}, {"lines": VALIDITY}]),
    parser("macro_definitions:MacroDefinitions.parse", "lines", LINES, MDS, ("C04",),
           {"with_conditions": "bool", "context": CONTEXT}, raises=("RPMException",),
           exceptional=lambda it, a, old, exc: [("conditions are evaluated", a.with_conditions)]),
    writer("macro_definitions:MacroDefinition.get_raw_data", ("C04",)),
    writer("macro_definitions:MacroDefinitions.get_raw_data", ("C04",)),
    # changelog
    secparser("changelog:Changelog.parse", ("obj", "Changelog"), ("C05",), context=False),
    writer("changelog:Changelog.get_raw_section_data", ("C05",)),
    # %prep
    secparser("prep:Prep.parse", ("obj", "Prep"), ("C06",), context=False, raises=("OptionsException",
                                                                               "UnterminatedMacroException")),
    writer("prep:PrepMacro.get_raw_data", ("C06",), modifies=("self",)),
    writer("prep:PrepMacros.get_raw_data", ("C06",), modifies=None),
    writer("prep:Prep.get_raw_section_data", ("C06",), modifies=None),
    # source and patch lists
    secparser("sourcelist:Sourcelist.parse", ("obj", "Sourcelist"), ("C07",), raises=("RPMException",)),
    writer("sourcelist:Sourcelist.get_raw_section_data", ("C07",)),
    # options
    Contract("options:Options.tokenize", {"option_string": "str"}, L("Token"),
             pre=lambda it, a: {"t": a.option_string},
             ensures=lambda it, a, r, old: [("the tokens make up the option string", Eq(cat(it, r), old.t))],
             raises=("OptionsException", "UnterminatedMacroException"), props=("C09", "C06", "C02")),
    strval("options:Options.__str__", ("C09", "C06", "C02")),
    # values
    Contract("value_parser:ValueParser.parse", {"value": "str"}, L("Node"),
             pre=lambda it, a: {"t": a.value},
             ensures=lambda it, a, r, old: [("the nodes make up the value", Eq(cat(it, r), old.t))],
             raises=("UnterminatedMacroException",), props=("C08", "C09", "C03", "C06")),
] + [strval(f"value_parser:{c}.__str__", ("C08",)) for c in (
    "StringLiteral", "ShellExpansion", "ExpressionExpansion", "MacroSubstitution", "EnclosedMacroSubstitution", "ConditionalMacroExpansion",
    "BuiltinMacro")]
