"""Contracts of equality: two objects are equal exactly if all attributes that make up their content are."""
import z3

from pyvc.core import is_bool, zbool
from pyvc.engine import Contract
from pyvc.values import *  # noqa: F401,F403
from .schema import L, SpecfileSpec

SpecfileSpec.SCHEMA.update({
    "Macro": {"name": "str", "options": "str", "body": "str", "level": ("enum", "MacroLevel"), "used": "bool"},
    "TagSource": {"_tag": ("obj", "Tag"), "_number": ("opt", "int")},
    "ListSource": {"_source": ("obj", "SourcelistEntry"), "_number": "int"},
    "Sources": {"_tags": ("obj", "Tags"), "_sourcelists": L("Sourcelist"), "_allow_duplicates": "bool",
                "_default_to_implicit_numbering": "bool", "_default_source_number_digits": "int"},
})
CONTENT = {
    "changelog:ChangelogEntry": ("header", "content", "_following_lines"),
    "macro_definitions:MacroDefinition": ("name", "body", "is_global", "commented_out", "comment_out_style",
                                          "_whitespace", "_prefix", "_preceding_lines"),
    "macros:Macro": ("name", "options", "body", "level", "used"),
    "options:Token": ("type", "value"),
    "prep:PrepMacro": ("name", "options", "_delimiter", "_prefix", "_suffix", "_preceding_lines"),
    "prep:Prep": ("macros",),
    "sourcelist:SourcelistEntry": ("location", "comments"),
    "sources:TagSource": ("_tag", "_number"),
    "sources:ListSource": ("_source", "_number"),
    "sources:Sources": ("_tags", "_sourcelists", "_allow_duplicates", "_default_to_implicit_numbering",
                        "_default_source_number_digits"),
    "spec_parser:SpecParser": ("sourcedir", "macros", "force_parse"),
    "specfile:Specfile": ("autosave", "_path", "_lines", "_trailing_newline", "_parser"),
    "tags:Comment": ("text", "prefix"),
    "tags:Tag": ("name", "value", "_separator", "comments", "_prefix", "_suffix"),
    "value_parser:StringLiteral": ("value",),
    "value_parser:ShellExpansion": ("body",),
    "value_parser:MacroSubstitution": ("prefix", "name"),
    "value_parser:EnclosedMacroSubstitution": ("prefix", "name", "args"),
    "value_parser:ConditionalMacroExpansion": ("prefix", "name", "body"),
    "value_parser:BuiltinMacro": ("name", "body"),
}
OTHER = {"tags:Tag": "Comment", "tags:Comment": "Tag", "value_parser:ShellExpansion": "ExpressionExpansion",
         "sources:TagSource": "ListSource", "sources:ListSource": "TagSource"}


def eq(target, names):
    cls = target.split(":")[1]

    def alike(it, o):
        return isinstance(o, SObj) and any(c.name == cls for c in o.cls.mro()) and (
            target != "value_parser:ShellExpansion" or o.cls.name == cls)

    def ensures(it, a, r, old):
        def goal():
            if not alike(it, a.other):
                return isinstance(r, Builtin) and r.name == "NotImplemented"
            if not is_bool(r):
                return False
            g = [it.equal(it.getattr(a.self, n), it.getattr(a.other, n)) for n in names]
            return zbool(r) == z3.And(*[zbool(x) for x in g])
        return [("equal exactly if " + ", ".join(n.lstrip("_") for n in names) + " are", goal)]

    def result(it, a):
        return it.fresh("bool", "eq") if alike(it, a.other) else Builtin("NotImplemented")

    return Contract(f"{target}.__eq__", {"other": ("obj", cls)}, result, ensures=ensures, modifies=(),
                    cases=[{"other": ("obj", c)} for c in (cls, OTHER.get(target, "ChangelogEntry" if cls != "ChangelogEntry" else "Tag"))]
                    + [{"other": "str"}, {"other": "none"}],
                    props=("C25",) + (("C26",) if cls in ("Tag", "SpecParser", "Specfile") else ()))


CONTRACTS = [eq(t, n) for t, n in CONTENT.items()]
CONTRACTS.append(Contract("options:Options.__eq__", {"other": ("obj", "Options")},
                          lambda it, a: it.memo_eq("opteq", a.self, a.other), trusted=True, modifies=()))
