"""C25 equality and representation reflect the content"""
import copy
import re

from . import gen, spec
from .base import Skip, check, need, same
from .parts import section

S = ["", "a", "b", " ", "A", "a b", "%{x}", "é", "<x>", "'", '"', "\\", "it's \"q\"", "x" * 90, "\udc80", "1", "- b"]
LIST = [[], [""], ["a"], ["a", ""], ["", "a"], ["a", "b"], ["b"], ["x" * 40, "y" * 50]]


def enum(v):
    from specfile.macro_definitions import CommentOutStyle
    from specfile.macros import MacroLevel
    from specfile.options import TokenType
    e, n = v.split(".")
    return {"CommentOutStyle": CommentOutStyle, "MacroLevel": MacroLevel, "TokenType": TokenType}[e][n]


def classes():
    from specfile import changelog, macro_definitions, macros, options, prep, sections, sourcelist, sources, tags, utils, value_parser
    d = {}
    for m in (changelog, macro_definitions, macros, options, prep, sections, sourcelist, sources, tags, utils, value_parser):
        d.update({k: v for k, v in vars(m).items() if isinstance(v, type)})
    return d


def _comments(v):
    c = classes()
    return c["Comments"]([c["Comment"](t, p) for t, p in v])


# class: {parameter: (values, does it belong to the content)}; "?..." values are built by make()
COMMENTS = [[], [["a", "# "]], [["a", "#"]], [["b", "# "]], [["a", "# "], ["b", "# "]]]
TAGARGS = {"name": (["Name", "Version", "Summary"], 1), "value": (S, 1), "separator": ([": ", ":", " : "], 1), "comments": (COMMENTS, 1),
           "valid": ([True, False], 0), "prefix": (S[:6], 1), "suffix": (S[:6], 1)}
SLARGS = {"location": (S, 1), "comments": (COMMENTS, 1), "valid": ([True, False], 0)}
KINDS = {
    "Comment": {"text": (S, 1), "prefix": (["# ", "#", "  # "], 1)},
    "Tag": TAGARGS,
    "MacroDefinition": {"name": (S, 1), "body": (S, 1), "is_global": ([True, False], 1), "commented_out": ([True, False], 1),
                        "comment_out_style": (["CommentOutStyle.DNL", "CommentOutStyle.HASH", "CommentOutStyle.OTHER"], 1),
                        "whitespace": ([["", " ", " ", ""], ["", "  ", " ", ""], [" ", " ", " ", ""], ["", " ", " ", " "], ["", " ", "\t", ""]], 1),
                        "prefix": (S[:5], 1), "valid": ([True, False], 0), "preceding_lines": (LIST, 1)},
    "ChangelogEntry": {"header": (S, 1), "content": (LIST, 1), "following_lines": (LIST, 1)},
    "SourcelistEntry": SLARGS,
    "Token": {"type": (["TokenType.DEFAULT", "TokenType.WHITESPACE", "TokenType.QUOTED", "TokenType.DOUBLE_QUOTED"], 1), "value": (S, 1)},
    "Macro": {"name": (S, 1), "options": (S, 1), "body": (S, 1), "level": (["MacroLevel.SPEC", "MacroLevel.GLOBAL", "MacroLevel.BUILTIN"], 1), "used": ([True, False], 1)},
    "SetupMacro": {"name": (["%setup", "%autosetup"], 1), "options": (["?", "?-q", "?-n x", "?-n x -q", "?-n y", "?a", "?b"], 1), "delimiter": (["", " ", "  "], 1),
                   "prefix": (S[:5], 1), "suffix": (S[:5], 1), "preceding_lines": (LIST, 1)},
    "StringLiteral": {"value": (S, 1)},
    "ShellExpansion": {"body": (S, 1)},
    "ExpressionExpansion": {"body": (S, 1)},
    "MacroSubstitution": {"body": (["a", "?a", "!a", "b", "?b"], 1)},
    "EnclosedMacroSubstitution": {"body": (["a", "?a", "a b", "a b c", "b", "a c", "!?a"], 1)},
    "ConditionalMacroExpansion": {"condition": (["?a", "!?a", "?b"], 1), "body": (["", "a", "%{b}", "a%b", "b"], 1)},
    "BuiltinMacro": {"name": (["quote", "S"], 1), "body": (S, 1)},
    "TagSource": {"tag": ([["Source", "a"], ["Source0", "a"], ["Source", "b"]], 1), "number": ([None, 0, 1], 1)},
    "TagPatch": {"tag": ([["Patch", "a"], ["Patch0", "a"], ["Patch", "b"]], 1), "number": ([None, 0, 1], 1)},
    "ListSource": {"source": (["a", "b"], 1), "number": ([0, 1, 2], 1)},
}


def make(kind, args):
    c = classes()
    a = dict(args)
    for k, v in a.items():
        if k == "comments":
            a[k] = _comments(v)
        elif isinstance(v, str) and re.match(r"(CommentOutStyle|MacroLevel|TokenType)\.\w+$", v) and k in ("comment_out_style", "level", "type"):
            a[k] = enum(v)
        elif k == "whitespace":
            a[k] = tuple(v)
        elif k == "options" and kind == "SetupMacro":
            a[k] = c["Options"](c["Options"].tokenize(v[1:]), "n:q")
        elif kind == "ConditionalMacroExpansion" and k == "body":
            a[k] = c["ValueParser"].parse(v)
        elif k == "tag":
            a[k] = c["Tag"](v[0], v[1], ": ", _comments([]))
        elif k == "source":
            a[k] = c["SourcelistEntry"](v, _comments([]))
        elif isinstance(v, list):
            a[k] = list(v)
    return c[kind](**a)


def g_pair(r):
    kind = r.choice(sorted(KINDS))
    args = {k: r.choice(v) for k, (v, _) in KINDS[kind].items()}
    p = r.choice(sorted(args))
    return {"kind": kind, "args": args, "param": p, "other": r.choice(KINDS[kind][p][0]), "third": r.choice(sorted(KINDS))}


@check("C25", quick=12000, gen=g_pair)
def single_difference(c):
    kind, args, p = c["kind"], c["args"], c["param"]
    if kind not in KINDS or set(args) != set(KINDS[kind]) or any(args[k] not in KINDS[kind][k][0] for k in args) or c["other"] not in KINDS[kind][p][0]:
        raise Skip()
    a, b = make(kind, args), make(kind, args)
    d = make(kind, {**args, p: c["other"]})
    need(a == b and b == a and not a != b, "equal {} are equal: {}", kind, args)
    need(copy.deepcopy(a) == a, "copy of {} is equal", a)
    differ = args[p] != c["other"] and KINDS[kind][p][1]
    same((a == d, d == a, a != d, d != a), (not differ, not differ, bool(differ), bool(differ)),
         f"equality of {kind} {args} with another {p} {c['other']!r}")
    if kind in ("Token", "Macro"):
        same(hash(a), hash(b), "hashes of equal objects")
        same(len({a, b, d}), 2 if differ else 1, "members of a set")
    need(a == b, "still equal after comparing")
    for o in (None, "x", 1, [], (), object()):
        need(not a == o and a != o and not o == a, "{} differs from {}", a, o)
    t = c["third"]
    if t in KINDS and t != kind and {t, kind} != {"TagSource", "TagPatch"}:
        x = make(t, {k: v[0][0] for k, v in KINDS[t].items()})
        need(not a == x and not x == a, "{} differs from {}", a, x)
    if {kind, t} == {"ShellExpansion", "ExpressionExpansion"}:
        x = make(t, args)
        need(not a == x and not x == a and a != x, "{} differs from {}", a, x)


def evaluated(x):
    text = repr(x)
    text = re.sub(r"<(CommentOutStyle|TokenType|MacroLevel)\.(\w+): -?\d+>", r"\1.\2", text)
    try:
        return eval(text, {**classes()})
    except SyntaxError:
        need(False, "representation {} can be read", text)


@check("C25", quick=4000, gen=g_pair)
def representation(c):
    kind, args = c["kind"], c["args"]
    if kind not in KINDS or set(args) != set(KINDS[kind]) or any(args[k] not in KINDS[kind][k][0] for k in args):
        raise Skip()
    if c["param"] in args and c["other"] in KINDS[kind][c["param"]][0]:
        args = {**args, c["param"]: c["other"]}
    a = make(kind, args)
    b = evaluated(a)
    need(type(b) is type(a) and a == b, "representation {} stands for an equal object", repr(a))
    if "valid" in args:
        same(b.valid, a.valid, "validity in the representation")


def g_struct(r):
    k = r.pick("tags", "changelog", "prep", "sourcelist", "macros", "value", "sections")
    g = {"tags": gen.lines_tags, "changelog": gen.lines_cl, "prep": gen.lines_prep, "sourcelist": gen.lines_sl,
         "macros": gen.lines_md, "sections": gen.lines_secs}
    return [k, gen.value(r) if k == "value" else g[k](r)]


@check("C25", quick=3000, gen=g_struct)
def structure(case):
    """structures parsed from text: representation and copies are equal and have the same text; another text is unequal"""
    from specfile.exceptions import SpecfileException
    from specfile.options import Options
    c = classes()
    k, t = case
    t = [x for x in t if "<" not in x] if isinstance(t, list) else t
    if any("\n" in x for x in t) and k != "value":
        raise Skip()
    try:
        if k == "value":
            x = c["ValueParser"].parse(t)
        elif k == "macros":
            x = c["MacroDefinitions"].parse(t)
        elif k == "sections":
            x = c["Sections"].parse(t)
        else:
            x = {"tags": c["Tags"], "changelog": c["Changelog"], "prep": c["Prep"], "sourcelist": c["Sourcelist"]}[k].parse(
                section("package" if k == "tags" else k, t))
    except SpecfileException:
        raise Skip() from None
    y = evaluated(x)
    need(type(x) is type(y) and x == y and y == x, "representation {} stands for an equal object", repr(x))

    def text(o):
        if k == "value":
            return "".join(map(str, o))
        return o.get_raw_data() if k in ("macros", "sections") else o.get_raw_section_data()
    if k not in ("prep", "sections"):
        same(text(y), text(x), "text of the object that the representation stands for")
    z = copy.deepcopy(x)
    need(z == x, "copy is equal")
    same(text(z), text(x), "text of the copy")


def g_specs(r):
    c = spec.spec(r)
    c["change"] = r.pick(None, "autosave", "content", "force_parse", "macros", "sourcedir", "newline", "path")
    return c


@check("C25", quick=300, gen=g_specs)
def spec_files(c):
    from pathlib import Path

    from specfile import Specfile
    with spec.specfile(c) as s:
        p = Path(s.path)
        kw = {"autosave": s.autosave, "sourcedir": s.sourcedir, "macros": s.macros, "force_parse": s.force_parse}
        need(Specfile(p, **kw) == s and s == Specfile(p, **kw), "two instances of the same file are equal")
        ch = c["change"]
        if ch == "autosave":
            kw["autosave"] = not kw["autosave"]
        elif ch == "force_parse":
            kw["force_parse"] = not kw["force_parse"]
        elif ch == "macros":
            kw["macros"] = list(kw["macros"]) + [("some_macro", "1")]
        elif ch == "sourcedir":
            d = Path(p.parent, "other")
            d.mkdir()
            kw["sourcedir"] = d
        elif ch == "path":
            q = Path(p.parent, "copy.spec")
            q.write_bytes(p.read_bytes())
            p = q
        t = Specfile(p, **kw)
        if ch == "content":
            with t.lines() as lines:
                lines.append("# end")
        elif ch == "newline":
            if not str(s).endswith("\n") or str(s).endswith("\n\n"):
                raise Skip()
            q = p.read_bytes()
            p.write_bytes(q.rstrip(b"\n"))
            t = Specfile(p, **kw)
        same((s == t, t == s, s != t), (ch is None, ch is None, ch is not None), f"equality with another {ch}")
        need(s != 1 and not s == "x", "another type")
