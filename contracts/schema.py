"""Data structure invariants and text views of the classes of packit/specfile."""
import z3

from pyvc.core import Unsupported, is_str, mkstr, zstr
from pyvc.engine import Eq
from pyvc.spec import Spec
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNDEF

LINES = ("list", "line")


def L(cls):
    return ("list", ("obj", cls))


CONTEXT = "context"  # a Specfile or None


def text(it, v):
    if isinstance(v, SList):
        return it.cview(v.chunks, "text")
    if isinstance(v, tuple):
        return it.cview([("e", x) for x in v], "text")
    if isinstance(v, SObj):
        return it.e.spec.objview(it, v, "text")
    raise Unsupported(f"text of {v!r}")


def lines(it, v):
    return it.cview(v.chunks, "lines")


def cat(it, v):
    if isinstance(v, SObj):
        return it.e.spec.objview(it, v, "cat")
    return it.cview(v.chunks, "cat")


def g(it, o, *names):
    return [it.getattr(o, n) for n in names]


def v_tag(it, o):
    c, p, n, s, v, x = g(it, o, "comments", "_prefix", "name", "_separator", "value", "_suffix")
    return mkstr(text(it, c), p, n, s, v, x, "\n")


def v_macrodef(it, o):
    pl, ws, p, n, b, co, gl = g(it, o, "_preceding_lines", "_whitespace", "_prefix", "name", "body", "commented_out",
                               "is_global")
    dnl, sc = "", "%"
    if it.truth(co):
        st = it.getattr(o, "comment_out_style")
        if st.name == "DNL":
            dnl = "%dnl"
        elif st.name == "HASH":
            sc = "#"
    macro = "global" if it.truth(gl) else "define"
    return mkstr(text(it, pl), ws[0], dnl, p, sc, macro, ws[1], n, ws[2], b, ws[3], "\n")


def v_centry(it, o):
    h, c, fl = g(it, o, "header", "content", "_following_lines")
    return mkstr(h, "\n", text(it, c), text(it, fl))


def optext(it, o):
    return cat(it, o)


def v_prepmacro(it, o):
    pl, p, n, d, op, s = g(it, o, "_preceding_lines", "_prefix", "name", "_delimiter", "options", "_suffix")
    ot = optext(it, op)
    if not it.ctx.truth_str(d) and it.ctx.truth_str(ot):
        d = " "
    return mkstr(text(it, pl), p, n, d, ot, s, "\n")


def v_token(it, o):
    """the literal form: what the code gives for the token"""
    return it.call(it.getattr(o, "__str__"), [], {})


def v_cond(it, o):
    p, n, b = g(it, o, "prefix", "name", "body")
    return mkstr("%{", p, n, ":", it.cview(b.chunks, "cat"), "}")


class SpecfileSpec(Spec):
    ABSTRACT = {"Node", "PrepMacro"}
    SCHEMA = {
        "Comment": {"text": "line", "prefix": "line"},
        "Comments": {"data": L("Comment"), "_preceding_lines": LINES},
        "Tag": {"name": "line", "value": "str", "_separator": "line", "comments": ("obj", "Comments"), "valid": "bool",
                "_prefix": "line", "_suffix": "line", "_context": CONTEXT},
        "Tags": {"data": L("Tag"), "_remainder": LINES},
        "MacroDefinition": {"name": "line", "body": "str", "is_global": "bool", "commented_out": "bool",
                            "comment_out_style": ("enum", "CommentOutStyle"),
                            "_whitespace": ("tuple", ("line", "line", "line", "line")), "_prefix": "line",
                            "valid": "bool", "_preceding_lines": LINES},
        "MacroDefinitions": {"data": L("MacroDefinition"), "_remainder": LINES},
        "ChangelogEntry": {"header": "line", "content": LINES, "_following_lines": LINES},
        "Changelog": {"data": L("ChangelogEntry"), "_predecessor": LINES},
        "SourcelistEntry": {"location": "line", "comments": ("obj", "Comments"), "valid": "bool", "_context": CONTEXT},
        "Sourcelist": {"data": L("SourcelistEntry"), "_remainder": LINES},
        "Section": {"name": "line", "data": LINES, "options": ("obj", "Options"), "_delimiter": "str",
                    "_separator": "str"},
        "Sections": {"data": L("Section")},
        "Options": {"_tokens": L("Token"), "optstring": "line", "defaults": "opaque"},
        "Token": {"type": ("enum", "TokenType"), "value": "str", "_raw": ("tuple", (("enum", "TokenType"), "str", ("opt", "str")))},
        "PrepMacro": {"name": "line", "options": ("obj", "Options"), "_delimiter": "line", "_prefix": "line",
                      "_suffix": "line", "_preceding_lines": LINES},
        "PrepMacros": {"data": L("PrepMacro"), "_remainder": LINES},
        "Prep": {"macros": ("obj", "PrepMacros")},
        "StringLiteral": {"value": "str"},
        "ShellExpansion": {"body": "str"},
        "ExpressionExpansion": {"body": "str"},
        "MacroSubstitution": {"prefix": "str", "name": "str"},
        "EnclosedMacroSubstitution": {"prefix": "str", "name": "str", "args": ("list", "str"), "_rest": "str"},
        "ConditionalMacroExpansion": {"prefix": "str", "name": "str", "body": L("Node")},
        "BuiltinMacro": {"name": "str", "body": "str"},
        "EVR": {"epoch": "nat", "version": "str", "release": "str"},
        "NEVR": {"name": "str"},
        "NEVRA": {"arch": "str"},
    }
    VIEWS = {
        ("Comment", "text"): lambda it, o: mkstr(*g(it, o, "prefix", "text"), "\n"),
        ("Comments", "text"): lambda it, o: mkstr(*[text(it, x) for x in g(it, o, "_preceding_lines", "data")]),
        ("Tag", "text"): v_tag,
        ("Tags", "text"): lambda it, o: mkstr(*[text(it, x) for x in g(it, o, "data", "_remainder")]),
        ("MacroDefinition", "text"): v_macrodef,
        ("MacroDefinitions", "text"): lambda it, o: mkstr(*[text(it, x) for x in g(it, o, "data", "_remainder")]),
        ("ChangelogEntry", "text"): v_centry,
        ("Changelog", "text"): lambda it, o: mkstr(
            text(it, it.getattr(o, "_predecessor")), it.cview(it.getattr(o, "data").chunks, "rtext")),
        ("SourcelistEntry", "text"): lambda it, o: mkstr(
            text(it, it.getattr(o, "comments")), it.getattr(o, "location"), "\n"),
        ("Sourcelist", "text"): lambda it, o: mkstr(*[text(it, x) for x in g(it, o, "data", "_remainder")]),
        ("Options", "text"): lambda it, o: it.cview(it.getattr(o, "_tokens").chunks, "cat"),
        ("Token", "text"): v_token,
        ("PrepMacro", "text"): v_prepmacro,
        ("PrepMacros", "text"): lambda it, o: mkstr(*[text(it, x) for x in g(it, o, "data", "_remainder")]),
        ("Prep", "text"): lambda it, o: text(it, it.getattr(o, "macros")),
        ("StringLiteral", "text"): lambda it, o: it.getattr(o, "value"),
        ("ShellExpansion", "text"): lambda it, o: mkstr("%(", it.getattr(o, "body"), ")"),
        ("ExpressionExpansion", "text"): lambda it, o: mkstr("%[", it.getattr(o, "body"), "]"),
        ("MacroSubstitution", "text"): lambda it, o: mkstr("%", *g(it, o, "prefix", "name")),
        ("EnclosedMacroSubstitution", "text"): lambda it, o: mkstr("%{", *g(it, o, "prefix", "_rest"), "}"),
        ("ConditionalMacroExpansion", "text"): v_cond,
        ("BuiltinMacro", "text"): lambda it, o: mkstr("%{", it.getattr(o, "name"), ":", it.getattr(o, "body"), "}"),
    }

    def list_views(self, t):
        if t == ("list", ("obj", "Section")):
            return ("full",)
        return super().list_views(t)

    # name and arguments of %{name args} are the words of the text that is kept in _rest
    def mkfield(self, it, o, name, t):
        if o.cls.name == "EnclosedMacroSubstitution" and name in ("name", "args") and o.lazy:
            w = self.words(it, o)
            it.front(w)
            ch = it.chunks(w)
            o.f["name"] = ch[0][1]
            o.f["args"] = it.mkchunks(ch[1:])
            o.f["args"].birth = o.birth
            return o.f[name]
        v = super().mkfield(it, o, name, t)
        if name == "options" and any(c.name == "PrepMacro" for c in o.cls.mro()):
            it.ctx.set_nonl(cat(it, v))
        return v

    def words(self, it, o):
        w = it.call(it.getattr(it.getattr(o, "_rest"), "split"), [], {})
        return w if it.list_truth(w) else it.mklist([""])

    def invariant(self, it, o):
        if o.cls.name == "EnclosedMacroSubstitution" and "name" in o.f and "args" in o.f and "_rest" in o.f:
            n, a = o.f["name"], o.f["args"]
            return [("name and arguments are the words of the text",
                     it.equal(self.words(it, o), it.mkchunks([("e", n)] + it.chunks(a))))]
        if "options" in o.f and any(c.name == "PrepMacro" for c in o.cls.mro()):
            op = cat(it, o.f["options"])
            return [("options are on one line", True if it.ctx.is_nonl(op) else z3.Not(
                z3.Contains(zstr(op), z3.StringVal("\n"))))]
        return super().invariant(it, o)

    # the context of macro expansions is an arbitrary Specfile: expansions give arbitrary strings or fail
    def opaque_attr(self, it, o, name, default):
        if name == "expand":
            return Opaque("context.expand")
        if o.kind == "hash" and name in ("digest", "hexdigest"):
            f = Opaque("hash.digest")
            f.o = o
            return f
        if o.kind == "path" and name in ("read_text", "write_text"):
            f = Opaque("path." + name)
            f.o = o
            return f
        return super().opaque_attr(it, o, name, default)

    def call_opaque(self, it, f, args, kwargs):
        if f.kind == "context.expand":
            if it.ctx.choice(2, "expansion fails"):
                raise PyExc(it.world.classes["RPMException"])
            return it.fresh("str", "expanded")
        if f.kind == "hash.digest":
            return f.o
        if f.kind in ("path.read_text", "path.write_text"):
            from . import specfile
            return getattr(specfile, f.kind[5:])(it, f.o, args, kwargs)
        return super().call_opaque(it, f, args, kwargs)

    def opaque_eq(self, it, a, b):
        if a.kind == "hash" or b.kind == "hash":
            from . import parsing
            return parsing.hash_eq(it, a, b)
        return super().opaque_eq(it, a, b)

    def call_external(self, it, f, args, kwargs):
        if f.name in ("pickle.dumps", "hashlib.sha256", "hashlib.sha1", "hashlib.sha512", "hashlib.md5", "hashlib.blake2b"):
            from . import parsing
            if f.name == "pickle.dumps":
                if it.ctx.hints.get("input") is None:
                    from . import contexts
                    return contexts.make_key(it, args[0])
                return parsing.pickled(it, args)
            if args and isinstance(args[0], Opaque) and args[0].kind == "pickled":
                return parsing.Hash(args[0].payload)
        if f.name == "rpm.labelCompare":
            from .versions import label_compare
            return label_compare(it, *args)
        return super().call_external(it, f, args, kwargs)

    def opaque_truth(self, it, v):
        if v.kind == "context":
            k = ("context", id(v))
            if k not in it.ctx.hints:
                it.ctx.hints[k] = (it.ctx.choice(2, "context?none") == 1, v)
            return it.ctx.hints[k][0]
        return super().opaque_truth(it, v)
