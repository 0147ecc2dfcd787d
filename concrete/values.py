"""C08 values, C09 option strings, C24 options"""
import re
import string

from . import gen
from .base import Skip, Violation, check, need, same


# ---- C08 -------------------------------------------------------------------------------------------
def g_value(r):
    return r.weighted([(5, lambda: gen.value(r, 3)), (3, lambda: gen.junk(r, 10)), (2, lambda: gen.value(r) + gen.junk(r, 4) + gen.value(r)),
                       (1, lambda: gen.macro(r, 3) + r.pick("\n", "\\\n", " ") + gen.macro(r))])()


def terminated(v):
    """independent scanner: does every macro in the value end?"""
    i, n = 0, len(v)
    while i < n:
        if v[i] != "%":
            i += 1
            continue
        if i + 1 == n:
            return False
        if v[i + 1] == "%":
            i += 2
            continue
        if v[i + 1] in "({[":
            o, c = v[i + 1], {"(": ")", "{": "}", "[": "]"}[v[i + 1]]
            level, j = 0, i + 1
            while j < n:
                if v[j] == o:
                    level += 1
                elif v[j] == c:
                    level -= 1
                    if level == 0:
                        break
                j += 1
            if j == n:
                return False
            body = v[i + 2:j]
            if o == "{" and ":" in body and "?" in prefix(body) and not terminated(body.split(":", 1)[1]):
                return False
            i = j + 1
        else:
            i += 1
    return True


def prefix(body):
    return body[:len(body) - len(body.lstrip("?!"))]


@check("C08", quick=16000, gen=g_value, seedable="str")
def value_lossless(v):
    from specfile import value_parser as V
    try:
        nodes = V.ValueParser.parse(v)
    except V.UnterminatedMacroException:
        need(not terminated(v), "every macro in {} ends", v)
        return
    need(terminated(v), "some macro in {} doesn't end", v)
    same("".join(str(n) for n in nodes), v, "concatenated nodes")
    need(not any(isinstance(a, V.StringLiteral) and isinstance(b, V.StringLiteral) for a, b in zip(nodes, nodes[1:])), "literals are not split")
    for n in nodes:
        s = str(n)
        need(s, "node {} is not empty", n)
        if isinstance(n, V.StringLiteral):
            need("%" not in s.replace("%%", ""), "literal {} has no macro", s)
        else:
            need(s.startswith("%"), "macro {}", s)
        if s != "%":
            same(V.ValueParser.parse(s), [n], "node parsed again")
    # flattening only opens conditional expansions
    def flat(ns):
        out = []
        for x in ns:
            if isinstance(x, V.ConditionalMacroExpansion):
                out += flat(x.body)
            else:
                out.append(x)
        return out
    same(list(V.ValueParser.flatten(nodes)), flat(nodes), "flattened nodes")
    same(nodes, V.ValueParser.parse(v), "the same value gives equal nodes")


def reference_nodes(v):
    """the nodes of a value by the macro grammar of RPM, None if some macro doesn't end"""
    out, lit, i = [], "", 0
    while i < len(v):
        if v[i] != "%" or v.startswith("%%", i):
            n = 2 if v[i] == "%" else 1
            lit, i = lit + v[i:i + n], i + n
            continue
        if i + 1 == len(v):
            return None
        c = v[i + 1]
        if c in "({[":
            close, level = {"(": ")", "{": "}", "[": "]"}[c], 0
            for j in range(i + 1, len(v)):
                level += (v[j] == c) - (v[j] == close)
                if not level:
                    break
            else:
                return None
            body, j = v[i + 2:j], j + 1
            m = re.match(r"([?!]*)(.*)", body, re.S)
            if c == "(":
                n = ("ShellExpansion", body)
            elif c == "[":
                n = ("ExpressionExpansion", body)
            elif ":" not in body:
                a = m[2].split()
                n = ("EnclosedMacroSubstitution", m[1], a[0] if a else "", a[1:])
            elif "?" in body[:len(body) - len(body.lstrip("?!"))]:
                name, rest = body.split(":", 1)
                sub = reference_nodes(rest)
                if sub is None:
                    return None
                p = name[:len(name) - len(name.lstrip("?!"))]
                n = ("ConditionalMacroExpansion", p, name[len(p):], sub)
            else:
                name, rest = body.split(":", 1)
                n = ("BuiltinMacro", name, rest)
        else:
            m = re.compile(r"([?!]*)(-?\w*(?:\*\*|[*#])?)").match(v, i + 1)
            j = m.end()
            n = ("MacroSubstitution", m[1], m[2])
        if n == ("MacroSubstitution", "", ""):
            # a percent sign that starts nothing
            lit, i = lit + "%", j
            continue
        if lit:
            out.append(("StringLiteral", lit))
        out.append(n)
        lit, i = "", j
    return out + ([("StringLiteral", lit)] if lit else [])


def merged(nodes):
    """a percent sign that starts nothing counts as a literal"""
    out = []
    for n in nodes:
        if n == ("MacroSubstitution", "", ""):
            n = ("StringLiteral", "%")
        if n[0] == "ConditionalMacroExpansion":
            n = n[:3] + (merged(n[3]),)
        if out and out[-1][0] == n[0] == "StringLiteral":
            out[-1] = (n[0], out[-1][1] + n[1])
        else:
            out.append(n)
    return out


@check("C08", quick=12000, gen=g_value, seedable="str")
def value_nodes(v):
    from specfile import value_parser as V
    try:
        nodes = V.ValueParser.parse(v)
    except V.UnterminatedMacroException:
        same(None, reference_nodes(v), f"nodes of {v!r}")
        return
    ref = reference_nodes(v)
    need(ref is not None, "some macro in {} doesn't end", v)
    same(merged([got(V, n) for n in nodes]), ref, f"nodes of {v!r}")


def g_nodes(r, depth=2):
    out = []
    for _ in range(r.randint(0, 4)):
        k = r.randint(0, 7)
        n = r.pick("foo", "bar", "a1", "_x", "version", "x86")
        p = r.pick("", "", "?", "!?", "?!", "!")
        if k == 0 and (not out or out[-1][0] != "lit"):
            out.append(["lit", r.pick("a", "1.0-", " x ", "%%", "a%%b", "(", "}", ":", "\\", "é\n", "]", "{", "%%%%", "a%%")])
        elif k == 1:
            out.append(["sub", p, n])
        elif k == 2:
            out.append(["enc", p, n, [r.pick("a", "-x", "1") for _ in range(r.randint(0, 2))]])
        elif k == 3 and depth:
            b = g_nodes(r, depth - 1)
            if all(x[0] != "lit" or not any(c in x[1] for c in "{}\\") for x in b):
                out.append(["cond", r.pick("?", "!?", "?!", "??"), n, b])
        elif k == 4:
            out.append(["shell", r.pick("", "echo x", "a (b) c", "cat | %{x}")])
        elif k == 5:
            out.append(["expr", r.pick("1", "1+[2]", "%{x} > 1")])
        elif k == 6:
            out.append(["builtin", r.pick("quote", "expand", "S", "lua", "!x"), r.pick("", "a", "a:b", "x {y} z", " q ", "%{z}")])
    return out


def nodetext(x):
    k = x[0]
    if k == "lit":
        return x[1]
    if k == "sub":
        return f"%{x[1]}{x[2]}"
    if k == "enc":
        return "%{" + " ".join([x[1] + x[2]] + x[3]) + "}"
    if k == "cond":
        return "%{" + x[1] + x[2] + ":" + "".join(nodetext(y) for y in x[3]) + "}"
    if k == "shell":
        return f"%({x[1]})"
    if k == "expr":
        return f"%[{x[1]}]"
    return "%{" + x[1] + ":" + x[2] + "}"


def nodeok(xs):
    for a, b in zip(xs, xs[1:] + [None]):
        if a[0] == "sub" and b is not None and b[0] == "lit" and (not b[1] or b[1][0].isalnum() or b[1][0] in "_*#"):
            return False
        if a[0] == "lit" and (not a[1] or b is not None and b[0] == "lit"):
            return False
        if a[0] == "lit" and a[1] not in ("a", "1.0-", " x ", "%%", "a%%b", "(", "}", ":", "\\", "é\n", "]", "{", "%%%%", "a%%"):
            return False
        if a[0] in ("sub", "enc", "cond") and a[2] not in ("foo", "bar", "a1", "_x", "version", "x86"):
            return False
        if a[0] in ("sub", "enc") and a[1] not in ("", "?", "!?", "?!", "!") or a[0] == "cond" and ("?" not in a[1] or a[1].strip("?!")):
            return False
        if a[0] == "shell" and a[1] not in ("", "echo x", "a (b) c", "cat | %{x}") or a[0] == "expr" and a[1] not in ("1", "1+[2]", "%{x} > 1"):
            return False
        if a[0] == "builtin" and (a[1] not in ("quote", "expand", "S", "lua", "!x") or a[2] not in ("", "a", "a:b", "x {y} z", " q ", "%{z}")):
            return False
        if a[0] == "enc" and any(y not in ("a", "-x", "1") for y in a[3]):
            return False
        if a[0] == "cond" and (not nodeok(a[3]) or any(y[0] == "lit" and any(c in y[1] for c in "{}\\") for y in a[3])):
            return False
    return True


def expect(V, x):
    k = x[0]
    if k == "lit":
        return ("StringLiteral", x[1])
    if k == "sub":
        return ("MacroSubstitution", x[1], x[2])
    if k == "enc":
        return ("EnclosedMacroSubstitution", x[1], x[2], x[3])
    if k == "cond":
        return ("ConditionalMacroExpansion", x[1], x[2], [expect(V, y) for y in x[3]])
    if k == "shell":
        return ("ShellExpansion", x[1])
    if k == "expr":
        return ("ExpressionExpansion", x[1])
    return ("BuiltinMacro", x[1], x[2])


def got(V, n):
    k = type(n).__name__
    if k == "StringLiteral":
        return (k, n.value)
    if k == "MacroSubstitution":
        return (k, n.prefix, n.name)
    if k == "EnclosedMacroSubstitution":
        return (k, n.prefix, n.name, n.args)
    if k == "ConditionalMacroExpansion":
        return (k, n.prefix, n.name, [got(V, y) for y in n.body])
    if k in ("ShellExpansion", "ExpressionExpansion"):
        return (k, n.body)
    return (k, n.name, n.body)


@check("C08", quick=8000, gen=g_nodes)
def value_structure(case):
    from specfile import value_parser as V
    if not nodeok(case):
        raise Skip()
    v = "".join(nodetext(x) for x in case)
    nodes = V.ValueParser.parse(v)
    same([got(V, n) for n in nodes], [expect(V, x) for x in case], f"nodes of {v!r}")


# ---- C09 -------------------------------------------------------------------------------------------
def g_options(r):
    return r.weighted([(4, lambda: gen.options(r)), (2, lambda: gen.junk(r, 8)), (2, lambda: gen.options(r) + gen.junk(r, 3) + gen.options(r))])()


@check("C09", quick=12000, gen=g_options, seedable="str")
def options_lossless(s):
    from specfile.exceptions import OptionsException, UnterminatedMacroException
    from specfile.options import Options
    try:
        t = Options.tokenize(s)
    except (OptionsException, UnterminatedMacroException):
        raise Skip() from None
    same("".join(str(x) for x in t), s, "concatenated tokens")
    o = Options(t, "a:b:cDn:TqvNS:p:P:")
    same(str(o), s, "string form of the options")
    u = Options.tokenize(str(o))
    same([(x.type.name, x.value) for x in u], [(x.type.name, x.value) for x in t], "tokenized again")
    # reading options changes nothing
    for k in list(o):
        o[k]
    list(o.positional)
    len(o)
    same(str(o), s, "string form after reading")


def g_tokens(r):
    out = []
    for i in range(r.randint(0, 6)):
        k = r.randint(0, 3)
        if k == 0:
            out.append(["WHITESPACE", r.pick(" ", "  ", "\t", " \t"), None])
        elif k == 1:
            v = r.pick("", "a b", "x", "%{foo bar}", 'say "hi"', "a%(b 'c' d)e", "\\\\", "it")
            out.append(["QUOTED", v, "'" + v + "'"])
        elif k == 2:
            v = r.pick("", "a b", "x y", "it's", "%{foo bar}", "\\n", "%(echo \"a b\")")
            out.append(["DOUBLE_QUOTED", v, '"' + v + '"'])
        else:
            v = r.pick(["-q", "-q"], ["-n", "-n"], ["-p1", "-p1"], ["a b", "a\\ b"], ["%{foo bar}", "%{foo bar}"], ["x'y", "x\\'y"], ["%(a 'b' c)z", "%(a 'b' c)z"],
                       ["%{?x:a b}", "%{?x:a b}"], ["1", "1"], ["a\"", "a\\\""], ["\\", "\\\\"], ["é", "é"])
            out.append(["DEFAULT", v[0], v[1]])
    res = []
    for t in out:
        if res and res[-1][0] == t[0] and t[0] in ("WHITESPACE", "DEFAULT"):
            continue
        res.append(t)
    return res


@check("C09", quick=6000, gen=g_tokens)
def options_tokens(case):
    from specfile.options import Options
    if any(a[0] == b[0] and a[0] in ("WHITESPACE", "DEFAULT") for a, b in zip(case, case[1:])):
        raise Skip()
    if any(x[0] == "WHITESPACE" and x[1].strip() or x not in KNOWN for x in case):
        raise Skip()
    s = "".join(x[1] if x[2] is None else x[2] for x in case)
    t = Options.tokenize(s)
    same([[x.type.name, x.value] for x in t], [x[:2] for x in case], f"tokens of {s!r}")


def reference_tokens(s):
    """tokens by the rules of poptParseArgvString(), macros are indivisible; None if there is no tokenization"""
    from specfile import value_parser as V
    if not terminated(s):
        return None
    units = []
    for n in V.ValueParser.parse(s):
        units += list(str(n)) if isinstance(n, V.StringLiteral) else [str(n)]
    out, i = [], 0
    while i < len(units):
        c = units[i]
        if len(c) == 1 and c.isspace():
            j = i
            while j < len(units) and units[j].isspace():
                j += 1
            out.append(["WHITESPACE", "".join(units[i:j])])
            i = j
        elif c in ("'", '"'):
            v, j = "", i + 1
            while j < len(units) and units[j] != c:
                if units[j] == "\\":
                    if j + 1 == len(units):
                        return None
                    # only the quotation mark itself is unescaped
                    v += units[j + 1] if units[j + 1] == c else "\\" + units[j + 1]
                    j += 2
                else:
                    v += units[j]
                    j += 1
            if j == len(units):
                return None
            out.append(["QUOTED" if c == "'" else "DOUBLE_QUOTED", v])
            i = j + 1
        else:
            v = ""
            while i < len(units) and not units[i].isspace() and units[i] not in ("'", '"'):
                if units[i] == "\\":
                    i += 1
                    if i == len(units):
                        return None
                v += units[i]
                i += 1
            out.append(["DEFAULT", v])
    return out


def g_quotes(r):
    return "".join(r.weighted([(4, r.pick("'", '"')), (3, "\\"), (2, " "), (2, "a"), (1, "\t"), (1, "-n"), (1, "%{x 'y}"), (1, "%%"), (1, "n"), (1, gen.macro(r, 1))])
                   for _ in range(r.randint(0, 9)))


@check("C09", quick=12000, gen=lambda r: g_options(r) if r.maybe(0.4) else g_quotes(r), seedable="str")
def options_token_values(s):
    from specfile.exceptions import OptionsException, UnterminatedMacroException
    from specfile.options import Options
    ref = reference_tokens(s)
    try:
        t = Options.tokenize(s)
    except (OptionsException, UnterminatedMacroException):
        same(None, ref, f"tokens of {s!r}")
        return
    same([[x.type.name, x.value] for x in t], ref, f"tokens of {s!r}")
    same("".join(str(x) for x in t), s, "concatenated tokens")


def _rng(s):
    from .base import Rng
    return Rng(s)


KNOWN = []
for _s in range(400):
    for _x in g_tokens(_rng(_s)):
        if _x not in KNOWN:
            KNOWN.append(_x)


@check("C09", quick=4000, gen=g_options, seedable="str")
def options_errors(s):
    """only unbalanced quotes, a trailing backslash or an unterminated macro are errors"""
    from specfile import value_parser as V
    from specfile.exceptions import OptionsException
    from specfile.options import Options
    try:
        Options.tokenize(s)
        ok = True
    except OptionsException:
        ok = False
    except V.UnterminatedMacroException:
        need(not terminated(s), "every macro in {} ends", s)
        return
    if not terminated(s):
        raise Violation(f"unterminated macro in {s!r} is accepted")
    units = []
    for n in V.ValueParser.parse(s):
        units += list(str(n)) if isinstance(n, V.StringLiteral) else [str(n)]
    q, i = None, 0
    good = True
    while i < len(units):
        c = units[i]
        i += 1
        if c == q:
            q = None
        elif c == "\\":
            if i == len(units):
                good = False
                break
            i += 1
        elif q is None and c in ("'", '"'):
            q = c
    same(ok, good and q is None, f"tokenizable {s!r}")


# ---- C24 -------------------------------------------------------------------------------------------
OPTSTR = "a:b:cDn:TqP:p:REz:"
FLAGS, ARGS = "cDTqRE", "abnPpz"


def g_opts(r):
    items, used = [], set()
    for _ in range(r.size(4)):
        if r.maybe(0.25):
            items.append(["pos", r.pick("foo", "1", "42", "x.y", "%{m}", "a=b")])
            continue
        f = r.choice(FLAGS + ARGS)
        if f in used and not r.maybe(0.3):
            continue
        used.add(f)
        if f in FLAGS:
            items.append(["flag", f])
        else:
            items.append(["arg", f, r.pick("x", "1", ".orig", "%{name}-%{version}", "a b", "0", "99", "it's", "a  b"), r.pick("", " ", "  ")])
    ops = []
    for _ in range(r.randint(1, 3)):
        k = r.randint(0, 5)
        if k <= 1:
            ops.append(["set", r.choice(ARGS), r.pick("y", 1, 7, "new val", "%{x}-1", ".b", "two  sp", 0, 123, 'say "x" y', "it's", "it's so", 'a"b')])
        elif k == 2:
            ops.append(["flag", r.choice(FLAGS), r.maybe(0.6)])
        elif k == 3:
            ops.append(["del", r.choice(ARGS + FLAGS)])
        elif k == 4:
            ops.append(["pos", r.pick("append", "insert0", "del0", "set0", "insert1", "delslice", "setneg", "all"), r.pick("p1", 5, "q r", "%{z}")])
        else:
            ops.append(["none", r.choice(ARGS + FLAGS)])
    return {"items": items, "sep": r.pick(" ", " ", "  ", "\t"), "ops": ops,
            "defaults": {f: r.pick("dflt", 3, "x y") for f in ARGS if r.maybe(0.2)}}


def in_order(parts, s):
    """each of the parts is in the string, one after another"""
    at = 0
    for p in parts:
        at = s.find(p, at)
        if at < 0:
            return False
        at += len(p)
    return True


def conv(v):
    if isinstance(v, str) and v.isnumeric():
        return int(v)
    return v


def state(o):
    d = {}
    for f in FLAGS + ARGS:
        d[f] = getattr(o, f)
    d["pos"] = list(o.positional)
    return d


@check("C24", quick=6000, gen=g_opts)
def options_laws(case):
    from specfile.options import Options
    parts = []
    for i in case["items"]:
        if i[0] == "pos":
            parts.append(i[1])
        elif i[0] == "flag":
            parts.append("-" + i[1])
        else:
            v = i[2]
            if " " in v or "'" in v:
                v = f'"{v}"'
                if not i[3]:
                    parts.append(f"-{i[1]} {v}")
                    continue
            parts.append(f"-{i[1]}{i[3]}{v}")
        if not parts[-1] or i[-1] == "" and i[0] != "arg":
            raise Skip()
    if case["sep"].strip() or not case["sep"] or any(len(i) > 2 and not i[2] for i in case["items"]):
        raise Skip()
    s = case["sep"].join(parts)
    defaults = case.get("defaults", {})
    if any(k not in ARGS or k == "" for k in defaults):
        raise Skip()
    o = Options(Options.tokenize(s), OPTSTR, defaults)
    exp = {f: False for f in FLAGS}
    absent = {f: defaults.get(f) for f in ARGS}
    exp.update(absent)
    exp["pos"] = [conv(i[1]) for i in case["items"] if i[0] == "pos"]
    for i in case["items"]:
        if i[0] == "flag":
            exp[i[1]] = True
        elif i[0] == "arg":
            exp[i[1]] = conv(i[2])
    same(state(o), exp, f"options of {s!r}")
    keys = sorted({i[1] for i in case["items"] if i[0] != "pos"})
    dup = {k for k in keys if sum(i[0] != "pos" and i[1] == k for i in case["items"]) > 1}
    same(sorted(o), keys, "option names")
    same(len(o), len(keys), "number of options")
    present = set(keys)
    for op in case["ops"]:
        before = str(o)
        if op[0] in ("flag", "del", "none", "set") and op[1] in dup and (op[0] in ("del", "none") or op[-1] is False):
            # removal of an option that is given several times: what remains is not specified
            continue
        if op[0] == "set":
            if op[2] == "":
                raise Skip()
            setattr(o, op[1], op[2])
            exp[op[1]] = conv(op[2])
        elif op[0] == "flag":
            o[op[1]] = op[2]
            exp[op[1]] = op[2]
        elif op[0] == "del":
            delattr(o, op[1])
            exp[op[1]] = False if op[1] in FLAGS else absent[op[1]]
        elif op[0] == "none":
            setattr(o, op[1], None)
            exp[op[1]] = False if op[1] in FLAGS else absent[op[1]]
        else:
            p = exp["pos"]
            if op[1] == "append":
                o.positional.append(op[2])
                p.append(conv(op[2]))
            elif op[1] == "insert0":
                o.positional.insert(0, op[2])
                p.insert(0, conv(op[2]))
            elif op[1] == "insert1":
                o.positional.insert(1, op[2])
                p.insert(1, conv(op[2]))
            elif op[1] == "del0" and p:
                del o.positional[0]
                del p[0]
            elif op[1] == "set0" and p:
                if " " in str(op[2]):
                    continue
                o.positional[0] = op[2]
                p[0] = conv(op[2])
            elif op[1] == "setneg" and p:
                if " " in str(op[2]):
                    continue
                o.positional[-1] = op[2]
                p[-1] = conv(op[2])
            elif op[1] == "delslice":
                same(o.positional[:2], p[:2], "slice of the positional arguments")
                del o.positional[:2]
                del p[:2]
            elif op[1] == "all":
                o.positional = [op[2], "w"]
                p[:] = [conv(op[2]), "w"]
            same(len(o.positional), len(p), "number of positional arguments")
        same(state(o), exp, f"options after {op} on {before!r} (now {str(o)!r})")
        if op is case["ops"][0]:
            keep = [x for x, i in zip(parts, case["items"]) if (i[0] != "pos") if op[0] == "pos" or i[1] != op[1]]
            if op[0] != "pos":
                keep = [x for x, i in zip(parts, case["items"]) if i[0] == "pos" or i[1] != op[1]]
            need(in_order(keep, str(o)), "other options keep their text: {} to {}", before, str(o))
        if op[0] == "set" or op[0] == "flag" and op[2]:
            present.add(op[1])
        elif op[0] != "pos":
            present.discard(op[1])
        same(sorted(o), sorted(present), "names of options")
        same(len(o), len(present), "number of options")
        t = Options(Options.tokenize(str(o)), OPTSTR, defaults)
        same(state(t), exp, f"options parsed again after {op} on {before!r} (now {str(o)!r})")
