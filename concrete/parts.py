"""C03 tags, C04 macro definitions, C05 changelog, C06 %prep, C07 source lists: lossless and correctly structured"""
import re

from . import gen
from .base import Skip, Violation, check, need, same


def nonl(lines):
    if any("\n" in x for x in lines):
        raise Skip()


def section(name, lines):
    from specfile.sections import Section
    return Section(name, data=list(lines))


def malformed(lines):
    """is there a condition with an expression that RPM can't expand"""
    import rpm
    i = 0
    while i < len(lines):
        x = lines[i]
        m = re.match(r"\s*%(?:if|elif)\w*", x)
        while m and x.endswith("\\") and i + 1 < len(lines):
            i += 1
            x = x[:-1] + lines[i]
        if m:
            for y in (x[m.end():], x[m.end():].rstrip("\\")):
                try:
                    rpm.expandMacro(y)
                except (rpm.error, ValueError):
                    return True
        i += 1
    return False


def roundtrip(parse, raw, lines, allowed=()):
    from specfile.exceptions import RPMException
    nonl(lines)
    arg = list(lines)
    try:
        o = parse(arg)
    except allowed:
        return None
    except RPMException:
        if malformed(lines):
            raise Skip() from None
        raise
    same(arg, lines, "the argument is not changed")
    same(raw(o), lines, "reconstructed lines")
    same(raw(o), lines, "reconstructed lines (again)")
    return o


# ---- C03 -------------------------------------------------------------------------------------------
@check("C03", quick=5000, gen=gen.lines_tags, seedable="lines")
def tags_lossless(lines):
    from specfile.tags import Tags
    s = section("package", lines)
    o = roundtrip(lambda x: Tags.parse(s), lambda t: t.get_raw_section_data(), lines)
    same(s.data, lines, "the section is not changed")
    # parsing what was written gives the same tags
    if o is not None:
        p = Tags.parse(section("package", o.get_raw_section_data()))
        same([(t.name, t.value, t.comments.raw, t.valid) for t in p], [(t.name, t.value, t.comments.raw, t.valid) for t in o], "tags parsed again")


@check("C03", quick=3000, gen=lambda r: [gen.commentline(r) if r.maybe(0.6) else gen.textline(r) for _ in range(r.size(5))], seedable="lines")
def comments_lossless(lines):
    from specfile.tags import Comments
    o = roundtrip(Comments.parse, lambda c: c.get_raw_data(), lines)
    # comments are exactly the trailing comment lines
    n = 0
    for x in reversed(lines):
        if not x.lstrip().startswith("#"):
            break
        n += 1
    same([str(c) for c in o], lines[len(lines) - n:], "comments")
    for c, x in zip(o, lines[len(lines) - n:]):
        same(c.text, x.lstrip()[1:].lstrip(), "text of a comment")


PRE = ["", "", " ", "text", "# c  ", "%if 1", "%endif", "%endif # x", "%endif  ", "%global a b", "%{x}", "%else"]


def g_tagitems(r):
    items = []
    for _ in range(r.size(4)):
        v = r.weighted([(5, [r.pick("foo", "1.0", "%{name}-%{version}", "a b  c", "https://x/%{a}?b=c", "%{?x}%{!?y:z}", "x:y", "%(echo a)", ":", "a{b",
                                    "é")]),
                        (2, r.pick(["%{expand:", "a", "b}"], ["%(echo a", ")x"], ["%{lua:  ", " x ", "}"], ["%{?a:%{b", "}}c"], ["%{x:{", "}", "}"])), (1, (r.pick("", "a") + nested(r) + r.pick("", "", "z")).split("\n"))])
        cond = None
        if len(v) == 1 and r.maybe(0.2) and not any(c in v[0] for c in "{}"):
            cond = r.pick("?foo", "!?foo", "?!bar")
        items.append({
            "pre": [r.choice(PRE) for _ in range(r.weighted([(4, r.randint(0, 2)), (1, r.randint(3, 5))]))] if r.maybe(0.45) else [],
            "comments": [[r.pick("# ", "#", "  #\t", "#  "), r.pick("about", "x y", "z ", "é")] for _ in range(r.randint(0, 2))] if r.maybe(0.3) else [],
            "name": gen.tagname(r) if r.maybe(0.5) else r.choice(gen.TAGS), "sep": gen.sep(r), "value": v, "cond": cond,
            "ws": r.pick("", "", "", " ", "\t", "  ")})
    return {"items": items, "rest": [r.pick("", "text", "%endif", "# c") for _ in range(r.randint(0, 2))]}


def tag_lines(it):
    x = "\n".join([it["name"] + it["sep"] + it["value"][0]] + it["value"][1:])
    if it["cond"]:
        x = "%{" + it["cond"] + ":" + x + "}"
    return (x + it["ws"]).split("\n")


def render(case, own):
    out = []
    for it in case["items"]:
        out += it["pre"] + [p + t for p, t in it["comments"]] + own(it)
    return out + case["rest"]


def tags_case(case):
    """checks that the case has the intended structure"""
    names = {t.lower() for t in gen.TAGS}
    for it in case["items"]:
        if it["name"].lower() not in names or ":" not in it["sep"] or it["sep"].replace(":", "", 1).strip() or not it["value"] or not it[
                "value"][0].strip() or it["value"][0][0].isspace() or it["value"][-1] != it["value"][-1].rstrip() or it["ws"].strip():
            raise Skip()
        if len(it["value"]) > 1:
            if it["cond"] is not None or it["value"] not in (["%{expand:", "a", "b}"], ["%(echo a", ")x"], ["%{lua:  ", " x ", "}"],
                                                               ["%{?a:%{b", "}}c"], ["%{x:{", "}", "}"]) and not balanced("\n".join(it["value"])):
                raise Skip()
        elif it["cond"] is not None and (it["cond"] not in ("?foo", "!?foo", "?!bar") or any(c in it["value"][0] for c in "{}")):
            raise Skip()
        if not all(t[0].strip() == "#" and not t[0].strip("# \t") and t[1] and not t[1][0].isspace() and t[1][0] != "#" for t in it["comments"]):
            raise Skip()
        if it["comments"] and it["pre"] and it["pre"][-1].lstrip().startswith("#"):
            raise Skip()
        if any(p not in PRE for p in it["pre"]):
            raise Skip()
        if it["value"][0] not in ("foo", "1.0", "%{name}-%{version}", "a b  c", "https://x/%{a}?b=c", "%{?x}%{!?y:z}", "x:y", "%(echo a)", ":", "a{b", "é",
                                  "%{expand:", "%(echo a", "%{lua:  ", "%{?a:%{b", "%{x:{") and not balanced("\n".join(it["value"])):
            raise Skip()


def comments_of(it):
    pre = []
    if not it["comments"] or True:
        for p in reversed(it["pre"]):
            if not p.lstrip().startswith("#"):
                break
            pre.insert(0, p.lstrip()[1:].lstrip())
    return pre + [t for _, t in it["comments"]]


@check("C03", quick=3000, gen=g_tagitems)
def tags_structure(case):
    from specfile.tags import Tags
    tags_case(case)
    lines = render(case, tag_lines)
    t = Tags.parse(section("package", lines))
    same(t.get_raw_section_data(), lines, "reconstructed lines")
    same([x.name for x in t], [i["name"] for i in case["items"]], "tag names")
    same([x.value for x in t], ["\n".join(i["value"]) for i in case["items"]], "tag values")
    same([x.comments.raw for x in t], [comments_of(i) for i in case["items"]], "comments")
    same([x.normalized_name for x in t], [i["name"].capitalize() for i in case["items"]], "normalized names")


# ---- C04 -------------------------------------------------------------------------------------------
@check("C04", quick=6000, gen=gen.lines_md, seedable="lines")
def macro_definitions_lossless(lines):
    from specfile.macro_definitions import MacroDefinitions
    for wc in (False, True):
        o = roundtrip(lambda x: MacroDefinitions.parse(x, with_conditions=wc), lambda m: m.get_raw_data(), lines)
        p = MacroDefinitions.parse(o.get_raw_data(), with_conditions=wc)
        same([(m.name, m.body, m.is_global, m.commented_out, m.comment_out_style, m.valid) for m in p],
             [(m.name, m.body, m.is_global, m.commented_out, m.comment_out_style, m.valid) for m in o], "macro definitions parsed again")
        for m in o:
            raw = m.get_raw_data()
            body = str(m).split("\n")
            same(raw[len(raw) - len(body):], body, "string form of a macro definition")


def nested(r, depth=2):
    """an expression in brackets over one or more lines, all brackets are balanced"""
    o, c = r.pick(("%{", "}"), ("%(", ")"))
    out = [o + r.pick("expand:", "x ", "?a:") if o == "%{" else o + r.pick("echo ", "x ")]
    for _ in range(r.randint(0, 4)):
        k = r.randint(0, 6)
        if k == 0 and depth:
            out.append(nested(r, depth - 1))
        elif k <= 2 and depth:
            a, b = r.pick("()", "()", "{}", "{}", ("${", "}"), ("$(", ")"), ("((", "))"))
            out.append(a + r.pick("", "y", "\n", "z\n", nested(r, depth - 1)) + b)
        elif k <= 4:
            out.append("\n")
        else:
            out.append(r.pick("y", " ", "Name: x", "%build", "%if 0", "# c", "%endif", "b\\", "%%", "*", "]", "%[1]"))
    return "".join(out) + c


def balanced(text):
    """is it an expression (or several) whose brackets are balanced, with newlines only within of them"""
    stack, i = [], 0
    while i < len(text):
        ch = text[i]
        if ch in "({":
            if not stack and (i == 0 or text[i - 1] != "%" or i > 1 and text[i - 2] == "%"):
                return False
            stack.append(ch)
        elif ch in ")}":
            if not stack or stack.pop() != {")": "(", "}": "{"}[ch]:
                return False
        elif ch == "\n" and not stack or ch == "\\" and text[i + 1:i + 2] != "\n":
            return False
        elif stack and text[i:i + 2] in ("%{", "%(") and text[i - 1] == "%":
            return False
        i += 1
    return not stack and text == text.strip() and "\\\n" not in re.sub(r"[({]", "", text[:2])


def g_mditems(r):
    items = []
    for _ in range(r.size(4)):
        style = r.weighted([(8, ""), (1, "HASH"), (1, "DNL"), (1, "OTHER")])
        body = r.weighted([(5, [r.pick("foo", "1.0", "%{name}-x", "a b  c", "%{?x:{y}}", "%%{", "é", "\\x", "a(b", "%(echo \\))")]),
                           (3, r.pick(["%{expand:", "%build", "b}"], ["a \\", "b\\", "c"], ["%(", "x)"], ["%{lua: ", "", "}"], ["\\", "x"], ["%{a", "{", "}}"],
                                      ["%{expand:%{x} ", " y", "%if 0", "}z"])), (2, (r.pick("", "a", "1 ") + nested(r) + r.pick("", "", "z")).split("\n"))])
        if style:
            body = [r.pick("foo", "1.0", "%{name}")]
        items.append({"pre": [r.pick("", "text", "%if 1", "%endif", "Name: x", "# c", "%define_x y", "%globalx a b") for _ in range(r.randint(0, 2))],
                      "name": r.pick("foo", "bar", "a1", "_x"), "opts": r.pick("", "", "", "()", "(n:)"), "body": body, "global": r.maybe(0.5), "style": style,
                      "ws": [r.pick("", "", " "), r.pick(" ", "\t", "  "), r.pick(" ", "   "), r.pick("", "", " ", "\t")],
                      "prefix": r.pick(" ", "", "x ") if style == "DNL" else r.pick("#%", "# %", "## x %") if style == "OTHER" else ""})
    return {"items": items, "rest": [r.pick("", "text", "%endif") for _ in range(r.randint(0, 2))]}


def md_lines(it):
    sc = "#" if it["style"] == "HASH" else "%"
    dnl = "%dnl" if it["style"] == "DNL" else ""
    x = it["ws"][0] + dnl + it["prefix"] + sc + ("global" if it["global"] else "define") + it["ws"][1] + it["name"] + it["opts"] + it["ws"][2] + "\n".join(
        it["body"]) + it["ws"][3]
    return x.split("\n")


MDBODIES = (["%{expand:", "%build", "b}"], ["a \\", "b\\", "c"], ["%(", "x)"], ["%{lua: ", "", "}"], ["\\", "x"], ["%{a", "{", "}}"],
            ["%{expand:%{x} ", " y", "%if 0", "}z"])


def mds_case(case):
    for it in case["items"]:
        if len(it["body"]) == 1:
            if it["body"][0] not in ("foo", "1.0", "%{name}-x", "a b  c", "%{?x:{y}}", "%%{", "é", "\\x", "a(b", "%(echo \\))", "%{name}") and (it["style"] or not balanced(it["body"][0])):
                raise Skip()
        elif it["style"] or it["body"] not in MDBODIES and not balanced("\n".join(it["body"])):
            raise Skip()
        if len(it["ws"]) != 4 or not it["ws"][1] or not it["ws"][2] or not it["name"].isidentifier() or it["opts"] not in ("", "()", "(n:)"):
            raise Skip()
        if any("global" in p and p != "%globalx a b" or "define" in p and p != "%define_x y" for p in it["pre"]):
            raise Skip()
        if (it["style"] == "DNL") != (it["prefix"] in (" ", "", "x ") and it["style"] == "DNL") or it["style"] == "OTHER" and it[
                "prefix"] not in ("#%", "# %", "## x %") or it["style"] in ("", "HASH") and it["prefix"]:
            raise Skip()


def mdrender(case):
    out = []
    for it in case["items"]:
        out += it["pre"] + md_lines(it)
    return out + case["rest"]


@check("C04", quick=3000, gen=g_mditems)
def macro_definitions_structure(case):
    from specfile.macro_definitions import MacroDefinitions
    mds_case(case)
    lines = mdrender(case)
    o = MacroDefinitions.parse(lines)
    same(o.get_raw_data(), lines, "reconstructed lines")
    same([m.name for m in o], [i["name"] + i["opts"] for i in case["items"]], "names")
    same([m.body for m in o], ["\n".join(i["body"]) for i in case["items"]], "bodies")
    same([m.is_global for m in o], [i["global"] for i in case["items"]], "scopes")
    same([m.commented_out for m in o], [bool(i["style"]) for i in case["items"]], "commented out")
    same([m.comment_out_style.name for m in o if m.commented_out], [i["style"] for i in case["items"] if i["style"]], "styles")


# ---- C05 -------------------------------------------------------------------------------------------
@check("C05", quick=6000, gen=gen.lines_cl, seedable="lines")
def changelog_lossless(lines):
    from specfile.changelog import Changelog
    o = roundtrip(lambda x: Changelog.parse(section("changelog", x)), lambda c: c.get_raw_section_data(), lines)
    for e in o:
        need(e.header.startswith("*"), "header {} starts with *", e.header)
        need(not e.content or e.content[-1].strip() or False, "content {} has no trailing blank lines", e.content)
    heads = [e.header for e in reversed(o)]
    it = iter(lines)
    need(all(h in it for h in heads), "entries are ordered from the bottom to the top")
    # a line starting with * opens an entry unless the open entry has no content yet
    exp, content = [], ""
    for x in lines:
        if x.startswith("*") and (not exp or content.strip()):
            exp.append([x, []])
            content = ""
        elif exp:
            exp[-1][1].append(x)
            content += x
    for e in exp:
        while e[1] and not e[1][-1].strip():
            e[1].pop()
    same([[e.header, e.content] for e in reversed(o)], exp, "entries")


# ---- C06 -------------------------------------------------------------------------------------------
@check("C06", quick=6000, gen=gen.lines_prep, seedable="lines")
def prep_lossless(lines):
    from specfile.exceptions import OptionsException, UnterminatedMacroException
    from specfile.prep import Prep
    o = roundtrip(lambda x: Prep.parse(section("prep", x)), lambda p: p.get_raw_section_data(), lines, (OptionsException, UnterminatedMacroException))
    if o is None:
        raise Skip()
    for m in o.macros:
        need(m.name.startswith("%"), "name of a macro")


def g_prepitems(r):
    items = []
    for _ in range(r.size(4)):
        n = r.weighted([(2, "%setup"), (2, "%autosetup"), (1, "%autopatch"), (2, "%patch"), (1, "%patch0"), (1, "%patch12"), (1, "%patch" + r.pick("1", "007", "100", "0042", "1000", "12345", "%d" % r.randint(0, 10 ** r.randint(1, 7))))])
        opts = [r.pick("-q", "-p1", "-n %{name}", "-b .x", "-P2", "5", '-n "a b"', "-n 'x'", "-c", "-T -a 1", "-z .%{y}") for _ in range(r.randint(0, 3))]
        items.append({"pre": [r.pick("", "cd x", "%if 1", "%endif", "# c", "%setupx -q", "%{patch}", "echo", "%patchx -p1", "%autosetup-q") for _ in range(r.randint(0, 2))],
                      "prefix": r.pick("", "", "", "  ", "x && "), "name": n, "opts": opts, "delim": r.pick(" ", "  ", "\t") if opts else r.pick("", "", " "),
                      "cond": r.pick(None, None, None, "?foo", "!?foo")})
    return {"items": items, "rest": [r.pick("", "make", "%endif") for _ in range(r.randint(0, 2))]}


def prep_case(case):
    for it in case["items"]:
        if not re.fullmatch("%(setup|autosetup|autopatch|patch[0-9]*)", it["name"]) or it["delim"].strip() or it["opts"] and not it["delim"]:
            raise Skip()
        if it["cond"] not in (None, "?foo", "!?foo") or it["prefix"] not in ("", "  ", "x && "):
            raise Skip()
        if any(o not in ("-q", "-p1", "-n %{name}", "-b .x", "-P2", "5", '-n "a b"', "-n 'x'", "-c", "-T -a 1", "-z .%{y}") for o in it["opts"]):
            raise Skip()
        if any(p not in ("", "cd x", "%if 1", "%endif", "# c", "%setupx -q", "%{patch}", "echo", "%patchx -p1", "%autosetup-q") for p in it["pre"]):
            raise Skip()


def prep_line(it):
    x = it["prefix"] + it["name"] + it["delim"] + " ".join(it["opts"])
    return ["%{" + it["cond"] + ":" + x + "}"] if it["cond"] else [x]


def preprender(case):
    out = []
    for it in case["items"]:
        out += it["pre"] + prep_line(it)
    return out + case["rest"]


@check("C06", quick=2500, gen=g_prepitems)
def prep_structure(case):
    from specfile import prep as P
    prep_case(case)
    lines = preprender(case)
    o = P.Prep.parse(section("prep", lines))
    same(o.get_raw_section_data(), lines, "reconstructed lines")
    same([m.name for m in o.macros], [i["name"] for i in case["items"]], "macro names")
    same([str(m.options) for m in o.macros], [" ".join(i["opts"]) for i in case["items"]], "options")
    kinds = {"%setup": P.SetupMacro, "%autosetup": P.AutosetupMacro, "%autopatch": P.AutopatchMacro}
    for m, i in zip(o.macros, case["items"]):
        need(type(m) is kinds.get(i["name"], P.PatchMacro), "class of {}", i["name"])
    for n in ("%setup", "%autosetup", "%autopatch"):
        same(n in o, any(i["name"] == n for i in case["items"]), f"presence of {n}")
        same(kinds[n] in o, any(i["name"] == n for i in case["items"]), f"presence of the class of {n}")
    same("%patch" in o, any(i["name"].startswith("%patch") for i in case["items"]), "presence of %patch")
    for i, m in zip(case["items"], o.macros):
        if isinstance(m, P.PatchMacro):
            d = re.sub("[^0-9]", "", i["name"])
            exp = int(d) if d else None
            if exp is None:
                if "-P2" in i["opts"]:
                    exp = 2
                elif "5" in i["opts"]:
                    exp = 5
                else:
                    exp = 0
            if not any(x in ("-q", "-n %{name}", "-c", "-T -a 1", '-n "a b"', "-n 'x'") for x in i["opts"]):
                same(m.number, exp, "patch number")


# ---- C07 -------------------------------------------------------------------------------------------
@check("C07", quick=5000, gen=gen.lines_sl, seedable="lines")
def sourcelist_lossless(lines):
    from specfile.sourcelist import Sourcelist
    s = section("sourcelist", lines)
    o = roundtrip(lambda x: Sourcelist.parse(s), lambda t: t.get_raw_section_data(), lines)
    same(s.data, lines, "the section is not changed")
    # entries are the lines that are neither empty nor comments
    same([e.location for e in o], [x for x in lines if x and not x.lstrip().startswith("#")], "locations")
    p = Sourcelist.parse(section("sourcelist", o.get_raw_section_data()))
    same([(e.location, e.comments.raw, e.valid) for e in p], [(e.location, e.comments.raw, e.valid) for e in o], "entries parsed again")
    buf = []
    exp = []
    for x in lines:
        if x and not x.lstrip().startswith("#"):
            c = []
            for y in reversed(buf):
                if not y.lstrip().startswith("#"):
                    break
                c.insert(0, y.lstrip()[1:].lstrip())
            exp.append(c)
            buf = []
        else:
            buf.append(x)
    same([e.comments.raw for e in o], exp, "comments")
