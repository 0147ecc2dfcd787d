"""Generators of spec file text, line by line and construct by construct."""
from .base import dictionary

WS = [" ", "  ", "\t", " \t ", "   "]
ODDWS = ["\x0b", "\x0c", "\u2028", "\xa0", "\x85", "\x1c"]
ALPHA = list("aAbz019_.-+~^:#%%%{}()[]\\\\\"'  \t?!*,=/<>&|$@;`") + ["%{", "%(", "%[", "%%", "{", "}", "(", ")", "é", "\u2028"]
WORDS = ["foo", "bar", "x", "name", "version", "a1", "devel", "pkg-libs", "1.0", "0", "42", "main", "rc1", "v2"]
MACROS = ["foo", "bar", "name", "version", "dist", "_bindir", "x1", "undefined_macro"]
TAGS = ["Name", "Version", "Release", "Summary", "License", "URL", "Epoch", "Source", "Source0", "Source1", "Source10",
        "Patch", "Patch0", "Patch1", "Patch0042", "BuildRequires", "Requires", "Requires(post)", "Provides", "Conflicts",
        "Obsoletes", "Recommends", "BuildArch", "ExclusiveArch", "Group", "Packager", "Vendor", "Summary(cs)",
        "Requires(pre)", "VCS", "Icon", "NoSource", "Prefix"]
SECTIONS = ["description", "prep", "build", "install", "check", "files", "changelog", "package", "post", "postun", "pre",
            "preun", "sourcelist", "patchlist", "clean", "conf", "generate_buildrequires", "triggerin", "verifyscript",
            "pretrans", "posttrans"]


def dic(r, p=0.04):
    """a constant of the source, with a small probability (higher for constants that were not there before)"""
    new, old, _ = dictionary()
    if new and r.maybe(p * 3):
        return r.choice(new)
    if old and r.maybe(p):
        return r.choice(old)
    return None


def ws(r, empty=True):
    if empty and r.maybe(0.3):
        return ""
    return r.choice(WS)


def anyws(r):
    return r.choice(ODDWS) if r.maybe(0.05) else ws(r)


def junk(r, n=8):
    out = []
    for _ in range(r.randint(0, n)):
        d = dic(r, 0.03)
        out.append(d if d is not None else r.choice(ALPHA))
    return "".join(out)


def word(r):
    d = dic(r, 0.02)
    if d is not None and d and not any(c.isspace() or c in "%{}()[]\\\"'" for c in d):
        return d
    return r.choice(WORDS)


def ident(r):
    d = dic(r, 0.02)
    if d is not None and d.isidentifier():
        return d
    return r.weighted([(6, r.choice(MACROS)), (2, "m%d" % r.randint(0, 30)), (1, r.choice("abcxyz")), (1, "_priv")])


def macro(r, depth=2):
    """a macro expression with balanced brackets"""
    k = r.randint(0, 9)
    n = ident(r)
    pre = r.pick("", "", "", "?", "!?", "?!", "??", "!", "!!?")
    if k <= 1:
        return f"%{pre}{n}"
    if k <= 4:
        return f"%{{{pre}{n}}}"
    if k == 5:
        return f"%{{{pre}{n}{r.pick(' ', '  ', chr(9))}{word(r)}{r.pick('', ' ')}}}"
    if k == 6 and depth:
        return f"%{{{r.pick('?', '!?', '?!')}{n}:{value(r, depth - 1)}}}"
    if k == 7:
        return f"%{{{r.pick('quote', 'lua', 'expand', 'S', 'basename', 'u2p')}:{r.choice(WORDS)}{r.pick('', ':x', ' y')}}}"
    if k == 8:
        return f"%({r.pick('echo', 'cat')} {r.choice(WORDS)}{r.pick('', ' (a)', ' | x')})"
    return r.pick("%%", "%[1+1]", "%[ (1) ? 2 : 3 ]", "%*", "%**", "%#", "%1", "%-n*", "%{-n*}", "%{*}", "%{#}")


def value(r, depth=2):
    out = []
    for _ in range(r.randint(0, 3)):
        k = r.randint(0, 5)
        if k <= 2:
            out.append(word(r))
        elif k <= 4:
            out.append(macro(r, depth))
        else:
            out.append(r.pick("-", ".", " ", "~", "%%", "/", ":", ",", "é", "\\", "="))
    return "".join(out)


def nevalue(r, depth=2):
    v = value(r, depth).strip()
    return v or word(r)


def mdline(r, name=None, body=None):
    """first line of a macro definition in some form"""
    n = name or ident(r)
    opts = r.pick("", "", "", "", "()", "(n:v)", "(-)")
    b = body if body is not None else r.weighted([(5, nevalue(r)), (2, "%{expand:%{foo}"), (1, "%{lua:"), (1, "a \\"),
                                                    (1, "\\"), (1, "%(echo a"), (1, junk(r))])
    return (r.pick("", "", "", "  ", "\t") + r.weighted([(12, "%"), (1, "#"), (2, "%dnl %"), (1, "%dnl%"), (1, "# %"), (1, "#%"),
                                                         (1, "#%%"), (1, "# %%"), (1, "%%"), (1, "%dnl %%")])
            + r.pick("global", "define") + ws(r, False) + n + opts + ws(r, False) + b
            + r.weighted([(6, ""), (1, " "), (1, "\t"), (1, "  \\")]))


EXPRS = ["1", "0", "1 && 0", "0%{?foo}", "0%{?undefined_macro}", "%{defined foo}", "\"a\" == \"a\"", "2 > 1", "!1", "(1)",
         "0%{?rhel} >= 8", "%{undefined foo}", "1 \\", "", "0 || \\", "%{?nope:1}", "bogus expr (", "%[1]"]


def condline(r):
    k = r.randint(0, 9)
    lead = r.pick("", "", "", "", " ", "\t")
    tail = r.pick("", "", "", " ", "  ")
    if k <= 3:
        return f"{lead}%if{r.pick(' ', '  ', chr(9))}{r.choice(EXPRS)}{tail}"
    if k == 4:
        return f"{lead}%{r.pick('ifarch', 'ifnarch', 'elifarch')} {r.pick('x86_64', 'aarch64', '%{ix86} x86_64', 's390x ppc64')}{tail}"
    if k == 5:
        return f"{lead}%{r.pick('ifos', 'ifnos', 'elifos')} {r.pick('linux', 'aix')}{tail}"
    if k == 6:
        return f"{lead}%elif {r.choice(EXPRS)}{tail}"
    if k == 7:
        return f"{lead}%else{tail}{r.pick('', '', ' # x')}"
    return f"{lead}%endif{tail}{r.pick('', '', '', ' # x', ' foo')}"


def tagname(r):
    n = r.choice(TAGS)
    d = dic(r, 0.02)
    if d is not None and r.maybe(0.3):
        n = d
    return r.weighted([(8, n), (1, n.lower()), (1, n.upper()), (1, n.swapcase())])


def sep(r):
    return r.pick(": ", ":", ":  ", ":\t", " : ", "\t:\t", ":       ", " :")


def tagline(r):
    v = r.weighted([(6, nevalue(r)), (1, "%{expand:"), (1, "%(echo foo"), (1, junk(r)), (1, "a b  c"), (1, "%{?x:%{y}")])
    line = tagname(r) + sep(r) + v + r.weighted([(6, ""), (1, " "), (1, "\t "), (1, "\xa0")])
    if r.maybe(0.12):
        return f"%{{{r.pick('?', '!?')}{ident(r)}:{line}}}{r.pick('', '', ' ')}"
    if r.maybe(0.06):
        return r.pick(" ", "\t") + line
    return line


def commentline(r):
    return r.pick("", "", " ", "\t", "  ") + "#" + r.pick("", " ", "  ", "\t", "#", "# ") + r.pick("", word(r), junk(r), "a comment  ")


def clheader(r):
    day = r.randint(1, 28)
    d = r.pick("%02d", "%d", "%2d") % day
    t = r.pick("", "", "", " 12:00:01 UTC", " 23:59:59 CET")
    e = r.pick(" - 1.0-1", " - 2:1.0-1", " 1.0-1", "", " - [1.0-2]", " (1.0-3):", " - 0.1")
    return f"*{r.pick(' ', '  ', '')}{r.pick('Mon', 'Tue', 'Sun')} {r.pick('Jan', 'Feb', 'Dec')} {d}{t} {r.pick('2020', '1999')} {r.pick('A B <a@b>', 'x', 'é ž <c@d.e>')}{e}"


def prepline(r):
    m = r.weighted([(3, "%setup"), (3, "%autosetup"), (2, "%autopatch"), (2, "%patch"), (2, "%patch0"), (1, "%patch12"), (1, "%patch" + r.pick("007", "100", "1000", "12345")),
                    (1, "%setupx"), (1, "%{patch}"), (1, "%patches"), (1, "%autosetups")])
    line = r.pick("", "", "", " ", "cd x && ", "# ", "%dnl ") + m + r.weighted([(6, r.pick(" ", "  ", "\t") + options(r)), (2, ""),
                                                                                (1, " "), (1, "-q")])
    line += r.weighted([(8, ""), (1, " "), (1, " \\")])
    if r.maybe(0.12):
        return f"%{{{r.pick('?', '!?')}{ident(r)}:{line}}}"
    return line


def options(r):
    out = []
    for _ in range(r.randint(0, 4)):
        k = r.randint(0, 8)
        out.append(r.weighted([(4, "-" + r.choice("qnpPabcDTSvNmMERFzdo")), (3, "-n " + nevalue(r, 1)), (3, "-p1"), (1, "-P %d" % r.randint(0, 20)),
                               (1, f'-n "{r.choice(WORDS)} {r.choice(WORDS)}"'), (1, f"-b '.{r.choice(WORDS)}'"), (1, "%d" % r.randint(0, 20)),
                               (1, r.choice(WORDS)), (1, "--" + r.choice(WORDS)), (1, "a\\ b"), (1, macro(r)), (1, '"\\""'), (1, "-n''"),
                               (1, "'a\\'b'"), (1, "\\\\")]))
        if k == 0:
            out.append(junk(r, 3))
    return r.pick(" ", " ", " ", "  ", "\t").join(out) + r.pick("", "", " ")


def header(r):
    n = r.choice(SECTIONS)
    n = r.weighted([(6, n), (1, n.upper()), (1, n.capitalize())])
    if n.lower() == "package":
        return f"%{n}{r.pick(' ', '  ')}{r.pick('devel', '-n foo', 'libs', '-n %{name}-x')}"
    o = r.weighted([(6, ""), (2, " " + r.pick("devel", "-n foo", "-p /bin/sh", "-f x.list", "libs -f a", "-p <lua>", "-n %{name}-%{x}")),
                    (1, "  devel"), (1, "\tdevel"), (1, " "), (1, " %{?foo}"), (1, " -p \"/bin/x y\"")])
    return f"%{n}{o}"


def textline(r):
    return r.pick("", "", "", " ", "\t", "make %{?_smp_mflags}", "text", "- item", "  indented", "%configure", "%{expand:", "}", ")",
                  "\\", "line \\", "%dnl foo", "%%if 0", "foo\x0cbar", "a\u2028b", "* star", "*", "%include x", "é", junk(r, 5))


def anyline(r):
    return r.weighted([(4, textline), (2, mdline), (2, condline), (3, tagline), (2, commentline), (1, clheader), (1, prepline),
                       (1, lambda r: junk(r, 12)), (1, lambda r: value(r)), (1, lambda r: (dic(r, 0.5) or "x"))])(r).replace("\n", "")


def mix(*weights):
    def g(r):
        n = r.size(7)
        return [r.weighted(weights)(r).replace("\n", "") for _ in range(n)]
    return g


def text(r):
    return textline(r)


lines_any = mix((10, anyline), (1, header))
lines_tags = mix((6, tagline), (2, commentline), (2, condline), (2, mdline), (2, textline), (1, anyline))
lines_md = mix((6, mdline), (2, condline), (2, textline), (2, tagline), (1, anyline), (1, commentline))
lines_cl = mix((4, clheader), (4, lambda r: r.pick("- a", "- b c", "", "", " ", "\t", "text", "*", "* x", "- * y")), (1, anyline))
lines_prep = mix((5, prepline), (3, textline), (1, commentline), (1, condline), (1, anyline))
lines_sl = mix((5, lambda r: nevalue(r)), (2, commentline), (2, condline), (2, textline), (1, anyline))
lines_secs = mix((3, header), (3, textline), (2, mdline), (2, tagline), (1, commentline), (1, clheader), (1, prepline), (1, anyline))
