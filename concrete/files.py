"""C01 load/save identity, C02 sections"""
from . import gen, spec
from .base import Skip, Violation, check, need, same

CTX = ["lines", "sections", "tags", "macro_definitions", "changelog", "prep", "sources", "patches"]


def g_c01(r):
    c = spec.spec(r)
    if r.maybe(0.1):
        c["lines"] = gen.lines_any(r)
    if r.maybe(0.1):
        i = r.randint(0, len(c["lines"]))
        c["lines"].insert(i, "# " + r.pick("\udcff\udce9", "\x85x", "a\x0cb\x1cc", "\u2029", "caf\xe9"))
    c["prog"] = program(r, 3)
    c["autosave"] = r.maybe(0.3)
    return c


def program(r, depth):
    out = []
    for _ in range(r.randint(1, 3)):
        k = r.randint(0, 9)
        if k <= 5 and depth:
            out.append([r.choice(CTX), program(r, depth - 1) if r.maybe(0.6) else []])
        elif k <= 7:
            out.append(["." + r.choice(CTX), []])
        else:
            out.append([r.pick("!version", "!release", "!has_autochangelog", "!has_autorelease", "!expanded_version", "!save", "!reload", "!tainted",
                               "!repr", "!eq"), []])
    return out


def run(s, prog):
    from specfile.exceptions import OptionsException, RPMException, UnterminatedMacroException
    for op, sub in prog:
        try:
            if op.startswith("."):
                getattr(s, op[1:])().content
            elif op == "!save":
                s.save()
            elif op == "!reload":
                s.save()
                s.reload()
            elif op == "!repr":
                repr(s)
            elif op == "!eq":
                s == s
            elif op.startswith("!"):
                getattr(s, op[1:])
            else:
                with getattr(s, op)() as x:
                    if x is not None:
                        len(x.macros if op == "prep" else x)
                    run(s, sub)
        except (OptionsException, RPMException, UnterminatedMacroException):
            pass


@check("C01", quick=1600, gen=g_c01)
def load_and_save(case):
    data = spec.content(case).encode("utf8", "surrogateescape")
    with spec.specfile(case, autosave=case["autosave"]) as s:
        same(str(s).encode("utf8", "surrogateescape"), data, "content after loading")
        same(s.path.read_bytes(), data, "file after loading")
        run(s, case["prog"])
        same(str(s).encode("utf8", "surrogateescape"), data, "content after accessing without changes")
        s.save()
        same(s.path.read_bytes(), data, "file after saving")
        s.reload()
        same(str(s).encode("utf8", "surrogateescape"), data, "content after reloading")
        with s.lines() as lines:
            lines.append("# x")
        s.save()
        exp = case["lines"] + ["# x"]
        same(s.path.read_text(encoding="utf8", errors="surrogateescape"),
             "\n".join(exp) + ("\n" if data.endswith(b"\n") and case["lines"] != [""] or data == b"\n" else ""),
             "file after appending a line") if case["lines"] and case["lines"][-1] != "" else None


@check("C01", quick=400, gen=g_c01)
def with_statement(case):
    from specfile import Specfile
    data = spec.content(case).encode("utf8", "surrogateescape")
    with spec.specfile(case) as s:
        with Specfile(s.path) as t:
            run(t, case["prog"])
        same(s.path.read_bytes(), data, "file after leaving the context")


def g_c02(r):
    return gen.lines_secs(r)


def has_bare_package(lines):
    return any(x.rstrip().lower() == "%package" or x.lower().startswith("%package ") and not x[9:].strip() for x in lines)


@check("C02", quick=6000, gen=g_c02, seedable="lines")
def sections_lossless(lines):
    from specfile.exceptions import OptionsException, UnterminatedMacroException
    from specfile.sections import Sections
    if has_bare_package(lines) or any("\n" in x for x in lines):
        raise Skip()
    orig = list(lines)
    try:
        s = Sections.parse(lines)
    except (OptionsException, UnterminatedMacroException):
        raise Skip() from None
    same(lines, orig, "the argument is not changed")
    same(s.get_raw_data(), orig, "reconstructed lines")
    same(str(s), "".join(x + "\n" for x in orig), "string form")
    same(s.get_raw_data(), orig, "reconstructed lines (again)")
    need(s[0].name == "package", "the first section is the preamble")
    from specfile.sections import Section
    for x in s:
        need(isinstance(x, Section), "section object")


PLAIN = ["text", "", "%if 1", "%endif", "make %{x}", "  %build", "%%prep", "# %files", "%buildx", "%configure", "%{files}", "x %install", "%changelogs",
         "%global a b", "%prepare", "%files \\", "%description_x", "%package-x", "%post.x"]


def g_struct(r):
    secs = []
    for _ in range(r.size(4)):
        n = r.choice(gen.SECTIONS)
        n = r.weighted([(6, n), (1, n.upper()), (1, n.capitalize())])
        o = r.weighted([(5, ""), (4, r.pick("devel", "-n foo", "-p /bin/sh", "libs -f x", "-n \"a b\"", "-f a -n b", "%{x}", "-n %{name}-x", "-n Foo", "Devel", "-n FOO", "-f A -n b", "DEVEL"))])
        if n.lower() == "package" and not o:
            o = "devel"
        body = [r.choice(PLAIN) for _ in range(r.randint(0, 4))]
        if r.maybe(0.15):
            k = "%" + r.choice(gen.SECTIONS) + r.pick("", "", " devel")
            body += r.pick(["%global multi %{expand:", k, "}"], ["%define multi \\", k], ["%global multi a\\", k + "\\", "%prep"], ["%define multi() \\", "x \\", k],
                           ["%global multi %{expand:", "x", k + "}"], ["  %define multi %(", k, ")"], ["%global multi \\", k + " \\", ""])
        secs.append([n, r.pick(" ", "  ", "\t") if o else "", o, body])
    return {"tail": r.pick("", "", "", " ", "  ", "\t"), "pre": [r.choice(PLAIN + ["Name: x", "Version: 1"]) for _ in range(r.randint(0, 4))], "secs": secs}


@check("C02", quick=3000, gen=g_struct)
def sections_structure(case):
    from specfile.sections import Sections
    lines = list(case["pre"])
    for n, d, o, body in case["secs"]:
        lines += ["%" + n + d + o + case["tail"]] + body
    if case["tail"].strip() or any(n.lower() == "package" and not o.strip() for n, _, o, _ in case["secs"]) or any(
            n.lower() not in gen.SECTIONS for n, _, o, _ in case["secs"]):
        raise Skip()
    if any(bool(d) != bool(o) for n, d, o, _ in case["secs"]) or any(d.strip() for _, d, _, _ in case["secs"]):
        raise Skip()
    s = Sections.parse(lines)
    same([x.name for x in s], ["package"] + [n for n, _, _, _ in case["secs"]], "section names")
    same([x.data for x in s], [case["pre"]] + [b for _, _, _, b in case["secs"]], "section contents")
    same([x.id for x in s], ["package"] + [n + d + o for n, d, o, _ in case["secs"]], "section ids")
    same([str(x.options) for x in s][1:], [o for _, _, o, _ in case["secs"]], "section options")
    for i, (n, d, o, b) in enumerate(case["secs"]):
        ids = [("package")] + [(m + e + p).lower() if False else m.lower() + e + p for m, e, p, _ in case["secs"]]
        key = n.lower() + d + o
        k = ids.index(key)
        for v in (key, n + d + o, n.upper() + d + o, n.lower() + d + o):
            same(s.find(v), k, f"index of section {v}")
            need(v in s, "section {} is found", v)
            need(s.get(v) is s[k] and getattr(s, v) is s[k], "section {} by id", v)
        for v in (key + "x", n.lower() + d + o.swapcase(), n.lower() + " nothing"):
            if v.lower() in ids or v in ids:
                continue
            need(v not in s, "there is no section {}", v)
            try:
                s.find(v)
            except ValueError:
                pass
            else:
                need(False, "there is no section {}", v)
    # changes of a section affect that section only
    for i in range(len(s)):
        t = Sections.parse(lines)
        t[i].data.append("NEW")
        exp = [x.data for x in Sections.parse(lines)]
        exp[i] = exp[i] + ["NEW"]
        raw = list(exp[0])
        for (n, d, o, _), b in zip(case["secs"], exp[1:]):
            raw += ["%" + n + d + o + case["tail"]] + b
        same(t.get_raw_data(), raw, "lines after appending to a section")
        if i:
            t = Sections.parse(lines)
            del t[i]
            raw = list(case["pre"])
            for j, (n, d, o, b) in enumerate(case["secs"]):
                if j + 1 != i:
                    raw += ["%" + n + d + o + case["tail"]] + b
            same(t.get_raw_data(), raw, "lines after deleting a section")
