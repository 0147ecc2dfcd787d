"""Generator of spec files that RPM accepts, and a scratch directory for them."""
import contextlib
import re
import shutil
import tempfile
from pathlib import Path

from . import gen
from .base import Skip

REQ = ["Name", "Version", "Release", "Summary", "License"]


def cond(r, inner, depth=1):
    e = r.pick("1", "0", "0%{?foo}", "0%{?rhel} >= 8", "%{defined foo}", "1 && 0", "0%{?undefined_macro}", "!0")
    kw = r.weighted([(6, f"%if {e}"), (1, "%ifarch x86_64"), (1, "%ifarch aarch64 s390x"), (1, "%ifnarch x86_64"), (1, "%ifos linux")])
    if r.maybe(0.08):
        kw = "%if 1 && \\\n" + r.pick("1", "0")
    out = kw.split("\n") + inner(r)
    for _ in range(r.pick(0, 0, 0, 1, 2)):
        out += ["%elif " + r.pick("1", "0", "%{defined foo}")] + inner(r)
    if r.maybe(0.4):
        out += ["%else"] + inner(r)
    return out + ["%endif"]


def balanced(r):
    """macro body with all brackets closed, possibly of several lines"""
    k = r.randint(0, 9)
    if k <= 5:
        return [r.pick(gen.word(r), "%{name}-x", "1.2.3", "%{?foo}%{!?foo:1}", "%{expand:a}", "%%{x}")]
    if k == 6:
        return ["%{expand:", "a  ", "  b}"]
    if k == 7:
        return ["a \\", "b\\", "c"]
    if k == 8:
        return ["%{lua:", "print('x')", "}"]
    return ["%(echo a", ")"]


def md(r, name=None):
    b = balanced(r)
    pre = r.weighted([(10, "%"), (1, "#"), (1, "%dnl %")])
    if pre != "%":
        b = b[:1] if len(b) == 1 else ["x"]
    first = f"{pre}{r.pick('global', 'define')}{r.pick(' ', '  ', chr(9))}{name or r.pick('foo', 'bar', 'baz', 'rel', 'ver')} {r.pick('', '', ' ')}{b[0]}"
    return [first] + b[1:-1] + ([b[-1] + r.pick("", "", " ")] if len(b) > 1 else [])


def filler(r):
    return r.weighted([(4, lambda: []), (3, lambda: [""]), (2, lambda: [gen.commentline(r).replace("%", "")]), (2, lambda: md(r)),
                       (1, lambda: [" "]), (1, lambda: ["%{?undefined_macro}"])])()


def extratag(r):
    n = r.weighted([(3, "Requires"), (3, "BuildRequires"), (2, "Provides"), (1, "Recommends"), (1, "Requires(post)"), (1, "Conflicts")])
    n = r.weighted([(8, n), (1, n.upper()), (1, n.lower())])
    v = r.pick("foo", "bar >= 1.0", "%{name}-libs", "a, b", "x%{?_isa}", "pkgconfig(z)", "%{?foo}x")
    line = n + gen.sep(r) + v
    if r.maybe(0.1):
        return [f"%{{{r.pick('?', '!?')}foo:{line}}}"]
    if r.maybe(0.05):
        return [n + ": z%{?undefined_macro:", "x}"]
    return [line + r.pick("", "", "", " ", "\t")]


def sources(r, kind, mode):
    out = []
    num = r.pick(0, 0, 0, 1, 10)
    for i in range(r.size(3)):
        if mode == "implicit":
            s = kind
        elif mode == "mixed" and r.maybe(0.4):
            s = kind
        else:
            s = kind + r.pick("%d", "%d", "%d", "%04d") % num
        num += r.pick(1, 1, 1, 2, 10)
        line = s + gen.sep(r) + r.pick("a%d.tar.gz" % i, "https://x.org/%%{name}/f%d.zip" % i, "p%d.patch" % i, "https://x.org/get?f=%d#/n%d.tgz" % (i, i),
                                       "%%{name}-%%{version}-%d.tar.xz" % i)
        if r.maybe(0.15):
            out += ["# about " + s.lower()]
        if r.maybe(0.12):
            out += ["%if " + r.pick("1", "0"), line, "%endif"]
        else:
            out += [line]
        if r.maybe(0.2):
            out += [""]
    return out


def preamble(r):
    out = []
    vals = {"Name": "test", "Version": r.pick("0.1", "1.2.3", "%{ver}", "1.0~rc1", "%{?foo:1}2"),
            "Release": r.pick("1%{?dist}", "2", "1%{?dist}.1", "0.1.rc1%{?dist}", "%{rel}%{?dist}"),
            "Summary": r.pick("Test", "A test package", "x %{name}"), "License": "MIT"}
    if r.maybe(0.5):
        out += ["%global foo 1"]
    if "%{ver}" in vals["Version"] or r.maybe(0.2):
        out += ["%global ver 3.4"]
    if "%{rel}" in vals["Release"]:
        out += ["%global rel 5"]
    for t in REQ:
        out += filler(r)
        n = r.weighted([(8, t), (1, t.lower()), (1, t.upper())])
        out += [n + gen.sep(r) + vals[t] + r.pick("", "", "", " ")]
    mode = r.pick("numbered", "numbered", "implicit", "mixed")
    parts = [lambda: sources(r, "Source", mode), lambda: sources(r, "Patch", r.pick("numbered", mode))]
    if r.maybe(0.3):
        parts.reverse()
    for p in parts:
        out += filler(r) + p()
    for _ in range(r.size(3)):
        out += filler(r)
        out += cond(r, lambda r: extratag(r) + (filler(r) if r.maybe(0.3) else [])) if r.maybe(0.3) else extratag(r)
    return out


def changelog(r):
    out = []
    if r.maybe(0.1):
        out += r.pick(["# c", ""], [""], ["text"])
    for _ in range(r.size(3)):
        out += [gen.clheader(r).replace("\xa0", " ")]
        out += [r.pick("- a", "- b %%c", "- fix é", "  more", "- x") for _ in range(r.randint(1, 3))]
        out += r.weighted([(6, [""]), (1, ["", ""]), (1, []), (1, [" "])])
    return out


def prep(r):
    out = []
    for _ in range(r.size(4)):
        out += [r.weighted([(3, "%setup -q"), (2, "%setup -q -n %{name}-%{version}"), (3, "%autosetup -p1"), (2, "%patch0 -p1"), (2, "%patch -P1 -p1"),
                            (1, "%patch 2 -p1"), (1, "%autopatch -m 1"), (1, "echo x"), (2, ""), (1, "# c"), (1, "%{?foo:%setup -q}"),
                            (1, "  %setup -c"), (1, "cp a b"), (1, "%patch12 -p1 -b .x")])]
    return out


def section(r):
    n = r.weighted([(3, "description"), (3, "prep"), (2, "build"), (2, "install"), (2, "files"), (1, "check"), (1, "devel"), (1, "post"),
                    (1, "clean"), (2, "sourcelist"), (2, "patchlist")])
    if n == "prep":
        return ["%prep"] + prep(r)
    if n == "devel":
        p = r.pick("devel", "-n foo-x", "libs")
        return [f"%package {p}", "Summary: sub", "Requires: x", "", "%description " + p, "Sub."]
    if n == "files":
        return ["%files" + r.pick("", " -f x.list")] + [r.pick("%doc README", "/usr/bin/x", "", "%{_bindir}/*", "%dir /a")]
    if n in ("sourcelist", "patchlist"):
        return ["%" + n] + [r.pick("sl%d.tar.gz" % r.randint(0, 9), "https://x.org/%{name}.zip", "# c", "", "q%d.patch" % r.randint(0, 9)) for _ in range(r.size(3))]
    if n == "post":
        return ["%post" + r.pick("", " -p /bin/sh", " -p <lua>"), r.pick("echo x", "", "-- x")]
    return [f"%{n if r.maybe(0.9) else n.upper()}{r.pick('', '', '', ' ')}"] + [
        r.pick("text", "", "make", "%{name}", "  x", "%if 1", "%endif", "%define zz 1", "a\x0cb", "a\u2028b") for _ in range(r.randint(0, 3))]


def closed(lines):
    """conditions are balanced"""
    depth, out = 0, []
    for x in lines:
        if x.startswith("%if"):
            depth += 1
        elif x.startswith("%endif"):
            if not depth:
                continue
            depth -= 1
        out.append(x)
    return out + ["%endif"] * depth


def usable(line, lines):
    """the sources and patches that the line refers to are there"""
    m = re.match(r"\s*%(?:\{\?foo:%)?(setup|autosetup|patch|autopatch)\s*(?:-P)?\s*(\d*)", line)
    if not m:
        return True
    low = [x.lower() for x in lines]
    if m[1] in ("setup", "autosetup"):
        return any(re.match(r"source0*\s*:", x) for x in low[:40])
    return m[1] == "autopatch" or any(re.match(r"patch0*%s\s*:" % (m[2] or "0"), x) for x in low)


def spec(r):
    """lines of a spec file that is likely to be accepted"""
    out = preamble(r)
    secs = [["%description"] + [r.pick("Test.", "", "text")]]
    used = {"description"}
    for _ in range(r.size(4)):
        s = section(r)
        k = s[0].split()[0].lower() + (s[0].split() + [""])[1].lower() if len(s[0].split()) > 1 else s[0].split()[0].lower()
        if k in used or k == "%description":
            continue
        used.add(k)
        secs.append(s)
    r.shuffle(secs)
    if r.maybe(0.93):
        secs = [[x for x in closed(s) if usable(x, out + [y for z in secs for y in z])] for s in secs]
    if r.maybe(0.8):
        secs.append(["%changelog"] + changelog(r))
    for s in secs:
        out += r.pick([], [""], [""], ["", ""]) + s
    return {"lines": out, "nl": r.maybe(0.85)}


def content(case):
    return "\n".join(case["lines"]) + ("\n" if case["nl"] else "")


@contextlib.contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(prefix="vp-"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def specfile(case, **kw):
    """a Specfile with the generated content in a scratch directory"""
    from specfile import Specfile
    from specfile.exceptions import RPMException
    with scratch() as d:
        p = d / "test.spec"
        p.write_bytes(content(case).encode("utf8", "surrogateescape"))
        try:
            s = Specfile(p, **kw)
        except RPMException:
            raise Skip() from None
        try:
            yield s
        except RPMException:
            # outside of the precondition if RPM doesn't accept the edited spec file
            if accepted(str(s), s.macros):
                raise
            raise Skip() from None


def accepted(text, macros=()):
    """does RPM accept the spec file"""
    import rpm
    with scratch() as d:
        p = d / "test.spec"
        p.write_bytes(text.encode("utf8", "surrogateescape"))
        rpm.reloadConfig()
        rpm.addMacro("_sourcedir", str(d))
        for n, v in macros:
            if v is not None:
                rpm.addMacro(n, v)
            else:
                rpm.delMacro(n)
        try:
            rpm.spec(str(p), rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE)
            return True
        except (ValueError, rpm.error):
            return False
        finally:
            rpm.reloadConfig()
