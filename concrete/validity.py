"""C10 validity of items inside conditions, with RPM as the oracle"""
from . import gen, spec
from .base import Skip, check, need, same


class Gen:
    def __init__(self, r, depth):
        self.r, self.n, self.depth = r, 0, depth

    def item(self, top=False):
        r = self.r
        self.n += 1
        k = r.randint(0, 9)
        if k <= 4:
            return [r.pick("Provides: p%d", "Provides:\tp%d", "PROVIDES: p%d", "Provides: p%d ") % self.n]
        if k <= 7:
            return [r.pick("%%global m%d 1", "%%define m%d 1", "  %%global m%d 1") % self.n]
        if k == 8 and not top:
            return r.choice([["%%global m%d %%{expand:" % self.n, "1}"], ["%%global m%d 1 \\" % self.n, "x"]])
        if k == 8:
            return r.choice([["%%global m%d %%{expand:" % self.n, "%if 0", "x}"], ["%%global m%d 1 \\" % self.n, "%endif"], ["%%define m%d \\" % self.n, "%else \\", "1"]])
        return [r.pick("", "# %if 0", "# comment", "%dnl %if 0")]

    def items(self, depth):
        r = self.r
        out = []
        for _ in range(r.randint(0, 3)):
            out += self.cond(depth - 1) if depth and r.maybe(0.5) else self.item()
        return out

    def expr(self):
        r = self.r
        e = r.pick("1", "0", "1", "0", "0%{?foo}", "0%{?nope}", "%{defined foo}", "%{undefined foo}", "1 && 0", "1 || 0", "!1", "2 > 1", "(0)", '"a" == "b"',
                   "0%{?bar} >= 3", "%{?foo}%{!?foo:0}", "%[1 - 1]", "3", "00", "0%{?bar:0}", "10")
        if r.maybe(0.1):
            e = r.pick("1 && \\\n", "0 || \\\n") + e
        return e

    def kw(self, first):
        r = self.r
        lead, tail = r.pick("", "", "", "  ", "\t"), r.pick("", "", "", " ")
        k = r.randint(0, 9)
        arch = r.pick("x86_64", "aarch64", "aarch64 x86_64", "noarch s390x", "%{ix86}", "x86_64 %{arm}", "x86", "x86_64_v2", "i386 i686", "aarch64,x86_64")
        os = r.pick("linux", "aix", "linux aix", "linuxx", "aix linux", "aix,linux")
        if r.maybe(0.25):
            arch, os = (x.replace(" ", r.pick("  ", "\t", " \t")) for x in (arch, os))
        if r.maybe(0.1):
            arch, os = r.pick("", " ", "\t") + arch, r.pick("", " ", "\t") + os
        if first:
            return f"{lead}%{r.weighted([(7, 'if ' + self.expr()), (1, 'ifarch ' + arch), (1, 'ifnarch ' + arch), (1, 'ifos ' + os), (1, 'ifnos ' + os)])}{tail}"
        if k <= 7:
            return f"{lead}%elif {self.expr()}{tail}"
        return f"{lead}%{r.pick('elifarch ' + arch, 'elifos ' + os)}{tail}"

    def cond(self, depth):
        r = self.r
        out = self.kw(True).split("\n") + self.items(depth)
        for _ in range(r.pick(0, 0, 0, 1, 1, 2, 3)):
            out += self.kw(False).split("\n") + self.items(depth)
        if r.maybe(0.5):
            out += [r.pick("", "", "  ") + "%else" + r.pick("", "", " ")] + self.items(depth)
        return out + [r.pick("", "", "  ") + "%endif" + r.pick("", "", " ", " # x")]


def g_case(r):
    g = Gen(r, r.randint(1, 3))
    body = []
    for _ in range(r.randint(1, 3)):
        body += g.cond(g.depth) + g.item(True)
    sl = []
    if r.maybe(0.3):
        for _ in range(r.randint(1, 3)):
            g.n += 1
            if r.maybe(0.5):
                sl += ["%if " + r.pick("1", "0", "0%{?foo}", "%{defined bar}"), "s%d.tar" % g.n] + (
                    ["%else", "t%d.tar" % g.n] if r.maybe(0.5) else []) + ["%endif"]
            else:
                sl += ["s%d.tar" % g.n]
    return {"head": [x for x in ("%global foo 1", "%global bar 3") if r.maybe(0.6)], "body": body, "sl": sl, "macros": r.pick([], [], [["foo", "0"]], [["nope", "1"]])}


@check("C10", quick=2400, gen=g_case)
def validity(case):
    lines = case["head"] + ["Name: t", "Version: 1", "Release: 1", "Summary: s", "License: MIT"] + case["body"] + ["%description", "x"]
    if case["sl"]:
        lines += ["%sourcelist"] + case["sl"]
    with spec.specfile({"lines": lines, "nl": True}, macros=[tuple(m) for m in case["macros"]]) as s:
        parsed = [x.split(":", 1)[1].strip() for x in s.rpm_spec.parsed.split("\n") if x.lower().startswith("provides:")]
        with s.tags() as tags:
            for t in tags:
                if t.name.lower() == "provides":
                    same(t.valid, t.value in parsed, f"validity of {t.value}")
        seen = {}
        with s.macro_definitions() as mds:
            for m in mds:
                if m.name.startswith("m") and not m.commented_out:
                    seen.setdefault(m.name, []).append(m.valid)
        for n, v in seen.items():
            if len(v) == 1:
                same(v[0], s.expand("%{?" + n + ":1}") == "1", f"validity of macro definition {n}")
        if case["sl"]:
            got = {x.location: x.valid for x in s.sources().content if not x.location.strip().startswith("%")}
            have = {x[0] for x in s.rpm_spec.sources}
            for k, v in got.items():
                same(v, k in have, f"validity of source {k}")


def g_raw(r):
    return [r.weighted([(4, gen.condline), (3, lambda r: r.pick("x", "", "Name: a", "%global a b")), (1, gen.mdline), (1, gen.anyline)])(r) for _ in range(r.size(8))]


@check("C10", quick=4000, gen=g_raw, seedable="lines")
def conditions_keep_lines(lines):
    """the same lines in the same order, whatever the conditions are"""
    from specfile.conditions import process_conditions
    from specfile.macro_definitions import MacroDefinitions
    for md in (None, MacroDefinitions.parse(list(lines))):
        arg = list(lines)
        res = process_conditions(arg, md)
        same([x for x, _ in res], lines, "lines")
        same(arg, lines, "the argument is not changed")
        need(all(isinstance(v, bool) for _, v in res), "validity is a bool")


def g_logic(r):
    """literal conditions only: the oracle evaluates them itself"""
    def block(d):
        out = []
        for _ in range(r.randint(0, 3)):
            if d and r.maybe(0.5):
                out.append(["if", r.pick("1", "0"), block(d - 1), [[r.pick("1", "0"), block(d - 1)] for _ in range(r.pick(0, 0, 1, 2))], block(d - 1) if r.maybe(0.5) else None])
            else:
                out.append(["line", r.pick("x", "", "Name: y", "# c")])
        return out
    return block(3)


@check("C10", quick=4000, gen=g_logic)
def nesting(case):
    from specfile.conditions import process_conditions
    lines, exp = [], []

    def emit(x, v):
        lines.append(x)
        exp.append(v)

    def walk(b, v):
        for x in b:
            if x[0] == "line":
                if x[1].startswith("%") or "%" in x[1]:
                    raise Skip()
                emit(x[1], v)
            elif x[0] == "if":
                if x[1] not in ("0", "1"):
                    raise Skip()
                emit("%if " + x[1], v)
                taken = x[1] == "1"
                walk(x[2], v and taken)
                for e, c in x[3]:
                    if e not in ("0", "1"):
                        raise Skip()
                    emit("%elif " + e, v)
                    walk(c, v and not taken and e == "1")
                    taken = taken or e == "1"
                if x[4] is not None:
                    emit("%else", v)
                    walk(x[4], v and not taken)
                emit("%endif", v)
            else:
                raise Skip()
    try:
        walk(case, True)
    except (IndexError, ValueError):
        raise Skip() from None
    same([list(x) for x in process_conditions(lines)], [list(x) for x in zip(lines, exp)], "validity of lines")
