"""C19 EVR, NEVR, NEVRA; C20 release; C22 changelog filter"""
import itertools
import re

from . import gen, spec
from .base import Skip, check, need, same


# ---- independent rpmvercmp -------------------------------------------------------------------------
def vercmp(a, b):
    if a == b:
        return 0
    i = j = 0
    al = lambda c: c.isascii() and c.isalpha()  # noqa: E731
    dg = lambda c: c.isascii() and c.isdigit()  # noqa: E731
    while i < len(a) or j < len(b):
        while i < len(a) and not (al(a[i]) or dg(a[i]) or a[i] in "~^"):
            i += 1
        while j < len(b) and not (al(b[j]) or dg(b[j]) or b[j] in "~^"):
            j += 1
        ca, cb = a[i:i + 1], b[j:j + 1]
        if ca == "~" or cb == "~":
            if ca != "~":
                return 1
            if cb != "~":
                return -1
            i += 1
            j += 1
            continue
        if ca == "^" or cb == "^":
            if not ca:
                return -1
            if not cb:
                return 1
            if ca != "^":
                return 1
            if cb != "^":
                return -1
            i += 1
            j += 1
            continue
        if not ca or not cb:
            break
        f = dg if dg(ca) else al
        k = i
        while i < len(a) and f(a[i]):
            i += 1
        sa = a[k:i]
        k = j
        while j < len(b) and f(b[j]):
            j += 1
        sb = b[k:j]
        if not sb:
            return 1 if f is dg else -1
        if f is dg:
            sa, sb = sa.lstrip("0"), sb.lstrip("0")
            if len(sa) != len(sb):
                return 1 if len(sa) > len(sb) else -1
        if sa != sb:
            return 1 if sa > sb else -1
    if i >= len(a) and j >= len(b):
        return 0
    return 1 if i < len(a) else -1


def evrcmp(x, y):
    """of (epoch, version, release)"""
    if x[0] != y[0]:
        return 1 if x[0] > y[0] else -1
    c = vercmp(x[1] or "0", y[1] or "0")
    return c or vercmp(x[2], y[2])


VS = ["0", "1", "1.0", "1.01", "1.1", "10", "2", "1.0~rc1", "1.0~rc2", "1.0~", "1.0^git1", "1.0^", "1a", "1.a", "1.0.0", "a", "b", "1_0", "1+0", "00", "v1",
      "1.0~~", "1~^", "2024", "1.10", "1.9", "0.1", "A", "1.0rc1", "rc", "1.0.rc.1", "001.002", "~", "^", ".", "1..2"]
RS = ["", "1", "2", "10", "1.el9", "1.fc39", "0.1.rc1", "1.1", "01", "a", "1~", "%{rel}"]


def word(r):
    d = gen.dic(r, 0.05)
    if d and not re.search(r"[-\s:%]", d):
        return d
    if r.maybe(0.3):
        return "".join(r.choice("0011279abzAZ.~^+_") for _ in range(r.randint(1, 6)))
    return r.choice(VS)


def evr(r):
    return [r.pick(0, 0, 0, 1, 2, 10), word(r), r.choice(RS) if r.maybe(0.7) else word(r)]


def mutate(r, x):
    x = list(x)
    k = r.randint(0, 5)
    if k == 0:
        x[0] = r.pick(0, 1, 2)
    elif k == 1:
        x[1] = x[1] + r.pick("0", ".", "~", "a", ".0", "^")
    elif k == 2:
        x[1] = "0" + x[1]
    elif k == 3:
        x[2] = r.choice(RS)
    elif k == 4:
        x[1] = x[1].replace(".", r.pick("_", "+", "..", ".0"), 1)
    return x


def g_evrs(r):
    xs = [evr(r)]
    for _ in range(3):
        xs.append(mutate(r, r.choice(xs)) if r.maybe(0.6) else evr(r))
    return xs


def valid_evr(x):
    if len(x) != 3 or not isinstance(x[0], int) or x[0] < 0 or not all(isinstance(y, str) and y.isascii() for y in x[1:]) or "\0" in x[1] + x[2]:
        raise Skip()


def ops(a, b):
    def f(op):
        try:
            return op()
        except TypeError:
            return "TypeError"
    return [f(lambda: a < b), f(lambda: a <= b), f(lambda: a == b), f(lambda: a != b), f(lambda: a >= b), f(lambda: a > b)]


def wanted(c):
    return [c < 0, c <= 0, c == 0, c != 0, c >= 0, c > 0]


@check("C19", quick=6000, gen=g_evrs)
def ordering(xs):
    from specfile.utils import EVR, NEVR, NEVRA
    for x in xs:
        valid_evr(x)
    objs = [EVR(epoch=e, version=v, release=r) for e, v, r in xs]
    for (x, a), (y, b) in itertools.product(zip(xs, objs), repeat=2):
        c = evrcmp(x, y)
        same(ops(a, b), wanted(c), f"order of EVR {x} and {y}")
        if c == 0:
            same(hash(a), hash(b), f"hashes of equal EVR {x} and {y}")
        for cls, ka, kb in ((NEVR, {}, {}), (NEVRA, {"arch": "noarch"}, {"arch": "noarch"})):
            p = cls(name="p", epoch=x[0], version=x[1], release=x[2], **ka)
            q = cls(name="p", epoch=y[0], version=y[1], release=y[2], **kb)
            same(ops(p, q), wanted(c), f"order of {cls.__name__} {x} and {y}")
            if c == 0:
                same(hash(p), hash(q), f"hashes of equal {cls.__name__} {x} and {y}")
            n = cls(name="q", epoch=y[0], version=y[1], release=y[2], **kb)
            t = "TypeError"
            same(ops(p, n), [t, t, False, True, t, t], f"{cls.__name__} with different names")
            same(ops(p, b), [t, t, False, True, t, t], f"{cls.__name__} and EVR")
        m = NEVRA(name="p", epoch=x[0], version=x[1], release=x[2], arch="x86_64")
        n = NEVRA(name="p", epoch=y[0], version=y[1], release=y[2], arch="noarch")
        same(ops(m, n), ["TypeError", "TypeError", False, True, "TypeError", "TypeError"], "NEVRA with different architectures")
    objs.sort()
    for a, b in zip(objs, objs[1:]):
        need(not b < a, "sorted")


ARCHES = ["x86_64", "noarch", "aarch64", "i686", "ppc64le", "s390x", "src"]


def g_nevra(r):
    e = evr(r)
    return {"n": r.pick("foo", "python3-x", "a", "lib.so", "x86_64", "a-1.0", "foo-1:2", "g++", "1", "a-b-c") + (word(r) if r.maybe(0.2) else ""),
            "evr": e, "arch": r.choice(ARCHES)}


@check("C19", quick=6000, gen=g_nevra)
def strings(c):
    """str() and from_string() are inverse for complete values"""
    from specfile.constants import ARCH_NAMES
    from specfile.utils import EVR, NEVR, NEVRA
    e, v, r = c["evr"]
    valid_evr(c["evr"])
    if not v or "-" in v or "-" in r or re.search(r"[\s:]", v + r + c["n"].replace(":", "")) or not c["n"]:
        raise Skip()
    fields = lambda o, *n: [getattr(o, x) for x in n]  # noqa: E731
    s = str(EVR(epoch=e, version=v, release=r))
    same(s, (f"{e}:" if e else "") + v + (f"-{r}" if r else ""), "string")
    same(fields(EVR.from_string(s), "epoch", "version", "release"), [e, v, r], f"EVR.from_string({s!r})")
    if r:
        s = str(NEVR(name=c["n"], epoch=e, version=v, release=r))
        same(s, c["n"] + "-" + (f"{e}:" if e else "") + v + f"-{r}", "string")
        same(fields(NEVR.from_string(s), "name", "epoch", "version", "release"), [c["n"], e, v, r], f"NEVR.from_string({s!r})")
    arch = c["arch"]
    if arch in ARCH_NAMES | {"noarch"}:
        s = str(NEVRA(name=c["n"], epoch=e, version=v, release=r, arch=arch))
        if r or "-" not in c["n"]:
            o = NEVRA.from_string(s)
            same(fields(o, "name", "epoch", "version", "release", "arch"), [c["n"], e, v, r, arch], f"NEVRA.from_string({s!r})")
            same(hash(o), hash(NEVRA(name=c["n"], epoch=e, version=v, release=r, arch=arch)), "hash")


@check("C19", quick=4000, gen=lambda r: {"s": "".join(r.choice("0112ab.:-~^ ") for _ in range(r.randint(0, 9))) + r.pick("", "", ".noarch", ".x86_64")})
def malformed(c):
    """a string is either refused or reconstructed from the result"""
    from specfile.exceptions import SpecfileException
    from specfile.utils import EVR, NEVR, NEVRA
    s = c["s"]
    if "\n" in s or s.count(":") > 1:
        raise Skip()
    for cls in (EVR, NEVR, NEVRA):
        try:
            o = cls.from_string(s)
        except SpecfileException:
            continue
        need("-" not in o.version and o.version, "version {}", o.version)
        need("-" not in (o.release or ""), "release {}", o.release)
        same(re.sub(r"(^|-)0+:", r"\1", re.sub(r"(^|-)0+([1-9]\d*:)", r"\1\2", str(o))), re.sub(r"(^|-)0+:", r"\1", re.sub(r"(^|-)0+([1-9]\d*:)", r"\1\2", s)),
             f"{cls.__name__}.from_string({s!r}) as string")


# ---- C20 -------------------------------------------------------------------------------------------
DISTS = ["%{?dist}", "%{dist}", "%dist", ""]


def g_release(r):
    rel = r.weighted([(4, r.pick("1", "2", "9", "10", "0", "01", "99", "100")), (2, r.pick("0.1", "0.9", "1.2", "0.1.rc1", "1.alpha", "3.beta2", "1.rc1", "0.3.git123")),
                      (2, r.pick("%{rel}", "%release_func 3", "%{baserelease}", "a", "rc", "1.%{x}", "%{?x}1", "1%{?x}", "x.5", "1.rc.3", "2.alpha.9")),
                      (1, word(r))])
    d = r.choice(DISTS)
    return {"rel": rel, "dist": d, "minor": r.pick("", "", ".1", ".12", ".9") if d else "", "new": r.pick("1", "7", "0.2.rc2", "%{rel}", "x", word(r)),
            "post": r.pick("", "", "", "", ".x", "%{?y}")}


def rawrel(c):
    if c["dist"] not in DISTS or not c["dist"] and c["minor"] or not re.fullmatch(r"(\.[0-9]+)?", c["minor"]) or re.search(r"dist", c["rel"] + c["new"] + c["post"]):
        raise Skip()
    if re.search(r"[\s-]", c["new"] + c["post"] + c["rel"].replace("%release_func 3", "")) or not c["rel"] or not c["new"] or c["rel"].endswith("%") or c["new"].endswith("%"):
        raise Skip()
    return c["rel"] + c["dist"] + c["minor"] + c["post"]


@check("C20", quick=5000, gen=g_release)
def split_release(c):
    from specfile import Specfile
    raw = rawrel(c)
    if c["post"] or not c["dist"]:
        same(list(Specfile._split_raw_release(raw)), [raw, None, None], f"parts of {raw!r}")
        same(Specfile._get_updated_release(raw, c["new"]), c["new"], f"{raw!r} with a new release")
    else:
        same(list(Specfile._split_raw_release(raw)), [c["rel"], c["dist"], int(c["minor"][1:]) if c["minor"] else None], f"parts of {raw!r}")
        same(Specfile._get_updated_release(raw, c["new"]), c["new"] + c["dist"], f"{raw!r} with a new release")


def bumped(s):
    """one number is increased by 1 or .1 is appended"""
    out = [s + ".1"]
    for m in re.finditer(r"[0-9]+", s):
        out.append(s[:m.start()] + str(int(m.group()) + 1) + s[m.end():])
    return out


@check("C20", quick=6000, gen=g_release)
def bump_string(c):
    from specfile import Specfile
    raw = rawrel(c)
    if not raw.isascii():
        raise Skip()
    got = Specfile._bump_release_string(raw)
    need(got in bumped(raw), "{} bumped to {}", raw, got)
    m = re.match(r"(%release_func\s+)?(0\.)?([0-9]+)(.*)$", raw)
    if m and (m[2] or not re.search("alpha|beta|rc", m[4])):
        same(got, (m[1] or "") + (m[2] or "") + str(int(m[3]) + 1) + m[4], f"bump of {raw!r}")
    elif re.search(r".\.[0-9]+$", raw):
        k = raw.rindex(".") + 1
        same(got, raw[:k] + str(int(raw[k:]) + 1), f"bump of {raw!r}")
    else:
        same(got, raw + ".1", f"bump of {raw!r}")
    if "%" not in raw:
        need(vercmp(got, raw) > 0, "{} sorts after {}", got, raw)


def g_relspec(r):
    c = spec.spec(r)
    rel = g_release(r)
    rel["rel"] = r.pick("1", "3", "9", "0.1", "%{foo}", "1.rc1", "%{rel}")
    rel["post"] = ""
    lines = [x for x in c["lines"] if not x.lower().startswith("release")]
    k = next((i for i, x in enumerate(lines) if x.lower().startswith("summary")), 0)
    lines[k:k] = ["Release:" + r.pick(" ", "   ") + rel["rel"] + rel["dist"] + rel["minor"]]
    pre = ["%global rel 4"]
    if r.maybe(0.3):
        pre += [r.pick("%global release 5", "%define baserelease 6", "%global baserelease 0.1.rc1", "%global BaseRelease 2", "%global my_release 3")]
    if r.maybe(0.15):
        pre += ["%global autorelease 1"]
        lines[k] = "Release: " + r.pick("%autorelease", "%{autorelease}", "%{?autorelease}", "%{?autorelease:%autorelease}", "%autorelease -b 3",
                                       "%{autorelease -e rc1}", "%{!?bootstrap:%{autorelease}}%{?dist}", "0.%autorelease",
                                       "%{?autorelease:%{!?rel2:%autorelease}}", "%{expand:1}%autorelease", "%{?rel:%{?autorelease}}")
    c["lines"] = pre + lines
    c["rel"] = rel
    c["op"] = r.pick("release", "bump", "both", "bump")
    return c


@check("C20", quick=500, gen=g_relspec)
def release_in_spec(c):
    with spec.specfile(c) as s:
        rel = c["rel"]
        rawrel(rel)
        with s.tags() as tags:
            if len([t for t in tags if t.name.lower() == "release"]) != 1:
                raise Skip()
        before = str(s).split("\n")
        k = next(i for i, x in enumerate(before) if re.match("(?i)release", x))
        raw = s.raw_release
        auto = "autorelease" in raw
        if not auto and raw != rel["rel"] + rel["dist"] + rel["minor"]:
            raise Skip()
        new = rel["new"] if re.fullmatch(r"[0-9A-Za-z]+(\.[0-9A-Za-z]+)*", rel["new"]) else "7"
        if c["op"] == "bump":
            s.bump_release()
            after = str(s).split("\n")
            same(len(after), len(before), "number of lines")
            diff = [i for i in range(len(after)) if after[i] != before[i]]
            if auto:
                same(diff, [], "changed lines with %autorelease")
                return
            same(len(diff), 1, "number of changed lines")
            m = next((i for i, x in enumerate(before) if re.match(r"\s*%(global|define)\s+(base)?release\s", x, re.I)), None)
            same(diff[0], k if m is None else m, "changed line")
            if m is None:
                need(s.raw_release in bumped(raw), "{} bumped to {}", raw, s.raw_release)
            return
        if auto:
            return
        if c["op"] == "release":
            s.release = new
        else:
            s.set_version_and_release("8.8", new)
            same(s.version, "8.8", "version")
        same(s.raw_release, new + rel["dist"], "Release")
        same(s.release, new, "release")
        same(s.expanded_release, new, "expanded release")
        after = str(s).split("\n")
        diff = [i for i in range(len(after)) if after[i] != before[i]]
        need(len(diff) <= (1 if c["op"] == "release" else 2), "changed lines {}", diff)


# ---- C22 -------------------------------------------------------------------------------------------
def g_filter(r):
    xs = []
    for _ in range(r.size(5)):
        xs.append(mutate(r, r.choice(xs)) if xs and r.maybe(0.4) else evr(r))
    for x in xs:
        x[2] = x[2] or "1"
    b = [evr(r) for _ in range(2)]
    if xs:
        b = [r.choice(xs) if r.maybe(0.5) else y for y in b]
    return {"evrs": [x if r.maybe(0.93) else None for x in xs], "since": r.pick(None, b[0]), "until": r.pick(None, b[1]), "sorted": r.maybe(0.7),
            "style": r.pick(" - {}", " - {}", " {}", " - [{}]", " ({}):", " - {} "), "norel": r.maybe(0.2)}


@check("C22", quick=6000, gen=g_filter)
def filtering(c):
    import functools
    from specfile.changelog import Changelog, ChangelogEntry
    evrs = c["evrs"]
    for x in evrs + [c["since"], c["until"]]:
        if x is not None:
            valid_evr(x)
            if not x[1] or re.search(r"[\s:\-%\[\]()]", x[1] + x[2]):
                raise Skip()
    if any(x is not None and not x[2] for x in evrs) or c["style"] not in (" - {}", " {}", " - [{}]", " ({}):", " - {} "):
        raise Skip()
    key = lambda x: (0, "0", "") if x is None else tuple(x)  # noqa: E731
    if c["sorted"]:
        evrs = sorted(evrs, key=functools.cmp_to_key(lambda a, b: evrcmp(key(a), key(b))))
    fmt = lambda x: (f"{x[0]}:" if x[0] else "") + x[1] + (f"-{x[2]}" if x[2] else "")  # noqa: E731
    entries = [ChangelogEntry(f"* Mon Jan 01 2024 A <a@b>" + (c["style"].format(fmt(x)) if x else ""), [f"- {i}"], [""]) for i, x in enumerate(evrs)]
    for e, x in zip(entries, evrs):
        same(e.evr, fmt(x) if x else None, f"evr of {e.header!r}")
    cl = Changelog(entries, ["pre"])
    kept = [(e.header, list(e.content)) for e in cl]
    ge = [c["since"] is None or evrcmp(key(x), key(c["since"])) >= 0 for x in evrs]
    le = [c["until"] is None or evrcmp(key(x), key(c["until"])) <= 0 for x in evrs]
    got = [int(e.content[0][2:]) for e in cl.filter(since=fmt(c["since"]) if c["since"] else None, until=fmt(c["until"]) if c["until"] else None)]
    first = next((i for i, x in enumerate(ge) if x), len(evrs))
    last = max((i for i, x in enumerate(le) if x), default=-1)
    same(got, list(range(first, last + 1)), "entries")
    if c["sorted"]:
        same(got, [i for i in range(len(evrs)) if ge[i] and le[i]], "entries of a sorted changelog")
    same([(e.header, list(e.content)) for e in cl], kept, "the changelog itself")
