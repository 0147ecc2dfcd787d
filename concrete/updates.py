"""C23 updating tags while keeping macro references"""
import re

from . import gen, spec
from .base import Skip, check, need, same

NEW = ["2.0", "1.2.4", "10", "3.4.5~rc1", "1.0", "2024.1", "0.0.1", "5.6.7", "1.2.3", "x"]


def g(r):
    mds = []
    pool = ["major", "minor", "patch_v", "commit", "base", "pre", "srcname", "major", "base"]
    for n in pool:
        if r.maybe(0.45):
            ref = [m[1] for m in mds]
            mds.append([r.pick("global", "define"), n, r.weighted([(5, r.pick("1", "2", "0", "abc123", "1.2")), (2, "%{" + r.choice(ref) + "}" if ref else "1"),
                                                                       (1, "%{" + r.choice(ref) + "}.5" if ref else "3"), (1, "%{?nope:9}8")]), r.pick("%", "%", "%", "%", "#", "%dnl %"),
                        r.weighted([(12, ""), (1, "false"), (1, "true"), (1, "opts"), (1, "below")])])
    names = [m[1] for m in mds]

    def ref():
        n = r.choice(names) if names else "nope"
        return r.pick("%{" + n + "}", "%{" + n + "}", "%" + n, "%{?" + n + "}", "%{?" + n + ":%{" + n + "}}", "%{!?" + n + ":7}", "%{?" + n + ":." + "%{" + n + "}}")
    version = "".join(r.pick(ref(), ref(), "1", "2", ".", ".", "~rc1") for _ in range(r.randint(1, 5))) if r.maybe(0.8) else r.pick("1.0", "%{major}.%{minor}.%{patch_v}", "%{base}%{?pre:~%{pre}}")
    return {"mds": mds, "version": version, "new": r.choice(NEW), "tag": r.pick("version", "version", "source", "url"), "src": r.pick("https://x.org/%{name}-%{version}.tar.gz", "%{name}-%{version}.tgz", "a.tar.gz",
            "https://x.org/v%{major}/x-%{version}.zip", "x-%{VERSION}.zip", "%{srcname}-%{version}.zip"),
            "newsrc": r.pick("https://x.org/test-9.9.tar.gz", "test-3.1.tgz", "b.tar.gz", "https://x.org/v2/x-2.1.zip", "x-7.zip", "1-9.zip"),
            "protect": r.pick(None, None, None, ".*name|minor|version", ".*name|major", "name|minor$")}


def define(k, n, b, p, how):
    x = f"{p}{k} {n}{'(x)' if how == 'opts' else ''} {b}"
    return ["%if 0", x, "%endif"] if how == "false" else ["%if 1", x, "%endif"] if how == "true" else [x]


def lines(c):
    out = [y for m in c["mds"] if m[4] != "below" for y in define(*m)]
    out += ["Name: test", "Version: " + c["version"]] + [y for m in c["mds"] if m[4] == "below" for y in define(*m)]
    out += ["Release: 1", "Summary: s", "License: MIT", "URL: https://x.org/%{name}/%{version}", "Source0: " + c["src"], "%description", "d"]
    return out


def refs(text):
    return [x.lower() for x in re.findall(r"%\{?[!?]*(\w+)", text)]


def tangled(c, tag):
    """an entity is reachable from the tag in more than one way, or isn't an entity that can be updated"""
    defs = {"version": c["version"], "url": "https://x.org/%{name}/%{version}", "source0": c["src"], "name": "test"}
    bad = set()
    for _, n, b, _, how in c["mds"]:
        if how in ("", "true"):
            defs[n] = b
        else:
            bad.add(n)
    # a macro defined several times and used by another macro: which definition is meant depends on the order
    names = [m[1] for m in c["mds"]]
    bad.update(n for n in names if names.count(n) > 1 and any(n in refs(m[2]) for m in c["mds"]))
    seen = []

    def walk(n):
        for x in refs(defs.get(n, "")):
            seen.append(x)
            if len(seen) < 50:
                walk(x)
    walk(tag)
    return len(seen) != len(set(seen)) or bool(bad & set(seen))


def recursive(mds):
    """some macro may refer to itself"""
    to = {}
    for m in mds:
        to.setdefault(m[1], set()).update(refs(m[2]))
    for n in to:
        seen, todo = set(), set(to[n])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo |= to.get(x, set())
        if n in seen:
            return True
    return False


def number(lines, prefix):
    return next(i for i, x in enumerate(lines) if x.startswith(prefix))


@check("C23", quick=900, gen=g)
def update_tag(c):
    if any(len(m) != 5 or not m[1].isidentifier() for m in c["mds"]) or recursive(c["mds"]) or c["tag"] not in ("version", "source", "url") or c["new"] not in NEW or not c["newsrc"] or not (c["protect"] or "name").lstrip(".*").startswith("name"):
        raise Skip()
    with spec.specfile({"lines": lines(c), "nl": True}) as s:
        tag, new = ("version", c["new"]) if c["tag"] == "version" else ("source0", c["newsrc"]) if c["tag"] == "source" else ("url", "https://x.org/test/4.5")
        if tag == "version" and ("%" in (s.expanded_version or "%") or not re.fullmatch(r"[\w.~]+", s.expanded_version)):
            raise Skip()
        before = str(s).split("\n")
        with s.tags() as tags:
            same_ = getattr(tags, tag).expanded_value
        protect = ".*name" if c["protect"] is None else c["protect"]
        if c["protect"] is None:
            s.update_tag(tag, new)
        else:
            s.update_tag(tag, new, protected_entities=protect)
        after = str(s).split("\n")
        same(len(after), len(before), "number of lines")
        limit = number(before, {"version": "Version", "source0": "Source0", "url": "URL"}[tag])
        depth = 0
        for i, (a, b) in enumerate(zip(before, after)):
            depth += (a == "%if 0") - (depth > 0 and a == "%endif")
            if a == b:
                continue
            m = re.match(r"(?:%dnl ?|#)?%?(?:global|define) (\S+)|(Version|Source0|URL|Name):", a)
            need(m, "line {} became {}", a, b)
            need(i <= limit, "line {} below the tag became {}", a, b)
            need(not depth, "line {} in a false branch became {}", a, b)
            need(i == limit or not re.match(protect, m[1] or m[2], re.I), "protected {} became {}", a, b)
            need(not (m[1] or "").endswith(")"), "macro definition with options {} became {}", a, b)
            # name and scope stay
            n = re.match(r"\s*(?:%dnl ?|#)?%?(global|define) (\S+) |(Version|Source0|URL|Name):", b)
            need(n and n[2] == m[1] and n[3] == m[2] and (n[1] is None or n[1] in a), "line {} became {}", a, b)
        if tangled(c, tag):
            return
        with s.tags() as tags:
            got = getattr(tags, tag).expanded_value
        same(got, new, f"expanded value of {tag} after the update; {before} -> {after}")
        if same_ == new:
            return


def g_pre(r):
    return {"version": r.pick("%{base}%{?pre:~%{pre}}", "%{base}%{?pre:~%pre}", "%{base}%{?pre}", "1.0", "%{base}"), "base": r.pick("1.0", "2.3.4"), "pre": r.pick("rc1", "beta2"),
            "how": r.pick("%", "%", "%dnl %", "#"), "new": r.pick("2.0", "2.0rc2", "2.0-beta1", "1.0.0.rc3", "3", "1.0"), "pattern": r.pick(r"([.\-_~^]?)(a|b|rc|beta)\d+", None, r"(-)(rc|beta)\d"),
            "macro": r.pick("pre", "pre", None, "missing"), "style": r.pick("DNL", "HASH")}


@check("C23", quick=400, gen=g_pre)
def update_version(c):
    from specfile.macro_definitions import CommentOutStyle
    if c["how"] not in ("%", "%dnl %", "#") or c["style"] not in ("DNL", "HASH") or not re.fullmatch(r"[\w.-]+", c["new"]):
        raise Skip()
    text = ["%global base " + c["base"], f"{c['how']}global pre {c['pre']}", "Name: test", "Version: " + c["version"], "Release: 1", "Summary: s", "License: MIT", "%description", "d"]
    with spec.specfile({"lines": text, "nl": True}) as s:
        want = c["new"]
        pre = False
        if c["pattern"]:
            m = re.match("^(.*?)" + c["pattern"] + "$", want, re.I)
            if m:
                pre = True
                want = m[1] + "~" + want[m.end(2):]
        if "-" in want:
            raise Skip()
        s.update_version(c["new"], c["pattern"], c["macro"], CommentOutStyle[c["style"]])
        after = str(s).split("\n")
        same(s.expanded_version, want, f"expanded version, {text} -> {after}")
        same(len(after), len(text) + 1, "number of lines")
        for i in (2, 4, 5, 6, 7, 8):
            same(after[i], text[i], "line of the spec file")
