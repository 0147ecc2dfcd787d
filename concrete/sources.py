"""C15 sources and patches as a sequence"""
import re

from . import gen, spec
from .base import Skip, check, need, same
from .parts import section


def g_state(r, kind):
    mode = r.pick("numbered", "numbered", "implicit", "mixed")
    lines, num = [], r.pick(0, 0, 0, 1, 10, 98)
    width = r.pick(1, 1, 1, 2, 4)
    for i in range(r.size(4)):
        if r.maybe(0.35):
            lines += [r.pick("Name: x", "", "# c", "%if 1", "%endif", "License: MIT", "%global a b", "BuildRequires: y", "  ", "URL: https://x")]
        name = kind
        imp = mode == "implicit" or mode == "mixed" and r.maybe(0.4)
        if not imp:
            name += "%0*d" % (width, num)
        num += 1 if imp else r.pick(1, 1, 1, 2, 7)
        if r.maybe(0.1):
            name = name.lower()
        if r.maybe(0.2):
            lines += ["# about " + name]
        lines += [name + r.pick(": ", ":  ", ":\t", ":", ":        ", " : ") + "l%d" % i]
    for _ in range(r.randint(0, 2)):
        lines += [r.pick("Summary: s", "", "# end", "%endif", "Patch0: other" if kind == "Source" else "Source0: other")]
    lists = []
    for j in range(r.pick(0, 0, 0, 1, 1, 2)):
        lists.append([r.pick("s%d-%d" % (j, k), "s%d-%d" % (j, k), "", "# c") for k in range(r.size(3))])
    return {"kind": kind, "lines": lines, "lists": lists}


def g_ops(r):
    ops = []
    for _ in range(r.randint(1, 4)):
        ops.append(r.weighted([(3, ["insert", r.randint(-2, 6)]), (2, ["append"]), (2, ["insert_numbered", r.pick(0, 1, 2, 3, 5, 9, 10, 11, 42, 99, 100)]), (2, ["del", r.randint(-3, 5)]),
                               (1, ["delslice", r.pick(None, r.randint(-3, 5)), r.pick(None, r.randint(-3, 5)), r.pick(None, 1, 2, -1)]), (1, ["remove", r.randint(0, 5)]),
                               (1, ["remove_numbered", r.pick(0, 1, 2, 5, 10)]), (1, ["set", r.randint(-3, 5)]), (1, ["dup", r.randint(0, 5)]), (1, ["extend"]), (1, ["setslice", r.randint(0, 2), r.randint(1, 5)])]))
    return ops


def g(r):
    c = g_state(r, r.pick("Source", "Source", "Patch"))
    c["ops"] = g_ops(r)
    c["dups"] = r.maybe(0.2)
    c["implicit"] = r.maybe(0.15)
    c["digits"] = r.pick(1, 1, 1, 4, 0)
    return c


TAG = re.compile(r"(?i)(source|patch)(\d*)\s*:\s*(.*)$")


def source_lines(lines, kind):
    out = []
    for i, x in enumerate(lines):
        m = TAG.match(x)
        if m and m[1].lower() == kind.lower():
            out.append((i, m))
    return out


def numbers(lines, lists, kind):
    """(location, number) of all sources, read from the text only"""
    last, out = -1, []
    for _, m in source_lines(lines, kind):
        num = int(m[2]) if m[2] else last + 1
        last = max(last, num)
        out.append((m[3], num))
    for xs in lists:
        for x in xs:
            if x.strip() and not x.lstrip().startswith("#") and not x.lstrip().startswith("%"):
                last += 1
                out.append((x, last))
    return out


def other(lines, kind):
    return [x for x in lines if not (TAG.match(x) and TAG.match(x)[1].lower() == kind.lower())]


@check("C15", quick=8000, gen=g)
def sequence(c):
    from specfile.exceptions import DuplicateSourceException
    from specfile.sourcelist import Sourcelist
    from specfile.sources import Patches, Sources
    from specfile.tags import Tags
    kind = c["kind"]
    if kind not in ("Source", "Patch") or c["digits"] not in (0, 1, 4):
        raise Skip()
    init = numbers(c["lines"], c["lists"], kind)
    if any(a[1] >= b[1] for a, b in zip(init, init[1:])) or any(not re.fullmatch(r"[ls][\d-]+", x[0]) for x in init):
        raise Skip()
    if any("\n" in x or x.endswith("\\") or x.startswith("%{") or x != x.strip() and x.strip() for x in c["lines"]) or any(
            not re.fullmatch(r"[a-zA-Z]+\d*\s*:\s*[^%\\]+|\s*|# \w+( \w+)?|%if 1|%endif|%global a b", x) for x in c["lines"]) or any(
            not re.fullmatch(r"(s[\d-]+|# \w+)?", x) for y in c["lists"] for x in y):
        raise Skip()
    if len({x[0] for x in init}) != len(init):
        raise Skip()
    tags = Tags.parse(section("package", c["lines"]))
    lists = [Sourcelist.parse(section("sourcelist", x)) for x in c["lists"]]
    obj = (Sources if kind == "Source" else Patches)(tags, lists, c["dups"], c["implicit"], c["digits"])
    state = init
    fresh = 0
    lines, ltext = list(c["lines"]), [list(x) for x in c["lists"]]

    def observe(what):
        nonlocal lines, ltext
        lines, ltext = tags.get_raw_section_data(), [x.get_raw_section_data() for x in lists]
        got = [(s.location, s.number) for s in obj]
        same(got, numbers(lines, ltext, kind), f"sources after {what} as objects, compared with the text")
        same(len(obj), len(got), "number of sources")
        need(all(a[1] < b[1] for a, b in zip(got, got[1:])), "numbers after {} ascend: {}", what, got)
        return got
    same(observe("parsing"), init, "sources")
    for op in c["ops"]:
        k = op[0]
        n = len(state)
        locs = [x[0] for x in state]
        nums = dict(state)
        before_other, before_lists = other(lines, kind), [[x for x in y if not x or x.startswith("#")] for y in ltext]
        fresh += 1
        new = f"l90{fresh}"
        ntags = len(source_lines(lines, kind))
        if k in ("insert", "append", "extend"):
            add = [new, new + "0"] if k == "extend" else [new]
            i = n if k != "insert" else op[1]
            want = list(locs)
            if k == "insert":
                obj.insert(i, new)
                want.insert(i, new)
                i = want.index(new)
            else:
                obj.append(new) if k == "append" else obj.extend(add)
                want += add
            got = observe(k)
            same([x[0] for x in got], want, f"locations after {k} at {i}")
            gn = dict(got)
            same([gn[x] for x in locs[:i]], [nums[x] for x in locs[:i]], "numbers of preceding sources")
            if i < n:
                # following sources keep their numbers unless they would clash
                last = gn[new]
                same(last, nums[locs[i]], "number of the new source")
                for x in locs[i:]:
                    need(gn[x] in (nums[x], last + 1), "number of {} was {} and is {}", x, nums[x], gn[x])
                    last = gn[x]
            elif n:
                same(gn[new], nums[locs[-1]] + 1, "number of the new source")
            same(other(lines, kind), before_other, "other lines")
        elif k == "insert_numbered":
            num = op[1]
            explicit = any(m[2] for _, m in source_lines(lines, kind))
            if any(not m[2] for _, m in source_lines(lines, kind)) or not explicit and (c["implicit"] or c["digits"] == 0 or n) or len(lists):
                continue
            i = obj.insert_numbered(num, new)
            got = observe(k)
            gn = dict(got)
            same(gn[new], num, f"number of the source inserted with number {num}")
            same([x[0] for x in got if x[0] != new], locs, "order of the other sources")
            same(got[i][0], new, "index returned")
            for x in locs:
                if nums[x] < num:
                    same(gn[x], nums[x], f"number of {x}")
                else:
                    need(gn[x] >= nums[x] and (num in nums.values() or gn[x] == nums[x]), "number of {} was {} and is {}", x, nums[x], gn[x])
            same(other(lines, kind), before_other, "other lines")
        elif k in ("del", "delslice", "remove", "remove_numbered"):
            if k == "del":
                if not -n <= op[1] < n:
                    continue
                del obj[op[1]]
                idx = [range(n)[op[1]]]
            elif k == "delslice":
                idx = list(range(n)[slice(*op[1:])])
                del obj[slice(*op[1:])]
            elif k == "remove":
                idx = [j for j in range(n) if op[1] < n and locs[j] == locs[op[1]]]
                obj.remove(locs[op[1]] if op[1] < n else "nothing")
            else:
                idx = [j for j in range(n) if state[j][1] == op[1]]
                obj.remove_numbered(op[1])
            got = observe(k)
            same([x[0] for x in got], [x for j, x in enumerate(locs) if j not in idx], f"locations after {k}")
            kept = [x for x in other(lines, kind) if x and not x.startswith("#")]
            same(kept, [x for x in before_other if x and not x.startswith("#")], "other lines")
            # explicit numbers stay
            for _, m in source_lines(lines, kind):
                if m[2]:
                    same(int(m[2]), nums[m[3]], f"number of {m[3]}")
        elif k == "set":
            if not -n <= op[1] < n:
                continue
            obj[op[1]] = new
            want = list(locs)
            want[op[1]] = new
            got = observe(k)
            same(got, [(a, b) for a, (_, b) in zip(want, state)], "sources after assignment")
            same(other(lines, kind), before_other, "other lines")
        elif k == "setslice":
            ids = range(n)[op[1]:op[2]]
            vals = [f"{new}{j}" for j in range(len(ids))]
            obj[op[1]:op[2]] = vals
            want = list(locs)
            want[op[1]:op[2]] = vals
            same(observe(k), [(a, b) for a, (_, b) in zip(want, state)], "sources after slice assignment")
        elif k == "dup":
            if op[1] >= n:
                continue
            loc = locs[op[1]]
            need(loc in obj and obj.count(loc) == 1, "{} is contained once", loc)
            need("nothing" not in obj and obj.count("nothing") == 0, "a location that isn't there")
            if c["dups"]:
                continue
            for f in (lambda: obj.insert(0, loc), lambda: obj.insert_numbered(50, loc), lambda: obj.append(loc)):
                try:
                    f()
                except DuplicateSourceException:
                    pass
                else:
                    need(False, "a duplicate is refused")
            same(observe(k), state, "sources after a refused duplicate")
        state = observe(k)
        same([[x for x in y if not x or x.startswith("#")] for y in ltext] if k not in ("del", "delslice", "remove", "remove_numbered") else None,
             before_lists if k not in ("del", "delslice", "remove", "remove_numbered") else None, "other lines of the lists")
        same([(s.location, s.number) for s in (Sources if kind == "Source" else Patches)(
            Tags.parse(section("package", lines)), [Sourcelist.parse(section("sourcelist", x)) for x in ltext])], state, "sources parsed again")


def g_same(r):
    kind = r.pick("Source", "Patch")
    lines = []
    for i in range(r.randint(1, 6)):
        lines += r.pick([], [], [], ["# c"], ["Name: x"], ["%if 1"], ["%endif"], [""])
        lines.append(kind + str(i * r.pick(1, 1, 3) if not lines else "") + ": " + r.pick("a", "a", "b", "l%d" % i)) if r.maybe(0.3) else lines.append(
            kind + str(i) + ": " + r.pick("a", "a", "b", "c"))
    return {"kind": kind, "lines": lines, "lists": [[r.pick("a", "b", "c") for _ in range(r.randint(0, 4))] for _ in range(r.pick(0, 0, 1, 2))],
            "what": r.pick("a", "a", "b", "nothing"), "how": r.pick("remove", "remove", "del", "delslice")}


@check("C15", quick=1500, gen=g_same)
def equal_locations(c):
    """several sources of one location"""
    from specfile.sourcelist import Sourcelist
    from specfile.sources import Patches, Sources
    from specfile.tags import Tags
    kind = c["kind"]
    if kind not in ("Source", "Patch") or any(not re.fullmatch(r"(Source|Patch)\d*: \w+|Name: x|# c|%if 1|%endif|", x) for x in c["lines"]) or any(
            not re.fullmatch(r"\w+", x) for y in c["lists"] for x in y) or c["how"] not in ("remove", "del", "delslice"):
        raise Skip()
    if any(a[1] >= b[1] for a, b in zip(numbers(c["lines"], c["lists"], kind), numbers(c["lines"], c["lists"], kind)[1:])):
        raise Skip()

    def make():
        tags = Tags.parse(section("package", c["lines"]))
        lists = [Sourcelist.parse(section("sourcelist", x)) for x in c["lists"]]
        return tags, lists, (Sources if kind == "Source" else Patches)(tags, lists)
    tags, lists, obj = make()
    old = numbers(c["lines"], c["lists"], kind)
    locs = [x[0] for x in old]
    same([(x.location, x.number) for x in obj], old, "sources")
    for x in set(locs) | {"nothing"}:
        same(obj.count(x), locs.count(x), f"number of sources {x}")
        same(x in obj, x in locs, f"presence of {x}")
    if c["how"] == "remove":
        obj.remove(c["what"])
        keep = [i for i, x in enumerate(locs) if x != c["what"]]
    elif c["how"] == "del":
        if not locs:
            raise Skip()
        k = len(c["lines"]) % len(locs)
        del obj[k]
        keep = [i for i in range(len(locs)) if i != k]
    else:
        k = len(c["lines"]) % (len(locs) + 1)
        del obj[k::2]
        keep = [i for i in range(len(locs)) if i not in range(k, len(locs), 2)]
    same([x.location for x in obj], [locs[i] for i in keep], "locations")
    own = [i for i, _ in source_lines(c["lines"], kind)]
    left = [c["lines"][own[i]] for i in keep if i < len(own)]
    got = tags.get_raw_section_data()
    same([got[i] for i, _ in source_lines(got, kind)], left, "lines of the remaining tags")
    same([x for x in other(got, kind) if x.strip() and x[0] != "#"], [x for x in other(c["lines"], kind) if x.strip() and x[0] != "#"], "other lines")
    n = len(own)
    for j, xs in enumerate(c["lists"]):
        same(lists[j].get_raw_section_data(), [x for i, x in enumerate(xs) if n + i in keep], "lines of a list")
        n += len(xs)


def g_rpm(r):
    kinds = ["Source", "Source", "Source", "Patch", "Patch"]
    lines = []
    for i in range(r.randint(1, 7)):
        k = r.choice(kinds)
        lines.append(r.pick(k, k.lower(), k.upper(), k) + r.pick("", "", str(r.randint(0, 9)), "%03d" % r.randint(0, 120)) + ": l%d" % i)
    lists = [[r.pick("sourcelist", "patchlist"), ["m%d-%d" % (j, k) for k in range(r.randint(0, 3))]] for j in range(r.pick(0, 0, 1, 2))]
    return {"lines": lines, "lists": lists}


@check("C15", quick=400, gen=g_rpm)
def numbers_of_rpm(c):
    """locations and numbers are those RPM has"""
    from specfile.exceptions import RPMException
    if any(not re.fullmatch(r"(?i)(source|patch)\d*: l\d+", x) for x in c["lines"]) or any(
            k not in ("sourcelist", "patchlist") or any(not re.fullmatch(r"m[\d-]+", x) for x in xs) for k, xs in c["lists"]):
        raise Skip()
    lines = ["Name: x", "Version: 1", "Release: 1", "Summary: s", "License: l", *c["lines"], "%description", "d"]
    for k, xs in c["lists"]:
        lines += ["%" + k, *xs]
    try:
        with spec.specfile({"lines": lines, "nl": True}) as s:
            want = sorted((flag, loc, num) for loc, num, flag in s.rpm_spec.sources)
            with s.sources() as ss, s.patches() as ps:
                got = sorted([(1, x.location, x.number) for x in ss] + [(2, x.location, x.number) for x in ps])
    except RPMException:
        raise Skip()
    same(got, want, "sources and patches, compared with RPM")


def g_patch(r):
    c = spec.spec(r)
    c["number"] = r.pick(None, None, None, 5, 50, 100)
    c["initial"] = r.pick(0, 0, 1, 3)
    c["digits"] = r.pick(4, 4, 1)
    c["comment"] = r.pick(None, None, "why", "two\nlines")
    return c


@check("C15", quick=600, gen=g_patch)
def add_patch(c):
    from specfile.exceptions import DuplicateSourceException, SourceNumberException
    if c["digits"] not in (1, 4) or c["initial"] not in (0, 1, 3) or c["comment"] == "":
        raise Skip()
    with spec.specfile(c) as s:
        with s.patches() as ps:
            old = [(p.location, p.number) for p in ps]
        if any(a[1] >= b[1] for a, b in zip(old, old[1:])) or any(x.lower().startswith("%patchlist") for x in c["lines"]):
            raise Skip()
        with s.tags() as tags:
            if any(t.name.lower() == "patch" for t in tags):
                raise Skip()
        before = str(s).split("\n")
        high = max((n for _, n in old), default=-1)
        num = c["number"]
        try:
            s.add_patch("new.patch", num, c["comment"], initial_number=c["initial"], number_digits=c["digits"])
        except SourceNumberException:
            need(num is not None and num <= high, "number {} with the highest number {} is refused", num, high)
            same(str(s).split("\n"), before, "content after a refused patch")
            return
        need(num is None or num > high, "number {} with the highest number {} is not refused", num, high)
        want = num if num is not None else max(high + 1, c["initial"])
        with s.patches() as ps:
            same([(p.location, p.number) for p in ps], old + [("new.patch", want)], "patches")
            same([str(x) for x in ps[-1].comments], ["# " + x for x in (c["comment"] or "").splitlines()], "comments")
        after = str(s).split("\n")
        k = next(i for i, x in enumerate(after) if x.endswith("new.patch"))
        m = len((c["comment"] or "").splitlines())
        same(after[:k - m] + after[k + 1:], before, "other lines")
        name = after[k].split(":")[0].strip().lower()
        if not old:
            same(name, "patch%0*d" % (c["digits"], want), "tag name")
