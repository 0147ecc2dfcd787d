"""C11 local edits, C12 deletion, C13 insertion, C14 lookup and positions"""
import copy

from . import gen, parts, spec
from .base import Skip, Violation, check, need, same
from .parts import g_mditems, g_prepitems, g_tagitems, md_lines, mdrender, mds_case, prep_case, prep_line, preprender, render, section, tag_lines, tags_case


def with_edit(g, ops):
    def f(r):
        c = g(r)
        for _ in range(20):
            if c["items"]:
                break
            c = g(r)
        n = len(c["items"])
        return {"case": c, "i": r.randint(0, max(0, n - 1)), "op": r.choice(ops), "arg": r.pick("new", "1.2", "%{x}-y", "a: b", "x  y", "%{expand:", "é")}
    return f


def guard(c, n):
    if not isinstance(c["i"], int) or not 0 <= c["i"] < n or not c["arg"] or "\n" in c["arg"]:
        raise Skip()


def target(xs, same_name, i):
    """index of the item that an access by name is about; in some cases some of the items are made invalid"""
    if i % 2:
        for k, x in enumerate(xs):
            x.valid = x.valid and (k * 5 + i) % 3 != 0
    return next((k for k in same_name if xs[k].valid), same_name[0])


# ---- C11 -------------------------------------------------------------------------------------------
@check("C11", quick=2500, gen=with_edit(g_tagitems, ["value", "name", "comment", "addcomment", "delcomment", "attr"]))
def edit_tag(c):
    from specfile.tags import Tags
    case, i, op, arg = c["case"], c["i"], c["op"], c["arg"]
    tags_case(case)
    guard(c, len(case["items"]))
    t = Tags.parse(section("package", render(case, tag_lines)))
    it = case["items"][i]
    if op == "value":
        t[i].value = arg
        it["value"] = [arg]
    elif op == "attr":
        k = target(t, [k for k, x in enumerate(case["items"]) if x["name"].lower() == it["name"].lower()], i)
        setattr(t, it["name"].lower(), arg)
        case["items"][k]["value"] = [arg]
    elif op == "name":
        t[i].name = "Vendor"
        it["name"] = "Vendor"
    elif op in ("comment", "delcomment"):
        if not it["comments"]:
            raise Skip()
        if op == "comment":
            t[i].comments[-1] = arg
            it["comments"][-1][1] = arg
        else:
            del t[i].comments[-1]
            del it["comments"][-1]
    elif op == "addcomment":
        t[i].comments.append(arg)
        it["comments"].append(["# ", arg])
    same(t.get_raw_section_data(), render(case, tag_lines), f"lines after {op} of tag {i}")


@check("C11", quick=2500, gen=with_edit(g_mditems, ["body", "name", "scope", "comment_out", "uncomment", "attr"]))
def edit_macro_definition(c):
    from specfile.macro_definitions import CommentOutStyle, MacroDefinitions
    case, i, op, arg = c["case"], c["i"], c["op"], c["arg"]
    mds_case(case)
    guard(c, len(case["items"]))
    it = case["items"][i]
    m = MacroDefinitions.parse(mdrender(case))
    if op == "body":
        m[i].body = arg
        it["body"] = [arg]
    elif op == "attr":
        n = it["name"] + it["opts"]
        if not m[i].name == n or not n.isidentifier() or n.startswith("_"):
            raise Skip()
        k = target(m, [k for k, x in enumerate(case["items"]) if x["name"] + x["opts"] == n], i)
        setattr(m, n, arg)
        case["items"][k]["body"] = [arg]
    elif op == "name":
        m[i].name = "other"
        it["name"], it["opts"] = "other", ""
    elif op == "scope":
        m[i].is_global = not m[i].is_global
        it["global"] = not it["global"]
    elif op == "comment_out":
        if it["style"]:
            raise Skip()
        m[i].comment_out_style = CommentOutStyle.HASH
        m[i].commented_out = True
        it["style"] = "HASH"
    elif op == "uncomment":
        if it["style"] not in ("HASH", "DNL"):
            raise Skip()
        m[i].commented_out = False
        it["style"] = ""
    same(m.get_raw_data(), mdrender(case), f"lines after {op} of macro definition {i}")


@check("C11", quick=2000, gen=with_edit(g_prepitems, ["name", "n", "q", "del", "add", "number", "number"]))
def edit_prep(c):
    from specfile.prep import PatchMacro, Prep
    case, i, op, arg = c["case"], c["i"], c["op"], c["arg"]
    prep_case(case)
    guard(c, len(case["items"]))
    it = case["items"][i]
    lines = preprender(case)
    p = Prep.parse(section("prep", lines))
    k = sum(len(x["pre"]) + 1 for x in case["items"][:i]) + len(it["pre"])
    m = p.macros[i]

    def opts(x):
        return {o: x.options[o] for o in x.options}, list(x.options.positional), x.name
    exp = opts(m)
    once = [o for o in exp[0] if sum(x.startswith("-" + o) for x in it["opts"]) == 1]
    if op == "name":
        m.name = "%setup"
        it["name"] = "%setup"
        exp = None
    elif op == "n":
        name = "m" if it["name"] == "%autopatch" else "b"
        m.options[name] = "x" if name == "b" else 3
        exp[0][name] = "x" if name == "b" else 3
    elif op in ("q", "del") and it["name"] == "%setup":
        raise Skip()
    elif op == "q":
        m.options.p = 2
        exp[0]["p"] = 2
    elif op == "del":
        if "p" in exp[0] and "p" not in once:
            raise Skip()
        m.options.p = None
        exp[0].pop("p", None)
    elif op == "number":
        if not isinstance(m, PatchMacro):
            raise Skip()
        m.number = 77
        same(m.number, 77, "number of the patch")
        exp = None
    else:
        m.options.positional.append("zz")
        exp[1].append("zz")
    if exp is not None:
        same(opts(m), exp, f"options after {op}")
    out = p.get_raw_section_data()
    same(len(out), len(lines), "number of lines")
    same(out[:k] + out[k + 1:], lines[:k] + lines[k + 1:], "other lines")
    if op == "name":
        same(out, preprender(case), "lines")
        return
    again = Prep.parse(section("prep", out)).macros
    same(len(again), len(p.macros), "number of macros")
    same((opts(again[i]), type(again[i])), (opts(m), type(m)), "macro read again")
    if op == "number":
        same(again[i].number, 77, "number read again")
    head = ("%{" + it["cond"] + ":" if it["cond"] else "") + it["prefix"] + it["name"]
    if op == "number":
        head = head.rstrip("0123456789")
    need(out[k].startswith(head), "text before the options of {} kept in {}", lines[k], out[k])
    need(out[k].endswith("}") or not it["cond"], "text behind the options of {} kept in {}", lines[k], out[k])


def g_cl(r):
    ents = []
    for _ in range(r.randint(1, 4)):
        ents.append({"header": "* Mon Jan %02d 2024 A <a@b> - 1.%d-1" % (r.randint(1, 9), r.randint(0, 9)),
                     "content": [r.pick("- a", "- b", "  c", "text") for _ in range(r.randint(1, 3))], "after": r.pick([""], [""], ["", ""], [" "], [])})
    return {"pre": r.pick([], [], ["text"], [""], ["# c", ""]), "items": ents}


def clrender(c):
    out = list(c["pre"])
    for e in c["items"]:
        out += [e["header"]] + e["content"] + e["after"]
    return out


def cl_case(c):
    for e in c["items"]:
        if not e["header"].startswith("* ") or not e["content"] or any(x.startswith("*") for x in e["content"]) or not e["content"][-1].strip() or any(
                x.strip() for x in e["after"]):
            raise Skip()
    if any(x.startswith("*") for x in c["pre"]):
        raise Skip()


@check("C11", quick=1500, gen=with_edit(g_cl, ["header", "content", "append", "replace"]))
def edit_changelog(c):
    from specfile.changelog import Changelog
    case, i, op, arg = c["case"], c["i"], c["op"], c["arg"]
    cl_case(case)
    guard(c, len(case["items"]))
    o = Changelog.parse(section("changelog", clrender(case)))
    n = len(case["items"])
    same(len(o), n, "number of entries")
    e, it = o[n - 1 - i], case["items"][i]
    if op == "header":
        e.header = it["header"] = "* X"
    elif op == "content":
        e.content[0] = it["content"][0] = "- " + arg
    elif op == "append":
        e.content.append("- " + arg)
        it["content"].append("- " + arg)
    else:
        e.content = [arg]
        it["content"] = [arg]
    same(o.get_raw_section_data(), clrender(case), f"lines after {op} of entry {i}")


def g_sl(r):
    items = []
    for _ in range(r.randint(1, 4)):
        items.append({"pre": r.pick([], [], [""], ["", ""]), "comments": [[r.pick("# ", "#"), r.pick("about", "x y")] for _ in range(r.pick(0, 0, 1, 2))],
                      "loc": r.pick("a.tar.gz", "https://x/%{name}.zip", "b.patch", "%{x}", " indented", "a b")})
    return {"items": items, "rest": r.pick([], [""], ["# c"])}


def slrender(c):
    out = []
    for e in c["items"]:
        out += e["pre"] + [p + t for p, t in e["comments"]] + [e["loc"]]
    return out + c["rest"]


@check("C11", quick=1000, gen=with_edit(g_sl, ["loc", "comment", "append"]))
def edit_sourcelist(c):
    from specfile.sourcelist import Sourcelist
    case, i, op, arg = c["case"], c["i"], c["op"], c["arg"]
    guard(c, len(case["items"]))
    if any(not e["loc"].strip() or e["loc"].lstrip().startswith("#") or any(x for x in e["pre"]) for e in case["items"]) or any(
            x and not x.startswith("#") for x in case["rest"]):
        raise Skip()
    if any(len(x) != 2 or x[0] not in ("# ", "#") or not x[1] or x[1][0] in "# \t" for e in case["items"] for x in e["comments"]):
        raise Skip()
    o = Sourcelist.parse(section("sourcelist", slrender(case)))
    it = case["items"][i]
    if op == "loc":
        o[i].location = it["loc"] = arg
    elif op == "comment":
        if not it["comments"]:
            raise Skip()
        o[i].comments[0] = arg
        it["comments"][0][1] = arg
    else:
        o[i].comments.append(arg)
        it["comments"].append(["# ", arg])
    same(o.get_raw_section_data(), slrender(case), f"lines after {op} of entry {i}")


def g_specedit(r):
    c = spec.spec(r)
    c["op"] = r.pick("version", "tag", "macro", "raw_release", "source", "patch", "clog", "summary", "line", "section")
    c["k"] = r.randint(0, 20)
    c["arg"] = r.pick("9.9", "%{name}.z", "new value", "x")
    return c


@check("C11", quick=800, gen=g_specedit)
def edit_spec(c):
    """an edit through the spec file changes one line only"""
    with spec.specfile(c) as s:
        before = str(s).split("\n")
        op, k, arg = c["op"], c["k"], c["arg"]
        want = None
        if op in ("version", "summary", "raw_release"):
            old = getattr(s, op)
            if old is None:
                raise Skip()
            arg = arg if op == "summary" else arg.replace(" ", ".")
            setattr(s, op, arg)
            same(getattr(s, op), arg, op)
            if "\n" in (old or ""):
                raise Skip()
        elif op == "tag":
            with s.tags() as tags:
                if not len(tags) or "\n" in tags[k % len(tags)].value:
                    raise Skip()
                arg = arg if tags[k % len(tags)].normalized_name == "Summary" else arg.replace(" ", ".")
                tags[k % len(tags)].value = arg
                k, want = k % len(tags), lambda: s.tags().content[k].value
        elif op == "macro":
            with s.macro_definitions() as mds:
                if not len(mds) or "\n" in mds[k % len(mds)].body:
                    raise Skip()
                mds[k % len(mds)].body = arg
                k, want = k % len(mds), lambda: s.macro_definitions().content[k].body
        elif op in ("source", "patch"):
            with getattr(s, op + "s" if op == "source" else "patches")() as xs:
                if not len(xs):
                    raise Skip()
                k = k % len(xs)
                xs[k].location = arg
                want = lambda: getattr(s, op + "s" if op == "source" else "patches")().content[k].location
        elif op == "clog":
            with s.changelog() as cl:
                if not cl or not cl[k % len(cl)].content:
                    raise Skip()
                cl[k % len(cl)].content[0] = "- " + arg
        elif op == "section":
            with s.sections() as secs:
                x = secs[k % len(secs)]
                if not len(x):
                    raise Skip()
                x.data[0] = "# " + arg
        else:
            with s.lines() as lines:
                lines[k % len(lines)] = "# " + arg
        after = str(s).split("\n")
        same(len(after), len(before), "number of lines")
        diff = [i for i, (a, b) in enumerate(zip(before, after)) if a != b]
        need(len(diff) <= 1, "changed lines {}", [(before[i], after[i]) for i in diff])
        if want is not None:
            same(want(), arg, "value read back")


# ---- C12 -------------------------------------------------------------------------------------------
def g_del(g):
    def f(r):
        c = g(r)
        n = len(c["items"])
        sel = r.weighted([(3, ["idx", r.randint(-n, n - 1) if n else 0]), (2, ["slice", r.pick(None, r.randint(-n - 1, n + 1)), r.pick(None, r.randint(-n - 1, n + 1)),
                                                                         r.pick(None, None, 1, 2, -1, -2)]), (2, ["name", r.randint(0, max(0, n - 1))])])
        return {"case": c, "sel": sel}
    return f


def selected(sel, n):
    """indices deleted by the selector, None if it is an IndexError"""
    if not isinstance(sel, list) or len(sel) < 2:
        raise Skip()
    if sel[0] == "idx":
        if not isinstance(sel[1], int) or not -n <= sel[1] < n:
            raise Skip()
        return [range(n)[sel[1]]]
    if sel[0] == "slice":
        return sorted(range(n)[slice(sel[1], sel[2], sel[3])])
    raise Skip()


def key(sel):
    return sel[1] if sel[0] == "idx" else slice(sel[1], sel[2], sel[3])


def item_lines(it, own):
    return it["pre"] + [p + t for p, t in it.get("comments", [])] + own(it)


def subseq_nonempty(a, b):
    return [x for x in a if x] == [x for x in b if x]


@check("C12", quick=3000, gen=g_del(g_tagitems))
def delete_tags(c):
    from specfile.tags import Tags
    case, sel = c["case"], c["sel"]
    tags_case(case)
    n = len(case["items"])
    t = Tags.parse(section("package", render(case, tag_lines)))
    valid = [x.valid for x in t]
    own = [x.comments.raw for x in t]
    if sel[0] == "name":
        if not 0 <= sel[1] < n:
            raise Skip()
        nm = case["items"][sel[1]]["name"].lower()
        cand = [k for k, x in enumerate(case["items"]) if x["name"].lower() == nm]
        idx = [next((k for k in cand if valid[k]), cand[0])]
        delattr(t, nm)
    else:
        idx = selected(sel, n)
        del t[key(sel)]
    exp = []
    lines = render(case, tag_lines)
    keep, marked, pos = [], [], 0
    for k, it in enumerate(case["items"]):
        p = list(it["pre"])
        body = [a + b for a, b in it["comments"]] + tag_lines(it)
        if k in idx:
            # comments right above the tag go with it
            while p and p[-1].lstrip().startswith("#"):
                p.pop()
            keep += p
            marked += p + [DELETED]
        else:
            keep += p + body
            marked += p + body
            exp.append("\n".join(it["value"]))
    keep += case["rest"]
    marked += case["rest"]
    out = t.get_raw_section_data()
    same([x for x in out if x], [x for x in keep if x], "lines other than empty ones after deletion")
    need(out.count("") <= keep.count(""), "no new empty lines")
    if not idx:
        same(out, lines, "lines when nothing is deleted")
    same([x.value for x in t], exp, "remaining tags")
    same([x.comments.raw for x in t], [own[k] for k in range(n) if k not in idx], "comments of remaining tags")
    # empty lines that are not next to a deleted tag stay
    want, have = gaps(marked), gaps(out)
    for j, (w, h) in enumerate(zip(want, have)):
        if DELETED not in w:
            same(len(h), len(w), f"empty lines in gap {j} of {marked} after deletion, now {out}")


DELETED = object()


def gaps(lines):
    """runs of empty lines and marks around and between the other lines"""
    out = [[]]
    for x in lines:
        if x is DELETED or not x:
            out[-1].append(x)
        else:
            out.append([])
    return out


@check("C12", quick=2500, gen=g_del(g_mditems))
def delete_macro_definitions(c):
    from specfile.macro_definitions import MacroDefinitions
    case, sel = c["case"], c["sel"]
    mds_case(case)
    n = len(case["items"])
    m = MacroDefinitions.parse(mdrender(case))
    if sel[0] == "name":
        if not 0 <= sel[1] < n:
            raise Skip()
        nm = case["items"][sel[1]]["name"] + case["items"][sel[1]]["opts"]
        idx = [next(k for k, x in enumerate(case["items"]) if x["name"] + x["opts"] == nm)]
        delattr(m, nm)
    else:
        idx = selected(sel, n)
        del m[key(sel)]
    out = []
    for k, it in enumerate(case["items"]):
        out += it["pre"] + ([] if k in idx else md_lines(it))
    same(m.get_raw_data(), out + case["rest"], "lines after deletion")
    same([x.name for x in m], [x["name"] + x["opts"] for k, x in enumerate(case["items"]) if k not in idx], "remaining macro definitions")


@check("C12", quick=2000, gen=g_del(g_prepitems))
def delete_prep_macros(c):
    from specfile.prep import PatchMacro, Prep
    case, sel = c["case"], c["sel"]
    prep_case(case)
    n = len(case["items"])
    p = Prep.parse(section("prep", preprender(case)))
    if sel[0] == "name":
        if not 0 <= sel[1] < n:
            raise Skip()
        nm = case["items"][sel[1]]["name"]
        idx = [next(k for k, x in enumerate(case["items"]) if x["name"] == nm)]
        if sel[1] % 2:
            delattr(p, nm[1:])
        else:
            delattr(p.macros, nm[1:])
    else:
        idx = selected(sel, n)
        del p.macros[key(sel)]
    out = []
    for k, it in enumerate(case["items"]):
        out += it["pre"] + ([] if k in idx else prep_line(it))
    same(p.get_raw_section_data(), out + case["rest"], "lines after deletion")


def plain_patches(case):
    """%patch macros have options that rpm knows"""
    for it in case["items"]:
        if it["name"].startswith("%patch") and not set(it["opts"]) <= {"-p1", "-b .x", "-P2", "5", "-z .%{y}"}:
            raise Skip()


@check("C12", quick=1500, gen=g_del(g_prepitems))
def remove_patch_macro(c):
    from specfile.prep import PatchMacro, Prep
    case = c["case"]
    prep_case(case)
    plain_patches(case)
    p = Prep.parse(section("prep", preprender(case)))
    nums = [m.number if isinstance(m, PatchMacro) else None for m in p.macros]
    for num in sorted({x for x in nums if x is not None}) + [77]:
        q = Prep.parse(section("prep", preprender(case)))
        q.remove_patch_macro(num)
        k = nums.index(num) if num in nums else -1
        out = []
        for j, it in enumerate(case["items"]):
            out += it["pre"] + ([] if j == k else prep_line(it))
        same(q.get_raw_section_data(), out + case["rest"], f"lines after removing patch macro {num}")


@check("C12", quick=2000, gen=g_del(g_cl))
def delete_changelog(c):
    from specfile.changelog import Changelog
    case, sel = c["case"], c["sel"]
    cl_case(case)
    n = len(case["items"])
    if sel[0] == "name":
        sel = ["idx", sel[1]]
    idx = selected(sel, n)
    o = Changelog.parse(section("changelog", clrender(case)))
    del o[key(sel)]
    out = list(case["pre"])
    for k, e in enumerate(case["items"]):
        out += e["after"][1:] if n - 1 - k in idx else [e["header"]] + e["content"] + e["after"]
    got = o.get_raw_section_data()
    same([x for x in got if x.strip()], [x for x in out if x.strip()], "lines after deletion")
    same(sorted(x for x in got if not x.strip()), sorted(x for x in out if not x.strip()), "blank lines after deletion")
    same([e.header for e in reversed(o)], [e["header"] for k, e in enumerate(case["items"]) if n - 1 - k not in idx], "remaining entries")


# ---- C13 -------------------------------------------------------------------------------------------
def g_ins(g):
    def f(r):
        c = g(r)
        n = len(c["items"])
        return {"case": c, "i": r.pick(r.randint(0, n), r.randint(0, n), n, n + 3), "how": r.pick("insert", "insert", "append"),
                "own": [r.pick([], [], [""], ["text", ""], ["%global x y"]), r.pick([], [], ["c"], ["c", "d e"])]}
    return f


@check("C13", quick=3000, gen=g_ins(g_tagitems))
def insert_tag(c):
    from specfile.tags import Comment, Comments, Tag, Tags
    case, i = c["case"], c["i"]
    tags_case(case)
    n = len(case["items"])
    if not isinstance(i, int) or i < 0 or c["how"] not in ("insert", "append"):
        raise Skip()
    t = Tags.parse(section("package", render(case, tag_lines)))
    vals = [x.value for x in t]
    cms = [x.comments.raw for x in t]
    pre, cm = c["own"]
    if any(x not in ("", "text", "%global x y") for x in pre) or any(x not in ("c", "d e") for x in cm):
        raise Skip()
    new = Tag("Vendor", "NEW", ": ", Comments([Comment(x) for x in cm], list(pre)))
    block = pre + ["# " + x for x in cm] + ["Vendor: NEW"]
    if c["how"] == "append":
        t.append(new)
        i = n
    else:
        t.insert(i, new)
        i = min(i, n)
    out = t.get_raw_section_data()
    need(out.count("Vendor: NEW") == 1, "the tag is in the lines once")
    k = out.index("Vendor: NEW") + 1 - len(block)
    same(out[k:k + len(block)], block, "lines of the tag")
    same(out[:k] + out[k + len(block):], render(case, tag_lines), "other lines")
    same([x.value for x in t], vals[:i] + ["NEW"] + vals[i:], "tags")
    same([x.comments.raw for x in t], cms[:i] + [cm] + cms[i:], "comments")
    # not inside of a condition block that is closed before the following tag
    if c["how"] == "insert":
        start = sum(len(item_lines(x, tag_lines)) for x in case["items"][:i])
        between = case["items"][i]["pre"] if i < n else case["rest"]
        ends = [j for j, x in enumerate(between) if x.startswith("%endif")]
        same(k, start + (ends[0] + 1 if ends else 0), "line of the new tag")


@check("C13", quick=1500, gen=g_ins(g_mditems))
def insert_macro_definition(c):
    from specfile.macro_definitions import CommentOutStyle, MacroDefinition, MacroDefinitions
    case, i = c["case"], c["i"]
    mds_case(case)
    n = len(case["items"])
    if not isinstance(i, int) or i < 0:
        raise Skip()
    m = MacroDefinitions.parse(mdrender(case))
    new = MacroDefinition("new", "body", True, False, CommentOutStyle.DNL, ("", " ", " ", ""))
    if c["how"] == "append":
        m.append(new)
        i = n
    else:
        m.insert(i, new)
        i = min(i, n)
    out = []
    for k, it in enumerate(case["items"] + [None]):
        if k == i:
            out.append("%global new body")
        if it is not None:
            out += it["pre"] + md_lines(it)
    same(m.get_raw_data(), out + case["rest"], "lines after insertion")


@check("C13", quick=1500, gen=g_ins(g_cl))
def insert_changelog(c):
    from specfile.changelog import Changelog, ChangelogEntry
    case, i = c["case"], c["i"]
    cl_case(case)
    n = len(case["items"])
    if not isinstance(i, int) or i < 0:
        raise Skip()
    o = Changelog.parse(section("changelog", clrender(case)))
    new = ChangelogEntry("* NEW", ["- new"], [""])
    if c["how"] == "append":
        o.append(new)
        i = n
    else:
        o.insert(i, new)
        i = min(i, n)
    out = list(case["pre"])
    for k, e in enumerate(case["items"] + [None]):
        if n - k == i:
            out += ["* NEW", "- new", ""]
        if e is not None:
            out += [e["header"]] + e["content"] + e["after"]
    same(o.get_raw_section_data(), out, "lines after insertion")


@check("C13", quick=2000, gen=g_ins(g_prepitems))
def add_patch_macro(c):
    from specfile.prep import PatchMacro, Prep
    case = c["case"]
    prep_case(case)
    plain_patches(case)
    lines = preprender(case)
    for num in (0, 3, 12, 99):
        for old in (False, True):
            p = Prep.parse(section("prep", lines))
            nums = [m.number for m in p.macros if isinstance(m, PatchMacro)]
            p.add_patch_macro(num, old, p=1)
            out = p.get_raw_section_data()
            want = f"%patch{num} -p1" if old else f"%patch {num} -p1"
            ks = [k for k, x in enumerate(out) if x == want and out[:k] + out[k + 1:] == lines]
            need(ks, "exactly the line {} is added, got {}", want, out)
            new = [m.number for m in p.macros if isinstance(m, PatchMacro)]
            if nums == sorted(set(nums)):
                same(new, sorted(nums + [num]), "patch numbers stay sorted")
            else:
                same(sorted(new), sorted(nums + [num]), "patch numbers")


# ---- C14 -------------------------------------------------------------------------------------------
@check("C14", quick=2500, gen=lambda r: {"case": g_tagitems(r), "dup": r.maybe(0.5)})
def find_tags(c):
    from specfile.tags import Tags
    case = c["case"]
    tags_case(case)
    if c["dup"] and len(case["items"]) > 1:
        case["items"][1] = copy.deepcopy(case["items"][0])
    lines = render(case, tag_lines)
    t = Tags.parse(section("package", lines))
    n = len(case["items"])
    pos = 0
    where = []
    for it in case["items"]:
        where.append(pos + len(it["pre"]) + len(it["comments"]))
        pos += len(item_lines(it, tag_lines))
    for k in range(n):
        same(t[k].get_position(t), where[k], f"position of tag {k}")
        nm = case["items"][k]["name"]
        cand = [j for j in range(n) if case["items"][j]["name"].lower() == nm.lower()]
        exp = next((j for j in cand if t[j].valid), cand[0])
        for v in (nm, nm.upper(), nm.lower()):
            same(t.find(v), exp, f"index of {v}")
            need(v in t, "{} is present", v)
            need(t.get(v) is t[exp], "tag {} by name", v)
        if nm.isidentifier():
            need(getattr(t, nm.lower()) is t[exp], "tag {} by attribute", nm)
        same(t.find(nm, where[k]), k, f"tag at position {where[k]}")
    for v in ("NoSuchTag", "Buildroot"):
        need(v not in t, "no tag {}", v)
        fails(lambda: t.find(v), ValueError)
        fails(lambda: t.get(v), ValueError)
        fails(lambda: getattr(t, v.lower()), AttributeError)
    for k in range(n):
        if where[k] + 1 not in where:
            fails(lambda: t.find(case["items"][k]["name"], where[k] + 1), ValueError)
    # no valid match: the first one; otherwise the first valid one
    for k in range(n):
        t[k].valid = (k * 7 + len(lines)) % 3 == 0
    for k in range(n):
        nm = case["items"][k]["name"]
        cand = [j for j in range(n) if case["items"][j]["name"].lower() == nm.lower()]
        same(t.find(nm), next((j for j in cand if t[j].valid), cand[0]), f"index of {nm} by validity")


def fails(f, exc):
    try:
        r = f()
    except exc:
        return
    raise Violation(f"expected {exc.__name__}, got {r!r}")


@check("C14", quick=2500, gen=lambda r: {"case": g_mditems(r), "dup": r.maybe(0.5)})
def find_macro_definitions(c):
    from specfile.macro_definitions import MacroDefinitions
    case = c["case"]
    mds_case(case)
    if c["dup"] and len(case["items"]) > 1:
        case["items"][1] = copy.deepcopy(case["items"][0])
    m = MacroDefinitions.parse(mdrender(case))
    n = len(case["items"])
    where, pos = [], 0
    for it in case["items"]:
        where.append(pos + len(it["pre"]))
        pos += len(it["pre"]) + len(md_lines(it))
    for rnd in (0, 1):
        for k in range(n):
            same(m[k].get_position(m), where[k], f"position of macro definition {k}")
            nm = case["items"][k]["name"] + case["items"][k]["opts"]
            cand = [j for j in range(n) if case["items"][j]["name"] + case["items"][j]["opts"] == nm]
            exp = next((j for j in cand if m[j].valid), cand[0])
            same(m.find(nm), exp, f"index of {nm}")
            need(m.get(nm) is m[exp], "macro definition {} by name", nm)
            need(nm in m, "{} is present", nm)
            need(getattr(m, nm) is m[exp], "macro definition {} by attribute", nm)
            same(m.find(nm, where[k]), k, f"macro definition at {where[k]}")
            if where[k] + 1 not in where:
                fails(lambda: m.find(nm, where[k] + 1), ValueError)
        for k in range(n):
            m[k].valid = (k * 7 + pos) % 3 == 0
    need("nosuch" not in m and "FOO" not in m, "no such macro definition")
    fails(lambda: m.find("nosuch"), ValueError)
    fails(lambda: m.get("FOO"), ValueError)


@check("C14", quick=600, gen=spec.spec)
def positions_in_spec(c):
    """positions are line numbers of the whole spec file"""
    with spec.specfile(c) as s:
        lines = str(s).split("\n")
        with s.macro_definitions() as mds:
            for m in mds:
                p = m.get_position(mds)
                need(0 <= p < len(lines), "position {}", p)
                need(("global" if m.is_global else "define") in lines[p] and m.name in lines[p] and m.body.split("\n")[0] in lines[p], "line {} of {}", lines[p], m.name)
        with s.tags() as tags:
            for t in tags:
                p = t.get_position(tags)
                need(t.name in lines[p] and t.value.split("\n")[0] in lines[p], "line {} of {}", lines[p], t.name)
                need(tags.get(t.name, p) is t, "tag by position {}", p)


@check("C14", quick=1500, gen=g_prepitems)
def find_prep_macros(case):
    from specfile.prep import Prep
    prep_case(case)
    p = Prep.parse(section("prep", preprender(case)))
    names = [i["name"] for i in case["items"]]
    for nm in ("%setup", "%autosetup", "%autopatch", "%patch", "%patch0", "%patch12"):
        if nm in names:
            same(p.macros.find(nm), names.index(nm), f"index of {nm}")
            need(getattr(p, nm[1:]) is p.macros[names.index(nm)], "{} by attribute", nm)
        else:
            fails(lambda: p.macros.find(nm), ValueError)
            fails(lambda: getattr(p, nm[1:]), AttributeError)
