"""C16 context managers, C17 side effects of parsing, C18 macro context, C26 deep copies"""
import copy
import gc
import os
import re
import sys
from pathlib import Path

from . import gen, spec
from .base import Skip, Violation, check, need, same


class Boom(Exception):
    pass


# exceptions the code may be tempted to handle itself
BOOMS = [Boom] + [type("Boom" + e.__name__, (Boom, e), {}) for e in (
    KeyError, StopIteration, AttributeError, IndexError, ValueError, TypeError, OSError, RuntimeError)]


# ---- C16 -------------------------------------------------------------------------------------------
VIEWS = ["lines", "sections", "tags", "sources", "patches", "prep", "changelog", "macro_definitions"]
DERIVED = {"lines": ["lines"], "sections": ["lines", "sections"], "tags": ["lines", "sections", "tags"], "sources": ["lines", "sections", "tags", "sources"],
           "patches": ["lines", "sections", "tags", "patches"], "prep": ["lines", "sections", "prep"], "changelog": ["lines", "sections", "changelog"],
           "macro_definitions": ["lines", "macro_definitions"]}


def g_prog(r, depth=0, open_=()):
    """blocks: [view, style, [statements], raise?]; statements: ["edit", n] or a block"""
    v = r.choice(VIEWS if not open_ else [x for x in VIEWS if compatible(x, open_)])
    body = []
    for _ in range(r.randint(0, 3)):
        if depth < 3 and r.maybe(0.5):
            q = g_prog(r, depth + 1, open_ + (v,))
            body.append(["try", q] if r.maybe(0.3) else q)
        else:
            body.append(["edit", r.randint(0, 9)])
    return [v, r.weighted([(6, "with"), (1, "content")]) if depth else "with", body, r.randint(1, len(BOOMS)) if r.maybe(0.15) else 0]


def compatible(v, open_):
    """the views do not overwrite each other: both are derived from the sections, or both are macro definitions"""
    m = v == "macro_definitions"
    return all(o == "lines" and not m or (o == "macro_definitions") == m for o in open_)


def g_c16(r):
    c = spec.spec(r)
    c["prog"] = [g_prog(r) for _ in range(r.randint(1, 2))]
    c["autosave"] = r.maybe(0.5)
    return c


def edit(view, obj, n, i):
    """a change that is visible in the file; returns False if there is nothing to change"""
    if obj is None:
        return False
    if view == "lines":
        return False
    if view == "sections":
        x = [s for s in obj if s.normalized_name in ("description", "build", "install", "check")]
        if not x:
            return False
        x[n % len(x)].data.append(f"# edit {i}")
    elif view == "tags":
        x = [t for t in obj if t.normalized_name in ("Summary", "URL", "Group", "License")]
        if not x:
            return False
        x[n % len(x)].value = f"v{i}"
    elif view in ("sources", "patches"):
        if n % 3 and len(obj):
            obj[n % len(obj)].location = f"loc{i}"
        else:
            obj.insert(n % (len(obj) + 1), f"loc{i}")
    elif view == "prep":
        x = [m for m in obj.macros if m.name in ("%setup", "%autosetup")]
        if not x:
            return False
        x[n % len(x)].options.n = f"x{i}"
    elif view == "changelog":
        if not len(obj):
            return False
        obj[n % len(obj)].content.append(f"- edit {i}")
    elif view == "macro_definitions":
        x = [m for m in obj if m.name in ("zz", "ver", "rel", "foo") and "\n" not in m.body]
        if not x:
            return False
        x[n % len(x)].body = f"{i}"
    return True


def valid_prog(p, open_=()):
    if not (isinstance(p, list) and len(p) == 4 and isinstance(p[3], int) and 0 <= p[3] <= len(BOOMS) and p[0] in VIEWS and p[1] in ("with", "content") and isinstance(p[2], list)) or not compatible(p[0], open_):
        raise Skip()
    for s in p[2]:
        if isinstance(s, list) and len(s) == 2 and s[0] == "edit" and isinstance(s[1], int):
            continue
        if isinstance(s, list) and len(s) == 2 and s[0] == "try":
            s = s[1]
        valid_prog(s, open_ + (p[0],))


@check("C16", quick=700, gen=g_c16)
def nested_contexts(c):
    """programs of nested contexts are equivalent to one context per edit"""
    from specfile import Specfile
    for p in c["prog"]:
        valid_prog(p)
    with spec.specfile(c, autosave=c["autosave"]) as s:
        path = Path(s.path)
        original = path.read_bytes()
        t = Specfile(path)
        counter = [0]
        done = []

        def block(p, open_):
            view, style, body, boom = p
            outer = [o for v, o in open_ if v == view]
            if style == "content":
                obj = getattr(s, view)().content
                if outer:
                    need(obj is outer[-1], "the object of the enclosing {} context is reused", view)
                return
            with getattr(s, view)() as obj:
                if outer:
                    need(obj is outer[-1], "the object of the enclosing {} context is reused", view)
                for st in body:
                    if st[0] == "edit":
                        counter[0] += 1
                        if edit(view, obj, st[1], counter[0]):
                            done.append((view, st[1], counter[0]))
                    elif st[0] == "try":
                        try:
                            block(st[1], open_ + [(view, obj)])
                        except Boom:
                            need(raises(st[1]), "exception without a reason")
                        else:
                            need(not raises(st[1]), "the exception raised in the block is propagated")
                    else:
                        block(st, open_ + [(view, obj)])
                if boom:
                    raise BOOMS[boom - 1](view)

        def raises(q):
            return q[1] == "with" and (q[3] > 0 or any(raises(x) for x in q[2] if x[0] not in ("edit", "try")))

        for p in c["prog"]:
            try:
                block(p, [])
            except Boom:
                need(raises(p), "exception without a reason")
            else:
                need(not raises(p), "the exception raised in the block is propagated")
            # each context starts anew afterwards
            if c["autosave"]:
                same(path.read_bytes(), str(s).encode("utf8", "surrogateescape"), "saved content")
            else:
                same(path.read_bytes(), original, "content of the file without autosave")
        for view, n, i in done:
            with getattr(t, view)() as obj:
                edit(view, obj, n, i)
        same(str(s).split("\n"), str(t).split("\n"), "content after the edits in nested contexts")
        for view in VIEWS:
            with getattr(s, view)() as a:
                pass
            with getattr(s, view)() as b:
                if view not in ("lines", "prep", "changelog"):
                    need(a is not b, "a new object after the {} context has ended", view)
        same(str(s).split("\n"), str(t).split("\n"), "content after contexts without edits")


@check("C16", quick=300, gen=lambda r: dict(spec.spec(r), view=r.choice(VIEWS), edits=[r.randint(0, 9) for _ in range(3)]))
def instances_of_one_file(c):
    """two instances of the same file are independent, even if their contexts are open at the same time"""
    from specfile import Specfile
    if c["view"] not in VIEWS or len(c["edits"]) != 3:
        raise Skip()
    with spec.specfile(c) as a:
        b, ref = Specfile(a.path), Specfile(a.path)
        orig = str(a)
        with getattr(a, c["view"])() as x:
            with getattr(b, c["view"])() as y:
                need(x is not y or x is None, "contexts of different instances are independent")
                edit(c["view"], y, c["edits"][0], 1)
            same(str(a), orig, "content of the other instance")
            edit(c["view"], x, c["edits"][1], 2)
        after = str(a)
        with getattr(ref, c["view"])() as x:
            edit(c["view"], x, c["edits"][1], 2)
        same(after, str(ref), "content after an edit of this instance")
        ref.reload()
        with getattr(ref, c["view"])() as x:
            edit(c["view"], x, c["edits"][0], 1)
        same(str(b), str(ref), "content of the other instance after its own edit")


@check("C16", quick=300, gen=lambda r: dict(spec.spec(r), other=spec.spec(r), n=r.randint(0, 9), pairs=[[r.randint(0, 3), r.randint(0, 3)] for _ in range(3)]))
def independent_instances(c):
    """contexts of two spec files, of two sections and of different arguments do not mix"""
    from specfile.exceptions import DuplicateSourceException
    with spec.specfile(c) as a, spec.specfile(c["other"]) as b:
        sb = str(b)
        with a.tags() as ta, b.tags() as tb:
            need(ta is not tb, "contexts of different spec files are independent")
            for t in ta:
                if t.normalized_name == "Summary":
                    t.value = "changed"
        same(str(b), sb, "the other spec file")
        with a.tags() as ta:
            same([t.value for t in ta if t.normalized_name == "Summary"][:1], ["changed"], "value")
        with a.sections() as secs:
            pk = [x for x in secs if x.normalized_name == "package"]
            for x in pk[1:]:
                with a.tags(x) as t1, a.tags() as t0:
                    need(t1 is not t0, "contexts of different sections are independent")
                    for t in t1:
                        if t.name.lower() == "summary":
                            t.value = f"sub{c['n']}"
                need(any("sub" in line for line in x.data) or not any(line.lower().startswith("summary") for line in x.data), "the section passed is changed")
        kinds = [{}, {"allow_duplicates": True}, {"allow_duplicates": False}, {"allow_duplicates": True, "default_source_number_digits": 4}]
        for i, j in c["pairs"]:
            k1, k2 = kinds[i % 4], kinds[j % 4]
            for view in (a.sources, a.patches):
                with view(**k1) as s1, view(**k2) as s2:
                    if k1 == k2:
                        need(s1 is s2, "the same arguments")
                    if bool(k1.get("allow_duplicates")) != bool(k2.get("allow_duplicates")):
                        need(s1 is not s2, "contexts with different arguments are independent")
                    for kw, x in ((k1, s1), (k2, s2)):
                        if len(x) and not kw.get("allow_duplicates"):
                            try:
                                x.append(x[0].location)
                            except DuplicateSourceException:
                                pass
                            else:
                                need(False, "the arguments of the context apply")


# ---- C17 -------------------------------------------------------------------------------------------
def g_c17(r):
    c = spec.spec(r)
    body = c["lines"]
    extra = []
    for _ in range(r.randint(0, 3)):
        extra.append(r.pick("Source77: missing.tar.gz", "Source78: present.tar.gz", "Source79: https://x.org/a.zip", "%{load:%{_sourcedir}/macros.x}", "%include %{_sourcedir}/inc.x",
                            "%include %{SOURCE77}", "Source80: " + "n" * r.pick(100, 254, 255, 256, 300), "URL: %(cat %{SOURCE77})", "Source81: dir", "Source82: ..", "Source83: https://x.org/",
                            "%include nonexistent/dir/x", "%global yy %(rm -f %{_sourcedir}/missing.tar.gz)", "%{error:boom}", "%include x \\", "%if (", "%global xx %{lua:error('x')}",
                            "%{load:/nonexistent/x}", "Source84: sub/b.tar.gz", "%global z1 %(echo $LANG $LC_ALL)", "Source85: empty.patch", "%global z2 %(echo err >&2)", "%{expand:"))
    k = next((i for i, x in enumerate(body) if x.lower().startswith("summary")), 0)
    body[k:k] = extra
    c["force"] = r.maybe(0.6)
    c["present"] = [x for x in ["present.tar.gz", "missing.tar.gz", "inc.x", "a.zip", "b.tar.gz"] if r.maybe(0.3)]
    c["env"] = r.pick([None, None], ["cs_CZ.UTF-8", None], [None, "C"], ["C", "en_US.UTF-8"], ["", ""], ["C.UTF-8", "C.UTF-8"])
    return c


def listing(d):
    out = {}
    for p in sorted(Path(d).rglob("*")):
        st = p.lstat()
        out[str(p.relative_to(d))] = [st.st_mode, st.st_size, st.st_mtime_ns, p.read_bytes().hex()] if p.is_file() else [st.st_mode]
    return out


def process_state():
    return {"LANG": os.environ.get("LANG"), "LC_ALL": os.environ.get("LC_ALL"), "env": dict(os.environ), "cwd": os.getcwd(), "stderr": os.fstat(2).st_ino, "dev": os.fstat(2).st_dev,
            "fds": len(os.listdir("/proc/self/fd"))}


@check("C17", quick=700, gen=g_c17)
def side_effects(c):
    from specfile import Specfile
    from specfile.exceptions import SpecfileException
    keep = {k: os.environ.get(k) for k in ("LANG", "LC_ALL", "TMPDIR")}
    if len(c["env"]) != 2 or any("\0" in (x or "") for x in c["env"]) or any(x not in ("present.tar.gz", "missing.tar.gz", "inc.x", "a.zip", "b.tar.gz") for x in c["present"]):
        raise Skip()
    if any(re.search(r"%\(|%\{(lua|load|expand|uncompress|S|getenv|getncpus|dump|trace|P):?|%(dump|trace|include|load)", x) and x not in SHELL for x in c["lines"]):
        raise Skip()
    if "missing.tar.gz" in c["present"] and any("rm -f" in x for x in c["lines"]):
        raise Skip()
    with spec.scratch() as d:
        (d / "tmp").mkdir()
        (d / "src").mkdir()
        (d / "src" / "dir").mkdir()
        p = d / "src" / "test.spec"
        p.write_bytes(spec.content(c).encode("utf8", "surrogateescape"))
        for x in c["present"]:
            (d / "src" / x).write_text("x: " + x if x != "inc.x" else "# included\n")
        try:
            import tempfile
            tempfile.tempdir = str(d / "tmp")
            for k, v in zip(("LANG", "LC_ALL"), c["env"]):
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
            gc.collect()
            s0, f0 = process_state(), listing(d)
            sink = None
            try:
                s = Specfile(p, force_parse=c["force"])
            except SpecfileException:
                s = None
            except (OSError, IndexError, AttributeError, KeyError) as e:
                sink = e
                s = None
            f1, s1 = listing(d), process_state()
            same(s1, s0, "state of the process after parsing")
            same(f1, f0, "files after parsing")
            if sink is not None:
                raise Violation(f"{type(sink).__name__} instead of an exception of the library")
            if s is not None:
                for f in (lambda: s.expanded_version, lambda: s.rpm_spec, lambda: s.expand("%{nope}"), lambda: s.expand("%{error:x}"), lambda: s.expand("%{lua:error('x')}"), lambda: s.tainted,
                          lambda: setattr(s, "version", "%{error:no}"), lambda: s.expanded_version, lambda: setattr(s, "version", "3"), lambda: s.expanded_version):
                    try:
                        f()
                    except SpecfileException:
                        pass
                f1, s1 = listing(d), process_state()
                for k in ("fds",):
                    s1[k] = s0[k]
                same(s1, s0, "state of the process after further use")
                same(f1, f0, "files after further use")
        finally:
            tempfile.tempdir = None
            for k, v in keep.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v


SHELL = {"%{load:%{_sourcedir}/macros.x}", "%include %{_sourcedir}/inc.x", "%include %{SOURCE77}", "URL: %(cat %{SOURCE77})", "%include nonexistent/dir/x",
         "%global yy %(rm -f %{_sourcedir}/missing.tar.gz)", "%include x \\", "%global xx %{lua:error('x')}", "%{load:/nonexistent/x}", "%global z1 %(echo $LANG $LC_ALL)",
         "%global z2 %(echo err >&2)", "%{expand:"}


# ---- C18 -------------------------------------------------------------------------------------------
EXPR = ["%{name}-%{version}-%{release}", "%{foo}", "%{?ver}", "%{?rel}", "%{?zz}", "%{summary}", "%{sources}", "%{patches}", "%{?extra}", "%{?mac}", "%{nope}", "%SOURCE0", "%{?dist}", "%{_sourcedir}"]


def g_c18(r):
    c = {"specs": [spec.spec(r) for _ in range(r.randint(1, 3))], "macros": [r.pick([], [], [["mac", "1"]], [["foo", "9"], ["dist", None]]) for _ in range(3)]}
    c["ops"] = [[r.randint(0, 2), r.pick("expand", "expand", "edit", "edit", "macro", "extra", "drop", "copy", "rpm_spec", "bad", "macros", "reload", "props"), r.randint(0, 20)] for _ in range(r.randint(2, 7))]
    # a file that is not there: the spec file is parsable with force_parse only
    c["inc"] = r.maybe(0.25)
    if c["inc"]:
        c["specs"] = c["specs"][:r.pick(1, 1, 1, 2)]
        c["ops"] = [[n, r.pick("force", "expand", op), k] for n, op, k in c["ops"]]
    return c


@check("C18", quick=450, gen=g_c18)
def freshness(c):
    from specfile import Specfile
    from specfile.exceptions import RPMException
    if not c["specs"] or len(c["macros"]) != 3:
        raise Skip()
    with spec.scratch() as d:
        live = []
        for i, x in enumerate(c["specs"]):
            (d / f"d{i}").mkdir()
            p = d / f"d{i}" / "test.spec"
            if c["inc"]:
                k = next((k for k, y in enumerate(x["lines"]) if y.lower() == "%description"), None)
                if k is None:
                    raise Skip()
                x["lines"][k:k + 1] = ["Source9990: missing.inc", x["lines"][k], "%include %{SOURCE9990}"]
            p.write_bytes(spec.content(x).encode("utf8", "surrogateescape"))
            try:
                live.append(Specfile(p, macros=[tuple(m) for m in c["macros"][i % 3]], force_parse=c["inc"]))
            except RPMException:
                raise Skip() from None

        def probe(s, expr, extra=None):
            try:
                return s.expand(expr, extra_macros=extra)
            except RPMException:
                return None

        expected = []
        for n, op, k in c["ops"]:
            if not live:
                break
            n %= len(live)
            s = live[n]
            if c["inc"] and not s.force_parse and op not in ("edit", "macro", "drop", "copy", "force"):
                op = "expand"
            try:
                if op == "force":
                    s.force_parse = not s.force_parse
                elif op == "expand":
                    e = EXPR[k % len(EXPR)]
                    got = probe(s, e)
                    expected.append((str(s), s.sourcedir, list(s.macros), e, None, got, s.force_parse))
                elif op == "extra":
                    e = EXPR[k % len(EXPR)]
                    got = probe(s, e, [("extra", str(k)), ("foo", "77")])
                    expected.append((str(s), s.sourcedir, list(s.macros), e, [("extra", str(k)), ("foo", "77")], got, s.force_parse))
                elif op == "edit":
                    with s.lines() as ls:
                        for i, x in enumerate(ls):
                            if re.match(r"(?i)(version|%global (ver|rel|foo) )", x) and "%" not in x[1:]:
                                ls[i] = re.sub(r"[0-9.]+[~a-z0-9]*\s*$", str(k + 1), x)
                                break
                elif op == "macro":
                    s.macros.append(("mac", str(k)))
                elif op == "drop":
                    if len(live) > 1:
                        del live[n], s
                        gc.collect()
                elif op == "copy":
                    live.append(copy.deepcopy(s))
                    if len(live) > 4:
                        del live[0], s
                        gc.collect()
                elif op == "rpm_spec":
                    r = s.rpm_spec
                    need(r is not None, "there is a parsed spec")
                    need(f"Name" in r.parsed or "name" in r.parsed.lower(), "the parsed content")
                    same(s.rpm_spec is not None, True, "parsed again")
                    # objects of RPM that outlive the next parse are outside of the precondition
                    del r
                elif op == "bad":
                    saved = list(s.lines().content)
                    with s.lines() as ls:
                        ls.insert(0, "%{error:x}")
                    try:
                        s.expand("x")
                    except RPMException:
                        pass
                    else:
                        need(False, "a spec file that isn't parsable raises RPMException")
                    with s.lines() as ls:
                        ls[:] = saved
                elif op == "macros":
                    names = {m.name: m.body for m in s.get_active_macros()}
                    need("_sourcedir" in names, "active macros")
                    same(names["_sourcedir"], str(s.sourcedir), "_sourcedir")
                elif op == "props":
                    v = s.expanded_version
                    expected.append((str(s), s.sourcedir, list(s.macros), s.version, None, v, s.force_parse))
                    with s.tags() as tags:
                        for t in tags:
                            if t.normalized_name == "Summary" and t.valid:
                                expected.append((str(s), s.sourcedir, list(s.macros), t.value, None, t.expanded_value, s.force_parse))
                                break
            except RPMException:
                # outside of the precondition if RPM doesn't accept the edited spec file
                if spec.accepted(str(s), s.macros):
                    raise
                raise Skip() from None
        del live
        s = None
        gc.collect()
        for text, sd, macros, e, extra, got, force in expected:
            q = d / "ref.spec"
            q.write_bytes(text.encode("utf8", "surrogateescape"))
            f = None
            try:
                f = Specfile(q, sourcedir=sd, macros=macros, force_parse=force)
                ref = f.expand(e, extra_macros=extra)
            except RPMException:
                ref = None
            same(got, ref, f"expansion of {e}")
            del f
            gc.collect()


# ---- C26 -------------------------------------------------------------------------------------------
def g_c26(r):
    c = spec.spec(r)
    c["ops"] = [[r.pick("orig", "copy"), r.choice(VIEWS[1:]), r.randint(0, 9)] for _ in range(r.randint(1, 5))]
    c["within"] = r.pick(None, "tags", "sections", "changelog", "prep", "macro_definitions")
    return c


@check("C26", quick=600, gen=g_c26)
def deep_copies(c):
    from specfile import Specfile
    with spec.specfile(c, macros=[("mac", "1")]) as s:
        t = copy.deepcopy(s)
        need(t == s and not (t != s), "a deep copy equals the original")
        same(str(t), str(s), "content of a copy")
        same(t.path, s.path, "path")
        same(t.macros, s.macros, "macros")
        same(t.expanded_version, s.expanded_version, "version")
        objs = {"orig": s, "copy": t}
        refs = {"orig": Specfile(s.path, macros=[("mac", "1")]), "copy": Specfile(s.path, macros=[("mac", "1")])}
        for i, (who, view, n) in enumerate(c["ops"]):
            if who not in objs or view not in VIEWS or not isinstance(n, int):
                raise Skip()
            for o in (objs, refs):
                with getattr(o[who], view)() as x:
                    edit(view, x, n, i)
            for w in objs:
                same(str(objs[w]), str(refs[w]), f"content of {w} after an edit of {who}")
        same(s == t, str(s) == str(t), "equality")
        t.macros.append(("zz", "1"))
        same(s.macros, [("mac", "1")], "macros of the original")
        need(s != t, "different macros")
        t.path = "/nonexistent/x.spec"
        need(str(s.path) != "/nonexistent/x.spec", "path of the original")


@check("C26", quick=1500, gen=lambda r: {"tags": gen.lines_tags(r), "cl": gen.lines_cl(r), "prep": gen.lines_prep(r), "sl": gen.lines_sl(r), "md": gen.lines_md(r), "how": r.pick("deep", "deep", "copy")})
def deep_copies_of_parts(c):
    from specfile.changelog import Changelog
    from specfile.exceptions import SpecfileException
    from specfile.macro_definitions import MacroDefinitions
    from specfile.prep import Prep
    from specfile.sections import Section, Sections
    from specfile.sourcelist import Sourcelist
    from specfile.tags import Tags
    if any("\n" in x for k in ("tags", "cl", "prep", "sl", "md") for x in c[k]):
        raise Skip()
    for name, f, raw, touch in (
            ("tags", lambda x: Tags.parse(Section("package", data=x)), "get_raw_section_data", lambda o: [(setattr(t, "value", "new"), [setattr(x, "text", "edited") for x in t.comments], t.comments.append("c")) for t in o]),
            ("cl", lambda x: Changelog.parse(Section("changelog", data=x)), "get_raw_section_data", lambda o: [(e.content.append("- new"), e._following_lines.append("")) for e in o]),
            ("prep", lambda x: Prep.parse(Section("prep", data=x)), "get_raw_section_data", lambda o: [m.options.positional.append("zz") for m in o.macros]),
            ("sl", lambda x: Sourcelist.parse(Section("sourcelist", data=x)), "get_raw_section_data", lambda o: [(setattr(e, "location", "new"), [setattr(x, "text", "edited") for x in e.comments], e.comments.append("c")) for e in o]),
            ("md", lambda x: MacroDefinitions.parse(x), "get_raw_data", lambda o: [setattr(m, "body", "new") for m in o]),
            ("md", lambda x: Sections.parse(x), "get_raw_data", lambda o: [s.data.append("x") for s in o])):
        try:
            o = f(c[name])
        except SpecfileException:
            continue
        before = list(getattr(o, raw)())
        q = copy.deepcopy(o)
        need(q == o, "a deep copy of {} equals the original", name)
        same(getattr(q, raw)(), before, f"lines of a deep copy of {name}")
        touch(q)
        same(getattr(o, raw)(), before, f"lines of the original {name} after changes of a deep copy")
        # elements on their own
        if name != "prep":
            for k, x in enumerate(o):
                y = copy.deepcopy(x)
                need(y == x, "a deep copy of an element of {} equals the original", name)
                touch([y])
                same(getattr(o, raw)(), before, f"lines of the original {name} after changes of a deep copy of an element")
        r = copy.deepcopy(o)
        touch(o)
        same(getattr(r, raw)(), before, f"lines of a deep copy of {name} after changes of the original")
