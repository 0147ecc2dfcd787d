"""Verification of functions against contracts: path exploration, loop laws, obligations."""
import ast
import os
import time

import z3

from .core import STATS, Ctx, Decisions, PathEnd, SStr, Unsupported, _parts, consts, is_bool, is_int, is_str, mkstr, zint, zstr
from .values import *  # noqa: F401,F403
from .values import UNDEF
from .models import _key, nlcount
from .interp import Interp, LoopInfo, World, find_laws


class Eq:
    """string equation used in contracts"""

    def __init__(self, a, b):
        self.a, self.b = a, b


class Only:
    """a goal that callers learn nothing from"""

    def __init__(self, goal):
        self.goal = goal


class NoneOf:
    """no element of the chunks satisfies the predicate"""

    def __init__(self, chunks, key):
        self.chunks, self.key = chunks, key


class Contract:
    def __init__(self, target, args, result=None, requires=None, pre=None, ensures=None, raises=(), modifies=(),
                 havoc=None, wf=True, trusted=False, inline=False, props=(), note="", setup=None, selfcls=None,
                 maxpaths=6000, seconds=120, exceptional=None, closure=None, cases=None, view=None,
                 scan=None, pure=False, decides=None, plain=False):
        self.pure = pure   # the result is a function of the arguments
        self.view = view
        self.plain = plain   # views of lists are not tracked in loops
        self.scan = scan
        self.decides = decides    # at call sites: condition under which the (only) exception is raised
        self.closure = closure
        self.cases = cases
        self.target = target
        self.args = args
        self.result = result
        self.requires = requires
        self.pre = pre
        self.ensures = ensures
        self.raises = set(raises)
        self.modifies = modifies
        self.havoc = havoc
        self.wf = wf
        self.trusted = trusted
        self.inline = inline
        self.props = props
        self.note = note
        self.setup = setup
        self.selfcls = selfcls
        self.maxpaths = maxpaths
        self.seconds = seconds
        self.exceptional = exceptional


class NS(dict):
    __getattr__ = dict.__getitem__


DEBUG = os.environ.get("PYVC_DEBUG")


class TooMany(Unsupported):
    pass


class Obligation:
    def __init__(self, name, status, detail="", model=None, path=()):
        self.name, self.status, self.detail, self.model, self.path = name, status, detail, model, path


class Result:
    def __init__(self, target):
        self.target = target
        self.obligations = []
        self.status = "unknown"
        self.reason = ""
        self.paths = 0
        self.seconds = 0.0
        self.loops = {}
        self.passes = 0
        self.returns = 0
        self.used = []
        self.inlined = []

    def counts(self):
        d = {"proved": 0, "refuted": 0, "unknown": 0}
        for o in self.obligations:
            d[o.status] += 1
        return d


class Engine:
    def __init__(self, world, spec, contracts):
        self.world = world
        self.spec = spec
        self.contracts = {c.target: c for c in contracts}
        self.enums = {}
        self.loops = {}
        self.cur = None
        self.obl = []
        self.used = set()
        self.inlined = set()

    # ---- services for the interpreter -------------------------------------------------
    def loopinfo(self, key):
        if key not in self.loops:
            self.loops[key] = LoopInfo(key)
        return self.loops[key]

    def jointype(self, info, key, t):
        d = info.types if key[0] == "v" else info.mods
        old = d.get(key[1])
        new = join(old, t)
        if new != old:
            d[key[1]] = new
            info.changed = True

    def slice_strings(self, it, fr):
        out = []
        f = fr
        while f is not None:
            if f.func is None and f.parent is not None:
                # variables of the enclosing function of a contract on a nested function
                out += [n for n, v in f.vars.items() if is_str(v)]
            elif f.func is not None and isinstance(f.func.node, ast.FunctionDef):
                an = _assigned(f.func.node)
                for a in f.func.node.args.args:
                    if a.arg not in an and is_str(f.vars.get(a.arg)):
                        out.append(a.arg)
            f = f.parent
        return out

    def slice_lists(self, it):
        """lists of lines that are arguments of the function under verification"""
        return [(n, it.mkchunks(it.chunks(v))) for n, v in it.entry
                if isinstance(v, SList) and typeof(v)[1] in ("line", "str")]

    def qual(self, f):
        q = f.qual
        return q if ":" in q else f"{f.fr.module}:{q}" if f.fr is not None and f.fr.parent is None else q

    def contract_for(self, f):
        if isinstance(f.node, ast.Lambda) or f.fr is None:
            return None
        c = self.contracts.get(self.qual(f))
        if c is not None and c.closure is None and f.fr.parent is not None:
            return None
        return c

    def inline_now(self, f, it):
        return self.contracts[self.qual(f)].inline

    def note_class_write(self, it, cls, name, v):
        if (cls.name, name) not in it.classvars:
            raise Unsupported("class attribute modified")
        it.classvars[cls.name, name] = v

    def emit(self, it, name, goal, timeout=None):
        """an obligation on the current path"""
        ctx = it.ctx
        nlcount(it, "")
        if isinstance(goal, Only):
            goal = goal.goal
        if callable(goal):
            try:
                goal = goal()
            except PyExc:
                goal = False
        if isinstance(goal, NoneOf):
            goal = it.none_holds(goal.chunks, goal.key)
        if not isinstance(goal, (Eq, bool)) and any(str(x).startswith(("nl@", "len@")) for x in consts(goal).values()):
            it.linklines()
        if isinstance(goal, Eq):
            g = ctx.seq(goal.a, goal.b)
            detail = lambda: f"{ctx.norm(goal.a)!r}  ==  {ctx.norm(goal.b)!r}"  # noqa: E731
        else:
            g = goal
            detail = lambda: str(g)  # noqa: E731
        st, m = ctx.prove(g, timeout)
        if st != "proved" and isinstance(goal, Eq) and it.drop_all_empty():
            g = ctx.seq(goal.a, goal.b)
            st, m = ctx.prove(g, timeout)
        o = Obligation(name, st, "" if st == "proved" else detail()[:2000], m, () if st == "proved" else list(ctx.trace))
        if st != "proved":
            o.inputs = self.model_inputs(it, m)
        self.obl.append(o)
        return st

    def model_inputs(self, it, m):
        """string values of the counterexample, as seeds for the replay"""
        if m is None:
            return {}
        out = {}
        try:
            for name, v in it.entry:
                out[name] = self.concretise(it, v, m)
        except Exception:  # noqa: BLE001 - best effort
            pass
        return out

    def concretise(self, it, v, m):
        ctx = it.ctx
        if is_str(v):
            return "".join(p if isinstance(p, str) else _zs(m.eval(p, True)) for p in _parts(ctx.norm(v)))
        if isinstance(v, bool) or v is None:
            return v
        if is_int(v):
            return v if isinstance(v, int) else m.eval(v, True).as_long()
        if isinstance(v, SList):
            out = []
            for k, x in it.expand(v.chunks):
                if k == "e":
                    out.append(self.concretise(it, x, m))
                else:
                    vs = ctx.views.get(x.id, {})
                    if "text" in vs:
                        t = self.concretise(it, mkstr(vs["text"]), m)
                        if t:
                            out += t[:-1].split("\n") if t.endswith("\n") else t.split("\n")
            return out
        if isinstance(v, tuple):
            return [self.concretise(it, x, m) for x in v]
        if isinstance(v, SObj):
            return {k: self.concretise(it, x, m) for k, x in v.f.items() if not k.startswith("$")}
        return repr(v)

    # ---- conformance to declared types --------------------------------------------------
    def conform(self, it, v, t, where, seen=None):
        """obligations: v has the declared type (data structure invariant)"""
        ctx = it.ctx
        seen = set() if seen is None else seen
        if t is None or t in ("any", "opaque", "context") or isinstance(t, str) and t.startswith("opaque:"):
            return
        if isinstance(v, (SObj, SList)):
            if id(v) in seen:
                return
            seen.add(id(v))
        if t == "line":
            if not is_str(v):
                self.fail(it, where, f"{v!r} is not a string")
            elif not ctx.is_nonl(v):
                self.emit(it, where, z3.Not(z3.Contains(zstr(ctx.norm(v)), z3.StringVal("\\u{a}"))))
            return
        if t == "str":
            if not is_str(v):
                self.fail(it, where, f"{v!r} is not a string")
            return
        if t in ("int", "nat"):
            if not is_int(v):
                self.fail(it, where, f"{v!r} is not an integer")
            elif t == "nat":
                self.emit(it, where, zint(v) >= 0)
            return
        if t == "bool":
            if not is_bool(v):
                self.fail(it, where, f"{v!r} is not a bool")
            return
        if t == "none":
            if v is not None:
                self.fail(it, where, f"{v!r} is not None")
            return
        k = t[0]
        if k == "opt":
            if v is not None:
                self.conform(it, v, t[1], where, seen)
            return
        if k == "list":
            if not isinstance(v, SList):
                self.fail(it, where, f"{v!r} is not a list")
                return
            for c, x in it.chunks(v):
                if c == "e":
                    self.conform(it, x, t[1], where, seen)
                elif not self.seg_conforms(it, x, t[1]):
                    self.fail(it, where, f"elements {x.et} are not known to be {t[1]}")
            return
        if k == "tuple":
            if not isinstance(v, tuple) or len(v) != len(t[1]):
                self.fail(it, where, "not a tuple of the declared shape")
                return
            for x, y in zip(v, t[1]):
                self.conform(it, x, y, where, seen)
            return
        if k == "obj":
            if not isinstance(v, SObj) or not any(c.name == t[1] for c in v.cls.mro()):
                self.fail(it, where, f"{v!r} is not a {t[1]}")
                return
            for n, ft in self.spec.fields(v.cls).items():
                if n in v.f:
                    self.conform(it, v.f[n], ft, f"{where}.{n}", seen)
                elif not v.lazy:
                    self.fail(it, where, f"field {n} of {t[1]} is not set")
            for nm, goal in self.spec.invariant(it, v):
                self.emit(it, f"{where}: {nm}", goal)
            return
        if k == "enum":
            if not isinstance(v, EnumVal) or v.cls.name != t[1]:
                self.fail(it, where, f"{v!r} is not a {t[1]}")
            return
        if k == "union":
            # some alternative
            for a in t[1]:
                if _shape(it, v, a):
                    return self.conform(it, v, a, where, seen)
            self.fail(it, where, f"{v!r} has none of the declared types")
            return
        if k == "const":
            return

    def seg_conforms(self, it, seg, t):
        if t is None or t == "any":
            return True
        if t == "line":
            return seg.et == "line" or seg.et == "str" and "nonl" in it.ctx.segfacts.get(seg.id, ())
        if t == "str":
            return seg.et in ("str", "line")
        if t == seg.et:
            return True
        if isinstance(t, tuple) and t[0] == "obj" and isinstance(seg.et, tuple):
            alts = seg.et[1] if seg.et[0] == "union" else (seg.et,)
            return all(a[0] == "obj" and any(c.name == t[1] for c in self.world.classes[a[1]].mro()) for a in alts)
        if isinstance(t, tuple) and t[0] == "tuple" and isinstance(seg.et, tuple) and seg.et[0] == "tuple":
            return len(t[1]) == len(seg.et[1]) and all(
                a == b or (a, b) in (("str", "line"), ("int", "nat"))
                or a == "line" and b == "str" and "nonl" in it.ctx.segfacts.get(seg.id, ())
                for a, b in zip(t[1], seg.et[1]))
        return False

    def fail(self, it, name, why):
        st, m = it.ctx.prove(False)
        o = Obligation(name, st, "" if st == "proved" else why, m, list(it.ctx.trace))
        o.inputs = self.model_inputs(it, m) if st != "proved" else {}
        self.obl.append(o)

    def conform_list(self, it, v, t):
        """elements about to be abstracted into a segment must satisfy the invariant of their class"""
        if isinstance(v, SList):
            for c, x in it.chunks(v):
                if c == "e":
                    for y in x if isinstance(x, tuple) else (x,):
                        if isinstance(y, SObj):
                            self.conform(it, y, ("obj", y.cls.name), f"invariant of {y.cls.name}")

    # ---- views: generators decorated with ContextManager ----------------------------------------
    def view_cm(self, it, f, fr):
        """what a call of such a method gives: a new generator, or the value of the suspended one"""
        c = self.contracts.get(f.qual)
        if c is not None and c.view is not None and callable(c.view) and it.ctx.choice(2, f"nested {f.node.name}"):
            return IterVal("existing", c.view(it, NS(fr.vars)))
        return IterVal("cmgenerator", f, fr)

    def run_view(self, it, c, f, args, kw, a):
        """enter the view, leave it without changing anything (or with an exception)"""
        kind, f.kind = f.kind, "func"
        g = it.inline(f, args, kw)
        f.kind = kind
        got = []

        def body(v):
            got.append(v)
            if it.ctx.choice(2, "body raises"):
                raise PyExc("BodyError")

        from .models import run_cm
        try:
            decs = [decname(d) for d in f.node.decorator_list]
            run_cm(it, IterVal("cmgenerator" if "ContextManager" in decs else "generator", *g.args), body)
        except PyExc as e:
            if e.name != "BodyError":
                raise
        return got[0]

    # ---- contracts at call sites ------------------------------------------------------------
    def apply_contract(self, it, c, f, args, kwargs):
        self.used.add(c.target)
        fr = Frame(None, f.fr.module if f.fr else None, f.cls, f)
        it.bind(f.node, args, kwargs, fr, f.fr)
        a = NS(fr.vars)
        ctx = it.ctx
        for n in c.closure or ():
            ff = it.lookup_frame(f.fr, n)
            if ff is None:
                raise Unsupported(f"{n} of the enclosing function of {c.target}")
            a[n] = it.getvar(n, f.fr)
        for n, t in c.args.items():
            if n in ("self", "cls"):
                continue
            if n in a and not _shape(it, a[n], t):
                raise Unsupported(f"argument {n} of {c.target} is {a[n]!r}, contract covers {t}")
            if n in a and (t == "line" or isinstance(t, tuple) and t[0] == "list"):
                self.conform(it, a[n], t, f"argument {n} of {c.target}")
        if c.requires:
            for nm, g in c.requires(it, a):
                self.emit(it, f"precondition {nm} of {c.target}", g)
        if c.pure:
            k = (c.target,) + tuple(v if v is None or isinstance(v, (bool, int)) else _key(v)
                                    for n, v in sorted(a.items()) if n not in ("self", "cls"))
            if k in ctx.hints:
                return ctx.hints[k]
        old = NS(c.pre(it, a)) if c.pre else NS()
        alts = 1 + len(c.raises)
        if c.decides:
            i = int(ctx.branch(c.decides(it, a)))
        else:
            i = ctx.choice(alts, f"raise {c.target}")
        if i:
            exc = sorted(c.raises)[i - 1]
            if c.exceptional:
                for nm, g in c.exceptional(it, a, old, exc):
                    self.assume(it, g)
            raise PyExc(self.world.classes.get(exc, exc))
        if c.havoc:
            c.havoc(it, a)
        r = c.result(it, a) if callable(c.result) else it.fresh(c.result or "none", "r")
        if c.ensures:
            for nm, g in c.ensures(it, a, r, old):
                self.assume(it, g)
        if c.pure:
            ctx.hints[k] = r
        return r

    def assume(self, it, g):
        if isinstance(g, Only):
            return
        if callable(g):
            g = g()
        if isinstance(g, Eq):
            it.ctx.assume_eq(g.a, g.b)
        elif isinstance(g, NoneOf):
            it.assume_none(g.chunks, g.key)
        else:
            it.ctx.assume(g)

    # ---- verification -------------------------------------------------------------------------
    def verify(self, c):
        res = Result(c.target)
        t0 = time.time()
        self.cur = c
        found = None
        try:
            found = self.world.find_function(c.target)
        except KeyError:
            pass
        if found is None:
            res.reason = "function not found"
            return res
        cls, node = found
        self.inlined = set()
        self.loops = {}
        self.implied = {}
        try:
            for p in range(15):
                res.passes = p + 1
                self.obl = []
                self.used = set()
                for info in self.loops.values():
                    info.changed = False
                    info.pairs = []
                    info.broken = set()
                self.pending = None
                nret, npaths = self.explore(c, cls, node, t0)
                changed = False
                for info in self.loops.values():
                    changed = changed or info.changed
                    new = [l for l in info.assumed if l not in info.broken]
                    info.banned = getattr(info, "banned", set()) | info.broken
                    for l in find_laws(info.pairs):
                        if l not in new and l not in info.banned:
                            new.append(l)
                    if set(new) != set(info.assumed):
                        info.assumed = new[:12]
                        changed = True
                if not changed:
                    if self.pending:
                        raise self.pending
                    break
            else:
                raise Unsupported("loop analysis did not converge")
            for info in self.loops.values():
                for l in info.assumed:
                    for _ in info.pairs:
                        self.obl.append(Obligation(f"loop {info.key[0]}:{info.key[1]} conserves "
                                                   + " ++ ".join(f"{k[0]}.{k[1]}" for k in l), "proved"))
            res.paths, res.returns = npaths, nret
            res.obligations = self.obl
            res.loops = {f"{k[0]}:{k[1]}": [" ++ ".join(str(x) for x in l) for l in i.assumed]
                         for k, i in self.loops.items()}
            cnt = res.counts()
            if nret == 0:
                res.status, res.reason = "unknown", "no path reaches a return (vacuous)"
            elif not self.obl:
                res.status, res.reason = "unknown", "no obligations"
            elif cnt["refuted"]:
                res.status = "refuted"
            elif cnt["unknown"]:
                res.status = "unknown"
                res.reason = "solver gave up"
            else:
                res.status = "proved"
        except Unsupported as e:
            res.status, res.reason = "unsupported", str(e)
            res.obligations = self.obl
        except (z3.Z3Exception, RecursionError, MemoryError) as e:
            res.status, res.reason = "unsupported", f"{type(e).__name__}: {e}"
        res.used = sorted(self.used)
        res.inlined = sorted(self.inlined)
        res.seconds = time.time() - t0
        return res

    def verify_cases(self, c):
        """one run per combination of argument types of the contract"""
        if not c.cases:
            return self.verify(c)
        out = None
        args = c.args
        for case in c.cases:
            c.args = {**args, **case}
            try:
                r = self.verify(c)
            finally:
                c.args = args
            if out is None:
                out = r
            else:
                out.obligations += r.obligations
                out.paths += r.paths
                out.seconds += r.seconds
                out.returns += r.returns
                out.used = sorted(set(out.used) | set(r.used))
                out.inlined = sorted(set(out.inlined) | set(r.inlined))
                rank = ["proved", "unknown", "unsupported", "refuted"]
                if rank.index(r.status) > rank.index(out.status):
                    out.status, out.reason = r.status, r.reason
        return out

    def explore(self, c, cls, node, t0):
        work = [[]]
        n = ret = 0
        while work:
            n += 1
            if n > c.maxpaths or time.time() - t0 > c.seconds:
                raise TooMany(f"too many paths ({n}) or out of time ({c.seconds} s)")
            ctx = Ctx(Decisions(work.pop(), work))
            it = Interp(self, ctx)
            STATS.paths += 1
            if DEBUG:
                t1 = time.time()
            try:
                if self.run_path(it, c, cls, node):
                    ret += 1
            except PathEnd:
                pass
            except TooMany:
                raise
            except Unsupported as e:
                # final only if nothing more is learnt about the loops in this pass
                self.pending = self.pending or e
                if DEBUG:
                    print("      unsupported:", e)
            if DEBUG:
                print("   path", n, len(work), "%.2f" % (time.time() - t1), ctx.trace[:40], flush=True)
        return ret, n

    def run_path(self, it, c, cls, node):
        ctx = it.ctx
        top = Frame(None, c.target.split(":")[0], cls)
        if c.closure is not None:
            top = Frame(top, top.module, cls)
            for n, t in c.closure.items():
                top.vars[n] = t(it) if callable(t) else it.fresh(t, n)
        f = FuncVal(node, top, cls=None if c.closure is not None else cls, qual=c.target)
        if c.closure is not None:
            top.vars[node.name] = f
            # functions defined next to it
            parent = c.target.rsplit(".", 1)[0]
            outer = self.world.find_function(parent)
            for x in outer[1].body if outer else ():
                if isinstance(x, ast.FunctionDef) and x.name not in top.vars:
                    top.vars[x.name] = FuncVal(x, top, cls=None, qual=f"{parent}.{x.name}")
            cls = None
        decs = [decname(d) for d in node.decorator_list]
        names = [a.arg for a in node.args.args + node.args.kwonlyargs]
        a = NS()
        if "classmethod" in decs and names:
            a[names[0]] = cls
        elif cls is not None and "staticmethod" not in decs and names:
            sc = self.world.classes[c.selfcls] if c.selfcls else cls
            o = SObj(sc, it.birth(), lazy=c.setup is None, exact=sc.name not in self.spec.ABSTRACT)
            a[names[0]] = o
        for p, t in c.args.items():
            if p in a:
                continue
            a[p] = it.fresh(t, p)
        for n in c.closure or ():
            a[n] = top.vars[n]
        if c.setup:
            c.setup(it, a)
        for p in c.args:
            v = a.get(p)
            if isinstance(v, SList) and c.args[p] == ("list", "line"):
                pass
        it.entry = [(k, v) for k, v in a.items() if not isinstance(v, ClassVal)]
        if c.requires:
            for _, g in c.requires(it, a):
                self.assume(it, g)
        it.plain = c.plain
        if c.scan:
            it.scan = c.scan(it, a)
        old = NS(c.pre(it, a)) if c.pre else NS()
        limit = it.limit = ctx.created
        it.writes = []
        if c.scan:
            it.entryctx = Ctx(None)
            it.entryctx.inherit(ctx)
        pos = [x.arg for x in node.args.args]
        args = [a[n] for n in pos if n in a]
        if any(n not in a for n in pos[:len(args)]):
            args, kw = [], {k: v for k, v in a.items() if k in names}
        else:
            kw = {k: v for k, v in a.items() if k not in pos and k in names}
        if node.args.kwarg and "**" in c.args:
            kw.update(a["**"].d)
        if "*" in a:
            it.star[node] = (a["*"], a["**"])
        try:
            r = it.inline(f, args, kw) if not c.view else self.run_view(it, c, f, args, kw, a)
        except PyExc as e:
            if e.name in c.raises or any(it.exc_is(e, ExtClass(x)) for x in c.raises):
                if c.exceptional:
                    for nm, g in c.exceptional(it, a, old, e.name):
                        self.emit(it, f"{nm} (exceptional {e.name})", g)
                return False
            self.fail(it, f"no undeclared exception ({e.name})", str(e))
            return False
        if isinstance(r, HavocVar):
            raise Unsupported("havoc")
        if c.result is not None and not callable(c.result) and c.wf:
            n = len(self.obl)
            self.conform(it, r, c.result, "result")
            if len(self.obl) == n:
                self.obl.append(Obligation("result has the declared type", "proved"))
        if c.ensures:
            for nm, g in c.ensures(it, a, r, old):
                self.emit(it, nm, g)
        if c.modifies is not None:
            ok = set()
            for m in c.modifies:
                _reach(a[m], ok)
            for o, fld in it.writes:
                if isinstance(o, ClassVal) or getattr(o, "birth", 0) <= limit and id(o) not in ok:
                    if isinstance(o, SObj) and o.tag == "elem" and c.modifies:
                        continue
                    self.fail(it, "frame", f"writes {fld or 'contents'} of {o!r}"[:300])
                    break
            else:
                self.obl.append(Obligation("frame", "proved"))
        return True


def _reach(v, out):
    if isinstance(v, (SObj, SList, SDict)):
        if id(v) in out:
            return
        out.add(id(v))
        if isinstance(v, SObj):
            for x in v.f.values():
                _reach(x, out)
        elif isinstance(v, SList):
            for k, x in v.chunks:
                if k == "e":
                    _reach(x, out)
        else:
            for x in v.d.values():
                _reach(x, out)
    elif isinstance(v, tuple):
        for x in v:
            _reach(x, out)


def _shape(it, v, t):
    if t is None or t in ("any", "opaque", "context") or isinstance(t, str) and t.startswith("opaque:"):
        return True
    if t in ("str", "line"):
        return is_str(v)
    if t in ("int", "nat"):
        return is_int(v)
    if t == "bool":
        return is_bool(v)
    if t == "none":
        return v is None
    k = t[0]
    if k == "opt":
        return v is None or _shape(it, v, t[1])
    if k == "list":
        return isinstance(v, SList)
    if k == "tuple":
        return isinstance(v, tuple) and len(v) == len(t[1])
    if k == "obj":
        return isinstance(v, SObj) and any(c.name == t[1] for c in v.cls.mro())
    if k == "enum":
        return isinstance(v, EnumVal)
    if k == "union":
        return any(_shape(it, v, x) for x in t[1])
    return True


def _assigned(node):
    from .interp import assigned_names
    return assigned_names(node.body)


def _zs(e):
    try:
        s = e.as_string()
    except Exception:  # noqa: BLE001
        return ""
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
