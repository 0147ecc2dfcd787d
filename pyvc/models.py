"""Models of Python's built-in operations on symbolic values (the trusted semantics of the language and its library).

Each model over-approximates the real operation: it may allow more results than CPython, never fewer.
tests/crosscheck.py compares them with CPython on concrete values.
"""
import ast
import re
import re._parser as rp
from re._constants import (ANY, ASSERT, ASSERT_NOT, AT, AT_BEGINNING, AT_BEGINNING_STRING, AT_END, AT_END_STRING,
                           BRANCH, CATEGORY, GROUPREF, GROUPREF_EXISTS, IN, LITERAL, MAX_REPEAT, MAXREPEAT, MIN_REPEAT,
                           NEGATE, NOT_LITERAL, POSSESSIVE_REPEAT, RANGE, SUBPATTERN)

import z3

from .core import enc, PathEnd, SStr, Unsupported, _parts, is_bool, is_int, is_str, keep, mkstr, simp, zbool, zint, zstr
from .values import *  # noqa: F401,F403
from .values import UNDEF

LIST_METHODS = {"append", "insert", "extend", "pop", "copy", "index", "remove", "reverse", "sort", "count", "clear"}
MODULES = {"re", "copy", "collections", "itertools", "os", "sys", "datetime", "rpm", "string", "urllib", "logging",
           "contextlib", "tempfile", "subprocess", "shutil", "types", "operator", "getpass", "pwd", "locale", "random",
           "math", "functools", "json", "ast", "inspect", "threading", "weakref", "uuid"}


class ExcVal:
    def __init__(self, cls, args):
        self.cls = cls
        self.args = args


class DictView:
    def __init__(self, o):
        self.o = o


class Memo:
    pass


class EnvVal:
    """os.environ (or a copy of it): an arbitrary mapping of strings to strings"""

    def __init__(self, init=None, cur=None):
        self.init = {} if init is None else init
        self.cur = {} if cur is None else cur

    def look(self, it, k):
        if not isinstance(k, str):
            raise Unsupported("unknown name of an environment variable")
        if k in self.cur:
            return self.cur[k]
        if k not in self.init:
            self.init[k] = None if it.ctx.choice(2, f"${k}?none") == 0 else it.fresh("str", k)
        return self.init[k]

    def get(self, it, k):
        v = self.look(it, k)
        if v is None:
            raise PyExc("KeyError")
        return v

    def set(self, it, k, v):
        self.look(it, k)
        if not is_str(v):
            raise PyExc("TypeError")
        self.cur[k] = v

    def delete(self, it, k):
        self.get(it, k)
        self.cur[k] = None

    def method(self, it, fn, a, kw):
        if fn == "copy":
            return EnvVal(self.init, dict(self.cur))
        if fn == "get":
            v = self.look(it, a[0])
            return (a[1] if len(a) > 1 else None) if v is None else v
        if fn == "setdefault":
            v = self.look(it, a[0])
            if v is None:
                self.set(it, a[0], a[1])
                return a[1]
            return v
        if fn == "pop":
            v = self.look(it, a[0])
            if v is None:
                if len(a) > 1:
                    return a[1]
                raise PyExc("KeyError")
            self.cur[a[0]] = None
            return v
        if fn == "update":
            for x in a:
                if isinstance(x, EnvVal) and x.init is self.init:
                    # variables that are not in x stay
                    for k in list(self.cur):
                        v = x.look(it, k)
                        if v is not None:
                            self.cur[k] = v
                elif isinstance(x, SDict):
                    for k, v in x.d.items():
                        self.set(it, k, v)
                else:
                    raise Unsupported("update of the environment")
            for k, v in kw.items():
                self.set(it, k, v)
            return None
        raise Unsupported(f"os.environ.{fn}")


def environ(it):
    if "env" not in it.ctx.hints:
        it.ctx.hints["env"] = EnvVal()
    return it.ctx.hints["env"]


def external(module, name):
    if name in ("TYPE_CHECKING",):
        return False
    if module in ("typing", "typing_extensions"):
        return Builtin("typing." + name) if name in ("cast",) else ExtClass(name)
    if name[0].isupper():
        return ExtClass(name)
    return Builtin(f"{module}.{name}")


def module_attr(it, mod, name):
    n = mod.name
    if n == "re" and name.isupper():
        return int(getattr(re, name))
    if n == "string" and isinstance(getattr(__import__("string"), name, None), str):
        return getattr(__import__("string"), name)
    if n == "collections" and name == "abc":
        return ModVal("collections.abc")
    if n == "datetime" and name in ("date", "datetime", "timezone", "timedelta"):
        return ExtClass("datetime." + name)
    if n == "rpm" and name == "error":
        return ExtClass("rpm.error")
    if n == "os" and name == "environ":
        return environ(it)
    if n == "os" and name == "path":
        return ModVal("os.path")
    if name[0].isupper():
        return ExtClass(name)
    return Builtin(f"{n}.{name}")


def value_attr(it, o, name, default):
    if is_str(o):
        return Builtin("str." + name, o)
    if isinstance(o, SList):
        return Builtin("list." + name, o)
    if isinstance(o, tuple):
        return Builtin("tuple." + name, o)
    if isinstance(o, (SDict, ConstColl)):
        return Builtin("dict." + name, o)
    if isinstance(o, SRegex):
        if name == "pattern":
            return o.pattern
        return Builtin("regex." + name, o)
    if isinstance(o, SMatch):
        return Builtin("smatch." + name, o)
    if isinstance(o, External):
        return o.m_attr(it, name, default)
    if isinstance(o, Opaque):
        return it.e.spec.opaque_attr(it, o, name, default)
    if isinstance(o, Builtin) and o.name in ("str", "dict", "list", "object", "int"):
        return Builtin(o.name + "." + name, None)
    if isinstance(o, ExtClass):
        return Builtin(o.name + "." + name, None)
    if isinstance(o, DictView):
        return Builtin("dictview." + name, o)
    if isinstance(o, EnvVal):
        return Builtin("env." + name, o)
    if isinstance(o, Bound):
        return it.getattr(o.func, name, default)
    if isinstance(o, PyExc):
        return it.ctx.fresh_str(name)
    if is_int(o) and default is not UNDEF:
        return default
    if o is None:
        if default is not UNDEF:
            return default
        raise PyExc("AttributeError", name)
    raise Unsupported(f"attribute {name} of {o!r}")


# ---- conversions ---------------------------------------------------------------
def to_str(it, v):
    if is_str(v):
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, z3.ArithRef):
        h = it.ctx.hints
        k = ("istr", keep(simp(v)))
        if k not in h:
            a = it.ctx.fresh_atom("istr")
            h[k] = a
            h[("sint", a.get_id())] = v
            it.ctx.nonl.add(a.get_id())
            it.ctx.nonempty.add(a.get_id())
            it.ctx.assume(z3.Length(a) >= 1)
            if it.ctx.known(v >= 0):
                it.ctx.digits.add(a.get_id())
        return mkstr(h[k])
    if isinstance(v, SObj):
        m = it.classattr(v.cls, "__str__")
        if m is not UNDEF:
            return it.call(Bound(m, v), [], {})
        s = abstract_str(it, v)
        return s if s is not None else it.ctx.fresh_str("str")
    if isinstance(v, (EnumVal, Opaque, PyExc, z3.BoolRef, SList, tuple, SDict, ClassVal, ExcVal)):
        return it.ctx.fresh_str("str")
    raise Unsupported(f"str of {v!r}")


def abstract_str(it, v):
    """str() of an object of an unknown subclass: the contracts of all the subclasses say it is the text of the object"""
    if v.exact or v.cls.name not in it.e.spec.ABSTRACT:
        return None
    used = []
    for c in it.world.classes.values():
        if v.cls in c.mro() and c is not v.cls:
            d, node = it.findattr(c, "__str__")
            q = f"{d.module}:{d.name}.__str__" if d is not None else None
            if q not in it.e.contracts:
                return None
            used.append(q)
    if not used:
        return None
    it.e.used.update(used)
    return it.e.spec.objview(it, v, "cat")


def format_value(it, v, spec):
    if isinstance(v, External):
        return v.m_format(it, spec)
    if spec == "":
        return to_str(it, v)
    if isinstance(v, (int, str)) and isinstance(spec, str):
        return format(v, spec)
    k = ("fmt", keep(simp(v)), spec) if isinstance(v, z3.ArithRef) and isinstance(spec, str) else None
    if k is not None and k in it.ctx.hints:
        return it.ctx.hints[k]
    s = it.ctx.fresh_str("fmt")
    it.ctx.set_nonl(s)
    if k is not None:
        it.ctx.hints[k] = s
    return s


def to_int(it, v):
    ctx = it.ctx
    if is_int(v):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyExc("ValueError")
    if isinstance(v, SStr):
        s = ctx.norm(v)
        if isinstance(s, str):
            return to_int(it, s)
        if len(s.parts) == 1:
            k = ("sint", s.parts[0].get_id())
            if k in ctx.hints:
                return ctx.hints[k]
            if s.parts[0].get_id() in ctx.digits:
                i = ctx.fresh_int("int")
                ctx.assume(i >= 0)
                ctx.hints[k] = i
                return i
        if ctx.choice(2, "int()") == 0:
            i = ctx.fresh_int("int")
            if len(s.parts) == 1:
                ctx.hints[("sint", s.parts[0].get_id())] = i
            return i
        raise PyExc("ValueError")
    if v is None:
        raise PyExc("TypeError")
    raise Unsupported(f"int of {v!r}")


def mapseg(it, seg, et, same=("text", "cat")):
    """a new segment with the same length and the given views equal to seg's"""
    n = it.newseg(et, it.ctx.segfacts.get(seg.id, ()) if same else ())
    it.ctx.assume(it.seglen(n) == it.seglen(seg))
    for name in same:
        it.ctx.assume_eq(it.cview([("s", n)], name), it.cview([("s", seg)], name))
    return n


def chars(it, s):
    s = it.ctx.norm(s)
    if isinstance(s, str):
        return it.mklist(list(s))
    seg = it.newseg("str", ("char",) + (("nonl",) if it.ctx.is_nonl(s) else ()))
    it.ctx.assume_eq(it.cview([("s", seg)], "cat"), s)
    it.ctx.assume(it.seglen(seg) == zint(it.ctx.slen(s)))
    return it.mkchunks([("s", seg)])


def to_list(it, v):
    if isinstance(v, External):
        return v.m_list(it)
    if isinstance(v, SList):
        return it.mkchunks(it.chunks(v))
    if isinstance(v, tuple):
        return it.mklist(v)
    if is_str(v):
        return chars(it, v)
    if isinstance(v, GenExp):
        return comprehension(it, v.node, v.fr)
    if isinstance(v, SObj):
        if it.is_userlist(v.cls):
            return it.mkchunks(it.chunks(it.getattr(v, "data")))
        m = it.classattr(v.cls, "__iter__")
        if m is not UNDEF:
            return to_list(it, it.call(Bound(m, v), [], {}))
        raise Unsupported(f"list of {v.cls.name}")
    if isinstance(v, IterVal):
        k = v.kind
        if k == "list":
            return it.mkchunks(it.chunks(v.args[0]))
        if k == "reversed":
            L = to_list(it, v.args[0])
            if all(c[0] == "e" for c in L.chunks):
                return it.mkchunks(L.chunks[::-1])
            out = []
            for c, x in reversed(it.chunks(L)):
                out.append((c, x) if c == "e" else ("s", revseg(it, x)))
            return it.mkchunks(out)
        if k == "enumerate":
            L = to_list(it, v.args[0])
            start = v.args[1]
            out = []
            off = start
            for c, x in it.chunks(L):
                if c == "e":
                    out.append(("e", (off, x)))
                    off = off + 1
                else:
                    n = mapseg(it, x, ("tuple", ("nat", x.et)))
                    out.append(("s", n))
                    off = off + it.seglen(x)
            r = it.mkchunks(out)
            # what is enumerated, as long as nothing is changed
            r.enumof = (L, start, tuple(r.chunks), v.args[0])
            return r
        if k == "range":
            lo, hi = v.args
            if isinstance(lo, int) and isinstance(hi, int):
                return it.mklist(list(range(lo, hi)))
            seg = it.newseg("nat")
            return it.mkchunks([("s", seg)])
        if k == "dropwhile":
            pred, L = v.args
            L = to_list(it, L)
            out = list(it.chunks(L))
            while out:
                c, x = out[0]
                if c == "e":
                    if it.truth(it.call(pred, [x], {})):
                        out.pop(0)
                        continue
                    return it.mkchunks(out)
                # a segment: some prefix is dropped
                a = it.newseg(x.et)
                if it.ctx.choice(2, "dropwhile") == 0:
                    it.segdef(x, [("s", a)])
                    it.e.spec.dropped(it, a, pred)
                    out.pop(0)
                    continue
                b = it.newseg(x.et)
                y = it.fresh(x.et, "x")
                it.segdef(x, [("s", a), ("e", y), ("s", b)])
                if it.truth(it.call(pred, [y], {})):
                    raise PathEnd("dropwhile")
                it.e.spec.dropped(it, a, pred)
                return it.mkchunks([("e", y), ("s", b)] + out[1:])
            return it.mklist()
        if k == "map":
            f, L = v.args
            L = to_list(it, L)
            if all(c[0] == "e" for c in it.chunks(L)):
                return it.mklist([it.call(f, [x], {}) for _, x in L.chunks])
        if k in ("keys", "values", "items"):
            d = v.args[0].d
            if k == "keys":
                return it.mklist(list(d))
            if k == "values":
                return it.mklist(list(d.values()))
            return it.mklist(list(d.items()))
        if k == "zip":
            Ls = [to_list(it, x) for x in v.args]
            if all(c[0] == "e" for L in Ls for c in it.chunks(L)):
                return it.mklist(list(zip(*[[x for _, x in L.chunks] for L in Ls])))
            ets = []
            for L in Ls:
                t = typeof(L)
                ets.append(t[1])
            return it.mkchunks([("s", it.newseg(("tuple", tuple(ets))))])
        if k == "chain":
            out = []
            for x in v.args:
                out += it.chunks(to_list(it, x))
            return it.mkchunks(out)
        if k == "unzip":
            L = v.args[0]
            ch = it.chunks(L)
            if all(c[0] == "e" for c in ch):
                return it.mklist([it_tuple(it, col) for col in zip(*[x for _, x in ch])])
            raise Unsupported("zip(*) of unknown length")
        if k == "generator":
            raise Unsupported("generator")
    if isinstance(v, ConstColl):
        if isinstance(v.v, (list, tuple)):
            return it.mklist([x for x in v.v])
        if isinstance(v.v, dict):
            return it.mklist(list(v.v))
        return it.mkchunks([("s", it.newseg("line"))])
    if isinstance(v, SDict):
        return it.mklist(list(v.d))
    if isinstance(v, Opaque):
        return it.e.spec.opaque_list(it, v)
    if v is None:
        raise PyExc("TypeError")
    raise Unsupported(f"list of {v!r}")


def it_tuple(it, col):
    return tuple(col)


def revseg(it, seg):
    n = it.newseg(seg.et, it.ctx.segfacts.get(seg.id, ()))
    it.ctx.assume(it.seglen(n) == it.seglen(seg))
    for a, b in (("rtext", "text"), ("text", "rtext")):
        it.ctx.assume_eq(it.cview([("s", n)], a), it.cview([("s", seg)], b))
    if seg.et in ("str", "line"):
        for a, b in (("rnb", "nb"), ("nb", "rnb")):
            it.ctx.assume_eq(it.cview([("s", n)], a), it.cview([("s", seg)], b))
    return n


# ---- iteration -------------------------------------------------------------------
class ListSource:
    def __init__(self, it, L, rev=False, enum=None):
        self.live = L
        self.all = list(it.chunks(L))
        self.rev = rev
        self.enum = enum
        self.done = self.rest = None
        self.x = None
        self.origin = L

    def concrete(self):
        return all(k == "e" for k, _ in self.all)

    def values(self, it):
        vs = [v for _, v in self.all]
        if self.enum is not None:
            vs = [(self.enum + i, v) for i, v in enumerate(vs)]
        return reversed(vs) if self.rev else vs

    def begin(self, it, step):
        if not step:
            self.x = None
            self.rest = []
            return None
        al = it.expand(self.all)
        # which chunk holds the current element
        i = it.ctx.choice(len(al), "chunk")
        k, v = al[i]
        if k == "e":
            self.before, self.after, x = al[:i], al[i + 1:], v
        else:
            a, b = it.newseg(v.et), it.newseg(v.et)
            x = it.fresh(v.et, "x")
            it.marked(x)
            it.segdef(v, [("s", a), ("e", x), ("s", b)])
            self.before, self.after = al[:i] + [("s", a)], [("s", b)] + al[i + 1:]
        self.x = ("e", x)
        if self.rev:
            self.head, self.rest = self.before + [self.x], self.before
        else:
            self.head, self.rest = [self.x] + self.after, self.after
        if self.enum is not None:
            return (self.enum + it.chunklen(self.before), x)
        return x

    def finish(self, it):
        pass

    def count(self, it, when):
        """number of elements that were visited (from the front)"""
        if when == "init":
            return 0
        if when == "exit":
            return it.chunklen(self.all)
        n = it.chunklen(self.before)
        return n + 1 if when == "end" else n

    def visited(self, it, when):
        """the elements that were visited"""
        if when in ("init", "exit"):
            return [] if when == "init" else it.expand(self.all)
        if self.rev:
            return it.expand([self.x] + self.after if when == "end" else self.after)
        return it.expand(self.before + [self.x] if when == "end" else self.before)

    def carrier(self, it, when):
        ch = {"init": self.all, "exit": [], "end": self.rest, "head": getattr(self, "head", None)}[when]
        out = {}
        if it.plain:
            return out
        for name in ("text", "cat", "rtext", "rcat") if self.rev else ("text", "cat"):
            try:
                out[name] = it.cview(ch, name)
            except Unsupported:
                pass
        return out


class PairSource:
    """zip(L, L[1:]) of a list of integers"""
    def __init__(self, it, L, M):
        self.live = None
        self.first, self.rest = L[0][1], M
        self.cur = self.first
        self.lists = it.e.slice_lists(it)

    def concrete(self):
        return all(k == "e" for k, _ in self.rest)

    def values(self, it):
        xs = [self.first] + [x for _, x in self.rest]
        return list(zip(xs, xs[1:]))

    def begin(self, it, step):
        al = it.expand(self.rest)
        if not step:
            L = it.mkchunks([("e", self.first)] + al)
            it.back(L)
            self.cur = it.chunks(L)[-1][1]
            return None
        i = it.ctx.choice(len(al), "chunk")
        k, v = al[i]
        if k == "e":
            prev, y = al[:i], v
        else:
            a, b = it.newseg(v.et), it.newseg(v.et)
            y = it.fresh(v.et, "x")
            it.segdef(v, [("s", a), ("e", y), ("s", b)])
            prev = al[:i] + [("s", a)]
        L = it.mkchunks([("e", self.first)] + prev)
        it.back(L)
        self.cur, self.next = it.chunks(L)[-1][1], y
        return (self.cur, y)

    def finish(self, it):
        pass

    def carrier(self, it, when):
        i = self.next if when == "end" else self.cur
        out = {}
        for n, L in self.lists:
            for k, v in it.chunks(L):
                if k == "s" and it.ctx.known(it.seglen(v) == 0):
                    it.segdef(v, [])
            ln = zint(it.chunklen(L.chunks))
            if it.ctx.known(z3.And(zint(i) >= 0, zint(i) <= ln)):
                _, tail, _ = it.slice(L, i, None)
                out["text from " + n] = it.cview(tail, "text")
        return out


class RangeSource:
    def __init__(self, it, lo, hi, rev=False):
        self.lo, self.hi, self.rev = lo, hi, rev

    def concrete(self):
        return isinstance(self.lo, int) and isinstance(self.hi, int) and self.hi - self.lo < 50

    def values(self, it):
        r = range(self.lo, self.hi)
        return reversed(r) if self.rev else r

    def begin(self, it, step):
        if step:
            x = it.ctx.fresh_int("x")
            it.ctx.assume(z3.And(zint(self.lo) <= x, x < zint(self.hi)))
            return x

    def finish(self, it):
        pass

    def carrier(self, it, when):
        return {}


class AbsSource:
    """an arbitrary number of arbitrary elements"""

    def __init__(self, make):
        self.make = make

    def concrete(self):
        return False

    def begin(self, it, step):
        if step:
            return self.make(it)

    def finish(self, it):
        pass

    def carrier(self, it, when):
        return {}


def iter_source(it, v):
    if isinstance(v, IterVal):
        if v.kind == "range":
            return RangeSource(it, *v.args)
        if v.kind == "reversed":
            inner = v.args[0]
            if isinstance(inner, IterVal) and inner.kind == "range":
                return RangeSource(it, *inner.args, rev=True)
            if isinstance(inner, IterVal) and inner.kind == "enumerate":
                return ListSource(it, to_list(it, inner.args[0]), True, inner.args[1])
            if isinstance(inner, SList) and inner.enumof is not None and inner.enumof[2] == tuple(inner.chunks):
                s = ListSource(it, inner.enumof[0], True, inner.enumof[1])
                s.origin = inner.enumof[3]
                return s
            return ListSource(it, as_list(it, inner), True)
        if v.kind == "enumerate":
            inner = v.args[0]
            if isinstance(inner, IterVal) and inner.kind in ("range", "zip"):
                return ListSource(it, to_list(it, v))
            return ListSource(it, as_list(it, inner), False, v.args[1])
        if v.kind == "zip" and len(v.args) == 2 and all(isinstance(x, SList) for x in v.args):
            A, B = (it.chunks(x) for x in v.args)
            if A and A[0][0] == "e" and is_int(A[0][1]) and len(A) == len(B) + 1 and all(
                    k == kk and x is y for (k, x), (kk, y) in zip(A[1:], B)):
                return PairSource(it, A, B)
    if isinstance(v, (ConstColl, AbsColl)):
        return AbsSource(lambda it: coll_elem(it, v))
    if isinstance(v, SList) and v.enumof is not None and v.enumof[2] == tuple(v.chunks):
        s = ListSource(it, v.enumof[0], False, v.enumof[1])
        s.origin = v.enumof[3]
        return s
    return ListSource(it, as_list(it, v))


def as_list(it, v):
    if isinstance(v, SList):
        return v
    if isinstance(v, SObj) and it.is_userlist(v.cls) and it.classattr(v.cls, "__iter__") is UNDEF:
        return it.getattr(v, "data")
    return to_list(it, v)


def coll_elem(it, v):
    """an arbitrary element of a constant collection"""
    if isinstance(v, AbsColl):
        return v.make(it)
    c = v.v
    if isinstance(c, (dict, set, frozenset, list, tuple)):
        xs = sorted(c, key=str) if not isinstance(c, (list, tuple)) else list(c)
        if not xs:
            raise PathEnd("empty")
        if len(xs) <= 4:
            return xs[it.ctx.choice(len(xs), "elem")]
        if all(isinstance(x, str) for x in xs):
            s = it.ctx.fresh_str("elem")
            it.ctx.hints[("elem", s.parts[0].get_id())] = frozenset(xs)
            if not any("\n" in x for x in xs):
                it.ctx.set_nonl(s)
            if all(xs):
                it.ctx.nonempty.add(s.parts[0].get_id())
                it.ctx.assume(it.ctx.slen(s) >= 1)
            return s
    raise Unsupported("element of a constant collection")


def const_member(it, coll, x):
    c = coll.v
    x = it.ctx.norm(x)
    if len(_parts(x)) == 1:
        h = it.ctx.hints.get(("elem", _parts(x)[0].get_id()))
        if h is not None:
            common = h & set(c)
            if not common:
                return False
            if h <= set(c):
                return True
            k = ("member", _parts(x)[0].get_id(), id(c))
            if k not in it.ctx.hints:
                it.ctx.hints[k] = it.ctx.fresh_bool("member")
            return it.ctx.hints[k]
    xs = [y for y in c if isinstance(y, str)]
    if len(xs) > 12:
        k = ("member", _key(x), id(c))
        if k not in it.ctx.hints:
            it.ctx.hints[k] = it.ctx.fresh_bool("member")
        return it.ctx.hints[k]
    return z3.Or(*[zstr(x) == zstr(y) for y in sorted(xs)]) if xs else False


def const_getitem(it, o, i):
    c = o.v
    if isinstance(c, dict) and isinstance(i, (str, int)):
        if i in c:
            from .interp import wrap_const
            return wrap_const(c[i])
        raise PyExc("KeyError")
    if isinstance(c, dict) and is_str(i):
        for k in c:
            if it.ctx.decide_eq(i, k):
                from .interp import wrap_const
                return wrap_const(c[k])
        raise PyExc("KeyError")
    if isinstance(c, (list, tuple)):
        from .interp import wrap_const
        return it.getitem(tuple(wrap_const(x) for x in c), i)
    raise Unsupported("constant subscript")


def range_getitem(it, o, i):
    lo, hi = o.args
    if isinstance(i, SliceVal):
        # indices selected by a slice
        if i.step in (None, 1) and lo == 0:
            return IterVal("rangeslice", hi, i.lo, i.hi)
        return IterVal("absrange", lo, hi)
    if not is_int(i):
        raise Unsupported("range index")
    n = zint(hi) - zint(lo)
    ctx = it.ctx
    if isinstance(i, int) and isinstance(lo, int) and isinstance(hi, int):
        try:
            return range(lo, hi)[i]
        except IndexError:
            raise PyExc("IndexError")
    if ctx.branch(zint(i) >= 0):
        if not ctx.branch(zint(i) < n):
            raise PyExc("IndexError")
        return lo + i if not (isinstance(lo, int) and lo == 0) else i
    if not ctx.branch(zint(i) + n >= 0):
        raise PyExc("IndexError")
    return simp(zint(hi) + zint(i))


# ---- comprehensions ----------------------------------------------------------------
def _free_names(node):
    bound = {n.id for g in node.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)} - bound


def comprehension(it, node, fr):
    if isinstance(node, ast.DictComp):
        raise Unsupported("dict comprehension")
    gens = node.generators
    inner = Frame(fr, fr.module, fr.cls, fr.func, fr.site)
    src = it.ev(gens[0].iter, fr)
    if len(gens) > 1:
        L = to_list(it, src)
        if any(k != "e" for k, _ in it.chunks(L)):
            raise Unsupported("nested comprehension")
        out = []
        for _, x in L.chunks:
            it.assign(gens[0].target, x, inner)
            if all(it.truth(it.ev(c, inner)) for c in gens[0].ifs):
                out += it.chunks(comprehension(it, ast.ListComp(node.elt, gens[1:]), inner))
        return it.mkchunks(out)
    g = gens[0]
    if isinstance(src, ConstColl) and not isinstance(src.v, (list, tuple)) or isinstance(src, AbsColl):
        def make(it):
            f2 = Frame(fr, fr.module, fr.cls, fr.func, fr.site)
            it.assign(g.target, coll_elem(it, src), f2)
            for c in g.ifs:
                if not it.truth(it.ev(c, f2)):
                    raise PathEnd("filtered")
            return it.ev(node.elt, f2)
        return AbsColl(make)
    if isinstance(src, GenExp):
        inner_coll = comprehension(it, src.node, src.fr)
        src = inner_coll
        if isinstance(src, AbsColl):
            def make2(it):
                f2 = Frame(fr, fr.module, fr.cls, fr.func, fr.site)
                it.assign(g.target, src.make(it), f2)
                for c in g.ifs:
                    if not it.truth(it.ev(c, f2)):
                        raise PathEnd("filtered")
                return it.ev(node.elt, f2)
            return AbsColl(make2)
    enum = None
    if isinstance(src, IterVal) and src.kind == "enumerate" and isinstance(src.args[1], int):
        L = as_list(it, src.args[0])
        enum = src.args[1]
    else:
        L = as_list(it, src)
    for nm in _free_names(node):
        f = it.lookup_frame(fr, nm)
        if f is not None:
            it.getvar(nm, fr)
    out = []
    off = enum
    for k, x in list(it.chunks(L)):
        if k == "e":
            it.assign(g.target, (off, x) if enum is not None else x, inner)
            if all(it.truth(it.ev(c, inner)) for c in g.ifs):
                out.append(("e", it.ev(node.elt, inner)))
            if enum is not None:
                off = off + 1
            continue
        if enum is not None:
            off = off + it.seglen(x)
        et, same, cross = generic_element(it, node, g, fr, x, enum is not None)
        n = it.newseg(et)
        if not g.ifs:
            it.ctx.assume(it.seglen(n) == it.seglen(x))
            for a, b in cross:
                if a == "lines":
                    if et in ("int", "nat"):
                        it.ctx.assume(zint(it.cview([("s", n)], a)) == zint(it.cview([("s", x)], b)))
                else:
                    it.ctx.assume_eq(it.cview([("s", n)], a), it.cview([("s", x)], b))
        else:
            it.ctx.assume(it.seglen(n) <= it.seglen(x))
        it.ctx.segfacts[n.id] = set(same)
        out.append(("s", n))
    return it.mkchunks(out)


def generic_element(it, node, g, fr, seg, enum):
    """explore the element expression for an arbitrary element of seg; returns the element type, facts about the
    results, and the pairs (view of result, view of element) that are equal on every path"""
    from .core import Ctx, Decisions
    ctx0 = it.ctx
    work = [[]]
    et = None
    pairs = None
    facts = None
    excs = {}
    saved = (it.ctx, it.writes, it.sub)
    n = 0
    try:
        while work:
            n += 1
            if n > 200:
                raise Unsupported("comprehension with too many paths")
            c = Ctx(Decisions(work.pop(), work))
            it.ctx = c
            it.writes = []
            it.sub = ctx0.created
            try:
                # facts about outer values are inherited
                c.inherit(ctx0)
                x = it.fresh(seg.et, "x")
                it.elemfacts(x, c.segfacts.get(seg.id, ()))
                before = {}
                for name in ("text", "cat", "lines"):
                    try:
                        before[name] = it.eview(x, name)
                    except Unsupported:
                        pass
                f2 = Frame(fr, fr.module, fr.cls, fr.func, fr.site)
                idx = None
                if enum:
                    idx = c.fresh_int("idx")
                    c.assume(idx >= 0)
                it.assign(g.target, (idx, x) if enum else x, f2)
                if not all(it.truth(it.ev(cc, f2)) for cc in g.ifs):
                    continue
                r = it.ev(node.elt, f2)
                for o, _f in it.writes:
                    if getattr(o, "birth", 0) <= ctx0.created:
                        raise Unsupported("comprehension with side effects")
                et = join(et, typeof(r))
                after = {}
                for name in ("text", "cat", "lines"):
                    try:
                        after[name] = it.eview(r, name)
                    except Unsupported:
                        pass
                ok = set()
                for a, va in after.items():
                    for b, vb in before.items():
                        if (a == "lines") != (b == "lines"):
                            continue
                        q = (va == vb if isinstance(va, int) and isinstance(vb, int) else zint(va) == zint(vb)) \
                            if a == "lines" else c.seq(va, vb)
                        if (pairs is None or (a, b) in pairs) and c.prove(q, 1500)[0] == "proved":
                            ok.add((a, b))
                pairs = ok if pairs is None else pairs & ok
                fs = {"nonl"} if is_str(r) and c.is_nonl(r) else set()
                facts = fs if facts is None else facts & fs
            except PathEnd:
                continue
            except PyExc as e:
                excs.setdefault(e.name, e)
            finally:
                ctx0.counter = max(ctx0.counter, c.counter)
                ctx0.created = max(ctx0.created, c.created)
    finally:
        it.ctx, it.writes, it.sub = saved
    if excs:
        # some element may raise, unless there is none
        i = ctx0.choice(1 + len(excs), "element raises")
        if i:
            raise excs[sorted(excs)[i - 1]]
    if et is None:
        et = "str"
    return et, facts or (), sorted(pairs or ())


def gen_first(it, gen, default):
    """next(generator expression, default): the first element passing the filter"""
    node, fr = gen.node, gen.fr
    g = node.generators[0]
    if len(node.generators) > 1:
        raise Unsupported("nested generator")
    src = it.ev(g.iter, fr)
    if isinstance(src, GenExp):
        c = comprehension(it, src.node, src.fr)
        src = c
    inner = Frame(fr, fr.module, fr.cls, fr.func, fr.site)

    def elem(x):
        it.assign(g.target, x, inner)
        for c in g.ifs:
            if not it.truth(it.ev(c, inner)):
                return None
        return (it.ev(node.elt, inner),)

    if isinstance(src, IterVal) and src.kind == "subclasses":
        src = it.mklist(src.args[0])
    s = iter_source(it, src)
    if s.concrete():
        for x in s.values(it):
            r = elem(x)
            if r is not None:
                return r[0]
        return gen_default(default)
    def skip(chunks, base):
        """the known elements among those passed over do not satisfy the filter"""
        for i, (k, x) in enumerate(chunks):
            if k == "e":
                if s.enum is not None:
                    if base is None:
                        continue
                    x = (s.enum + it.chunklen(chunks[:i]), x)
                if elem(x) is not None:
                    raise PathEnd("an earlier element passes the filter")

    if it.ctx.choice(2, "next") == 0:
        x = s.begin(it, True)
        r = elem(x)
        if r is None:
            raise PathEnd("filtered")
        if isinstance(s, ListSource):
            skip(s.after if s.rev else s.before, None if s.rev else 0)
            scan_first(it, node, fr, s, s.after if s.rev else s.before)
        it.e.spec.first_found(it, s, elem)
        return r[0]
    if isinstance(s, ListSource):
        skip(it.expand(s.all), 0)
        scan_first(it, node, fr, s, s.all)
    if isinstance(s, ListSource) and not g.ifs:
        # nothing found: the list is empty
        if it.list_truth(s.live):
            raise PathEnd("not empty")
    return gen_default(default)


def scan_first(it, node, fr, s, passed):
    """elements of a list that were passed over do not satisfy predicates of the contract that imply the filter"""
    if not it.scan or s.origin is not it.scan.get("list"):
        return
    g = node.generators[0]
    ets = {x.et for k, x in it.expand(passed) if k == "s"}
    for key in it.scan["preds"].values():
        if all(implies_filter(it, g, fr, et, key, s.enum is not None) for et in ets):
            it.assume_none(passed, key)


def implies_filter(it, g, fr, et, key, enum):
    """does the predicate imply the filter for an arbitrary element, on every path of its evaluation?"""
    # by the facts at the entry of the function, which need to be looked at only once
    k = [id(g), key, et, enum]
    for name in sorted({x.id for c in g.ifs for x in ast.walk(c) if isinstance(x, ast.Name)}):
        f = it.lookup_frame(fr, name)
        v = f.vars.get(name) if f is not None else None
        k.append(keep(zstr(it.ctx.norm(v))) if is_str(v) else id(v.node) if isinstance(v, FuncVal) else None)
    k = tuple(k)
    cache = it.e.implied
    if k not in cache:
        cache[k] = implies_filter_(it, g, fr, et, key, enum, it.entryctx)
    return cache[k] or implies_filter_(it, g, fr, et, key, enum, it.ctx)


def implies_filter_(it, g, fr, et, key, enum, base):
    from .core import Ctx, Decisions
    ctx0 = it.ctx
    work, n = [[]], 0
    saved = (it.ctx, it.writes, it.sub)
    try:
        while work:
            n += 1
            if n > 200:
                return False
            c = Ctx(Decisions(work.pop(), work))
            c.inherit(base)
            c.preds = ctx0.preds
            c.counter, c.created = ctx0.counter, ctx0.created
            it.ctx, it.writes, it.sub = c, [], ctx0.created
            try:
                x = it.fresh(et, "x")
                f2 = Frame(fr, fr.module, fr.cls, fr.func, fr.site)
                idx = c.fresh_int("idx")
                it.assign(g.target, (idx, x) if enum else x, f2)
                ok = all(it.truth(it.ev(cc, f2)) for cc in g.ifs)
                if not ok and c.prove(z3.Not(it.satisfies(key, x)), 1500)[0] != "proved":
                    return False
            except PathEnd:
                continue
            except PyExc:
                return False
            finally:
                ctx0.counter = max(ctx0.counter, c.counter)
                ctx0.created = max(ctx0.created, c.created)
    finally:
        it.ctx, it.writes, it.sub = saved
    return True


def gen_default(default):
    if default is UNDEF:
        raise PyExc("StopIteration")
    return default


def scan_any(it, node, fr):
    """any(condition on x for x in L) for a list that the contract has predicates about"""
    g = node.generators[0]
    if len(node.generators) > 1 or g.ifs or not isinstance(g.iter, ast.Name):
        return None
    L = it.ev(g.iter, fr)
    if L is not it.scan.get("list") or all(k == "e" for k, _ in it.chunks(L)):
        return None
    if it.ctx.choice(2, "any"):
        return True
    # no element satisfies the condition: neither does one satisfy a stronger predicate
    n = len(it.ctx.dec.taken)
    et = next(x.et for k, x in it.chunks(L) if k == "s")
    x = it.fresh(et, "x")
    f = Frame(fr, fr.module, fr.cls, fr.func, fr.site)
    it.assign(g.target, x, f)
    c = it.ev(node.elt, f)
    if isinstance(c, z3.BoolRef):
        for key in it.scan["preds"].values():
            p = it.satisfies(key, x)
            if len(it.ctx.dec.taken) == n and it.ctx.known(z3.Implies(p, c)):
                it.assume_none(it.chunks(L), key)
    return False


def gen_any(it, gen, what):
    if isinstance(gen, GenExp):
        node, fr = gen.node, gen.fr
        if it.scan and what == "any":
            r = scan_any(it, node, fr)
            if r is not None:
                return r
        c = comprehension_lazy(it, node, fr)
    else:
        c = gen
    if isinstance(c, AbsColl) or isinstance(c, ConstColl):
        # some element decides, or none does
        if it.ctx.choice(2, what) == 0:
            if it.truth(coll_elem(it, c)) == (what == "any"):
                return what == "any"
            raise PathEnd("other element")
        return what != "any"
    if isinstance(c, tuple) and c and c[0] == "lazy":
        for th in c[1]:
            if it.truth(th()) == (what == "any"):
                return what == "any"
        return what != "any"
    L = as_list(it, c)
    ch = it.chunks(L)
    if all(k == "e" for k, _ in ch):
        for _, x in ch:
            if it.truth(x) == (what == "any"):
                return what == "any"
        return what != "any"
    return it.ctx.fresh_bool(what)


def comprehension_lazy(it, node, fr):
    """like comprehension(), but a concrete source is evaluated element by element"""
    if len(node.generators) == 1:
        g = node.generators[0]
        src = it.ev(g.iter, fr)
        if not isinstance(src, (ConstColl, AbsColl, GenExp)):
            if isinstance(src, IterVal) and src.kind == "enumerate":
                L = None
            else:
                L = as_list(it, src)
            if L is not None and all(k == "e" for k, _ in it.chunks(L)):
                def th(x):
                    def f():
                        f2 = Frame(fr, fr.module, fr.cls, fr.func, fr.site)
                        it.assign(g.target, x, f2)
                        for c in g.ifs:
                            if not it.truth(it.ev(c, f2)):
                                return UNDEF
                        return it.ev(node.elt, f2)
                    return f

                ths = []
                for _, x in L.chunks:
                    ths.append(th(x))

                def wrap(f):
                    def h():
                        r = f()
                        return False if r is UNDEF else r
                    return h
                if not g.ifs:
                    return ("lazy", ths)
                return ("lazy", [wrap(f) for f in ths]) if True else None
    return comprehension(it, node, fr)


# ---- strings ------------------------------------------------------------------------
def _key(s):
    return tuple(p if isinstance(p, str) else keep(p) for p in _parts(s))


def nlcount(it, s):
    """number of newlines in s"""
    ctx = it.ctx
    s = ctx.norm(s)
    total, terms = 0, []
    for p in _parts(s):
        if isinstance(p, str):
            total += p.count("\n")
        elif p.get_id() in ctx.nonl:
            continue
        else:
            k = ("nl", keep(p))
            if k not in ctx.hints:
                v = z3.Int(f"nl@{p}")
                keep(v)
                ctx.hints[k] = v
                ctx.hints.setdefault("nlatoms", []).append((p, v))
                ctx.assume(v >= 0)
            terms.append(ctx.hints[k])
    # link counts of atoms that were defined later
    pend = ctx.hints.get("nlatoms", [])
    for pv in list(pend):
        if not any(x is pv for x in pend):
            continue
        if pv[0].get_id() in ctx.defs:
            pend.remove(pv)
            ctx.assume(pv[1] == zint(nlcount(it, mkstr(pv[0]))))
        elif pv[0].get_id() in ctx.nonl:
            pend.remove(pv)
            ctx.assume(pv[1] == 0)
    r = total
    for t in terms:
        r = r + t
    return r


def split_nl(it, s):
    ctx = it.ctx
    s = ctx.norm(s)
    # the text of lines at the end of the string ends with a newline, unless there are no lines
    while not isinstance(s, str) and not isinstance(s.parts[-1], str):
        seg = next((ctx.segs[i] for i, vs in list(ctx.views.items()) if i in ctx.segs and i not in ctx.segdefs
                    and vs.get("text") is not None and _key(mkstr(vs["text"])) == _key(mkstr(s.parts[-1]))), None)
        if seg is None or not it.lineseg(seg):
            break
        it.back(it.mkchunks([("s", seg)]))
        s = ctx.norm(s)
    pieces = [[]]
    for p in _parts(s):
        if isinstance(p, str):
            for i, q in enumerate(p.split("\n")):
                if i:
                    pieces.append([])
                if q:
                    pieces[-1].append(q)
        else:
            pieces[-1].append(p)
    out = []
    for ps in pieces:
        t = mkstr(*ps)
        if ctx.is_nonl(t):
            out.append(("e", t))
        else:
            k = ("split", _key(t))
            if k not in ctx.hints:
                seg = it.newseg("line", ("nonl",))
                ctx.assume(it.seglen(seg) == zint(nlcount(it, t)) + 1)
                ctx.assume_eq(it.cview([("s", seg)], "text"), mkstr(t, "\n"))
                ctx.hints[k] = seg
                if ps is pieces[-1] and ctx.known(z3.And(z3.Length(zstr(t)) > 0, z3.Not(
                        z3.SuffixOf(z3.StringVal("\n"), zstr(t))))):
                    # the last line is not empty
                    L = it.mkchunks([("s", seg)])
                    it.back(L)
                    x = it.chunks(L)[-1][1]
                    if not ctx.truth_str(x):
                        raise PathEnd("the string does not end with a newline")
            out.append(("s", ctx.hints[k]))
    return it.mkchunks(out)


def memo_str(it, fn, s, nonl=True):
    ctx = it.ctx
    s = ctx.norm(s)
    if isinstance(s, str) and fn in ("lower", "upper"):
        return getattr(s, fn)()
    k = (fn, _key(s))
    if k not in ctx.hints:
        a = ctx.fresh_atom(fn)
        ctx.hints[k] = a
        if nonl and ctx.is_nonl(s):
            ctx.set_nonl(mkstr(a))
    return mkstr(ctx.hints[k])


def memo_bool(it, fn, s):
    ctx = it.ctx
    k = (fn, _key(ctx.norm(s)))
    if k not in ctx.hints:
        ctx.hints[k] = ctx.fresh_bool(fn)
    return ctx.hints[k]


def wordtest(it, s, test):
    """a condition on a string known to be one of finitely many words, or None"""
    ps = _parts(s)
    if len(ps) != 1 or isinstance(ps[0], str):
        return None
    ws = it.ctx.hints.get(("words", ps[0].get_id()))
    if ws is None:
        return None
    yes = sorted(w for w in ws if test(w))
    if len(yes) in (0, len(ws)):
        return len(yes) > 0
    return z3.Or([ps[0] == z3.StringVal(enc(w)) for w in yes]) if len(yes) > 1 else ps[0] == z3.StringVal(enc(yes[0]))


def startswith(it, s, lit):
    ctx = it.ctx
    s, lit = ctx.norm(s), ctx.norm(lit)
    if isinstance(lit, str):
        r = wordtest(it, s, lambda w: w.startswith(lit))
        if r is not None:
            return r
    if isinstance(s, str) and isinstance(lit, str):
        return s.startswith(lit)
    if lit == "":
        return True
    if isinstance(s, str):
        return ctx.branch(z3.PrefixOf(zstr(lit), zstr(s)))
    first = s.parts[0]
    if isinstance(lit, str):
        if isinstance(first, str):
            n = min(len(first), len(lit))
            if first[:n] != lit[:n]:
                return False
            if len(first) >= len(lit):
                return True
        if "\n" in lit and ctx.is_nonl(s):
            return False
    elif _parts(s)[:len(_parts(lit))] == _parts(lit):
        return True
    if ctx.branch(z3.PrefixOf(zstr(lit), zstr(s))):
        ctx.assume_eq(s, mkstr(lit, ctx.fresh_atom("rest")))
        return True
    return False


def endswith(it, s, lit):
    ctx = it.ctx
    s, lit = ctx.norm(s), ctx.norm(lit)
    if isinstance(lit, str):
        r = wordtest(it, s, lambda w: w.endswith(lit))
        if r is not None:
            return r
    if isinstance(s, str) and isinstance(lit, str):
        return s.endswith(lit)
    if lit == "":
        return True
    if isinstance(lit, str) and isinstance(s, SStr):
        last = s.parts[-1]
        if isinstance(last, str):
            n = min(len(last), len(lit))
            if last[-n:] != lit[-n:]:
                return False
            if len(last) >= len(lit):
                return True
        if "\n" in lit and ctx.is_nonl(s):
            return False
        if len(lit) == 1 and len(s.parts) > 1:
            # decided by the last non-empty part
            if ctx.truth_str(mkstr(last)):
                return endswith(it, mkstr(last), lit)
            return endswith(it, mkstr(*s.parts[:-1]), lit)
    if ctx.branch(z3.SuffixOf(zstr(lit), zstr(s))):
        ctx.assume_eq(s, mkstr(ctx.fresh_atom("init"), lit))
        return True
    return False


def find_from(it, s, sub, start):
    """(found, before, after) searching for literal sub in s (already cut); forks"""
    ctx = it.ctx
    s = ctx.norm(s)
    if isinstance(s, str) and isinstance(sub, str):
        i = s.find(sub)
        return (False, None, None) if i < 0 else (True, s[:i], s[i + len(sub):])
    k = ("find", keep(zstr(s)), keep(zstr(ctx.norm(sub))))
    if k in ctx.hints:
        return (True,) + ctx.hints[k]
    c = it.contains(s, sub)
    if not (c if isinstance(c, bool) else ctx.branch(c)):
        return False, None, None
    a, b = ctx.fresh_str("bef"), ctx.fresh_str("aft")
    if isinstance(sub, str):
        # walk over leading parts that cannot contain it
        ctx.assume_eq(s, mkstr(a, sub, b))
        t = mkstr(a, sub[:-1]) if len(sub) > 1 else a
        ctx.assume(z3.Not(z3.Contains(zstr(ctx.norm(t)), zstr(sub))))
        if sub == "\n":
            ctx.set_nonl(a)
    else:
        ctx.assume_eq(s, mkstr(a, sub, b))
        ctx.assume(z3.Or(z3.Length(zstr(sub)) == 0, z3.Not(z3.Contains(zstr(a), zstr(sub)))))
        k = keep(zstr(ctx.norm(s))), keep(zstr(ctx.norm(sub)))
        ctx.hints["find", k[0], k[1]] = (a, b)
    return True, a, b


def bounds(it, s, args):
    """cut s at an optional start offset; returns (left, right)"""
    if not args or args[0] is None or (isinstance(args[0], int) and args[0] == 0):
        return "", s
    st = args[0]
    ctx = it.ctx
    if isinstance(st, int) and st < 0:
        raise Unsupported("negative start")
    if not isinstance(st, int) and not ctx.branch(zint(st) >= 0):
        raise Unsupported("negative start")
    n = ctx.slen(s)
    if not ctx.branch(zint(st) <= zint(n)) if not (isinstance(st, int) and isinstance(n, int)) else st > n:
        return None, ""
    return ctx.cut(s, st)


WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def is_ws_lit(p):
    return p.isspace()


def str_method(it, s, name, args, kwargs):
    ctx = it.ctx
    if isinstance(s, SStr):
        s = ctx.norm(s)
    args = [ctx.norm(a) if isinstance(a, SStr) else a for a in args]
    if isinstance(s, str) and all(isinstance(a, (str, int, type(None))) or isinstance(a, tuple) and all(
            isinstance(x, str) for x in a) for a in args) and all(isinstance(v, (str, int)) for v in kwargs.values()) \
            and name != "join":
        try:
            r = getattr(s, name)(*args, **kwargs)
        except ValueError:
            raise PyExc("ValueError")
        except TypeError:
            raise PyExc("TypeError")
        return it.mklist(r) if isinstance(r, list) else r
    if name in ("startswith", "endswith"):
        f = startswith if name == "startswith" else endswith
        a = args[0]
        if len(args) > 1:
            raise Unsupported("startswith offset")
        if isinstance(a, tuple):
            for x in a:
                if f(it, s, x):
                    return True
            return False
        return f(it, s, a)
    if name == "join":
        L = args[0]
        if s == "|" and isinstance(L, GenExp) and len(L.node.generators) == 1 and not L.node.generators[0].ifs:
            # alternatives of a pattern taken from a set of constants; their order is immaterial, because every
            # alternative that matches is explored
            src = it.ev(L.node.generators[0].iter, L.fr)
            if isinstance(src, ConstColl) and isinstance(src.v, (set, frozenset)):
                inner = Frame(L.fr, L.fr.module, L.fr.cls, L.fr.func, L.fr.site)
                out = []
                for x in sorted(src.v):
                    it.assign(L.node.generators[0].target, x, inner)
                    out.append(it.ev(L.node.elt, inner))
                L = it.mklist(out)
        if not isinstance(L, SList):
            L = to_list(it, L)
        if not isinstance(L, SList):
            raise Unsupported("join of an abstract collection")
        ch = it.chunks(L)
        if all(k == "e" for k, _ in ch):
            out = []
            for i, (_, x) in enumerate(ch):
                if i:
                    out.append(s)
                if not is_str(x):
                    raise PyExc("TypeError")
                out.append(x)
            return mkstr(*out)
        if s == "":
            return it.cview(ch, "cat")
        if s == "\n":
            if not it.list_truth(L):
                return ""
            t = it.cview(it.chunks(L), "text")
            r = ctx.fresh_str("joined")
            ctx.assume_eq(t, mkstr(r, "\n"))
            return ctx.norm(r)
        return ctx.fresh_str("joined")
    if name == "split":
        sep = args[0] if args else kwargs.get("sep")
        mx = kwargs.get("maxsplit", args[1] if len(args) > 1 else -1)
        if sep is None:
            k = ("wsplit", _key(s))
            if k not in ctx.hints:
                seg = it.newseg("line", ("nonempty",))
                ctx.hints[k] = seg
            return it.mkchunks([("s", ctx.hints[k])])
        if sep == "\n" and mx == -1:
            return split_nl(it, s)
        if mx == 1:
            ok, a, b = find_from(it, s, sep, 0)
            return it.mklist([a, b]) if ok else it.mklist([s])
        if mx == -1 and isinstance(sep, str) and sep and not isinstance(s, str):
            if not it.truth(it.contains(s, sep)):
                return it.mklist([s])
            k = ("split", sep, _key(s))
            if k not in ctx.hints:
                seg = it.newseg("str", ("nonl",) if ctx.is_nonl(s) else ())
                a, b = ctx.fresh_str("a"), ctx.fresh_str("b")
                ctx.assume(it.seglen(seg) >= 1)
                ctx.assume_eq(s, mkstr(a, sep, b))
                ctx.assume(z3.Not(z3.Contains(zstr(b), z3.StringVal(enc(sep)))))
                ctx.hints[k] = (seg, b)
            seg, b = ctx.hints[k]
            return it.mkchunks([("s", seg), ("e", b)])
        if mx == -1:
            k = ("split", sep, _key(s))
            if k not in ctx.hints:
                seg = it.newseg("str", ("nonl",) if ctx.is_nonl(s) else ())
                ctx.hints[k] = seg
                ctx.assume(it.seglen(seg) >= 1)
            return it.mkchunks([("s", ctx.hints[k])])
        raise Unsupported("split")
    if name == "rsplit":
        sep = args[0]
        mx = kwargs.get("maxsplit", args[1] if len(args) > 1 else -1)
        if mx == 1:
            if not it.truth(it.contains(s, sep)):
                return it.mklist([s])
            a, b = ctx.fresh_str("a"), ctx.fresh_str("b")
            ctx.assume_eq(s, mkstr(a, sep, b))
            ctx.assume(z3.Not(z3.Contains(zstr(ctx.norm(b)), zstr(sep))))
            return it.mklist([a, b])
        raise Unsupported("rsplit")
    if name in ("partition", "rpartition"):
        sep = args[0]
        if name == "partition":
            ok, a, b = find_from(it, s, sep, 0)
            return (a, sep, b) if ok else (s, "", "")
        if not it.truth(it.contains(s, sep)):
            return ("", "", s)
        a, b = ctx.fresh_str("a"), ctx.fresh_str("b")
        ctx.assume_eq(s, mkstr(a, sep, b))
        ctx.assume(z3.Not(z3.Contains(zstr(ctx.norm(b)), zstr(sep))))
        return (a, sep, b)
    if name in ("strip", "lstrip", "rstrip"):
        cs = args[0] if args else None
        mid = s
        k = (name, cs, _key(s))
        if k in ctx.hints:
            return ctx.hints[k]
        a = ctx.fresh_str("lws") if name != "rstrip" else ""
        b = ctx.fresh_str("rws") if name != "lstrip" else ""
        mid = ctx.fresh_str("stripped")
        ctx.assume_eq(s, mkstr(a, mid, b))
        ctx.hints[k] = ctx.norm(mid)
        it.e.spec.stripped(it, s, a, mid, b, cs)
        return ctx.hints[k]
    if name in ("lower", "upper", "capitalize", "title", "swapcase", "casefold"):
        return memo_str(it, name, s)
    if name in ("isdigit", "isnumeric", "isalnum", "isspace", "isalpha", "isdecimal", "isupper", "islower",
                "isidentifier"):
        parts = _parts(s)
        if name in ("isdigit", "isnumeric", "isdecimal") and len(parts) == 1 and parts[0].get_id() in ctx.digits \
                and parts[0].get_id() in ctx.nonempty:
            return True
        b = memo_bool(it, name, s)
        r = ctx.branch(b)
        if r:
            if not ctx.truth_str(s):
                raise PathEnd("empty")
            if name != "isspace":
                ctx.set_nonl(s)
            if name in ("isdigit", "isnumeric", "isdecimal") and len(parts) == 1:
                ctx.digits.add(parts[0].get_id())
        return r
    if name == "replace":
        a, b = args[0], args[1]
        c = it.contains(s, a)
        if not (c if isinstance(c, bool) else ctx.branch(c)):
            return s
        k = ("replace", _key(s), a if isinstance(a, str) else _key(a), b if isinstance(b, str) else _key(b))
        if k not in ctx.hints:
            r = ctx.fresh_str("replaced")
            ctx.hints[k] = r
            if ctx.is_nonl(s) and ctx.is_nonl(b):
                ctx.set_nonl(r)
        return ctx.hints[k]
    if name in ("index", "find"):
        left, right = bounds(it, s, args[1:])
        if left is None:
            ok = False
        else:
            ok, a, b = find_from(it, right, args[0], 0)
        if ok:
            return ctx.slen(mkstr(left, a))
        if name == "index":
            raise PyExc("ValueError")
        return -1
    if name in ("rfind", "rindex"):
        if not it.truth(it.contains(s, args[0])):
            if name == "rindex":
                raise PyExc("ValueError")
            return -1
        a, b = ctx.fresh_str("a"), ctx.fresh_str("b")
        ctx.assume_eq(s, mkstr(a, args[0], b))
        return ctx.slen(a)
    if name == "count":
        if args[0] == "\n":
            return nlcount(it, s)
        i = ctx.fresh_int("count")
        ctx.assume(i >= 0)
        return i
    if name == "splitlines":
        seg = it.newseg("line", ("nonl",))
        return it.mkchunks([("s", seg)])
    if name in ("encode", "decode"):
        return Opaque("bytes")
    if name in ("format", "ljust", "rjust", "zfill", "translate", "expandtabs", "removeprefix", "removesuffix"):
        if name == "removesuffix":
            if endswith(it, s, args[0]):
                n = ctx.norm(s)
                x = ctx.fresh_str("init")
                ctx.assume_eq(n, mkstr(x, args[0]))
                return ctx.norm(x)
            return s
        if name == "removeprefix":
            if startswith(it, s, args[0]):
                x = ctx.fresh_str("rest")
                ctx.assume_eq(ctx.norm(s), mkstr(args[0], x))
                return ctx.norm(x)
            return s
        return ctx.fresh_str(name)
    raise Unsupported(f"str.{name}")


def str_getitem(it, s, i):
    ctx = it.ctx
    s = ctx.norm(s)
    if isinstance(i, SliceVal):
        if i.step not in (None, 1):
            if i.step == -1 and isinstance(s, str) and i.lo is None and i.hi is None:
                return s[::-1]
            raise Unsupported("string slice step")
        if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi)):
            return s[i.lo:i.hi]
        lo = clamp(it, s, i.lo, 0)
        hi = clamp(it, s, i.hi, None)
        if hi is None:
            return ctx.cut(s, lo)[1]
        if isinstance(lo, int) and isinstance(hi, int):
            if lo >= hi:
                return ""
        elif not (isinstance(lo, int) and lo == 0) and not ctx.branch(zint(lo) <= zint(hi)):
            return ""
        left, _ = ctx.cut(s, hi)
        if isinstance(lo, int) and lo == 0:
            return left
        return ctx.cut(ctx.norm(left), lo)[1]
    if not is_int(i):
        raise Unsupported("string index")
    if isinstance(s, str) and isinstance(i, int):
        try:
            return s[i]
        except IndexError:
            raise PyExc("IndexError")
    n = ctx.slen(s)
    if isinstance(i, int) and i < 0:
        if not ctx.branch(zint(n) >= -i):
            raise PyExc("IndexError")
        p = _parts(ctx.norm(s))
        if isinstance(p[-1], str) and len(p[-1]) >= -i:
            return p[-1][i]
        a = ctx.fresh_atom("init")
        c = ctx.fresh_atom("ch")
        b = ctx.fresh_atom("tail") if i < -1 else ""
        ctx.nonempty.add(c.get_id())
        ctx.assume(z3.Length(c) == 1)
        if i < -1:
            ctx.assume(z3.Length(b) == -i - 1)
        ctx.assume_eq(s, mkstr(a, c, b))
        return ctx.norm(mkstr(c))
    if not isinstance(i, int):
        if not ctx.branch(zint(i) >= 0):
            raise Unsupported("symbolic negative string index")
    if not ctx.branch(zint(i) < zint(n)):
        raise PyExc("IndexError")
    left, right = ctx.cut(s, i)
    p = _parts(ctx.norm(right))
    while p and not isinstance(p[0], str) and p[0].get_id() not in ctx.nonempty:
        # may be empty
        if ctx.known(z3.Length(p[0]) == 1):
            break
        if ctx.branch(z3.Length(p[0]) >= 1):
            break
        ctx.assume_eq(mkstr(p[0]), "")
        p = _parts(ctx.norm(right))
    if not p:
        raise PathEnd("index")
    if isinstance(p[0], str):
        return p[0][0]
    if ctx.known(z3.Length(p[0]) == 1):
        return mkstr(p[0])
    c, r = ctx.fresh_atom("ch"), ctx.fresh_atom("tl")
    ctx.nonempty.add(c.get_id())
    ctx.assume(z3.Length(c) == 1)
    ctx.assume_eq(mkstr(p[0]), mkstr(c, r))
    return mkstr(c)


def clamp(it, s, i, default):
    if i is None:
        return default
    ctx = it.ctx
    n = ctx.slen(s)
    if isinstance(i, z3.ExprRef):
        i = simp(i)
        if z3.is_int_value(i):
            i = i.as_long()
    if isinstance(i, int) and isinstance(n, int):
        return max(0, i + n) if i < 0 else min(i, n)
    if isinstance(i, int) and i < 0:
        if ctx.branch(zint(n) >= -i):
            return simp(zint(n) + i)
        return 0
    if not isinstance(i, int) and not ctx.branch(zint(i) >= 0):
        j = simp(zint(n) + i)
        return j if ctx.branch(j >= 0) else 0
    if ctx.branch(zint(i) <= zint(n)):
        return i
    return n


# ---- regular expressions ---------------------------------------------------------------
HOLE = 0xE000


def compile_pattern(it, p, flags=0):
    if isinstance(p, SRegex):
        return p
    if not is_str(p):
        raise Unsupported("pattern")
    return SRegex(it.ctx.norm(p), flags if isinstance(flags, int) else 0)


_PARSED = {}


def parsed(rx):
    holes = []
    if isinstance(rx.pattern, str):
        text = rx.pattern
    else:
        text = ""
        for p in rx.pattern.parts:
            if isinstance(p, str):
                text += p
            else:
                text += chr(HOLE + len(holes))
                holes.append(p)
    k = (text, rx.flags)
    if k not in _PARSED:
        try:
            _PARSED[k] = rp.parse(text, rx.flags)
        except re.error:
            raise Unsupported("regular expression syntax")
    return _PARSED[k], holes


def class_has(items, ch, flags):
    """does a character class contain ch?"""
    neg = False
    r = False
    for op, av in items:
        if op is NEGATE:
            neg = True
        elif op is LITERAL:
            r = r or chr(av) == ch
        elif op is RANGE:
            r = r or av[0] <= ord(ch) <= av[1]
        elif op is CATEGORY:
            n = str(av)
            pat = {"CATEGORY_SPACE": r"\s", "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_DIGIT": r"\d",
                   "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}[n]
            r = r or bool(re.match(pat, ch))
    return r != neg


class RM:
    def __init__(self, it, holes, flags):
        self.it = it
        self.holes = holes
        self.flags = flags
        self.pieces = []
        self.groups = {}
        self.cons = []
        self.greedy_any = False
        self.refs = set()

    def atom(self, hint, nonl, lo=0, hi=None):
        ctx = self.it.ctx
        a = ctx.fresh_atom(hint)
        if nonl:
            ctx.set_nonl(mkstr(a))
        if lo:
            ctx.nonempty.add(a.get_id())
            ctx.assume(z3.Length(a) >= lo)
        if hi is not None:
            ctx.assume(z3.Length(a) <= hi)
        self.pieces.append(mkstr(a))
        return a

    def klass(self, op, av):
        """(contains newline?, only digits?, predicate) of a single-character item, or None"""
        fl = self.flags
        if op is ANY:
            return bool(fl & re.DOTALL), False
        if op is IN:
            dig = all((o is CATEGORY and str(a) == "CATEGORY_DIGIT") or (o is RANGE and 48 <= a[0] and a[1] <= 57)
                      or (o is LITERAL and 48 <= a <= 57) for o, a in av)
            return class_has(av, "\n", fl), dig
        if op is NOT_LITERAL:
            return chr(av) != "\n", False
        if op is LITERAL and (av < HOLE or av >= HOLE + 256) and self.ic(av):
            return False, False
        if op is CATEGORY:
            return class_has([(op, av)], "\n", fl), str(av) == "CATEGORY_DIGIT"
        return None

    def ic(self, av):
        return bool(self.flags & re.IGNORECASE) and chr(av).lower() != chr(av).upper()

    def seq(self, items):
        items = list(items)
        ctx = self.it.ctx
        for op, av in items:
            self.greedy_any = False
            if op is LITERAL:
                if HOLE <= av < HOLE + len(self.holes):
                    h = self.holes[av - HOLE]
                    src = ctx.hints.get(("escaped", h.get_id()))
                    if src is None:
                        raise Unsupported("pattern built from an unknown string")
                    if self.flags & re.IGNORECASE:
                        a = self.atom("ic", ctx.is_nonl(src))
                        ctx.assume(z3.Length(a) == zint(ctx.slen(src)))
                        ctx.nonempty.add(a.get_id())
                    else:
                        self.pieces.append(src)
                elif self.ic(av):
                    self.atom("ic", True, 1, 1)
                else:
                    self.pieces.append(chr(av))
                continue
            k = self.klass(op, av)
            if k is not None:
                a = self.atom("c", not k[0], 1, 1)
                if k[1]:
                    ctx.digits.add(a.get_id())
                continue
            if op in (MAX_REPEAT, MIN_REPEAT, POSSESSIVE_REPEAT):
                lo, hi, sub = av
                sub = list(sub)
                if len(sub) == 1:
                    k = self.klass(*sub[0])
                    if k is None and sub[0][0] is LITERAL and sub[0][1] < HOLE and hi == 1 and lo == 0:
                        # optional literal
                        if ctx.choice(2, "opt") == 0:
                            self.seq(sub)
                        continue
                    if k is None and sub[0][0] is LITERAL:
                        k = (chr(sub[0][1]) == "\n", False)
                    if k is not None:
                        a = self.atom("r", not k[0], lo, None if hi is MAXREPEAT else int(hi))
                        if k[1]:
                            ctx.digits.add(a.get_id())
                        self.greedy_any = op is MAX_REPEAT and sub[0][0] is ANY and hi is MAXREPEAT
                        self.describe(a, sub[0])
                        continue
                if lo == 0 and hi == 1 and not any(True for _ in _groups(sub)) and _nonl(sub, self.flags) \
                        and len(sub) > 2 and sub[0][0] is LITERAL and sub[-1][0] is LITERAL:
                    # an optional delimited part: one atom instead of two paths
                    self.atom("opt", True)
                    continue
                if lo == 0 and hi == 1:
                    if ctx.choice(2, "opt") == 0:
                        self.seq(sub)
                    continue
                if lo == hi == 1:
                    self.seq(sub)
                    continue
                # repetition of a compound item: opaque text
                self.atom("rep", False)
                for g in _groups(sub):
                    self.groups[g] = "unknown"
                continue
            if op is BRANCH and all(_simple(x) for x in av[1]):
                self.atom("alt", all(_nonl(x, self.flags) for x in av[1]))
                continue
            if op is SUBPATTERN or op is BRANCH:
                ws = _words([(op, av)], self.flags)
                gs = set(_groups([(op, av)])) - ({av[0]} if op is SUBPATTERN else set())
                if ws is not None and len(ws) > 3 and not gs & self.refs:
                    # a finite language: one atom instead of one path per word
                    i = len(self.pieces)
                    a = self.atom("w", all("\n" not in w for w in ws))
                    ctx.assume(z3.Or([a == z3.StringVal(enc(w)) for w in sorted(ws)]))
                    ctx.hints[("words", a.get_id())] = frozenset(ws)
                    for g in gs:
                        self.groups[g] = "unknown"
                    if op is SUBPATTERN and av[0] is not None:
                        self.groups[av[0]] = (i, len(self.pieces))
                    continue
            if op is SUBPATTERN:
                g, add, rem, sub = av
                old = self.flags
                self.flags = (old | add) & ~rem
                i = len(self.pieces)
                self.seq(sub)
                self.flags = old
                if g is not None:
                    self.groups[g] = (i, len(self.pieces))
                continue
            if op is BRANCH:
                alts = av[1]
                self.seq(alts[ctx.choice(len(alts), "alt")])
                continue
            if op is AT:
                self.cons.append((av, len(self.pieces)))
                continue
            if op is GROUPREF_EXISTS:
                g, yes, no = av
                if g in self.groups:
                    self.seq(yes)
                elif no is not None:
                    self.seq(no)
                continue
            if op is GROUPREF:
                if av not in self.groups or self.groups[av] == "unknown":
                    raise PathEnd("group not set")
                i, j = self.groups[av]
                self.pieces.append(mkstr(*self.pieces[i:j]))
                continue
            if op in (ASSERT, ASSERT_NOT):
                continue
            raise Unsupported(f"regular expression item {op}")

    def describe(self, a, item):
        self.it.e.spec.charclass(self.it, a, item, self.flags)


def _simple(items):
    """a single repeated character class or a literal: no captures inside"""
    items = list(items)
    return len(items) == 1 and (
        items[0][0] in (MAX_REPEAT, MIN_REPEAT) and len(list(items[0][1][2])) == 1
        and list(items[0][1][2])[0][0] in (IN, ANY, CATEGORY, NOT_LITERAL, LITERAL)
        or items[0][0] in (IN, LITERAL) and (items[0][0] is IN or items[0][1] < HOLE)) and any(
            True for _ in items) or not items


def _nonl(items, flags):
    """no word of the pattern contains a newline"""
    for op, av in items:
        if op is LITERAL:
            if av >= HOLE or chr(av) == "\n":
                return False
        elif op is ANY:
            if flags & re.DOTALL:
                return False
        elif op in (IN, CATEGORY):
            if class_has(av if op is IN else [(op, av)], "\n", flags):
                return False
        elif op in (MAX_REPEAT, MIN_REPEAT, POSSESSIVE_REPEAT):
            if not _nonl(av[2], flags):
                return False
        elif op is SUBPATTERN:
            if not _nonl(av[3], flags):
                return False
        elif op is BRANCH:
            if not all(_nonl(x, flags) for x in av[1]):
                return False
        elif op is AT:
            pass
        else:
            return False
    return True


def _words(items, flags, limit=40):
    """the finite set of words of a pattern, or None"""
    if flags & re.IGNORECASE:
        return None
    out = {""}
    for op, av in items:
        if op is LITERAL and av < HOLE:
            n = {chr(av)}
        elif op is SUBPATTERN:
            n = _words(av[3], (flags | av[1]) & ~av[2])
        elif op is BRANCH:
            n = set()
            for x in av[1]:
                w = _words(x, flags)
                if w is None:
                    return None
                n |= w
        elif op in (MAX_REPEAT, MIN_REPEAT) and av[0] == 0 and av[1] == 1:
            n = _words(av[2], flags)
            n = n | {""} if n is not None else None
        else:
            return None
        if n is None:
            return None
        out = {a + b for a in out for b in n}
        if len(out) > limit:
            return None
    return out


def _refs(items):
    """groups referred to by the pattern"""
    for op, av in items:
        if op is GROUPREF:
            yield av
        elif op is GROUPREF_EXISTS:
            yield av[0]
            yield from _refs(av[1])
            if av[2]:
                yield from _refs(av[2])
        elif op is SUBPATTERN:
            yield from _refs(av[3])
        elif op in (MAX_REPEAT, MIN_REPEAT, POSSESSIVE_REPEAT):
            yield from _refs(av[2])
        elif op is BRANCH:
            for x in av[1]:
                yield from _refs(x)


def _groups(items):
    for op, av in items:
        if op is SUBPATTERN:
            if av[0] is not None:
                yield av[0]
            yield from _groups(av[3])
        elif op in (MAX_REPEAT, MIN_REPEAT, POSSESSIVE_REPEAT):
            yield from _groups(av[2])
        elif op is BRANCH:
            for x in av[1]:
                yield from _groups(x)
        elif op is GROUPREF_EXISTS:
            yield from _groups(av[1])
            if av[2]:
                yield from _groups(av[2])


def _always(items, search):
    """every part matches the empty string at the beginning, or at the end, of any string"""
    ends = search and any(op is AT and av in (AT_END, AT_END_STRING) for op, av in items) and not any(
        op is not AT and op not in (MAX_REPEAT, MIN_REPEAT, SUBPATTERN) for op, av in items)
    for op, av in items:
        if op is AT and av in ((AT_END, AT_END_STRING) if ends else (AT_BEGINNING, AT_BEGINNING_STRING)):
            continue
        if ends and op is SUBPATTERN and any(o is AT for o, _ in av[3]):
            return False
        if op in (MAX_REPEAT, MIN_REPEAT) and av[0] == 0:
            continue
        if op is SUBPATTERN and _always(av[3], search):
            continue
        return False
    return True


def rmatch(it, rx, s, mode):
    """mode: match, search or fullmatch; returns SMatch or None (forks)"""
    ctx = it.ctx
    s = ctx.norm(s)
    if isinstance(s, str) and isinstance(rx.pattern, str):
        m = getattr(re.compile(rx.pattern, rx.flags), mode)(s)
        if m is None:
            return None
        n = m.re.groups
        groups = {i: m.group(i) for i in range(n + 1)}
        spans = {i: m.span(i) for i in range(n + 1)}
        return SMatch(groups, dict(m.re.groupindex), spans, s)
    tree, holes = parsed(rx)
    items = list(tree)
    if not (_always(items, mode == "search") and mode != "fullmatch"):
        k = ("nomatch", rx.pattern if isinstance(rx.pattern, str) else _key(rx.pattern), rx.flags, mode, _key(s))
        if k in ctx.hints:
            return None
        if ctx.choice(2, "match") == 1:
            ctx.hints[k] = True
            it.e.spec.no_match(it, rx, tree, s, mode)
            return None
    r = RM(it, holes, tree.state.flags)
    r.refs = set(_refs(tree))
    pre = ""
    if mode == "search" and not (items and items[0][0] is AT and items[0][1] in (AT_BEGINNING, AT_BEGINNING_STRING)):
        pre = ctx.fresh_str("pre")
    r.seq(items)
    rest = ctx.fresh_str("rest") if mode != "fullmatch" else ""
    # end anchors first: they decide what the remainder can be
    for at, pos in r.cons:
        if at in (AT_END, AT_END_STRING):
            if pos == len(r.pieces):
                if at is AT_END and not ctx.is_nonl(s) and mode != "fullmatch":
                    ctx.assume(z3.Or(zstr(rest) == z3.StringVal(""), zstr(rest) == z3.StringVal("\\u{a}")))
                    ctx.hints[("words", rest.parts[0].get_id())] = frozenset(("", "\n"))
                else:
                    ctx.assume_eq(rest, "")
            else:
                tail = mkstr(*r.pieces[pos:])
                if ctx.choice(2, "$") == 0:
                    ctx.assume_eq(mkstr(tail, rest), "")
                else:
                    ctx.assume_eq(mkstr(tail, rest), "\n")
        elif at in (AT_BEGINNING, AT_BEGINNING_STRING):
            if not tree.state.flags & re.MULTILINE:
                ctx.assume_eq(mkstr(pre, *r.pieces[:pos]), "")
    if r.greedy_any and mode != "fullmatch":
        if ctx.is_nonl(s) or ctx.choice(2, "eol") == 0:
            ctx.assume_eq(rest, "")
        else:
            ctx.assume_eq(rest, mkstr("\n", ctx.fresh_atom("rest")))
    ctx.assume_eq(s, mkstr(pre, *r.pieces, rest))
    groups, spans = {}, {}
    n = tree.state.groups
    for g in range(n):
        if g == 0:
            i, j = 0, len(r.pieces)
        else:
            if g not in r.groups:
                groups[g] = None
                continue
            if r.groups[g] == "unknown":
                groups[g] = UNDEF
                continue
            i, j = r.groups[g]
        groups[g] = ctx.norm(mkstr(*r.pieces[i:j]))
        spans[g] = (mkstr(pre, *r.pieces[:i]), mkstr(pre, *r.pieces[:j]))
    m = SMatch(groups, dict(tree.state.groupdict), spans, s)
    m.rest, m.pre = rest, pre
    return m


def match_group(it, m, g):
    if isinstance(g, str):
        if g not in m.names:
            raise PyExc("IndexError")
        g = m.names[g]
    if not isinstance(g, int):
        raise Unsupported("group")
    if g not in m.groups:
        raise PyExc("IndexError")
    v = m.groups[g]
    if v is UNDEF:
        raise Unsupported("group inside a repetition")
    return it.ctx.norm(v) if isinstance(v, SStr) else v


def smatch_method(it, m, name, args, kwargs):
    if name == "group":
        if not args:
            return match_group(it, m, 0)
        if len(args) == 1:
            return match_group(it, m, args[0])
        return tuple(match_group(it, m, a) for a in args)
    if name == "groups":
        d = args[0] if args else None
        return tuple(d if m.groups[g] is None else match_group(it, m, g) for g in sorted(m.groups) if g)
    if name == "groupdict":
        return SDict({n: match_group(it, m, g) for n, g in m.names.items()}, it.birth())
    if name in ("start", "end", "span"):
        g = args[0] if args else 0
        if isinstance(g, str):
            g = m.names[g]
        sp = m.spans.get(g)
        if sp is None:
            return -1
        f = lambda x: x if isinstance(x, int) else it.ctx.slen(x)  # noqa: E731
        if name == "span":
            return (f(sp[0]), f(sp[1]))
        return f(sp[0 if name == "start" else 1])
    raise Unsupported(f"match.{name}")


def rsplit_re(it, rx, s, maxsplit):
    ctx = it.ctx
    s = ctx.norm(s)
    if isinstance(s, str) and isinstance(rx.pattern, str):
        return it.mklist(re.compile(rx.pattern, rx.flags).split(s, maxsplit))
    if maxsplit == 0 and isinstance(rx.pattern, str) and ctx.is_nonl(s):
        t = rp.parse(rx.pattern, rx.flags)
        if len(t) and tuple(t[len(t) - 1]) == (AT, AT_END) and t.getwidth()[0] >= 1 and not t.state.flags & re.MULTILINE:
            maxsplit = 1   # a match ends at the end of the line, so there is at most one
    if maxsplit == 1:
        m = rmatch(it, rx, s, "search")
        if m is None:
            return it.mklist([s])
        gs = [m.groups[g] for g in sorted(m.groups) if g]
        return it.mklist([ctx.norm(m.pre), *gs, ctx.norm(m.rest)])
    t = list(rp.parse(rx.pattern, rx.flags)) if maxsplit == 0 and isinstance(rx.pattern, str) else ()
    if len(t) == 1 and t[0][0] is SUBPATTERN and t[0][1][3].getwidth()[0] >= 1 and re.compile(rx.pattern).groups == 1:
        # the separator is captured, so the pieces add up to the string
        k = ctx.choice(3, "resplit")
        if k == 0:
            return it.mklist([s])
        if k == 1:
            a, w, b = ctx.fresh_str("t"), ctx.fresh_str("w"), ctx.fresh_str("t")
            ctx.assume(zint(ctx.slen(w)) >= 1)
            ctx.assume_eq(s, mkstr(a, w, b))
            return it.mklist([a, w, b])
        a, w, w2, b = (ctx.fresh_str(x) for x in "twwt")
        seg = it.newseg("str", ("nonl",) if ctx.is_nonl(s) else ())
        for x in (w, w2):
            ctx.assume(zint(ctx.slen(x)) >= 1)
        ctx.assume(it.seglen(seg) >= 1)
        L = it.mkchunks([("e", a), ("e", w), ("s", seg), ("e", w2), ("e", b)])
        ctx.assume_eq(s, it.cview(L.chunks, "cat"))
        return L
    seg = it.newseg("str")
    ctx.assume(it.seglen(seg) >= 1)
    return it.mkchunks([("s", seg)])


def re_call(it, name, rx, args, kwargs):
    ctx = it.ctx
    if name in ("match", "search", "fullmatch"):
        return rmatch(it, rx, args[0], name)
    if name == "split":
        return rsplit_re(it, rx, args[0], kwargs.get("maxsplit", args[1] if len(args) > 1 else 0))
    if name == "sub":
        s = ctx.norm(args[1])
        if isinstance(s, str) and isinstance(rx.pattern, str) and isinstance(args[0], str):
            return re.compile(rx.pattern, rx.flags).sub(args[0], s)
        return memo_str(it, "sub" + repr(rx.pattern) + repr(args[0]), s, False)
    if name == "findall":
        s = ctx.norm(args[0])
        if isinstance(s, str) and isinstance(rx.pattern, str):
            return it.mklist(re.compile(rx.pattern, rx.flags).findall(s))
        return it.mkchunks([("s", it.newseg("str"))])
    raise Unsupported(f"re.{name}")


# ---- lists --------------------------------------------------------------------------
def list_method(it, L, name, args, kwargs):
    ctx = it.ctx
    if name == "copy":
        return it.mkchunks(it.chunks(L))
    if name == "append":
        it.write(L)
        it.chunks(L)
        L.chunks.append(("e", args[0]))
        return None
    if name == "extend":
        it.write(L)
        x = to_list(it, args[0])
        L.chunks = it.chunks(L) + it.chunks(x)
        return None
    if name == "insert":
        it.write(L)
        i = args[0]
        if isinstance(i, int) and i == 0:
            L.chunks.insert(0, ("e", args[1]))
            return None
        p = it.slice_pos(L, i, 0)
        L.chunks.insert(p, ("e", args[1]))
        return None
    if name == "pop":
        it.write(L)
        i = args[0] if args else -1
        if isinstance(i, int) and i == -1:
            if not it.back(L):
                raise PyExc("IndexError")
            return L.chunks.pop()[1]
        if isinstance(i, int) and i == 0:
            if not it.front(L):
                raise PyExc("IndexError")
            return L.chunks.pop(0)[1]
        p = it.locate(L, i)
        return L.chunks.pop(p)[1]
    if name == "clear":
        it.write(L)
        L.chunks = []
        return None
    if name == "reverse":
        it.write(L)
        L.chunks = to_list(it, IterVal("reversed", L)).chunks
        return None
    if name == "sort":
        if all(k == "e" for k, _ in it.chunks(L)) and len(L.chunks) < 2:
            return None
        raise Unsupported("sort")
    if name == "index":
        x = args[0]
        n = it.chunklen(it.chunks(L))
        if ctx.choice(2, "index") == 1:
            raise PyExc("ValueError")
        i = ctx.fresh_int("idx")
        ctx.assume(z3.And(i >= 0, i < zint(n)))
        p = it.locate(L, i)
        y = L.chunks[p][1]
        if y is not x:
            q = it.equal(y, x)
            if not (q if isinstance(q, bool) else ctx.branch(q)):
                raise PathEnd("index")
        return i
    if name == "count":
        i = ctx.fresh_int("count")
        ctx.assume(i >= 0)
        return i
    if name == "remove":
        it.write(L)
        if ctx.choice(2, "remove") == 1:
            raise PyExc("ValueError")
        i = ctx.fresh_int("idx")
        ctx.assume(z3.And(i >= 0, i < zint(it.chunklen(it.chunks(L)))))
        p = it.locate(L, i)
        del L.chunks[p]
        return None
    raise Unsupported(f"list.{name}")


def as_data(it, o):
    return it.getattr(o, "data")


def userlist(it, name, o, args, kwargs):
    if name == "__init__":
        L = it.mklist()
        if args and args[0] is not None:
            L = to_list(it, args[0])
        it.write(o, "data")
        o.f["data"] = L
        return None
    if name == "copy":
        return copy_copy(it, o)
    if name == "extend":
        return list_method(it, as_data(it, o), name, [to_list(it, args[0])], kwargs)
    return list_method(it, as_data(it, o), name, args, kwargs)


def copy_copy(it, o):
    if not isinstance(o, (SObj, SList, SDict)):
        return o
    if isinstance(o, SList):
        return it.mkchunks(it.chunks(o))
    if isinstance(o, SDict):
        return SDict(o.d, it.birth())
    m = it.classattr(o.cls, "__copy__")
    if m is not UNDEF:
        return it.call(Bound(m, o), [], {})
    it.e.spec.materialise(it, o)
    n = SObj(o.cls, it.birth(), lazy=o.lazy, exact=o.exact)
    n.f = dict(o.f)
    n.notcls = list(o.notcls)
    if it.is_userlist(o.cls):
        n.f["data"] = it.mkchunks(it.chunks(it.getattr(o, "data")))
    return n


def deepcopy(it, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Opaque):
        n = Opaque(v.kind)
        n.copyof = v
        return n
    if isinstance(v, SList):
        n = it.mklist()
        memo[id(v)] = n
        out = []
        for k, x in it.chunks(v):
            if k == "e":
                out.append(("e", deepcopy(it, x, memo)))
            elif x.et in ("str", "line", "int", "nat", "bool"):
                out.append((k, x))
            else:
                out.append(("s", mapseg(it, x, x.et)))
        n.chunks = out
        return n
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x, memo) for x in v)
    if isinstance(v, SDict):
        return SDict({k: deepcopy(it, x, memo) for k, x in v.d.items()}, it.birth())
    if isinstance(v, SObj):
        m = it.classattr(v.cls, "__deepcopy__")
        if m is not UNDEF:
            r = it.call(Bound(m, v), [Memo()], {})
            memo[id(v)] = r
            return r
        it.e.spec.materialise(it, v)
        n = SObj(v.cls, it.birth(), lazy=v.lazy, exact=v.exact)
        n.notcls = list(v.notcls)
        memo[id(v)] = n
        for k, x in v.f.items():
            n.f[k] = deepcopy(it, x, memo)
        return n
    return v


# ---- isinstance -------------------------------------------------------------------------
def isinst(it, v, t):
    if isinstance(t, tuple):
        for x in t:
            if isinst(it, v, x):
                return True
        return False
    name = t.name
    if isinstance(t, ClassVal):
        if isinstance(v, SObj):
            if t in v.cls.mro():
                return True
            if v.exact:
                return False
            subs = [c for c in it.world.classes.values() if v.cls in c.mro() and t in c.mro()]
            if not subs or any(n in t.mro() for n in v.notcls):
                return False
            if it.ctx.choice(2, f"isinstance {t.name}") == 0:
                v.cls = t
                v.exact = not any(t in c.mro() and c is not t for c in it.world.classes.values()) or \
                    t.name not in it.e.spec.ABSTRACT
                it.e.spec.refine(it, v)
                return True
            v.notcls.append(t)
            return False
        if isinstance(v, EnumVal):
            return v.cls is t
        if isinstance(v, Opaque):
            return it.e.spec.opaque_isinstance(it, v, t)
        return False
    if name == "str":
        return is_str(v)
    if name == "int":
        return is_int(v) or is_bool(v)
    if name == "bool":
        return is_bool(v)
    if name == "slice":
        return isinstance(v, SliceVal)
    if name in ("list", "List"):
        return isinstance(v, SList) and not v.istuple
    if name == "tuple":
        return isinstance(v, tuple)
    if name == "type":
        return isinstance(v, (ClassVal, ExtClass))
    if name == "dict":
        return isinstance(v, SDict)
    if isinstance(v, External):
        return v.m_isinstance(it, t)
    if isinstance(v, Opaque):
        return it.e.spec.opaque_isinstance(it, v, t)
    if isinstance(v, SObj):
        return any(c.name == name for c in v.cls.mro())
    raise Unsupported(f"isinstance {name}")


# ---- calls ----------------------------------------------------------------------------------
def call_builtin(it, f, args, kwargs):
    ctx = it.ctx
    name = f.name
    r = it.e.spec.call_external(it, f, args, kwargs)
    if r is not UNDEF:
        return r
    if name == "gcm.__init__":
        fn, pos, kw = args
        f.self_.f["gen"] = it.call(fn, [v for _, v in it.chunks(it.tolist(pos))], dict(kw.d))
        return None
    if "." in name:
        mod, fn = name.rsplit(".", 1)
        if mod == "str":
            if f.self_ is None:
                return str_method(it, args[0], fn, list(args[1:]), kwargs)
            return str_method(it, f.self_, fn, list(args), kwargs)
        if mod == "list":
            return list_method(it, f.self_, fn, args, kwargs)
        if mod == "tuple":
            return list_method(it, it.mklist(f.self_), fn, args, kwargs)
        if mod == "userlist":
            return userlist(it, fn, f.self_, args, kwargs)
        if mod == "env":
            return f.self_.method(it, fn, args, kwargs)
        if mod == "dict":
            return dict_method(it, f.self_, fn, args, kwargs)
        if mod == "dictview":
            it.e.spec.materialise(it, f.self_.o)
            if fn == "items":
                return it.mklist([(k, v) for k, v in f.self_.o.f.items()])
            if fn == "update" and isinstance(args[0], DictView):
                it.e.spec.materialise(it, args[0].o)
                f.self_.o.f.update(args[0].o.f)
                return None
            raise Unsupported("__dict__")
        if mod == "regex":
            return re_call(it, fn, f.self_, args, kwargs)
        if mod == "smatch":
            return smatch_method(it, f.self_, fn, args, kwargs)
        if mod == "re":
            if fn == "escape":
                s = ctx.norm(args[0])
                if isinstance(s, str):
                    return re.escape(s)
                r = memo_str(it, "escape", s)
                a = _parts(ctx.norm(r))
                if len(a) == 1 and not isinstance(a[0], str):
                    ctx.hints[("escaped", a[0].get_id())] = s
                return r
            if fn == "compile":
                return compile_pattern(it, args[0], kwargs.get("flags", args[1] if len(args) > 1 else 0))
            nargs = {"match": 2, "search": 2, "fullmatch": 2, "split": 3, "sub": 4, "findall": 2}.get(fn)
            if nargs is None:
                raise Unsupported(name)
            flags = kwargs.pop("flags", 0) if "flags" in kwargs else (args[nargs] if len(args) > nargs else 0)
            rx = compile_pattern(it, args[0], flags)
            return re_call(it, fn, rx, list(args[1:nargs]), kwargs)
        if mod == "copy":
            return copy_copy(it, args[0]) if fn == "copy" else deepcopy(it, args[0])
        if mod == "itertools":
            if fn == "dropwhile":
                return IterVal("dropwhile", args[0], args[1])
            if fn == "chain":
                return IterVal("chain", *args)
        if mod == "typing" and fn == "cast":
            return args[1]
        if mod == "object":
            o = f.self_
            if fn == "__getattribute__":
                n = args[0]
                if isinstance(o, SObj):
                    if n in o.f:
                        return o.f[n]
                    if o.lazy and it.e.spec.fieldtype(o.cls, n) is not None:
                        return it.getattr(o, n)
                    if isinstance(n, str):
                        a = it.classattr(o.cls, n)
                        if a is not UNDEF:
                            return Bound(a, o) if isinstance(a, FuncVal) else a
                    raise PyExc("AttributeError")
            if fn == "__setattr__":
                if not isinstance(args[0], str):
                    # the name is not that of an ordinary attribute
                    it.write(o, "$other")
                    return None
                it.write(o, args[0])
                o.f[args[0]] = args[1]
                return None
            if fn == "__delattr__":
                if isinstance(args[0], str) and args[0] in o.f:
                    it.write(o, args[0])
                    del o.f[args[0]]
                    return None
                raise PyExc("AttributeError")
            if fn in ("__init__", "__init_subclass__"):
                return None
            if fn == "__new__":
                return SObj(args[0] if args else o, it.birth())
            if fn in ("__eq__", "__ne__"):
                return ctx.fresh_bool("eq")
        if mod == "class":
            if fn == "__subclasses__":
                return it.mklist([c for c in it.world.classes.values() if f.self_ in c.bases])
            if fn == "__new__":
                return SObj(args[0], it.birth())
        raise Unsupported(f"call of {name}")
    return PLAIN(it, name, args, kwargs, f)


def dict_method(it, d, fn, args, kwargs):
    if isinstance(d, ConstColl):
        if fn == "get":
            k = args[0]
            dflt = args[1] if len(args) > 1 else None
            if isinstance(k, str):
                from .interp import wrap_const
                return wrap_const(d.v[k]) if k in d.v else dflt
            if len(d.v) > 6:
                # unknown key: absent, or an arbitrary value
                vals = sorted({v for v in d.v.values()}, key=str) if all(
                    isinstance(v, str) for v in d.v.values()) else None
                if vals is None:
                    raise Unsupported("dict.get")
                if it.ctx.choice(2, "get") == 0:
                    return dflt
                return coll_elem(it, ConstColl(frozenset(vals)))
            for kk in d.v:
                if it.ctx.decide_eq(k, kk):
                    from .interp import wrap_const
                    return wrap_const(d.v[kk])
            return dflt
        if fn in ("keys",):
            return d
        if fn == "copy":
            if isinstance(d.v, dict):
                from .interp import wrap_const
                return SDict({k: wrap_const(v) for k, v in d.v.items()}, it.birth())
            return d
        if fn == "items" and isinstance(d.v, dict) and len(d.v) <= 8:
            return it.mklist([(k, v) for k, v in d.v.items()])
        raise Unsupported(f"constant.{fn}")
    if fn == "get":
        k = args[0]
        dflt = args[1] if len(args) > 1 else None
        if isinstance(k, (str, int)):
            return d.d.get(k, dflt)
        if is_str(k):
            for kk in d.d:
                if is_str(kk) and it.ctx.decide_eq(k, kk):
                    return d.d[kk]
            return dflt
    if fn in ("items", "keys", "values"):
        return IterVal(fn, d)
    if fn == "copy":
        return SDict(d.d, it.birth())
    if fn == "update" and args and isinstance(args[0], SDict):
        it.write(d)
        d.d.update(args[0].d)
        return None
    if fn == "pop" and isinstance(args[0], str):
        it.write(d)
        if args[0] in d.d:
            return d.d.pop(args[0])
        if len(args) > 1:
            return args[1]
        raise PyExc("KeyError")
    raise Unsupported(f"dict.{fn}")


def PLAIN(it, name, args, kwargs, f):
    ctx = it.ctx
    a = args
    if name == "len":
        v = a[0]
        if is_str(v):
            return ctx.slen(v)
        if isinstance(v, SList):
            return it.chunklen(it.chunks(v))
        if isinstance(v, (tuple,)):
            return len(v)
        if isinstance(v, SDict):
            return len(v.d)
        if isinstance(v, ConstColl):
            return len(v.v)
        if isinstance(v, SObj):
            m = it.classattr(v.cls, "__len__")
            if m is not UNDEF:
                return it.call(Bound(m, v), [], {})
            if it.is_userlist(v.cls):
                return it.chunklen(it.chunks(it.getattr(v, "data")))
        if isinstance(v, IterVal) and v.kind == "range":
            return v.args[1] - v.args[0]
        if v is None:
            raise PyExc("TypeError")
        raise Unsupported(f"len of {v!r}")
    if name == "isinstance":
        return isinst(it, a[0], a[1])
    if name == "issubclass":
        return a[1] in a[0].mro()
    if name == "str":
        return to_str(it, a[0]) if a else ""
    if name == "repr":
        return ctx.fresh_str("repr")
    if name == "int":
        return to_int(it, a[0]) if a else 0
    if name == "bool":
        return it.truth(a[0]) if a else False
    if name in ("list", "tuple"):
        if not a:
            return it.mklist() if name == "list" else ()
        if name == "tuple":
            L = to_list(it, a[0])
            if all(k == "e" for k, _ in it.chunks(L)):
                return tuple(x for _, x in L.chunks)
            L.istuple = True
            return L
        return to_list(it, a[0])
    if name in ("set", "frozenset"):
        return it.e.spec.mkset(it, a)
    if name == "dict":
        if not a:
            return SDict(kwargs, it.birth())
        if isinstance(a[0], SDict):
            return SDict({**a[0].d, **kwargs}, it.birth())
    if name == "reversed":
        if isinstance(a[0], tuple):
            return it.mklist(a[0][::-1])
        if isinstance(a[0], SList) and all(k == "e" for k, _ in it.chunks(a[0])):
            return it.mkchunks(a[0].chunks[::-1])
        return IterVal("reversed", a[0])
    if name == "enumerate":
        return IterVal("enumerate", a[0], kwargs.get("start", a[1] if len(a) > 1 else 0))
    if name == "range":
        if len(a) == 1:
            return IterVal("range", 0, a[0])
        if len(a) == 2:
            return IterVal("range", a[0], a[1])
        raise Unsupported("range step")
    if name == "zip":
        return IterVal("zip", *a)
    if name == "map":
        return IterVal("map", *a)
    if name == "iter":
        return a[0]
    if name == "next":
        d = a[1] if len(a) > 1 else UNDEF
        if isinstance(a[0], GenExp):
            return gen_first(it, a[0], d)
        if isinstance(a[0], External):
            return a[0].m_next(it, d)
        raise Unsupported("next")
    if name in ("any", "all"):
        return gen_any(it, a[0], name)
    if name == "sum":
        return it.e.spec.sum_of(it, a)
    if name == "abs":
        if isinstance(a[0], int):
            return abs(a[0])
        return z3.If(a[0] >= 0, a[0], -a[0])
    if name in ("min", "max"):
        if len(a) == 2 and is_int(a[0]) and is_int(a[1]) and not kwargs:
            if isinstance(a[0], int) and isinstance(a[1], int):
                return min(a) if name == "min" else max(a)
            c = (zint(a[0]) <= zint(a[1])) if name == "min" else (zint(a[0]) >= zint(a[1]))
            return a[0] if ctx.branch(c) else a[1]
        return it.e.spec.minmax(it, name, a, kwargs)
    if name == "sorted":
        if isinstance(a[0], External):
            return a[0].m_sorted(it, kwargs)
        return it.e.spec.sorted_of(it, a, kwargs)
    if name == "getattr":
        if isinstance(a[1], str):
            return it.getattr(a[0], a[1], a[2] if len(a) > 2 else UNDEF)
        if isinstance(a[0], SObj):
            ga = it.classattr(a[0].cls, "__getattr__")
            if ga is not UNDEF:
                return it.call(Bound(ga, a[0]), [a[1]], {})
        raise Unsupported("getattr of an unknown name")
    if name == "setattr":
        if isinstance(a[1], str):
            it.setattr(a[0], a[1], a[2])
            return None
        if isinstance(a[0], SObj):
            sa = it.classattr(a[0].cls, "__setattr__")
            if sa is not UNDEF:
                return it.call(Bound(sa, a[0]), [a[1], a[2]], {})
        raise Unsupported("setattr of an unknown name")
    if name == "delattr":
        return it.delattr(a[0], a[1])
    if name == "hasattr":
        try:
            return it.getattr(a[0], a[1], None) is not None
        except PyExc:
            return False
    if name == "callable":
        return isinstance(a[0], (FuncVal, Bound, Builtin, ClassVal))
    if name == "type":
        v = a[0]
        if isinstance(v, SObj):
            if not v.exact:
                raise Unsupported("type of an abstract object")
            return v.cls
        if isinstance(v, Opaque):
            k = ("typeof", id(v))
            if k not in ctx.hints:
                ctx.hints[k] = Opaque("type")
                ctx.hints[k].of = v
            return ctx.hints[k]
        if is_str(v):
            return Builtin("str")
        if v is None:
            return ExtClass("NoneType")
        raise Unsupported("type")
    if name == "hash":
        return it.e.spec.hash_of(it, a[0])
    if name == "id":
        k = ("idof", id(a[0]))
        if k not in ctx.hints:
            ctx.hints[k] = ctx.fresh_int("id")
            ctx.hints[("idkeep", id(a[0]))] = a[0]
        return ctx.hints[k]
    if name in ("print", "NotImplemented"):
        return None
    import builtins
    b = getattr(builtins, name, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return ExcVal(ExtClass(name), a)
    if name in ("ord", "chr", "round", "divmod", "pow"):
        if all(isinstance(x, (str, int)) for x in a):
            return getattr(builtins, name)(*a)
    raise Unsupported(f"call of {name}")


# ---- context managers -------------------------------------------------------------------
def run_cm(it, cm, run):
    if isinstance(cm, IterVal) and cm.kind == "existing":
        return run(cm.args[0])
    if isinstance(cm, IterVal) and cm.kind == "cmgenerator":
        # ContextManager resumes the generator in any case, it does not throw into it
        f, fr = cm.args
        state = {"n": 0, "exc": None}

        def on_yield(v):
            state["n"] += 1
            if state["n"] > 1:
                raise PathEnd("only the first value is used")
            try:
                run(v)
            except (PyExc, ReturnEx, BreakEx, ContinueEx) as e:
                state["exc"] = e
            return None

        fr.vars["$yield"] = on_yield
        try:
            it.ex(f.node.body, fr)
        except ReturnEx:
            # a return of the generator itself
            pass
        if state["n"] == 0:
            raise PyExc("StopIteration", "generator didn't yield")
        if state["exc"] is not None:
            raise state["exc"]
        return
    if isinstance(cm, IterVal) and cm.kind == "generator":
        f, fr = cm.args
        state = {"n": 0}

        def on_yield(v):
            state["n"] += 1
            if state["n"] > 1:
                raise PyExc("RuntimeError", "generator didn't stop")
            try:
                run(v)
            except ReturnEx as r:
                state["ret"] = r
                raise
            return None

        fr.vars["$yield"] = on_yield
        try:
            it.ex(f.node.body, fr)
        except ReturnEx as r:
            # a return inside the with block passes through; one of the generator itself ends it
            if r is state.get("ret"):
                raise
        if state["n"] == 0:
            raise PyExc("RuntimeError", "generator didn't yield")
        return
    if isinstance(cm, SObj):
        en = it.classattr(cm.cls, "__enter__")
        exm = it.classattr(cm.cls, "__exit__")
        if en is not UNDEF and exm is not UNDEF:
            v = it.call(Bound(en, cm), [], {})
            try:
                run(v)
            except PyExc as e:
                r = it.call(Bound(exm, cm), [e.cls if isinstance(e.cls, ClassVal) else ExtClass(e.name), e, None], {})
                if it.truth(r):
                    return
                raise
            except (PathEnd, Unsupported):
                raise
            except BaseException:
                it.call(Bound(exm, cm), [None, None, None], {})
                raise
            it.call(Bound(exm, cm), [None, None, None], {})
            return
    if it.e.spec.run_cm(it, cm, run):
        return
    raise Unsupported("context manager")
