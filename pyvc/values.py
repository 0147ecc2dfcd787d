"""Values of the symbolic interpreter."""
from .core import SStr, Unsupported, is_bool, is_int, is_str
import z3


class SList:
    """mutable list; chunks are ('e', value) or ('s', Seg)"""

    __slots__ = ("chunks", "birth", "istuple", "enumof")

    def __init__(self, chunks, birth, istuple=False):
        self.enumof = None
        self.chunks = list(chunks)
        self.birth = birth
        self.istuple = istuple

    def __repr__(self):
        return f"SList({self.chunks})"


class SObj:
    __slots__ = ("cls", "f", "birth", "lazy", "exact", "notcls", "tag")

    def __init__(self, cls, birth, lazy=False, exact=True):
        self.cls = cls
        self.f = {}
        self.birth = birth
        self.lazy = lazy
        self.exact = exact
        self.notcls = []
        self.tag = None

    def __repr__(self):
        return f"<{self.cls.name} {self.f}>"


class SDict:
    __slots__ = ("d", "birth", "absent")

    def __init__(self, d, birth):
        self.d = dict(d)
        self.birth = birth
        self.absent = set()

    def __repr__(self):
        return f"SDict({self.d})"


class ConstColl:
    """a constant collection of the repository (its contents are data, read from the source)"""

    def __init__(self, v):
        self.v = v


class AbsColl:
    """result of a comprehension over a constant collection: an arbitrary element is make()"""

    def __init__(self, make):
        self.make = make


class GenExp:
    def __init__(self, node, fr):
        self.node = node
        self.fr = fr


class IterVal:
    """lazy iterable: kind in list, reversed, enumerate, range, zip, map..."""

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args


class ClassVal:
    def __init__(self, name, node, module, bases):
        self.name = name
        self.node = node
        self.module = module
        self.bases = bases
        self.attrs = {}
        self.anns = {}
        self.enum = None
        self.qual = name
        for st in node.body if node is not None else []:
            if isinstance(st, ast.FunctionDef):
                decs = [decname(d) for d in st.decorator_list]
                if "overload" in decs:
                    continue
                if any(d.endswith(".setter") for d in decs):
                    self.attrs[st.name + "$set"] = st
                    continue
                self.attrs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.anns[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro() if isinstance(b, ClassVal) else [b]:
                if c not in out:
                    out.append(c)
        return out

    def __repr__(self):
        return f"class {self.name}"


class ExtClass:
    """a class of the standard library, by name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtClass) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def mro(self):
        return [self]

    def __repr__(self):
        return f"ext {self.name}"


class EnumVal:
    def __init__(self, cls, name):
        self.cls = cls
        self.name = name

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class FuncVal:
    def __init__(self, node, fr, cls=None, kind="func", qual=None):
        self.node = node
        self.fr = fr
        self.cls = cls
        self.kind = kind
        self.attrs = {}
        self.qual = qual or getattr(node, "name", "<lambda>")


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Builtin:
    def __init__(self, name, self_=None):
        self.name = name
        self.self_ = self_

    def __repr__(self):
        return f"builtin {self.name}"


class ModVal:
    def __init__(self, name):
        self.name = name


class Opaque:
    """a value about which nothing is known except its kind"""

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return f"opaque {self.kind}"


class External(Opaque):
    """a value from outside of the repository with modelled behaviour; what a subclass does not model is out of reach"""

    def __init__(self, kind):
        super().__init__(kind)

    def _no(self, what):
        raise Unsupported(f"{what} of {self!r}")

    def m_attr(self, it, name, default):
        self._no(f"attribute {name}")

    def m_call(self, it, args, kwargs):
        """args is a list of chunks, kwargs a dict or an External"""
        self._no("call")

    def m_getitem(self, it, i):
        self._no("item")

    def m_setitem(self, it, i, v):
        self._no("item assignment")

    def m_delitem(self, it, i):
        self._no("item deletion")

    def m_contains(self, it, x):
        self._no("membership")

    def m_truth(self, it):
        self._no("truth")

    def m_next(self, it, default):
        self._no("next")

    def m_sorted(self, it, kwargs):
        self._no("sorting")

    def m_list(self, it):
        self._no("list")

    def m_isinstance(self, it, t):
        self._no("class")

    def m_format(self, it, spec):
        self._no("text")


class Method(External):
    """a method of an External, given by a function of (it, args, kwargs)"""

    def __init__(self, name, fn):
        super().__init__("method " + name)
        self.fn = fn

    def m_call(self, it, args, kwargs):
        if any(k != "e" for k, _ in args) or isinstance(kwargs, External):
            self._no("star call")
        return self.fn(it, [v for _, v in args], kwargs)

    def m_truth(self, it):
        return True


class SRegex:
    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = flags


class SMatch:
    def __init__(self, groups, names, spans, string):
        self.groups = groups
        self.names = names
        self.spans = spans
        self.string = string


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class HavocVar:
    """a local variable with an unknown value at a loop head, materialised when read"""

    def __init__(self, info, name, initial):
        self.info = info
        self.name = name
        self.initial = initial


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class PyExc(Exception):
    def __init__(self, cls, msg=""):
        self.cls = cls
        self.msg = msg

    def __str__(self):
        return f"{self.name}({self.msg})"

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Frame:
    __slots__ = ("vars", "parent", "module", "cls", "func", "selfv", "site", "nonlocals")

    def __init__(self, parent, module, cls=None, func=None, site=()):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.cls = cls
        self.func = func
        self.selfv = None
        self.site = site
        self.nonlocals = set()


import ast  # noqa: E402


def decname(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return decname(d.value) + "." + d.attr
    return "?"


UNDEF = object()


def typeof(v):
    """type descriptor of a value, for havoc at loop heads"""
    if v is None:
        return "none"
    if is_str(v):
        return "str"
    if is_bool(v):
        return "bool"
    if is_int(v):
        return "int"
    if isinstance(v, tuple):
        return ("tuple", tuple(typeof(x) for x in v))
    if isinstance(v, SList):
        t = None
        for k, x in v.chunks:
            t = join(t, typeof(x) if k == "e" else x.et)
        return ("list", t)
    if isinstance(v, SObj):
        return ("obj", v.cls.name)
    if isinstance(v, EnumVal):
        return ("enum", v.cls.name)
    if isinstance(v, HavocVar):
        return v.info.types.get(v.name) or typeof(v.initial)
    if v is UNDEF:
        return None
    return "any"


def join(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    if {a, b} == {"str", "line"}:
        return "str"
    if a == "none" or b == "none":
        t = b if a == "none" else a
        return t if isinstance(t, tuple) and t[0] == "opt" else ("opt", t)
    if isinstance(a, tuple) and a[0] == "opt":
        return ("opt", join(a[1], b[1] if isinstance(b, tuple) and b[0] == "opt" else b))
    if isinstance(b, tuple) and b[0] == "opt":
        return ("opt", join(a, b[1]))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == "list":
            return ("list", join(a[1], b[1]))
        if a[0] == "tuple" and len(a[1]) == len(b[1]):
            return ("tuple", tuple(join(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == "obj":
            return ("union", tuple(sorted({a, b}, key=str)))
    us = set()
    for x in (a, b):
        us |= set(x[1]) if isinstance(x, tuple) and x[0] == "union" else {x}
    return ("union", tuple(sorted(us, key=str)))
