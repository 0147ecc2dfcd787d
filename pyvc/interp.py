"""Symbolic interpreter over the abstract syntax of the repository's own source files."""
import ast
import builtins as pybuiltins
import itertools
import os

import z3

from .core import (STATS, Ctx, Decisions, PathEnd, Seg, SStr, Unsupported, is_bool, is_int, is_str, keep, mkstr, simp,
                   solve, zbool, zint, zstr, _parts, _replace)
from .values import *  # noqa: F401,F403
from .values import UNDEF
from . import models
from .models import nlcount

MAX_DEPTH = 25


class World:
    """the parsed source tree"""

    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.trees = {}
        pkg = os.path.join(root, "specfile")
        self.order = []
        for fn in sorted(os.listdir(pkg)):
            if fn.endswith(".py"):
                name = fn[:-3]
                with open(os.path.join(pkg, fn), encoding="utf8") as f:
                    src = f.read()
                tree = ast.parse(src)
                self.trees[name] = tree
                self.modules[name] = {}
        for name, tree in self.trees.items():
            env = self.modules[name]
            for st in _toplevel(tree.body):
                if isinstance(st, ast.FunctionDef):
                    env[st.name] = ("func", st)
                elif isinstance(st, ast.ClassDef):
                    env[st.name] = ("class", st)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            env[t.id] = ("expr", st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    env[st.target.id] = ("expr", st.value)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        env[(a.asname or a.name).split(".")[0]] = ("val", ModVal((a.asname or a.name).split(".")[0]))
                elif isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        if st.module and st.module.startswith("specfile."):
                            env[a.asname or a.name] = ("from", st.module.split(".", 1)[1], a.name)
                        else:
                            env[a.asname or a.name] = ("ext", st.module, a.name)
        for name in list(self.modules):
            for k, v in list(self.modules[name].items()):
                if v[0] == "class":
                    self.get_class(name, k)

    def get_class(self, module, name):
        env = self.modules[module]
        v = env[name]
        if v[0] == "val":
            return v[1]
        node = v[1]
        bases = []
        for b in node.bases:
            bn = b
            if isinstance(bn, ast.Subscript):
                bn = bn.value
            d = decname(bn)
            if isinstance(bn, ast.Name) and bn.id in env:
                x = env[bn.id]
                if x[0] in ("class", "val"):
                    if x[0] == "val" and not isinstance(x[1], ClassVal):
                        bases.append(ExtClass(d))
                    else:
                        bases.append(self.get_class(module, bn.id))
                    continue
                if x[0] == "from":
                    if x[2] == "UserList":
                        bases.append(ExtClass("UserList"))
                    else:
                        bases.append(self.get_class(x[1], x[2]))
                    continue
            bases.append(ExtClass(d.split(".")[-1]))
        c = ClassVal(name, node, module, bases)
        if any(b.name in ("Enum", "IntEnum") for b in c.mro()):
            c.enum = [k for k in c.attrs if not k.startswith("_") and not isinstance(c.attrs[k], ast.FunctionDef)]
        env[name] = ("val", c)
        self.classes[name] = c
        return c

    def lookup(self, module, name):
        env = self.modules.get(module)
        if env is None or name not in env:
            return UNDEF
        v = env[name]
        if v[0] == "val":
            return v[1]
        if v[0] == "from":
            if v[2] == "UserList":
                return ExtClass("UserList")
            return self.lookup(v[1], v[2])
        if v[0] == "ext":
            return models.external(v[1], v[2])
        if v[0] == "func":
            fr = Frame(None, module)
            r = FuncVal(v[1], fr, qual=v[1].name)
            env[name] = ("val", r)
            return r
        if v[0] == "expr":
            val = const_eval(v[1], self, module)
            if val is UNDEF:
                return ("lazy", v[1])
            r = wrap_const(val)
            env[name] = ("val", r)
            return r
        raise Unsupported(f"global {name}")

    def find_function(self, qual):
        """qual = module:Class.method or module:function"""
        module, rest = qual.split(":")
        if "." in rest:
            cn, fn = rest.split(".", 1)
            outer = self.modules[module].get(cn)
            if outer is not None and outer[0] == "func":
                for x in ast.walk(outer[1]):
                    if isinstance(x, ast.FunctionDef) and x.name == fn:
                        return None, x
                return None
            cls = self.get_class(module, cn)
            if "." in fn:
                m, fn = fn.split(".", 1)
                for x in ast.walk(cls.attrs[m]) if m in cls.attrs else ():
                    if isinstance(x, ast.FunctionDef) and x.name == fn:
                        return cls, x
                return None
            if fn not in cls.attrs:
                return None
            return cls, cls.attrs[fn]
        v = self.modules[module].get(rest)
        if v is None:
            return None
        if v[0] == "func":
            return None, v[1]
        if v[0] == "val" and isinstance(v[1], FuncVal):
            return None, v[1].node
        return None


def _toplevel(body):
    for st in body:
        if isinstance(st, ast.If):
            yield from _toplevel(st.body)
        elif isinstance(st, ast.Try):
            yield from _toplevel(st.body)
        else:
            yield st


def const_eval(node, world, module):
    """evaluate a constant (data-only) expression"""
    allowed = (ast.Constant, ast.Set, ast.Dict, ast.Tuple, ast.List, ast.BinOp, ast.BitOr, ast.Add, ast.Sub, ast.Name,
               ast.Load, ast.UnaryOp, ast.USub)
    for n in ast.walk(node):
        if not isinstance(n, allowed):
            return UNDEF
    env = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            v = world.modules[module].get(n.id)
            if v is None or v[0] not in ("expr", "val"):
                return UNDEF
            if v[0] == "expr":
                x = const_eval(v[1], world, module)
                if x is UNDEF:
                    return UNDEF
                env[n.id] = x
            else:
                x = v[1]
                env[n.id] = x.v if isinstance(x, ConstColl) else x
    try:
        return eval(compile(ast.Expression(node), "<const>", "eval"), {"__builtins__": {}}, env)
    except Exception:
        return UNDEF


def wrap_const(v):
    if isinstance(v, (set, frozenset, dict, list)):
        return ConstColl(v)
    if isinstance(v, tuple):
        return tuple(wrap_const(x) for x in v)
    return v


class LoopInfo:
    def __init__(self, key):
        self.key = key
        self.mods = {}       # access path -> type
        self.names = set()
        self.types = {}      # local name -> type
        self.reads = set()
        self.killed = set()  # auxiliary candidates found not inductive
        self.assumed = []    # conservation laws assumed at the loop head in this pass
        self.pairs = []      # carrier values at head and end of every step path of this pass
        self.broken = set()  # assumed laws that some step path does not conserve
        self.changed = False
        self.sig = None
        self.steps = 0


def _pure(e):
    """evaluating e has no effect and cannot fail"""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Compare):
        return all(_pure(x) for x in [e.left] + e.comparators) and all(
            isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in e.ops)
    if isinstance(e, ast.UnaryOp):
        return _pure(e.operand)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("startswith", "endswith"):
        return isinstance(e.func.value, ast.Name) and len(e.args) == 1 and isinstance(e.args[0], ast.Constant)
    return False


_ASSIGNED = {}


def assigned_names(stmts):
    k = tuple(id(s) for s in stmts)
    if k not in _ASSIGNED:
        _ASSIGNED[k] = (assigned_names_(stmts), list(stmts))
    return set(_ASSIGNED[k][0])


def assigned_names_(stmts):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            tgt(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in stmts:
        walk(s)
    return out


class Interp:
    def __init__(self, engine, ctx):
        self.star = {}
        self.e = engine
        self.ctx = ctx
        self.world = engine.world
        self.depth = 0
        self.writes = []
        self.calls = []
        self.site = ()
        self.sub = None
        self.classvars = {}
        self.scan = {}
        self.plain = False

    # ---- allocation ---------------------------------------------------------
    def birth(self):
        self.ctx.created += 1
        return self.ctx.created

    def mklist(self, elems=(), istuple=False):
        return SList([("e", v) for v in elems], self.birth(), istuple)

    def mkchunks(self, chunks):
        return SList(chunks, self.birth())

    def newseg(self, et, facts=()):
        self.ctx.counter += 1
        s = Seg(self.ctx.counter, et)
        self.ctx.segfacts[s.id] = set(facts)
        self.ctx.segs[s.id] = s
        return s

    def linklines(self):
        """in a list of lines, the number of elements is the number of newlines of the text"""
        ctx = self.ctx
        for i, vs in list(ctx.views.items()):
            if "len" in vs and "text" in vs and i in ctx.segs and ("linked", i) not in ctx.hints \
                    and self.lineseg(ctx.segs[i]):
                ctx.hints[("linked", i)] = True
                ctx.assume(vs["len"] == zint(nlcount(self, mkstr(vs["text"]))))
        nlcount(self, "")

    def fresh(self, t, hint="v"):
        """an arbitrary value of a type"""
        ctx = self.ctx
        if t in ("str", "line"):
            s = ctx.fresh_str(hint)
            if t == "line":
                ctx.set_nonl(s)
            return s
        if t == "int":
            return ctx.fresh_int(hint)
        if t == "nat":
            i = ctx.fresh_int(hint)
            ctx.assume(i >= 0)
            return i
        if t == "bool":
            return ctx.fresh_bool(hint)
        if t == "none":
            return None
        if t == "opaque":
            return Opaque(hint)
        if isinstance(t, str) and t.startswith("opaque:"):
            return Opaque(t[7:])
        if t == "any":
            return Opaque("any")
        if t == "context":
            return Opaque("context")
        if isinstance(t, tuple):
            k = t[0]
            if k == "opt":
                return None if ctx.choice(2, hint + "?none") == 0 else self.fresh(t[1], hint)
            if k == "list":
                if t[1] is None:
                    return self.mklist()
                return self.mkchunks([("s", self.newseg(t[1], t[2] if len(t) > 2 else ()))])
            if k == "tuple":
                return tuple(self.fresh(x, hint) for x in t[1])
            if k == "obj":
                cls = self.world.classes[t[1]]
                o = SObj(cls, self.birth(), lazy=True, exact=t[1] not in self.e.spec.ABSTRACT)
                return o
            if k == "enum":
                cls = self.world.classes[t[1]]
                return self.enumval(cls, cls.enum[ctx.choice(len(cls.enum), hint)])
            if k == "union":
                return self.fresh(t[1][ctx.choice(len(t[1]), hint)], hint)
            if k == "const":
                return t[1]
        raise Unsupported(f"arbitrary value of type {t}")

    def enumval(self, cls, name):
        c = self.e.enums
        if (cls.name, name) not in c:
            c[(cls.name, name)] = EnumVal(cls, name)
        return c[(cls.name, name)]

    def marked(self, x):
        """x stands for an element of a symbolic segment: it existed before"""
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, (SObj, SList)):
                y.birth = 0
                if isinstance(y, SObj):
                    y.tag = "elem"
        return x

    # ---- lists --------------------------------------------------------------
    def expand(self, chunks):
        out = []
        for k, v in chunks:
            if k == "s" and v.id in self.ctx.segdefs:
                out.extend(self.expand(self.ctx.segdefs[v.id]))
            else:
                out.append((k, v))
        return out

    def chunks(self, L):
        L.chunks = self.expand(L.chunks)
        return L.chunks

    def segdef(self, seg, chunks):
        """learn that seg is the concatenation of chunks"""
        ctx = self.ctx
        old = dict(ctx.views.get(seg.id, {}))
        ctx.segdefs[seg.id] = list(chunks)
        for k, c in chunks:
            if k == "s" and c.id != seg.id:
                ctx.segfacts.setdefault(c.id, set()).update(ctx.segfacts.get(seg.id, ()))
            elif k == "e":
                self.elemfacts(c, ctx.segfacts.get(seg.id, ()))
        if seg.id in ctx.segasc:
            lo, hi = ctx.segasc[seg.id]
            for i, (k, c) in enumerate(chunks):
                if k == "e":
                    ctx.assume(z3.And(zint(lo) <= zint(c), zint(c) < zint(hi)))
                    lo = zint(c) + 1
                elif c.id != seg.id:
                    nx = next((x for kk, x in chunks[i + 1:] if kk == "e"), hi)
                    ctx.segasc[c.id] = (lo, nx)
        for L, prefix, _ in ctx.segelem.get(seg.id, ()):
            for k, c in chunks:
                if k == "e" and ctx.known(z3.And(zint(c) >= 0, zint(c) < zint(self.chunklen(L.chunks)))):
                    # the line at the index has the prefix
                    pos = self.locate(L, c)
                    ctx.assume_eq(self.chunks(L)[pos][1], mkstr(prefix, ctx.fresh_atom("rest")))
                elif k == "s" and c.id != seg.id:
                    ctx.segelem[c.id] = ctx.segelem[seg.id]
        for name, atom in old.items():
            if name == "len":
                ctx.assume(atom == zint(self.chunklen(chunks)))
            elif self.plain:
                pass
            elif name == "lines":
                ctx.assume(atom == zint(self.cview(chunks, name)))
            else:
                ctx.assume_eq(mkstr(atom), self.cview(chunks, name))

    def pred(self, kind, arg, fn):
        """key of the predicate fn on elements of a list, which depends on the string arg"""
        k = (kind, keep(zstr(arg)))
        self.ctx.preds.setdefault(k, fn)
        return k

    def satisfies(self, key, x):
        r = self.ctx.preds[key](self, x)
        return r if isinstance(r, z3.ExprRef) else z3.BoolVal(bool(r))

    def assume_none(self, chunks, key):
        """no element of the chunks satisfies the predicate"""
        for k, x in self.expand(chunks):
            if k == "e":
                self.ctx.assume(simp(z3.Not(self.satisfies(key, x))))
            else:
                self.ctx.segfacts.setdefault(x.id, set()).add(key)

    def none_holds(self, chunks, key):
        for k, x in self.expand(chunks):
            if k == "e":
                if not self.ctx.known(z3.Not(self.satisfies(key, x))):
                    return False
            elif key not in self.ctx.segfacts.get(x.id, ()) and not self.ctx.known(self.seglen(x) == 0):
                return False
        return True

    def position_of(self, chunks, i):
        """number of chunks before the element at index i, if that is known"""
        off = 0
        for p, (k, x) in enumerate(chunks):
            if k == "e":
                if self.ctx.known(zint(off) == zint(i)):
                    return p
                off = off + 1
            else:
                off = off + self.seglen(x)
        return None

    def elemfacts(self, v, facts):
        for f in facts:
            if isinstance(f, tuple):
                self.ctx.assume(simp(z3.Not(self.satisfies(f, v))))
        if "nonl" in facts:
            x = v[0] if isinstance(v, tuple) else v
            if is_str(x):
                self.ctx.set_nonl(x)
        if "nonempty" in facts and is_str(v):
            self.ctx.assume(zint(self.ctx.slen(v)) >= 1)
        if "char" in facts and is_str(v):
            self.ctx.assume(zint(self.ctx.slen(v)) == 1)
            for p in _parts(v):
                if not isinstance(p, str):
                    self.ctx.nonempty.add(p.get_id())

    def seglen(self, seg):
        v = self.ctx.views.setdefault(seg.id, {})
        if "len" not in v:
            a = z3.Int(f"len@{seg.id}")
            keep(a)
            v["len"] = a
            self.ctx.assume(a >= 0)
        return v["len"]

    def chunklen(self, chunks):
        n, terms = 0, []
        for k, v in self.expand(chunks):
            if k == "e":
                n += 1
            else:
                terms.append(self.seglen(v))
        if not terms:
            return n
        t = z3.Sum(terms) if len(terms) > 1 else terms[0]
        return t + n if n else t

    def seg_empty(self, seg):
        """fork: is the segment empty?"""
        n = self.seglen(seg)
        if self.ctx.branch(n >= 1):
            if seg.et == "line":
                t = self.ctx.norm(self.cview([("s", seg)], "text"))
                if not isinstance(t, str) and len(t.parts) == 1 and not isinstance(t.parts[0], str):
                    if t.parts[0].get_id() not in self.ctx.nonempty:
                        self.ctx.nonempty.add(t.parts[0].get_id())
                        self.ctx.assume(z3.Length(t.parts[0]) >= 1)
            return False
        self.segdef(seg, [])
        return True

    def drop_empty(self, seg):
        """the segment is empty if its length is known to be zero"""
        if "len" in self.ctx.views.get(seg.id, {}) and self.ctx.known(self.seglen(seg) == 0):
            self.segdef(seg, [])

    def drop_all_empty(self):
        """as drop_empty for all segments; True if there was one"""
        hit = False
        for i, vs in list(self.ctx.views.items()):
            if "len" in vs and i in self.ctx.segs and i not in self.ctx.segdefs and self.ctx.known(vs["len"] == 0):
                self.segdef(self.ctx.segs[i], [])
                hit = True
        return hit

    def front(self, L):
        """make the first chunk an element; False if the list is empty"""
        while True:
            ch = self.chunks(L)
            if not ch:
                return False
            k, v = ch[0]
            if k == "e":
                return True
            if self.seg_empty(v):
                continue
            x = self.marked(self.fresh(v.et, "x"))
            rest = self.newseg(v.et)
            self.segdef(v, [("e", x), ("s", rest)])
            self.drop_empty(rest)

    def back(self, L):
        while True:
            ch = self.chunks(L)
            if not ch:
                return False
            k, v = ch[-1]
            if k == "e":
                return True
            if self.seg_empty(v):
                continue
            x = self.marked(self.fresh(v.et, "x"))
            rest = self.newseg(v.et)
            self.segdef(v, [("s", rest), ("e", x)])
            self.drop_empty(rest)

    def list_truth(self, L):
        ch = self.chunks(L)
        if any(k == "e" for k, _ in ch):
            return True
        for k, v in ch:
            if not self.seg_empty(v):
                return True
        return False

    def locate(self, L, i, insert=False):
        """position of index i (0 <= i < len, or <= len when insert): returns the number of chunks before it,
        splitting segments; raises IndexError on paths where i is out of range"""
        ctx = self.ctx
        ch = self.chunks(L)
        n = self.chunklen(ch)
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if insert:
                i = min(max(i, 0), n)
            elif not 0 <= i < n:
                raise PyExc("IndexError")
            return i
        if isinstance(i, int) and i < 0:
            # from the back, element by element
            j = len(ch)
            for step in range(-i):
                sub = SList(ch[:j], 0)
                if not self.back(sub):
                    if insert:
                        break
                    raise PyExc("IndexError")
                ch = sub.chunks + ch[j:]
                j = len(sub.chunks) - 1
                L.chunks = ch
            return j
        if isinstance(i, int):
            pos = 0
            for step in range(i + (0 if insert else 1)):
                sub = SList(ch[pos:], 0)
                if not self.front(sub):
                    if insert:
                        return pos
                    raise PyExc("IndexError")
                ch = ch[:pos] + sub.chunks
                L.chunks = ch
                if step < i:
                    pos += 1
            return pos
        # symbolic index
        zi = zint(i)
        if not ctx.branch(zi >= 0):
            if insert:
                raise Unsupported("insert at a symbolic negative index")
            if not ctx.branch(zi + zint(n) >= 0):
                raise PyExc("IndexError")
            return self.locate(L, simp(zi + zint(n)), insert)
        if insert:
            if not ctx.branch(zi < zint(n)):
                return len(ch)
        elif not ctx.branch(zi < zint(n)):
            raise PyExc("IndexError")
        off = 0
        for pos, (k, v) in enumerate(ch):
            rel = simp(zi - zint(off))
            if k == "e":
                if ctx.branch(rel == 0):
                    return pos
                off = off + 1
                continue
            ln = self.seglen(v)
            if ctx.branch(rel >= ln):
                off = off + ln
                continue
            a = self.newseg(v.et)
            b = self.newseg(v.et)
            x = self.marked(self.fresh(v.et, "x"))
            self.segdef(v, [("s", a), ("e", x), ("s", b)])
            ctx.assume(self.seglen(a) == rel)
            self.drop_empty(a)
            self.drop_empty(b)
            before = len(self.expand(ch[:pos] + [("s", a)]))
            L.chunks = self.expand(ch)
            return before
        if insert:
            return len(ch)
        raise PyExc("IndexError")

    def slice_pos(self, L, i, default):
        """number of chunks before slice bound i (clamped, as in Python)"""
        if i is None:
            return default
        ctx = self.ctx
        if isinstance(i, z3.ExprRef):
            i = simp(i)
            if z3.is_int_value(i):
                i = i.as_long()
        if not isinstance(i, int):
            if not ctx.branch(i >= 0):
                n = self.chunklen(self.chunks(L))
                i2 = simp(zint(i) + zint(n))
                if not ctx.branch(i2 >= 0):
                    return 0
                i = i2
        return self.locate(L, i, insert=True)

    def slice(self, L, lo, hi, step=None):
        if step not in (None, 1):
            raise Unsupported("extended slice")
        # bounds by splitting twice; positions after the second split are re-derived
        a = self.slice_pos(L, lo, 0)
        left = list(L.chunks[:a])
        right = SList(L.chunks[a:], 0)
        if hi is None:
            return left, list(right.chunks), []
        if isinstance(hi, int) and hi < 0:
            j = self.slice_pos(right, hi, 0)
            mid, tail = right.chunks[:j], right.chunks[j:]
        else:
            whole = SList(left + right.chunks, 0)
            b = self.slice_pos(whole, hi, 0)
            # left part may have been split further, count it again
            la = len(self.expand(left))
            if b < la:
                mid, tail = [], []
                left2 = self.expand(left)
                L.chunks = whole.chunks
                return left2, [], whole.chunks[la:]
            mid, tail = whole.chunks[la:b], whole.chunks[b:]
            left = whole.chunks[:la]
        L.chunks = left + mid + tail
        return left, list(mid), list(tail)

    # ---- views --------------------------------------------------------------
    def eview(self, v, name):
        if isinstance(v, tuple):
            for x in v:
                if is_str(x) or isinstance(x, SObj):
                    return self.eview(x, name)
            raise Unsupported("view of a tuple")
        if is_int(v) and name == "lines":
            return v
        if is_str(v):
            if name == "lines":
                return nlcount(self, mkstr(v, "\n"))
            if name in ("nb", "rnb"):
                # text without the empty lines
                return mkstr(v, "\n") if self.ctx.truth_str(v) else ""
            return v if name.endswith("cat") else mkstr(v, "\n")
        if isinstance(v, SObj):
            return self.e.spec.objview(self, v, name)
        raise Unsupported(f"view {name} of {v!r}")

    def lineseg(self, seg):
        """every element is one line of text"""
        et = seg.et
        if isinstance(et, tuple) and et[0] == "tuple":
            et = next((x for x in et[1] if x in ("str", "line")), None)
        return et == "line" or et == "str" and "nonl" in self.ctx.segfacts.get(seg.id, ())

    def viewable(self, et, name):
        if et in ("int", "nat"):
            return name == "lines"
        if et is None or et in ("str", "line"):
            return True
        if isinstance(et, tuple):
            if et[0] == "tuple":
                return any(self.viewable(x, name) for x in et[1])
            if et[0] == "union":
                return all(self.viewable(x, name) for x in et[1])
            if et[0] == "obj":
                return self.e.spec.viewable(self.world.classes[et[1]], name)
        return False

    def cview(self, chunks, name):
        out = []
        for k, v in chunks:
            if k == "s" and not self.viewable(v.et, name):
                raise Unsupported(f"view {name} of {v.et}")
        if name == "lines":
            n = 0
            for k, v in self.expand(chunks):
                if k == "e":
                    n = n + self.eview(v, name)
                elif v.et in ("int", "nat"):
                    vs = self.ctx.views.setdefault(v.id, {})
                    if name not in vs:
                        a = z3.Int(f"lines@{v.id}")
                        keep(a)
                        vs[name] = a
                    n = n + vs[name]
                else:
                    c = nlcount(self, self.cview([(k, v)], "text"))
                    if self.lineseg(v):
                        self.ctx.assume(zint(c) == self.seglen(v))
                    n = n + c
            return n
        for k, v in self.expand(chunks):
            if k == "e":
                out.append(self.eview(v, name))
            else:
                vs = self.ctx.views.setdefault(v.id, {})
                if name not in vs:
                    a = z3.String(f"{name}@{v.id}")
                    keep(a)
                    vs[name] = a
                out.append(mkstr(vs[name]))
        if name.startswith("r"):
            out.reverse()
        return self.ctx.norm(mkstr(*out))

    def view(self, v, name="text"):
        """view of a list, a list-like object, or a string"""
        if isinstance(v, SList):
            return self.cview(v.chunks, name)
        if isinstance(v, SObj):
            if "data" in v.f or self.is_userlist(v.cls):
                return self.view(self.getattr(v, "data"), name)
        if isinstance(v, tuple):
            return self.cview([("e", x) for x in v], name)
        raise Unsupported(f"view {name} of {v!r}")

    # ---- attribute access -----------------------------------------------------
    def is_userlist(self, cls):
        return any(c.name == "UserList" for c in cls.mro())

    def write(self, o, field=None):
        self.writes.append((o, field))

    def findattr(self, cls, name):
        for c in cls.mro():
            if isinstance(c, ClassVal) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def classattr(self, cls, name, obj=None):
        c, node = self.findattr(cls, name)
        if c is None:
            return UNDEF
        if (c.name, name) in self.classvars:
            return self.classvars[c.name, name]
        if isinstance(node, ast.FunctionDef):
            kind = "func"
            decs = [decname(d) for d in node.decorator_list]
            if "classmethod" in decs:
                kind = "classmethod"
            elif "staticmethod" in decs:
                kind = "staticmethod"
            elif "property" in decs or "abstractmethod" in decs and "property" in decs:
                kind = "property"
            for d in decs:
                if d not in ("classmethod", "staticmethod", "property", "formatted", "abstractmethod", "overload"):
                    kind = "dec:" + d
            return FuncVal(node, Frame(None, c.module, c), cls=c, kind=kind, qual=f"{c.module}:{c.name}.{name}")
        if c.enum and name in c.enum:
            return self.enumval(c, name)
        v = const_eval(node, self.world, c.module)
        if v is not UNDEF:
            return wrap_const(v)
        fr = Frame(None, c.module, c)
        for n in ast.walk(node):
            # names of the class body
            if isinstance(n, ast.Name) and n.id in c.attrs and not isinstance(c.attrs[n.id], ast.FunctionDef):
                fr.vars[n.id] = self.classattr(c, n.id)
        return self.ev(node, fr)

    def getattr(self, o, name, default=UNDEF):
        if isinstance(o, HavocVar):
            raise Unsupported("havoc value escaped")
        if isinstance(o, SObj):
            if name in o.f:
                return o.f[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return models.DictView(o)
            a = self.classattr(o.cls, name, o)
            if a is not UNDEF:
                if isinstance(a, FuncVal):
                    if a.kind == "property":
                        return self.call(a, [o], {})
                    if a.kind == "classmethod":
                        return Bound(a, o.cls)
                    if a.kind == "staticmethod":
                        return a
                    return Bound(a, o)
                return a
            if o.lazy:
                t = self.e.spec.fieldtype(o.cls, name)
                if t is not None:
                    if self.sub is not None and o.birth <= self.sub and o.tag != "elem":
                        raise Unsupported("outer object read inside a comprehension")
                    return self.e.spec.mkfield(self, o, name, t)
            if self.is_userlist(o.cls) and name in models.LIST_METHODS:
                return Builtin("userlist." + name, o)
            ga = self.classattr(o.cls, "__getattr__")
            if ga is not UNDEF:
                try:
                    return self.call(Bound(ga, o), [name], {})
                except PyExc as e:
                    if e.name == "AttributeError" and default is not UNDEF:
                        return default
                    raise
            if name in ("__getattribute__", "__setattr__", "__delattr__"):
                return Builtin("object." + name, o)
            if default is not UNDEF:
                return default
            raise PyExc("AttributeError", name)
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            if name == "__subclasses__":
                return Builtin("class.__subclasses__", o)
            if name == "__new__":
                return Builtin("class.__new__", o)
            a = self.classattr(o, name)
            if a is UNDEF:
                if name in ("__init__",):
                    return Builtin("object.__init__", o)
                raise PyExc("AttributeError", name)
            if isinstance(a, FuncVal) and a.kind == "classmethod":
                return Bound(a, o)
            return a
        if isinstance(o, SuperVal):
            mro = o.obj.cls.mro() if isinstance(o.obj, SObj) else o.obj.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassVal) and name in c.attrs:
                    node = c.attrs[name]
                    decs = [decname(d) for d in node.decorator_list]
                    fv = FuncVal(node, Frame(None, c.module, c), cls=c, qual=f"{c.module}:{c.name}.{name}")
                    if "property" in decs:
                        return self.call(fv, [o.obj], {})
                    return Bound(fv, o.obj)
                if isinstance(c, ExtClass) and c.name.endswith("_GeneratorContextManager") and name == "__init__":
                    return Builtin("gcm.__init__", o.obj)
                if isinstance(c, ExtClass) and c.name == "UserList" and name in models.LIST_METHODS | {"__init__"}:
                    return Builtin("userlist." + name, o.obj)
            return Builtin("object." + name, o.obj)
        if isinstance(o, ModVal):
            return models.module_attr(self, o, name)
        if isinstance(o, FuncVal):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.node.name
            if default is not UNDEF:
                return default
            raise PyExc("AttributeError", name)
        if isinstance(o, EnumVal):
            a = self.classattr(o.cls, name)
            if a is not UNDEF:
                return a
        return models.value_attr(self, o, name, default)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            c, node = self.findattr(o.cls, name + "$set")
            if c is not None:
                fv = FuncVal(node, Frame(None, c.module, c), cls=c, qual=f"{c.module}:{c.name}.{name}.setter")
                self.call(Bound(fv, o), [v], {})
                return
            sa = self.classattr(o.cls, "__setattr__")
            if sa is not UNDEF and not self.e.spec.plain_field(o.cls, name):
                self.call(Bound(sa, o), [name, v], {})
                return
            self.write(o, name)
            o.f[name] = v
            return
        if isinstance(o, FuncVal):
            o.attrs[name] = v
            return
        if isinstance(o, ClassVal):
            self.write(o, name)
            self.e.note_class_write(self, o, name, v)
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    # ---- functions --------------------------------------------------------------
    def call(self, f, args, kwargs, node=None):
        ctx = self.ctx
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Builtin):
            return models.call_builtin(self, f, args, kwargs)
        if isinstance(f, FuncVal):
            c = self.e.contract_for(f)
            if c is not None and not self.e.inline_now(f, self):
                return self.e.apply_contract(self, c, f, args, kwargs)
            self.e.inlined.add(self.e.qual(f))
            return self.inline(f, args, kwargs, node)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kwargs)
        if isinstance(f, ExtClass):
            return models.call_builtin(self, Builtin(f.name), args, kwargs)
        if isinstance(f, SObj):
            ca = self.classattr(f.cls, "__call__")
            if ca is not UNDEF:
                return self.call(Bound(ca, f), args, kwargs, node)
        if isinstance(f, External):
            return f.m_call(self, [("e", x) for x in args], kwargs)
        if isinstance(f, Opaque):
            return self.e.spec.call_opaque(self, f, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def construct(self, cls, args, kwargs):
        if any(b.name in ("Exception", "BaseException") for b in cls.mro()):
            return models.ExcVal(cls, args)
        o = SObj(cls, self.birth())
        init = self.classattr(cls, "__init__")
        if init is UNDEF:
            if self.is_userlist(cls):
                models.call_builtin(self, Builtin("userlist.__init__", o), args, kwargs)
            elif cls.anns and any(decname(d) == "dataclass" for d in cls.node.decorator_list):
                names = list(cls.anns)
                for n, a in zip(names, args):
                    o.f[n] = a
                for n in names[len(args):]:
                    if n in kwargs:
                        o.f[n] = kwargs[n]
                    elif n in cls.attrs:
                        o.f[n] = self.ev(cls.attrs[n], Frame(None, cls.module, cls))
                    else:
                        raise PyExc("TypeError", n)
            elif args or kwargs:
                raise Unsupported(f"construct {cls.name}")
            return o
        self.call(Bound(init, o), args, kwargs)
        return o

    def bind(self, fnode, args, kwargs, fr, deffr):
        a = fnode.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            if i < len(args):
                fr.vars[p] = args[i]
            elif p in kwargs:
                fr.vars[p] = kwargs.pop(p)
            elif i >= len(pos) - nd:
                fr.vars[p] = self.ev(a.defaults[i - (len(pos) - nd)], deffr)
            else:
                raise PyExc("TypeError", f"missing argument {p}")
        extra = args[len(pos):]
        star = self.star.pop(fnode, None)
        if star is not None and not extra and not kwargs:
            fr.vars[a.vararg.arg], fr.vars[a.kwarg.arg] = star
            return
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyExc("TypeError", "too many arguments")
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwargs:
                fr.vars[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                fr.vars[p.arg] = self.ev(d, deffr)
            else:
                raise PyExc("TypeError", f"missing argument {p.arg}")
        if a.kwarg:
            fr.vars[a.kwarg.arg] = SDict(kwargs, self.birth())
        elif kwargs:
            raise PyExc("TypeError", "unexpected keyword argument")

    def inline(self, f, args, kwargs, node=None):
        if self.depth > MAX_DEPTH:
            raise Unsupported(f"inlining too deep at {f.qual}")
        if f.kind.startswith("dec:") and f.kind not in ("dec:ContextManager", "dec:contextlib.contextmanager",
                                                        "dec:contextmanager"):
            raise Unsupported(f"decorated function {f.qual} ({f.kind[4:]})")
        fn = f.node
        site = self.site
        fr = Frame(f.fr, f.fr.module if f.fr else None, f.cls or (f.fr.cls if f.fr else None), f)
        self.bind(fn, args, kwargs, fr, f.fr)
        if isinstance(fn, ast.Lambda):
            return self.ev(fn.body, fr)
        if _is_generator(fn):
            if f.kind == "dec:ContextManager":
                return self.e.view_cm(self, f, fr)
            return IterVal("generator", f, fr)
        fr.selfv = args[0] if args else (f.fr.selfv if f.fr else None)
        self.site = site + ((f.qual, getattr(node, "lineno", 0)),)
        fr.site = self.site
        self.depth += 1
        try:
            self.ex(fn.body, fr)
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
            self.site = site
        return None

    # ---- statements ---------------------------------------------------------
    def ex(self, stmts, fr):
        for s in stmts:
            self.ex1(s, fr)

    def ex1(self, s, fr):
        k = type(s).__name__
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported(f"statement {k}")
        return m(s, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Import(self, s, fr):
        for a in s.names:
            fr.vars[(a.asname or a.name).split(".")[0]] = ModVal(a.name)

    def x_Global(self, s, fr):
        raise Unsupported("global statement")

    def x_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def x_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyExc("AssertionError")

    def x_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.ex(s.body, fr)
        else:
            self.ex(s.orelse, fr)

    def x_FunctionDef(self, s, fr):
        if any(decname(d) == "overload" for d in s.decorator_list):
            return
        if s.decorator_list:
            raise Unsupported("decorated local function")
        fr.vars[s.name] = FuncVal(s, fr, cls=fr.cls, qual=(fr.func.qual + "." if fr.func else "") + s.name)

    def x_ClassDef(self, s, fr):
        c = ClassVal(s.name, s, fr.module, [])
        fr.vars[s.name] = c

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            get = lambda: cur  # noqa: E731
            put = lambda v: self.setvar(t.id, v, fr)  # noqa: E731
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            get = lambda: cur  # noqa: E731
            put = lambda v: self.setattr(o, t.attr, v)  # noqa: E731
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            cur = self.getitem(o, i)
            get = lambda: cur  # noqa: E731
            put = lambda v: self.setitem(o, i, v)  # noqa: E731
        else:
            raise Unsupported("augmented assignment")
        v = self.ev(s.value, fr)
        if isinstance(s.op, ast.Add) and isinstance(get(), SList) and not get().istuple:
            models.list_method(self, get(), "extend", [v], {})
            put(get())
            return
        put(self.binop(s.op, get(), v))

    def setvar(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
            f.vars[name] = v
            return
        fr.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        L = self.tolist(v)
        if star:
            i = star[0]
            after = len(elts) - i - 1
            heads, tails = [], []
            for _ in range(i):
                if not self.front(L):
                    raise PyExc("ValueError", "unpack")
                heads.append(L.chunks.pop(0)[1])
            for _ in range(after):
                if not self.back(L):
                    raise PyExc("ValueError", "unpack")
                tails.insert(0, L.chunks.pop()[1])
            for e, x in zip(elts[:i], heads):
                self.assign(e, x, fr)
            self.assign(elts[i].value, self.mkchunks(L.chunks), fr)
            for e, x in zip(elts[i + 1:], tails):
                self.assign(e, x, fr)
            return
        vals = []
        for _ in elts:
            if not self.front(L):
                raise PyExc("ValueError", "not enough values to unpack")
            vals.append(L.chunks.pop(0)[1])
        if self.list_truth(L):
            raise PyExc("ValueError", "too many values to unpack")
        for e, x in zip(elts, vals):
            self.assign(e, x, fr)

    def tolist(self, v):
        """fresh list with the elements of an iterable"""
        if isinstance(v, tuple):
            return self.mklist(v)
        if isinstance(v, SList):
            return self.mkchunks(self.chunks(v))
        if isinstance(v, str):
            return self.mklist(list(v))
        return models.to_list(self, v)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.delattr(o, t.attr)
            else:
                raise Unsupported("del target")

    def delattr(self, o, name):
        if isinstance(o, SObj):
            da = self.classattr(o.cls, "__delattr__")
            if da is not UNDEF:
                return self.call(Bound(da, o), [name], {})
            self.write(o, name)
            o.f.pop(name, None)
            return
        raise Unsupported("delattr")

    def x_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.vars.get("$exc")
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        v = self.ev(s.exc, fr)
        if isinstance(v, models.ExcVal):
            raise PyExc(v.cls)
        if isinstance(v, ClassVal):
            raise PyExc(v)
        if isinstance(v, Builtin):
            raise PyExc(v.name)
        if isinstance(v, PyExc):
            raise v
        raise Unsupported(f"raise {v!r}")

    def exc_matches(self, exc, tnode, fr):
        if tnode is None:
            return True
        if isinstance(tnode, ast.Tuple):
            return any(self.exc_matches(exc, e, fr) for e in tnode.elts)
        t = self.ev(tnode, fr)
        if isinstance(t, tuple):
            return any(self.exc_is(exc, x) for x in t)
        return self.exc_is(exc, t)

    def exc_is(self, exc, t):
        tn = t.name
        names = []
        if isinstance(exc.cls, str):
            c = getattr(pybuiltins, exc.cls, None)
            names = [x.__name__ for x in c.__mro__] if isinstance(c, type) else [exc.cls]
            if exc.cls == "rpm.error":
                names = ["rpm.error", "Exception", "BaseException"]
        else:
            for c in exc.cls.mro():
                names.append(c.name)
                b = getattr(pybuiltins, c.name, None)
                if isinstance(c, ExtClass) and isinstance(b, type):
                    names += [x.__name__ for x in b.__mro__]
        return tn in names

    def x_Try(self, s, fr):
        try:
            try:
                self.ex(s.body, fr)
            except PyExc as exc:
                for h in s.handlers:
                    if self.exc_matches(exc, h.type, fr):
                        old = fr.vars.get("$exc")
                        fr.vars["$exc"] = exc
                        if h.name:
                            fr.vars[h.name] = exc
                        self.ex(h.body, fr)
                        fr.vars["$exc"] = old
                        break
                else:
                    raise
            else:
                self.ex(s.orelse, fr)
        except (PathEnd, Unsupported):
            raise
        except BaseException:
            if s.finalbody:
                self.ex(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.ex(s.finalbody, fr)

    def x_With(self, s, fr):
        self.with_items(list(s.items), s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.ex(body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)

        def run(value):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, value, fr)
            self.with_items(items[1:], body, fr)

        self.run_cm(cm, run)

    def run_cm(self, cm, run):
        models.run_cm(self, cm, run)

    # ---- loops ----------------------------------------------------------------
    def x_While(self, s, fr):
        self.loop(s, fr, None)

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        src = models.iter_source(self, it)
        if src.concrete():
            try:
                for v in src.values(self):
                    self.assign(s.target, v, fr)
                    try:
                        self.ex(s.body, fr)
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            self.ex(s.orelse, fr)
            return
        self.loop(s, fr, src)

    def heap_paths(self, fr):
        paths = {}
        objs = {}
        todo = []
        f = fr
        seen = set()
        frames = set()
        while f is not None:
            frames.add(id(f))
            for n, v in f.vars.items():
                if n not in seen:
                    seen.add(n)
                    todo.append(((n,), v))
            f = f.parent
        while todo:
            p, v = todo.pop(0)
            if isinstance(v, (SList, SObj, SDict)):
                if id(v) in paths:
                    continue
                paths[id(v)] = p
                objs[p] = v
                if len(p) > 6:
                    continue
                if isinstance(v, SList):
                    for i, (k, x) in enumerate(v.chunks):
                        if k == "e":
                            todo.append((p + (i,), x))
                elif isinstance(v, SObj):
                    for n, x in v.f.items():
                        todo.append((p + ("." + n,), x))
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    todo.append((p + (i,), x))
            elif isinstance(v, Bound):
                todo.append((p + ("~",), v.self_))
            elif isinstance(v, FuncVal) and v.fr is not None and v.fr is not fr and id(v.fr) not in frames:
                frames.add(id(v.fr))
                for n, x in v.fr.vars.items():
                    todo.append((p + ("^" + n,), x))
        return paths, objs

    def lookup_frame(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars:
                return f
            f = f.parent
        return None

    def state_value(self, fr, path, objs):
        """current value at an access path"""
        if len(path) == 1:
            f = self.lookup_frame(fr, path[0])
            return f.vars[path[0]] if f is not None else UNDEF
        o = objs.get(path[:-1])
        if isinstance(o, SObj) and isinstance(path[-1], str) and path[-1].startswith("."):
            return o.f.get(path[-1][1:], UNDEF)
        return objs.get(path, UNDEF)

    def loop(self, s, fr, src):
        ctx = self.ctx
        key = (fr.func.qual if fr.func else "?", s.lineno, s.col_offset, self.site)
        info = self.e.loopinfo(key)
        names = assigned_names(s.body)
        if src is not None:
            tn = assigned_names([ast.For(s.target, s.iter, [], [])])
        else:
            tn = assigned_names([ast.Expr(s.test)])
        names |= tn
        paths, objs = self.heap_paths(fr)
        pre = {id(o) for o in objs.values()}
        objs["$src"], objs["$when"] = src, "init"
        # initial types
        for n in names:
            f = self.lookup_frame(fr, n)
            v = f.vars[n] if f is not None else UNDEF
            if v is not UNDEF and n not in tn:
                self.e.jointype(info, ("v", n), typeof(v))
        for p in info.mods:
            v = self.mod_value(p, objs, fr)
            if v is not UNDEF:
                self.e.jointype(info, ("m", p), typeof(v))
        init = self.carriers(info, fr, objs, src, "init")
        aux = self.aux_candidates(info, fr, objs, src, s)
        for c in aux:
            if c not in info.killed and not self.aux_holds(c, fr, objs):
                info.killed.add(c)
                info.changed = True
        # havoc
        head = len(self.writes)
        for n in sorted(names):
            f = self.lookup_frame(fr, n)
            v = f.vars[n] if f is not None else UNDEF
            tgt = fr
            if n in fr.nonlocals:
                tgt = f
            tgt.vars[n] = HavocVar(info, n, v)
            if not isinstance(v, HavocVar):
                objs[("$init", n)] = v
        for p in sorted(info.mods, key=str):
            self.havoc_path(info, p, objs, fr)
        for n in sorted(info.reads & names):
            self.getvar(n, fr)
        live = [c for c in aux if c not in info.killed]
        for c in live:
            if c[0] not in ("asc", "elem", "none", "first", "unset"):
                self.aux_assume(c, fr, objs)
        step = ctx.choice(2, f"loop{s.lineno}") == 0
        if src is not None:
            x = src.begin(self, step)
        objs["$when"] = "head" if step else "exit"
        for c in live:
            if c[0] in ("asc", "elem", "none", "first", "unset"):
                self.aux_assume(c, fr, objs)
        headc = self.carriers(info, fr, objs, src, "head" if step else "exit")
        for law in info.assumed:
            a, b = self.law_value(law, init), self.law_value(law, headc)
            if a is not None and b is not None:
                ctx.assume_eq(a, b)
        if step:
            if src is None:
                if not self.truth(self.ev(s.test, fr)):
                    raise PathEnd("loop condition false on the step path")
            else:
                self.assign(s.target, x, fr)
            try:
                try:
                    self.ex(s.body, fr)
                except ContinueEx:
                    pass
            except BreakEx:
                # what such a path writes is not there at the head of the loop
                self.loop_writes(info, head, (), paths, objs, src)
                return
            except (ReturnEx, PyExc):
                self.loop_writes(info, head, (), paths, objs, src)
                raise
            self.loop_writes(info, head, pre, paths, objs, src)
            for n in names:
                f = self.lookup_frame(fr, n)
                v = f.vars.get(n, UNDEF) if f is not None else UNDEF
                if not isinstance(v, HavocVar) and v is not UNDEF:
                    self.e.jointype(info, ("v", n), typeof(v))
            for p in info.mods:
                v = self.mod_value(p, objs, fr)
                if v is not UNDEF:
                    self.e.jointype(info, ("m", p), typeof(v))
            self.check_step(info, headc, fr, objs, src, live)
            raise PathEnd("end of loop body")
        if src is None:
            if self.truth(self.ev(s.test, fr)):
                raise PathEnd("loop condition true on the exit path")
        else:
            src.finish(self)
        self.ex(s.orelse, fr)

    def mod_value(self, p, objs, fr):
        if p[-1] == "[]":
            return objs.get(p[:-1], UNDEF)
        o = objs.get(p[:-1])
        if isinstance(o, SObj):
            return o.f.get(p[-1][1:], UNDEF)
        return UNDEF

    def havoc_path(self, info, p, objs, fr):
        t = info.mods[p]
        if p[-1] == "[]":
            o = objs.get(p[:-1])
            if o is None:
                return
            if isinstance(o, SDict):
                raise Unsupported("dictionary modified in a loop")
            if t is None or t == ("list", None):
                return
            # elements at the beginning stay there if the loop only appends
            keep = []
            if ("prefix", ("m", p)) not in info.killed:
                for kk, x in self.chunks(o):
                    if kk != "e":
                        break
                    keep.append((kk, x))
            objs[("$prefix", p)] = keep
            self.writes.append((o, None))
            o.chunks = keep + [("s", self.newseg(t[1]))]
            return
        o = objs.get(p[:-1])
        if o is None:
            return
        if t is None:
            raise PathEnd("type not known yet")
        self.writes.append((o, p[-1][1:]))
        o.f[p[-1][1:]] = self.fresh(t, p[-1][1:])

    def loop_writes(self, info, head, pre, paths, objs, src=None):
        for o, field in self.writes[head:]:
            if isinstance(o, SObj) and o.tag == "elem":
                raise Unsupported("element of a list modified in a loop")
            if src is not None and o is getattr(src, "live", None):
                raise Unsupported("list modified while iterating over it")
            if id(o) in pre:
                p = paths[id(o)] + (("[]",) if field is None else ("." + field,))
                if p not in info.mods:
                    info.mods[p] = None
                    info.changed = True
                    v = self.mod_value(p, objs, None)
                    if v is not UNDEF:
                        self.e.jointype(info, ("m", p), typeof(v))

    # carriers: the pieces of state whose concatenation a loop law may conserve
    def carriers(self, info, fr, objs, src, when):
        out = {}
        ints = []
        for p in sorted(info.mods, key=str):
            v = self.mod_value(p, objs, fr)
            self.carrier(out, p, v, info.mods[p])
        for n in sorted(info.reads & set(info.types)):
            f = self.lookup_frame(fr, n)
            v = f.vars.get(n, UNDEF) if f is not None else UNDEF
            if isinstance(v, HavocVar):
                v = v.initial if when == "init" else UNDEF
            if is_int(v) and not is_bool(v):
                ints.append((n, v))
                continue
            self.carrier(out, (n,), v, info.types.get(n), fr)
        # offsets into a string matter only if some text is collected
        for n, v in ints if out else ():
            self.carrier(out, (n,), v, info.types.get(n), fr)
        if src is not None:
            for name, val in src.carrier(self, when).items():
                out[("$rest", name)] = val
        return out

    def carrier(self, out, p, v, t, fr=None):
        if v is UNDEF:
            return
        if isinstance(v, SList) or v is None and False:
            for name in self.e.spec.list_views(t):
                try:
                    out[(p, name)] = self.cview(v.chunks, name)
                except Unsupported:
                    pass
        elif is_str(v):
            out[(p, "raw")] = v
            out[(p, "line")] = mkstr(v, "\n")
        elif v is None:
            out[(p, "raw")] = ""
            out[(p, "line")] = ""
            out[(p, "obj")] = ""
        elif isinstance(v, SObj):
            try:
                out[(p, "obj")] = self.e.spec.objview(self, v, "text")
            except Unsupported:
                pass
        elif is_int(v) and fr is not None:
            for sv in self.e.slice_strings(self, fr):
                f = self.lookup_frame(fr, sv)
                base = f.vars[sv]
                ln = self.ctx.slen(base)
                if isinstance(v, int) and isinstance(ln, int) and not 0 <= v <= ln:
                    continue
                if not (isinstance(v, int) and v == 0) and not self.ctx.known(z3.And(zint(v) >= 0, zint(v) <= zint(ln))):
                    continue
                out[(p, "from:" + sv)] = self.ctx.cut(base, v)[1]

    def law_value(self, law, carr):
        out = []
        for c in law:
            if c not in carr:
                return None
            out.append(carr[c])
        return self.ctx.norm(mkstr(*out))

    def check_step(self, info, headc, fr, objs, src, live):
        ctx = self.ctx
        info.steps += 1
        if not self.feasible_now():
            return
        objs["$when"] = "end"
        for c in live:
            if c not in info.killed and not self.aux_holds(c, fr, objs):
                info.killed.add(c)
                info.changed = True
        for p in sorted(info.mods, key=str):
            self.e.conform_list(self, self.mod_value(p, objs, fr), info.mods[p])
        for n in sorted(info.types):
            f = self.lookup_frame(fr, n)
            v = f.vars.get(n, UNDEF) if f is not None else UNDEF
            self.e.conform_list(self, v, info.types[n])
        endc = self.carriers(info, fr, objs, src, "end")
        if any(k[1].startswith("from:") for k in endc):
            # pieces of zero length come from offsets that were not known to be equal
            for v in list(headc.values()) + list(endc.values()):
                for p in _parts(ctx.norm(v)):
                    if not isinstance(p, str) and p.get_id() not in ctx.nonempty and ctx.known(z3.Length(p) == 0):
                        ctx.assume_eq(mkstr(p), "")
        pair = {k: (ctx.rewrite(headc[k]), ctx.rewrite(endc[k])) for k in headc if k in endc}
        info.pairs.append(Pair(pair, [(ctx.norm(a), ctx.norm(b)) for a, b in ctx.eqs]))
        for law in info.assumed:
            a, b = self.law_value(law, headc), self.law_value(law, endc)
            if a is None or b is None or ctx.prove(ctx.seq(a, b), 3000)[0] != "proved":
                info.broken.add(law)

    def feasible_now(self):
        r, _ = self.ctx.check([], 300)
        return r != "unsat"

    # auxiliary loop invariants
    def aux_candidates(self, info, fr, objs, src, loop):
        out = []
        lists, opts, ints = [], [], []
        for p in sorted(info.mods, key=str):
            t = info.mods[p]
            if isinstance(t, tuple) and t[0] == "list":
                lists.append(("m", p))
        for n in sorted(info.reads):
            t = info.types.get(n)
            if isinstance(t, tuple) and t[0] == "list":
                lists.append(("v", n))
            elif isinstance(t, tuple) and t[0] == "opt":
                opts.append(("v", n))
                if t[1] in ("str", "line"):
                    out.append(("nonl", ("v", n)))
            elif t == "int":
                ints.append(("v", n))
            elif t == "str":
                out.append(("nonl", ("v", n)))
        if isinstance(src, models.ListSource) and src.enum == 0 and not src.rev:
            prefixes = {n.args[0].value for n in ast.walk(loop) if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr == "startswith" and len(n.args) == 1 and isinstance(
                n.args[0], ast.Constant) and isinstance(n.args[0].value, str)}
            for r in lists:
                if (info.mods.get(r[1]) if r[0] == "m" else info.types.get(r[1])) == ("list", "int"):
                    out.append(("asc", r))
                    for x in sorted(prefixes):
                        out.append(("elem", r, x))
        if isinstance(src, models.ListSource) and src.enum in (0, None) and self.scans(src):
            for kind in sorted(self.scan["preds"]):
                out.append(("none", None, kind))
                if src.rev:
                    continue
                for o in opts:
                    out.append(("first", o, kind))
                    out.append(("unset", o, kind))
        for r in lists:
            if r[0] == "m":
                out.append(("prefix", r))
            out.append(("nonl", r))
            out.append(("nonempty", r))
        for o in opts:
            out.append(("truthy", o))
            for r in lists:
                out.append(("none_empty", o, r))
        for a, b in itertools.combinations(lists, 2):
            out.append(("samelen", a, b))
        for i in ints:
            out.append(("ge0", i))
            out.append(("geinit", i))
            for sv in self.e.slice_strings(self, fr):
                out.append(("lelen", i, sv))
        return out

    def scans(self, src):
        """are the predicates of the contract about the elements that the loop visits?"""
        L = self.scan.get("list")
        return L is not None and (src.live is L or src.origin is L)

    def aux_ref(self, r, fr, objs):
        if r is None:
            return None
        if r[0] == "m":
            return self.mod_value(r[1], objs, fr)
        f = self.lookup_frame(fr, r[1])
        v = f.vars.get(r[1], UNDEF) if f is not None else UNDEF
        if isinstance(v, HavocVar):
            v = UNDEF
        return v

    def aux_holds(self, c, fr, objs):
        v = self.aux_ref(c[1], fr, objs)
        if v is UNDEF:
            return True
        k = c[0]
        ctx = self.ctx
        if k in ("none", "first", "unset"):
            key = self.scan["preds"][c[2]]
            vis = objs["$src"].visited(self, objs["$when"])
            if k == "none" or k == "unset" and v is None:
                return self.none_holds(vis, key)
            if v is None or k == "unset":
                return True
            p = self.position_of(vis, v) if is_int(v) else None
            return p is not None and ctx.known(self.satisfies(key, vis[p][1])) and self.none_holds(vis[:p], key)
        if k == "asc":
            cur = 0
            if not isinstance(v, SList):
                return False
            for kk, x in self.chunks(v):
                lo, hi = (x, x + 1) if kk == "e" else ctx.segasc.get(x.id, (None, None))
                if lo is None or not ctx.known(zint(cur) <= zint(lo)):
                    return False
                if not ctx.known(zint(lo) <= zint(hi)):
                    return False
                cur = hi
            return ctx.known(zint(cur) <= zint(objs["$src"].count(self, objs["$when"])))
        if k == "elem":
            if not isinstance(v, SList):
                return False
            src = objs["$src"]
            for kk, x in self.chunks(v):
                if kk == "s":
                    if not any(y is src.live and p == c[2] for _, p, y in ctx.segelem.get(x.id, ())):
                        return False
                elif objs["$when"] != "end" or not is_str(src.x[1]) or not ctx.known(
                        zint(x) == zint(src.count(self, "head"))):
                    return False
                else:
                    p = _parts(ctx.norm(src.x[1]))
                    if not p or not isinstance(p[0], str) or not p[0].startswith(c[2]):
                        return False
            return True
        if k == "prefix":
            keep = objs.get(("$prefix", c[1][1]), [])
            now = self.chunks(v) if isinstance(v, SList) else []
            return len(now) >= len(keep) and all(a == b and x is y for (a, x), (b, y) in zip(keep, now))
        if k == "nonl":
            if is_str(v):
                return ctx.is_nonl(v) or ctx.known(z3.Not(z3.Contains(zstr(ctx.norm(v)), z3.StringVal("\\u{a}"))))
            if v is None:
                return True
            for kk, x in self.chunks(v):
                if kk == "s":
                    if not self.lineseg(x):
                        return False
                else:
                    y = x[0] if isinstance(x, tuple) else x
                    if not is_str(y):
                        return False
                    if not ctx.is_nonl(y):
                        return False
            return True
        if k == "nonempty":
            return ctx.known(zint(self.chunklen(v.chunks)) >= 1) if isinstance(v, SList) else False
        if k == "truthy":
            if v is None:
                return True
            return is_str(v) and ctx.known(zint(ctx.slen(v)) >= 1)
        if k == "none_empty":
            w = self.aux_ref(c[2], fr, objs)
            if w is UNDEF or v is not None:
                return True
            return isinstance(w, SList) and ctx.known(zint(self.chunklen(w.chunks)) == 0)
        if k == "samelen":
            w = self.aux_ref(c[2], fr, objs)
            if w is UNDEF:
                return True
            return (isinstance(w, SList) and isinstance(v, SList)
                    and ctx.known(zint(self.chunklen(w.chunks)) == zint(self.chunklen(v.chunks))))
        if k == "ge0":
            return is_int(v) and ctx.known(zint(v) >= 0)
        if k == "geinit":
            i = objs.get(("$init", c[1][1]), UNDEF)
            return is_int(v) and (i is UNDEF or is_int(i) and ctx.known(zint(v) >= zint(i)))
        if k == "lelen":
            f = self.lookup_frame(fr, c[2])
            return is_int(v) and ctx.known(zint(v) <= zint(ctx.slen(f.vars[c[2]])))
        raise Unsupported(k)

    def aux_assume(self, c, fr, objs):
        v = self.aux_ref(c[1], fr, objs)
        if v is UNDEF:
            return
        k = c[0]
        ctx = self.ctx
        if k in ("none", "first", "unset"):
            key = self.scan["preds"][c[2]]
            vis = objs["$src"].visited(self, objs["$when"])
            if k == "none" or k == "unset" and v is None:
                self.assume_none(vis, key)
            elif v is not None and k == "first":
                ctx.assume(z3.And(zint(v) >= 0, zint(v) < zint(self.chunklen(vis))))
                L = self.mkchunks(vis)
                p = self.locate(L, v)
                ch = self.chunks(L)
                ctx.assume(self.satisfies(key, ch[p][1]))
                self.assume_none(ch[:p], key)
        elif k == "asc":
            for kk, x in self.chunks(v):
                if kk == "s":
                    ctx.segasc[x.id] = (0, objs["$src"].count(self, objs["$when"]))
        elif k == "elem":
            src = objs["$src"]
            for kk, x in self.chunks(v):
                if kk == "s":
                    ctx.segelem.setdefault(x.id, []).append((self.mkchunks(src.all), c[2], src.live))
        elif k == "nonl":
            if is_str(v):
                ctx.set_nonl(v)
            elif isinstance(v, SList):
                for kk, x in self.chunks(v):
                    if kk == "s":
                        ctx.segfacts.setdefault(x.id, set()).add("nonl")
        elif k == "nonempty":
            if isinstance(v, SList):
                ctx.assume(zint(self.chunklen(v.chunks)) >= 1)
        elif k == "truthy":
            if is_str(v):
                ctx.assume(zint(ctx.slen(v)) >= 1)
                for p in _parts(ctx.norm(v)):
                    if not isinstance(p, str) and len(_parts(ctx.norm(v))) == 1:
                        ctx.nonempty.add(p.get_id())
        elif k == "none_empty":
            w = self.aux_ref(c[2], fr, objs)
            if v is None and isinstance(w, SList):
                for kk, x in self.chunks(w):
                    if kk == "s":
                        ctx.assume(self.seglen(x) == 0)
                        self.segdef(x, [])
                    else:
                        raise PathEnd("invariant")
        elif k == "samelen":
            w = self.aux_ref(c[2], fr, objs)
            if isinstance(w, SList) and isinstance(v, SList):
                ctx.assume(zint(self.chunklen(w.chunks)) == zint(self.chunklen(v.chunks)))
        elif k == "ge0":
            ctx.assume(zint(v) >= 0)
        elif k == "geinit":
            i = objs.get(("$init", c[1][1]), UNDEF)
            if is_int(i):
                ctx.assume(zint(v) >= zint(i))
        elif k == "lelen":
            f = self.lookup_frame(fr, c[2])
            ctx.assume(zint(v) <= zint(ctx.slen(f.vars[c[2]])))

    # ---- expressions ------------------------------------------------------------
    def getvar(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, HavocVar):
                    info = v.info
                    if name not in info.reads:
                        info.reads.add(name)
                        info.changed = True
                    t = info.types.get(name)
                    if t is None:
                        info.changed = True
                        raise PathEnd(f"type of {name} not known yet")
                    nv = self.fresh(t, name)
                    f.vars[name] = nv
                    return nv
                return v
            f = f.parent
        m = fr.module
        if m is not None:
            v = self.world.lookup(m, name)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "lazy" and isinstance(v[1], ast.AST):
                return self.ev(v[1], Frame(None, m))
            if v is not UNDEF:
                return v
        if hasattr(pybuiltins, name) or name in ("__name__",):
            return Builtin(name)
        raise PyExc("NameError", name)

    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.getvar(n.id, fr)

    def e_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                L = self.tolist(self.ev(e.value, fr))
                for k, x in self.chunks(L):
                    if k != "e":
                        raise Unsupported("star of unknown length")
                    out.append(x)
            else:
                out.append(self.ev(e, fr))
        return tuple(out)

    def e_List(self, n, fr):
        chunks = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                chunks += self.chunks(self.tolist(self.ev(e.value, fr)))
            else:
                chunks.append(("e", self.ev(e, fr)))
        return self.mkchunks(chunks)

    def e_Set(self, n, fr):
        v = const_eval(n, self.world, fr.module)
        if v is UNDEF:
            raise Unsupported("set display")
        return ConstColl(v)

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            kk = self.ev(k, fr)
            if not isinstance(kk, (str, int, tuple)):
                raise Unsupported("dictionary key")
            d[kk] = self.ev(v, fr)
        return SDict(d, self.birth())

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == ord("r"):
                    parts.append(self.ctx.fresh_str("repr"))
                    continue
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                    parts.append(models.format_value(self, x, spec))
                    continue
                parts.append(models.to_str(self, x))
        return mkstr(*parts)

    def e_FormattedValue(self, n, fr):
        return self.e_JoinedStr(ast.JoinedStr([n]), fr)

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_BoolOp(self, n, fr):
        v = acc = None
        isand = isinstance(n.op, ast.And)
        for i, e in enumerate(n.values):
            v = self.ev(e, fr)
            if acc is not None:
                if not isinstance(v, (bool, z3.BoolRef)):
                    if self.ctx.branch(acc) != isand:
                        return not isand
                else:
                    v = z3.And(acc, zbool(v)) if isand else z3.Or(acc, zbool(v))
            acc = None
            if i == len(n.values) - 1:
                return v
            if isinstance(v, z3.BoolRef) and _pure(n.values[i + 1]):
                # no short circuit needed: the next operand has no effects
                acc = v
                continue
            t = self.truth(v)
            if isand and not t:
                return False if is_bool(v) else v
            if not isand and t:
                return True if is_bool(v) else v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub) and is_int(v):
            return -v
        raise Unsupported("unary operator")

    def e_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if is_str(a) and is_str(b):
                return mkstr(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, SList) and isinstance(b, SList):
                return self.mkchunks(self.chunks(a) + self.chunks(b))
            if isinstance(a, SObj) and self.is_userlist(a.cls):
                raise Unsupported("UserList addition")
            if is_int(a) and is_int(b):
                return a + b
            if (is_str(a) or isinstance(a, (SList, tuple)) or is_int(a)) and b is None:
                raise PyExc("TypeError")
        if is_int(a) and is_int(b):
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Mod):
                if isinstance(b, int) and b > 0:
                    return a % b
        if isinstance(op, ast.BitOr) and isinstance(a, ConstColl) and isinstance(b, ConstColl):
            return ConstColl(a.v | b.v)
        if isinstance(op, ast.BitOr) and isinstance(a, Opaque) and isinstance(b, Opaque):
            return Opaque(a.kind)
        if isinstance(op, ast.Mult) and is_str(a) and isinstance(b, int):
            return mkstr(*([a] * b))
        if isinstance(op, ast.Mult) and is_str(a) and is_int(b):
            return self.ctx.fresh_str("mul")
        if is_int(a) and isinstance(op, ast.Mult) and is_str(b):
            return self.binop(op, b, a)
        if (a is None or b is None) and isinstance(op, (ast.Add, ast.Sub)):
            raise PyExc("TypeError")
        raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__}")

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r if isinstance(op, ast.Is) else self.neg(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else self.neg(r)
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.equal(a, b, ne=True))
        if is_int(a) and is_int(b):
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
        if isinstance(a, SObj):
            m = self.classattr(a.cls, nm)
            if m is not UNDEF:
                r = self.call(Bound(m, a), [b], {})
                if isinstance(r, Builtin) and r.name == "NotImplemented":
                    raise PyExc("TypeError")
                return r
        if a is None or b is None:
            raise PyExc("TypeError")
        raise Unsupported(f"comparison of {a!r} and {b!r}")

    def neg(self, r):
        return (not r) if isinstance(r, bool) else z3.Not(r)

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is None:
                if isinstance(y, Opaque) and y.kind == "context":
                    return not self.truth(y)
                return y is None
            if isinstance(x, bool):
                if isinstance(y, bool):
                    return x == y
                if isinstance(y, z3.BoolRef):
                    return y if x else z3.Not(y)
                return False
        if isinstance(a, (EnumVal, SObj, SList, ClassVal, SDict, Opaque)) or isinstance(b, (EnumVal, SObj, SList, ClassVal, Opaque)):
            return a is b
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        if isinstance(a, ExtClass) or isinstance(b, ExtClass):
            return a == b
        raise Unsupported("identity of values")

    def equal(self, a, b, ne=False):
        if is_str(a) and is_str(b):
            return self.ctx.seq(a, b)
        if is_bool(a) and is_bool(b):
            return a == b if isinstance(a, bool) and isinstance(b, bool) else zbool(a) == zbool(b)
        if is_int(a) and is_int(b):
            return a == b
        if a is None or b is None:
            if isinstance(a, SObj) or isinstance(b, SObj):
                return False
            return a is b
        if isinstance(a, EnumVal) or isinstance(b, EnumVal):
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            out = []
            for x, y in zip(a, b):
                r = self.equal(x, y)
                if r is False:
                    return False
                if r is not True:
                    out.append(r)
            return True if not out else z3.And(*out)
        if isinstance(a, SObj):
            m = self.classattr(a.cls, "__ne__" if ne else "__eq__")
            if m is not UNDEF:
                r = self.call(Bound(m, a), [b], {})
                if isinstance(r, Builtin) and r.name == "NotImplemented":
                    return False
                return self.neg(r) if ne else r
            if ne:
                return self.equal(a, b)
            if a is b:
                return True
            if self.is_userlist(a.cls) and isinstance(b, SObj) and self.is_userlist(b.cls):
                return self.equal(self.getattr(a, "data"), self.getattr(b, "data"))
            return self.memo_eq("eq", a, b)
        if isinstance(a, SList) and isinstance(b, SList):
            ca, cb = self.chunks(a), self.chunks(b)
            if all(k == "e" for k, _ in ca) and all(k == "e" for k, _ in cb):
                return self.equal(tuple(x for _, x in ca), tuple(x for _, x in cb))
            if len(ca) == len(cb) and all(x[0] == y[0] and (x[0] == "e" or x[1] is y[1]) for x, y in zip(ca, cb)):
                return self.equal(tuple(x for k, x in ca if k == "e"), tuple(x for k, x in cb if k == "e"))
            return self.memo_eq("listeq", a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return self.e.spec.opaque_eq(self, a, b)
        ta, tb = typeof(a), typeof(b)
        if ta != tb and "any" not in (ta, tb):
            return False
        if a is b:
            return True
        if isinstance(a, ClassVal) or isinstance(b, ClassVal):
            return a is b
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def memo_eq(self, name, a, b):
        """equality of values about which nothing is known: the same for the same values as long as nothing is written"""
        k = (name, frozenset((id(a), id(b))), len(self.writes))
        h = self.ctx.hints.setdefault("memo_eq", {})
        if k not in h:
            h[k] = (self.ctx.fresh_bool(name), a, b)
        return h[k][0]

    def contains(self, coll, x):
        ctx = self.ctx
        if isinstance(coll, models.EnvVal):
            return coll.look(self, x) is not None
        if is_str(coll):
            if not is_str(x):
                raise Unsupported("in str")
            c, y = ctx.norm(coll), ctx.norm(x)
            if isinstance(c, str) and isinstance(y, str):
                return y in c
            if isinstance(y, str) and any(isinstance(p, str) and y in p for p in _parts(c)):
                return True
            if y == "\n" and ctx.is_nonl(c):
                return False
            if isinstance(c, str) and isinstance(y, SStr) and len(y.parts) == 1:
                # membership of a short string in a literal: only exact for single characters
                if ctx.known(zint(ctx.slen(y)) == 1):
                    return z3.Or(*[zstr(y) == zstr(ch) for ch in sorted(set(c))]) if c else False
            return z3.Contains(zstr(c), zstr(y))
        if isinstance(coll, (tuple, list)):
            out = []
            for e in coll:
                r = self.equal(e, x)
                if r is True:
                    return True
                if r is not False:
                    out.append(r)
            return z3.Or(*out) if out else False
        if isinstance(coll, ConstColl):
            if isinstance(x, str):
                return x in coll.v
            if is_str(x):
                return models.const_member(self, coll, x)
            raise Unsupported("membership")
        if isinstance(coll, SDict):
            if isinstance(x, str):
                return x in coll.d
            return self.contains(tuple(coll.d), x)
        if isinstance(coll, SObj):
            m = self.classattr(coll.cls, "__contains__")
            if m is not UNDEF:
                return self.truth(self.call(Bound(m, coll), [x], {}))
            if self.is_userlist(coll.cls):
                return self.contains(self.getattr(coll, "data"), x)
        if isinstance(coll, SList):
            ch = self.chunks(coll)
            if all(k == "e" for k, _ in ch):
                return self.contains(tuple(v for _, v in ch), x)
            return ctx.fresh_bool("in")
        if isinstance(coll, IterVal) and coll.kind == "range":
            lo, hi = coll.args
            if is_int(x):
                return z3.And(zint(lo) <= zint(x), zint(x) < zint(hi))
        if isinstance(coll, IterVal) and coll.kind == "keys" and isinstance(coll.args[0], (SDict, ConstColl)):
            return self.contains(coll.args[0], x)
        if isinstance(coll, External):
            return coll.m_contains(self, x)
        if isinstance(coll, Opaque) or isinstance(coll, IterVal):
            return ctx.fresh_bool("in")
        raise Unsupported(f"in {coll!r}")

    def truth(self, v):
        ctx = self.ctx
        if isinstance(v, (bool, z3.BoolRef)):
            return ctx.branch(v)
        if v is None:
            return False
        if is_str(v):
            return ctx.truth_str(v)
        if is_int(v):
            return v != 0 if isinstance(v, int) else ctx.branch(v != 0)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, SList):
            return self.list_truth(v)
        if isinstance(v, SDict):
            return bool(v.d)
        if isinstance(v, ConstColl):
            return bool(v.v)
        if isinstance(v, SObj):
            m = self.classattr(v.cls, "__bool__")
            if m is not UNDEF:
                return self.truth(self.call(Bound(m, v), [], {}))
            m = self.classattr(v.cls, "__len__")
            if m is not UNDEF:
                return self.truth(self.call(Bound(m, v), [], {}))
            if self.is_userlist(v.cls):
                return self.list_truth(self.getattr(v, "data"))
            return True
        if isinstance(v, (SMatch, SRegex, ClassVal, FuncVal, EnumVal, Bound, Builtin)):
            return True
        if isinstance(v, External):
            return v.m_truth(self)
        if isinstance(v, Opaque):
            return self.e.spec.opaque_truth(self, v)
        if isinstance(v, HavocVar):
            raise Unsupported("havoc")
        raise Unsupported(f"truth of {v!r}")

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev(n.slice, fr))

    def e_Slice(self, n, fr):
        f = lambda x: None if x is None else self.ev(x, fr)  # noqa: E731
        return SliceVal(f(n.lower), f(n.upper), f(n.step))

    def getitem(self, o, i):
        if isinstance(o, tuple):
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyExc("IndexError")
            if isinstance(i, SliceVal) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return o[i.lo:i.hi:i.step]
            if is_int(i):
                if o and all(isinstance(x, str) for x in o) and self.ctx.known(z3.And(i >= 0, i < len(o))):
                    k = ("pick", o, keep(simp(i)))
                    if k not in self.ctx.hints:
                        v = self.ctx.hints[k] = self.ctx.fresh_str("pick")
                        self.ctx.assume(z3.Or(*[z3.And(i == j, zstr(v) == zstr(x)) for j, x in enumerate(o)]))
                        if not any("\n" in x for x in o):
                            self.ctx.set_nonl(v)
                    return self.ctx.hints[k]
                return self.getitem(self.mklist(o), i)
            raise Unsupported("tuple index")
        if is_str(o):
            return models.str_getitem(self, o, i)
        if isinstance(o, SList):
            if isinstance(i, SliceVal):
                if i.step not in (None, 1):
                    if i.step == -1 and i.lo is None and i.hi is None and all(k == "e" for k, _ in self.chunks(o)):
                        return self.mkchunks(o.chunks[::-1])
                    raise Unsupported("extended slice")
                return self.mkchunks(self.slice(o, i.lo, i.hi)[1])
            if not is_int(i):
                raise Unsupported("list index")
            p = self.locate(o, i)
            return o.chunks[p][1]
        if isinstance(o, SObj):
            m = self.classattr(o.cls, "__getitem__")
            if m is not UNDEF:
                return self.call(Bound(m, o), [i], {})
            if self.is_userlist(o.cls):
                if isinstance(i, SliceVal):
                    raise Unsupported("UserList slice")
                return self.getitem(self.getattr(o, "data"), i)
        if isinstance(o, SDict):
            if isinstance(i, str):
                if i in o.d:
                    return o.d[i]
                raise PyExc("KeyError")
            if is_str(i):
                for k in o.d:
                    if is_str(k) and self.ctx.decide_eq(i, k):
                        return o.d[k]
                raise PyExc("KeyError")
        if isinstance(o, ConstColl):
            return models.const_getitem(self, o, i)
        if isinstance(o, IterVal) and o.kind == "range":
            return models.range_getitem(self, o, i)
        if isinstance(o, (ClassVal, ExtClass, Builtin)):
            return o
        if isinstance(o, SMatch):
            return models.match_group(self, o, i)
        if isinstance(o, External):
            return o.m_getitem(self, i)
        if isinstance(o, Opaque):
            return self.e.spec.opaque_item(self, o, i)
        if isinstance(o, models.EnvVal):
            return o.get(self, i)
        raise Unsupported(f"subscript of {o!r}")

    def setitem(self, o, i, v):
        if isinstance(o, SList):
            self.write(o)
            if isinstance(i, SliceVal):
                left, mid, right = self.slice(o, i.lo, i.hi, i.step)
                o.chunks = left + self.chunks(self.tolist(v)) + right
                return
            p = self.locate(o, i)
            o.chunks[p] = ("e", v)
            return
        if isinstance(o, SDict):
            if isinstance(i, (str, int)):
                self.write(o)
                o.d[i] = v
                return
        if isinstance(o, SObj):
            m = self.classattr(o.cls, "__setitem__")
            if m is not UNDEF:
                return self.call(Bound(m, o), [i, v], {})
            if self.is_userlist(o.cls):
                return self.setitem(self.getattr(o, "data"), i, v)
        if isinstance(o, models.EnvVal):
            return o.set(self, i, v)
        if isinstance(o, models.Memo):
            return
        if isinstance(o, External):
            return o.m_setitem(self, i, v)
        raise Unsupported(f"item assignment on {o!r}")

    def delitem(self, o, i):
        if isinstance(o, SList):
            self.write(o)
            if isinstance(i, SliceVal):
                left, mid, right = self.slice(o, i.lo, i.hi, i.step)
                o.chunks = left + right
                return
            p = self.locate(o, i)
            del o.chunks[p]
            return
        if isinstance(o, SObj):
            m = self.classattr(o.cls, "__delitem__")
            if m is not UNDEF:
                return self.call(Bound(m, o), [i], {})
            if self.is_userlist(o.cls):
                return self.delitem(self.getattr(o, "data"), i)
        if isinstance(o, models.EnvVal):
            return o.delete(self, i)
        if isinstance(o, SDict) and isinstance(i, str):
            self.write(o)
            if i not in o.d:
                raise PyExc("KeyError")
            del o.d[i]
            return
        if isinstance(o, External):
            return o.m_delitem(self, i)
        raise Unsupported(f"del item of {o!r}")

    def e_Lambda(self, n, fr):
        return FuncVal(n, fr, cls=fr.cls)

    def e_Call(self, n, fr):
        # special forms
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and (f.cls is None or "self" not in f.vars and "cls" not in f.vars):
                f = f.parent
            obj = f.vars.get("self", f.vars.get("cls"))
            return SuperVal(f.cls, obj)
        f = self.ev(n.func, fr)
        if isinstance(f, External) and (any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)):
            args, kwargs = [], {}
            for a in n.args:
                if isinstance(a, ast.Starred):
                    args += self.chunks(self.tolist(self.ev(a.value, fr)))
                else:
                    args.append(("e", self.ev(a, fr)))
            for k in n.keywords:
                v = self.ev(k.value, fr)
                if k.arg is not None:
                    kwargs[k.arg] = v
                elif isinstance(v, SDict):
                    kwargs.update(v.d)
                elif len(n.keywords) == 1 and isinstance(v, External):
                    kwargs = v
                else:
                    raise Unsupported("** argument")
            return f.m_call(self, args, kwargs)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                L = self.tolist(self.ev(a.value, fr))
                ch = self.chunks(L)
                if any(k != "e" for k, _ in ch):
                    if isinstance(f, Builtin) and f.name == "zip" and len(n.args) == 1:
                        return IterVal("unzip", L)
                    raise Unsupported("star argument of unknown length")
                args += [v for _, v in ch]
                if isinstance(f, Builtin) and f.name == "zip" and len(n.args) == 1:
                    return IterVal("unzip", L)
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, SDict):
                    raise Unsupported("** argument")
                kwargs.update(d.d)
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs, n)

    def e_GeneratorExp(self, n, fr):
        return GenExp(n, self.snapshot_first(n, fr))

    def snapshot_first(self, n, fr):
        return fr

    def e_ListComp(self, n, fr):
        return models.comprehension(self, n, fr)

    def e_SetComp(self, n, fr):
        return models.comprehension(self, n, fr)

    def e_DictComp(self, n, fr):
        raise Unsupported("dict comprehension")

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Yield(self, n, fr):
        h = fr.vars.get("$yield")
        if h is None:
            raise Unsupported("yield")
        return h(self.ev(n.value, fr) if n.value is not None else None)


class Pair(dict):
    """carrier: (value at the loop head, value at the end of the body), and the equations known on that path"""

    def __init__(self, d, eqs):
        super().__init__(d)
        self.eqs = eqs


def rewrite_parts(ps, eqs):
    for a, b in eqs:
        pa = list(_parts(a))
        if len(pa) >= 2:
            r = _replace(ps, pa, list(_parts(b)))
            if r is not None:
                ps = list(_parts(mkstr(*r)))
    return ps


def find_laws(pairs, limit=6, maxlaws=8):
    """sequences of carriers whose concatenation every step path leaves unchanged"""
    if not pairs:
        return []
    keys = [k for k in pairs[0] if all(k in p for p in pairs)]
    moving = [k for k in keys if any(not _quick_eq(*p[k]) for p in pairs)]
    out = [(k,) for k in keys if k not in moving]
    found = []
    budget = [60000]

    def dfs(seq, used, resid):
        budget[0] -= 1
        if budget[0] < 0:
            return
        if seq and all(not a and not b for a, b in resid):
            found.append(tuple(seq))
        if len(seq) >= limit:
            return
        for k in moving:
            if k[0] in used:
                continue
            nr = []
            for p, (a, b) in zip(pairs, resid):
                h, e = p[k]
                a2, b2 = _strip_front(list(_parts(mkstr(*a, h))), list(_parts(mkstr(*b, e))))
                if a2 and b2:
                    if not p.eqs:
                        break
                    a2, b2 = _strip_front(rewrite_parts(a2, p.eqs), rewrite_parts(b2, p.eqs))
                nr.append((a2, b2))
            else:
                dfs(seq + [k], used | {k[0]}, nr)

    dfs([], frozenset(), [([], [])] * len(pairs))
    found.sort(key=lambda l: (-len(l), str(l)))
    # drop laws that are contained in a longer one with the same variables
    return found[:maxlaws] + out[:4]


def _strip_front(pa, pb):
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            m = min(len(x), len(y))
            if x[:m] != y[:m]:
                return pa, pb
            pa[0], pb[0] = x[m:], y[m:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            pa.pop(0)
            pb.pop(0)
            continue
        return pa, pb
    return pa, pb


def _quick_eq(a, b):
    pa, pb = _parts(a), _parts(b)
    if len(pa) != len(pb):
        return False
    for x, y in zip(pa, pb):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
        elif not x.eq(y):
            return False
    return True


_ISGEN = {}


def _is_generator(fn):
    if id(fn) not in _ISGEN:
        _ISGEN[id(fn)] = (_is_generator_(fn), fn)
    return _ISGEN[id(fn)][0]


def _is_generator_(fn):
    for n in _own_nodes(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
