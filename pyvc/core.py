"""Terms, path context and solver for pyvc, a contract verifier for a subset of Python.

Strings are kept as normalised concatenations (SStr) of literals and z3 String atoms; equations learnt on a path (a
regex match, a slice, a loop law) are recorded both as z3 facts and, when they define an atom, as a substitution, so
that most string obligations reach z3 in solved form.
"""
import time
import z3

z3.set_param("memory_max_size", 8000)


class Unsupported(Exception):
    """The code uses a construct outside the verified subset: the function is out of the verifier's reach."""


class PathEnd(Exception):
    """This symbolic path is finished (infeasible, or its obligations are all emitted)."""


class SStr:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "+".join(repr(p) if isinstance(p, str) else str(p) for p in self.parts) or "''"


_ALIVE = {}


def _get_id(self, _orig=z3.ExprRef.get_id):
    i = self.__dict__.get("_id")
    if i is None:
        i = self._id = _orig(self)
    return i


z3.ExprRef.get_id = _get_id


class Facts(list):
    """a list of facts that knows their identities"""
    def __init__(self, fs=()):
        super().__init__()
        self.ids = set()
        for f in fs:
            self.append(f)

    def append(self, f):
        super().append(f)
        self.ids.add(keep(f))


def keep(e):
    i = e.get_id()
    if i not in _ALIVE:
        _ALIVE[i] = e
    return i


def mkstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            ps = p.parts
        elif isinstance(p, str):
            ps = (p,)
        elif z3.is_expr(p):
            keep(p)
            ps = (p,)
        else:
            raise Unsupported(f"not a string: {p!r}")
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def is_str(v):
    return isinstance(v, (str, SStr))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))


def enc(s):
    # z3 reads \u{..} escapes in string literals
    return "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s)


def zstr(s):
    if isinstance(s, str):
        return z3.StringVal(enc(s))
    ps = [z3.StringVal(enc(p)) if isinstance(p, str) else p for p in s.parts]
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def zint(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def zbool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def _parts(s):
    if isinstance(s, str):
        return (s,) if s else ()
    return s.parts


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by_norm = 0
        self.by_z3 = 0
        self.paths = 0


STATS = Stats()
_CACHE = {}
_SIMP = {}


def simp(e):
    i = keep(e)
    if i not in _SIMP:
        r = z3.simplify(e)
        keep(r)
        _SIMP[i] = r
    return _SIMP[i]


def solve(facts, timeout_ms):
    """check-sat of a conjunction; returns (result, model or None)"""
    key = (frozenset(keep(f) for f in facts), timeout_ms)
    if key in _CACHE:
        return _CACHE[key]
    t = time.time()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for f in facts:
        s.add(f)
    r = str(s.check())
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    m = None
    if r == "sat":
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    _CACHE[key] = (r, m)
    return r, m


class Models:
    """a model per connected component of the path condition"""

    def __init__(self, ms):
        self.ms = ms

    def eval(self, e, completion=True):
        for m in self.ms:
            e = m.eval(e, False)
        return z3.simplify(self.ms[-1].eval(e, True) if self.ms else e)


_CONSTS = {}


def consts(e):
    """uninterpreted constants of an expression: {id: expr}"""
    i = keep(e)
    if i in _CONSTS:
        return _CONSTS[i]
    if z3.is_const(e):
        r = {i: e} if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else {}
    else:
        r = {}
        for c in e.children():
            r.update(consts(c))
    _CONSTS[i] = r
    return r


_LENGTHS = {}


def lengths(e):
    """strings whose length e mentions"""
    i = keep(e)
    if i not in _LENGTHS:
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
            r = [e.arg(0)]
        else:
            r = []
            for c in e.children():
                r += [x for x in lengths(c) if not any(x.eq(y) for y in r)]
        for x in r:
            keep(x)
        _LENGTHS[i] = r
    return _LENGTHS[i]


class Decisions:
    def __init__(self, prefix, work):
        self.prefix = prefix
        self.taken = []
        self.work = work

    def choose(self, options):
        """options: list of python ints that are feasible; returns one, queueing the others"""
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = options[0]
            for o in options[1:]:
                self.work.append(self.taken + [o])
        self.taken.append(d)
        return d

    @property
    def replaying(self):
        return len(self.taken) < len(self.prefix)


class Seg:
    """an immutable symbolic list segment"""

    __slots__ = ("id", "et")

    def __init__(self, id, et):
        self.id = id
        self.et = et

    def __repr__(self):
        return f"Seg{self.id}<{self.et}>"


class Ctx:
    """State of one symbolic path."""

    FEAS_MS = 300
    PROVE_MS = 6000

    def __init__(self, dec):
        self.pc = Facts()
        self.defs = {}
        self.segdefs = {}
        self.segfacts = {}
        self.preds = {}  # predicates on elements
        self.segasc = {}  # ascending integers lo <= x < hi
        self.segelem = {}  # indices of lines with a given prefix
        self.views = {}
        self.counter = 0
        self.dec = dec
        self.created = 0
        self.trace = []
        self.nonl = set()
        self.digits = set()
        self.nonempty = set()
        self.eqterms = {}
        self.hints = {}
        self.fcache = {}
        self.eqs = []
        self.segs = {}

    def inherit(self, c):
        """facts of an enclosing path"""
        self.counter, self.created = c.counter, c.created
        self.pc = type(c.pc)(c.pc)
        self.defs = dict(c.defs)
        self.segdefs = dict(c.segdefs)
        self.segfacts = {k: set(v) for k, v in c.segfacts.items()}
        self.preds = c.preds
        self.views = {k: dict(v) for k, v in c.views.items()}
        self.nonl, self.digits, self.nonempty = set(c.nonl), set(c.digits), set(c.nonempty)
        self.hints = dict(c.hints)
        self.eqs = list(c.eqs)
        self.segs = dict(c.segs)

    def fresh_name(self, hint):
        self.counter += 1
        return f"{hint}!{self.counter}"

    def fresh_atom(self, hint="s"):
        a = z3.String(self.fresh_name(hint))
        keep(a)
        return a

    def fresh_str(self, hint="s"):
        return mkstr(self.fresh_atom(hint))

    def fresh_int(self, hint="i"):
        a = z3.Int(self.fresh_name(hint))
        keep(a)
        return a

    def fresh_bool(self, hint="b"):
        a = z3.Bool(self.fresh_name(hint))
        keep(a)
        return a

    # -- facts ---------------------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd("assume false")
            return
        f = simp(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd("assume false")
        self.pc.append(f)

    def norm(self, s):
        if isinstance(s, str):
            return s
        out = None
        for k, p in enumerate(s.parts):
            if not isinstance(p, str):
                d = self.defs.get(p.get_id())
                if d is not None:
                    if out is None:
                        out = list(s.parts[:k])
                    out.append(self.norm(d))
                    continue
            if out is not None:
                out.append(p)
        return mkstr(*out) if out is not None else s

    def occurs(self, atom, s):
        return not isinstance(s, str) and any(not isinstance(p, str) and p.eq(atom) for p in s.parts)

    def set_nonl(self, s):
        """every character of s differs from newline"""
        s = self.norm(s)
        for p in _parts(s):
            if isinstance(p, str):
                if "\n" in p:
                    raise PathEnd("newline in a newline-free string")
            elif keep(p) not in self.nonl:
                self.nonl.add(p.get_id())
                self.pc.append(simp(z3.Not(z3.Contains(p, z3.StringVal("\\u{a}")))))

    def is_nonl(self, s):
        s = self.norm(s)
        return all(("\n" not in p) if isinstance(p, str) else p.get_id() in self.nonl for p in _parts(s))

    def assume_eq(self, a, b):
        """string equation a == b"""
        a, b = self.norm(a), self.norm(b)
        pa, pb = _strip(list(_parts(a)), list(_parts(b)))
        if not pa and not pb:
            return
        a, b = mkstr(*pa), mkstr(*pb)
        if isinstance(a, str) and isinstance(b, str):
            raise PathEnd("contradictory strings")
        if _clash(pa, pb):
            raise PathEnd("contradictory strings")
        self.pc.append(zstr(a) == zstr(b))
        keep(self.pc[-1])
        for x, y in ((a, b), (b, a)):
            if y == "":
                if any(isinstance(p, str) or p.get_id() in self.nonempty for p in x.parts):
                    raise PathEnd("contradictory strings")
                for p in x.parts:
                    if z3.is_const(p):
                        self.defs[p.get_id()] = ""
                return
        cands = []
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr) and len(x.parts) == 1 and z3.is_const(x.parts[0]) and not self.occurs(x.parts[0], y):
                cands.append((x.parts[0], y))
        if cands:
            # when both sides are single atoms eliminate the younger one
            atom, y = cands[0]
            if len(cands) == 2 and _age(cands[1][0]) > _age(cands[0][0]):
                atom, y = cands[1]
            if atom.get_id() in self.nonl:
                self.set_nonl(y)
            if isinstance(y, SStr) and len(y.parts) == 1 and y.parts[0].get_id() in self.nonl:
                pass
            for st in (self.digits, self.nonempty):
                if atom.get_id() in st and isinstance(y, SStr) and len(y.parts) == 1:
                    st.add(y.parts[0].get_id())
            self.defs[atom.get_id()] = y
            return
        self.eqs.append((a, b))

    def rewrite(self, s):
        """apply the recorded equations that do not define an atom, from left to right"""
        s = self.norm(s)
        for a, b in self.eqs:
            a, b = self.norm(a), self.norm(b)
            pa = list(_parts(a))
            if len(pa) < 2:
                continue
            r = _replace(list(_parts(s)), pa, list(_parts(b)))
            if r is not None:
                s = mkstr(*r)
        return s

    # -- decisions -----------------------------------------------------------
    def normfact(self, f):
        """f with the defined atoms replaced by their definitions"""
        for _ in range(60):
            sub = []
            for i, a in consts(f).items():
                if i in self.defs:
                    sub.append((a, zstr(self.norm(mkstr(a)))))
            if not sub:
                break
            f = simp(z3.substitute(f, *sub))
        return f

    def facts(self, query=()):
        """path condition in solved form, restricted to the facts connected with the query (None: all)"""
        n = len(self.defs)
        out = []
        for f in self.pc:
            k = f.get_id()
            c = self.fcache.get(k)
            if c is None or c[0] != n:
                g = self.normfact(c[1] if c else f)
                keep(g)
                c = self.fcache[k] = (n, g, z3.is_true(g))
            if not c[2]:
                out.append(c[1])
        if query is None:
            return out
        seen = set()
        for q in query:
            seen |= set(consts(q))
        rest, use = out, []
        grew = True
        while grew:
            grew, left = False, []
            for f in rest:
                cs = consts(f)
                if not cs or any(i in seen for i in cs):
                    use.append(f)
                    if any(i not in seen for i in cs):
                        seen |= set(cs)
                        grew = True
                else:
                    left.append(f)
            rest = left
        return use

    def check(self, extra, timeout):
        """check-sat of the whole path condition, one connected component at a time"""
        fs = self.facts(None) + list(extra)
        comps = []  # (const ids, facts)
        for f in fs:
            ids, grp, left = set(consts(f)), [f], []
            for c in comps:
                if c[0] & ids:
                    ids |= c[0]
                    grp = c[1] + grp
                else:
                    left.append(c)
            comps = left + [(ids, grp)]
        ok, models = "sat", []
        for _, grp in comps:
            r, m = solve(grp, timeout)
            if r == "unsat":
                return "unsat", None
            if r != "sat":
                ok = r
            elif m is not None:
                models.append(m)
        return ok, Models(models)

    def feasible(self, f):
        f = self.normfact(f)
        r, _ = solve(self.facts([f]) + [f], self.FEAS_MS)
        return r != "unsat"

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = simp(z3.Not(c))
        if c.get_id() in self.pc.ids or nc.get_id() in self.pc.ids:
            for f in self.pc:
                if f.eq(c):
                    return True
                if f.eq(nc):
                    return False
        if self.dec.replaying:
            d = self.dec.choose([1, 0])
        else:
            opts = []
            if self.feasible(c):
                opts.append(1)
            if not opts or self.feasible(nc):
                opts.append(0)
            d = self.dec.choose(opts)
        self.pc.append(c if d else nc)
        self.learn(c if d else nc)
        self.emptied(c)
        return bool(d)

    def emptied(self, c):
        """a condition on lengths may have made some atoms empty"""
        ats = lengths(c)
        if not ats or len(ats) > 4:
            return
        for a in ats:
            if z3.is_const(a) and a.get_id() not in self.nonempty and a.get_id() not in self.defs:
                if self.known(z3.Length(a) == 0):
                    self.assume_eq(mkstr(a), "")

    def choice(self, n, label=""):
        """pure nondeterminism between n alternatives"""
        if n == 1:
            return 0
        d = self.dec.choose(list(range(n)))
        if label:
            self.trace.append(f"{label}={d}")
        return d

    # -- strings -------------------------------------------------------------
    def slen(self, s):
        s = self.norm(s)
        if isinstance(s, str):
            return len(s)
        c, terms = 0, []
        for p in s.parts:
            if isinstance(p, str):
                c += len(p)
            else:
                terms.append(z3.Length(p))
        t = z3.Sum(terms) if len(terms) > 1 else terms[0]
        return t + c if c else t

    def seq(self, a, b):
        """equality of strings as bool or z3 Bool"""
        a, b = self.norm(a), self.norm(b)
        pa, pb = _strip(list(_parts(a)), list(_parts(b)))
        if not pa and not pb:
            return True
        if _clash(pa, pb):
            return False
        a, b = mkstr(*pa), mkstr(*pb)
        if isinstance(a, str) and isinstance(b, str):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and "\n" in x and self.is_nonl(y):
                return False
        if self.eqs:
            pa, pb = _strip(list(_parts(self.rewrite(a))), list(_parts(self.rewrite(b))))
            if not pa and not pb:
                return True
        e = zstr(a) == zstr(b)
        self.eqterms[keep(simp(e))] = (a, b)
        return e

    def learn(self, c):
        """a string equation that holds: use it as a substitution"""
        ab = self.eqterms.get(c.get_id())
        if ab is not None:
            self.assume_eq(*ab)

    def decide_eq(self, a, b):
        """branch on a == b, learning the equation in solved form"""
        c = self.seq(a, b)
        if isinstance(c, bool):
            return c
        if self.branch(c):
            # branch() has put it in pc; now also the substitution
            self.assume_eq(a, b)
            return True
        return False

    def truth_str(self, s):
        """is s non-empty? (forks)"""
        s = self.norm(s)
        if isinstance(s, str):
            return bool(s)
        if any(isinstance(p, str) or p.get_id() in self.nonempty for p in s.parts):
            return True
        r = not self.decide_eq(s, "")
        if r and len(s.parts) == 1:
            self.nonempty.add(s.parts[0].get_id())
        return r

    def cut(self, s, n):
        """split s at offset n (0 <= n <= len(s) must hold); returns (left, right)"""
        s = self.norm(s)
        if isinstance(n, z3.ExprRef):
            n = simp(n)
            if z3.is_int_value(n):
                n = n.as_long()
        if isinstance(s, str) and isinstance(n, int):
            return s[:n], s[n:]
        parts = list(_parts(s))
        left = []
        off = 0
        i = 0
        while i < len(parts):
            p = parts[i]
            plen = len(p) if isinstance(p, str) else z3.Length(p)
            rel = n - off
            if not isinstance(rel, int):
                rel = simp(rel)
                if z3.is_int_value(rel):
                    rel = rel.as_long()
            if isinstance(rel, int):
                if rel <= 0:
                    break
                if isinstance(plen, int):
                    if rel >= plen:
                        left.append(p)
                        off = off + plen
                        i += 1
                        continue
                    left.append(p[:rel])
                    parts[i] = p[rel:]
                    return mkstr(*left), mkstr(*parts[i:])
            elif self.known(rel == 0):
                break
            if self.branch(rel >= plen):
                left.append(p)
                off = off + plen
                i += 1
                continue
            # the cut is inside p (rel < plen); rel may be 0
            if isinstance(p, str):
                for k in range(len(p)):
                    if k == len(p) - 1:
                        self.assume(rel == k)
                    if k == len(p) - 1 or self.branch(rel == k):
                        left.append(p[:k])
                        parts[i] = p[k:]
                        return mkstr(*left), mkstr(*parts[i:])
            a = self.fresh_atom("cut")
            b = self.fresh_atom("cut")
            self.assume_eq(mkstr(p), mkstr(a, b))
            self.pc.append(z3.Length(a) == zint(rel))
            keep(self.pc[-1])
            if isinstance(rel, int) and rel > 0:
                self.nonempty.add(a.get_id())
            left.append(a)
            return mkstr(*left), mkstr(b, *parts[i + 1:])
        return mkstr(*left), mkstr(*parts[i:])

    def known(self, c):
        """is c entailed (cheaply)?"""
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.pc.ids:
            return True
        c = self.normfact(simp(z3.Not(c)))
        r, _ = solve(self.facts([c]) + [c], self.FEAS_MS)
        return r == "unsat"

    def prove(self, goal, timeout=None):
        """is goal valid under the path condition? returns (status, model)"""
        timeout = timeout or self.PROVE_MS
        if isinstance(goal, bool):
            if goal:
                STATS.by_norm += 1
                return "proved", None
            r, m = self.check([], timeout)
            if r == "unsat":
                STATS.by_z3 += 1
            return ("proved" if r == "unsat" else ("refuted" if r == "sat" else "unknown")), m
        g = simp(goal)
        if z3.is_true(g):
            STATS.by_norm += 1
            return "proved", None
        q = self.normfact(simp(z3.Not(goal)))
        if z3.is_false(q):
            STATS.by_norm += 1
            return "proved", None
        r, m = solve(self.facts([q]) + [q], timeout)
        if r == "sat":
            r, m = self.check([q], timeout)
        if r == "unsat":
            STATS.by_z3 += 1
            return "proved", None
        return ("refuted" if r == "sat" else "unknown"), m


def _age(atom):
    n = str(atom)
    try:
        return int(n.rsplit("!", 1)[1])
    except (IndexError, ValueError):
        return 0


def _clash(pa, pb):
    """certainly different, looking at literal ends only"""
    if not pa or not pb:
        return any(isinstance(p, str) for p in (pa or pb))
    for i in (0, -1):
        x, y = pa[i], pb[i]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if (x[:n] != y[:n]) if i == 0 else (x[-n:] != y[-n:]):
                return True
    return False


def _replace(ps, pat, new):
    """replace the first occurrence of pat (a list of parts) in ps"""
    n = len(pat)
    for i in range(len(ps) - n + 1):
        pre = post = ""
        ok = True
        for j in range(n):
            x, y = ps[i + j], pat[j]
            if isinstance(x, str) != isinstance(y, str):
                ok = False
            elif isinstance(x, str):
                if j == 0 and x.endswith(y):
                    pre = x[: len(x) - len(y)]
                elif j == n - 1 and x.startswith(y):
                    post = x[len(y):]
                elif x != y:
                    ok = False
            elif not x.eq(y):
                ok = False
            if not ok:
                break
        if ok:
            return ps[:i] + [pre] + new + [post] + ps[i + n:]
    return None


def _strip(pa, pb):
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            m = min(len(x), len(y))
            while n < m and x[n] == y[n]:
                n += 1
            if n == 0:
                break
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            if n < m:
                break
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            pa.pop(0)
            pb.pop(0)
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            m = min(len(x), len(y))
            while n < m and x[-1 - n] == y[-1 - n]:
                n += 1
            if n == 0:
                break
            pa[-1], pb[-1] = x[: len(x) - n], y[: len(y) - n]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
            if n < m:
                break
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            pa.pop()
            pb.pop()
            continue
        break
    return pa, pb
