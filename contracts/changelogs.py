"""Contracts of changelog entries: what an assembled entry consists of."""
import z3

from pyvc.core import keep, mkstr, zstr
from pyvc.engine import Contract, Eq, NoneOf, Only
from pyvc.models import format_value, to_str
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNDEF
from .schema import LINES
from .versions import MAL, evr_parts, label_compare

WEEKDAYS = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
MONTHS = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")


class Timestamp(External):
    """datetime.date or datetime.datetime; the texts strftime makes of it are not interpreted"""

    def __init__(self, it, time, tz=None, base=None):
        super().__init__("timestamp")
        self.time, self.tz, self.base = time, tz, base or self
        if base is None:
            self.parts = {n: it.ctx.fresh_int(n) for n in ("weekday", "month", "day", "year", "hour", "minute", "second")}
            for n, lo, hi in (("weekday", 0, 6), ("month", 1, 12), ("day", 1, 31), ("year", 1000, 9999), ("hour", 0, 23),
                              ("minute", 0, 59), ("second", 0, 59)):
                it.ctx.assume(z3.And(self.parts[n] >= lo, self.parts[n] <= hi))
            self.texts = {}

    def m_attr(self, it, name, default):
        p = self.base.parts
        if name in ("weekday", "isoweekday"):
            return Method(name, lambda it, args, kwargs: p["weekday"] + (name == "isoweekday"))
        if name in p and (self.time or name in ("month", "day", "year")):
            return p[name]
        if name == "tzinfo" and self.time:
            return self.tz
        if name == "replace" and self.time:
            def replace(it, args, kwargs):
                if args or set(kwargs) != {"tzinfo"}:
                    self._no("replace")
                return Timestamp(it, True, kwargs["tzinfo"], self.base)
            return Method(name, replace)
        if name == "strftime":
            return Method(name, lambda it, args, kwargs: self.m_format(it, args[0]))
        if not self.time and name in (*p, "tzinfo"):
            if default is UNDEF:
                raise PyExc("AttributeError", name)
            return default
        return super().m_attr(it, name, default)

    def m_isinstance(self, it, t):
        if t.name in ("datetime.datetime", "datetime.date"):
            return self.time or t.name == "datetime.date"
        return super().m_isinstance(it, t)

    def m_truth(self, it):
        return True

    def m_format(self, it, spec):
        if not isinstance(spec, str):
            self._no("text")
        out, i = [], 0
        while i < len(spec):
            if spec[i] == "%" and i + 1 < len(spec):
                k = spec[i:i + 2]
                if k in ("%T", "%H", "%M", "%S", "%Y", "%Z", "%d", "%e", "%j", "%a", "%b", "%m", "%y", "%z", "%I", "%p", "%A", "%B"):
                    for c in ("%H", ":", "%M", ":", "%S") if k == "%T" else (k,):
                        out.append(c if c == ":" else self.text(it, c))
                else:
                    self._no("text " + k)
                i += 2
            else:
                out.append(spec[i])
                i += 1
        return mkstr(*out)

    def text(self, it, k):
        tz = self.tz if k in ("%Z", "%z") else None
        if k in ("%H", "%M", "%S") and not self.time:
            return "00"
        n = {"%H": "hour", "%M": "minute", "%S": "second", "%Y": "year", "%d": "day", "%m": "month"}.get(k)
        if n is not None:
            return to_str(it, self.base.parts[n]) if n == "year" else format_value(it, self.base.parts[n], "02")
        if k == "%a":
            return it.getitem(WEEKDAYS, self.base.parts["weekday"])
        if k == "%b":
            return it.getitem(MONTHS, self.base.parts["month"] - 1)
        if k in ("%Z", "%z") and tz is None:
            return ""
        key = (k, getattr(tz, "name", id(tz)))
        if key not in self.base.texts:
            v = self.base.texts[key] = it.ctx.fresh_str("text")
            it.ctx.set_nonl(v)
        return self.base.texts[key]


def setup(it, a):
    k = it.ctx.choice(3, "date, naive, aware")
    a["timestamp"] = Timestamp(it, k > 0, Opaque("tz") if k == 2 else None)


UTC = "datetime.timezone.utc"


def entry_of(it, a, old):
    ts = old.ts
    p = ts.parts
    pad = a.day_of_month_padding
    if it.truth(it.call(it.getattr(pad, "endswith"), ["0"], {})):
        day = mkstr(it.getitem(pad, SliceVal(None, -1, None)), format_value(it, p["day"], "02"))
    else:
        day = mkstr(pad, to_str(it, p["day"]))
    h = ["* ", it.getitem(WEEKDAYS, p["weekday"]), " ", it.getitem(MONTHS, p["month"] - 1), " ", day]
    if ts.time:
        zone = ts if ts.tz is not None else Timestamp(it, True, Builtin(UTC), ts)
        h += [" ", zone.m_format(it, "%H:%M:%S %Z")]
    h += [" ", ts.m_format(it, "%Y"), " ", a.author]
    if a.evr is not None:
        h += [" - ", a.evr]
    return mkstr(*h)


def ensures(it, a, r, old):
    if not isinstance(r, SObj) or r.lazy:
        return []
    content = it.getattr(r, "content")
    after = it.chunks(it.getattr(r, "_following_lines"))

    def blank():
        want = it.truth(a.append_newline)
        return len(after) == (1 if want else 0) and all(k == "e" and x == "" for k, x in after)
    return [("the header has weekday, month, day, time, year, author and version", Only(lambda: Eq(it.getattr(r, "header"), entry_of(it, a, old)))),
            ("the content is that of the argument", Only(lambda: Eq(it.cview(it.chunks(content), "text"), old.content))),
            ("the content is not shared with the argument", Only(lambda: content is not a.content)),
            ("a blank line follows if requested", Only(blank))]


# ---- filtering ------------------------------------------------------------------------------------
EVRTEXT = z3.Function("evrOfHeader", z3.StringSort(), z3.StringSort())


def evr_text(it, entry):
    """version in the header of an entry, or the empty string"""
    t = EVRTEXT(zstr(it.ctx.norm(it.getattr(entry, "header"))))
    it.ctx.nonl.add(keep(t))
    return t


def evr_result(it, a):
    t = evr_text(it, a.self)
    return None if it.ctx.branch(t == z3.StringVal("")) else mkstr(t)


def version_key(it, t):
    """what decides the order of an entry; a malformed version counts as 0"""
    e, v, r = evr_parts(it, mkstr(t))
    m = MAL(t)
    return [z3.If(m, z3.StringVal(a), zstr(b)) for a, b in (("0", to_str(it, e)), ("0", v), ("", r))]


def bound(op):
    def pred(it, x, s):
        k = label_compare(it, version_key(it, evr_text(it, x)), version_key(it, zstr(it.ctx.norm(s))))
        return k >= 0 if op == "since" else k <= 0
    return pred


def bounds(it, a):
    return {n: it.pred("bound " + n, a[n], lambda it, x, n=n: bound(n)(it, x, a[n]))
            for n in ("since", "until") if a[n] is not None}


def selected(it, a, r, old):
    if not isinstance(r, SObj) or r.lazy or r.cls.name != "Changelog":
        return [("gives a changelog", Only(lambda: False))] if not (isinstance(r, SObj) and r.lazy) else []
    keys = bounds(it, a)
    it.chunks(old.data)
    d, m = it.expand(old.was), it.expand(it.chunks(it.getattr(r, "data")))
    # empty parts of the list do not matter
    d, m = ([c for c in x if not (c[0] == "s" and it.ctx.known(it.seglen(c[1]) == 0))] for x in (d, m))

    def at():
        return next((i for i in range(len(d) - len(m) + 1) if all(
            k == j and (x is y or k == "s" and x.id == y.id) for (k, x), (j, y) in zip(d[i:], m))), None)

    def contiguous():
        return at() is not None

    def limit(name):
        def goal():
            i = at()
            if i is None:
                return False
            out = d[:i] if name == "since" else d[i + len(m):]
            if not m:
                if not keys:
                    return not d
                # nothing is selected: some place separates the entries below one bound from those above the other
                return any((("since" in keys and it.none_holds(d[:p], keys["since"])) or "since" not in keys and p == 0) and
                           (("until" in keys and it.none_holds(d[p:], keys["until"])) or "until" not in keys and p == len(d))
                           for p in range(len(d) + 1))
            return NoneOf(out, keys[name]) if name in keys else not out
        return goal

    def end(name):
        def goal():
            if not m or name not in keys:
                return True
            k, x = m[0 if name == "since" else -1]
            return it.satisfies(keys[name], x) if k == "e" else False
        return goal
    return [("the result is a part of the changelog, in order", Only(contiguous)),
            ("no entry before the result is within the lower bound", Only(limit("since"))),
            ("the first entry is within the lower bound", Only(end("since"))),
            ("no entry after the result is within the upper bound", Only(limit("until"))),
            ("the last entry is within the upper bound", Only(end("until"))),
            ("the changelog is not modified", Only(lambda: it.getattr(a.self, "data") is old.data))]


def filter_pre(it, a):
    d = it.getattr(a.self, "data")
    return {"data": d, "was": list(it.chunks(d))}


FILTER = [
    Contract("changelog:ChangelogEntry.evr", {}, evr_result, modifies=(), trusted=True),
    Contract("changelog:Changelog.filter", {"since": ("opt", "line"), "until": ("opt", "line")}, ("obj", "Changelog"),
             pre=filter_pre, ensures=selected, modifies=(), props=("C22",),
             cases=[{"since": s, "until": u} for s in ("none", "line") for u in ("none", "line")],
             scan=lambda it, a: {"list": it.getattr(a.self, "data"), "preds": bounds(it, a)}),
]

CONTRACTS = [
    Contract("changelog:ChangelogEntry.assemble",
             {"timestamp": "any", "author": "line", "content": LINES, "evr": ("opt", "line"), "day_of_month_padding": "line",
              "append_newline": "bool"}, ("obj", "ChangelogEntry"), setup=setup,
             pre=lambda it, a: {"ts": a.timestamp, "content": it.cview(it.chunks(a.content), "text")},
             ensures=ensures, modifies=(), props=("C21",)),
] + FILTER
