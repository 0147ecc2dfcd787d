"""C21 adding changelog entries"""
import datetime
import os
import re

from . import gen, spec
from .base import Skip, check, need, same

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def g(r):
    c = spec.spec(r)
    lines = c["lines"]
    k = next((i for i, x in enumerate(lines) if x == "%changelog"), None)
    if k is not None:
        lines = lines[:k]
        c["logs"] = []
    c["lines"] = lines
    logs = []
    pad = r.pick("%02d", "%02d", "%d", "%2d")
    for j in range(r.weighted([(1, 0), (8, 1), (2, 2)])):
        ents = []
        for _ in range(r.size(3)):
            d = r.randint(1, 28)
            ents.append([f"* {r.choice(DAYS)} {r.choice(MON)} {pad % d} {r.pick('', '', '', '12:30:00 UTC ')}2020 A <a@b> - 1.0-{r.randint(1, 9)}",
                         r.pick("- x", "- a b", "- %%macro"), r.pick("", "", None)])
        logs.append({"head": r.pick("%changelog", "%changelog", "%changelog ", "%Changelog"), "entries": ents, "auto": r.weighted([(8, None), (1, "%autochangelog"), (1, "%{autochangelog}"),
                                                                                                                             (1, "%{?autochangelog}"), (1, "# %autochangelog"), (1, "%{expand:")]),
                     "wrap": r.pick(None, "1", "0") if j == 0 else r.pick("1", "0")})
    if len(logs) == 2:
        logs[0]["wrap"], logs[1]["wrap"] = r.pick(("1", "0"), ("0", "1"))
    c["logs"] = logs
    c["epoch"] = r.pick(None, None, "1", "%{foo}")
    c["entry"] = r.pick("- new", ["- one", "- two"], ["- x", "", "- y"], "text é", [])
    c["author"] = r.pick("J D", "Ž é", "x", None, "J D <j@d>")
    c["email"] = r.pick(None, "j@d", "j@d")
    c["evr"] = r.pick(None, None, None, "9:8-7", "%{version}-x", "")
    c["ts"] = r.pick(None, [2024, r.randint(1, 12), r.randint(1, 28)], [1999, r.randint(1, 12), 31 if False else r.randint(1, 28)], [2025, 3, r.randint(1, 31), 7, 8, 9],
                     [2025, 12, r.randint(1, 31), 23, 59, 59])
    return c


def log_lines(log, extra=()):
    out = []
    if log["wrap"]:
        out += ["%if " + log["wrap"]]
    out += [log["head"]]
    if log["auto"]:
        out += [log["auto"]]
    out += list(extra)
    for e in log["entries"]:
        out += [x for x in e if x is not None]
    if log["wrap"]:
        out += ["%endif"]
    return out


@check("C21", quick=900, gen=g)
def add_entry(c):
    logs = c["logs"]
    if len(logs) > 2 or any(len(e) != 3 or not re.fullmatch(r"\* (?:...) (?:...) [ 0-9]\d? (\d\d:\d\d:\d\d UTC )?2020 A <a@b> - 1\.0-\d", e[0]) or not e[1].startswith("- ") or e[2] not in
                            ("", None) for x in logs for e in x["entries"]):
        raise Skip()
    if any(x["auto"] not in (None, "%autochangelog", "%{autochangelog}", "%{?autochangelog}", "# %autochangelog", "%{expand:") or x["head"].strip().lower() != "%changelog" for x in logs):
        raise Skip()
    if any(x.lower().startswith("%changelog") or x.lower().startswith("epoch") for x in c["lines"]) or c["epoch"] not in (None, "1", "%{foo}"):
        raise Skip()
    if any(x["auto"] == "%{expand:" and x["wrap"] != "0" for x in logs) or sum(x["wrap"] != "0" for x in logs) > 1 or any(
            x["wrap"] and not x["entries"] for x in logs):
        raise Skip()
    if c["entry"] not in ("- new", ["- one", "- two"], ["- x", "", "- y"], "text é", []) or c["author"] == "" or c["email"] == "":
        raise Skip()
    head = ["%global foo 3", "%global autochangelog %{nil}"]
    body = [x for x in c["lines"]]
    k = next((i for i, x in enumerate(body) if x.lower().startswith("summary")), None)
    if k is None:
        raise Skip()
    if c["epoch"]:
        body[k:k] = ["Epoch: " + c["epoch"]]
    text = lambda extra: head + body + [y for i, x in enumerate(logs) for y in log_lines(x, extra(i))]  # noqa: E731
    case = {"lines": text(lambda i: ()), "nl": c["nl"]}
    os.environ["RPM_PACKAGER"] = "Packager <p@q>"
    try:
        with spec.specfile(case) as s:
            if s.expand("%{lua:print(1)}") != "1":
                raise Skip()
            dist = s.expand("%{?epoch:%{epoch}:}%{version}-%{release}", extra_macros=[("dist", "")])
            same(dist.replace("%{?dist}", ""), dist, "expansion")
            ts = c["ts"]
            stamp = None if ts is None else datetime.date(*ts) if len(ts) == 3 else datetime.datetime(*ts)
            kw = {} if c["evr"] is None else {"evr": c["evr"]}
            lo = datetime.datetime.now(datetime.timezone.utc).date()
            s.add_changelog_entry(c["entry"], author=c["author"], email=c["email"], timestamp=stamp, **kw)
            hi = datetime.datetime.now(datetime.timezone.utc).date()
            evr = dist if c["evr"] is None else s.expand(c["evr"], extra_macros=[("dist", "")])
            author = "Packager <p@q>" if c["author"] is None else c["author"] + (f" <{c['email']}>" if c["email"] else "")
            content = [c["entry"]] if isinstance(c["entry"], str) else c["entry"]
            lines = str(s).rstrip("\n").split("\n")
            plain = (None, "# %autochangelog", "%{expand:")
            stamps = {}
            if ts is None:
                # the time of the call: read from the file
                new = [x for x in lines if x.startswith("* ") and author in x and x not in case["lines"]]
                where = [i for i, x in enumerate(logs) if x["auto"] in plain]
                same(len(new), len(where), "number of new entries")
                for i, x in zip(where, new):
                    ext = bool(logs[i]["entries"]) and "UTC" in logs[i]["entries"][0][0]
                    m = re.match(r"\* (\w{3}) (\w{3}) +(\d+) ((\d\d):(\d\d):(\d\d) \S+ )?(\d{4}) ", x)
                    need(m, "header {}", x)
                    same(bool(m[4]), ext, "extended timestamp")
                    d = datetime.date(int(m[8]), MON.index(m[2]) + 1, int(m[3]))
                    need(ext or lo <= d <= hi, "current date, got {}", x)
                    stamps[i] = [d.year, d.month, d.day], m[4] or ""
            else:
                for i in range(len(logs)):
                    stamps[i] = ts, "%02d:%02d:%02d UTC " % tuple(ts[3:]) if len(ts) > 3 else ""

            def extra(i):
                log = logs[i]
                if log["auto"] not in plain:
                    return ()
                ts, clock = stamps[i]
                pads = [re.match(r"\* \w{3} \w{3} ( *)(0?)", e[0]) for e in log["entries"]]
                pads = [m[1] + m[2] for m in pads]
                # the longest padding, of the newest entry that has it
                pad = max(pads, key=len) if pads else "0"
                day = pad[:-1] + "%02d" % ts[2] if pad.endswith("0") else pad + str(ts[2])
                wd = DAYS[datetime.date(*ts[:3]).weekday()]
                return [f"* {wd} {MON[ts[1] - 1]} {day} {clock}{ts[0]} {author} - {evr}"] + content + ([""] if log["entries"] else [])

            if any(not x["entries"] and y["wrap"] for x, y in zip(logs, logs[1:])):
                return
            want = []
            out = head + body
            for i, x in enumerate(logs):
                new = list(extra(i))
                ls = log_lines(x, ())
                pre = ls.index(x["head"]) + 1
                if x["auto"]:
                    pre += 1
                if not x["entries"]:
                    # everything below the header is above the first entry
                    pre = len(ls)
                out += ls[:pre] + new + ls[pre:]
            want = "\n".join(out).rstrip("\n").split("\n")
            same(lines, want, "content of the file")
    finally:
        del os.environ["RPM_PACKAGER"]


def g_asm(r):
    return {"ts": [r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28)] + r.pick([], [r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)]), "author": r.pick("A B <c@d>", "x", "é"),
            "content": [r.pick("- a", "", "x") for _ in range(r.randint(0, 3))], "evr": r.pick(None, "1.0-1", "2:1-%{release}", "1.0~rc1-0.1"), "pad": r.pick("0", "", " ", "  ", " 0"),
            "nl": r.maybe(0.5), "tz": r.pick(None, "CET", "UTC")}


@check("C21", quick=4000, gen=g_asm)
def assemble(c):
    from specfile.changelog import ChangelogEntry
    ts = c["ts"]
    if len(ts) not in (3, 6) or c["pad"] not in ("0", "", " ", "  ", " 0") or c["author"] not in ("A B <c@d>", "x", "é") or ts[0] < 1000 or c["tz"] not in (None, "CET", "UTC"):
        raise Skip()
    stamp = datetime.date(*ts) if len(ts) == 3 else datetime.datetime(*ts, tzinfo=datetime.timezone(datetime.timedelta(hours=1), c["tz"]) if c["tz"] else None)
    content = list(c["content"])
    e = ChangelogEntry.assemble(stamp, c["author"], c["content"], c["evr"], day_of_month_padding=c["pad"], append_newline=c["nl"])
    day = c["pad"][:-1] + "%02d" % ts[2] if c["pad"].endswith("0") else c["pad"] + str(ts[2])
    clock = "%02d:%02d:%02d %s " % (*ts[3:], c["tz"] or "UTC") if len(ts) == 6 else ""
    same(e.header, f"* {DAYS[datetime.date(*ts[:3]).weekday()]} {MON[ts[1] - 1]} {day} {clock}{ts[0]:04d} {c['author']}" + (f" - {c['evr']}" if c["evr"] is not None else ""), "header")
    same(e.content, content, "content")
    same(e.extended_timestamp, len(ts) == 6, "extended timestamp")
    if c["evr"] and "%" not in c["evr"]:
        same(e.evr, c["evr"], "evr")
    if ts[2] < 10:
        same(e.day_of_month_padding, c["pad"], "padding")
    else:
        same(e.day_of_month_padding, c["pad"].rstrip("0"), "padding")
    e.content.append("z")
    same(c["content"], content, "list passed by the caller")
