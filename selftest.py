"""python3-vt selftest.py [--quick]: tests of the verifier itself, independent of /repo.

A. Functions with correct and with deliberately broken bodies: the correct ones must be proved, the broken ones must not.
B. The symbolic semantics against CPython: each function is executed by CPython on concrete arguments and verified with
   symbolic arguments constrained to the same values; the verifier must prove CPython's result and must not prove
   another one (which would show that its assumptions are contradictory or its model is wrong)."""
import os
import sys
import tempfile
import time
from pathlib import Path

sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(6000)

from pyvc.core import is_str, mkstr, zbool, zint  # noqa: E402
from pyvc.engine import Contract, Engine, Eq  # noqa: E402
from pyvc.interp import World  # noqa: E402
from contracts.schema import LINES, SpecfileSpec, text  # noqa: E402

PAIRS = '''
import re


def keep(lines):
    a, b = [], []
    for line in lines:
        if line.startswith("#"):
            b.append(line)
        else:
            a.extend(b)
            a.append(line)
            b = []
    return a, b


def keep_bad1(lines):
    a, b = [], []
    for line in lines:
        if line.startswith("#"):
            b.append(line)
        else:
            a.extend(b)
            a.append(line)
            if not line:
                b = b[1:]
            b = []
    return b, a


def keep_bad2(lines):
    a, b = [], []
    for line in lines:
        if line.startswith("#"):
            b.append(line)
        elif line == "%end":
            b = []
            a.append(line)
        else:
            a.extend(b)
            a.append(line)
            b = []
    return a, b


def keep_bad3(lines):
    a, b = [], []
    for line in lines:
        if line.startswith("#"):
            b.append(line)
        else:
            a.append(line)
            a.extend(b)
            b = []
    return a, b


def keep_bad4(lines):
    a, b = [], []
    for line in lines:
        if line.startswith("#"):
            b.append(line.rstrip())
        else:
            a.extend(b)
            a.append(line)
            b = []
    return a, b


def cut(value):
    m = re.match(r"^(\\s*)(\\w*)(.*)$", value)
    if not m:
        return "", value, ""
    return m.group(1), m.group(2), value[m.end(2):]


def cut_bad1(value):
    m = re.match(r"^(\\s*)(\\w*)(\\s*)(.*)$", value, re.DOTALL)
    if not m:
        return "", value, ""
    return m.group(1), m.group(2), m.group(4)


def cut_bad2(value):
    m = re.match(r"^(\\s*)(\\w*)(.*)$", value)
    if not m:
        return "", "", value
    return m.group(1), m.group(2).lower(), m.group(3)


def halves(value):
    a, sep, b = value.partition(":")
    return a, sep, b


def halves_bad(value):
    a, sep, b = value.partition(":")
    return a, ":", b


def trim(value):
    s = value.rstrip()
    return "", s, value[len(s):]


def trim_bad(value):
    s = value.strip()
    return "", s, value[len(s):]
'''

# expressions over s (str), t (str), n (int), xs (list of lines); the result is a str, an int or a bool
EXPRS = [
    's.strip()', 's.lstrip()', 's.rstrip()', 's.partition(t)[0]', 's.partition(t)[2]', 's.split(t, 1)[0] if t else s', 's.startswith(t)',
    's.endswith(t)', 't in s', 's + t == t + s', 'len(s)', 's[1:]', 's[:-1]', 's[n:]', 's[:n]', 's[n:n + 2]', 's.find(t)', 's.lower()',
    's.replace("a", "bb")', 's.isspace()', 's == t', 's or t', 's and t', '"%" + s + t', 'f"{s}:{t}"', 's.split(":", 1)[-1]', 's[0] if s else "-"',
    's[-1] if s else "-"', 'len(xs)', '"\\n".join(xs)', 'xs[0]', 'xs[-1]', '"|".join(xs[1:])', '"|".join(reversed(xs))', '"|".join([x for x in xs if x])',
    'any(x.startswith("#") for x in xs)', 'all(x for x in xs)', '"|".join(xs + [s])', '"|".join([s] + xs[:1])', 's in xs', 'xs.index(s) if s in xs else -1',
    '"|".join(x + "!" for x in xs)', '"|".join(str(i) for i, x in enumerate(xs))', 'bool(re.match(r"^\\s*%\\w+", s))', 're.sub(r"x", "y", s)',
    '(re.match(r"^(\\w+)(\\s*:\\s*)(.*)$", s) or ["", "", "", ""])[1]', '(re.match(r"^(\\w+)(\\s*:\\s*)(.*)$", s) or ["", "", "", ""])[2]',
    '(re.match(r"^(\\w+)(\\s*:\\s*)(.*)$", s) or ["", "", "", ""])[3]', 'n + 1 if n > 1 else n - 1', 'min(n, len(s))', 's.count("a")', 's.rpartition(":")[2]',
    's.removeprefix(t)', 's.removesuffix(t)', 'not s', 's < t', '"|".join(s.split(":"))', '"|".join(s.splitlines())', 's.isdigit()', 's.upper()',
]
ARGS = [
    {"s": "abc", "t": "b", "n": 1, "xs": ["a", "#b", ""]}, {"s": "", "t": "", "n": 0, "xs": ["x"]}, {"s": "  %if a", "t": "%", "n": 2, "xs": ["#", "abc"]},
    {"s": "Name:  x: a ", "t": ": ", "n": 5, "xs": ["", "", "q"]}, {"s": "a\nb\n", "t": "\n", "n": 3, "xs": ["a\tb", "é"]}, {"s": "aXa", "t": "aXa", "n": 9, "xs": ["aXa", "aXa"]},
    {"s": "42", "t": "4", "n": 1, "xs": ["1", "2", "3", "4"]}, {"s": " \t", "t": " ", "n": 1, "xs": [" "]},
]


def engine(src, contracts):
    d = tempfile.mkdtemp()
    os.mkdir(os.path.join(d, "specfile"))
    Path(d, "specfile", "sample.py").write_text(src)
    try:
        return Engine(World(d), SpecfileSpec(), contracts)
    finally:
        os.remove(os.path.join(d, "specfile", "sample.py"))
        os.rmdir(os.path.join(d, "specfile"))
        os.rmdir(d)


def pairs():
    bad = []
    n = 0
    names = [ln.split("(")[0][4:] for ln in PAIRS.split("\n") if ln.startswith("def ")]
    for name in names:
        if name.startswith("keep"):
            c = Contract(f"sample:{name}", {"lines": LINES}, ("tuple", (LINES, LINES)), pre=lambda it, a: {"t": text(it, a.lines)},
                         ensures=lambda it, a, r, old: [("all lines are kept", Eq(mkstr(text(it, r[0]), text(it, r[1])), old.t))])
        else:
            c = Contract(f"sample:{name}", {"value": "str"}, ("tuple", ("str", "str", "str")), pre=lambda it, a: {"t": a.value},
                         ensures=lambda it, a, r, old: [("the parts make up the value", Eq(mkstr(*r), old.t))])
        r = engine(PAIRS, [c]).verify(c)
        n += 1
        if (r.status == "proved") != ("_bad" not in name):
            bad.append(f"{name}: {r.status} {r.reason} {[(o.name, o.status) for o in r.obligations if o.status != 'proved'][:3]}")
    return n, bad


def wrong(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    return v + "?"


def cross(exprs, args):
    import re  # noqa: F401
    bad, n, proved, skipped = [], 0, 0, {}
    src = "import re\n\n\n" + "\n\n\n".join(f"def f{i}(s, t, n, xs):\n    return {e}" for i, e in enumerate(exprs))
    for i, e in enumerate(exprs):
        for a in args:
            try:
                want = eval(e, {"re": re}, dict(a))  # noqa: S307
            except Exception:  # noqa: BLE001
                continue
            for expect, val in (("proved", want), ("other", wrong(want))):
                def requires(it, x, a=a):
                    out = [("s", Eq(x.s, a["s"])), ("t", Eq(x.t, a["t"])), ("n", zint(x.n) == a["n"])]
                    return out

                def setup(it, x, a=a):
                    x["xs"] = it.mklist(list(a["xs"]))

                def ensures(it, x, r, old, val=val):
                    if isinstance(val, bool):
                        return [("result", it.truth(r) == val if not is_str(r) else bool(r) == val)]
                    if isinstance(val, int):
                        return [("result", zint(r) == val)]
                    return [("result", Eq(r, val))]

                c = Contract(f"sample:f{i}", {"s": "str", "t": "str", "n": "int", "xs": LINES}, None, requires=requires, setup=setup, ensures=ensures, wf=False, seconds=20)
                try:
                    r = engine(src, [c]).verify(c)
                except Exception as ex:  # noqa: BLE001
                    skipped[e] = f"{type(ex).__name__}: {ex}"[:100]
                    continue
                n += 1
                if expect == "proved":
                    if r.status == "proved":
                        proved += 1
                    elif r.returns == 0 and r.status != "unsupported":
                        bad.append(f"{e} on {a}: CPython gives {want!r}, no path of the verifier returns")
                    else:
                        skipped[e] = f"{r.status} {r.reason}"[:100]
                elif r.status == "proved":
                    bad.append(f"{e} on {a}: CPython gives {want!r}, but {val!r} is proved")
    return n, proved, bad, skipped


def main():
    t = time.time()
    n, bad = pairs()
    exprs, args = (EXPRS[::3], ARGS[::3]) if "--quick" in sys.argv else (EXPRS, ARGS)
    m, proved, bad2, skipped = cross(exprs, args)
    for b in bad + bad2:
        print("SELFTEST FAILED:", b)
    print(f"selftest: {n} functions with correct or broken bodies, {m} comparisons with CPython ({proved} results proved, "
          f"{len(skipped)} expressions partly outside of the subset), {len(bad) + len(bad2)} failures, {time.time() - t:.1f} s")
    if "-v" in sys.argv:
        for k, v in skipped.items():
            print("   ", k, "->", v)
    return 1 if bad or bad2 else 0


if __name__ == "__main__":
    sys.exit(main())
