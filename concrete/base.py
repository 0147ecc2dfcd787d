"""Concrete replay of the contracts on the real code of /repo (bounded; run by /opt/venv/bin/python).

A check is a pair gen(rng) -> case (JSON-able) and run(case) -> raises Violation. The cases come from fixed seeds."""
import ast
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = Path(__file__).resolve().parent


class Violation(Exception):
    pass


class Skip(Exception):
    """the case is outside of the precondition"""


class Timeout(BaseException):
    pass


CHECKS = {}


class Check:
    def __init__(self, prop, name, gen, run, quick, thorough, seedable):
        self.prop, self.name, self.gen, self.run = prop, name, gen, run
        self.quick, self.thorough, self.seedable = quick, thorough, seedable


def check(prop, quick=400, thorough=None, gen=None, seedable=None):
    def deco(f):
        CHECKS.setdefault(prop, []).append(
            Check(prop, f.__name__, gen, f, quick, thorough or quick * 8, seedable))
        return f
    return deco


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*[_short(a) for a in args]) if args else msg)


def _short(a):
    s = repr(a)
    return s if len(s) < 600 else s[:600] + "..."


def same(a, b, what):
    if a != b:
        raise Violation(f"{what}: got {_short(a)}, expected {_short(b)}")


# ---- dictionary of constants of the current source, new ones first ---------------------------------
def source_constants():
    strs, ints = set(), set()
    for p in sorted(Path(REPO, "specfile").glob("*.py")):
        try:
            tree = ast.parse(p.read_text())
        except (SyntaxError, UnicodeDecodeError, OSError):
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
                    n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(id(n.body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, bytes) and b"\0" in v or isinstance(v, str) and "\0" in v:
                    continue
                if isinstance(v, str) and 0 < len(v) <= 24:
                    strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 24:
                    strs.add(v.decode("latin1"))
                elif isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 400:
                    ints.add(v)
    return strs, ints


_dict = None


def dictionary():
    """(new strings, all strings, new ints)"""
    global _dict
    if _dict is None:
        strs, ints = source_constants()
        try:
            base = json.loads((HERE / "constants.json").read_text())
        except (OSError, ValueError):
            base = {"strs": [], "ints": []}
        if os.environ.get("VERIF_DICT") == "all":
            # developer option: every constant counts as new
            base = {"strs": [], "ints": []}
        new = sorted(s for s in strs if s not in set(base["strs"]) and "\n" not in s)
        newi = sorted(i for i in ints if i not in set(base["ints"]))
        _dict = (new, sorted(s for s in strs if "\n" not in s), newi)
    return _dict


SEEDS = {"strings": [], "lists": []}


class Rng(random.Random):
    def maybe(self, p):
        return self.random() < p

    def pick(self, *xs):
        return self.choice(xs)

    def weighted(self, pairs):
        t = sum(w for w, _ in pairs)
        r = self.random() * t
        for w, x in pairs:
            r -= w
            if r < 0:
                return x
        return pairs[-1][1]

    def size(self, small=4, p_big=0.01):
        """mostly small numbers, sometimes around constants of the source"""
        new = dictionary()[2]
        if new and self.maybe(0.05):
            return min(300, max(0, self.choice(new) + self.choice((-1, 0, 1, 2))))
        if self.maybe(p_big):
            return self.choice((9, 10, 11, 12, 20, 33))
        return self.randint(0, small)


def _alarm(*_):
    raise Timeout()


def run_case(c, case, limit=20):
    """None if the contract holds (or Skip), else the reason"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        c.run(json.loads(json.dumps(case)))
        return None
    except Skip:
        return "skip"
    except Violation as e:
        return f"violation: {e}"
    except Timeout:
        return f"violation: no result within {limit} s"
    except RecursionError:
        return "violation: RecursionError"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        last = next((t for t in reversed(tb) if "specfile" in t.filename), tb[-1])
        return f"violation: {type(e).__name__}: {e} ({Path(last.filename).name}:{last.name})"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _kind(reason):
    return reason.split(": got ")[0][:60] if reason.startswith("violation") else reason


def shrink(c, case, budget=6.0):
    """greedy reduction of the failing case"""
    end = time.time() + budget
    kind = _kind(run_case(c, case, 5) or "")

    def bad(x):
        try:
            r = run_case(c, x, 5)
        except Exception:  # noqa: BLE001
            return False
        return r is not None and r != "skip" and _kind(r) == kind

    def variants(x):
        if isinstance(x, list):
            n = len(x)
            k = n // 2
            while k:
                for i in range(0, n, k):
                    yield x[:i] + x[i + k:]
                k //= 2
            for i, y in enumerate(x):
                for z in variants(y):
                    yield x[:i] + [z] + x[i + 1:]
        elif isinstance(x, dict):
            for k, y in x.items():
                for z in variants(y):
                    yield {**x, k: z}
        elif isinstance(x, str) and x:
            n = len(x)
            k = n // 2
            while k:
                for i in range(0, n, k):
                    yield x[:i] + x[i + k:]
                k //= 2
            if n == 1:
                yield ""

    progress = True
    while progress and time.time() < end:
        progress = False
        for v in variants(case):
            if time.time() > end:
                break
            try:
                if v != case and bad(v):
                    case, progress = v, True
                    break
            except RecursionError:
                break
    return case


def load(prop):
    sys.path.insert(0, REPO)
    importlib.import_module("concrete." + MODULES[prop])


MODULES = {}
for _m, _ps in {"files": "C01 C02", "parts": "C03 C04 C05 C06 C07", "values": "C08 C09 C24", "validity": "C10",
                "edits": "C11 C12 C13 C14", "sources": "C15", "contexts": "C16 C17 C18 C26",
                "versions": "C19 C20 C22", "entries": "C21", "equality": "C25", "updates": "C23"}.items():
    for _p in _ps.split():
        MODULES[_p] = _m


def seeded(c, rng):
    """a case built from the strings of the verifier's counterexamples"""
    if c.seedable is None or not (SEEDS["strings"] or SEEDS["lists"]):
        return None
    if c.seedable == "lines":
        if SEEDS["lists"] and rng.maybe(0.6):
            return list(rng.choice(SEEDS["lists"]))
        pool = SEEDS["strings"] + [x for xs in SEEDS["lists"] for x in xs]
        return [s for _ in range(rng.randint(1, 4)) for s in rng.choice(pool).split("\n")]
    pool = SEEDS["strings"] + ["\n".join(x) for x in SEEDS["lists"]] or [""]
    return "".join(rng.choice(pool) for _ in range(rng.randint(1, 2)))


def worker(prop, tier, seed, part, parts, scale=1.0, deadline=None):
    """runs this worker's share of all cases; returns statistics and the first failure of each check"""
    out = {"evaluations": 0, "nontrivial": 0, "distinct": 0, "checks": {}, "failures": [], "samples": []}
    sys.setrecursionlimit(2000)
    for c in CHECKS.get(prop, []):
        n = int((c.quick if tier == "quick" else c.thorough) * scale)
        seen, done, skipped = set(), 0, 0
        for i in range(part, n, parts):
            if deadline and time.time() > deadline:
                break
            rng = Rng(f"{prop}/{c.name}/{seed}/{i}")
            case = seeded(c, rng) if i % 3 == 0 else None
            if case is None:
                case = c.gen(rng)
            r = run_case(c, case)
            done += 1
            if r == "skip":
                skipped += 1
                continue
            seen.add(hash(json.dumps(case, sort_keys=True)))
            if r is not None:
                small = shrink(c, case)
                r2 = run_case(c, small)
                if r2 in (None, "skip"):
                    small, r2 = case, r
                out["failures"].append({"check": c.name, "case": small, "reason": r2, "original": case})
                break
            if len(out["samples"]) < 3 and i < 40:
                out["samples"].append({"check": c.name, "case": case})
        out["evaluations"] += done
        out["nontrivial"] += done - skipped
        out["distinct"] += len(seen)
        out["checks"][c.name] = {"cases": done, "skipped": skipped}
    return out
