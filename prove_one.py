"""python3-vt prove_one.py TARGET OUT.json [TIMESCALE]: discharges the obligations of one contract against /repo's
current source. Exit status is always 0; the verdict is in OUT.json."""
import ast
import hashlib
import json
import os
import sys
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(6000)
REPO = os.environ.get("VERIF_REPO", "/repo")


class _Strip(ast.NodeTransformer):
    def _body(self, n):
        self.generic_visit(n)
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(
                b[0].value.value, str):
            n.body = b[1:] or [ast.Pass()]
        return n

    visit_Module = visit_ClassDef = visit_FunctionDef = visit_AsyncFunctionDef = _body


def digests(repo=REPO):
    """module -> digest of its AST without docstrings, comments and positions"""
    out = {}
    for p in sorted(Path(repo, "specfile").glob("*.py")):
        try:
            out[p.stem] = hashlib.sha256(ast.dump(_Strip().visit(ast.parse(p.read_text()))).encode()).hexdigest()[:20]
        except (SyntaxError, ValueError):
            out[p.stem] = "unparsable"
    return out


def prove(target, scale=1.0):
    from pyvc.core import STATS, Ctx
    from pyvc.engine import Engine
    from pyvc.interp import World
    from contracts.schema import SpecfileSpec
    import contracts.all as A
    Ctx.PROVE_MS = int(Ctx.PROVE_MS * scale)
    e = Engine(World(REPO), SpecfileSpec(), A.CONTRACTS)
    c = next(c for c in A.CONTRACTS if c.target == target)
    c.seconds *= scale
    r = e.verify_cases(c)
    names, failed = {}, []
    for o in r.obligations:
        d = names.setdefault(o.name, {"proved": 0, "refuted": 0, "unknown": 0})
        d[o.status] += 1
        if o.status != "proved" and len(failed) < 20:
            failed.append({"name": o.name, "status": o.status, "detail": str(o.detail)[:3000],
                           "inputs": getattr(o, "inputs", None) or {}})
    mods = sorted({x.split(":")[0] for x in [target] + r.used + r.inlined if ":" in x})
    return {"target": target, "status": r.status, "reason": r.reason, "obligations": names, "failed": failed,
            "counts": r.counts(), "paths": r.paths, "passes": r.passes, "seconds": round(r.seconds, 2),
            "loops": {k: v[:4] for k, v in r.loops.items()}, "used": r.used, "inlined": r.inlined, "modules": mods,
            "queries": STATS.queries, "solver_s": round(STATS.solver_s, 2)}


def main():
    target, out = sys.argv[1:3]
    scale = float(sys.argv[3]) if len(sys.argv) > 3 else 1.0
    try:
        r = prove(target, scale)
    except BaseException as e:  # noqa: BLE001
        r = {"target": target, "status": "unsupported", "reason": f"internal: {type(e).__name__}: {e}\n"
             + traceback.format_exc()[-1500:], "obligations": {}, "failed": [],
             "counts": {"proved": 0, "refuted": 0, "unknown": 0}, "paths": 0, "passes": 0, "seconds": 0, "loops": {},
             "used": [], "inlined": [], "modules": [], "queries": 0, "solver_s": 0}
    Path(out).write_text(json.dumps(r, default=str))


if __name__ == "__main__":
    main()
