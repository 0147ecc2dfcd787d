"""developer tool: proves every contract on the unchanged tree and records which ones are discharged"""
import concurrent.futures as cf
import json
import subprocess
import sys
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import check as C  # noqa: E402
from prove_one import digests  # noqa: E402
import contracts.all as A  # noqa: E402


def main():
    import z3
    cs = [c for c in A.CONTRACTS if not c.trusted]
    pats = sys.argv[1:]
    old = json.loads((HERE / "baseline.json").read_text()) if pats else {"proved": {}, "props": {}}
    tmp = tempfile.mkdtemp()
    run = [c for c in cs if not pats or any(p in c.target for p in pats)]
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda c: C.prove(c.target, tmp, time.time() + 600), run))
    proved = {t: m for t, m in old["proved"].items() if t in {c.target for c in cs} and t not in {c.target for c in run}}
    for r in rs:
        print(r["status"], r["target"], r["counts"], r["seconds"], r["reason"][:150])
        if r["status"] == "proved":
            proved[r["target"]] = r["modules"]
    d = {"digests": digests(), "proved": dict(sorted(proved.items())), "props": {c.target: list(c.props) for c in cs if c.target in proved},
         "z3": z3.get_version_string()}
    (HERE / "baseline.json").write_text(json.dumps(d, indent=1) + "\n")


main()
