"""python run.py PROPERTY TIER SEED PART PARTS SCALE SECONDS [SEEDFILE] -> JSON on stdout
   python run.py --replay FILE -> exit 1 if the failure in FILE happens again"""
import json
import logging
import os
import sys
import time
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from concrete import base  # noqa: E402


def main():
    logging.disable(logging.CRITICAL)
    if sys.argv[1] == "--replay":
        d = json.loads(Path(sys.argv[2]).read_text())
        if "check" not in d:
            print(json.dumps(d, indent=1))
            return 1
        base.load(d["property"])
        c = next(c for c in base.CHECKS[d["property"]] if c.name == d["check"])
        r = base.run_case(c, d["case"])
        print(f"property={d['property']} check={d['check']} case={json.dumps(d['case'])}\n-> {r}")
        return 1 if r not in (None, "skip") else 0
    prop, tier, seed, part, parts, scale, secs = sys.argv[1:8]
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    if len(sys.argv) > 8:
        base.SEEDS.update(json.loads(Path(sys.argv[8]).read_text()))
    base.load(prop)
    r = base.worker(prop, tier, seed, int(part), int(parts), float(scale), time.time() + float(secs))
    with os.fdopen(out, "w") as f:
        f.write(json.dumps(r))
    return 0


if __name__ == "__main__":
    sys.exit(main())
