"""python3 check.py PROPERTY quick|thorough

Decides one property: (1) the verifier (pyvc) discharges the obligations of the contracts that carry the property,
generated from /repo's current source; (2) the contract is executed on the real code for generated inputs (bounded
stand-in for what is not proved, and the search for a failing input when an obligation fails)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from prove_one import digests  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
CPUS = min(8, os.cpu_count() or 8)
LIMIT = {"quick": 420, "thorough": 3000}          # wall clock of the proofs
SCALE = {"quick": 3.0, "thorough": 4.0}           # share of the cases of concrete checks
# cheap checks run more cases
MORE = {"C01": 1.5, "C02": 2, "C05": 15, "C08": 1.5, "C09": 1.5, "C11": 2.5, "C12": 3, "C13": 8, "C14": 2.5, "C15": 1.5,
        "C18": 2.5, "C19": 3, "C20": 3, "C21": 4, "C22": 12, "C23": 2, "C24": 15, "C25": 2}
SECONDS = {"quick": 150, "thorough": 1500}        # wall clock of concrete checks
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "TZ": "UTC"}


def contracts(prop):
    r = subprocess.run([VT, "-c", "import sys,json;sys.path.insert(0,%r);sys.dont_write_bytecode=True\n"
                        "import contracts.all as A\n"
                        "print(json.dumps([[c.target,bool(c.trusted),bool(c.inline),list(c.props)] "
                        "for c in A.CONTRACTS]))" % str(HERE)], capture_output=True, text=True, env=ENV)
    if r.returncode:
        raise SystemExit("cannot load the contracts:\n" + r.stderr)
    allc = json.loads(r.stdout)
    return [t for t, tr, inl, ps in allc if prop in ps and not tr], [t for t, tr, _, _ in allc if tr]


def prove(target, tmp, deadline, scale=1.0):
    out = Path(tmp, "p%d.json" % abs(hash((target, scale))))
    left = max(5, deadline - time.time())
    try:
        subprocess.run([VT, str(HERE / "prove_one.py"), target, str(out), str(scale)], env=ENV, timeout=left,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return json.loads(out.read_text())
    except subprocess.TimeoutExpired:
        why = f"no verdict within {left:.0f} s"
    except (OSError, ValueError) as e:
        why = f"prover died: {e}"
    return {"target": target, "status": "unsupported", "reason": why, "obligations": {}, "failed": [],
            "counts": {"proved": 0, "refuted": 0, "unknown": 0}, "paths": 0, "seconds": 0, "loops": {}, "used": [],
            "inlined": [], "modules": [], "queries": 0, "solver_s": 0}


def concrete(prop, tier, seed, scale, seconds, tmp, seedfile=None, pool=None):
    def one(part):
        cmd = [PY, str(HERE / "concrete/run.py"), prop, tier, str(seed), str(part), str(CPUS), str(scale), str(seconds)]
        if seedfile:
            cmd.append(str(seedfile))
        wd = tempfile.mkdtemp(dir=tmp)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env={**ENV, "TMPDIR": wd}, cwd=wd,
                               timeout=seconds + 120, errors="replace")
            if r.returncode == 0:
                d = json.loads(r.stdout)
                d["cmd"] = cmd
                return d
            return {"error": f"exit status {r.returncode}: {r.stderr[-1500:]}", "cmd": cmd}
        except subprocess.TimeoutExpired:
            return {"error": f"no result within {seconds + 120} s", "cmd": cmd}
        except ValueError as e:
            return {"error": f"bad output: {e}", "cmd": cmd}
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    with cf.ThreadPoolExecutor(CPUS) as ex:
        parts = list(ex.map(one, range(CPUS)))
    # a worker that died (killed, out of memory) is run once more
    for i, p in enumerate(parts):
        if "error" in p:
            parts[i] = one(i)
    return parts


def replays(path):
    """does the failure in the replay file happen again in a fresh process"""
    wd = tempfile.mkdtemp()
    try:
        r = subprocess.run([PY, str(HERE / "concrete/run.py"), "--replay", str(path)], capture_output=True, text=True,
                           env={**ENV, "TMPDIR": wd}, cwd=wd, timeout=120, errors="replace")
        return r.returncode == 1 and "->" in r.stdout
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def findings(prop):
    """known findings of the property in known-findings.txt: lines
    known: property=ID check=NAME case=JSON what=TEXT (fixed: lines suppress nothing)"""
    p = HERE / "known-findings.txt"
    out = []
    for ln in p.read_text().splitlines() if p.exists() else []:
        m = re.match(r"known: property=(\S+) check=(\S+) case=(.*) what=(.*)$", ln)
        if m and m[1] == prop:
            out.append({"check": m[2], "case": json.loads(m[3]), "what": m[4]})
    return out


def seeds_from(results):
    s = {"strings": [], "lists": []}

    def walk(v):
        if isinstance(v, str):
            if "\0" not in v and len(v) < 400:
                s["strings"].append(v)
        elif isinstance(v, list):
            flat = [x if isinstance(x, str) else x[0] for x in v
                    if isinstance(x, str) or isinstance(x, list) and x and isinstance(x[0], str)]
            flat = [x for x in flat if "\0" not in x]
            if flat:
                s["lists"].append(flat)
            for x in v:
                walk(x)
        elif isinstance(v, dict):
            for x in v.values():
                walk(x)
    for r in results:
        for f in r["failed"]:
            walk(f["inputs"])
    s["strings"] = sorted(set(s["strings"]))[:200]
    s["lists"] = s["lists"][:100]
    return s


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = json.loads((HERE / "levels.json").read_text())[prop]
    base = json.loads((HERE / "baseline.json").read_text())
    now = digests(REPO)
    outdir = HERE / "evidence"
    repdir = outdir / "replay"
    repdir.mkdir(parents=True, exist_ok=True)
    for old in repdir.glob(f"{prop}-*.json"):
        old.unlink()
    targets, trusted = contracts(prop)
    later = [t for t in targets if t not in base["proved"]]
    if tier == "quick":
        # contracts that are not discharged on the baseline are attempted by the thorough tier only
        targets = [t for t in targets if t in base["proved"]]
    violations, lines, notes = [], [], []
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        deadline = t0 + LIMIT[tier]
        with cf.ThreadPoolExecutor(CPUS) as ex:
            proofs = list(ex.map(lambda t: prove(t, tmp, deadline), targets))
        # obligations that fail are tried once more with more time
        for i, r in enumerate(proofs):
            if r["status"] == "unknown" and base["proved"].get(r["target"]) and time.time() < deadline - 60:
                proofs[i] = prove(r["target"], tmp, deadline, 3.0)
        parts = concrete(prop, tier, seed, SCALE[tier] * MORE.get(prop, 1), SECONDS[tier], tmp)

        def changed(r):
            b = base["proved"].get(r["target"])
            return b is not None and any(now.get(m) != base["digests"].get(m) for m in set(b) | set(r["modules"]))

        failed = [r for r in proofs if r["status"] in ("refuted", "unknown") and r["target"] in base["proved"]
                  and changed(r)]
        fails = [(f, p["cmd"]) for p in parts for f in p.get("failures", [])]
        extended = 0
        if failed and not fails:
            sf = Path(tmp, "seeds.json")
            sf.write_text(json.dumps(seeds_from(failed)))
            secs = 150 if tier == "quick" else 900
            more = concrete(prop, tier, seed + 1000, SCALE[tier] * MORE.get(prop, 1) * 6, secs, tmp, sf)
            extended = sum(p.get("evaluations", 0) for p in more)
            parts += more
            fails = [(f, p["cmd"]) for p in more for f in p.get("failures", [])]
        for p in parts:
            if "error" in p:
                notes.append("worker failed: " + p["error"][:300])
        dead = [p for p in parts[:CPUS] if "error" in p]
        if dead and not fails and now != base["digests"]:
            rp = repdir / f"{prop}-crash.json"
            rp.write_text(json.dumps({"property": prop, "command": " ".join(dead[0]["cmd"]), "crash": dead[0]["error"]}, indent=1))
            violations.append((rp, ""))
        # ---- failing inputs, confirmed in a fresh process
        known = findings(prop)
        seen = set()
        for f, cmd in fails:
            if f["check"] in seen:
                continue
            rp = repdir / f"{prop}-{f['check']}.json"
            d = {"property": prop, "check": f["check"], "case": f["case"], "reason": f["reason"],
                 "how": f"{PY} {HERE}/concrete/run.py --replay {rp}",
                 "failed_obligations": [{"function": r["target"], "obligation": x["name"], "status": x["status"]}
                                        for r in proofs for x in r["failed"][:3] if r["target"] in base["proved"]]}
            if any(k.get("check") == f["check"] and k.get("case") in (f["case"], f["original"]) for k in known):
                continue
            ok = False
            for case in (f["case"], f["original"]):
                d["case"] = case
                rp.write_text(json.dumps(d, indent=1))
                if replays(rp):
                    ok = True
                    break
            if not ok:
                # depends on the cases before it: the whole share of the worker again
                wd = tempfile.mkdtemp(dir=tmp)
                try:
                    r = subprocess.run(cmd, capture_output=True, text=True, env={**ENV, "TMPDIR": wd}, cwd=wd,
                                       timeout=600, errors="replace")
                    again = json.loads(r.stdout)["failures"] if r.returncode == 0 else []
                except (subprocess.TimeoutExpired, ValueError):
                    again = []
                if any(g["check"] == f["check"] for g in again):
                    d["case"] = f["original"]
                    d["needs"] = "the preceding cases of: " + " ".join(cmd)
                    rp.write_text(json.dumps(d, indent=1))
                    ok = True
            if not ok:
                rp.unlink(missing_ok=True)
                notes.append(f"failure of {f['check']} did not repeat: {f['reason'][:200]}")
                continue
            seen.add(f["check"])
            violations.append((rp, ""))
        # ---- failed obligations without a failing input
        if failed and not violations:
            rp = repdir / f"{prop}-obligations.json"
            rp.write_text(json.dumps({"property": prop, "failed_obligations": [
                {"function": r["target"], "status": r["status"], "reason": r["reason"], "obligations": r["failed"]}
                for r in failed], "extended_search_evaluations": extended}, indent=1))
            violations.append((rp, " no-failing-input-found"))
        for k in known:
            rp = Path(tmp, "known.json")
            rp.write_text(json.dumps({"property": prop, "check": k["check"], "case": k["case"]}))
            if replays(rp):
                lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    ev = sum(p.get("evaluations", 0) for p in parts)
    dist = sum(p.get("distinct", 0) for p in parts)
    done = [r for r in proofs if r["status"] == "proved"]
    ob = sum(sum(r["counts"].values()) for r in proofs)
    dis = sum(r["counts"]["proved"] for r in proofs)
    errors = []
    if not ev or not dist:
        errors.append("no input was evaluated")
    if any("error" in p for p in parts[:CPUS]) and not violations:
        errors.append("a worker gave no result: " + "; ".join(notes)[:600])
    if targets and not ob and all(now.get(m) == base["digests"].get(m) for m in now):
        errors.append("no obligations were generated")
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": f"python3-vt prove_one.py TARGET OUT (pyvc, z3 {base.get('z3', '')}) for each function under contract",
        "assumed_not_discharged": sorted({u for r in proofs for u in r["used"] if u not in base["proved"] and u not in trusted}),
        "trusted_base": [
            "pyvc: its symbolic semantics of the Python subset (cross-checked against CPython by selftest.py) and z3",
            "models of str/list/re/rpm calls in pyvc/models.py"] + [f"assumed contract: {t}" for t in trusted]
        + [f"contract assumed by a caller, not discharged: {u}" for u in
           sorted({u for r in proofs for u in r["used"] if u not in base["proved"] and u not in trusted})],
        "functions_under_contract": [
            {"function": r["target"], "verdict": r["status"], "reason": r["reason"][:300],
             "obligations": r["obligations"], "paths": r["paths"], "loop_invariants": r["loops"],
             "callee_contracts_used": r["used"], "inlined": r["inlined"], "seconds": r["seconds"],
             "solver_s": r["solver_s"], "queries": r["queries"]} for r in proofs],
        "functions_proved": len(done), "back_end": "z3",
        "solver_s": round(sum(r["solver_s"] for r in proofs), 2),
        "bounded_stand_in_for": sorted({r["target"] for r in proofs if r["status"] != "proved"} | set(later)) + meta.get("bounded", []),
        "evaluations": ev, "distinct_nontrivial": dist,
        "rule": meta["rule"], "checks_run": _merge(parts),
        "samples": [s for p in parts for s in p.get("samples", [])][:4],
        "explanation": meta["explanation"],
    }
    e = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
         "assumptions": meta["assumptions"] + notes, "wall_s": round(time.time() - t0, 1),
         "violations": len(violations)}
    (outdir / f"{prop}.json").write_text(json.dumps(e, indent=1))
    for ln in lines:
        print(ln)
    for r in proofs:
        print(f"  {r['status']:12s} {r['target']} {r['counts']} {r['seconds']} s {r['reason'][:120] if r['status'] != 'proved' else ''}")
    print(f"  bounded: {ev} evaluations, {dist} distinct, {time.time() - t0:.1f} s")
    for n in notes:
        print("  note:", n[:300])
    for rp, tail in violations:
        print(f"VIOLATION property={prop} replay={rp}{tail}")
    if violations:
        return 1
    if errors:
        print("ERROR:", "; ".join(errors))
        return 2
    return 0


def _merge(parts):
    out = {}
    for p in parts:
        for k, v in p.get("checks", {}).items():
            d = out.setdefault(k, {"cases": 0, "skipped": 0})
            d["cases"] += v["cases"]
            d["skipped"] += v["skipped"]
    return out


if __name__ == "__main__":
    sys.exit(main())
