#!/usr/bin/env python3
"""Decide one property:  check.py Cxx

1. pyvc regenerates and discharges every obligation of the property's contracts from
   /repo's current source (the deciding step).
2. The bounded counterexample search runs the same property against the real code; it
   supplies the failing input of a violation and stands in where a contract is not provable.

exit 0: all obligations discharged and no failing input; exit 1 + VIOLATION line otherwise.
"""
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_PY = "/opt/venv/bin/python"
VT_PY = "python3-vt"


def searcher(prop, seed, budget, cases, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed % 1000))
    return subprocess.Popen([REPO_PY, "-W", "ignore", os.path.join(HERE, "oracle", "run.py"), "search", prop,
                             "--seed", str(seed), "--budget", str(budget), "--cases", str(cases), "--out", out],
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=HERE)


def search(prop, seed, budget, cases, workers, tag):
    tmp = os.path.join(HERE, ".cache", f"search-{prop}-{os.getpid()}-{tag}")
    os.makedirs(tmp, exist_ok=True)
    procs = []
    for w in range(workers):
        out = os.path.join(tmp, f"{w}.json")
        procs.append((out, searcher(prop, seed * 1000 + w, budget, cases, out)))
    return tmp, procs


def collect(tmp, procs, limit):
    res, errors = [], []
    end = time.time() + limit
    for out, p in procs:
        try:
            _, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            errors.append("timed out")
            continue
        if p.returncode == 0 and os.path.exists(out):
            res.append(json.load(open(out)))
        else:
            errors.append(err.decode(errors="replace")[-2000:])
    for out, _ in procs:
        if os.path.exists(out):
            os.remove(out)
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    return res, errors


def known(prop):
    """Recorded findings of this property (fixed ones suppress nothing)."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith(f"finding: property={prop} "):
            out.append(line[len(f"finding: property={prop} "):])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    thorough = tier == "thorough"
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next(c["level"] for c in man["checks"] if c["property"] == prop)
    budget, cases, workers = (90, 400000, 6) if thorough else (10, 20000, 4)
    tmp, procs = search(prop, seed, budget, cases, workers, "a")

    proof = None
    if level in ("proof", "other"):
        cmd = [VT_PY, os.path.join(HERE, "pyvc", "run.py"), prop, "--tier", tier]
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE, start_new_session=True)
            p.stdout, p.stderr = p.communicate(timeout=5400 if thorough else 660)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            p.stdout, p.stderr = "", "the verifier ran out of time"
        try:
            proof = json.loads(p.stdout)
        except ValueError:
            proof = {"obligations": 1, "discharged": 0, "failed": [
                {"name": f"{prop}: the verifier could not process the source", "why": (p.stdout + p.stderr)[-3000:]}],
                "functions": [], "backends": {}, "solver_s": 0, "trusted": [], "bounded": []}
    res, errors = collect(tmp, procs, budget + 60)
    failure = next((r["failure"] for r in res if r["failure"]), None)
    failed = proof["failed"] if proof else []
    if failed and not failure:
        b2 = 240 if thorough else 60
        tmp, procs = search(prop, seed + 17, b2, 100000, 8, "b")
        r2, e2 = collect(tmp, procs, b2 + 60)
        res += r2
        failure = next((r["failure"] for r in r2 if r["failure"]), None)
    evaluations = sum(r["evaluations"] for r in res)
    harness_dead = not res
    if harness_dead and not failure:
        failed = [*failed, {"name": f"{prop}: the counterexample search cannot run against this tree", "why": "\n".join(errors)[-3000:]}]

    rc = 0
    violations = 0
    lines = [f"KNOWN-FINDING: property={prop} {k}" for k in known(prop)]
    if failure or failed:
        rc, violations = 1, 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rel = f"replays/{prop}.json"
        rec = {"property": prop, "seed": seed, "tier": tier, "failed_obligations": failed}
        if failure:
            rec.update(input=failure["spec"], message=failure["message"],
                       how=f"{REPO_PY} -W ignore oracle/run.py replay {rel}   (run in /verif; exit 1 while it fails)")
        with open(os.path.join(HERE, rel), "w") as f:
            json.dump(rec, f, indent=1)
        for o in failed[:20]:
            print(f"FAILED obligation {o['name']}: {str(o.get('why', ''))[:300]}")
        if failure:
            print(f"failing input: {json.dumps(failure['spec'])[:1500]}\n  {failure['message'][:600]}")
        lines.append(f"VIOLATION property={prop} replay={rel}" + ("" if failure else " no-failing-input-found"))

    cov = {"evaluations": evaluations, "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in res),
           "skipped": sum(r["skipped"] for r in res),
           "rule": "bounded search (not counted as proof): random trees, sources or option sets from oracle/ (seeded), each run on the real code and compared "
                   "with an independent statement of the property; non-trivial = inside the property's precondition, distinct = distinct recorded input",
           "samples": [s for r in res for s in r["samples"]][:5], "search_errors": errors}
    assumptions = []
    if proof:
        cov.update({k: proof[k] for k in ("obligations", "discharged")})
        cov["checker_cmd"] = f"{VT_PY} /verif/pyvc/run.py {prop} --tier {tier}"
        cov["trusted_base"] = proof["trusted"]
        cov["functions_under_contract"] = proof["functions"]
        cov["backends"] = proof["backends"]
        cov["solver_s"] = proof["solver_s"]
        cov["bounded_parts"] = proof.get("bounded", [])
        cov["failed_obligations"] = [o["name"] for o in failed]
        assumptions = proof["trusted"]
        if level == "other":
            cov["explanation"] = next(c["level_note"] for c in man["checks"] if c["property"] == prop)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if proof:
        print(f"{prop}: {proof['discharged']}/{proof['obligations']} obligations discharged ({proof['backends']}), "
              f"{evaluations} bounded cases, {round(time.time() - t0, 1)} s")
    else:
        print(f"{prop}: {evaluations} bounded cases, {round(time.time() - t0, 1)} s")
    for ln in lines:
        print(ln)
    return rc


if __name__ == "__main__":
    sys.exit(main())
