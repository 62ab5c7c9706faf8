"""Generate and discharge every obligation of one property."""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


STATE = {}


def generate(i):
    """The prepared obligations of one unit (runs in a worker process)."""
    import vc
    from logic import FALSE
    it, text = STATE["it"], STATE["text"]
    name, fn = STATE["units"][i]
    it.obls = []
    it.pre = None
    it.functions = set()
    t1 = time.time()
    try:
        fn()
    except Exception as e:  # an engine failure leaves the obligation open
        if text:
            traceback.print_exc(limit=-6)
        it.ctx = ""
        it.obls.append((f"{name}: the verifier could not process this function: {type(e).__name__}: {e}", [], FALSE))
    if not it.obls:
        it.obls.append((f"{name}: no obligation was generated", [], FALSE))
    if it.pre is not None and vc.refuted(it.pre, 2000):
        it.obls.append((f"{name}: the preconditions contradict each other (vacuous)", [], FALSE))
    return name, [vc.prepare(*o) for o in it.obls], sorted(it.functions), time.time() - t1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only", default="")
    ap.add_argument("--text", action="store_true")
    a = ap.parse_args()
    import vc
    from interp import Interp
    plan = importlib.import_module("contracts.plan")
    t0 = time.time()
    it = Interp()
    plan.install(it)
    units, meta = plan.units(a.prop, it)
    units = [u for u in units if a.only in u[0]]
    STATE.update(it=it, units=units, text=a.text)
    obls, functions, units_run = [], set(), []
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4), mp_context=multiprocessing.get_context("fork")) as ex:
        for name, os_, fs, sec in ex.map(generate, range(len(units)), chunksize=1):
            obls += os_
            functions.update(fs)
            units_run.append((name, len(os_), sec))
    gen = time.time() - t0
    res = vc.discharge(obls, budget=30 if a.tier == "thorough" else 20, limit=600 if a.tier == "thorough" else 360)
    failed, backends, secs, slow = [], {}, 0.0, []
    for (name, _, goal), (st, be, sec) in zip(obls, res):
        secs += sec
        slow.append((round(sec, 1), be, name))
        if st == "unsat":
            backends[be] = backends.get(be, 0) + 1
        else:
            failed.append({"name": f"{a.prop} {name}", "why": f"solver answer: {st}; goal: {goal}"})
    out = {"obligations": len(obls), "discharged": len(obls) - len(failed), "failed": failed, "backends": backends,
           "solver_s": round(secs, 2), "generation_s": round(gen, 2),
           "functions": sorted(set(meta["functions"]) | functions), "trusted": meta["trusted"], "bounded": meta["bounded"]}
    if a.text:
        for u in units_run:
            print("%-60s %5d obligations, %.1f s" % u)
        print({k: out[k] for k in ("obligations", "discharged", "backends", "solver_s", "generation_s")})
        for x in sorted(slow, reverse=True)[:4]:
            if x[0] > 1:
                print("SLOW", x)
        seen = {}
        for f in failed:
            seen.setdefault(f["name"], f)
        for f in list(seen.values())[:40]:
            print("FAILED", f["name"][:200], "|", f["why"][:250].replace("\n", " "))
    else:
        json.dump(out, sys.stdout)


main()
