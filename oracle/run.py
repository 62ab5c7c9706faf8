"""Bounded counterexample search and replay.

  run.py search PROP --seed N --budget SECONDS --cases N --out FILE   -> JSON on stdout
  run.py replay FILE                                                  -> exit 1 if the recorded input still fails
"""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from oracle.common import Bad, Skip, quiet  # noqa: E402

MODULES = ["trees", "render", "misc"]


def table():
    props = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("oracle." + m)
        except ModuleNotFoundError as ex:
            if ex.name != "oracle." + m:
                raise
            continue
        props.update(mod.PROPS)
    return props


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


def one(run, spec, limit=20):
    """None, or the failure message, or Skip."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        run(spec)
        return None
    except Skip:
        raise
    except Bad as b:
        return str(b)
    except Hang:
        return f"does not finish within {limit} s"
    except RecursionError:
        return "recursion without end"
    except Exception as ex:
        if any(os.sep + "rsm" + os.sep in f.filename and "oracle" not in f.filename for f in traceback.extract_tb(ex.__traceback__)):
            return f"internal error: {ex!r}"
        raise
    finally:
        signal.alarm(0)
        quiet()


def shrink(run, spec, msg):
    """Greedy reduction of the recorded input (lists in ops and trees)."""
    def fails(s):
        try:
            return one(run, s, 5)
        except Exception:
            return None

    def variants(x):
        if isinstance(x, dict):
            for k in ("ops", "ch", "tree"):
                if k in x:
                    v = x[k]
                    if isinstance(v, list):
                        for i in range(len(v)):
                            yield {**x, k: v[:i] + v[i + 1:]}
                        for i, it in enumerate(v):
                            if isinstance(it, dict):
                                for w in variants(it):
                                    yield {**x, k: v[:i] + [w] + v[i + 1:]}
                    elif isinstance(v, dict):
                        for w in variants(v):
                            yield {**x, k: w}
        if isinstance(x, dict) and "src" in x:
            parts = x["src"].split("\n\n")
            for i in range(1, len(parts) - 1):
                yield {**x, "src": "\n\n".join(parts[:i] + parts[i + 1:])}

    t0 = time.time()
    changed = True
    while changed and time.time() - t0 < 15:
        changed = False
        for v in variants(spec):
            m = fails(v)
            if m:
                spec, msg, changed = v, m, True
                break
            if time.time() - t0 > 15:
                break
    return spec, msg


def search(prop, seed, budget, cases):
    entry = table()[prop]
    gen, run = entry[0], entry[1]
    fixed = entry[2]() if len(entry) > 2 else []
    t0 = time.time()
    done = skipped = 0
    distinct = set()
    samples = []
    fail = None
    i = 0
    errors = []
    while i < cases + len(fixed) and (time.time() - t0 < budget):
        if i < len(fixed):
            spec = fixed[i]
        else:
            rng = random.Random(f"{prop}-{seed}-{i}")
            spec = gen(rng)
        i += 1
        try:
            msg = one(run, spec)
        except Skip:
            skipped += 1
            continue
        done += 1
        key = json.dumps(spec, sort_keys=True)
        distinct.add(hash(key))
        if len(samples) < 5:
            samples.append(key[:400])
        if msg:
            fail = (spec, msg)
            break
    if fail:
        spec, msg = shrink(run, *fail)
        fail = {"spec": spec, "message": msg}
    return {"property": prop, "evaluations": done, "skipped": skipped, "distinct_nontrivial": len(distinct),
            "samples": samples, "failure": fail, "seed": seed, "wall_s": round(time.time() - t0, 2)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("what")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--cases", type=int, default=2000)
    ap.add_argument("--out", default="")
    a = ap.parse_args()
    if a.mode == "search":
        stdout = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            res = search(a.what, a.seed, a.budget, a.cases)
        finally:
            sys.stdout = stdout
        text = json.dumps(res)
        if a.out:
            with open(a.out, "w") as f:
                f.write(text)
        else:
            print(text)
        return 0
    rec = json.load(open(a.what))
    if not rec.get("input"):
        print("no failing input was found; the record names the failed obligation")
        return 1
    run = table()[rec["property"]][1]
    try:
        msg = one(run, rec["input"])
    except Skip:
        msg = None
    print("still fails: " + msg if msg else "holds on this input")
    return 1 if msg else 0


if __name__ == "__main__":
    sys.exit(main())
