"""Discharge of verification conditions: z3 (library), then cvc5 and an older z3 as fallbacks, in parallel."""
import hashlib
import os
import subprocess
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor

import z3

from logic import *  # noqa: F401,F403


def to_smt2(hyps, goal):
    s = z3.Solver()
    fs = list(hyps) + [z3.Not(goal)]
    for f in background(fs) + fs:
        s.add(f)
    return s.to_smt2()


def z3_try(text, timeout_ms, **opts):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for k, v in opts.items():
        s.set(k, v)
    s.from_string(text)
    return str(s.check())


def cli(cmd, text, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        p = f.name
    try:
        out = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=timeout).stdout
        first = out.strip().splitlines()[0] if out.strip() else "unknown"
        return first if first in ("sat", "unsat", "unknown") else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(p)


def attempts(text, budget):
    return (
        ("z3", lambda: z3_try(text, int(budget * 500))),
        ("z3/mbqi-off", lambda: z3_try(text, int(budget * 600), **{"smt.mbqi": False, "smt.random_seed": 7})),
        ("cvc5", lambda: cli(["cvc5", "--lang", "smt2", f"--tlimit={int(budget * 700)}"], text, budget)),
        ("z3-4.8.12", lambda: cli(["z3", f"-T:{max(1, int(budget * 0.6))}"], text, budget)),
    )


def solve(job):
    i, text, budget, full = job
    t0 = time.time()
    for name, fn in (attempts(text, budget) if full else (("z3", lambda: z3_try(text, 2500)),)):
        try:
            r = fn()
        except Exception:  # solver crash: not a proof
            r = "unknown"
        if r in ("unsat", "sat"):
            return i, r, name, time.time() - t0
    return i, "unknown", "", time.time() - t0


def prepare(name, hyps, goal):
    """(name, text to solve or True/False when it needs no solver, the goal for the report)."""
    if z3.is_true(goal):
        return name, True, ""
    g = str(z3.simplify(goal))[:400]
    if z3.is_false(goal) and not hyps:
        return name, False, g
    return name, to_smt2(hyps, goal), g


def discharge(obls, budget=10.0, workers=None, limit=240, give_up=10):
    """obls: list of prepared obligations.  Returns per obligation (status, backend, seconds).

    First pass: a short z3 run each.  Second pass: the full portfolio on what is left; once
    `give_up` obligations have resisted it the remaining ones are reported open untried."""
    texts, index, res = [], {}, [None] * len(obls)
    for i, (name, text, goal) in enumerate(obls):
        if text is True:
            res[i] = ("unsat", "simplifier", 0.0)
            continue
        if text is False:
            res[i] = ("unknown", "", 0.0)
            continue
        h = hashlib.sha256(text.encode()).hexdigest()
        if h not in index:
            index[h] = []
            texts.append((h, text))
        index[h].append(i)
    workers = workers or min(8, os.cpu_count() or 4)

    def note(h, st, be, sec):
        for i in index[h]:
            old = res[i][2] if res[i] else 0.0
            res[i] = (st, be, sec + old)
            sec = 0.0
    end = time.time() + limit
    left = []
    with ProcessPoolExecutor(workers) as ex:
        for (h, text), r in zip(texts, ex.map(solve, [(h, t, budget, False) for h, t in texts], chunksize=1 + len(texts) // 200)):
            note(h, *r[1:])
            if r[1] == "unknown":
                left.append((h, text))
    bad = sum(1 for r in res if r and r[0] == "sat")
    while left and bad < give_up and time.time() < end:
        batch, left = left[:workers], left[workers:]
        with ProcessPoolExecutor(workers) as ex:
            for r in ex.map(solve, [(h, t, budget, True) for h, t in batch]):
                note(*r)
                bad += r[1] != "unsat"
    for h, _ in left:
        note(h, "unknown (not retried)", "", 0.0)
    return res


def refuted(hyps, timeout_ms=4000):
    """True when the assumptions are contradictory (vacuous verification)."""
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for f in background(list(hyps)) + list(hyps):
        s.add(f)
    return s.check() == z3.unsat
