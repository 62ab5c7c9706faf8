"""Applies each planted change to /repo, runs its property's check, undoes it.  usage: catch.py [seed ids]"""
import json, os, subprocess, sys, time
D = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(D))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
for i in ids:
    prop = json.load(open(f"{D}/{i}/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", f"{D}/{i}/patch.diff"], check=True)
    t0 = time.time()
    try:
        r = subprocess.run(["python3", "check.py", prop], cwd="/verif", capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    f = [l for l in r.stdout.splitlines() if l.startswith("FAILED")]
    print(f"{i:28} {prop} rc={r.returncode} {v[0] if v else 'MISSED'}  failed obligations: {len(f)}  {time.time()-t0:.0f}s", flush=True)
    for l in f[:3]: print("      ", l[:200])
    if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-500:])
