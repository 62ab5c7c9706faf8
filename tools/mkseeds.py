"""Creates /verif/seeded/<id>/ from the table below; verifies each in a scratch copy of /repo.
   usage: mkseeds.py [ids...]"""
import json, os, shutil, subprocess, sys, textwrap
OUT = "/verif/seeded"
W = "/tmp/w/seedrepo"
S = []
PRE = """import sys, logging
sys.setrecursionlimit(3000)
import rsm
from rsm import nodes
from rsm.transformer import Transformer
from rsm.translator import Translator, HandrailsTranslator
logging.getLogger("RSM").handlers.clear(); logging.getLogger("RSM").addHandler(logging.NullHandler())
logging.getLogger("RSM").propagate = False
def check(c, m=""):
    if not c:
        print("BROKEN:", m); sys.exit(1)
"""
def s(id, prop, file, old, new, needs, breaks, demo, more=()):
    S.append((id, prop, [(file, old, new), *more], needs, breaks, PRE + textwrap.dedent(demo)))

exec(open(os.path.join(os.path.dirname(__file__), "seeds_table.py")).read())

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main():
    want = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo in S:
        if want and id not in want:
            continue
        if not want and os.path.exists(f"{OUT}/{id}/meta.json"):
            continue
        sh(f"rm -rf {W}"); sh(f"cp -a /repo {W}")
        d = f"{OUT}/{id}"
        os.makedirs(d, exist_ok=True)
        ok = True
        for file, old, new in edits:
            p = f"{W}/{file}"
            t = open(p).read()
            if t.count(old) != 1:
                print(id, "OLD TEXT COUNT", t.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            shutil.rmtree(d); continue
        diff = sh("git diff", cwd=W).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(demo)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository; exit 0 on correct code\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        # removed lines must be original
        base = {l.strip() for l in sh(f"git show 59e9418:{edits[0][0]}", cwd=W).stdout.splitlines()}
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = all(l.strip() in base for l in removed)
        env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1")
        c = sh(f"bash {d}/demo.sh", cwd="/repo", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        b = sh(f"bash {d}/demo.sh", cwd=W, env=env)
        env["PATH"] = "/opt/venv/bin:" + env["PATH"]; env["PYTHONHASHSEED"] = "0"
        o = "-q -p no:sugar -p no:cacheprovider --timeout=300 --continue-on-collection-errors"
        t1 = sh(f"/opt/venv/bin/python -m pytest {o} tests | tail -1; /opt/venv/bin/python -m pytest {o} --doctest-modules rsm | tail -1", cwd=W, env=env).stdout.split("\n")
        print(id, prop, "removed-original" if orig else "REMOVES NEW LINES " + repr([l for l in removed if l.strip() not in base]), "clean", c.returncode, "patched", b.returncode, (c.stdout + c.stderr)[-300:] if c.returncode else "", (b.stdout+b.stderr)[-100:].strip(), t1)
    sh(f"rm -rf {W}")
main()
