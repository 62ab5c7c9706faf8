"""Small textual variants of /repo: 'bug' variants must leave an obligation open, 'same' variants must be proved.

usage: mutants.py [PROP|NUMBER...]   (works on copies under /tmp; /repo is not touched)
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
MUT = []


def bug(prop, f, *pairs):
    MUT.append((prop, "bug", f, pairs))


def same(prop, f, *pairs):
    MUT.append((prop, "same", f, pairs))


exec(open(os.path.join(HERE, "mutants_list.py")).read())


def run(i):
    prop, kind, f, pairs = MUT[i]
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/rsm", d + "/rsm", symlinks=True)
        p = f"{d}/rsm/{f}"
        s = open(p).read()
        for a, b in pairs:
            if s.count(a) < 1:
                return i, "NOT-APPLICABLE", a
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import rsm"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return i, "DOES NOT IMPORT", r.stderr[-200:]
        r = subprocess.run(["python3-vt", os.path.join(HERE, "../pyvc/run.py"), prop], env=dict(os.environ, PYVC_REPO=d), capture_output=True, text=True)
        try:
            o = json.loads(r.stdout)
        except ValueError:
            return i, "ERROR", r.stderr[-300:]
        ok = bool(o["failed"]) == (kind == "bug")
        return i, "ok" if ok else "WRONG", [x["name"][:150] for x in o["failed"][:3]]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    want = [i for i, m in enumerate(MUT) if len(sys.argv) == 1 or m[0] in sys.argv[1:] or str(i) in sys.argv[1:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, st, info in ex.map(run, want):
            print(i, MUT[i][0], MUT[i][1], st, MUT[i][3][0][1][:60].replace("\n", "|"), info if st != "ok" or MUT[i][1] == "bug" else "")
