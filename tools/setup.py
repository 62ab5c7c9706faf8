"""Setup: nothing is built; checks that the two interpreters and the solvers are there."""
import subprocess, sys
subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import rsm"], check=True)
subprocess.run(["python3-vt", "-c", "import z3"], check=True)
print("ok")
