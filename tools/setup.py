import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(H + "/evidence", exist_ok=True)
os.makedirs(H + "/replays", exist_ok=True)
r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3; print(z3.get_version_string())"])
sys.exit(r.returncode)
