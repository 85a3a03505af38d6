"""seedtest.py [-p] [ID...]: run the check of its property against each planted bug, in scratch copies of /repo.
-p: the prover only."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))
ponly = "-p" in sys.argv


def one(i):
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/r"], check=True)
        subprocess.run(["git", "-C", w + "/r", "apply", d + "/patch.diff"], check=True)
        env = dict(os.environ, VERIF_REPO=w + "/r", VERIF_TIER="quick", VERIF_SEED="1")
        if ponly:
            r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", HERE + "/pyvc/prove.py", prop, "quick", "1", w + "/o.json"],
                               env=env, cwd=HERE + "/pyvc", capture_output=True, text=True)
            o = json.load(open(w + "/o.json"))
            return i, prop, o["status"], o["reason"][:300], [f.get("info") for f in o["failed"][:2]]
        r = subprocess.run([sys.executable, HERE + "/check.py", prop], env=env, cwd=HERE, capture_output=True, text=True)
        return i, prop, r.returncode, r.stdout.strip()[-500:]
    finally:
        shutil.rmtree(w)


with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(*r, sep="\n    ")
        sys.stdout.flush()
