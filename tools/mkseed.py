"""Makes and confirms planted bugs: copy of /repo, edit, tests still pass, demo passes without / fails with it."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
from F15_Parser.F15Parse import ParseF15
from Tokenizer.Tokenize import Tokenize
from Tokenizer.Tokens import Tokens


def parse(text, ers=None):
    t = Tokenize()
    t.set_string_to_tokenize(text)
    t.set_whitespace(" \\n\\t\\r/")
    t.tokenize()
    ers = ers or ExtractedRouteSequence()
    ok = ParseF15().parse_f15(ers, t.get_tokens())
    return ok, ers, t.get_tokens()


def names(ers):
    return [r.get_name() for r in ers.get_all_elements()]


'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def make(id, prop, edits, demo, needs, breaks):
    out = os.path.join(VERIF, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        w = os.path.join(tmp, "repo")
        run(["git", "worktree", "prune"], "/repo")
        shutil.copytree("/repo", w)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = run(["git", "diff"], w).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(d)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + demo.strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = run(["sh", os.path.join(out, "demo.sh")], "/repo")
        b = run(["sh", os.path.join(out, "demo.sh")], w)
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "UnitTests"], w)
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print(id, prop, "OK" if ok else "BAD", "clean", a.returncode, "bug", b.returncode, "tests", t.returncode)
        if not ok:
            print(a.stdout[-600:], b.stdout[-300:], t.stdout[-600:])
            shutil.rmtree(out)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ns = {}
    for f in sys.argv[1:]:
        exec(open(f).read(), {"make": make})
