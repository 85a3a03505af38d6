"""check.py PROPERTY — decide one property on /repo's current working tree.

1. pyvc/prove.py: contracts on the functions in /repo, every obligation discharged by an SMT solver.
2. oracle/search.py: concrete search on the real code; cross-checks the proof, turns failed obligations into
   failing inputs, and stands in (bounded) for functions outside the prover's reach.
Exit 0: held. Exit 1 + VIOLATION line: broken. Tier and seed come from VERIF_TIER / VERIF_SEED."""
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/bin/python"
RT = "/opt/venv/bin/python"


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def main():
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = os.path.join(HERE, "replays", "%s.%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO)
    pf, sf = os.path.join(work, "prove.json"), os.path.join(work, "search.json")

    prover = os.path.join(HERE, "pyvc", "prove.py")
    proof = None
    if os.path.exists(prover):
        with open(os.path.join(work, "prove.log"), "w") as log:
            try:
                subprocess.run([VT, prover, prop, tier, str(seed), pf], env=env, cwd=os.path.join(HERE, "pyvc"),
                               stdout=log, stderr=log, timeout=420 if tier == "quick" else 3000, check=False)
            except subprocess.TimeoutExpired:
                pass
        proof = load(pf)
        if proof is None:
            tail = ""
            try:
                tail = open(os.path.join(work, "prove.log")).read()[-1500:]
            except OSError:
                pass
            proof = {"status": "error", "reason": "the prover ended without a result: " + tail,
                     "obligations": 0, "discharged": 0, "failed": [], "functions": [], "assumptions": []}
    if proof is None:
        proof = {"status": "unsupported", "reason": "no contracts", "obligations": 0, "discharged": 0,
                 "failed": [], "functions": [], "assumptions": []}

    args = [RT, os.path.join(HERE, "oracle", "search.py"), prop, tier, str(seed), sf]
    hints = proof.get("hints") or {}
    if proof["status"] != "proved":
        hints["deep"] = True
    if hints:
        hf = os.path.join(work, "hints.json")
        json.dump(hints, open(hf, "w"))
        args.append(hf)
    with open(os.path.join(work, "search.log"), "w") as log:
        try:
            subprocess.run(args, env=env, cwd=work, stdout=log, stderr=log,
                           timeout=300 if tier == "quick" else 2400, check=False)
        except subprocess.TimeoutExpired:
            pass
    res = load(sf) or {"evaluations": 0, "violations": [], "samples": [], "complete": False,
                       "error": "the search ended without a result"}

    known = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                known.append(line.strip())
    except OSError:
        pass
    if res.get("known_still_fails"):
        for line in known:
            print(line)

    violations = 0
    rc = 0
    replay = None
    if res.get("violations"):
        case, msgs = res["violations"][0]
        replay = os.path.join(HERE, "replays", "%s-%d.json" % (prop, os.getpid()))
        json.dump({"property": prop, "case": case, "messages": msgs,
                   "failed_obligations": proof.get("failed", [])[:20],
                   "how": "%s %s/oracle/replay.py %s" % (RT, HERE, replay),
                   "others": res["violations"][1:6]}, open(replay, "w"), indent=1)
        for m in msgs[:3]:
            print("  %s: %s" % (repr(case)[:300], m[:400]))
        for o in proof.get("failed", [])[:3]:
            print("  failed obligation:", o.get("name"))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        violations, rc = len(res["violations"]), 1
    elif res.get("error"):
        replay = os.path.join(HERE, "replays", "%s-%d.json" % (prop, os.getpid()))
        json.dump({"property": prop, "case": None, "failed_obligations": proof.get("failed", [])[:20],
                   "error": res["error"], "trace": res.get("trace")}, open(replay, "w"), indent=1)
        print("  the code under test cannot be run:", res["error"])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        violations, rc = 1, 1
    elif proof["status"] == "failed":
        replay = os.path.join(HERE, "replays", "%s-%d.json" % (prop, os.getpid()))
        json.dump({"property": prop, "case": None, "failed_obligations": proof.get("failed", [])[:50]},
                  open(replay, "w"), indent=1)
        for o in proof.get("failed", [])[:5]:
            print("  failed obligation:", o.get("name"))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        violations, rc = 1, 1

    level = "proof" if proof["status"] == "proved" else "exploration"
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res.get("distinct", res["evaluations"]),
           "rule": "fields (or operation histories) from exhaustive short element sequences, all documented element "
                   "forms and seeded random walks; each case is distinct by construction of its generator part; "
                   "each is run through the real code and compared with an independent specification",
           "samples": res.get("samples", [])[:6], "search_complete": bool(res.get("complete")),
           "proof_status": proof["status"], "proof_reason": proof.get("reason", ""),
           "obligations": proof["obligations"], "discharged": proof["discharged"],
           "checker_cmd": "%s pyvc/prove.py %s %s %d OUT" % (VT, prop, tier, seed),
           "trusted_base": proof.get("trusted", []),
           "functions_under_contract": proof.get("functions", []),
           "contracts": proof.get("contracts", {}), "backend": proof.get("backend", ""),
           "solver_s": proof.get("solver_s", 0), "prover_s": proof.get("wall_s", 0),
           "unproved_bounded": proof.get("bounded", []), "failed": [o.get("name") for o in proof.get("failed", [])][:50]}
    for k in ("paths", "queries", "classes", "vacuity", "candidates_dropped"):
        if k in proof:
            cov[k] = proof[k]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": proof.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        print("%s held: proof %s (%d of %d obligations), %d concrete cases, %.1f s" %
              (prop, proof["status"], proof["discharged"], proof["obligations"], res["evaluations"], time.time() - t0))
        if proof["status"] != "proved":
            print("  not proved:", proof.get("reason", "")[:500])
        for f in os.listdir(work):
            os.unlink(os.path.join(work, f))
        os.rmdir(work)
    sys.exit(rc)


if __name__ == "__main__":
    main()
