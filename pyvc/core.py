"""The obligations of a property over the recursive core of the parser."""
import time

import houdini
import parser

ASSUME = [
    "the meaning given to the Python constructs of the subset (pyvc/interp.py) is that of CPython 3.12",
    "int and float arithmetic is exact rational arithmetic (no rounding, no overflow); `is` on str, int and enum values is equality",
    "attribute access has no side effects except through the properties and methods whose source is interpreted",
    "z3 is sound (each obligation is an unsat query)",
]


def witness_texts(infos):
    toks, texts = [], []
    for w in infos:
        el = (w or {}).get("elements") or []
        toks += el
        if el:
            s = " ".join(el)
            texts += [s, "N0450F350 " + s, "N0450F350 ABC " + s, "N0200VFR " + s, "N0450F350 ABC VFR " + s,
                      "N0450F350 ABC OAT " + s, "N0450F350 12N013E DCT " + s, "N0450F350 SID " + s]
    return list(dict.fromkeys(toks))[:14], list(dict.fromkeys(texts))[:400]


def core(P, R, tier, log, deadline, X=None, made=None):
    """explore the core with the attributes the property P speaks of, infer its contracts, discharge the rest"""
    t0 = time.time()
    X = X or parser.Explorer(R, P.roles, P.errroles, deadline=deadline, log=None)
    X.explore()
    log("explored %d functions x elements, %d paths, %.1f s" % (len(X.keys), X.total_paths, time.time() - t0))
    H = houdini.Houdini(X, P, deadline=deadline, log=log)
    out = H.run()
    if made:
        made(X, H)
    log("contracts: %d candidates, %d kept; %d queries" % (H.ncand, H.kept, H.queries))
    bad = [o for o in out if o[4] != "ok"]
    names = {}
    failed = []
    for o in bad:
        n = "%s [%s, %s]" % (o[0], o[1], o[3])
        if n not in names:
            names[n] = 1
            failed.append({"name": n, "function": o[1], "path": o[2], "where": o[3], "result": o[4], "info": o[5]})
    toks, texts = witness_texts([o[5] for o in bad])
    contracts = {}
    for k, ki in X.keys.items():
        if ki.paths:
            contracts["%s%s" % (k[0].split(".")[-1], "" if k[1] is None else " (element at cursor%+d)" % k[1])] = {
                "requires": len(H.pre[k]), "ensures": len(H.post[k]), "paths": len(ki.paths)}
    unk = all(o[4] == "unknown" for o in bad)
    cut = any(k[2][:1] == ("loop",) for k in X.keys)       # the grammar of invariants was made for recursion
    res = {"status": "proved" if not bad else "unsupported" if unk or cut else "failed",
           "reason": "" if not bad else ("the solver did not decide: " if unk else "no invariant found: " if cut else "") + "; ".join(list(names)[:4]),
           "obligations": len(out) + H.kept, "discharged": len(out) - len(bad) + H.kept, "failed": failed,
           "functions": sorted(X.used), "contracts": contracts, "backend": "z3 (python API) on verification conditions of pyvc",
           "trusted": P.trusted(), "assumptions": ASSUME + P.assumes(), "solver_s": round(H.solver_s, 2),
           "paths": X.total_paths, "queries": H.queries + X.nchecks, "classes": len(X.keys),
           "vacuity": "%d of %d functions under contract have a feasible path under their inferred precondition" % (
               H.vac[0], H.vac[1]), "candidates_dropped": H.ncand - H.kept, "bounded": [],
           "hints": {"tokens": toks, "texts": texts} if toks else {}}
    if H.vac[0] == 0 or not H.rootok:
        res["status"], res["reason"] = "unsupported", "no feasible path: the contracts are vacuous"
    return res
