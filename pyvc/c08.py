"""C08: no exception, and an end, for every field of at most 200 elements.

Four parts.  (1) tokenizing: the obligations of C01's contracts (no exception; every loop makes progress).
(2) typing: every element gets a type of the documented vocabulary (C03's obligations), which is what the next
part assumes of the elements.  (3) the recursive core: no path of any function under contract raises, given the
inferred preconditions, and every call of the core decreases the ranking function A*max(n - c, -K) + b(function)
(n elements, current position c, K = BEHIND), which also bounds the stack: A and b are computed from the call sites;
the least advance d of each call is an obligation, and so is that a function called behind the last element calls
nothing more (so the step counts as min(d, K + 1) even where the maximum cuts in).  (4) the XML writer: no path raises (pyvc/c17.py)."""
import sys
import time
from fractions import Fraction

import z3
from vals import *
from vals import Unsupported
import c01
import c03
import c17
import core
import houdini
import props

LIMIT = 200                # elements
STACK = 1000               # sys.getrecursionlimit() of a fresh interpreter
LIB = 40                   # frames inside library functions (re, copy, enum, geographiclib)
BEHIND = 3                 # positions further behind the last element count as this far
MONO = ("the current position does not go back", "no record is removed")
CALLER = 60                # frames below parse_f15


class C08(props.Base):
    roles = ["name", "start", "end", "alt_si"]
    frame = ()
    firstvar = ("alt_si",)

    def seg(self, S, V, key, e):
        out = []
        if e.kind == "end":
            out += [("the current position does not go back", V.c >= S.c), ("no record is removed", V.N >= S.N)]
        return out

    def mine_pre(self, V, key):
        return self.win(V)

    def mine_post(self, V0, V, key):
        return dict(self.win(V), **{"current position does not go back": V.c >= V0.c})

    def win(self, V):
        return {"level of record -%d is not negative" % k: z3.Implies(V.N >= k, V.rec(k)["alt_si"] >= 0) for k in (1, 2, 3)}

    def final(self, S, V, p):
        return [("the derived flight rules are a text", z3.BoolVal(isinstance(V.derived, (str, SV))))]


def order(H):
    """calls of the core: (caller, callee, frames, least advance of the current position)"""
    out = []
    X, P = H.X, H.prop
    for k in list(X.keys) + ["root"]:
        paths = X.root if k == "root" else X.keys[k].paths
        for pi, p in enumerate(paths):
            if not any(e.kind == "call" for e in p.events):
                continue
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*p.facts)
            s.add(*P.axioms(p, k))
            if k != "root":
                cand = P.requires(p.entry, k)
                s.add(*[cand[n] for n in H.pre[k]])
            done = 0
            for e in p.events:
                s.add(*p.conds[done:e.ncond])
                done = max(done, e.ncond)
                if e.kind == "ret" and e.cls not in H.ends[e.call.key]:
                    break
                if e.kind == "ret" and e.cls != "unch":
                    cand = P.post(e.call.view, e.view, e.call.key)
                    s.add(*[cand[n] for n in H.post[e.call.key]])
                if e.kind != "call":
                    continue
                d = z3.simplify(e.view.c - (z3.IntVal(0) if k == "root" else p.entry.c))

                def always(f):
                    s.push()
                    s.add(z3.Not(f))
                    H.queries += 1
                    r = s.check()
                    s.pop()
                    return r == z3.unsat
                if always(z3.BoolVal(False)):
                    continue
                if k != "root" and not always(p.entry.c < ntok):
                    raise Unsupported("a call of the core from behind the last element")
                if z3.is_int_value(d):
                    lo = min(d.as_long(), BEHIND + 1)
                else:
                    lo = next((x for x in range(BEHIND + 1, -3, -1) if always(d >= x)), None)
                if lo is None:
                    raise Unsupported("a call of the core with an unknown position")
                out.append((k, e.key, e.depth, lo, pi))
    return out


def bound(calls, leaf):
    """least A (quarters) and b with b[k] >= leaf[k], b[k] >= f + b[callee] - A*d"""
    best = None
    for q in range(1, 4 * 12):
        A = Fraction(q, 4)
        b = {k: Fraction(v) for k, v in leaf.items()}
        edges = {}
        for k, c, f, d, _ in calls:
            if k != "root":
                w = f - A * d
                edges[(k, c)] = max(edges.get((k, c), w), w)
        for _ in range(len(b) + 1):
            ch = False
            for (k, c), w in edges.items():
                if b[k] < w + b[c]:
                    b[k] = w + b[c]
                    ch = True
            if not ch:
                break
        else:
            continue
        root = max([leaf["root"]] + [f - A * d + b[c] for k, c, f, d, _ in calls if k == "root"])
        tot = A * (LIMIT + BEHIND) + root
        if best is None or tot < best[0]:
            best = (tot, A, b, root)
    return best


def run(R, tier, log, deadline):
    t0 = time.time()
    failed, obs, ok, fns, q, ss, paths = [], 0, 0, set(), 0, 0.0, 0
    notes = []

    def part(name, res, pick):
        nonlocal obs, ok
        obs += res["obligations"]
        bad = [f for f in res["failed"] if pick(f["name"])]
        rest = [f for f in res["failed"] if not pick(f["name"])]
        ok += res["discharged"]
        failed.extend(bad)
        if res["status"] != "proved" and not bad:
            notes.append("%s: %s" % (name, res["reason"] or "not proved"))
    # 1 tokenizing
    r1 = c01.run(R, tier, lambda s: None, deadline)
    part("tokenizing", r1, lambda n: "raises" in n)
    fns |= set(r1["functions"])
    q += r1["queries"]
    log("tokenizer: %s %d/%d" % (r1["status"], r1["discharged"], r1["obligations"]))
    # 4 XML
    W = c17.xml(R, deadline, log)
    obs += W.obs
    ok += W.obs - len(W.failed)
    failed += [f for f in W.failed if "raises" in f["name"]]
    fns |= W.used
    log("XML: %d obligations, %d failed" % (W.obs, len(W.failed)))
    # 3 core
    P = C08(R)
    box = {}

    def made(X, H):
        box["X"], box["H"] = X, H
    r3 = core.core(P, R, tier, log, deadline, X=c03.Typing(R, P.roles, P.errroles, deadline=deadline), made=made)
    part("parsing", r3, lambda n: not any(x in n for x in MONO))
    X, H = box["X"], box["H"]
    # 2 typing
    r2 = c03.classify(R, X, log)
    part("types", r2, lambda n: False)
    # ranking function
    calls = order(H)
    leaf = {k: X.depth.get(k, 1) + LIB for k in list(X.keys) + ["root"]}
    best = bound(calls, leaf)
    obs += len(calls)
    if best is None:
        notes.append("no ranking function of the form A*(elements left) + b(function)")
    else:
        tot, A, b, root = best
        ok += len(calls)
        log("stack: %s frames per element, %s at the root: %d frames for %d elements; %d calls" % (A, root, tot, LIMIT, len(calls)))
        if tot + CALLER > STACK:
            ok -= 1
            notes.append("the stack bound for %d elements is %d frames" % (LIMIT, tot + CALLER))
    res = {"status": "failed" if failed else "unsupported" if notes else "proved",
           "reason": "; ".join([f["name"] for f in failed][:4] or notes), "obligations": obs, "discharged": min(ok, obs),
           "failed": failed[:50], "functions": sorted(set(r3["functions"]) | fns), "contracts": r3["contracts"],
           "backend": r3["backend"] + "; automata for the texts of the elements (pyvc/reglang.py)",
           "trusted": ["library functions need at most %d stack frames and raise nothing on the arguments the contracts allow "
                       "(re, copy.deepcopy, math, geographiclib)" % LIB,
                       "the caller of parse_f15 uses at most %d stack frames; the recursion limit is Python's default of %d" % (CALLER, STACK),
                       "memory is not exhausted"],
           "assumptions": ["a loop over a list that is not changed meanwhile ends"], "bounded": [],
           "paths": r3["paths"] + W.paths + r1.get("paths", 0), "queries": H.queries + q + X.nchecks,
           "solver_s": r3["solver_s"], "classes": r3["classes"], "vacuity": r3["vacuity"],
           "candidates_dropped": r3["candidates_dropped"], "hints": r3.get("hints", {})}
    if best is not None:
        res["contracts"] = dict(res["contracts"], stack="%s * (elements left) + b; %d frames for %d elements" % (best[1], best[0], LIMIT))
    return res
