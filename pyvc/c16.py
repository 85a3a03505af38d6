"""C16: the result of a parse is a function of the text; nothing shared is written.

The frame condition of every function under contract: it writes to the route sequence it is given, to records and
lists allocated during the call, to the current position of the token list and, in the typing loop, to the types of
its elements - and to nothing else (a store anywhere else has no meaning in pyvc/interp.py and stops the proof, see
setattr and assign there; the three long-lived objects are compared at every contract boundary, see
Explorer.others).  The read condition: an element's type is read only after it was assigned in the same parse, and
the position an earlier parse left behind is read by no path.  The constructors share no mutable object.  The
tokenizer's part (a new list each time, earlier lists unchanged, object reusable) are obligations of C01's proof.
The interpreter has no meaning for clocks, random numbers, hashes, identities, files or the environment."""
import time

import z3
from vals import *
from vals import Unsupported
from interp import Interp, St, Dec
import c01
import c17
import core
import props


def vars_of(t, seen, out):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(t.decl().name())
    for c in t.children():
        vars_of(c, seen, out)


class C16(props.Base):
    roles = []
    errroles = []

    def mine_pre(self, V, key):
        return {}

    def mine_post(self, V0, V, key):
        return {}

    def pre(self, V, key):
        return {}

    def post(self, V0, V, key):
        return {}

    def seg(self, S, V, key, e):
        return []

    def final(self, S, V, p):
        return []


def reach(st, v, out):
    """heap objects reachable from v; concrete mutable values found on the way"""
    if isinstance(v, Ref):
        if v.id in out[0]:
            return
        out[0].add(v.id)
        o = st.heap[v.id]
        if isinstance(o, Obj):
            for x in o.a.values():
                reach(st, x, out)
        elif isinstance(o, LObj):
            for x in (o.items.values() if o.kind == "dict" else o.items):
                reach(st, x, out)
    elif isinstance(v, (list, dict, set, bytearray)):
        out[1].append(v)


def constructors(R, obs, bad):
    """two objects made one after the other share no mutable object, and both are in the same state"""
    it = Interp(R)
    it.st, it.dec = St(), Dec([], "init")
    for cls in (R.ParseF15, R.Tokens, R.Ers, R.Tokenize):
        a, b = it.construct(cls, [], {}), it.construct(cls, [], {})
        st = it.st
        ra, rb = (set(), []), (set(), [])
        reach(st, a, ra)
        reach(st, b, rb)
        fn = cls.__name__ + ".__init__"
        obs.append(fn)
        if ra[0] & rb[0]:
            bad.append(fn + " shares a mutable object")
        if ra[1] or rb[1]:
            bad.append(fn + " uses a list or dictionary of the class or module")
        # mutable class attributes that are not shadowed by the constructor
        ia = set(st.heap[a.id].a)
        for k in cls.__mro__[:-1]:
            for n, v in k.__dict__.items():
                if isinstance(v, (list, dict, set, bytearray)) and n not in ia and n != "__annotations__":
                    obs.append("%s.%s" % (cls.__name__, n))     # shared by all instances: may only be read (interp.assign)


def run(R, tier, log, deadline):
    notes, obs, bad = [], [], []
    # 1 the tokenizer
    r1 = c01.run(R, tier, lambda s: None, deadline)
    log("tokenizer: %s %d/%d" % (r1["status"], r1["discharged"], r1["obligations"]))
    hist = ("an earlier token list", "a new token list", "tokens of its own", "no further state", "text is not changed",
            "delimiters are not changed", "nothing else changes", "what is set")
    f1 = [f for f in r1["failed"] if any(h in f["name"] for h in hist)]
    if r1["status"] != "proved" and not f1:
        notes.append("tokenizer: " + (r1["reason"] or "not proved"))
    # 2 construction
    constructors(R, obs, bad)
    # 3 the XML writer changes nothing
    W = c17.xml(R, deadline, log)
    f2 = [f for f in W.failed if "does not change" in f["name"]]
    if W.failed and not f2:
        notes.append("as_xml: " + W.failed[0]["name"])
    # 4 the parser
    P = C16(R)
    box = {}
    r3 = core.core(P, R, tier, log, deadline, made=lambda X, H: box.update(X=X, H=H))
    X = box["X"]
    if r3["failed"]:
        notes.append("parser: " + r3["failed"][0]["name"])
    frames = 0
    for k in list(X.keys) + ["root"]:
        paths = X.root if k == "root" else X.keys[k].paths
        for p in paths:
            frames += 1 + sum(1 for e in p.events if e.view is not None)      # each compared by Explorer.view
            if k != "root":
                continue
            seen, names = set(), set()
            for t in p.conds:
                vars_of(t, seen, names)
            done = False
            for e in p.events:
                if e.kind in ("call", "end") and not done:
                    v = e.view
                    for t in (v.c, v.N, v.E):
                        vars_of(t, seen, names)
                    done = e.kind == "call"
            obs.append("root path")
            if "c0" in names:
                # a test of the old position that decides nothing is harmless: the solver cannot tell, leave it open
                notes.append("parse_f15 reads the position an earlier parse left behind")
            if isinstance(p.extra, Z):
                vars_of(p.extra.t, seen, names)
    if bad:
        notes += bad
    n = len(obs) + frames
    failed = f1 + f2
    total = r1["obligations"] + W.obs + r3["obligations"] + n
    res = {"status": "failed" if failed else "unsupported" if notes else "proved",
           "reason": "; ".join([f["name"] for f in failed][:4] or notes[:4]), "obligations": total,
           "discharged": total - len(failed) - len(notes), "failed": failed,
           "functions": sorted(set(r3["functions"]) | set(r1["functions"]) | W.used),
           "contracts": {"frame": "route sequence, position and types of the token list; checked at %d boundaries of %d paths"
                         % (frames, r3["paths"]), "constructors": sorted(set(obs) - {"root path"})},
           "backend": "frame conditions by symbolic execution of every path (pyvc/interp.py, pyvc/parser.py), z3 for feasibility",
           "trusted": ["copy, re, math, geographiclib and xml.sax.saxutils keep no state a parse can observe",
                       "C03: the typing loop sets both types of every element (a store for one type only stops the proof)"],
           "assumptions": ["a Tokens list, Tokenize and ParseF15 object is only used through its methods between parses"],
           "bounded": [], "paths": r3["paths"] + W.paths + r1.get("paths", 0), "queries": r3["queries"] + r1["queries"] + W.queries,
           "solver_s": r3["solver_s"], "vacuity": r3["vacuity"], "classes": r3["classes"]}
    return res
