"""Method contracts of the two list classes, for lists of any length and any argument (C02, C20).

A state of the class is a list of n elements (any n >= 0) and, for Tokens, a cursor (any integer).  Every method
is executed symbolically from an arbitrary state; each path must end in the state and with the result its
contract states.  A history of operations is a sequence of such steps, so the contracts settle every history."""
import time

import z3
from vals import *
from vals import Unsupported
from interp import Interp, Obj, LObj, GList, El, Ref, St, Dec, PyRaise


class SpecList:
    """reference value: segments, as GList"""
    def __init__(self, segs):
        self.segs = segs

    def length(self):
        return GList(self.segs).length()


def code(it, segs, j, keep):
    """term naming the element at index j (within the list)"""
    out = z3.IntVal(-999999)
    off = z3.IntVal(0)
    parts = []
    for s in segs:
        ln = z3.IntVal(1) if s[0] == "v" else s[3] - s[2]
        parts.append((off, ln, s))
        off = off + ln
    for off, ln, s in reversed(parts):
        out = z3.If(z3.And(j >= off, j < off + ln), ident(s[1], keep) if s[0] == "v" else s[2] + j - off, out)
    return out


def ident(v, keep):
    """integer naming a value: elements of the original list by their index, others negative"""
    if isinstance(v, El):
        return v.i
    if v is None:
        return z3.IntVal(-1)
    k = vkey(v)
    if k not in keep:
        keep[k] = -2 - len(keep)
    return z3.IntVal(keep[k])


class ListProof:
    def __init__(self, R, deadline, log):
        self.R, self.deadline, self.log = R, deadline, log
        self.obs, self.failed, self.functions, self.queries, self.solver_s = 0, [], set(), 0, 0.0
        self.cases, self.paths, self.checked, self.vac = [], 0, set(), 0

    def check(self, it, st, claim, name, fn, info):
        """claim: formula or bool; must follow from the path"""
        self.obs += 1
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*st.facts)
        s.add(*st.conds)
        if isinstance(claim, bool):
            claim = z3.BoolVal(claim)
        s.add(z3.Not(claim))
        t = time.time()
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t
        if r == z3.unsat:
            return True
        w = {}
        if r == z3.sat:
            # a small counterexample if there is one
            for b in (3, 6, 12, None):
                s.push()
                if b is not None:
                    for v in self.vars.values():
                        s.add(v <= b, v >= -b)
                if s.check() == z3.sat:
                    m = s.model()
                    w = {k: m.eval(v, model_completion=True).as_long() for k, v in self.vars.items()}
                    s.pop()
                    break
                s.pop()
        self.failed.append({"name": "%s [%s]" % (name, fn), "function": fn, "path": 0, "where": "",
                            "result": "failed" if r == z3.sat else "unknown", "info": w, "case": info(w) if w else None})
        return False

    def state(self, cls, lists, ints):
        """arbitrary object of the class: lists {attr: (name, length var, element class)}, ints {attr: Z}"""
        it = Interp(self.R)
        it.st, it.dec = St(), Dec([], "init")
        new = it.construct(cls, [], {})
        o = it.st.heap[new.id]
        extra = set(o.a) - set(lists) - set(ints)
        if extra:
            raise Unsupported("%s keeps further state: %s" % (cls.__name__, ", ".join(sorted(extra))))
        a = dict(o.a)
        for k, (name, n, ec) in lists.items():
            it.gcls[name] = ec
            it.st.facts.append(n >= 0)
            a[k] = it.alloc(GList([("o", name, z3.IntVal(0), n)]))
        for k, v in ints.items():
            a[k] = v
        st = St()
        st.nid = it.st.nid
        st.heap = {i: h for i, h in it.st.heap.items() if i != new.id and isinstance(h, GList)}
        st.heap[new.id] = Obj(cls, a)
        st.facts = list(it.st.facts)
        return it, st, new

    def run(self, it, base, f):
        outs = it.explore(base, f)
        self.functions |= it.used_funcs
        self.paths += len(outs)
        return outs

    def solverbase(self, it, base):
        it.solver = z3.Solver()
        it.solver.set("timeout", 20000)
        it.solver.add(*base.facts)

    def result(self, trusted, what):
        hints = {"cases": [f["case"] for f in self.failed if f.get("case")][:40]}
        bad = self.failed
        unk = bool(bad) and all(f["result"] == "unknown" for f in bad)
        names = list(dict.fromkeys(f["name"] for f in bad))
        return {"status": "proved" if not bad else "unsupported" if unk else "failed",
                "reason": "; ".join(names[:4]), "obligations": self.obs, "discharged": self.obs - len(bad),
                "failed": bad[:40], "functions": sorted(self.functions), "backend": "z3 (python API) on verification conditions of pyvc",
                "trusted": trusted, "assumptions": what, "bounded": [], "paths": self.paths, "queries": self.queries,
                "solver_s": round(self.solver_s, 2), "hints": hints if hints["cases"] else {}}


def same(it, st, ref, segs, keep):
    """claim: the list behind ref has exactly the elements of segs"""
    if not isinstance(ref, Ref) or not isinstance(st.heap.get(ref.id), (GList, LObj)):
        return False
    h = st.heap[ref.id]
    got = h.segs if isinstance(h, GList) else [("v", x) for x in h.items]
    if [vseg(s) for s in got] == [vseg(s) for s in segs]:
        return True
    j = z3.Int("j!")
    n = GList(segs).length()
    return z3.And(GList(got).length() == n,
                  z3.Implies(z3.And(j >= 0, j < n), code(it, got, j, keep) == code(it, segs, j, keep)))


def vseg(s):
    return ("v", vkey(s[1])) if s[0] == "v" else ("o", s[1], tid(z3.simplify(s[2])), tid(z3.simplify(s[3])))


def clamp(i, n):
    """Python's slice position"""
    j = z3.If(i < 0, i + n, i)
    return z3.If(j < 0, z3.IntVal(0), z3.If(j > n, n, j))


def at(val, i, n, keep):
    """claim: val is the element at i, or None outside"""
    if val is not None and not isinstance(val, (El, Ref)):
        return False
    return ident(val, keep) == z3.If(z3.And(i >= 0, i < n), i, z3.IntVal(-1))
