"""C03: the body of the loop that assigns types, for an element with any text.

The body is executed symbolically for one element of arbitrary text; what it tests of the text (regular
expressions, equality with literals, length) stays symbolic.  Every combination of outcomes that some text of any
length produces is then decided by automata, and the types assigned on that path are compared with the documented
formats."""
import os
import re
import sys
import time

import z3
from vals import *
from vals import Unsupported
from interp import HDict, Tok, match
import parser
import reglang

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.append(os.path.join(HERE, "..", "oracle"))


class Typing(parser.Explorer):
    captured = None

    def typing_loop(self, it, s, fr):
        parser.Explorer.typing_loop(self, it, s, fr)
        self.captured = self.last_typing


def compile_(f, t):
    """formula -> (kind, ...) over the tests of the text t; None if it does not speak of the text"""
    if z3.is_true(f) or z3.is_false(f):
        return z3.is_true(f)
    k = f.decl().kind()
    if k == z3.Z3_OP_NOT:
        x = compile_(f.arg(0), t)
        return ("not", x)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        return ("and" if k == z3.Z3_OP_AND else "or",) + tuple(compile_(c, t) for c in f.children())
    if f.decl().eq(match):
        if not f.arg(1).eq(t):
            raise Unsupported("a test of another text")
        return ("match", f.arg(0).as_long())
    if k == z3.Z3_OP_EQ and (f.arg(0).eq(t) or f.arg(1).eq(t)):
        o = f.arg(1) if f.arg(0).eq(t) else f.arg(0)
        if z3.is_int_value(o):
            return ("lit", o.as_long())
        raise Unsupported("a test of another text")
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        return (k, num(f.arg(0), t), num(f.arg(1), t))
    raise Unsupported("test %s in the typing loop" % f.sexpr()[:80])


def num(f, t):
    if z3.is_int_value(f):
        return f.as_long()
    if z3.is_app(f) and f.decl().eq(slen) and f.arg(0).eq(t):
        return "len"
    if z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
        return (f.decl().kind(),) + tuple(num(c, t) for c in f.children())
    raise Unsupported("number in the typing loop")


def nval(f, w):
    if isinstance(f, int):
        return f
    if f == "len":
        return len(w)
    xs = [nval(c, w) for c in f[1:]]
    if f[0] == z3.Z3_OP_ADD:
        return sum(xs)
    if f[0] == z3.Z3_OP_SUB:
        return xs[0] - sum(xs[1:])
    p = 1
    for x in xs:
        p *= x
    return p


class Eval:
    def __init__(self, names):
        self.names = names
        self.w = None
        self.c = {}

    def set(self, w):
        self.w, self.c = w, {}

    def atom(self, k):
        if k not in self.c:
            n = self.names[k[1]]
            if k[0] == "lit":
                self.c[k] = self.w == n
            else:
                how, pat, fl = eval(n, {})
                self.c[k] = getattr(re, how)(pat, self.w, fl) is not None
        return self.c[k]

    def holds(self, f):
        if isinstance(f, bool):
            return f
        if f[0] == "not":
            return not self.holds(f[1])
        if f[0] == "and":
            return all(self.holds(x) for x in f[1:])
        if f[0] == "or":
            return any(self.holds(x) for x in f[1:])
        if f[0] in ("match", "lit"):
            return self.atom(f)
        a, b = nval(f[1], self.w), nval(f[2], self.w)
        return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b}[f[0]]


def atoms(f, out, lens):
    if isinstance(f, bool):
        return
    if f[0] in ("match", "lit"):
        out.add(f)
    elif f[0] in ("not", "and", "or"):
        for x in f[1:]:
            atoms(x, out, lens)
    else:
        stack = [f[1], f[2]]
        while stack:
            x = stack.pop()
            if isinstance(x, int):
                lens.add(abs(x))
            elif isinstance(x, tuple):
                stack += list(x[1:])


def run(R, tier, log, deadline):
    X = Typing(R, (), (), deadline=deadline)
    X.explore()
    return classify(R, X, log)


def classify(R, X, log):
    """every element gets the documented type: over the paths of the typing loop captured by X"""
    import spec
    t0 = time.time()
    if not X.captured:
        raise Unsupported("no loop assigns the types")
    i, outs, nb, code = X.captured
    t = ttext(i)
    log("explored %d functions, %d paths; %d paths through the typing loop; %.1f s" % (
        len(X.keys), X.total_paths, len(outs), time.time() - t0))
    failed, obligations = [], 0
    fn = code
    # every element is typed whatever the list: the root paths
    for p in X.root:
        obligations += 1
        if p.kind == "exc":
            continue
    inv = {v.as_long(): k for k, v in lits().items()}
    # decision tree of the paths
    paths, ats, lens = [], set(), {spec.MAX_LEN}
    for st, kind, val, taken in outs:
        cs = []
        for c in st.conds[nb:]:
            if c.eq(st.conds[nb]):
                continue
            f = compile_(z3.simplify(c), t)
            atoms(f, ats, lens)
            cs.append(f)
        ov = st.flags["typing"]
        paths.append((cs, ov[("base", "set")], ov[("sub", "set")]))
    nfa = reglang.NFA()
    names = {}
    for k in sorted(ats):
        names[k[1]] = inv[k[1]]
        if k[0] == "lit":
            nfa.word(inv[k[1]])
        else:
            how, pat, fl = eval(inv[k[1]], {})
            nfa.add(how, pat, fl)
    for form, b, s in spec.FORMATS:
        if form == "<time>":
            nfa.add("fullmatch", "([01][0-9]|2[0-3])[0-5][0-9]", 0)
        else:
            nfa.add("fullmatch", "".join("[A-Z]" if c == "@" else "[0-9]" if c == "9" else re.escape(c) for c in form), 0)
    nfa.prepare()
    cap = max(lens) + 2
    if cap > 400:
        raise Unsupported("length limit %d" % cap)
    words = nfa.explore(cap)
    log("%d tests of the text, %d classes of characters, %d classes of words" % (len(ats), len(nfa.cl), len(words)))
    ev = Eval(names)
    tree = {}
    for cs, b, s in paths:
        n = tree
        for c in cs:
            n = n.setdefault(c, {})
        n[None] = (b, s)
    bad = []
    for w, _ in words:
        if w == "":
            continue
        obligations += 1
        ev.set(w)
        n, ok = tree, True
        while None not in n:
            for c in n:
                if ev.holds(c):
                    n = n[c]
                    break
            else:
                ok = False
                break
        if not ok:
            bad.append((w, None, spec.classify(w)))
            continue
        b, s = n[None]
        try:
            got = (R.basename[int(b)], R.subname[int(s)])
        except (TypeError, ValueError, KeyError):
            raise Unsupported("types that depend on more than the tests of the text")
        exp = tuple(spec.classify(w)[:2])
        if got != exp:
            bad.append((w, got, exp))
    log("%d classes of words disagree" % len(bad))
    for w, got, exp in bad[:40]:
        failed.append({"name": "an element like %r gets %s, documented %s" % (w, got, exp), "function": fn, "path": 0,
                       "where": "loop body", "result": "failed" if got else "unknown", "info": {"text": w}})
    st = "proved" if not bad else "failed"
    return {"status": st, "reason": "; ".join(f["name"] for f in failed[:3]), "obligations": obligations,
            "discharged": obligations - len(bad), "failed": failed, "functions": sorted(X.used),
            "backend": "pyvc symbolic execution with z3 for the paths, automata (pyvc/reglang.py) for the texts",
            "trusted": ["the tokens given to the parser are non-empty texts (C01)"],
            "assumptions": ["Python's re matches as its syntax tree says (pyvc/reglang.py builds the automata from re's own parser); "
                            "one representative text per class is also matched by re itself"],
            "bounded": [], "paths": len(outs), "queries": X.nchecks, "classes": len(words), "solver_s": 0,
            "hints": {"texts": [w for w, _, _ in bad[:60]] + ["N0450F350 " + w for w, _, _ in bad[:60]]} if bad else {}}
