"""C01: the tokenizer's loop under inferred invariants, for texts of any length and any set of delimiters.

Ghost functions of a position k of the text (defined by recursion over k, nothing assumed of the code):
  rs(k)   start of the run of non-delimiters open at k
  cnt(k)  number of elements ended by the first k characters
  gs(i), ge(i)  start and end of the i-th element
A run ends at the delimiter after it or at the end of the text; a delimiter '/' is an element of its own.
The loop invariants are relations between the program's variables and these functions; candidates are dropped
until the rest is inductive, and the postcondition must follow from the rest."""
import ast

import z3
from vals import *
from vals import Unsupported
from interp import Interp, Obj, LObj, GList, El, Ref, St, Dec, PyRaise, PathEnd, Brk, Cont, Ret, EnumV, RangeV
from lists import ListProof, vseg

rs = z3.Function("rs", IntS, IntS)
cnt = z3.Function("cnt", IntS, IntS)
gs = z3.Function("gs", IntS, IntS)
ge = z3.Function("ge", IntS, IntS)
SL = 47


def defs(k):
    d, sl = isdel(inch(k)), inch(k) == SL
    run = rs(k) < k
    c1 = cnt(k) + z3.If(run, 1, 0)
    return [rs(0) == 0, cnt(0) == 0, 0 <= rs(k), rs(k) <= k, cnt(k) >= 0,
            z3.Implies(z3.And(0 <= k, k < inlen), z3.If(
                d, z3.And(rs(k + 1) == k + 1, z3.Implies(run, z3.And(gs(cnt(k)) == rs(k), ge(cnt(k)) == k)),
                          z3.Implies(sl, z3.And(gs(c1) == k, ge(c1) == k + 1)), cnt(k + 1) == c1 + z3.If(sl, 1, 0)),
                z3.And(rs(k + 1) == rs(k), cnt(k + 1) == cnt(k)))),
            z3.Implies(z3.And(k == inlen, run), z3.And(gs(cnt(k)) == rs(k), ge(cnt(k)) == k))]


class Tok01:
    def __init__(self, R, P):
        self.R, self.P = R, P
        self.drop = set()
        self.changed = False
        self.loops = {}
        self.final = False
        self.tokcls = R.Tokens
        self.la = R.toks_attr["list"]
        # which attributes hold the text, the delimiters and the result
        self.attr = {}
        for role, setter, getter in (("text", "set_string_to_tokenize", "get_string_to_tokenize"),
                                     ("ws", "set_whitespace", "get_whitespace")):
            t = R.Tokenize()
            s = "".join(["q", role])
            getattr(t, setter)(s)
            hit = [a for a, v in vars(t).items() if v is s]
            if len(hit) != 1 or getattr(t, getter)() is not s:
                raise Unsupported("the attribute behind %s" % setter)
            self.attr[role] = hit[0]
        t = R.Tokenize()
        hit = [a for a, v in vars(t).items() if v is t.get_tokens()]
        if len(hit) != 1:
            raise Unsupported("the attribute behind get_tokens")
        self.attr["toks"] = hit[0]

    # ------------------------------------------------ loops
    def hook(self, it, s, fr, val, obj):
        if val is None and not isinstance(s, ast.While):
            return False
        base = z3.IntVal(0)
        if isinstance(val, RangeV):
            if val.c != 1 or all(isinstance(x, int) for x in (val.a, val.b)):
                return False
            lo, hi = zint(val.a), zint(val.b)
        elif isinstance(val, EnumV):
            a, b = tpart(val.v)
            lo, hi = a, b
        elif val is not None:
            lo, hi = tpart(val)
        lid = (s.lineno, s.col_offset)
        mod = modified(s)
        glists = self.lists(it, fr, s)
        if val is None:
            # the position is an integer variable the loop changes and tests
            names = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)]
            cand = [n for n in names if n in mod and kindof(fr.loc.get(n)) == "i"] or \
                   [n for n in mod if kindof(fr.loc.get(n)) == "i"]
            if not cand:
                raise Unsupported("while loop without a position")
            pv = cand[0]
            k0 = zint(fr.loc[pv])
        else:
            pv, k0 = None, lo
        for f in defs(z3.simplify(k0)):
            it.fact(f)
        self.candidates(it, fr, lid, mod, glists, k0, "entry")
        # an arbitrary iteration
        pre = {n: fr.loc.get(n) for n in mod if n in fr.loc}
        for n, v in pre.items():
            fr.loc[n] = self.havoc(it, v, n)
        for key, lref in glists.items():
            self.havoc_list(it, lref, key)
        if val is None:
            k = zint(fr.loc[pv])
            it.fact(k >= k0)
        else:
            k = z3.Int(it.name("k"))
            it.fact(z3.And(k >= lo, z3.Or(k <= hi, k == lo)))
        it.fact(z3.And(k >= 0, k <= inlen))
        for f in defs(z3.simplify(k)):
            it.fact(f)
        self.candidates(it, fr, lid, mod, glists, k, "assume", kind0=pre)
        if not it.sat(z3.BoolVal(True)):
            raise PathEnd()
        head = self.frame(it, fr, glists)
        if val is None:
            go = it.branch(it.eval(s.test, fr))
        else:
            go = it.branch(Z("b", k < hi))
        if not go:
            it.block(s.orelse, fr)
            return True
        if isinstance(val, RangeV):
            it.assign(s.target, Z("i", k), fr)
        elif isinstance(val, EnumV):
            it.assign(s.target, (it.arith("+", val.start, Z("i", z3.simplify(k - lo))), txt(k, k + 1)), fr)
        elif val is not None:
            it.assign(s.target, txt(k, k + 1), fr)
        for f in defs(z3.simplify(k + 1)):
            it.fact(f)
        try:
            it.block(s.body, fr)
        except Brk:
            return True
        except Cont:
            pass
        if val is None:
            k2 = zint(fr.loc[pv])
            for f in defs(z3.simplify(k2)):
                it.fact(f)
            self.progress(it, k2 > k, "the position grows")
            self.progress(it, k2 <= inlen, "the position stays in the text")
        else:
            k2 = z3.simplify(k + 1)
        back = self.frame(it, fr, glists, head)
        if any(back.get(x) != y for x, y in head.items()):
            raise Unsupported("a loop changes more than its variables and the lists it appends to")
        self.candidates(it, fr, lid, mod, glists, k2, "back", kind0=pre)
        raise PathEnd()

    def frame(self, it, fr, glists, head=None):
        """everything a loop may not change: attributes, other lists, which names share a list"""
        out = {}
        lists = {r.id for r in glists.values()}
        for i, o in it.st.heap.items():
            if isinstance(o, Obj):
                for a, v in o.a.items():
                    out[(i, a)] = vkey(v)
            elif i not in lists:
                out[i] = tuple(vseg(x) for x in o.segs) if isinstance(o, GList) else tuple(vkey(x) for x in o.items) \
                    if isinstance(o, LObj) and o.kind != "dict" else None
        names = sorted(k[5:] for k in glists if k.startswith("list "))
        for x in names:
            for y in names:
                if x < y:
                    out[("alias", x, y)] = vkey(fr.loc.get(x)) == vkey(fr.loc.get(y))
        for n, v in fr.loc.items():
            if isinstance(v, Ref) and n not in names:
                out[("local", n)] = vkey(v)
        return {k: v for k, v in out.items() if head is None or k in head}

    def progress(self, it, claim, name):
        if self.final:
            self.P.check(it, it.st, claim, name, "tokenize", lambda w: None)

    def havoc(self, it, v, n):
        if v is None:
            k = it.choose([z3.BoolVal(True), z3.BoolVal(True)])
            return None if k == 0 else Z("i", z3.Int(it.name(n)))
        kd = kindof(v)
        if kd == "b":
            return Z("b", z3.Bool(it.name(n)))
        if kd == "i":
            return Z("i", z3.Int(it.name(n)))
        if v == "" or tpart(v) is not None:
            a, b = z3.Int(it.name(n + "a")), z3.Int(it.name(n + "b"))
            it.fact(z3.And(0 <= a, a <= b, b <= inlen))
            return txt(a, b)
        if isinstance(v, Ref):
            return v
        raise Unsupported("a loop changes %s, of a kind not understood" % n)

    def lists(self, it, fr, s):
        """lists the loop can change: those of token lists made here, and local lists it calls a method on"""
        out = {}
        # an object the loop cannot reach is left alone by havoc only if it is not one of these
        for i, o in it.st.heap.items():
            if isinstance(o, Obj) and o.cls is self.tokcls and i not in self.foreign:
                r = o.a.get(self.la)
                if isinstance(r, Ref):
                    out["tokens%d" % i] = r
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(fr.loc.get(n.id), Ref):
                h = it.st.heap[fr.loc[n.id].id]
                if isinstance(h, (LObj, GList)) and not any(r.id == fr.loc[n.id].id for r in out.values()):
                    out["list " + n.id] = fr.loc[n.id]
        return out

    def havoc_list(self, it, ref, key):
        a, b = z3.Int(it.name("la")), z3.Int(it.name("lb"))
        it.fact(z3.And(0 <= a, a <= b))
        if key.startswith("tokens"):
            it.fact(a == 0)
            nm = "L"
        else:
            it.fact(b <= inlen)
            nm = "S"
        it.st.heap[ref.id] = GList([("o", nm, z3.simplify(z3.IntVal(0)) if nm == "L" else a, b)])

    # ------------------------------------------------ candidate invariants
    def candidates(self, it, fr, lid, mod, glists, k, phase, kind0=None):
        out = []
        run = rs(k) < k
        for n, v in fr.loc.items():
            if n not in mod and phase != "entry" and not (isinstance(v, Z) or tpart(v) is not None):
                pass
            if kindof(v) == "i":
                x = zint(v)
                for d in (-1, 0, 1):
                    out.append(("%s = k%+d" % (n, d), x == k + d))
                    out.append(("in a run %s = k%+d" % (n, d), z3.Implies(run, x == k + d)))
                for nm, t in (("rs", rs(k)), ("cnt", cnt(k)), ("k - rs", k - rs(k))):
                    out.append(("%s = %s" % (n, nm), x == t))
                    out.append(("in a run %s = %s" % (n, nm), z3.Implies(run, x == t)))
                out.append(("outside a run %s = -1" % n, z3.Implies(z3.Not(run), x == -1)))
                out.append(("%s = -1 only outside a run" % n, z3.Implies(x < 0, z3.Not(run))))
                out.append(("%s <= k" % n, x <= k))
                out.append(("%s >= 0" % n, x >= 0))
            elif kindof(v) == "b":
                x = zof(v)
                out += [("%s = in a run" % n, x == run), ("%s = not in a run" % n, x == z3.Not(run))]
            elif v == "" or tpart(v) is not None:
                a, b = tpart(v) if v != "" else (z3.IntVal(0), z3.IntVal(0))
                out.append(("%s = the open run" % n, z3.If(run, z3.And(a == rs(k), b == k), a == b)))
                out.append(("in a run %s = the open run" % n, z3.Implies(run, z3.And(a == rs(k), b == k))))
            if v is None or (kind0 or {}).get(n, 1) is None:
                out.append(("%s is None only outside a run" % n, z3.Not(run) if v is None else z3.BoolVal(True)))
                out.append(("%s is None outside a run" % n, z3.BoolVal(True) if v is None else run))
                if v is None:
                    for t in ("rs", "k+0"):
                        out.append(("%s = %s" % (n, t), z3.BoolVal(True)))
        for key, ref in glists.items():
            if key.startswith("list "):
                ref = fr.loc.get(key[5:])
                if not isinstance(ref, Ref):
                    continue
            h = it.st.heap[ref.id]
            if not isinstance(h, (GList, LObj)):
                continue
            segs = h.segs if isinstance(h, GList) else [("v", x) for x in h.items]
            n = GList(segs).length()
            if key.startswith("tokens"):
                out.append((key + " are the ended elements, in number", n == cnt(k)))
                out.append((key + " are all elements begun, in number",
                            z3.And(n == cnt(k) + z3.If(run, 1, 0), z3.Implies(z3.And(run, k < inlen), isdel(inch(k))))))
                # an element begun and ended before k has its place
                out.append((key + " are the elements of the text", self.elements(it, segs)))
            else:
                out.append((key + " = the open run", self.chars(it, segs, run, k)))
        for n, f in out:
            c = (lid, n)
            if c in self.cur:
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if phase == "assume":
                it.fact(f)
                self.loops.setdefault(lid, set()).add(n)
            elif self.final:
                self.P.check(it, it.st, f, "loop invariant %s: %s" % ("holds at entry" if phase == "entry" else "is kept", n),
                             "tokenize", lambda w: None)
            elif not it.entailed(f):
                self.drop.add(c)
                self.changed = True

    def elements(self, it, segs):
        off = z3.IntVal(0)
        fs = []
        for s in segs:
            if s[0] == "o":
                if s[1] != "L":
                    return False
                fs.append(off == s[2])
                off = off + s[3] - s[2]
                continue
            fs.append(self.iselem(it, s[1], z3.simplify(off)))
            off = off + 1
        return z3.And(*fs) if fs else True

    def iselem(self, it, v, i):
        """v is the i-th element of the text"""
        if isinstance(v, El):
            return v.i == i
        if not isinstance(v, Ref) or not isinstance(it.st.heap[v.id], Obj) or it.st.heap[v.id].cls is not self.R.Token:
            return z3.BoolVal(False)
        o, A = it.st.heap[v.id].a, self.R.tok_attr
        x, a, b = o.get(A["text"]), o.get(A["start"]), o.get(A["end"])
        t = tpart(x)
        if isinstance(x, str) and len(x) == 1 and kindof(a) == "i":
            tx = z3.And(gs(i) + 1 == ge(i), inch(gs(i)) == ord(x))
        elif t is None:
            return z3.BoolVal(False)
        else:
            tx = z3.And(t[0] == gs(i), t[1] == ge(i))
        if kindof(a) != "i" or kindof(b) != "i":
            return z3.BoolVal(False)
        return z3.And(tx, zint(a) == gs(i), zint(b) == ge(i))

    def chars(self, it, segs, run, k):
        fs, pos = [], rs(k)
        n = z3.IntVal(0)
        for s in segs:
            if s[0] == "o" and s[1] == "S":
                a, b = s[2], s[3]
            elif s[0] == "v" and tpart(s[1]) is not None:
                a, b = tpart(s[1])
            else:
                return z3.BoolVal(False)
            fs.append(z3.Or(a == b, a == pos))
            pos = z3.If(a == b, pos, b)
            n = n + b - a
        return z3.And(n == z3.If(run, k - rs(k), z3.IntVal(0)), *[z3.Implies(run, f) for f in fs])

    # ------------------------------------------------ the whole function
    def run(self, history=True):
        R, P = self.R, self.P
        it = Interp(R)
        it.gcls = {"L": R.Token, "S": str, "P": R.Token}
        it.st, it.dec = St(), Dec([], "init")
        new = it.construct(R.Tokenize, [], {})
        o = it.st.heap[new.id]
        if set(o.a) != set(self.attr.values()):
            raise Unsupported("Tokenize keeps further state: %s" % sorted(set(o.a) - set(self.attr.values())))
        # an earlier result of any length
        prev = it.st.heap[o.a[self.attr["toks"]].id]
        pl = prev.a[self.la]
        pn = z3.Int("earlier")
        it.st.heap[pl.id] = GList([("o", "P", z3.IntVal(0), pn)])
        pc = Z("i", z3.Int("earlier_cursor"))
        prev.a[R.toks_attr["cursor"]] = pc
        self.foreign = {o.a[self.attr["toks"]].id}
        text = txt(z3.IntVal(0), inlen)
        o.a[self.attr["text"]], o.a[self.attr["ws"]] = text, WsV()
        for f in [pn >= 0, inlen >= 0, inch(0) == inch(0)] + defs(z3.IntVal(0)) + defs(inlen):
            it.st.facts.append(f)
        base = it.st
        it.loop_hook = self.hook
        P.solverbase(it, base)
        info = lambda w: None
        outs = P.run(it, base, lambda: it.call(it.getattr(new, "tokenize"), [], {}))
        if not self.final:
            return
        fn = "Tokenize.tokenize"
        self.outs = len(outs)
        if not outs:
            P.failed.append({"name": "no path through tokenize", "function": fn, "result": "unknown", "info": {}})
        for st, kind, val, taken in outs:
            it.st = st
            if kind != "val":
                P.check(it, st, False, "tokenizing raises %s" % getattr(val, "cls", type(val)).__name__, fn, info)
                continue
            me = st.heap[new.id]
            P.check(it, st, set(me.a) == set(self.attr.values()), "no further state", fn, info)
            P.check(it, st, vkey(me.a[self.attr["text"]]) == vkey(text), "the text is not changed", fn, info)
            P.check(it, st, vkey(me.a[self.attr["ws"]]) == vkey(WsV()), "the delimiters are not changed", fn, info)
            tr = me.a[self.attr["toks"]]
            isnew = isinstance(tr, Ref) and isinstance(st.heap[tr.id], Obj) and st.heap[tr.id].cls is R.Tokens and \
                tr.id not in self.foreign
            P.check(it, st, isnew, "the result is a new token list", fn, info)
            if not isnew:
                continue
            po = st.heap[list(self.foreign)[0]]
            ph = st.heap[pl.id]
            P.check(it, st, isinstance(ph, GList) and len(ph.segs) == 1 and ph.segs[0][1] == "P" and ph.segs[0][3].eq(pn)
                    and vkey(po.a[self.la]) == vkey(pl) and vkey(po.a[R.toks_attr["cursor"]]) == vkey(pc),
                    "an earlier token list is not changed", fn, info)
            lr = st.heap[tr.id].a.get(self.la)
            h = st.heap[lr.id] if isinstance(lr, Ref) else None
            if not isinstance(h, (GList, LObj)) or lr.id == pl.id:
                P.check(it, st, False, "the result is a list of tokens of its own", fn, info)
                continue
            segs = h.segs if isinstance(h, GList) else [("v", x) for x in h.items]
            P.check(it, st, GList(segs).length() == cnt(inlen) + z3.If(rs(inlen) < inlen, 1, 0),
                    "exactly the elements of the text, in number", fn, info)
            P.check(it, st, self.elements(it, segs), "every element with its text, start and end", fn, info)

    def proof(self):
        rounds = 0
        while True:
            self.changed, self.loops, self.cur = False, {}, frozenset(self.drop)
            self.P.functions.clear()
            self.run()
            rounds += 1
            if not self.changed:
                break
            if rounds > 60:
                raise Unsupported("loop invariants not found")
        self.final = True
        self.run()
        return rounds


def modified(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if n.id not in out:
                out.append(n.id)
    return out


def lemma(P, it):
    """0 <= rs(k) <= k and cnt(k) >= 0 follow from the definitions by induction"""
    k = z3.Int("k")
    step = defs(k)[5]
    st = St()
    st.facts = [0 <= k, k < inlen, step, 0 <= rs(k), rs(k) <= k, cnt(k) >= 0]
    P.check(it, st, z3.And(0 <= rs(k + 1), rs(k + 1) <= k + 1, cnt(k + 1) >= 0), "ghost functions stay in range", "lemma", lambda w: None)


def accessors(R, P, T):
    """setters store, getters return, nothing else changes"""
    for role, meths in (("text", ("set_string_to_tokenize", "get_string_to_tokenize")), ("ws", ("set_whitespace", "get_whitespace"))):
        it = Interp(R)
        it.st, it.dec = St(), Dec([], "init")
        new = it.construct(R.Tokenize, [], {})
        o = it.st.heap[new.id]
        x = opaque(z3.Int("x!"))
        before = {a: vkey(v) for a, v in o.a.items()}
        P.solverbase(it, it.st)
        for st, kind, val, taken in P.run(it, it.st, lambda: (it.call(it.getattr(new, meths[0]), [x], {}),
                                                              it.call(it.getattr(new, meths[1]), [], {}))[1]):
            it.st = st
            fn = "Tokenize." + meths[0]
            P.check(it, st, kind == "val" and vkey(val) == vkey(x), "what is set is what is used", fn, lambda w: None)
            P.check(it, st, all(vkey(st.heap[new.id].a.get(a)) == v for a, v in before.items() if a != T.attr[role]),
                    "nothing else changes", fn, lambda w: None)


def run(R, tier, log, deadline):
    P = ListProof(R, deadline, log)
    P.vars = {}
    T = Tok01(R, P)
    rounds = T.proof()
    lemma(P, Interp(R))
    accessors(R, P, T)
    res = P.result([], ["the text is a sequence of characters; membership of one character in the delimiter text is a set",
                        "the i-th element of the text is defined by recursion over the characters (pyvc/c01.py, defs)"])
    res["contracts"] = {"loop at line %d" % l[0]: sorted(c) for l, c in T.loops.items()}
    log("%d rounds; loops: %s" % (rounds, res["contracts"]))
    return res
