"""Symbolic exploration of the parser, one recursive function at a time.

Every function of the recursive core is explored on its own from an arbitrary state; its calls to functions of
the core are cut: the call is recorded together with the state it is made in (that is where the callee's
precondition has to hold) and the state after it is arbitrary except for what the callee's postcondition gives.
Everything else (helpers, getters, list methods, tokens) is executed in line from its source."""
import ast
import enum
import time
import z3
from vals import *
from vals import Unsupported
from interp import (Interp, St, Dec, Ev, HDict, PyRaise, Ret, Brk, Cont, PathEnd, BM, Frame)
import fmt
import loops

NUMR = ("alt_si", "speed_si", "cto_si", "lat", "lon", "bearing", "dist")
NUMI = ("start", "end", "stay", "base", "sub")


class View:
    """a state at a contract boundary, as terms"""
    __slots__ = ("c", "E", "n0", "N", "seq", "m", "valid", "first", "tok", "errs", "derived", "nread")

    def rec(self, k):
        """k-th record from the end (1: the last)"""
        return self.seq[-k] if k <= len(self.seq) else self.seq[0]      # (guarded by has(k) wherever it is used)

    def has(self, k):
        """formula: there are at least k records"""
        return self.N >= k


class Call:
    __slots__ = ("key", "view", "ncond", "cls", "after", "fact")


class Path:
    __slots__ = ("key", "conds", "facts", "entry", "calls", "kind", "exc", "cls", "end", "events", "segs", "extra")


class KeyInfo:
    __slots__ = ("paths", "bases", "returns", "dirty")


class Explorer:
    def __init__(self, repo, rel_rec=None, rel_err=None, deadline=None, log=None):
        self.repo = repo
        self.rel_rec, self.rel_err = rel_rec, rel_err
        self.keys = {}
        self.deadline = deadline
        self.log = log
        self.total_paths = 0
        self.depth = {}              # frames below a function, calls of the core apart
        self.nchecks = 0
        self.used = set()
        self.allroles = list(rel_rec) if rel_rec is not None else list(repo.rec_attr)

    # ---------------------------------------------------------- states
    def base_state(self, it, kind):
        R = self.repo
        it.st, it.dec = St(), Dec([], "init")
        r = {}
        hook, it.call_hook = it.call_hook, None
        mode, it.mode = it.mode, "plain"
        parser = it.construct(R.ParseF15, [], {})
        toks = it.construct(R.Tokens, [], {})
        ers = it.construct(R.Ers, [], {})
        it.call_hook, it.mode = hook, mode
        st = it.st
        if st.conds:
            raise Unsupported("constructors branch on unknown values")
        tl = it.alloc(TList())
        to = st.heap[toks.id]
        to.a[R.toks_attr["list"]] = tl
        eo = st.heap[ers.id]
        ra, ea = R.ers_attr["records"], R.ers_attr["errors"]
        if kind == "start":
            to.a[R.toks_attr["cursor"]] = to.a.get(R.toks_attr["cursor"], 0)
            c0 = z3.Int("c0")
            to.a[R.toks_attr["cursor"]] = Z("i", c0)
            lst = st.heap[eo.a[ra].id]
            recs = list(lst.items)
            st.heap[eo.a[ra].id] = WList(z3.IntVal(0), [], None, recs, "rec")
            if st.heap[eo.a[ea].id].items:
                raise Unsupported("a new sequence has errors")
            st.heap[eo.a[ea].id] = WList(z3.IntVal(0), None, None, [], "err")
        else:
            c0 = z3.Int("c0")
            to.a[R.toks_attr["cursor"]] = Z("i", c0)
            N0, E0 = z3.Int("N0"), z3.Int("E0")
            ws = [it.alloc(Obj(R.Rec, hv="w%d" % k)) for k in (1, 2, 3)]
            f = it.alloc(Obj(R.Rec, hv="F"))
            eo.a[ra] = it.alloc(WList(N0, ws, f, [], "rec"))
            eo.a[ea] = it.alloc(WList(E0, None, None, [], "err"))
            st.facts += [N0 >= 1, E0 >= 0, c0 >= 0, ntok >= 1]
        st.roles.update(parser=parser, toks=toks, ers=ers, tl=tl)
        st.flags["c_base"] = 0
        self.snap = self.others(st)
        return st

    def others(self, st):
        """everything in the three long-lived objects that is not part of the state the contracts speak about"""
        R, ro = self.repo, st.roles
        skip = {"toks": (R.toks_attr["list"], R.toks_attr["cursor"]),
                "ers": (R.ers_attr["records"], R.ers_attr["errors"], R.ers_attr["derived"]), "parser": ()}
        out = {}
        for o in ("parser", "toks", "ers"):
            for a, v in st.heap[ro[o].id].a.items():
                if a not in skip[o]:
                    out[(o, a)] = self.deepkey(st, v, 0)
        return out

    def deepkey(self, st, v, d):
        if isinstance(v, Ref) and d < 4:
            o = st.heap.get(v.id)
            if isinstance(o, LObj):
                its = o.items.items() if o.kind == "dict" else enumerate(o.items)
                return ("l", v.id, tuple((vkey(k), self.deepkey(st, x, d + 1)) for k, x in its))
            if isinstance(o, Obj):
                return ("o", v.id, tuple((a, self.deepkey(st, x, d + 1)) for a, x in sorted(o.a.items())))
        return vkey(v)

    def term(self, it, role, v):
        if role in NUMR:
            return zreal(v)
        if role in NUMI:
            return zint(v)
        if role == "valid":
            t = it.truth(v)
            return z3.BoolVal(t) if isinstance(t, bool) else t
        return it.sterm(v)

    def recterms(self, it, ref):
        out = {}
        for role in self.allroles:
            a = self.repo.rec_attr.get(role)
            if a is None:
                continue
            v = it.getattr(ref, a)
            out[role] = self.term(it, role, v)
        return out

    def view(self, it, tok=None):
        R, st = self.repo, it.st
        V = View()
        ro = st.roles
        now = self.others(st)
        if now != self.snap:
            ch = sorted("%s.%s" % k for k in set(now) | set(self.snap) if now.get(k) != self.snap.get(k))
            raise Unsupported("state is kept in attributes: " + ", ".join(ch))
        to, eo = st.heap[ro["toks"].id], st.heap[ro["ers"].id]
        if to.a[R.toks_attr["list"]].id != ro["tl"].id:
            raise Unsupported("the token list is replaced")
        V.c = zint(to.a[R.toks_attr["cursor"]])
        rl, el = st.heap[eo.a[R.ers_attr["records"]].id], st.heap[eo.a[R.ers_attr["errors"]].id]
        if not isinstance(rl, WList) or not isinstance(el, WList):
            raise Unsupported("the result lists are replaced")
        V.n0, V.N, V.E = rl.n0, z3.simplify(rl.n0 + len(rl.app)), z3.simplify(el.n0 + len(el.app))
        seq = [self.recterms(it, x) for x in reversed(rl.w)] + [self.recterms(it, x) for x in rl.app]
        V.seq, V.m = seq, len(rl.app)
        V.first = self.recterms(it, rl.first) if rl.first is not None else None
        V.errs = [self.errterms(it, x) for x in el.app]
        V.tok = None if tok is None else tok
        V.derived = eo.a.get(R.ers_attr["derived"])
        if V.derived is None:
            V.derived = R.ers_defaults.get(R.ers_attr["derived"])
        return V

    def errterms(self, it, ref):
        if self.rel_err is None:
            return {}
        out = {}
        for role in self.rel_err:
            a = self.repo.rec_attr[role]
            out[role] = self.term(it, role, it.getattr(ref, a))
        return out

    # ---------------------------------------------------------- calls of the core
    def hook(self, it, key, path):
        R = self.repo

        def call_hook(fi, f, loc):
            if fi.qual not in R.rec:
                return None
            if "tl" not in it.st.roles or path is None:
                return None
            st = it.st
            ro = st.roles
            tok = None
            for n, v in loc.items():
                if isinstance(v, Ref) and v.id in (ro["parser"].id, ro["toks"].id, ro["ers"].id):
                    continue
                if isinstance(v, Tok) and tok is None:
                    tok = v
                    continue
                return None                                       # other arguments: executed in line
            if "typed" not in st.flags:
                raise Unsupported("parsing starts before the elements have types")
            cur = zint(st.heap[ro["toks"].id].a[R.toks_attr["cursor"]])
            d = None
            if tok is not None:
                dd = z3.simplify(tok.i - cur)
                if not z3.is_int_value(dd):
                    raise Unsupported("a call with an element that is not near the current position")
                d = dd.as_long()
            if tok is None and len(self.callers(fi.qual)) < 2 and not loops.has(fi.node) and fi.qual not in [x.qual for x in it.stack]:
                return None                                       # one caller only: verified within it
            order = tuple("t" if isinstance(v, Tok) else {ro["parser"].id: "p", ro["toks"].id: "k",
                                                          ro["ers"].id: "e"}[v.id] for v in loc.values())
            return self.cut(it, (fi.qual, d, order), tok)
        return call_hook

    def cut(self, it, k, tok):
        """a call of the core: what is known afterwards is the contract of the callee"""
        st = it.st
        ev = Ev("call", key=k, view=self.view(it, tok), ncond=len(st.conds), depth=len(it.stack) + it.xdepth)
        st.events.append(ev)
        self.need(k, it, tok)
        opts = sorted(self.keys[k].returns)
        if not opts:
            raise PathEnd()
        if len(opts) > 1:
            o = opts[it.choose([z3.Bool("ret!%s!%d" % (x, len(st.events))) for x in opts])]
        else:
            o = opts[0]
        self.havoc(it, o, ev)
        return (None,)

    def havoc(self, it, cls, ev):
        R, st = self.repo, it.st
        ro = st.roles
        q = st.clone() if False else None
        ret = Ev("ret", cls=cls, call=ev, view=None, ncond=len(st.conds))
        if cls == "unch":
            st.events.append(ret)
            return
        to, eo = st.heap[ro["toks"].id], st.heap[ro["ers"].id]
        n1, e1, c1 = z3.Int(it.name("N")), z3.Int(it.name("E")), z3.Int(it.name("c"))
        v = ev.view
        it.fact(z3.And(n1 >= v.N, e1 >= v.E, c1 >= (ntok - 1 if cls == "done" else v.c)))
        # records held by the caller may not be used any more
        for o in st.heap.values():
            if isinstance(o, Obj) and o.cls is R.Rec:
                o.kind = "stale"
        ws = [it.alloc(Obj(R.Rec, hv=it.name("w%d" % k))) for k in (1, 2, 3)]
        f = it.alloc(Obj(R.Rec, hv=it.name("F")))
        st.heap[eo.a[R.ers_attr["records"]].id] = WList(n1, ws, f, [], "rec")
        st.heap[eo.a[R.ers_attr["errors"]].id] = WList(e1, None, None, [], "err")
        to.a[R.toks_attr["cursor"]] = Z("i", c1)
        ret.view = self.view(it)
        st.events.append(ret)

    def callers(self, q):
        return [p for p in self.repo.succ if q in self.repo.succ[p] and p in self.repo.rec]

    def need(self, k, it, tok):
        """the callee must be explored for (at least) the element types possible here"""
        ki = self.keys.get(k)
        if ki is None:
            ki = self.keys[k] = KeyInfo()
            ki.paths, ki.bases, ki.returns, ki.dirty = [], set(), {"done"}, True
        if tok is None:
            return
        miss = [b for b in self.repo.basename if b not in ki.bases]
        while miss:
            q = z3.Or(*[tbase(tok.i) == b for b in miss])
            self.nchecks += 1
            it.solver.push()
            it.solver.add(q)
            r = it.solver.check()
            if r == z3.unknown:
                new = set(miss)
            elif r == z3.unsat:
                new = set()
            else:
                new = {it.solver.model().eval(tbase(tok.i), model_completion=True).as_long()}
            it.solver.pop()
            if not new:
                break
            ki.bases |= new
            ki.dirty = True
            miss = [b for b in miss if b not in new]

    # ---------------------------------------------------------- loops
    def loop_hook(self, it, s, fr, ref, obj):
        if isinstance(obj, TList):
            self.typing_loop(it, s, fr)
            return True
        if isinstance(obj, WList) and obj.name == "rec":
            self.search_loop(it, s, fr, ref, obj)
            return True
        if obj is None:
            if isinstance(s, ast.While) and self.cutloop(it, s, fr):
                raise Ret(None)
            return False
        raise Unsupported("loop over the error list")

    def cutloop(self, it, s, fr):
        """a while loop of a function of the core: from its head on, the rest of the function is verified as a
        function of its own (its invariant is that function's precondition), called here and after each iteration"""
        fi, st = fr.fi, it.st
        if len(it.stack) != 1 or fi is None or it.stack[0] is not fi or fr.parent is not None:
            return False
        if fi.qual not in self.repo.rec or "typed" not in st.flags:
            return False
        rest = loops.continuation(fi.node.body, s)
        if rest is None:
            return False
        ro = st.roles
        longlived = {ro[x].id: y for x, y in (("parser", "p"), ("toks", "k"), ("ers", "e"))}
        names = {n.id for b in [s.test] + s.body for n in ast.walk(b) if isinstance(n, ast.Name)}
        if not any(isinstance(fr.loc.get(n), Ref) and fr.loc[n].id in longlived for n in names):
            return False
        live = loops.live_in([s] + rest)
        cur = zint(st.heap[ro["toks"].id].a[self.repo.toks_attr["cursor"]])
        wl = st.heap[st.heap[ro["ers"].id].a[self.repo.ers_attr["records"]].id]
        held = {x for v in st.heap[ro["parser"].id].a.values() if isinstance(v, Ref) for x in (v.id,)}
        tok, d, order, seen = None, None, [], set()
        for n in [x for x in fr.loc if x in live]:
            v = fr.loc[n]
            if isinstance(v, Ref) and v.id in longlived:
                order.append((n, longlived[v.id]))
                continue
            if isinstance(v, Tok):
                dd = z3.simplify(v.i - cur)
                if not z3.is_int_value(dd):
                    raise Unsupported("a loop with an element that is not near the current position")
                if tok is None:
                    tok, d = v, dd.as_long()
                    order.append((n, "t"))
                else:
                    order.append((n, "t", dd.as_long()))
                continue
            if isinstance(v, Z) and v.k == "i" and v.tag is None:
                dd = z3.simplify(zint(v) - cur)
                if z3.is_int_value(dd):
                    order.append((n, "i", dd.as_long()))
                    continue
            if v is None or isinstance(v, (bool, int, str, enum.Enum)):
                order.append((n, "c", v))
                continue
            if isinstance(v, Ref):
                recs = list(reversed(wl.app)) + wl.w
                j = next((j for j, r in enumerate(recs[:3]) if r.id == v.id), None)
                if j is not None:
                    order.append((n, "r", j))
                    continue
                o = st.heap.get(v.id)
                if isinstance(o, LObj) and v.id not in seen and v.id not in held and all(
                        x is None or isinstance(x, (bool, int, str, enum.Enum)) for x in
                        (list(o.items) + list(o.items.values()) if o.kind == "dict" else o.items)):
                    seen.add(v.id)
                    order.append((n, "l", o.kind, tuple(o.items.items()) if o.kind == "dict" else tuple(o.items)))
                    continue
            raise Unsupported("a loop that carries the local variable %s" % n)
        it.solver.push()
        it.solver.add(cur < ntok - 1)
        self.nchecks += 1
        behind = it.solver.check() == z3.unsat
        it.solver.pop()
        k = (fi.qual, d, ("loop", loops.index(fi.node, s), behind) + tuple(order))
        self.cut(it, k, tok)
        return True

    def run_loop(self, k, it, fi, fr, tok, base):
        """one iteration of a cut loop, or the rest of the function"""
        s = loops.at(fi.node, k[2][1])
        rest = loops.continuation(fi.node.body, s)
        if k[2][2]:
            it.cond(z3.Int("c0") >= ntok - 1)
        for x in k[2][3:]:
            fr.loc[x[0]] = self.loopval(it, x, tok)
        if it.branch(it.eval(s.test, fr)):
            try:
                it.block(s.body, fr)
                again = True
            except Cont:
                again = True
            except Brk:
                again = False
            if again:
                if not self.cutloop(it, s, fr):
                    raise Unsupported("shape of a loop")
                return
        else:
            it.block(s.orelse, fr)
        it.block(rest, fr)

    def loopval(self, it, x, tok):
        R, ro = self.repo, it.st.roles
        cur = zint(it.st.heap[ro["toks"].id].a[R.toks_attr["cursor"]])
        if x[1] in ("p", "k", "e"):
            return ro[{"p": "parser", "k": "toks", "e": "ers"}[x[1]]]
        if x[1] == "t" and len(x) == 2:
            return tok
        if x[1] == "t":
            i = z3.simplify(cur + x[2])
            it.cond(z3.And(i >= 0, i < ntok))
            it.tokfacts(i)
            return Tok(i)
        if x[1] == "i":
            return Z("i", z3.simplify(cur + x[2]))
        if x[1] == "c":
            return x[2]
        if x[1] == "r":
            return it.st.heap[it.st.heap[ro["ers"].id].a[R.ers_attr["records"]].id].w[x[2]]
        return it.alloc(LObj(dict(x[3]) if x[2] == "dict" else list(x[3]), x[2]))


    def typing_loop(self, it, s, fr):
        """for token in <token list>: each element's type is set from its own text"""
        if s.orelse:
            raise Unsupported("else clause of the typing loop")
        if "typed" in it.st.flags:
            raise Unsupported("a second loop over the elements")
        base = it.st
        loc0 = {k: vkey(v) for k, v in fr.loc.items()}
        i = z3.Int("loop_i")

        def run():
            it.st.flags["typing"] = HDict()
            it.cond(z3.And(i >= 0, i < ntok))
            it.assign(s.target, Tok(i), fr)
            it.fact(z3.And(slen(ttext(i)) >= 1))
            try:
                it.block(s.body, fr)
            except Cont:
                pass
            for k, v in loc0.items():
                if k != getattr(s.target, "id", None) and (k not in fr.loc or vkey(fr.loc[k]) != v):
                    raise Unsupported("the typing loop carries %s from element to element" % k)
            fr.loc.clear()
            fr.loc.update(saved)
            return None
        saved = dict(fr.loc)
        outs = it.explore(base, run, ("typing",))
        self.last_typing = (i, outs, len(base.conds), fr.fi.qual if fr.fi else "")
        fr.loc.clear()
        fr.loc.update(saved)
        for st, kind, val, _ in outs:
            if kind not in ("val", "cont"):
                raise Unsupported("the typing loop ends early (%s)" % kind)
            for k, o in base.heap.items():
                if not it.same_obj(o, st.heap[k]):
                    raise Unsupported("the typing loop changes other objects")
            ov = st.flags["typing"]
            if ("base", "set") not in ov or ("sub", "set") not in ov:
                raise Unsupported("an element keeps its old type")
        it.st.flags["typed"] = 1

    def search_loop(self, it, s, fr, ref, obj):
        """for r in <all records>: if P(r): effects; break   --   a search for a record with P"""
        if s.orelse or not isinstance(s.target, ast.Name):
            raise Unsupported("shape of a loop over the records")
        base = it.st
        h = "any!%d" % len(base.events)
        rec = it.alloc(Obj(self.repo.Rec, hv=h))
        base = it.st
        nb = len(base.conds)
        saved = dict(fr.loc)

        def run():
            it.assign(s.target, rec, fr)
            it.block(s.body, fr)
            return None
        outs = it.explore(base, run, ("search", id(s), len(base.events)))
        fr.loc.clear()
        fr.loc.update(saved)
        fall, brk = [], []
        for st, kind, val, _ in outs:
            if kind in ("val", "cont"):
                for k, o in base.heap.items():
                    if k != rec.id and not it.same_obj(o, st.heap[k]):
                        raise Unsupported("a loop over the records with effects in passing")
                fall.append(st)
            elif kind == "brk":
                brk.append(st)
            else:
                raise Unsupported("a loop over the records ends by %s" % kind)
        if not brk:
            return
        P = z3.Or(*[it.conj(st.conds[nb:]) for st in brk])
        NP = z3.Or(*[it.conj(st.conds[nb:]) for st in fall]) if fall else z3.BoolVal(False)
        # effects of leaving must not depend on which record was found
        k = it.choose([z3.Bool("found!%d" % len(it.st.events)), z3.Not(z3.Bool("found!%d" % len(it.st.events)))])
        it.st.events.append(Ev("search", found=(k == 0), P=P, NP=NP, rec=h, ncond=len(it.st.conds), view=self.view(it)))
        if k == 1:
            return
        if len(brk) > 1:
            raise Unsupported("several exits of a search loop")
        # re-run the body of the exit on this state, the tests are known to lead there
        depth = len(it.st.conds)
        for c in brk[0].conds[nb:]:
            it.cond(c)
        it.assign(s.target, rec, fr)
        try:
            it.block(s.body, fr)
        except Brk:
            return
        raise Unsupported("search loop")

    # ---------------------------------------------------------- exploration
    def run_key(self, k):
        R = self.repo
        it = Interp(R, "parser", self.rel_rec, self.rel_err)
        it.deadline = self.deadline
        it.loop_hook = self.loop_hook
        qual, d, order = k
        fi = R.funcs[qual]
        base = self.base_state(it, "mid")
        base.flags["typed"] = 1
        ki = self.keys[k]
        f = self.real(fi)
        it.solver.add(*base.facts)
        base.fkeys = {tid(x) for x in base.facts}
        paths = []
        it.call_hook = self.hook(it, k, paths)
        ro = base.roles
        c0 = z3.Int("c0")
        tok = None
        if d is not None:
            i = z3.simplify(c0 + d)
            tok = Tok(i)
        it.st = base
        if tok is not None:
            it.tokfacts(tok.i)
            pre = z3.And(i >= 0, i < ntok, z3.Or(*[tbase(i) == b for b in sorted(ki.bases)]))
            base.conds.append(pre)
            it.solver.add(pre)
        entry = self.view(it, tok)
        loop = order[:1] == ("loop",)
        args = [] if loop else [{"p": ro["parser"], "k": ro["toks"], "e": ro["ers"], "t": tok}[o] for o in order]

        def run():
            loc = {} if loop else it.bindargs(fi.node, f, args, {})
            fr = Frame(loc, f.__globals__, fi.cls, None, fi)
            it.stack = [fi]
            it.used_funcs.add(qual)
            try:
                if loop:
                    self.run_loop(k, it, fi, fr, tok, base)
                else:
                    it.block(fi.node.body, fr)
            except Ret as r:
                if r.v is not None:
                    raise Unsupported("a function of the core returns a value")
            return self.finish(it, entry)
        outs = it.explore(base, run, k)
        self.collect(k, it, outs, entry, paths)
        return paths

    def finish(self, it, entry):
        st = it.st
        end = self.view(it)
        it.st.events.append(Ev("end", view=end, ncond=len(st.conds)))
        return None

    def collect(self, k, it, outs, entry, paths):
        ki = self.keys.get(k)
        for st, kind, val, taken in outs:
            p = Path()
            p.key, p.conds, p.facts, p.entry, p.kind = k, st.conds, st.facts, entry, kind
            p.exc = None
            p.extra = None
            p.events = st.events
            if kind == "exc":
                p.exc, p.cls, p.end = val, None, None
            else:
                p.end = st.events[-1].view
                p.cls = None
                if ki is not None:
                    p.cls = self.classify(it, st, entry, p)
                    if p.cls not in ki.returns:
                        ki.returns.add(p.cls)
                        self.grown.add(k)
            paths.append(p)
        self.depth[k] = max(self.depth.get(k, 0), it.depth_max)
        self.nchecks += it.nchecks
        self.used |= it.used_funcs
        self.total_paths += len(paths)

    def classify(self, it, st, entry, p):
        end = p.end
        rets = [e for e in p.events if e.kind == "ret" and e.cls != "unch"]
        if not rets and end.m == 0 and not end.errs and len(end.seq) == 3 and z3.simplify(end.c - entry.c).eq(z3.IntVal(0)) \
                and z3.simplify(end.E - entry.E).eq(z3.IntVal(0)) and \
                all(a[r].eq(b[r]) for a, b in zip(end.seq, entry.seq) for r in a):
            return "unch"
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*p.facts)
        s.add(*p.conds)
        s.add(end.c < ntok - 1)
        self.nchecks += 1
        return "done" if s.check() == z3.unsat else "other"

    def real(self, fi):
        m = fi.mod
        names = fi.qual[len(m.__name__) + 1:].split(".")
        o = m
        for n in names[:-1]:
            o = getattr(o, n)
        n = self.repo.mangle(names[-1], fi.cls)
        f = o.__dict__[n] if isinstance(o, type) else getattr(o, n)
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        return f

    def run_root(self):
        """parse_f15 on a new sequence"""
        R = self.repo
        it = Interp(R, "parser", self.rel_rec, self.rel_err)
        it.deadline = self.deadline
        it.loop_hook = self.loop_hook
        base = self.base_state(it, "start")
        base.facts += [ntok >= 0, z3.Int("c0") >= -2]
        it.solver.add(*base.facts)
        paths = []
        it.call_hook = self.hook(it, "root", paths)
        ro = base.roles
        it.st = base
        entry = self.view(it)

        def run():
            v = it.call(it.getattr(ro["parser"], "parse_f15"), [ro["ers"], ro["toks"]], {})
            self.finish(it, entry)
            it.st.events[-1].result = v
            return v
        f = R.ParseF15.parse_f15
        outs = it.explore(base, run, "root")
        self.collect("root", it, outs, entry, paths)
        for p, o in zip(paths, outs):
            p.extra = o[2]
        return paths

    def explore(self):
        self.grown = set()
        t0 = time.time()
        self.root = self.run_root()
        rounds = 0
        while True:
            todo = [k for k, ki in self.keys.items() if ki.dirty]
            if not todo:
                if not self.grown:
                    break
                g, self.grown = self.grown, set()
                for ki in self.keys.values():
                    if any(e.kind == "call" and e.key in g for p in ki.paths for e in p.events):
                        ki.dirty = True
                self.root = self.run_root()
                rounds += 1
                if rounds > 6:
                    raise Unsupported("return classes do not settle")
                continue
            for k in todo:
                self.keys[k].dirty = False
                t1 = time.time()
                self.keys[k].paths = self.run_key(k)
                if self.log:
                    self.log("%6.1f %-60s %s bases %d paths %d (%.1fs) %s" % (
                        time.time() - t0, k[0].split(".")[-1], k[1], len(self.keys[k].bases), len(self.keys[k].paths),
                        time.time() - t1, sorted(self.keys[k].returns)))
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("exploration did not finish in time")
