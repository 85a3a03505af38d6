"""Contracts of the core: the candidate pre/postconditions that are inductive are kept, then every remaining
obligation of the property is discharged against them."""
import os
import pickle
import random
import time
import z3
from vals import *
import fmt


def unsat(s):
    return s.check() == z3.unsat


class Houdini:
    def __init__(self, X, prop, deadline=None, log=None, nproc=8):
        self.X, self.prop = X, prop
        self.deadline, self.log, self.nproc = deadline, log, nproc
        self.pre, self.post = {}, {}
        self.queries = 0
        self.solver_s = 0.0
        self.callers = {}
        for k, ki in list(X.keys.items()) + [("root", None)]:
            for p in (ki.paths if ki else X.root):
                for e in p.events:
                    if e.kind == "call":
                        self.callers.setdefault(e.key, set()).add(k)
        self.round = 0
        self.hard = {}             # key -> [(name, ok)]
        self.vac = (0, 0)
        self.rootok = False
        self.why = None

    def entry_of(self, k):
        ki = self.X.keys[k]
        return ki.paths[0].entry if ki.paths else None

    def init(self):
        P = self.prop
        self.ends = {k: {p.cls for p in ki.paths if p.kind == "val"} for k, ki in self.X.keys.items()}
        for k, ki in self.X.keys.items():
            if not ki.paths:
                self.pre[k], self.post[k] = set(), set()
                continue
            self.pre[k] = set(P.requires(ki.paths[0].entry, k))
            names = None
            for p in ki.paths:
                if p.kind == "val" and p.cls != "unch":
                    names = set(P.post(p.entry, p.end, k))
                    break
            self.post[k] = names or set()

    # one key: returns (dropped pre {callee: names}, dropped post names, hard results)
    def check(self, k, hard=False, lo=0, hi=None):
        X, P = self.X, self.prop
        paths = X.root if k == "root" else X.keys[k].paths
        dpre, dpost, hres = {}, set(), []
        self.feas = False
        for pi, p in enumerate(paths):
            if pi < lo or hi is not None and pi >= hi:
                continue
            s = z3.Solver()
            s.set("timeout", 30000)
            for f in p.facts:
                s.add(f)
            for f in P.axioms(p, k):
                s.add(f)
            if k != "root":
                cand = P.requires(p.entry, k)
                for n in self.pre[k]:
                    s.add(cand[n])
            done = 0
            S = p.entry
            dead = False
            for e in p.events:
                if dead:
                    break
                for c in p.conds[done:e.ncond]:
                    s.add(c)
                done = max(done, e.ncond)
                if e.kind == "call":
                    if self.X.keys[e.key].paths:
                        live = {n: f for n, f in P.requires(e.view, e.key).items()
                                if n in self.pre[e.key] and n not in dpre.get(e.key, ())}
                        if hard:
                            live = {}
                        bad = self.batch(s, live)
                        if bad and self.why is not None:
                            self.why += [("pre", e.key, n, k, pi) for n in bad]
                        if bad:
                            dpre.setdefault(e.key, set()).update(bad)
                    if hard:
                        for n, f in self.hard_call(e) + P.seg(S, e.view, k, e):
                            hres.append(self.prove(s, n, f, k, pi, "call " + e.key[0].split(".")[-1]))
                elif e.kind == "ret":
                    if e.cls not in self.ends[e.call.key]:
                        dead = True                    # the callee never returns like this
                        continue
                    if e.cls != "unch":
                        S = e.view
                        cand = P.post(e.call.view, e.view, e.call.key)
                        for n in self.post[e.call.key]:
                            s.add(cand[n])
                elif e.kind == "search":
                    for f in P.search(e):
                        s.add(f)
                elif e.kind == "end":
                    for c in p.conds[done:]:
                        s.add(c)
                    done = len(p.conds)
                    if k != "root" and p.cls != "unch":
                        live = {n: f for n, f in P.post(p.entry, e.view, k).items()
                                if n in self.post[k] and n not in dpost}
                        if not hard:
                            bad = self.batch(s, live)
                            if bad and self.why is not None:
                                self.why += [("post", k, n, k, pi) for n in bad]
                            dpost |= set(bad)
                    if hard:
                        if k == "root":
                            obs = P.final(S, e.view, p)
                        else:
                            obs = P.seg(S, e.view, k, e)
                        for n, f in obs:
                            hres.append(self.prove(s, n, f, k, pi, "return"))
            if dead:
                continue
            if hard and not self.feas and p.kind == "val":
                for c in p.conds[done:]:
                    s.add(c)
                done = len(p.conds)
                self.queries += 1
                self.feas = s.check() != z3.unsat
            if hard:
                for n, f in P.path(p, k):
                    hres.append(self.prove(s, n, f, k, pi, "path"))
                if p.kind == "exc":
                    for c in p.conds[done:]:
                        s.add(c)
                    hres.append(self.prove(s, "no exception (%s)" % p.exc.cls.__name__, z3.BoolVal(False), k, pi, "raise"))
        return dpre, dpost, hres, self.feas

    def hard_call(self, e):
        v = e.view
        return [("at least one record", v.N >= 1), ("current position not negative", v.c >= 0)]

    def batch(self, s, live):
        """names of the candidates that are not implied"""
        bad = []
        live = dict(live)
        for n in list(live):
            f = z3.simplify(live[n])
            if z3.is_true(f):
                del live[n]
        while live:
            s.push()
            s.add(z3.Or(*[z3.Not(f) for f in live.values()]))
            t = time.time()
            r = s.check()
            self.queries += 1
            if r == z3.unsat:
                s.pop()
                self.solver_s += time.time() - t
                break
            drop = []
            if r == z3.sat:
                m = s.model()
                for n, f in live.items():
                    if not z3.is_true(m.eval(f, model_completion=True)):
                        drop.append(n)
            s.pop()
            if not drop:
                # undecided as a batch: one by one
                for n, f in list(live.items()):
                    s.push()
                    s.add(z3.Not(f))
                    self.queries += 1
                    if s.check() != z3.unsat:
                        drop.append(n)
                    s.pop()
                bad += drop
                self.solver_s += time.time() - t
                break
            self.solver_s += time.time() - t
            bad += drop
            for n in drop:
                del live[n]
        return bad

    def prove(self, s, name, f, k, pi, where):
        f = z3.simplify(f) if isinstance(f, z3.ExprRef) else z3.BoolVal(bool(f))
        kn = k if isinstance(k, str) else k[0].split(".")[-1] + ("" if k[1] is None else "(+%d)" % k[1])
        if z3.is_true(f):
            return (name, kn, pi, where, "ok", None)
        t = time.time()
        s.push()
        s.add(z3.Not(f))
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t
        info = None
        if r == z3.sat:
            info = self.witness(s.model())
        s.pop()
        return (name, kn, pi, where, "ok" if r == z3.unsat else "failed" if r == z3.sat else "unknown", info)

    def witness(self, m):
        """the elements around the current position in a counterexample"""
        R = self.X.repo
        inv = {v.as_long(): k for k, v in lits().items()}

        def ev(t):
            return m.eval(t, model_completion=True).as_long()
        out = []
        try:
            n, c = ev(ntok), ev(z3.Int("c0"))
            for i in range(max(c - 2, 0), min(c + 5, n)):
                b, s, t = ev(tbase(z3.IntVal(i))), ev(tsub(z3.IntVal(i))), ev(ttext(z3.IntVal(i)))
                txt = inv.get(t)
                if txt is None or not txt:
                    fs = fmt.forms_of(R, b, s)
                    if not fs:
                        txt = "X" * 26 if R.basename.get(b) == "TOO_LONG" else "?X"
                    else:
                        ln = ev(slen(ttext(z3.IntVal(i))))
                        k = next((k for k in fs if len(fmt.FORMS[k]) == ln), fs[0])
                        txt = ""
                        for p, ch in enumerate(fmt.FORMS[k]):
                            if ch == "9":
                                d = ev(dig(z3.IntVal(t), z3.IntVal(p)))
                                txt += str(d if 0 <= d <= 9 else 5)
                            elif ch == "@":
                                d = ev(sch(z3.IntVal(t), z3.IntVal(p)))
                                txt += chr(d) if 65 <= d <= 90 else "A"
                            else:
                                txt += ch
                out.append(txt)
            return {"elements": out, "position": c - max(c - 2, 0)}
        except Exception as e:                                       # noqa: BLE001
            return {"elements": out, "error": str(e)}

    def par(self, keys, hard):
        """check the keys in forked workers"""
        w = {k: (len(self.X.keys[k].paths) if k != "root" else len(self.X.root)) for k in keys}
        if self.nproc <= 1 or sum(w.values()) < 12:
            return {k: self.check(k, hard) for k in keys}
        units = [(k, i, min(i + 3, w[k])) for k in keys for i in range(0, w[k], 3)]
        n = min(self.nproc, len(units))
        random.Random(self.round).shuffle(units)
        buckets = [units[i::n] for i in range(n)]
        procs = []
        for b in buckets:
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    q0, s0 = self.queries, self.solver_s
                    if self.why is not None:
                        self.why = []
                    out = [(k, self.check(k, hard, i, j)) for k, i, j in b]
                    data = pickle.dumps((out, self.queries - q0, self.solver_s - s0, self.why))
                except BaseException as e:                       # noqa: BLE001
                    import traceback
                    data = pickle.dumps(("error", traceback.format_exc()))
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
                os._exit(code)
            os.close(wr)
            procs.append((pid, r))
        res = {}
        err = None
        for pid, r in procs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            o = pickle.loads(data) if data else ("error", "worker died")
            if o[0] == "error":
                err = o[1]
                continue
            for k, (dpre, dpost, hres, feas) in o[0]:
                if k not in res:
                    res[k] = ({}, set(), [], False)
                old = res[k]
                for c, ns in dpre.items():
                    old[0].setdefault(c, set()).update(ns)
                old[1].update(dpost)
                old[2].extend(hres)
                res[k] = old[:3] + (old[3] or feas,)
            self.queries += o[1]
            self.solver_s += o[2]
            if self.why is not None:
                self.why += [x + (self.round,) for x in o[3]]
        if err:
            raise Unsupported("worker: " + err[-800:])
        return res

    def run(self):
        self.init()
        ncand = sum(len(x) for x in self.pre.values()) + sum(len(x) for x in self.post.values())
        dirty = set(k for k in self.X.keys if self.X.keys[k].paths) | {"root"}
        rounds = 0
        while dirty:
            rounds += 1
            self.round = rounds
            res = self.par(list(dirty), False)
            dirty = set()
            for k, (dpre, dpost, _, _) in res.items():
                for c, names in dpre.items():
                    names = names & self.pre[c]
                    if names:
                        self.pre[c] -= names
                        dirty.add(c)
                if dpost:
                    self.post[k] -= dpost
                    dirty |= self.callers.get(k, set())
            dirty = {k for k in dirty if k == "root" or self.X.keys[k].paths}
            if self.log:
                self.log("round %d: next %d keys" % (rounds, len(dirty)))
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("contract inference did not finish in time")
        self.kept = sum(len(x) for x in self.pre.values()) + sum(len(x) for x in self.post.values())
        self.ncand = ncand
        res = self.par([k for k in self.X.keys if self.X.keys[k].paths] + ["root"], True)
        out = []
        for k in res:
            out += res[k][2]
        self.vac = (sum(1 for k in res if k != "root" and res[k][3]), len(res) - 1)
        self.rootok = res["root"][3]
        return out


def first(V, role):
    """attribute of record 0 in a view"""
    t = V.seq
    k0 = len(t) - V.m                       # number of window records
    if k0 == 0:
        return t[0][role]
    x = V.first[role]
    for j in range(k0):
        x = z3.If(V.n0 == j + 1, t[k0 - 1 - j][role], x)
    return x


class Prop:
    """base class of the properties of the parser"""
    roles = None
    errroles = None
    W = 3

    def trusted(self):
        return ["C01: the elements of the field and their positions (proved separately by the check of C01)",
                "C03: the type of every element from its text (proved separately by the check of C03)"]

    def assumes(self):
        return []

    def axioms(self, p, key):
        """definitions of ghost functions at the terms of a path"""
        return []

    def guard(self, V):
        return z3.BoolVal(True)

    def pre(self, V, key):
        return {}

    def requires(self, V, key):
        """candidate preconditions; at the head of a loop also what holds at the end of a function"""
        c = self.pre(V, key)
        if key[2][:1] == ("loop",):
            c = dict(c, **{"at the loop: " + n: f for n, f in self.post(V, V, key).items()})
        return c

    def post(self, V0, V, key):
        return {}

    def search(self, e):
        return []

    def seg(self, S, V, key, e):
        """obligations of one stretch of code between two contract boundaries"""
        return self.seal(S, V, V.m) + self.stable(S, V)

    def seal(self, S, V, upto):
        out = []
        k0 = len(V.seq) - V.m
        for j in range(upto):
            absn = V.n0 - k0 + j
            for n, f in self.sealed(V, j, absn):
                out.append((n, z3.Implies(absn >= 0, f)))
        return out

    firstvar = ()            # attributes of the first record that may change at any time
    frame = ()                # (position from the oldest window record, roles)

    def stable(self, S, V):
        out = []
        if len(V.seq) - V.m < 3 or len(S.seq) < 3:
            return out
        sw = S.seq[-3:]
        if S.first is not None and V.first is not None:
            for r in V.first:
                if not S.first[r].eq(V.first[r]) and r not in self.firstvar:
                    out.append(("%s of ADEP stays" % r, z3.Implies(z3.And(V.n0 > 3, self.guard(V)), S.first[r] == V.first[r])))
        for pos, roles in self.frame:
            for r in roles:
                a, b = sw[pos][r], V.seq[pos][r]
                if not a.eq(b):
                    out.append(("%s of an earlier record stays" % r,
                                z3.Implies(z3.And(V.n0 >= 3 - pos, self.guard(V)), a == b)))
        return out

    def sealed(self, V, j, absn):
        return []

    def final(self, S, V, p):
        return self.seal(S, V, len(V.seq)) + self.stable(S, V)

    def path(self, p, k):
        return []
