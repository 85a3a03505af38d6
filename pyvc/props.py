"""The properties as contracts over the core of the parser."""
import z3
from vals import *
import fmt
from houdini import Prop, first

T, F = z3.BoolVal(True), z3.BoolVal(False)
Imp = z3.Implies


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    return z3.And(*a) if len(a) > 1 else a[0] if a else T


def Or(*a):
    return z3.Or(*a) if len(a) > 1 else a[0] if a else F


def pos(r):
    return idxof(r["start"])


# ghost functions of the element list; each has a defining recursion, instantiated at the elements a path looks at
lt = z3.Function("last_time", IntS, IntS)              # last stay time element at or before
ls = z3.Function("last_change", IntS, IntS)            # last speed/level element at or before
lc = z3.Function("last_climb", IntS, IntS)             # last cruise climb element at or before
J = z3.Function("join", IntS, IntS, StrS)              # elements a..b-1 joined by spaces
je = z3.Function("join_end", IntS, StrS, IntS)         # the b with join(a, b) = s
acc = z3.Function("accounted", IntS, BoolS)            # element is in a record, break text or error of the result
inb = z3.Function("in_break_text", IntS, BoolS)
allacc = z3.Function("accounted_up_to", IntS, BoolS)
allok = z3.Function("admissible_up_to", IntS, BoolS)
EF = z3.Int("final_errors")                            # number of errors of the finished parse
spdof = z3.Function("speed_text", IntS, StrS)
altof = z3.Function("level_text", IntS, StrS)
ctoof = z3.Function("target_text", IntS, StrS)


class Base(Prop):
    """every record stands for an element, in order (the contracts of C10, used by the others)"""
    roles = ["name", "start", "end"]
    frame = ((0, ("start",)),)
    OFF = (-2, -1, 0, 1, 2)

    def __init__(self, R):
        self.R = R
        self.b = R.base

    def isb(self, x, *names):
        return Or(*[x == self.b[n] for n in names])

    def brk(self, r):
        return self.isb(r["base"], "BREAK_START", "SPEED_VFR")

    def real(self, r):
        p = pos(r)
        return And(p >= 0, p < ntok, r["start"] == tstart(p), r["end"] == tend(p),
                   z3.Or(r["name"] == ttext(p), z3.And(tbase(p) == self.b["SPEED_VFR"], r["name"] == lit("VFR"))))

    def order(self, V):
        c = {}
        for k in (1, 2, 3):
            c["record -%d is an element" % k] = Imp(V.N > k, self.real(V.rec(k)))
            if k < 3:
                c["records -%d, -%d in order" % (k + 1, k)] = Imp(V.N > k + 1, pos(V.rec(k + 1)) < pos(V.rec(k)))
        return c

    def pre(self, V, key):
        c = self.order(V)
        for a in self.OFF:
            c["last record before position %+d" % a] = Imp(V.N > 1, pos(V.rec(1)) < V.c + a)
        c["an error was reported"] = V.E >= 1
        if key[1] is None:
            c["the cursor is at an element"] = V.c < ntok
            for b, n in self.R.basename.items():
                for a in (-1, 0):
                    c["element at position %+d is not %s" % (a, n)] = Or(V.c + a < 0, V.c + a >= ntok, tbase(V.c + a) != b)
        c.update(self.mine_pre(V, key))
        return c

    def post(self, V0, V, key):
        c = self.order(V)
        c["an error was reported"] = V.E >= 1
        c["another error was reported"] = V.E >= V0.E + 1
        c["the cursor is at the last element"] = V.c < ntok
        c.update(self.mine_post(V0, V, key))
        return c

    def breaks(self, V):
        """what kind of record the last one can be"""
        b = self.isb(tbase(pos(V.rec(1))), "BREAK_START", "SPEED_VFR")
        return {"last record is a break": And(V.N > 1, b), "last record is no break": Or(V.N == 1, z3.Not(b)),
                "last record is no break if no errors": Or(V.N == 1, V.E > 0, z3.Not(b))}

    def mine_pre(self, V, key):
        return {}

    def mine_post(self, V0, V, key):
        return {}

    def indices(self, p):
        """element positions a path can look at"""
        out = {}
        vs = [p.entry] + [e.view for e in p.events if getattr(e, "view", None) is not None]
        for v in vs:
            c = z3.simplify(v.c)
            for a in range(-3, 5):
                i = z3.simplify(c + a)
                out[tid(i)] = i
        for i in (z3.IntVal(0), ntok - 1, ntok - 2, ntok - 3):
            i = z3.simplify(i)
            out[tid(i)] = i
        return list(out.values())

    def views(self, p):
        return [p.entry] + [e.view for e in p.events if getattr(e, "view", None) is not None]

    def records(self, p):
        """(guard, record) of all records visible on a path"""
        out, seen = [], set()
        for v in self.views(p):
            k0 = len(v.seq) - v.m
            for j, r in enumerate(v.seq):
                key = (tid(r["start"]), tuple(tid(t) for t in r.values()))
                if key not in seen:
                    seen.add(key)
                    absn = v.n0 - k0 + j
                    out.append((absn >= 1, r))
        return out

    def lastdef(self, fn, i, *bases):
        return [Imp(i < 0, fn(i) == -1), Imp(i >= 0, fn(i) == z3.If(self.isb(tbase(i), *bases), i, fn(i - 1))),
                fn(i) <= z3.If(i < 0, z3.IntVal(-1), i), fn(i) >= -1]


class C10(Base):
    def sealed(self, V, j, absn, last=False):
        out = []
        r = V.seq[j]
        out.append(("record is an element of the field", Imp(absn >= 1, self.real(r))))
        if j + 1 < len(V.seq):
            out.append(("record positions increase", Imp(absn >= 1, pos(r) < pos(V.seq[j + 1]))))
        return out

    def final(self, S, V, p):
        out = []
        k0 = len(V.seq) - V.m
        n = len(V.seq) - 1
        for j in range(n):
            absn = V.n0 - k0 + j
            for nm, f in self.sealed(V, j, absn):
                if j == n - 1 and nm == "record positions increase":
                    continue
                out.append((nm, Imp(absn >= 0, f)))
        return out + self.stable(S, V)


class Pairs(Base):
    """properties of one record, its neighbours and the elements up to the next record"""
    GUARD = True              # only for fields without errors
    PREV = False              # the record before is needed
    LAST = (-2, -1, 0, 1)

    def g(self, V):
        return V.E == 0 if self.GUARD else T

    guard = g

    def spec(self, V, r, rp, absn, q, rn):
        """what holds of record r (number absn, after rp) when the elements before position q come before the
        next record rn (None: not known yet)"""
        raise NotImplementedError

    def at(self, absn, r):
        return z3.If(absn <= 0, z3.IntVal(-1), pos(r))

    def pairs(self, V):
        c = {}
        for k in (2, 3):
            if k > len(V.seq):
                continue
            c["record -%d with its successor" % k] = Imp(And(V.N >= k, self.g(V)), self.spec(
                V, V.rec(k), V.rec(k + 1) if k + 1 <= len(V.seq) else None, V.N - k, pos(V.rec(k - 1)), V.rec(k - 1))) \
                if not (self.PREV and k + 1 > len(V.seq)) else Imp(And(V.N == k, self.g(V)), self.spec(
                    V, V.rec(k), V.rec(k), z3.IntVal(0), pos(V.rec(k - 1)), V.rec(k - 1)))
        return c

    def mine_pre(self, V, key):
        c = self.pairs(V)
        if "base" in self.roles:
            c["last record is a break"] = And(V.N > 1, self.brk(V.rec(1)))
            c["last record is no break"] = Or(V.N == 1, z3.Not(self.brk(V.rec(1))))
            c["last record is no break if no errors"] = Or(V.N == 1, V.E > 0, z3.Not(self.brk(V.rec(1))))
        for a in self.LAST:
            c["last record up to position %+d" % a] = Imp(self.g(V), self.spec(
                V, V.rec(1), V.rec(2), V.N - 1, V.c + a, None))
        return c

    def mine_post(self, V0, V, key):
        c = self.pairs(V)
        c["last record up to the end"] = Imp(self.g(V), self.spec(V, V.rec(1), V.rec(2), V.N - 1, ntok, None))
        return c

    def sealed(self, V, j, absn):
        s, out = V.seq, []
        if self.PREV:
            if j + 2 < len(s):
                out.append((self.WHAT, Imp(self.g(V), self.spec(V, s[j + 1], s[j], absn + 1, pos(s[j + 2]), s[j + 2]))))
            if j + 1 < len(s):
                out.append((self.WHAT + " (ADEP)", Imp(And(absn == 0, self.g(V)), self.spec(
                    V, s[j], s[j], absn, pos(s[j + 1]), s[j + 1]))))
        elif j + 1 < len(s):
            out.append((self.WHAT, Imp(self.g(V), self.spec(V, s[j], None, absn, pos(s[j + 1]), s[j + 1]))))
        return out

    def final(self, S, V, p):
        s, out = V.seq, []
        k0 = len(s) - V.m
        n = len(s)
        for j in range(n - 1):
            absn = V.n0 - k0 + j
            last = j == n - 2
            if self.PREV and j == 0:
                if k0:
                    f = self.spec(V, s[0], s[0], absn, ntok if last else pos(s[1]), None if last else s[1])
                    out.append((self.WHAT + " (ADEP)", Imp(And(absn == 0, self.g(V)), f)))
                    continue
            f = self.spec(V, s[j], s[j - 1] if j else None, absn, ntok if last else pos(s[j + 1]), None if last else s[j + 1])
            out.append((self.WHAT, Imp(And(absn >= 0, self.g(V)), f)))
        for nm, f in self.ades(V, s[-1]):
            out.append((nm, f))
        return out + self.stable(S, V) + self.extra(S, V, p)

    def ades(self, V, r):
        return []

    def extra(self, S, V, p):
        return []


class C19(Pairs):
    roles = ["name", "start", "end", "base", "stay"]
    frame = ((0, ("start", "base")),)
    WHAT = "stay time of a record"

    def axioms(self, p, key):
        out = []
        for i in self.indices(p):
            out += self.lastdef(lt, i, "STAY_TIME")
        for g, r in self.records(p):
            out += self.lastdef(lt, pos(r), "STAY_TIME") + self.lastdef(lt, pos(r) - 1, "STAY_TIME")
        return out

    def minutes(self, i):
        t = ttext(i)
        return dig(t, 0) * 600 + dig(t, 1) * 60 + dig(t, 2) * 10 + dig(t, 3)

    def spec(self, V, r, rp, absn, q, rn):
        i = lt(q - 1)
        want = z3.If(And(z3.Not(And(absn >= 1, self.brk(r))), i > self.at(absn, r)), self.minutes(i), z3.IntVal(0))
        return r["stay"] == want

    def order(self, V):
        c = Pairs.order(self, V)
        for k in (1, 2, 3):
            c["stay time of record -%d in range" % k] = Imp(V.N >= k, And(V.rec(k)["stay"] >= 0, V.rec(k)["stay"] <= 1439))
        return c

    def seal(self, S, V, upto):
        out = Pairs.seal(self, S, V, upto)
        k0 = len(V.seq) - V.m
        for j in range(upto):
            out.append(("stay time in range", Imp(V.n0 - k0 + j >= 0, And(V.seq[j]["stay"] >= 0, V.seq[j]["stay"] <= 1439))))
        return out

    def extra(self, S, V, p):
        out = []
        k0 = len(V.seq) - V.m
        for j, r in enumerate(V.seq):
            out.append(("stay time in range", Imp(V.n0 - k0 + j >= 0, And(r["stay"] >= 0, r["stay"] <= 1439))))
        return out

    def ades(self, V, r):
        return [("no stay time at ADES", Imp(self.g(V), r["stay"] == 0))]


def sliced(ts):
    """the texts that slices occurring in the terms are cut from"""
    out, seen, todo = {}, set(), list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(ssub):
                out[tid(x.arg(0))] = x.arg(0)
            todo += x.children()
    return list(out.values())


class C12(Pairs):
    roles = ["name", "start", "end", "speed", "alt", "cto"]
    PREV = True
    frame = ((0, ("start", "speed", "alt", "cto")), (1, ("start",)))
    WHAT = "speed, level and climb target in force"
    LAST = (-2, -1, 0, 1)

    def __init__(self, R):
        Pairs.__init__(self, R)
        self.parts, self.types = {}, {}
        for k, (f, b, u) in enumerate(fmt.spec.FORMATS):
            if b not in ("SPEED_VFR",) + fmt.spec.SPEEDLEVEL:
                continue
            a = 4 if f[0] == "M" else 5
            if b == "SPEED_VFR":
                self.parts[k] = (a, 0, 0)
            else:
                m = a + (4 if f[a] in "FA" else 5)
                self.parts[k] = (a, -1 if m == len(f) else m,
                                 "" if m == len(f) else "PLUS" if b == "SPEED_ALTITUDE_PLUS" else m)
            self.types.setdefault(self.parts[k], set()).add((R.base[b], R.sub[u]))

    def cut(self, i, a, m, e):
        t = ttext(i)
        fs = [spdof(i) == ssub(t, 0, a)]
        if m:
            fs.append(altof(i) == ssub(t, a, m))
            if isinstance(e, int):
                fs.append(ctoof(i) == ssub(t, e, -1))
            elif e:
                fs += [ctoof(i) == lit(e), ssub(t, m, -1) == lit(e)]
        return And(*fs)

    def textdef(self, p):
        """the speed and level texts of the elements whose characters are looked at on the path"""
        xs = {}
        for x in p.facts:
            if z3.is_implies(x) and z3.is_eq(x.arg(0)) and z3.is_app(x.arg(0).arg(0)) and x.arg(0).arg(0).decl().eq(tform):
                if x.arg(0).arg(1).as_long() in self.parts:
                    i = x.arg(0).arg(0).arg(0)
                    xs[tid(i)] = i
        for g, r in self.records(p):
            for t in sliced([r["speed"], r["alt"], r["cto"]]):
                if z3.is_app(t) and t.decl().eq(ttext):
                    xs[tid(t.arg(0))] = t.arg(0)
        return [Imp(Or(*[And(tbase(i) == b, tsub(i) == u) for b, u in sorted(cl)]), self.cut(i, a, m, e))
                for i in xs.values() for (a, m, e), cl in self.types.items()]

    def axioms(self, p, key):
        out = self.textdef(p)
        SA = ("SPEED_ALTITUDE", "SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS")
        xs = {tid(i): i for i in self.indices(p)}
        for g, r in self.records(p):
            for i in (pos(r), pos(r) - 1):
                xs.setdefault(tid(i), i)
        for i in xs.values():
            out += self.lastdef(ls, i, *SA) + self.lastdef(lc, i, *SA[1:])
        return out

    def spec(self, V, r, rp, absn, q, rn):
        p, none = pos(r), lit("")
        brk = And(absn >= 1, self.isb(tbase(p), "BREAK_START", "SPEED_VFR"))
        vfr = And(absn >= 1, tbase(p) == self.b["SPEED_VFR"])
        at = self.at(absn, r)
        i, j = ls(q - 1), lc(q - 1)
        if rp is None:
            rp = r                                  # no record before the first one known here: only for ADEP
        sp, al = rp["speed"], rp["alt"]
        chg = And(z3.Not(brk), i > at)
        s = z3.If(vfr, spdof(p), z3.If(chg, spdof(i), z3.If(absn == 0, none, sp)))
        a = z3.If(vfr, lit("F050"), z3.If(chg, altof(i), z3.If(absn == 0, none, al)))
        if rn is not None:
            nv = And(tbase(pos(rn)) == self.b["SPEED_VFR"], z3.Not(brk))
            s = z3.If(nv, spdof(pos(rn)), s)
            a = z3.If(nv, lit("F050"), a)
        c = z3.If(And(z3.Not(brk), j > at), ctoof(j), none)
        return And(r["speed"] == s, r["alt"] == a, r["cto"] == c)

    def mine_pre(self, V, key):
        c = Pairs.mine_pre(self, V, key)
        c.update(self.breaks(V))
        return c

    def ades(self, V, r):
        return [("no speed and level at ADES", Imp(self.g(V), And(r["speed"] == lit(""), r["alt"] == lit(""))))]


class C09(Base):
    errroles = ["err"]
    roles = ["name", "start", "end", "base", "sub", "rules"]
    firstvar = ("rules",)
    frame = ()

    def adep(self, V):
        c = {}
        for r, v in (("name", lit("ADEP")), ("start", 0), ("end", 0), ("base", self.b["POINT"]),
                     ("sub", self.R.sub["PRP_AERO"])):
            c["%s of ADEP" % r] = first(V, r) == v
        return c

    def mine_pre(self, V, key):
        return self.adep(V)

    def mine_post(self, V0, V, key):
        return self.adep(V)

    def axioms(self, p, key):
        return [Imp(And(q >= 0, q < ntok), And(tstart(q) >= 0, tend(q) == tstart(q) + slen(ttext(q)), slen(ttext(q)) >= 1))
                for g, r in self.records(p) for q in (pos(r),)]

    def sealed(self, V, j, absn):
        return [("a record within the route is no artificial one", Imp(absn >= 1, V.seq[j]["end"] >= 1))]

    def final(self, S, V, p):
        out = [("ADEP and ADES are there", V.N >= 2)]
        out += [(n + " record", f) for n, f in self.adep(V).items()]
        k0 = len(V.seq) - V.m
        for j in range(len(V.seq) - 1):
            for n, f in self.sealed(V, j, V.n0 - k0 + j):
                out.append((n, Imp(V.n0 - k0 + j >= 0, f)))
        z = V.seq[-1]
        for r, v in (("name", lit("ADES")), ("start", 0), ("end", 0), ("base", self.b["POINT"]),
                     ("sub", self.R.sub["PRP_AERO"])):
            out.append(("%s of ADES record" % r, z[r] == v))
        res = p.extra
        if isinstance(res, Z) and res.k == "b":
            out.append(("verdict", res.t == (V.E == 0)))
        elif isinstance(res, bool):
            out.append(("verdict", V.E == 0 if res else V.E != 0))
        else:
            raise Unsupported("the verdict is not a truth value: %r" % (res,))
        out.append(("empty field has two records and one error", Imp(ntok == 0, And(V.N == 2, V.E == 1))))
        if V.errs:
            out.append(("error of an empty field", Imp(ntok == 0, V.errs[0]["err"] == lit(
                "Field 15 is empty"))))
        else:
            out.append(("error of an empty field", ntok > 0))
        if len(V.seq) >= 2:
            out.append(("flight rules of ADES", Imp(ntok > 0, z["rules"] == V.seq[-2]["rules"])))
        b0 = tbase(z3.IntVal(0))
        out.append(("an accepted field starts with a speed", Imp(And(ntok > 0, V.E == 0), self.isb(
            b0, "SPEED_ALTITUDE", "SPEED_VFR"))))
        out.append(("a lone speed/level is not accepted", Imp(And(ntok == 1, V.E == 0), b0 != self.b["SPEED_ALTITUDE"])))
        return out + self.stable(S, V)


def consts(t, pre, out):
    if z3.is_const(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(pre):
            out[t.decl().name()] = t
    else:
        for x in t.children():
            consts(x, pre, out)


class C13(Base):
    roles = ["name", "start", "end", "rules"]
    firstvar = ("rules",)
    frame = ()

    def adep(self, V):
        g = And(V.E == 0, tbase(z3.IntVal(0)) != self.b["SPEED_VFR"])
        i = first(V, "rules") == lit("IFR")
        return {"ADEP is IFR": Imp(g, i), "ADEP is IFR once a record follows": Imp(And(g, V.N > 1), i)}

    def rules(self, V, r):
        p = pos(r)
        b, u = tbase(p), tsub(p)
        w = z3.If(b == self.b["SPEED_VFR"], lit("VFR"), z3.If(b != self.b["BREAK_START"], lit("IFR"), z3.If(
            u == self.R.sub["VFR"], lit("VFR"), z3.If(u == self.R.sub["OAT"], lit("OAT"), lit("IFPS")))))
        return Imp(V.E == 0, r["rules"] == w)

    def win(self, V):
        c = self.adep(V)
        for k in (1, 2, 3):
            c["flight rules of record -%d" % k] = Imp(V.N > k, self.rules(V, V.rec(k)))
            c["flight rules of record -%d (ADEP)" % k] = Imp(And(V.N == k, V.E == 0), V.rec(k)["rules"] == lit("IFR"))
        return c

    def mine_pre(self, V, key):
        return dict(self.win(V), **self.breaks(V))

    def mine_post(self, V0, V, key):
        return self.win(V)

    def axioms(self, p, key):
        return [Imp(And(q >= 0, q < ntok, tbase(q) == self.b["BREAK_START"]),
                    Or(*[tsub(q) == self.R.sub[x] for x in ("VFR", "OAT", "IFPSTOP")]))
                for g, r in self.records(p) for q in (pos(r),)]

    def sealed(self, V, j, absn):
        return [("flight rules of a record", Imp(absn >= 1, self.rules(V, V.seq[j])))]

    def final(self, S, V, p):
        out = []
        k0 = len(V.seq) - V.m
        for j in range(len(V.seq) - 1):
            for n, f in self.sealed(V, j, V.n0 - k0 + j):
                out.append((n, Imp(V.n0 - k0 + j >= 0, f)))
        out.append(("flight rules of ADES", Imp(And(V.E == 0, ntok > 0), V.seq[-1]["rules"] == V.seq[-2]["rules"])))
        f0 = first(V, "rules")
        out.append(("flight rules of ADEP", Imp(V.E == 0, f0 == z3.If(
            tbase(z3.IntVal(0)) == self.b["SPEED_VFR"], lit("VFR"), lit("IFR")))))
        ex = {"IFR": z3.Bool("some_record_IFR"), "VFR": z3.Bool("some_record_VFR")}
        facts = []
        for j, r in enumerate(V.seq):
            for x in ex:
                facts.append(Imp(And(V.n0 - k0 + j >= 0, r["rules"] == lit(x)), ex[x]))
        for x in ex:
            facts.append(Imp(f0 == lit(x), ex[x]))
            facts.append(Imp(And(ex[x], V.N == len(V.seq)), Or(*[And(V.n0 - k0 + j >= 0, r["rules"] == lit(x))
                                                                for j, r in enumerate(V.seq)])))
        for e in p.events:
            if e.kind != "search" or e.view is None:
                continue
            W = e.view
            if len(W.seq) != len(V.seq) or not all(a["rules"].eq(b["rules"]) for a, b in zip(W.seq, V.seq)) or \
                    not first(W, "rules").eq(f0):
                continue                           # records change after the search
            cs = {}
            consts(e.P, e.rec + ".", cs)
            consts(e.NP, e.rec + ".", cs)
            attr = e.rec + "." + self.R.rec_attr["rules"]
            sub = [(t, z3.Const("q!" + n, t.sort())) for n, t in cs.items()]
            P = z3.substitute(e.P, *sub) if sub else e.P
            NP = z3.substitute(e.NP, *sub) if sub else e.NP
            q = z3.Int("q!" + attr)
            for x in ex:
                s = z3.Solver()
                s.add(*p.facts)
                s.add(*p.conds[:e.ncond])
                s.add(Or(P != (q == lit(x)), NP == (q == lit(x))))
                if s.check() == z3.unsat:
                    facts.append(ex[x] if e.found else z3.Not(ex[x]))
        d = V.derived
        if isinstance(d, str):
            d = lit(d)
        elif d is None:
            d = lit("None")
        else:
            raise Unsupported("derived flight rules of an unknown kind")
        want = z3.If(f0 == lit("VFR"), z3.If(ex["IFR"], lit("Z"), lit("V")), z3.If(ex["VFR"], lit("Y"), lit("I")))
        out.append(("derived flight rules", Imp(And(ntok > 0, *facts), d == want)))
        return out + self.stable(S, V)


class C14(Pairs):
    roles = ["name", "start", "end", "brk"]
    GUARD = False
    frame = ((0, ("start", "brk")),)
    WHAT = "break text of a record"

    def axioms(self, p, key):
        out, seen = [], set()
        bs = self.indices(p)
        last = {tid(v.rec(1)["start"]) for v in self.views(p)}
        for g, r in self.records(p):
            a = z3.simplify(pos(r) + 1)
            if tid(r["start"]) not in last and (z3.is_const(r["brk"]) or z3.is_int_value(r["brk"])):
                out += [Imp(J(a, a) == lit(""), je(a, lit("")) == a), J(a, a) == lit("")]
                continue
            if tid(a) in seen:
                continue
            seen.add(tid(a))
            for b in bs:
                j = J(a, b)
                out += [Imp(b == a, j == lit("")), Imp(b >= a, je(a, j) == b),
                        Imp(b > a, And(j != lit(""), j == z3.If(b - 1 == a, ttext(b - 1), scat(
                            scat(J(a, b - 1), lit(" ")), ttext(b - 1)))))]
            out.append(Imp(J(a, a) == lit(""), je(a, lit("")) == a))
            out.append(J(a, a) == lit(""))
        return out

    def spec(self, V, r, rp, absn, q, rn):
        p = pos(r)
        t = r["brk"]
        brk = And(absn >= 1, self.isb(tbase(p), "BREAK_START", "SPEED_VFR"))
        e = je(p + 1, t)
        if not z3.is_const(q) and not z3.is_int_value(q):
            q = z3.If(q > ntok, ntok, q)
        return z3.If(brk, And(p + 1 <= e, e <= q, t == J(p + 1, e), Imp(V.E == 0, e == q)), t == lit(""))

    def mine_pre(self, V, key):
        c = Pairs.mine_pre(self, V, key)
        c.update(self.breaks(V))
        r = V.rec(1)
        p = pos(r)
        for a in self.LAST:
            c["last record is a break with all up to position %+d" % a] = And(
                V.N > 1, self.isb(tbase(p), "BREAK_START", "SPEED_VFR"), V.c + a >= p + 1, V.c + a <= ntok,
                r["brk"] == J(p + 1, V.c + a), je(p + 1, r["brk"]) == V.c + a)
        return c

    def ades(self, V, r):
        return [("no break text at ADES", r["brk"] == lit(""))]


class C18(Base):
    """every error names an element with a message of the catalogue"""
    roles = ["name", "start", "end"]
    errroles = ["name", "start", "end", "base", "sub", "err"]
    frame = ()

    def __init__(self, R):
        Base.__init__(self, R)
        d = self.catalogue()
        if not isinstance(d, dict) or not all(isinstance(m, str) for m in d.values()):
            raise Unsupported("the catalogue of error messages is no dictionary of texts")
        self.msgs = sorted({m for m in d.values() if m})

    def catalogue(self):
        ds = [v for v in vars(self.R.Errors).values() if isinstance(v, dict)]
        if len(ds) != 1:
            raise Unsupported("no single catalogue of error messages")
        return ds[0]

    def pre(self, V, key):
        return {}

    def post(self, V0, V, key):
        return {}

    def message(self, e, name):
        """formula: text term e is a catalogue message for name"""
        inv = {v.as_long(): k for k, v in lits().items()}
        out = []
        for m in self.msgs:
            ps = m.split("!")
            t = None
            for j, x in enumerate(ps):
                for y in ([name] if j else []) + ([lit(x)] if x else []):
                    t = y if t is None else scat(t, y)
            out.append(e == t)
            if z3.is_int_value(e):
                s = inv.get(e.as_long())
                if s is not None and len(ps) == 1:
                    out.append(T if s == m else F)
                elif s is not None and len(ps) == 2 and s.startswith(ps[0]) and s.endswith(ps[1]) and len(s) > len(m) - 1:
                    out.append(name == lit(s[len(ps[0]):len(s) - len(ps[1])]))
        return Or(*out)

    def errors(self, V):
        out = []
        for r in V.errs:
            p = idxof(r["start"])
            out += [("an error names an element of the field", And(p >= 0, p < ntok, r["start"] == tstart(p), r["end"] == tend(p),
                                                                   r["name"] == ttext(p))),
                    ("an error has the type of its element", And(r["base"] == tbase(p), r["sub"] == tsub(p))),
                    ("an error has a message of the catalogue", self.message(r["err"], r["name"]))]
        return [(n, Imp(ntok > 0, f)) for n, f in out]

    def seg(self, S, V, key, e):
        return self.errors(V)

    def final(self, S, V, p):
        return self.errors(V)


lastun = z3.Function("last_unaccounted", IntS, IntS)
MUST = ("UNKNOWN", "BREAK_START", "SPEED_VFR", "DCT", "POINT", "ROUTE", "SID_STAR", "SID", "STAR", "TOO_LONG")


class C11(C14):
    """every element is in a record, in the break text of one, or in an error"""
    errroles = ["name", "start", "end"]
    WHAT = "elements after a record are accounted for"

    def isrec(self, r):
        p = pos(r)
        return And(p >= 0, p < ntok, r["start"] == tstart(p), r["end"] == tend(p))

    def un(self, i):
        b = self.b
        nx, pv = tbase(i + 1), tbase(i - 1)
        t = tbase(i)
        last = i + 1 >= ntok
        nslash = And(z3.Not(last), nx == b["SLASH"])
        pslash = And(i >= 1, pv == b["SLASH"])
        good = z3.If(t == b["SLASH"], And(z3.Not(last), self.isb(
            nx, "SPEED_ALTITUDE", "SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS", "SPEED_VFR", "POINT", "C", "STAY_TIME")),
            z3.If(t == b["BREAK_END"], F, z3.If(self.isb(t, "STAY", "C"), nslash, z3.If(
                t == b["STAY_TIME"], pslash, z3.If(t == b["TRUNCATE"], last, Or(i == 0, pslash))))))
        return And(i >= 0, i < ntok, z3.Not(acc(i)), Or(self.isb(t, *MUST), And(EF == 0, z3.Not(good))))

    def axioms(self, p, key):
        out = C14.axioms(self, p, key)
        xs = {tid(i): i for i in self.indices(p)}
        for g, r in self.records(p):
            for i in (pos(r), pos(r) - 1):
                xs.setdefault(tid(i), i)
            out.append(Imp(And(g, self.isrec(r)), acc(pos(r))))
        seen = set()
        for v in self.views(p):
            out.append(EF >= v.E)
            for r in v.errs:
                if tid(r["start"]) not in seen:
                    seen.add(tid(r["start"]))
                    out.append(Imp(self.isrec(r), acc(pos(r))))
        for i in xs.values():
            out += [Imp(i < 0, lastun(i) == -1), Imp(i >= 0, lastun(i) == z3.If(self.un(i), i, lastun(i - 1))),
                    lastun(i) <= z3.If(i < 0, z3.IntVal(-1), i), lastun(i) >= -1, lastun(i) <= lastun(ntok - 1),
                    Imp(i >= ntok - 1, lastun(i) == lastun(ntok - 1))]
        if key == "root" and p.end is not None:
            out.append(EF == p.end.E)
        return out

    def spec(self, V, r, rp, absn, q, rn):
        p = pos(r)
        t = r["brk"]
        brk = And(absn >= 1, self.isb(tbase(p), "BREAK_START", "SPEED_VFR"))
        e = je(p + 1, t)
        return And(Imp(absn >= 1, acc(p)), z3.If(brk, And(p + 1 <= e, t == J(p + 1, e), lastun(q - 1) < e),
                   lastun(q - 1) <= self.at(absn, r)))

    def mine_pre(self, V, key):
        c = {}
        for n, f in C14.mine_pre(self, V, key).items():
            if "up to position" in n and "break" not in n:
                c[n + " if finally no errors"] = Imp(EF == 0, f)
                c[n + " if finally errors"] = Imp(EF > 0, f)
            else:
                c[n] = f
        for a in (0, -1, -2):
            if a == 0 and key[1] is not None:
                continue
            for n in self.b if a == 0 else ("SLASH", "C", "STAY"):
                b = self.b[n]
                c["element at position %+d is %s" % (a, n)] = And(V.c + a >= 0, V.c + a < ntok, tbase(V.c + a) == b)
        return c

    def ades(self, V, r):
        return []


NEXT_OK = {
    "POINT": ("POINT", "C", "DCT", "ROUTE", "BREAK_START", "SPEED_VFR", "STAR"),
    "C": ("POINT", "C", "DCT", "ROUTE", "BREAK_START", "SPEED_VFR", "STAR"),
    "ADEP": ("POINT", "DCT", "SID", "STAR", "SPEED_VFR"),
    "DCT": ("POINT", "C"), "ROUTE": ("POINT", "C"), "SID": ("POINT", "ROUTE", "STAR"), "STAR": (),
    "BREAK_START": ("POINT",), "SPEED_VFR": ("POINT",)}

lastbad = z3.Function("last_inadmissible", IntS, IntS)


class C15(Pairs):
    roles = ["name", "start", "end", "base", "sub"]
    frame = ((0, ("start", "base", "sub")),)
    WHAT = "structure of an accepted route"
    LAST = (-2, -1, 0, 1)

    def trusted(self):
        return Pairs.trusted(self) + ["C14: the break text of an accepted field is everything up to the next record"]

    def kind(self, absn, r, *names):
        fs = []
        for n in names:
            fs.append(absn == 0 if n == "ADEP" else And(absn >= 1, r["base"] == self.b[n]))
        return Or(*fs)

    def noroute(self, r):
        return Or(*[r["sub"] == self.R.sub[x] for x in fmt.spec.NOROUTE_SUBS])

    def bad(self, i):
        return Or(self.isb(tbase(i), "UNKNOWN", "TOO_LONG"), And(tbase(i) == self.b["TRUNCATE"], i < ntok - 1))

    def axioms(self, p, key):
        out = []
        xs = {tid(i): i for i in self.indices(p)}
        for g, r in self.records(p):
            for i in (pos(r), pos(r) - 1):
                xs.setdefault(tid(i), i)
        for i in xs.values():
            out += [Imp(i < 0, lastbad(i) == -1), Imp(i >= 0, lastbad(i) == z3.If(self.bad(i), i, lastbad(i - 1))),
                    lastbad(i) <= z3.If(i < 0, z3.IntVal(-1), i), lastbad(i) >= -1]
        return out

    def spec(self, V, r, rp, absn, q, rn):
        brk = self.kind(absn, r, "BREAK_START", "SPEED_VFR")
        fs = [Or(*[self.kind(absn, r, k) for k in NEXT_OK]),
              Imp(z3.Not(brk), lastbad(q - 1) <= self.at(absn, r)),
              Imp(absn >= 1, And(tbase(pos(r)) != self.b["UNKNOWN"], tbase(pos(r)) != self.b["TOO_LONG"],
                                 tbase(pos(r)) != self.b["TRUNCATE"]))]
        if rn is not None:
            for k, nx in NEXT_OK.items():
                fs.append(Imp(self.kind(absn, r, k), Or(*[rn["base"] == self.b[x] for x in nx])))
            fs += [Imp(And(self.noroute(r), absn >= 1), rn["base"] != self.b["ROUTE"]),
                   Imp(self.kind(absn, r, "ROUTE"), z3.Not(self.noroute(rn)))]
        return And(*fs)

    def win(self, V, tag):
        c = {}
        r = V.rec(1)
        for g, gn in ((V.E == 0, " if no errors"),):
            for k in NEXT_OK:
                c["last record is not %s%s%s" % (k, gn, tag)] = Imp(g, z3.Not(self.kind(V.N - 1, r, k)))
            c["last record may be followed by a route%s%s" % (gn, tag)] = Imp(And(g, V.N > 1), z3.Not(self.noroute(r)))
        return c

    def mine_pre(self, V, key):
        c = Pairs.mine_pre(self, V, key)
        c.update(self.win(V, ""))
        if key[1] is not None:
            s = tsub(V.c + key[1])
            c["the element may follow a route"] = Imp(And(V.E == 0, self.kind(V.N - 1, V.rec(1), "ROUTE")), z3.Not(
                Or(*[s == self.R.sub[x] for x in fmt.spec.NOROUTE_SUBS])))
        return c

    def mine_post(self, V0, V, key):
        c = Pairs.mine_post(self, V0, V, key)
        return c

    def extra(self, S, V, p):
        return [("an accepted field starts with a speed", Imp(And(V.E == 0, ntok > 0), self.isb(
            tbase(z3.IntVal(0)), "SPEED_ALTITUDE", "SPEED_VFR")))]


PROPS = {"C09": C09, "C10": C10, "C11": C11, "C12": C12, "C13": C13, "C14": C14, "C15": C15, "C18": C18, "C19": C19}
