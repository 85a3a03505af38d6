"""The numeric properties (C04 levels, C05 speeds, C06 coordinates, C07 azimuths) as contracts over the core."""
import re
import z3
from vals import *
import fmt
from houdini import first
from props import Base, Pairs, And, Or, Imp, T, F, pos, PROPS, sliced

RV = z3.RealVal
EPS = RV("1/1000000")
EPSD = RV("1/1000000000")


def formdefs(p):
    """(element index, documented form) for the elements whose characters are looked at on the path"""
    out = {}
    for x in p.facts:
        if z3.is_implies(x) and z3.is_eq(x.arg(0)) and z3.is_app(x.arg(0).arg(0)) and x.arg(0).arg(0).decl().eq(tform):
            i, k = x.arg(0).arg(0).arg(0), x.arg(0).arg(1).as_long()
            out[(tid(i), k)] = (i, k)
    return list(out.values())


def cuts(ts):
    """slice terms occurring in the terms"""
    out, seen, todo = {}, set(), list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(ssub):
                out[tid(x)] = x
            todo += x.children()
    return list(out.values())


def number(t, a, b):
    n = z3.IntVal(0)
    for p in range(a, b):
        n = n * 10 + dig(t, p)
    return n


LEVEL = re.compile(r"F999|A999|S9999|M9999")
LEVELV = re.compile(r"[FA][0-9]{3}|[SM][0-9]{4}")
SPEED = re.compile(r"N9999|K9999|M999")
SPEEDV = re.compile(r"[NK][0-9]{4}|M[0-9]{3}")
SA = ("SPEED_ALTITUDE", "SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS")


def near(x, y, tol):
    return And(x - y <= tol, y - x <= tol)


def whole(x):
    return x == z3.ToReal(z3.ToInt(x))


class Texts(Pairs):
    """texts cut from elements and the numbers they denote"""
    GUARD = False
    TEXTROLES = ()

    def __init__(self, R):
        Pairs.__init__(self, R)
        self.forms = {}
        for k, (f, b, u) in enumerate(fmt.spec.FORMATS):
            if b in SA or b == "SPEED_VFR":
                self.forms.setdefault((R.base[b], R.sub[u]), []).append(k)

    def cls(self, i, k):
        f, b, u = fmt.spec.FORMATS[k]
        return And(tbase(i) == self.R.base[b], tsub(i) == self.R.sub[u])

    def texts(self, p):
        """(formula, form of the text, slice term, whole text, start) for every slice stored in a record"""
        out = []
        ts = [r[x] for g, r in self.records(p) for x in self.TEXTROLES]
        for c in cuts(ts):
            t, a, b = c.arg(0), c.arg(1), c.arg(2)
            if not (z3.is_int_value(a) and z3.is_int_value(b)) or not (z3.is_app(t) and t.decl().eq(ttext)):
                continue
            a, b, i = a.as_long(), b.as_long(), t.arg(0)
            groups = {}
            for ks in self.forms.values():
                if len(ks) != 1:
                    raise Unsupported("a speed/level type with several formats")
                f = fmt.FORMS[ks[0]]
                groups.setdefault(f[a:] if b < 0 else f[a:b], []).append(ks[0])
            for f, ks in groups.items():
                out.append((Or(*[self.cls(i, k) for k in ks]), f, c, t, a))
            for k in [k for ks in self.forms.values() for k in ks]:
                self.need[(tid(i), k)] = (i, k)
        return out

    need = {}

    def digits(self, p):
        """digits are digits in the texts looked at"""
        out = []
        for i, k in list(self.need.values()):
            t = ttext(i)
            out.append(Imp(self.cls(i, k), And(tform(i) == k, *[And(dig(t, x) >= 0, dig(t, x) <= 9) for x, c in enumerate(fmt.FORMS[k]) if c == "9"])))
        return out


lvl = z3.Function("level_metres", StrS, RealS)
islvl = z3.Function("is_level", StrS, BoolS)
badF = z3.Function("bad_flight_level", IntS, BoolS)
lastbadF = z3.Function("last_bad_flight_level", IntS, IntS)


class C04(Texts):
    roles = ["name", "start", "end", "alt", "alt_si", "cto", "cto_si"]
    errroles = ["name", "start", "end", "err"]
    TEXTROLES = ("alt", "cto")
    frame = ((0, ("start", "alt", "alt_si", "cto", "cto_si")),)
    WHAT = "level of a record in metres"

    def metres(self, kind, n):
        return z3.ToReal(n) * RV("30.48") if kind in "FA" else z3.ToReal(n) * 10

    def axioms(self, p, key):
        self.need = {}
        out = []
        lit("PLUS")
        for g, f, c, t, a in self.texts(p):
            if "9" not in f and "@" not in f:
                out.append(Imp(g, c == lit(f)))
            if LEVEL.fullmatch(f):
                out.append(Imp(g, And(islvl(c), lvl(c) == self.metres(f[0], number(t, a + 1, a + len(f))))))
        out += self.digits(p)
        for s, t in lits().items():
            if LEVELV.fullmatch(s):
                out += [islvl(t), lvl(t) == self.metres(s[0], z3.IntVal(int(s[1:])))]
            else:
                out += [z3.Not(islvl(t)), lvl(t) == 0]
        spans = {}
        for k, (f, b, u) in enumerate(fmt.spec.FORMATS):
            if b in SA:
                a = 4 if f[0] == "M" else 5
                m = a + (4 if f[a] in "FA" else 5)
                spans[k] = [x for x in (a, m) if x < len(f) and f[x] == "F"]
        for i, k in formdefs(p):
            ds = [And(dig(ttext(i), x + 3) != 0, dig(ttext(i), x + 3) != 5)
                  for x in spans.get(k, ())]
            out.append(Imp(tform(i) == k, badF(i) == Or(*ds)))
            if k in spans:
                out.append(Imp(self.cls(i, k), badF(i) == Or(*ds)))
        xs = {tid(i): i for i in self.indices(p)}
        for g, r in self.records(p):
            for i in (pos(r), pos(r) - 1):
                xs.setdefault(tid(i), i)
        for i in xs.values():
            b = And(self.isb(tbase(i), *SA), badF(i))
            out += [Imp(i < 0, lastbadF(i) == -1), Imp(i >= 0, lastbadF(i) == z3.If(b, i, lastbadF(i - 1))),
                    lastbadF(i) <= z3.If(i < 0, z3.IntVal(-1), i), lastbadF(i) >= -1]
        return out

    def mine_pre(self, V, key):
        return dict(Texts.mine_pre(self, V, key), **self.breaks(V))

    def spec(self, V, r, rp, absn, q, rn):
        a, c = r["alt"], r["cto"]
        return And(Or(a == lit(""), islvl(a)), near(r["alt_si"], lvl(a), RV("1/2") + EPS), whole(r["alt_si"]),
                   Or(c == lit(""), c == lit("PLUS"), islvl(c)), near(r["cto_si"], lvl(c), RV("1/2") + EPS), whole(r["cto_si"]),
                   Imp(V.E == 0, Or(And(absn >= 1, self.isb(tbase(pos(r)), "BREAK_START", "SPEED_VFR")),
                                    lastbadF(q - 1) <= self.at(absn, r))))

    def seg(self, S, V, key, e):
        return Texts.seg(self, S, V, key, e) + self.errors(V)

    def errors(self, V):
        out = []
        for r in V.errs:
            p = idxof(r["start"])
            m = self.message(r["err"], r["name"])
            out.append(("an element reported for its flight level has a bad one", Imp(m, And(
                self.isb(tbase(p), *SA), badF(p)))))
        return out

    def message(self, e, name):
        a, b = "The flight level '!' must end in a zero or 5".split("!")
        return same_message(e, name, [(a, b)])

    def extra(self, S, V, p):
        out = self.errors(V)
        r = V.seq[-1]
        out += [("level of ADES", And(near(r["alt_si"], lvl(r["alt"]), RV("1/2") + EPS), Or(r["alt"] == lit(""), islvl(r["alt"])),
                                      whole(r["alt_si"]), whole(r["cto_si"]), near(r["cto_si"], lvl(r["cto"]), RV("1/2") + EPS)))]
        return out


def flat(e, inv):
    """the parts of a text term: str for literals, terms otherwise"""
    if z3.is_int_value(e):
        s = inv.get(e.as_long())
        return [e if s is None else s]
    if z3.is_app(e) and e.decl().eq(scat):
        return flat(e.arg(0), inv) + flat(e.arg(1), inv)
    return [e]


def same_message(e, name, pats):
    """formula: the error text e is one of the messages a + name + b"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), same_message(e.arg(1), name, pats), same_message(e.arg(2), name, pats))
    inv = {v.as_long(): k for k, v in lits().items()}
    ps = []
    for x in flat(e, inv):
        if isinstance(x, str) and ps and isinstance(ps[-1], str):
            ps[-1] += x
        else:
            ps.append(x)
    nm = inv.get(name.as_long()) if z3.is_int_value(name) else None
    out = []
    for a, b in pats:
        head = ps[0] if isinstance(ps[0], str) else ""
        tail = ps[-1] if isinstance(ps[-1], str) else ""
        if len(ps) == 3 and head == a and tail == b:
            out.append(ps[1] == name)
        elif len(ps) == 1 and isinstance(ps[0], str):
            if nm is not None:
                out.append(T if ps[0] == a + nm + b else F)
            elif ps[0].startswith(a) and ps[0].endswith(b) and len(ps[0]) > len(a) + len(b):
                out.append(name == lit(ps[0][len(a):len(ps[0]) - len(b)]))
            else:
                out.append(F)
        elif head[:min(len(head), len(a))] != a[:min(len(head), len(a))]:
            out.append(F)
        else:
            out.append(e == scat(scat(lit(a), name), lit(b)))
    return Or(*out)


spd = z3.Function("speed_ms", StrS, RealS, RealS)
isspd = z3.Function("is_speed", StrS, BoolS)


class C05(Texts):
    roles = ["name", "start", "end", "speed", "speed_si", "alt_si"]
    TEXTROLES = ("speed",)
    frame = ((0, ("start", "speed", "speed_si", "alt_si")),)
    WHAT = "speed of a record in metres per second"

    def trusted(self):
        return Texts.trusted(self) + ["C04: the level of a record in metres is the one its level text denotes"]

    def sound(self, x):
        h = z3.If(x > 11000, RV(11000), x)
        return RV("331.15") * usqrt((RV("15") - RV("0.00645") * h + RV("273.15")) / RV("273.15"))

    def value(self, kind, n, x):
        n = z3.ToReal(n)
        if kind == "N":
            return n * RV("0.514444")
        if kind == "K":
            return n * RV("0.2777778")
        return n / 100 * z3.If(x == 0, RV(343), self.sound(x))

    def axioms(self, p, key):
        self.need = {}
        out, alts = [], {}
        for g, r in self.records(p):
            alts.setdefault(tid(r["speed"]), {})[tid(r["alt_si"])] = (r["speed"], r["alt_si"])
        for g, f, c, t, a in self.texts(p):
            if SPEED.fullmatch(f):
                n = number(t, a + 1, a + len(f))
                out.append(Imp(g, isspd(c)))
                for d in alts.values():
                    for s, x in d.values():
                        out.append(Imp(And(g, s == c), spd(s, x) == self.value(f[0], n, x)))
        out += self.digits(p)
        for s, t in lits().items():
            if SPEEDV.fullmatch(s):
                out.append(isspd(t))
            else:
                out.append(z3.Not(isspd(t)))
            for d in alts.values():
                for v, x in d.values():
                    w = self.value(s[0], z3.IntVal(int(s[1:])), x) if SPEEDV.fullmatch(s) else RV(0)
                    out.append(Imp(v == t, spd(v, x) == w))
        return out

    def spec(self, V, r, rp, absn, q, rn):
        s = r["speed"]
        return And(Or(s == lit(""), isspd(s)), near(r["speed_si"], spd(s, r["alt_si"]), RV("1/2") + EPS), whole(r["speed_si"]))

    def ades(self, V, r):
        return [("speed of ADES", self.spec(V, r, None, None, None, None))]


glat = z3.Function("denoted_latitude", IntS, RealS)
glon = z3.Function("denoted_longitude", IntS, RealS)
latbad = z3.Function("latitude_out_of_range", IntS, BoolS)
lonbad = z3.Function("longitude_out_of_range", IntS, BoolS)
brgbad = z3.Function("bearing_out_of_range", IntS, BoolS)
replat = z3.Function("latitude_reported", IntS, BoolS)
replon = z3.Function("longitude_reported", IntS, BoolS)
repbrg = z3.Function("bearing_reported", IntS, BoolS)
MSG = {42: "Latitude degree value must be 0 to 90 instead of '!'",
       43: "Latitude degree/minute value must be 0 to 9000 with minutes < 60 instead of '!'",
       44: "Longitude degree value must be 0 to 180 instead of '!'",
       45: "Longitude degree/minute value must be 0 to 18000 with minutes < 60 instead of '!'",
       46: "Bearing degree value must be 0 to 360 instead of '!'"}


class C06(Pairs):
    roles = ["name", "start", "end", "lat", "lon", "valid"]
    errroles = ["name", "start", "end", "err"]
    GUARD = False
    frame = ((0, ("start", "lat", "lon", "valid")),)
    WHAT = "coordinates of a record"
    llforms = [k for k, (f, b, u) in enumerate(fmt.spec.FORMATS) if u in fmt.spec.LL_SUBS + ("PRP_BD",)]

    def llsub(self, i, *names):
        return Or(*[tsub(i) == self.R.sub[x] for x in names or fmt.spec.LL_SUBS])

    def axioms(self, p, key):
        out, els = [], {}
        for i, k in formdefs(p):
            if k in self.llforms:
                els[tid(i)] = i
        for i in els.values():
            cl = {}
            for k in self.llforms:
                cl.setdefault(fmt.CLASS[k], []).append(tform(i) == k)
            for (b, u), fs in cl.items():
                out.append(Imp(And(tbase(i) == self.R.base[b], tsub(i) == self.R.sub[u]), Or(*fs)))
        for i, k in [(i, k) for i in els.values() for k in self.llforms]:
            f, b, u = fmt.spec.FORMATS[k]
            t = ttext(i)
            out.append(Imp(tform(i) == k, fmt.formfacts(k, i)))
            if u in fmt.spec.LL_SUBS:
                d = 2 if "DEG" in u else 4
                la, lo = z3.ToReal(number(t, 0, 2)), z3.ToReal(number(t, d + 1, d + 4))
                bla, blo = number(t, 0, 2) > 90, number(t, d + 1, d + 4) > 180
                e = d + 5
                if d == 4:
                    ml, mo = number(t, 2, 4), number(t, 8, 10)
                    la, lo = la + z3.ToReal(ml) / 60, lo + z3.ToReal(mo) / 60
                    bla, blo = Or(la > 90, ml > 59), Or(lo > 180, mo > 59)
                    e = 11
                if f[d] == "S":
                    la = -la
                if f[e - 1] == "W":
                    lo = -lo
                fs = [latbad(i) == bla, lonbad(i) == blo]
                if "BD" in u:
                    br, di = z3.ToReal(number(t, e, e + 3)), z3.ToReal(number(t, e + 3, e + 6)) * 1852
                    fs += [glat(i) == dirlat(la, lo, br, di), glon(i) == dirlon(la, lo, br, di), brgbad(i) == (br > 360)]
                else:
                    fs += [glat(i) == la, glon(i) == lo, z3.Not(brgbad(i))]
                out.append(Imp(tform(i) == k, And(*fs)))
            elif u == "PRP_BD":
                out.append(Imp(tform(i) == k, And(brgbad(i) == (number(t, len(f) - 6, len(f) - 3) > 360),
                                                  z3.Not(latbad(i)), z3.Not(lonbad(i)))))
        seen = set()
        for v in self.views(p):
            for r in v.errs:
                if tid(r["start"]) in seen:
                    continue
                seen.add(tid(r["start"]))
            for r in v.errs:
                i = pos(r)
                deg = self.llsub(i, "LL_DEG", "LLBD_DEG")
                own = And(i >= 0, i < ntok, r["start"] == tstart(i), r["end"] == tend(i), r["name"] == ttext(i))
                out += [Imp(And(own, z3.If(deg, self.msg(r, 42), self.msg(r, 43))), replat(i)),
                        Imp(And(own, z3.If(deg, self.msg(r, 44), self.msg(r, 45))), replon(i)),
                        Imp(And(own, self.msg(r, 46)), repbrg(i))]
        return out

    def msg(self, r, *ks):
        return same_message(r["err"], r["name"], [tuple(MSG[k].split("!")) for k in ks])

    def spec(self, V, r, rp, absn, q, rn):
        i = pos(r)
        ll = And(absn >= 1, self.llsub(i))
        bd = And(absn >= 1, tsub(i) == self.R.sub["PRP_BD"])
        return And(z3.If(ll, And(r["valid"], near(r["lat"], glat(i), EPSD), near(r["lon"], glon(i), EPSD)),
                         And(z3.Not(r["valid"]), r["lat"] == 0, r["lon"] == 0)),
                   Imp(ll, And(Imp(latbad(i), replat(i)), Imp(lonbad(i), replon(i)))),
                   Imp(Or(ll, bd), Imp(brgbad(i), repbrg(i))))

    def seg(self, S, V, key, e):
        return Pairs.seg(self, S, V, key, e) + self.errors(V)

    def errors(self, V):
        out = []
        for r in V.errs:
            i = pos(r)
            deg, mi = self.llsub(i, "LL_DEG", "LLBD_DEG"), self.llsub(i, "LL_MIN", "LLBD_MIN")
            bd = self.llsub(i, "LLBD_DEG", "LLBD_MIN", "PRP_BD")
            for k, f in ((42, And(deg, latbad(i))), (43, And(mi, latbad(i))), (44, And(deg, lonbad(i))),
                         (45, And(mi, lonbad(i))), (46, And(bd, brgbad(i)))):
                out.append(("a range error is reported only for a value out of range", Imp(self.msg(r, k), f)))
        return out

    def ades(self, V, r):
        return [("ADES has no coordinates", And(z3.Not(r["valid"]), r["lat"] == 0, r["lon"] == 0))]

    def extra(self, S, V, p):
        return self.errors(V)


class C07(Base):
    roles = ["name", "start", "end", "base", "lat", "lon", "valid", "bearing", "dist"]
    frame = ((0, ("start", "base", "lat", "lon", "valid", "bearing", "dist")), (1, ("lat", "lon", "valid", "base")),
             (2, ("lat", "lon", "valid", "base")))
    WHAT = "azimuth and distance of a record"

    def link(self, r, h1, r1, h2, r2):
        """h1, h2: formulas that a next and a next but one record exist"""
        def inv(x):
            a = (r["lat"], r["lon"], x["lat"], x["lon"])
            return And(r["bearing"] == invazi(*a), r["dist"] == invs12(*a))
        zero = And(r["bearing"] == 0, r["dist"] == 0)
        f = zero
        if r1 is not None:
            g = zero
            if r2 is not None:
                g = z3.If(And(h2, r2["valid"], z3.Not(self.isb(r1["base"], "POINT", "C"))), inv(r2), zero)
            f = z3.If(h1, z3.If(r1["valid"], inv(r1), g), zero)
        return z3.If(r["valid"], f, zero)

    def links(self, V):
        return {"record -1 is not linked": self.link(V.rec(1), F, None, F, None),
                "record -2 is linked": Imp(V.N >= 2, self.link(V.rec(2), T, V.rec(1), F, None)),
                "record -3 is linked": Imp(V.N >= 3, self.link(V.rec(3), T, V.rec(2), T, V.rec(1)))} if len(V.seq) >= 3 else {}

    def mine_pre(self, V, key):
        c = self.links(V)
        c["last record is valid"] = V.rec(1)["valid"]
        c["last record is not valid"] = z3.Not(V.rec(1)["valid"])
        return c

    def mine_post(self, V0, V, key):
        return self.links(V)

    def sealed(self, V, j, absn):
        s = V.seq
        if j + 2 >= len(s):
            return []
        return [(self.WHAT, Imp(absn >= 0, self.link(s[j], T, s[j + 1], T, s[j + 2])))]

    def final(self, S, V, p):
        out = []
        s = V.seq
        k0, n = len(s) - V.m, len(s)
        for j in range(n):
            absn = V.n0 - k0 + j
            out.append((self.WHAT, Imp(absn >= 0, self.link(
                s[j], T if j + 1 < n else F, s[j + 1] if j + 1 < n else None,
                T if j + 2 < n else F, s[j + 2] if j + 2 < n else None))))
        return out + self.stable(S, V)


PROPS.update(C04=C04, C05=C05, C06=C06, C07=C07)
