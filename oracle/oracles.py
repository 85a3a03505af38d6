"""One executable oracle per property: given what a user can observe of one run of the
real code, return a list of violations (empty = the property holds on this input)."""
import math
import re
import xml.etree.ElementTree as ET

import spec
from spec import LL_SUBS, NOROUTE_SUBS, SPEEDLEVEL, BREAKS, BREAK_RULES, split_speed, split_level

EPS = 1e-9


def tok_view(o):
    """Independent view of the elements: text, start, end, base, sub."""
    c = getattr(o, "_tv", None)
    return [t + spec.classify(t[0]) for t in spec.tokenize(o.text)]


class Ctx:
    """Everything the oracles share for one observation."""

    def __init__(self, o):
        self.o = o
        self.T = tok_view(o)
        self.n = len(self.T)
        self.at = {t[1]: i for i, t in enumerate(self.T)}
        self.R = o.recs
        self.E = o.errs
        self.ok = o.exc is None and len(o.errs) == 0
        if o.exc is None:
            # token index of each record: -1 for ADEP, n for ADES, None when untraceable
            N = len(self.R)
            self.pos = [self.at.get(r.start) for r in self.R]
            if N:
                self.pos[0] = -1
            if N > 1:
                self.pos[-1] = self.n

    def gap(self, k):
        """token indices strictly between record k and the next one (None if untraceable)"""
        a = self.pos[k]
        b = self.pos[k + 1] if k + 1 < len(self.R) else self.n
        if a is None or b is None:
            return None
        return range(a + 1, b)


def isbrk(r):
    return r.base in BREAKS


# ------------------------------------------------------------------ C03
def c03(o, x):
    out = []
    if [t[:3] for t in o.toks] != [t[:3] for t in x.T]:
        return out          # tokenizer trouble is C01's business
    for t, s in zip(o.toks, x.T):
        if t[3:] != s[3:]:
            out.append("element %r classified %s/%s, documented type is %s/%s" % (t[0], t[3], t[4], s[3], s[4]))
    return out


# ------------------------------------------------------------------ C04
def c04(o, x):
    out = []
    for k, r in enumerate(x.R):
        if r.alt != "":
            if not re.fullmatch("[FA][0-9]{3}|[SM][0-9]{4}", r.alt):
                out.append("record %d %r has level text %r" % (k, r.name, r.alt))
                continue
        if r.alt_si != spec.level_m(r.alt):
            out.append("record %d %r level %r stored as %r m, denotes %r m"
                       % (k, r.name, r.alt, r.alt_si, spec.level_m(r.alt)))
        if r.cto in ("", "PLUS"):
            if r.cto_si != 0:
                out.append("record %d %r has the climb target %r, which is no level, stored as %r m" % (k, r.name, r.cto, r.cto_si))
        else:
            if not re.fullmatch("[FA][0-9]{3}|[SM][0-9]{4}", r.cto):
                out.append("record %d %r has cruise climb target %r" % (k, r.name, r.cto))
            elif r.cto_si != spec.level_m(r.cto):
                out.append("record %d %r cruise climb target %r stored as %r m, denotes %r m"
                           % (k, r.name, r.cto, r.cto_si, spec.level_m(r.cto)))
    # flight levels are multiples of five, and only those that are not are reported
    for e in x.E:
        if e.err == spec_msg(40, e.name) and e.start in x.at:
            b, s = spec.classify(e.name)
            if b not in SPEEDLEVEL or not bad_levels(e.name, b):
                out.append("element %r reported as a bad flight level" % e.name)
    if x.ok:
        for i, r in enumerate(x.R):
            g = x.gap(i)
            if g is None or isbrk(r):
                continue
            for j in g:
                t = x.T[j]
                if t[3] in SPEEDLEVEL and bad_levels(t[0], t[3]):
                    out.append("flight level of %r is not a multiple of five and was not reported" % t[0])
    return out


def spec_msg(k, name):
    return {40: "The flight level '!' must end in a zero or 5",
            41: "Field 15 is empty",
            42: "Latitude degree value must be 0 to 90 instead of '!'",
            43: "Latitude degree/minute value must be 0 to 9000 with minutes < 60 instead of '!'",
            44: "Longitude degree value must be 0 to 180 instead of '!'",
            45: "Longitude degree/minute value must be 0 to 18000 with minutes < 60 instead of '!'",
            46: "Bearing degree value must be 0 to 360 instead of '!'"}[k].replace("!", name)


def levels_of(text, base):
    """(first level, cruise-to) texts of a speed/level element"""
    _, rest = split_speed(text)
    a, rest = split_level(rest)
    return a, rest


def bad_levels(text, base):
    a, b = levels_of(text, base)
    return any(v[:1] == "F" and int(v[1:]) % 5 for v in (a, b) if v not in ("", "PLUS"))


# ------------------------------------------------------------------ C05
def c05(o, x):
    out = []
    for k, r in enumerate(x.R):
        if r.speed != "" and not re.fullmatch("[NK][0-9]{4}|M[0-9]{3}", r.speed):
            out.append("record %d %r has speed text %r" % (k, r.name, r.speed))
            continue
        if r.speed and r.speed[0] == "M" and r.alt_si != spec.level_m(r.alt):
            continue        # level trouble is C04's business
        v = spec.speed_ms(r.speed, spec.level_m(r.alt))
        if not (r.speed_si == int(r.speed_si) and abs(r.speed_si - v) <= 0.5 + 1e-6):
            out.append("record %d %r speed %r at level %r stored as %r m/s, denotes %.4f m/s"
                       % (k, r.name, r.speed, r.alt, r.speed_si, v))
    return out


# ------------------------------------------------------------------ C06
def c06(o, x):
    from geographiclib.geodesic import Geodesic
    out = []
    errs = {}
    for e in x.E:
        errs.setdefault(e.start, []).append(e.err)
    for k, r in enumerate(x.R):
        b, s = spec.classify(r.name)
        if k in (0, len(x.R) - 1) and r.end == 0:
            s = "PRP_AERO"
        if s not in LL_SUBS:
            if r.valid or r.lat != 0 or r.lon != 0:
                out.append("record %d %r has coordinates %r %r" % (k, r.name, r.lat, r.lon))
            want = []
            if s == "PRP_BD" and int(r.name[-6:-3]) > 360:
                want = [46]
        else:
            la, lo, laok, look, brg, dist = spec.parse_ll(r.name, s)
            want = ([] if laok else [42 if "DEG" in s else 43]) + ([] if look else [44 if "DEG" in s else 45])
            if brg is not None:
                if brg > 360:
                    want.append(46)
            if not r.valid:
                out.append("record %d %r not flagged as having coordinates" % (k, r.name))
            if laok:
                if brg is not None:
                    g = Geodesic.WGS84.Direct(la, lo, brg, dist * 1852.0)
                    la, lo = g["lat2"], g["lon2"]
                if not (abs(r.lat - la) < EPS and abs(r.lon - lo) < EPS):
                    out.append("record %d %r decoded as %r %r, denotes %r %r" % (k, r.name, r.lat, r.lon, la, lo))
        got = [c for c in (42, 43, 44, 45, 46) if spec_msg(c, r.name) in errs.get(r.start, ())] if r.end else []
        if got != want:
            out.append("record %d %r: range errors reported %r, expected %r" % (k, r.name, got, want))
    return out


# ------------------------------------------------------------------ C07
def c07(o, x):
    from geographiclib.geodesic import Geodesic
    out = []
    R = x.R
    pt = ("POINT", "C")
    for k, r in enumerate(R):
        exp = (0.0, 0.0)
        nxt = None
        if r.valid and k + 1 < len(R):
            if R[k + 1].valid:
                nxt = R[k + 1]
            elif R[k + 1].base not in pt and k + 2 < len(R) and R[k + 2].valid:
                nxt = R[k + 2]
        if nxt is not None:
            if max(abs(r.lat), abs(nxt.lat)) > 90 or math.isnan(r.lat) or math.isnan(nxt.lat):
                continue
            g = Geodesic.WGS84.Inverse(r.lat, r.lon, nxt.lat, nxt.lon)
            exp = (g["azi1"], g["s12"])
        if not (abs(r.bearing - exp[0]) < 1e-7 and abs(r.dist - exp[1]) < 1e-4):
            out.append("record %d %r has azimuth/distance %r/%r, expected %r/%r"
                       % (k, r.name, r.bearing, r.dist, exp[0], exp[1]))
    return out


# ------------------------------------------------------------------ C09
def c09(o, x):
    out = []
    R = x.R
    if len(R) < 2:
        return ["only %d records" % len(R)]
    for r, nm in ((R[0], "ADEP"), (R[-1], "ADES")):
        if (r.name, r.start, r.end, r.base, r.sub) != (nm, 0, 0, "POINT", "PRP_AERO"):
            out.append("%s record is %r" % (nm, (r.name, r.start, r.end, r.base, r.sub)))
    for k, r in enumerate(R[1:-1]):
        if r.end == 0:
            out.append("interior record %d %r is an artificial aerodrome record" % (k + 1, r.name))
    if o.verdict is not (len(x.E) == 0):
        out.append("verdict %r with %d errors" % (o.verdict, len(x.E)))
    if x.n == 0:
        if not (len(R) == 2 and len(x.E) == 1 and x.E[0].err == spec_msg(41, "NULL")):
            out.append("empty field: %d records, errors %r" % (len(R), [e.err for e in x.E]))
    else:
        if R[-1].rules != R[-2].rules:
            out.append("ADES rules %r, previous record %r" % (R[-1].rules, R[-2].rules))
        if x.ok and x.T[0][3] not in ("SPEED_ALTITUDE", "SPEED_VFR"):
            out.append("accepted although it starts with %r" % x.T[0][0])
        if x.n == 1 and x.ok and x.T[0][3] == "SPEED_ALTITUDE":
            out.append("accepted without any route description")
    return out


# ------------------------------------------------------------------ C10
def c10(o, x):
    out = []
    prev = -1
    for k, r in enumerate(x.R):
        if k == 0 or k == len(x.R) - 1:
            continue
        i = x.at.get(r.start)
        if i is None:
            out.append("record %d %r starts at %d where no element starts" % (k, r.name, r.start))
            continue
        t = x.T[i]
        nm = "VFR" if t[3] == "SPEED_VFR" else t[0]
        if (r.name, r.end) != (nm, t[2]):
            out.append("record %d is %r [%d,%d), element there is %r [%d,%d)"
                       % (k, r.name, r.start, r.end, nm, t[1], t[2]))
        if i <= prev:
            out.append("record %d %r at %d is out of source order or repeated" % (k, r.name, r.start))
        prev = max(prev, i)
    return out


# ------------------------------------------------------------------ C11
MUST = ("UNKNOWN", "BREAK_START", "SPEED_VFR", "DCT", "POINT", "ROUTE", "SID_STAR", "SID", "STAR", "TOO_LONG")


def in_break(x):
    """token indices that the break text of some record accounts for"""
    s = set()
    for k, r in enumerate(x.R):
        if r.brk != "" and x.pos[k] is not None and k < len(x.R) - 1:
            i = x.pos[k] + 1
            words = r.brk.split(" ")
            for w in words:
                if i < x.n and x.T[i][0] == w:
                    s.add(i)
                    i += 1
                else:
                    break
    return s


def c11(o, x):
    out = []
    recs = {r.start for r in x.R[1:-1]}
    errs = {e.start for e in x.E if e.end}
    brk = in_break(x)
    for i, t in enumerate(x.T):
        if t[1] in recs or t[1] in errs or i in brk:
            continue
        if t[3] in MUST:
            out.append("element %r (%d of %d) is in no record, break text or error" % (t[0], i + 1, x.n))
        elif x.ok:
            nx = x.T[i + 1][3] if i + 1 < x.n else None
            pv = x.T[i - 1][3] if i else None
            good = {"SLASH": nx in SPEEDLEVEL + ("SPEED_VFR", "POINT", "C", "STAY_TIME"),
                    "BREAK_END": False, "STAY": nx == "SLASH", "STAY_TIME": pv == "SLASH",
                    "TRUNCATE": i == x.n - 1, "C": nx == "SLASH"}.get(t[3], i == 0 or pv == "SLASH")
            if not good:
                out.append("element %r (%d of %d) of an accepted field has no effect" % (t[0], i + 1, x.n))
    return out


# ------------------------------------------------------------------ C12
def c12(o, x):
    out = []
    if not x.ok:
        return out
    R = x.R
    for k, r in enumerate(R[:-1]):
        g = x.gap(k)
        if g is None:
            return out
        if k + 1 < len(R) - 1 and R[k + 1].base == "SPEED_VFR" and not isbrk(r):
            # a speed/VFR change applies to the point before it
            sp, _ = split_speed(x.T[x.pos[k + 1]][0])
            exp = (sp, "F050")
        elif r.base == "SPEED_VFR":
            sp, _ = split_speed(x.T[x.pos[k]][0])
            exp = (sp, "F050")
        else:
            m = [j for j in g if x.T[j][3] in SPEEDLEVEL] if not isbrk(r) else []
            if m:
                sp, rest = split_speed(x.T[m[-1]][0])
                exp = (sp, split_level(rest)[0])
            else:
                exp = (R[k - 1].speed, R[k - 1].alt) if k else ("", "")
        if (r.speed, r.alt) != exp:
            out.append("record %d %r carries %s/%s, in force is %s/%s" % ((k, r.name, r.speed, r.alt) + exp))
        sa = [j for j in g if x.T[j][3] in ("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS")] if not isbrk(r) else []
        cexp = levels_of(x.T[sa[-1]][0], None)[1] if sa else ""
        if r.cto != cexp:
            out.append("record %d %r cruise climb target %r, expected %r" % (k, r.name, r.cto, cexp))
    if (R[-1].speed, R[-1].alt) != ("", ""):
        out.append("ADES carries %s/%s" % (R[-1].speed, R[-1].alt))
    return out


# ------------------------------------------------------------------ C13
def c13(o, x):
    out = []
    R = x.R
    if x.n == 0 or len(R) < 2:
        return out
    rules = [r.rules for r in R]
    first = rules[0]
    if first == "VFR":
        exp = "Z" if "IFR" in rules else "V"
    else:
        exp = "Y" if "VFR" in rules else "I"
    if o.derived != exp:
        out.append("derived flight rules %r for record rules %r, expected %r" % (o.derived, rules, exp))
    for r in R:
        if r.rules not in ("", "IFR", "VFR", "OAT", "IFPS"):
            out.append("record %r has flight rules %r" % (r.name, r.rules))
    if x.ok:
        for k, r in enumerate(R[:-1]):
            if k == 0:
                e = "VFR" if x.T[0][3] == "SPEED_VFR" else "IFR"
            elif r.base == "BREAK_START":
                e = BREAK_RULES.get(r.sub)
            elif r.base == "SPEED_VFR":
                e = "VFR"
            else:
                e = "IFR"
            if r.rules != e:
                out.append("record %d %r has rules %r, expected %r" % (k, r.name, r.rules, e))
        if R[-1].rules != R[-2].rules:
            out.append("ADES rules %r, previous %r" % (R[-1].rules, R[-2].rules))
    return out


# ------------------------------------------------------------------ C14
def c14(o, x):
    out = []
    for k, r in enumerate(x.R):
        if not isbrk(r):
            if r.brk != "":
                out.append("record %d %r is no break but has break text %r" % (k, r.name, r.brk))
            continue
        g = x.gap(k)
        if g is None:
            continue
        words = [x.T[j][0] for j in g]
        full = " ".join(words)
        if x.ok:
            if r.brk != full:
                out.append("break text of record %d %r is %r, elements there are %r" % (k, r.name, r.brk, full))
        else:
            m = len(r.brk.split(" ")) if r.brk else 0
            if r.brk != " ".join(words[:m]):
                out.append("break text of record %d %r is %r, elements there are %r" % (k, r.name, r.brk, full))
    return out


# ------------------------------------------------------------------ C15
NEXT_OK = {  # record base -> record bases that may follow it in an accepted route (ADES excluded)
    "POINT": {"POINT", "C", "DCT", "ROUTE", "BREAK_START", "SPEED_VFR", "STAR"},
    "C": {"POINT", "C", "DCT", "ROUTE", "BREAK_START", "SPEED_VFR", "STAR"},
    "ADEP": {"POINT", "DCT", "SID", "STAR", "SPEED_VFR"},
    "DCT": {"POINT", "C"},
    "ROUTE": {"POINT", "C"},
    "SID": {"POINT", "ROUTE", "STAR"},
    "STAR": set(),
    "BREAK_START": {"POINT"},
    "SPEED_VFR": {"POINT"},
}


def c15(o, x):
    out = []
    if not x.ok:
        return out
    R = x.R
    for k in range(len(R) - 2):
        a, b = R[k], R[k + 1]
        ka = "ADEP" if k == 0 else a.base
        if b.base not in NEXT_OK.get(ka, ()):
            out.append("accepted: %s %r followed by %s %r" % (ka, a.name, b.base, b.name))
        elif a.sub in NOROUTE_SUBS and b.base == "ROUTE":
            out.append("accepted: ATS route %r after the point %r" % (b.name, a.name))
        elif a.base == "ROUTE" and b.sub in NOROUTE_SUBS:
            out.append("accepted: point %r after the ATS route %r" % (b.name, a.name))
    if x.n and x.T[0][3] not in ("SPEED_ALTITUDE", "SPEED_VFR"):
        out.append("accepted although it starts with %r" % x.T[0][0])
    brk = in_break(x)
    for i, t in enumerate(x.T):
        if i in brk:
            continue
        if t[3] in ("UNKNOWN", "TOO_LONG"):
            out.append("accepted although %r is %s" % (t[0], t[3]))
        if t[3] == "TRUNCATE" and i != x.n - 1:
            out.append("accepted although elements follow the truncation indicator")
    return out


# ------------------------------------------------------------------ C17
def c17(o, x):
    out = []
    if any(not xml_legal(c) for c in o.text):
        return out
    try:
        s = o.ers.as_xml()
    except Exception as e:                                       # noqa: BLE001
        return ["as_xml raised %s: %s" % (type(e).__name__, e)]
    try:
        root = ET.fromstring(s)
    except ET.ParseError as e:
        return ["not well formed: %s" % e]
    kids = list(root)
    if root.tag != "ers":
        out.append("root element is %r" % root.tag)
    dr = [c for c in kids if c.tag == "derived_flight_rules"]
    if len(dr) != 1 or (dr[0].text or "") != (o.derived or ""):
        out.append("derived flight rules element wrong")
    er = [c for c in kids if c.tag == "ers_record"]
    ee = [c for c in kids if c.tag == "ers_errors"]
    if len(kids) != len(dr) + len(er) + len(ee):
        out.append("unexpected elements in XML")
    if len(ee) != (1 if x.E else 0):
        out.append("%d error sections for %d errors" % (len(ee), len(x.E)))
    lists = [(er, x.R, "break_text", "brk", o.ers.get_all_elements())]
    if ee:
        if any(c.tag != "error_record" for c in ee[0]):
            out.append("unexpected elements in error section")
        lists.append((list(ee[0]), x.E, "error_text", "err", o.ers.get_all_errors()))
    for xs, rs, an, at, raw in lists:
        if len(xs) != len(rs):
            out.append("%d records in XML, %d in the sequence" % (len(xs), len(rs)))
            continue
        for e, r, w in zip(xs, rs, raw):
            exp = {"start_index": str(r.start), "end_index": str(r.end),
                   "base_type": str(int(w.get_base_type())), "sub_type": str(int(w.get_sub_type())),
                   "speed": r.speed, "speed_si": "%.2f" % r.speed_si, "altitude": r.alt,
                   "altitude_si": "%.2f" % r.alt_si, "bearing": "%.2f" % r.bearing, "distance": "%.2f" % r.dist,
                   "flight_rules": r.rules, "stay_time": str(r.stay), "altitude_cruise_to": r.cto,
                   "altitude_cruise_to_si": "%.2f" % r.cto_si, "latitude": "%.2f" % r.lat,
                   "longitude": "%.2f" % r.lon, an: getattr(r, at)}
            if dict(e.attrib) != exp:
                d = [k for k in set(exp) | set(e.attrib) if exp.get(k) != e.attrib.get(k)]
                out.append("XML of %r differs in %s: %r" % (r.name, sorted(d), {k: e.attrib.get(k) for k in d}))
            if (e.text or "") != r.name or len(e):
                out.append("XML text %r of record %r" % (e.text, r.name))
    return out


def xml_legal(c):
    n = ord(c)
    return n in (9, 10) or 0x20 <= n <= 0xD7FF and n != 0x7f or 0xE000 <= n <= 0xFFFD or 0x10000 <= n


# ------------------------------------------------------------------ C18
def c18(o, x):
    import observe
    out = []
    if x.n == 0:
        return out
    msgs = [m for m in observe.CATALOGUE.values()]
    for e in x.E:
        i = x.at.get(e.start)
        if i is None:
            out.append("error %r at %d where no element starts" % (e.err, e.start))
            continue
        t = x.T[i]
        ot = o.toks[i] if i < len(o.toks) else t
        if (e.name, e.end) != (t[0], t[2]) or (e.base, e.sub) != ot[3:]:
            out.append("error record %r [%d,%d) %s/%s is not the element %r" % (e.name, e.start, e.end, e.base, e.sub, t))
        if not any(m and e.err == m.replace("!", e.name) for m in msgs):
            out.append("error text %r of element %r is no catalogue message" % (e.err, e.name))
    return out


# ------------------------------------------------------------------ C19
def c19(o, x):
    out = []
    for r in x.R + x.E:
        if not (isinstance(r.stay, int) and 0 <= r.stay <= 1439):
            out.append("record %r has stay time %r" % (r.name, r.stay))
    if x.ok:
        for k, r in enumerate(x.R):
            g = x.gap(k) if k < len(x.R) - 1 else ()
            if g is None:
                continue
            exp = 0
            if not isbrk(r):
                for j in g:
                    if x.T[j][3] == "STAY_TIME":
                        exp = int(x.T[j][0][:2]) * 60 + int(x.T[j][0][2:])
            if r.stay != exp:
                out.append("record %d %r has stay time %r min, given is %r min" % (k, r.name, r.stay, exp))
    return out


# ------------------------------------------------------------------ C20
def c20(o, x):
    out = []
    ers, R = o.ers, o.ers.get_all_elements()
    n = len(R)
    if ers.get_number_of_elements() != n or ers.get_number_of_errors() != len(ers.get_all_errors()):
        out.append("counts disagree with the lists")
    for i in list(range(-n - 2, n + 3)) + [10 ** 6, -10 ** 6]:
        try:
            g = ers.get_element_at(i)
        except Exception as e:                                   # noqa: BLE001
            out.append("get_element_at(%d) of %d raised %s" % (i, n, type(e).__name__))
            continue
        w = R[i] if 0 <= i < n else None
        if g is not w:
            out.append("get_element_at(%d) of %d wrong" % (i, n))
    if ers.get_first_element() is not (R[0] if n else None):
        out.append("first element wrong")
    if ers.get_last_element() is not (R[-1] if n else None):
        out.append("last element wrong")
    if ers.get_previous_to_last_element() is not (R[-2] if n > 1 else None):
        out.append("previous to last element wrong")
    before = list(R)
    rec = type(R[0])("QQQQ", 3, 7) if R else None
    if rec is not None and not out:
        ers.append_element(rec)
        after = ers.get_all_elements()
        if len(after) != n + 1 or after[-1] is not rec or any(a is not b for a, b in zip(before, after)) or \
                ers.get_last_element() is not rec or ers.get_element_at(n) is not rec or \
                ers.get_element_at(n + 1) is not None or ers.get_number_of_elements() != n + 1:
            out.append("an appended element is not the last, or others moved")
    return out


ORACLES = {"C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C09": c09, "C10": c10, "C11": c11,
           "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C17": c17, "C18": c18, "C19": c19, "C20": c20}
