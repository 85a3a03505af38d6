"""Executable reading of the property statements: an independent tokenizer and
classifier plus the numeric definitions.  Nothing here imports the code under test."""
import math
import string

UP = set(string.ascii_uppercase)
DG = set("0123456789")
DEFAULT_WS = " \n\t\r/"

BASES = ["UNKNOWN", "SLASH", "BREAK_START", "SPEED_VFR", "BREAK_END", "DCT", "STAY", "TRUNCATE", "C",
         "POINT", "ROUTE", "SID_STAR", "SPEED_ALTITUDE", "SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS",
         "TOO_LONG", "STAY_TIME", "SID", "STAR"]


def tokenize(text, ws=DEFAULT_WS):
    """Maximal runs of non-delimiters, and '/' on its own when it is a delimiter."""
    out = []
    i, n = 0, len(text)
    while i < n:
        if text[i] in ws:
            if text[i] == "/":
                out.append(("/", i, i + 1))
            i += 1
            continue
        j = i
        while j < n and text[j] not in ws:
            j += 1
        out.append((text[i:j], i, j))
        i = j
    return out


# ---- documented element formats: '@' a capital letter, '9' a digit, everything else literal.
# Listed by precedence: a text that fits several formats is the first one.
def _formats():
    f = []

    def add(base, sub, *forms):
        for x in forms:
            f.append((x, base, sub))
    add("SLASH", "SLASH", "/")
    add("BREAK_START", "VFR", "VFR")
    add("BREAK_START", "OAT", "OAT")
    add("BREAK_START", "IFPSTOP", "IFPSTOP")
    add("BREAK_END", "IFR", "IFR")
    add("BREAK_END", "GAT", "GAT")
    add("BREAK_END", "IFPSTART", "IFPSTART")
    add("DCT", "DCT", "DCT")
    add("TRUNCATE", "TRUNCATE", "T")
    add("C", "C", "C")
    add("SID", "SID_LITERAL", "SID")
    add("STAR", "STAR_LITERAL", "STAR")
    add("STAY", "STAY", "STAY9")
    add("STAY_TIME", "STAY_TIME", "<time>")
    speeds = [("M", "M999"), ("N", "N9999"), ("K", "K9999")]
    levels = [("F", "F999"), ("S", "S9999"), ("A", "A999"), ("M", "M9999")]
    for s, sf in speeds:
        add("SPEED_VFR", "SPEED_ALTITUDE_%sV" % s, sf + "VFR")
        for a, af in levels:
            add("SPEED_ALTITUDE", "SPEED_ALTITUDE_%s%s" % (s, a), sf + af)
            add("SPEED_ALTITUDE_PLUS", "SPEED_ALTITUDE_%s%s_P" % (s, a), sf + af + "PLUS")
            for b, bf in levels:
                add("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_%s%s%s" % (s, a, b), sf + af + bf)
    add("ROUTE", "NAT", "NAT@", "NAT@9")
    add("ROUTE", "PTS", "PTS9", "PTS@")
    add("POINT", "PRP", "@", "@@", "@@@", "@@@@@")
    add("POINT", "PRP_AERO", "@@@@")
    add("POINT", "PRP_BD", *["@" * k + "999999" for k in range(1, 6)])
    for ll, t in (("99", "DEG"), ("9999", "MIN")):
        lo = "999" if t == "DEG" else "99999"
        for ns in "NS":
            for ew in "EW":
                add("POINT", "LL_" + t, ll + ns + lo + ew)
                add("POINT", "LLBD_" + t, ll + ns + lo + ew + "999999")
    add("ROUTE", "ATS", "@9", "@@9", "@9@", "@99@", "@999@", "@99", "@999")
    add("ROUTE", "ATS_TURK", "@@@999")
    add("ROUTE", "ATS_OLD", "@@@9", "@@@99")
    add("ROUTE", "ATS", "@@9@", "@@99", "@@999", "@@99@", "@@999@")
    add("ROUTE", "ATS_RUS", "@@@@9", "@@@@99")
    add("SID_STAR", "STAR", "@@@9@", "@@@99@", "@@@@@9", "@@@@@99",
        "@@@@9@", "@@@@@9@", "@@@@@@9@", "@@@@@99@")
    return f


FORMATS = _formats()
MAX_LEN = 25
_by_len = {}
for _f in FORMATS:
    if _f[0] != "<time>":
        _by_len.setdefault(len(_f[0]), []).append(_f)


def _fits(form, text):
    for c, t in zip(form, text):
        if c == "@":
            if t not in UP:
                return False
        elif c == "9":
            if t not in DG:
                return False
        elif c != t:
            return False
    return True


_cache = {}


def classify(text):
    r = _cache.get(text)
    if r is None:
        r = _classify(text)
        if len(_cache) < 200000:
            _cache[text] = r
    return r


def _classify(text):
    if len(text) > MAX_LEN:
        return ("TOO_LONG", "UNKNOWN")
    if len(text) == 4 and all(c in DG for c in text):
        return ("STAY_TIME", "STAY_TIME") if text[:2] <= "23" and text[2:] <= "59" else ("UNKNOWN", "UNKNOWN")
    for form, b, s in _by_len.get(len(text), ()):
        if _fits(form, text):
            return (b, s)
    return ("UNKNOWN", "UNKNOWN")


# ---- speeds and levels
def split_speed(text):
    """('N0450', rest) of a speed/level element."""
    k = 4 if text[0] == "M" else 5
    return text[:k], text[k:]


def split_level(text):
    k = 4 if text[0] in "FA" else 5
    return text[:k], text[k:]


def level_m(level):
    """SI value (metres, rounded to nearest) denoted by a level text."""
    if level == "":
        return 0
    n = int(level[1:])
    if level[0] in "FA":
        return (n * 100 * 3048 + 5000) // 10000
    return n * 10


def speed_of_sound(alt):
    t = 15.0 - 0.00645 * min(alt, 11000)
    return 331.15 * math.sqrt((t + 273.15) / 273.15)


def speed_ms(speed, alt):
    """SI value (metres per second, NOT rounded) denoted by a speed text at a level of alt metres."""
    if speed == "":
        return 0.0
    n = int(speed[1:])
    if speed[0] == "N":
        return n * 0.514444
    if speed[0] == "K":
        return n * 0.2777778
    return n / 100.0 * (343.0 if alt == 0 else speed_of_sound(alt))


# ---- coordinates
def parse_ll(text, sub):
    """(lat, lon, lat_ok, lon_ok, bearing or None, distance) of a lat/long element."""
    if "DEG" in sub:
        lat, ns, lon, ew, rest = text[:2], text[2], text[3:6], text[6], text[7:]
        la, lo = float(lat), float(lon)
        laok, look = la <= 90, lo <= 180
    else:
        lat, ns, lon, ew, rest = text[:4], text[4], text[5:10], text[10], text[11:]
        la, lo = int(lat[:2]) + int(lat[2:]) / 60.0, int(lon[:3]) + int(lon[3:]) / 60.0
        laok = la <= 90 and int(lat[2:]) <= 59
        look = lo <= 180 and int(lon[3:]) <= 59
    if ns == "S":
        la = -la
    if ew == "W":
        lo = -lo
    if rest:
        return la, lo, laok, look, int(rest[:3]), int(rest[3:])
    return la, lo, laok, look, None, None


LL_SUBS = ("LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN")
NOROUTE_SUBS = LL_SUBS + ("PRP_BD",)
SPEEDLEVEL = ("SPEED_ALTITUDE", "SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS")
BREAKS = ("BREAK_START", "SPEED_VFR")
BREAK_RULES = {"VFR": "VFR", "OAT": "OAT", "IFPSTOP": "IFPS"}
