"""Input generators for the concrete cross-check / counterexample search (bounded by construction)."""
import itertools
import random
import string

import spec

REP = {'UNK': '?X', 'SL': '/', 'VFR': 'VFR', 'OAT': 'OAT', 'IFPSTOP': 'IFPSTOP', 'SV': 'N0200VFR', 'IFR': 'IFR',
       'GAT': 'GAT', 'IFPSTART': 'IFPSTART', 'DCT': 'DCT', 'STAY': 'STAY1', 'T': 'T', 'C': 'C', 'P': 'ABC',
       'LL': '12N013E', 'LLBD': '1234N01234E090100', 'BD': 'ABC123050', 'RT': 'A8', 'SS': 'ABC1A',
       'SA': 'N0450F350', 'SAA': 'N0450F350F370', 'SAP': 'M080F350PLUS', 'LONG': 'X' * 26, 'TIME': '0130',
       'SID': 'SID', 'STAR': 'STAR'}
REP2 = list(REP.values()) + ['1234N01234E', 'N0450F351', 'ABC123400', '99N199W', 'K0800M0840']
PREFIXES = (('N0450F350',), ('N0200VFR',), ())
ODD = ['é', 'ß', '١٢٣', 'N٠٤٥٠F350', '12N٠13E', 'İ', '&', '<', '"', "'", '>', '\u00a0', '\ud7ff', '\U0001f600',
       'vfr', 'ABC-', '!', '!!', 'A!B', '{0}', '%s', '\\', 'ABC.', '-', '+1', '_', ',', '0', '00', '2359', '2400',
       '1260', '0060', '0000', '2360', '1960', '3000', 'M082', 'N0450', 'F350', 'PLUS', 'ADEP', 'ADES', 'NULL',
       'X' * 24, 'X' * 25, 'X' * 26, 'X' * 27, '1' * 25, '1' * 26, 'A1' * 13, 'N0450F350F370' * 2]
SEPS = [' ', ' ', ' ', '  ', '\n', '\t', '\r', ' \n ']


def inst(form, rnd):
    if form == "<time>":
        return "%02d%02d" % (rnd.randrange(24), rnd.randrange(60))
    return "".join(rnd.choice(string.ascii_uppercase) if c == "@" else rnd.choice(string.digits) if c == "9" else c
                   for c in form)


FORMS = [f[0] for f in spec.FORMATS]
BYBASE = {}
for _f in spec.FORMATS:
    BYBASE.setdefault(_f[1], []).append(_f[0])
BASES = list(BYBASE)


def token(rnd, focus=None):
    r = rnd.random()
    if focus and r < 0.35:
        return rnd.choice(focus)
    if r < 0.55:
        return rnd.choice(REP2)
    if r < 0.9:
        b = rnd.choice(BASES)
        return smart(inst(rnd.choice(BYBASE[b]), rnd), rnd)
    if r < 0.97:
        return rnd.choice(ODD)
    t = inst(rnd.choice(FORMS), rnd)
    return mutate(t, rnd)


def smart(t, rnd):
    """bias numeric content to boundary values now and then"""
    b, s = spec.classify(t)
    if s in spec.LL_SUBS and rnd.random() < 0.75:
        ok = rnd.random() < 0.7
        d = rnd.choice([0, 1, 12, 89, 90] + ([] if ok else [91, 99]))
        o = rnd.choice([0, 1, 13, 179, 180] + ([] if ok else [181, 999]))
        m = 0 if d >= 90 and ok else rnd.choice([0, 1, 30, 59] + ([] if ok else [60, 99]))
        m2 = 0 if o >= 180 and ok else rnd.choice([0, 1, 30, 59] + ([] if ok else [60, 99]))
        ns, ew = rnd.choice("NS"), rnd.choice("EW")
        t = "%02d%s%03d%s" % (d, ns, o, ew) if "DEG" in s else "%02d%02d%s%03d%02d%s" % (d, m, ns, o, m2, ew)
        if "LLBD" in s:
            t += "%03d%03d" % (rnd.choice([0, 90, 270, 359, 360] + ([] if ok else [361, 999])), rnd.choice([0, 1, 50, 999]))
    elif s == "PRP_BD" and rnd.random() < 0.7:
        t = t[:-6] + "%03d%03d" % (rnd.choice([0, 1, 359, 360, 361]), rnd.choice([0, 1, 999]))
    elif b in spec.SPEEDLEVEL and rnd.random() < 0.75:
        out = list(t)
        for i, c in enumerate(t):
            if c == "F" and t[i + 1:i + 4].isdigit():
                out[i + 3] = rnd.choice("05")
        t = "".join(out)
    return t


def mutate(t, rnd):
    i = rnd.randrange(len(t) + 1)
    k = rnd.randrange(3)
    c = rnd.choice(string.ascii_uppercase + string.digits + "az.é٣")
    if k == 0 and i < len(t):
        return t[:i] + c + t[i + 1:]
    if k == 1 and len(t) > 1:
        return t[:i] + t[i + 1:]
    return t[:i] + c + t[i:]


# --- a walk that mostly stays inside the accepted language, so that long accepted fields occur
def walk(rnd, n, focus=None):
    p = lambda: rnd.choice(["ABC", "B", "ABCDE", "ABCD", smart("12N013E", rnd), smart("1234N01234E", rnd),
                            smart("1234N01234E090100", rnd), smart("12N013E090100", rnd), smart("ABC123050", rnd)]
                           + [f for f in (focus or []) if spec.classify(f)[0] == "POINT"])
    lev = lambda: rnd.choice(["F350", "F%02d%s" % (rnd.randrange(100), rnd.choice("05")), "A%03d" % rnd.randrange(1000),
                              "S%04d" % rnd.randrange(10000), "M%04d" % rnd.randrange(10000)])
    spd = lambda: rnd.choice(["N0450", "N%04d" % rnd.randrange(10000), "K%04d" % rnd.randrange(10000),
                              "M%03d" % rnd.randrange(1000)])
    out = [spd() + lev()] if rnd.random() < 0.85 else [spd() + "VFR"]
    vfr = out[0].endswith("VFR")
    first = True
    pt = None
    while len(out) < n:
        if vfr:
            for _ in range(rnd.randrange(4)):
                out.append(rnd.choice(["ABC", "DCT", "VFR", "A8", "?", "IFR", "T", "/", "C", "GAT", "SID", "DEF"]))
            out += ["IFR", p(), "/", spd() + (lev() if rnd.random() < 0.85 else "VFR")]
            vfr = out[-1].endswith("VFR")
            pt, first = "P", False
            continue
        r = rnd.random()
        if first:
            first = False
            if r < 0.25:
                out.append(rnd.choice(["SID", "ABC1A", "ABCDE9X"]))
                if rnd.random() < 0.5:
                    out.append("A8")
            elif r < 0.4:
                out.append("DCT")
            out.append(p())
            continue
        if r < 0.25:
            q = p()
            out += ["A%d" % rnd.randrange(10), rnd.choice(["ABC", "DEF", "ABCD"]) if rnd.random() < .9 else q]
        elif r < 0.38:
            out += ["DCT", p()]
        elif r < 0.5:
            out += [p()]
        elif r < 0.62:
            out += ["/", spd() + lev()]
            out += ["DCT", p()] if rnd.random() < .5 else [p()]
        elif r < 0.72:
            out += ["C", "/", p(), "/", spd() + lev() + (lev() if rnd.random() < .6 else "PLUS")]
            out += ["DCT", p()] if rnd.random() < .5 else [p()]
        elif r < 0.78:
            out += ["STAY%d" % rnd.randrange(10), "/", "%02d%02d" % (rnd.randrange(24), rnd.randrange(60)), p()]
        elif r < 0.86:
            out += ["/", spd() + "VFR"]
            vfr = True
        elif r < 0.96:
            k = rnd.choice([("VFR", "IFR"), ("OAT", "GAT"), ("IFPSTOP", "IFPSTART")])
            out.append(k[0])
            for _ in range(rnd.randrange(4)):
                out.append(rnd.choice(["ABC", "DCT", "VFR", "A8", "?", "IFR", "T", "/", "C", "GAT", "SID", "DEF",
                                       "IFPSTART", "OAT", "N0450F350", "0130", "STAY1"]))
            if rnd.random() < 0.9:
                out += [k[1], p()]
                if k[0] == "VFR":
                    out += ["/", spd() + (lev() if rnd.random() < .85 else "VFR")]
                    vfr = out[-1].endswith("VFR")
        else:
            out.append("C")
        if rnd.random() < 0.03:
            out.append(token(rnd, focus))
    r = rnd.random()
    if not vfr:
        if r < 0.2:
            out.append(rnd.choice(["STAR", "ABC1A"]))
        elif r < 0.3:
            out.append("T")
    return out


def join(toks, rnd=None):
    if rnd is None or rnd.random() < 0.5:
        s = " ".join(toks)
    else:
        s = ""
        for i, t in enumerate(toks):
            if i:
                if (t == "/" or toks[i - 1] == "/") and rnd.random() < 0.7:
                    pass
                else:
                    s += rnd.choice(SEPS)
            s += t
        s = rnd.choice(["", " ", "\n"]) + s + rnd.choice(["", " ", "\n"])
    return s


def exhaustive(L, alphabet=REP2, prefixes=PREFIXES):
    for p in prefixes:
        for k in range(L + 1):
            for seq in itertools.product(alphabet, repeat=k):
                yield " ".join(p + seq)


def random_texts(seed, count, focus=None):
    rnd = random.Random(seed)
    for _ in range(count):
        r = rnd.random()
        if r < 0.5:
            toks = walk(rnd, rnd.choice([2, 3, 5, 8, 12, 20]), focus)
            while rnd.random() < 0.35 and toks:
                i = rnd.randrange(len(toks))
                k = rnd.randrange(3)
                if k == 0:
                    toks[i] = token(rnd, focus)
                elif k == 1:
                    del toks[i]
                else:
                    toks.insert(i, token(rnd, focus))
        else:
            toks = [token(rnd, focus) for _ in range(rnd.choice([1, 2, 3, 4, 5, 6, 8, 12]))]
            if rnd.random() < 0.7:
                toks.insert(0, rnd.choice(["N0450F350", "M082F350", "N0200VFR"]))
        yield join(toks, rnd)


def all_forms(seed, per=2, ctx=True):
    """every documented format, alone and in context, and one-character mutations of it"""
    rnd = random.Random(seed)
    for f in FORMS:
        for _ in range(per):
            t = inst(f, rnd)
            yield t
            yield "N0450F350 ABC " + t + " DEF"
            yield "N0450F350 ABC/" + t + " DEF"
            yield "N0450F350 ABC C/GHI/" + t + " DEF"
            yield "N0450F350 ABC A8 " + t
            yield "N0450F350 ABC VFR IFR DEF/" + t + " GHI"
            yield mutate(t, rnd)
            yield "N0450F350 " + mutate(t, rnd)


def levels(step=1):
    for k in "FA":
        for n in range(0, 1000, step):
            yield "%s%03d" % (k, n)
    for k in "SM":
        for n in range(0, 10000, step * 3 + (4 if step == 1 else 0)):
            yield "%s%04d" % (k, n)


def level_texts(thorough=False):
    for i, l in enumerate(levels(1)):
        s = ("N0450", "M082", "K0800")[i % 3]
        yield "%s%s ABC DEF/%s%s GHI" % (s, l, s, l)
        yield "N0450F350 ABC C/DEF/%s%s%s GHI" % (s, l, ("F350", "S1130", "A045", "M0840")[i % 4])
        yield "N0450F350 ABC C/DEF/%s%s%s GHI" % (s, ("F350", "S1130", "A045", "M0840")[i // 3 % 4], l)
        if i % 7 == 0:
            yield "N0450F350 ABC C/DEF/%s%sPLUS GHI" % (s, l)
    if thorough:
        for k in "SM":
            for n in range(10000):
                l = "%s%04d" % (k, n)
                for s in ("N0450", "M082", "K0800"):
                    yield "%s%s ABC C/DEF/%s%s%s GHI" % (s, l, s, l, l)


def speed_texts(thorough=False):
    st = 1 if thorough else 7
    for k in "NK":
        for n in itertools.chain(range(0, 1300), range(1300, 10000, st)):
            yield "%s%04dF350 ABC/%s%04dVFR" % (k, n, k, 9999 - n)
    ls = ["F000", "F001", "F005", "F050", "F100", "F350", "F360", "F361", "F365", "F999", "A000", "A045", "A500",
          "S0000", "S0001", "S1099", "S1100", "S1101", "S9999", "M0000", "M0840", "M1101", "M5000"]
    for n in range(0, 1000, 1):
        for l in (ls if thorough else [ls[(n * 3 + j) % len(ls)] for j in range(4)]):
            yield "M%03d%s ABC C/DEF/M%03d%sF400 GHI/M%03dVFR" % (n, l, 999 - n, l, n)


def ll_texts(thorough=False, seed=1):
    rnd = random.Random(seed)
    ctx = ["N0450F350 %s DCT %s", "N0450F350 %s ABC %s", "N0450F350 ABC A8 %s DCT %s", "N0450F350 %s %s",
           "N0450F350 ABC C/%s/N0450F350F370 %s", "N0200VFR IFR %s/N0450F350 %s", "N0200VFR IFR %s/N0100VFR IFR %s",
           "N0450F350 ABC OAT GAT %s DCT %s"]
    k = 0

    def emit(t):
        nonlocal k
        k += 1
        o = rnd.choice(["12N013E", "5530S17959W", "00N000E", "3000N00000W090500", "90S180W", t])
        c = ctx[k % len(ctx)]
        return c % ((t, o) if k // len(ctx) % 2 else (o, t))
    for d in range(100):
        for ns in "NS":
            yield emit("%02d%s%03d%s" % (d, ns, rnd.randrange(181), rnd.choice("EW")))
    for d in range(0, 1000):
        yield emit("%02d%s%03d%s" % (rnd.randrange(91), rnd.choice("NS"), d, "EW"[d % 2]))
    for d in range(0, 10000, 1 if thorough else 7):
        yield emit("%04d%s%03d%02d%s" % (d, "NS"[d % 2], rnd.randrange(180), rnd.randrange(60), rnd.choice("EW")))
    for m in range(100):
        for d in (0, 1, 45, 89, 90, 91):
            yield emit("%02d%02d%s%03d00%s" % (d, m, "NS"[m % 2], rnd.randrange(180), rnd.choice("EW")))
        for d in (0, 1, 99, 179, 180, 181):
            yield emit("1200%s%03d%02d%s" % (rnd.choice("NS"), d, m, "EW"[m % 2]))
    for d in range(0, 100000, 7 if thorough else 97):
        yield emit("%02d%02d%s%05d%s" % (rnd.randrange(90), rnd.randrange(60), rnd.choice("NS"), d, "EW"[d % 2]))
    for b in range(0, 1000, 1 if thorough else 3):
        yield emit("12N013E%03d%03d" % (b, rnd.randrange(1000)))
        yield emit("1230S01330W%03d%03d" % (b, rnd.randrange(1000)))
        yield emit("ABC%03d%03d" % (b, rnd.randrange(1000)))
    for b in (359, 360, 361):
        for t in ("12N013E", "1230S01330W", "A", "AB", "ABCD", "ABCDE"):
            for c in ctx:
                yield c % (t + "%03d050" % b, "12N013E")


def stay_texts():
    for h in range(0, 100):
        for m in (range(100) if h < 25 else (0, 59, 60)):
            yield "N0450F350 ABC STAY%d/%02d%02d DEF" % (m % 10, h, m)
            if m % 13 == 0:
                yield "N0450F350 ABC STAY1/%02d%02d DCT DEF STAY2/0130 C/GHI/N0450F350F370 JKL" % (h, m)
