"""What is known of an element of the field, from the contracts of the tokenizer (C01) and of the type assignment (C03)."""
import os
import sys
import z3
from vals import *

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "oracle"))
import spec                                                       # noqa: E402

FORMS = ["9999" if f == "<time>" else f for f, _, _ in spec.FORMATS]
CLASS = [(b, s) for _, b, s in spec.FORMATS]
TIME = [k for k, f in enumerate(spec.FORMATS) if f[0] == "<time>"][0]
_by = {}


def classes(R):
    """(base, sub) -> form indices; sub '' of the repository enums by number"""
    c = _by.get(id(R))
    if c is None:
        c = {}
        for k, (b, s) in enumerate(CLASS):
            c.setdefault((R.base[b], R.sub[s]), []).append(k)
        c.setdefault((R.base["UNKNOWN"], R.sub["UNKNOWN"]), [])
        c.setdefault((R.base["TOO_LONG"], R.sub["UNKNOWN"]), [])
        _by[id(R)] = c
    return c


def forms_of(R, b, s):
    return classes(R).get((b, s), [])


def wf(R, i):
    bases = {}
    for b, s in classes(R):
        bases.setdefault(b, set()).add(s)
    alts = []
    for b, subs in sorted(bases.items()):
        rng, out = sorted(subs), []
        j = 0
        while j < len(rng):
            e = j
            while e + 1 < len(rng) and rng[e + 1] == rng[e] + 1:
                e += 1
            out.append(tsub(i) == rng[j] if e == j else z3.And(tsub(i) >= rng[j], tsub(i) <= rng[e]))
            j = e + 1
        alts.append(z3.And(tbase(i) == b, z3.Or(*out) if len(out) > 1 else out[0]))
    L = R.base["TOO_LONG"]
    return z3.And(z3.Or(*alts), tstart(i) >= 0, tend(i) == tstart(i) + slen(ttext(i)), slen(ttext(i)) >= 1,
                  idxof(tstart(i)) == i, (tbase(i) == L) == (slen(ttext(i)) > spec.MAX_LEN))


def formfacts(k, i):
    t = ttext(i)
    fs = [slen(t) == len(FORMS[k])]
    for p, c in enumerate(FORMS[k]):
        if c == "9":
            fs.append(z3.And(dig(t, p) >= 0, dig(t, p) <= 9))
        elif c == "@":
            fs.append(z3.And(sch(t, p) >= 65, sch(t, p) <= 90))
    if k == TIME:
        fs += [dig(t, 0) * 10 + dig(t, 1) <= 23, dig(t, 2) <= 5]
    return z3.And(*fs)


def chars(k, t):
    return [("d", dig(t, p)) if c == "9" else ("l", sch(t, p)) if c == "@" else c for p, c in enumerate(FORMS[k])]


_lf = {}


def litfact(R, i, s):
    """what the text of element i being the literal s says about its class, and the other way round"""
    b, u = spec.classify(s)
    cls = z3.And(tbase(i) == R.base[b], tsub(i) == R.sub[u])
    eq = ttext(i) == lit(s)
    only = [f for f, c in zip(FORMS, CLASS) if c == (b, u)]
    if only == [s]:
        return eq == cls
    return z3.Implies(eq, z3.And(cls, slen(ttext(i)) == len(s)))
