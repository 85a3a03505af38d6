"""Values and terms of the symbolic executor."""
from fractions import Fraction
import enum
import z3

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
StrS = IntS            # strings are identified by integers; literals by distinct negative ones

# --- the token list of the field under parse: total functions of the element index
ttext = z3.Function("ttext", IntS, StrS)
tstart = z3.Function("tstart", IntS, IntS)
tend = z3.Function("tend", IntS, IntS)
tbase = z3.Function("tbase", IntS, IntS)
tsub = z3.Function("tsub", IntS, IntS)
tform = z3.Function("tform", IntS, IntS)          # which documented format the element has
idxof = z3.Function("idxof", IntS, IntS)          # start index -> element index
ntok = z3.Int("n")                                # number of elements
# --- strings
slen = z3.Function("slen", StrS, IntS)
sch = z3.Function("sch", StrS, IntS, IntS)        # character code at a position
dig = z3.Function("dig", StrS, IntS, IntS)        # digit value at a position
ssub = z3.Function("ssub", StrS, IntS, IntS, StrS)
scat = z3.Function("scat", StrS, StrS, StrS)
srepl = z3.Function("srepl", StrS, StrS, StrS)    # message with its placeholder replaced
# --- numeric functions left uninterpreted
usqrt = z3.Function("sqrt", RealS, RealS)
dirlat = z3.Function("direct_lat", RealS, RealS, RealS, RealS, RealS)
dirlon = z3.Function("direct_lon", RealS, RealS, RealS, RealS, RealS)
invazi = z3.Function("inverse_azi", RealS, RealS, RealS, RealS, RealS)
invs12 = z3.Function("inverse_s12", RealS, RealS, RealS, RealS, RealS)

_lits = {}
_keep = {}


def tid(t):
    """identity of a term; the term is kept so that its number is not given to another one"""
    i = t.get_id()
    if i not in _keep:
        _keep[i] = t
    return i


def lit(s):
    t = _lits.get(s)
    if t is None:
        t = _lits[s] = z3.IntVal(-1 - len(_lits))
    return t


def lits():
    return dict(_lits)


class Unsupported(Exception):
    pass


class Z:
    """symbolic int / real / bool"""
    __slots__ = ("k", "t", "tag")

    def __init__(self, k, t, tag=None):
        self.k, self.t, self.tag = k, t, tag

    def __repr__(self):
        return "Z(%s,%s)" % (self.k, self.t)


class SV:
    """symbolic string: parts are literal str or tuples
       ('s', base, a, b)   characters a..b of a base string term (b None: to its end)
       ('f', spec, value)  formatted value
       ('x', parts, attr)  XML escape of parts
       ('fold', tag, parts) concatenation over a list"""
    __slots__ = ("p",)

    def __init__(self, parts):
        out = []
        for x in parts:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            elif x[0] == "s" and out and isinstance(out[-1], tuple) and out[-1][0] == "s" and \
                    out[-1][1].eq(x[1]) and out[-1][3] is not None and out[-1][3] == x[2]:
                out[-1] = ("s", x[1], out[-1][2], x[3])
                continue
            out.append(x)
        self.p = tuple(out)

    def __repr__(self):
        return "SV(%r)" % (self.p,)


# --- the text given to the tokenizer: length and character codes; the set of delimiters
inlen = z3.Int("m")
inch = z3.Function("inch", IntS, IntS)
isdel = z3.Function("isdel", IntS, BoolS)


class WsV:
    """the delimiter characters of the tokenizer, as a string or (isset) as a set"""
    __slots__ = ("isset",)

    def __init__(self, isset=False):
        self.isset = isset


def txt(a, b):
    """the part a..b of the text given to the tokenizer"""
    return SV((("t", z3.simplify(a), z3.simplify(b)),))


def tpart(v):
    return v.p[0][1:] if isinstance(v, SV) and len(v.p) == 1 and not isinstance(v.p[0], str) and v.p[0][0] == "t" else None


def opaque(term):
    return SV((("s", term, 0, None),))


def mkstr(parts):
    v = SV(parts)
    if not v.p:
        return ""
    if len(v.p) == 1 and isinstance(v.p[0], str):
        return v.p[0]
    return v


class Tok:
    """element of the token list"""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "Tok(%s)" % self.i


class Ref:
    """reference to a heap object"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "Ref(%s)" % self.id


class BM:
    """bound method of a user class"""
    __slots__ = ("f", "self")

    def __init__(self, f, self_):
        self.f, self.self = f, self_


class Builtin:
    """method of a builtin value, by name"""
    __slots__ = ("name", "self")

    def __init__(self, name, self_):
        self.name, self.self = name, self_


class Closure:
    __slots__ = ("node", "env", "glob", "cls")

    def __init__(self, node, env, glob, cls):
        self.node, self.env, self.glob, self.cls = node, env, glob, cls


class DictRes:
    """result of a modelled external call"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Obj:
    """heap object; hv: prefix of its arbitrary initial attribute values (None: constructed here)"""
    __slots__ = ("cls", "a", "hv", "kind")

    def __init__(self, cls, a=None, hv=None, kind="obj"):
        self.cls, self.a, self.hv, self.kind = cls, a if a is not None else {}, hv, kind

    def clone(self):
        return Obj(self.cls, dict(self.a), self.hv, self.kind)


class LObj:
    """ordinary list/dict/set built by the code"""
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="list"):
        self.items, self.kind = items, kind

    def clone(self):
        return LObj(list(self.items) if self.kind != "dict" else dict(self.items), self.kind)


class WList:
    """a list of unbounded length: n0 elements at the last contract boundary (the last three, w[1..3], and
       the first one are known as objects), then the elements appended since"""
    __slots__ = ("n0", "w", "first", "app", "name")
    kind = "wlist"

    def __init__(self, n0, w, first, app, name):
        self.n0, self.w, self.first, self.app, self.name = n0, w, first, app, name

    def clone(self):
        return WList(self.n0, self.w, self.first, list(self.app), self.name)


class TList:
    """the token list (length n, elements by index)"""
    __slots__ = ()
    kind = "tlist"

    def clone(self):
        return self


class GList:
    """a list of any length: segments of the original list ("o", name, lo, hi) and single values ("v", value)"""
    __slots__ = ("segs",)
    kind = "glist"

    def __init__(self, segs):
        self.segs = list(segs)

    def clone(self):
        return GList(self.segs)

    def length(self):
        t = z3.IntVal(0)
        for s in self.segs:
            t = t + (1 if s[0] == "v" else s[3] - s[2])
        return z3.simplify(t)


class El:
    """an element of an original list, by its index there"""
    __slots__ = ("name", "i", "cls")

    def __init__(self, name, i, cls):
        self.name, self.i, self.cls = name, i, cls

    def __repr__(self):
        return "El(%s,%s)" % (self.name, self.i)


def isnum(v):
    return isinstance(v, (bool, int, Fraction)) or isinstance(v, Z)


def zint(v):
    if isinstance(v, Z):
        if v.k == "i":
            return v.t
        if v.k == "b":
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("real used as int")
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    raise Unsupported("int expected, got %r" % (v,))


def zreal(v):
    if isinstance(v, Z):
        if v.k == "r":
            return v.t
        return z3.ToReal(zint(v))
    if isinstance(v, (bool, int)):
        return z3.RealVal(int(v))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise Unsupported("number expected, got %r" % (v,))


def kindof(v):
    if isinstance(v, Z):
        return v.k
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, Fraction):
        return "r"
    return None


def zof(v):
    k = kindof(v)
    if k == "b":
        return v.t if isinstance(v, Z) else z3.BoolVal(v)
    if k == "i":
        return zint(v)
    if k == "r":
        return zreal(v)
    raise Unsupported("no numeric term for %r" % (v,))


def partkey(p):
    if isinstance(p, str):
        return p
    if p[0] == "s":
        return ("s", tid(p[1]), p[2], p[3])
    if p[0] == "f":
        return ("f", p[1], vkey(p[2]))
    if p[0] == "x":
        return ("x", tuple(partkey(q) for q in p[1]), p[2])
    if p[0] == "t":
        return ("t", tid(p[1]), tid(p[2]))
    if p[0] == "fold":
        return ("fold", p[1], tuple(partkey(q) for q in p[2]))
    return p


def vkey(v):
    """structural identity of a value"""
    if isinstance(v, Z):
        return ("z", v.k, tid(v.t))
    if isinstance(v, SV):
        return ("s",) + tuple(partkey(p) for p in v.p)
    if isinstance(v, Tok):
        return ("t", tid(z3.simplify(v.i)))
    if isinstance(v, Ref):
        return ("o", v.id)
    if isinstance(v, WsV):
        return ("ws", v.isset)
    if isinstance(v, El):
        return ("el", v.name, tid(z3.simplify(v.i)))
    if isinstance(v, tuple):
        return ("tup",) + tuple(vkey(x) for x in v)
    if isinstance(v, BM):
        return ("bm", id(v.f), vkey(v.self))
    if isinstance(v, (bool, int, Fraction, str)) or v is None:
        return ("c", type(v).__name__, v)
    return ("p", id(v))


def shape(v):
    """merge class of a value: equal shapes can be merged by if-then-else"""
    if isinstance(v, bool) or isinstance(v, Z) and v.k == "b":
        return "B"
    if isnum(v):
        return "N"
    if isinstance(v, tuple):
        return ("tup",) + tuple(shape(x) for x in v)
    return vkey(v)
