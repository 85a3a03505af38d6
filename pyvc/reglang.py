"""Regular expressions as automata: exact comparison of what the code matches with what is documented, for words
of any length over all of Unicode."""
import re
import re._constants as C
import re._parser as P

from vals import Unsupported

TOP = 0x110000


class CharSets:
    """the character predicates used, and one representative per class of characters they cannot tell apart"""
    def __init__(self):
        self.sets = {}
        self.order = []

    def add(self, ranges):
        k = tuple(sorted(ranges))
        if k not in self.sets:
            self.sets[k] = len(self.order)
            self.order.append(k)
        return self.sets[k]

    def classes(self):
        """[(representative, frozenset of predicates)]"""
        cuts = {0}
        for k in self.order:
            for a, b in k:
                cuts.add(a)
                cuts.add(b + 1)
        seen = {}
        cuts = sorted(c for c in cuts if c < TOP)
        for c in cuts:
            sig = frozenset(i for i, k in enumerate(self.order) if any(a <= c <= b for a, b in k))
            if sig not in seen:
                seen[sig] = c
        return [(c, s) for s, c in sorted(seen.items(), key=lambda x: x[1])]


_cat = {}


def category(pat):
    """the characters a category matches, by asking re"""
    if pat not in _cat:
        m = re.compile(pat).fullmatch
        out, start = [], None
        for c in range(TOP):
            if m(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, TOP - 1))
        _cat[pat] = out
    return _cat[pat]


CATS = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
        C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}


def negate(rs):
    out, pos = [], 0
    for a, b in sorted(rs):
        if a > pos:
            out.append((pos, a - 1))
        pos = max(pos, b + 1)
    if pos < TOP:
        out.append((pos, TOP - 1))
    return out


class NFA:
    def __init__(self):
        self.cs = CharSets()
        self.eps = []
        self.tr = []
        self.start = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def chars(self, ranges, a, b, flags):
        if flags & re.IGNORECASE:
            # what re makes of the class
            pat = "[" + "".join("%s-%s" % (esc(x), esc(y)) for x, y in ranges) + "]"
            key = (pat, flags & (re.IGNORECASE | re.ASCII))
            if key not in _cat:
                m = re.compile(pat, key[1]).fullmatch
                _cat[key] = merge([c for c in range(TOP) if m(chr(c))])
            ranges = _cat[key]
        self.tr[a].append((self.cs.add(ranges), b))

    def build(self, items, a, flags):
        """items of a parsed pattern from state a; returns the state after them"""
        for op, av in items:
            if op is C.LITERAL:
                b = self.new()
                self.chars([(av, av)], a, b, flags)
                a = b
            elif op is C.NOT_LITERAL:
                b = self.new()
                self.chars(negate([(av, av)]), a, b, flags)
                a = b
            elif op is C.ANY:
                b = self.new()
                self.chars([(0, TOP - 1)] if flags & re.DOTALL else negate([(10, 10)]), a, b, flags & ~re.IGNORECASE)
                a = b
            elif op is C.IN:
                b = self.new()
                neg, rs = False, []
                for o, v in av:
                    if o is C.NEGATE:
                        neg = True
                    elif o is C.LITERAL:
                        rs.append((v, v))
                    elif o is C.RANGE:
                        rs.append(v)
                    elif o is C.CATEGORY and v in CATS:
                        p = CATS[v]
                        if flags & re.ASCII:
                            p = "(?a:%s)" % p
                        rs += category(p)
                    else:
                        raise Unsupported("character class")
                if neg and flags & re.IGNORECASE:
                    raise Unsupported("negated class ignoring case")
                self.chars(negate(rs) if neg else rs, a, b, flags)
                a = b
            elif op is C.BRANCH:
                e = self.new()
                for alt in av[1]:
                    s = self.new()
                    self.eps[a].append(s)
                    self.eps[self.build(alt, s, flags)].append(e)
                a = e
            elif op is C.SUBPATTERN:
                g, add, rem, p = av
                a = self.build(p, a, (flags | add) & ~rem)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, p = av
                if lo > 300 or hi is not C.MAXREPEAT and hi > 300:
                    raise Unsupported("large repetition")
                for _ in range(lo):
                    a = self.build(p, a, flags)
                if hi is C.MAXREPEAT:
                    s = self.new()
                    self.eps[a].append(s)
                    self.eps[self.build(p, s, flags)].append(s)
                    a = s
                else:
                    e = self.new()
                    self.eps[a].append(e)
                    for _ in range(hi - lo):
                        a = self.build(p, a, flags)
                        self.eps[a].append(e)
                    a = e
            else:
                raise Unsupported("regular expression construct %s" % op)
        return a

    def add(self, how, pattern, flags):
        """a language: the words on which re.<how>(pattern, word, flags) is not None"""
        try:
            p = P.parse(pattern, flags)
        except re.error as e:
            raise Unsupported("pattern %r: %s" % (pattern, e))
        flags = p.state.flags
        items = list(p)
        if flags & (re.MULTILINE | re.LOCALE):
            raise Unsupported("pattern flags")
        begin = end = None
        if items and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            begin = True
            items = items[1:]
        if items and items[-1][0] is C.AT and items[-1][1] in (C.AT_END, C.AT_END_STRING):
            end = items[-1][1]
            items = items[:-1]
        s = self.new()
        any_ = [(0, TOP - 1)]
        if how == "search" and not begin:
            self.chars(any_, s, s, 0)
            b = self.new()
            self.eps[s].append(b)
            e = self.build(items, b, flags)
        else:
            e = self.build(items, s, flags)
        if how != "fullmatch":
            f = self.new()
            self.eps[e].append(f)
            if end is None:
                self.chars(any_, f, f, 0)
            elif end is C.AT_END:
                g = self.new()
                self.chars([(10, 10)], f, g, 0)
                self.final = None
        self.start.append(s)

    def word(self, w):
        self.add("fullmatch", re.escape(w), 0)

    def prepare(self):
        n = len(self.eps)
        self.clo = []
        for i in range(n):
            seen, todo = {i}, [i]
            while todo:
                for y in self.eps[todo.pop()]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            # states that matter: those with transitions, and the ends
            self.clo.append(frozenset(seen))
        self.cl = self.cs.classes()
        self.step = [[frozenset().union(*[self.clo[b] for p, b in self.tr[i] if p in sig]) for _, sig in self.cl] for i in range(n)]

    def explore(self, cap, limit=400000):
        """(representative word, state) of every class of words; two words of a class agree on every language and
           have the same length up to cap"""
        init = frozenset().union(*[self.clo[s] for s in self.start])
        seen = {(init, 0): ""}
        todo = [(init, 0)]
        while todo:
            nxt = []
            for st, n in todo:
                w = seen[(st, n)]
                for k, (c, _) in enumerate(self.cl):
                    t = frozenset().union(*[self.step[i][k] for i in st]) if st else st
                    key = (t, min(n + 1, cap))
                    if key not in seen:
                        seen[key] = w + chr(c)
                        nxt.append(key)
            todo = nxt
            if len(seen) > limit:
                raise Unsupported("too many classes of words")
        return [(w, k[0]) for k, w in seen.items()]


def esc(c):
    return "\\U%08x" % c


def merge(cs):
    out = []
    for c in cs:
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out
