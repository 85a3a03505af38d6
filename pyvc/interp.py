"""Symbolic interpreter for the Python subset of the repository (syntax trees read from its source)."""
import ast
import builtins
import copy
import enum
import math
import re
import time
import types
from fractions import Fraction
from xml.sax import saxutils

import z3
from vals import *
from vals import Unsupported
import fmt

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}


class PyRaise(Exception):
    def __init__(self, cls, msg=""):
        Exception.__init__(self, msg)
        self.cls = cls


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class PathEnd(Exception):
    """this path is not feasible, or is continued elsewhere"""


class Cell:
    __slots__ = ("d",)


class Frame:
    __slots__ = ("loc", "glob", "cls", "parent", "fi")

    def __init__(self, loc, glob, cls, parent=None, fi=None):
        self.loc, self.glob, self.cls, self.parent, self.fi = loc, glob, cls, parent, fi


class St:
    __slots__ = ("heap", "conds", "facts", "fresh", "events", "nid", "conc", "fkeys", "roles", "flags")

    def __init__(self):
        self.heap, self.conds, self.facts, self.fresh, self.events = {}, [], [], 0, []
        self.nid, self.conc, self.fkeys, self.roles, self.flags = 1, {}, set(), {}, {}

    def clone(self):
        s = St()
        s.heap = {k: v.clone() for k, v in self.heap.items()}
        s.conds, s.facts, s.fresh = list(self.conds), list(self.facts), self.fresh
        s.events, s.nid, s.conc = list(self.events), self.nid, dict(self.conc)
        s.fkeys, s.roles, s.flags = set(self.fkeys), dict(self.roles), dict(self.flags)
        return s


class Dec:
    def __init__(self, prefix, ident):
        self.prefix, self.pos, self.taken, self.alts, self.ident, self.calls = prefix, 0, [], [], ident, 0


class MRes:
    """result of a regular expression match: truth value only"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class GenExp:
    __slots__ = ("node", "frame")

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class FoldItems:
    """what a loop over a list of any length appends to a list: for each element one of alts (condition, texts, state)"""
    __slots__ = ("name", "rec", "alts")

    def __init__(self, name, rec, alts):
        self.name, self.rec, self.alts = name, rec, alts


class EnumV:
    __slots__ = ("v", "start")

    def __init__(self, v, start):
        self.v, self.start = v, start


class RangeV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


BUILTIN_EXC = {k: v for k, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}


class Interp:
    def __init__(self, repo, mode="plain", rel_rec=None, rel_err=None):
        self.repo = repo
        self.mode = mode
        self.rel_rec, self.rel_err = rel_rec, rel_err
        self.rel_any = None if rel_rec is None else set(rel_rec) | set(rel_err or ())
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.nchecks = 0
        self.st = None
        self.dec = None
        self.cache = {}
        self.stack = []              # FInfo of inlined calls
        self.depth_max = 0
        self.xdepth = 0              # frames of closures and generators
        self.steps = 0
        self.call_hook = None
        self.loop_hook = None
        self.fold_hook = None
        self.rec_tmpl = repo.rec_defaults
        self.ntok_checks = 0
        self.used_funcs = set()
        self.gcls = {}
        self.deadline = None
        self.maxsteps = 3000000

    # ------------------------------------------------------------ path conditions
    def fact(self, f):
        k = tid(f)
        if k in self.st.fkeys:
            return
        self.st.fkeys.add(k)
        self.st.facts.append(f)
        self.solver.add(f)

    def cond(self, f):
        self.st.conds.append(f)
        self.solver.add(f)

    def sat(self, f):
        self.nchecks += 1
        r = self.solver.check(f)
        return r != z3.unsat

    def entailed(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self.nchecks += 1
        return self.solver.check(z3.Not(f)) == z3.unsat

    def choose(self, conds):
        d = self.dec
        if d.pos < len(d.prefix):
            k, forced = d.prefix[d.pos]
        else:
            feas = []
            n = len(conds)
            for i, c in enumerate(conds):
                c = z3.simplify(c) if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c))
                if z3.is_true(c):
                    feas.append(i)
                elif not z3.is_false(c):
                    if i == n - 1 and not feas:
                        feas.append(i)
                    elif self.sat(c):
                        feas.append(i)
            if not feas:
                raise PathEnd()
            k, forced = feas[0], len(feas) == 1
            for o in feas[1:]:
                d.alts.append(d.taken + [(o, False)])
        d.pos += 1
        d.taken.append((k, forced))
        if not forced:
            c = conds[k]
            if isinstance(c, z3.ExprRef):
                self.cond(c)
        return k

    def branch(self, v):
        t = self.truth(v)
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self.choose([t, z3.Not(t)]) == 0

    def truth(self, v):
        if isinstance(v, Z):
            if v.k == "b":
                return v.t
            return v.t != 0
        if isinstance(v, SV):
            e = self.seq(v, "")
            return (not e) if isinstance(e, bool) else z3.Not(e)
        if isinstance(v, MRes):
            return v.t
        if v is None or isinstance(v, (bool, int, Fraction, str, tuple)):
            return bool(v)
        if isinstance(v, (Tok, El)):
            return True
        if isinstance(v, Ref):
            o = self.st.heap[v.id]
            if isinstance(o, LObj):
                return len(o.items) > 0
            if isinstance(o, WList):
                return self.wlen(o).t > 0
            if isinstance(o, TList):
                return ntok > 0
            if isinstance(o, GList):
                return o.length() > 0
            f = self.clsattr(o.cls, "__bool__") or self.clsattr(o.cls, "__len__")
            if f is not None:
                return self.truth(self.call(BM(f, v), [], {}))
            return True
        if isinstance(v, WsV):
            raise Unsupported("truth of the delimiters")
        if isinstance(v, (BM, Builtin, Closure)) or callable(v) or isinstance(v, (list, dict, set, frozenset)):
            return bool(v) if isinstance(v, (list, dict, set, frozenset)) else True
        raise Unsupported("truth value of %r" % (v,))

    def name(self, pre):
        self.st.fresh += 1
        return "%s!%d" % (pre, self.st.fresh)

    # ------------------------------------------------------------ exploration
    def explore(self, base, run, ident=()):
        """all outcomes [(st, kind, value)] of run() from state base"""
        outs = []
        todo = [[]]
        ost, odec = self.st, self.dec
        while todo:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("exploration did not finish in time")
            prefix = todo.pop()
            self.st, self.dec = base.clone(), Dec(prefix, ident)
            self.solver.push()
            try:
                try:
                    kind, val = "val", run()
                except Ret as r:
                    kind, val = "val", r.v
                except PyRaise as r:
                    kind, val = "exc", r
                except Brk:
                    kind, val = "brk", None
                except Cont:
                    kind, val = "cont", None
                except PathEnd:
                    kind, val = None, None
                if kind is not None:
                    outs.append((self.st, kind, val, self.dec.taken))
            finally:
                self.solver.pop()
            todo.extend(reversed(self.dec.alts))
            if len(outs) > 6000:
                self.st, self.dec = ost, odec
                raise Unsupported("more than 6000 paths")
        self.st, self.dec = ost, odec
        return outs

    def nested(self, run, label=""):
        """explore run() completely, merge outcomes that differ only in numbers, continue with each class"""
        d = self.dec
        d.calls += 1
        ident = (d.ident, tuple(d.taken), d.calls)
        base = self.st
        groups = self.cache.get(ident)
        if groups is None:
            outs = self.explore(base, run, ident)
            groups = self.merge(base, outs)
            self.cache[ident] = groups
        if not groups:
            raise PathEnd()
        if len(groups) == 1:
            k = 0
        else:
            k = self.choose([g[0] for g in groups])
        cond_, st, kind, val, newfacts = groups[k]
        s2 = st.clone()
        s2.conds = self.st.conds
        s2.facts, s2.fkeys = self.st.facts, self.st.fkeys
        self.st = s2
        for f in newfacts:
            self.fact(f)
        if kind == "exc":
            raise PyRaise(val.cls, str(val))
        if kind == "brk":
            raise Brk()
        if kind == "cont":
            raise Cont()
        return val

    def objshape(self, o):
        if isinstance(o, LObj):
            if o.kind == "dict":
                return ("dict", tuple((vkey(k), vkey(v)) for k, v in o.items.items()))
            return (o.kind, tuple(shape(x) for x in o.items))
        if isinstance(o, WList):
            if o.name == "err" and self.rel_err is None:
                return "errcount"
            return ("w", tid(o.n0), tuple(vkey(x) for x in o.app))
        if isinstance(o, TList):
            return "t"
        if isinstance(o, GList):
            return ("g",) + tuple(("v", vkey(x[1])) if x[0] == "v" else ("o", x[1], tid(x[2]), tid(x[3])) for x in o.segs)
        items = []
        for k in sorted(o.a):
            v = o.a[k]
            items.append((k, vkey(v) if k in self.struct_attrs(o) else shape(v)))
        return (o.cls, o.kind, tuple(items))

    def struct_attrs(self, o):
        if o.cls is self.repo.Tokens:
            return (self.repo.toks_attr.get("cursor"),)
        return ()

    def merge(self, base, outs):
        nb = len(base.conds)
        byshape = {}
        for st, kind, val, taken in outs:
            self.gc(base, st, val)
            # attribute sets must agree: complete havoc'd attributes lazily read on one path only
            key = (kind, val.cls if kind == "exc" else shape(val),
                   tuple((i, self.objshape(o)) for i, o in sorted(st.heap.items())
                         if i not in base.heap or not self.same_obj(base.heap[i], o)),
                   len(st.events), tuple(id(e) for e in st.events[len(base.events):]), tuple(sorted(st.flags.items())))
            byshape.setdefault(key, []).append((st, kind, val))
        groups = []
        for key, lst in byshape.items():
            conds = [self.conj(st.conds[nb:]) for st, _, _ in lst]
            facts, fk = [], set()
            for st, _, _ in lst:
                for f in st.facts[len(base.facts):]:
                    if tid(f) not in fk:
                        fk.add(tid(f))
                        facts.append(f)
            if len(lst) == 1:
                st, kind, val = lst[0]
                groups.append((conds[0], st, kind, val, facts))
                continue
            st0, kind, val0 = lst[0]
            st = st0.clone()
            st.fresh = max(s.fresh for s, _, _ in lst)
            st.nid = max(s.nid for s, _, _ in lst)
            st.conc = {k: v for k, v in st0.conc.items() if all(s.conc.get(k) == v for s, _, _ in lst)}
            for i, o in st.heap.items():
                os = [s.heap[i] for s, _, _ in lst]
                if isinstance(o, Obj):
                    for a in o.a:
                        o.a[a] = self.mergev([x.a[a] for x in os], conds)
                elif isinstance(o, WList):
                    if o.name == "err" and self.rel_err is None:
                        o.n0 = self.mergev([Z("i", x.n0) for x in os], conds).t
                elif isinstance(o, LObj) and o.kind != "dict":
                    o.items = [self.mergev([x.items[j] for x in os], conds) for j in range(len(o.items))]
            val = self.mergev([v for _, _, v in lst], conds) if kind == "val" else val0
            groups.append((z3.Or(*conds), st, kind, val, facts))
        return groups

    def gc(self, base, st, val):
        """drop objects made by the call that nothing refers to any more"""
        seen, todo = set(), [v for v in (val,)]
        for i in base.heap:
            if i in st.heap:
                seen.add(i)
                todo.append(st.heap[i])
        todo += list(st.flags.values())
        while todo:
            v = todo.pop()
            if isinstance(v, Ref):
                if v.id not in seen and v.id in st.heap:
                    seen.add(v.id)
                    todo.append(st.heap[v.id])
            elif isinstance(v, (tuple, list)):
                todo += list(v)
            elif isinstance(v, dict):
                todo += list(v.values())
            elif isinstance(v, Obj):
                todo += [x for x in v.a.values() if isinstance(x, (Ref, tuple, list))]
            elif isinstance(v, LObj):
                todo += list(v.items.values() if v.kind == "dict" else v.items)
            elif isinstance(v, GList):
                todo += [x[1] for x in v.segs if x[0] == "v"]
            elif isinstance(v, WList):
                todo += list(v.app) + list(v.w or []) + ([v.first] if v.first is not None else [])
            elif isinstance(v, BM):
                todo.append(v.self)
            elif isinstance(v, Closure):
                todo += list(v.env.loc.values())
        for i in [i for i in st.heap if i not in seen]:
            del st.heap[i]

    def same_obj(self, a, b):
        if isinstance(a, WList) and isinstance(b, WList) and not a.n0.eq(b.n0):
            return False
        return self.objshape(a) == self.objshape(b) and (
            not isinstance(a, Obj) or all(vkey(a.a[k]) == vkey(b.a[k]) for k in a.a))

    @staticmethod
    def conj(cs):
        return z3.And(*cs) if len(cs) > 1 else cs[0] if cs else z3.BoolVal(True)

    def mergev(self, vs, conds):
        k0 = vkey(vs[0])
        if all(vkey(v) == k0 for v in vs[1:]):
            return vs[0]
        if isinstance(vs[0], tuple):
            return tuple(self.mergev([v[i] for v in vs], conds) for i in range(len(vs[0])))
        ks = {kindof(v) for v in vs}
        if None in ks:
            raise Unsupported("merge of %r" % (vs[:2],))
        if ks == {"b"}:
            ts, k = [zof(v) for v in vs], "b"
        elif "r" in ks:
            ts, k = [zreal(v) for v in vs], "r"
        else:
            ts, k = [zint(v) for v in vs], "i"
        tags = {self.tagof(v) for v in vs}
        out = ts[-1]
        for c, t in zip(reversed(conds[:-1]), reversed(ts[:-1])):
            out = z3.If(c, t, out)
        return Z(k, out, tags.pop() if len(tags) == 1 else None)

    def tagof(self, v):
        if isinstance(v, Z):
            return v.tag
        if isinstance(v, self.repo.Base):
            return "base"
        if isinstance(v, self.repo.Sub):
            return "sub"
        return None

    # ------------------------------------------------------------ tokens
    def tokfacts(self, i):
        """what is known of every element of the list at index i"""
        R = self.repo
        self.fact(z3.Implies(z3.And(0 <= i, i < ntok), fmt.wf(R, i)))

    def tokattr(self, t, a):
        role = self.repo.tok_role.get(a)
        ov = self.st.flags.get("typing")
        if ov is not None and role in ("base", "sub"):
            if (role, "set") in ov:
                return ov[(role, "set")]
        if role == "text":
            return opaque(ttext(t.i))
        if role == "start":
            return Z("i", tstart(t.i))
        if role == "end":
            return Z("i", tend(t.i))
        if role in ("base", "sub"):
            if not self.st.flags.get("typed"):
                raise Unsupported("element type read before it is assigned")
            return Z("i", (tbase if role == "base" else tsub)(t.i), role)
        if a in self.repo.tok_attrs:
            raise Unsupported("token attribute %s" % a)
        return None

    def tok_of(self, term):
        if z3.is_app(term) and term.decl().eq(ttext):
            return term.arg(0)
        return None

    def concretize(self, i):
        """fork over the documented forms the element i can have; returns its form (list of characters)"""
        i = z3.simplify(i)
        k = self.st.conc.get(tid(i))
        if k is None:
            d = self.dec
            if d.pos < len(d.prefix):
                o = d.prefix[d.pos][0]
            else:
                subs = []
                self.solver.push()
                while True:
                    self.nchecks += 1
                    if self.solver.check() != z3.sat:
                        break
                    m = self.solver.model()
                    v = m.eval(tsub(i), model_completion=True).as_long()
                    b = m.eval(tbase(i), model_completion=True).as_long()
                    subs.append((b, v))
                    self.solver.add(z3.Not(z3.And(tsub(i) == v, tbase(i) == b)))
                    if len(subs) > 120:
                        break
                self.solver.pop()
                opts = []
                for b, v in sorted(subs):
                    fs = fmt.forms_of(self.repo, b, v)
                    if not fs:
                        raise Unsupported("characters of an unrecognised or over-long element inspected")
                    for f in fs:
                        opts.append(("f", b, v, f))
                if not opts:
                    raise PathEnd()
                o = opts[0]
                for q in opts[1:]:
                    d.alts.append(d.taken + [(q, False)])
            d.pos += 1
            d.taken.append((o, False))
            _, b, v, k = o
            self.cond(z3.And(tbase(i) == b, tsub(i) == v, tform(i) == k))
            self.st.conc[tid(i)] = k
            self.fact(z3.Implies(tform(i) == k, fmt.formfacts(k, i)))
        return fmt.chars(k, ttext(i))

    def chars_of(self, v):
        """list of characters: str of length 1, ('d', digit term), ('l', letter code term)"""
        if isinstance(v, str):
            return list(v)
        out = []
        for p in v.p:
            if isinstance(p, str):
                out += list(p)
            elif p[0] == "s":
                i = self.tok_of(p[1])
                if i is None:
                    raise Unsupported("characters of a stored text inspected")
                out += self.concretize(i)[p[2]:p[3]]
            else:
                raise Unsupported("characters of a formatted text")
        return out

    def canon(self, v):
        """slices of an element whose form is known are cut to its length; whole slices become the text"""
        if not isinstance(v, SV):
            return v
        parts = []
        for p in v.p:
            if not isinstance(p, str) and p[0] == "s":
                i = self.tok_of(p[1])
                if i is not None:
                    k = self.st.conc.get(tid(z3.simplify(i)))
                    if k is not None:
                        n = len(fmt.FORMS[k])
                        a, b = min(p[2], n), n if p[3] is None else min(p[3], n)
                        if a >= b:
                            continue
                        p = ("s", p[1], a, None if b == n else b)
            parts.append(p)
        return mkstr(parts)

    # ------------------------------------------------------------ strings
    def slen_of(self, v):
        if isinstance(v, str):
            return len(v)
        if all(not isinstance(p, str) and p[0] == "t" for p in v.p):
            t = z3.IntVal(0)
            for p in v.p:
                t = t + p[2] - p[1]
            return Z("i", z3.simplify(t))
        if len(v.p) == 1 and v.p[0][0] == "s" and v.p[0][2] == 0 and v.p[0][3] is None:
            t = v.p[0][1]
            self.fact(slen(t) >= 0)
            return Z("i", slen(t))
        if all(isinstance(p, str) or p[0] == "s" and p[2] == 0 and p[3] is None for p in v.p):
            tot = z3.IntVal(0)
            for p in v.p:
                if isinstance(p, str):
                    tot = tot + len(p)
                else:
                    self.fact(slen(p[1]) >= 0)
                    tot = tot + slen(p[1])
            return Z("i", tot)
        return len(self.chars_of(v))

    def slice(self, v, a, b):
        if isinstance(v, str) and all(x is None or isinstance(x, int) for x in (a, b)):
            return v[a:b]
        t = tpart(v)
        if t is not None:
            n = z3.simplify(t[1] - t[0])
            x, y = self.gbound(a, n, z3.IntVal(0)), self.gbound(b, n, n)
            if self.branch(Z("b", x >= y)):
                return ""
            return txt(t[0] + x, t[0] + y)
        if not (isinstance(a, int) or a is None) or not (isinstance(b, int) or b is None):
            raise Unsupported("slice with symbolic bounds")
        a = 0 if a is None else a
        if a == 0 and b is None:
            return v
        if len(v.p) == 1 and v.p[0][0] == "s" and a >= 0 and (b is None or b >= 0):
            _, t, x, y = v.p[0]
            na = x + a
            nb = y if b is None else x + b if y is None else min(y, x + b)
            if nb is not None and na >= nb:
                return ""
            return self.canon(mkstr([("s", t, na, nb)]))
        # through the characters
        cs = self.chars_of(v)
        n = len(cs)
        lo, hi, _ = slice(a, b).indices(n)
        if lo >= hi:
            return ""
        pos, parts = 0, []
        for p in v.p:
            if isinstance(p, str):
                k = len(p)
                x, y = max(lo - pos, 0), min(hi - pos, k)
                if x < y:
                    parts.append(p[x:y])
            else:
                full = len(self.concretize(self.tok_of(p[1])))
                e = full if p[3] is None else min(p[3], full)
                k = max(e - p[2], 0)
                x, y = max(lo - pos, 0), min(hi - pos, k)
                if x < y:
                    parts.append(("s", p[1], p[2] + x, p[2] + y))
            pos += k
        return self.canon(mkstr(parts))

    def sterm(self, v):
        """term naming a string value"""
        if isinstance(v, str):
            return lit(v)
        v = self.canon(v)
        if isinstance(v, str):
            return lit(v)
        if len(v.p) == 1 and v.p[0][0] == "s" and v.p[0][2] > 0:
            i = self.tok_of(v.p[0][1])
            k = None if i is None else self.st.conc.get(tid(z3.simplify(i)))
            if k is not None:
                f = fmt.FORMS[k][v.p[0][2]:v.p[0][3]]
                if "9" not in f and "@" not in f:
                    return lit(f)
        out = None
        for p in v.p:
            if isinstance(p, str):
                t = lit(p)
            elif p[0] == "s":
                t = p[1] if p[2] == 0 and p[3] is None else ssub(p[1], p[2], -1 if p[3] is None else p[3])
            elif p[0] == "r":
                t = srepl(lit(p[1]), self.sterm(p[2]))
            else:
                raise Unsupported("text with formatted parts as a term")
            out = t if out is None else scat(out, t)
        return out

    def seq(self, a, b):
        """equality of two strings: bool or formula"""
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        a, b = self.canon(a), self.canon(b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if vkey(a) == vkey(b):
            return True
        if isinstance(a, str):
            a, b = b, a
        t = tpart(a)
        if t is not None and isinstance(b, str):
            return z3.And(t[1] - t[0] == len(b), *[inch(z3.simplify(t[0] + k)) == ord(c) for k, c in enumerate(b)])
        if isinstance(b, str):
            fixed = sum(len(p) for p in a.p if isinstance(p, str))
            if fixed > len(b):
                return False
            if len(a.p) == 1 and a.p[0][0] == "s" and a.p[0][2] == 0 and a.p[0][3] is None:
                t = a.p[0][1]
                i = self.tok_of(t)
                if i is not None:
                    if b == "":
                        return False
                    self.fact(fmt.litfact(self.repo, i, b))
                return t == lit(b)
            if len(a.p) > 1 and a.p[0] == "" or any(isinstance(p, str) for p in a.p) and b == "":
                return False
            if b == "" and all(p[0] == "s" and self.tok_of(p[1]) is not None and p[2] == 0 for p in a.p
                               if not isinstance(p, str)):
                return False
            if any(not isinstance(p, str) and (p[0] != "s" or self.tok_of(p[1]) is None) for p in a.p):
                if b == "" and len(a.p) > 1:
                    raise Unsupported("emptiness of a composed text")
                raise Unsupported("comparison of a composed text")
            cs = self.chars_of(a)
            if len(cs) != len(b):
                return False
            fs = []
            for c, x in zip(cs, b):
                if isinstance(c, str):
                    if c != x:
                        return False
                elif c[0] == "d":
                    if not ("0" <= x <= "9"):
                        return False
                    fs.append(c[1] == int(x))
                else:
                    if not ("A" <= x <= "Z"):
                        return False
                    fs.append(c[1] == ord(x))
            return self.conj(fs) if fs else True
        if len(a.p) == 1 and len(b.p) == 1 and a.p[0][0] == "s" and b.p[0][0] == "s" and \
                a.p[0][2] == 0 and b.p[0][2] == 0 and a.p[0][3] is None and b.p[0][3] is None:
            return a.p[0][1] == b.p[0][1]
        raise Unsupported("comparison of composed texts")

    def concat(self, a, b):
        if a == "" or b == "":
            return a if b == "" else b
        ta, tb = tpart(a), tpart(b)
        if ta is not None and tb is not None:
            if self.entailed(ta[1] == tb[0]):
                return txt(ta[0], tb[1])
            if self.branch(Z("b", ta[0] == ta[1])):
                return b
            if self.branch(Z("b", tb[0] == tb[1])):
                return a
        pa = (a,) if isinstance(a, str) else a.p
        pb = (b,) if isinstance(b, str) else b.p
        return mkstr(list(pa) + list(pb))

    def to_int(self, v):
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, Z):
            if v.k == "r":
                if geodesic(v.t):
                    raise Unsupported("a whole number from a geodesic result")
                return Z("i", z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
            return Z("i", zint(v))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise(ValueError, "int(%r)" % v)
        if isinstance(v, SV):
            cs = self.chars_of(v)
            if not cs:
                raise PyRaise(ValueError, "int('')")
            tot = z3.IntVal(0)
            for c in cs:
                if isinstance(c, str):
                    if not ("0" <= c <= "9"):
                        raise PyRaise(ValueError, "int() of a text with %r" % c)
                    tot = tot * 10 + int(c)
                elif c[0] == "d":
                    tot = tot * 10 + c[1]
                else:
                    raise PyRaise(ValueError, "int() of a text with a letter")
            return Z("i", z3.simplify(tot))
        raise PyRaise(TypeError, "int(%r)" % (v,))

    # ------------------------------------------------------------ numbers
    def arith(self, op, a, b):
        if isinstance(a, (str, SV)) or isinstance(b, (str, SV)):
            if op == "+" and isinstance(a, (str, SV)) and isinstance(b, (str, SV)):
                return self.concat(a, b)
            if op == "*" and isinstance(a, str) and isinstance(b, int):
                return a * b
            if op == "%" and isinstance(a, str):
                return self.percent(a, b)
            raise PyRaise(TypeError, "%s of %r and %r" % (op, a, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op == "+" and any(isinstance(x, Ref) and isinstance(self.st.heap[x.id], GList) for x in (a, b)):
                return self.alloc(GList(self.gsegs(a) + self.gsegs(b)))
            la, lb = self.aslist(a), self.aslist(b)
            if op == "+" and la is not None and lb is not None:
                return self.newlist(la + lb)
            raise Unsupported("operator %s on objects" % op)
        if kindof(a) is None or kindof(b) is None:
            if a is None or b is None or isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
                raise PyRaise(TypeError, "%s" % op)
            raise Unsupported("operator %s on %r, %r" % (op, a, b))
        if not isinstance(a, Z) and not isinstance(b, Z):
            a, b = self.num(a), self.num(b)
            try:
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                if op == "*":
                    return a * b
                if op == "/":
                    return Fraction(a) / b
                if op == "//":
                    return a // b
                if op == "%":
                    return a % b
                if op == "**" and isinstance(b, int) and b >= 0:
                    return a ** b
            except ZeroDivisionError:
                raise PyRaise(ZeroDivisionError)
            raise Unsupported("operator " + op)
        real = "r" in (kindof(a), kindof(b)) or op == "/"
        if op in ("//", "%"):
            if isinstance(b, Z) or not isinstance(b, int) or b <= 0 or real:
                raise Unsupported("%s with a symbolic or real divisor" % op)
            x = zint(a)
            return Z("i", x / b if op == "//" else x % b)
        if op == "/":
            if isinstance(b, Z):
                if self.branch(Z("b", zreal(b) == 0)):
                    raise PyRaise(ZeroDivisionError)
            elif b == 0:
                raise PyRaise(ZeroDivisionError)
        if op == "**":
            if isinstance(b, int) and 0 <= b <= 3:
                out = 1
                for _ in range(b):
                    out = self.arith("*", out, a)
                return out
            raise Unsupported("power")
        x, y = (zreal(a), zreal(b)) if real else (zint(a), zint(b))
        t = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
        return Z("r" if real else "i", z3.simplify(t) if not real else t)

    @staticmethod
    def num(v):
        if isinstance(v, (bool, enum.IntEnum)):
            return int(v)
        return v

    def compare(self, op, a, b):
        """bool or Z b"""
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.NotEq):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r if isinstance(r, bool) else Z("b", r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r if isinstance(r, bool) else Z("b", r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r if isinstance(r, bool) else Z("b", r)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if kindof(a) is None or kindof(b) is None:
            if a is None or b is None:
                raise PyRaise(TypeError, "comparison with None")
            raise Unsupported("order of %r and %r" % (a, b))
        if not isinstance(a, Z) and not isinstance(b, Z):
            a, b = self.num(a), self.num(b)
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        real = "r" in (kindof(a), kindof(b))
        x, y = (zreal(a), zreal(b)) if real else (zint(a), zint(b))
        t = x < y if isinstance(op, ast.Lt) else x <= y if isinstance(op, ast.LtE) else \
            x > y if isinstance(op, ast.Gt) else x >= y
        return Z("b", t)

    def equal(self, a, b):
        if isinstance(a, (str, SV)) and isinstance(b, (str, SV)):
            return self.seq(a, b)
        if kindof(a) and kindof(b):
            if not isinstance(a, Z) and not isinstance(b, Z):
                return self.num(a) == self.num(b)
            if kindof(a) == "b" and kindof(b) == "b":
                return zof(a) == zof(b)
            real = "r" in (kindof(a), kindof(b))
            return zreal(a) == zreal(b) if real else zint(a) == zint(b)
        if isinstance(a, Tok) and isinstance(b, Tok):
            self.fact(z3.Implies(tstart(a.i) == tstart(b.i), a.i == b.i))
            return a.i == b.i
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            fs = [self.equal(x, y) for x, y in zip(a, b)]
            if any(f is False for f in fs):
                return False
            fs = [f for f in fs if f is not True]
            return self.conj(fs) if fs else True
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            la, lb = self.aslist(a), self.aslist(b)
            if la is not None and lb is not None:
                return self.equal(tuple(la), tuple(lb))
            oa = self.st.heap[a.id]
            if isinstance(oa, Obj) and self.clsattr(oa.cls, "__eq__") is not None:
                raise Unsupported("user-defined equality")
            return self.identical(a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if a is None or b is None or kindof(a) or kindof(b) or isinstance(a, (str, SV, Tok)) or isinstance(b, (str, SV, Tok)):
                return False
            la = self.aslist(a) if not isinstance(a, tuple) else None
            lb = self.aslist(b) if not isinstance(b, tuple) else None
            if la is not None and lb is not None:
                return self.equal(tuple(la), tuple(lb))
            raise Unsupported("equality of %r, %r" % (a, b))
        if isinstance(a, (Z, SV, Tok)) or isinstance(b, (Z, SV, Tok)):
            return False
        try:
            return bool(a == b)
        except Exception:                                        # noqa: BLE001
            raise Unsupported("equality of %r, %r" % (a, b))

    def identical(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, MRes) or isinstance(b, MRes):
            raise Unsupported("identity of a match")
        ta, tb = self.tagof(a), self.tagof(b)
        if isinstance(a, Z) or isinstance(b, Z):
            if kindof(a) is None or kindof(b) is None:
                return False
            if kindof(a) == "b" and kindof(b) == "b":
                return zof(a) == zof(b)
            if kindof(a) != kindof(b):
                return False
            if ta != tb:
                if ta is None or tb is None:
                    raise Unsupported("identity of an untyped number")
                return False
            if ta is None:
                raise Unsupported("identity of numbers")
            return zint(a) == zint(b)
        if isinstance(a, (str, SV)) and isinstance(b, (str, SV)):
            return self.seq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            raise_alias = self.may_alias(a, b)
            if raise_alias:
                raise Unsupported("possible aliasing of records")
            return False
        if isinstance(a, Tok) and isinstance(b, Tok):
            return self.equal(a, b)
        if isinstance(a, El) and isinstance(b, El):
            return False if a.name != b.name else a.i == b.i
        if isinstance(a, (Ref, Tok, El)) or isinstance(b, (Ref, Tok, El)):
            return False
        return a is b or (type(a) is type(b) and isinstance(a, (int, bool)) and a == b)

    def may_alias(self, a, b):
        oa, ob = self.st.heap[a.id], self.st.heap[b.id]
        return getattr(oa, "hv", None) is not None and getattr(ob, "hv", None) is not None

    def contains(self, cont, x):
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, WsV):
            t = tpart(x)
            if t is None:
                if isinstance(x, str) and len(x) == 1:
                    return isdel(z3.IntVal(ord(x)))
                raise Unsupported("membership in the delimiters")
            if not self.branch(Z("b", t[1] - t[0] == 1)):
                if cont.isset or self.branch(Z("b", t[1] - t[0] == 0)):
                    return not cont.isset
                raise Unsupported("longer text looked up in the delimiters")
            return isdel(inch(t[0]))
        if isinstance(cont, str) and tpart(x) is not None:
            t = tpart(x)
            if self.branch(Z("b", t[0] == t[1])):
                return True
            if not self.branch(Z("b", t[1] - t[0] == 1)):
                if len(cont) <= 1:
                    return False
                raise Unsupported("substring test")
            return self.disj([inch(t[0]) == ord(c) for c in dict.fromkeys(cont)])
        if isinstance(cont, str) and isinstance(x, SV):
            cs = self.chars_of(x)
            if len(cs) != 1:
                raise Unsupported("substring test")
            fs = [self.seq(x, c) for c in dict.fromkeys(cont)]
            return self.disj(fs)
        if isinstance(cont, SV):
            raise Unsupported("substring test on a symbolic text")
        if isinstance(cont, (list, tuple, set, frozenset)):
            return self.disj([self.equal(x, self.lift(c)) for c in cont])
        if isinstance(cont, dict):
            return self.disj([self.equal(x, self.lift(c)) for c in cont])
        if isinstance(cont, RangeV):
            if cont.c != 1:
                raise Unsupported("range step")
            lo = self.compare(ast.LtE(), cont.a, x)
            hi = self.compare(ast.Lt(), x, cont.b)
            fs = [f if isinstance(f, bool) else f.t for f in (lo, hi)]
            if False in fs:
                return False
            fs = [f for f in fs if f is not True]
            return self.conj(fs) if fs else True
        if isinstance(cont, Ref):
            o = self.st.heap[cont.id]
            if isinstance(o, LObj):
                return self.disj([self.equal(x, c) for c in o.items])
        raise Unsupported("membership in %r" % (cont,))

    @staticmethod
    def disj(fs):
        if any(f is True for f in fs):
            return True
        fs = [f for f in fs if f is not False]
        return (z3.Or(*fs) if len(fs) > 1 else fs[0]) if fs else False

    # ------------------------------------------------------------ heap
    def alloc(self, o):
        i = self.st.nid
        self.st.nid += 1
        self.st.heap[i] = o
        return Ref(i)

    def newlist(self, items):
        return self.alloc(LObj(list(items)))

    def aslist(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, list):
            return [self.lift(x) for x in v]
        if isinstance(v, Ref):
            o = self.st.heap[v.id]
            if isinstance(o, LObj) and o.kind != "dict":
                return list(o.items)
        return None

    # --- lists of any length
    def gbound(self, i, n, dflt):
        """a slice bound as a position in 0..n"""
        if i is None:
            return dflt
        if kindof(i) not in ("i", "b"):
            raise PyRaise(TypeError)
        t = zint(i)
        if self.branch(Z("b", t < 0)):
            t = t + n
            if self.branch(Z("b", t < 0)):
                return z3.IntVal(0)
        if self.branch(Z("b", t > n)):
            return n
        return z3.simplify(t)

    def gcut(self, segs, pos):
        """segments before and after a position in 0..length"""
        off = z3.IntVal(0)
        for k, s in enumerate(segs):
            if self.branch(Z("b", pos <= off)):
                return segs[:k], segs[k:]
            ln = z3.IntVal(1) if s[0] == "v" else s[3] - s[2]
            if s[0] == "o" and self.branch(Z("b", pos < off + ln)):
                m = z3.simplify(s[2] + pos - off)
                return segs[:k] + [("o", s[1], s[2], m)], [("o", s[1], m, s[3])] + segs[k + 1:]
            off = z3.simplify(off + ln)
        return segs, []

    def gsegs(self, v):
        if isinstance(v, Ref) and isinstance(self.st.heap[v.id], GList):
            return list(self.st.heap[v.id].segs)
        return [("v", x) for x in self.iterate(v)]

    def gat(self, o, i):
        if kindof(i) not in ("i", "b"):
            raise PyRaise(TypeError)
        it, n = zint(i), o.length()
        if self.branch(Z("b", it < 0)):
            it = z3.simplify(it + n)
            if self.branch(Z("b", it < 0)):
                raise PyRaise(IndexError)
        if self.branch(Z("b", it >= n)):
            raise PyRaise(IndexError)
        off = z3.IntVal(0)
        for s in o.segs:
            ln = z3.IntVal(1) if s[0] == "v" else s[3] - s[2]
            if self.branch(Z("b", it < off + ln)):
                return s[1] if s[0] == "v" else self.gelem(s[1], z3.simplify(s[2] + it - off))
            off = z3.simplify(off + ln)
        raise PathEnd()

    def gelem(self, name, i):
        if name == "S":
            return txt(i, i + 1)
        return El(name, i, self.gcls[name])

    def gslice(self, o, a, b):
        n = o.length()
        a, b = self.gbound(a, n, z3.IntVal(0)), self.gbound(b, n, n)
        if self.branch(Z("b", a >= b)):
            return a, a, []
        pre, _ = self.gcut(o.segs, b)
        return a, b, self.gcut(pre, a)[1]

    def gsplice(self, o, a, b, new):
        """o[a:b] = new"""
        pre, _ = self.gcut(o.segs, a)
        _, post = self.gcut(o.segs, b)
        o.segs = pre + new + post

    def gmethod(self, o, n, args):
        if n == "append" and len(args) == 1:
            o.segs.append(("v", args[0]))
            return None
        if n == "extend" and len(args) == 1:
            o.segs += self.gsegs(args[0])
            return None
        if n == "insert" and len(args) == 2:
            p = self.gbound(args[0], o.length(), None)
            self.gsplice(o, p, p, [("v", args[1])])
            return None
        if n == "pop" and len(args) <= 1:
            i = args[0] if args else -1
            v = self.gat(o, i)
            it = zint(i)
            p = self.gbound(i, o.length(), None)
            self.gsplice(o, p, z3.simplify(p + 1), [])
            return v
        if n == "clear":
            o.segs = []
            return None
        if n == "copy":
            return self.alloc(GList(o.segs))
        if n == "__len__":
            return Z("i", o.length())
        raise Unsupported("list." + n)

    @staticmethod
    def lift(v):
        if isinstance(v, float):
            return Fraction(repr(v))
        return v

    @staticmethod
    def clsattr(cls, name):
        for k in cls.__mro__:
            if k is object:
                continue
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def hvattr(self, o, a):
        """arbitrary initial value of an attribute of an object from before the contract boundary"""
        d = self.rec_tmpl[a]
        nm = "%s.%s" % (o.hv, a)
        role = self.repo.rec_role.get(a)
        if isinstance(d, bool):
            return Z("b", z3.Bool(nm))
        if role in ("base", "sub"):
            return Z("i", z3.Int(nm), role)
        if isinstance(d, int):
            return Z("i", z3.Int(nm))
        if isinstance(d, float):
            return Z("r", z3.Real(nm))
        if isinstance(d, str):
            return opaque(z3.Int(nm))
        raise Unsupported("attribute %s of unknown kind" % a)

    def getattr(self, v, a):
        if isinstance(v, Tok):
            r = self.tokattr(v, a)
            if r is not None:
                return r
            return self.bind(self.clsattr(self.repo.Token, a), v, a, self.repo.Token)
        if isinstance(v, Ref):
            o = self.st.heap[v.id]
            if isinstance(o, (LObj, WList, TList, GList)):
                return Builtin(a, v)
            if a == "__class__":
                return o.cls
            if a in o.a:
                return o.a[a]
            if o.cls is self.repo.Rec and a in self.rec_tmpl:
                if self.rel_rec is not None and self.repo.rec_role.get(a) is not None and \
                        self.repo.rec_role[a] not in self.rel_any:
                    return self.hvattr(Obj(o.cls, hv=self.name("irr")), a)
                if o.hv is not None:
                    x = self.hvattr(o, a)
                    o.a[a] = x
                    return x
            c = self.clsattr(o.cls, a)
            if c is None and not any(a in k.__dict__ for k in o.cls.__mro__):
                raise PyRaise(AttributeError, "%s.%s" % (o.cls.__name__, a))
            return self.bind(c, v, a, o.cls)
        if isinstance(v, (str, SV)):
            return Builtin(a, v)
        if isinstance(v, (Z, Fraction)) or isinstance(v, (bool, int)) and not isinstance(v, enum.Enum):
            return Builtin(a, v)
        if v is None:
            raise PyRaise(AttributeError, "None.%s" % a)
        if isinstance(v, (DictRes, tuple)):
            return Builtin(a, v)
        if isinstance(v, MRes):
            return Builtin(a, v)
        if isinstance(v, SuperV):
            for k in v.cls.__mro__[v.cls.__mro__.index(v.after) + 1:]:
                if a in k.__dict__:
                    if k is object:
                        return BM(lambda *x: None, v.obj)
                    return self.bind(k.__dict__[a], v.obj, a, k)
            raise PyRaise(AttributeError, a)
        if isinstance(v, (list, dict, set, frozenset)):
            return Builtin(a, v)
        if isinstance(v, type):
            if issubclass(v, enum.Enum) and a in v.__members__:
                return v[a]
            c = self.clsattr(v, a)
            if isinstance(c, staticmethod):
                return c.__func__
            if isinstance(c, classmethod):
                return BM(c.__func__, v)
            if c is None and not hasattr(v, a):
                raise PyRaise(AttributeError, "%s.%s" % (v.__name__, a))
            return self.lift(c if c is not None else getattr(v, a))
        if isinstance(v, types.ModuleType):
            return self.lift(getattr(v, a))
        if isinstance(v, BM) or isinstance(v, Builtin) or isinstance(v, Closure):
            raise Unsupported("attribute %s of a function" % a)
        try:
            return self.lift(getattr(v, a))
        except AttributeError:
            raise PyRaise(AttributeError, a)

    def bind(self, c, v, a, cls):
        if isinstance(c, staticmethod):
            return c.__func__
        if isinstance(c, classmethod):
            return BM(c.__func__, cls)
        if isinstance(c, property):
            return self.call(BM(c.fget, v), [], {})
        if isinstance(c, types.FunctionType):
            return BM(c, v)
        return self.lift(c)

    def setattr(self, v, a, x):
        if isinstance(v, Tok):
            role = self.repo.tok_role.get(a)
            ov = self.st.flags.get("typing")
            if ov is not None and role in ("base", "sub"):
                ov = dict(ov)
                ov[(role, "set")] = x
                self.st.flags["typing"] = HDict(ov)
                return
            self.st.events.append(Ev("write", what="attribute %s of a token" % a))
            raise Unsupported("write to attribute %s of a token" % a)
        if isinstance(v, Ref):
            o = self.st.heap[v.id]
            if not isinstance(o, Obj):
                raise PyRaise(AttributeError, a)
            c = self.clsattr(o.cls, a)
            if isinstance(c, property):
                self.call(BM(c.fset, v), [x], {})
                return
            if o.kind == "stale":
                raise Unsupported("write to a record held across a call")
            if o.cls is self.repo.Rec and a in self.rec_tmpl and not self.haskind(self.rec_tmpl[a], x):
                raise Unsupported("attribute %s of a record is given a value of another kind" % a)
            if o.cls is self.repo.Rec and self.rel_rec is not None:
                role = self.repo.rec_role.get(a)
                if role is not None and role not in self.rel_any:
                    return
            o.a[a] = x
            return
        if isinstance(v, (type, types.ModuleType)):
            self.st.events.append(Ev("write", what="%s.%s" % (v.__name__, a)))
            raise Unsupported("write to shared attribute %s.%s" % (v.__name__, a))
        raise Unsupported("attribute store on %r" % (v,))

    @staticmethod
    def haskind(d, x):
        """x is of the kind of the default value d of a record's attribute"""
        if isinstance(d, str):
            return isinstance(x, (str, SV))
        k = kindof(x)
        if isinstance(d, bool):
            return k == "b"
        if isinstance(d, int):
            return k in ("i", "b")
        if isinstance(d, float):
            return k is not None
        return True

    # ------------------------------------------------------------ lists
    def wlen(self, o):
        t = o.n0 + len(o.app) if o.app else o.n0
        return Z("i", z3.simplify(t))

    def windex(self, ref, idx):
        o = self.st.heap[ref.id]
        n = self.wlen(o).t
        it = zint(idx)
        if isinstance(idx, int) and idx < 0 or isinstance(idx, Z) and self.branch(Z("b", it < 0)):
            it = z3.simplify(n + it)
            if self.branch(Z("b", it < 0)):
                raise PyRaise(IndexError, "list index")
        if self.branch(Z("b", it >= n)):
            raise PyRaise(IndexError, "list index")
        return self.wat(o, it)

    def wat(self, o, it):
        d = z3.simplify(it - o.n0)
        if z3.is_int_value(d):
            k = d.as_long()
            if 0 <= k < len(o.app):
                return o.app[k]
            if -len(o.w) <= k < 0:
                return o.w[-k - 1]
        if o.w is None:
            raise Unsupported("element of the error list")
        # by the solver
        for k in list(range(len(o.app) - 1, -1, -1)) + [-1, -2, -3]:
            if -k > len(o.w):
                continue
            if self.entailed(it == o.n0 + k):
                return o.app[k] if k >= 0 else o.w[-k - 1]
        if self.entailed(it == 0) and o.first is not None:
            conds = [o.n0 == 1, o.n0 == 2, o.n0 == 3, o.n0 > 3]
            k = self.choose(conds)
            return o.w[k] if k < 3 else o.first
        raise Unsupported("record at an arbitrary position")

    def index(self, v, i):
        if isinstance(v, Ref):
            o = self.st.heap[v.id]
            if isinstance(o, LObj):
                if o.kind == "dict":
                    return self.dictget(o.items, i)
                if isinstance(i, (bool, int)):
                    try:
                        return o.items[i]
                    except IndexError:
                        raise PyRaise(IndexError)
                if isinstance(i, Z) and i.k == "i":
                    n = len(o.items)
                    for k in range(n):
                        if self.branch(Z("b", z3.Or(i.t == k, i.t == k - n))):
                            return o.items[k]
                    raise PyRaise(IndexError)
                raise Unsupported("list index %r" % (i,))
            if isinstance(o, GList):
                return self.gat(o, i)
            if isinstance(o, WList):
                if kindof(i) not in ("i", "b"):
                    raise PyRaise(TypeError)
                return self.windex(v, i)
            if isinstance(o, TList):
                if kindof(i) not in ("i", "b"):
                    raise PyRaise(TypeError)
                it = zint(i)
                if self.branch(Z("b", it < 0)):
                    it = z3.simplify(it + ntok)
                    if self.branch(Z("b", it < 0)):
                        raise PyRaise(IndexError)
                if self.branch(Z("b", it >= ntok)):
                    raise PyRaise(IndexError)
                return self.tok(it)
            f = self.clsattr(o.cls, "__getitem__")
            if f is not None:
                return self.call(BM(f, v), [i], {})
            raise PyRaise(TypeError, "not subscriptable")
        if isinstance(v, (str, SV)):
            if isinstance(v, str) and isinstance(i, int):
                try:
                    return v[i]
                except IndexError:
                    raise PyRaise(IndexError)
            t = tpart(v)
            if t is not None:
                if kindof(i) not in ("i", "b"):
                    raise PyRaise(TypeError)
                k, n = zint(i), t[1] - t[0]
                if self.branch(Z("b", k < 0)):
                    k = k + n
                    if self.branch(Z("b", k < 0)):
                        raise PyRaise(IndexError)
                if self.branch(Z("b", k >= n)):
                    raise PyRaise(IndexError)
                return txt(t[0] + k, t[0] + k + 1)
            if not isinstance(i, int):
                raise Unsupported("character at a symbolic position")
            cs = self.chars_of(v)
            if not -len(cs) <= i < len(cs):
                raise PyRaise(IndexError)
            if i < 0:
                i += len(cs)
            return self.slice(v, i, i + 1)
        if isinstance(v, (list, tuple)):
            if isinstance(i, (bool, int)):
                try:
                    return self.lift(v[i])
                except IndexError:
                    raise PyRaise(IndexError)
            if isinstance(i, Z) and i.k == "i":
                n = len(v)
                for k in range(n):
                    if self.branch(Z("b", z3.Or(i.t == k, i.t == k - n))):
                        return self.lift(v[k])
                raise PyRaise(IndexError)
            raise PyRaise(TypeError)
        if isinstance(v, dict):
            return self.dictget(v, i)
        if isinstance(v, DictRes):
            if i in v.d:
                return v.d[i]
            raise Unsupported("result field %r" % (i,))
        if v is None:
            raise PyRaise(TypeError, "None[...]")
        raise Unsupported("index of %r" % (v,))

    def dictget(self, d, i, default=PyRaise):
        if not isinstance(i, (Z, SV)):
            for k in d:
                if self.equal(self.lift(k), i) is True:
                    return self.lift(d[k])
            if default is PyRaise:
                raise PyRaise(KeyError, repr(i))
            return default
        fs = [self.equal(self.lift(k), i) for k in d]
        conds = [z3.BoolVal(f) if isinstance(f, bool) else f for f in fs]
        k = self.choose(conds + [z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True)])
        if k == len(conds):
            if default is PyRaise:
                raise PyRaise(KeyError)
            return default
        return self.lift(d[list(d)[k]])

    def tok(self, it):
        it = z3.simplify(it)
        self.tokfacts(it)
        return Tok(it)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("interpretation budget exhausted")
        if isinstance(f, BM):
            if isinstance(f.f, types.FunctionType):
                return self.callf(f.f, [f.self] + args, kw)
            return f.f(f.self, *args)
        if isinstance(f, Builtin):
            return self.method(f, args, kw)
        if isinstance(f, Closure):
            return self.callc(f, args, kw)
        if isinstance(f, types.FunctionType):
            if self.repo.finfo(f) is not None:
                return self.callf(f, args, kw)
            return self.external(f, args, kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if callable(f):
            return self.external(f, args, kw)
        raise PyRaise(TypeError, "%r is not callable" % (f,))

    def bindargs(self, node, fobj, args, kw):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if len(args) > len(pos) and not a.vararg:
            raise PyRaise(TypeError, "too many arguments")
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in loc:
                    raise PyRaise(TypeError, "duplicate argument")
                loc[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(TypeError, "unexpected argument " + k)
        if a.kwarg:
            loc[a.kwarg.arg] = self.alloc(LObj(extra, "dict"))
        defs = list(fobj.__defaults__ or ()) if isinstance(fobj, types.FunctionType) else fobj or []
        for n, v in zip(pos[len(pos) - len(defs):], defs):
            if n not in loc:
                loc[n] = self.lift(v)
        kwd = (fobj.__kwdefaults__ or {}) if isinstance(fobj, types.FunctionType) else {}
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg in kwd:
                    loc[x.arg] = self.lift(kwd[x.arg])
                else:
                    raise PyRaise(TypeError, "missing argument " + x.arg)
        for n in pos:
            if n not in loc:
                raise PyRaise(TypeError, "missing argument " + n)
        return loc

    def callf(self, f, args, kw):
        fi = self.repo.finfo(f)
        if fi is None:
            return self.external(f, args, kw)
        self.used_funcs.add(fi.qual)
        loc = self.bindargs(fi.node, f, args, kw)
        if self.call_hook is not None:
            r = self.call_hook(fi, f, loc)
            if r is not None:
                return r[0]
        cnt = sum(1 for x in self.stack if x is fi)
        if cnt > 8:
            raise Unsupported("recursion in " + fi.qual)

        def run():
            self.stack.append(fi)
            self.depth_max = max(self.depth_max, len(self.stack) + self.xdepth)
            try:
                fr = Frame(dict(loc), f.__globals__, fi.cls, None, fi)
                try:
                    self.block(fi.node.body, fr)
                except Ret as r:
                    return r.v
                return None
            finally:
                self.stack.pop()
        if self.mode == "parser" and fi.qual in self.repo.branchy and fi.qual not in self.repo.reach:
            st0 = list(self.stack)
            try:
                return self.nested(run, fi.qual)
            finally:
                self.stack = st0
        return run()

    def callc(self, c, args, kw):
        node = c.node
        loc = self.bindargs(node, [self.eval(d, c.env) for d in node.args.defaults], args, kw)
        fr = Frame(loc, c.glob, c.cls, c.env)
        self.xdepth += 1
        self.depth_max = max(self.depth_max, len(self.stack) + self.xdepth)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            try:
                self.block(node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.xdepth -= 1

    def construct(self, cls, args, kw):
        if cls is int:
            if not args:
                return 0
            if len(args) > 1:
                if isinstance(args[0], str) and isinstance(args[1], int):
                    return int(args[0], args[1])
                raise Unsupported("int with a base")
            return self.to_int(args[0])
        if cls is float:
            v = args[0] if args else 0
            if isinstance(v, str):
                try:
                    return Fraction(v)
                except ValueError:
                    raise PyRaise(ValueError)
            if isinstance(v, SV):
                v = self.to_int(v)
            if kindof(v) is None:
                raise PyRaise(TypeError)
            return Fraction(v) if not isinstance(v, Z) else Z("r", zreal(v))
        if cls is str:
            return self.tostr(args[0]) if args else ""
        if cls is bool:
            t = self.truth(args[0]) if args else False
            return t if isinstance(t, bool) else Z("b", t)
        if cls is list and args and isinstance(args[0], Ref) and isinstance(self.st.heap[args[0].id], GList):
            return self.alloc(GList(self.st.heap[args[0].id].segs))
        if cls in (set, frozenset) and args and isinstance(args[0], WsV):
            return WsV(True)
        if cls in (list, tuple) and args and isinstance(args[0], WsV):
            return WsV(True)
        if cls is list and args and tpart(args[0]) is not None:
            t = tpart(args[0])
            return self.alloc(GList([("o", "S", t[0], t[1])]))
        if cls in (list, tuple, set, frozenset):
            items = self.iterate(args[0]) if args else []
            if cls is tuple:
                return tuple(items)
            if cls in (set, frozenset) and any(isinstance(x, (Z, SV)) for x in items):
                raise Unsupported("set of symbolic values")
            return self.newlist(items) if cls is list else cls(items)
        if cls is dict:
            if args or kw:
                raise Unsupported("dict()")
            return self.alloc(LObj({}, "dict"))
        if cls is range:
            a = list(args)
            if len(a) == 1:
                return RangeV(0, a[0], 1)
            return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)
        if cls is enumerate and tpart(args[0]) is not None:
            return EnumV(args[0], args[1] if len(args) > 1 else kw.get("start", 0))
        if cls is enumerate:
            items = self.iterate(args[0])
            s = args[1] if len(args) > 1 else kw.get("start", 0)
            return tuple((s + k, x) for k, x in enumerate(items))
        if cls is zip:
            return tuple(zip(*[self.iterate(a) for a in args]))
        if cls is map:
            return tuple(self.call(args[0], [x], {}) for x in self.iterate(args[1]))
        if cls is reversed:
            return tuple(reversed(self.iterate(args[0])))
        if cls is type and len(args) == 1:
            v = args[0]
            if isinstance(v, Ref):
                o = self.st.heap[v.id]
                return o.cls if isinstance(o, Obj) else list
            if isinstance(v, Tok):
                return self.repo.Token
            if isinstance(v, (str, SV)):
                return str
            return type(v)
        if cls is super:
            if args:
                raise Unsupported("super with arguments")
            raise Unsupported("super outside a method")
        if issubclass(cls, BaseException):
            return ExcV(cls, args)
        if issubclass(cls, enum.Enum):
            v = args[0]
            if isinstance(v, Z):
                vals = [int(m) for m in cls]
                if self.branch(Z("b", z3.Or(*[zint(v) == x for x in vals]))):
                    return Z("i", zint(v), "base" if cls is self.repo.Base else "sub" if cls is self.repo.Sub else None)
                raise PyRaise(ValueError)
            try:
                return cls(v)
            except ValueError:
                raise PyRaise(ValueError)
        if not cls.__module__.split(".")[0] in ("F15_Parser", "Tokenizer", "Utilities"):
            if cls is object:
                return self.alloc(Obj(object))
            raise Unsupported("construction of %s" % cls.__name__)
        r = self.alloc(Obj(cls))
        f = self.clsattr(cls, "__init__")
        if isinstance(f, types.FunctionType):
            if self.repo.finfo(f) is None:                       # e.g. a dataclass
                import inspect
                ba = inspect.signature(f).bind(r, *args, **kw)
                ba.apply_defaults()
                for k, v in list(ba.arguments.items())[1:]:
                    self.setattr(r, k, self.lift(v))
            else:
                self.callf(f, [r] + args, kw)
        elif args or kw:
            raise PyRaise(TypeError, "constructor arguments")
        return r

    def iterate(self, v, folds=False):
        r = self.iterate_(v)
        if not folds and any(isinstance(x, FoldItems) for x in r):
            raise Unsupported("iteration over what a loop over the records made")
        return r

    def iterate_(self, v):
        if isinstance(v, (tuple, list)):
            return [self.lift(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return [self.lift(x) for x in sorted(v, key=repr)]
        if isinstance(v, dict):
            return [self.lift(x) for x in v]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SV):
            n = len(self.chars_of(v))
            return [self.slice(v, k, k + 1) for k in range(n)]
        if isinstance(v, RangeV):
            if all(isinstance(x, int) for x in (v.a, v.b, v.c)):
                r = range(v.a, v.b, v.c)
                if len(r) > 2000:
                    raise Unsupported("long loop")
                return list(r)
            raise Unsupported("loop over a symbolic range")
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return list(v)
        if isinstance(v, GenExp):
            self.xdepth += 1
            try:
                return self.comp(v.node, v.frame)
            finally:
                self.xdepth -= 1
        if isinstance(v, Ref):
            o = self.st.heap[v.id]
            if isinstance(o, LObj):
                return list(o.items)
            if isinstance(o, WList) and z3.is_int_value(z3.simplify(o.n0)) and z3.simplify(o.n0).as_long() == 0:
                return list(o.app)
            raise Unsupported("iteration over a list of unknown length here")
        if v is None or kindof(v):
            raise PyRaise(TypeError, "not iterable")
        raise Unsupported("iteration over %r" % (v,))

    def tostr(self, v):
        if isinstance(v, (str, SV)):
            return v
        if isinstance(v, enum.IntEnum):
            return str(int(v)) if str(v) == str(int(v)) else str(v)
        if isinstance(v, Z):
            return mkstr([("f", "str", v)])
        if isinstance(v, (bool, int)) or v is None:
            return str(v)
        if isinstance(v, Fraction):
            return mkstr([("f", "str", v)])
        raise Unsupported("str of %r" % (v,))

    def format(self, v, spec):
        if isinstance(v, str):
            return format(v, spec)
        if isinstance(v, SV):
            if spec == "":
                return v
            return mkstr([("f", spec, v)])
        if isinstance(v, (bool, int)) and not isinstance(v, Z):
            return format(int(v) if isinstance(v, enum.IntEnum) else v, spec)
        if kindof(v):
            return mkstr([("f", spec, v)])
        if v is None:
            return format(None, spec)
        raise Unsupported("format of %r" % (v,))

    def percent(self, f, args):
        args = list(args) if isinstance(args, tuple) else [args]
        out = []
        pos = 0
        for m in re.finditer(r"%(%|[-+0 #]*\d*(?:\.\d+)?[sdifr])", f):
            out.append(f[pos:m.start()])
            pos = m.end()
            if m.group(1) == "%":
                out.append("%")
                continue
            if not args:
                raise PyRaise(TypeError)
            v = args.pop(0)
            c = m.group(1)
            if c == "s":
                out += self.parts(self.tostr(v))
            elif c == "d" and kindof(v) == "i":
                out += self.parts(self.tostr(v))
            elif c[-1] == "f":
                out += self.parts(self.format(v, c))
            else:
                raise Unsupported("%% format " + c)
        out.append(f[pos:])
        return mkstr(out)

    @staticmethod
    def parts(v):
        return [v] if isinstance(v, str) else list(v.p)

    def strformat(self, f, args, kw):
        import string
        out = []
        auto = 0
        try:
            fields = list(string.Formatter().parse(f))
        except ValueError:
            raise PyRaise(ValueError)
        for text, name, spec, conv in fields:
            out.append(text)
            if name is None:
                continue
            if "{" in (spec or "") or conv:
                raise Unsupported("nested format")
            if name == "":
                v = args[auto]
                auto += 1
            elif name.isdigit():
                if int(name) >= len(args):
                    raise PyRaise(IndexError)
                v = args[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                raise Unsupported("format field " + name)
            out += self.parts(self.format(v, spec or ""))
        return mkstr(out)

    def method(self, b, args, kw):
        s, n = b.self, b.name
        if isinstance(s, (str, SV)):
            if n == "format" and isinstance(s, str):
                return self.strformat(s, args, kw)
            if n == "join" and s == "" and isinstance(args[0], Ref) and isinstance(self.st.heap[args[0].id], GList):
                out = ""
                for x in self.st.heap[args[0].id].segs:
                    if x[0] == "o" and x[1] != "S":
                        raise Unsupported("join")
                    out = self.concat(out, x[1] if x[0] == "v" else txt(x[2], x[3]))
                return out
            if n == "join" and s == "" and not isinstance(args[0], (str, SV)):
                items = self.iterate(args[0], folds=True)
                if any(tpart(x) is not None for x in items):
                    out = ""
                    for x in items:
                        out = self.concat(out, x)
                    return out
            if n == "join":
                items = self.iterate(args[0], folds=True)
                out = []
                for k, x in enumerate(items):
                    if k:
                        out += self.parts(s)
                    if isinstance(x, FoldItems):
                        if not isinstance(s, str):
                            raise Unsupported("join")
                        out.append(self.fold_hook(self, "join", x, s))
                        continue
                    if not isinstance(x, (str, SV)):
                        raise PyRaise(TypeError)
                    out += self.parts(x)
                return mkstr(out)
            if isinstance(s, str) and all(isinstance(a, (str, int, tuple)) or a is None for a in args) and \
                    n in ("upper", "lower", "strip", "rstrip", "lstrip", "split", "replace", "startswith", "endswith",
                          "isdigit", "isalpha", "find", "index", "count", "ljust", "rjust", "zfill", "isspace",
                          "title", "isdecimal", "isupper", "isalnum"):
                try:
                    r = getattr(s, n)(*args, **kw)
                except Exception as e:                           # noqa: BLE001
                    raise PyRaise(type(e))
                return self.newlist(r) if isinstance(r, list) else r
            if n == "replace" and isinstance(s, str) and len(args) == 2 and isinstance(args[0], str) and \
                    isinstance(args[1], SV):
                if s.count(args[0]) == 0:
                    return s
                out = []
                for k, x in enumerate(s.split(args[0])):
                    if k:
                        out += self.parts(args[1])
                    out.append(x)
                return mkstr(out)
            if n in ("startswith", "endswith") and len(args) == 1:
                opts = args[0] if isinstance(args[0], tuple) else (args[0],)
                fs = []
                for o in opts:
                    if not isinstance(o, str):
                        raise Unsupported("prefix test")
                    x = self.slice(s, 0, len(o)) if n == "startswith" else self.slice(s, -len(o), None) if o else ""
                    fs.append(self.seq(x, o))
                r = self.disj(fs)
                return r if isinstance(r, bool) else Z("b", r)
            if n in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isupper"):
                cs = self.chars_of(s)
                ok = {"isdigit": "d", "isdecimal": "d", "isnumeric": "d"}.get(n)
                r = bool(cs)
                for c in cs:
                    k = c[0] if not isinstance(c, str) else "d" if c.isdigit() else "l" if c.isalpha() else "o"
                    r = r and (k == "d" if ok else k == "l" if n == "isalpha" else k in "dl" if n == "isalnum" else k == "l")
                return r
            if n in ("upper",) and all(self.tok_of(p[1]) is not None for p in s.p if not isinstance(p, str) and p[0] == "s"):
                self.chars_of(s)                                 # recognised elements are upper case already
                return s
            if n == "encode":
                raise Unsupported("encode")
            raise Unsupported("string method " + n)
        if isinstance(s, Ref):
            o = self.st.heap[s.id]
            if isinstance(o, WList):
                if n == "append" and len(args) == 1:
                    v = args[0]
                    if not isinstance(v, Ref) or not isinstance(self.st.heap[v.id], Obj) or \
                            self.st.heap[v.id].hv is not None or any(isinstance(x, Ref) and x.id == v.id for x in o.app):
                        raise Unsupported("append of something else than a new record")
                    if o.name == "err" and self.rel_err is None:
                        o.n0 = z3.simplify(o.n0 + 1)
                        return None
                    o.app.append(v)
                    if o.name == "err":
                        e = self.st.heap[v.id]
                        for a in list(e.a):
                            if self.repo.rec_role.get(a) not in self.rel_err:
                                del e.a[a]
                    return None
                if n == "__len__":
                    return self.wlen(o)
                raise Unsupported("list.%s on the result lists" % n)
            if isinstance(o, TList):
                if n == "__len__":
                    return Z("i", ntok)
                raise Unsupported("list.%s on the token list" % n)
            if isinstance(o, GList):
                return self.gmethod(o, n, args)
            if o.kind == "dict":
                if n == "get":
                    return self.dictget(o.items, args[0], args[1] if len(args) > 1 else None)
                if n in ("items", "keys", "values"):
                    return tuple(o.items.items()) if n == "items" else tuple(getattr(o.items, n)())
                raise Unsupported("dict." + n)
            if n == "append":
                o.items.append(args[0])
                return None
            if n == "extend":
                o.items.extend(self.iterate(args[0], folds=True))
                return None
            if n == "insert" and isinstance(args[0], int):
                o.items.insert(args[0], args[1])
                return None
            if n == "pop":
                try:
                    return o.items.pop(*args)
                except IndexError:
                    raise PyRaise(IndexError)
            if n == "clear":
                o.items.clear()
                return None
            if n == "copy":
                return self.newlist(o.items)
            if n == "reverse":
                o.items.reverse()
                return None
            raise Unsupported("list." + n)
        if isinstance(s, dict):
            if n == "get":
                return self.dictget(s, args[0], args[1] if len(args) > 1 else None)
            if n == "items":
                return tuple((self.lift(k), self.lift(v)) for k, v in s.items())
            if n in ("keys", "values"):
                return tuple(self.lift(k) for k in getattr(s, n)())
        if isinstance(s, (list, set, dict)) and n in ("append", "extend", "insert", "pop", "clear", "remove", "add", "update",
                                                      "setdefault", "discard", "sort", "reverse", "popitem"):
            self.st.events.append(Ev("write", what="shared %s changed by %s" % (type(s).__name__, n)))
            raise Unsupported("write to shared data by " + n)
        if isinstance(s, (list, tuple)):
            if n == "index":
                for k, x in enumerate(s):
                    if self.branch(self.wrap(self.equal(self.lift(x), args[0]))):
                        return k
                raise PyRaise(ValueError)
            if n == "count":
                raise Unsupported("count")
        if isinstance(s, DictRes) and n == "get":
            return self.index(s, args[0])
        if isinstance(s, MRes):
            raise Unsupported("match groups")
        if n == "bit_length" or isinstance(s, (Z, int, Fraction)):
            if n == "is_integer" and isinstance(s, Z) and s.k == "r":
                return Z("b", z3.ToReal(z3.ToInt(s.t)) == s.t)
            raise Unsupported("number method " + n)
        raise Unsupported("method %s of %r" % (n, s))

    @staticmethod
    def wrap(r):
        return r if isinstance(r, bool) else Z("b", r)

    def external(self, f, args, kw):
        nm = getattr(f, "__name__", "")
        mod = getattr(f, "__module__", "") or ""
        if f is len:
            v = args[0]
            if isinstance(v, (str, SV)):
                return self.slen_of(v)
            if isinstance(v, (list, tuple, dict, set, frozenset)):
                return len(v)
            if isinstance(v, Ref):
                o = self.st.heap[v.id]
                if isinstance(o, LObj):
                    return len(o.items)
                if isinstance(o, WList):
                    n = self.wlen(o)
                    s = z3.simplify(n.t)
                    return s.as_long() if z3.is_int_value(s) else n
                if isinstance(o, TList):
                    return Z("i", ntok)
                if isinstance(o, GList):
                    return Z("i", o.length())
                g = self.clsattr(o.cls, "__len__")
                if g is not None:
                    return self.call(BM(g, v), [], {})
            if v is None or kindof(v):
                raise PyRaise(TypeError, "len")
            raise Unsupported("len of %r" % (v,))
        if f is abs:
            v = args[0]
            if not isinstance(v, Z):
                return abs(self.num(v))
            return Z(v.k, z3.If(v.t >= 0, v.t, -v.t))
        if f is int or f is float or f is str:
            return self.construct(f, args, kw)
        if f in (min, max):
            vs = list(args) if len(args) > 1 else self.iterate(args[0])
            out = vs[0]
            for v in vs[1:]:
                if not isinstance(out, Z) and not isinstance(v, Z):
                    out = f(out, v)
                    continue
                c = self.compare(ast.Lt() if f is min else ast.Gt(), v, out)
                if isinstance(c, bool):
                    out = v if c else out
                else:
                    out = self.mergev([v, out], [c.t, z3.Not(c.t)])
            return out
        if f is round:
            if len(args) == 1:
                v = args[0]
                if not isinstance(v, Z):
                    return round(self.num(v))
                if v.k != "r":
                    return Z("i", zint(v))
                q = z3.ToInt(v.t + z3.RealVal("1/2"))
                tie = z3.And(z3.ToReal(q) == v.t + z3.RealVal("1/2"), q % 2 == 1)
                return Z("i", z3.If(tie, q - 1, q))
            raise Unsupported("round to digits")
        if f is isinstance:
            v, c = args
            cs = c if isinstance(c, tuple) else (c,)
            t = self.construct(type, [v], {}) if not isinstance(v, Z) else \
                {"i": self.repo.Base if v.tag == "base" else self.repo.Sub if v.tag == "sub" else int,
                 "b": bool, "r": float}[v.k]
            if t is Fraction:
                t = float
            return any(issubclass(t, x) for x in cs)
        if f in (any, all):
            v = args[0]
            if isinstance(v, GenExp):
                r = self.search_any(v, f is any)
                if r is not None:
                    return r[0]
            for x in self.iterate(v):
                b = self.branch(x)
                if b and f is any:
                    return True
                if not b and f is all:
                    return False
            return f is all
        if f is sum:
            out = 0
            for x in self.iterate(args[0]):
                out = self.arith("+", out, x)
            return out
        if f is print:
            return None
        if f is getattr:
            if isinstance(args[1], str):
                try:
                    return self.getattr(args[0], args[1])
                except PyRaise as e:
                    if len(args) > 2 and e.cls is AttributeError:
                        return args[2]
                    raise
            raise Unsupported("getattr by a symbolic name")
        if f is hasattr and isinstance(args[1], str):
            try:
                self.getattr(args[0], args[1])
                return True
            except PyRaise:
                return False
        if f is setattr and isinstance(args[1], str):
            self.setattr(args[0], args[1], args[2])
            return None
        if f is ord and tpart(args[0]) is not None:
            t = tpart(args[0])
            if not self.branch(Z("b", t[1] - t[0] == 1)):
                raise PyRaise(TypeError)
            return Z("i", inch(t[0]))
        if f is ord and isinstance(args[0], str):
            return ord(args[0])
        if f is chr and isinstance(args[0], int):
            return chr(args[0])
        if f is next:
            v = args[0]
            if isinstance(v, GenExp):
                items = self.comp_first(v.node, v.frame)
                if items:
                    return items[0]
                if len(args) > 1:
                    return args[1]
                raise PyRaise(StopIteration)
            raise Unsupported("next")
        if f is sorted:
            items = self.iterate(args[0])
            if kw or any(isinstance(x, (Z, SV, Ref, Tok)) for x in items):
                raise Unsupported("sorted")
            return self.newlist(sorted(items))
        if f is divmod:
            return (self.arith("//", args[0], args[1]), self.arith("%", args[0], args[1]))
        if f is float.__call__:
            pass
        if f is copy.deepcopy or f is copy.copy:
            v = args[0]
            if isinstance(v, Tok):
                a = {}
                for n, d in self.repo.tok_attrs.items():
                    a[n] = self.tokattr(v, n)
                return self.alloc(Obj(self.repo.Token, a))
            if isinstance(v, (str, SV, Z, int, Fraction, bool)) or v is None:
                return v
            if isinstance(v, Ref):
                o = self.st.heap[v.id]
                if isinstance(o, Obj) and not any(isinstance(x, Ref) for x in o.a.values()):
                    if o.hv is not None:
                        for a in self.rec_tmpl:
                            self.getattr(v, a)
                    c = o.clone()
                    c.hv, c.kind = None, "obj"
                    return self.alloc(c)
            raise Unsupported("copy of %r" % (v,))
        if f is math.sqrt:
            v = args[0]
            t = z3.simplify(zreal(v))
            if self.branch(Z("b", t < 0)):
                raise PyRaise(ValueError, "sqrt")
            s = usqrt(t)
            self.fact(s >= 0)
            return Z("r", s)
        if f in (math.floor, math.ceil, math.trunc):
            v = args[0]
            if not isinstance(v, Z):
                return f(self.num(v))
            if v.k != "r":
                return Z("i", zint(v))
            return Z("i", z3.ToInt(v.t)) if f is math.floor else Z("i", -z3.ToInt(-v.t)) if f is math.ceil else self.to_int(v)
        if f in (re.fullmatch, re.match, re.search):
            return self.rematch(nm, args[0], args[1], args[2] if len(args) > 2 else kw.get("flags", 0))
        if f is re.compile:
            raise Unsupported("regular expression compiled here")
        if isinstance(getattr(f, "__self__", None), re.Pattern) and nm in ("fullmatch", "match", "search"):
            p = f.__self__
            return self.rematch(nm, p.pattern, args[0], p.flags & ~re.UNICODE)
        if f is saxutils.escape:
            ent = args[1] if len(args) > 1 else kw.get("entities", {})
            if isinstance(ent, Ref):
                ent = self.st.heap[ent.id].items
            return self.escape(args[0], dict(ent or {}))
        if f is saxutils.quoteattr:
            raise Unsupported("quoteattr")
        self_ = getattr(f, "__self__", None)
        if nm in ("Direct", "Inverse") and self_ is not None and type(self_).__name__ == "Geodesic":
            from geographiclib.geodesic import Geodesic
            if self_.a != Geodesic.WGS84.a or self_.f != Geodesic.WGS84.f:
                raise Unsupported("another ellipsoid than WGS84")
            xs = [zreal(a) for a in args[:4]]
            if len(xs) != 4 or kw or len(args) > 4:
                raise Unsupported("geodesic options")
            if nm == "Direct":
                d = {"lat2": Z("r", dirlat(*xs)), "lon2": Z("r", dirlon(*xs))}
                self.fact(z3.And(dirlat(*xs) >= -90, dirlat(*xs) <= 90, dirlon(*xs) >= -180, dirlon(*xs) <= 180)
                          if False else z3.BoolVal(True))
            else:
                d = {"azi1": Z("r", invazi(*xs)), "s12": Z("r", invs12(*xs))}
            return DictRes(d)
        if isinstance(self_, (str, dict, list, tuple)):
            return self.method(Builtin(nm, self_), args, kw)
        raise Unsupported("call of external %s.%s" % (mod, nm))

    def rematch(self, how, pat, text, flags):
        if not isinstance(pat, str):
            raise Unsupported("pattern %r" % (pat,))
        if isinstance(text, str):
            return MRes(z3.BoolVal(getattr(re, how)(pat, text, flags) is not None))
        if not (isinstance(text, SV) and len(text.p) == 1 and text.p[0][0] == "s" and text.p[0][2] == 0 and text.p[0][3] is None):
            raise Unsupported("match of a part of a text")
        key = (how, pat, int(flags))
        return MRes(match(lit(repr(key)), text.p[0][1]))

    def escape(self, v, ent):
        if isinstance(v, str):
            return saxutils.escape(v, ent)
        if not isinstance(v, SV):
            raise PyRaise(TypeError)
        return SV((("x", v.p, tuple(sorted(ent.items()))),))

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        t = type(s)
        if t is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.eval(s.value, fr)
        elif t is ast.Assign:
            v = self.eval(s.value, fr)
            for x in s.targets:
                self.assign(x, v, fr)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr), fr)
        elif t is ast.AugAssign:
            cur = self.eval(self.load(s.target), fr)
            op = BIN.get(type(s.op))
            if op is None:
                raise Unsupported("operator")
            val = self.eval(s.value, fr)
            if isinstance(cur, Ref) and isinstance(self.st.heap[cur.id], GList) and op == "+":
                self.st.heap[cur.id].segs += self.gsegs(val)
                return
            if isinstance(cur, Ref) and isinstance(self.st.heap[cur.id], LObj) and op == "+":
                self.st.heap[cur.id].items.extend(self.iterate(val))
                return
            if isinstance(cur, (list, dict, set)):
                self.st.events.append(Ev("write", what="shared data"))
                raise Unsupported("in-place change of shared data")
            if isinstance(cur, Ref):
                raise Unsupported("in-place operator on an object")
            self.assign(s.target, self.arith(op, cur, val), fr)
        elif t is ast.Return:
            raise Ret(self.eval(s.value, fr) if s.value is not None else None)
        elif t is ast.If:
            if self.branch(self.eval(s.test, fr)):
                self.block(s.body, fr)
            else:
                self.block(s.orelse, fr)
        elif t is ast.Match:
            self.match(s, fr)
        elif t is ast.For:
            self.for_(s, fr)
        elif t is ast.While:
            self.while_(s, fr)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cont()
        elif t is ast.Raise:
            if s.exc is None:
                raise Unsupported("bare raise")
            v = self.eval(s.exc, fr)
            if isinstance(v, ExcV):
                raise PyRaise(v.cls)
            if isinstance(v, type) and issubclass(v, BaseException):
                raise PyRaise(v)
            raise Unsupported("raise")
        elif t is ast.Assert:
            if not self.branch(self.eval(s.test, fr)):
                raise PyRaise(AssertionError)
        elif t is ast.Try:
            self.try_(s, fr)
        elif t is ast.FunctionDef:
            fr.loc[s.name] = Closure(s, fr, fr.glob, fr.cls)
        elif t in (ast.Import, ast.ImportFrom):
            self.import_(s, fr)
        elif t is ast.Global or t is ast.Nonlocal:
            raise Unsupported("global or nonlocal statement")
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Name):
                    fr.loc.pop(x.id, None)
                elif isinstance(x, ast.Subscript):
                    self.delitem(x, fr)
                else:
                    raise Unsupported("del of an element")
        else:
            raise Unsupported("statement %s" % t.__name__)

    def delitem(self, x, fr):
        v = self.eval(x.value, fr)
        o = self.st.heap[v.id] if isinstance(v, Ref) else None
        if isinstance(o, GList):
            if isinstance(x.slice, ast.Slice) and x.slice.step is None:
                a, b, _ = self.gslice(o, self.eval(x.slice.lower, fr) if x.slice.lower else None,
                                      self.eval(x.slice.upper, fr) if x.slice.upper else None)
                self.gsplice(o, a, b, [])
                return
            if not isinstance(x.slice, ast.Slice):
                self.gmethod(o, "pop", [self.eval(x.slice, fr)])
                return
        raise Unsupported("del of an element")

    def import_(self, s, fr):
        import importlib
        if isinstance(s, ast.Import):
            for a in s.names:
                m = importlib.import_module(a.name)
                fr.loc[a.asname or a.name.split(".")[0]] = m if a.asname else importlib.import_module(a.name.split(".")[0])
        else:
            m = importlib.import_module(s.module)
            for a in s.names:
                fr.loc[a.asname or a.name] = getattr(m, a.name)

    @staticmethod
    def load(t):
        c = copy.copy(t)
        c.ctx = ast.Load()
        return c

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.loc[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, self.repo.mangle(t.attr, fr.cls), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            st = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]
                n = len(t.elts) - 1
                if len(items) < n:
                    raise PyRaise(ValueError)
                items = items[:k] + [self.newlist(items[k:len(items) - (n - k)])] + items[len(items) - (n - k):]
            if len(items) != len(t.elts):
                raise PyRaise(ValueError, "unpack")
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            if isinstance(o, Ref) and isinstance(self.st.heap[o.id], GList):
                g = self.st.heap[o.id]
                if isinstance(t.slice, ast.Slice) and t.slice.step is None:
                    a, b, _ = self.gslice(g, self.eval(t.slice.lower, fr) if t.slice.lower else None,
                                          self.eval(t.slice.upper, fr) if t.slice.upper else None)
                    self.gsplice(g, a, b, self.gsegs(v))
                    return
                if not isinstance(t.slice, ast.Slice):
                    i = self.eval(t.slice, fr)
                    self.gat(g, i)
                    p = self.gbound(i, g.length(), None)
                    self.gsplice(g, p, z3.simplify(p + 1), [("v", v)])
                    return
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            k = self.eval(t.slice, fr)
            if isinstance(o, Ref):
                h = self.st.heap[o.id]
                if isinstance(h, LObj) and h.kind == "dict" and not isinstance(k, (Z, SV)):
                    h.items[k] = v
                    return
                if isinstance(h, LObj) and isinstance(k, int) and h.kind == "list":
                    try:
                        h.items[k] = v
                    except IndexError:
                        raise PyRaise(IndexError)
                    return
                raise Unsupported("store into a list of unknown length")
            if isinstance(o, (list, dict)):
                self.st.events.append(Ev("write", what="shared data"))
            raise Unsupported("store into %r" % (o,))
        else:
            raise Unsupported("assignment target")

    def match(self, s, fr):
        v = self.eval(s.subject, fr)
        # every case that is a plain test is one decision
        for c in s.cases:
            b = {}
            r = self.pattern(c.pattern, v, fr, b)
            if self.branch(self.wrap(r)):
                fr.loc.update(b)
                if c.guard is not None and not self.branch(self.eval(c.guard, fr)):
                    continue
                self.block(c.body, fr)
                return

    def pattern(self, p, v, fr, b):
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.eval(p.value, fr))
        if isinstance(p, ast.MatchOr):
            return self.disj([self.pattern(x, v, fr, b) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            r = True if p.pattern is None else self.pattern(p.pattern, v, fr, b)
            if p.name is not None:
                b[p.name] = v
            return r
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        if isinstance(p, ast.MatchSequence) and isinstance(v, tuple) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            if len(v) != len(p.patterns):
                return False
            fs = [self.pattern(x, y, fr, b) for x, y in zip(p.patterns, v)]
            if False in [f for f in fs if isinstance(f, bool)]:
                return False
            fs = [f for f in fs if f is not True]
            return self.conj(fs) if fs else True
        raise Unsupported("pattern %s" % type(p).__name__)

    def for_(self, s, fr):
        it = self.eval(s.iter, fr)
        if (tpart(it) is not None or isinstance(it, EnumV) or isinstance(it, RangeV)) and self.loop_hook is not None:
            if self.loop_hook(self, s, fr, it, None):
                return
        if isinstance(it, Ref):
            o = self.st.heap[it.id]
            if isinstance(o, (WList, TList)) and self.loop_hook is not None:
                if self.loop_hook(self, s, fr, it, o):
                    return
        items = self.iterate(it)
        broke = False
        for x in items:
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.block(s.orelse, fr)

    def while_(self, s, fr):
        if self.loop_hook is not None and self.loop_hook(self, s, fr, None, None):
            return
        n, ev0 = 0, len(self.st.events)
        while True:
            c = self.truth(self.eval(s.test, fr))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    c = z3.is_true(c)
                else:
                    raise Unsupported("while loop with a symbolic condition")
            if not c:
                break
            n += 1
            if n > 300 or n > 10 and len(self.st.events) > ev0 + 10:
                raise Unsupported("long while loop")
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cont:
                continue
        self.block(s.orelse, fr)

    def try_(self, s, fr):
        def body():
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, fr)
                        ok = issubclass(e.cls, t if isinstance(t, tuple) else (t,))
                    if ok:
                        if h.name:
                            fr.loc[h.name] = ExcV(e.cls, ())
                        self.block(h.body, fr)
                        return
                raise
            self.block(s.orelse, fr)
        if s.finalbody:
            try:
                body()
            except (Ret, Brk, Cont, PyRaise):
                self.block(s.finalbody, fr)
                raise
            self.block(s.finalbody, fr)
        else:
            body()

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, float):
            return Fraction(repr(e.value))
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            raise Unsupported("constant")
        return e.value

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.loc:
                return f.loc[e.id]
            f = f.parent
        if e.id in fr.glob:
            return self.lift(fr.glob[e.id])
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise PyRaise(NameError, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.repo.mangle(e.attr, fr.cls))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and fr.cls:
            f = fr
            while f.parent is not None:
                f = f.parent
            selfv = next(iter(f.loc.values()))
            cls = getattr(f.fi.mod, f.fi.cls)
            o = self.st.heap[selfv.id].cls if isinstance(selfv, Ref) else selfv
            return SuperV(cls, o, selfv)
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.eval(a.value, fr))
            elif isinstance(a, ast.GeneratorExp):
                args.append(GenExp(a, fr))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.st.heap[v.id], LObj) and self.st.heap[v.id].kind == "dict":
                    kw.update(self.st.heap[v.id].items)
                else:
                    raise Unsupported("** argument")
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_BinOp(self, e, fr):
        op = BIN.get(type(e.op))
        a, b = self.eval(e.left, fr), self.eval(e.right, fr)
        if op is None:
            if isinstance(a, int) and isinstance(b, int):
                return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}.get(type(e.op))
            if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and isinstance(e.op, ast.BitOr):
                return a | b
            raise Unsupported("bit operator")
        return self.arith(op, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else Z("b", z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Z):
                return Z("r", -v.t) if v.k == "r" else Z("i", -zint(v))
            if kindof(v):
                return -self.num(v)
            raise PyRaise(TypeError)
        if isinstance(e.op, ast.UAdd) and kindof(v):
            return v
        raise Unsupported("unary operator")

    def pure(self, e):
        """expression without effects or exceptions worth forking for: can be combined as a formula"""
        return False

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, fr)
            if k == len(e.values) - 1:
                return v
            b = self.branch(v)
            if isand and not b or not isand and b:
                return b if isinstance(v, Z) and v.k == "b" or isinstance(v, MRes) else v

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        r = True
        for k, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(c, fr)
            if isinstance(a, MRes) and b is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                r = Z("b", a.t if isinstance(op, (ast.IsNot, ast.NotEq)) else z3.Not(a.t))
            else:
                r = self.compare(op, a, b)
            if k == len(e.ops) - 1:
                return r
            if not self.branch(r):
                return False
            a = b
        return r

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.branch(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            a = self.eval(s.lower, fr) if s.lower else None
            b = self.eval(s.upper, fr) if s.upper else None
            if s.step is not None:
                c = self.eval(s.step, fr)
                if isinstance(v, (str, list, tuple)) and isinstance(c, int):
                    return v[a:b:c]
                raise Unsupported("slice step")
            if isinstance(v, (str, SV)):
                return self.slice(v, a, b)
            if isinstance(v, tuple):
                return v[a:b]
            if isinstance(v, list):
                return self.newlist([self.lift(x) for x in v[a:b]])
            if isinstance(v, Ref):
                o = self.st.heap[v.id]
                if isinstance(o, GList):
                    return self.alloc(GList(self.gslice(o, a, b)[2]))
                if isinstance(o, LObj) and all(x is None or isinstance(x, int) for x in (a, b)):
                    return self.newlist(o.items[a:b])
            raise Unsupported("slice of %r" % (v,))
        return self.index(v, self.eval(e.slice, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.newlist(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        xs = self.elts(e.elts, fr)
        if any(isinstance(x, (Z, SV)) for x in xs):
            raise Unsupported("set of symbolic values")
        return frozenset(xs)

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("** in a dict display")
            kk = self.eval(k, fr)
            if isinstance(kk, (Z, SV)):
                raise Unsupported("symbolic dict key")
            d[kk] = self.eval(v, fr)
        return self.alloc(LObj(d, "dict"))

    def e_Lambda(self, e, fr):
        return Closure(e, fr, fr.glob, fr.cls)

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.conversion not in (-1, 115):
                    raise Unsupported("conversion in f-string")
                spec = ""
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, fr)
                    if not isinstance(spec, str):
                        raise Unsupported("symbolic format")
                out += self.parts(self.tostr(x) if not spec and not isinstance(x, (str, SV)) else self.format(x, spec))
        return mkstr(out)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def comp(self, e, fr):
        out = []

        def rec(k, f):
            if k == len(e.generators):
                out.append(self.eval(e.elt, f))
                return
            g = e.generators[k]
            src = self.eval(g.iter, f)
            if self.fold_hook is not None and isinstance(src, Ref) and isinstance(self.st.heap[src.id], WList):
                if k:
                    raise Unsupported("nested comprehension over the records")
                out.append(self.fold_hook(self, "comp", e, f, g, self.st.heap[src.id]))
                return
            for x in self.iterate(src):
                f2 = Frame({}, f.glob, f.cls, f, f.fi)
                self.assign(g.target, x, f2)
                if all(self.branch(self.eval(c, f2)) for c in g.ifs):
                    rec(k + 1, f2)
        rec(0, fr)
        return out

    def comp_first(self, e, fr):
        g = e.generators[0]
        if len(e.generators) > 1:
            raise Unsupported("nested generator")
        for x in self.iterate(self.eval(g.iter, fr)):
            f2 = Frame({}, fr.glob, fr.cls, fr, fr.fi)
            self.assign(g.target, x, f2)
            if all(self.branch(self.eval(c, f2)) for c in g.ifs):
                return [self.eval(e.elt, f2)]
        return []

    def e_ListComp(self, e, fr):
        return self.newlist(self.comp(e, fr))

    def e_GeneratorExp(self, e, fr):
        return GenExp(e, fr)

    def e_SetComp(self, e, fr):
        return frozenset(self.comp(e, fr))

    def e_DictComp(self, e, fr):
        raise Unsupported("dict comprehension")

    def search_any(self, g, isany):
        return None


def geodesic(t):
    """the number depends on a result of the geodesic library"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if tid(x) in seen:
            continue
        seen.add(tid(x))
        if z3.is_app(x):
            if any(x.decl().eq(f) for f in (dirlat, dirlon, invazi, invs12)):
                return True
            todo += x.children()
    return False


class Ev:
    """something that happened on a path"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class HDict(dict):
    def __hash__(self):
        return hash(tuple(sorted((k, vkey(v)) for k, v in self.items())))

    def __lt__(self, o):
        return id(self) < id(o)


class ExcV:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class SuperV:
    def __init__(self, after, cls, obj):
        self.after, self.cls, self.obj = after, cls, obj


match = z3.Function("match", StrS, StrS, BoolS)
