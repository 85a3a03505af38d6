"""C17: the XML writer, for route sequences of any length with records of any content.

The writer is executed symbolically; texts are sequences of literal parts and parts that stand for an attribute of
a record, as it is, escaped, or formatted.  A loop over the records is a fold: its body is executed once for an
arbitrary record and must append to what was written before.  The resulting document is then read by expat with
the variable parts replaced, one part at a time, by every critical character; escape() works character by
character, so what holds for every character holds for every text.  Attributes that are written unescaped must
never contain markup: that is a contract of the parser, proved over its core (class Safe)."""
import re
import time
from xml.parsers import expat
from xml.sax import saxutils

import z3
from vals import *
from vals import Unsupported
from interp import Interp, Obj, LObj, Ref, St, Dec, PyRaise, Brk, Cont, WList, FoldItems
import fmt
import houdini
import parser
import props

PREC = {"start": "start_index", "end": "end_index", "base": "base_type", "sub": "sub_type", "speed": "speed",
        "speed_si": "speed_si", "alt": "altitude", "alt_si": "altitude_si", "bearing": "bearing", "dist": "distance",
        "rules": "flight_rules", "stay": "stay_time", "cto": "altitude_cruise_to", "cto_si": "altitude_cruise_to_si",
        "lat": "latitude", "lon": "longitude"}
CRIT = ["&", "<", ">", "\"", "'", "]", "]]>", "&amp;", "--", "?>", "/>", " ", "=", ";", "#", "%", "{", "}", "!", "\\", "A", "9",
        "/", "-", ".", "~", "`", "\u00e9", "\u2028", "\U0001f600", "<!--", "<![CDATA["]
PLAIN = ["A", "9", "/", " ", "-", ".", "+", "Z0 9"]
NUMS = [0.0, 1.0, -1.0, 0.5, 12.345, -12.345, 0.005, -0.001, 179.999, 1e6 + 0.25, 123456789.126, 2.675]
INTS = [0, 1, -1, 7, 10, 99, 1439, 123456]


class Doc:
    """symbolic text -> list of (placeholder char, part); template"""
    def __init__(self, v, folds):
        self.ph = {}
        self.out = []
        self.folds = folds
        self.add(parts(v), None)

    def new(self, kind, ents, part):
        c = chr(0xE000 + len(self.ph))
        if len(self.ph) > 6000:
            raise Unsupported("XML text with too many parts")
        self.ph[c] = (kind, ents, part)
        self.out.append(c)

    def add(self, ps, ents):
        for p in ps:
            if isinstance(p, str):
                self.out.append(p if ents is None else saxutils.escape(p, ents))
            elif p[0] == "s":
                self.new("raw" if ents is None else "esc", ents, p)
            elif p[0] == "f":
                if kindof(p[2]) is None:
                    raise Unsupported("formatted text")
                self.new("num", None, p)
            elif p[0] == "x":
                if ents is not None:
                    raise Unsupported("text escaped twice")
                self.add(p[1], dict(p[2]))
            elif p[0] == "fold" and ents is None:
                self.out.append("<?fold %d?>" % p[1])
            else:
                raise Unsupported("text part %s in XML" % p[0])

    def text(self, sub=None):
        sub = sub or {}
        return "".join(sub.get(x, x) if len(x) == 1 else x for x in self.out)


def parts(v):
    return [v] if isinstance(v, str) else list(v.p)


class El:
    __slots__ = ("tag", "attrs", "kids")

    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids = tag, attrs, []

    def text(self):
        return "".join(k for k in self.kids if isinstance(k, str))

    def flat(self):
        return (self.tag, tuple(sorted(self.attrs.items())), tuple(k if isinstance(k, (str, tuple)) else k.flat() for k in self.kids))


def read(s):
    """document tree; None if not well formed"""
    p = expat.ParserCreate()
    p.buffer_text = True
    top = El(None, {})
    st = [top]

    def start(tag, attrs):
        e = El(tag, attrs)
        st[-1].kids.append(e)
        st.append(e)

    def chars(d):
        if st[-1].kids and isinstance(st[-1].kids[-1], str):
            st[-1].kids[-1] += d
        else:
            st[-1].kids.append(d)
    p.StartElementHandler = start
    p.EndElementHandler = lambda tag: st.pop()
    p.CharacterDataHandler = chars
    p.ProcessingInstructionHandler = lambda t, d: st[-1].kids.append(("pi", t, d))
    p.CommentHandler = lambda d: st[-1].kids.append(("comment", d))
    try:
        p.Parse(s, True)
    except expat.ExpatError:
        return None
    return top


class Proof:
    def __init__(self, R, deadline, log):
        self.R, self.deadline, self.log = R, deadline, log
        self.obs, self.failed, self.queries, self.solver_s = 0, [], 0, 0.0
        self.folds = {}
        self.raw = set()
        self.used = set()
        self.paths = 0
        self.dropped = 0

    def check(self, ok, name, fn, st=None):
        """ok: bool, or a formula that has to follow from the path"""
        self.obs += 1
        if not isinstance(ok, bool):
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*st.facts)
            s.add(*st.conds)
            s.add(z3.Not(ok))
            self.queries += 1
            t = time.time()
            r = s.check()
            self.solver_s += time.time() - t
            ok = r == z3.unsat
        if not ok:
            n = "%s [%s]" % (name, fn)
            if n not in [f["name"] for f in self.failed]:
                self.failed.append({"name": n, "function": fn, "path": 0, "where": "", "result": "failed", "info": {}})
        return ok

    # ------------------------------------------------ symbolic execution
    def state(self):
        X = parser.Explorer(self.R, None, None)
        it = Interp(self.R, "plain")
        base = X.base_state(it, "mid")
        eo = base.heap[base.roles["ers"].id]
        N, E = z3.Int("N0"), z3.Int("E0")
        eo.a[self.R.ers_attr["records"]] = it.alloc(WList(N, None, None, [], "rec"))
        eo.a[self.R.ers_attr["errors"]] = it.alloc(WList(E, None, None, [], "err"))
        eo.a[self.R.ers_attr["derived"]] = opaque(z3.Int("derived!"))
        base.facts = [N >= 2, E >= 0]
        it.st = base
        it.solver.add(*base.facts)
        it.fold_hook = self.fold
        it.loop_hook = self.loop
        return it, base

    def loop(self, it, s, fr, ref, obj):
        """for x in <records>: append to what is written"""
        if obj is None:
            return False
        if not isinstance(obj, WList):
            raise Unsupported("loop")
        if s.orelse:
            raise Unsupported("else clause of a loop over the records")
        acc = {n: v for n, v in fr.loc.items() if isinstance(v, (str, SV))}
        lists = {n: v for n, v in fr.loc.items() if isinstance(v, Ref) and isinstance(it.st.heap[v.id], LObj)
                 and it.st.heap[v.id].kind == "list"}
        keep = dict(fr.loc)
        marks = {}
        saved = it.st
        base = it.st.clone()
        it.st = base
        rec = it.alloc(Obj(self.R.Rec, hv="any.%s" % obj.name))
        tgt = {n.id for n in __import__("ast").walk(s.target) if hasattr(n, "id")}

        def run():
            for n in acc:
                if n in tgt:
                    continue
                m = z3.Int("acc!" + n)
                marks[n] = m
                fr.loc[n] = opaque(m)
            for n, v in keep.items():
                if n not in acc:
                    fr.loc[n] = v
            it.assign(s.target, rec, fr)
            try:
                it.block(s.body, fr)
            except Cont:
                pass
            except Brk:
                raise Unsupported("the loop over the records can end early")
            out = {}
            for n, v in list(fr.loc.items()):
                out[n] = v
            return out
        outs = it.explore(base, run, ("fold", id(s), len(self.folds)))
        it.st = saved
        fr.loc.clear()
        fr.loc.update(keep)
        self.paths += len(outs)
        alts = {n: [] for n in acc}
        lalts = {n: [] for n in lists}
        nb = len(base.conds)
        excs = []
        for st, kind, val, _ in outs:
            if kind == "exc":
                excs.append((it.conj(st.conds[nb:]), val))
                continue
            if kind != "val":
                raise Unsupported("the loop over the records ends by %s" % kind)
            for i, o in base.heap.items():
                if i == rec.id:
                    continue
                if i in [v.id for v in lists.values()]:
                    continue
                if not it.same_obj(o, st.heap[i]):
                    self.check(False, "writing the XML changes the records", "as_xml")
            for n, v in keep.items():
                if n in acc or n in tgt:
                    continue
                if vkey(val.get(n)) != vkey(v):
                    raise Unsupported("the loop over the records changes %s" % n)
            for n in acc:
                if n in tgt:
                    continue
                x = val[n]
                ps = parts(x)
                if not ps or isinstance(ps[0], str) or ps[0][0] != "s" or not ps[0][1].eq(marks[n]):
                    raise Unsupported("the loop over the records does not only append to %s" % n)
                rest = ps[1:]
                if any("acc!" in repr(p) for p in rest):
                    raise Unsupported("the loop over the records repeats %s" % n)
                alts[n].append((it.conj(st.conds[nb:]), [mkstr(rest)], st))
            for n, r in lists.items():
                b, a = base.heap[r.id].items, st.heap[r.id].items
                if [vkey(q) for q in a[:len(b)]] != [vkey(q) for q in b]:
                    raise Unsupported("the loop over the records changes a list")
                lalts[n].append((it.conj(st.conds[nb:]), list(a[len(b):]), st))
        for cond, val in excs:
            it.st.events.append(("exc", val))
            self.check(False, "writing a record raises %s" % val.cls.__name__, "as_xml")
        for n, xs in alts.items():
            if n in tgt or all(a[1] == [""] for a in xs):
                continue
            t = self.newfold(obj.name, rec, xs, "")
            fr.loc[n] = mkstr(parts(keep[n]) + [("fold", t, ())])
        for n, xs in lalts.items():
            if all(not a[1] for a in xs):
                continue
            it.st.heap[lists[n].id].items = it.st.heap[lists[n].id].items + [FoldItems(obj.name, rec, xs)]
        return True

    def newfold(self, name, rec, alts, sep):
        """alts: (condition, [texts], state)"""
        if sep.strip(" \n\t"):
            raise Unsupported("records joined by text")
        t = len(self.folds)
        out = []
        for cond, items, st in alts:
            ps = []
            for x in items:
                if not isinstance(x, (str, SV)):
                    raise Unsupported("list of something else than texts")
                ps += parts(x) + ([sep] if sep else [])
            out.append((cond, mkstr(ps), st))
        self.folds[t] = (name, rec, out)
        return t

    def fold(self, it, what, *a):
        if what == "join":
            f, sep = a
            return ("fold", self.newfold(f.name, f.rec, f.alts, sep), ())
        # comprehension over the records
        e, fr, g, obj = a
        if g.ifs or len(e.generators) != 1:
            raise Unsupported("filtered records")
        saved = it.st
        base = it.st.clone()
        it.st = base
        rec = it.alloc(Obj(self.R.Rec, hv="any.%s" % obj.name))

        def run():
            f2 = parser.Frame({}, fr.glob, fr.cls, fr, fr.fi)
            it.assign(g.target, rec, f2)
            return it.eval(e.elt, f2)
        outs = it.explore(base, run, ("foldc", id(e), len(self.folds)))
        it.st = saved
        nb = len(base.conds)
        alts = []
        for st, kind, val, _ in outs:
            if kind != "val":
                self.check(False, "writing a record raises %s" % getattr(val, "cls", Exception).__name__, "as_xml")
                continue
            if any(i != rec.id and not it.same_obj(o, st.heap[i]) for i, o in base.heap.items()):
                self.check(False, "writing the XML changes the records", "as_xml")
            alts.append((it.conj(st.conds[nb:]), [val], st))
        return FoldItems(obj.name, rec, alts)

    # ------------------------------------------------ what is written
    def value(self, s, doc, role, hv, st, what, fn, err):
        """the text s, read from the document, is attribute role of the record"""
        R = self.R
        a = R.rec_attr[role]
        nm = "%s.%s" % (hv, a)
        d = R.rec_defaults[a]
        if isinstance(d, str):
            t = z3.Int(nm)
            if len(s) == 1 and s in doc.ph:
                kind, ents, p = doc.ph[s]
                if kind in ("raw", "esc") and p[2] == 0 and p[3] is None:
                    if kind == "raw":
                        self.raw.add((role, err))
                    return self.check(p[1] == t, what, fn, st)
            if not any(c in doc.ph for c in s):
                return self.check(t == lit(s), what, fn, st)
            return self.check(False, what, fn)
        real = isinstance(d, float)
        t = z3.Real(nm) if real else z3.Int(nm)
        if len(s) == 1 and s in doc.ph:
            kind, _, p = doc.ph[s]
            if kind == "num" and self.spec(p[1], p[2], real):
                z = zreal(p[2]) if real else zint(p[2])
                return self.check(z == t, what, fn, st)
            return self.check(False, what, fn)
        if any(c in doc.ph for c in s):
            return self.check(False, what, fn)
        try:
            x = float(s) if real else int(s)
        except ValueError:
            return self.check(False, what, fn)
        if (("%.2f" % x) if real else str(x)) != s:
            return self.check(False, what, fn)
        return self.check(t == (z3.RealVal(s) if real else z3.IntVal(x)), what, fn, st)

    def spec(self, spec, v, real):
        """the format gives two decimals (real) or the plain number"""
        def go(x):
            if spec == "str":
                return str(x)
            if spec[:1] == "%" or re.fullmatch(r"[-+0 #]*\d*(\.\d+)?f", spec) and False:
                return spec % x
            return format(x, spec)
        try:
            if real:
                return all(go(x) == "%.2f" % x for x in NUMS)
            return all(go(x) == str(x) for x in INTS)
        except (ValueError, TypeError):
            return False

    def contexts(self, doc, wrap, fn):
        """every variable part is read back as it is, whatever its characters"""
        def full(sub=None):
            return wrap % doc.text(sub) if wrap else doc.text(sub)
        t = read(full())
        if not self.check(t is not None, "the XML is well formed", fn):
            return None
        flat = repr(t.flat())
        for c, (kind, ents, p) in doc.ph.items():
            if not self.check(flat.count(repr(c)[1:-1]) == 1, "every written part is read once", fn):
                return None
            good = True
            for x in (CRIT if kind == "esc" else PLAIN):
                y = "q" + x + "q"
                t2 = read(full({c: saxutils.escape(y, ents) if kind == "esc" else y}))
                f2 = None if t2 is None else swap(t2, y, c)
                if f2 != t.flat():
                    good = False
                    break
            self.check(good, "%s is read back unchanged" % (describe(p)), fn)
        return t

    def record(self, name, rec, cond, text, st, fn):
        err = name == "err"
        hv = st.heap[rec.id].hv
        doc = Doc(text, self.folds)
        t = self.contexts(doc, "<x>%s</x>", fn)
        if t is None:
            return
        kids = [k for k in t.kids[0].kids if not (isinstance(k, str) and not k.strip())]
        tag = "error_record" if err else "ers_record"
        ok = len(kids) == 1 and isinstance(kids[0], El) and kids[0].tag == tag and all(isinstance(k, str) for k in kids[0].kids)
        if not self.check(ok, "one %s element for each record" % tag, fn):
            return
        e = kids[0]
        exp = {v: k for k, v in PREC.items()}
        exp["error_text" if err else "break_text"] = "err" if err else "brk"
        self.check(set(e.attrs) == set(exp), "exactly the attributes of a record", fn)
        for an, role in sorted(exp.items()):
            if an in e.attrs:
                self.value(e.attrs[an], doc, role, hv, st, "attribute %s of a %s" % (an, tag), fn, err)
        self.value(e.text(), doc, "name", hv, st, "the text of a %s" % tag, fn, err)

    def document(self, st, text, fn):
        doc = Doc(text, self.folds)
        t = self.contexts(doc, None, fn)
        if t is None:
            return
        top = [k for k in t.kids if isinstance(k, El)]
        if not self.check(len(top) == 1 and top[0].tag == "ers" and not top[0].attrs and
                          all(isinstance(k, (El, str)) for k in t.kids), "the root element is ers", fn):
            return
        kids = [k for k in top[0].kids if not (isinstance(k, str) and not k.strip())]
        self.check(not any(isinstance(k, str) for k in kids), "no text between the elements", fn)
        kids = [k for k in kids if not isinstance(k, str)]
        d = [k for k in kids if isinstance(k, El) and k.tag == "derived_flight_rules"]
        if self.check(len(d) == 1 and all(isinstance(k, str) for k in d[0].kids) and not d[0].attrs,
                      "one derived_flight_rules element", fn):
            s = d[0].text()
            ok = False
            if len(s) == 1 and s in doc.ph:
                kind, _, p = doc.ph[s]
                ok = kind in ("raw", "esc") and p[2] == 0 and p[3] is None and p[1].eq(z3.Int("derived!"))
                if kind == "raw":
                    self.raw.add(("derived", False))
            elif not any(c in doc.ph for c in s):
                ok = z3.Int("derived!") == lit(s)
            self.check(ok, "the derived flight rules are written", fn, st)
        fs = [k for k in kids if isinstance(k, tuple)]
        es = [k for k in kids if isinstance(k, El) and k.tag == "ers_errors"]
        self.check(len(kids) == len(d) + len(fs) + len(es), "no other elements", fn)
        self.check(len(fs) == 1 and self.isfold(fs[0], "rec"), "every record is written, in order", fn)
        E = z3.Int("E0")
        self.check(len(es) <= 1, "one error section", fn)
        self.check((E > 0) if es else (E == 0), "an error section exactly if there are errors", fn, st)
        for e in es:
            ks = [k for k in e.kids if not (isinstance(k, str) and not k.strip())]
            self.check(len(ks) == 1 and self.isfold(ks[0], "err") and not e.attrs, "every error is written, in order", fn)

    def isfold(self, k, name):
        return k[0] == "pi" and k[1] == "fold" and self.folds[int(k[2])][0] == name

    def run(self):
        R = self.R
        fn = "ExtractedRouteSequence.as_xml"
        it, base = self.state()
        ers = base.roles["ers"]
        outs = it.explore(base, lambda: it.call(it.getattr(ers, "as_xml"), [], {}), ("xml",))
        self.used |= it.used_funcs
        self.paths += len(outs)
        good = 0
        for st, kind, val, _ in outs:
            it.st = st
            if kind != "val":
                self.check(False, "as_xml raises %s" % getattr(val, "cls", Exception).__name__, fn)
                continue
            if not isinstance(val, (str, SV)):
                self.check(False, "as_xml gives a text", fn)
                continue
            good += 1
            for i, o in base.heap.items():
                self.check(it.same_obj(o, st.heap[i]), "writing the XML changes nothing", fn)
            self.document(st, val, fn)
        for t, (name, rec, alts) in self.folds.items():
            for cond, text, st in alts:
                it.st = st
                if parts(text):
                    o = st.heap[rec.id]
                    for a, v in o.a.items():
                        same = vkey(v) == vkey(it.hvattr(Obj(o.cls, hv=o.hv), a)) if a in R.rec_defaults else False
                        self.check(same, "writing a record does not change it", fn)
                    self.record(name, rec, cond, text, st, "ExtractedRouteRecord.as_xml")
                else:
                    # a record that is not written
                    s = z3.Solver()
                    s.add(*st.facts)
                    s.add(*st.conds)
                    self.check(s.check() == z3.unsat, "every record is written", fn)
        if not good:
            raise Unsupported("no path through as_xml")


def describe(p):
    if p[0] == "s":
        return "text %s" % p[1]
    return "number %s" % (p[2].t if isinstance(p[2], Z) else p[2],)


def swap(t, y, c):
    """tree with the text y replaced by c"""
    def f(e):
        return (e.tag, tuple(sorted((k, v.replace(y, c)) for k, v in e.attrs.items())),
                tuple(k.replace(y, c) if isinstance(k, str) else k if isinstance(k, tuple) else f(k) for k in e.kids))
    return f(t)


safe = z3.Function("markup_free", StrS, BoolS)
DOC = re.compile("[A-Za-z0-9/ +.-]*")


class Safe(props.Base):
    """what is written unescaped never contains markup"""
    frame = ()

    def __init__(self, R, rec, err, derived):
        props.Base.__init__(self, R)
        self.rec, self.err, self.der = sorted(rec), sorted(err), derived
        self.roles = sorted(set(["name", "start", "end"] + self.rec))
        self.errroles = sorted(set(self.err)) or None
        self.firstvar = tuple(self.rec)

    def mine_pre(self, V, key):
        return self.win(V)

    def pre(self, V, key):
        return self.win(V)

    def post(self, V0, V, key):
        return self.win(V)

    def win(self, V):
        c = {}
        for k in (1, 2, 3):
            for r in self.rec:
                c["%s of record -%d is free of markup" % (r, k)] = z3.Implies(V.N >= k, safe(V.rec(k)[r]))
        if V.first is not None:
            for r in self.rec:
                c["%s of ADEP is free of markup" % r] = z3.Implies(V.N >= 1, safe(houdini.first(V, r)))
        return c

    def axioms(self, p, key):
        out, seen = [], set()

        def go(t):
            k = tid(t)
            if k in seen:
                return
            seen.add(k)
            if z3.is_int_value(t):
                s = self.inv.get(t.as_long())
                if s is not None:
                    out.append(safe(t) == z3.BoolVal(bool(DOC.fullmatch(s))))
                return
            if not z3.is_app(t):
                return
            d = t.decl()
            if d.eq(ttext):
                i = t.arg(0)
                out.append(z3.Implies(z3.And(tbase(i) != self.b["UNKNOWN"], tbase(i) != self.b["TOO_LONG"]), safe(t)))
            elif d.eq(ssub):
                go(t.arg(0))
                out.append(z3.Implies(safe(t.arg(0)), safe(t)))
            elif d.eq(scat):
                go(t.arg(0))
                go(t.arg(1))
                out.append(z3.Implies(z3.And(safe(t.arg(0)), safe(t.arg(1))), safe(t)))
            elif d.kind() == z3.Z3_OP_ITE:
                go(t.arg(1))
                go(t.arg(2))
        self.inv = {v.as_long(): k for k, v in lits().items()}
        for V in self.views(p):
            for r in V.seq + ([V.first] if V.first is not None else []):
                for role in self.rec:
                    go(r[role])
            for e in V.errs:
                for role in self.err:
                    go(e[role])
        for e in p.events:
            if getattr(e, "view", None) is not None and e.view.derived is not None and not isinstance(e.view.derived, str):
                pass
        return out

    def sealed(self, V, j, absn):
        return [("%s of a record is free of markup" % r, safe(V.seq[j][r])) for r in self.rec]

    def adep(self, V):
        if V.first is None:
            return []
        return [("%s of ADEP is free of markup" % r, safe(houdini.first(V, r))) for r in self.rec]

    def errors(self, V):
        return [("%s of an error is free of markup" % r, safe(e[r])) for e in V.errs for r in self.err]

    def seg(self, S, V, key, e):
        return props.Base.seg(self, S, V, key, e) + self.errors(V) + self.adep(V)

    def final(self, S, V, p):
        out = props.Base.final(self, S, V, p) + self.errors(V) + self.adep(V)
        if self.der:
            d = V.derived
            if not isinstance(d, str):
                raise Unsupported("derived flight rules of an unknown kind")
            out.append(("derived flight rules are free of markup", z3.BoolVal(bool(DOC.fullmatch(d)))))
        return out


def xml(R, deadline, log):
    if str(R.Base(1)) != "1" or str(R.Sub(1)) != "1":
        raise Unsupported("the types are not written as numbers")
    W = Proof(R, deadline, log)
    W.run()
    return W


def run(R, tier, log, deadline):
    import core
    t0 = time.time()
    W = xml(R, deadline, log)
    log("as_xml: %d paths, %d obligations, %d failed; written unescaped: %s; %.1f s" % (
        W.paths, W.obs, len(W.failed), sorted(W.raw), time.time() - t0))
    bad = [(r, e) for r, e in W.raw if r in ("name", "brk", "err")]
    for r, e in bad:
        W.failed.append({"name": "%s is written without escaping" % r, "function": "ExtractedRouteRecord.as_xml",
                         "path": 0, "where": "", "result": "failed", "info": {}})
    rec = {r for r, e in W.raw if not e and r not in ("name", "brk", "derived")}
    err = {r for r, e in W.raw if e and r not in ("name", "err")}
    if W.failed:
        return {"status": "failed", "reason": "; ".join(f["name"] for f in W.failed[:4]), "obligations": W.obs,
                "discharged": W.obs - len(W.failed), "failed": W.failed[:40], "functions": sorted(W.used),
                "backend": BACK, "trusted": TRUST, "assumptions": [], "bounded": [], "paths": W.paths,
                "queries": W.queries, "solver_s": round(W.solver_s, 2), "hints": {}}
    res = core.core(Safe(R, rec, err, ("derived", False) in W.raw), R, tier, log, deadline)
    res["obligations"] += W.obs
    res["discharged"] += W.obs
    res["functions"] = sorted(set(res["functions"]) | W.used)
    res["backend"] = BACK
    res["trusted"] = TRUST + res["trusted"]
    res["paths"] += W.paths
    return res


BACK = "z3 (python API) on verification conditions of pyvc; expat reads the document the writer's contract describes"
TRUST = ["xml.sax.saxutils.escape replaces &, <, > and the given characters, character by character",
         "expat decides well-formedness; replacing one character of a text by another that needs no escape keeps it",
         "the field is tokenized with the field 15 delimiters, so no text contains tab, line feed or carriage return"]
