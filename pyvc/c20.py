"""C20: the contracts of the positional methods of the route sequence."""
import z3
from vals import *
from vals import Unsupported
from interp import Obj, Ref, LObj, St, Dec, GList
from lists import ListProof, same, at, ident


def run(R, tier, log, deadline):
    P = ListProof(R, deadline, log)
    ra, ea, da = (R.ers_attr[k] for k in ("records", "errors", "derived"))
    n, e, a = z3.Int("n"), z3.Int("e"), z3.Int("a")
    P.vars = {"n": n, "e": e, "a": a}
    D = opaque(z3.Int("derived!"))
    old, olde = [("o", "L", z3.IntVal(0), n)], [("o", "E", z3.IntVal(0), e)]
    it0 = P.state(R.Ers, {ra: ("L", n, R.Rec), ea: ("E", e, R.Rec)}, {da: D}) if False else None

    def fresh():
        it, base, me = P.state(R.Ers, {ra: ("L", n, R.Rec), ea: ("E", e, R.Rec)}, {da: D})
        it.st = base
        P.solverbase(it, base)
        return it, base, me

    def info(opn):
        return lambda w: [["app"]] * max(0, min(w.get("n", 0), 400)) + [["err"]] * max(0, min(w.get("e", 0), 50)) + \
            [[opn] + ([w["a"]] if opn == "at" else [])]

    def op(meth, args, opn, res, new=None, enew=None):
        it, base, me = fresh()
        av = []
        for x in args:
            av.append(Z("i", a) if x == "int" else it.alloc(Obj(R.Rec, {})) if x == "rec" else x)
        fn = "%s.%s" % (R.Ers.__name__, meth)
        if getattr(R.Ers, meth, None) is None:
            raise Unsupported("no method " + meth)
        outs = P.run(it, base, lambda: it.call(it.getattr(me, meth), list(av), {}))
        for st, kind, val, taken in outs:
            it.st = st
            keep = {}
            if kind != "val":
                P.check(it, st, False, "%s raises %s" % (opn, getattr(val, "cls", type(val)).__name__), fn, info(opn))
                continue
            o = st.heap[me.id]
            P.check(it, st, set(o.a) <= {ra, ea, da}, "no further state", fn, info(opn))
            tail, etail = [], []
            for key, out_, cnt in ((ra, tail, new), (ea, etail, enew)):
                if cnt:
                    h = st.heap.get(o.a[key].id) if isinstance(o.a[key], Ref) else None
                    if isinstance(h, GList) and h.segs and h.segs[-1][0] == "v":
                        out_.append(h.segs[-1])
                    P.check(it, st, bool(out_), "one record is appended", fn, info(opn))
            P.check(it, st, same(it, st, o.a[ra], old + tail, keep), "the records afterwards", fn, info(opn))
            P.check(it, st, same(it, st, o.a[ea], olde + etail, keep), "the error records afterwards", fn, info(opn))
            P.check(it, st, vkey(o.a.get(da)) == vkey(D), "the derived rules are not touched", fn, info(opn))
            P.check(it, st, res(val, st, it, keep, tail[0][1] if tail else None, av), "the result", fn, info(opn))

    pos = lambda i: (lambda val, st, it, keep, t, av: at(val, i, n, keep))
    cnt = lambda x: (lambda val, st, it, keep, t, av: kindof(val) == "i" and zint(val) == x)
    op("get_element_at", ["int"], "at", pos(a))
    op("get_first_element", [], "first", pos(z3.IntVal(0)))
    op("get_last_element", [], "last", pos(n - 1))
    op("get_previous_to_last_element", [], "prev", pos(n - 2))
    op("get_number_of_elements", [], "num", cnt(n))
    op("get_number_of_errors", [], "num", cnt(e))
    op("get_all_elements", [], "num", lambda v, st, it, keep, t, av: same(it, st, v, old, keep))
    op("get_all_errors", [], "num", lambda v, st, it, keep, t, av: same(it, st, v, olde, keep))
    isnew = lambda v, st, it, keep, t, av: isinstance(v, Ref) and isinstance(t, Ref) and v.id == t.id
    op("append_element", ["rec"], "app", lambda v, st, it, keep, t, av: isnew(v, st, it, keep, t, av) and v.id == av[0].id, new=1)
    xs = [opaque(z3.Int("text!")), Z("i", z3.Int("s!")), Z("i", z3.Int("e!")), Z("i", z3.Int("b!"), "base"), Z("i", z3.Int("u!"), "sub")]

    def carries(rec, st, it):
        o = st.heap[rec.id]
        return all(vkey(o.a.get(R.rec_attr[r])) == vkey(x) for r, x in zip(("name", "start", "end", "base", "sub"), xs))
    op("create_append_element", xs, "create", lambda v, st, it, keep, t, av: isnew(v, st, it, keep, t, av) and carries(t, st, it), new=1)
    op("add_error", xs + ["message"], "err", lambda v, st, it, keep, t, av: True, enew=1)
    op("set_derived_flight_rules", [D], "num", lambda v, st, it, keep, t, av: True)
    op("get_derived_flight_rules", [], "num", lambda v, st, it, keep, t, av: vkey(v) == vkey(D))
    # a new sequence shares nothing
    it = fresh()[0]
    it.st, it.dec = St(), Dec([], "init")
    me = it.construct(R.Ers, [], {})
    o = it.st.heap[me.id]
    for key, num in ((ra, 1), (ea, 0)):
        lr = o.a.get(key)
        P.check(it, it.st, isinstance(lr, Ref) and isinstance(it.st.heap[lr.id], LObj) and len(it.st.heap[lr.id].items) == num,
                "a new sequence has its own lists", "ExtractedRouteSequence.__init__", lambda w: [["app"]])
    return P.result([], ["a call that passes a non-integer position is outside the contracts"])
