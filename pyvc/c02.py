"""C02: the contracts of every method of the token list."""
import z3
from vals import *
from vals import Unsupported
from interp import BM, Obj, Ref
from lists import ListProof, same, clamp, at, ident

RETR = ["get_token_at", "get_first_token", "get_last_token", "get_next_token", "get_previous_token",
        "peek_next_token", "peek_previous_token", "get_current_token", "get_number_of_tokens", "get_tokens"]


def history(n, c):
    h = [["append"]] * max(0, min(n, 400)) + [["first"]]
    return h + [["next" if c >= 0 else "prev"]] * min(abs(c), 400)


def run(R, tier, log, deadline):
    P = ListProof(R, deadline, log)
    la, ca = R.toks_attr["list"], R.toks_attr.get("cursor")
    if ca is None:
        raise Unsupported("no cursor attribute found")
    n, c, a = z3.Int("n"), z3.Int("c"), z3.Int("a")
    P.vars = {"n": n, "c": c, "a": a}
    if la is None:
        raise Unsupported("no list attribute found")

    def op(meth, args, opname, res, cur, lst, argterm=None, conds=()):
        """res(val, st, it, keep) -> claim on the result; cur: cursor after; lst(it, st, keep, roots) -> segments after"""
        it, base, me = P.state(R.Tokens, {la: ("L", n, R.Token)}, {ca: Z("i", c)})
        keep = {}
        base.facts += list(conds)
        it.st = base
        av = []
        for x in args:
            if x == "int":
                av.append(Z("i", a))
            elif x == "new":
                av.append(it.alloc(Obj(R.Token, {k: None for k in R.tok_attrs})))
            else:
                av.append(x)
        roots = [x for x in av if isinstance(x, Ref)]
        P.solverbase(it, base)
        fn = "%s.%s" % (R.Tokens.__name__, meth)
        f = getattr(R.Tokens, meth, None)
        if f is None:
            raise Unsupported("no method " + meth)
        lref = base.heap[me.id].a[la]
        outs = P.run(it, base, lambda: it.call(it.getattr(me, meth), list(av), {}))

        def info(w):
            if "n" not in w:
                return None
            return history(w["n"], w["c"]) + [[opname] + ([w["a"]] if argterm else [])] + \
                [["cur"], ["peek"], ["peekb"], ["next"], ["prev"], ["at", 0], ["last"]]
        if not outs:
            P.failed.append({"name": "no path through " + fn, "function": fn, "result": "unknown", "info": {}})
        for st, kind, val, taken in outs:
            it.st = st
            if kind != "val":
                P.check(it, st, False, "%s raises %s" % (opname, getattr(val, "cls", type(val)).__name__), fn, info)
                continue
            o = st.heap[me.id]
            P.check(it, st, set(o.a) == {la, ca}, "no further state", fn, info)
            segs = lst(roots)
            P.check(it, st, same(it, st, o.a[la], segs, keep) if segs is not None else True,
                    "the tokens afterwards are exactly those due, in order", fn, info)
            cv = o.a[ca]
            P.check(it, st, kindof(cv) in ("i", "b") and zint(cv) == cur, "the cursor afterwards", fn, info)
            P.check(it, st, res(val, st, it, keep, o), "the result", fn, info)
            # the arguments are stored, never changed
            for r in roots:
                if r.id in st.heap:
                    P.check(it, st, all(v is None for v in st.heap[r.id].a.values()), "the token given is not changed", fn, info)

    old = [("o", "L", z3.IntVal(0), n)]
    keepl = lambda roots: old
    pos = lambda i: (lambda val, st, it, keep, o: at(val, i, n, keep))
    none = lambda val, st, it, keep, o: True
    op("get_token_at", ["int"], "at", pos(a), c, keepl, True)
    op("get_first_token", [], "first", pos(z3.IntVal(0)), z3.IntVal(0), keepl)
    op("get_last_token", [], "last", pos(n - 1), n - 1, keepl)
    op("get_next_token", [], "next", pos(c + 1), c + 1, keepl)
    op("get_previous_token", [], "prev", pos(c - 1), c - 1, keepl)
    op("get_current_token", [], "cur", pos(c), c, keepl)
    op("peek_next_token", [], "peek", pos(c + 1), c, keepl)
    op("peek_next_token", ["int"], "peek", pos(c + a), c, keepl, True)
    op("peek_previous_token", [], "peekb", pos(c - 1), c, keepl)
    op("peek_previous_token", ["int"], "peekb", pos(c - a), c, keepl, True)
    op("get_number_of_tokens", [], "cur", lambda v, st, it, keep, o: kindof(v) == "i" and zint(v) == n, c, keepl)
    op("get_tokens", [], "cur", lambda v, st, it, keep, o: same(it, st, v, old, keep), c, keepl)
    op("append_token", ["new"], "append", none, c, lambda roots: old + [("v", roots[0])])
    p = clamp(a, n)
    op("insert_token", ["new", "int"], "insert", none, c,
       lambda roots: [("o", "L", z3.IntVal(0), p), ("v", roots[0]), ("o", "L", p, n)], True)
    # tokens at and before the split index stay
    q = clamp(a + 1, n)
    op("remove_tokens_from_end_of_list", ["int"], "cut", none, c, lambda roots: [("o", "L", z3.IntVal(0), q)], True, [a >= 0])

    # create_append_token: a new token with the given contents, appended
    it, base, me = P.state(R.Tokens, {la: ("L", n, R.Token)}, {ca: Z("i", c)})
    it.st = base
    P.solverbase(it, base)
    x, i1, i2 = opaque(z3.Int("text!")), Z("i", z3.Int("s!")), Z("i", z3.Int("e!"))
    info = lambda w: history(w.get("n", 0), w.get("c", 0)) + [["create"], ["cur"], ["last"]]
    fn = "Tokens.create_append_token"
    for st, kind, val, taken in P.run(it, base, lambda: it.call(it.getattr(me, "create_append_token"), [x, i1, i2], {})):
        it.st = st
        o = st.heap[me.id]
        h = st.heap.get(o.a[la].id) if isinstance(o.a[la], Ref) else None
        v = h.segs[-1][1] if kind == "val" and h is not None and getattr(h, "segs", None) and h.segs[-1][0] == "v" else None
        good = isinstance(v, Ref) and isinstance(st.heap.get(v.id), Obj) and st.heap[v.id].cls is R.Token
        P.check(it, st, good, "a new token is the last one", fn, info)
        if not good:
            continue
        keep = {}
        P.check(it, st, same(it, st, o.a[la], old + [("v", v)], keep), "all other tokens in order", fn, info)
        P.check(it, st, zint(o.a[ca]) == c, "the cursor afterwards", fn, info)
        t = st.heap[v.id].a
        for role, w in (("text", x), ("start", i1), ("end", i2)):
            P.check(it, st, vkey(t.get(R.tok_attr[role])) == vkey(w), "the new token carries its " + role, fn, info)
        P.check(it, st, int(t.get(R.tok_attr["base"])) == R.base["UNKNOWN"] and int(t.get(R.tok_attr["sub"])) == R.sub["UNKNOWN"],
                "the new token has no type", fn, info)

    # a new list: empty, before the first token, nothing shared with another one
    it = P.state(R.Tokens, {la: ("L", n, R.Token)}, {ca: Z("i", c)})[0]
    from interp import St, Dec, LObj
    it.st, it.dec = St(), Dec([], "init")
    me = it.construct(R.Tokens, [], {})
    o = it.st.heap[me.id]
    lr = o.a.get(la)
    P.check(it, it.st, isinstance(lr, Ref) and isinstance(it.st.heap[lr.id], LObj) and not it.st.heap[lr.id].items,
            "a new token list has its own empty list", "Tokens.__init__", lambda w: [["append"], ["cur"]])
    cv = o.a.get(ca, getattr(R.Tokens, ca, None))
    P.check(it, it.st, kindof(cv) == "i" and zint(cv) == 0, "a new token list stands at position 0", "Tokens.__init__",
            lambda w: [["append"], ["cur"]])
    return P.result([], ["a call that passes a non-integer index is outside the contracts",
                         "cutting off the end is specified for split indices >= 0"])
