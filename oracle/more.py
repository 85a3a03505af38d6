"""Oracles and case generators of the properties that are not about one parsed field:
C01 (tokenizer), C02 (token list), C08 (totality), C16 (purity)."""
import itertools
import json
import os
import random
import signal
import subprocess
import sys

import spec
import gen
import observe
from observe import Tokenize, ParseF15, ExtractedRouteSequence, Rec, WS
from Tokenizer.Token import Token
from Tokenizer.Tokens import Tokens
from F15_Parser.ExtractedRouteRecord import ExtractedRouteRecord

LIMIT = 200


# ------------------------------------------------------------------ C01
def toks_of(tokens):
    return [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in tokens.get_tokens()]


def c01(case):
    """case: [[text, whitespace or None], ...] tokenized one after the other by one tokenizer"""
    out = []
    tk = Tokenize()
    ws = " \n\t\r"
    for text, w in case:
        try:
            if w is not None:
                ws = w
                tk.set_whitespace(w)
            tk.set_string_to_tokenize(text)
            tk.tokenize()
            got = toks_of(tk.get_tokens())
            n = tk.get_tokens().get_number_of_tokens()
        except Exception as e:                                   # noqa: BLE001
            return ["tokenizing %r with delimiters %r raised %s: %s" % (text, ws, type(e).__name__, e)]
        exp = spec.tokenize(text, ws)
        if got != exp or n != len(exp):
            out.append("text %r with delimiters %r gives %r, expected %r" % (text, ws, got, exp))
        if tk.get_string_to_tokenize() != text or tk.get_whitespace() != ws:
            out.append("tokenizer changed its own text or delimiters")
    return out


def c01_cases(tier, seed, hints):
    wss = [None, WS, " ", "/", "", " /", "\n\t", "AB", "/A", " \n\t\r/-.", "é ", "|/"]
    al = "A/ \nB"
    for k in range(0, 6):
        for t in itertools.product(al, repeat=k):
            s = "".join(t)
            for w in (None, WS, " ", "/", "A/"):
                yield [[s, w]]
    rnd = random.Random(seed)
    chars = "AB01/ \n\t\r-é\u00a0\u2003\x0b\x0c\x00٣&<" * 2 + "ABC/ "
    for i in range(60000 if tier == "quick" else 1000000):
        h = []
        for _ in range(rnd.choice([1, 1, 2, 3])):
            s = "".join(rnd.choice(chars) for _ in range(rnd.choice([0, 1, 2, 3, 5, 8, 13, 21, 40])))
            h.append([s, rnd.choice(wss)])
        yield h
    for n in (24, 25, 26, 27, 50, 100, 255, 256, 257, 1000, 5000):
        yield [["A" * n, None]]
        yield [["A" * n + "/" + "B" * n + " ", WS]]
    for i in range(3000):
        yield [[gen.join([gen.token(rnd) for _ in range(rnd.randrange(1, 30))], rnd), WS]]


# ------------------------------------------------------------------ C02
class Model:
    def __init__(self):
        self.l = []
        self.c = 0

    def at(self, i):
        return self.l[i] if 0 <= i < len(self.l) else None


def c02(case):
    """case: list of operations [name, argument...] on one token list"""
    m, t = Model(), Tokens()
    k = 0
    for step, op in enumerate(case):
        name, a = op[0], op[1:]
        try:
            if name == "append":
                x = Token("A%d" % k, k, k + 2)
                k += 1
                t.append_token(x)
                m.l.append(x)
                got = exp = None
            elif name == "create":
                t.create_append_token("B%d" % k, k, k + 5)
                n = t.get_number_of_tokens()
                x = t.get_tokens()[-1]
                if (x.get_token_string(), x.get_token_start_index(), x.get_token_end_index()) != ("B%d" % k, k, k + 5):
                    return ["step %d: created token has the wrong content" % step]
                if any(x is y for y in m.l):
                    return ["step %d: created token is not a new one" % step]
                k += 1
                m.l.append(x)
                got = exp = None
            elif name == "insert":
                x = Token("C%d" % k, k, k + 2)
                k += 1
                t.insert_token(x, a[0])
                m.l.insert(a[0], x)
                got = exp = None
            elif name == "cut":
                t.remove_tokens_from_end_of_list(a[0])
                m.l = m.l[:a[0] + 1]
                got = exp = None
            elif name == "first":
                got = t.get_first_token()
                m.c = 0
                exp = m.at(0)
            elif name == "last":
                got = t.get_last_token()
                m.c = len(m.l) - 1
                exp = m.at(m.c)
            elif name == "next":
                got = t.get_next_token()
                m.c += 1
                exp = m.at(m.c)
            elif name == "prev":
                got = t.get_previous_token()
                m.c -= 1
                exp = m.at(m.c)
            elif name == "peek":
                got = t.peek_next_token(*a)
                exp = m.at(m.c + (a[0] if a else 1))
            elif name == "peekb":
                got = t.peek_previous_token(*a)
                exp = m.at(m.c - (a[0] if a else 1))
            elif name == "cur":
                got, exp = t.get_current_token(), m.at(m.c)
            elif name == "at":
                got, exp = t.get_token_at(a[0]), m.at(a[0])
        except Exception as e:                                   # noqa: BLE001
            return ["step %d %r raised %s: %s" % (step, op, type(e).__name__, e)]
        if got is not exp:
            d = lambda z: None if z is None else z.get_token_string()
            return ["step %d %r of %r returned %r, expected %r" % (step, op, case, d(got), d(exp))]
        if t.get_number_of_tokens() != len(m.l) or len(t.get_tokens()) != len(m.l) or \
                any(p is not q for p, q in zip(t.get_tokens(), m.l)):
            return ["step %d %r of %r left the wrong list" % (step, op, case)]
    return []


def c02_cases(tier, seed, hints):
    ops = [["append"], ["create"], ["first"], ["last"], ["next"], ["prev"], ["peek"], ["peekb"], ["cur"], ["peek", 2],
           ["at", 0], ["at", 1], ["at", -1], ["cut", 0], ["insert", 0]]
    for n in (0, 1, 2, 3):
        base = [["append"]] * n
        for k in (1, 2, 3):
            for s in itertools.product(ops, repeat=k):
                yield base + list(s)
    rnd = random.Random(seed)
    for _ in range(40000 if tier == "quick" else 800000):
        h = [["append"]] * rnd.randrange(6)
        for _ in range(rnd.randrange(1, 15)):
            r = rnd.random()
            if r < .45:
                h.append([rnd.choice(["first", "last", "next", "next", "prev", "cur", "peek", "peekb"])])
            elif r < .7:
                h.append([rnd.choice(["peek", "peekb", "at"]), rnd.choice([-7, -3, -2, -1, 0, 1, 2, 3, 4, 7, 10 ** 6])])
            elif r < .85:
                h.append([rnd.choice(["append", "create"])])
            else:
                h.append([rnd.choice(["insert", "cut"]), rnd.randrange(8)])
        yield h


# ------------------------------------------------------------------ C20
def c20(case):
    """case: list of operations on one route sequence whose lists are first emptied"""
    ers = ExtractedRouteSequence()
    R, E = [], []
    ra = [a for a, v in vars(ers).items() if v is ers.get_all_elements()]
    ea = [a for a, v in vars(ers).items() if v is ers.get_all_errors()]
    if len(ra) == 1 and len(ea) == 1 and ra != ea:
        setattr(ers, ra[0], [])
    else:
        R = list(ers.get_all_elements())
    k = 0
    at = lambda l, i: l[i] if 0 <= i < len(l) else None
    for step, op in enumerate(case):
        name = op[0]
        k += 1
        got = exp = None
        try:
            if name == "app":
                got = exp = ExtractedRouteRecord("A%d" % k, k, k + 2)
                R.append(exp)
                got = ers.append_element(exp)
            elif name == "create":
                got = ers.create_append_element("B%d" % k, k, k + 2, 0, 0)
                exp = ers.get_all_elements()[-1]
                if any(exp is r for r in R) or exp.get_name() != "B%d" % k:
                    return ["step %d %r: no new record was appended" % (step, op)]
                R.append(exp)
            elif name == "err":
                ers.add_error("C%d" % k, k, k + 2, 0, 0, "wrong !")
                E.append(ers.get_all_errors()[-1])
            elif name == "at":
                got, exp = ers.get_element_at(op[1]), at(R, op[1])
            elif name == "first":
                got, exp = ers.get_first_element(), at(R, 0)
            elif name == "last":
                got, exp = ers.get_last_element(), at(R, len(R) - 1)
            elif name == "prev":
                got, exp = ers.get_previous_to_last_element(), at(R, len(R) - 2)
            if got is not exp:
                return ["step %d %r of %r returned %s" % (step, op, case, None if got is None else got.get_name())]
            if ers.get_number_of_elements() != len(R) or ers.get_number_of_errors() != len(E):
                return ["step %d %r of %r: wrong counts" % (step, op, case)]
            for l, m in ((ers.get_all_elements(), R), (ers.get_all_errors(), E)):
                if len(l) != len(m) or any(x is not y for x, y in zip(l, m)):
                    return ["step %d %r of %r left a wrong list" % (step, op, case)]
        except Exception as e:                                   # noqa: BLE001
            return ["step %d %r of %r raised %s: %s" % (step, op, case, type(e).__name__, e)]
    return []


def c20_cases(seed):
    probe = [["first"], ["last"], ["prev"]] + [["at", i] for i in (-3, -2, -1, 0, 1, 2, 3, 4, 5, 10 ** 6, -10 ** 6)]
    for n in range(0, 6):
        for w in (["app"], ["create"]):
            for e in (0, 1, 2):
                yield [w] * n + [["err"]] * e + probe
    for n in (10, 100, 255, 256, 257, 1000):
        yield [["app"]] * n + probe + [["at", n - 1], ["at", n], ["at", -n], ["at", -n - 1]]
    rnd = random.Random(seed)
    for _ in range(4000):
        h = []
        for _ in range(rnd.randrange(1, 16)):
            h.append(rnd.choice([["app"], ["create"], ["err"], ["first"], ["last"], ["prev"], ["at", rnd.randrange(-9, 10)]]))
        yield h


# ------------------------------------------------------------------ C08
class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def c08(text):
    n = len(spec.tokenize(text))
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 8.0)
        try:
            tokens = observe.make_tokens(text)
            ers = ExtractedRouteSequence()
            ParseF15().parse_f15(ers, tokens)
            ers.as_xml()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Timeout:
        return ["no result within 8 s on %d elements: %r" % (n, text[:200])]
    except RecursionError as e:
        if n > LIMIT:
            return []           # the recorded finding: see KNOWN_FINDINGS
        return ["RecursionError on %d elements: %r" % (n, text[:200])]
    except Exception as e:                                       # noqa: BLE001
        return ["%s: %s on %r" % (type(e).__name__, e, text[:300])]
    return []


def known_c08():
    """does the recorded finding still fail?"""
    try:
        ParseF15().parse_f15(ExtractedRouteSequence(), observe.make_tokens(" ".join(["N0450F350"] + ["ABC"] * 500)))
        return False
    except RecursionError:
        return True


def long_texts():
    cyc = [["ABC"], ["?"], ["/"], ["DCT", "ABC"], ["A8", "ABC"], ["DCT"], ["A8"], ["C"], ["T"], ["STAY1"], ["0130"],
           ["/", "N0450F350"], ["ABC", "/", "N0450F350"], ["/", "N0200VFR"], ["VFR"], ["IFR"], ["OAT"], ["SID"],
           ["STAR"], ["ABC1A"], ["N0450F350"], ["N0200VFR"], ["N0450F350F370"], ["C", "/"], ["C", "/", "ABC"],
           ["C", "/", "ABC", "/"], ["C", "/", "ABC", "/", "N0450F350F370"], ["STAY1", "/", "0130"], ["X" * 26],
           ["VFR", "IFR", "ABC", "/", "N0450F350", "DEF"], ["VFR", "IFR", "ABC"], ["OAT", "GAT", "ABC"],
           ["VFR", "IFR", "ABC", "/"], ["VFR", "IFR", "ABC", "/", "N0200VFR"], ["IFR", "ABC", "/", "N0200VFR"],
           ["IFR", "ABC", "/", "N0450F350"], ["GAT", "ABC"], ["IFR", "ABC"], ["12N013E"], ["12N013E090100"],
           ["99N999E"], ["N0450F351"], ["N0200VFR", "X" * 26], ["VFR", "X" * 26], ["ABC", "VFR"], ["/", "ABC"],
           ["ABC", "/", "VFR"], ["C", "ABC"], ["IFPSTOP", "IFPSTART", "ABC"], ["IFPSTART", "ABC"]]
    for p in ((), ("N0450F350",), ("N0200VFR",), ("N0450F350", "VFR"), ("N0450F350", "ABC", "OAT")):
        for c in cyc:
            yield " ".join((list(p) + c * LIMIT)[:LIMIT])
        for a in cyc[:26]:
            for b in cyc[:26]:
                if p == ("N0450F350",):
                    yield " ".join((list(p) + (a + b) * LIMIT)[:LIMIT])


# ------------------------------------------------------------------ C16
def result(ers, ok):
    return repr((ok, ers.get_derived_flight_rules(), [Rec(r).asdict() for r in ers.get_all_elements()],
            [Rec(r).asdict() for r in ers.get_all_errors()], ers.as_xml()))


def class_state():
    import F15_Parser.F15TokenSyntaxDescriptions as d
    import F15_Parser.ErrorMessageDefinitions as e
    import F15_Parser.ExtractedRouteRecord as r
    import F15_Parser.F15Parse as p
    import Tokenizer.Tokenize as tz
    import Utilities.Constants as k
    import Utilities.Utils as u
    out = []
    for c in (d.F15TokenSyntaxDefinition, e.ErrorMessages, r.ExtractedRouteRecord, ExtractedRouteSequence, ParseF15,
              Tokenize, Tokens, Token, k.Constants, u.Utils):
        for n, v in sorted(vars(c).items()):
            if callable(v) or n.startswith("__") or isinstance(v, (staticmethod, classmethod, property)):
                continue
            if isinstance(v, Tokens):
                v = (v.current_token, [id(x) for x in v.get_tokens()])
            elif type(v).__module__ not in ("builtins",):
                v = id(v)
            out.append((c.__name__, n, repr(v)))
    import types
    seen = set()
    for m in (d, e, r, p, tz, k, u, sys.modules["F15_Parser.ExtractedRouteSequence"], sys.modules["Tokenizer.Token"],
              sys.modules["Tokenizer.Tokens"]):
        for n, v in sorted(vars(m).items()):
            if n.startswith("__") or isinstance(v, (type, types.ModuleType)):
                continue
            if isinstance(v, (bool, int, float, str, tuple, list, dict, set, bytearray)):
                out.append((m.__name__, n, repr(v)))
        fs = [v for v in vars(m).values() if isinstance(v, types.FunctionType)]
        for c in [v for v in vars(m).values() if isinstance(v, type) and v.__module__ == m.__name__]:
            for v in vars(c).values():
                v = getattr(v, "__func__", getattr(v, "fget", v))
                if isinstance(v, types.FunctionType):
                    fs.append(v)
        for f in fs:
            if f not in seen:
                seen.add(f)
                if f.__defaults__ or f.__kwdefaults__ or vars(f):
                    out.append((f.__qualname__, "defaults", repr((f.__defaults__, f.__kwdefaults__, vars(f)))))
    return out


def _parse(text, parser=None, tokenizer=None):
    tk = tokenizer or Tokenize()
    tk.set_whitespace(WS)
    tk.set_string_to_tokenize(text)
    tk.tokenize()
    tokens = tk.get_tokens()
    before = toks_of(tokens)
    ers = ExtractedRouteSequence()
    ok = (parser or ParseF15()).parse_f15(ers, tokens)
    return tokens, before, ers, ok, result(ers, ok)


def fresh(texts, seed):
    """results of parsing the texts in a new process"""
    code = ("import sys, json; sys.dont_write_bytecode = True; sys.path[:0] = json.loads(sys.argv[1])\n"
            "import more\n"
            "for t in json.load(sys.stdin): print(json.dumps(more._parse(t)[4]))")
    r = subprocess.run([sys.executable, "-c", code, json.dumps(sys.path)], input=json.dumps(texts), text=True,
                       capture_output=True, env=dict(os.environ, PYTHONHASHSEED=str(seed)), timeout=120)
    return [json.loads(x) for x in r.stdout.splitlines()]


def c16(case):
    """case: list of texts, parsed one after the other in one process; or {"fresh": texts}, parsed in new processes"""
    out = []
    if isinstance(case, dict):
        texts = case["fresh"]
        a, b, c = fresh(texts, 1), fresh(texts[::-1], 2)[::-1], fresh(texts, 3)
        for i, t in enumerate(texts):
            if i < len(a) and i < len(b) and i < len(c) and not a[i] == b[i] == c[i]:
                return ["parsing %r gives different results in new processes" % (t,)]
        return out
    s0 = class_state()
    p, tz = ParseF15(), Tokenize()
    first, kept = {}, []
    for rnd in (0, 1):
        for text in case:
            tokens, before, ers, ok, res = _parse(text, p if rnd else None, tz if rnd else None)
            if toks_of(tokens) != before:
                out.append("parsing %r changed the elements of the field" % text)
            if first.setdefault(text, res) != res:
                out.append("parsing %r gives another result after %r" % (text, case))
            kept.append((text, tokens, before, ers, ok, res))
    # the same token list again, into a fresh sequence
    for text, tokens, before, ers, ok, res in kept[:len(case)]:
        e2 = ExtractedRouteSequence()
        r2 = result(e2, p.parse_f15(e2, tokens))
        if r2 != res:
            out.append("parsing the elements of %r a second time gives another result" % text)
    for text, tokens, before, ers, ok, res in kept:
        if result(ers, ok) != res or toks_of(tokens) != before:
            out.append("the result for %r changed after later parses (%r)" % (text, case))
    if len(ExtractedRouteSequence().get_all_elements()) != 1 or ExtractedRouteSequence().get_number_of_errors() or \
            ExtractedRouteSequence().get_derived_flight_rules() != "":
        out.append("a fresh route sequence is not empty after %r" % (case,))
    if class_state() != s0:
        a = set(class_state()) ^ set(s0)
        out.append("shared class data changed: %r" % sorted(x[:2] for x in a))
    return out


def c16_cases(tier, seed, hints):
    rnd = random.Random(seed)
    it = gen.random_texts(seed + 5, 10 ** 9)
    fs = list(gen.FORMS)
    for j in range(0, len(fs), 8):
        yield {"fresh": ["N0450F350 ABC %s DCT %s/%s" % (gen.inst(a, rnd), gen.inst(b, rnd), gen.inst(a, rnd))
                         for a in fs[j:j + 8] for b in fs[:12]] + [next(it) for _ in range(40)]}
    for f in gen.FORMS:
        t = gen.inst(f, rnd)
        yield ["N0450F350 ABC " + t + " DEF", "N0450F350 ABC/" + t + " GHI", "N0200VFR " + t, t]
    for a in gen.REP2:
        for b in gen.REP2:
            yield ["N0450F350 %s %s" % (a, b), "N0450F350 ABC DCT DEF", "N0200VFR %s IFR %s/N0450F350" % (b, a)]
    it = gen.random_texts(seed, 10 ** 9)
    for _ in range(8000 if tier == "quick" else 200000):
        yield [next(it) for _ in range(rnd.choice([2, 3, 4]))]
