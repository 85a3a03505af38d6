"""Concrete cross-check and counterexample search on the real code (run under the repository's interpreter).
usage: search.py PROPERTY TIER SEED OUT.json [HINTS.json]"""
import itertools
import json
import multiprocessing as mp
import os
import random
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (HERE, REPO):
    if p not in sys.path:
        sys.path.insert(0, p)
import spec                                                     # noqa: E402
import gen                                                      # noqa: E402
NPROC = max(1, min(8, os.cpu_count() or 1))


def load():
    import observe
    import oracles
    import more
    return observe, oracles, more


_M = None


def check_text(prop, text):
    """list of violation strings of one property on one field"""
    global _M
    if _M is None:
        _M = load()
    observe, oracles, more = _M
    if prop == "C08":
        return more.c08(text)
    o = observe.observe(text)
    if o.exc:
        return []                       # C08's business
    return oracles.ORACLES[prop](o, oracles.Ctx(o))


def check_case(prop, case):
    if prop in ("C01", "C02", "C16"):
        global _M
        if _M is None:
            _M = load()
        return getattr(_M[2], prop.lower())(case)
    if prop == "C20" and not isinstance(case, str):
        if _M is None:
            _M = load()
        return _M[2].c20(case)
    return check_text(prop, case)


def _worker(args):
    prop, cases, deadline = args
    n = 0
    bad = []
    for c in cases:
        if (n & 63) == 0 and time.time() > deadline:
            break
        n += 1
        try:
            r = check_case(prop, c)
        except Exception as e:                                   # noqa: BLE001
            r = ["oracle could not observe the run: %s: %s" % (type(e).__name__, e)]
        if r:
            bad.append((c, r[:3]))
            if len(bad) >= 5:
                break
    return n, bad


def chunks(it, size):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


def cases(prop, tier, seed, hints):
    focus = (hints or {}).get("tokens") or None
    deep = tier == "thorough" or (hints or {}).get("deep")
    if prop in ("C01", "C02", "C16"):
        import more
        return itertools.chain((hints or {}).get("cases") or [], getattr(more, prop.lower() + "_cases")(tier, seed, hints))
    srcs = []
    if prop == "C20":
        import more
        srcs += [(hints or {}).get("cases") or [], more.c20_cases(seed)]
    if hints and hints.get("texts"):
        srcs.append(hints["texts"])
    if focus:
        al = list(dict.fromkeys(list(focus)[:10] + ["ABC", "DCT", "A8", "/", "VFR", "IFR"]))
        srcs.append(gen.exhaustive(3, al))
        srcs.append(gen.random_texts(seed + 7, 30000, focus))
    srcs.append(gen.all_forms(seed, 6 if deep else 2))
    if prop in ("C03", "C04", "C11", "C12", "C08", "C17"):
        srcs.append(gen.all_forms(seed + 1, 20 if deep else 4))
    if prop in ("C04", "C12") or (prop in ("C05", "C08") and deep):
        srcs.append(gen.level_texts(deep))
    if prop == "C05":
        srcs.append(gen.speed_texts(deep))
    if prop in ("C06", "C07") or (prop == "C08" and deep):
        srcs.append(gen.ll_texts(deep, seed))
    if prop == "C19":
        srcs.append(gen.stay_texts())
    if prop == "C08":
        srcs.append(more_long())
    if prop in ("C03",):
        srcs.append(c03_texts(deep))
    srcs.append(gen.exhaustive(2))
    srcs.append(gen.random_texts(seed, 20000 if not deep else 60000))
    srcs.append(gen.exhaustive(3))
    if deep:
        srcs.append(gen.random_texts(seed + 1000, 1500000 if tier == "thorough" else 400000, focus))
    if tier == "thorough":
        srcs.append(gen.exhaustive(4, list(gen.REP.values()), prefixes=PREF4))
    return itertools.chain(*srcs)


PREF4 = (("N0450F350",),)


def more_long():
    import more
    return more.long_texts()


def c03_texts(deep):
    """all short texts over a small alphabet, every 4-digit text, and literals with trailing line ends"""
    for n in range(10000):
        yield "%04d" % n
    al = "ABNSTMF0129"
    for k in (1, 2, 3) + ((4, 5) if deep else (4,)):
        for t in itertools.product(al, repeat=k):
            yield "".join(t)
    for w in ("VFR", "OAT", "IFPSTOP", "IFR", "GAT", "IFPSTART", "DCT", "T", "C", "SID", "STAR", "STAY1", "NATA", "PTS1"):
        for x in ("", "A", "1", "a", " ", ".", "é"):
            yield w + x
            yield x + w
        yield w.lower()


def search(prop, tier, seed, hints=None, budget=None):
    t0 = time.time()
    if budget is None:
        budget = 25 if tier == "quick" else 600
        if hints:
            budget = 60 if tier == "quick" else 300
    deadline = t0 + budget
    total, bad, samples = 0, [], []
    it = chunks(cases(prop, tier, seed, hints), 400)
    exhausted = True
    with mp.Pool(NPROC) as pool:
        pend = []

        def feed():
            while len(pend) < NPROC * 3:
                c = next(it, None)
                if c is None:
                    return False
                if len(samples) < 5 or random.random() < 0.001:
                    samples.append(c[-1])
                pend.append(pool.apply_async(_worker, ((prop, c, deadline),)))
            return True
        more_ = feed()
        while pend:
            r = pend.pop(0)
            n, b = r.get()
            total += n
            bad += b
            if bad and len(bad) >= 3:
                break
            if time.time() > deadline:
                exhausted = False
                more_ = False
            if more_:
                more_ = feed()
        pool.terminate()
    return {"property": prop, "evaluations": total, "violations": bad[:10], "samples": samples[:8],
            "complete": exhausted, "wall": time.time() - t0}


if __name__ == "__main__":
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    hints = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else None
    try:
        load()
        res = search(prop, tier, seed, hints)
        if prop == "C08":
            res["known_still_fails"] = load()[2].known_c08()
    except Exception as e:                                       # noqa: BLE001
        import traceback
        res = {"property": prop, "evaluations": 0, "violations": [], "samples": [], "complete": False,
               "error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()}
    json.dump(res, open(out, "w"))
