"""prove.py PROPERTY TIER SEED OUT — discharge the contracts of one property on the current source."""
import importlib
import json
import os
import sys
import time
import traceback

T0 = time.time()


def main():
    prop, tier, seed, outf = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    budget = 390 if tier == "quick" else 2900

    def log(s):
        print("%7.1f %s" % (time.time() - T0, s), flush=True)
    sys.setrecursionlimit(20000)
    import core
    from core import ASSUME
    base = {"obligations": 0, "discharged": 0, "failed": [], "functions": [], "assumptions": ASSUME, "bounded": []}
    from vals import Unsupported
    try:
        import repo
        R = repo.Repo()
        import props
        import props2                                                # noqa: F401
        if prop in props.PROPS:
            res = core.core(props.PROPS[prop](R), R, tier, log, T0 + budget)
        else:
            try:
                m = importlib.import_module(prop.lower())
            except ModuleNotFoundError:
                raise Unsupported("no contracts for this property")
            res = m.run(R, tier, log, T0 + budget)
            res["assumptions"] = ASSUME + res.get("assumptions", [])
    except Unsupported as e:
        res = dict(base, status="unsupported", reason=str(e))
        log(traceback.format_exc())
    except Exception as e:                                       # noqa: BLE001
        res = dict(base, status="error", reason="%s: %s" % (type(e).__name__, e))
        log(traceback.format_exc())
    res["wall_s"] = round(time.time() - T0, 2)
    with open(outf + ".tmp", "w") as f:
        json.dump(res, f, indent=1)
    os.replace(outf + ".tmp", outf)
    log("%s %s %d/%d %s" % (prop, res["status"], res["discharged"], res["obligations"], res["reason"][:600] if res.get("reason") else ""))


main()
