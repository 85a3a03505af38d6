"""Replay a violation file against the real code: replay.py FILE. Exit 1 if the violation is reproduced."""
import json
import sys

sys.dont_write_bytecode = True
import search                                                    # noqa: E402

d = json.load(open(sys.argv[1]))
if not d.get("case"):
    print("no failing input recorded; failed obligations:")
    for o in d.get("failed_obligations", []):
        print("  ", json.dumps(o)[:2000])
    sys.exit(2)
case = d["case"]


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


msgs = search.check_case(d["property"], tup(case) if isinstance(case, list) else case)
print(d["property"], repr(case))
for m in msgs:
    print("  ", m)
sys.exit(1 if msgs else 0)
