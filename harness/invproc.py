"""invproc.py <repo> <out>: answers requests for lists of invariants read from stdin (one JSON list per line: n, options)."""
import json
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
repo, out = sys.argv[1:3]
sys.path.insert(0, repo)
from lips.invariants import Invariants  # noqa: E402

FAMILIES = ["2", "3", "4", "5", "s", "D", "O", "P", "tr5"]
res = []
for n, o in json.load(sys.stdin):
    try:
        inv = Invariants(n, **o)
        res.append({"fams": {f: getattr(inv, "invs_" + f) for f in FAMILIES}, "full": inv.full, "fm4": inv.full_minus_4_brackets, "invN": inv.invs_N})
    except Exception as e:
        res.append({"error": f"{type(e).__name__}: {e}"[:300]})
with open(out, "w") as f:
    json.dump(res, f)
