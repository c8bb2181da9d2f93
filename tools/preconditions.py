"""Print the table of open domain obligations (reviewed by hand before it is committed as sa/preconditions.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from sa.index import Program
from sa.rules import c09
r = c09.run(Program(sys.argv[1] if len(sys.argv) > 1 else "/repo"), "quick")
out = {}
for m, lst in sorted(r.open_sites.items()):
    for k, what, text, fn, ln, n in lst:
        out.setdefault(m, {}).setdefault(k, {}).setdefault(fn.qual, []).append(n)
        print(m, k, fn.qual, ln, what, text, n, file=sys.stderr)
for m in out.values():
    for k in m.values():
        for q in k:
            k[q].sort()
print(json.dumps(out, sort_keys=True, indent=1))
