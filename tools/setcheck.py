#!/usr/bin/env python3
"""setcheck.py ID source[:variant]... [key=value]...: register a check in harness/checks.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "checks.json")
c = json.load(open(p))
d = {"sources": [a for a in sys.argv[2:] if "=" not in a]}
for a in sys.argv[2:]:
    if "=" in a:
        k, v = a.split("=", 1)
        try:
            v = json.loads(v)
        except ValueError:
            pass
        d[k] = v
c[sys.argv[1]] = d
json.dump(dict(sorted(c.items())), open(p, "w"), indent=1)
