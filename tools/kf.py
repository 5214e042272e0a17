"""usage: kf.py fixed PROP COMMIT TEXT | kf.py open PROP MECH TEXT — maintain known_findings.json (by hand, never by a check)."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P))
d.setdefault("fixed", [])
if sys.argv[1] == "fixed":
    d["fixed"].append(f"fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}")
else:
    d["findings"].append({"property": sys.argv[2], "mech": sys.argv[3], "status": "open", "what": sys.argv[4]})
json.dump(d, open(P, "w"), indent=1)
