"""Writes MANIFEST.json: python3 tools/mkmanifest.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
TECH = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NOT_YET:
        checks.append({"property": i, "quick_cmd": f"checks/run {i} --tier quick",
                       "thorough_cmd": f"checks/run {i} --tier thorough", "technique": TECH[i],
                       "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "B_ASIC_VERIF", "enable": "no hooks were needed: every monitor observes public API, generated text or processes; nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Checks import b_asic from /repo/lib directly; the native extension (C02) is compiled into a scratch directory on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
