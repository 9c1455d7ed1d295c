"""Writes /verif/MANIFEST.json from the properties that have a check."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

TECH = json.load(open(os.path.join(HERE, "techniques.json"), encoding="utf-8"))
props = [json.loads(line) for line in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8")]
NOTE = ("Exploration: no violation in the generated cases of this run (counts and samples in the evidence file); "
        "inputs outside the generator's domain (DESIGN.md) are not covered.")
checks, missing = [], []
src = open(os.path.join(HERE, "run.py"), encoding="utf-8").read()
ns = {}
exec(src[src.index("MODULES = {"):src.index("}\nWALL") + 1], ns)
for p in props:
    pid = p["id"]
    mod = ns["MODULES"].get(pid)
    if not mod or not os.path.exists(os.path.join(HERE, "props", mod + ".py")) or pid not in TECH:
        missing.append({"property": pid, "reason": "check not built yet"})
        continue
    t = TECH[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"bash pbt/check.sh {pid} quick",
        "thorough_cmd": f"bash pbt/check.sh {pid} thorough",
        "technique": t["technique"],
        "level": "exploration",
        "level_note": NOTE + (" " + t["note"] if t.get("note") else ""),
    })
out = {
    "version": 1,
    "setup_cmd": "bash pbt/setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "All checks are generated-input search (see DESIGN.md). No hooks in /repo. Replay: bash pbt/check.sh replay FILE.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed,", len(missing), "not claimed")
