"""Command line of the checks.

    run.py <PROPERTY>            run the check (VERIF_SEED, VERIF_TIER)
    run.py replay <file>         re-run one saved case
    run.py list                  all properties
"""

import importlib
import io
import json
import os
import re
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from pbt import engine  # noqa: E402
from pbt.engine import Violation  # noqa: E402

MODULES = {
    "C01": "creole_basic", "C02": "creole_basic", "C03": "creole_basic", "C04": "creole_basic",
    "C05": "creole_basic", "C06": "creole_basic",
    "C07": "creole_any", "C08": "creole_any", "C09": "creole_any",
    "C10": "macros", "C11": "toc", "C12": "macros",
    "H01": "roundtrip", "H02": "roundtrip",
    "H03": "render", "H04": "render", "H05": "render",
    "H06": "html_any", "H07": "html_any", "H08": "unknown", "H09": "pre", "H10": "tables",
    "H11": "spelling", "H12": "spelling", "H13": "spelling", "H14": "restlabels",
    "T01": "resttools", "T02": "resttools", "T03": "readme", "T04": "cli", "T05": "independence",
    "T06": "argstrings", "T07": "examplemacros", "T08": "options", "T09": "options",
}
# quick budgets of the subs times this: about half a minute per check
BUDGET = {"C02": 3, "C04": 5, "C05": 3, "C06": 5, "C07": 5, "C08": 3, "C11": 2, "H01": 1.7, "H02": 2, "H03": 2.5, "H04": 2, "H07": 2.5, "H09": 2.5,
          "H14": 2, "T06": 8, "T07": 2, "T08": 4, "T09": 1.5}
WALL = {"quick": 500.0, "thorough": 5400.0}


def load(prop):
    module = importlib.import_module(f"pbt.props.{MODULES[prop]}")
    spec = dict(module.PROPS[prop])
    many = importlib.import_module("pbt.props.many").SUBS.get(prop)
    if many:
        spec["subs"] = spec["subs"] + [many()]
    return spec


def known_entries(prop):
    path = os.path.join(VERIF, "known_findings.json")
    entries = json.load(open(path, encoding="utf-8"))
    return [e for e in entries["findings"] if e["property"] == prop]


def main(argv):
    if len(argv) == 2 and argv[0] == "replay":
        data = json.load(open(argv[1], encoding="utf-8"))
        subs = {s.name: s for s in load(data["property"])["subs"]}
        try:
            engine.run_check(subs[data["sub"]], data["case"])
        except Violation as err:
            print(f"VIOLATION property={data['property']} replay={argv[1]}")
            print(err)
            return 1
        print("no violation")
        return 0
    if argv == ["list"]:
        print("\n".join(MODULES))
        return 0

    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    warnings.simplefilter("ignore")
    spec = load(prop)
    for sub in spec["subs"]:
        sub.quick = int(sub.quick * BUDGET.get(prop, 1))
    t0 = time.monotonic()
    evidence_dir = os.path.join(VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    replay_dir = os.path.join(evidence_dir, "replay")
    os.makedirs(replay_dir, exist_ok=True)

    # recorded findings: each is one concrete case, evaluated on its own
    subs = {s.name: s for s in spec["subs"]}
    for entry in known_entries(prop):
        sub = subs[entry["sub"]]
        try:
            engine.run_check(sub, entry["case"])
        except Violation:
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")

    only = os.environ.get("PBT_SUB")
    chosen = [s for s in spec["subs"] if not only or s.name in only.split(",")]
    summary = engine.run_property(prop, chosen, seed, tier, os.path.realpath(os.environ.get("PBT_REPO", "/repo")),
                                  WALL[tier])

    evaluations = sum(s["evaluations"] for s in summary["subs"].values())
    nontrivial = sum(len(s["nontrivial"]) for s in summary["subs"].values())
    samples = []
    detail = {}
    for name, s in summary["subs"].items():
        for case in s["samples"][:2]:
            samples.append({"check": name, "case": case})
        detail[name] = {
            "evaluations": s["evaluations"], "distinct_nontrivial": len(s["nontrivial"]), "rule": s["rule"],
            "labels": {k: v for k, v in sorted(s["labels"].items())},
        }
        if s["coverage"]:
            detail[name]["lines_and_branches_reached_per_worker_max"] = s["coverage"]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": nontrivial,
            "rule": spec["rule"], "samples": samples or ["no sample"], "checks": detail,
            "stopped_early": bool(summary["stopped"]),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if summary["violation"] else 0,
    }
    with open(os.path.join(evidence_dir, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, sort_keys=True)
        f.write("\n")

    if summary["violation"]:
        v = summary["violation"]
        path = os.path.join(replay_dir, f"{prop}-{v['sub']}-{seed}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(v, f, indent=1, ensure_ascii=True, sort_keys=True)
            f.write("\n")
        print(f"VIOLATION property={prop} replay={path}")
        print(f"check {v['sub']}: {v['message'][:1200]}")
        return 1
    if summary["errors"]:
        print(f"ERROR in the check of {prop}:")
        print("\n".join(summary["errors"][:3]))
        return 2
    print(f"{prop} held: {evaluations} cases, {nontrivial} distinct non-trivial, {summary['wall']:.1f} s"
          + (" (stopped at the time limit)" if summary["stopped"] else ""))
    if os.environ.get("PBT_VERBOSE"):
        for name, d in detail.items():
            print(" ", name, d["evaluations"], d["distinct_nontrivial"], d["labels"])
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
