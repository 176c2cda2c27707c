"""Writes MANIFEST.json and properties.jsonl from the registry in props.py."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from props import PROPS
try:
    from props_na import NA
except ImportError:
    NA = []

NOTE = ("Static: the value-flow tables of the anchored entry points are recomputed from the type-checked source on every run and every entry must equal its reviewed form. "
        "Trusts the summaries of std combinators, one representative iteration per loop, and the compiler's MIR.")


def main():
    checks, lines = [], []
    for pid, p in PROPS.items():
        if not p.get("statement"):
            continue
        checks.append({
            "property": pid, "quick_cmd": f"python3 lib/check.py {pid}", "thorough_cmd": f"python3 lib/check.py {pid}",
            "technique": p.get("technique", "gated value-flow analysis over resolved MIR (inter-procedural dataflow, path predicates in canonical form) against a reviewed effect table"),
            "level": "other", "level_note": p.get("level_note", NOTE),
        })
        lines.append(entry(pid, p))
    na = []
    for n in NA:
        na.append({"property": n["id"], "reason": n["reason"]})
        lines.append(entry(n["id"], n))
    man = {
        "version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks, "not_applicable": na,
        "notes": "Static analysis only; see DESIGN.md. Nothing in /repo is instrumented: no hooks.",
    }
    with open(f"{VERIF}/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for l in lines:
            f.write(json.dumps(l) + "\n")
    print(len(checks), "checks,", len(na), "not applicable")


def entry(pid, p):
    assert len(p["title"]) <= 80, p["title"]
    return {
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": list(p.get("over", ["inputs"])), "text": p["qtext"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    }


main()
