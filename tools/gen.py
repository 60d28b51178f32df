#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (run by hand after editing it)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash -c '. ./env.sh; export GOFLAGS=-mod=readonly; cd harness && go build -o /dev/null ./cmd/pcheck'",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "technique": p["tech"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
    } for p in PROPS if p["id"] not in NOT_APPLICABLE],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "Every check builds harness/ against /repo's working tree (go.mod replace) and drives the public API; no hooks in /repo. Generated from tools/properties.py by tools/gen.py.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
