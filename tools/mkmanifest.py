"""Writes MANIFEST.json from properties.jsonl and harness/registry.py."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from harness.registry import NOT_APPLICABLE, REGISTRY  # noqa: E402

checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    if p in REGISTRY:
        r = REGISTRY[p]
        checks.append(dict(
            property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p,
            technique="explicit TLA+ specification (%s) model checked with TLC; executions of the real code, "
                      "driven by TLC-generated and random environment behaviours, validated against it with TLC"
                      % ", ".join("specs/%s.tla" % s for s in r["specs"]),
            level="model_checking",
            level_note=r.get("note", "exhaustive on the specification within small constants; trace validation of "
                                     "sampled schedules of the implementation")))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "not claimed yet: its specification and driver are still to be built")))
(V / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
