#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks (run by hand when either changes)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for d in props:
    c = registry.PROPS.get(d["id"])
    if not c:
        na.append({"property": d["id"], "reason": "no check yet"})
        continue
    how = {"C21": "random call histories in fresh processes and threads; order, repetition, aliasing and concurrency as metamorphic relations",
           "C22": "random flag strings and sequences against a model",
           "C28": "random command lines and interactive sessions against the library's own answers",
           "C18": "differential property-based testing of four builds",
           "C09": "exhaustive (thorough) or random (quick) five-letter strings against a reference definition"}.get(d["id"], getattr(c, "technique", "property-based testing: generated words, tanru and settings against a reference model or metamorphic relation"))
    checks.append({
        "property": d["id"],
        "quick_cmd": "python3-vt harness/run.py %s --tier quick" % d["id"],
        "thorough_cmd": "python3-vt harness/run.py %s --tier thorough" % d["id"],
        "technique": how,
        "level": "exploration",
        "level_note": getattr(c, "note", "") or "Generated-input search over %s, built from the working tree, with agreement of their answers as a further oracle; "
        "shows violations, not their absence. Trusts the reference models and rules in harness/model.py and harness/gen.py." % (
            "the Rust crate" if c.names == ["rs"] else "Python, the freshly compiled TypeScript, the shipped JavaScript and Rust"),
    })
m = {"version": 1, "setup_cmd": "python3-vt harness/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the TypeScript and Rust sources from /repo's working tree in a scratch directory and imports the Python package from there; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
