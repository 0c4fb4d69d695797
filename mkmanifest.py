#!/usr/bin/env python3
"""Write MANIFEST.json from the list of properties the harness implements."""
import json, os, subprocess
d = os.path.dirname(os.path.abspath(__file__))
have = subprocess.check_output([d + "/target/release/pbt", "list"], text=True).split()
props = [json.loads(l) for l in open(d + "/properties.jsonl")]
NOTE = "Generated-input search with an independent oracle: it can refute the property and shows how much was searched, it cannot prove it."
checks = []
for p in props:
    if p["id"] in have:
        checks.append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json", technique="property-based testing (proptest strategies, independent oracle, shrinking)",
            level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="bash build.sh", hooks=dict(guard="none", enable="no hooks: every check uses the public interface", source_commits=[]),
    checks=checks, not_applicable=[], notes="One harness crate (harness/) decides all properties; see DESIGN.md. Known findings and fixes: KNOWN_FINDINGS.txt.")
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
open(d + "/MANIFEST.json", "a").write("\n")
