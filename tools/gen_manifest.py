#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, contracts/*/meta.json and the not-applicable table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
NA = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    mp = f"{H}/contracts/{i}/meta.json"
    if os.path.exists(mp):
        m = json.load(open(mp))
        lv = m.get("level", "proof")
        c = {"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} thorough", "evidence_file": f"evidence/{i}.json",
             "technique": m["technique"], "level": lv, "level_note": m.get("level_note") or "; ".join(["contracts on the real code"] + m.get("assumptions", []))}
        if m.get("theorems"): c["theorems"] = m["theorems"]
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup",
  "hooks": {"guard": "cfg(regalloc2_verif)", "enable": "RUSTFLAGS='--cfg regalloc2_verif' and REGALLOC2_VERIF_DIR=<directory of contract files> (bin/check sets both)", "source_commits": ["25a79d6"]},
  "checks": checks, "not_applicable": na,
  "notes": "Contract-based deductive verification of the real code: Kani function contracts in place, Verus on mechanically extracted functions; see DESIGN.md. Defects found and repaired are in known_findings.txt."},
  open(f"{H}/MANIFEST.json", "w"), indent=1)
