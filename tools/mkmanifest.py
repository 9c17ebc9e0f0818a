#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
SES = "TLA+ specification (Session/Vault) explored with TLC; every generated transition and random behaviour replayed on the code with full state comparison"
SESN = ("Model checking of the specification within the stated bounds, plus replay of the generated behaviours on the real code. "
        "Assurance for the code extends to the replayed behaviours (exhaustive over small configurations up to the BFS depth, random beyond).")
CHECKS = {p: ("model_checking", SES, SESN) for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C12", "C21"]}
NA = {}
exec((V / "tools/manifest_extra.py").read_text()) if (V / "tools/manifest_extra.py").exists() else None
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks = []
for p in props:
    if p in CHECKS:
        lvl, tech, note = CHECKS[p]
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                           evidence_file=f"evidence/{p}.json", technique=tech, level=lvl, level_note=note))
na = [dict(property=p, reason=NA.get(p, "no check built yet")) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Specifications: spec/*.tla (TLA+, TLC). Harness: harness/ (Rust). Runner: check.py. See DESIGN.md.")
HOOKS = globals().get("HOOKS")
if HOOKS:
    m["hooks"] = HOOKS
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
