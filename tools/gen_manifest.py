#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json
from pathlib import Path
import sys
sys.path.insert(0, str(Path(__file__).parent))
from plan import PLAN
R = Path(__file__).resolve().parent.parent
NA = {}
props = [json.loads(l)["id"] for l in (R / "properties.jsonl").read_text().splitlines() if l.strip()]
checks = []
for p in props:
    if p not in PLAN: continue
    e = PLAN[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --quick", "thorough_cmd": f"python3 check.py {p} --thorough",
                   "evidence_file": f"evidence/{p}.json",
                   "technique": e.get("technique", "symbolic execution of the real code's LLVM IR, every branch and assertion decided by z3"),
                   "level": e.get("level", "model_checking"),
                   "level_note": "Holds for every value within the bounds: " + e["bounds_text"] + ". Trusts rustc's IR, the symbolic executor symir and z3." + (" " + "; ".join(e["assumptions"]) + "." if e.get("assumptions") else "")})
na = [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in PLAN]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness crates use the public interface only, and the tool's own main.rs (C27). See DESIGN.md."}
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
