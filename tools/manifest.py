#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harness annotations"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = {

  "C31": "a statement about trigonometric sums of real numbers with tolerances; sine and cosine cannot be encoded for a solver within reach, and abstracting them (as C12 does) removes what this property is about",
}
notes = {}
claimed = {}
for f in sorted(os.listdir(V + "/harness")):
  if f.endswith(".c"):
    for m in re.finditer(r"/\*@(.*?)@\*/", open(V + "/harness/" + f).read(), re.S):
      a = json.loads(m.group(1))
      for p in (a["property"] if isinstance(a["property"], list) else [a["property"]]):
        claimed.setdefault(p, []).append(a)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, not_applicable = [], []
for p in props:
  i = p["id"]
  if i in claimed:
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
      "technique": "bounded symbolic execution of the real C code (goto-cc, cbmc) decided by SAT, counterexamples replayed natively",
      "level": "other",
      "level_note": "Holds for every value of the symbolic inputs within these bounds, nothing is claimed outside of them: " +
        " | ".join(dict.fromkeys(a["about"] for a in claimed[i])) +
        ". Trusts cbmc's C semantics and SAT solver and the harness oracles; stubs are listed in DESIGN.md and in the evidence."})
  else:
    not_applicable.append({"property": i, "reason": na.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": not_applicable,
  "notes": "check.py PROPERTY regenerates the encoding from /repo/source on every run. No hooks in /repo are needed. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in not_applicable])
