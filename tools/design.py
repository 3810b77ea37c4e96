#!/usr/bin/env python3
"""rewrites the table of queries in DESIGN.md from the harness annotations"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(os.listdir(V + "/harness")):
  if f.endswith(".c"):
    for m in re.finditer(r"/\*@(.*?)@\*/", open(V + "/harness/" + f).read(), re.S):
      a = json.loads(m.group(1))
      for p in (a["property"] if isinstance(a["property"], list) else [a["property"]]):
        rows.setdefault(p, []).append("| %s | `%s` | %s | %d / %d |" % (p, a["entry"], a["about"].replace("|", "/"), len(a.get("quick", [])), len(a.get("thorough", []))))
t = "<!-- queries -->\n| property | entry | explored for every value | queries quick / thorough |\n| --- | --- | --- | --- |\n" + "\n".join("\n".join(rows[p]) for p in sorted(rows)) + "\n<!-- /queries -->"
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- queries -->.*?<!-- /queries -->", lambda m: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
