#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read().split("## Planted bugs")[0]
rows = ["| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"])
        for m in sorted(glob.glob(V + "/seeded/*/meta.json")) for d in [json.load(open(m))]]
missed = open(V + "/tools/missed.txt").read()
open(V + "/DESIGN.md", "w").write(t + "## Planted bugs\nEach is caught by the quick check of the property in the second column (exit 1 and its VIOLATION line).\n\n"
  "| seeded/ | check | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n\n" + missed)
