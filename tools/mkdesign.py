#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in, known_findings.json and seeded/."""
import json, os, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wrap = lambda s: textwrap.fill(s, 110, initial_indent="* ", subsequent_indent="  ", break_long_words=False, break_on_hyphens=False)
k = json.load(open(V + "/known_findings.json"))
find = "\n".join(wrap("**%s** `%s`: %s" % (f["property"], f["sig"], f["what"])) for f in k["findings"])
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append(wrap("`%s` (%s): needs %s; %s." % (i, m["property"], m["needs"], m["what_it_breaks"])))
t = open(V + "/tools/design.md.in").read()
open(V + "/DESIGN.md", "w").write(t.replace("@@FINDINGS@@", find).replace("@@SEEDS@@", "\n".join(rows)))
