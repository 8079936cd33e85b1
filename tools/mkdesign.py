"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(HERE, "DESIGN.md")
text = open(F).read()
head = "## 7. Planted changes, and what catches them"
text = text.split(head)[0].rstrip() + "\n\n"
rows = []
base = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(base)):
    m = json.load(open(os.path.join(base, d, "meta.json")))
    rows.append((m["property"], d, m["needs"].rstrip("."), m["what_it_breaks"].rstrip(".")))
rows.sort()
text += head + "\n\n"
text += """Every change below was written from the property's text and the code, passes the existing tests, has a demonstration that
fails with it and passes without it, and is caught by the quick check of its own property (column 1). Changes which the
checks missed at first led to the strengthenings named in section 6.

| caught by | change | needs | breaks |
|---|---|---|---|
"""
for r in rows:
    text += "| %s | %s | %s | %s |\n" % r
open(F, "w").write(text)
