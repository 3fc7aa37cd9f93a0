"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, "DESIGN.md")
t = open(d).read()
head = t[:t.index("## 6. Planted bugs")]
o = [head, "## 6. Planted bugs\n\n",
     "They live in `seeded/`; no check reads them. Each was written from the text of its property; those that were missed at first led to the\n"
     "entries named in the last column. All are caught by the check of their own property (exit 1, replayed natively).\n\n",
     "| bug | property | what it breaks | needs | led to |\n|---|---|---|---|---|\n"]
led = json.load(open(os.path.join(here, "tools", "led.json")))
for i in sorted(os.listdir(os.path.join(here, "seeded")), key=lambda x: int(x[1:].split("-")[0])):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    o.append("| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"], led.get(i.split("-")[0], "")))
open(d, "w").write("".join(o))
