#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
mark = "| bug | caught by | what it breaks | needs |\n"
text = text.split(mark)[0].rstrip("\n") + "\n\n" + mark + "|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    text += f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n"
open(path, "w").write(text)
