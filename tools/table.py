"""Rewrites the table of planted changes at the end of DESIGN.md."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("c15-unordered c26-edges-ignored c28-lost-remainder c03-view-of-imfs c20-zero-threshold c14-std-moments c04-sticky-limit c05-iteration-count".split())
path = os.path.join(root, "DESIGN.md")
head = "| planted change | check | needs |\n|-|-|-|\n"
text = open(path).read()
text = text[: text.index(head) + len(head)]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m, n = json.load(open(f)), os.path.basename(os.path.dirname(f))
    text += "| {}{} | {} | {} |\n".format(n, " *" if n in MISSED else "", m["property"], m["needs"])
open(path, "w").write(text)
