"""Prints the table of planted bugs for DESIGN.md (development aid; no check uses it)."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
miss = set(sys.argv[1:])
print("| id | property | needs | breaks | caught by |\n|----|----|----|----|----|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    print("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], "missed" if d in miss else m["property"]))
