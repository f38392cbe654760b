"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| bug | property | needs |\n|---|---|---|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    print("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
