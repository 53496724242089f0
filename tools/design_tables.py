"""rewrite the generated sections of DESIGN.md: contracts, planted bugs and repairs"""
import json, os, re, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()


def put(tag, txt):
    global s
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + txt.rstrip() + "\n" + s[j:]


rows = ["| property | contracts | obligations proved | open | contract modules | stand-in |", "|---|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "expected", "*.json"))):
    c = os.path.basename(f)[:-5]
    d = json.load(open(f))
    ok = sum(1 for k in d.values() for n, v in k.items() if not n.startswith("__") and v == "proved")
    op = ["%s/%s" % (k, n) for k, v in d.items() for n, x in v.items() if not n.startswith("__") and x != "proved"] + [k + " (solver budget)" for k, v in d.items() if "__error__" in v]
    mods = ", ".join(os.path.basename(x) for x in sorted(glob.glob(os.path.join(H, "contracts", c + "_*.py"))))
    rows.append("| %s | %d | %d | %s | %s | exec/%s.py |" % (c, len(d), ok, "; ".join(op) or "none", mods, c))
put("contracts", "\n".join(rows))
det = json.load(open(os.path.join(H, "tools", "detected.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], det.get(i, "not caught")))
put("seeds", "\n".join(rows))
rows = []
for l in open(os.path.join(H, "known_findings.jsonl")):
    e = json.loads(l)
    if e["status"] == "fixed":
        rows.append("- %s %s: %s" % (e["property"], e["commit"], e["what"].split(": ", 2)[-1].replace("%s %s before the repair this did not hold: " % (e["property"], e["commit"]), "").split("did not hold: ")[-1]))
put("fixes", "\n".join(rows))
open(p, "w").write(s)
