#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 8) from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "control-block-size-16bit": "values of 64 KB and more (mass scenarios)",
    "rvalue-swapped-in": "pushed rvalues must be as before or moved from",
    "default-stack-minimal": "real size of default stacks",
    "protected-stack-unprotected": "probing the guard page",
    "reference-kept-on-heap": "heap balance",
    "lvalue-by-address": "the pushed object changes after it arrived",
    "static-mailbox": "pre-emption at memory accesses",
    "exception-mailbox": "pre-emption at memory accesses",
    "rvalue-callable-copied": "callables given as rvalues are not copied",
    "many-live-coroutines": "mass scenarios",
}
MISSED.update(json.load(open(os.path.join(ROOT, "tools/missed.json"))) if os.path.exists(os.path.join(ROOT, "tools/missed.json")) else {})
rows = ["| planted bug | property | needs | first missed; added |", "|---|---|---|---|"]
ms = [(json.load(open(f)), os.path.basename(os.path.dirname(f))) for f in glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))]
for m, i in sorted(ms, key=lambda x: (x[0]["property"], x[1])):
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), MISSED.get(i, "")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
b, e = "<!-- planted -->\n", "<!-- /planted -->\n"
s = s.replace("SEEDEDTABLE\n", b + e)
i, j = s.index(b) + len(b), s.index(e)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(len(ms), "planted bugs")
