"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (used by hand)."""
import glob, json, os, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); by = collections.OrderedDict()
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); by.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j["needs"]))
n = sum(map(len, by.values())); B, E = "<!-- plants -->\n", "<!-- /plants -->\n"
t = B + f"{n} bugs are kept in `seeded/`; each is caught by the check of the property it is named after.\n\n| property | planted bugs (what each needs to show) |\n|---|---|\n"
t += "".join(f"| {p} | " + "; ".join(f"`{i.split('-', 1)[1]}` ({d})" for i, d in l) + " |\n" for p, l in by.items()) + E
s = open(V + "/DESIGN.md").read()
s = s[:s.index(B)] + t + s[s.index(E) + len(E):] if B in s else s + "\n## Planted bugs\n\n" + t
open(V + "/DESIGN.md", "w").write(s); print(n, "plants")
