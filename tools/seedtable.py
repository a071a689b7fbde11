"""dev: print the planted-bug table for DESIGN.md from seeded/*/meta.json"""
import json, os
R = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("Each lies in `seeded/<id>/` (patch, demonstration, needs). \"caught\" = exit 1 with this property's VIOLATION line when applied to /repo.\n")
print("| id | check | needs | caught |\n|----|----|----|----|")
C = {}
p = os.path.join(os.path.dirname(R), "tools", "seeds_caught.txt")
for l in (open(p) if os.path.exists(p) else []):
    a = l.split(None, 1)
    C[a[0]] = a[1].strip()
for s in sorted(os.listdir(R)):
    m = json.load(open(os.path.join(R, s, "meta.json")))
    print(f"| {s} | {m['property']} | {m['needs']} | {C.get(s, '?')} |")
