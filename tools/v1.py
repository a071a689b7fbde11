"""debug: verify one VFile expression: v1.py 'derived.file(derived.FIELDS[0],"x")'"""
import sys; sys.path[:0]=['/verif/tools','/verif/contracts']
import importlib
m=sys.argv[1].split(".")[0]; ns={m:importlib.import_module(m)}
v=eval(sys.argv[1],ns)
if "-k" in sys.argv:
    # keep raw errors: no stubbing
    v.ans=v.extract(); t=v.assemble()
    p="/verif/build/verus/%s.rs"%v.name; open(p,"w").write(t)
    import os; os.chdir("/verif/build/verus"); os.execvp("verus",["verus",p,"--multiple-errors","3","--num-threads","8"])
r=v.verify(vacuity="-v" in sys.argv)
print(v.name,r["status"],r["verified"],r["errors"],"%.1fs"%r["time"],r["detail"][:2500])
for f in r["undecided"].items(): print("  UNDEC",f)
for f in r["failed"]: print("  FAIL",f)
for f in r.get("soft",[]): print("  SOFT",f)
if r["vacuity"]: print(r["vacuity"])
