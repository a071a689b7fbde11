import sys, json
sys.path[:0] = ["/verif/tools", "/verif/contracts"]
import importlib, vlib
mod, fn = sys.argv[1].split(":") if ":" in sys.argv[1] else (sys.argv[1], "build")
kw = dict(a.split("=") for a in sys.argv[2:] if a != "-v")
m = importlib.import_module(mod)
import common
if "bits" in kw: kw = dict(widths=[w for w in common.WIDTHS if str(w["BITS"]) in kw["bits"].split(",")])
vs = getattr(m, fn)(**kw)
from concurrent.futures import ThreadPoolExecutor
vs = vs if isinstance(vs, list) else [vs]
for v, r in zip(vs, ThreadPoolExecutor(4).map(lambda v: v.verify(vacuity="-v" in sys.argv), vs)):
    print(v.name, r["status"], r["verified"], r["errors"], "%.1fs" % r["time"], r["detail"][:3000])
    for f in r["undecided"].items(): print("  UNDEC", f)
    for f in r["failed"]: print("  FAIL", f)
    for f in r.get("soft", []): print("  SOFT", f)
    if r["vacuity"]: print(r["vacuity"])
