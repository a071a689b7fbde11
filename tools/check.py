#!/usr/bin/env python3
"""check.py PROPERTY : decides one property (see DESIGN.md, "Verdicts").  exit 0 / 1 only."""
import importlib, json, os, re, subprocess, sys, threading, time, traceback
T0 = time.time()
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")]
import vlib
from vlib import VERIF, BUILD, SEED, TIER, run, log
LIMIT = 840.0
def remaining():
    return LIMIT - (time.time() - T0)

class Harness(threading.Thread):
    """builds the bounded harness of a property against the current tree"""
    def __init__(self, prop, miri=None):
        super().__init__(daemon=True)
        self.bin, self.ok, self.err, self.miri = prop.lower(), False, "", miri
    def run(self):
        try:
            vlib.mirror()
            rc, o, e, dt = run(["cargo", "+stable", "build", "--offline", "-q", "--bin", self.bin], cwd=os.path.join(VERIF, "harness"),
                               env={"CARGO_TARGET_DIR": os.path.join(BUILD, "target-harness")}, timeout=500)
            self.ok, self.err = rc == 0, e[-3000:]
            if self.ok and self.miri:
                # builds the Miri program once; its case then only runs it
                d = os.path.join(VERIF, "tools", self.miri)
                rc, o, e, dt = run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", "warm"], cwd=d, timeout=300, env={"CARGO_TARGET_DIR": os.path.join(BUILD, "target-miri"), "MIRIFLAGS": "-Zmiri-disable-isolation"})
                log("  Miri program: %s %.1fs" % ("built" if rc == 0 else "no clean run: " + e[-200:], dt))
                os.environ["C26_MIRI"] = d
        except Exception as ex:
            self.err = repr(ex)
    def exe(self):
        return os.path.join(BUILD, "target-harness", "debug", self.bin)
    def search(self, secs, procs, seed0):
        """-> merged case table, list of failures"""
        ps = [subprocess.Popen([self.exe(), "--seed", str(seed0 + 1000003 * i), "--secs", str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for i in range(procs)]
        table, fails, bad = {}, [], 0
        for p in ps:
            try:
                o, _ = p.communicate(timeout=max(60, secs * 4 + 60))
                j = json.loads(o.strip().splitlines()[-1])
            except Exception:
                p.kill()
                bad += 1
                continue
            for c in j["cases"]:
                t = table.setdefault(c["case"], dict(evaluations=0, nontrivial=0, distinct=0, samples=[]))
                t["evaluations"] += c["evaluations"]; t["nontrivial"] += c["nontrivial"]
                t["distinct"] = max(t["distinct"], c["distinct_nontrivial"])
                t["samples"] = t["samples"] or c["samples"]
                if c["fail"]:
                    fails.append(c["fail"])
        return table, fails, bad

def known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) case="([^"]+)" inputs=\[([^\]]*)\] (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append(dict(case=m.group(2), inputs=[x.strip() for x in m.group(3).split(",") if x.strip()], what=m.group(4)))
    return out

def main():
    prop = sys.argv[1]
    plan = importlib.import_module("plan").PLAN[prop]
    h = Harness(prop, plan.get("miri")) if plan.get("harness", True) else None
    if h:
        h.start()
    files = []
    for mod, fn, kw in plan["files"]:
        v = getattr(importlib.import_module(mod), fn)(**kw)
        files += v if isinstance(v, list) else [v]
    results = []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=4) as ex:
        results = list(ex.map(lambda v: v.verify(timeout=max(30, min(600, remaining() - 150))), files))
    for v, r in zip(files, results):
        log("  %-24s %-11s verified=%d errors=%d %.1fs %s" % (v.name, r["status"], r["verified"], r["errors"], r["time"], r["detail"][:300]))
        for f in r["failed"]:
            log("    failed obligation: %s -- %s" % f)
    lean = {}
    if plan.get("lean"):
        rc, o, e, dt = run(["lean", os.path.join(VERIF, "contracts", "lean", "primes.lean")], timeout=120)
        lean = dict(file="contracts/lean/primes.lean", checked=rc == 0, wall_s=round(dt, 1), output=(o + e)[-400:])
        log("  axioms in Lean: %s %.1fs" % ("checked" if rc == 0 else "NOT CHECKED", dt))
    failed = [(r["file"],) + tuple(f) for r in results for f in r["failed"] if r["status"] == "failed"]
    unavailable = [r for r in results if r["status"] in ("unavailable", "partial")]
    table, fails, hnote = {}, [], ""
    kf_lines = []
    if h:
        h.join(max(10, remaining() - 120))
        if h.is_alive() or not h.ok:
            hnote = "harness did not build: " + h.err[-500:]
            log("  " + hnote)
        else:
            base = plan.get("secs", 12) if TIER == "quick" else plan.get("secs_thorough", 90)
            procs = 2 if TIER == "quick" else 8
            if failed or unavailable:
                base, procs = max(base, 40), 8
            base = min(base, max(5, (remaining() - 60) / 2))
            table, fails, bad = h.search(base, procs, SEED)
            if failed and not fails and remaining() > 200:
                t2, fails, bad = h.search(60, 8, SEED + 77)
                for k, t in t2.items():
                    a = table.setdefault(k, t)
                    if a is not t:
                        a["evaluations"] += t["evaluations"]
            if bad:
                hnote = "%d harness processes gave no answer" % bad
                log("  " + hnote)
            for k in known(prop):
                p = os.path.join(BUILD, "kf.%s.json" % prop)
                json.dump(dict(case=k["case"], inputs=k["inputs"]), open(p, "w"))
                rc, o, e, _ = run([h.exe(), "--replay", p], timeout=60)
                if rc == 1 and "VIOLATES" in o:
                    kf_lines.append("KNOWN-FINDING: property=%s case=%s inputs=[%s] %s" % (prop, k["case"], ", ".join(k["inputs"]), k["what"]))
    for l in kf_lines:
        log(l)
    # ---- evidence
    proved = sum(r["verified"] for r in results)
    nobl = sum(r["verified"] + r["errors"] for r in results)
    ev = sum(t["evaluations"] for t in table.values())
    trusted = sorted({t for r in results for t in r["trusted"]})
    level = plan["level"] if not unavailable and results else ("exploration" if plan["level"] == "proof" else plan["level"])
    cov = dict(
        obligations=nobl, discharged=proved,
        checker_cmd="; ".join(r.get("cmd", "") for r in results) or "none",
        trusted_base=trusted + plan.get("trusted", []) + ["Verus 0.2026.09.13 front end and VC generation, Z3", "vx extraction rules (DESIGN.md)", "rustc -Zunpretty=expanded (macro expansion)"],
        evaluations=ev, distinct_nontrivial=sum(t["distinct"] for t in table.values()),
        rule="bounded cross-check on the real code (never counted as proved): boundary-biased random inputs per case, non-trivial as each case defines (inputs not degenerate); distinct counted by hash",
        samples=[dict(case=k, inputs=t["samples"][0]) for k, t in list(table.items())[:8] if t["samples"]],
        back_end="Verus / Z3 (SMT, function by function)",
        functions_under_contract=[f for r in results for f in r["fns"]],
        files=[dict(name=r["file"], status=r["status"], verified=r["verified"], errors=r["errors"], wall_s=round(r["time"], 2), smt_ms=r["smt_ms"], sha=r.get("sha"), vacuity=r["vacuity"], undecided=r["undecided"], extraction_rules=r["rules"], detail=r["detail"][:600]) for r in results],
        solver_ms=sum(r["smt_ms"] or 0 for r in results),
        bounded={k: dict(evaluations=t["evaluations"], nontrivial=t["nontrivial"]) for k, t in table.items()},
        bounded_only=plan.get("bounded", []),
        axioms_checked_in_lean=lean, harness_note=hnote, known_findings=len(kf_lines),
        explanation=plan.get("note", ""),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    nviol = len(fails) if fails else (1 if failed else 0)
    json.dump(dict(property=prop, tier="thorough" if TIER == "thorough" else "quick", seed=SEED, level=level, coverage=cov,
                   assumptions=trusted + plan.get("assume", []), wall_s=round(time.time() - T0, 2), violations=nviol),
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    log("%s: %d/%d obligations discharged in %d functions, %d bounded evaluations, %.1fs" % (prop, proved, nobl, sum(len(r["fns"]) for r in results), ev, time.time() - T0))
    rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
    if fails:
        f = fails[0]
        p = os.path.join(rd, "%s.json" % prop)
        f["replay_cmd"] = "%s --replay %s" % (h.exe(), p)
        f["failed_obligations"] = failed
        json.dump(f, open(p, "w"), indent=1)
        log("failing input on the real code: %s %s -> %s" % (f["case"], f["inputs"][:16], f["message"][:400]))
        log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if failed:
        p = os.path.join(rd, "%s.txt" % prop)
        open(p, "w").write("No failing input was found on the real code; the obligations below were discharged on the unchanged tree and now fail.\n\n" +
                           "\n".join("FAILED OBLIGATION in %s: %s\n    %s" % f for f in failed) + "\n\nverifier: " + "\n".join(r.get("cmd", "") for r in results) + "\n")
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        return 1
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
