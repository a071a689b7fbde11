#!/usr/bin/env python3
"""dev tool: make and validate a planted bug.  mkseed.py NAME.. | --all   (definitions in seeds_list.py)"""
import json, os, shutil, subprocess, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from seeds_list import SEEDS
W = "/tmp/seedrepo"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def scratch():
    if not os.path.isdir(W):
        sh("git clone -q /repo " + W)
    sh("cd %s && git fetch -q && git checkout -q -- . && git reset -q --hard origin/HEAD" % W)
def main(names):
    for s in SEEDS:
        if names != ["--all"] and s["id"] not in names:
            continue
        scratch()
        for f, a, b in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            n = s.get("nth", 0)
            if t.count(a) < 1:
                print(s["id"], "EDIT NOT FOUND", f, repr(a)); break
            parts = t.split(a)
            k = s.get("which", {}).get((f, a), 0)
            if len(parts) > 2 and (f, a) not in s.get("which", {}):
                print(s["id"], "AMBIGUOUS", f, repr(a), len(parts) - 1); break
            t = a.join(parts[:k + 1]) + b + a.join(parts[k + 1:])
            open(p, "w").write(t)
        else:
            d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
            diff = sh("cd %s && git diff" % W).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            for f in ("demo.sh", "mkws.py", "repo.Cargo.lock"):
                shutil.copy(os.path.join(T, "seedtpl", f), d)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "main.rs"), "w").write(s["demo"])
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            bad = sh("bash %s/demo.sh" % d, cwd=W)
            # stable tests with the patch
            env = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtarget", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="0")
            sh("python3 %s/mkws.py %s /tmp/seedws %s/repo.Cargo.lock" % (T, W, T))
            t = sh("cargo +stable test --workspace --no-default-features --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error|test result' ", cwd="/tmp/seedws", env=env)
            fails = [l for l in t.stdout.splitlines() if "FAILED" in l and l.startswith("test ") and "test result" not in l or l.startswith("error")]
            sh("cd %s && git checkout -q -- ." % W)
            good = sh("bash %s/demo.sh" % d, cwd=W)
            ok = bad.returncode not in (0, 3, 4) and good.returncode == 0 and not fails
            print(s["id"], "OK" if ok else "BAD", "patched rc", bad.returncode, (bad.stdout + bad.stderr)[-150:].strip().replace("\n", " | "), "; clean rc", good.returncode, good.stdout[-300:] if good.returncode else "", "; failing tests:", fails[:4], flush=True)
if __name__ == "__main__":
    main(sys.argv[1:])
