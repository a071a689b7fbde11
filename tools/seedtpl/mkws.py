"""Makes a private view of the cargo workspace /repo without the unreachable git dependency
concrete-ntt (same rule as the sandbox's own build script): every Cargo.toml is a copy minus the
concrete-ntt lines, everything else is a symlink into /repo.  usage: mkws.py REPO DEST LOCK"""
import os, re, shutil, sys
REPO, WS, LOCK = sys.argv[1:4]
SKIP = {".git", "target", "Cargo.lock"}
def strip(t):
    t = re.sub(r"(?m)^concrete-ntt\s*=\s*\{[^}\n]*\bgit\s*=[^}\n]*\}[^\n]*\n", "", t)
    return re.sub(r'"(?:dep:concrete-ntt|concrete-ntt\??/[^"]*)"\s*,?\s*', "", t)
def remove(p):
    if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
    elif os.path.lexists(p): os.remove(p)
def holds(p):
    for _, d, f in os.walk(p):
        d[:] = [x for x in d if x not in SKIP]
        if "Cargo.toml" in f: return True
    return False
def mirror(s0, d0):
    if os.path.islink(d0) or not os.path.isdir(d0):
        remove(d0); os.makedirs(d0)
    names = set(os.listdir(s0)) - SKIP
    for n in set(os.listdir(d0)) - names - {"Cargo.lock"}: remove(os.path.join(d0, n))
    for n in sorted(names):
        s, d = os.path.join(s0, n), os.path.join(d0, n)
        if n == "Cargo.toml":
            new = strip(open(s, encoding="utf-8").read())
            if os.path.islink(d) or not os.path.isfile(d) or open(d, encoding="utf-8").read() != new:
                remove(d); open(d, "w", encoding="utf-8").write(new)
        elif os.path.isdir(s) and not os.path.islink(s) and holds(s): mirror(s, d)
        elif not os.path.islink(d) or os.readlink(d) != s:
            remove(d); os.symlink(s, d)
mirror(REPO, WS)
if not os.path.exists(os.path.join(WS, "Cargo.lock")): shutil.copy(LOCK, os.path.join(WS, "Cargo.lock"))
