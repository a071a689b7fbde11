"""Driver library: mirror + macro expansion, extraction (vx), assembly of Verus files, running
Verus, running the bounded harness, evidence and verdicts.  See DESIGN.md."""
import copy, fcntl, hashlib, json, os, re, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
WS = os.path.join(BUILD, "ws")
TOOLS = os.path.join(VERIF, "tools")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
CRATES = {"algebra": "algebra", "lattice": "lattice", "fhe_core": "fhe_core", "zkfhe": "zkfhe"}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
    ENV.pop(k, None)

def log(*a):
    print(*a, flush=True)

def run(cmd, **kw):
    t = time.time()
    to = kw.pop("timeout", 800)
    env = dict(ENV, **kw.pop("env", {}))
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=to, **kw)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return -999, dec(e.stdout), dec(e.stderr) + "\nTIMEOUT", time.time() - t

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)

def mirror():
    with Lock("ws"):
        rc, o, e, _ = run([sys.executable, os.path.join(TOOLS, "mkws.py"), REPO, WS, os.path.join(TOOLS, "repo.Cargo.lock")])
        if rc:
            raise RuntimeError("mirror failed: " + e)

MUTATE = None

class Unavailable(Exception):
    """The proof route cannot process the current source (lost anchor, unsupported construct)."""

def build_vx():
    with Lock("vx"):
        rc, o, e, _ = run(["cargo", "+stable", "build", "--release", "--offline", "-q"], cwd=os.path.join(TOOLS, "vx"),
                          env={"CARGO_TARGET_DIR": os.path.join(BUILD, "target-vx")})
        if rc:
            raise RuntimeError("vx build failed:\n" + e[-3000:])
    return os.path.join(BUILD, "target-vx", "release", "vx")

_expanded = {}
def expand(crates):
    """macro-expanded source of the crates, from /repo's working tree"""
    mirror()
    out = {}
    with Lock("expand"):
        for c in crates:
            if c in _expanded:
                out[c] = _expanded[c]
                continue
            own = c == "vfields"   # instances of the derive macro, outside the workspace
            rc, o, e, dt = run(["cargo", "+nightly", "rustc"] + ([] if own else ["-p", c]) + ["--lib", "--profile=check"] + ([] if own else ["--no-default-features"]) +
                               ["--offline", "--", "-Zunpretty=expanded"], cwd=os.path.join(TOOLS, "vfields") if own else WS,
                               env={"CARGO_TARGET_DIR": os.path.join(BUILD, "target-nightly")})
            if rc or len(o) < 200:
                raise RuntimeError("expansion of %s failed:\n%s" % (c, e[-3000:]))
            d = os.path.join(BUILD, "exp")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, c + ".rs")
            open(p, "w").write(o)
            _expanded[c] = out[c] = p
    return out

def sub(s, env):
    for _ in range(3):
        s = re.sub(r"\$([A-Z]+)", lambda m: str(env[m.group(1)]) if m.group(1) in env else m.group(0), s)
    return s

def squash_keep(s):
    return re.sub(r"\s+", " ", s).strip()

def squash(s):
    return re.sub(r"\s+", "", s)

class Fn:
    def __init__(self, header, name, crate="algebra", subst=None, pre=None, post=None, hints="", loops=None, end="",
                 inner=None, env=None, mod="", panics=None, cname=None, tags=(), ret=None, trusted=False, opts="", reveal="",
                 sig_subst=None, body_subst=None, self_name=None, decreases=None, method_of=None, kconsts=None, gens=False, free=False, tysub=None, op=False, vecs=None, xparams=""):
        self.__dict__.update(locals())
        self.env = env or {}
        for k in ("pre", "post"):
            v = getattr(self, k)
            setattr(self, k, [v] if isinstance(v, str) else list(v or []))
        self.loops = loops or {}
        self.kconsts = kconsts or {}
        self.inner = inner or {}
        self.subst = subst or {}
        self.id = sub("%s :: %s" % (header, name), self.env).strip() if header else sub(name, self.env)
        if self.subst:
            self.id += " {" + ",".join("%s=%s" % kv for kv in sorted(self.subst.items())) + "}"

class VFile:
    """one Verus file = prelude + functions extracted from the current source with contracts"""
    def __init__(self, name, rlimit=30):
        self.name, self.rlimit = name, rlimit
        self.parts = []      # ("text", str) | ("struct", ..) | ("const", ..) | ("fn", Fn)
        self.fns = []
        self.fnmap = []      # (start, end, Fn id)
        self.assoc_traits = {}
        self.supers = {}     # trait -> extra bounds
        self.lemmas = ""
        self.roots = set()   # when set: only these functions and what they may call are verified
        self.stubbed = {}
    def text(self, s, env=None):
        self.parts.append(("text", sub(s, env or {})))
    def include(self, fn, env=None):
        self.text(open(os.path.join(VERIF, "contracts", fn)).read(), env)
    def struct(self, name, crate="algebra", gens="", attrs="#[derive(Clone, Copy)]", extra="", mod="", subst=None, drop=(), tysub=(), out=None):
        self.parts.append(("struct", dict(name=name, crate=crate, gens=gens, attrs=attrs, extra=extra, mod=mod, subst=subst or {}, drop=drop, tysub=tysub, out=out or name)))
    def const(self, name, header, crate="algebra", out=None, ty=None, mod="", ens=None, proof="", as_fn=False, tysub=()):
        self.parts.append(("const", dict(name=name, header=header, crate=crate, out=out or name, ty=ty, mod=mod, ens=ens, proof=proof, as_fn=as_fn, tysub=tysub)))
    def anchor(self, header, name, body, crate="algebra", mod=""):
        """the named function must be exactly one of the given one-line bodies (its meaning is built into the extraction rules)"""
        self.parts.append(("anchor", dict(header=header, name=name, body=[body] if isinstance(body, str) else body, crate=crate, mod=mod)))
    def fn(self, *a, **k):
        f = Fn(*a, **k)
        self.parts.append(("fn", f))
        self.fns.append(f)
        return f

    # ---- extraction -------------------------------------------------------------------------
    def extract(self):
        crates, reqs, traits = set(), [], {}
        for kind, p in self.parts:
            if kind == "fn":
                crates.add(p.crate)
                h = sub(p.header, p.env)
                reqs.append(dict(id="fn:%d" % id(p), crate=p.crate, header=h, fn=sub(p.name, p.env), mod=p.mod,
                                 subst={k: sub(v, p.env) for k, v in p.subst.items()},
                                 prefix=re.sub(r"\W+", "_", p.id) + "_"))
                m = re.match(r"^\s*(\w+)(<.*>)?\s+for\s+(.*)$", h)
                if m and not h.startswith("trait:") and not p.free and not p.op:
                    traits.setdefault(m.group(1), p.crate)
            elif kind == "struct":
                crates.add(p["crate"])
                reqs.append(dict(id="st:%d" % id(p), crate=p["crate"], header="struct:" + p["name"], mod=p["mod"], subst=p["subst"]))
            elif kind == "anchor":
                crates.add(p["crate"])
                reqs.append(dict(id="an:%d" % id(p), crate=p["crate"], header=p["header"], fn=p["name"], mod=p["mod"], subst={}, prefix="x_"))
            elif kind == "const":
                crates.add(p["crate"])
                reqs.append(dict(id="const:" + p["out"], crate=p["crate"], header=p["header"], const=p["name"], mod=p["mod"]))
        for t, c in traits.items():
            if t not in self.assoc_traits:
                reqs.append(dict(id="tr:" + t, crate=c, header="traitdef:" + t))
                if c != "algebra":
                    reqs.append(dict(id="tr:" + t, crate="algebra", header="traitdef:" + t)); crates.add("algebra")
        files = expand(sorted(crates))
        vx = build_vx()
        p = subprocess.run([vx], input=json.dumps(dict(files=files, reqs=reqs)), capture_output=True, text=True, env=ENV)
        if p.returncode:
            raise Unavailable("vx: " + p.stderr[-2000:])
        a = json.loads(p.stdout)
        if "error" in a:
            raise Unavailable("vx: " + a["error"])
        ans = {}
        for x in a["answers"]:
            ans.setdefault(x["id"], []).extend(x["hits"])
        if self.roots:
            self.prune(ans)
        return ans, traits
    def prune(self, ans):
        """keep only the functions some root may call (by name, so a superset)"""
        body, keep = {}, set()
        for f in self.fns:
            h = ans.get("fn:%d" % id(f), [])
            b = h[0]["body"] if len(h) == 1 else ""
            ws = set(re.findall(r"\w+", b))
            for x, y in list(f.tysub or []) + list(f.body_subst or []):
                b = re.sub(x, sub(y, f.env) if "$" in y else y, b)
                ws |= set(re.findall(r"\w+", b))
            body[f] = ws
        names = set()
        for kind, p in self.parts:
            if kind == "text":
                for l in p.split("\n"):
                    if "fn " in l and "proof fn" not in l and "spec fn" not in l:
                        names |= set(re.findall(r"\w+", l))
        work = [f for f in self.fns if f.op or sub(f.cname or f.name, f.env) in self.roots or sub(f.cname or f.name, f.env) in names or sub(f.name, f.env) in names]
        while work:
            f = work.pop()
            if f in keep: continue
            keep.add(f)
            for g in self.fns:
                if g not in keep and body[f] & {sub(g.name, g.env), sub(g.cname or g.name, g.env)}:
                    work.append(g)
        self.parts = [x for x in self.parts if x[0] != "fn" or x[1] in keep]
        self.fns = [f for f in self.fns if f in keep]

    # ---- assembly ---------------------------------------------------------------------------
    def assemble(self, vacuity=False):
        ans, traits = self.ans
        out = self.out = []
        def emit(s):
            out.append(s)
        def lineno():
            return sum(x.count("\n") + 1 for x in out) + 1
        self.fnmap = []
        self.impls = {}
        emit("#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_must_use)]")
        emit("use vstd::prelude::*;\nuse vstd::slice::*;\nuse vstd::std_specs::bits::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::arithmetic::mul::*;\nuse vstd::arithmetic::power::*;\nuse vstd::arithmetic::power2::*;\nuse vstd::bits::*;\nverus! {\nglobal size_of usize == 8;")
        # trait declarations
        used = {}
        for kind, p in self.parts:
            if kind == "fn":
                m = re.match(r"^\s*(\w+)(<.*>)?\s+for\s+(.*)$", sub(p.header, p.env))
                if m and not p.header.startswith("trait:") and not p.free and not p.op:
                    used.setdefault(m.group(1), {})[sub(p.name, p.env)] = p
        self.tinfo = {}
        for t in used:
            if t in self.assoc_traits:
                self.tinfo[t] = self.assoc_traits[t]
                continue
            hits = ans.get("tr:" + t, [])
            if not hits:
                raise Unavailable("lost anchor: trait " + t)
            self.tinfo[t] = hits[0]
        for t, ms in used.items():
            ti = self.tinfo[t]
            g = "<" + ", ".join(ti["gens"]) + ">" if ti["gens"] else ""
            emit("pub trait %s%s: Sized%s {" % (t, g, self.supers.get(t, "")))
            for a in ti["assoc"]:
                emit("    type %s;" % a)
            for m in ms:
                if m not in ti["methods"]:
                    raise Unavailable("lost anchor: %s::%s" % (t, m))
                emit(self.trait_method(ti["methods"][m], m))
            emit("}")
        groups = {}
        for kind, p in self.parts:
            if kind == "text":
                emit(p)
            elif kind == "struct":
                h = ans.get("st:%d" % id(p), [])
                if len(h) != 1:
                    raise Unavailable("lost anchor: struct " + p["name"])
                h = h[0]
                fs = [f for f in h["fields"] if f[0] not in p["drop"]]
                for a, b in p["tysub"]:
                    fs = [[f[0], re.sub(a, b, f[1])] for f in fs]
                if not h["tuple"] and not h["fields"]:
                    emit("%s\npub struct %s%s;" % (p["attrs"], p["out"], p["gens"]))
                elif h["tuple"]:
                    emit("%s\npub struct %s%s(%s);" % (p["attrs"], p["out"], p["gens"], ", ".join("pub " + f[1] for f in fs)))
                else:
                    emit("%s\npub struct %s%s { %s }" % (p["attrs"], p["out"], p["gens"], ", ".join("pub %s: %s" % tuple(f) for f in fs)))
                if p["extra"]:
                    emit(p["extra"])
            elif kind == "anchor":
                h = ans.get("an:%d" % id(p), [])
                if len(h) != 1:
                    raise Unavailable("lost anchor: %s :: %s" % (p["header"], p["name"]))
                b = re.sub(r"\s+", "", h[0]["body"])
                if b not in ["{%s}" % re.sub(r"\s+", "", x) for x in p["body"]]:
                    raise Unavailable("lost anchor: %s :: %s is %s" % (p["header"], p["name"], b[:80]))
            elif kind == "const":
                h = ans.get("const:" + p["out"], [])
                if len(h) != 1:
                    raise Unavailable("lost anchor: const " + p["name"])
                for a, b in p["tysub"]:
                    h[0]["expr"] = re.sub(a, b, h[0]["expr"])
                if p["as_fn"]:
                    start = lineno()
                    emit("pub fn %s() -> (r: %s) ensures %s { proof {%s} %s }" % (p["out"], p["ty"] or h[0]["ty"], p["ens"], ("assert(false);" if vacuity else "") + p["proof"], h[0]["expr"]))
                    self.fnmap.append((start, lineno(), "const " + p["out"]))
                    continue
                if p["ens"]:
                    emit("pub exec const %s: %s ensures %s { proof {%s} %s }" % (p["out"], p["ty"] or h[0]["ty"], p["ens"], p["proof"], h[0]["expr"]))
                    continue
                emit("pub const %s: %s = %s;" % (p["out"], p["ty"] or h[0]["ty"], h[0]["expr"]))
            else:
                hits = ans.get("fn:%d" % id(p), [])
                if len(hits) != 1:
                    raise Unavailable("lost anchor: %s (%d matches)" % (p.id, len(hits)))
                self.emit_fn(p, hits[0], emit, lineno, vacuity)
        for hdr, lst in self.impls.items():
            m = re.match(r"^\s*(\w+)(<.*>)?\s+for\s+(.*)$", hdr)
            emit("impl %s%s for %s {" % (m.group(1), m.group(2) or "", m.group(3)))
            for a, t in lst[0][0].items():
                emit("    type %s = %s;" % (a, t))
            for _, spec, fn, fid in lst:
                emit(spec)
                start = lineno()
                emit(fn)
                self.fnmap.append((start, lineno(), fid))
            emit("}")
        emit("} // verus!\nfn main() {}\n")
        return "\n".join(out)

    @staticmethod
    def param_list(params):
        return ", ".join((("mut " if q.get("mut") else "") + q["name"] + ": " + q["ty"]) if q["name"] != "self" else q["recv"] for q in params)

    @staticmethod
    def spec_ty(q):
        t = q["ty"]
        if q["name"] == "self":
            return "Self"
        if q["mutref"]:
            t = re.sub(r"^&\s*('\w+\s+)?mut\s+", "", t)
            m = re.match(r"^\[(.*)\]$", t.strip())
            if m and ";" not in t:
                return "Seq<%s>" % m.group(1)
        elif q["ref"]:
            t = re.sub(r"^&\s*('\w+\s+)?", "", t)
            m = re.match(r"^\[(.*)\]$", t.strip())
            if m and ";" not in t:
                return "Seq<%s>" % m.group(1)
        return t

    def spec_sig(self, params, ret, post):
        ps = ["a%d: %s" % (i, self.spec_ty(q)) for i, q in enumerate(params)]
        if post:
            ps += ["n%d: %s" % (i, self.spec_ty(q)) for i, q in enumerate(params) if q["mutref"]]
            if ret:
                ps.append("r: " + ret)
        return ", ".join(ps)

    def spec_args(self, params, ret, post):
        def isslice(q):
            return self.spec_ty(q).startswith("Seq<")
        a = []
        for q in params:
            n = q["name"]
            if q["mutref"]:
                a.append(("old(%s)@" if isslice(q) else "*old(%s)") % n)
            elif q["ref"]:
                a.append(("%s@" if isslice(q) else "*%s") % n)
            else:
                a.append(n)
        if post:
            for q in params:
                if q["mutref"]:
                    a.append(("final(%s)@" if isslice(q) else "*final(%s)") % q["name"])
            if ret:
                a.append("r")
        return ", ".join(a)

    def trait_method(self, m, name):
        ps, ret = m["params"], m["ret"]
        for i, q in enumerate(ps):
            q["mut"] = False
        s = "    spec fn %s__pre(%s) -> bool;\n" % (name, self.spec_sig(ps, ret, False))
        s += "    spec fn %s__post(%s) -> bool;\n" % (name, self.spec_sig(ps, ret, True))
        s += "    fn %s(%s)%s\n        requires Self::%s__pre(%s),\n        ensures Self::%s__post(%s);\n" % (
            name, self.param_list(ps), " -> (r: %s)" % ret if ret else "",
            name, self.spec_args(ps, ret, False), name, self.spec_args(ps, ret, True))
        return s

    def subst_pos(self, s, f, params, mode):
        """mode 'spec': a0,n0 ; 'exec': parameter names, old()/final()"""
        def rep(m):
            k = m.group(1)
            if k == "r":
                return "r"
            mm = re.match(r"^([onga]?)(\d+)$", k)
            if not mm:
                return m.group(0)
            kind, i = mm.group(1), int(mm.group(2))
            if i >= len(params):
                raise Unavailable("lost anchor: parameter %d of %s" % (i, f.id))
            q = params[i]
            sl = self.spec_ty(q).startswith("Seq<")
            if mode == "spec":
                if kind == "n":
                    return "n%d" % i
                return "a%d" % i
            nm = q["name"]
            if kind == "g":
                return "__g%d" % i
            if mode == "opreq":
                return nm
            if kind == "o":
                return ("old(%s)@" if sl else "(*old(%s))") % nm if q["mutref"] else nm
            if kind == "n":
                return ("final(%s)@" if sl else "(*final(%s))") % nm if q["mutref"] else nm
            if mode == "req" and q["mutref"]:
                return ("old(%s)@" if sl else "(*old(%s))") % nm
            if mode in ("req", "ens") and q["ref"] and not q["mutref"]:
                return ("%s@" if sl else "(*%s)") % nm
            if kind == "a":  # abstract value: view of slices, deref of refs
                return ("%s@" if sl else "(*%s)") % nm if q["ref"] else nm
            return nm
        return re.sub(r"\$([onga]?\d+|r)(?![A-Za-z0-9_])", rep, sub(s, f.env))

    def emit_fn(self, f, h, emit, lineno, vacuity, owner=None):
        """contract + real body; when the body cannot be processed, contract only (the function is
        then undecided on this tree and reported so, never counted as proved)"""
        if f.id not in self.stubbed:
            saved = list(self.fnmap), {k: list(v) for k, v in self.impls.items()}, len(self.out)
            try:
                return self.emit_fn_body(f, h, emit, lineno, vacuity, owner)
            except Unavailable as e:
                if "lost anchor: parameter" in str(e) or "arity" in str(e):
                    raise
                self.fnmap, self.impls = saved[0], saved[1]
                del self.out[saved[2]:]
                self.stubbed[f.id] = str(e)
        h = dict(h, errors=[], inner=[], consts=[], body="{ unimplemented!() }", loops=0, has_return=False)
        g = copy.copy(f)
        g.loops, g.inner, g.hints, g.end, g.body_subst, g.panics, g.decreases = {}, {}, "", "", None, None, None
        g.opts = "#[verifier::external_body]"
        self.emit_fn_body(g, h, emit, lineno, False, owner)
        f.hit = h
    def emit_fn_body(self, f, h, emit, lineno, vacuity, owner=None):
        if h["errors"]:
            raise Unavailable("unsupported construct in %s: %s" % (f.id, "; ".join(h["errors"])))
        if max([-1] + [int(k) for k in f.loops]) + 1 != h["loops"]:
            raise Unavailable("lost anchor: %s has %d loops, contract written for %d" % (f.id, h["loops"], len(f.loops)))
        for q in h["params"]:
            if q["name"].startswith("?"):
                raise Unavailable("pattern parameter in " + f.id)
        if any(q["name"] == "r" for q in h["params"]):
            # the contract language calls the result r: a parameter of that name is renamed
            h = copy.deepcopy(h)
            h["body"] = re.sub(r"(?<!\.)(?<!\. )\br\b", "r__p", h["body"])
            for q in h["params"]:
                if q["name"] == "r": q["name"] = "r__p"
        if f.tysub:
            h = copy.deepcopy(h)
            for a, b in f.tysub:
                b = sub(b, f.env)
                h["body"] = re.sub(a, b, h["body"])
                h["ret"] = h["ret"] and re.sub(a, b, h["ret"])
                for q in h["params"]:
                    q["ty"] = re.sub(a, b, q["ty"])
        if h["params"] and h["params"][0].get("recv") == "mut self":
            # rule mut-self: `mut self` becomes a local `__self`
            h = copy.deepcopy(h)
            h["params"][0]["recv"] = "self"
            h["body"] = "{ let mut __self = self; " + re.sub(r"\bself\b", "__self", h["body"]) + " }"
            h["rules"] = sorted(set(h.get("rules", [])) | {"mut-self"})
        if f.vecs:
            # rule vec-view: indexing and len() of a wrapper of a coefficient vector go to the vector (its Index/iter impls are anchored)
            h = copy.deepcopy(h)
            strip = lambda t: re.sub(r"^\s*&\s*('\w+\s+)?(mut\s+)?", "", t).strip()
            own = sub(f.method_of or re.sub(r"^.* for ", "", sub(f.header, f.env)), f.env)
            for a, b in f.tysub or []:
                own = re.sub(a, sub(b, f.env), own)
            names = {}
            for q in h["params"]:
                t = strip(q["ty"]) if q["name"] != "self" else "Self"
                t = strip(own) if t == "Self" else t
                if t in f.vecs:
                    names[q["name"]] = f.vecs[t]
            if "self" in names:
                names["__self"] = names["self"]
            names.update(f.vecs.get("", {}))
            for n, fld in names.items():
                h["body"] = re.sub(r"(?<![\w.])%s\s*\[" % n, "%s . %s [" % (n, fld), h["body"])
                h["body"] = re.sub(r"(?<![\w.])%s\s*\.\s*len\s*\(" % n, "%s . %s . len (" % (n, fld), h["body"])
            h["rules"] = sorted(set(h.get("rules", [])) | {"vec-view"})
        f.hit = h
        params = h["params"]
        for c in h["consts"]:
            m = re.match(r"const\s+(\w+)\s*:\s*(\S+)\s*=\s*(.*?);?$", c.strip(), re.S)
            spec = next((v for k, v in f.kconsts.items() if m.group(1).endswith("_" + k)), None)
            if spec:
                emit("pub exec const %s: %s ensures %s == %s { proof { %s } %s }" % (m.group(1), m.group(2), m.group(1), sub(spec[0], f.env), sub(spec[1], f.env), m.group(3)))
            else:
                emit("pub " + c)
        prefix = re.sub(r"\W+", "_", f.id) + "_"
        innames = {x["name"]: x for x in h["inner"]}
        for x in h["inner"]:
            c = f.inner.get(x["name"])
            if c is None:
                raise Unavailable("lost anchor: inner fn %s of %s has no contract" % (x["name"], f.id))
            g = Fn("", x["name"], env=f.env, **c)
            g.id = f.id + "::" + x["name"]
            g.free_name = prefix + x["name"]
            self.emit_fn(g, x, emit, lineno, vacuity, owner=f)
        hdr = sub(f.header, f.env)
        body = h["body"].strip()
        if MUTATE:   # dev only (tools/mut.py): strength of the contracts
            body = MUTATE(f, body)
        assert body.startswith("{") and body.endswith("}")
        mode_inv = "exec"
        S = lambda s: self.subst_pos(s, f, params, "exec")
        M = lambda s: re.sub(r"\$m(\d+)", lambda m: (h["muts"][int(m.group(1))] if int(m.group(1)) < len(h["muts"]) else self._lost(f, "local")), re.sub(r"\$l(\d+)", lambda m: (h["lets"][int(m.group(1))] if int(m.group(1)) < len(h["lets"]) else self._lost(f, "local")), s))
        if f.body_subst:
            for a, b in f.body_subst:
                body = a(body, f) if callable(a) else re.sub(a, b, body)
        if f.panics is not None:
            body = re.sub(r"vpanic\s*\(\s*\)", lambda m: "{ assert(%s); vdiverge() }" % S(f.panics), body)
        for k in range(h["loops"]):
            L = f.loops.get(k, {})
            inv = L.get("inv", [])
            inv = [inv] if isinstance(inv, str) else inv
            txt = ""
            if L.get("accty"):
                body = re.sub(r"let mut __acc%d\s*=\s*Vec\s*::\s*new" % k, "let mut __acc%d : %s = Vec :: new" % (k, sub(L["accty"], f.env)), body)
            L = dict(L, invariant=inv)
            for kw in ("invariant_except_break", "invariant", "ensures"):
                if L.get(kw):
                    v = L[kw]
                    v = [v] if isinstance(v, str) else v
                    txt += "\n        %s " % kw + ", ".join("(" + M(S(i)) + ")" for i in v) + ","
            dec = L.get("dec", "__n%d - __i%d" % (k, k))
            if dec:
                txt += "\n        decreases " + M(S(dec)) + ","
            head = M(S(L.get("head", "")))
            gh = M(S(L.get("ghost", "")))
            body = re.sub(r"\{\s*__VX_LOOP\s*!\s*\(\s*%d\s*\)\s*;" % k, lambda m: txt + "\n    {\n" + gh + "\n" + (head and "proof {%s}\n" % head), body)
            for mk, key in (("TAIL", "tail"), ("BEFORE", "before"), ("AFTER", "after"), ("BRK", "brk")):
                c = M(S(L.get(key, "")))
                body = re.sub(r"__VX_%s\s*!\s*\(\s*%d\s*\)\s*;" % (mk, k), lambda m: ("proof {%s}\n" % c) if c and not c.startswith("let ghost") else c, body)
        body = re.sub(r"__VX_\w+\s*!\s*\(\s*\d+\s*\)\s*;", "", body)
        hints = M(S(f.hints))
        ghosts = ""
        alltext = body + hints + f.end
        for i, q in enumerate(params):
            if re.search(r"__g%d\b" % i, alltext):
                e = ("*old(%s)" if False else "%s") % q["name"]
                if q["mutref"]:
                    e = ("old(%s)@" if self.spec_ty(q).startswith("Seq<") else "*old(%s)") % q["name"]
                if q["name"] == "self" and re.search(r"for\s*&\s*\[[^;]*\]$", hdr):
                    e = "self@"
                elif q["ref"] and not q["mutref"]:
                    e = ("%s@" if self.spec_ty(q).startswith("Seq<") else "*%s") % q["name"]
                ghosts += "let ghost __g%d = %s;\n" % (i, e)
        ent = ghosts + ("proof { assert(false); }\n" if vacuity else "") + ("proof {%s}\n" % hints if hints.strip() else "")
        inner_body = body[1:-1]
        if f.end:
            if h["has_return"]:
                raise Unavailable("early return in " + f.id)
            inner_body = " let __r = {%s};\nproof {%s}\n__r" % (inner_body, M(S(f.end)).replace("$R", "__r"))
        ret = h["ret"]
        # xparams: a ghost-state parameter of the contract (rule ghost-param), put before the real ones
        plist = ", ".join(x for x in (f.xparams, self.param_list(params)) if x)
        m = re.match(r"^\s*(\w+)(<.*>)?\s+for\s+(.*)$", hdr)
        attrs = f.opts + "\n" if f.opts else ""
        if f.op:
            # an operator trait of std, implemented with the contract and the extracted body
            st = m.group(3)
            for a, b in f.tysub or []:
                st = re.sub(a, sub(b, f.env), st)
            tr, nm = m.group(1), h["name"]
            asgn = tr.endswith("Assign")
            rt = params[1]["ty"] if len(params) > 1 else None
            low = re.sub(r"(?<=.)([A-Z])", r"_\1", tr).lower()
            req = " && ".join("(%s)" % self.subst_pos(x, f, params, "opreq") for x in f.pre) or "true"
            ens = [self.subst_pos(x, f, params, "ens") for x in f.post]
            g = "<%s>" % rt if rt else ""
            rp = ", %s: %s" % (params[1]["name"], rt) if rt else ""
            s = "impl vstd::std_specs::ops::%sSpecImpl%s for %s {\n    open spec fn obeys_%s_spec() -> bool { false }\n    open spec fn %s_req(%sself%s) -> bool { %s }\n    open spec fn %s_spec(%sself%s) -> %s { arbitrary() }\n}\n" % (
                tr, g, st, low, low, "&" if asgn else "", rp, req, low, "&" if asgn else "", rp, "&" + st if asgn else ret)
            s += "impl core::ops::%s%s for %s {\n%s    %sfn %s(%s)%s\n        ensures %s,\n{\n%s%s\n}\n}" % (
                tr, g, st, "" if asgn else "    type Output = %s;\n" % ret, attrs, nm, plist, " -> (r: %s)" % ret if ret else "", ", ".join("(%s)" % x for x in ens), ent, inner_body)
            start = lineno()
            emit(s)
            self.fnmap.append((start, lineno(), f.id))
        elif m and not hdr.startswith("trait:") and not f.free:
            ti = self.tinfo[m.group(1)]
            decl = ti["methods"][sub(f.name, f.env)]
            if len(decl["params"]) != len(params):
                raise Unavailable("lost anchor: arity of " + f.id)
            C = lambda s: self.subst_pos(s, f, params, "spec")
            assoc = {a: h.get("assoc", {}).get(a, "()") for a in ti["assoc"]}
            spec = "    open spec fn %s__pre(%s) -> bool { %s }\n" % (decl["name"], self.spec_sig(params, None, False), " && ".join("(%s)" % C(x) for x in f.pre) or "true")
            spec += "    open spec fn %s__post(%s) -> bool { %s }\n" % (decl["name"], self.spec_sig(params, ret, True), " && ".join("(%s)" % C(x) for x in f.post) or "true")
            fn = "    %sfn %s(%s)%s\n{\n%s%s\n}" % (attrs, decl["name"], plist, " -> (r: %s)" % ret if ret else "", ent, inner_body)
            self.impls.setdefault(squash_keep(hdr), []).append((assoc, spec, fn, f.id))
        else:
            req = [self.subst_pos(x, f, params, "req") for x in f.pre]
            ens = [self.subst_pos(x, f, params, "ens") for x in f.post]
            name = getattr(f, "free_name", None) or f.cname and sub(f.cname, f.env) or h["name"]
            fg = "<%s>" % h["generics"] if f.gens and h.get("generics") else ""
            sg = "    %spub fn %s%s(%s)%s\n" % (attrs, name, fg, plist, " -> (r: %s)" % ret if ret else "")
            if req:
                sg += "        requires " + ", ".join("(%s)" % x for x in req) + ",\n"
            if ens:
                sg += "        ensures " + ", ".join("(%s)" % x for x in ens) + ",\n"
            if f.decreases:
                sg += "        decreases " + S(f.decreases) + ",\n"
            s = sg + "{\n%s%s\n}" % (ent, inner_body)
            owner_ty = f.method_of or (hdr if hdr and not hdr.startswith("trait:") and not f.free else "")
            if owner_ty:
                gens = ""
                gm = re.match(r"^<([^>]*)>\s*(.*)$", owner_ty)
                s = "impl %s {\n%s\n}" % (sub(owner_ty, f.env), s)
            start = lineno()
            emit(s)
            self.fnmap.append((start, lineno(), f.id))

    def _lost(self, f, what):
        raise Unavailable("lost anchor: %s in %s" % (what, f.id))

    # ---- running ----------------------------------------------------------------------------
    def verify(self, vacuity=True, timeout=600, _depth=0):
        """-> dict(status ok|failed|unavailable, verified, errors, failed:[(fn, message)], time, ...)"""
        res = dict(file=self.name, status="unavailable", verified=0, errors=0, failed=[], time=0.0, smt_ms=0, detail="", fns=[], vacuity=None, rules=[], trusted=[], undecided={})
        d = os.path.join(BUILD, "verus"); os.makedirs(d, exist_ok=True)
        try:
            self.ans = self.extract()
            text = self.assemble()
        except Unavailable as e:
            res["detail"] = str(e)
            return res
        path = os.path.join(d, self.name + ".rs")
        open(path, "w").write(text)
        res["path"] = path
        res["sha"] = hashlib.sha256(text.encode()).hexdigest()[:16]
        res["fns"] = [x[2] for x in self.fnmap if x[2] not in self.stubbed]
        res["rules"] = sorted({r for f in self.fns if hasattr(f, "hit") for r in f.hit["rules"]})
        clean = re.sub(r"//[^\n]*", "", text)
        for pat in (r"\bassume\s*\(", r"\badmit\s*\(", r"external_body[^;{]*?fn\s+(\w+)", r"assume_specification[^\[]*\[\s*([^\]]*(?:\[[^\]]*\])?[^\]]*)\]", r"uninterp\s+spec\s+fn\s+(\w+)", r"axiom\s+fn\s+(\w+)"):
            for m in re.finditer(pat, clean):
                res["trusted"].append(re.sub(r"\s+", " ", m.group(0))[:110])
        cmd = ["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "8", "--multiple-errors", "3", "--rlimit", str(self.rlimit)]
        res["cmd"] = " ".join(cmd)
        vac = {}
        vt = None
        def vrun(t):
            p2 = os.path.join(d, self.name + "_vacuity.rs")
            open(p2, "w").write(t)
            vac["out"] = run(["verus", p2, "--output-json", "--error-format=json", "--num-threads", "8", "--multiple-errors", "0", "--rlimit", str(self.rlimit)], cwd=d, timeout=timeout)
        if vacuity and not self.stubbed:
            fm = list(self.fnmap)
            t_vac = self.assemble(vacuity=True); vmap = list(self.fnmap); self.fnmap = fm
            vt = threading.Thread(target=vrun, args=(t_vac,), daemon=True); vt.start()
        rc, o, e, dt = run(cmd, cwd=d, timeout=timeout)
        res["time"] = dt
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        errs = [x for x in diags if x.get("level") == "error" and x.get("spans")]
        errs_all = [x for x in diags if x.get("level") == "error"]
        try:
            j = json.loads(o)
            vr = j["verification-results"]
        except Exception:
            res["detail"] = "verus gave no result: " + (o + e)[-1500:]
            return res
        def located():
            return {w for x in errs_all for w in self.wheres(x)} - set(self.stubbed)
        bad_front = bool(vr.get("encountered-vir-error") or "verified" not in vr or (vr["errors"] == 0 and not vr.get("success")))
        if bad_front and located() and _depth < 5:
            for x in errs_all:
                for w in self.wheres(x):
                    self.stubbed.setdefault(w.split("::inner::")[0], "not accepted by the front end: " + x["message"][:200])
            return self.verify(vacuity, timeout, _depth + 1)
        if vr.get("encountered-vir-error") or "verified" not in vr:
            res["detail"] = "not accepted by the front end: " + " | ".join(self.where(x) + x["message"][:300] for x in errs_all[:6])
            return res
        res["verified"], res["errors"] = vr["verified"], vr["errors"]
        try:
            res["smt_ms"] = j["times-ms"]["smt"]["total"]
        except Exception:
            pass
        fl, soft = [], []
        for x in errs:
            w = self.where(x)
            msg = x["message"]
            rec = (w.strip(" :") or "lemma", msg + " @ " + "; ".join("%d: %s" % (s["line_start"], (s["text"][0]["text"].strip() if s["text"] else "")[:140]) for s in x["spans"][:3]))
            if re.search(r"[Rr]esource limit|rlimit|timed? ?out|canceled", msg):
                soft.append(rec)
            else:
                fl.append(rec)
        if soft and not fl and self.rlimit < 100:   # solver budget only: one retry with four times the budget
            self.rlimit *= 4
            return self.verify(vacuity, timeout, _depth)
        res["failed"], res["soft"] = fl, soft
        if vr["errors"] == 0 and not vr.get("success"):
            res["failed"] = []
            res["detail"] = "not accepted by the front end: " + " | ".join(self.where(x) + x["message"][:300] + " @ " + ",".join(str(y["line_start"]) for y in x["spans"]) for x in errs_all[:6])
        elif vr["errors"] == 0 and vr.get("success"):
            res["status"] = "ok"
        elif fl:
            res["status"] = "failed"
        else:
            res["detail"] = "undecided: " + "; ".join("%s %s" % s for s in soft)
        res["undecided"] = dict(self.stubbed)
        for w, m in soft:
            res["undecided"][w] = "verifier resource limit: " + m[:200]
        if vacuity and res["status"] == "ok":
            if vt is None:
                t = self.assemble(vacuity=True); vmap = list(self.fnmap)
                vrun(t)
            else:
                vt.join()
            rc, o, e, dt = vac["out"]
            self.fnmap = vmap
            bad = set()
            for l in e.splitlines():
                if l.startswith("{"):
                    x = json.loads(l)
                    if x.get("level") == "error":
                        for w in self.wheres(x):
                            bad.add(w)
            missing = [f for f in res["fns"] if f not in bad]
            res["vacuity"] = dict(expected=len(res["fns"]), reached=len(res["fns"]) - len(missing), missing=missing)
            if missing:
                res["status"] = "unavailable"
                res["detail"] = "vacuous precondition (entry not reachable): " + ", ".join(missing[:5])
        if res["undecided"] and res["status"] in ("ok", "unavailable") and not res["detail"].startswith("vacuous"):
            res["status"] = "partial"
            res["detail"] = "undecided: " + "; ".join("%s (%s)" % kv for kv in res["undecided"].items())
        return res
    def wheres(self, x):
        out = []
        for s in x.get("spans", []):
            if not re.search(r"(^|/)%s(_vacuity)?\.rs$" % re.escape(self.name), s.get("file_name", self.name + ".rs")):
                continue
            for a, b, i in self.fnmap:
                if a <= s["line_start"] < b:
                    out.append(i)
        return out
    def where(self, x):
        w = self.wheres(x)
        if w:
            return w[0] + " : "
        return ""
