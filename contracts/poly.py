"""C13: polynomials and transformed polynomials over an arbitrary prime field with canonical values"""
import re
from common import *
from vlib import VFile
SUB = {"F": "Fe"}
TY = [(r"\bNTTPolynomial\s*(::\s*)?<\s*Fe\s*>", "NTTPolynomial"), (r"\bPolynomial\s*(::\s*)?<\s*Fe\s*>", "Polynomial"), (r"<\s*(NTTPolynomial|Polynomial)\s*>\s*::", r"\1::"), (r"\bSelf\s*::\s*Output\b", "$SELF"), (r"Vec\s*<\s*F\s*>", "Vec<Fe>"), (r"\bF\s*::", "Fe::"), (r"\bfrom_elem\s*\(", "vfrom_elem("), (r"\bself\s*\.\s*data\s*\.\s*fill\s*\(", "vfill(&mut self.data, "), (r"\bself\s*\.\s*data\s*\.\s*copy_from_slice\s*\(", "vcopy(&mut self.data, "), (r"\b(\w+)\s*\.\s*to_vec\s*\(\s*\)", r"vto_vec(\1)"),
      (r"\b(\w+(?:\s*\.\s*coeff_count\s*\(\s*\))?)\s*\.\s*trailing_zeros\s*\(\s*\)", r"vtz(\1)"), (r"\b(\w+(?:\s*\.\s*coeff_count\s*\(\s*\))?)\s*\.\s*is_power_of_two\s*\(\s*\)", r"vispow2(\1)"),
      (r"\bNTTPolynomial\s*::\s*from\s*\(", "NTTPolynomial::from_poly("), (r"\bPolynomial\s*::\s*from\s*\(", "Polynomial::from_ntt(")]
VECS = {"Polynomial": "data", "NTTPolynomial": "data"}
def base(v):
    v.include("std.rs")
    v.include("absfield.rs")
    v.include("absfield_ops.rs")
    v.text("""
/// std: vec![e; n], fill, copy_from_slice, to_vec
#[verifier::external_body]
pub fn vfrom_elem(e: Fe, n: usize) -> (r: Vec<Fe>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == e, { vec![e; n] }
#[verifier::external_body]
pub fn vfill(d: &mut Vec<Fe>, e: Fe) ensures final(d)@.len() == old(d)@.len(), forall|i: int| 0 <= i < old(d)@.len() ==> final(d)@[i] == e, { d.fill(e) }
#[verifier::external_body]
pub fn vcopy(d: &mut Vec<Fe>, s: &[Fe]) requires old(d)@.len() == s@.len(), ensures final(d)@ == s@, { d.copy_from_slice(s) }
#[verifier::external_body]
pub fn vto_vec(s: &[Fe]) -> (r: Vec<Fe>) ensures r@ == s@, { s.to_vec() }
broadcast use {absax::axiom_fv, absax::axiom_lazy};
""")
def anchors(v, n):
    v.anchor(n + "<F>", "iter", "self.data.iter()")
    v.anchor(n + "<F>", "iter_mut", "self.data.iter_mut()")
    v.anchor("IntoIterator for &'a%s<F>" % n, "into_iter", "self.data.iter()")
    v.anchor("IntoIterator for &'amut%s<F>" % n, "into_iter", "self.data.iter_mut()")
    v.anchor("IntoIterator for %s<F>" % n, "into_iter", "self.data.into_iter()")
    v.anchor("Index<I> for %s<F>" % n, "index", "Index::index(&*self.data, index)")
    v.anchor("IndexMut<I> for %s<F>" % n, "index_mut", "IndexMut::index_mut(&mut *self.data, index)")
def lens(post):
    """lengths of the vectors a postcondition speaks about"""
    post = [post] if isinstance(post, str) else list(post)
    for p in list(post):
        g = re.match(r"^pv\((\$\w+)\.data@\) == (.*)$", p)
        if g:
            q = re.match(r"pzero\((.*)\)$", g.group(2))
            l = q.group(1) if q else re.search(r"pv\((\$\w+\.data@)\)", g.group(2)).group(1) + ".len()"
            post.insert(0, "%s.data@.len() == %s" % (g.group(1), l))
    return post
def m(v, n, header, name, **k):
    """method or operator of polynomial type n"""
    k["post"] = lens(k.get("post", []))
    if "op" not in k: k["op"] = " for " in header
    if not k["op"]: k.update(free=True, method_of=k.get("method_of", n))
    return v.fn(header, name, subst=SUB, env=dict(SELF=n), tysub=TY, vecs=VECS, **k)
W = lambda *x: ["wf(%s.data@)" % t for t in x]
L = lambda a, *b: ["%s.data@.len() == %s.data@.len()" % (a, t) for t in b]
def upd(elem, spec, srcs=(), d="self", g="__g0", wfg=True, lazy=False):
    """contract of the loop that overwrites every d[j] by elem(j); g is d's entry value, srcs are read-only operands"""
    c = "lazy" if lazy else "canon"
    inv = ["0 <= __i0 <= __n0", "__n0 == %s.data@.len()" % g, "%s.data@.len() == __n0" % d, "forall|j: int| __i0 <= j < __n0 ==> #[trigger] %s.data@[j] == %s.data@[j]" % (d, g)]
    if wfg: inv += ["wf(%s.data@)" % g]
    inv += ["forall|j: int| 0 <= j < __i0 ==> %s(#[trigger] %s.data@[j])" % (c, d), "forall|j: int| 0 <= j < __i0 ==> fv(#[trigger] %s.data@[j]) == %s" % (d, elem)]
    for s in srcs: inv += ["wf(%s.data@)" % s, "%s.data@.len() == __n0" % s]
    return {0: dict(inv=inv, after="assert(pv(%s.data@) =~= %s);" % (d, spec))}
def coll(elem, spec, srcs, extra=()):
    inv = ["0 <= __i0 <= __n0", "__acc0@.len() == __i0", "forall|j: int| 0 <= j < __i0 ==> canon(#[trigger] __acc0@[j])", "forall|j: int| 0 <= j < __i0 ==> fv(#[trigger] __acc0@[j]) == " + elem] + list(extra)
    for s in srcs: inv += ["wf(%s.data@)" % s, "%s.data@.len() == __n0" % s]
    return {0: dict(inv=inv, accty="Vec<Fe>", after="assert(pv(__acc0@) =~= %s);" % spec)}
def elementwise(v, n):
    anchors(v, n)
    v.struct(n, tysub=[(r"\bF\b", "Fe")], attrs="")
    v.text("impl Clone for $N { #[verifier::external_body] fn clone(&self) -> (r: $N) ensures r == *self { unimplemented!() } }\n", dict(N=n))
    H = "%s<Fe>" % n
    nt = n == "NTTPolynomial"
    m(v, n, H, "new", post="$r.data == $0")
    m(v, n, H, "data", post="$r == $0.data")
    m(v, n, H, "coeff_count", post="$r == $0.data@.len()")
    m(v, n, H, "as_slice", post="$r@ == $0.data@")
    m(v, n, H, "as_mut_slice", post=["$r@ == $o0.data@", "final($r)@ == $n0.data@"])
    m(v, n, H, "data_mut", post=["*$r == $o0.data", "*final($r) == $n0.data"])
    m(v, n, H, "zero", post=["wf($r.data@)", "pv($r.data@) == pzero($0 as nat)"], end="assert(pv($R.data@) =~= pzero($0 as nat));")
    m(v, n, H, "is_zero", pre="wf($0.data@)", post="$r == (forall|j: int| 0 <= j < $0.data@.len() ==> fv(#[trigger] $0.data@[j]) == 0)",
      loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == self.data@.len()", "wf(self.data@)"], invariant_except_break=["__acc0", "forall|j: int| 0 <= j < __i0 ==> fv(#[trigger] self.data@[j]) == 0"],
                     ensures=["__acc0 ==> forall|j: int| 0 <= j < __n0 ==> fv(#[trigger] self.data@[j]) == 0", "!__acc0 ==> exists|j: int| 0 <= j < __n0 && fv(#[trigger] self.data@[j]) != 0"])})
    m(v, n, H, "set_zero", post=["wf($n0.data@)", "pv($n0.data@) == pzero($o0.data@.len())"], hints="", end="assert(pv(self.data@) =~= pzero(__g0.data@.len()));")
    m(v, n, H, "copy_from", pre=["$o0.data@.len() == $1.len()"], post=["$n0.data@ == $1"])
    m(v, n, H, "from_slice", post=["$r.data@ == $0"])
    # element by element
    sc = "fmul(fv(%s.data@[j]), fv($1))"
    m(v, n, H, "mul_scalar", pre=W("$0") + ["canon($1)"], post=["wf($r.data@)", "pv($r.data@) == pscale(pv($0.data@), fv($1))"],
      loops=coll("fmul(fv($0.data@[j]), fv($1))", "pscale(pv($0.data@), fv($1))", ["$0"], ["canon($1)"]))
    lp = upd("fmul(fv(__g0.data@[j]), fv($1))", "pscale(pv(__g0.data@), fv($1))"); lp[0]["inv"].append("canon($1)")
    m(v, n, H, "mul_scalar_assign", pre=W("$0") + ["canon($1)"], post=["wf($n0.data@)", "pv($n0.data@) == pscale(pv($o0.data@), fv($1))"], loops=lp)
    ops = [("add", "padd"), ("sub", "psub")] + ([("mul", "pmul")] if nt else [])
    for o, f in ops:
        e = "f%s(fv($0.data@[j]), fv($1.data@[j]))" % o
        s = "%s(pv($0.data@), pv($1.data@))" % f
        m(v, n, H, o + "_inplace", pre=W("$0", "$1") + L("$0", "$1", "$o2"), post=["wf($n2.data@)", "pv($n2.data@) == " + s],
          loops=upd(e, s, ["$0", "$1"], d="$2", g="__g2", wfg=False))
        ea, sa = e.replace("$0", "__g0"), s.replace("$0", "__g0")
        T = o.capitalize()
        pre = W("$0", "$1") + L("$0", "$1")
        for r in (H, "&" + H):
            m(v, n, "%sAssign<%s> for %s" % (T, r, H), o + "_assign", pre=pre, post=["wf($n0.data@)", "pv($n0.data@) == " + s.replace("$0", "$o0")], loops=upd(ea, sa, ["$1"]))
            m(v, n, "%s<%s> for %s" % (T, r, H), o, pre=pre, post=["wf($r.data@)", "pv($r.data@) == " + s])
        post = ["wf($r.data@)", "pv($r.data@) == " + s]
        if o == "sub":
            m(v, n, "Sub<%s> for &%s" % (H, H), o, pre=pre, post=post, loops=upd("fsub(fv($0.data@[j]), fv(__g1.data@[j]))", "psub(pv($0.data@), pv(__g1.data@))", ["$0"], d="$1", g="__g1"))
        else:
            h = "assert(%s =~= %s(pv($1.data@), pv($0.data@)));" % (s, f)
            if o == "mul": h = "lemma_pmul_comm(pv($0.data@), pv($1.data@));"
            m(v, n, "%s<%s> for &%s" % (T, H, H), o, pre=pre, post=post, hints=h)
        m(v, n, "%s<&%s> for &%s" % (T, H, H), o, pre=pre, post=post, loops=coll(e, s, ["$0", "$1"]))
    e, s = "fneg(fv(__g0.data@[j]))", "pneg(pv(__g0.data@))"
    m(v, n, H, "neg_assign", pre=W("$0"), post=["wf($n0.data@)", "pv($n0.data@) == pneg(pv($o0.data@))"], loops=upd(e, s))
    m(v, n, "Neg for " + H, "neg", pre=W("$0"), post=["wf($r.data@)", "pv($r.data@) == pneg(pv($0.data@))"], loops=upd(e, s, d="__self"))
    m(v, n, "Neg for &" + H, "neg", pre=W("$0"), post=["wf($r.data@)", "pv($r.data@) == pneg(pv($0.data@))"], loops=coll("fneg(fv($0.data@[j]))", "pneg(pv($0.data@))", ["$0"]))
    if not nt:
        m(v, n, H, "evaluate", pre=W("$0") + ["canon($1)"], post=["canon($r)", "fv($r) == evalsum(pv($0.data@), fv($1), $0.data@.len()) % P()"],
          hints="lemma_horner0(pv($0.data@), fv($1)); axiom_p(); lemma_small_mod(0, P() as nat);",
          loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == self.data@.len()", "wf(self.data@)", "canon($1)", "canon(__acc0)", "fv(__acc0) == horner(pv(self.data@), fv($1), (__n0 - __i0) as nat) % P()"],
                         head="lemma_horner_step(fv(self.data@[__n0 - 1 - __i0]), fv(__acc0), horner(pv(self.data@), fv($1), (__n0 - __i0) as nat), fv($1));")})
def nttonly(v):
    n = "NTTPolynomial"
    e, s = "(fv($1.data@[j]) * fv($2.data@[j]) + fv(__g0.data@[j])) % P()", "paddmul(pv(__g0.data@), pv($1.data@), pv($2.data@))"
    pre = W("$1", "$2") + L("$o0", "$1", "$2")
    post = ["pv($n0.data@) == " + s.replace("__g0", "$o0")]
    f = lambda name, post=(), **k: v.fn("", name, post=lens(post), subst=SUB, env=dict(SELF=n), tysub=TY, vecs=VECS, **k)
    f("ntt_add_mul_assign", pre=pre, post=post + ["wf($n0.data@)"], loops=upd(e, s, ["$1", "$2"], d="$0", wfg=False))
    f("ntt_add_mul_assign_fast", pre=pre, post=post + ["lz($n0.data@)"], loops=upd(e, s, ["$1", "$2"], d="$0", wfg=False, lazy=True))
    f("ntt_add_mul_inplace", pre=W("$0", "$1", "$2") + L("$0", "$1", "$2", "$o3"), post=["pv($n3.data@) == paddmul(pv($0.data@), pv($1.data@), pv($2.data@))", "wf($n3.data@)"],
      loops=upd(e.replace("__g0", "$0"), s.replace("__g0", "$0"), ["$0", "$1", "$2"], d="$3", g="__g3", wfg=False))
    H = "NTTPolynomial<Fe>"
    iv = "forall|j: int| 0 <= j < $0.data@.len() ==> fv(#[trigger] $0.data@[j]) != 0"
    po = ["$r.data@.len() == $0.data@.len()", "wf($r.data@)", "forall|j: int| 0 <= j < $0.data@.len() ==> isinv(fv(#[trigger] $0.data@[j]), fv($r.data@[j]))"]
    inv = upd("", "")[0]["inv"][:-1]
    inv = [x.replace("self.", "__self.") for x in inv] + [iv.replace("$0", "__g0"), "forall|j: int| 0 <= j < __i0 ==> isinv(fv(#[trigger] __g0.data@[j]), fv(__self.data@[j]))"]
    m(v, n, "Inv for " + H, "inv", op=False, cname="inv_v", pre=W("$0") + [iv], post=po, loops={0: dict(inv=inv)})
    m(v, n, "Inv for &" + H, "inv", op=False, cname="inv_r", pre=W("$0") + [iv], post=po,
      loops={0: dict(accty="Vec<Fe>", inv=["0 <= __i0 <= __n0", "__n0 == self.data@.len()", "wf(self.data@)", iv, "__acc0@.len() == __i0", "forall|j: int| 0 <= j < __i0 ==> canon(#[trigger] __acc0@[j])", "forall|j: int| 0 <= j < __i0 ==> isinv(fv(self.data@[j]), fv(#[trigger] __acc0@[j]))"])})
def products(v):
    """products through the transform"""
    N, Pn = "NTTPolynomial", "Polynomial"
    HN, HP = "NTTPolynomial<Fe>", "Polynomial<Fe>"
    R = lambda x: ["ringn(%s.data@.len())" % x]
    h0 = "lemma_pv($0.data@); lemma_pv($1.data@); axiom_ntt(pv($0.data@), pv($1.data@)); axiom_ntt(pv($1.data@), pv($0.data@));"
    m(v, N, "From<%s> for %s" % (HP, HN), "from", op=False, cname="from_poly", pre=W("$0") + R("$0"), post=["wf($r.data@)", "$r.data@.len() == $0.data@.len()", "pv($r.data@) == ntt(pv($0.data@))"])
    m(v, Pn, "From<%s> for %s" % (HN, HP), "from", op=False, cname="from_ntt", pre=["lz($0.data@)"] + R("$0"), post=["wf($r.data@)", "$r.data@.len() == $0.data@.len()", "pv($r.data@) == intt(pv($0.data@))"])
    m(v, N, HN, "into_native_polynomial", pre=["lz($0.data@)"] + R("$0"), post=["wf($r.data@)", "$r.data@.len() == $0.data@.len()", "pv($r.data@) == intt(pv($0.data@))"])
    m(v, Pn, HP, "into_ntt_polynomial", pre=W("$0") + R("$0"), post=["wf($r.data@)", "$r.data@.len() == $0.data@.len()", "pv($r.data@) == ntt(pv($0.data@))"])
    v.fn("", "ntt_mul_assign_fast", subst=SUB, env=dict(SELF=N), tysub=TY, vecs=VECS, pre=["wf($1.data@)", "$o0.len() == $1.data@.len()"], post=["$n0.len() == $o0.len()", "lz($n0)", "pv($n0) == pmul(pv($o0), pv($1.data@))"],
         loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == __g0.len()", "$0@.len() == __n0", "$1.data@.len() == __n0", "forall|j: int| __i0 <= j < __n0 ==> #[trigger] $0@[j] == __g0[j]", "forall|j: int| 0 <= j < __i0 ==> lazy(#[trigger] $0@[j])",
                             "forall|j: int| 0 <= j < __i0 ==> fv(#[trigger] $0@[j]) == fmul(fv(__g0[j]), fv($1.data@[j]))"], after="assert(pv($0@) =~= pmul(pv(__g0), pv($1.data@)));")})
    pre = W("$0", "$1") + L("$0", "$1") + R("$0")
    s = "negmul(pv($0.data@), pv($1.data@))"
    nn = "intt(pmul(ntt(pv($0.data@)), pv($1.data@)))"
    def four(T, Ts, S, spec, hh):
        for r in (Ts, "&" + Ts):
            m(v, S, "MulAssign<%s> for %s" % (r, S + "<Fe>"), "mul_assign", pre=pre, post=["wf($n0.data@)", "pv($n0.data@) == " + spec.replace("$0", "$o0")], hints=hh)
        for r in (Ts, "&" + Ts):
            m(v, S, "Mul<%s> for %s" % (r, S + "<Fe>"), "mul", pre=pre, post=["wf($r.data@)", "pv($r.data@) == " + spec], hints=hh)
        for r in (Ts, "&" + Ts):
            m(v, S, "Mul<%s> for &%s" % (r, S + "<Fe>"), "mul", pre=pre, post=["wf($r.data@)", "pv($r.data@) == " + spec], hints=hh)
    four("", HP, Pn, s, h0)
    four("", HN, Pn, nn, h0)
    np = "pmul(pv($0.data@), ntt(pv($1.data@)))"
    hc = h0 + " lemma_pmul_comm(pv($0.data@), ntt(pv($1.data@)));"
    four("", HP, N, np, hc)
def file(name):
    v = VFile(name)
    base(v)
    elementwise(v, "Polynomial")
    elementwise(v, "NTTPolynomial")
    v.include("absntt.rs")
    nttonly(v)
    products(v)
    return v
def build():
    return [file("c13_poly")]
